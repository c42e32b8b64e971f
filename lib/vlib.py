"""Machinery shared by the checks: run TLC on the specifications in /verif/spec,
run the drivers in /verif/harness under Jython against /repo's working tree,
and write evidence and replay files.

Everything a run produces lives in a scratch directory that is removed at the
end; only evidence/<id>.json and replays/ (both git-ignored) stay.
"""
import atexit
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
TLA_JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JYTHON = '/opt/py2/bin/jython'
NCPU = max(1, min(8, os.cpu_count() or 1))


def small(n):
    return n if -2**31 < n < 2**31 else str(n)


class MachineError(Exception):
    """The check itself failed; no verdict."""


class Run(object):
    def __init__(self, pid, level, technique):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif_%s_' % pid)
        atexit.register(self._cleanup)
        self.violations = []
        self.known = []
        self.cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'states': 0, 'transitions': 0,
                    'traces_validated_against_impl': 0, 'samples': [], 'rule': '', 'parts': []}
        self.assumptions = []
        self.skipped = {}
        self._procs = set()
        self._designs = []
        self._lock = threading.Lock()
        self._n = 0
        self._compile()

    thorough = property(lambda self: self.tier == 'thorough')

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def _cleanup(self):
        for p in list(self._procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
        shutil.rmtree(self.scratch, ignore_errors=True)

    def log(self, msg):
        print('[%s %6.1fs] %s' % (self.pid, time.time() - self.t0, msg))
        sys.stdout.flush()

    # ------------------------------------------------------------------ TLC
    def _compile(self):
        self.specdir = os.path.join(self.scratch, 'spec')
        shutil.copytree(SPEC, self.specdir)
        javas = [f for f in os.listdir(self.specdir) if f.endswith('.java')]
        r = subprocess.run(['javac', '-nowarn', '-cp', TLA_JARS] + javas, cwd=self.specdir,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise MachineError('javac: ' + r.stdout.decode())

    def tlc(self, module, cfg, files=None, args=(), workers=NCPU, heap='3g', timeout=800, name=None,
            expect_error=False):
        """Run TLC on a module with the given configuration text; returns its output.
        `files` are extra {name: text} written next to the specification."""
        with self._lock:
            self._n += 1
            d = os.path.join(self.scratch, 'tlc_%s_%d' % (name or module, self._n))
        shutil.copytree(self.specdir, d)
        with open(os.path.join(d, module + '.cfg'), 'w') as f:
            f.write(cfg)
        for n, text in (files or {}).items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(text)
        cmd = ['java', '-Xmx' + heap, '-Xss256m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4',
               '-Djava.io.tmpdir=' + d, '-cp', TLA_JARS, 'tlc2.TLC', '-deadlock', '-noGenerateSpecTE',
               '-workers', str(workers), '-fpmem', '0.2',
               '-metadir', os.path.join(d, 'meta'), '-config', module + '.cfg'] + list(args) + [module + '.tla']
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             start_new_session=True)
        self._procs.add(p)
        try:
            out = p.communicate(timeout=timeout)[0].decode('utf-8', 'replace')
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            raise MachineError('TLC on %s did not finish in %d s' % (module, timeout))
        finally:
            self._procs.discard(p)
        res = TlcResult(out, p.returncode, d)
        if p.returncode != 0 and not expect_error:
            raise MachineError('TLC on %s failed (%d):\n%s' % (module, p.returncode, out[-6000:]))
        return res

    def model_check(self, *a, **kw):
        """Exhaustively check a design; a violated invariant is a machinery
        failure (the design, not the code, is wrong).  Runs while behaviours
        are generated; `designs` waits for all of them."""
        def work():
            try:
                self._model_check(*a, **kw)
            except Exception as e:
                box.append(e)
        box = []
        before = self._designs[-1][0] if self._designs else None
        def later():
            if before:
                before.join()
            work()
        th = threading.Thread(target=later)
        self._designs.append((th, box))
        th.start()

    def designs(self):
        for th, box in self._designs:
            th.join()
            if box:
                raise box[0]
        self._designs = []

    def _model_check(self, module, cfg, files=None, name=None, what='', **kw):
        t = time.time()
        r = self.tlc(module, cfg, files=files, name=name, **kw)
        if 'Model checking completed. No error has been found.' not in r.out:
            raise MachineError('model checking %s:\n%s' % (module, r.out[-4000:]))
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated
        self.cov['parts'].append({'part': 'design', 'module': name or module, 'what': what,
                                  'distinct_states': r.distinct, 'states_generated': r.generated,
                                  'wall_s': round(time.time() - t, 1)})
        self.log('design %s: %d distinct states, %d generated' % (name or module, r.distinct, r.generated))
        return r

    def generate(self, module, cfg, num=None, depth=60, files=None, name=None, seed=None, timeout=600):
        """Behaviours of a generator specification, written by TLC as one JSON
        line each; breadth-first (exhaustive) when num is None, else simulated."""
        args = []
        if num is not None:
            args = ['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed',
                    str(self.seed if seed is None else seed)]
        r = self.tlc(module, cfg, files=files, args=args, workers=1, name=name, timeout=timeout)
        path = os.path.join(r.dir, 'stim.ndjson')
        stim = []
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    line = line.strip()
                    if line:
                        v = json.loads(line)
                        stim.append(json.loads(v) if isinstance(v, str) else v)
        shutil.rmtree(r.dir, ignore_errors=True)
        self.log('generated %d behaviours from %s' % (len(stim), name or module))
        return stim

    def validate(self, module, cfg, trace, files=None, name=None, timeout=800, heap='4g', stateful=False):
        """Judge every event of a recorded trace by the specification.  The
        trace specification takes one step per event, whatever the verdict, and
        prints a VERDICT line for each event that is not allowed."""
        if not trace and self.skipped:
            self.log('nothing to judge, all set aside: %s' % self.skipped)
            return [], None
        if not trace:
            raise MachineError('empty trace for ' + module)
        t = time.time()
        fs = dict(files or {})
        fs['trace.ndjson'] = ''.join(json.dumps(e, ensure_ascii=True) + '\n' for e in trace)
        r = self.tlc(module, cfg, files=fs, name=name, timeout=timeout, heap=heap)
        bad = []
        for line in r.out.splitlines():
            if line.startswith('"VERDICT '):
                i, clause = line.strip().strip('"').split(' ', 2)[1:]
                bad.append((int(i), clause))
        if r.distinct != len(trace) + 1 and not stateful:
            raise MachineError('%s judged %d of %d events:\n%s' % (module, r.distinct - 1, len(trace), r.out[-3000:]))
        shutil.rmtree(r.dir, ignore_errors=True)
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated
        self.cov['traces_validated_against_impl'] += len(trace)
        self.cov['parts'].append({'part': 'trace validation', 'module': name or module,
                                  'events': len(trace), 'rejected': len(bad),
                                  'distinct_states': r.distinct, 'wall_s': round(time.time() - t, 1)})
        self.log('validated %d events against %s: %d rejected' % (len(trace), name or module, len(bad)))
        bad.sort()
        return bad, r

    # --------------------------------------------------------------- Jython
    def drive(self, driver, stimuli, shards=NCPU, stall=180, env=None, heap='1500m', budget=None,
              args=(), keep_cwd=False, alone=0, flaky=None):
        """Run stimuli (JSON objects) through a driver under Jython.  Each shard
        is one process with its own working directory.  Returns one outcome per
        stimulus.  A stimulus on which the process makes no progress for `stall`
        seconds, or dies, gets the outcome {"kind": "hang"} / {"kind": "died"}.
        With a budget (seconds), stimuli not started in time are dropped.  Each
        of the first `alone` stimuli has a shard of its own.  Where the libraries
        underneath are known to crash or never to return, `flaky` names the reason
        for which such stimuli are set aside."""
        self.designs()
        shards = max(1, min(shards, len(stimuli)))
        alone = min(alone, shards - 1)
        outcomes = [None] * len(stimuli)
        errors = []
        deadline = time.time() + budget if budget else None

        def work(k):
            todo = [k] if k < alone else list(range(k, len(stimuli), shards - alone))
            attempt = 0
            while todo:
                if deadline and time.time() > deadline:
                    return
                attempt += 1
                d = os.path.join(self.scratch, 'drv_%s_%d_%d_%d' % (driver, k, attempt, id(stimuli) % 100000))
                os.makedirs(d)
                with open(os.path.join(d, 'in.ndjson'), 'w') as f:
                    for i in todo:
                        f.write(json.dumps({'i': i, 's': stimuli[i]}) + '\n')
                e = dict(os.environ)
                e.update({'PYTHONDONTWRITEBYTECODE': '1', 'JYTHONPATH': '/opt/py2/lib', 'VERIF_REPO': REPO,
                          'VERIF_HARNESS': HARNESS, 'VERIF_DEADLINE': str(deadline or ''),
                          'JAVA_TOOL_OPTIONS': '-Xmx%s -XX:+UseSerialGC -Djava.io.tmpdir=%s' % (heap, d)})
                e.update(env or {})
                cmd = [JYTHON, os.path.join(HARNESS, driver), 'in.ndjson', 'out.ndjson'] + list(args)
                with open(os.path.join(d, 'log'), 'wb') as log:
                    p = subprocess.Popen(cmd, cwd=d, stdout=log, stderr=subprocess.STDOUT, env=e,
                                         start_new_session=True)
                self._procs.add(p)
                outp = os.path.join(d, 'out.ndjson')
                last, size = time.time(), -1
                hang = False
                while p.poll() is None:
                    time.sleep(0.2)
                    s = os.path.getsize(outp) if os.path.exists(outp) else -1
                    if s != size:
                        size, last = s, time.time()
                    elif time.time() - last > (stall if size > 0 else max(stall, 180)):
                        hang = True
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                self._procs.discard(p)
                done = set()
                started = None
                dropped = False
                if os.path.exists(outp):
                    with open(outp, 'rb') as f:
                        for line in f:
                            try:
                                rec = json.loads(line.decode('utf-8'))
                            except ValueError:
                                continue
                            if 'start' in rec:
                                started = rec['start']
                            elif 'fatal' in rec:
                                errors.append(rec['fatal'])
                                return
                            elif 'deadline' in rec:
                                dropped = True
                            else:
                                outcomes[rec['i']] = rec['o']
                                done.add(rec['i'])
                if started is None and not dropped:
                    with open(os.path.join(d, 'log'), 'rb') as f:
                        tail = f.read()[-3000:].decode('utf-8', 'replace')
                    errors.append('driver %s did not start (hang=%s):\n%s' % (driver, hang, tail))
                    return
                todo = [i for i in todo if i not in done]
                if dropped:
                    return
                if todo and started in todo:
                    outcomes[started] = {'skip': flaky} if flaky else {'kind': 'hang' if hang else 'died'}
                    todo.remove(started)
                if not keep_cwd:
                    shutil.rmtree(d, ignore_errors=True)
                if attempt > (25 if flaky else 6):
                    # the code keeps hanging or dying: what was seen is enough
                    return

        ts = [threading.Thread(target=work, args=(k,)) for k in range(shards)]
        t = time.time()
        for th in ts:
            th.start()
        for th in ts:
            th.join()
        if errors:
            raise MachineError(errors[0])
        for i, o in enumerate(outcomes):
            if o is not None and 'skip' in o:
                self.skipped[o['skip']] = self.skipped.get(o['skip'], 0) + 1
                outcomes[i] = None
        n = len([o for o in outcomes if o is not None])
        self.cov['evaluations'] += n
        self.log('ran %d of %d stimuli through %s in %.1f s' % (n, len(stimuli), driver, time.time() - t))
        return outcomes

    # -------------------------------------------------------------- results
    def distinct(self, items):
        n = len(set(json.dumps(i, sort_keys=True) for i in items))
        self.cov['distinct_nontrivial'] += n
        return n

    def sample(self, *xs):
        for x in xs:
            if len(self.cov['samples']) < 8:
                s = json.dumps(x, sort_keys=True)
                self.cov['samples'].append(s if len(s) < 600 else s[:600] + '...')

    def violation(self, replay):
        """Record a violation with everything needed to reproduce it."""
        if len(self.violations) < 20:
            d = os.path.join(VERIF, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s-%d.json' % (self.pid, len(self.violations) + 1))
            with open(path, 'w') as f:
                json.dump(replay, f, indent=1, sort_keys=True)
            self.violations.append(path)
            s = json.dumps(replay, sort_keys=True)
            self.log('rejected: ' + (s if len(s) < 1500 else s[:1500] + '...'))
        else:
            self.violations.append(None)

    def finish(self):
        self.designs()
        if self.skipped:
            self.cov['skipped'] = self.skipped
            self.log('set aside: %s' % self.skipped)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': self.cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        if self.violations:
            print('VIOLATION property=%s replay=%s' % (self.pid, self.violations[0]))
            sys.stdout.flush()
            return 1
        self.log('held on everything explored')
        return 0


class TlcResult(object):
    def __init__(self, out, rc, d):
        self.out, self.rc, self.dir = out, rc, d
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated, self.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
