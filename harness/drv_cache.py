"""Runs histories of processes that share a cache directory.

A process is a thread with its own instance of the code's modules.  Every
file-system call the code makes stops at a gate until the scheduler lets it
pass; a killed process is one that is never let through again, so nothing it
would have done afterwards (flushing, cleaning up) happens.  One thread runs at
a time."""
import __builtin__
import imp
import os
import shutil
import sys
import tempfile
import threading
sys.path.insert(0, os.environ['VERIF_HARNESS'])
import hlib
hlib.use('vts')
import sympy
import sympy.physics.quantum

VTS = os.path.join(hlib.REPO, 'vts')
HOME = os.getcwd()
GATED_WRITES = (0, 1, 7, 40, 200, 1000)
current = threading.local()


class Killed(BaseException):
  pass


class Proc(object):
  def __init__(self, pid):
    self.pid = pid
    self.cv = threading.Condition()
    self.allow = 0          # file-system steps it may take
    self.dead = False
    self.waiting = False    # at a gate
    self.job = None
    self.result = None
    self.thread = threading.Thread(target=self.loop)
    self.thread.setDaemon(True)
    self.thread.start()

  def gate(self):
    self.cv.acquire()
    try:
      self.waiting = self.allow <= 0
      self.cv.notifyAll()
      while self.allow <= 0 or self.dead:
        self.waiting = True
        self.cv.notifyAll()
        self.cv.wait()
      self.waiting = False
      self.allow -= 1
    finally:
      self.cv.release()

  def loop(self):
    current.proc = self
    while True:
      self.cv.acquire()
      while self.job is None:
        self.cv.wait()
      job = self.job
      self.cv.release()
      r = hlib.guarded(job)
      self.cv.acquire()
      self.job, self.result = None, r
      self.cv.notifyAll()
      self.cv.release()

  def submit(self, job, allow):
    self.cv.acquire()
    self.result, self.job, self.allow = None, job, allow
    self.cv.notifyAll()
    self.cv.release()
    self.settle()

  def run(self, n):
    self.cv.acquire()
    if self.job is not None:
      self.allow += n
      self.waiting = False
      self.cv.notifyAll()
    self.cv.release()
    self.settle()

  def settle(self):
    """wait until it is at a gate or has finished"""
    self.cv.acquire()
    while self.job is not None and not (self.waiting and self.allow <= 0):
      self.cv.wait(600)
    self.cv.release()


def gate():
  p = getattr(current, 'proc', None)
  if p is not None:
    p.gate()
    return True
  return False


class GatedFile(object):
  """stops before opening, before some of the writes, and before closing"""
  def __init__(self, f):
    self.__dict__['f'] = f
    self.__dict__['count'] = 0
  def write(self, data):
    if self.count in GATED_WRITES:
      self.f.flush()
      gate()
    self.__dict__['count'] = self.count + 1
    self.f.write(data)
  def writelines(self, lines):
    for l in lines:
      self.write(l)
  def close(self):
    if not self.f.closed:
      gate()
      self.f.close()
  def __enter__(self):
    return self
  def __exit__(self, *a):
    self.close()
  def __iter__(self):
    return iter(self.f)
  def __getattr__(self, name):
    return getattr(self.f, name)


def gated_opener(real):
  def opener(*args, **kw):
    if gate():
      return GatedFile(real(*args, **kw))
    return real(*args, **kw)
  return opener


def gated(real):
  def call(*args, **kw):
    gate()
    return real(*args, **kw)
  return call


def install():
  __builtin__.open = gated_opener(__builtin__.open)
  os.fdopen = gated_opener(os.fdopen)
  for n in ('rename', 'remove', 'unlink', 'mkdir', 'rmdir'):
    setattr(os, n, gated(getattr(os, n)))
  os.path.isfile = gated(os.path.isfile)
  os.path.exists = gated(os.path.exists)
  tempfile.mkstemp = gated(tempfile.mkstemp)


def fresh_module():
  """the code's modules as a new process would have them"""
  for n, m in list(sys.modules.items()):
    f = getattr(m, '__file__', None)
    if f and os.path.abspath(f).startswith(VTS):
      del sys.modules[n]
  m = imp.new_module('matrix_of_signs')
  m.__file__ = os.path.join(VTS, 'matrix_of_signs.py')
  sys.modules['matrix_of_signs'] = m
  # not through import: a process killed here would keep the import lock
  execfile(m.__file__, m.__dict__)
  return m


values = {}


def canon(kind, n, m):
  """the entries, inverses times 2^n"""
  scale = 2**n if kind == 'inv' else 1
  rows = []
  for i in range(m.rows):
    row = []
    for j in range(m.cols):
      v = sympy.Rational(m[i, j]) * scale
      row.append(int(v.p) if v.q == 1 else '%s/%s' % (v.p, v.q))
    rows.append(row)
  return rows


def step(s):
  d = tempfile.mkdtemp('', 'hist', HOME)
  os.chdir(d)
  events = [{'e': 'reset'}]
  procs, asked, mods = {}, {}, {}
  booting = {}
  def outcome(p):
    if p in booting:
      if procs[p].job is None:
        box = booting.pop(p)
        if box:
          mods[p] = box[0]
        events.append({'e': 'start', 'p': p, 'ok': bool(box), 'what': str(procs[p].result['v'])[:200]})
      return
    if p not in asked or procs[p].job is not None:
      return
    kind, n = asked.pop(p)
    r = procs[p].result
    if r['kind'] != 'val':
      events.append({'e': 'raise', 'p': p, 'what': r['v']})
      return
    try:
      rows = canon(kind, n, r['v'])
    except Exception:
      rows = [[repr(r['v'])[:100]]]
    # the id of a value is assigned by the checker; here only a digest
    events.append({'e': 'return', 'p': p, 'kind': kind, 'n': n, 'rows': rows})
  try:
    for c in s['h']:
      p = c['p']
      if c['c'] in ('start', 'boot'):
        procs[p] = Proc(p)
        booting[p] = []
        procs[p].submit(lambda box=booting[p]: box.append(fresh_module()), 10**9 if c['c'] == 'start' else 0)
        outcome(p)
      elif p not in mods and p not in booting:
        continue
      elif c['c'] == 'call':
        events.append({'e': 'call', 'p': p, 'kind': c['kind'], 'n': c['n']})
        asked[p] = (c['kind'], c['n'])
        f = {'mat': mods[p].get_matrix, 'inv': mods[p].get_matrix_inverse}[c['kind']]
        procs[p].submit(lambda f=f, n=c['n']: f(n), 0)
        outcome(p)
      elif c['c'] == 'run':
        procs[p].run(c['k'])
        outcome(p)
      elif c['c'] == 'finish':
        procs[p].run(10**9)
        outcome(p)
      elif c['c'] == 'kill':
        if procs[p].job is not None:
          procs[p].dead = True
          asked.pop(p, None)
        booting.pop(p, None)
        mods.pop(p, None)
        events.append({'e': 'kill', 'p': p})
  finally:
    os.chdir(HOME)
    shutil.rmtree(d, True)
  return {'ev': events}

install()
hlib.main(step)
