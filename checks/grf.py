"""G01-G07: the relevance filter, on a stand-in for Sage."""
import vlib

ASSUME = ('The code runs on harness/minisage.py, an exact stand-in for the parts of Sage it uses (polynomials, Groebner '
          'bases, resultants, factorisation by sympy, root isolation, 0-1 programs by enumeration) and on small '
          'stand-ins for numpy/scipy; Sage itself is not installed.')


def loop(r):
    for n, p, w, i in r.pick([(2, 3, '{1,2}', True), (3, 2, '{1,2}', False)],
                             [(2, 3, '{1,2}', True), (3, 2, '{1,2}', True), (3, 3, '{1,2}', False), (4, 2, '{1,3}', False)]):
        r.model_check('GRFLoop', 'CONSTANTS NHyps=%d NPoints=%d Weights=%s Interactive=%s\nSPECIFICATION Spec\n'
                      'INVARIANT Partition Sound Truthful Complete NeverStuck\nPROPERTY Ends\n'
                      % (n, p, w, 'TRUE' if i else 'FALSE'), timeout=2000,
                      what='filtering loop for all truth tables of %d hypotheses over %d points' % (n, p))


def reduce(r):
    for c, n in r.pick([(1, 2)], [(1, 3), (2, 2)]):
        r.model_check('GoalReduce', 'CONSTANTS C=%d NHyps=%d Mutual=FALSE\nSPECIFICATION Spec\nINVARIANT Faithful\n'
                      % (c, n), timeout=2000,
                      what='simplification of all goals of %d linear hypotheses, coefficients within %d' % (n, c))


def sectors(r):
    for n in r.pick([10], [10, 12, 14]):
        r.model_check('Sectors', 'CONSTANTS N=%d\nSPECIFICATION Spec\nINVARIANT EverySector\n' % n, timeout=2000,
                      what='sample points of all isolations of up to 3 roots on %d positions' % n)


def prefix(r):
    for d, x in r.pick([(1, 3), (2, 3)], [(1, 3), (2, 3), (2, 7)]):
        r.model_check('PrefixParse', 'CONSTANTS Depth=%d X=%d\nSPECIFICATION Spec\nINVARIANT Faithful\n'
                      'PROPERTY Ends\n' % (d, x), timeout=2000, what='reading all prefix terms of depth <= %d' % d)


def search(r):
    cfg = ('CONSTANTS NP=%d NHyps=%d Chains=%d Length=2 Careful=%s\nSPECIFICATION Spec\n'
           'INVARIANT Useful Found Aimed\nPROPERTY Ends\n')
    for n, h, c in r.pick([(3, 2, 1), (4, 1, 2)], [(3, 2, 2), (4, 2, 1)]):
        r.model_check('LocalSearch', cfg % (n, h, c, 'TRUE'), timeout=2000,
                      what='all searches over %d points and %d hypotheses, whatever the solver answers' % (n, h))
    broken = r.tlc('LocalSearch', cfg % (3, 1, 1, 'FALSE'), name='LocalSearchCareless', expect_error=True)
    if 'is violated' not in broken.out:
        raise vlib.MachineError('a careless search should violate the design:\n' + broken.out[-3000:])
    r.cov['parts'].append({'part': 'sensitivity', 'what': 'a search that keeps every point violates the design, as it should'})


def hide(r):
    a, s = r.pick((4, 3), (6, 4))
    r.model_check('HideList', 'CONSTANTS MaxA=%d MaxS=%d\nSPECIFICATION Spec\nINVARIANT InRange GoalKept Exact\n'
                  'PROPERTY Ends\n' % (a, s), what='hide lists of all runs on up to %d antecedents, %d succedents' % (a, s))


def main(pid, designs, plan, rule):
    r = vlib.Run(pid, 'model_checking', '')
    r.assumptions.append(ASSUME)
    for d in designs:
        d(r)
    stim, seen = [], set()
    for kind, nv, hyps, num in r.pick(*plan):
        new = r.generate('GenGRF', 'CONSTANTS Kind="%s" NV=%d MaxHyps=%d\nINIT Init\nNEXT Next\n' % (kind, nv, hyps),
                         num=num, depth=4, name='GenGRF-%s%d' % (kind, nv))
        for s in new:
            k = repr(sorted(s.items()))
            if k not in seen:
                seen.add(k)
                stim.append(s)
    # the longest first in every shard, so that a budget cuts evenly
    stim = [s for i in range(7) for s in stim[i::7]]
    outs = r.drive('drv_grf.py', stim, stall=120, budget=r.pick(110, 2400))
    trace = [dict(s, out=o) for s, o in zip(stim, outs) if o is not None]
    bad = []
    if trace:
        bad, _ = r.validate('TraceGRF', 'CONSTANT Judge <- JudgeGRF\nINIT TraceInit\nNEXT TraceNext\n', trace,
                            timeout=r.pick(700, 3000))
    elif not r.skipped:
        raise vlib.MachineError('nothing was run')
    r.distinct([dict(e, seed=0, out=0) for e in trace])
    kinds = {}
    for e in trace:
        v = e['out'].get('v')
        end = v['end']['kind'] if isinstance(v, dict) and 'end' in v else e['out']['kind']
        k = '%s/%d variables: %s' % (e['k'], e.get('nv', 3), end)
        kinds[k] = kinds.get(k, 0) + 1
    r.cov['kinds'] = kinds
    r.cov['rule'] = rule
    r.sample(*trace[::max(1, len(trace) // 7)])
    for i, clause in bad:
        r.violation({'clause': clause, 'event': trace[i]})
    return r.finish()
