"""Shared by V03-V07: primitives of the univariate procedures."""
import vlib


def norm(p):
    p = list(p)
    while p and int(p[-1]) == 0:
        p.pop()
    return p


def pairs(r, exh, sim):
    """(p, q) pairs: exhaustive small ones and simulated structured ones"""
    out = []
    for d, m in exh:
        out += [tuple(s['ps']) for s in r.generate('GenExh', 'CONSTANTS K=2 D=%d M=%d\nINIT Init\nNEXT Next\n' % (d, m),
                                                   name='GenExh_%d_%d' % (d, m))]
    cfg = 'CONSTANTS Far=FALSE MaxCons=%d MaxRoots=%d MaxDegree=%d\nINIT Init\nNEXT Next\n'
    for cons, roots, deg, num in sim:
        for s in r.generate('GenVTS', cfg % (cons, roots, deg), num=num, depth=12, name='GenVTS_%d_%d' % (cons, deg)):
            ps = s['ps']
            for i in range(len(ps) - 1):
                out.append((ps[i], ps[i + 1]))
            if len(ps) == 1:
                out.append((ps[0], ps[0]))
    seen, uniq = set(), []
    for p, q in out:
        k = repr((p, q))
        if k not in seen:
            seen.add(k)
            uniq.append((p, q))
    return uniq


def judge(r, stim, judge_op, rule, timeout=800):
    outs = r.drive('drv_alg.py', stim, stall=240, budget=r.pick(300, 3000))
    trace = [dict(s, **o) if 'kind' not in o else dict(s, out=o, intact=True, nroots=0)
             for s, o in zip(stim, outs) if o is not None]
    bad, _ = r.validate('TraceAlg', 'CONSTANT Judge <- %s\nINIT TraceInit\nNEXT TraceNext\n' % judge_op, trace,
                        timeout=timeout)
    r.distinct([(s['op'], s.get('p'), s.get('q'), s.get('ps'), s.get('r')) for s in trace])
    r.cov['rule'] = rule
    r.sample(*trace[::max(1, len(trace) // 7)])
    for i, clause in bad:
        r.violation({'clause': clause, 'event': trace[i]})
    return r.finish()
