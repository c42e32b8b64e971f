"""V01 / V02: exactness of the two univariate decision procedures."""
import vlib


def main(pid, op):
    r = vlib.Run(pid, 'model_checking', '')
    for n, k in r.pick([(1, 4), (2, 2)], [(1, 5), (2, 3)]):
        r.model_check('VTS', 'CONSTANTS NPoly=%d NRoot=%d\nSPECIFICATION Spec\nINVARIANT Exact\nPROPERTY Decides\n'
                      % (n, k), what='every sign table of %d polynomials with up to %d roots' % (n, k))
    if r.thorough:
        r.model_check('VTS', 'CONSTANTS NPoly=3 NRoot=2\nINIT Init\nNEXT Next\nINVARIANT Exact\n',
                      what='every sign table of 3 polynomials with up to 2 roots')

    stim = []
    cfg = 'CONSTANTS Far=FALSE MaxCons=%d MaxRoots=%d MaxDegree=%d\nINIT Init\nNEXT Next\n'
    for cons, roots, deg, num in r.pick([(1, 5, 8, 150), (2, 5, 7, 500), (3, 5, 7, 700), (4, 3, 5, 220), (6, 5, 6, 60)],
                                        [(1, 5, 9, 1000), (2, 5, 8, 4000), (3, 5, 8, 6000), (4, 4, 6, 3000),
                                         (5, 3, 5, 1500), (8, 5, 7, 600)]):
        stim += r.generate('GenVTS', cfg % (cons, roots, deg), num=num, depth=12, name='GenVTS%d' % cons)
    for cons, num in r.pick([(1, 60), (2, 160)], [(1, 200), (2, 2000), (3, 2000)]):
        stim += r.generate('GenVTS', cfg.replace('FALSE', 'TRUE') % (cons, 4, 4), num=num, depth=12, name='GenFar%d' % cons)
    seen, uniq = set(), []
    for i, s in enumerate(stim):
        key = repr(s)
        if key in seen:
            continue
        seen.add(key)
        s['op'] = op
        s['via'] = 'sympy' if i % 4 == 3 else 'list'
        s['den'] = (1, 2, 3, 10)[(i // 4) % 4]
        uniq.append(s)
    # the systems of the machine above are decided in order; shuffle the shards
    out = r.drive('drv_decide.py', uniq, stall=300, budget=r.pick(240, 3000))
    trace = [dict(s, out=o) for s, o in zip(uniq, out) if o is not None]
    bad, _ = r.validate('TraceVTS', 'CONSTANT Judge <- JudgeVTS\nINIT TraceInit\nNEXT TraceNext\n', trace)
    r.distinct([(s['ps'], s['rels']) for s in trace])
    r.cov['rule'] = ('distinct systems of constraints executed on the code and judged by the specification; '
                     'each is decided by a sign table computed from Sturm sequences')
    r.sample(*trace[:6])
    for i, clause in bad:
        r.violation({'clause': clause, 'event': trace[i]})
    return r.finish()
