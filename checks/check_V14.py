"""V14: the univariate procedures over coefficients that are not rational."""
import vlib


def main():
    r = vlib.Run('V14', 'model_checking', '')
    for n, k in r.pick([(1, 4), (2, 2)], [(1, 5), (2, 3)]):
        r.model_check('VTS', 'CONSTANTS NPoly=%d NRoot=%d\nSPECIFICATION Spec\nINVARIANT Exact\nPROPERTY Decides\n'
                      % (n, k), what='every sign table of %d polynomials with up to %d roots' % (n, k))
    stim, seen = [], set()
    for cons, roots, num in r.pick([(1, 3, 120), (2, 2, 250), (3, 2, 200)], [(1, 4, 800), (2, 3, 3000), (3, 3, 2500), (4, 2, 1500)]):
        for s in r.generate('GenField', 'CONSTANTS MaxCons=%d MaxRoots=%d\nINIT Init\nNEXT Next\n' % (cons, roots),
                            num=num, depth=12, name='GenField%d' % cons):
            if repr(s) not in seen:
                seen.add(repr(s))
                stim.append(s)
    out = r.drive('drv_field.py', stim, stall=15, flaky='library', budget=r.pick(240, 3000))
    trace = [dict(s, out=o) for s, o in zip(stim, out) if o is not None]
    bad, _ = r.validate('TraceField', 'CONSTANT Judge <- JudgeField\nINIT TraceInit\nNEXT TraceNext\n', trace)
    r.distinct([(s['op'], s['ps'], s['rels']) for s in trace])
    r.cov['rule'] = ('distinct questions over coefficients with sqrt(2), pi and infinitesimals, judged by the order of '
                     'the known roots')
    r.sample(*trace[:6])
    for i, clause in bad:
        r.violation({'clause': clause, 'event': trace[i]})
    return r.finish()
