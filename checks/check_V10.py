import json
import vlib


def main():
    r = vlib.Run('V10', 'model_checking', '')
    for n, a, s in r.pick([(1, 3, 2), (2, 2, 1)], [(2, 2, 2), (3, 2, 2), (1, 4, 3)]):
        r.model_check('Sequent', 'CONSTANTS NPoly=%d MaxA=%d MaxS=%d\nSPECIFICATION Spec\nINVARIANT Equivalent NoGreater\n'
                      'PROPERTY Decides\n' % (n, a, s),
                      what='all implications between relations over %d polynomials, every sign vector' % n)
    cfg = 'CONSTANTS MaxAnte=%d MaxSucc=%d MaxDegree=%d MaxRoots=9 Batch=FALSE\nINIT Init\nNEXT Next\n'
    stim = []
    for i, (a, s, deg, num) in enumerate(r.pick([(2, 2, 4, 900), (4, 3, 4, 900), (1, 1, 7, 400)],
                                                [(2, 2, 5, 6000), (5, 4, 4, 6000), (1, 1, 9, 3000)])):
        stim += r.generate('GenRel', cfg % (a, s, deg), num=num, depth=30, name='GenRel%d' % i)
    seen, ops = set(), []
    for i, s in enumerate(stim):
        k = json.dumps(s)
        if k in seen:
            continue
        seen.add(k)
        ops.append(dict(s, op='pre'))
        both = [x for x in s['ante'] + s['succ'] if '"var"' in json.dumps(x)]
        if both:
            ops.append({'op': ('negate', 'less')[i % 2], 'rels': both})
            flat = [dict(x, b={'t': 'num', 'n': 0, 'd': 1}) for x in both if x['r'] in ('le', 'lt', 'eq', 'ne')]
            if flat and i % 3 == 0:
                ops.append({'op': 'map', 'rels': flat})
            flat = [dict(x, b={'t': 'num', 'n': 0, 'd': 1}) for x in both]
            if i % 6 == 1 and any(x['r'] in ('gt', 'ge') for x in flat):
                ops.append({'op': 'map', 'rels': flat})
    outs = r.drive('drv_rel.py', ops, budget=r.pick(300, 3000))
    trace = [dict(s, **o) if 'kind' not in o else dict(s, out=o, deca=[], decs=[], dec=[]) for s, o in zip(ops, outs) if o is not None]
    bad, _ = r.validate('TraceRel', 'CONSTANT Judge <- JudgeRel\nINIT TraceInit\nNEXT TraceNext\n', trace)
    r.distinct([[t['op'], t.get('ante'), t.get('succ'), t.get('rels')] for t in trace])
    r.cov['rule'] = 'distinct implications / relation lists; compared on every cell of a joint sign table, so for all reals'
    r.sample(*trace[::max(1, len(trace) // 7)])
    for i, clause in bad:
        r.violation({'clause': clause, 'event': trace[i]})
    return r.finish()
