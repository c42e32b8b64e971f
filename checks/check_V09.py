import json
import vlib


def main():
    r = vlib.Run('V09', 'model_checking', '')
    r.model_check('MCExpr', 'INIT Init\nNEXT Next\nINVARIANT Agree Least\n',
                  what='the two meanings of terms agree on all small trees and the cleared list is the least one')
    stim = []
    for i, (depth, deg, num) in enumerate(r.pick([(2, 8, 1500), (4, 9, 2500), (6, 9, 1500)],
                                                 [(2, 8, 5000), (4, 12, 20000), (6, 12, 20000)])):
        stim += r.generate('GenSym', 'CONSTANTS MaxDepth=%d MaxDeg=%d\nINIT Init\nNEXT Next\n' % (depth, deg), num=num,
                           depth=6, name='GenSym%d' % i)
    seen, uniq = set(), []
    for s in stim:
        k = json.dumps(s)
        if k not in seen:
            seen.add(k)
            uniq.append(s)
    hows = ['two', 'prod', 'sqrt', 'pi', 'const', 'pic', 'float', 'imag', 'three']
    sym = []
    for i, s in enumerate(uniq):
        sym.append(dict(s, op='convert', native=i % 7 == 0))
        if i % 9 == 0:
            sym.append({'op': 'refuse', 'e': s['e'], 'how': hows[(i // 9) % len(hows)]})
    for n in (0, 1, -1, 5, 2**31 - 1, 2**31, -2**63, 10**30):
        for native in (True, False):
            sym.append({'op': 'convert', 'name': 'x', 'native': native, 'e': {'t': 'num', 'n': vlib.small(n), 'd': 1}})
    for s in r.generate('GenVTS', 'CONSTANTS Far=FALSE MaxCons=4 MaxRoots=9 MaxDegree=12\nINIT Init\nNEXT Next\n', num=r.pick(150, 1500), depth=12):
        sym += [{'op': 'back', 'p': p} for p in s['ps']]
    outs = r.drive('drv_sym.py', sym, budget=r.pick(300, 3000))
    trace = [dict(s, **o) if 'kind' not in o else dict(s, out=o, ints=True, inx=True)
             for s, o in zip(sym, outs) if o is not None]
    bad, _ = r.validate('TraceSym', 'CONSTANT Judge <- JudgeSym\nINIT TraceInit\nNEXT TraceNext\n', trace)
    r.distinct([[t['op'], t.get('e'), t.get('p'), t.get('how')] for t in trace])
    r.cov['rule'] = 'distinct expression trees / coefficient lists converted'
    r.sample(*trace[::max(1, len(trace) // 7)])
    for i, clause in bad:
        r.violation({'clause': clause, 'event': trace[i]})
    return r.finish()
