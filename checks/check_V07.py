import alg
import vlib


def main():
    r = vlib.Run('V07', 'model_checking', '')
    r.model_check('Arith', 'CONSTANTS D=%d M=%d\nINIT Init\nNEXT Next\nINVARIANT Done\n' % r.pick((2, 1), (2, 2)),
                  what='convolution loop of multiply against the ring laws, all small pairs')
    ps = alg.pairs(r, r.pick([(2, 1)], [(2, 2)]), r.pick([(2, 9, 9, 900), (5, 9, 4, 200)], [(2, 9, 14, 6000), (5, 9, 5, 1000)]))
    pts = [[0, 1], [1, 1], [-1, 1], [2, 1], [-3, 1], [1, 2], [-7, 3], [22, 7], ['1000000007', 1], [-1, '10000000019']]
    stim = []
    for i, (p, q) in enumerate(ps):
        stim.append({'op': 'mul', 'p': p, 'q': q})
        stim.append({'op': 'der', 'p': p})
        stim.append({'op': 'eval', 'p': q, 'r': pts[i % len(pts)], 'as': ('sym', 'frac')[i % 2]})
        if len(p) > 1 and i % 5 == 0:
            stim.append({'op': 'evalroot', 'p': p, 'q': q})
    cfg = 'CONSTANTS Far=FALSE MaxCons=%d MaxRoots=9 MaxDegree=%d\nINIT Init\nNEXT Next\n'
    for cons, deg, num in ((4, 4, r.pick(120, 600)), (5, 2, r.pick(40, 200))):
        for s in r.generate('GenVTS', cfg % (cons, deg), num=num, depth=12, name='GenProd%d' % cons):
            stim.append({'op': 'plist', 'ps': s['ps']})
    stim.append({'op': 'plist', 'ps': []})
    seen, uniq = set(), []
    for s in stim:
        if repr(s) not in seen:
            seen.add(repr(s))
            uniq.append(s)
    return alg.judge(r, uniq, 'JudgeArith', 'distinct operations with arguments')
