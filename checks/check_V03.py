import alg
import vlib


def main():
    r = vlib.Run('V03', 'model_checking', '')
    r.model_check('SRS', 'CONSTANTS D=%d M=%d\nINIT Init\nNEXT Next\nINVARIANT CauchyExact TarskiExact\n' % r.pick((2, 1), (2, 2)),
                  what='sign-change counting on remainder sequences of all small pairs')
    ps = alg.pairs(r, r.pick([(2, 1)], [(2, 2), (3, 1)]),
                   r.pick([(2, 8, 9, 700), (3, 8, 7, 600)], [(2, 9, 12, 6000), (3, 9, 10, 6000)]))
    stim = []
    for p, q in ps:
        if p:
            stim.append({'op': 'tarski', 'p': p, 'q': q})
            stim.append({'op': 'cauchy', 'p': p, 'q': q})
        if q and len(q) > 1 and not p:
            continue
        if q and len(p) + len(q) > 6:
            stim.append({'op': 'tarski', 'p': q, 'q': p})
    return alg.judge(r, stim, 'JudgeTarski', 'distinct (operation, p, q); expected value computed from sign tables')
