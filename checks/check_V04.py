import alg
import vlib


def main():
    r = vlib.Run('V04', 'model_checking', '')
    r.model_check('SRS', 'CONSTANTS D=%d M=%d\nSPECIFICATION Spec\nINVARIANT RestSound EndsWithGcd\nPROPERTY Terminates\n'
                  % r.pick((2, 1), (2, 2)), what='one pseudo-division step per action, all small pairs')
    ps = alg.pairs(r, r.pick([(2, 1)], [(2, 2), (3, 1)]),
                   r.pick([(2, 8, 9, 1000), (3, 8, 7, 600)], [(2, 9, 12, 6000), (3, 9, 10, 6000)]))
    stim = []
    for p, q in ps:
        if q:
            stim.append({'op': 'rem', 'p': p, 'q': q})
            if p:
                stim.append({'op': 'srs', 'p': p, 'q': q})
        if p and len(p) + len(q) > 6:
            stim.append({'op': 'rem', 'p': q, 'q': p})
    return alg.judge(r, stim, 'JudgeRem', 'distinct (operation, f, g)')
