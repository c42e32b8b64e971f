import alg
import vlib


def main():
    r = vlib.Run('V06', 'model_checking', '')
    for n, k in r.pick([(1, 1), (2, 3)], [(1, 1), (2, 4), (3, 2)]):
        r.model_check('SignDet', 'CONSTANTS NPoly=%d NRoot=%d\nSPECIFICATION Spec\n'
                      'INVARIANT CountsRight SystemRight SignRight\nPROPERTY Answers\n' % (n, k),
                      what='all sign vectors of %d polynomials at up to %d roots' % (n, k))
    ps = alg.pairs(r, [], r.pick([(2, 5, 6, 900), (3, 5, 6, 500)], [(2, 5, 9, 4000), (3, 5, 9, 4000)]))
    stim, n = [], 0
    for p, q in ps:
        for a, b in ((p, q), (q, p)):
            if len(a) > 1 and len(a) + len(b) <= r.pick(11, 18):
                n += 1
                stim.append({'op': 'at', 'p': a, 'q': b, 'order': ('up', 'down', 'mid')[n % 3]})
    return alg.judge(r, stim, 'JudgeAt', 'distinct (described polynomial, goal) pairs; all roots of each')
