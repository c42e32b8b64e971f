import alg
import vlib


def main():
    r = vlib.Run('V05', 'model_checking', '')
    r.model_check('MCRootDesc', 'CONSTANTS Roots <- %s MaxMult = %d Extra <- ExtraSet\nSPECIFICATION Spec\n'
                  'INVARIANT LevelOk Unique Few\nPROPERTY Finishes\n' % r.pick(('RootsQ', 2), ('RootsT', 2)),
                  what='group splitting for all polynomials with roots in a set, multiplicities and extra factors')
    ps = alg.pairs(r, [], r.pick([(2, 9, 9, 700), (3, 9, 9, 700)], [(2, 9, 12, 5000), (3, 9, 12, 5000)]))
    polys = []
    seen = set()
    for p, q in ps:
        prods = [p, q]
        for f in prods:
            if len(f) > 1 and repr(f) not in seen:
                seen.add(repr(f))
                polys.append(f)
    stim = [{'op': 'desc', 'p': f, 'order': ('up', 'down', 'mid')[i % 3]} for i, f in enumerate(polys)]
    return alg.judge(r, stim, 'JudgeDesc', 'distinct polynomials whose root descriptions were judged')
