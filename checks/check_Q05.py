"""Q05: partial elimination, one sign diagram for one choice of signs."""
import random
from fractions import Fraction
import vlib
import qe


def main():
    r = vlib.Run('Q05', 'model_checking', '')
    qe.design(r, 'real')
    qe.design(r, 'complex')
    stim, seen = [], set()
    # (procedure, polynomials, shapes, two parameters?, behaviours, algebra)
    plan = r.pick([('real', 2, ['lin', 'linp', 'quad', 'quad1', 'sqr', 'prod'], False, 150, 'fast'),
                   ('real', 1, ['quad', 'cub', 'conic'], False, 80, 'fast'), ('real', 3, ['lin', 'linp', 'par', 'zero', 'const'], False, 80, 'fast'),
                   ('real', 2, ['lin', 'linp', 'quad1'], True, 40, 'fast'), ('real', 2, ['linp', 'sqr'], False, 10, 'sympy'),
                   ('complex', 2, ['lin', 'linp', 'quad', 'quad1', 'sqr', 'prod'], False, 150, 'fast'),
                   ('complex', 1, ['quad', 'cub', 'conic'], False, 80, 'fast'), ('complex', 3, ['lin', 'linp', 'par', 'zero', 'const'], False, 80, 'fast'),
                   ('complex', 2, ['lin', 'linp', 'quad1'], True, 40, 'fast'), ('complex', 2, ['linp', 'sqr'], False, 10, 'cached')],
                  [('real', 3, ['lin', 'linp', 'quad', 'quad1', 'sqr', 'prod', 'cub'], False, 2500, 'fast'),
                   ('real', 2, ['lin', 'linp', 'quad', 'conic'], True, 800, 'fast'), ('real', 2, ['linp', 'sqr', 'lin'], False, 60, 'sympy'),
                   ('complex', 3, ['lin', 'linp', 'quad', 'quad1', 'sqr', 'prod', 'cub'], False, 2500, 'fast'),
                   ('complex', 2, ['lin', 'linp', 'quad', 'conic'], True, 800, 'fast'), ('complex', 2, ['linp', 'sqr', 'lin'], False, 60, 'cached')])
    limit = r.pick(16, 24)
    for i, (op, maxp, shapes, two, num, via) in enumerate(plan):
        cfg = ('CONSTANTS NGroups=1 MaxPolys=%d Shapes={%s} Two=%s\nINIT DInit\nNEXT DNext\n'
               % (maxp, ','.join('"%s"' % s for s in shapes), 'TRUE' if two else 'FALSE'))
        for s in r.generate('GenDiag', cfg, num=num, depth=maxp + 5, name='GenDiag%d' % i):
            ps = [qe.merge(p) for p in s['ps']]
            key = repr((op, ps, s['at'], s['mode']))
            c = qe.closure([ps], 40)
            if key in seen or not ps:
                continue
            if c is None or c[0] > (limit if via == 'fast' else 8):
                r.skipped['too costly'] = r.skipped.get('too costly', 0) + 1
                continue
            seen.add(key)
            stim.append({'op': op, 'ps': ps, 'at': s['at'], 'mode': s['mode'], 'typos': s['typos'], 'via': via})
    random.Random(r.seed).shuffle(stim)
    outs = r.drive('drv_diag.py', stim, stall=150, budget=r.pick(60, 2400))
    trace = []
    rng = random.Random(r.seed)
    for s, o in zip(stim, outs):
        if o is None:
            continue
        if 'kind' in o:
            o = {'out': o, 'via': s['via']}
        e = dict(s, out=o['out'], via=o['via'], pts=[s['at']])
        if s['mode'] not in ('ask', 'given'):
            two = any(m[3] for p in s['ps'] for m in p)
            own = [[m for m in p if m[1] == k] for p in s['ps'] for k in range(4)]
            e['pts'] += [[qe.rat(a), qe.rat(b)] for a, b in qe.points(own, two, r.pick(10, 30), rng)]
        trace.append(e)
    bad, _ = r.validate('TraceDiag', 'CONSTANT Judge <- JudgeDiag\nINIT TraceInit\nNEXT TraceNext\n', trace,
                        timeout=r.pick(700, 3000))
    r.distinct([[e['op'], e['ps'], e['at'], e['mode']] for e in trace])
    kinds = {}
    for e in trace:
        k = '%s/%s: %s' % (e['op'], e['mode'], e['out']['kind'])
        kinds[k] = kinds.get(k, 0) + 1
    r.cov['kinds'] = kinds
    r.cov['rule'] = 'distinct diagrams built and compared with the sign table of all their rows'
    r.sample(*[{k: e[k] for k in e if k != 'pts'} for e in trace[::max(1, len(trace) // 7)]])
    for i, clause in bad:
        r.violation({'clause': clause, 'event': {k: trace[i][k] for k in trace[i] if k != 'pts'}})
    return r.finish()
