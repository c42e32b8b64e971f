import qe

FLAT = ['lin', 'linp', 'par', 'const', 'zero']


def plan(r):
    # (polynomials per system, shapes, two parameters?, behaviours, algebra)
    return r.pick([(3, ['lin', 'linp'], False, 250, 'fast'), (3, FLAT, False, 60, 'fast'),
                   (2, ['lin', 'linp', 'quad1', 'sqr', 'prod'], False, 300, 'fast'),
                   (2, ['linp', 'quadc', 'cubc'], False, 120, 'fast'),
                   (1, ['quad', 'cub', 'conic'], False, 60, 'fast'), (2, ['lin', 'linp'], True, 60, 'fast'),
                   (2, ['linp', 'sqr'], False, 14, 'sympy'), (2, ['linp', 'lin'], False, 12, 'cached')],
                  [(3, ['lin', 'linp'], False, 4000, 'fast'), (4, FLAT, False, 1000, 'fast'),
                   (2, ['lin', 'linp', 'quad1', 'sqr', 'prod'], False, 4000, 'fast'),
                   (2, ['linp', 'quadc', 'cubc'], False, 1500, 'fast'),
                   (1, ['quad', 'cub', 'conic'], False, 800, 'fast'), (3, ['lin', 'linp'], True, 1000, 'fast'),
                   (2, ['linp', 'sqr', 'lin'], False, 100, 'sympy'), (2, ['linp', 'lin', 'sqr'], False, 100, 'cached')])


def main():
    return qe.main('Q01', 'ch', plan, 'distinct systems eliminated and judged at parameter points')
