import qe

FLAT = ['lin', 'linp', 'par', 'const', 'zero']


def plan(r):
    # (polynomials per system, shapes, two parameters?, behaviours, algebra)
    return r.pick([(3, FLAT, False, 250, 'fast'), (3, ['linp'], False, 120, 'fast'),
                   (2, ['lin', 'linp', 'quad1', 'sqr', 'prod'], False, 300, 'fast'),
                   (1, ['quad', 'cub', 'conic'], False, 120, 'fast'), (2, ['lin', 'linp'], True, 60, 'fast'),
                   (2, ['linp', 'quad1', 'quadc', 'cubc'], False, 300, 'fast'), (3, ['linp', 'quadc'], False, 150, 'fast'),
                   (2, ['linp', 'sqr'], False, 14, 'sympy'), (2, ['linp', 'lin'], False, 12, 'cached')],
                  [(3, FLAT, False, 4000, 'fast'), (4, ['linp'], False, 600, 'fast'),
                   (2, ['lin', 'linp', 'quad1', 'sqr', 'prod'], False, 4000, 'fast'),
                   (1, ['quad', 'cub', 'conic'], False, 800, 'fast'), (3, ['lin', 'linp'], True, 1000, 'fast'),
                   (2, ['linp', 'quad1', 'quadc', 'cubc'], False, 3000, 'fast'), (3, ['linp', 'quadc'], False, 1500, 'fast'),
                   (2, ['linp', 'sqr', 'lin'], False, 100, 'sympy'), (2, ['linp', 'lin', 'sqr'], False, 100, 'cached')])


def main():
    return qe.main('Q03', 'complex', plan, 'distinct systems eliminated and judged at parameter points')
