"""Symbolic conversions (isym)."""
import os
import sys
sys.path.insert(0, os.environ['VERIF_HARNESS'])
import hlib
import slib
hlib.use('vts')
sys.stdout = hlib.Silence()
import sympy
import isym
sys.stdout = sys.__stdout__

X = sympy.Symbol('x')
REFUSE = {
  'two': lambda p, q: p + sympy.Symbol('y') * q,
  'prod': lambda p, q: X * sympy.Symbol('y') + p,
  'sqrt': lambda p, q: sympy.sqrt(2) * X + p,
  'pi': lambda p, q: sympy.pi * X**2 + p,
  'const': lambda p, q: sympy.sqrt(3),
  'pic': lambda p, q: sympy.pi + 1,
  'float': lambda p, q: sympy.Float('0.3') * X**3 + p,
  'imag': lambda p, q: sympy.I * X + p,
  'three': lambda p, q: X + sympy.Symbol('a') + sympy.Symbol('b') + p,
}


def step(s):
  if s['op'] == 'convert':
    e = slib.build(s['e'], {'x': s['name']})
    if s.get('native') and e.is_Integer:
      e = int(e)
    box = {}
    def f():
      v = isym.convert(e)
      box['ints'] = isinstance(v, list) and all(isinstance(c, (int, long)) for c in v)
      return [hlib.small(c) for c in v] if box['ints'] else []
    o = hlib.guarded(f)
    return {'out': o, 'ints': box.get('ints', True)}
  if s['op'] == 'refuse':
    p = slib.build(s['e'])
    if s['how'] in ('two', 'three') and not p.expand().free_symbols:
      p = p + X
    e = REFUSE[s['how']](p, slib.build({'t': 'num', 'n': 3, 'd': 2}))
    return {'out': hlib.guarded(lambda: str(isym.convert(e))), 'src': str(e)[:200]}
  if s['op'] == 'back':
    box = {}
    def f():
      v = sympy.sympify(isym.convert_back([hlib.big(c) for c in s['p']]))
      c = slib.coeffs(v, X)
      box['inx'] = c is not None
      if box['inx']:
        # not scaled: the coefficients themselves
        cs = [sympy.Rational(t) for t in reversed(sympy.Poly(v, X).all_coeffs())]
        while cs and cs[-1] == 0:
          cs.pop()
        return [hlib.small(t) if t.q == 1 else str(t) for t in cs]
      return []
    o = hlib.guarded(f)
    return {'out': o, 'inx': box.get('inx', True)}

hlib.main(step)
