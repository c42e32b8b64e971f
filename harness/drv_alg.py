"""Runs the counting and arithmetic primitives of the univariate procedures."""
import copy
import os
import sys
sys.path.insert(0, os.environ['VERIF_HARNESS'])
import hlib
import zcheck
hlib.use('vts')
sys.stdout = hlib.Silence()
from fractions import Fraction
import sympy
import z3rcf
import uni_vts
sys.stdout = sys.__stdout__


def ints(p):
  return [hlib.big(c) for c in p]


def plain(p):
  """a coefficient list the code returned"""
  return [hlib.small(c) for c in p]


def sign(v):
  return -1 if v < 0 else 1 if v > 0 else 0


def sorted_roots(p):
  return sorted(z3rcf.MkRoots(p), cmp=lambda a, b: -1 if a < b else 1 if a > b else 0)


def position(point, roots):
  for i, r in enumerate(roots):
    if not (r < point) and not (point < r):
      return i + 1
  return 0


def describe(p, order):
  roots = sorted_roots(p)
  handed = list(roots)
  if order == 'down':
    handed.reverse()
  elif order == 'mid':
    handed = handed[1:] + handed[:1]
  return roots, uni_vts.get_discri_der_signs(handed, p)


def desc(p, order):
  roots, ds = describe(p, order)
  return [{'root': position(d.point, roots), 'ds': [plain(q) for q in d.get_all_polies()],
           'ss': [int(d.get_sign(q)) for q in d.get_all_polies()]} for d in ds]


def at(p, q, order):
  roots, ds = describe(p, order)
  ret = []
  for d in ds:
    d.set_origin_poly(p)
    v = {'root': position(d.point, roots),
         'at': int(uni_vts.evaluate_single_on_sign_assignment(d, q)),
         'right': int(uni_vts.e_close_evaluate_single_on_sign_assignment(d, q))}
    ret.append(v)
  return ret


def rational(v):
  v = sympy.Rational(v.numerator, v.denominator) if isinstance(v, Fraction) else sympy.Rational(v)
  return [hlib.small(v.p), hlib.small(v.q)]


def step(s):
  op = s['op']
  p = ints(s.get('p', []))
  q = ints(s.get('q', []))
  keep = copy.deepcopy((p, q))
  if op in ('desc', 'at', 'evalroot') and not zcheck.trusted([p]):
    return {'skip': 'library'}
  extra = {}
  if op == 'tarski':
    f = lambda: hlib.small(uni_vts.tarski_query(p, q))
  elif op == 'cauchy':
    f = lambda: hlib.small(uni_vts.signed_remainder_cauchy_index(p, q))
  elif op == 'rem':
    f = lambda: plain(uni_vts.signed_pseudo_remainder(p, q))
  elif op == 'srs':
    f = lambda: [plain(x) for x in uni_vts.signed_remainder_sequence(p, q)]
  elif op == 'desc':
    extra['nroots'] = len(z3rcf.MkRoots(p))
    f = lambda: desc(p, s['order'])
  elif op == 'at':
    f = lambda: at(p, q, s['order'])
  elif op == 'mul':
    f = lambda: plain(uni_vts.multiply(p, q))
  elif op == 'der':
    f = lambda: plain(uni_vts.derivative(p))
  elif op == 'eval':
    n, d = hlib.big(s['r'][0]), hlib.big(s['r'][1])
    pt = {'frac': Fraction(n, d), 'sym': sympy.Rational(n, d)}[s['as']]
    if d == 1 and s['as'] == 'frac':
      pt = n
    f = lambda: rational(uni_vts.evaluate_poly(p, pt))
  elif op == 'evalroot':
    f = lambda: [sign(uni_vts.evaluate_poly(q, r)) for r in sorted_roots(p)]
  elif op == 'plist':
    ps = [ints(x) for x in s['ps']]
    keepps = copy.deepcopy(ps)
    f = lambda: [plain(x) for x in uni_vts.make_product_list(ps)]
  o = hlib.guarded(f)
  intact = (p, q) == keep
  if op == 'plist':
    intact = ps == keepps
  extra.update({'out': o, 'intact': intact})
  return extra

hlib.main(step)
