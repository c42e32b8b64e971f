"""Builds symbolic objects from the specification's trees and reads symbolic
objects back, without using the code under test."""
import sympy
import hlib

CLASSES = {'le': sympy.Le, 'lt': sympy.Lt, 'eq': sympy.Eq, 'ne': sympy.Ne, 'ge': sympy.Ge, 'gt': sympy.Gt}


def build(e, names=None):
  """names: maps the tree's variable names to the ones to use"""
  t = e['t']
  if t in ('num', 'real'):
    return sympy.Rational(hlib.big(e['n']), hlib.big(e['d']))
  if t == 'var':
    return sympy.Symbol((names or {}).get(e['v'], e['v']))
  a = build(e['a'], names)
  if t == 'neg':
    return -a
  if t == 'pow':
    return a**e['k']
  b = build(e['b'], names)
  return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: a / b}[t]()


def relation(r, names=None):
  return CLASSES[r['r']](build(r['a'], names), build(r['b'], names))


def decided(v):
  return v == True or v == False


def opname(rel):
  for n, c in CLASSES.items():
    if rel.__class__ is c:
      return n
  return 'other:' + rel.__class__.__name__


def coeffs(e, x):
  """integer coefficients (constant first) of a positive multiple of e as a
  polynomial in x, or None if it is not one"""
  e = sympy.sympify(e)
  if e.free_symbols - set([x]):
    return None
  try:
    p = sympy.Poly(e, x)
  except Exception:
    return None
  cs = [sympy.Rational(c) for c in reversed(p.all_coeffs())]
  den = 1
  for c in cs:
    den = den * c.q // int(sympy.gcd(den, c.q))
  cs = [int(c * den) for c in cs]
  while cs and cs[-1] == 0:
    cs.pop()
  return [hlib.small(c) for c in cs]


def rel_out(rel, x):
  """a relation the code produced: operator and polynomial lhs - rhs"""
  if rel == True:
    return {'r': 'true', 'p': []}
  if rel == False:
    return {'r': 'false', 'p': []}
  cs = coeffs(rel.lhs - rel.rhs, x)
  if cs is None:
    return {'r': 'notpoly:' + str(rel)[:100], 'p': []}
  return {'r': opname(rel), 'p': cs, 'rhs0': rel.rhs == 0}
