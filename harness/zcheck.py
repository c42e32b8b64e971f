"""Is Z3's real-closed-field library right about the roots of a polynomial?

Z3's root isolation goes astray on about 3 of 1000 polynomials: for
-3x^3+9x^2+7x-1 it isolates the root 0.1277... by (1/8, 67/32) and then refines
towards 67/32.  That is a defect of the installed library, not of the code
under test, so inputs on which the library contradicts exact arithmetic are set
aside (and counted in the evidence).  Nothing here calls the code under test."""
from fractions import Fraction
import z3rcf

EPS = Fraction(1, 10**15)


def trim(p):
  p = list(p)
  while p and p[-1] == 0:
    p.pop()
  return p


def rem(f, g):
  f = list(f)
  while len(f) >= len(g):
    c = Fraction(f[-1]) / g[-1]
    d = len(f) - len(g)
    for i in range(len(g)):
      f[i + d] = f[i + d] - c * g[i]
    f.pop()
    f = trim(f)
  return f


def quo(f, g):
  f, q = list(f), [Fraction(0)] * (len(f) - len(g) + 1)
  while len(f) >= len(g):
    c = Fraction(f[-1]) / g[-1]
    d = len(f) - len(g)
    q[d] = c
    for i in range(len(g)):
      f[i + d] = f[i + d] - c * g[i]
    f.pop()
    f = trim(f)
  return q


def der(p):
  return [i * p[i] for i in range(1, len(p))]


def monic(p):
  return [Fraction(c) / abs(p[-1]) for c in p]


def at(p, x):
  v = Fraction(0)
  for c in reversed(p):
    v = v * x + c
  return v


def changes(seq, x):
  n, last = 0, 0
  for p in seq:
    v = at(p, x)
    if v != 0:
      if last and (v > 0) != (last > 0):
        n += 1
      last = v
  return n


_seen = {}


def one(p):
  p = trim([Fraction(c) for c in p])
  if len(p) < 2:
    return True
  a, b = p, der(p)
  while b:
    a, b = b, rem(a, b)
  sf = monic(quo(p, a))
  seq = [sf, der(sf)]
  while len(seq[-1]) > 1:
    r = rem(seq[-2], seq[-1])
    if not r:
      break
    seq.append(monic([-c for c in r]))
  seq = [s for s in seq if s]
  bound = 1 + sum(abs(c / sf[-1]) for c in sf)
  n = changes(seq, -bound) - changes(seq, bound)
  roots = z3rcf.MkRoots([str(c) for c in p])
  if len(roots) != n:
    return False
  cells = []
  for r in roots:
    d = Fraction(r.decimal(20).replace('?', ''))
    lo, hi = d - EPS, d + EPS
    if at(sf, lo) == 0 or changes(seq, lo) - changes(seq, hi) != 1:
      return False
    cells.append((lo, hi))
  cells.sort()
  return all(cells[i][1] < cells[i + 1][0] for i in range(len(cells) - 1))


def trusted(polys):
  for p in polys:
    for q in (p, [-c for c in p]):
      k = tuple(q)
      if k not in _seen:
        _seen[k] = one(q)
      if not _seen[k]:
        return False
  return True
