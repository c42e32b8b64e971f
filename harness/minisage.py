"""A small stand-in for the part of Sage the relevance filter uses: exact
multivariate polynomials over the rationals (degrevlex), Groebner bases,
resultants, real root isolation by Sturm sequences and 0-1 programs by
enumeration.  Semantics follow Sage's documentation; everything is exact."""
from fractions import Fraction
import itertools
import re


LACKS = []


class Missing(AttributeError):
  """The code asks for something of Sage that the stand-in does not have; what
  happens then says nothing about the code."""


def missing(self, name):
  if not name.startswith('__'):
    LACKS.append('%s.%s' % (type(self).__name__, name))
    raise Missing(LACKS[-1])
  raise AttributeError(name)


def frac(v):
  if isinstance(v, Fraction):
    return v
  if isinstance(v, Poly):
    return v.constant()
  if isinstance(v, float):
    return Fraction(*v.as_integer_ratio())
  if isinstance(v, basestring):
    return Fraction(v)
  return Fraction(v)


def isnum(v):
  return isinstance(v, (int, long, float, Fraction))


class Ring(object):
  __getattr__ = missing
  def __init__(self, n):
    self.n = n
  def gens(self):
    return tuple(Poly({(0,) * i + (1,): Fraction(1)}, self) for i in range(self.n))
  def gen(self, i=0):
    return self.gens()[i]
  def ngens(self):
    return self.n
  def __call__(self, v):
    if isinstance(v, Poly):
      if max([0] + [len(m) for m in v.t]) > self.n:
        raise TypeError('not a polynomial in this ring: %s' % v)
      return Poly(v.t, self)
    return const(v, self)
  def __eq__(self, o):
    return isinstance(o, Ring) and o.n == self.n
  def __ne__(self, o):
    return not self == o
  def __hash__(self):
    return hash(('ring', self.n))
  def __repr__(self):
    return 'QQ[%s]' % ','.join('x%d' % i for i in range(self.n))


def const(v, ring):
  v = frac(v)
  return Poly({(): v} if v != 0 else {}, ring)


def strip(m):
  m = tuple(m)
  while m and m[-1] == 0:
    m = m[:-1]
  return m


def madd(a, b):
  if len(a) < len(b):
    a, b = b, a
  return tuple(x + (b[i] if i < len(b) else 0) for i, x in enumerate(a))


def drl(m, n):
  """Sort key: graded reverse lexicographic."""
  e = m + (0,) * (n - len(m))
  return (sum(e), tuple(-x for x in reversed(e)))


class Poly(object):
  def __init__(self, t, ring):
    self.t = dict((strip(m), c) for m, c in t.items() if c != 0)
    self.ring = ring
  # -- arithmetic
  def lift(self, o):
    return o if isinstance(o, Poly) else const(o, self.ring)
  def join(self, o):
    return self.ring if self.ring.n >= o.ring.n else o.ring
  def __add__(self, o):
    if not isinstance(o, Poly) and not isnum(o):
      return NotImplemented
    o = self.lift(o)
    t = dict(self.t)
    for m, c in o.t.items():
      t[m] = t.get(m, 0) + c
    return Poly(t, self.join(o))
  __radd__ = __add__
  def __neg__(self):
    return Poly(dict((m, -c) for m, c in self.t.items()), self.ring)
  def __pos__(self):
    return self
  def __sub__(self, o):
    return self + (-self.lift(o))
  def __rsub__(self, o):
    return self.lift(o) - self
  def __mul__(self, o):
    if not isinstance(o, Poly) and not isnum(o):
      return NotImplemented
    o = self.lift(o)
    t = {}
    for m, c in self.t.items():
      for n, d in o.t.items():
        k = madd(m, n)
        t[k] = t.get(k, 0) + c * d
    return Poly(t, self.join(o))
  __rmul__ = __mul__
  def __div__(self, o):
    o = self.lift(o)
    if o.is_constant():
      c = o.constant()
      if c == 0:
        raise ZeroDivisionError('division by zero')
      return Poly(dict((m, d / c) for m, d in self.t.items()), self.join(o))
    q, r = divrem(self, [o])
    if r.t:
      raise TypeError('not a polynomial: (%s)/(%s)' % (self, o))
    return q[0]
  __truediv__ = __div__
  def __rdiv__(self, o):
    return self.lift(o) / self
  def __pow__(self, n):
    r = const(1, self.ring)
    for i in range(int(n)):
      r = r * self
    return r
  # -- comparison
  def __eq__(self, o):
    if isinstance(o, Poly):
      return self.t == o.t
    if isnum(o):
      return self.is_constant() and self.constant() == frac(o)
    return False
  def __ne__(self, o):
    return not self == o
  def __hash__(self):
    if self.is_constant():
      return hash(self.constant())
    return hash(frozenset(self.t.items()))
  def cmp(self, o):
    d = self - self.lift(o)
    if not d.t:
      return 0
    if d.is_constant():
      return 1 if d.constant() > 0 else -1
    # terms are compared by the monomial order, as Sage does
    m = max(d.t, key=lambda k: drl(k, d.ring.n))
    return 1 if d.t[m] > 0 else -1
  def __lt__(self, o):
    return self.cmp(o) < 0
  def __le__(self, o):
    return self.cmp(o) <= 0
  def __gt__(self, o):
    return self.cmp(o) > 0
  def __ge__(self, o):
    return self.cmp(o) >= 0
  def __nonzero__(self):
    return bool(self.t)
  def __float__(self):
    return float(self.constant())
  __getattr__ = missing
  # -- structure
  def parent(self):
    return self.ring
  base_ring = lambda self: Rationals()
  def lc(self):
    return self.t[self.lm()] if self.t else Fraction(0)
  def constant_coefficient(self):
    return self.t.get((), Fraction(0))
  def coefficients(self):
    return [self.t[m] for m in sorted(self.t, key=lambda k: drl(k, self.ring.n), reverse=True)]
  def is_univariate(self):
    return len(self.variables()) <= 1
  def is_one(self):
    return self == 1
  def is_monomial(self):
    return len(self.t) == 1 and self.lc() == 1
  def is_term(self):
    return len(self.t) == 1
  def variable(self, i=0):
    return self.variables()[i]
  def __call__(self, *vals):
    if len(vals) == 1 and isinstance(vals[0], (list, tuple)):
      vals = vals[0]
    return self.substitute(dict(zip(self.ring.gens(), vals))).constant()
  def quo_rem(self, o):
    q, r = divrem(self, [o])
    return q[0], r
  def squarefree_decomposition(self):
    return self.factor()
  def gcd(self, o):
    r = const(1, self.ring)
    other = dict((f, e) for f, e in o.factor())
    for f, e in self.factor():
      r = r * f ** min(e, other.get(f, 0))
    return r
  def is_constant(self):
    return all(m == () for m in self.t)
  def is_zero(self):
    return not self.t
  def constant(self):
    if not self.is_constant():
      raise TypeError('not a constant polynomial: %s' % self)
    return self.t.get((), Fraction(0))
  def variables(self):
    s = sorted(set(i for m in self.t for i, e in enumerate(m) if e))
    return tuple(Poly({(0,) * i + (1,): Fraction(1)}, self.ring) for i in s)
  def nvariables(self):
    return len(self.variables())
  def monomials(self):
    ms = sorted(self.t, key=lambda k: drl(k, self.ring.n), reverse=True)
    return [Poly({m: Fraction(1)}, self.ring) for m in ms]
  def index(self):
    """Which variable this is."""
    (m, c), = self.t.items()
    if c != 1 or sum(m) != 1:
      raise TypeError('not a variable: %s' % self)
    return len(m) - 1
  def degree(self, v=None):
    if not self.t:
      return -1
    if v is None:
      return self.total_degree()
    i = v.index()
    return max(m[i] if i < len(m) else 0 for m in self.t)
  def total_degree(self):
    if not self.t:
      return -1
    return max(sum(m) for m in self.t)
  def lm(self):
    return max(self.t, key=lambda k: drl(k, self.ring.n))
  def lt(self):
    if not self.t:
      return self
    m = self.lm()
    return Poly({m: self.t[m]}, self.ring)
  def coefficient(self, d):
    """Coefficient of the monomial given as {variable: exponent}."""
    if isinstance(d, Poly):
      (m, c), = d.t.items()
      d = dict((i, e) for i, e in enumerate(m) if e)
    else:
      d = dict((v.index(), e) for v, e in d.items())
    t = {}
    for m, c in self.t.items():
      e = list(m) + [0] * (self.ring.n - len(m))
      if all(e[i] == k for i, k in d.items()):
        for i in d:
          e[i] = 0
        t[strip(e)] = c
    return Poly(t, self.ring)
  def derivative(self, v):
    i = v.index()
    t = {}
    for m, c in self.t.items():
      if i < len(m) and m[i]:
        e = list(m)
        e[i] -= 1
        t[strip(e)] = c * m[i]
    return Poly(t, self.ring)
  def substitute(self, d):
    vals = dict((v.index(), x) for v, x in d.items())
    r = Poly({}, self.ring)
    for m, c in self.t.items():
      rest = list(m)
      k = c
      for i, e in enumerate(m):
        if e and i in vals:
          k = k * frac(vals[i]) ** e
          rest[i] = 0
      r = r + Poly({strip(rest): k}, self.ring)
    return r
  subs = substitute
  # -- elimination
  def coeffs_in(self, v):
    return [self.coefficient({v: k}) for k in range(self.degree(v) + 1)] if self.t else []
  def resultant(self, o, v):
    f, g = self.coeffs_in(v), o.coeffs_in(v)
    n, m = len(f) - 1, len(g) - 1
    if n < 0 or m < 0:
      return Poly({}, self.join(o))
    if n + m == 0:
      return const(1, self.join(o))
    rows = []
    for i in range(m):
      rows.append([Poly({}, self.ring)] * i + f[::-1] + [Poly({}, self.ring)] * (m - 1 - i))
    for i in range(n):
      rows.append([Poly({}, self.ring)] * i + g[::-1] + [Poly({}, self.ring)] * (n - 1 - i))
    return det(rows)
  def discriminant(self, v):
    n = self.degree(v)
    if n < 1:
      return Poly({}, self.ring)
    if n == 1:
      return const(1, self.ring)
    r = self.resultant(self.derivative(v), v)
    if not r.t:
      return r
    r = r / self.coefficient({v: n})
    return -r if n % 4 in (2, 3) else r
  def factor(self):
    """Irreducible factors (monic) with multiplicities."""
    if not self.t:
      raise ArithmeticError('factorization of 0 is not defined')
    k = frozenset(self.t.items())
    if k not in FACTORS:
      if self.total_degree() <= 1:
        FACTORS[k] = [] if self.is_constant() else [(monic(self), 1)]
      else:
        FACTORS[k] = [(monic(p), e) for p, e in sympy_factors(self)]
    return [(self.ring(p), e) for p, e in FACTORS[k]]
  def reduce(self, B):
    return divrem(self, [b for b in B if b.t])[1]
  # -- one variable
  def univariate_polynomial(self):
    vs = self.variables()
    if len(vs) > 1:
      raise TypeError('not univariate: %s' % self)
    if not vs:
      return UPoly([self.constant()] if self.t else [])
    return UPoly([c.constant() for c in self.coeffs_in(vs[0])])
  def __str__(self):
    if not self.t:
      return '0'
    out = ''
    for m in sorted(self.t, key=lambda k: drl(k, self.ring.n), reverse=True):
      c = self.t[m]
      s = '*'.join('x%d' % i + ('^%d' % e if e > 1 else '') for i, e in enumerate(m) if e)
      a = abs(c)
      term = str(a) if not s else s if a == 1 else '%s*%s' % (a, s)
      out += (' - ' if c < 0 else ' + ') + term
    return out[3:] if out.startswith(' + ') else '-' + out[3:]
  __repr__ = __str__


FACTORS = {}


def monic(p):
  c = p.t[p.lm()]
  return Poly(dict((m, d / c) for m, d in p.t.items()), p.ring)


def sympy_factors(p):
  import sympy
  n = p.ring.n
  xs = [sympy.Symbol('x%d' % i) for i in range(n)]
  d = dict((m + (0,) * (n - len(m)), sympy.Rational(c.numerator, c.denominator)) for m, c in p.t.items())
  for q, e in sympy.Poly.from_dict(d, *xs).factor_list()[1]:
    yield Poly(dict((strip(m), Fraction(int(c.p), int(c.q))) for m, c in q.terms()), p.ring), e


def det(rows):
  """Fraction-free elimination over polynomials."""
  n = len(rows)
  a = [list(r) for r in rows]
  ring = max([p.ring for r in rows for p in r], key=lambda R: R.n)
  sign, prev = 1, const(1, ring)
  for k in range(n - 1):
    if not a[k][k].t:
      for i in range(k + 1, n):
        if a[i][k].t:
          a[k], a[i] = a[i], a[k]
          sign = -sign
          break
      else:
        return Poly({}, ring)
    for i in range(k + 1, n):
      for j in range(k + 1, n):
        a[i][j] = (a[i][j] * a[k][k] - a[i][k] * a[k][j]) / prev
    prev = a[k][k]
  r = a[n - 1][n - 1]
  return r if sign > 0 else -r


def divides(a, b):
  return all(x <= (b[i] if i < len(b) else 0) for i, x in enumerate(a))


def msub(a, b):
  return strip(x - (b[i] if i < len(b) else 0) for i, x in enumerate(a))


def divrem(p, B):
  q = [Poly({}, p.ring) for b in B]
  r = Poly({}, p.ring)
  lms = [b.lm() for b in B]
  while p.t:
    m = p.lm()
    for i, b in enumerate(B):
      if divides(lms[i], m):
        f = Poly({msub(m, lms[i]): p.t[m] / b.t[lms[i]]}, p.ring)
        p = p - f * b
        q[i] = q[i] + f
        break
    else:
      r = r + Poly({m: p.t[m]}, p.ring)
      p = Poly(dict((k, c) for k, c in p.t.items() if k != m), p.ring)
  return q, r


class Ideal(object):
  __getattr__ = missing
  def __init__(self, ps):
    self.ps = ps
  def groebner_basis(self):
    ring = max([p.ring for p in self.ps], key=lambda R: R.n)
    G = [ring(p) for p in self.ps if p.t]
    if not G:
      return [const(0, ring)]
    pairs = list(itertools.combinations(range(len(G)), 2))
    while pairs:
      i, j = pairs.pop(0)
      a, b = G[i].lm(), G[j].lm()
      n = max(len(a), len(b))
      a2, b2 = a + (0,) * (n - len(a)), b + (0,) * (n - len(b))
      l = strip(max(x, y) for x, y in zip(a2, b2))
      s = Poly({msub(l, a): 1 / G[i].t[a]}, ring) * G[i] - Poly({msub(l, b): 1 / G[j].t[b]}, ring) * G[j]
      s = divrem(s, G)[1]
      if s.t:
        pairs += [(k, len(G)) for k in range(len(G))]
        G.append(s)
    # reduced
    out = []
    for i, g in enumerate(G):
      if any(k != i and divides(h.lm(), g.lm()) and (h.lm() != g.lm() or k < i) for k, h in enumerate(G)):
        continue
      out.append(g)
    red = []
    for i, g in enumerate(out):
      g = divrem(g, [h for k, h in enumerate(out) if k != i])[1]
      red.append(Poly(dict((m, c / g.t[g.lm()]) for m, c in g.t.items()), ring))
    return sorted(red, key=lambda p: drl(p.lm(), ring.n), reverse=True)


def ideal(*ps):
  if len(ps) == 1 and isinstance(ps[0], (list, tuple)):
    ps = ps[0]
  return Ideal(list(ps))


# -- univariate polynomials with rational coefficients

def utrim(c):
  c = list(c)
  while c and c[-1] == 0:
    c.pop()
  return c


def uval(c, x):
  r = Fraction(0)
  for a in reversed(c):
    r = r * x + a
  return r


def udivmod(f, g):
  f = list(f)
  q = [Fraction(0)] * max(0, len(f) - len(g) + 1)
  while len(f) >= len(g):
    k = f[-1] / g[-1]
    d = len(f) - len(g)
    q[d] = k
    for i, a in enumerate(g):
      f[i + d] -= k * a
    f.pop()
    f = utrim(f)
  return q, f


def ugcd(f, g):
  while g:
    f, g = g, udivmod(f, g)[1]
    if g:
      g = [a / g[-1] for a in g]
  return f


def uder(c):
  return [a * i for i, a in enumerate(c)][1:]


def sturm(c):
  s = [c, uder(c)]
  while s[-1]:
    r = udivmod(s[-2], s[-1])[1]
    s.append([-a / abs(r[-1]) for a in r])
  return s[:-1]


def variations(vals):
  vals = [v for v in vals if v != 0]
  return sum(1 for a, b in zip(vals, vals[1:]) if (a > 0) != (b > 0))


class UPoly(object):
  def __init__(self, c):
    self.c = utrim([frac(a) for a in c])
  def __mul__(self, o):
    if not isinstance(o, UPoly):
      o = UPoly([o])
    if not self.c or not o.c:
      return UPoly([])
    r = [Fraction(0)] * (len(self.c) + len(o.c) - 1)
    for i, a in enumerate(self.c):
      for j, b in enumerate(o.c):
        r[i + j] += a * b
    return UPoly(r)
  __rmul__ = __mul__
  def __eq__(self, o):
    return self.c == (o.c if isinstance(o, UPoly) else utrim([frac(o)]))
  def __ne__(self, o):
    return not self == o
  def __hash__(self):
    return hash(tuple(self.c))
  def degree(self):
    return len(self.c) - 1
  def gcd(self, o):
    return UPoly(ugcd(self.c, o.c))
  def parent(self):
    return UQ
  def gen(self):
    return UPoly([0, 1])
  def __sub__(self, o):
    o = o if isinstance(o, UPoly) else UPoly([o])
    n = max(len(self.c), len(o.c))
    return UPoly([(self.c[i] if i < len(self.c) else 0) - (o.c[i] if i < len(o.c) else 0) for i in range(n)])
  def __add__(self, o):
    o = o if isinstance(o, UPoly) else UPoly([o])
    return self - (o * -1)
  def __floordiv__(self, o):
    return UPoly(udivmod(self.c, o.c)[0])
  def __div__(self, o):
    return self // o if isinstance(o, UPoly) else UPoly([a / frac(o) for a in self.c])
  def __pow__(self, n):
    r = UPoly([1])
    for i in range(n):
      r = r * self
    return r
  __getattr__ = missing
  def __call__(self, x):
    return uval(self.c, frac(x))
  def is_constant(self):
    return len(self.c) <= 1
  def is_zero(self):
    return not self.c
  def list(self):
    return list(self.c)
  def leading_coefficient(self):
    return self.c[-1] if self.c else Fraction(0)
  def derivative(self):
    return UPoly(uder(self.c))
  def __repr__(self):
    return 'U%s' % self.c
  def factor(self):
    ring = Ring(1)
    return [(q.univariate_polynomial(), e)
            for q, e in Poly(dict(((i,), a) for i, a in enumerate(self.c)), ring).factor()]
  def squarefree(self):
    c = self.c
    if len(c) <= 2:
      return c
    g = ugcd(c, uder(c))
    return udivmod(c, g)[0]
  def isolate(self):
    """Disjoint open intervals, or points, one per distinct real root."""
    c = utrim(self.squarefree())
    if len(c) <= 1:
      return []
    s = sturm(c)
    count = lambda x: variations([uval(p, x) for p in s])
    b = Fraction(1) + max(abs(a / c[-1]) for a in c[:-1])
    bound = Fraction(1)
    while bound <= b:
      bound *= 2
    out = []
    todo = [(-bound, bound, count(-bound), count(bound))]
    while todo:
      l, u, vl, vu = todo.pop()
      n = vl - vu
      if n == 0:
        continue
      if n == 1 and uval(c, l) != 0 and uval(c, u) != 0:
        out.append((l, u))
        continue
      m = (l + u) / 2
      k = 3
      while uval(c, m) == 0:
        m = l + (u - l) * Fraction(k, 7)
        k += 1
      vm = count(m)
      todo += [(l, m, vl, vm), (m, u, vm, vu)]
    return sorted(out)
  def roots(self):
    """Rational roots with multiplicities."""
    if not self.c:
      raise ValueError('roots of 0')
    out = []
    c = self.squarefree()
    den = 1
    for a in c:
      den = den * a.denominator // gcd(den, a.denominator)
    lead = abs(int(c[-1] * den))
    for l, u in self.isolate():
      # refine until at most one multiple of 1/lead fits
      sl = uval(c, l) > 0
      while (u - l) * lead * 2 > 1:
        m = (l + u) / 2
        v = uval(c, m)
        if v == 0:
          l = u = m
        elif (v > 0) == sl:
          l = m
        else:
          u = m
      for k in range(floor(l * lead), floor(u * lead) + 2):
        x = Fraction(k, lead)
        if l <= x <= u and uval(c, x) == 0:
          n, d = 0, self.c
          while uval(d, x) == 0:
            d, n = udivmod(d, [-x, Fraction(1)])[0], n + 1
          out.append((x, n))
          break
    return out
  def real_root_intervals(self):
    if not self.c:
      raise ValueError('real roots of 0')
    return [(i, 1) for i in self.isolate()]


UQ = Ring(1)


def gcd(a, b):
  a, b = abs(a), abs(b)
  while b:
    a, b = b, a % b
  return a


class Rationals(object):
  def __call__(self, v):
    return frac(v)
  def __getitem__(self, name):
    return Ring(1)


class Real(object):
  __getattr__ = missing
  def __init__(self, v):
    self.v = v
  def exact_rational(self):
    return frac(self.v)
  def __float__(self):
    return float(self.v)


# -- 0-1 programs

class Lin(object):
  def __init__(self, c):
    self.c = c
  def __add__(self, o):
    o = o.c if isinstance(o, Lin) else {None: o}
    c = dict(self.c)
    for k, v in o.items():
      c[k] = c.get(k, 0) + v
    return Lin(c)
  __radd__ = __add__
  def __mul__(self, k):
    return Lin(dict((i, v * k) for i, v in self.c.items()))
  __rmul__ = __mul__
  def __neg__(self):
    return self * -1
  def __sub__(self, o):
    return self + (o * -1)
  def __ge__(self, o):
    return ('>=', self - o)
  def __le__(self, o):
    return ('<=', self - o)
  def __eq__(self, o):
    return ('==', self - o)
  def at(self, x):
    return sum(v * (1 if k is None else x[k]) for k, v in self.c.items())


class Variable(object):
  __getattr__ = missing
  def __init__(self, p):
    self.p = p
  def __getitem__(self, i):
    if i not in self.p.vars:
      self.p.vars.append(i)
    return Lin({i: 1})


class MixedIntegerLinearProgram(object):
  __getattr__ = missing
  def __init__(self, maximization=True, solver=None):
    self.max = maximization
    self.vars, self.cons, self.obj, self.best = [], [], 0, None
  def new_variable(self, binary=False, **kw):
    if not binary:
      raise NotImplementedError('only 0-1 variables')
    return Variable(self)
  def add_constraint(self, c, min=None, max=None):
    if isinstance(c, Lin):
      if min is not None:
        self.cons.append(('>=', c - min))
      if max is not None:
        self.cons.append(('<=', c - max))
    else:
      self.cons.append(c)
  def set_objective(self, o):
    self.obj = o
  def show(self):
    pass
  def solve(self):
    best = None
    for bits in itertools.product((0, 1), repeat=len(self.vars)):
      x = dict(zip(self.vars, bits))
      ok = True
      for op, l in self.cons:
        v = l.at(x)
        if (op == '>=' and v < 0) or (op == '<=' and v > 0) or (op == '==' and v != 0):
          ok = False
          break
      if ok:
        o = self.obj.at(x) if isinstance(self.obj, Lin) else self.obj
        if self.max:
          o = -o
        if best is None or o < best[0]:
          best = (o, x)
    if best is None:
      raise Exception('MIPSolverException: no feasible solution')
    self.best = best[1]
    return best[0]
  def get_values(self, x):
    return dict((k, float(v)) for k, v in self.best.items())


def floor(v):
  v = frac(v)
  return v.numerator // v.denominator


def join(words, sep=' '):
  return sep.join(words)


def product(xs, z=1):
  for x in xs:
    z = z * x
  return z


# what Sage also offers by name; asking for it is like a missing method
GLOBALS = ('var', 'vector', 'matrix', 'Set', 'uniq', 'RDF', 'RIF', 'AA', 'QQbar', 'CC', 'Infinity', 'oo', 'infinity',
           'Subsets', 'Combinations', 'cartesian_product', 'srange', 'sgn', 'sign', 'factor', 'lcm', 'is_even', 'is_odd',
           'GF', 'FractionField', 'latex', 'show', 'cached_function', 'xsrange', 'N', 'n', 'SR', 'solve', 'resultant')


def namespace():
  return {
    'prod': product, 'mul': product, 'flatten': lambda l: [y for x in l for y in (x if isinstance(x, (list, tuple)) else [x])],
    'true': True, 'false': False, 'QQ': Rationals(), 'ZZ': int, 'RR': Real,
    'PolynomialRing': lambda base, name='x', n=1, order='degrevlex': Ring(n),
    'ideal': ideal, 'parent': lambda v: v.parent() if isinstance(v, (Poly, UPoly)) else type(v), 'join': join,
    'floor': floor, 'ceil': lambda v: -floor(-frac(v)),
    'sage_eval': lambda s: Fraction(s), 'MixedIntegerLinearProgram': MixedIntegerLinearProgram,
    'Integer': int, 'RealNumber': lambda s: Fraction(s), 'gcd': gcd,
  }


def preparse(text):
  """What Sage does to a .sage file as far as it matters here: ^ is power."""
  import tokenize
  import StringIO
  lines = text.splitlines(True)
  spots = []
  for tok in tokenize.generate_tokens(StringIO.StringIO(text).readline):
    if tok[0] == tokenize.OP and tok[1] == '^':
      spots.append(tok[2])
  for row, col in reversed(spots):
    l = lines[row - 1]
    lines[row - 1] = l[:col] + '**' + l[col + 1:]
  return ''.join(lines)


def load(path, ns):
  text = open(path).read()
  if path.endswith('.sage'):
    text = preparse(text)
  exec compile(text, path, 'exec') in ns
