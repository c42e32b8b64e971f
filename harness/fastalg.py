"""A small exact polynomial algebra with the interface the elimination
procedures expect (muchnik.AlgebraAPIWrapper), so that they can be run on many
more problems than sympy's speed allows.  Polynomials are sums of monomials in
the eliminated variable (first exponent) and two parameters."""

NEG = float('-inf')
NAMES = ('x', 'y', 'z')


class P(object):
  __slots__ = ('m', '_h')

  def __init__(self, m):
    self.m = m
    self._h = None

  def __hash__(self):
    if self._h is None:
      self._h = hash(frozenset(self.m.items()))
    return self._h

  def __eq__(self, o):
    o = lift(o)
    if o is None:
      return False
    return self.m == o.m

  def __ne__(self, o):
    return not self == o

  def __neg__(self):
    return P(dict((k, -c) for k, c in self.m.items()))

  def __add__(self, o):
    o = lift(o)
    if o is None:
      return NotImplemented
    m = dict(self.m)
    for k, c in o.m.items():
      c += m.get(k, 0)
      if c:
        m[k] = c
      else:
        m.pop(k, None)
    return P(m)
  __radd__ = __add__

  def __sub__(self, o):
    o = lift(o)
    if o is None:
      return NotImplemented
    return self + (-o)

  def __rsub__(self, o):
    return lift(o) - self

  def __mul__(self, o):
    o = lift(o)
    if o is None:
      return NotImplemented
    m = {}
    for (a, b, c), u in self.m.items():
      for (d, e, f), v in o.m.items():
        k = (a + d, b + e, c + f)
        w = m.get(k, 0) + u * v
        if w:
          m[k] = w
        else:
          m.pop(k, None)
    return P(m)
  __rmul__ = __mul__

  def __pow__(self, n):
    r = P({(0, 0, 0): 1})
    for _ in range(n):
      r = r * self
    return r

  def expand(self):
    return self

  free_symbols = property(lambda self: set(NAMES[i] for k in self.m for i in range(3) if k[i]))

  def __str__(self):
    if not self.m:
      return '0'
    return ' + '.join(
      '*'.join([str(c)] + ['%s**%d' % (n, e) for n, e in zip(NAMES, k) if e])
      for k, c in sorted(self.m.items(), reverse=True))
  __repr__ = __str__


def lift(v):
  if isinstance(v, P):
    return v
  if isinstance(v, (int, long)):
    return P({(0, 0, 0): v} if v else {})
  return None


def X(k):
  return P({(k, 0, 0): 1})


class FastAlgebra(object):
  def degree(self, p):
    p = lift(p)
    return max([k[0] for k in p.m]) if p.m else NEG

  def coeff(self, p, d):
    return P(dict(((0,) + k[1:], c) for k, c in p.m.items() if k[0] == d))

  def LC(self, p):
    p = lift(p)
    return self.coeff(p, self.degree(p)) if p.m else P({})

  def LT(self, p):
    p = lift(p)
    d = self.degree(p)
    return P(dict((k, c) for k, c in p.m.items() if k[0] == d))

  def LS(self, p):
    p = lift(p)
    return p.m[max(p.m)] if p.m else 0

  def p_tail(self, p):
    return lift(p) - self.LT(p)

  def e_var(self):
    return X(1)

  def zero(self):
    return P({})

  def has_variable(self, p):
    return any(k != (0, 0, 0) for k in lift(p).m)

  def derivative(self, p):
    return P(dict(((k[0] - 1,) + k[1:], c * k[0]) for k, c in lift(p).m.items() if k[0]))

  def sign(self, s):
    if isinstance(s, P):
      v = s.m.get((0, 0, 0), 0)
      assert len(s.m) == (1 if v else 0), s
      s = v
    return (s > 0) - (s < 0)

  def pseudo_div(self, p, q):
    p, q = lift(p), lift(q)
    n = self.degree(q)
    if n == NEG:
      raise ZeroDivisionError('polynomial division')
    if self.degree(p) < n:
      return P({}), p
    lc = self.LC(q)
    left = self.degree(p) - n + 1
    quo, rem = P({}), p
    while self.degree(rem) >= n:
      t = self.LC(rem) * X(self.degree(rem) - n)
      quo = quo * lc + t
      rem = rem * lc - t * q
      left -= 1
    c = lc**left
    return quo * c, rem * c

  def div(self, p, q):
    """only needed by the eliminated variable itself"""
    p, q = lift(p), lift(q)
    if q == X(1):
      return (P(dict(((k[0] - 1,) + k[1:], c) for k, c in p.m.items() if k[0])),
              P(dict((k, c) for k, c in p.m.items() if not k[0])))
    raise NotImplementedError('div')
