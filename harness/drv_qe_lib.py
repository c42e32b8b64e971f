"""Building and reading polynomials for the elimination drivers."""
import sys
import hlib
import fastalg

S = []


def sym():
  if not S:
    out, sys.stdout = sys.stdout, hlib.Silence()
    import sympy
    import sympywrapper
    import cachedsympywrapper
    sys.stdout = out
    S.extend([sympy, sympywrapper, cachedsympywrapper, sympy.symbols('x y z')])
  return S


def build(p, via):
  if via == 'fast':
    return fastalg.P(dict(((a, b, c), int(k)) for k, a, b, c in p))
  sympy, _, _, xyz = sym()
  r = sympy.Integer(0)
  for k, a, b, c in p:
    r += sympy.Integer(int(k)) * xyz[0]**a * xyz[1]**b * xyz[2]**c
  return r


def monos(p, via):
  if isinstance(p, fastalg.P):
    return [[hlib.small(k), a, b, c] for (a, b, c), k in sorted(p.m.items())]
  if isinstance(p, (int, long)):
    return [[hlib.small(p), 0, 0, 0]] if p else []
  sympy, _, _, xyz = sym()
  q = sympy.Poly(p, *xyz)
  if q.is_zero:
    return []
  return sorted([hlib.small(k), int(m[0]), int(m[1]), int(m[2])] for m, k in q.terms())


def algebra(via):
  if via == 'fast':
    return fastalg.FastAlgebra()
  _, w, cw, xyz = sym()
  return w.SympyWrapper(xyz[0]) if via == 'sympy' else cw.CachedSympyWrapper(xyz[0])


class Tail(object):
  """Remembers the end of what is printed."""
  def __init__(self):
    self.t = ''
    self.after = None
  def write(self, s):
    self.t = (self.t + s)[-400:]
    if 'ans:' in s:
      self.after = [s[s.rindex('ans:') + 4:]]
    elif self.after is not None:
      self.after.append(s)
  def flush(self):
    pass


OPS = (('==', 0), ('!=', 1), ('<', -1), ('>', 1))


def printed(text, index):
  """The cases of a printed answer, each condition as [index of the polynomial
  with that text (0: none), sign]"""
  cases = []
  for l in text.splitlines():
    l = l.strip().strip('&|').strip()
    if l == '(':
      cases.append([])
    elif l.startswith('extended diagrams'):
      break
    elif l not in ('', ')'):
      if not cases:
        cases.append([])
      for op, sg in OPS:
        if l.endswith(op + ' 0'):
          cases[-1].append([index.get(l[:-len(op) - 2].strip(), 0), sg])
          break
      else:
        cases[-1].append([0, 0])
  return cases
