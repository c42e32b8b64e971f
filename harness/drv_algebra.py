"""Sessions with the plain and the caching algebra wrappers."""
import os
import sys
sys.path.insert(0, os.environ['VERIF_HARNESS'])
sys.path.insert(0, os.path.join(os.environ['VERIF_HARNESS'], 'shim'))
import hlib
hlib.use('highschool_qe')
sys.stdout = hlib.Silence()
import sympy
import sympywrapper
import cachedsympywrapper
sys.stdout = sys.__stdout__

XYZ = sympy.symbols('x y z')


def build(p, twin=False):
  r = sympy.Integer(0)
  ms = list(p)
  if twin:
    ms.reverse()
  for k, a, b, c in ms:
    r += sympy.Integer(int(k)) * XYZ[0]**a * XYZ[1]**b * XYZ[2]**c
  return r


def monos(p):
  q = sympy.Poly(sympy.sympify(p), *XYZ)
  if q.is_zero:
    return []
  return sorted([hlib.small(k), int(m[0]), int(m[1]), int(m[2])] for m, k in q.terms())


def value(op, r):
  if op == 'degree':
    return -1 if r == sympy.oo * -1 or r == float('-inf') else int(r)
  if op == 'has_variable':
    return bool(r)
  if op in ('LS', 'sign'):
    return hlib.small(r)
  if op in ('div', 'pseudo_div'):
    return [monos(r[0]), monos(r[1])]
  return monos(r)


def call(alg, op, args):
  if op in ('zero', 'e_var'):
    return value(op, getattr(alg, op)())
  return value(op, getattr(alg, op)(*args))


def step(s):
  plain = dict((v, sympywrapper.SympyWrapper(XYZ[v - 2])) for v in (2, 3, 4))
  cached = dict((v, cachedsympywrapper.CachedSympyWrapper(XYZ[v - 2])) for v in (2, 3, 4))
  out = []
  for c in s['calls']:
    args = [build(p, c['twin']) for p in c['args']]
    if c['op'] in ('pseudo_div', 'div') and args[1] == 0:
      continue
    o = hlib.guarded(call, cached[c['v']], c['op'], args)
    args = [build(p) for p in c['args']]
    p = hlib.guarded(call, plain[c['v']], c['op'], args)
    out.append({'op': c['op'], 'v': c['v'], 'args': [monos(build(a)) for a in c['args']],
                'out': o, 'plain': p, 'same': o == p})
  return {'calls': out}

hlib.main(step)
