"""Runs the univariate procedures on coefficients with square roots, pi and
infinitesimals (the numbers of Z3's real closed field library)."""
import os
import sys
sys.path.insert(0, os.environ['VERIF_HARNESS'])
import hlib
hlib.use('vts')
sys.stdout = hlib.Silence()
import z3rcf
import uni_vts
sys.stdout = sys.__stdout__

ROOT2 = [r for r in z3rcf.MkRoots([-2, 0, 1]) if r > 0][0]
PI = z3rcf.Pi()
EPS = z3rcf.MkInfinitesimal('e')
EPS2 = z3rcf.MkInfinitesimal('f')
ONE = z3rcf.RCFNum(1)
UNIT = {'one': ONE, 'three': ONE * 3, 'half': ONE / 2, 'sqrt2': ROOT2, 'pi': PI, 'eps': EPS, 'inf': ONE / EPS}
DEF = {'one': [ONE, ONE * 0, ONE], 'eps': [EPS, ONE * 0, ONE], 'alg': [ONE * 3, ROOT2 * -2, ONE]}


def number(x):
  v = ONE * x[0]
  for k, b in zip(x[1:], (ROOT2, PI, EPS, EPS2)):
    if k:
      v = v + b * k
  return v


def times(p, q):
  r = [ONE * 0] * (len(p) + len(q) - 1)
  for i, a in enumerate(p):
    for j, b in enumerate(q):
      r[i + j] = r[i + j] + a * b
  return r


def same(a, b):
  return not (a < b) and not (b < a)


def polynomial(s):
  if s['s'] == 0:
    return [0]
  p = [UNIT[s['unit']] * s['s']]
  for x in s['roots']:
    p = times(p, [-number(x), ONE])
  for d in s['defs']:
    p = times(p, DEF[d])
  return p


def distinct(s):
  xs = []
  for x in s['roots']:
    if x not in xs:
      xs.append(x)
  return xs


def found(p, s):
  """the library's roots of p, each as the number it should be; None if the
  library is wrong about them"""
  if len(p) < 2:
    return []
  roots, ret = z3rcf.MkRoots(p), []
  xs = distinct(s)
  for r in roots:
    m = [x for x in xs if same(number(x), r)]
    if len(m) != 1 or m[0] in [y for (y, _) in ret]:
      return None
    ret.append((m[0], r))
  return ret if len(ret) == len(xs) else None


def near(p, q, roots):
  ret = []
  for d in uni_vts.get_discri_der_signs([r for (_, r) in roots], p):
    d.set_origin_poly(p)
    m = [x for (x, r) in roots if same(r, d.point)]
    ret.append({'root': m[0], 'at': int(uni_vts.evaluate_single_on_sign_assignment(d, q)),
                'right': int(uni_vts.e_close_evaluate_single_on_sign_assignment(d, q))})
  return ret


def step(s):
  ps = [polynomial(p) for p in s['ps']]
  roots = [found(p, d) for p, d in zip(ps, s['ps'])]
  if None in roots:
    return {'skip': 'library'}
  op = s['op']
  if op == 'tarski':
    return hlib.guarded(lambda: int(uni_vts.tarski_query(ps[0], ps[1])))
  if op == 'at':
    return hlib.guarded(lambda: near(ps[0], ps[1], roots[0]))
  groups = {'le': [], 'lt': [], 'eq': [], 'ne': []}
  for p, r in zip(ps, s['rels']):
    groups[r].append(p)
  f = {'vts': uni_vts.internal_vts, 'ts': uni_vts.internal_ts}[op]
  o = hlib.guarded(f, groups['le'], groups['lt'], groups['eq'], groups['ne'])
  if o['kind'] == 'val' and not (o['v'] is True or o['v'] is False):
    o = {'kind': 'other', 'v': repr(o['v'])[:100]}
  return o

hlib.main(step)
