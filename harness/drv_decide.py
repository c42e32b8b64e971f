"""Runs constraint systems through the univariate decision procedures."""
import os
import sys
sys.path.insert(0, os.environ['VERIF_HARNESS'])
import hlib
import zcheck
hlib.use('vts')
sys.stdout = hlib.Silence()
import sympy
import isym
import uni_vts
sys.stdout = sys.__stdout__

X = sympy.Symbol('x')


def as_sympy(p, den):
  e = sympy.Integer(0)
  for i, c in enumerate(p):
    e = e + sympy.Rational(c, den) * X**i
  return e


def step(s):
  if not zcheck.trusted([[hlib.big(c) for c in p] for p in s['ps']]):
    return {'skip': 'library'}
  groups = {'le': [], 'lt': [], 'eq': [], 'ne': []}
  via = s.get('via', 'list')
  for p, r in zip(s['ps'], s['rels']):
    p = [hlib.big(c) for c in p]
    if via == 'sympy':
      p = as_sympy(p, s.get('den', 1))
    groups[r].append(p)
  args = [groups['le'], groups['lt'], groups['eq'], groups['ne']]
  if via == 'sympy':
    f = {'vts': isym.vts, 'ts': isym.ts}[s['op']]
  else:
    f = {'vts': uni_vts.internal_vts, 'ts': uni_vts.internal_ts}[s['op']]
  o = hlib.guarded(f, *args)
  if o['kind'] == 'val':
    v = o['v']
    if v is True or v is False:
      o = {'kind': 'val', 'v': v}
    else:
      o = {'kind': 'other', 'v': repr(v)[:100]}
  return o

hlib.main(step)
