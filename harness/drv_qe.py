"""Quantifier elimination: one system per stimulus.

op: ch, real (Muchnik) or complex (Muchnik); groups: the three (two) lists of
polynomials, each a list of monomials [c, ex, ey, ez]; via: fast (exact
polynomial algebra of fastalg.py), sympy, cached."""
import os
import sys
sys.path.insert(0, os.environ['VERIF_HARNESS'])
sys.path.insert(0, os.path.join(os.environ['VERIF_HARNESS'], 'shim'))
import hlib
import fastalg
hlib.use('highschool_qe')
import cohenhorm
import muchnik
from drv_qe_lib import build, monos, algebra, Tail, printed

def run(s, via):
  groups = [[build(p, via) for p in g] for g in s['groups']]
  a = algebra(via)
  tail = Tail()

  def f():
    sys.stdout = tail
    if s['op'] == 'ch':
      r = cohenhorm.CohenHormander(a).real_full(*groups)
    elif s['op'] == 'real':
      r = muchnik.Muchniker(a).real_full(*groups)
    else:
      r = muchnik.Muchniker(a).complex_full(*groups)
    signs = (0, 1) if s['op'] == 'complex' else (-1, 0, 1)
    index, polys, cases, texts = {}, [], [], {}
    for case in r:
      c = []
      for ps, sg in zip(case, signs):
        for p in ps:
          m = monos(p, via)
          k = repr(m)
          if k not in index:
            polys.append(m)
            index[k] = len(polys)
          c.append([index[k], sg])
          texts[str(p).strip()] = index[k]
      cases.append(c)
    t = [l.strip().lower() for l in tail.t.splitlines() if l.strip()]
    said = ''
    for l in t:
      if l.startswith('unsat'):
        said = 'unsat'
      elif l.startswith('sat'):
        said = 'sat'
    shown = printed(''.join(tail.after), texts) if tail.after is not None else cases
    return {'polys': polys, 'cases': cases, 'said': said, 'shown': shown}
  return hlib.guarded(f)


def step(s):
  o = run(s, s['via'])
  if o['kind'] != 'val' and s['via'] == 'fast':
    # the code may ask more of the algebra than fastalg offers
    o = run(s, 'sympy')
    return {'out': o, 'via': 'sympy'}
  return {'out': o, 'via': s['via']}

hlib.main(step)
