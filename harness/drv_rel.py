"""The checker's clause construction and the loader's merging of variables."""
import os
import sys
sys.path.insert(0, os.environ['VERIF_HARNESS'])
import hlib
import slib
hlib.use('vts')
sys.stdout = hlib.Silence()
import sympy
import checker
import examples_parser
sys.stdout = sys.__stdout__

X = sympy.Symbol('x')


def dec(r):
  return 'true' if r == True else 'false' if r == False else ''


def rels(rs):
  return [slib.relation(r) for r in rs]


def step(s):
  op = s['op']
  if op == 'pre':
    a, b = rels(s['ante']), rels(s['succ'])
    o = hlib.guarded(lambda: [[slib.rel_out(r, X) for r in c] for c in checker.vts_preformat(a, b)])
    return {'out': o, 'deca': map(dec, a), 'decs': map(dec, b)}
  rs = rels(s['rels'])
  if op in ('negate', 'less', 'map') and any(dec(r) for r in rs):
    return {'skip': 'decided relation'}
  if op == 'negate':
    return {'out': hlib.guarded(lambda: [slib.rel_out(r, X) for r in checker.negate_relations(rs)])}
  if op == 'less':
    return {'out': hlib.guarded(lambda: [slib.rel_out(r, X) for r in checker.rewrite_to_less(rs)])}
  if op == 'map':
    return {'out': hlib.guarded(lambda: dict((k, [slib.coeffs(p, X) for p in v])
                                             for k, v in checker.make_relation_map(rs).items()))}
  if op == 'uni':
    return {'out': hlib.guarded(lambda: [slib.rel_out(r, X) for r in examples_parser.make_univariate(rs)]),
            'dec': map(dec, rs)}

hlib.main(step)
