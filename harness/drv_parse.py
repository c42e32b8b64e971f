"""Parsing sessions (grf_parser)."""
import os
import sys
sys.path.insert(0, os.environ['VERIF_HARNESS'])
import hlib
import slib
hlib.use('vts')
sys.stdout = hlib.Silence()
sys.setrecursionlimit(2**20)
import sympy
import grf_parser
sys.stdout = sys.__stdout__


def exact(v):
  v = sympy.sympify(v)
  if v.is_Float:
    sign, man, exp, bc = v._mpf_
    man = -int(man) if sign else int(man)
    v = sympy.Rational(man) * sympy.Rational(2)**exp
  if v.is_Rational and v.is_finite is not False and v.q != 0:
    return [hlib.small(v.p), hlib.small(v.q)]
  return [0, 0]


def vals(e, envs):
  ret = []
  for env in envs:
    m = dict((sympy.Symbol(n), sympy.Rational(hlib.big(v[0]), hlib.big(v[1]))) for n, v in env.items())
    try:
      ret.append(exact(sympy.sympify(e).subs(m)))
    except Exception:
      ret.append([0, 0])
  return ret


def rel(r, envs):
  if r == True or r == False:
    return {'dec': 'true' if r == True else 'false', 'op': '', 'a': [], 'b': []}
  return {'dec': '', 'op': slib.opname(r), 'a': vals(r.lhs, envs), 'b': vals(r.rhs, envs)}


def item(it):
  text, envs = it['text'].encode('ascii'), it['env']
  if it['kind'] == 'term':
    res = grf_parser.term.parseString(text)
    if len(res) != 1:
      raise Exception('%d results' % len(res))
    return {'vals': vals(res[0], envs)}
  if it['kind'] == 'rel':
    res = grf_parser.rln.parseString(text)
    if len(res) != 1:
      raise Exception('%d results' % len(res))
    return rel(res[0], envs)
  res = grf_parser.cmd.parseString(text)
  return {'name': res['str_name'],
          'ante': [rel(r, envs) for r in res['antecedent']['fmls']],
          'succ': [rel(r, envs) for r in res['succedent']['fmls']]}


def step(s):
  return {'kind': 'val', 'v': [hlib.guarded(item, it) for it in s['items']]}

hlib.main(step)
