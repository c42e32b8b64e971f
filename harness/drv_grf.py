"""The relevance filter: atoms, goals, the filtering loop, sampling and the
SMT front end, on a stand-in for Sage (minisage)."""
import os
import random
import re
import sys
from fractions import Fraction
H = os.environ['VERIF_HARNESS']
sys.path.insert(0, H)
sys.path.insert(0, os.path.join(H, 'shimgrf'))
import hlib
hlib.use('GRF')
sys.stdout = hlib.Silence()
import minisage
NS = minisage.namespace()
minisage.load(os.path.join(hlib.REPO, 'GRF', 'grf.sage'), NS)
minisage.load(os.path.join(hlib.REPO, 'GRF', 'smt2.py'), NS)
sys.stdout = sys.__stdout__

OPS = {'gt': '>', 'ge': '>=', 'lt': '<', 'le': '<=', 'eq': '=', 'ne': '!='}
BACK = dict((v, k) for k, v in OPS.items())


def build(p, ring):
  t = {}
  for c, a, b, d in p:
    m = minisage.strip((a, b, d))
    t[m] = t.get(m, 0) + Fraction(int(c))
  return minisage.Poly(t, ring)


def atom(a, R):
  l, r = build(a['l'], R), build(a['r'], R)
  if a['r'] == []:
    r = 0
  return NS['RCF_Atom'](l, OPS[a['op']], r)


def monos(p):
  """Integer multiple (positive factor) of a polynomial as monomials."""
  den = 1
  for c in p.t.values():
    den = den * c.denominator // minisage.gcd(den, c.denominator)
  return [[hlib.small(c * den)] + (list(m) + [0, 0, 0])[:3] for m, c in sorted(p.t.items())]


def point(pt, R):
  g = R.gens()
  return dict((g[i], Fraction(int(n), int(d))) for i, n, d in pt)


def tri(v):
  return 'T' if v is True else 'F' if v is False else 'N' if v is None else 'other ' + str(v)


def world(n, hyps, goal):
  d = NS['RCF_GD_Decide'](n)
  R = d.q.R
  hs = [atom(h, R) for h in hyps]
  if hs:
    d.assert_hyps(*hs)
  g = atom(goal, R)
  d.assert_goal(g)
  return d, R, hs, g


def record(d, n):
  """A point {variable: value} as numerators over a common denominator."""
  vals = [None] * n
  for v, x in d.items():
    vals[v.index()] = minisage.frac(x)
  return vals


def over(vals):
  if None in vals:
    return {'n': [0, 0, 0], 'd': 1, 'ok': False, 'some': vals != [None] * len(vals)}
  den = 1
  for v in vals:
    den = den * v.denominator // minisage.gcd(den, v.denominator)
  return {'n': [hlib.small(v * den) for v in vals] + [0] * (3 - len(vals)), 'd': hlib.small(den), 'ok': True, 'some': True}


def where(msg, n):
  """The point in a reported counterexample."""
  vals = [None] * n
  for m in re.finditer(r'x(\d+)\^?\d*: (?:Fraction\((-?\d+)L?, (\d+)L?\)|(-?[\d.]+(?:[eE][-+]?\d+)?)L?)', msg):
    i = int(m.group(1))
    if i >= n:
      return over([None])
    vals[i] = Fraction(int(m.group(2)), int(m.group(3))) if m.group(2) else minisage.frac(
      float(m.group(4)) if re.search('[.eE]', m.group(4)) else int(m.group(4)))
  return over(vals)


def places(d, hs):
  """Which hypotheses are in the goal and which are left: the atoms given, or
  (should the code keep copies) equal ones."""
  all = list(d.goal.goal_hyps) + list(d.hyps)
  free = range(len(hs))
  at = [0] * len(all)
  same = lambda a, b: a is b, lambda a, b: a.op == b.op and a.poly == b.poly
  for like in same:
    for k, u in enumerate(all):
      if not at[k]:
        for i in free:
          if like(hs[i], u):
            at[k] = i + 1
            free.remove(i)
            break
  n = len(d.goal.goal_hyps)
  return at[:n], at[n:]


def ending(o, n):
  """val / cex with point / exc"""
  if o['kind'] == 'exc' and 'Counterexample' in o['v']:
    return {'kind': 'cex', 'pt': where(o['full'], n)}
  return {'kind': o['kind'], 'v': '' if o['kind'] == 'val' else o['v']}


def run(f, *args):
  out = sys.stdout
  sys.stdout = hlib.Silence()
  try:
    try:
      return {'kind': 'val', 'v': f(*args)}
    except:
      e = sys.exc_info()
      return {'kind': 'exc', 'v': hlib.describe(e[:2]), 'full': str(e[1])}
  finally:
    sys.stdout = out


def do_atom(s):
  R = minisage.Ring(s['nv'])
  a = atom(s['a'], R)
  pts = [point(p, R) for p in s['pts']]
  out = []
  for step in s['steps']:
    if step == 0:
      a.negate()
      out.append([])
    else:
      out.append([tri(a.eval_on_dict(dict(p))) for p in pts if p])
  return out


def do_goal(s):
  R = minisage.Ring(s['nv'])
  g = NS['RCF_Goal'](main_goal=atom(s['main'], R))
  pts = [point(p, R) for p in s['pts']]
  out = [[tri(g.eval_on_dict(dict(p))) for p in pts if p]]
  for a in s['adds']:
    g.add_goal_hyp(atom(a, R), use_gbs=bool(s['gb']))
    out.append([tri(g.eval_on_dict(dict(p))) for p in pts if p])
  return out


class Answers(object):
  def __init__(self, script):
    self.script = list(script)
    self.asked = []
  def __call__(self, prompt=''):
    a = self.script.pop(0) if self.script else 'go'
    self.asked.append(a)
    return a


def do_check(s):
  random.seed(s['seed'])
  n = s['nv']
  d, R, hs, g = world(n, s['hyps'], s['goal'])
  ans = Answers(s['script'])
  NS['raw_input'] = ans
  o = run(lambda: d.check(partial=bool(s['partial']), k=5, epsilon=0.1, interactive=bool(s['script'])) and None)
  used, hidden = places(d, hs)
  return {'end': ending(o, n), 'used': used, 'hidden': hidden, 'asked': ans.asked}


def do_sample(s):
  random.seed(s['seed'])
  q = NS['QE_Factory'](s['nv'])
  R = q.R
  q.install_polys(*[build(p, R) for p in s['polys']])
  dicts = q.sample_pt_dicts(num_sps=s['num'])
  return [over(record(d, s['nv'])) for d in dicts]


def do_bads(s):
  n = s['nv']
  d, R, hs, g = world(n, s['hyps'], s['goal'])
  for h in s['ghyps']:
    d.goal.add_goal_hyp(atom(h, R), use_gbs=True)
  pts = [point(p, R) for p in s['pts']]
  lss = NS['lss']
  old = lss.local_search_sampling
  lss.local_search_sampling = lambda prob, D, params=None: [dict(p) for p in pts[1:]]
  d.sample_points = lambda *a, **k: [dict(p) for p in pts[1:]]
  try:
    o = run(lambda: d.bad_subsets_on_dict(dict(pts[0])))
  finally:
    lss.local_search_sampling = old
  if o['kind'] == 'val':
    return {'end': {'kind': 'val'}, 'none': o['v'] is None, 'bads': [[i + 1 for i in b] for b in o['v'] or []]}
  return {'end': ending(o, n), 'none': False, 'bads': []}


def do_hit(s):
  d, R, hs, g = world(s['nv'], s['hyps'], s['goal'])
  o = run(lambda: (d.weight_hyps(), d.good_hyps([[i - 1 for i in b] for b in s['bads']])))
  if o['kind'] == 'val':
    return {'end': {'kind': 'val'}, 'w': [int(x) for x in o['v'][0]], 'cand': [int(i) + 1 for i in o['v'][1]]}
  return {'end': ending(o, s['nv']), 'w': [], 'cand': []}


def vector(x):
  vals = [minisage.frac(v) for v in x]
  den = 1
  for v in vals:
    den = den * v.denominator // minisage.gcd(den, v.denominator)
  return {'n': [hlib.small(v * den) for v in vals], 'd': hlib.small(den)}


class Solver(object):
  """fsolve: probes what it is given and answers as scripted.  Which variable
  a coordinate belongs to it learns nothing of."""
  def __init__(self, s):
    self.answers = [[float(n) / d for i, n, d in p] for p in s['answers']]
    self.probes = [[float(n) / d for i, n, d in p] for p in s['probes']]
    self.calls = []
  def __call__(self, f, x, *a, **kw):
    y = self.answers[len(self.calls) % len(self.answers)]
    vals = [[minisage.frac(v) for v in f(p)] for p in self.probes]
    self.calls.append({'x': vector(x), 'ans': vector(y), 'f': [hlib.small(v[0] * 10 ** 9) for v in vals],
                       'square': all(len(v) == len(y) and not any(v[1:]) for v in vals)})
    return list(y)


def do_search(s):
  random.seed(s['seed'])
  out = []
  opt = sys.modules['scipy.optimize']
  for q in s['problems']:
    n = q['nv']
    d, R, hs, g = world(n, q['hyps'], q['goal'])
    for h in q['ghyps']:
      d.goal.add_goal_hyp(atom(h, R), use_gbs=True)
    opt.HOOK = solver = Solver(q)
    try:
      o = run(lambda: d.sample_points(point(q['pt'], R)))
    finally:
      opt.HOOK = None
    if o['kind'] == 'val':
      out.append({'end': {'kind': 'val'}, 'calls': solver.calls, 'out': [over(record(p, n)) for p in o['v']]})
    else:
      out.append({'end': ending(o, n), 'calls': [], 'out': []})
  return out


def read(atoms, names):
  """Atoms as relations over the named variables."""
  return [{'l': monos(a.poly), 'op': BACK[a.op]} for a in atoms]


def renamed(ctx, names):
  """Position of each of the problem's variables among the ring's."""
  return [1 + ctx.var_map[v].index() if v in ctx.var_map else 0 for v in names]


def do_fmls(s):
  P = NS['ParseSMT'](interactive=False)
  out = []
  for text in s['texts']:
    atoms = P.fmlsTokenList(text)
    out.append(read(atoms, s['names']))
  return {'rels': out, 'vars': renamed(P.context, s['names'])}


def do_smt(s):
  P = NS['ParseSMT'](interactive=False)
  res = []
  for q in s['sequents']:
    random.seed(s['seed'])
    o = run(lambda: P.processCommands(q['text']))
    c = P.context
    nv = len(c.x)
    if o['kind'] == 'val':
      h = c.hiding_result
      res.append({'end': {'kind': 'val'}, 'ha': [1 + i for i in h['hide_antecedent']],
                  'hs': [1 + i for i in h['hide_succedent']], 'name': c.sequent_str,
                  'vars': renamed(c, s['names'])})
    else:
      e = ending(o, nv)
      res.append({'end': e, 'ha': [], 'hs': [], 'name': '', 'vars': renamed(c, s['names'])})
      break
  return res


SHAPE = re.compile(r'^\("(.*)" \(((?:hide_antecedent_\d+(?: |(?=\))))*)\) \(((?:hide_succedent_\d+(?: |(?=\))))*)\)\)$', re.S)


def do_file(s):
  """grf_on_file, and what it writes (of the last sequent of the file)."""
  random.seed(s['seed'])
  f = open('problem.smt', 'w')
  f.write(s['text'])
  f.close()
  if os.path.exists('result'):
    os.remove('result')
  made = []
  SMTC = NS['SMTContext']
  class Noted(SMTC):
    def __init__(self, *a, **k):
      SMTC.__init__(self, *a, **k)
      made.append(self)
  NS['SMTContext'] = Noted
  try:
    o = run(lambda: NS['grf_on_file']('problem.smt', interactive=False, outfile='result'))
  finally:
    NS['SMTContext'] = SMTC
  c = made[-1]
  names = renamed(c, s['names'])
  if o['kind'] != 'val':
    return {'end': ending(o, len(c.x)), 'ha': [], 'hs': [], 'name': '', 'vars': names, 'n': [0, 0], 'ok': True}
  f = open('result')
  r = f.read()
  f.close()
  m = SHAPE.match(r)
  if not m:
    return {'end': {'kind': 'val'}, 'ha': [], 'hs': [], 'name': r, 'vars': names, 'n': [0, 0], 'ok': False}
  at = lambda t: [1 + int(x.split('_')[2]) for x in t.split()]
  return {'end': {'kind': 'val'}, 'ha': at(m.group(2)), 'hs': at(m.group(3)), 'name': m.group(1), 'vars': names,
          'n': [int(o['v'][0]), int(o['v'][1])], 'ok': True}


DO = {'atom': do_atom, 'goal': do_goal, 'check': do_check, 'sample': do_sample, 'bads': do_bads,
      'hit': do_hit, 'search': do_search, 'fmls': do_fmls, 'smt': do_smt, 'file': do_file}


def step(s):
  del minisage.LACKS[:]
  o = run(DO[s['k']], s)
  o.pop('full', None)
  m = re.search(r"NameError: (?:global )?name '?(\w+)", repr(o))
  if m and m.group(1) in minisage.GLOBALS:
    minisage.LACKS.append(m.group(1))
  if minisage.LACKS:
    return {'skip': 'stand-in for Sage lacks ' + minisage.LACKS[0]}
  return o

hlib.main(step)
