"""Partial elimination: one diagram per stimulus."""
import collections
import os
import sys
from fractions import Fraction
sys.path.insert(0, os.environ['VERIF_HARNESS'])
sys.path.insert(0, os.path.join(os.environ['VERIF_HARNESS'], 'shim'))
import hlib
import fastalg
hlib.use('highschool_qe')
import muchnik
import drv_qe_lib as L


def value(text, at):
  """sign of a printed condition at a parameter point"""
  v = eval(text, {'y': Fraction(*at[0]), 'z': Fraction(*at[1])})
  return (v > 0) - (v < 0)


class Noted(muchnik.Muchniker):
  """Remembers what is asked and the diagram that is built."""
  target = None
  built = None

  def _get_interactive_value(self, target, *a, **k):
    self.target = target
    return muchnik.Muchniker._get_interactive_value(self, target, *a, **k)

  def real_extend(self, *a, **k):
    self.built = muchnik.Muchniker.real_extend(self, *a, **k)
    return self.built

  def complex_extend(self, *a, **k):
    self.built = muchnik.Muchniker.complex_extend(self, *a, **k)
    return self.built


def run(s, via):
  ps = [L.build(p, via) for p in s['ps']]
  m = Noted(L.algebra(via))
  tail = L.Tail()
  real = s['op'] == 'real'
  sign = (lambda v: v) if real else abs
  # -1 is a right answer over the reals
  typos = [t for t in s['typos'] if t != '-1' or not real]
  trouble = []

  def answer(prompt=''):
    if len(trouble) > 300:
      raise RuntimeError('asks again and again')
    trouble.append(1)
    if typos and len(trouble) % 3:
      return typos.pop()
    t = m.target
    if t is None:
      t = (tail.t + prompt).rsplit('value for: ', 1)[1].rstrip().rstrip(':')
    return str(sign(value(str(t), s['at'])))

  def given(const_frag):
    # an assignment the caller brings along
    d = collections.defaultdict(dict)
    for c in const_frag:
      for col in (0, 0.5, 1.0) if real else (0,):
        d[c][col] = (sign(value(str(c), s['at'])), c)
    return d

  def f():
    sys.stdout = tail
    muchnik.raw_input = answer
    if real:
      how = {'given': given, 'pos': m.r_assignment_all_pos, 'zero': m.r_assignment_all_zero, 'neg': m.r_assignment_all_neq}
    else:
      how = {'given': given, 'pos': m.c_assignment_all_one, 'zero': m.c_assignment_all_zero, 'neg': m.c_assignment_all_one}
    go = m.real_partial if real else m.complex_partial
    if s['mode'] == 'ask':
      go(ps)
    else:
      go(ps, how[s['mode']])
    d = m.built
    if d is None:
      return None
    rows = list(d.keys())
    keys = sorted(set(k for p in rows for k in d[p]))
    return {'rows': [L.monos(p, via) for p in rows],
            'cols': [[int(d[p][k][0]) if k in d[p] else 9 for p in rows] for k in keys]}
  o = hlib.guarded(f)
  if o['kind'] == 'val' and o['v'] is None:
    return {'kind': 'unseen'}
  if o['kind'] == 'exc' and 'DiagramExc' in o['v']:
    return {'kind': 'bad'}
  return o


def step(s):
  o = run(s, s['via'])
  if o['kind'] == 'unseen':
    return {'skip': 'the diagram is not visible'}
  if o['kind'] not in ('val', 'bad') and s['via'] == 'fast':
    o = run(s, 'sympy')
    return {'out': o, 'via': 'sympy'}
  return {'out': o, 'via': s['via']}

hlib.main(step)
