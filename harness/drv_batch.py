"""The batch checker on stored examples, in a scratch directory."""
import os
import pickle
import re
import shutil
import sys
import tempfile
sys.path.insert(0, os.environ['VERIF_HARNESS'])
import hlib
import slib
import zcheck
hlib.use('vts')
sys.stdout = hlib.Silence()
import sympy
import checker
import examples_parser
sys.stdout = sys.__stdout__

X = sympy.Symbol('x')
HOME = os.getcwd()


class Tee(object):
  def __init__(self):
    self.parts = []
  def write(self, s):
    self.parts.append(s)
  def flush(self):
    pass


def run(s, d):
  os.chdir(d)
  stored = []
  for f in s['files']:
    dd = os.path.join(d, 'Examples', f['dir'])
    if not os.path.isdir(dd):
      os.makedirs(dd)
    content = [([slib.relation(r) for r in ex['ante']], [slib.relation(r) for r in ex['succ']]) for ex in f['examples']]
    with open(os.path.join(dd, f['name'] + '.pkl'), 'wb') as out:
      pickle.dump(content, out)
    stored.append((content, f['examples']))
  # the order in which the loader delivers the files
  order = []
  for content in examples_parser.unpickle_dirs_gen():
    for i, (c, ex) in enumerate(stored):
      if c == content:
        order.append(ex)
        stored.pop(i)
        break
  examples = []
  for fi, exs in enumerate(order):
    for ei, ex in enumerate(exs):
      examples.append({'key': '%d,%d' % (fi, ei), 'ante': ex['ante'], 'succ': ex['succ']})
  out, sys.stdout = sys.stdout, Tee()
  try:
    checker.check_examples(s['op'] == 'vts')
    text = ''.join(sys.stdout.parts)
  finally:
    sys.stdout = out
  vals = re.findall(r'^formula value: (\w+)', text, re.M)
  # the map of false examples, printed after the last example
  last = text[text.rindex('formula value:'):]
  listed = ['%s,%s' % m for m in re.findall(r'^\((\d+), (\d+)\) - False', last, re.M)]
  return {'vals': vals, 'listed': listed, 'examples': examples}


def step(s):
  polys = []
  for f in s['files']:
    for ex in f['examples']:
      for r in ex['ante'] + ex['succ']:
        polys.append([hlib.big(c) for c in slib.coeffs(slib.build(r['a']) - slib.build(r['b']), X)])
  if not zcheck.trusted(polys):
    return {'skip': 'library'}
  d = tempfile.mkdtemp('', 'batch', HOME)
  try:
    return {'out': hlib.guarded(run, s, d)}
  finally:
    os.chdir(HOME)
    shutil.rmtree(d, True)

hlib.main(step)
