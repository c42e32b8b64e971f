"""Loading directories of problem files, in a scratch directory laid out like
the repository (GRF/Examples/MetiTarski beside vts)."""
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.environ['VERIF_HARNESS'])
import hlib
import slib
hlib.use('vts')
sys.stdout = hlib.Silence()
import sympy
import examples_parser
sys.stdout = sys.__stdout__

X = sympy.Symbol('x')
HOME = os.getcwd()


def value(e, env):
  m = dict((sympy.Symbol(n), sympy.Rational(hlib.big(v[0]), hlib.big(v[1]))) for n, v in env.items())
  v = sympy.sympify(e).subs(m)
  return [hlib.small(v.p), hlib.small(v.q)] if v.is_Rational else [0, 0]


def raw(r, env):
  if r == True or r == False:
    return {'dec': 'true' if r == True else 'false', 'op': '', 'a': [0, 1], 'b': [0, 1]}
  return {'dec': '', 'op': slib.opname(r), 'a': value(r.lhs, env), 'b': value(r.rhs, env)}


def show(examples):
  return [{'ante': [slib.rel_out(r, X) for r in a], 'succ': [slib.rel_out(r, X) for r in b]} for a, b in examples]


def unpkl(name):
  return name[:-4] if name.endswith('.pkl') else 'unexpected:' + name


def run(s, d):
  met = os.path.join(d, 'GRF', 'Examples', 'MetiTarski')
  os.makedirs(met)
  os.makedirs(os.path.join(d, 'vts'))
  for f in s['files']:
    with open(os.path.join(met, f['name']), 'w') as out:
      out.write(f['text'].encode('ascii'))
  os.chdir(os.path.join(d, 'vts'))
  parsed = examples_parser.parse_files_from_dir(met)
  ret = {'parsed': dict((n, [{'ante': [raw(r, s['env']) for r in q['antecedent']['fmls']],
                              'succ': [raw(r, s['env']) for r in q['succedent']['fmls']]} for q in qs])
                        for n, qs in parsed.items())}
  merged = examples_parser.examples_preformat_uni()['Metitarski']
  ret['merged'] = dict((n, show(ex)) for n, ex in merged.items())
  examples_parser.write_sympy_parseable_examples()
  stored = examples_parser.unpickle_dirs()['Metitarski']
  ret['stored'] = dict((unpkl(n), show(ex)) for n, ex in stored.items())
  ret['equal'] = dict((unpkl(n), ex) for n, ex in stored.items()) == merged
  # the generator gives the files' contents without names: match them up
  streamed = list(examples_parser.unpickle_dirs_gen())
  got = {}
  for n in merged:
    for i, ex in enumerate(streamed):
      if ex == merged[n]:
        got[n] = show(streamed.pop(i))
        break
  for i, ex in enumerate(streamed):
    got['unmatched%d' % i] = show(ex)
  ret['streamed'] = got
  return ret


def step(s):
  d = tempfile.mkdtemp('', 'files', HOME)
  try:
    return {'out': hlib.guarded(run, s, d)}
  finally:
    os.chdir(HOME)
    shutil.rmtree(d, True)

hlib.main(step)
