"""Shared part of the Jython drivers: read stimuli, call the code, record what
it did as one JSON line per stimulus."""
import json
import os
import sys
import time
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')


def use(*subdirs):
  for d in subdirs:
    sys.path.insert(0, os.path.join(REPO, d))


def small(n):
  """Integers beyond 32 bits travel as decimal strings."""
  n = int(n)
  return n if -2**31 < n < 2**31 else str(n)


def big(v):
  return int(v)


class Silence(object):
  """Swallows what the code prints."""
  def write(self, s):
    pass
  def flush(self):
    pass


def describe(exc):
  try:
    return '%s: %s' % (exc[0].__name__, str(exc[1])[:200])
  except Exception:
    return 'unprintable exception'


def guarded(f, *args):
  """Outcome of calling f: {"kind": "val", "v": ...} or {"kind": "exc", ...}"""
  out = sys.stdout
  sys.stdout = Silence()
  try:
    try:
      return {'kind': 'val', 'v': f(*args)}
    except:
      return {'kind': 'exc', 'v': describe(sys.exc_info()[:2])}
  finally:
    sys.stdout = out


def main(step):
  infile, outfile = sys.argv[1], sys.argv[2]
  deadline = os.environ.get('VERIF_DEADLINE')
  deadline = float(deadline) if deadline else None
  out = open(outfile, 'a')
  def emit(rec):
    out.write(json.dumps(rec) + '\n')
    out.flush()
  for line in open(infile):
    rec = json.loads(line)
    if deadline and time.time() > deadline:
      emit({'deadline': True})
      break
    emit({'start': rec['i']})
    try:
      o = step(rec['s'])
    except:
      emit({'fatal': 'driver: %s\n%s' % (describe(sys.exc_info()[:2]), traceback.format_exc())})
      break
    emit({'i': rec['i'], 'o': o})
  out.close()
