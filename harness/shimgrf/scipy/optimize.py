"""Stand-in for scipy.optimize.fsolve: a few damped Newton steps along the
gradient of the first component.  Any point is an acceptable answer of the
numerical solver as far as the properties are concerned; HOOK, if set, answers
instead."""
HOOK = None


def fsolve(f, x, xtol=1e-3, **kw):
  if HOOK:
    return HOOK(f, x, xtol=xtol, **kw)
  x = [float(a) for a in x]
  for it in range(12):
    y = float(f(x)[0])
    if abs(y) < 1e-9:
      break
    h = 1e-4
    g = []
    for i in range(len(x)):
      z = list(x)
      z[i] += h
      g.append((float(f(z)[0]) - y) / h)
    n = sum(a * a for a in g)
    if n < 1e-12:
      break
    s = y / n
    x = [a - s * b for a, b in zip(x, g)]
    if max(abs(a) for a in x) > 1e6:
      break
  return x
