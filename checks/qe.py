"""Q01-Q03: quantifier elimination."""
import sys
from fractions import Fraction
import vlib

sys.path.insert(0, vlib.HARNESS)
import fastalg
fastalg.long = int


def merge(p):
    m = {}
    for c, x, y, z in p:
        m[(x, y, z)] = m.get((x, y, z), 0) + c
    return [[c, x, y, z] for (x, y, z), c in sorted(m.items()) if c]


def degx(p):
    return max([m[1] for m in p] or [0])


def has_par(groups):
    return any(m[2] or m[3] for g in groups for p in g for m in p)


# ------------------------------------------------- how costly is a system?
def closure(groups, limit):
    """Size of the set of polynomials Muchnik's procedure works with: (with x,
    without x but with parameters); None if it gets too large."""
    A = fastalg.FastAlgebra()
    todo = [fastalg.P(dict(((x, y, z), c) for c, x, y, z in p)) for g in groups for p in g]
    done = []
    par = set()
    while todo:
        p = todo.pop(0)
        if not p.m or p in done:
            continue
        done.append(p)
        d = A.degree(p)
        if d == 0 and A.has_variable(p):
            par.add(p)
        if len(par) > limit or len(done) > 60:
            return None
        todo.append(A.p_tail(p))
        todo.append(A.derivative(p))
        if d > 0:
            for q in list(done):
                e = A.degree(q)
                if e > 0:
                    todo.append(A.pseudo_div(p, q)[1] if e <= d else fastalg.P({}))
                    todo.append(A.pseudo_div(q, p)[1] if e >= d else fastalg.P({}))
    return len(done) - len(par), len(par)


# --------------------------------------------------------- parameter points
GRID = sorted(set(Fraction(a, b) for b in (1, 2, 3) for a in range(-3 * b, 3 * b + 1)) |
              {Fraction(s * v) for s in (1, -1) for v in (4, 5, 7, 30, 1000)} | {Fraction(1, 50), Fraction(-1, 50)})
GRID2 = [Fraction(n) for n in (-40, -3, -2, -1, 0, 1, 2, 3, 40)] + [Fraction(1, 2), Fraction(-1, 2), Fraction(3, 2)]


def roots_of(c):
    """approximate real roots of a coefficient list (constant first)"""
    c = [Fraction(v) for v in c]
    while c and c[-1] == 0:
        c.pop()
    if len(c) <= 1:
        return []
    if len(c) == 2:
        return [-c[0] / c[1]]
    crit = sorted(roots_of([i * v for i, v in enumerate(c)][1:]))
    bound = 1 + max(abs(v / c[-1]) for v in c)
    pts = [-bound] + crit + [bound]

    def f(x):
        r = Fraction(0)
        for v in reversed(c):
            r = r * x + v
        return r
    out = []
    for v in crit:
        w = v.limit_denominator(1000)
        if f(w) == 0:
            out.append(w)
    for lo, hi in zip(pts, pts[1:]):
        a, b = f(lo), f(hi)
        if a * b < 0:
            for _ in range(40):
                m = ((lo + hi) / 2).limit_denominator(10 ** 12)
                v = f(m)
                if v == 0:
                    lo = hi = m
                    break
                if (v > 0) == (a > 0):
                    lo = m
                else:
                    hi = m
            w = lo.limit_denominator(1000)
            out.append(w if f(w) == 0 else lo.limit_denominator(10 ** 8))
    return sorted(set(out))


def points(polys, two, cap, rng):
    if two:
        pts = [(a, b) for a in GRID2 for b in GRID2]
        rng.shuffle(pts)
        pts = pts[:cap]
        # on the curves of the conditions: solve for y at some z
        for p in polys:
            for z in (Fraction(0), Fraction(1), Fraction(-2)):
                c = {}
                for k, x, y, w in p:
                    c[y] = c.get(y, 0) + int(k) * z ** w
                for r in roots_of([c.get(i, 0) for i in range(max(c or [0]) + 1)])[:2]:
                    pts.append((r, z))
        return pts[:2 * cap]
    ys = set()
    for p in polys:
        c = {}
        for k, x, y, w in p:
            c[y] = c.get(y, 0) + int(k)
        if c and max(c) <= 12:
            ys.update(roots_of([c.get(i, 0) for i in range(max(c) + 1)]))
    ys = sorted(ys)
    gaps = [(a + b) / 2 for a, b in zip(ys, ys[1:])]
    gaps = [g.limit_denominator(max(1, 4 * int(1 / (b - a)) + 1)) for g, a, b in zip(gaps, ys, ys[1:])]
    crit = [y for y in ys if y.denominator <= 1000]
    rng.shuffle(crit)
    rng.shuffle(gaps)
    out = list(GRID) + crit[:cap] + gaps[:cap]
    return [(y, Fraction(0)) for y in sorted(set(out))]


def rat(f):
    return [vlib.small(f.numerator), vlib.small(f.denominator)]


def main(pid, op, plan, rule):
    import random
    r = vlib.Run(pid, 'model_checking', '')
    design(r, op)
    stim, seen = [], set()
    ng = 2 if op == 'complex' else 3
    limit = {'real': r.pick(4, 5), 'complex': r.pick(6, 8), 'ch': r.pick(6, 8)}[op]
    for i, (maxp, shapes, two, num, via) in enumerate(plan(r)):
        cfg = ('CONSTANTS NGroups=%d MaxPolys=%d Shapes={%s} Two=%s\nINIT Init\nNEXT Next\n'
               % (ng, maxp, ','.join('"%s"' % s for s in shapes), 'TRUE' if two else 'FALSE'))
        new = []
        for s in r.generate('GenQE', cfg, num=num, depth=maxp + 3, name='GenQE%d' % i):
            g = [[merge(p) for p in ps] for ps in s['groups']]
            if sum(len(x) for x in g) == 0 or repr(g) in seen:
                continue
            if op == 'ch' and all(degx(p) == 0 for ps in g for p in ps):
                continue
            c = closure(g, limit if via == 'fast' else 3)
            if c is None or (op == 'real' and c[0] > 25) or (op == 'ch' and c[0] > 30):
                r.skipped['too costly'] = r.skipped.get('too costly', 0) + 1
                continue
            seen.add(repr(g))
            new.append({'op': op, 'groups': g, 'via': via})
        stim += new
        r.log('%d systems of shapes %s' % (len(new), '/'.join(shapes)))
    rng = random.Random(r.seed)
    rng.shuffle(stim)
    outs = r.drive('drv_qe.py', stim, stall=150, budget=r.pick(BUDGET, 2400))
    trace = []
    for s, o in zip(stim, outs):
        if o is None:
            continue
        if 'kind' in o:
            o = {'out': o, 'via': s['via']}
        e = {'op': op, 'out': o['out'], 'via': o['via'], 'par': has_par(s['groups'])}
        names = ('eq', 'ne') if ng == 2 else ('lt', 'eq', 'gt')
        e.update(zip(names, s['groups']))
        v = o['out'].get('v') if o['out']['kind'] == 'val' else None
        two = any(m[3] for g in s['groups'] for p in g for m in p)
        own = [[m for m in p if m[1] == k] for g in s['groups'] for p in g for k in range(4)]
        pts = points(own + (v['polys'] if v else []), two, r.pick(25, 60), rng) if e['par'] else []
        e['pts'] = [[rat(a), rat(b)] for a, b in pts]
        trace.append(e)
    bad, _ = r.validate('TraceQE', 'CONSTANT Judge <- JudgeQE\nINIT TraceInit\nNEXT TraceNext\n', trace)
    r.distinct([[e.get(k) for k in ('lt', 'eq', 'gt', 'ne')] for e in trace])
    r.cov['rule'] = rule + '; parameter points compared: %d' % sum(len(e['pts']) for e in trace)
    r.sample(*[{k: e[k] for k in e if k != 'pts'} for e in trace[::max(1, len(trace) // 7)]])
    for i, clause in bad:
        r.violation({'clause': clause, 'event': {k: trace[i][k] for k in trace[i] if k != 'pts'}})
    return r.finish()


BUDGET = 40


def design(r, op):
    if op == 'ch':
        for m, d, n in r.pick([(1, 1, 3), (1, 2, 1), (2, 1, 2)], [(2, 1, 2), (1, 1, 3), (1, 2, 2), (2, 2, 1), (1, 3, 1)]):
            r.model_check('CohenHorm', 'CONSTANTS M=%d MaxDeg=%d NPolys=%d\nSPECIFICATION Spec\nINVARIANT Faithful\n'
                          'PROPERTY Finishes\n' % (m, d, n), timeout=2000,
                          what='sign tables of all systems of up to %d polynomials of degree <= %d, coefficients '
                               'within %d' % (n, d, m))
        return
    mod = 'Muchnik' if op == 'real' else 'RootDiagram'
    for c, d, n, p in r.pick([('CoefsB', 2, 1, 'ParsB'), ('CoefsB', 1, 2, 'ParsB')],
                             [('CoefsA', 2, 1, 'ParsA'), ('CoefsD', 2, 1, 'ParsA'), ('CoefsB', 1, 2, 'ParsA'),
                              ('CoefsC', 3, 1, 'ParsC')]):
        r.model_check('MC' + mod, 'CONSTANTS Coefs <- %s MaxDeg=%d NPolys=%d Pars <- %s\nSPECIFICATION Spec\n'
                      'INVARIANT Faithful%s\nPROPERTY Finishes\n' % (c, d, n, p, ' NeverStuck' if op == 'real' else ''),
                      timeout=2000,
                      what='diagrams of all systems of %d polynomials of degree <= %d with parametric coefficients, '
                           'at several parameter values' % (n, d))
