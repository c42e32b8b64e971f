import json
import vlib


def main():
    r = vlib.Run('V08', 'model_checking', '')
    r.model_check('MatrixValue', 'INIT Init\nNEXT Next\nINVARIANT Laws\n', what='laws of the sign matrices up to n=4')
    cfg = 'CONSTANTS Procs={p1,p2} MaxN=%d Budget=%d Atomic=TRUE\nSPECIFICATION Spec\nINVARIANT TypeOk AnswersRight DiskWhole MemRight\n'
    r.model_check('MatrixCache', cfg % r.pick((2, 4), (3, 5)),
                  what='two processes sharing the directory, dying anywhere, requests and deaths up to the budget')
    broken = r.tlc('MatrixCache', cfg.replace('TRUE', 'FALSE') % (2, 3), name='MatrixCacheInPlace', expect_error=True)
    if 'is violated' not in broken.out:
        raise vlib.MachineError('writing in place should violate the design:\n' + broken.out[-3000:])
    r.cov['parts'].append({'part': 'sensitivity', 'what': 'the same design writing in place violates its invariants, as it should'})

    stim = []
    for i, (procs, n, steps, num) in enumerate(r.pick([(1, 2, 6, 60), (2, 2, 10, 160), (2, 3, 14, 120), (3, 3, 20, 60)],
                                                      [(1, 3, 8, 300), (2, 2, 12, 800), (2, 3, 16, 1500), (3, 3, 26, 800), (2, 4, 16, 60)])):
        stim += r.generate('GenCache', 'CONSTANTS NProc=%d MaxN=%d Steps=%d\nINIT Init\nNEXT Next\n' % (procs, n, steps),
                           num=num, depth=60, name='GenCache%d' % i)
    def cmd(c, p, kind='', n=0, k=0):
        return {'c': c, 'p': p, 'kind': kind, 'n': n, 'k': k}
    def ask(p, kind, n):
        return [cmd('call', p, kind, n), cmd('finish', p)]
    # every size, in both orders, twice in one process and once in a second one; sizes to refuse
    sizes = []
    for kind in ('mat', 'inv'):
        for n in (-1, 0, 6, 7, 1, 2, 3, 4):
            sizes += ask(1, kind, n)
    up = [cmd('start', 1)] + sizes + [cmd('start', 2)] + [dict(c, p=2) for c in sizes]
    down = [cmd('start', 1)] + ask(1, 'inv', 4) + ask(1, 'mat', 3) + ask(1, 'inv', 3) + ask(1, 'mat', 4) + ask(1, 'inv', 2) \
        + ask(1, 'mat', 2) + ask(1, 'inv', 1) + ask(1, 'mat', 1) + ask(1, 'mat', 0) + ask(1, 'inv', 6)
    big = [cmd('start', 1)] + ask(1, 'inv', 5) + ask(1, 'mat', 5) + [cmd('start', 2)] + ask(2, 'mat', 5) + ask(2, 'inv', 5) \
        + ask(2, 'mat', 4) + ask(2, 'mat', 6) + ask(2, 'inv', 6)
    stim = [{'h': big}, {'h': up}, {'h': down}] + stim
    # every point of death of a single request, followed by a new process
    for kind, n in (('mat', 2), ('inv', 2), ('inv', 3)):
        for k in range(0, r.pick(26, 40)):
            stim.append({'h': [cmd('start', 1), cmd('call', 1, kind, n), cmd('run', 1, k=k), cmd('kill', 1), cmd('start', 2)]
                         + ask(2, kind, n) + ask(2, 'mat', n) + ask(2, 'inv', n)})
    for k in range(0, 20):
        stim.append({'h': [cmd('boot', 1), cmd('run', 1, k=k), cmd('kill', 1), cmd('start', 2)] + ask(2, 'inv', 1) + ask(2, 'inv', 2)})
        stim.append({'h': [cmd('boot', 1), cmd('boot', 2), cmd('run', 1, k=k), cmd('run', 2, k=4), cmd('boot', 3), cmd('finish', 3),
                           cmd('finish', 2), cmd('finish', 1), cmd('start', 4)] + ask(1, 'inv', 1) + ask(3, 'inv', 2) + ask(4, 'mat', 2)})
    # two writers of one entry, one overtaking the other at every point
    for kind, n in (('mat', 2), ('inv', 2)):
        for k in range(0, r.pick(14, 40)):
            for j in (1, 3, 6):
                stim.append({'h': [cmd('start', 1), cmd('start', 2), cmd('call', 1, kind, n), cmd('run', 1, k=k),
                                   cmd('call', 2, kind, n), cmd('run', 2, k=j), cmd('run', 1, k=2), cmd('finish', 2),
                                   cmd('start', 3)] + ask(3, kind, n) + [cmd('finish', 1), cmd('start', 4)] + ask(4, kind, n)})
    outs = r.drive('drv_cache.py', stim, stall=600, heap='3g', budget=r.pick(500, 3000), alone=3)
    trace, ids, where = [], {}, []
    for h, o in zip(stim, outs):
        if o is None:
            continue
        if 'ev' not in o:
            r.violation({'clause': 'no-answer-' + o['kind'], 'history': h})
            continue
        for e in o['ev']:
            if e['e'] == 'return':
                key = json.dumps([e['kind'], e['n'], e['rows']])
                if key not in ids:
                    ids[key] = len(ids) + 1
                    trace.append({'e': 'value', 'kind': e['kind'], 'n': e['n'], 'rows': e['rows']})
                    where.append(h)
                e = {'e': 'return', 'p': e['p'], 'id': ids[key]}
            trace.append(e)
            where.append(h)
    bad, _ = r.validate('TraceCache', 'INIT TInit\nNEXT TNext\n', trace)
    r.distinct([s['h'] for s, o in zip(stim, outs) if o is not None])
    r.cov['rule'] = 'distinct histories (process starts, requests, interleavings, deaths) executed on the code'
    r.cov['distinct_matrices_returned'] = len(ids)
    r.sample(*[s for s in stim[3::97]])
    for i, clause in bad:
        e = dict(trace[i])
        e.pop('rows', None)
        r.violation({'clause': clause, 'event': e, 'history': where[i]})
    return r.finish()
