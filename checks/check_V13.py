import json
import vlib


def main():
    r = vlib.Run('V13', 'model_checking', '')
    r.model_check('Sequent', 'CONSTANTS NPoly=2 MaxA=%d MaxS=%d\nSPECIFICATION Spec\nINVARIANT Equivalent NoGreater\n'
                  'PROPERTY Decides\n' % r.pick((2, 1), (2, 2)), what='clauses of all implications over two polynomials')
    r.model_check('VTS', 'CONSTANTS NPoly=2 NRoot=2\nSPECIFICATION Spec\nINVARIANT Exact\nPROPERTY Decides\n',
                  what='verdict on a clause for every sign table of 2 polynomials with up to 2 roots')
    cfg = 'CONSTANTS MaxAnte=%d MaxSucc=%d MaxDegree=%d MaxRoots=4 Batch=TRUE\nINIT Init\nNEXT Next\n'
    ex = []
    for i, (a, s, deg, num) in enumerate(r.pick([(1, 1, 5, 300), (2, 2, 5, 500), (3, 3, 4, 500)],
                                                [(1, 1, 7, 2000), (2, 2, 6, 4000), (4, 3, 5, 4000)])):
        ex += r.generate('GenRel', cfg % (a, s, deg), num=num, depth=40, name='GenRel%d' % i)
    # interleave the kinds, cut in files of one to three examples and batches of one to three files
    k = max(1, len(ex) // 3)
    ex = [e for t in zip(ex[:k], ex[k:2 * k], ex[2 * k:3 * k]) for e in t]
    stim, i, n = [], 0, 0
    while i < len(ex):
        files = []
        for f in range(n % 3 + 1):
            m = (n + f) % 3 + 1
            part = ex[i:i + m]
            i += m
            if part:
                files.append({'dir': 'HidingProblems' if (n + f) % 4 == 3 else 'Metitarski', 'name': 'f%d_%d' % (f, (n * 7) % 5),
                              'examples': part})
        if files:
            stim.append({'op': ('vts', 'vts', 'ts')[n % 3], 'files': files})
            stim.append({'op': ('ts', 'ts', 'vts')[n % 3], 'files': files})
        n += 1
    outs = r.drive('drv_batch.py', stim, stall=400, budget=r.pick(330, 3000))
    trace = [dict(s, **o) if 'kind' not in o else dict(s, out=o) for s, o in zip(stim, outs) if o is not None]
    bad, _ = r.validate('TraceRel', 'CONSTANT Judge <- JudgeBatch\nINIT TraceInit\nNEXT TraceNext\n', trace)
    r.distinct([[t['op'], t['files']] for t in trace])
    r.cov['rule'] = 'distinct batches (procedure, files of stored examples); every printed verdict and the final list judged'
    r.cov['examples'] = sum(len(f['examples']) for t in trace for f in t['files'])
    r.cov['verdicts'] = {v: sum(t['out']['v']['vals'].count(v) for t in trace if t['out']['kind'] == 'val') for v in ('True', 'False')}
    r.sample(*trace[::max(1, len(trace) // 7)])
    for i, clause in bad:
        r.violation({'clause': clause, 'event': trace[i]})
    return r.finish()
