import json
import vlib


def main():
    r = vlib.Run('V12', 'model_checking', '')
    r.model_check('MCMerge', 'INIT Init\nNEXT Next\nINVARIANT Merged\n',
                  what='merging variables: truth of all small relations in two variables on the diagonal')
    stim = []
    for i, (n, d, num) in enumerate(r.pick([(3, 2, 500), (5, 4, 700)], [(3, 2, 4000), (6, 4, 8000)])):
        stim += [dict(s, op='uni') for s in r.generate('GenUni', 'CONSTANTS MaxRels=%d MaxDepth=%d\nINIT Init\nNEXT Next\n' % (n, d),
                                                       num=num, depth=40, name='GenUni%d' % i)]
    outs = r.drive('drv_rel.py', stim, budget=r.pick(240, 2000))
    trace = [dict(s, **o) if 'kind' not in o else dict(s, out=o, dec=[]) for s, o in zip(stim, outs) if o is not None]
    bad, _ = r.validate('TraceRel', 'CONSTANT Judge <- JudgeRel\nINIT TraceInit\nNEXT TraceNext\n', trace)
    r.distinct([t['rels'] for t in trace])
    files = []
    for i, (f, q, n, d, num) in enumerate(r.pick([(1, 3, 3, 2, 120), (4, 3, 3, 3, 160)], [(1, 4, 4, 3, 1000), (6, 4, 3, 3, 1500)])):
        files += r.generate('GenFiles', 'CONSTANTS MaxFiles=%d MaxSeqs=%d MaxRels=%d MaxDepth=%d\nINIT Init\nNEXT Next\n' % (f, q, n, d),
                            num=num, depth=60, name='GenFiles%d' % i)
    fouts = r.drive('drv_files.py', files, budget=r.pick(240, 2000))
    ftrace = [dict(s, **o) if 'kind' not in o else dict(s, out=o) for s, o in zip(files, fouts) if o is not None]
    fbad, _ = r.validate('TraceFiles', 'CONSTANT Judge <- JudgeFiles\nINIT TraceInit\nNEXT TraceNext\n', ftrace)
    r.distinct([[f['text'] for f in t['files']] for t in ftrace])
    r.cov['rule'] = 'distinct relation lists merged, and distinct directories of problem files loaded, stored and read back'
    r.sample(*(trace[::max(1, len(trace) // 3)] + [[f['text'] for f in t['files']] for t in ftrace[:4]]))
    for i, clause in bad:
        r.violation({'clause': clause, 'event': trace[i]})
    for i, clause in fbad:
        r.violation({'clause': clause, 'event': ftrace[i]})
    return r.finish()
