import json
import vlib


def main():
    r = vlib.Run('V11', 'model_checking', '')
    r.model_check('MCText', 'INIT Init\nNEXT Next\nINVARIANT RoundTrip\n',
                  what='the text of every small tree has exactly one reading, the tree itself')
    stim = []
    for i, (items, depth, num) in enumerate(r.pick([(4, 2, 250), (8, 3, 350), (5, 5, 120)],
                                                   [(4, 2, 1500), (10, 3, 4000), (6, 5, 1500)])):
        stim += r.generate('GenParse', 'CONSTANTS MaxItems=%d MaxDepth=%d\nINIT Init\nNEXT Next\n' % (items, depth),
                           num=num, depth=20, name='GenParse%d' % i)
    outs = r.drive('drv_parse.py', stim, stall=240, budget=r.pick(300, 3000))
    trace = [dict(s, out=o) for s, o in zip(stim, outs) if o is not None]
    bad, _ = r.validate('TraceParse', 'CONSTANT Judge <- JudgeParse\nINIT TraceInit\nNEXT TraceNext\n', trace)
    r.distinct([[it['text']] for t in trace for it in t['items']])
    r.cov['rule'] = 'distinct texts, parsed in sessions of several texts'
    r.sample(*[[it['text'] for it in t['items']] for t in trace[::max(1, len(trace) // 7)]])
    for i, clause in bad:
        r.violation({'clause': clause, 'event': trace[i]})
    return r.finish()
