import vlib


def main():
    r = vlib.Run('Q04', 'model_checking', '')
    r.model_check('AlgCache', 'CONSTANTS Algs={1,2} Polys={"p","q"} MaxMem=9 MaxCalls=%d\nSPECIFICATION Spec\n'
                  'INVARIANT Transparent OneEntry\n' % r.pick(3, 4), what='all sequences of memoised calls on two algebras')
    stim = []
    for i, (calls, stock, num) in enumerate(r.pick([(30, 3, 40), (60, 6, 20)], [(30, 3, 500), (200, 10, 100)])):
        stim += r.generate('GenAlgebra', 'CONSTANTS Calls=%d Stock=%d\nINIT Init\nNEXT Next\n' % (calls, stock), num=num,
                           depth=calls + 5, name='GenAlgebra%d' % i)
    outs = r.drive('drv_algebra.py', stim, stall=200, budget=r.pick(60, 2400))
    trace = []
    for o in outs:
        if o is None:
            continue
        if 'kind' in o:
            r.violation({'clause': 'session-' + o['kind']})
        else:
            trace += o['calls']
    bad, _ = r.validate('TraceAlgebra', 'CONSTANT Judge <- JudgeAlgebra\nINIT TraceInit\nNEXT TraceNext\n', trace)
    r.distinct([(e['op'], e['v'], e['args']) for e in trace])
    r.cov['rule'] = 'distinct (operation, variable, arguments); %d sessions' % len(stim)
    r.sample(*trace[::max(1, len(trace) // 7)])
    for i, clause in bad:
        r.violation({'clause': clause, 'event': trace[i]})
    return r.finish()
