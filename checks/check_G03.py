import grf

# (what, variables, hypotheses at most, behaviours): quick, thorough
PLAN = ([('fmls', 1, 0, 150),
         ('fmls', 2, 0, 200),
         ('fmls', 3, 0, 250)],
        [('fmls', 1, 0, 1000),
         ('fmls', 2, 0, 2000),
         ('fmls', 3, 0, 4000)])


def main():
    return grf.main('G03', [grf.prefix], PLAN, 'distinct texts read and judged')
