import grf

# (what, variables, hypotheses at most, behaviours): quick, thorough
PLAN = ([('check', 1, 5, 220),
         ('check', 2, 4, 160),
         ('check', 3, 3, 30)],
        [('check', 1, 6, 3000),
         ('check', 2, 5, 2500),
         ('check', 3, 4, 600)])


def main():
    return grf.main('G01', [grf.loop], PLAN, 'distinct sequents filtered and judged')
