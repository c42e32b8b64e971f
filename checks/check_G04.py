import grf

# (what, variables, hypotheses at most, behaviours): quick, thorough
PLAN = ([('sample', 1, 0, 300),
         ('sample', 2, 0, 170),
         ('sample', 3, 0, 25)],
        [('sample', 1, 0, 3000),
         ('sample', 2, 0, 2500),
         ('sample', 3, 0, 400)])


def main():
    return grf.main('G04', [grf.sectors], PLAN, 'distinct sets of polynomials sampled and judged')
