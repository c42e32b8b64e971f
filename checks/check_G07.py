import grf

# (what, variables, hypotheses at most, behaviours): quick, thorough
PLAN = ([('search', 1, 4, 60),
         ('search', 2, 4, 90),
         ('search', 3, 3, 60)],
        [('search', 1, 6, 600),
         ('search', 2, 5, 1200),
         ('search', 3, 4, 700)])


def main():
    return grf.main('G07', [grf.search], PLAN, 'distinct histories of neighbourhood searches judged')
