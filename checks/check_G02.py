import grf

# (what, variables, hypotheses at most, behaviours): quick, thorough
PLAN = ([('atom', 1, 0, 150),
         ('atom', 2, 0, 150),
         ('atom', 3, 0, 150),
         ('goal', 1, 0, 120),
         ('goal', 2, 0, 250),
         ('goal', 3, 0, 150)],
        [('atom', 1, 0, 1500),
         ('atom', 2, 0, 1500),
         ('atom', 3, 0, 1500),
         ('goal', 1, 0, 1500),
         ('goal', 2, 0, 4000),
         ('goal', 3, 0, 2500)])


def main():
    return grf.main('G02', [grf.reduce], PLAN, 'distinct relations and goals evaluated at points and judged')
