import grf

# (what, variables, hypotheses at most, behaviours): quick, thorough
PLAN = ([('smt', 1, 4, 100),
         ('smt', 2, 4, 120),
         ('smt', 3, 3, 20),
         ('file', 1, 3, 80),
         ('file', 2, 3, 80)],
        [('smt', 1, 5, 1500),
         ('smt', 2, 5, 1500),
         ('smt', 3, 4, 300),
         ('file', 1, 4, 800),
         ('file', 2, 4, 1200)])


def main():
    return grf.main('G06', [grf.hide], PLAN, 'distinct problem texts filtered and judged')
