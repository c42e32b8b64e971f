import grf

# (what, variables, hypotheses at most, behaviours): quick, thorough
PLAN = ([('bads', 1, 5, 150),
         ('bads', 2, 5, 250),
         ('bads', 3, 4, 100),
         ('hit', 2, 6, 150),
         ('hit', 3, 5, 150)],
        [('bads', 1, 6, 2000),
         ('bads', 2, 6, 3000),
         ('bads', 3, 5, 1000),
         ('hit', 2, 8, 1500),
         ('hit', 3, 7, 1500)])


def main():
    return grf.main('G05', [grf.loop], PLAN, 'distinct sets of points and of bad subsets judged')
