"""C11: histories of System.tla that restrict and restore states and coherences."""
from checks import histories

PROPERTY = 'C11'
ASSUMPTIONS = ['up to 3 single-particle states (4 with total spin) or 5 many-body states, 3 leads, 2 baths',
               'results are compared where the configuration has a unique stationary state']
TIME = {'quick': 400, 'thorough': 2800}
prepare, run = histories.prepare, histories.run


def cases(tier, rng):
    return histories.make_cases('restrict', rng, 900 if tier == 'quick' else 6000, 12 if tier == 'quick' else 20)
