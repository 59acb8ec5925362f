"""C09: every solve of a history of System.tla gives the result of a fresh system in the configuration that the
specification ascribes to it."""
from checks import histories

PROPERTY = 'C09'
ASSUMPTIONS = ['up to 3 single-particle states (4 with total spin), 3 leads, 2 baths; 2vN with two iterations on 16 points',
               'results are compared where the configuration has a unique stationary state']
TIME = {'quick': 400, 'thorough': 2800}
prepare, run = histories.prepare, histories.run


def cases(tier, rng):
    return histories.make_cases('history', rng, 900 if tier == 'quick' else 6000, 14 if tier == 'quick' else 24)
