"""Every state of time series of small windows is explored and compared with a model: what is kept, in which order, what
the accessors return, when it is dirty, which extremes and median are reported."""
from lib import *
import histories

LEVEL = 'other'
ASSUME = ['allocations succeed', 'fewer than 65536 samples between two looks at dirty()']


def run(chk):
    chk.load()
    deep = chk.tier != 'quick'
    V = (-5, 3, 1000000)
    L = 20000
    jobs = [(histories.Series, (1, 2), V, 0, L), (histories.Series, (3,), V[:2], 0, L), (histories.Series, (2,), V, 1, L), (histories.Series, (3, 1), V[1:2], 0, L),
            (histories.Series, (3,), V[:2], 1, L), (histories.Series, (4,), V[:1], 0, L), (histories.Series, (0, 2), V[:2], 0, L)]
    if deep:
        jobs += [(histories.Series, (3,), V, 0, L), (histories.Series, (4,), V[:2], 0, L), (histories.Series, (2, 3), V[:2], 0, L), (histories.Series, (5,), V[:1], 1, L)]
    histories.run(chk, jobs)
