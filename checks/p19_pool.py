"""Every state of element pools of small capacities is explored: which elements take() gives out, what give() does with
them, what is counted, and what is released, are compared with a model."""
from lib import *
import histories

LEVEL = 'other'
ASSUME = ['allocations succeed', 'an element is given back once, by whoever took it']


def run(chk):
    chk.load()
    deep = chk.tier != 'quick'
    histories.run(chk, [(histories.Pool, c, l, g, 4000) for c in (1, 2, 3) + ((4,) if deep else ()) for l in (0, 1, 2) for g in (0, 1)])
