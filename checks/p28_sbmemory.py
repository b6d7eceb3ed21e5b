"""Each call of the StringBuilder API is interpreted on every fragment layout up to three fragments of one to three
arbitrary bytes with every allocation it makes succeeding or failing, and the destructors after it.  Every access lies
in a live allocation, every allocation is released exactly once by the matching function, a failed allocation is
reported where the API can report it and leaves the content of every instance as it was."""
from sbops import *
import p29_sbsearch

LEVEL = 'other'
ASSUME = ['up to four fragments of up to three bytes; byte values are arbitrary']


def run(chk):
    run_groups(chk, True, False)
    run_groups(chk, True, False, [g for g in p29_sbsearch.groups() if g[0] in ('replace 1', 'replace 2', 'replace 3', 'replace 4', 'split 1', 'split 2', 'split 3', 'texts 2')])
