"""Each call of the StringBuilder API is interpreted on every fragment layout up to three fragments (four for
handoffs by position) of one to three arbitrary bytes, for every argument from below zero to beyond the length and
the extreme values.  The bytes then held by every instance involved, read back through count() and position(), the
value returned and the caller's buffers are compared with the sequence the documentation gives."""
from sbops import *

LEVEL = 'other'
ASSUME = ["allocations succeed (their failure is P28)", "up to four fragments of up to three bytes; byte values are arbitrary"]


def run(chk):
    run_groups(chk, False, True)
