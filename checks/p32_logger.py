"""C3PLogger is interpreted over histories of three prints of arbitrary text to a sink that refuses, takes a part of,
or takes all of each push, or to no sink.  After every print, what the sink has taken followed by what fetchLog()
would return must be exactly the lines printed, in order."""
import itertools
from balib import *

LEVEL = 'other'
ASSUME = ['allocations succeed', 'histories of three prints of up to two bytes', 'lines without timestamp and tag']
SRC = 'src/AbstractPlatform.cpp'
SEV = ['EMERGENCY ', 'ALERT     ', 'CRITICAL  ', 'ERROR     ', 'WARNING   ', 'NOTICE    ', 'INFO      ', 'DEBUG     ', 'DEBUG     ']


def i(n):
    return C(32, n & 0xffffffff)


def put(chk, I, st, what, *a):
    I.steps = 0
    l = chk.run(I, chk.M.funcs['c3pv_' + what], st, list(a))
    if len(l) != 1:
        raise Unsupported('%s splits' % what)
    return l[0]


def history(chk, lens, takes, withsink=True):
    """takes: how much the sink takes of each push during that print"""
    key = 'prints of %s taking %s%s' % (lens, takes, '' if withsink else ' without sink')
    I = binterp(chk)
    w = BW(chk, I)
    k, up = w.sink('sink', i(1000), i(0))
    lg = w.obj('logger', 'log_init', C(8, 0), up if withsink else NULL)
    st = w.st
    lines, taken, n0 = [], [], 0
    chk.count('histories')
    for step, (n, tk) in enumerate(zip(lens, takes)):
        k2 = '%s, print %d' % (key, step)
        st, _ = put(chk, I, st, 'sink_init', k, i(1000), i(tk))
        w.st = st
        new = [t.S(8, 'line%d[%d]' % (step, j)) for j in range(n)]
        msg = w.given((n,) if n else (), new)
        st, v = put(chk, I, w.st, 'log_print', lg, C(8, 3), NULL, msg)
        chk.prove(st, t.eq(v, C(8, 0)), k2 + ':return', SRC, 'printing a line of permitted severity fails')
        memory(chk, st, k2)
        lines += new + [C(8, 10)]
        l = offers(st, k)
        if not withsink:
            chk.expect(not l, k2 + ':sink', SRC, 'a logger without a sink offers text to one', st)
        for o in l[n0:]:
            taken += o[:max(tk, 0)]
        n0 = len(l)
        if withsink and tk >= 100:
            chk.expect(len(taken) == len(lines), k2 + ':forwarded', SRC, 'text is held back from a sink that takes everything', st)
        st = content(chk, I, st, msg, [], k2 + ':message', 'the message is not taken over', where=SRC)
        # what a fetch would give now
        s2 = st.copy()
        w.st = s2
        out = w.given((), [])
        s2, _ = put(chk, I, w.st, 'log_fetch', lg, out)
        l2 = observe(chk, I, s2, out, k2)
        for s3, frags in [(x[0], x[1]) for x in l2] if isinstance(l2, list) else [(l2[0], l2[1])]:
            same(chk, s3, taken + flat(frags), lines, k2 + ':text', where=SRC, detail='what was forwarded and what is stored is not what was printed')
    w.st = st
    out = w.given((), [])
    st, _ = put(chk, I, w.st, 'log_fetch', lg, out)
    st, _ = put(chk, I, st, 'log_fetch', lg, NULL)
    st = content(chk, I, st, out, lines[len(taken):], key + ':fetched', 'the text fetched is not what was not forwarded', where=SRC)
    out2 = None
    w.st = st
    out2 = w.given((), [])
    st, _ = put(chk, I, w.st, 'log_fetch', lg, out2)
    st = content(chk, I, st, out2, [], key + ':fetched again', 'text is fetched twice', where=SRC)
    st, _ = put(chk, I, st, 'log_end', lg)
    released(chk, I, st, [out, out2], key)


def severity(chk, sev):
    key = 'severity %d' % sev
    for limit in (None, 0, 2, sev - 1, sev, 255):
        if limit is not None and limit < 0:
            continue
        I = binterp(chk)
        w = BW(chk, I)
        lg = w.obj('logger', 'log_init', C(8, 0), NULL)
        st, _ = put(chk, I, w.st, 'log_setsev', lg, C(1, 1))
        if limit is not None:
            st, _ = put(chk, I, st, 'log_setverb', lg, C(8, limit))
            st, v = put(chk, I, st, 'log_verb', lg)
            chk.prove(st, t.eq(v, C(8, limit)), key + ':verbosity', SRC, 'the verbosity is not what was set')
        pr = sev <= (7 if limit is None else limit)
        w.st = st
        new = [t.S(8, 'text%d' % j) for j in range(2)]
        msg = w.given((1, 1), new)
        st, v = put(chk, I, w.st, 'log_print', lg, C(8, sev), NULL, msg)
        chk.count('severities')
        chk.prove(st, t.eq(v, C(8, 0 if pr else 255)), '%s limit %s:return' % (key, limit), SRC, 'a line is not accepted exactly when its severity is within the verbosity')
        st = content(chk, I, st, msg, [] if pr else new, '%s limit %s:message' % (key, limit), 'a refused message is taken, or an accepted one is not', where=SRC)
        w.st = st
        out = w.given((), [])
        st, _ = put(chk, I, w.st, 'log_fetch', lg, out)
        st = content(chk, I, st, out, [C(8, ord(c)) for c in SEV[min(sev, 8)]] + new + [C(8, 10)] if pr else [], '%s limit %s:line' % (key, limit), 'the line stored is wrong', where=SRC)


def run(chk):
    chk.load()
    T = (-1, 0, 1, 2, 3, 100)
    jobs = [('history', l, tk) for l in ((1, 1, 1), (2, 0, 2)) for tk in itertools.product(T, repeat=3)] \
        + [('history', (2, 1, 0), (100,) * 3, False)] + [('severity', s) for s in range(10)]
    if chk.tier == 'thorough':
        jobs += [('history', l, tk) for l in ((2, 2, 2, 1),) for tk in itertools.product((0, 1, 2, 4, 100), repeat=4)]

    def work(k):
        for j in jobs[k::8]:
            chk.group(str(j), globals()[j[0]], chk, *j[1:])
            if len(chk.violations) > 6:
                break
    chk.fork(8, work)
