"""BufferAccepter implementations are interpreted on pushes of arbitrary bytes in several fragment layouts against
sinks with every small room and every amount taken, including histories of three pushes through a fork whose two
sides take different amounts.  What each sink was offered, what stays in the source and the value returned are
compared with the contract of Pipes/BufferAccepter/README.md."""
from balib import *

LEVEL = 'other'
ASSUME = ["allocations succeed", "pushes of up to four bytes; byte values are arbitrary", "line-ending replacement and call-breaking are not claimed (unfinished upstream)"]
SRC = 'src/Pipes/BufferAccepter/BufferAccepter.cpp'
LINE = 'src/Pipes/BufferAccepter/LineCoDec/LineCoDec.cpp'


def i(n):
    return C(32, n & 0xffffffff)


def code(st, chk, ret, want, key, where, what):
    chk.prove(st, t.eq(ret, C(8, want & 255)), key + ':return', where, 'returns the wrong value after ' + what)


def syms(n, tag):
    return [t.S(8, '%s[%d]' % (tag, k)) for k in range(n)]


def sb_sink(chk, I, key, cap, have, n, lay):
    I.steps = 0
    w = BW(chk, I)
    s = w.obj('sbsink', 'sbs_init', i(cap))
    inner = w.f1('sbs_sb', s)
    old, new = syms(have, 'old%' + key), syms(n, 'new%' + key)
    if have:
        b = I.new_region(w.st, 'lazy', 'old', size=i(have))
        for j, x in enumerate(old):
            I.store(w.st, P(b, i(j)), x, 'i8')
        w.f('concat', inner, P(b), i(have))
    p = w.given(lay, new) if n is not None else NULL
    room = max(0, cap - have)
    take = min(room, n)
    chk.count('pushes')
    for st, v in chk.run(I, chk.M.funcs['c3pv_sbs_room'], w.st.copy(), [s]):
        chk.prove(st, t.eq(v, i(room)), key + ':room', SRC, 'reports the wrong room')
    for st, ret in chk.run(I, chk.M.funcs['c3pv_sbs_push'], w.st, [s, p]):
        code(st, chk, ret, -1 if take == 0 else 1 if take == n else 0, key, SRC, 'taking %d of %d bytes' % (take, n))
        memory(chk, st, key)
        st = content(chk, I, st, inner, old + new[:take], key + ':captured', 'the sink holds the wrong bytes', where=SRC)
        st = content(chk, I, st, p, new[take:], key + ':rest', 'the source keeps the wrong bytes', where=SRC)
        released(chk, I, st, [p, inner], key)


def null_push(chk, I, which, init, key, where):
    w = BW(chk, I)
    k, up = w.sink('sink', i(10), i(10))
    o = w.obj('pipe', init, *([i(10)] if which == 'sbs' else [up, up] if which == 'fork' else [up]))
    for st, ret in chk.run(I, chk.M.funcs['c3pv_%s_push' % which], w.st, [o, NULL]):
        code(st, chk, ret, -1, key, where, 'a null buffer')
        memory(chk, st, key)
        chk.expect(not offers(st, k), key + ':delivers-nothing', where, 'offers bytes from a null buffer', st)


def line(chk, I, key, room, take, n, lay):
    I.steps = 0
    w = BW(chk, I)
    k, up = w.sink('sink', i(room), i(take))
    c = w.obj('line', 'line_init', up)
    src = syms(n, 'b%' + key)
    p = w.given(lay, src)
    chk.count('pushes')
    for st, v in chk.run(I, chk.M.funcs['c3pv_line_room'], w.st.copy(), [c]):
        chk.prove(st, t.eq(v, i(room)), key + ':room', LINE, 'reports the wrong room')
    taken = min(n, max(take, 0)) if room > 0 else 0
    for st, ret in chk.run(I, chk.M.funcs['c3pv_line_push'], w.st, [c, p]):
        code(st, chk, ret, -1 if taken == 0 else 1 if taken == n else 0, key, LINE, 'taking %d of %d bytes' % (taken, n))
        memory(chk, st, key)
        got = offers(st, k)
        if n and room > 0:
            chk.expect(len(got) == 1, key + ':one-offer', LINE, '%d offers for one push' % len(got), st)
        for g in got:
            same(chk, st, g[:taken], src[:taken], key + ':offered', LINE, 'offers the wrong bytes')
        if not taken:
            chk.ok(key + ':nothing-taken')
        st = content(chk, I, st, p, src[taken:], key + ':rest', 'the source keeps the wrong bytes', where=LINE)
        released(chk, I, st, [p], key)


class Side:
    def __init__(self, obj):
        self.obj = obj
        self.got = []       # expected bytes, in order
        self.ahead = 0


def fork(chk, I, key, sides, hist):
    """sides: (left present, right present); hist: pushes (new bytes, left (room, take), right (room, take))"""
    I.steps = 0
    w = BW(chk, I)
    kl, upl = w.sink('left', i(0), i(0))
    kr, upr = w.sink('right', i(0), i(0))
    f = w.obj('fork', 'fork_init', upl if sides[0] else NULL, upr if sides[1] else NULL)
    S = [Side(kl) if sides[0] else None, Side(kr) if sides[1] else None]
    p = w.given((), [])
    stream = []     # bytes not yet released by the fork
    st = w.st
    n = 0
    chk.count('fork histories')
    for step, (add, l, r) in enumerate(hist):
        k2 = '%s step %d' % (key, step)
        new = syms(add, 'p%d%%%s' % (step, key))
        if add:
            b = I.new_region(st, 'lazy', 'add%d' % step, size=i(add))
            for j, x in enumerate(new):
                I.store(st, P(b, i(j)), x, 'i8')
            l2 = chk.run(I, chk.M.funcs['c3pv_sb_concat'], st, [p, P(b), i(add)])
            if len(l2) != 1:
                raise Unsupported('append splits')
            st = l2[0][0]
        stream = stream + new
        for o, (room, take) in ((kl, l), (kr, r)):
            l2 = chk.run(I, chk.M.funcs['c3pv_sink_init'], st, [o, i(room), i(take)])
            st = l2[0][0]
        rooms = [x[0] for x, s in ((l, S[0]), (r, S[1])) if s]
        avail = 0 if not rooms or min(rooms) <= 0 else min(rooms)
        for s1, v in chk.run(I, chk.M.funcs['c3pv_fork_room'], st.copy(), [f]):
            chk.prove(s1, t.eq(v, i(avail)), k2 + ':room', SRC, 'reports the wrong room')
        T = min(avail, len(stream))
        before = len([e for e in st.events() if e[0] == 'sink'])
        outs = chk.run(I, chk.M.funcs['c3pv_fork_push'], st, [f, p])
        if len(outs) != 1:
            raise Unsupported('push splits')
        st, ret = outs[0]
        want = {}
        rel = None
        if T > 0:
            cov = []
            for s, (room, take) in ((S[0], l), (S[1], r)):
                if s is None:
                    continue
                off = stream[s.ahead:T]
                if off:
                    want[s.obj.r] = off
                    tk = max(0, min(take, len(off)))
                    s.ahead += tk
                    s.got += off[:tk]
                cov.append(s.ahead)
            rel = min(cov)
            for s in S:
                if s:
                    s.ahead -= rel
        rel = rel or 0
        code(st, chk, ret, -1 if rel == 0 else 1 if rel == len(stream) else 0, k2, SRC, 'releasing %d of %d bytes' % (rel, len(stream)))
        memory(chk, st, k2)
        ev = [e for e in st.events() if e[0] == 'sink'][before:]
        for nm, s in (('left', S[0]), ('right', S[1])):
            if s is None:
                continue
            g = [list(e[2]) for e in ev if e[1] is s.obj.r]
            same(chk, st, flat(g), want.get(s.obj.r, []), '%s:%s' % (k2, nm), SRC, 'the %s side is offered the wrong part of the stream' % nm)
        stream = stream[rel:]
        st = content(chk, I, st, p, stream, k2 + ':rest', 'the source keeps the wrong bytes', where=SRC)
    released(chk, I, st, [p], key)


def jobs(chk):
    for cap in (-1, 0, 1, 2, 3, 5, 0x7fffffff):
        for have in (0, 1, 2):
            for n in (0, 1, 2, 3, 4):
                for lay in splits(n):
                    yield 'StringBuilderSink(%d) holding %d, push %s' % (cap, have, lay), (sb_sink, cap, have, n, lay)
    for room in (-1, 0, 1, 2, 5):
        for take in (0, 1, 2, 3, 9):
            for n in (0, 1, 2, 3):
                for lay in splits(n):
                    yield 'LineEndingCoDec into room %d taking %d, push %s' % (room, take, lay), (line, room, take, n, lay)
    for a in (-1, 0, 1, 2, 3, 9):
        for b in (-1, 0, 1, 2, 3, 9):
            for n in (0, 1, 2, 3):
                for ta, tb in ((9, 9), (1, 1)):
                    yield 'fork rooms %d,%d taking %d,%d push %d' % (a, b, ta, tb, n), (fork, (1, 1), [(n, (a, ta), (b, tb))])
    for n in (1, 2, 3):
        for a in (0, 1, 2, 9):
            for ta in (0, 1, 2, 9):
                yield 'fork left only %d/%d/%d' % (n, a, ta), (fork, (1, 0), [(n, (a, ta), (0, 0)), (1, (9, 1), (0, 0))])
                yield 'fork right only %d/%d/%d' % (n, a, ta), (fork, (0, 1), [(n, (0, 0), (a, ta)), (1, (0, 0), (9, 1))])
    yield 'fork to nowhere', (fork, (0, 0), [(2, (0, 0), (0, 0))])
    T = (0, 1, 2, 3)
    k = 0
    for n in (2, 3):
        for a in T:
            for b in T:
                for c in T:
                    for d in T:
                        for m in (0, 1):
                            for e, g in ((9, 9), (1, 3), (3, 1)):
                                k += 1
                                if chk.tier != 'thorough' and (e, g) != (9, 9) and k % 4:
                                    continue
                                yield 'fork %d bytes take %d,%d then %d more take %d,%d then take %d,%d' % (n, a, b, m, c, d, e, g), (
                                    fork, (1, 1), [(n, (9, a), (9, b)), (m, (9, c), (9, d)), (1, (9, e), (9, g))])
    for a in (1, 2, 3):
        for b in (1, 2, 3):
            for c in (0, 1, 2):
                yield 'fork room %d,%d after taking %d,3' % (a, b, c), (fork, (1, 1), [(3, (9, c), (9, 3)), (1, (a, 9), (b, 9)), (1, (9, 9), (9, 9))])
                yield 'fork room %d,%d after taking 3,%d' % (a, b, c), (fork, (1, 1), [(3, (9, 3), (9, c)), (1, (a, 9), (b, 9)), (1, (9, 9), (9, 9))])


def run(chk):
    def work(k):
        I = binterp(chk)
        for j, (key, a) in enumerate(jobs(chk)):
            if j % 8 == k:
                chk.group(key, a[0], chk, I, key, *a[1:])
                if len(chk.violations) > 6:
                    break
        if k == 0:
            for wh, init, f in (('sbs', 'sbs_init', SRC), ('line', 'line_init', LINE), ('fork', 'fork_init', SRC)):
                chk.group('null ' + wh, null_push, chk, I, wh, init, 'null buffer to ' + wh, f)
            w = BW(chk, I)
            c = w.obj('line', 'line_init', NULL)
            p = w.given((2,), syms(2, 'x'))
            for st, ret in chk.run(I, chk.M.funcs['c3pv_line_push'], w.st, [c, p]):
                code(st, chk, ret, -1, 'LineEndingCoDec without sink', LINE, 'a push without an efferant')
                memory(chk, st, 'LineEndingCoDec without sink')
    chk.fork(8, work)
