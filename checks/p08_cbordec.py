"""The CBOR decoder is interpreted on every initial byte with arbitrary argument bytes, its input being
a buffer of exactly the item, and on truncated items and declared lengths beyond the input.  For each
path the events delivered to the listener are compared with the RFC 7049 meaning of the item; every
read of the input lies inside it; a payload is delivered only when all of it is present."""
from lib import *

SRC = 'src/cbor-cpp/cbor.cpp'
EV = ('c3pv_ev_int', 'c3pv_ev_uint', 'c3pv_ev_f32', 'c3pv_ev_f64', 'c3pv_ev_bytes', 'c3pv_ev_str', 'c3pv_ev_arr', 'c3pv_ev_map', 'c3pv_ev_tag',
      'c3pv_ev_special', 'c3pv_ev_bool', 'c3pv_ev_null', 'c3pv_ev_undef', 'c3pv_ev_error', 'c3pv_ev_extra')
RESERVED = (28, 29, 30, 31)


def evs(st):
    return [(e[1][8:], e[2], e[4]) for e in st.events() if e[0] == 'call' and e[1] in EV]


def decode(chk, first, nbytes, total=None, label='', fix=None, need_all=True, stop=False):
    """interpret over a buffer [first, symbolic ...] of nbytes bytes (or a symbolic total)"""
    I = chk.interp(max_states=4000)
    st = State()
    size = C(32, nbytes) if total is None else total(st)
    buf = I.new_region(st, 'lazy', 'input', size=size)
    I.store(st, P(buf), C(8, first), 'i8')
    for o, v in (fix or {}).items():
        I.store(st, P(buf, C(32, o)), v, 'i8')
    arg = [I.load(st, P(buf, C(32, i)), 'i8') for i in range(1, 1 + {24: 1, 25: 2, 26: 4, 27: 8}.get(first & 31, 0)) if total is not None or i < nbytes]
    st = clean(st)
    I.cfg.on_access = acc_hook({buf})
    if stop:
        # the first event ends the path; the state machine takes three steps to it
        I.cfg.force_unroll = lambda fn, loop, it: it < 6
        for e in EV:
            def ev(I, st, args, ins, fn, e=e):
                st.emit(('call', e, tuple(args), None, I.where(ins, fn)))
                st.user = dict(st.user, stop=True)
                return [(st, None)]
            I.cfg.models[e] = ev
    outs = chk.run(I, chk.M.funcs['c3pv_dec'], st, [P(buf), size])
    key = 'item 0x%02x%s' % (first, label)
    for s, r in outs:
        check_bounds(chk, s, key + ':reads-inside-input', {buf})
    if not outs and need_all:
        raise AnalysisBroken('decoder never returns')
    return buf, size, arg, outs, key


def single(chk, s, r, key, want, args=None):
    """exactly one event: want, with the given argument terms"""
    ev = evs(s)
    if len(ev) != 1 or ev[0][0] not in (want if isinstance(want, tuple) else (want,)):
        chk.refuse(s, key + ':event', ev[0][2] if ev else SRC, 'delivers %s, not %s' % ([e[0] for e in ev], want))
        return None
    for a, w in zip(ev[0][1], args or []):
        a = s.norm(a)
        if a.w < w.w:
            chk.refuse(s, key + ':value', ev[0][2], 'narrow')
        else:
            chk.prove(s, t.eq(a, t.zext(w, a.w) if a.w > w.w else w), key + ':value', ev[0][2], 'delivers %s' % a)
    chk.ok(key + ':event')
    return ev[0]


def number(chk, major, ai):
    first = major << 5 | ai
    nb = {24: 1, 25: 2, 26: 4, 27: 8}.get(ai, 0)
    buf, size, arg, outs, key = decode(chk, first, 1 + nb)
    n = t.concat(list(reversed(arg))) if arg else C(8, ai)
    for s, r in outs:
        ev = evs(s)
        if ai in RESERVED:
            single(chk, s, r, key, 'error')
            chk.prove(s, t.eq(s.norm(r), C(1, 1)), key + ':failed', SRC, 'the decoder reports failure')
            continue
        if major in (4, 5) and ai == 27:
            single(chk, s, r, key, 'error')
            continue
        chk.prove(s, t.eq(s.norm(r), C(1, 0)), key + ':not-failed', SRC, 'the decoder reports no failure')
        if major == 0:
            one = single(chk, s, r, key, ('uint', 'int'))
            if one:
                # a delivered value is held in 64 bits; signed delivery must not be negative
                a = s.norm(one[1][0])
                chk.prove(s, t.eq(a, t.zext(n, 64)), key + ':value', one[2], 'delivers %s for argument %s' % (a, n))
        elif major == 1:
            if len(ev) == 1 and ev[0][0] == 'extra':
                a, sg = s.norm(ev[0][1][0]), s.norm(ev[0][1][1])
                chk.prove(s, t.eq(a, t.zext(n, 64)), key + ':value', ev[0][2], 'extra integer %s' % a)
                chk.prove(s, t.slt(sg, C(32, 0)), key + ':sign', ev[0][2], 'extra integer sign %s' % sg)
                chk.ok(key + ':event')
                continue
            one = single(chk, s, r, key, 'int')
            if one:
                a = s.norm(one[1][0])
                chk.prove(s, t.eq(a, t.sub(C(64, (1 << 64) - 1), t.zext(n, 64))), key + ':value', one[2], 'delivers %s for argument %s' % (a, n))
                if ai == 27:
                    chk.prove(s, t.not_(t.slt(n, C(64, 0))), key + ':fits', one[2], 'delivered as a 64-bit integer')
        elif major == 4:
            single(chk, s, r, key, 'arr', [t.zext(n, 32)])
        elif major == 5:
            single(chk, s, r, key, 'map', [t.zext(n, 32)])
        elif major == 6:
            single(chk, s, r, key, 'tag', [n])


def special(chk, ai):
    first = 0xE0 | ai
    nb = {24: 1, 25: 2, 26: 4, 27: 8}.get(ai, 0)
    buf, size, arg, outs, key = decode(chk, first, 1 + nb)
    n = t.concat(list(reversed(arg))) if arg else C(8, ai)
    for s, r in outs:
        if ai in RESERVED:
            single(chk, s, r, key, 'error')
            continue
        if ai == 20 or ai == 21:
            single(chk, s, r, key, 'bool', [C(1, ai - 20)])
        elif ai == 22:
            single(chk, s, r, key, 'null')
        elif ai == 23:
            single(chk, s, r, key, 'undef')
        elif ai < 20 or ai in (24, 25):
            single(chk, s, r, key, 'special', [t.zext(n, 32)])
        elif ai == 26:
            single(chk, s, r, key, 'f32', [n])
        else:
            single(chk, s, r, key, 'f64', [n])


def truncated(chk, first):
    """all proper prefixes of the head: no event, no failure, nothing read past the prefix"""
    nb = {24: 1, 25: 2, 26: 4, 27: 8}.get(first & 31, 0)
    for k in range(1, 1 + nb):
        buf, size, arg, outs, key = decode(chk, first, k, label=' truncated to %d' % k)
        for s, r in outs:
            if evs(s):
                chk.refuse(s, key + ':no-event', evs(s)[0][2], 'an incomplete item is delivered')
            else:
                chk.ok(key + ':no-event')


def payload(chk, major, ai):
    """byte and text strings: any declared length against any input size"""
    first = major << 5 | ai
    nb = {24: 1, 25: 2, 26: 4, 27: 8}.get(ai, 0)
    holder = {}

    def total(st):
        n = t.fresh(32, 'input-size')
        st._refine(n, 1 + nb, 1 << 20)
        holder['n'] = n
        return n
    buf, size, arg, outs, key = decode(chk, first, 0, total, label=' over any input', stop=True)
    n = t.concat(list(reversed(arg))) if arg else C(8, ai)
    want = 'bytes' if major == 2 else 'str'
    for s, r in outs:
        ev = evs(s)
        if ai in RESERVED or ai == 27:
            if ai in RESERVED and (not ev or ev[0][0] != 'error'):
                chk.refuse(s, key + ':error', SRC, 'a reserved form is not refused')
            else:
                chk.ok(key + ':error')
            continue
        # complete iff the declared length is within the rest of the input
        m = t.zext(n, 64)
        room = t.zext(t.sub(size, C(32, 1 + nb)), 64)
        first_ev = ev[0] if ev else None
        if first_ev is None:
            chk.prove(s, t.ult(room, m), key + ':complete-item-delivered', SRC, 'no event; declared length %s' % n)
            continue
        if first_ev[0] == 'error':
            chk.prove(s, t.ult(room, m), key + ':error-only-when-impossible', first_ev[2], 'an error is raised; declared length %s' % n)
            continue
        if first_ev[0] != want:
            chk.refuse(s, key + ':event', first_ev[2], 'delivers %s' % first_ev[0])
            continue
        chk.prove(s, t.ule(m, room), key + ':incomplete-item-not-delivered', first_ev[2], 'declared length %s delivered' % n)
        p = first_ev[1][0]
        if major == 2:
            ln = s.norm(first_ev[1][1])
            chk.prove(s, t.eq(t.zext(ln, 64) if ln.w < 64 else ln, m), key + ':payload-length', first_ev[2], 'length %s delivered' % ln)


def payload_bytes(chk, major, k):
    """content of short payloads (exact buffers)"""
    I = chk.interp()
    st = State()
    buf = I.new_region(st, 'lazy', 'input', size=C(32, 1 + k))
    I.store(st, P(buf), C(8, major << 5 | k), 'i8')
    want = [I.load(st, P(buf, C(32, 1 + i)), 'i8') for i in range(k)]
    I.cfg.on_access = acc_hook({buf})
    key = 'item 0x%02x payload of %d' % (major << 5 | k, k)
    got = {}

    def ev(I, st, args, ins, fn):
        p = args[0]
        st.user = dict(st.user)
        st.user['payload'] = tuple(I.load(st, P(p.r, t.addc(p.o, i)), 'i8') for i in range(k + (1 if major == 3 else 0))) + ((args[1],) if major == 2 else ())
        st.emit(('call', 'c3pv_ev_bytes', tuple(args), None, I.where(ins, fn)))
        return [(st, None)]
    I.cfg.models['c3pv_ev_bytes' if major == 2 else 'c3pv_ev_str'] = ev
    for s, r in chk.run(I, chk.M.funcs['c3pv_dec'], clean(st), [P(buf), C(32, 1 + k)]):
        pl = s.user.get('payload')
        if pl is None:
            chk.refuse(s, key + ':delivered', SRC, 'not delivered')
            continue
        for i in range(k):
            chk.prove(s, t.eq(s.norm(pl[i]), want[i]), key + ':byte-%d' % i, SRC, 'byte %d is %s' % (i, pl[i]))
        if major == 3:
            chk.prove(s, t.eq(s.norm(pl[k]), C(8, 0)), key + ':terminated', SRC, 'text is not terminated')
        else:
            chk.prove(s, t.eq(s.norm(pl[k]), C(32, k)), key + ':length', SRC, 'length %s' % pl[k])


def sequence(chk):
    """two items back to back: the second starts where the first ended"""
    for hd, nb in ((0x00, 0), (0x18, 1), (0x19, 2), (0x1a, 4), (0x1b, 8), (0x38, 1), (0x39, 2), (0x3a, 4), (0x3b, 8), (0x98, 1), (0x99, 2), (0x9a, 4),
                   (0xb8, 1), (0xb9, 2), (0xba, 4), (0xd8, 1), (0xd9, 2), (0xda, 4), (0xdb, 8), (0xf8, 1), (0xf9, 2), (0xfa, 4), (0xfb, 8), (0x40, 0), (0x43, 3), (0x60, 0), (0x64, 4)):
        buf, size, arg, outs, key = decode(chk, hd, 2 + nb, label=' followed by null', fix={1 + nb: C(8, 0xF6)})
        for s, r in outs:
            ev = evs(s)
            if len(ev) != 2 or ev[1][0] != 'null':
                chk.refuse(s, key + ':next-item', SRC, 'delivers %s' % [e[0] for e in ev])
            else:
                chk.ok(key + ':next-item')


def run(chk):
    for major in (0, 1, 4, 5, 6):
        for ai in range(32):
            chk.count('initial bytes')
            chk.group('0x%02x' % (major << 5 | ai), number, chk, major, ai)
    for ai in range(32):
        chk.count('initial bytes')
        chk.group('0x%02x' % (0xE0 | ai), special, chk, ai)
    for major in (2, 3):
        for ai in range(32):
            chk.count('initial bytes')
            chk.group('0x%02x' % (major << 5 | ai), payload, chk, major, ai)
        for k in (0, 1, 2, 3, 8, 23):
            chk.group('payload %d/%d' % (major, k), payload_bytes, chk, major, k)
    for major in range(8):
        for ai in (24, 25, 26, 27):
            chk.group('truncated', truncated, chk, major << 5 | ai)
    chk.group('sequence', sequence, chk)
