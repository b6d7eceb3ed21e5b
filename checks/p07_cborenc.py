"""Each public write call of the CBOR encoder is interpreted for an arbitrary argument against an
output that reports every byte.  On each path the emitted head is compared byte by byte with the
shortest RFC 7049 head of (major type, argument), the argument ranges are those of the form used,
and payloads are handed over unchanged with the announced length."""
from lib import *

SRC = 'src/cbor-cpp/cbor.cpp'


def emitted(st):
    out = []
    for e in st.events():
        if e[0] == 'call' and e[1] == 'c3pv_put':
            out.append(('b', st.norm(e[2][0])))
        elif e[0] == 'call' and e[1] == 'c3pv_puts':
            out.append(('p', e[2][0], st.norm(e[2][1])))
    return out


def head(chk, st, seq, major, n, w, key, where):
    """the first items of seq are the shortest head; returns the rest"""
    bs = []
    for x in seq:
        if x[0] != 'b':
            break
        bs.append(t.trunc(x[1], 8) if x[1].w > 8 else x[1])
    k = len(bs)
    form = {1: (None, 0, 24), 2: (24, 24, 1 << 8), 3: (25, 1 << 8, 1 << 16), 5: (26, 1 << 16, 1 << 32), 9: (27, 1 << 32, 1 << 64)}.get(k)
    if form is None:
        chk.refuse(st, key + ':head-length', where, 'a head of %d bytes is emitted' % k)
        return seq[k:]
    ai, lo, hi = form
    g = C(1, 1)
    if lo:
        g = t.and_(g, t.ule(C(w, lo), n)) if lo < (1 << w) else C(1, 0)
    if hi < (1 << w):
        g = t.and_(g, t.ult(n, C(w, hi)))
    chk.prove(st, g, key + ':shortest-form', where, 'a %d byte head is used' % k)
    if k == 1:
        chk.prove(st, t.eq(bs[0], t.add(C(8, major << 5), t.trunc(n, 8) if w > 8 else n)), key + ':initial-byte', where, 'initial byte %s for argument %s' % (bs[0], st.norm(n)))
        return seq[1:]
    chk.prove(st, t.eq(bs[0], C(8, major << 5 | ai)), key + ':initial-byte', where, 'initial byte %s' % bs[0])
    for i in range(1, k):
        sh = 8 * (k - 1 - i)
        want = t.extract(n, sh, 8) if sh < w else C(8, 0)
        chk.prove(st, t.eq(bs[i], want), key + ':argument-byte-%d-of-%d' % (i, k - 1), where, 'byte %s, argument %s' % (bs[i], st.norm(n)))
    return seq[k:]


def enc(chk, name):
    f = chk.M.funcs.get('c3pv_enc_' + name)
    if f is None:
        raise AnalysisBroken('entry c3pv_enc_' + name)
    return f


def ints(chk, name, w, signed, major):
    for neg in ((False, True) if signed else (False,)):
        I = chk.interp()
        if signed:
            n = t.zext(t.fresh(w - 1, 'magnitude'), w)
        else:
            n = t.fresh(w, 'v')
        v = t.sub(C(w, (1 << w) - 1), n) if neg else n
        for s, _ in chk.run(I, enc(chk, name), State(), [v]):
            key = 'write_%s%s' % (name, ':negative' if neg else '')
            rest = head(chk, s, emitted(s), 1 if neg else major, n, w, key, SRC)
            if rest:
                chk.refuse(s, key + ':nothing-follows', SRC, 'bytes follow the head')
            else:
                chk.ok(key + ':nothing-follows')


def floats(chk, name, w, first):
    I = chk.interp()
    v = t.fresh(w, 'v')
    for s, _ in chk.run(I, enc(chk, name), State(), [v]):
        seq = emitted(s)
        key = 'write_' + name
        if len(seq) != 1 + w // 8 or any(x[0] != 'b' for x in seq):
            chk.refuse(s, key + ':length', SRC, '%d items emitted' % len(seq))
            continue
        chk.prove(s, t.eq(seq[0][1], C(8, first)), key + ':initial-byte', SRC, 'initial byte %s' % seq[0][1])
        for i in range(w // 8):
            chk.prove(s, t.eq(seq[1 + i][1], t.extract(v, w - 8 - 8 * i, 8)), key + ':byte-%d' % i, SRC, 'byte %d is %s' % (i, seq[1 + i][1]))


def boolean(chk):
    for b in (0, 1):
        I = chk.interp()
        for s, _ in chk.run(I, enc(chk, 'bool'), State(), [C(1, b)]):
            seq = emitted(s)
            if len(seq) != 1 or seq[0][0] != 'b':
                chk.refuse(s, 'write_bool:length', SRC, '%d items emitted' % len(seq))
                continue
            chk.prove(s, t.eq(seq[0][1], C(8, 0xF4 + b)), 'write_bool(%d)' % b, SRC, 'byte %s' % seq[0][1])


def payload(chk, name, major, sized):
    I = chk.interp()
    st = State()
    n = t.fresh(32, 'size')
    buf = I.new_region(st, 'lazy', 'data', size=n)
    if sized:
        args = [P(buf), n]
    else:
        args = [P(buf)]
        ret = {}

        def strlen(I, st, args, ins, fn):
            return [(st, n)]
        I.cfg.models['strlen'] = strlen
    for s, _ in chk.run(I, enc(chk, name), clean(st), args):
        key = 'write_' + name
        rest = head(chk, s, emitted(s), major, n, 32, key, SRC)
        body(chk, s, rest, buf, n, key)


def body(chk, s, rest, buf, n, key):
    if len(rest) != 1 or rest[0][0] != 'p':
        chk.refuse(s, key + ':payload', SRC, 'payload is not handed over in one piece: %d items' % len(rest))
        return
    p = rest[0][1]
    chk.expect(isinstance(p, P) and p.r is buf and isc(s.norm(p.o)) and cv(s.norm(p.o)) == 0, key + ':payload-is-data', SRC, 'payload starts at %s' % (p,), s)
    chk.prove(s, t.eq(rest[0][2], n), key + ':payload-length', SRC, 'payload length %s' % rest[0][2])


def typed(chk, name, tag, size):
    """multi-byte element arrays: tag per RFC 8746 (little-endian target), then the bytes"""
    I = chk.interp()
    st = State()
    n = t.fresh(32, 'count')
    st._refine(n, 0, (1 << 29) // size)
    buf = I.new_region(st, 'lazy', 'data', size=t.mulc(n, size))
    key = 'write_typed_array(%s)' % name
    for s, ret in chk.run(I, enc(chk, name), clean(st), [P(buf), n]):
        for z in (True, False):
            for s2 in s.copy().assume(t.eq(n, C(32, 0)), z):
                if s2.dead():
                    continue
                seq = emitted(s2)
                if z:
                    chk.prove(s2, t.not_(t.eq(ret, C(8, 0))), key + ':empty-refused', SRC, 'an empty array is refused')
                    chk.expect(not seq, key + ':empty-writes-nothing', SRC, 'bytes are written for an empty array', s2)
                    continue
                chk.prove(s2, t.eq(ret, C(8, 0)), key + ':returns-zero', SRC, 'a non-empty array is accepted')
                if len(seq) < 2 or any(x[0] != 'b' for x in seq[:2]):
                    chk.refuse(s2, key + ':tag', SRC, 'no tag is written')
                    continue
                chk.prove(s2, t.eq(seq[0][1], C(8, 0xD8)), key + ':tag-head', SRC, 'tag head %s' % seq[0][1])
                chk.prove(s2, t.eq(seq[1][1], C(8, tag)), key + ':tag', SRC, 'tag %s' % seq[1][1])
                nb = t.mulc(n, size)
                rest = head(chk, s2, seq[2:], 2, nb, 32, key, SRC)
                body(chk, s2, rest, buf, nb, key)


def run(chk):
    for nm, w, sg in (('u8', 8, 0), ('u16', 16, 0), ('u32', 32, 0), ('u64', 64, 0), ('i8', 8, 1), ('i16', 16, 1), ('i32', 32, 1), ('i64', 64, 1)):
        chk.group(nm, ints, chk, nm, w, sg, 0)
    for nm, major in (('tag', 6), ('arr', 4), ('map', 5)):
        chk.group(nm, ints, chk, nm, 32, 0, major)
    chk.group('f32', floats, chk, 'f32', 32, 0xFA)
    chk.group('f64', floats, chk, 'f64', 64, 0xFB)
    chk.group('bool', boolean, chk)
    chk.group('bytes', payload, chk, 'bytes', 2, True)
    chk.group('strn', payload, chk, 'strn', 3, True)
    chk.group('str', payload, chk, 'str', 3, False)
    for nm, tag, sz in (('au16', 69, 2), ('au32', 70, 4), ('au64', 71, 8), ('ai16', 77, 2), ('ai32', 78, 4), ('ai64', 79, 8), ('af32', 85, 4), ('af64', 86, 8)):
        chk.group(nm, typed, chk, nm, tag, sz)
