"""Base64Encoder and Base64Decoder are interpreted on inputs whose six-bit groups are arbitrary members of each of
the five alphabet ranges, at every position of inputs up to two groups and every remainder, in several fragment
layouts; the bytes delivered to the sink, the value returned and what stays in the source are compared with RFC 4648.
Characters outside the alphabet, misplaced padding and bad lengths must be refused with the source untouched, and
the room the sink reports is an arbitrary number that accepted output never exceeds.  With any subset of the allocations
failing a push either works or is refused with its source untouched."""
from balib import *

LEVEL = 'other'
ASSUME = ["inputs up to nine bytes or three groups; byte values are arbitrary", "trailing bits of a padded group are not constrained"]
SRC = 'src/Pipes/BufferAccepter/Base64/C3P_B64.cpp'
CLS = ((0, 25, 65), (26, 51, 71), (52, 61, -4), (62, 62, 43 - 62), (63, 63, 47 - 63))


def sextets(n, rot, tag):
    out = []
    for i in range(n):
        lo, hi, d = CLS[(i * (1 + rot // 5) + rot) % 5]
        s = C(6, lo) if lo == hi else t.S(6, 'x%d%%%s' % (i, tag), lo, hi)
        out.append((s, t.addc(t.zext(s, 8), d & 255)))
    return out


def case(nbytes, rot, tag):
    """(data bytes, encoded characters); the unused low bits of the last sextet are zero"""
    full, rem = divmod(nbytes, 3)
    sx = sextets(4 * full, rot, tag)
    data, chars = [], []
    for g in range(full):
        s = [x for x, _ in sx[4 * g:4 * g + 4]]
        data += octets(s)
        chars += [c for _, c in sx[4 * g:4 * g + 4]]
    if rem:
        k = rem + 1
        tail = sextets(k - 1, rot + 1, tag + 't')
        # last sextet: its low bits are zero, the class decided by the value of the rest
        w = 4 if rem == 2 else 2
        s = [x for x, _ in tail]
        lv = [(v << (6 - w)) for v in range(1 << w)]
        v = lv[(rot * 5 + 3) % len(lv)]
        s.append(C(6, v))
        d = [d for lo, h, d in CLS if lo <= v <= h][0]
        cs = [c for _, c in tail] + [C(8, v + d)]
        o = octets(s + [C(6, 0)] * (4 - k))
        data += o[:rem]
        chars += cs + [C(8, 61)] * (3 - rem)
    return data, chars


def octets(s):
    v = t.concat([s[3], s[2], s[1], s[0]])
    return [t.extract(v, 16, 8), t.extract(v, 8, 8), t.extract(v, 0, 8)]


def push(chk, I, which, w, p, q):
    return chk.run(I, chk.M.funcs['c3pv_b64%s_push' % which], w.st, [q, p])


def coded(chk, I, which, src, lay, inlen, want, taken, key, need):
    """push src in this layout; the first `taken` bytes become `want`"""
    I.steps = 0
    w = BW(chk, I)
    room = anyroom(which, key)
    k, up = w.sink('sink', room, i(1000))
    c = w.obj('codec', 'b64%s_init' % which, up)
    if inlen:
        w.f1('b64%s_inlen' % which, c, i(inlen))
    p = w.given(lay, src)
    chk.count('pushes')
    for st, ret in push(chk, I, which, w, p, c):
        got = offers(st, k)
        ret = st.norm(ret)
        if not isc(ret):
            chk.undec(key, 'open return value')
            continue
        r = sval(cv(ret), 8)
        memory(chk, st, key)
        if r == -1:
            chk.expect(not got, key + ':refused-delivers-nothing', SRC, 'returns -1 after delivering bytes', st)
            st = content(chk, I, st, p, src, key + ':refused-source', 'a refused push changed its source', where=SRC)
            if taken:
                chk.prove(st, t.slt(room, i(need)), key + ':refused-only-for-room', SRC, 'refuses %d bytes although the sink has room' % taken)
            else:
                chk.ok(key + ':refused')
        else:
            if not taken:
                chk.refuse(st, key + ':must-refuse', SRC, 'accepts input it must refuse, returns %d' % r)
                continue
            if not got:
                chk.refuse(st, key + ':delivers', SRC, 'accepts the bytes but delivers nothing')
                continue
            same(chk, st, flat(got), want, key + ':output', SRC, 'wrong output')
            chk.expect(len(got) == 1, key + ':one-delivery', SRC, '%d deliveries for one push' % len(got), st)
            chk.prove(st, t.sle(i(len(flat(got))), room), key + ':fits', SRC, 'delivers more than the sink has room for')
            chk.expect(r == (1 if taken == len(src) else 0), key + ':return', SRC, 'returns %d after taking %d of %d bytes' % (r, taken, len(src)), st)
            st = content(chk, I, st, p, src[taken:], key + ':rest', 'the untaken bytes', where=SRC)
        released(chk, I, st, [p], key)


def anyroom(which, key):
    """every non-negative int, as quotient and remainder of the group size"""
    k = 4 if which == 'e' else 3
    q = t.S(32, 'groups%' + key, 0, 0x7fffffff // k)
    r = t.S(2, 'over%' + key, 0, k - 1)
    if k == 4:
        return t.concat([r, t.extract(q, 0, 29), C(1, 0)])
    return t.add(t.mulc(q, 3), t.zext(t.S(2, 'over%' + key, 0, 1), 32))


def i(n):
    return C(32, n & 0xffffffff)


def starved(chk, I, which, src, lay, inlen, want, key):
    """the same push with any subset of the allocations failing: all or nothing"""
    I.steps = 0
    w = BW(chk, I)
    k, up = w.sink('sink', i(1000), i(1000))
    c = w.obj('codec', 'b64%s_init' % which, up)
    if inlen:
        w.f1('b64%s_inlen' % which, c, i(inlen))
    p = w.given(lay, src)
    taken = inlen or len(src)
    chk.count('pushes with failing allocations')
    I.cfg.malloc_fails = True
    try:
        outs = push(chk, I, which, w, p, c)
    finally:
        I.cfg.malloc_fails = False
    for st, ret in outs:
        ret = st.norm(ret)
        if not isc(ret):
            chk.undec(key, 'open return value')
            continue
        r = sval(cv(ret), 8)
        memory(chk, st, key)
        got = offers(st, k)
        if r == -1:
            chk.expect(not flat(got), key + ':refused-delivers-nothing', SRC, 'returns -1 after delivering bytes', st)
            st = content(chk, I, st, p, src, key + ':refused-source', 'out of memory, a refused push changed its source', where=SRC)
        else:
            same(chk, st, flat(got), want, key + ':output', SRC, 'out of memory, wrong output for an accepted push')
            st = content(chk, I, st, p, src[taken:], key + ':rest', 'out of memory, the untaken bytes', where=SRC)
        released(chk, I, st, [p], key)


def bad(chk, I):
    """inputs the decoder must refuse"""
    J = ((0, 42), (44, 46), (58, 60), (62, 64), (91, 96), (123, 255))
    for g in (1, 2):
        n = 4 * g
        for pos in range(n):
            for a, b in J:
                _, cs = case(3 * g, pos, 'b%d.%d.%d' % (g, pos, a))
                cs[pos] = t.S(8, 'bad%%%d.%d.%d' % (g, pos, a), a, b)
                yield 'character %d of %d in [%d,%d]' % (pos, n, a, b), cs
            if pos < n - 1:
                _, cs = case(3 * g, pos + 1, 'e%d.%d' % (g, pos))
                cs[pos] = C(8, 61)
                yield "'=' at %d of %d" % (pos, n), cs
        for pos in (n - 3, n - 4):
            _, cs = case(3 * g, pos + 1, 'f%d.%d' % (g, pos))
            for k in range(pos, n):
                cs[k] = C(8, 61)
            yield "'=' from %d of %d" % (pos, n), cs
    for n in (1, 2, 3, 5, 6, 7, 9):
        _, cs = case(9, n, 'l%d' % n)
        yield 'length %d' % n, cs[:n]
        if n > 2:
            yield "length %d ending in '='" % n, cs[:n - 1] + [C(8, 61)]


def rooms(chk, I):
    """bufferAvailable is what the sink has room for after the transform"""
    for which, nm in (('e', 'encoder'), ('d', 'decoder')):
        w = BW(chk, I)
        room = t.S(32, 'room', 0, 0x7fffffff)
        k, up = w.sink('sink', room, i(0))
        c = w.obj('codec', 'b64%s_init' % which, up)
        for st, v in chk.run(I, chk.M.funcs['c3pv_b64%s_room' % which], w.st, [c]):
            v = st.norm(v)
            g = t.udiv(v, i(3)) if which == 'e' else t.udiv(v, i(4))
            chk.prove(st, t.sle(i(0), v), nm + ' room:non-negative', SRC, 'reports negative room')
            for lo in (0, 3, 4, 5, 7, 8, 100, 0x7fffffff):
                for s in st.copy().assume(t.eq(room, i(lo)), True):
                    if s.dead() or s.empty():
                        continue
                    x = s.norm(v)
                    if not isc(x):
                        chk.undec('%s room at %d' % (nm, lo), 'open value')
                        continue
                    x = sval(cv(x), 32)
                    out = (x + 2) // 3 * 4 if which == 'e' else x // 4 * 3
                    chk.expect(out <= lo, '%s room at %d' % (nm, lo), SRC, 'reports room for %d bytes, which become %d, when the sink has %d' % (x, out, lo), s)
                    best = lo // 4 * 3 if which == 'e' else min(lo // 3, 0x7fffffff // 4) * 4
                    chk.expect(x >= best, '%s room at %d:used' % (nm, lo), SRC, 'reports room for %d bytes where %d would fit' % (x, best), s)
        w = BW(chk, I)
        c = w.obj('codec', 'b64%s_init' % which, NULL)
        st = w.st
        for st, v in chk.run(I, chk.M.funcs['c3pv_b64%s_room' % which], st, [c]):
            chk.prove(st, t.eq(v, i(0)), nm + ' room without sink', SRC, 'reports room without an efferant')
        w.st = st
        _, cs = case(3, 0, 'n')
        p = w.given((4,), cs)
        for st, v in push(chk, I, which, w, p, c):
            chk.prove(st, t.eq(v, C(8, 255)), nm + ' without sink:return', SRC, 'accepts bytes without an efferant')
            st = content(chk, I, st, p, cs, nm + ' without sink:source', 'a refused push changed its source', where=SRC)
            memory(chk, st, nm + ' without sink')
        w = BW(chk, I)
        k, up = w.sink('sink', i(100), i(100))
        c = w.obj('codec', 'b64%s_init' % which, up)
        for st, v in push(chk, I, which, w, NULL, c):
            chk.prove(st, t.eq(v, C(8, 255)), nm + ' null source:return', SRC, 'accepts a null source')
            memory(chk, st, nm + ' null source')
            chk.expect(not offers(st, k), nm + ' null source:delivers-nothing', SRC, 'delivers bytes from a null source', st)
        w = BW(chk, I)
        k, up = w.sink('sink', i(100), i(100))
        c = w.obj('codec', 'b64%s_init' % which, up)
        p = w.given((), [])
        for st, v in push(chk, I, which, w, p, c):
            chk.prove(st, t.eq(v, C(8, 255)), nm + ' empty source:return', SRC, 'accepts an empty source')
            memory(chk, st, nm + ' empty source')
            chk.expect(not offers(st, k), nm + ' empty source:delivers-nothing', SRC, 'delivers bytes from an empty source', st)


def jobs(chk, I):
    thorough = chk.tier == 'thorough'
    for n in range(1, 10 if not thorough else 16):
        for rot in range(5 if not thorough else 25):
            for l, lay in enumerate(splits(n)):
                if l and rot % 2 and not thorough:
                    continue
                d, c = case(n, rot, 'n%d.%d' % (n, rot))
                yield 'encode %d bytes/%d in %s' % (n, rot, lay), ('e', d, lay, 0, c, n, len(c))
            for l, lay in enumerate(splits(len(c))):
                if l and rot % 2 and not thorough:
                    continue
                yield 'decode %d bytes/%d in %s' % (n, rot, lay), ('d', c, lay, 0, d, len(c), (n + 2) // 3 * 3)
    for n in (1, 2, 3, 4, 5, 6):
        for inlen in (1, 2, 3, 4, 6, 7):
            for lay in splits(n):
                d, c = case(n, n + inlen, 'k%d.%d' % (n, inlen))
                if inlen > n:
                    yield 'encode %d in chunks of %d in %s' % (n, inlen, lay), ('e', d, lay, inlen, [], 0, 0)
                    continue
                head, hc = case(inlen, inlen, 'h%d.%d' % (n, inlen))
                d = head + d[inlen:]
                yield 'encode %d in chunks of %d in %s' % (n, inlen, lay), ('e', d, lay, inlen, hc, inlen, len(hc))
    for n in (4, 8, 12):
        for inlen in (4, 8, 12):
            for rem in (3, 2, 1):
                for lay in splits(n):
                    _, c = case(n // 4 * 3, inlen, 'd%d.%d.%d' % (n, inlen, rem))
                    d, hc = case(inlen // 4 * 3 - 3 + rem, inlen, 'g%d.%d.%d' % (n, inlen, rem))
                    if inlen > n:
                        yield 'decode %d in chunks of %d/%d in %s' % (n, inlen, rem, lay), ('d', c, lay, inlen, [], 0, 0)
                    else:
                        yield 'decode %d in chunks of %d/%d in %s' % (n, inlen, rem, lay), ('d', hc + c[inlen:], lay, inlen, d, inlen, inlen // 4 * 3)
    for inlen, n in ((4, 8), (4, 6), (8, 12), (8, 9)):
        for pos in (0, inlen - 1):
            for lay in splits(n):
                _, cs = case(9, pos, 'q%d.%d.%d' % (inlen, n, pos))
                cs = cs[:n]
                cs[pos] = t.S(8, 'bad%%%d.%d.%d' % (inlen, n, pos), 128, 255)
                yield 'refuse chunk of %d of %d, bad character at %d, in %s' % (inlen, n, pos, lay), ('d', cs, lay, inlen, [], 0, 0)
    for nm, cs in bad(chk, I):
        for lay in splits(len(cs))[:2]:
            yield 'refuse %s in %s' % (nm, lay), ('d', cs, lay, 0, [], 0, 0)


def run(chk):
    def work(k):
        I = binterp(chk)
        for j, (key, a) in enumerate(jobs(chk, I)):
            if j % 8 == k:
                chk.group(key, coded, chk, I, *(a[:6] + (key, a[6])))
                if len(chk.violations) > 6:
                    break
        m = 0
        for n, inlen, lay in ((3, 0, (3,)), (3, 0, (1, 2)), (4, 0, (2, 2)), (5, 3, (5,)), (5, 3, (2, 3)), (6, 3, (3, 3)), (6, 3, (2, 2, 2))):
            m += 1
            if m % 8 == k:
                d, c = case(n, n, 'm%d' % m)
                h, hc = case(inlen, n, 'mh%d' % m)
                key = 'starved encode %d chunk %d in %s' % (n, inlen, lay)
                chk.group(key, starved, chk, I, 'e', h + d[inlen:], lay, inlen, hc if inlen else c, key)
        for n, inlen, lay in ((3, 0, (4,)), (3, 0, (1, 3)), (2, 0, (2, 2)), (6, 4, (8,)), (6, 4, (3, 5)), (6, 4, (4, 4)), (6, 4, (3, 3, 2))):
            m += 1
            if m % 8 == k:
                d, c = case(n, n, 'm%d' % m)
                key = 'starved decode %d chunk %d in %s' % (n, inlen, lay)
                chk.group(key, starved, chk, I, 'd', c, lay, inlen, d[:3] if inlen else d, key)
        if k == 0:
            chk.group('rooms', rooms, chk, I)
    chk.fork(8, work)
