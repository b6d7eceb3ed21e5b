"""The CBOR input and output adapters are interpreted over sequences of calls.  Outputs: sequences of writes of
arbitrary bytes into every capacity, including zero-length writes and writes of an arbitrary length.  Inputs: every
getter, alone and in pairs, over every fragmentation, in the keeping and consuming modes, compared with the
big-endian value of the bytes it covers and the bytes then left."""
from balib import *

LEVEL = 'other'
ASSUME = ["histories of up to three writes or three reads; byte values, capacities and one write length are arbitrary", "getters are only called when has_bytes() allows it, as the decoder does"]
SRC = 'src/cbor-cpp/cbor.cpp'
GET = {'byte': 1, 'short': 2, 'int': 4, 'long': 8, 'float': 4, 'double': 8, 'bytes3': 3, 'bytes1': 1}


def i(n):
    return C(32, n & 0xffffffff)


def call(chk, I, st, name, args):
    return chk.run(I, chk.M.funcs['c3pv_' + name], st, args)


def only(chk, I, st, name, args):
    l = call(chk, I, st, name, args)
    if len(l) != 1:
        raise Unsupported('%s splits' % name)
    return l[0]


def static_out(chk, I, key, own, writes):
    """writes: None = one byte, n = put_bytes of n; the capacity is arbitrary"""
    I.steps = 0
    w = BW(chk, I)
    cap = t.S(32, 'capacity%' + key, 0, 0x7fffffff)
    if own:
        buf = w.I.new_region(w.st, 'lazy', 'buffer', size=cap)
        p = I.new_region(w.st, 'lazy', 'out', size=i(64))
        paths = [(s, None) for s, _ in call(chk, I, w.st, 'os_init', [P(p), cap, P(buf)])]
    else:
        p = I.new_region(w.st, 'lazy', 'out', size=i(64))
        I.cfg.malloc_fails = True
        try:
            paths = call(chk, I, w.st, 'os_init', [P(p), cap, NULL])
        finally:
            I.cfg.malloc_fails = False
    chk.count('write histories')
    todo = []
    for s, _ in paths:
        real = cap
        if not own and not [e for e in s.events() if e[0] == 'alloc']:
            real = i(0)         # nothing could be allocated
        todo.append((s, 0, [], real, []))
    for step, n in enumerate(writes):
        nxt = []
        for s, pos, want, real, src in todo:
            k2 = '%s write %d' % (key, step)
            if n is None:
                bs = [t.S(8, 'b%d%%%s' % (step, key))]
                outs = call(chk, I, s, 'os_byte', [P(p), bs[0]])
                m = 1
            else:
                r = I.new_region(s, 'lazy', 'src%d' % step, size=i(max(n, 0)))
                bs = []
                for j in range(max(n, 0)):
                    bs.append(t.S(8, 'b%d.%d%%%s' % (step, j, key)))
                    I.store(s, P(r, i(j)), bs[-1], 'i8')
                outs = call(chk, I, s, 'os_bytes', [P(p), P(r), i(n)])
                m = n
            for s1, ret in outs:
                memory(chk, s1, k2)
                ret = s1.norm(ret)
                if not isc(ret):
                    chk.undec(k2, 'open return value')
                    continue
                fits = t.ule(i(pos + max(m, 0)), real) if m >= 0 else C(1, 0)
                if cv(ret) == 0:
                    chk.prove(s1, fits, k2 + ':accepts', SRC, 'a write of %d bytes at %d is accepted beyond the capacity' % (m, pos))
                    if m >= 0:
                        nxt.append((s1, pos + m, want + bs, real, src))
                else:
                    chk.prove(s1, t.eq(ret, C(8, 255)), k2 + ':return', SRC, 'returns neither 0 nor -1')
                    chk.prove(s1, t.not_(fits), k2 + ':refuses', SRC, 'a write of %d bytes at %d is refused although it fits' % (m, pos))
                    nxt.append((s1, pos, want, real, src))
        todo = nxt
    for s, pos, want, real, src in todo:
        s, v = only(chk, I, s, 'os_size', [P(p)])
        chk.prove(s, t.eq(v, i(pos)), key + ':size', SRC, 'size() is not what was written')
        s, q = only(chk, I, s, 'os_data', [P(p)])
        q = I.res(s, q)
        if pos:
            if q.r is None:
                chk.refuse(s, key + ':data', SRC, 'data() is null after accepted writes')
            else:
                got = [s.norm(I.load(s, P(q.r, t.addc(q.o, j)), 'i8')) for j in range(pos)]
                same(chk, s, got, want, key + ':data', SRC, 'the buffer holds the wrong bytes')
                if own:
                    chk.expect(q.r is buf, key + ':buffer', SRC, "data() is not the caller's buffer", s)
        outs = call(chk, I, s, 'os_fini', [P(p)])
        for s1, _ in outs:
            memory(chk, s1, key + ' destroyed')
            for e in s1.events():
                if e[0] == 'alloc':
                    r = I.res(s1, e[3]).r
                    if r.id not in s1.freed:
                        chk.refuse(s1, key + ':leak', e[4], 'the buffer the output allocated is never released')
                if e[0] == 'free' and own:
                    chk.refuse(s1, key + ':releases', e[4], "the caller's buffer is released")
                if e[0] == 'free' and not own:
                    chk.expect(e[1] == 'free', key + ':release-family', e[4], 'malloc memory is released by ' + e[1], s1)


def any_write(chk, I, key, pre):
    """put_bytes of an arbitrary length after pre bytes, into an arbitrary capacity"""
    I.steps = 0
    w = BW(chk, I)
    cap = t.S(32, 'capacity%' + key, 0, 0x7fffffff)
    n = t.S(32, 'length%' + key)
    buf = I.new_region(w.st, 'lazy', 'buffer', size=cap)
    src = I.new_region(w.st, 'lazy', 'src', size=n)
    p = I.new_region(w.st, 'lazy', 'out', size=i(64))
    st, _ = only(chk, I, w.st, 'os_init', [P(p), cap, P(buf)])
    sts = [st]
    for j in range(pre):
        nx = []
        for s in sts:
            for s1, r in call(chk, I, s, 'os_byte', [P(p), C(8, j + 1)]):
                if s1.decide(t.eq(r, C(8, 0))) is True:
                    nx.append(s1)
        sts = nx
    for st in sts:
        for s1, ret in call(chk, I, st, 'os_bytes', [P(p), P(src), n]):
            fits = t.and_(t.sle(i(0), n), t.ule(n, t.sub(cap, i(pre))))
            ret = s1.norm(ret)
            if not isc(ret):
                chk.undec(key, 'open return value')
                continue
            s2, sz = only(chk, I, s1, 'os_size', [P(p)])
            memory(chk, s2, key)
            if cv(ret) == 0:
                chk.prove(s2, fits, key + ':accepts', SRC, 'a write is accepted beyond the capacity')
                chk.prove(s2, t.eq(sz, t.add(i(pre), n)), key + ':size', SRC, 'size() does not grow by the bytes written')
            else:
                chk.prove(s2, t.not_(fits), key + ':refuses', SRC, 'a write is refused although it fits')
                chk.prove(s2, t.eq(sz, i(pre)), key + ':size', SRC, 'size() changes on a refused write')


def builder_out(chk, I, key, lay, writes):
    I.steps = 0
    w = BW(chk, I)
    old = [t.S(8, 'o%d%%%s' % (j, key)) for j in range(sum(lay))]
    p = w.given(lay, old)
    o = w.obj('out', 'ob_init', p, size=64)
    st = w.st
    want = list(old)
    for step, n in enumerate(writes):
        if n is None:
            b = t.S(8, 'b%d%%%s' % (step, key))
            want.append(b)
            st, ret = only(chk, I, st, 'ob_byte', [o, b])
        else:
            r = I.new_region(st, 'lazy', 'src%d' % step, size=i(n))
            for j in range(n):
                x = t.S(8, 'b%d.%d%%%s' % (step, j, key))
                want.append(x)
                I.store(st, P(r, i(j)), x, 'i8')
            st, ret = only(chk, I, st, 'ob_bytes', [o, P(r), i(n)])
        chk.prove(st, t.eq(ret, C(8, 0)), key + ':return', SRC, 'an output without limit refuses a write')
    st, v = only(chk, I, st, 'ob_size', [o])
    chk.prove(st, t.eq(v, i(len(want))), key + ':size', SRC, 'size() is not what was written')
    memory(chk, st, key)
    st = content(chk, I, st, p, want, key + ':content', 'the output', where=SRC)
    released(chk, I, st, [p], key)
    chk.count('write histories')


def big_endian(bs):
    return t.concat(list(reversed(bs)))


def reads(chk, I, key, kind, total, lay, seq, consume=0, own=0):
    """seq of getters over `total` bytes"""
    I.steps = 0
    w = BW(chk, I)
    bs = [t.S(8, 'b%d%%%s' % (j, key)) for j in range(total)]
    st = w.st
    p = None
    obj = I.new_region(st, 'lazy', 'in', size=i(64))
    if kind == 'is':
        r = I.new_region(st, 'lazy', 'data', size=i(total))
        for j, b in enumerate(bs):
            I.store(st, P(r, i(j)), b, 'i8')
        st, _ = only(chk, I, st, 'is_init', [P(obj), P(r), i(total)])
    else:
        if own:
            w.st, p = only(chk, I, w.st, 'sb_new', [])
            p = I.res(w.st, p)
            k = 0
            for n in lay:
                b = I.new_region(w.st, 'lazy', 'frag', size=i(n))
                for j in range(n):
                    I.store(w.st, P(b, i(j)), bs[k + j], 'i8')
                w.f('concat', p, P(b), i(n))
                k += n
        else:
            p = w.given(lay, bs)
        st, _ = only(chk, I, w.st, 'ib_init', [P(obj), p, C(1, consume), C(1, own)])
    pos = 0
    chk.count('read histories')
    for step, g in enumerate(seq):
        n = GET[g]
        k2 = '%s step %d (%s)' % (key, step, g)
        for ask in (0, 1, total - pos - 1, total - pos, total - pos + 1, 0x7fffffff):
            if ask < 0:
                continue
            for s1, v in call(chk, I, st.copy(), kind + '_has', [P(obj), i(ask)]):
                chk.prove(s1, t.eq(v, C(1, int(ask <= total - pos))) if not (ask == 0 and pos == total and own) else C(1, 1), k2 + ':has_bytes', SRC,
                          'has_bytes(%d) is wrong with %d bytes left' % (ask, total - pos))
        if pos + n > total:
            break
        want = bs[pos:pos + n]
        if g in ('float', 'double') or g.startswith('bytes'):
            to = I.new_region(st, 'lazy', 'to', size=i(n))
            if g.startswith('bytes'):
                outs = call(chk, I, st, kind + '_bytes', [P(obj), P(to), i(n)])
            else:
                outs = call(chk, I, st, kind + '_' + g, [P(obj), P(to)])
            if len(outs) != 1:
                raise Unsupported('getter splits')
            st = outs[0][0]
            got = [st.norm(I.load(st, P(to, i(j)), 'i8')) for j in range(n)]
            if not g.startswith('bytes'):
                got.reverse()
            same(chk, st, got, want, k2, SRC, 'the wrong value is read')
        else:
            st, v = only(chk, I, st, '%s_%s' % (kind, g), [P(obj)])
            chk.prove(st, t.eq(v, big_endian(want)), k2, SRC, 'the wrong value is read')
        pos += n
        memory(chk, st, k2)
        if p is not None and not (own and consume and pos == total):
            if p.r.id in st.freed:
                chk.refuse(st, k2 + ':released', SRC, 'the source is destroyed with %d bytes left' % (total - pos))
                return
            st = content(chk, I, st, p, bs[pos:] if consume else bs, k2 + ':source', 'the source after reading %d bytes' % pos, where=SRC)
    if kind == 'ib':
        st, _ = only(chk, I, st, 'ib_fini', [P(obj)])
        memory(chk, st, key + ' destroyed')
        if own:
            for e in st.events():
                if e[0] == 'alloc' and I.res(st, e[3]).r.id not in st.freed:
                    chk.refuse(st, key + ':leak', e[4], 'an input that owns its source does not release it')
                    break
            else:
                chk.ok(key + ':released')
        else:
            if p.r.id in st.freed:
                chk.refuse(st, key + ':released', SRC, 'a source that was only lent is destroyed')
            else:
                st = content(chk, I, st, p, bs[pos:] if consume else bs, key + ':source after', 'the source after the input is destroyed', where=SRC)
                released(chk, I, st, [p], key)


def nowhere(chk, I):
    w = BW(chk, I)
    o = w.obj('in', 'ib_init', NULL, C(1, 0), C(1, 0), size=64)
    for g in ('byte', 'short', 'int', 'long'):
        for st, v in call(chk, I, w.st.copy(), 'ib_' + g, [o]):
            memory(chk, st, 'no source: ' + g)
    for n in (1, 5):
        for st, v in call(chk, I, w.st.copy(), 'ib_has', [o, i(n)]):
            chk.prove(st, t.eq(v, C(1, 0)), 'no source: has_bytes(%d)' % n, SRC, 'an input without a source has bytes')


def jobs(chk):
    W3 = [(a, b, c) for a in (None, 0, 1, 2, 3) for b in (None, 0, 2) for c in (None, 0, 1, 4)]
    for own in (1, 0):
        for ws in W3 + [(-1,), (2, -1), (1, -2), (0,), (0, 0), (3, 3, 3)]:
            yield 'output_static %s %s' % ('on a buffer' if own else 'allocating', ws), (static_out, own, ws)
    for pre in (0, 1, 2, 5):
        yield 'output_static arbitrary write after %d' % pre, (any_write, pre)
    for lay in ((), (2,), (1, 2)):
        for ws in ((None,), (0,), (3,), (None, 2, None), (2, 0, 1)):
            yield 'output_stringbuilder %s on %s' % (ws, lay), (builder_out, lay, ws)
    for g in GET:
        for h in GET:
            n = GET[g] + GET[h]
            yield 'input_static %s %s' % (g, h), (reads, 'is', n, None, (g, h, 'byte'))
            yield 'input_static %s %s more' % (g, h), (reads, 'is', n + 2, None, (g, h, 'short'))
            for consume, own in ((0, 0), (1, 0), (1, 1), (0, 1)):
                for extra in (0, 1):
                    for lay in ([x for x in splits(n + extra)] + [(GET[g], n + extra - GET[g])]) if (consume or g == h or chk.tier == 'thorough') else splits(n + extra)[1:2]:
                        yield 'input_stringbuilder%s%s %s %s in %s' % (' consuming' * consume, ' owning' * own, g, h, lay), (reads, 'ib', n + extra, lay, (g, h, 'byte'), consume, own)


def run(chk):
    def work(k):
        I = binterp(chk)
        for j, (key, a) in enumerate(jobs(chk)):
            if j % 8 == k:
                chk.group(key, a[0], chk, I, key, *a[1:])
                if len(chk.violations) > 6:
                    break
        if k == 0:
            chk.group('no source', nowhere, chk, I)
    chk.fork(8, work)
