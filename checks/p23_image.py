"""Images of small sizes in every format are interpreted: pixels written and read at every address in every orientation
(arbitrary colours over arbitrary contents), at addresses outside, histories of the buffer management with memory that
runs out, serialised forms of arbitrary pixels, and lines, rectangles, circles and bitmaps compared with their geometry."""
import itertools
from balib import *

LEVEL = 'other'
ASSUME = ['images are a few pixels wide and high; monochrome pixels are read back from images whose height is a multiple of eight',
          'the caller gives buffers at least as large as the image needs when they are given', 'drawn shapes end before coordinate 65535']
CPP = 'src/Image/Image.cpp'
MONO, G24, G16, G8, G4, RGBA, R888, R565, R332 = range(1, 10)
BPP = {0: 0, MONO: 1, G24: 24, G16: 16, G8: 8, G4: 4, RGBA: 32, R888: 24, R565: 16, R332: 8}
NAME = {0: 'UNALLOCATED', MONO: 'MONOCHROME', G24: 'GREY_24', G16: 'GREY_16', G8: 'GREY_8', G4: 'GREY_4', RGBA: 'R8_G8_B8_ALPHA', R888: 'R8_G8_B8', R565: 'R5_G6_B5', R332: 'R3_G3_B2'}
ISZ = 64


def i(n):
    return C(32, n & 0xffffffff)


def h(n):
    return C(16, n & 0xffff)


def need(x, y, f):
    return (x * y * BPP[f] + 7) // 8


class IW(BW):
    def each(self, name, *args):
        """[(state, value)] of an image call"""
        self.I.steps = 0
        return self.chk.run(self.I, self.chk.M.funcs['c3pv_im_' + name], self.st, list(args))

    def im(self, name, *args):
        l = self.each(name, *args)
        if len(l) != 1:
            raise Unsupported('image: %s has %d outcomes' % (name, len(l)))
        self.st, v = l[0]
        return self.st.norm(v) if isinstance(v, T) else v

    def image(self, init, *args):
        r = self.I.new_region(self.st, 'lazy', 'image', size=i(ISZ))
        self.im(init, P(r), *args)
        return P(r)


def world(chk, **kw):
    I = binterp(chk, **kw)
    return IW(chk, I)


def over(chk, x, y, f, values=None):
    """(world, image, contents) of an image over the caller's buffer of exactly the needed size"""
    w = world(chk)
    b, bs = w.buf(need(x, y, f), 'pixels', values=values)
    return w, w.image('initb', h(x), h(y), C(8, f), b), b, bs


def raw(w, st, b, n):
    return [st.norm(w.I.load(st, P(b.r, t.addc(b.o, k)), 'i8')) for k in range(n)]


def bounded(chk, w, key):
    memory(chk, w.st, key)
    w.st.log = State().log


def squeeze(c, f):
    n = BPP[f]
    return c if n == 32 else t.and_(c, i((1 << n) - 1))


def pixels(chk, f, x, y):
    for o, fx, fy in itertools.product((0, 2, 1, 3), (0, 1), (0, 1)):
        lx, ly = (y, x) if o in (1, 3) else (x, y)
        key = 'pixels:%s' % NAME[f]
        det = '%s image of %dx%d, orientation %d%s%s' % (NAME[f], x, y, o * 90, ', flipped along X' if fx else '', ', flipped along Y' if fy else '')
        for fillv in ((0, 255) if f == MONO else (None,)):
            w, p, b, bs = over(chk, x, y, f, values=None if fillv is None else [fillv] * need(x, y, f))
            flat0 = {(a, c): w.im('get', p, h(a), h(c)) for a in range(x) for c in range(y)}
            w.im('orient', p, C(8, o), C(1, fx), C(1, fy))
            all_ = [(a, c) for a in range(lx) for c in range(ly)]
            before = {q: w.im('get', p, h(q[0]), h(q[1])) for q in all_}
            bounded(chk, w, key)
            if o in (0, 2) and f != MONO:
                for a, c in all_:
                    m = ((x - 1 - a) if (o == 2) != bool(fx) else a, (y - 1 - c) if (o == 2) != bool(fy) else c)
                    chk.count('mapped pixels')
                    chk.prove(w.st, t.eq(before[(a, c)], flat0[m]), 'orientation', CPP + ': _remap_for_orientation', '%s: pixel (%d,%d) is not pixel (%d,%d) of the plain image' % (det, a, c, m[0], m[1]))
            st0 = w.st
            for q in all_:
                for col in ([i(0), i(0xffffffff), i(2)] if f == MONO else [t.S(32, 'colour')]):
                    w.st = st0.copy()
                    r = w.im('set', p, h(q[0]), h(q[1]), col)
                    bounded(chk, w, key + ':set')
                    chk.count('pixels written')
                    want = squeeze(col, f) if f != MONO else i(0xffffffff if cv(col) else 0)
                    chk.prove(w.st, t.eq(r, C(1, 1)), key + ':reported', CPP + ': setPixel', '%s: writing pixel %s inside the image is not reported as done' % (det, q))
                    for k in all_:
                        v = w.im('get', p, h(k[0]), h(k[1]))
                        if k == q:
                            chk.prove(w.st, t.eq(v, want), key + ':readback', CPP + ': getPixel/setPixel', '%s: pixel %s does not read back as the colour written to it' % (det, q))
                        else:
                            chk.prove(w.st, t.eq(v, before[k]), key + ':others', CPP + ': setPixel', '%s: writing pixel %s changes pixel %s' % (det, q, k))
                    bounded(chk, w, key + ':get')


def rgb(chk, f, x, y):
    r, g, b = [t.S(8, n) for n in 'rgb']
    z = [t.zext(v, 32) for v in (r, g, b)]
    sh = lambda v, n: t.shl(v, i(n)) if n >= 0 else t.lshr(v, i(-n))
    def pack(top, n):
        """the top bits of each channel, put together"""
        out, at = i(0), sum(n)
        for v, k in zip(z, n):
            at -= k
            out = t.or_(out, sh(t.lshr(v, i(8 - k)), at))
        return out
    bits = {R888: (8, 8, 8), R565: (5, 6, 5), R332: (3, 3, 2)}
    key = 'rgb:%s' % NAME[f]
    for q in ((a, c) for a in range(x) for c in range(y)):
        w, p, bp, bs = over(chk, x, y, f, values=[0] * need(x, y, f) if f == MONO else None)
        if f == MONO:
            for cols in ((0, 0, 0), (1, 0, 0), (0, 255, 0), (0, 0, 7), (86, 85, 85)):
                w.im('rgb', p, h(q[0]), h(q[1]), *[C(8, c) for c in cols])
                chk.prove(w.st, t.eq(w.im('get', p, h(q[0]), h(q[1])), i(0xffffffff if any(cols) else 0)), key, CPP + ': setPixel', 'pixel %s does not read back as lit exactly when some channel is' % (q,))
            bounded(chk, w, key)
            continue
        rest = {(a, c): w.im('get', p, h(a), h(c)) for a in range(x) for c in range(y)}
        ret = w.im('rgb', p, h(q[0]), h(q[1]), r, g, b)
        chk.count('pixels written by channel')
        chk.prove(w.st, t.eq(ret, C(1, 1)), key + ':reported', CPP + ': setPixel', 'writing pixel %s is not reported as done' % (q,))
        for k in rest:
            v = w.im('get', p, h(k[0]), h(k[1]))
            if k == q:
                chk.prove(w.st, t.eq(v, pack(r, bits[f])), key, CPP + ': setPixel', '%s: the channels of pixel %s are not kept to the depth of the format' % (NAME[f], q))
            else:
                chk.prove(w.st, t.eq(v, rest[k]), key + ':others', CPP + ': setPixel', 'writing pixel %s changes pixel %s' % (q, k))
        for g2, n2 in bits.items():
            v = w.im('getas', p, h(q[0]), h(q[1]), C(8, g2))
            keep = [min(a, c) for a, c in zip(bits[f], n2)]
            z2 = [t.shl(t.lshr(v_, i(8 - k)), i(8 - k)) for v_, k in zip(z, keep)]
            out, at = i(0), sum(n2)
            for v_, k in zip(z2, n2):
                at -= k
                out = t.or_(out, sh(t.lshr(v_, i(8 - k)), at))
            chk.count('colour conversions')
            chk.prove(w.st, t.eq(v, out), 'getPixelAsFormat:%s:%s' % (NAME[f], NAME[g2]), CPP + ': getPixelAsFormat', 'a pixel of %s read as %s does not keep the leading bits of each channel' % (NAME[f], NAME[g2]))
        bounded(chk, w, key)


def outside(chk, f):
    for x, y in ((3, 2), (2, 9), (5, 1), (1, 7), (4, 8)):
        n = need(x, y, f)
        far = [(x, 0), (0, y), (x, y), (65535, 0), (0, 65535), (65535, 65535), (x - 1, y), (x, y - 1), (y, x) if x != y else (x, y)]
        for o in range(4):
            key = 'outside:%s' % NAME[f]
            w, p, b, bs = over(chk, x, y, f)
            w.im('orient', p, C(8, o), C(1, 0), C(1, 0))
            lx, ly = (y, x) if o in (1, 3) else (x, y)
            at = [(a, c) for a, c in far + [(lx, 0), (0, ly), (lx, ly)] if a >= lx or c >= ly]
            st0 = w.st
            for a, c in at:
                w.st = st0.copy()
                for call, args in (('set', (t.S(32, 'c'),)), ('rgb', (C(8, 255),) * 3)):
                    chk.count('addresses outside')
                    ret = w.im(call, p, h(a), h(c), *args)
                    chk.prove(w.st, t.eq(ret, C(1, 0)), key + ':refused', CPP + ': setPixel', 'writing pixel (%d,%d) outside an image of %dx%d is reported as done' % (a, c, lx, ly))
                same(chk, w.st, raw(w, w.st, b, n), bs, key + ':untouched', CPP + ': setPixel', 'writing pixel (%d,%d) outside an image of %dx%d' % (a, c, lx, ly))
                v = w.im('get', p, h(a), h(c))
                chk.prove(w.st, t.eq(v, i(0)), key + ':read', CPP + ': getPixel', 'reading pixel (%d,%d) outside an image of %dx%d gives a colour' % (a, c, lx, ly))
                bounded(chk, w, key)
            if f == MONO:       # every address, also where the height is no multiple of eight
                for a in range(lx):
                    for c in range(ly):
                        w.st = st0.copy()
                        for s, _ in w.each('set', p, h(a), h(c), i(1)):
                            memory(chk, s, key + ':all')
                        for s, _ in w.each('get', p, h(a), h(c)):
                            memory(chk, s, key + ':all')
    w = world(chk)
    p = w.image('init', h(3), h(8), C(8, f))
    for a, c in ((0, 0), (2, 7), (3, 8)):
        w.im('set', p, h(a), h(c), i(1))
        v = w.im('get', p, h(a), h(c))
        if not memory(chk, w.st, 'unallocated:%s' % NAME[f]):
            return
        chk.prove(w.st, t.eq(v, i(0)), 'unallocated', CPP + ': getPixel', 'an image without a buffer has a colour')
    bounded(chk, w, 'unallocated:%s' % NAME[f])


# ---------------------------------------------------------------- buffers
class Model:
    """x, y, format, who owns the buffer (None | 'own' | region), contents"""
    def __init__(self, x, y, f):
        self.x, self.y, self.f, self.buf, self.bytes = x, y, f, None, None

    def copy(self):
        m = Model(self.x, self.y, self.f)
        m.buf, m.bytes = self.buf, self.bytes
        return m


def success(st, v):
    v = st.norm(v)
    if not isc(v):
        raise Unsupported('image: open result')
    return cv(v)


def buffers(chk, fails, start, depth):
    def verify(w, p, m, key, hist):
        st0, log = w.st, w.st.log
        det = 'after ' + ', '.join(hist)
        chk.count('buffer states')
        mf, w.I.cfg.malloc_fails = w.I.cfg.malloc_fails, False
        try:
            for what, v, n in (('x', m.x, 16), ('y', m.y, 16), ('format', m.f, 8), ('bytes', need(m.x, m.y, m.f), 32)):
                got = w.im(what, p)
                chk.prove(w.st, t.eq(got, C(n, v)), key + ':' + what, CPP, '%s: %s is %s instead of %d' % (det, what, got, v))
            b = w.I.res(w.st, w.im('buffer', p))
            chk.expect((b.r is None) == (m.buf is None), key + ':buffer', CPP, '%s: the image %s a buffer' % (det, 'lacks' if b.r is None else 'keeps'), w.st)
            if b.r is not None and m.buf is not None:
                if m.buf != 'own':
                    chk.expect(b.r is m.buf, key + ':buffer', CPP, '%s: the buffer is not the one given' % det, w.st)
                n = need(m.x, m.y, m.f)
                size = cv(w.st.norm(b.r.size)) if isc(w.st.norm(b.r.size)) else None
                if size is None:
                    raise Unsupported('image: open buffer size')
                if not chk.expect(size >= n, key + ':room', CPP, '%s: the image claims %d bytes of a buffer of %d' % (det, n, size), w.st):
                    return False
                chk.expect(b.r.id not in w.st.freed, key + ':released', CPP, '%s: the buffer of the image was released' % det, w.st)
                if m.bytes is not None:
                    same(chk, w.st, raw(w, w.st, b, n), list(m.bytes)[:n], key + ':content', CPP, det)
        finally:
            w.I.cfg.malloc_fails = mf
        w.st = st0
        return True

    def step(w, p, m, hist, depth):
        key = 'buffers:%s' % (hist[-1] if hist else 'start')
        if not verify(w, p, m, key, hist or ['construction']):
            return
        # the destructor releases what the image allocated, and nothing else
        st0 = w.st
        w.st = st0.copy()
        for s, _ in w.each('fini', p):
            memory(chk, s, 'buffers:destructor')
            for e in s.events():
                if e[0] == 'alloc' and isinstance(e[3], P):
                    r = w.I.res(s, e[3]).r
                    if r is not None and r.id not in s.freed:
                        chk.refuse(s, 'buffers:leak', e[4], 'after %s and the destructor this allocation is never released' % ', '.join(hist))
                if e[0] == 'free' and e[2][0].r is not None and e[2][0].r.kind != 'heap':
                    chk.refuse(s, 'buffers:caller', e[4], 'after %s the buffer of the caller is released' % ', '.join(hist))
        w.st = st0
        if depth == 0:
            return
        src = [t.S(8, 'src%d' % k) for k in range(24)]
        def given(n):
            r = w.I.new_region(w.st, 'lazy', 'given', size=i(n))
            for k in range(n):
                w.I.store(w.st, P(r, i(k)), src[k], 'i8')
            return r
        def alloc(m2, zero=True):
            """[(model, returned, allocated)] of a new buffer for m2"""
            if m2.f == 0:
                return [(m2, 0)]
            if m2.buf not in (None, 'own'):
                return None
            m2.buf, m2.bytes = 'own', [C(8, 0)] * 64
            l = [(m2, 1)]
            if fails:
                m3 = m2.copy()
                m3.buf = m3.bytes = None
                l.append((m3, 0))
            return l
        for op in ('size 2x2', 'size 1x3', 'reallocate', 'setBuffer', 'setBuffer R3_G3_B2', 'setBuffer R5_G6_B5', 'copy', 'copy R3_G3_B2', 'copy R5_G6_B5', 'copy GREY_16', 'wipe'):
            w.st = st0.copy()
            m2 = m.copy()
            a = op.split()
            f2 = next((k for k, v in NAME.items() if v == a[-1]), None)
            if a[0] == 'size':
                m2.x, m2.y = [int(v) for v in a[1].split('x')]
                outs = w.each('size', p, h(m2.x), h(m2.y))
                want = alloc(m2) or [(m, 0)]
            elif a[0] == 'reallocate':
                outs = w.each('realloc', p)
                want = alloc(m2) or [(m, 0)]
            elif a[0] == 'setBuffer':
                g = given(need(m.x, m.y, f2 if f2 else m.f))
                outs = w.each('setbuff', p, P(g), C(8, f2)) if f2 else w.each('setbuf', p, P(g))
                if f2 or m.f:
                    m2.f, m2.buf, m2.bytes = f2 or m.f, g, src
                    want = [(m2, 1)]
                else:
                    want = [(m, 0)]
            elif a[0] == 'copy':
                f2 = f2 or m.f
                g = given(need(m.x, m.y, f2) if f2 else 1)
                outs = w.each('copyf', p, P(g), C(8, f2)) if len(a) > 1 else w.each('copy', p, P(g))
                m2.f = f2
                if f2 == 0:
                    want = [(m, 0)]
                elif m.buf is not None and m.f and BPP[m.f] == BPP[f2]:
                    m2.bytes = src
                    want = [(m2, 1)]
                else:
                    want = alloc(m2)
                    if want is None:
                        want = [(m, 0)]
                    else:
                        for mm, ret in want:
                            if ret:
                                mm.bytes = src
                            elif m.f:
                                mm.f = None     # either format: there is no buffer
            else:
                outs = w.each('wipe', p)
                want = [(Model(0, 0, 0), None)]
            for s, v in outs:
                w.st = s
                memory(chk, s, 'buffers:' + op)
                if len(want) > 1 or want[0][1] is not None:
                    ok = success(s, v)
                    c = [mm for mm, ret in want if ret == ok]
                    if not c:
                        chk.refuse(s, 'buffers:%s:result' % op, CPP, 'after %s: %s reports %s' % (', '.join(hist) or 'construction', op, 'success' if ok else 'failure'))
                        continue
                    mm = c[0].copy()
                else:
                    mm = want[0][0].copy()
                if mm.f is None:
                    mm.f = cv(w.im('format', p))
                step(w, p, mm, hist + [op], depth - 1)
        w.st = st0

    w = world(chk, fails=fails)
    m = Model(*start)
    p = w.image('init', h(m.x), h(m.y), C(8, m.f)) if m.f else w.image('init0')
    if not m.f:
        m.x = m.y = 0
    step(w, p, m, [], depth)


# ---------------------------------------------------------------- serialised form
def serial(chk, f, x, y):
    key = 'serialise:%s' % NAME[f]
    n = need(x, y, f)
    w, p, b, bs = over(chk, x, y, f)
    head = [C(8, v) for v in (0, 0, x >> 8, x & 255, 0, 0, y >> 8, y & 255, f, 0)]
    sb, _ = w.sb(())
    st0 = w.st
    r = w.im('ser', p, sb)
    chk.prove(w.st, t.eq(r, C(8, 0)), key, CPP + ': serialize', 'an image with a buffer is not serialised')
    content(chk, w.I, w.st, sb, head + bs, key, 'serialised %s image of %dx%d' % (NAME[f], x, y), where=CPP + ': serialize')
    memory(chk, w.st, key)
    w.st = st0.copy()
    for call, want in (('serb', head + bs), ('serh', head)):
        out, _ = w.buf(10 + n, 'out')
        ln, _ = w.buf(4, 'len')
        w.im(call, p, out, ln)
        chk.prove(w.st, t.eq(w.st.norm(w.I.load(w.st, ln, 'i32')), i(len(want))), key + ':length', CPP + ': serialize', 'the length of the serialised image is wrong')
        same(chk, w.st, raw(w, w.st, out, len(want)), want, key + ':bytes', CPP + ': serialize', 'serialised %s image' % NAME[f])
    bounded(chk, w, key)
    for extra, ok in ((0, 1), (-1, 0), (1, 0)):
        if 10 + n + extra < 10:
            continue
        w = world(chk)
        data = (head + bs + [C(8, 0)])[:10 + n + extra]
        d, _ = w.buf(len(data), 'data')
        for k, v in enumerate(data):
            w.I.store(w.st, P(d.r, i(k)), v, 'i8')
        p = w.image('init0')
        r = w.im('deser', p, d, i(len(data)))
        chk.count('serialised forms read')
        chk.prove(w.st, t.eq(r, C(8, 0 if ok else 255)), 'deserialise:%s:result' % NAME[f], CPP + ': deserialize', 'a serialised %s image of %dx%d with %+d bytes is %s' % (NAME[f], x, y, extra, 'refused' if ok else 'accepted'))
        for what, v, wd in (('x', x, 16), ('y', y, 16), ('format', f, 8)):
            chk.prove(w.st, t.eq(w.im(what, p), C(wd, v if ok else 0)), 'deserialise:%s:%s' % (NAME[f], what), CPP + ': deserialize', '%s is not that of the serialised image' % what if ok else 'a refused image changes ' + what)
        bb = w.I.res(w.st, w.im('buffer', p))
        if chk.expect((bb.r is not None) == bool(ok), 'deserialise:%s:buffer' % NAME[f], CPP + ': deserialize', 'a buffer is missing, or left over', w.st) and ok:
            same(chk, w.st, raw(w, w.st, bb, n), bs, 'deserialise:%s:pixels' % NAME[f], CPP + ': deserialize', 'a serialised image of %dx%d' % (x, y))
        if ok:
            r = w.im('deser', p, d, i(len(data)))
            chk.prove(w.st, t.eq(r, C(8, 255)), 'deserialise:occupied', CPP + ': deserialize', 'an image with a format takes a serialised one')
        w.im('fini', p)
        memory(chk, w.st, 'deserialise:%s' % NAME[f])
        for e in w.st.events():
            if e[0] == 'alloc' and w.I.res(w.st, e[3]).r is not None and w.I.res(w.st, e[3]).r.id not in w.st.freed:
                chk.refuse(w.st, 'deserialise:leak', e[4], 'this allocation is never released')


def hostile(chk):
    """sizes that do not belong to the data"""
    for x, y, f, n in ((65537, 2, G8, 2), (2, 65537, G8, 2), (65535, 65535, RGBA, 4), (32768, 32768, RGBA, 1), (4096, 32768, RGBA, 8), (0, 0, G8, 1), (1, 1, 0, 1), (1, 1, 10, 1), (1, 1, 255, 8),
                       (1 << 24, 1 << 8, G8, 1), (0, 5, RGBA, 1), (2, 1, RGBA, 7)):
        w = world(chk)
        data = [(x >> s) & 255 for s in (24, 16, 8, 0)] + [(y >> s) & 255 for s in (24, 16, 8, 0)] + [f, 0] + [7] * n
        d, _ = w.buf(len(data), 'data', values=data)
        p = w.image('init0')
        chk.count('hostile forms')
        r = w.im('deser', p, d, i(len(data)))
        chk.prove(w.st, t.ne(r, C(8, 0)), 'deserialise:hostile', CPP + ': deserialize', 'an image of %dx%d in format %d is read from %d bytes of pixels' % (x, y, f, n))
        memory(chk, w.st, 'deserialise:hostile')
    for n in range(11):
        w = world(chk)
        d, _ = w.buf(n, 'data')
        p = w.image('init0')
        for s, v in w.each('deser', p, d, i(n)):
            chk.prove(s, t.ne(v, C(8, 0)), 'deserialise:short', CPP + ': deserialize', 'an image is read from %d bytes' % n)
            memory(chk, s, 'deserialise:short')


# ---------------------------------------------------------------- drawing
def drawn(chk, x, y, call, *args, before=None):
    """pixels changed by a drawing call on a GREY_8 image of arbitrary contents"""
    w, p, b, bs = over(chk, x, y, G8)
    col = t.S(32, 'colour')
    w.im(call, p, *[h(a) for a in args], col)
    key = 'draw:' + call
    memory(chk, w.st, key)
    chk.count('shapes drawn')
    lk = w.im('locked', p)
    chk.prove(w.st, t.eq(lk, C(1, 0)), key + ':locked', CPP, 'the image stays locked after drawing')
    c8 = w.st.norm(t.trunc(col, 8))
    out = set()
    for k, v in enumerate(raw(w, w.st, b, x * y)):
        if v is c8:
            out.add((k % x, k // x))
        elif v is not bs[k]:
            chk.expect(False, key + ':colour', CPP, 'pixel (%d,%d) has another colour than the one drawn' % (k % x, k // x), w.st)
    return w, out


def shape(chk, x, y, call, args, want):
    w, got = drawn(chk, x, y, call, *args)
    want = {q for q in want if q[0] < x and q[1] < y}
    chk.expect(got == want, 'draw:' + call, CPP, '%s%s on %dx%d draws %s too many and %s too few' % (call, tuple(args), x, y, sorted(got - want)[:6], sorted(want - got)[:6]), w.st)


def straight(chk):
    for x0, y0, n in itertools.product((0, 1, 4), (0, 2, 3), (1, 2, 4, 9)):
        shape(chk, 6, 4, 'hline', (x0, y0, n), {(x0 + k, y0) for k in range(n)})
        shape(chk, 6, 4, 'vline', (x0, y0, n), {(x0, y0 + k) for k in range(n)})
    for x0, y0, a, c in itertools.product((0, 1, 4), (0, 2), (1, 2, 5), (1, 2, 3)):
        full = {(x0 + k, y0 + l) for k in range(a) for l in range(c)}
        shape(chk, 6, 4, 'frect', (x0, y0, a, c), full)
        shape(chk, 6, 4, 'rect', (x0, y0, a, c), {q for q in full if q[0] in (x0, x0 + a - 1) or q[1] in (y0, y0 + c - 1)})


def lines(chk, k):
    X, Y = 6, 5
    ends = [(a, c) for a in range(X) for c in range(Y)]
    for n, (p0, p1) in enumerate(itertools.product(ends, ends)):
        if n % 8 != k:
            continue
        w, got = drawn(chk, X, Y, 'line', *p0, *p1)
        steep = abs(p1[1] - p0[1]) > abs(p1[0] - p0[0])
        s = (lambda q: (q[1], q[0])) if steep else (lambda q: q)
        (a, b), (c, d) = sorted((s(p0), s(p1)))
        g = sorted(s(q) for q in got)
        ok = [q[0] for q in g] == list(range(a, c + 1)) and p0 in got and p1 in got
        dx, dy = max(c - a, 1), d - b
        ok = ok and all(2 * abs((q[1] - b) * dx - (q[0] - a) * dy) <= dx for q in g)
        chk.expect(ok, 'draw:line', CPP + ': drawLine', 'the line from %s to %s is %s, not the nearest pixel of each %s' % (p0, p1, sorted(got), 'row' if steep else 'column'), w.st)


def circles(chk):
    for r in range(0, 8):
        for cx, cy in ((8, 8), (8, 2), (15, 8)):
            w, got = drawn(chk, 17, 17, 'circle', cx, cy, r)
            inside = lambda q: 0 <= q[0] < 17 and 0 <= q[1] < 17
            for card in ((cx + r, cy), (cx - r, cy), (cx, cy + r), (cx, cy - r)):
                chk.expect(not inside(card) or card in got, 'draw:circle:extremes', CPP + ': drawCircle', 'the circle of radius %d around (%d,%d) misses %s' % (r, cx, cy, card), w.st)
            for a, c in got:
                d = (a - cx) ** 2 + (c - cy) ** 2
                chk.expect(r * r - r <= d <= r * r + r, 'draw:circle:radius', CPP + ': drawCircle', 'pixel (%d,%d) of the circle of radius %d around (%d,%d) is off it' % (a, c, r, cx, cy), w.st)
                for q in ((2 * cx - a, c), (a, 2 * cy - c), (cx + (c - cy), cy + (a - cx))):
                    chk.expect(not inside(q) or q in got, 'draw:circle:symmetry', CPP + ': drawCircle', 'the circle of radius %d around (%d,%d) has (%d,%d) and not %s' % (r, cx, cy, a, c, q), w.st)
        w, got = drawn(chk, 17, 17, 'disc', 8, 8, r)
        for a, c in itertools.product(range(17), range(17)):
            d = (a - 8) ** 2 + (c - 8) ** 2
            chk.expect((a, c) in got or d > r * r - r, 'draw:disc:hole', CPP + ': fillCircle', 'the disc of radius %d misses (%d,%d) from its centre' % (r, a - 8, c - 8), w.st)
            chk.expect((a, c) not in got or d <= r * r + r, 'draw:disc:radius', CPP + ': fillCircle', 'the disc of radius %d has (%d,%d) from its centre' % (r, a - 8, c - 8), w.st)


def fills(chk):
    for f in (G24, G16, G8, RGBA, R888, R565, R332):
        x, y = 3, 2
        w, p, b, bs = over(chk, x, y, f)
        col = t.S(32, 'colour')
        w.im('fill', p, col)
        for q in itertools.product(range(x), range(y)):
            chk.count('filled pixels')
            chk.prove(w.st, t.eq(w.im('get', p, h(q[0]), h(q[1])), squeeze(col, f)), 'fill:%s' % NAME[f], CPP + ': fill', 'pixel %s does not have the colour the image was filled with' % (q,))
        bounded(chk, w, 'fill:%s' % NAME[f])
    for v in (0, 1, 0x80000000):
        w, p, b, bs = over(chk, 3, 8, MONO)
        w.im('fill', p, i(v))
        for q in itertools.product(range(3), range(8)):
            chk.prove(w.st, t.eq(w.im('get', p, h(q[0]), h(q[1])), i(0xffffffff if v else 0)), 'fill:MONOCHROME', CPP + ': fill', 'pixel %s does not have the colour the image was filled with' % (q,))
        bounded(chk, w, 'fill:MONOCHROME')
    for x0, y0, a, c in ((0, 0, 2, 2), (1, 1, 3, 2), (2, 1, 1, 3), (3, 2, 4, 4), (0, 0, 0, 3)):
        w, p, b, bs = over(chk, 4, 3, G8)
        m, ms = w.buf(a * c, 'bitmap')
        w.im('bitmap', p, h(x0), h(y0), m, h(a), h(c))
        for k, v in enumerate(raw(w, w.st, b, 12)):
            q = (k % 4 - x0, k // 4 - y0)
            chk.prove(w.st, t.eq(v, ms[q[1] * a + q[0]] if 0 <= q[0] < a and 0 <= q[1] < c else bs[k]), 'draw:bitmap', CPP + ': drawBitmap', 'pixel (%d,%d) is not that of the bitmap, or of the image beside it' % (k % 4, k // 4))
        bounded(chk, w, 'draw:bitmap')


def run(chk):
    jobs = []
    for f in (G24, G16, G8, RGBA, R888, R565, R332):
        for x, y in ((3, 2), (1, 4), (2, 2)):
            jobs.append(('pixels:%s' % NAME[f], pixels, f, x, y))
    for x, y in ((2, 8), (1, 16)):
        jobs.append(('pixels:MONOCHROME', pixels, MONO, x, y))
    for f in (R888, R565, R332, MONO):
        jobs.append(('rgb:%s' % NAME[f], rgb, f, 2, 8 if f == MONO else 2))
    for f in (MONO, G24, G16, G8, RGBA, R888, R565, R332):
        jobs.append(('outside:%s' % NAME[f], outside, f))
    for f in range(1, 10):
        for x, y in ((1, 1), (3, 2), (1, 3), (260, 1)):
            if need(x, y, f) <= 270:
                jobs.append(('serialise:%s' % NAME[f], serial, f, x, y))
    for start in ((0, 0, 0), (2, 1, G8), (1, 2, R565), (3, 1, MONO)):
        jobs.append(('buffers', buffers, False, start, 3))
        jobs.append(('buffers', buffers, True, start, 2))
    jobs += [('lines', lines, k) for k in range(8)] + [('straight', straight), ('circles', circles), ('fills', fills), ('hostile', hostile)]
    jobs.sort(key=lambda j: j[0] != 'buffers')

    def work(k):
        for n in range(k, len(jobs), 8):
            j = jobs[n]
            chk.group(j[0], j[1], chk, *j[2:])
    chk.fork(8, work)
    chk.rule = ('image calls interpreted over arbitrary pixel contents: write-then-read and locality at every address and orientation, addresses outside, buffer ownership over all short histories, '
                'serialised form against its definition and reading it back, drawn shapes against their geometry')
