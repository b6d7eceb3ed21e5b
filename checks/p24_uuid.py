"""The UUID functions are interpreted: text of every identifier with one arbitrary byte at each place, reading of texts
with one arbitrary character at each place, short, long and mixed texts, comparison and copy of arbitrary identifiers,
and generation from arbitrary random words."""
from balib import *

LEVEL = 'other'
ASSUME = ['texts differ from a base text in one arbitrary character, or are among a list of short, long and mixed ones', 'texts hold at most sixty characters']
SRC = 'src/uuid.cpp'
BASE = [0x01, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef, 0xfe, 0xdc, 0xba, 0x98, 0x76, 0x54, 0x32, 0x10]
HEX = '0123456789abcdef'


def i(n):
    return C(32, n & 0xffffffff)


def text(bs):
    s = ''.join('%02x' % b for b in bs)
    return '-'.join((s[:8], s[8:12], s[12:16], s[16:20], s[20:]))


class UW(BW):
    def each(self, name, *args):
        self.I.steps = 0
        return self.chk.run(self.I, self.chk.M.funcs['c3pv_uu_' + name], self.st, list(args))

    def uuid(self, values, name='uuid'):
        r = self.I.new_region(self.st, 'lazy', name, size=i(16))
        for k, v in enumerate(values):
            self.I.store(self.st, P(r, i(k)), v if isinstance(v, T) else C(8, v), 'i8')
        return P(r)

    def text(self, chars):
        r = self.I.new_region(self.st, 'lazy', 'text', size=i(len(chars) + 1))
        for k, v in enumerate(list(chars) + [0]):
            self.I.store(self.st, P(r, i(k)), v if isinstance(v, T) else C(8, v), 'i8')
        return P(r)


def world(chk):
    return UW(chk, binterp(chk))


def raw(w, st, p, n):
    return [st.norm(w.I.load(st, P(p.r, i(k)), 'i8')) for k in range(n)]


def nib(st, n):
    """[(state, digit)] of the digit for a nibble term"""
    out = []
    for low in (True, False):
        for s in st.copy().assume(t.ult(n, C(8, 10)), low):
            if not s.dead() and not s.empty():
                out.append((s, t.add(n, C(8, 48 if low else 87))))
    return out


def writes(chk, k):
    """byte k is arbitrary"""
    b = t.S(8, 'byte')
    hi, lo = t.lshr(b, C(8, 4)), t.and_(b, C(8, 15))
    at = k * 2 + sum(1 for x in (4, 6, 8, 10) if k >= x)
    for size in (37, 40, 0, 36, -1):
        w = world(chk)
        u = w.uuid([b if j == k else v for j, v in enumerate(BASE)])
        buf, bs = w.buf(max(size, 0), 'out')
        for s, _ in w.each('str', u, buf, i(size)):
            chk.count('texts written')
            memory(chk, s, 'to text')
            got = raw(w, s, buf, max(size, 0))
            if size < 37:
                same(chk, s, got, bs, 'to text:small', SRC + ': uuid_to_str', 'a buffer of %d bytes' % size)
                continue
            want = [C(8, ord(c)) for c in text(BASE)] + [C(8, 0)]
            for s1, dh in nib(s, hi):
                for s2, dl in nib(s1, lo):
                    want[at], want[at + 1] = dh, dl
                    same(chk, s2, got[:37], want, 'to text', SRC + ': uuid_to_str', 'byte %d is arbitrary' % k)
                    same(chk, s2, got[37:], bs[37:], 'to text:beyond', SRC + ': uuid_to_str', 'the bytes after the text')
    w = world(chk)
    u = w.uuid(BASE[k:] + BASE[:k])
    sb, fr = w.sb((2,))
    for s, _ in w.each('sb', u, sb):
        content(chk, w.I, s, sb, flat(fr) + [C(8, ord(c)) for c in text(BASE[k:] + BASE[:k])], 'to StringBuilder', 'the text of an identifier', where=SRC + ': uuid_to_sb')
        memory(chk, s, 'to StringBuilder')


def meaning(chars, old):
    """the identifier a text gives: pairs of hex digits in order, everything else skipped, sixteen bytes at most"""
    d = [HEX.index(chr(c).lower()) for c in chars if chr(c).lower() in HEX]
    out = list(old)
    for j in range(min(len(d) // 2, 16)):
        out[j] = C(8, d[2 * j] * 16 + d[2 * j + 1])
    return out


def parse(chk, base, at):
    """character `at` of the base text is arbitrary"""
    w = world(chk)
    ch = t.S(8, 'char', 1)
    chars = [ord(c) for c in base]
    old = [t.S(8, 'old%d' % j) for j in range(16)]
    u = w.uuid(old)
    s0 = w.text(chars[:at] + [ch] + chars[at + 1:])
    seen = set()
    for s, _ in w.each('from', s0, u):
        chk.count('classes of characters')
        memory(chk, s, 'from text')
        got = raw(w, s, u, 16)
        for v in range(1, 256):
            if v in seen:
                continue
            l = [x for x in s.copy().assume(t.eq(ch, C(8, v)), True) if not x.dead() and not x.empty()]
            if not l:
                continue
            seen.add(v)
            chk.count('texts read')
            c2 = chars[:at] + [v] + chars[at + 1:]
            same(chk, l[0], [l[0].norm(g) for g in got], meaning(c2, old), 'from text', SRC + ': uuid_from_str', 'character %d of "%s" is %d' % (at, base, v))
    chk.expect(len(seen) == 255, 'from text:total', SRC + ': uuid_from_str', 'no result for some characters at %d' % at, w.st)


def texts(chk):
    t0 = text(BASE)
    flat_ = t0.replace('-', '')
    for s in ([t0[:k] for k in range(37)] + [t0.upper(), flat_, flat_.upper(), '{' + t0 + '}', 'urn:' + t0, t0 + '0', t0 + 'ff', flat_ + flat_[:20], ' '.join(flat_), ':'.join(flat_[k:k + 2] for k in range(0, 32, 2)),
                                                 'xyz', '0x1', '--------', 'g' * 50, '@`G/' + t0]):
        w = world(chk)
        old = [t.S(8, 'old%d' % j) for j in range(16)]
        u = w.uuid(old)
        if len(s) > 63:
            s = s[:63]
        for st, _ in w.each('from', w.text([ord(c) for c in s]), u):
            chk.count('texts read')
            memory(chk, st, 'from text')
            same(chk, st, raw(w, st, u, 16), meaning([ord(c) for c in s], old), 'from text', SRC + ': uuid_from_str', 'the text "%s"' % s)


def others(chk):
    a, b = [t.S(8, 'a%d' % k) for k in range(16)], [t.S(8, 'b%d' % k) for k in range(16)]
    w = world(chk)
    ua, ub = w.uuid(a, 'a'), w.uuid(b, 'b')
    for s, r in w.each('cmp', ua, ub):
        memory(chk, s, 'compare')
        alike = C(1, 1)
        for x, y in zip(a, b):
            alike = t.and_(alike, s.norm(t.eq(x, y)))
        for zero in (True, False):
            for s1 in s.copy().assume(t.eq(r, i(0)), zero):
                if s1.dead() or s1.empty():
                    continue
                chk.count('comparisons')
                if zero:
                    same(chk, s1, a, b, 'compare:equal', SRC + ': uuid_compare', 'identifiers compared as equal')
                else:
                    chk.prove(s1, t.not_(s1.norm(alike)), 'compare:different', SRC + ': uuid_compare', 'identifiers with the same bytes compare as different')
        same(chk, s, raw(w, s, ua, 16) + raw(w, s, ub, 16), a + b, 'compare:unchanged', SRC + ': uuid_compare', 'identifiers compared')
    w = world(chk)
    ua, ub = w.uuid(a, 'a'), w.uuid(b, 'b')
    for s, _ in w.each('copy', ua, ub):
        memory(chk, s, 'copy')
        same(chk, s, raw(w, s, ua, 16) + raw(w, s, ub, 16), a + a, 'copy', SRC + ': uuid_copy', 'identifiers copied')
    w = world(chk)
    ub = w.uuid(b, 'b')
    drawn = []
    def rnd(I, st, a_, o, fn):
        v = t.S(32, 'random%d' % len(drawn))
        drawn.append(v)
        return [(st, v)]
    w.I.cfg.models['_Z12randomUInt32v'] = rnd
    for s, _ in w.each('gen', ub):
        memory(chk, s, 'generate')
        got = raw(w, s, ub, 16)
        chk.prove(s, t.eq(t.and_(got[6], C(8, 0xf0)), C(8, 0x40)), 'generate:version', SRC + ': uuid_gen', 'a generated identifier is not marked as random (version 4)')
        chk.prove(s, t.eq(t.and_(got[8], C(8, 0xc0)), C(8, 0x80)), 'generate:variant', SRC + ': uuid_gen', 'a generated identifier does not have the variant of RFC 4122')
        if len(drawn) == 4:
            for k in range(16):
                m = C(8, {6: 0x0f, 8: 0x3f}.get(k, 0xff))
                hits = [v for v in drawn for j in range(4) if s.norm(t.and_(t.trunc(t.lshr(v, i(8 * j)), 8), m)) is s.norm(t.and_(got[k], m))]
                chk.expect(hits, 'generate:random', SRC + ': uuid_gen', 'byte %d of a generated identifier is not random' % k, s)
            for v in drawn:
                pass
        else:
            chk.undec('generate:random', '%d random words are drawn' % len(drawn))


def run(chk):
    t0 = text(BASE)
    jobs = [('texts', texts), ('others', others)] + [('writes', writes, k) for k in range(16)] + [('parse', parse, t0, k) for k in range(36)] + [('parse', parse, t0.replace('-', ''), k) for k in (0, 15, 30, 31)]

    def work(k):
        for n in range(k, len(jobs), 8):
            j = jobs[n]
            chk.group(j[0], j[1], chk, *j[2:])
    chk.fork(8, work)
    chk.rule = 'UUID functions interpreted: text against its definition byte by byte, reading against the sequence of hex digits, comparison, copy and generation on arbitrary bytes'
