"""M2MMsgHdr and M2MMsg are interpreted with arbitrary field values, arbitrary header bytes and every chunking of
short payloads, and compared with the wire format of M2MLink/README.md restated here: code, flags, length and ID as
minimal big-endian fields whose sizes are in the flags, and an 8-bit checksum over flags, length, code and 1."""
from balib import *

LEVEL = 'other'
ASSUME = ['allocations succeed', 'payloads of up to four bytes; header fields and bytes are arbitrary', 'a random message ID is not zero',
          'KeyValuePair::serialize() appends the payload or fails, and KeyValuePair::unserialize() reads exactly the bytes given']
HDR = 'src/M2MLink/M2MMsgHdr.cpp'
MSG = 'src/M2MLink/M2MMsg.cpp'
EXPECT, REPLY, SYNC = 1, 2, 1
CODES = [c for c in range(256) if 1 <= c <= 9 or c == 0x0E or c == 0x0F or 0x10 <= c <= 0x1F]
UNDEF, RX, TX = 0, 1, 2


def i(n):
    return C(32, n & 0xffffffff)


def classes(x):
    """x as (bytes needed, condition)"""
    return [(0, [t.eq(x, i(0))]), (1, [t.ult(i(0), x), t.ule(x, i(0xff))]), (2, [t.ult(i(0xff), x), t.ule(x, i(0xffff))]),
            (3, [t.ult(i(0xffff), x), t.ule(x, i(0xffffff))]), (4, [t.ult(i(0xffffff), x)])]


def given(st, conds):
    l = [st]
    for c in conds:
        l = [s for x in l for s in x.assume(c, True) if not s.dead()]
    if len(l) > 1:
        raise Unsupported('a precondition splits')
    return l[0] if l else None


def sum8(flags, ln, code):
    return t.add(t.add(t.add(flags, t.trunc(ln, 8)), code), C(8, 1))


def bigend(x, n):
    return [t.extract(x, 8 * (n - 1 - k), 8) for k in range(n)]


def get(chk, I, st, p, what):
    l = chk.run(I, chk.M.funcs['c3pv_mh_' + what], st, [p])
    if len(l) != 1:
        raise Unsupported('reading %s splits' % what)
    return l[0]


def fields(chk, I, st, p, want, key, where, detail):
    for what, w in want.items():
        st, v = get(chk, I, st, p, what)
        chk.prove(st, t.eq(v, w), '%s:%s' % (key, what), where, '%s (%s)' % (detail, what))
    return st


def world(chk, env=False):
    I = binterp(chk)
    I.cfg.models['C3PValue::C3PValue'] = lambda I, st, a, o, fn: [(st, None)]
    I.cfg.models['_Z12randomUInt32v'] = lambda I, st, a, o, fn: (st.emit(('random',)), [(st, t.S(32, 'random'))])[1]
    def ser(I, st, a, o, fn):
        st.emit(('ser', st.norm(a[2])))
        out = []
        st, ok = env.plan(st)
        if env.bytes:
            r = I.new_region(st, 'lazy', 'kvp bytes', size=i(len(env.bytes)))
            for k, b in enumerate(env.bytes):
                I.store(st, P(r, i(k)), b, 'i8')
            l = I.call(I.mod.funcs['c3pv_sb_concat'], st, [a[1], P(r), i(len(env.bytes))])
        else:
            l = [(st, None)]
        return [(s, C(32 if fn is None else 8, 0 if ok else 255)) for s, _ in l]
    def unser(I, st, a, o, fn):
        n = st.norm(a[1])
        if not isc(n) or cv(n) > 100:
            raise Unsupported('unserialize: open length')
        p = I.res(st, a[0])
        bs = tuple(st.norm(I.load(st, P(p.r, t.addc(p.o, k)), 'i8', o, fn)) for k in range(cv(n))) if p.r is not None else ()
        st.emit(('unser', bs, cv(n), st.norm(a[2])))
        return [(st, NULL)]
    if env:
        I.cfg.models['c3pv_kvp_ser'] = ser
        I.cfg.models['KeyValuePair::unserialize'] = unser
    return I


class Env:
    def __init__(self, bytes=(), ok=True):
        self.bytes, self.ok = list(bytes), ok

    def plan(self, st):
        return st, self.ok


def only(l):
    if len(l) > 1:
        l = [x for x in l if not x[0].dead() and not x[0].empty()]
    if len(l) != 1:
        raise Unsupported('%d outcomes' % len(l))
    return l[0]


def hdr(chk, I, st):
    p = P(I.new_region(st, 'lazy', 'header', size=i(32)))
    st, _ = only(chk.run(I, chk.M.funcs['c3pv_mh_init'], st, [p]))
    return st, p


def setup(chk, I, flags, code=None, ln=None, ident=None, k=None):
    st = State()
    st, p = hdr(chk, I, st)
    st, _ = only(chk.run(I, chk.M.funcs['c3pv_mh_set'], st, [p, code, flags, k, ln, ident]))
    return st, p


# construction

def make(chk, expects, sync):
    for zero in (True, False):
        for cls in range(1 if zero else 4):
            key = 'make expects=%d sync=%d id bytes=%s' % (expects, sync, '-' if zero else cls)
            I = world(chk)
            code, n, rest, ident = t.S(8, 'code'), t.S(8, 'payload'), t.S(8, 'flags'), t.S(32, 'id')
            f = t.or_(t.and_(rest, C(8, 0xFE)), C(8, expects))
            st = given(State(), [t.eq(code, C(8, SYNC))] if sync else [t.ne(code, C(8, SYNC))])
            if zero:
                ident = i(0)
            else:
                st = given(st, [t.ne(ident, i(0))] + classes(t.and_(ident, i(0xffffff)))[cls][1])
            auto = zero and expects and not sync
            subs = range(1, 4) if auto else [cls]
            for sc in subs:
                s0 = st.copy()
                want_id = t.and_(ident, i(0xffffff))
                if auto:
                    want_id = t.and_(t.S(32, 'random'), i(0xffffff))
                    s0 = given(s0, classes(want_id)[sc][1])
                p = P(I.new_region(s0, 'lazy', 'header', size=i(32)))
                for s1, _ in chk.run(I, chk.M.funcs['c3pv_mh_make'], s0, [p, code, n, f, ident]):
                    memory(chk, s1, key)
                    chk.count('headers made')
                    chk.expect(len([e for e in s1.events() if e[0] == 'random']) == (1 if auto else 0), key + ':random', HDR, 'an ID is drawn when none is needed, or not drawn when one is', s1)
                    total = t.addc(t.zext(n, 32), 4 + sc)
                    for lb, cond in ((1, t.ule(total, i(255))), (2, t.ult(i(255), total))):
                        s2 = given(s1.copy(), [cond])
                        if s2 is None:
                            continue
                        fl = t.or_(t.and_(f, C(8, 3)), C(8, lb << 4 | sc << 6))
                        ln = t.addc(total, lb - 1)
                        s2 = fields(chk, I, s2, p, {'code': code, 'flags': fl, 'len': ln, 'id': want_id, 'chk': sum8(fl, ln, code),
                                                    'hlen': i(3 + lb + sc), 'plen': t.zext(n, 32), 'tlen': ln}, key + ' len bytes=%d' % lb, HDR, 'a header made for a message has the wrong field')


def setlen(chk, flags):
    """set_payload_length() on a header with these flags"""
    idb = flags >> 6
    I = world(chk)
    code, n = t.S(8, 'code'), t.S(32, 'payload')
    base = 4 + idb
    lim = 0xFFFFFD - base
    parts = [('1', t.ule(n, i(255 - base)), [], 1), ('2', t.ule(n, i(0xfffe - base)), [t.ult(i(255 - base), n)], 2),
             ('3', t.ule(n, i(lim)), [t.ult(i(0xfffe - base), n)], 3), ('too long', t.ult(i(lim), n), [], 0)]
    for name, c, more, lb in parts:
        key = 'set_payload_length flags=%02x %s' % (flags, name)
        old = (t.S(8, 'oldchk'), t.S(32, 'oldlen'), t.S(32, 'oldid'))
        st, p = setup(chk, I, C(8, flags), code, old[1], old[2], old[0])
        st = given(st, [c] + more)
        for s, v in chk.run(I, chk.M.funcs['c3pv_mh_setpl'], st, [p, n]):
            memory(chk, s, key)
            chk.count('lengths set')
            chk.prove(s, t.eq(v, C(1, 1 if lb else 0)), key + ':return', HDR, 'a payload length is not accepted exactly when the header can express it')
            if lb:
                fl = C(8, flags & 0xCF | lb << 4)
                ln = t.addc(n, base + lb - 1)
                want = {'code': code, 'flags': fl, 'len': ln, 'id': old[2], 'chk': sum8(fl, ln, code), 'plen': n, 'hlen': i(3 + lb + idb)}
            else:
                want = {'code': code, 'flags': C(8, flags), 'len': old[1], 'id': old[2], 'chk': old[0]}
            fields(chk, I, s, p, want, key, HDR, 'setting the payload length leaves the wrong field')


# validity, and rendering

def valid(chk, flags):
    lb, idb = flags >> 4 & 3, flags >> 6
    I = world(chk)
    for lc in range(5):
        for ic in range(5):
            for codes, cname in (([C(8, c) for c in CODES], 'known'), ([t.S(8, 'code')], 'any')):
                if cname == 'known' and (lc != lb or ic != idb or lb == 0):
                    continue
                for code in codes:
                    key = 'valid flags=%02x len=%d id=%d code=%s' % (flags, lc, ic, code if isc(code) else 'other')
                    ln, ident, k = t.S(32, 'len'), t.S(32, 'id'), t.S(8, 'chk')
                    st, p = setup(chk, I, C(8, flags), code, ln, ident, k)
                    st = given(st, classes(ln)[lc][1] + classes(ident)[ic][1])
                    if not isc(code):
                        if lc == lb and ic == idb:
                            st = given(st, [t.ne(code, C(8, c)) for c in CODES])
                    ok = isc(code) and not flags & 0xC and (cv(code) == SYNC or bool(flags & 3) == bool(idb))
                    right = t.eq(k, sum8(C(8, flags), ln, code))
                    for s, v in chk.run(I, chk.M.funcs['c3pv_mh_valid'], st, [p]):
                        memory(chk, s, key)
                        chk.count('headers judged')
                        for what, want, conds in (('sound', ok, [(right, True), (t.ule(i(4), ln), True)]), ('checksum', False, [(right, False)]),
                                                  ('short', False, [(t.ult(ln, i(4)), True)])):
                            l = [s.copy()]
                            for c, b in conds:
                                l = [y for x in l for y in x.assume(c, b) if not y.dead()]
                            for s2 in l:
                                if not s2.empty():
                                    chk.prove(s2, t.eq(v, C(1, 1 if want else 0)), '%s:%s' % (key, what), HDR, 'a header is not held valid exactly when it is: %s' % what)
                    if not ok or lc != lb or ic != idb:
                        continue
                    # a valid header: rendered exactly; sync exactly when it is
                    st, p = setup(chk, I, C(8, flags), code, ln, ident, sum8(C(8, flags), ln, code))
                    st = given(st, classes(ln)[lc][1] + classes(ident)[ic][1] + [t.ule(i(4), ln)])
                    w = BW(chk, I)
                    w.st = st
                    old = [t.S(8, 'before')]
                    sb = w.given((1,), old)
                    for s, v in chk.run(I, chk.M.funcs['c3pv_mh_ser'], w.st.copy(), [p, sb]):
                        chk.prove(s, t.eq(v, C(1, 1)), key + ':render', HDR, 'a valid header is not rendered')
                        memory(chk, s, key)
                        content(chk, I, s, sb, old + [code, C(8, flags)] + bigend(ln, lb) + bigend(ident, idb) + [sum8(C(8, flags), ln, code)], key + ':rendered', 'a header is rendered wrongly', where=HDR)
                    for s, v in chk.run(I, chk.M.funcs['c3pv_mh_sync'], w.st, [p]):
                        for c, b in ((t.eq(ln, i(4)), True), (t.eq(ln, i(4)), False)):
                            for s2 in s.copy().assume(c, b):
                                if not s2.dead() and not s2.empty():
                                    chk.prove(s2, t.eq(v, C(1, 1 if b and cv(code) == SYNC and flags & 0xFC == 0x10 else 0)), key + ':sync', HDR, 'a header is not taken for a sync exactly when it is one')
    # an invalid one renders nothing
    st, p = setup(chk, I, C(8, flags), t.S(8, 'code'), t.S(32, 'len'), t.S(32, 'id'), t.S(8, 'chk'))
    st = given(st, [t.ne(t.S(8, 'chk'), sum8(C(8, flags), t.S(32, 'len'), t.S(8, 'code')))])
    w = BW(chk, I)
    w.st = st
    sb = w.given((), [])
    for s, v in chk.run(I, chk.M.funcs['c3pv_mh_ser'], w.st, [p, sb]):
        chk.prove(s, t.eq(v, C(1, 0)), 'invalid header %02x:render' % flags, HDR, 'an invalid header is rendered')
        content(chk, I, s, sb, [], 'invalid header %02x:rendered' % flags, 'an invalid header is rendered', where=HDR)


def bits(chk):
    I = world(chk)
    f = t.S(8, 'flags')
    a = [t.S(8, 'code'), f, t.S(8, 'chk'), t.S(32, 'len'), t.S(32, 'id')]
    def fresh():
        st, p = hdr(chk, I, State())
        st, _ = only(chk.run(I, chk.M.funcs['c3pv_mh_set'], st, [p] + a))
        return st, p
    for name, bit in (('reply', 1), ('expects', 0)):
        st, p = fresh()
        for s, v in chk.run(I, chk.M.funcs['c3pv_mh_' + name], st, [p]):
            chk.prove(s, t.eq(v, t.extract(f, bit, 1)), 'bits:%s' % name, HDR, 'a flag is reported wrongly')
        for x in (0, 1):
            st, p = fresh()
            for s, _ in chk.run(I, chk.M.funcs['c3pv_mh_set' + name], st, [p, C(1, x)]):
                fields(chk, I, s, p, {'code': a[0], 'flags': t.or_(t.and_(f, C(8, 255 - (1 << bit))), C(8, x << bit)), 'chk': a[2], 'len': a[3], 'id': a[4]}, 'bits:set %s %d' % (name, x), HDR, 'setting a flag changes something else')
    st, p = fresh()
    for s, _ in chk.run(I, chk.M.funcs['c3pv_mh_wipe'], st, [p]):
        fields(chk, I, s, p, {'code': C(8, 0), 'flags': C(8, 0), 'chk': C(8, 0), 'len': i(0), 'id': i(0)}, 'bits:wipe', HDR, 'a wiped header is not blank')
    st, p = fresh()
    q = P(I.new_region(st, 'lazy', 'copy', size=i(32)))
    for s, _ in chk.run(I, chk.M.funcs['c3pv_mh_copy'], st, [q, p]):
        fields(chk, I, s, q, {'code': a[0], 'flags': a[1], 'chk': a[2], 'len': a[3], 'id': a[4]}, 'bits:copy', HDR, 'a copied header differs')
    for c in range(256):
        for s, v in chk.run(I, chk.M.funcs['c3pv_m2m_codevalid'], State(), [C(8, c)]):
            chk.prove(s, t.eq(v, C(1, 1 if c in CODES else 0)), 'code %d' % c, 'src/M2MLink/M2MLink.cpp', 'a message code is not held valid exactly when it is')


# recognising a header in bytes

def parse(chk, flags):
    lb, idb = flags >> 4 & 3, flags >> 6
    hl = 3 + lb + idb if lb else 0
    for n in range(0, 12):
        for lay in ([(n,)] if n else [()]) + ([(1, n - 1)] if n > 1 and flags % 5 == 0 else []) + ([(3, 1, n - 4)] if n > 4 and flags % 7 == 0 else []):
            key = 'parse flags=%02x of %d bytes %s' % (flags, n, lay)
            I = world(chk)
            w = BW(chk, I)
            bs = [t.S(8, 'b%d' % k) for k in range(n)]
            if n > 1:
                bs[1] = C(8, flags)
            sb = w.given(lay, bs)
            st, p = hdr(chk, I, w.st)
            chk.count('byte strings parsed')
            if n < 4:
                cases = [('short', [], -2)]
            elif not lb:
                cases = [('no length', [], -3)]
            elif n < hl:
                cases = [('short', [], -2)]
            else:
                ln = t.zext(t.concat(bs[2:2 + lb][::-1]) if lb > 1 else bs[2], 32)
                ident = i(0) if not idb else t.zext(t.concat(bs[2 + lb:2 + lb + idb][::-1]) if idb > 1 else bs[2 + lb], 32)
                right = t.eq(bs[hl - 1], sum8(C(8, flags), ln, bs[0]))
                fits = t.ule(i(hl), ln)
                cases = [('checksum', [(right, False)], -3), ('length', [(fits, False)], -3),
                         ('bare', [(right, True), (t.eq(ln, i(hl)), True)], 1),
                         ('partial', [(right, True), (t.ult(i(max(hl, n)), ln), True)], 0),
                         ('whole', [(right, True), (t.ult(i(hl), ln), True), (t.ule(ln, i(n)), True)], 2)]
            for s, v in chk.run(I, chk.M.funcs['c3pv_mh_parse'], st, [p, sb]):
                memory(chk, s, key)
                for name, conds, want in cases:
                    l = [s.copy()]
                    for c, b in conds:
                        l = [y for x in l for y in x.assume(c, b) if not y.dead()]
                    for s2 in l:
                        if s2.empty():
                            continue
                        chk.prove(s2, t.eq(v, C(8, want & 255)), '%s:%s' % (key, name), MSG, 'bytes are not recognised as what they are: %s' % name)
                        if want >= 0:
                            s2 = fields(chk, I, s2, p, {'code': bs[0], 'flags': C(8, flags), 'len': ln, 'id': ident, 'chk': bs[hl - 1]}, '%s:%s' % (key, name), MSG, 'a header is read wrongly')
                content(chk, I, s, sb, bs, key + ':bytes', 'looking for a header changes the buffer', where=MSG)


# messages

def incoming(chk, n, chunks, enc):
    """an inbound message of n payload bytes fed these chunks"""
    key = 'inbound payload of %d in chunks %s' % (n, chunks)
    env = Env()
    I = world(chk, env)
    st, h = hdr(chk, I, State())
    code, k, ident = t.S(8, 'code'), t.S(8, 'chk'), t.S(32, 'id')
    st, _ = only(chk.run(I, chk.M.funcs['c3pv_mh_set'], st, [h, code, C(8, 0x10), k, i(4 + n), ident]))
    w = BW(chk, I)
    w.st = st
    m = w.obj('message', 'mm_init', h, C(8, RX), size=96)
    st, e = only(chk.run(I, chk.M.funcs['c3pv_mm_enc'], w.st, [m, C(8, enc)]))
    have, seen, whole = 0, [], 0
    stream = [t.S(8, 'x%d' % j) for j in range(sum(sum(c) for c in chunks))]
    sbs = []
    for j, lay in enumerate(chunks):
        k2 = '%s, chunk %d' % (key, j)
        c = sum(lay)
        new = stream[len(seen):len(seen) + c]
        seen += new
        w.st = st
        sb = w.given(lay, new)
        sbs.append(sb)
        w.st.log = None
        take = min(c, n - have)
        I.steps = 0
        l = chk.run(I, chk.M.funcs['c3pv_mm_acc'], w.st, [m, sb])
        if len(l) != 1:
            raise Unsupported('%s splits' % k2)
        st, v = l[0]
        chk.count('chunks')
        memory(chk, st, k2)
        payload = (payload if j else []) + new[:take]
        have += take
        done = have == n
        chk.prove(st, t.eq(v, i(1 if done else 0)), k2 + ':return', MSG, 'completeness is not reported as it is')
        ev = [e for e in st.events() if e[0] == 'unser']
        chk.expect(len(ev) == (1 if done else 0), k2 + ':unpacked', MSG, 'the payload is not unpacked exactly when it is complete', st)
        for e in ev:
            same(chk, st, list(e[1]), payload, k2 + ':payload', where=MSG, detail='the payload unpacked is not the one that arrived')
            chk.prove(st, t.eq(e[3], C(8, enc)), k2 + ':encoding', MSG, 'the payload is unpacked with another encoding')
        st = content(chk, I, st, sb, new[take:], k2 + ':rest', 'more or less than the payload is taken from the buffer', where=MSG)
        st, v = only(chk.run(I, chk.M.funcs['c3pv_mm_complete'], st, [m]))
        chk.prove(st, t.eq(v, C(1, 1 if done else 0)), k2 + ':complete', MSG, 'completeness is not reported as it is')
    for what, want in (('id', ident), ('code', code), ('dir', C(8, RX))):
        st, v = only(chk.run(I, chk.M.funcs['c3pv_mm_' + what], st, [m]))
        chk.prove(st, t.eq(v, want), key + ':' + what, MSG, 'the message differs from its header')
    st, v = only(chk.run(I, chk.M.funcs['c3pv_mm_setpl'], st, [m, NULL]))
    chk.prove(st, t.eq(v, i(-1)), key + ':inbound', MSG, 'the payload of an inbound message can be changed')
    st, _ = only(chk.run(I, chk.M.funcs['c3pv_mm_end'], st, [m]))
    released(chk, I, st, sbs, key)


def frame(code, flags, ident, idb, payload):
    lb = 1
    ln = 4 + idb + len(payload)
    fl = flags & 3 | lb << 4 | idb << 6
    return [C(8, code), C(8, fl), C(8, ln)] + bigend(ident, idb) + [C(8, (fl + ln + code + 1) & 255)] + list(payload)


def outgoing(chk, code, flags, idb, n, ok, null, op):
    """setPayload() then serialize(), on a message with this header"""
    key = 'outbound code=%d flags=%d id=%d payload=%s%s' % (code, flags, idb, 'none' if null else n, '' if ok else ' that cannot be packed')
    payload = [] if null else [t.S(8, 'p%d' % k) for k in range(n)]
    env = Env(payload, ok)
    I = world(chk, env)
    st, h = hdr(chk, I, State())
    ident = t.S(32, 'id') if idb else i(0)
    st = given(st, classes(ident)[idb][1])
    l = chk.run(I, chk.M.funcs['c3pv_mh_set'], st, [h, C(8, code), C(8, flags | 0x10 | idb << 6), t.S(8, 'k'), i(4 + idb), ident])
    st, _ = only(l)
    w = BW(chk, I)
    w.st = st
    m = w.obj('message', 'mm_init', h, C(8, op), size=96)
    kvp = NULL if null else w.obj('kvp', 'kvp_init', size=64)
    st, _ = only(chk.run(I, chk.M.funcs['c3pv_mm_enc'], w.st, [m, C(8, 0x62)]))
    good = code in CODES and (code == SYNC or bool(flags & 3) == (idb > 0))
    l = chk.run(I, chk.M.funcs['c3pv_mm_setpl'], st, [m, kvp])
    for st, v in l:
        memory(chk, st, key)
        chk.count('messages packed')
        sent = good and (ok or null)
        chk.prove(st, t.eq(v, i(0)) if sent else t.ne(v, i(0)), key + ':return', MSG, 'setting the payload does not succeed exactly when the message can be packed')
        w.st = st
        out = w.given((1,), [C(8, 7)])
        st, d = only(chk.run(I, chk.M.funcs['c3pv_mm_dir'], w.st, [m]))
        chk.prove(st, t.eq(d, C(8, TX)), key + ':direction', MSG, 'the message is not outbound')
        if not sent:
            continue
        for again in range(2):
            st, v = only(chk.run(I, chk.M.funcs['c3pv_mm_ser'], st, [m, out]))
            chk.prove(st, t.eq(v, i(0)), key + ':send', MSG, 'a packed message is not rendered')
            memory(chk, st, key)
            want = [C(8, 7)] + frame(code, flags, ident, idb, payload) * (again + 1)
            st = content(chk, I, st, out, want, key + ':sent %d' % again, 'the bytes sent are not the header followed by the payload', where=MSG)
        # a second payload replaces the first
        env.bytes = env.bytes[:1]
        st, v = only(chk.run(I, chk.M.funcs['c3pv_mm_setpl'], st, [m, kvp]))
        w.st = st
        out2 = w.given((), [])
        st, v = only(chk.run(I, chk.M.funcs['c3pv_mm_ser'], w.st, [m, out2]))
        st = content(chk, I, st, out2, frame(code, flags, ident, idb, payload[:1]), key + ':replaced', 'a second payload does not replace the first', where=MSG)
        env.bytes = payload
        st, _ = only(chk.run(I, chk.M.funcs['c3pv_mm_end'], st, [m]))
        released(chk, I, st, [out, out2], key)


def answer(chk, code, idb, n, op, expect, null):
    """reply() to a message that came with this ID"""
    key = 'reply to code=%d id=%d dir=%d expecting=%d payload=%s' % (code, idb, op, expect, 'none' if null else n)
    payload = [] if null else [t.S(8, 'p%d' % k) for k in range(n)]
    env = Env(payload)
    I = world(chk, env)
    st, h = hdr(chk, I, State())
    ident = t.S(32, 'id') if idb else i(0)
    st = given(st, classes(ident)[idb][1])
    st, _ = only(chk.run(I, chk.M.funcs['c3pv_mh_set'], st, [h, C(8, code), C(8, 0x10 | idb << 6 | (1 if idb else 0)), t.S(8, 'k'), i(4 + idb + 2), ident]))
    w = BW(chk, I)
    w.st = st
    m = w.obj('message', 'mm_init', h, C(8, op), size=96)
    sb = w.given((2,), [t.S(8, 'q0'), t.S(8, 'q1')])
    st, _ = only(chk.run(I, chk.M.funcs['c3pv_mm_acc'], w.st, [m, sb]))
    w.st = st
    kvp = NULL if null else w.obj('kvp', 'kvp_init', size=64)
    st = w.st
    for st, v in chk.run(I, chk.M.funcs['c3pv_mm_reply'], st, [m, kvp, C(1, expect)]):
        memory(chk, st, key)
        chk.count('replies')
        if op != RX:
            chk.prove(st, t.eq(v, i(-1)), key + ':return', MSG, 'a message that is not inbound is replied to')
            continue
        good = code == SYNC or idb > 0
        chk.prove(st, t.eq(v, i(0)) if good else t.ne(v, i(0)), key + ':return', MSG, 'a reply does not succeed exactly when the message can be replied to')
        if not good:
            continue
        w.st = st
        out = w.given((), [])
        st, v = only(chk.run(I, chk.M.funcs['c3pv_mm_ser'], w.st, [m, out]))
        st = content(chk, I, st, out, frame(code, 2 | expect, ident, idb, payload), key + ':sent', 'the reply is not the ID of the message followed by the payload', where=MSG)
        for what, want in (('id', ident), ('dir', C(8, TX)), ('isreply', C(1, 1)), ('expects', C(1, expect)), ('code', C(8, code))):
            st, v = only(chk.run(I, chk.M.funcs['c3pv_mm_' + what], st, [m]))
            chk.prove(st, t.eq(v, want), key + ':' + what, MSG, 'a reply has the wrong header')
        st, _ = only(chk.run(I, chk.M.funcs['c3pv_mm_end'], st, [m]))
        released(chk, I, st, [out, sb], key)


def state(chk):
    """retries, flags, wiping, encodings"""
    env = Env()
    I = world(chk, env)
    st, h = hdr(chk, I, State())
    st, _ = only(chk.run(I, chk.M.funcs['c3pv_mh_set'], st, [h, C(8, 15), C(8, 0x10), C(8, 0), i(6), i(0)]))
    w = BW(chk, I)
    w.st = st
    m = w.obj('message', 'mm_init', h, C(8, RX), size=96)
    st = w.st
    def ask(what, want, key, *a):
        nonlocal st
        st, v = only(chk.run(I, chk.M.funcs['c3pv_mm_' + what], st, [m] + list(a)))
        if want is not None:
            chk.prove(st, t.eq(v, want), key, MSG, 'wrong result of ' + what)
    for k in range(6):
        ask('retry', C(1, 1 if k < 3 else 0), 'state:retry %d' % k)
    ask('sent', C(1, 0), 'state:not sent')
    ask('ackd', C(1, 0), 'state:not acknowledged')
    ask('marksent', None, '')
    ask('sent', C(1, 1), 'state:sent')
    ask('ackd', C(1, 0), 'state:sent, not acknowledged')
    ask('markackd', None, '')
    ask('sent', C(1, 1), 'state:sent and acknowledged')
    ask('ackd', C(1, 1), 'state:acknowledged')
    for e in range(256):
        ask('enc', i(0 if e in ENC else -1), 'state:encoding %d' % e, C(8, e))
    w.st = st
    sb = w.given((1,), [t.S(8, 'z')])
    st = w.st
    ask('acc', i(0), 'state:accumulate', sb)
    ask('wipe', None, '')
    for what, want in (('sent', C(1, 0)), ('ackd', C(1, 0)), ('id', i(0)), ('code', C(8, 0)), ('dir', C(8, 0)), ('complete', C(1, 1)), ('valid', C(1, 0))):
        ask(what, want, 'state:wiped ' + what)
    memory(chk, st, 'state')


ENC = ()


def run(chk):
    global ENC
    chk.load()
    en = dict(chk.M.enums["TCode"]["vals"])
    ENC = (en['BINARY'], en['CBOR'])
    jobs = [('make', a, b) for a in (0, 1) for b in (0, 1)] + [('setlen', f) for f in range(256)] + [('valid', f) for f in range(256)] + [('parse', f) for f in range(256)]
    jobs += [('bits',), ('state',)]
    ch = [[(1,)] * k for k in range(1, 6)] + [[(2,), (2,), (2,)], [(3,), (1,), (1, 1)], [(5,)], [(2, 3)], [(1, 1), (2,)], [(), (4,)], [(1,), (), (1, 2)], [(4,), (1,)]]
    jobs += [('incoming', n, c, e) for n in range(0, 5) for c in ch for e in ENC]
    jobs += [('outgoing', c, f, b, n, ok, nul, op) for c in (1, 2, 15, 0x1f, 0x0A, 0) for f in range(4) for b in range(4) for n in (0, 1, 3) for ok in (True, False) for nul in (False, True)
             for op in (TX, UNDEF) if not (nul and (n or not ok)) and not (op == UNDEF and (n != 1 or c != 15))]
    jobs += [('answer', c, b, n, op, e, nul) for c in (1, 2, 15) for b in range(4) for n in (0, 2) for op in (RX, TX, UNDEF) for e in (0, 1) for nul in (False, True)]

    def work(k):
        for j in jobs[k::8]:
            chk.group(str(j), globals()[j[0]], chk, *j[1:])
            if len(chk.violations) > 6:
                break
    chk.fork(8, work)
