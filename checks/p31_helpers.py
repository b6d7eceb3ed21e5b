"""stringToTimestamp() is interpreted for every month of every year from 1970 to 2099 with arbitrary digits for day,
hour, minute and second, and compared with the Gregorian calendar; for other values of each field it must return 0.
The pRNG is interpreted on an arbitrary state against the published generator, fill() for every small length; the
typed comparisons, ranges and swaps, and the reference counter on arbitrary values."""
import datetime
from balib import *

LEVEL = 'other'
ASSUME = ['fill() is asked for up to nine bytes', 'the day given exists in the month']
CPP = 'src/CppPotpourri.cpp'
HPP = 'src/CppPotpourri.h'


def i(n):
    return C(32, n & 0xffffffff)


def atoi_model(I, st, a, o, fn):
    """digits up to the first other character, which must be decided"""
    p = I.res(st, a[0])
    v, k = C(32, 0), 0
    while True:
        b = st.norm(I.load(st, P(p.r, t.addc(p.o, k)), 'i8', o, fn))
        isdig = st.norm(t.ult(t.sub(b, C(8, 48)), C(8, 10)))
        if not isc(isdig):
            if not chk_true(st, isdig):
                raise Unsupported('atoi of an undecided character')
        elif cv(isdig) == 0:
            return [(st, v)]
        v = t.add(t.mul(v, C(32, 10)), t.zext(t.sub(b, C(8, 48)), 32))
        k += 1
        if k > 9:
            raise Unsupported('atoi: too many digits')


def chk_true(st, c):
    return not [s for s in st.copy().assume(c, False) if not s.dead() and not s.empty()]


def stamp(chk, st, text):
    """text: list of ints or ('a', name, lo, hi) digit terms"""
    I = binterp(chk)
    I.cfg.models['atoi'] = atoi_model
    r = I.new_region(st, 'lazy', 'text', size=i(21))
    for k, b in enumerate(text):
        I.store(st, P(r, i(k)), b if not isinstance(b, int) else C(8, b), 'i8')
    out = chk.run(I, chk.M.funcs['c3pv_s2t'], st, [P(r)])
    for s, _ in out:
        memory(chk, s, 'stringToTimestamp')
    return out


def digit(st, name, lo=0, hi=9):
    d = t.zext(t.S(4, name), 8)
    for c in (t.ule(C(8, lo), d), t.ule(d, C(8, hi))):
        l = st.assume(c, True)
        if len(l) != 1:
            raise Unsupported('digit')
        st = l[0]
    return st, t.add(d, C(8, 48)), d


def val(a, b):
    """two digit terms as a 64-bit number"""
    return t.zext(t.add(t.mul(t.zext(a, 32), i(10)), t.zext(b, 32)), 64)


def field(st, name, lo, hi):
    """states with a two-digit number from lo to hi, one for each leading digit"""
    for a in range(lo // 10, hi // 10 + 1):
        s, c, d = digit(st.copy(), name, lo % 10 if a == lo // 10 else 0, hi % 10 if a == hi // 10 else 9)
        yield s, [C(8, 48 + a), c], t.zext(t.add(t.zext(d, 32), i(10 * a)), 64)


def dates(chk, year):
    for month in range(1, 13):
        first = datetime.date(year, month, 1)
        nxt = datetime.date(year + month // 12, month % 12 + 1, 1)
        last = (nxt - first).days
        base = (first - datetime.date(1970, 1, 1)).days
        ym = [ord(c) for c in '%04d-%02d-' % (year, month)]
        for st, dd, dv in field(State(), 'day', 1, last):
            # hours, minutes and seconds: once for a whole range of days, in one month of each kind of year
            full = (month, dd[0].v if hasattr(dd[0], 'v') else cv(dd[0])) == (3, 49) and year in (1970, 1972, 2000, 2099)
            if full:
                forms = [(s3, h + [C(8, 58)] + m + [C(8, 58)] + s, hv, mv, sv) for s1, h, hv in field(st, 'hour', 0, 23)
                         for s2, m, mv in field(s1, 'minute', 0, 59) for s3, s, sv in field(s2, 'second', 0, 59)]
            else:
                forms = [(st, [C(8, ord(c)) for c in '%02d:%02d:%02d' % x], C(64, x[0]), C(64, x[1]), C(64, x[2])) for x in ((0, 0, 0), (23, 59, 59))]
            for s0, tm, h, m, s in forms:
                chk.count('date classes')
                want = t.add(t.add(t.mul(t.add(t.sub(dv, C(64, 1)), C(64, base)), C(64, 86400)), t.mul(h, C(64, 3600))), t.add(t.mul(m, C(64, 60)), s))
                for s1, v in stamp(chk, s0.copy(), ym + dd + [84] + tm + [90, 0]):
                    chk.prove(s1, t.eq(v, want), 'stringToTimestamp:%04d-%02d' % (year, month), CPP + ': stringToTimestamp',
                              'a date in month %d of %d does not give its epoch time' % (month, year))


def bad(chk):
    good = '2016-11-16T21:44:07Z\0'
    def with_(st, at, two):
        l = [C(8, ord(c)) for c in good]
        l[at:at + len(two)] = two
        return l
    cases = []
    for name, at, lo, hi in (('month', 5, 13, 99), ('month', 5, 0, 0), ('day', 8, 32, 99), ('hour', 11, 24, 99), ('minute', 14, 60, 99), ('second', 17, 60, 99)):
        for st, d, _ in field(State(), name, lo, hi):
            cases.append((name, st, with_(st, at, d)))
    for lead in range(197):
        st, c, _ = digit(State(), 'year')
        cases.append(('year', st, with_(st, 0, [C(8, ord(x)) for x in '%03d' % lead] + [c])))
    for name, st, l in cases:
        chk.count('refused dates')
        for s1, v in stamp(chk, st, l):
            chk.prove(s1, t.eq(v, C(64, 0)), 'stringToTimestamp:bad %s' % name, CPP + ': stringToTimestamp', 'a time with an impossible %s is not refused' % name)


def strict(chk):
    for w in (8, 16, 32, 64):
        for sg in (0, 1):
            n = ('i' if sg else 'u') + str(w)
            lt = t.slt if sg else t.ult
            a, b, c = t.S(w, 'a' + n), t.S(w, 'b' + n), t.S(w, 'c' + n)
            def each(op, *args, st=None):
                I = binterp(chk)
                chk.count('typed helpers')
                return chk.run(I, chk.M.funcs['c3pv_%s_%s' % (op, n)], st or State(), list(args))
            def order(x, y):
                """x below, above, equal to y"""
                return [(lt(x, y), -1), (lt(y, x), 1), (t.eq(x, y), 0)]
            for op in ('min', 'max', 'absd'):
                for st, v in each(op, a, b):
                    for c1, o in order(a, b):
                        for s in st.copy().assume(c1, True):
                            if s.dead() or s.empty():
                                continue
                            if op == 'absd':
                                chk.prove(s, t.eq(v, t.sub(b, a) if o < 0 else t.sub(a, b) if o > 0 else C(w, 0)), 'strict_abs_delta<%s>' % n, HPP, 'the result is not the distance of the two')
                            else:
                                chk.prove(s, t.eq(v, a if (o < 0) == (op == 'min') else b), 'strict_%s<%s>' % (op, n), HPP, 'the result is not the %s of the two' % ('smaller' if op == 'min' else 'larger'))
            for c0, o0 in order(b, c):
                if o0 > 0:
                    continue
                for c1, o1 in order(a, b):
                    for c2, o2 in order(a, c):
                        # b <= c: which combinations exist
                        if (o1 < 0 and (o2 > 0 or o2 == 0)) or (o1 == 0 and (o2 > 0 or (o2 == 0) != (o0 == 0))) or (o1 > 0 and o0 == 0 and o2 <= 0):
                            continue
                        l = [State()]
                        for x in (c0, c1, c2):
                            l = [y for s in l for y in s.assume(x, True)]
                        for s in l:
                            if s.dead() or s.empty():
                                continue
                            for s1, v in each('bind', a, b, c, st=s):
                                chk.prove(s1, t.eq(v, b if o1 < 0 else c if o2 > 0 else a), 'strict_range_bind<%s>' % n, HPP, 'the value is not bound to the range')
            I = binterp(chk)
            st = State()
            ra, rb = (P(I.new_region(st, 'lazy', x, size=i(w // 8))) for x in 'ab')
            I.store(st, ra, a, 'i%d' % w)
            I.store(st, rb, b, 'i%d' % w)
            for s, _ in chk.run(I, chk.M.funcs['c3pv_swap_' + n], st, [ra, rb]):
                memory(chk, s, 'strict_swap')
                chk.prove(s, t.eq(I.load(s, ra, 'i%d' % w), b), 'strict_swap<%s>' % n, HPP, 'the values are not exchanged')
                chk.prove(s, t.eq(I.load(s, rb, 'i%d' % w), a), 'strict_swap<%s>' % n, HPP, 'the values are not exchanged')


def refs(chk):
    I = binterp(chk)
    st = State()
    p = P(I.new_region(st, 'lazy', 'counter', size=i(16)))
    n = t.S(16, 'count')
    F = chk.M.funcs
    (st, _), = chk.run(I, F['c3pv_ref_init'], st, [p, n])
    (st, v), = chk.run(I, F['c3pv_ref_count'], st, [p])
    chk.prove(st, t.eq(v, n), 'C3PRefCounter:init', HPP, 'the starting count is not the one given')
    for full in (True, False):
        for s in st.copy().assume(t.ule(C(16, 64000), n), full):
            if s.dead() or s.empty():
                continue
            for s1, v in chk.run(I, F['c3pv_ref_take'], s, [p]):
                chk.count('reference counter states')
                chk.prove(s1, t.eq(v, C(1, int(not full))), 'C3PRefCounter:take', HPP, 'the answer of refTake() is wrong')
                for s2, c in chk.run(I, F['c3pv_ref_count'], s1, [p]):
                    chk.prove(s2, t.eq(c, n if full else t.add(n, C(16, 1))), 'C3PRefCounter:take', HPP, 'refTake() leaves the wrong count')
                    # it can be called again
                    for s3, _ in chk.run(I, F['c3pv_ref_release'], s2.copy(), [p]):
                        for s4, c in chk.run(I, F['c3pv_ref_count'], s3, [p]):
                            if not full:
                                chk.prove(s4, t.eq(c, n), 'C3PRefCounter:take and release', HPP, 'a release does not undo a take')
    for zero in (True, False):
        for s in st.copy().assume(t.eq(n, C(16, 0)), zero):
            if s.dead() or s.empty():
                continue
            for s1, v in chk.run(I, F['c3pv_ref_release'], s, [p]):
                chk.count('reference counter states')
                want = C(16, 0) if zero else t.sub(n, C(16, 1))
                chk.prove(s1, t.eq(v, t.eq(want, C(16, 0))), 'C3PRefCounter:release', HPP, 'refRelease() is not true exactly when no reference is left')
                for s2, c in chk.run(I, F['c3pv_ref_count'], s1, [p]):
                    chk.prove(s2, t.eq(c, want), 'C3PRefCounter:release', HPP, 'refRelease() leaves the wrong count')


def pcg(state, inc):
    """(next state, output) of PCG32 XSH RR"""
    nxt = t.add(t.mul(state, C(64, 6364136223846793005)), inc)
    x = t.trunc(t.lshr(t.xor_(t.lshr(state, C(64, 18)), state), C(64, 27)), 32)
    rot = t.trunc(t.lshr(state, C(64, 59)), 32)
    return nxt, t.or_(t.lshr(x, rot), t.shl(x, t.and_(t.sub(i(0), rot), i(31))))


def rng(chk):
    F = chk.M.funcs
    st = State()
    I = binterp(chk)
    p = P(I.new_region(st, 'lazy', 'rng', size=i(32)))
    (st, _), = chk.run(I, F['c3pv_prng_init'], st, [p])
    for seeded in (0, 1):
        s0 = st.copy()
        if seeded:
            seed = t.S(64, 'seed')
            l = s0.assume(t.ne(seed, C(64, 0)), True)
            (s0, _), = [x for s in l for x in chk.run(I, F['c3pv_prng_seed'], s, [p, seed])]
            inc = C(64, 15)
            state = pcg(t.add(pcg(C(64, 0), inc)[0], seed), inc)[0]
        else:
            state, inc = C(64, 0x853c49e6748fea9b), C(64, 0xda3e39cb94b95bdb)
        for n in range(10):
            I.steps = 0
            s1 = s0.copy()
            to = I.new_region(s1, 'lazy', 'to', size=i(n))
            chk.count('pRNG fills')
            for s2, _ in chk.run(I, F['c3pv_prng_fill'], s1, [p, P(to), i(n)]):
                memory(chk, s2, 'C3P_pRNG::fill')
                x, k = state, 0
                while k < n:
                    x, w = pcg(x, inc)
                    for j in range(min(4, n - k)):
                        chk.prove(s2, t.eq(I.load(s2, P(to, i(k + j)), 'i8'), t.extract(w, 8 * j, 8)), 'C3P_pRNG::fill', CPP, 'the bytes are not those of the generator')
                    k += 4
    # the convenience functions deliver what fill() wrote
    for n, w in (('bool', 8), ('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64)):
        I = binterp(chk)
        bs = [t.S(8, 'random%d' % k) for k in range(w // 8)]
        def fill(I, st, a, o, fn):
            st.emit(('fill', st.norm(a[2])))
            q = I.res(st, a[1])
            for k in range(w // 8):
                I.store(st, P(q.r, t.addc(q.o, k)), bs[k], 'i8', o, fn)
            return [(st, C(8, 0))]
        I.cfg.models['c3pv_rng_fill'] = fill
        st = State()
        p = P(I.new_region(st, 'lazy', 'rng', size=i(16)))
        (st, _), = chk.run(I, F['c3pv_rng_init'], st, [p])
        for s, v in chk.run(I, F['c3pv_rng_' + n], st, [p]):
            chk.count('pRNG fills')
            memory(chk, s, 'C3PRandom')
            asked = [e[1] for e in s.events() if e[0] == 'fill']
            chk.expect(asked == [i(w // 8)], 'C3PRandom:%s' % n, CPP, 'it does not ask for exactly as many bytes as it delivers', s)
            want = t.extract(bs[0], 0, 1) if n == 'bool' else t.concat(bs) if w > 8 else bs[0]
            chk.prove(s, t.eq(v, want), 'C3PRandom:%s' % n, CPP, 'the value is not made of the random bytes')


def run(chk):
    chk.load()
    years = list(range(1970, 2100))
    jobs = [('dates', y) for y in years] + [('bad',), ('strict',), ('refs',), ('rng',)]
    def work(k):
        for j in jobs[k::8]:
            chk.group(str(j), globals()[j[0]], chk, *j[1:])
    chk.fork(8, work)
