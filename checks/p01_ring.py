"""Each ring-buffer operation is interpreted abstractly from an arbitrary state satisfying
the buffer invariant (capacity >= 1, read and write index < capacity, count <= capacity,
write = read + count modulo capacity; any capacity up to 2^28), the byte loops being generalised
inductively.  On every exit path the invariant, the count/index updates, the returned or stored
element slot, the untouched remainder, and the bounds of every pool access are proved."""
from lib import *
import histories

ASSUME = ['element type of 4 bytes; capacity up to 2^28 elements', 'single-threaded use']
CLS = 'RingBuffer<unsigned int>'


def ring(chk, I, pool=True):
    """invariant states: one per wrap case"""
    st = State()
    this = I.new_region(st, 'lazy', 'this', cls=CLS)
    f = lambda n: fld(chk, I, st, this, CLS, n)
    cap, w, r, cnt = f('_CAPAC'), f('_w'), f('_r'), f('_count')
    st._refine(f('_E_SIZE'), 4, 4)
    st._refine(cap, 1, 1 << 28)
    st = st.assume(t.ult(w, cap))[0]
    st = st.assume(t.ult(r, cap))[0]
    st = st.assume(t.ule(cnt, cap))[0]
    pr = I.new_region(st, 'lazy', 'pool', size=t.mulc(cap, 4))
    I.store(st, P(this, C(32, chk.M.off(CLS, '_pool'))), P(pr) if pool else NULL, 'ptr')
    out = []
    s = t.add(r, cnt)
    for low in (True, False):
        for s1 in st.copy().assume(t.ult(s, cap), low):
            for s2 in s1.assume(t.eq(w, s if low else t.sub(s, cap)), True):
                out.append((clean(s2), dict(this=this, pool=pr, cap=cap, w=w, r=r, cnt=cnt)))
    return out


def post(chk, I, st, R, key, where):
    """the invariant at exit; returns the exit values"""
    g = lambda n: st.norm(fld(chk, I, st, R['this'], CLS, n))
    w, r, cnt, cap = g('_w'), g('_r'), g('_count'), g('_CAPAC')
    chk.prove(st, t.ult(w, cap), key + ':write-index-in-range', where, 'write index stays below capacity')
    chk.prove(st, t.ult(r, cap), key + ':read-index-in-range', where, 'read index stays below capacity')
    chk.prove(st, t.ule(cnt, cap), key + ':count-at-most-capacity', where, 'count stays within capacity')
    chk.prove(st, t.eq(cap, R['cap']), key + ':capacity-fixed', where, 'capacity unchanged')
    return w, r, cnt


def inv_rel(chk, st, R, v, key, where):
    w, r, cnt = v
    s = t.add(r, cnt)
    cap = R['cap']
    # w == (r + cnt) mod cap
    g = t.or_(t.and_(t.ult(s, cap), t.eq(w, s)), t.and_(t.ule(cap, s), t.eq(w, t.sub(s, cap))))
    chk.prove(st, g, key + ':write-is-read-plus-count', where, 'write index is read index plus count, modulo capacity')


def same(chk, st, a, b, key, where, what):
    chk.prove(st, t.eq(st.norm(a), st.norm(b)), key, where, what)


def pool_untouched(chk, st, R, key, where):
    cells, syms = written(st, R['pool'])
    if cells or syms:
        chk.refuse(st, key + ':storage-untouched', where, 'the element storage is written')
    else:
        chk.ok(key + ':storage-untouched')


def go(chk, name, n, args, judge, pool=True, pred=None, models=None):
    f = chk.fn(CLS + '::' + name, n, pred)
    where = f.loc()
    I0 = chk.interp()
    for i in range(len(ring(chk, I0))):
        I = chk.interp()
        if models:
            I.cfg.models.update(models)
        st, R = ring(chk, I, pool)[i]
        I.cfg.on_access = acc_hook({R['pool']})
        a, ctx = args(I, st)
        key = '%s%s' % (name, '(%d)' % n)
        outs = chk.run(I, f, st, [P(R['this'])] + a)
        if not outs:
            raise AnalysisBroken('no exit of ' + f.dem)
        for s, v in outs:
            check_bounds(chk, s, key + ':storage-bounds', {R['pool']})
            judge(I, s, v, R, key, where, ctx)


def run(chk):
    noargs = lambda I, st: ([], None)

    def insert(I, st, v, R, key, where, d):
        ex = post(chk, I, st, R, key, where)
        inv_rel(chk, st, R, ex, key, where)
        cells, syms = written(st, R['pool'])
        full = st.decide(t.ule(R['cap'], R['cnt']))
        if full is None:
            chk.undec(key, 'path does not tell full from not full')
            return
        if full:
            chk.prove(st, t.slt(v, C(32, 0)), key + ':full-is-refused', where, 'inserting into a full buffer returns an error')
            same(chk, st, ex[2], R['cnt'], key + ':full-unchanged', where, 'count unchanged when full')
            same(chk, st, ex[1], R['r'], key + ':full-unchanged', where, 'read index unchanged when full')
            same(chk, st, ex[0], R['w'], key + ':full-unchanged', where, 'write index unchanged when full')
            pool_untouched(chk, st, R, key + ':full', where)
            return
        same(chk, st, v, C(32, 0), key + ':returns-zero', where, 'inserting into a buffer with room succeeds')
        same(chk, st, ex[2], t.addc(R['cnt'], 1), key + ':count-plus-one', where, 'count grows by one')
        same(chk, st, ex[1], R['r'], key + ':read-index-kept', where, 'read index unchanged by insert')
        # the element lands in the slot after the newest one
        off = t.mulc(R['w'], 4)
        got = I.read(st, R['pool'], st.mem[R['pool'].id], st.norm(off), 4, 'i32')
        same(chk, st, got, d, key + ':stored-at-tail', where, 'the element is stored in the slot behind the newest element')
        for e in syms:
            if e[0] not in ('w', 'fill', 'copy'):
                chk.undec(key + ':only-tail-written', 'widened write')
                continue
            ln = C(32, e[2]) if e[0] == 'w' else e[2]
            chk.prove(st, t.and_(t.ule(off, e[1]), t.ule(t.add(e[1], ln), t.addc(off, 4))), key + ':only-tail-written', where, 'only the tail slot is written')
        for o, c in cells.items():
            chk.prove(st, t.and_(t.ule(off, C(32, o)), t.ule(C(32, o + c[0]), t.addc(off, 4))), key + ':only-tail-written', where, 'only the tail slot is written')

    def one(I, st):
        d = t.S(32, 'value')
        return [d], d
    chk.group('insert', lambda: go(chk, 'insert', 2, one, insert))

    def get(remove):
        def j(I, st, v, R, key, where, ctx):
            ex = post(chk, I, st, R, key, where)
            inv_rel(chk, st, R, ex, key, where)
            pool_untouched(chk, st, R, key, where)
            same(chk, st, ex[0], R['w'], key + ':write-index-kept', where, 'write index unchanged')
            empty = st.decide(t.eq(R['cnt'], C(32, 0)))
            if empty is None:
                chk.undec(key, 'path does not tell empty from not empty')
                return
            if empty:
                same(chk, st, v, C(32, 0), key + ':empty-gives-zero', where, 'an empty buffer yields the zero element')
            else:
                expect_read(chk, st, v, R['pool'], t.mulc(R['r'], 4), 4, key + ':yields-oldest', where, 'the oldest element is returned')
            if empty or not remove:
                same(chk, st, ex[1], R['r'], key + ':read-index-kept', where, 'read index unchanged')
                same(chk, st, ex[2], R['cnt'], key + ':count-kept', where, 'count unchanged')
            else:
                same(chk, st, ex[2], t.addc(R['cnt'], -1), key + ':count-minus-one', where, 'count falls by one')
        return j
    chk.group('get', lambda: go(chk, 'get', 1, noargs, get(True)))
    chk.group('peek', lambda: go(chk, 'peek', 1, noargs, get(False)))

    def peekidx(I, st, v, R, key, where, ctx):
        idx, ab = ctx
        ex = post(chk, I, st, R, key, where)
        pool_untouched(chk, st, R, key, where)
        for a, b, w in ((ex[0], R['w'], 'write'), (ex[1], R['r'], 'read'), (ex[2], R['cnt'], 'count')):
            same(chk, st, a, b, key + ':unchanged', where, w + ' unchanged')
        if ab:
            return
        # relative index within the live elements
        for s in st.copy().assume(t.ult(idx, R['cnt']), True):
            x = t.add(R['r'], idx)
            for lo in (True, False):
                for s2 in s.copy().assume(t.ult(x, R['cap']), lo):
                    if s2.dead():
                        continue
                    o = x if lo else t.sub(x, R['cap'])
                    expect_read(chk, s2, v, R['pool'], t.mulc(o, 4), 4, key + ':yields-nth', where, 'peeking at index n yields the n-th oldest element')

    def peekargs(I, st):
        i = t.S(32, 'idx')
        return [i, C(1, 0)], (i, False)

    def peekabs(I, st):
        i = t.S(32, 'idx')
        return [i, C(1, 1)], (i, True)
    isidx = lambda f: f.args[1]['ty'] != 'ptr'
    chk.group('peek-index', lambda: go(chk, 'peek', 3, peekargs, peekidx, pred=isidx))
    chk.group('peek-absolute', lambda: go(chk, 'peek', 3, peekabs, peekidx, pred=isidx))

    def cull(I, st, v, R, key, where, n):
        ex = post(chk, I, st, R, key, where)
        inv_rel(chk, st, R, ex, key, where)
        pool_untouched(chk, st, R, key, where)
        same(chk, st, ex[0], R['w'], key + ':write-index-kept', where, 'write index unchanged')
        for s in st.copy().assume(t.eq(n, C(32, 0)), True):
            same(chk, s, ex[2], R['cnt'], key + ':zero-culls-nothing', where, 'culling nothing changes nothing')
        for s in st.copy().assume(t.ne(n, C(32, 0)), True):
            for s1 in s.copy().assume(t.ult(n, R['cnt']), True):
                same(chk, s1, ex[2], t.sub(R['cnt'], n), key + ':culls-exactly', where, 'culling n elements drops exactly n')
                same(chk, s1, v, n, key + ':returns-dropped', where, 'the number dropped is returned')
            for s1 in s.copy().assume(t.ule(R['cnt'], n), True):
                same(chk, s1, ex[2], C(32, 0), key + ':culls-at-most-all', where, 'culling more than the content empties the buffer')
                same(chk, s1, v, R['cnt'], key + ':returns-dropped', where, 'the number dropped is returned')

    def narg(I, st):
        n = t.S(32, 'n')
        return [n], n
    chk.group('cull', lambda: go(chk, 'cull', 2, narg, cull))

    def clear(I, st, v, R, key, where, ctx):
        ex = post(chk, I, st, R, key, where)
        inv_rel(chk, st, R, ex, key, where)
        same(chk, st, ex[2], C(32, 0), key + ':empties', where, 'clear leaves an empty buffer')
    chk.group('clear', lambda: go(chk, 'clear', 1, noargs, clear))

    def probe(what):
        def j(I, st, v, R, key, where, ctx):
            ex = post(chk, I, st, R, key, where)
            pool_untouched(chk, st, R, key, where)
            for a, b, w in ((ex[0], R['w'], 'write'), (ex[1], R['r'], 'read'), (ex[2], R['cnt'], 'count')):
                same(chk, st, a, b, key + ':unchanged', where, w + ' unchanged')
            exp = {'count': R['cnt'], 'vacancy': t.sub(R['cap'], R['cnt']), 'capacity': R['cap'], 'heapUse': None}.get(what)
            if exp is not None:
                same(chk, st, v, exp, key + ':value', where, what + ' reports the exact number')
        return j
    for nm in ('count', 'vacancy', 'capacity'):
        if chk.M.by_base.get(CLS + '::' + nm):
            chk.group(nm, lambda: go(chk, nm, 1, noargs, probe(nm)))

    # allocation: null storage is allocated to capacity*size and zeroed, or the call fails
    def alloc(I, st, v, R, key, where, ctx):
        ex = post(chk, I, st, R, key, where)
        for a, b in ((ex[0], R['w']), (ex[1], R['r']), (ex[2], R['cnt'])):
            same(chk, st, a, b, key + ':unchanged', where, 'indices unchanged')
        p = I.res(st, I.load(st, P(R['this'], C(32, chk.M.off(CLS, '_pool'))), 'ptr'))
        ev = events(st, 'alloc', 'alloc-fail')
        if not ev:
            chk.undec(key, 'no allocation seen')
            return
        if ev[-1][0] == 'alloc-fail':
            same(chk, st, v, C(1, 0), key + ':failure-reported', where, 'a failed allocation is reported')
            return
        same(chk, st, v, C(1, 1), key + ':success-reported', where, 'a successful allocation is reported')
        same(chk, st, ev[-1][2][0], t.mulc(R['cap'], 4), key + ':storage-size', where, 'storage holds capacity elements')
        if p.r is None:
            chk.refuse(st, key + ':pool-set', where, 'storage pointer lost')
            return
        i = t.S(32, 'byte')
        for s in st.copy().assume(t.ult(i, t.mulc(R['cap'], 4)), True):
            b = I.read(s, p.r, s.mem[p.r.id], i, 1, 'i8')
            same(chk, s, b, C(8, 0), key + ':zeroed', where, 'new storage is zeroed')
    chk.group('allocated', lambda: go(chk, 'allocated', 1, noargs, alloc, pool=False))

    # bulk forms: the single-element operation is replaced by its proved contract
    def bulk(which):
        def single(I, st, args, ins, fn):
            """contract of the one-element operation on counters; the element is traced by the event log"""
            this = args[0]
            g = lambda n: st.norm(fld(chk, I, st, this.r, CLS, n))
            cnt, cap = g('_count'), g('_CAPAC')
            out = []
            if which == 'insert':
                for s in st.copy().assume(t.ule(cap, cnt), True):
                    out.append((s, C(32, MASK[32])))
                for s in st.copy().assume(t.ult(cnt, cap), True):
                    setf(chk, I, s, this.r, CLS, '_count', t.addc(cnt, 1))
                    out.append((s, C(32, 0)))
                return out
            for s in st.copy().assume(t.eq(cnt, C(32, 0)), True):
                out.append((s, C(32, 0)))
            for s in st.copy().assume(t.ne(cnt, C(32, 0)), True):
                setf(chk, I, s, this.r, CLS, '_count', t.addc(cnt, -1))
                out.append((s, t.fresh(32, 'element')))
            return out

        def judge(I, st, v, R, key, where, ctx):
            buf, n = ctx
            cnt1 = st.norm(fld(chk, I, st, R['this'], CLS, '_count'))
            check_bounds(chk, st, key + ':caller-buffer-bounds', {buf})
            avail = t.sub(R['cap'], R['cnt']) if which == 'insert' else R['cnt']
            for s in st.copy().assume(t.eq(n, C(32, 0)), True):
                same(chk, s, cnt1, R['cnt'], key + ':zero-moves-nothing', where, 'a zero-length transfer moves nothing')
            for s in st.copy().assume(t.ne(n, C(32, 0)), True):
                for lt in (True, False):
                    for s1 in s.copy().assume(t.ult(n, avail), lt):
                        if s1.dead():
                            continue
                        m = n if lt else avail
                        same(chk, s1, cnt1, t.add(R['cnt'], m) if which == 'insert' else t.sub(R['cnt'], m), key + ':moves-min', where,
                             'a bulk transfer moves exactly min(requested, available) elements')
                        z = s1.decide(t.eq(avail, C(32, 0)))
                        if z is False:
                            same(chk, s1, v, m, key + ':returns-moved', where, 'the number moved is returned')

        def args(I, st):
            n = t.S(32, 'len')
            st._refine(n, 0, 1 << 28)
            b = I.new_region(st, 'lazy', 'caller', size=t.mulc(n, 4))
            h = I.cfg.on_access
            hk = acc_hook({b})
            I.cfg.on_access = lambda *a: (h(*a), hk(*a))
            return [P(b), n], (b, n)
        if which == 'insert':
            sub = {chk.fn(CLS + '::insert', 2).name: single}
        else:
            sub = {chk.fn(CLS + '::_get', 2).name: single}
        go(chk, which, 3, args, judge, pred=lambda f: f.args[1]['ty'] == 'ptr', models=sub)
    chk.group('insert-bulk', bulk, 'insert')
    chk.group('get-bulk', bulk, 'get')
    deep = chk.tier != 'quick'
    histories.run(chk, [(histories.Ring, c, v, 4000) for c, v in ((1, 3), (2, 2), (3, 1), (3, 2)) + (((2, 3), (4, 2), (5, 1)) if deep else ())])
