"""C3PValue and KeyValuePair are interpreted: numbers of every type with an arbitrary value, pointer types with and
without responsibility for what they hold, keys, and chains of up to four members through every sequence of removals;
what is read, what is reported and what is released is compared with a model."""
from sblib import *
from p05_convert import INTS, representable, equal
import itertools

VAL = 'src/C3PValue/C3PValue.cpp'
KVP = 'src/C3PValue/KeyValuePair.cpp'
LEVEL = 'other'
ASSUME = ['allocations succeed', 'floating point numbers are followed as bit patterns', 'chains of up to four members']
NUMS = {'u8': ('UINT8', 8), 'u16': ('UINT16', 16), 'u32': ('UINT32', 32), 'u64': ('UINT64', 64), 'i8': ('INT8', 8), 'i16': ('INT16', 16),
        'i32': ('INT32', 32), 'i64': ('INT64', 64), 'b': ('BOOLEAN', 8), 'f': ('FLOAT', 32), 'd': ('DOUBLE', 64)}


def i(n):
    return C(32, n & 0xffffffff)


class V:
    """a world with the type table in it"""
    def __init__(self, chk):
        self.chk = chk
        self.I = interp(chk)
        self.st = State()
        for g in [g for g in chk.M.funcs.values() if g.name == '_GLOBAL__sub_I_C3PType.cpp']:
            self.st = self.live(self.chk.run(self.I, g, self.st, []))[0][0]
        self.st.log = None
        self.E = dict(chk.M.enums['TCode']['vals'])

    def live(self, l):
        return [x for x in l if not x[0].dead() and not x[0].empty()] if len(l) > 1 else l

    def all(self, name, *a):
        self.I.steps = 0
        return self.live(self.chk.run(self.I, self.chk.M.funcs['c3pv_' + name], self.st, list(a)))

    def call(self, name, *a):
        l = self.all(name, *a)
        if len(l) != 1:
            raise Unsupported('%d outcomes of %s' % (len(l), name))
        self.st = l[0][0]
        return l[0][1]

    def num(self, name, *a, w=32):
        v = self.st.norm(self.call(name, *a))
        if not isc(v):
            raise Unsupported('%s: open result' % name)
        return sval(cv(v), w)

    def room(self, n, name='slot'):
        return P(self.I.new_region(self.st, 'lazy', name, size=i(n)))

    def text(self, s, name='text'):
        p = self.room(len(s) + 1, name)
        for k, c in enumerate(s.encode() + b'\0'):
            self.I.store(self.st, P(p.r, i(k)), C(8, c), 'i8')
        return p

    def heap(self, s):
        """a string on the heap, which free() may be called on"""
        p = self.call('libc_malloc', i(len(s) + 1))
        for k, c in enumerate(s.encode() + b'\0'):
            self.I.store(self.st, P(p.r, i(k)), C(8, c), 'i8')
        return p

    def ptr(self, p, ty='ptr'):
        return self.I.res(self.st, self.I.load(self.st, p, ty))

    def reads(self, p, s):
        """p is the text s"""
        p = self.I.res(self.st, p)
        if p.r is None:
            return False
        try:
            return [cv(self.st.norm(self.I.load(self.st, P(p.r, t.addc(p.o, k)), 'i8'))) for k in range(len(s) + 1)] == list(s.encode() + b'\0')
        except Exception:
            return False

    def same(self, a, b):
        a, b = self.I.res(self.st, a), self.I.res(self.st, b)
        return a.r is b.r and (a.r is None or t.eq(self.st.norm(a.o), self.st.norm(b.o)).op == 'c')


def made(w, n, x, key=None):
    return w.call('v_new_' + n, x) if key is None else w.call('k_new_' + n, key, x)


def number(chk, n, keyed):
    """a number is kept, and given back as it is, or converted when it fits"""
    tc, bits = NUMS[n]
    w = V(chk)
    fl = n in 'fd'
    sr = w.room(bits // 8, 'given')
    for bit in ((0, 1) if n == 'b' else (None,)):
        w.st.log = None
        k = 'number.%s%s' % (n, '.keyed' if keyed else '')
        st0 = w.st
        w.st = w.st.copy()
        if bit is not None:
            w.I.store(w.st, sr, C(8, bit), 'i8')
        ty = {'f': 'float', 'd': 'double'}.get(n, 'i%d' % bits)
        x = w.I.load(w.st, sr, ty)
        xb = w.I.load(w.st, sr, 'i%d' % bits)
        arg = t.trunc(x, 1) if n == 'b' else x
        v = made(w, n, arg, w.text('key') if keyed else None)
        where = VAL
        chk.expect(w.num('v_tcode', v, w=9) == w.E[tc] and w.num('v_memerr', v, w=2) == 0, k + ':type', where, 'the type of the value is not ' + tc, w.st)
        chk.expect(w.num('v_haskey', v, w=2) == int(keyed), k + ':key', KVP, 'has_key()', w.st)
        chk.expect(w.num('v_length', v) == bits // 8, k + ':length', where, 'length() is not %d' % (bits // 8), w.st)
        # as it is
        dr = w.room(bits // 8, 'read')
        for st, ret in w.all('v_get_' + n, v, dr):
            chk.prove(st, t.eq(ret, C(8, 0)), k + ':get', where, 'get_as() the own type fails')
            chk.prove(st, t.eq(st.norm(w.I.load(st, dr, 'i%d' % bits)), st.norm(xb)), k + ':value', where, 'get_as() gives %s for %s' % (st.norm(w.I.load(st, dr, 'i%d' % bits)), st.norm(xb)))
            memory(chk, st, k)
        if not fl:
            for m, (mt, mb) in NUMS.items():
                if m in 'fd':
                    continue
                convert(chk, w, k, v, xb, tc, m, mt, mb, bit)
            # is it anything but zero
            for st, ret in w.all('v_bool', v):
                chk.prove(st, t.eq(t.zext(ret, 8), t.zext(t.not_(t.eq(xb, C(bits, 0))), 8)), k + ':bool', where, 'get_as_bool() is wrong')
            for f, (mt, mb) in (('uint', ('UINT32', 32)), ('int', ('INT32', 32)), ('uint64', ('UINT64', 64)), ('int64', ('INT64', 64))):
                ok = w.room(1, 'success')
                for st, ret in w.all('v_' + f, v, ok):
                    rep = representable(xb, tc, mt)
                    for s2 in st.copy().assume(rep, True):
                        chk.prove(s2, equal(xb, ret, tc, mt), k + ':as-' + f, where, 'get_as_%s() gives %s' % (f, ret))
                        chk.prove(s2, t.eq(s2.norm(w.I.load(s2, ok, 'i8')), C(8, 1)), k + ':as-%s:success' % f, where, 'get_as_%s() says that it failed' % f)
                    for s2 in st.copy().assume(rep, False):
                        chk.prove(s2, t.eq(s2.norm(w.I.load(s2, ok, 'i8')), C(8, 0)), k + ':as-%s:failure' % f, where, 'get_as_%s() says that it succeeded' % f)
        for s1, _ in w.all('v_delete', v):
            released(chk, w.I, s1, [], k)
        w.st = st0


def convert(chk, w, k, v, xb, tc, m, mt, mb, bit):
    dr = w.room(mb // 8, 'read')
    d0 = w.I.load(w.st, dr, 'i%d' % mb)
    for st, ret in w.all('v_get_' + m, v, dr):
        ok = t.eq(ret, C(8, 0))
        rep = representable(xb, tc, mt)
        for b in (True, False):
            for s2 in st.copy().assume(ok, b):
                if s2.dead():
                    continue
                d = s2.norm(w.I.load(s2, dr, 'i%d' % mb))
                if b:
                    chk.prove(s2, rep, k + ':get-%s:representable' % m, VAL, 'get_as() succeeds')
                    chk.prove(s2, equal(xb, d, tc, mt), k + ':get-%s:value' % m, VAL, 'get_as() gives %s' % d)
                else:
                    chk.prove(s2, t.not_(rep), k + ':get-%s:refused' % m, VAL, 'get_as() fails')
                    chk.prove(s2, t.eq(d, d0), k + ':get-%s:untouched' % m, VAL, 'get_as() fails and gives %s' % d)
        memory(chk, st, k)


def assign(chk, n, m, keyed, direct):
    """a number is given to a value of another type: it is taken when it fits; nothing changes otherwise"""
    tc, bits = NUMS[n]
    mt, mb = NUMS[m]
    w = V(chk)
    k = 'assign.%s=%s%s%s' % (n, m, '.keyed' if keyed else '', '' if direct else '.value')
    old, new = w.room(bits // 8, 'old'), w.room(mb // 8, 'new')
    for bit in itertools.product(*[(0, 1) if q == 'b' else (None,) for q in (n, m)]):
        st0 = w.st
        w.st = w.st.copy()
        w.st.log = None
        for p, b in zip((old, new), bit):
            if b is not None:
                w.I.store(w.st, p, C(8, b), 'i8')
        ty = lambda q: {'f': 'float', 'd': 'double'}.get(q, 'i%d' % NUMS[q][1])
        x, y = w.I.load(w.st, old, ty(n)), w.I.load(w.st, new, ty(m))
        xb, yb = w.I.load(w.st, old, 'i%d' % bits), w.I.load(w.st, new, 'i%d' % mb)
        cut = lambda q, z: t.trunc(z, 1) if q == 'b' else z
        v = made(w, n, cut(n, x), w.text('key') if keyed else None)
        u = None if direct else made(w, m, cut(m, y))
        tr = w.num('v_trace', v, w=16)
        seen = w.room(2, 'seen')
        w.I.store(w.st, seen, C(16, tr), 'i16')
        base = w.st
        for st, ret in (w.all('v_set_' + m, v, cut(m, y)) if direct else w.all('v_setv', v, u)):
            memory(chk, st, k)
            ok = t.eq(ret, C(8, 0))
            rep = representable(yb, mt, tc) if n not in 'fd' else C(1, 1)
            for b in (True, False):
                for s2 in st.copy().assume(ok, b):
                    if s2.dead():
                        continue
                    w.st = s2
                    dr = w.room(bits // 8, 'read')
                    l = w.all('v_get_' + n, v, dr)
                    for s3, r3 in l:
                        d = s3.norm(w.I.load(s3, dr, 'i%d' % bits))
                        chk.prove(s3, t.eq(r3, C(8, 0)), k + ':get', VAL, 'get_as() the own type fails')
                        if b:
                            chk.prove(s3, rep, k + ':representable', VAL, 'set() succeeds')
                            chk.prove(s3, t.eq(d, yb) if n == m else equal(yb, d, mt, tc), k + ':value', VAL, 'the value is %s' % d)
                        else:
                            chk.prove(s3, t.not_(rep), k + ':refused', VAL, 'set() fails')
                            chk.prove(s3, t.eq(d, xb), k + ':untouched', VAL, 'the value is %s after set() failed' % d)
                        if n not in 'fd':
                            for s4, r4 in (w.__dict__.__setitem__('st', s3), w.all('v_bool', v))[1]:
                                chk.prove(s4, t.eq(t.zext(r4, 8), t.zext(t.not_(t.eq(d, C(bits, 0))), 8)), k + ':bool', VAL, 'get_as_bool() is wrong after set()')
                    w.st = s2.copy()
                    chk.expect(w.num('v_trace', v, w=16) == tr + int(b), k + ':trace', VAL, 'trace() is %d after %d, set() %s' % (w.num('v_trace', v, w=16), tr, 'succeeded' if b else 'failed'), w.st)
                    chk.expect(w.num('v_dirty', v, seen, w=2) == int(b), k + ':dirty', VAL, 'dirty() is wrong', w.st)
                    chk.expect(w.num('v_dirty', v, seen, w=2) == 0, k + ':clean', VAL, 'dirty() is true again', w.st)
                    for s3, _ in w.all('v_delete', v):
                        w.st = s3
                        for s4, _ in w.all('v_delete', u) if u is not None else [(s3, None)]:
                            released(chk, w.I, s4, [], k)
        w.st = st0


def traces(chk, n):
    """dirty() compares any trace with any other"""
    w = V(chk)
    k = 'trace.' + n
    v = w.call('v_new_u8', C(8, 1)) if n == 'v' else w.call('k_new_u64', w.text('key'), C(64, 1))
    off = chk.M.off('C3PValue', '_set_trace')
    now, seen = t.S(16, 'trace'), t.S(16, 'seen')
    vp = w.I.res(w.st, v)
    w.I.store(w.st, P(vp.r, t.addc(vp.o, off)), now, 'i16')
    p = w.room(2, 'seen')
    w.I.store(w.st, p, seen, 'i16')
    for st, ret in w.all('v_dirty', v, p):
        chk.prove(st, t.eq(t.zext(ret, 8), t.zext(t.ne(now, seen), 8)), k + ':dirty', VAL, 'dirty() is %s' % ret)
        chk.prove(st, t.eq(st.norm(w.I.load(st, p, 'i16')), now), k + ':seen', VAL, 'dirty() leaves %s' % st.norm(w.I.load(st, p, 'i16')))
        w.st = st
        for s2, r2 in w.all('v_trace', v):
            chk.prove(s2, t.eq(t.trunc(r2, 16), now), k + ':trace', VAL, 'trace() is %s' % r2)
        for what, args, ok in (('v_set_u8', (v, C(8, 5)), 1), ('v_set_cs', (v, w.text('x')), 0), ('v_setv', (v, P(None)), 0), ('v_mark', (v,), 1)):
            w.st = st.copy()
            for s2, r2 in w.all(what, *args):
                w.st = s2
                for s3, r3 in w.all('v_trace', v):
                    chk.prove(s3, t.eq(t.trunc(r3, 16), t.addc(now, ok)), k + ':' + what, VAL, 'trace() is %s after %s' % (r3, what))
                for s3, r3 in w.all('v_dirty', v, P(None)):
                    chk.prove(s3, t.eq(t.zext(r3, 8), C(8, 0)), k + ':nobody', VAL, 'dirty(null) is true')
    memory(chk, w.st, k)


def pointers(chk, n, keyed, reap):
    """a value refers to what it was given, and releases it only when told so"""
    w = V(chk)
    k = 'pointer.%s%s%s' % (n, '.keyed' if keyed else '', '.reaped' if reap else '')
    key = w.text('key') if keyed else None
    full = n != 'empty'
    n = n if full else 'bin'
    new = lambda *a: w.call('v_new_' + n, *a) if key is None else w.call('k_new_' + n, key, *a)
    other = None
    if n == 'bin':
        x = w.heap('abcdef')
        v = new(x, i(5 if full else 0))
        p, q = w.room(4), w.room(4)
        chk.expect(w.num('v_get_bin', v, p, q, w=8) == 0, k + ':get', VAL, 'get_as() fails', w.st)
        chk.expect(w.same(w.ptr(p), x) and cv(w.st.norm(w.I.load(w.st, q, 'i32'))) == (5 if full else 0), k + ':value', VAL, 'get_as() does not give back what was given', w.st)
        chk.expect(w.num('v_length', v) == (5 if full else 0), k + ':length', VAL, 'length() of some bytes', w.st)
        y = w.heap('xyz')
        chk.expect(w.num('v_set_bin', v, y, i(3 if full else 0), w=8) == 0, k + ':set', VAL, 'set() fails', w.st)
        chk.expect(w.num('v_get_bin', v, p, q, w=8) == 0 and w.same(w.ptr(p), y) and cv(w.st.norm(w.I.load(w.st, q, 'i32'))) == (3 if full else 0), k + ':value2', VAL, 'get_as() does not give back what was set', w.st)
        other, x = x, y
    elif n in ('cs', 's'):
        x = w.heap('abcdef')
        v = new(x)
        p = w.room(4)
        chk.expect(w.num('v_get_cs', v, p, w=8) == 0, k + ':get', VAL, 'get_as() fails', w.st)
        copied = n == 's' and not keyed
        if not copied:
            y = w.heap('other')
            tr = w.num('v_trace', v, w=16)
            chk.expect(w.num('v_set_cs', v, y, w=8) == 0 and w.num('v_trace', v, w=16) == tr + 1, k + ':set', VAL, 'set() fails', w.st)
            chk.expect(w.num('v_get_cs', v, p, w=8) == 0 and w.same(w.ptr(p), y), k + ':value2', VAL, 'get_as() does not give back what was set', w.st)
            chk.expect(w.num('v_set_cs', v, x, w=8) == 0, k + ':set', VAL, 'set() fails', w.st)
            chk.expect(w.num('v_get_cs', v, p, w=8) == 0, k + ':get', VAL, 'get_as() fails', w.st)
            w.call('libc_free', y)
        chk.expect(w.same(w.ptr(p), x) != copied, k + ':copy', VAL, 'the text is %s' % ('shared' if copied else 'copied'), w.st)
        chk.expect(w.reads(w.ptr(p), 'abcdef'), k + ':value', VAL, 'get_as() does not give back what was given', w.st)
        if copied:
            chk.expect(w.num('v_reaps', v, w=2) == 1, k + ':owned', VAL, 'the copy is not owned', w.st)
            other, x = x, w.ptr(p)
    else:
        x = {'sb': lambda: w.call('sb_heap'), 'kvp': lambda: w.call('k_new_u8', w.text('in'), C(8, 3)), 'sw': lambda: w.call('sw_heap'), 'ident': lambda: w.call('ident_new')}[n]()
        if n == 'sb':
            w.call('sb_concat', x, w.text('abcdef'), i(6))
        v = new(x)
        if n != 'ident':
            p = w.room(4)
            w.I.store(w.st, p, P(None), 'ptr')
            chk.expect(w.num('v_get_' + n, v, p, w=8) == 0, k + ':get', VAL, 'get_as() fails', w.st)
            chk.expect(w.same(w.ptr(p), x), k + ':value', VAL, 'get_as() does not give back what was given', w.st)
        if n == 'sb':
            # an existing builder is appended to
            y = w.call('sb_heap')
            w.call('sb_concat', y, w.text('12'), i(2))
            w.I.store(w.st, p, y, 'ptr')
            chk.expect(w.num('v_get_sb', v, p, w=8) == 0 and w.same(w.ptr(p), y), k + ':append', VAL, 'get_as() replaces the builder', w.st)
            chk.expect(w.num('sb_length', y) == 8 and w.reads(w.call('sb_string', y), '12abcdef'), k + ':appended', VAL, 'get_as() appends another text', w.st)
            w.call('sb_heap_del', y)
    memory(chk, w.st, k)
    if not (n == 's' and not keyed):
        chk.expect(w.num('v_reaps', v, w=2) == 0, k + ':shared', VAL, 'the value takes what it was given', w.st)
    if reap is not None:
        w.call('v_reap', v, C(1, int(reap)))
    took = w.num('v_reaps', v, w=2)
    w.call('v_delete', v)
    gone = w.I.res(w.st, x).r.id in w.st.freed
    chk.expect(gone == bool(took), k + ':release', VAL, 'what the value held is %s' % ('released' if gone else 'not released'), w.st)
    for y in [other] + ([] if gone else [x]):
        if y is not None:
            if n in ('bin', 'cs', 's'):
                w.call('libc_free', y)
            elif n == 'sb':
                w.call('sb_heap_del', y)
            elif n == 'sw':
                w.call('sw_heap_del', y)
            elif n == 'kvp':
                w.call('v_delete', y)
            else:
                w.call('ident_delete', y)
    released(chk, w.I, w.st, [], k)


def keys(chk, ops):
    """the key is the last that was set; copies of keys are released"""
    w = V(chk)
    k = 'keys.' + '-'.join(ops)
    first = ops[0]
    a = w.text('alpha')
    v = w.call('k_new_own' if first == 'own' else 'k_new_u8', a, C(8, 7))
    want, own, mine = 'alpha', first == 'own', [a]
    for n, o in enumerate(ops[1:]):
        want = ('beta', 'gamma', '')[n]
        b = w.text(want)
        mine.append(b)
        if o == 'null':
            chk.expect(w.num('k_sets', v, P(None), w=8) == 0, k + ':set', KVP, 'setKey(null) fails', w.st)
            want = None
        else:
            own = o == 'own'
            chk.expect(w.num('k_sets' if own else 'k_setc', v, b, w=8) == 0, k + ':set', KVP, 'setKey() fails', w.st)
    p = w.I.res(w.st, w.call('k_key', v))
    if want is None:
        chk.expect(p.r is None, k + ':none', KVP, 'getKey() is not null', w.st)
    else:
        chk.expect(w.reads(p, want), k + ':key', KVP, 'getKey() is not what was set', w.st)
        chk.expect(w.same(p, mine[-1]) != own, k + ':copy', KVP, 'the key is %s' % ('shared' if own else 'copied'), w.st)
    memory(chk, w.st, k)
    p = w.room(1)
    chk.expect(w.num('v_get_u8', v, p, w=8) == 0 and cv(w.st.norm(w.I.load(w.st, p, 'i8'))) == 7, k + ':value', KVP, 'setting the key changes the value', w.st)
    w.call('v_delete', v)
    chk.expect(not any(w.I.res(w.st, x).r.id in w.st.freed for x in mine), k + ':kept', KVP, 'a text of the caller is released', w.st)
    released(chk, w.I, w.st, [], k)


class Chain:
    def __init__(self, chk, kinds, reaps, name):
        self.chk, self.k = chk, name
        self.w = w = V(chk)
        self.ms, self.keys, self.vals = [], [], []
        self.names = ('one', 'two', 'one', 'four')
        texts = {x: w.text(x) for x in self.names}
        for n, (c, r) in enumerate(zip(kinds, reaps)):
            key = None if c == 'v' else self.names[n]
            if c == 'v':
                v = w.call('v_new_u8', C(8, 10 + n))
            elif c == 'k':
                v = w.call('k_new_u64', texts[key], C(64, 10 + n))
            else:
                v = w.call('k_new_own', w.text(key), C(8, 10 + n))
            w.call('v_reapc', v, C(1, int(r)))
            self.ms.append(v)
            self.keys.append(key)
            self.vals.append(10 + n)
        self.reaps = list(reaps)
        self.chain = [0]
        for n in range(1, len(kinds)):
            # onto any member
            r = w.call('v_link', self.ms[self.chain[n % len(self.chain)]], self.ms[n], C(1, int(reaps[n])))
            self.bad(w.same(r, self.ms[n]), 'link', 'link() does not return what it linked')
            self.chain.append(n)
        self.loose = []      # chains that are not linked any more

    def bad(self, cond, key, detail):
        return self.chk.expect(cond, self.k + ':' + key, VAL, detail, self.w.st)

    def look(self, chain=None):
        w = self.w
        chain = self.chain if chain is None else chain
        head = self.ms[chain[0]]
        self.bad(w.num('v_count', head) == len(chain), 'count', 'count() is %d with %d members' % (w.num('v_count', head), len(chain)))
        for n in range(len(chain) + 2):
            p = w.call('v_idx', head, i(n))
            if n < len(chain):
                self.bad(w.same(p, self.ms[chain[n]]), 'index', 'valueWithIdx(%d) is another member' % n)
                out = w.room(8, 'out')
                w.I.store(w.st, out, i(0), 'i32')
                self.bad(w.num('v_idxget', head, i(n), out, w=8) == 0 and cv(w.st.norm(w.I.load(w.st, out, 'i32'))) == self.vals[chain[n]], 'index-value', 'valueWithIdx(%d) gives another value' % n)
            else:
                self.bad(w.I.res(w.st, p).r is None, 'index-end', 'valueWithIdx(%d) of %d members is not null' % (n, len(chain)))
                self.bad(w.num('v_idxget', head, i(n), w.room(8), w=8) == -1, 'index-end', 'valueWithIdx(%d) of %d members' % (n, len(chain)))
        if self.keys[chain[0]] is not None:
            for key in ('one', 'two', 'four', 'on', 'one1', ''):
                p = w.call('k_with', head, w.text(key))
                hit = [n for n in chain if self.keys[n] == key]
                if hit:
                    self.bad(w.same(p, self.ms[hit[0]]), 'key', 'valueWithKey(%s) is not the first of that key' % key)
                    out = w.room(8, 'out')
                    w.I.store(w.st, out, i(0), 'i32')
                    self.bad(w.num('k_withget', head, w.text(key), out, w=8) == 0 and cv(w.st.norm(w.I.load(w.st, out, 'i32'))) == self.vals[hit[0]], 'key-value', 'valueWithKey(%s) gives another value' % key)
                else:
                    self.bad(w.I.res(w.st, p).r is None, 'key-none', 'valueWithKey(%s) is not null' % key)
                    self.bad(w.num('k_withget', head, w.text(key), w.room(8), w=8) == -1, 'key-none', 'valueWithKey(%s)' % key)
            self.bad(w.I.res(w.st, w.call('k_with', head, P(None))).r is None, 'key-null', 'valueWithKey(null) is not null')
            sb = w.call('sb_heap')
            want = [self.keys[n] for n in chain if self.keys[n] is not None]
            n = w.num('k_collect', head, sb)
            self.bad(n == len(want), 'keys', 'collectKeys() returns %d of %d' % (n, len(want)))
            ln = w.num('sb_length', sb)
            self.bad(ln == len(''.join(want)), 'keys-text', 'collectKeys() wrote %d characters' % ln)
            if ln == len(''.join(want)):
                self.bad(w.reads(w.call('sb_string', sb), ''.join(want)), 'keys-text', 'collectKeys() wrote other keys')
            w.call('sb_heap_del', sb)
        memory(self.chk, w.st, self.k)

    def remove(self, how, n, destruct):
        w = self.w
        at = self.chain.index(n)
        m = self.ms[n]
        if how == 'drop':
            slot = w.room(4, 'prior')
            w.I.store(w.st, slot, self.ms[self.chain[0]], 'ptr')
            v = w.num('v_drop', self.ms[self.chain[0]], slot, m, C(1, int(destruct)), w=8)
            self.bad(v == 0, 'drop', 'drop() of a member returned %d' % v)
            self.chain.remove(n)
            if at == 0:
                want = self.ms[self.chain[0]] if self.chain else P(None)
                self.bad(w.same(w.ptr(slot), want), 'drop-prior', 'drop() of the first does not leave the second')
            out = [n]
        else:
            v = w.num('v_unlink', self.ms[self.chain[0]], m, C(1, int(destruct)), w=8)
            self.bad(v == 0, 'unlink', 'unlink() of a member returned %d' % v)
            out = self.chain[at:]
            self.chain = self.chain[:at]
        gone = w.I.res(w.st, m).r.id in w.st.freed
        dead = bool(destruct and self.reaps[n])
        self.bad(gone == dead, 'removed', '%s() %s what it removed' % (how, 'releases' if gone else 'does not release'))
        if not dead:
            self.loose.append(out)
            self.look(out)
        elif len(out) > 1:
            self.orphans(out)
        if self.chain:
            self.look()

    def orphans(self, out):
        """out[0] was destroyed: whatever follows a member that is not reaped is left"""
        for k, n in enumerate(out[1:], 1):
            if not self.reaps[n]:
                self.loose.append(out[k:])
                return

    def end(self):
        w = self.w
        for c in [self.chain] * bool(self.chain) + self.loose:
            todo = [c]
            while todo:
                d = todo.pop()
                w.call('v_delete', self.ms[d[0]])
                for k, n in enumerate(d[1:], 1):
                    if not self.reaps[n]:
                        gone = w.I.res(w.st, self.ms[n]).r.id in w.st.freed
                        self.bad(not gone, 'kept', 'a member that is not to be reaped is released')
                        todo.append(d[k:])
                        break
        released(self.chk, w.I, w.st, [], self.k)


def chains(chk, kinds, reaps):
    name = 'chain.%s.%s' % (''.join(kinds), ''.join(str(int(r)) for r in reaps))
    c = Chain(chk, kinds, reaps, name)
    c.look()
    keep = (c.w.st.copy(), list(c.chain), list(c.loose))
    n = len(kinds)
    outer = c.w.room(4)
    other = c.w.call('v_new_u8', C(8, 1))
    for how in ('unlink', 'drop'):
        v = c.w.num('v_unlink', c.ms[0], other, C(1, 1), w=8) if how == 'unlink' else c.w.num('v_drop', c.ms[0], outer, other, C(1, 1), w=8)
        c.bad(v == -1, how + '-none', '%s() of a stranger returned %d' % (how, v))
    if n > 0:
        v = c.w.num('v_unlink', c.ms[0], P(None), C(1, 1), w=8)
        c.bad(v == -1, 'unlink-null', 'unlink(null) returned %d' % v)
    c.w.call('v_delete', other)
    c.look()
    c.end()
    for k in range(n):
        for how in ('drop', 'unlink'):
            if how == 'unlink' and k == 0:
                continue
            for d in (False, True):
                for k2 in [None] + list(range(n)):
                    c.w.st, c.chain, c.loose = keep[0].copy(), list(keep[1]), list(keep[2])
                    c.k = '%s.%s%d%s%s' % (name, how, k, '.destruct' if d else '', '' if k2 is None else '.drop%d' % k2)
                    c.remove(how, k, d)
                    if k2 is not None:
                        if k2 not in c.chain:
                            continue
                        c.remove('drop', k2, not d)
                    c.end()
                    chk.count('removals')


def run(chk):
    chk.load()
    jobs = []
    deep = chk.tier != 'quick'
    for n in NUMS:
        for keyed in (0, 1):
            jobs.append((number, n, keyed))
            jobs += [(assign, n, m, keyed, d) for m in NUMS for d in (0, 1) if (n in 'fd') == (m in 'fd') and (n == m or n not in 'fd')]
    jobs += [(traces, 'v'), (traces, 'k')]
    for n in ('bin', 'cs', 's', 'sb', 'kvp', 'sw', 'ident'):
        for keyed in (0, 1):
            if n == 'bin':
                jobs += [(pointers, 'empty', keyed, r) for r in (None, True, False)]
            jobs += [(pointers, n, keyed, r) for r in ((None, True, False) if n != 'ident' else (None, False))]
    for a in ('own', 'const'):
        for r in (0, 1, 2, 3):
            jobs += [(keys, (a,) + o) for o in itertools.product(('own', 'const', 'null'), repeat=r)]
    for n in range(1, 5):
        for kinds in itertools.product('vko', repeat=n):
            if n == 4 and not deep and kinds not in (('k', 'v', 'o', 'k'), ('v', 'o', 'k', 'v'), ('o', 'o', 'o', 'o')):
                continue
            for reaps in itertools.product((True, False), repeat=n):
                if not deep and n > 2 and reaps.count(False) > 1:
                    continue
                jobs.append((chains, kinds, reaps))

    def work(part):
        for j in jobs[part::8]:
            chk.group(' '.join(str(x) if not callable(x) else x.__name__ for x in j), j[0], chk, *j[1:])
            chk.count('cases')
    chk.fork(8, work)
