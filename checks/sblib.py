"""StringBuilder worlds: instances built through the public API over regions with
symbolic bytes; observation through the public API; ownership accounting."""
import itertools
import time
from lib import *

SRC = 'src/StringBuilder.cpp'
SIZE = 64


def strlen(I, st, a, o, fn):
    """the first zero byte at or after the pointer, path by path"""
    p = I.res(st, a[0])
    if p.r is None:
        st.note('null-deref')
        st.emit(('null-deref', 'strlen', (p,), None, I.where(o, fn)))
        return [(st, t.fresh(32, 'strlen'))]
    out = []
    n = 0
    while True:
        q = P(p.r, t.addc(p.o, n))
        b = st.norm(I.load(st, q, 'i8', o, fn))
        e = t.eq(b, C(8, 0))
        d = st.decide(e)
        if d is True:
            out.append((st, C(32, n)))
            return out
        if d is None:
            for s in st.copy().assume(e, True):
                if not s.dead():
                    out.append((s, C(32, n)))
            l = [s for s in st.assume(e, False) if not s.dead()]
            if len(l) != 1:
                if not l:
                    return out
                raise Unsupported('strlen split')
            st = l[0]
        n += 1
        if n > 300:
            raise Unsupported('strlen without end')


def via(name):
    def m(I, st, a, o, fn):
        return I.call(I.mod.funcs[name], st, a)
    return m


def sized(I, st, p, n, write, ins, fn):
    """accesses of any sized region, and of released ones"""
    if p.r.id in st.freed:
        st.emit(('use-after-free', p.r, (p.o,), write, I.where(ins, fn)))
    if p.r.size is None:
        return
    o, n, z = st.norm(p.o), st.norm(n), st.norm(p.r.size)
    if isc(o) and isc(n) and isc(z):
        if sval(cv(o), 32) >= 0 and cv(o) + cv(n) <= cv(z):
            return
    st.emit(('acc', p.r, (o, n), write, I.where(ins, fn)))


def interp(chk, fails=False, **kw):
    I = chk.interp(max_rec=8, **kw)
    I.cfg.malloc_fails = fails
    I.cfg.merge = False
    I.cfg.endless = True
    chk.on_stuck = memory
    I.cfg.steps = 150000
    State.unify = True
    I.cfg.models.update({'strlen': strlen, 'strtok': via('c3pv_libc_strtok'), 'toupper': via('c3pv_libc_toupper'), 'tolower': via('c3pv_libc_tolower'),
                         'isspace': via('c3pv_libc_isspace')})
    for f in ('strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'strchr'):
        I.cfg.models.setdefault(f, via('c3pv_libc_' + f))
    I.cfg.on_access = sized
    I.cfg.force_unroll = lambda fn, loop, it: it < 400
    return I


class World:
    """instances under construction in one state"""
    def __init__(self, chk, I, st=None):
        self.chk, self.I = chk, I
        self.st = st or State()
        self.n = 0

    def f(self, name, *args):
        outs = self.chk.run(self.I, self.chk.M.funcs['c3pv_sb_' + name], self.st, list(args))
        if len(outs) != 1:
            raise Unsupported('construction splits: %s' % name)
        self.st, r = outs[0]
        return r

    def buf(self, n, name, nul=False, nonzero=False, values=None, rng=None):
        """caller's buffer of n symbolic bytes (and a terminator)"""
        r = self.I.new_region(self.st, 'lazy', name, size=C(32, n + (1 if nul else 0)))
        bs = []
        for i in range(n):
            if values and values[i] is not None:
                v = C(8, values[i])
            else:
                v = t.S(8, '%s[%d]%%%d' % (name, i, r.id), rng[0] if rng else 1 if (nul or nonzero) else 0, rng[1] if rng else None)
            self.I.store(self.st, P(r, C(32, i)), v, 'i8')
            bs.append(v)
        if nul:
            self.I.store(self.st, P(r, C(32, n)), C(8, 0), 'i8')
        return P(r), bs

    def sb(self, layout, name='s', nonzero=False, values=None):
        """instance holding fragments of the given lengths; returns (pointer, [fragment bytes])"""
        r = self.I.new_region(self.st, 'lazy', name, size=C(32, SIZE))
        p = P(r)
        self.f('init', p)
        frags = []
        k = 0
        for i, n in enumerate(layout):
            b, bs = self.buf(n, '%s.%d' % (name, i), nonzero=nonzero, values=values[k:k + n] if values else None)
            k += n
            self.f('concat', p, b, C(32, n))
            frags.append(bs)
        return p, frags

    def heapbuf(self, n, name):
        """a malloc'd buffer the callee may take over"""
        r = self.I.new_region(self.st, 'heap', name, size=C(32, n))
        r.hint = 'malloc'
        self.st.emit(('alloc', 'malloc', (C(32, n),), P(r), 'caller'))
        bs = []
        for i in range(n):
            v = t.S(8, '%s[%d]%%%d' % (name, i, r.id))
            self.I.store(self.st, P(r, C(32, i)), v, 'i8')
            bs.append(v)
        return P(r), bs


def flat(frags):
    return [b for f in frags for b in f]


def calls(chk, I, st, name, args):
    return chk.run(I, chk.M.funcs['c3pv_sb_' + name], st, args)


def one(chk, I, st, name, args, key):
    l = calls(chk, I, st, name, args)
    if len(l) != 1:
        raise Unsupported('%s: observer %s has %d outcomes' % (key, name, len(l)))
    return l[0]


def observe(chk, I, st, p, key):
    """[fragment bytes] through count() and position(); no allocation happens here"""
    mf = I.cfg.malloc_fails
    I.cfg.malloc_fails = False
    try:
        st, n = one(chk, I, st, 'count', [p], key)
        n = st.norm(n)
        if not isc(n):
            raise Unsupported(key + ': open fragment count')
        out = []
        for i in range(cv(n)):
            lr = I.new_region(st, 'lazy', 'len', size=C(32, 4))
            st, q = one(chk, I, st, 'posn', [p, C(32, i), P(lr)], key)
            ln = st.norm(I.load(st, P(lr), 'i32'))
            if not isc(ln):
                raise Unsupported(key + ': open fragment length')
            L = sval(cv(ln), 32)
            if L < 0 or L > 300:
                out.append(None)
                continue
            q = I.res(st, q)
            out.append([st.norm(I.load(st, P(q.r, t.addc(q.o, j)), 'i8')) for j in range(L)] if q.r is not None else None)
        return st, out
    finally:
        I.cfg.malloc_fails = mf


def same(chk, st, got, want, key, where=SRC, detail=''):
    """two byte lists are equal on every point of the state"""
    if got is None or len(got) != len(want):
        chk.refuse(st, key, where, '%s: %s bytes instead of %d' % (detail, None if got is None else len(got), len(want)))
        return False
    for i, (a, b) in enumerate(zip(got, want)):
        if st.norm(a) is st.norm(b):
            continue
        if chk.prove(st, t.eq(st.norm(a), st.norm(b)), key, where, '%s: byte %d is %s' % (detail, i, a)) is False:
            return False
    chk.ok(key)
    return True


def content(chk, I, st, p, want, key, detail='', frags=None, where=SRC):
    """the instance holds exactly these bytes (and fragments)"""
    st, got = observe(chk, I, st, p, key)
    if any(g is None for g in got):
        chk.refuse(st, key, where, detail + ': a fragment has no readable content')
        return st
    if frags is not None:
        if [len(g) for g in got] != [len(f) for f in frags]:
            chk.refuse(st, key + ':fragments', where, '%s: fragments of %s bytes instead of %s' % (detail, [len(g) for g in got], [len(f) for f in frags]))
        else:
            chk.ok(key + ':fragments')
    same(chk, st, flat(got), want, key, where, detail)
    return st


def memory(chk, st, key):
    """no access outside an allocation, none after release, no null dereference"""
    bad = False
    if chk.nulls(st, key, SRC):
        bad = True
    for e in st.events():
        if e[0] == 'use-after-free':
            chk.refuse(st, key + ':use-after-release', e[4], 'memory is used after it was released')
            bad = True
        elif e[0] == 'double-free':
            chk.refuse(st, key + ':double-release', e[4], 'memory is released twice')
            bad = True
        elif e[0] == 'free' and e[2][0].r is not None and e[2][0].r.kind == 'heap' and e[1] != 'free' and e[2][0].r.hint == 'malloc':
            chk.refuse(st, key + ':release-family', e[4], 'malloc memory is released by ' + e[1])
            bad = True
        elif e[0] == 'acc':
            o, n, z = st.norm(e[2][0]), st.norm(e[2][1]), e[1].size
            chk.count('open memory accesses')
            if chk.prove(st, t.and_(t.ule(n, z), t.ule(o, t.sub(z, n))), key + ':bounds', e[4], 'access of %s bytes at offset %s of %s bytes' % (n, o, z)) is False:
                bad = True
    if not bad:
        chk.ok(key + ':memory')
    return not bad


def released(chk, I, st, ps, key, keep=()):
    """after the destructors, every allocation has been released exactly once"""
    mf = I.cfg.malloc_fails
    I.cfg.malloc_fails = False
    try:
        for p in ps:
            st, _ = one(chk, I, st, 'fini', [p], key)
    finally:
        I.cfg.malloc_fails = mf
    memory(chk, st, key)
    for e in st.events():
        if e[0] == 'alloc':
            r = I.res(st, e[3]).r
            if r is None or r in keep:
                continue
            if r.id not in st.freed:
                chk.refuse(st, key + ':leak', e[4], 'this allocation is never released')
                return st
    chk.ok(key + ':released')
    return st


def layouts(maxfrag=3, lens=(1, 2, 3), limit=None):
    out = [()]
    for k in range(1, maxfrag + 1):
        out += list(itertools.product(lens, repeat=k))
    return out if limit is None else out[:limit]
