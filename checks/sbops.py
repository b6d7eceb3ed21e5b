"""The StringBuilder operations as a table: how to set one up, and what it must do
to the byte sequences involved."""
from sblib import *


class Case:
    """one prepared call: state, arguments, instances, specification"""
    def __init__(self, label, w, name, args, ps, ret=None, p=None, q=None, pf=None, qf=None, keep=(), fail=None, extra=None):
        self.label, self.w, self.name, self.args, self.ps = label, w, name, args, ps
        self.ret, self.p, self.q, self.pf, self.qf = ret, p, q, pf, qf
        self.keep, self.extra = keep, extra
        self.fail = fail        # on allocation failure: value returned, None = not claimed
        self.unfail = True      # content is unchanged on allocation failure


def i32(n):
    return C(32, n & 0xffffffff)


SMALL = layouts(3, (1, 2))
FULL = layouts(3, (1, 2, 3))
BIG = (0x7fffffff, 0x80000000, 0x80000001, 0xffffffff)


_worlds = {}


def W(chk, I, *ls, **kw):
    """instances with these layouts; the construction is shared between cases"""
    key = (ls, tuple(sorted(kw.items())))
    c = _worlds.get(key)
    if c is None:
        w = World(chk, I)
        c = _worlds[key] = (w.st, [w.sb(l, 'sd'[i], **kw) for i, l in enumerate(ls)])
        c = _worlds[key] = (w.st, c[1])
    w = World(chk, I, c[0].copy())
    return w, [(p, [list(x) for x in f]) for p, f in c[1]]


def appends(chk, I):
    for l in FULL:
        for n in (0, 1, 2, 5, -1):
            for name in ('concat', 'prepend'):
                w, [(p, f)] = W(chk, I, l)
                b, bs = w.buf(max(n, 0), 'arg')
                add = [bs] if n > 0 else []
                yield Case('%s(buf,%d) on %s' % (name, n, l), w, name, [p, b, i32(n)], [p], pf=(f + add) if name == 'concat' else (add + f))
        for name in ('concat', 'prepend'):
            w, [(p, f)] = W(chk, I, l)
            yield Case('%s(null,2) on %s' % (name, l), w, name, [p, NULL, i32(2)], [p], pf=f)
        for n in (0, 1, 3):
            for name in ('concat_str', 'prepend_str'):
                w, [(p, f)] = W(chk, I, l)
                b, bs = w.buf(n, 'arg', nul=True)
                add = [bs] if n > 0 else []
                yield Case('%s of %d on %s' % (name, n, l), w, name, [p, b], [p], pf=(f + add) if name == 'concat_str' else (add + f))
    for l in SMALL:
        w, [(p, f)] = W(chk, I, l)
        c = t.S(8, 'c%%%d' % id(w), 1, None)
        yield Case('concat(char) on %s' % (l,), w, 'concat_chr', [p, c], [p], pf=f + [[c]])
        w, [(p, f)] = W(chk, I, l)
        c = t.S(8, 'c%%%d' % id(w))
        yield Case('concat(uint8_t) on %s' % (l,), w, 'concat_u8', [p, c], [p], pf=f + [[c]])
        for v in (0, 1):
            w, [(p, f)] = W(chk, I, l)
            yield Case('concat(bool) on %s' % (l,), w, 'concat_bool', [p, C(1, v)], [p], pf=f + [[C(8, ord('FT'[v]))]])
        for n in (1, 2, 4):
            w, [(p, f)] = W(chk, I, l)
            b, bs = w.heapbuf(n, 'arg')
            yield Case('concatHandoff(buf,%d) on %s' % (n, l), w, 'handoff_buf', [p, b, i32(n)], [p], pf=f + [bs])


def pairs(chk, I, n=None):
    for l in SMALL:
        for m in SMALL:
            yield l, m


def two(chk, I):
    for l, m in pairs(chk, I):
        w, [(p, f), (q, g)] = W(chk, I, l, m)
        yield Case('concat(StringBuilder*) of %s on %s' % (m, l), w, 'concat_sb', [p, q], [p, q], pf=f + ([flat(g)] if m else []), qf=g)
        w, [(p, f), (q, g)] = W(chk, I, l, m)
        yield Case('concatHandoff of %s on %s' % (m, l), w, 'handoff', [p, q], [p, q], pf=f + g, qf=[])
        w, [(p, f), (q, g)] = W(chk, I, l, m)
        yield Case('prependHandoff of %s on %s' % (m, l), w, 'prepend_handoff', [p, q], [p, q], pf=g + f, qf=[])
    for l in ((), (1,), (2, 1)):
        for m in FULL:
            n = sum(m)
            for k in list(range(0, n + 3)) + list(BIG):
                w, [(p, f), (q, g)] = W(chk, I, l, m)
                c = flat(g)
                yield Case('concatHandoffLimit(%d) of %s on %s' % (k, m, l), w, 'handoff_limit', [p, q, i32(k)], [p, q], p=flat(f) + c[:k], q=c[k:])
            for k in list(range(0, n + 3)) + list(BIG):
                w, [(p, f), (q, g)] = W(chk, I, l, m)
                c = flat(g)
                yield Case('concatLimit(%d) of %s on %s' % (k, m, l), w, 'limit', [p, q, i32(k)], [p, q], pf=f + ([c[:k]] if c[:k] else []), qf=g)
        for m in layouts(4, (1, 2)) if l == (2, 1) else SMALL:
            for i in list(range(len(m) + 2)) + [0xffffffff]:
                for k in list(range(len(m) + 2)) + [0x7fffffff, 0xffffffff]:
                    w, [(p, f), (q, g)] = W(chk, I, l, m)
                    mv = g[i:i + k]
                    yield Case('concatHandoffPositions(%d,%d) of %s on %s' % (i, k, m, l), w, 'handoff_pos', [p, q, i32(i), i32(k)], [p, q],
                               ret=len(mv), pf=f + mv, qf=g[:i] + g[i + k:])
    for name in ('concat_sb', 'handoff', 'prepend_handoff'):
        w, [(p, f)] = W(chk, I, (2, 1))
        yield Case('%s of null' % name, w, name, [p, NULL], [p], pf=f)
    for name in ('handoff_limit', 'limit'):
        w, [(p, f)] = W(chk, I, (2, 1))
        yield Case('%s of null' % name, w, name, [p, NULL, i32(2)], [p], pf=f)


def cuts(chk, I):
    for l in FULL:
        n = sum(l)
        for k in list(range(-2, n + 3)) + [0x7fffffff, -0x80000000]:
            w, [(p, f)] = W(chk, I, l)
            c = flat(f)
            yield Case('cull(%d) of %s' % (k, l), w, 'cull', [p, i32(k)], [p], p=c[max(k, 0):])
        for o in list(range(0, n + 2)) + [0x7fffffff]:
            for k in list(range(0, n + 2)) + [0x7fffffff]:
                w, [(p, f)] = W(chk, I, l)
                c = flat(f)
                c2 = c[o:o + k] if (o + k <= n) else ([] if k == 0 else c)
                yield Case('cull(%d,%d) of %s' % (o, k, l), w, 'cull2', [p, i32(o), i32(k)], [p], p=c2)
        for o, k in ((-1, 1), (-1, n), (-0x80000000, 1), (0, -1), (1, -1), (0, -0x80000000)):
            w, [(p, f)] = W(chk, I, l)
            yield Case('cull(%d,%d) of %s' % (o, k, l), w, 'cull2', [p, i32(o), i32(k)], [p], p=flat(f))
        w, [(p, f)] = W(chk, I, l)
        yield Case('clear of %s' % (l,), w, 'clear', [p], [p], p=[], pf=[])
        for i in list(range(len(l) + 2)) + [0xffffffff]:
            w, [(p, f)] = W(chk, I, l)
            yield Case('drop_position(%d) of %s' % (i, l), w, 'drop', [p, i32(i)], [p], ret=int(i < len(l)), pf=f[:i] + f[i + 1:])
        for k in [-1, 0] + list(range(1, n + 2)) + [0x7fffffff, -0x80000000]:
            w, [(p, f)] = W(chk, I, l)
            c = flat(f)
            if k <= 0:
                yield Case('chunk(%d) of %s' % (k, l), w, 'chunk', [p, i32(k)], [p], ret=-1, pf=f)
                continue
            parts = [c[i:i + k] for i in range(0, n, k)] if n else []
            yield Case('chunk(%d) of %s' % (k, l), w, 'chunk', [p, i32(k)], [p], ret=len(parts) if n else None, pf=parts, fail=-1)
        for d in (1, 2):
            w, [(p, f)] = W(chk, I, l)
            b, bs = w.buf(d, 'delim', nul=True)
            if len(l) < 2:
                yield Case('implode(%d) of %s' % (d, l), w, 'implode', [p, b], [p], ret=0, p=flat(f))
                continue
            c = list(f[0])
            for x in f[1:]:
                c += bs + x
            yield Case('implode(%d) of %s' % (d, l), w, 'implode', [p, b], [p], ret=len(l), p=c, fail=-1)
        w, [(p, f)] = W(chk, I, l)
        yield Case('implode(null) of %s' % (l,), w, 'implode', [p, NULL], [p], ret=0, pf=f)


def string_extra(n):
    def x(chk, I, st, r, case, key, c):
        if st.events() and any(e[0] == 'alloc-fail' for e in st.events()):
            return st
        q = I.res(st, r)
        if q.r is None:
            chk.refuse(st, key, SRC, 'string() is null')
            return st
        got = [st.norm(I.load(st, P(q.r, t.addc(q.o, j)), 'i8')) for j in range(n + 1)]
        same(chk, st, got, c + [C(8, 0)], key + ':contiguous', detail='content from string()')
        return st
    return x


def copied(b, k, bs, c):
    """the destination: first len(c) bytes copied, the rest untouched"""
    def x(chk, I, st, r, case, key, _):
        got = [st.norm(I.load(st, P(b.r, C(32, j)), 'i8')) for j in range(len(bs))]
        same(chk, st, got, c + bs[len(c):], key + ':copied', detail='destination')
        return st
    return x


def reads(chk, I):
    for l in FULL:
        n = sum(l)

        def obs(name, *args, ret=None, extra=None, **kw):
            w, [(p, f)] = W(chk, I, l)
            if extra is not None:
                kw['extra'] = (extra, flat(f))
            r = ret(flat(f)) if callable(ret) else ret
            return Case('%s%s of %s' % (name, tuple(cv(a) if isc(a) else str(a) for a in args), l), w, name, [p] + list(args), [p], ret=r, **dict(dict(p=flat(f), pf=f), **kw))
        yield obs('length', ret=n)
        yield obs('count', ret=len(l))
        yield obs('maxfrag', ret=max(l or (0,)))
        w, [(p, f)] = W(chk, I, l)
        yield Case('string of %s' % (l,), w, 'string', [p], [p], p=flat(f), pf=[flat(f)] if l else [], extra=(string_extra(n), flat(f)))
        for i in list(range(-2, n + 2)) + [0x7fffffff, -0x80000000]:
            yield obs('byte', i32(i), ret=lambda c, i=i: c[i] if 0 <= i < n else C(8, 0))
        for o in list(range(0, n + 2)) + list(BIG):
            for k in list(range(0, n + 2)) + list(BIG):
                w, [(p, f)] = W(chk, I, l)
                c = flat(f)[o:][:k]
                b, bs = w.buf(min(n, k), 'dest')
                yield Case('copyToBuffer(%d,%d) of %s' % (k, o, l), w, 'copy', [p, b, i32(k), i32(o)], [p], ret=len(c), pf=f, extra=(copied(b, k, bs, c), None))
        for i in list(range(-1, len(l) + 2)):
            w, [(p, f)] = W(chk, I, l)
            want = f[i] if 0 <= i < len(l) else []

            def term(chk, I, st, r, case, key, c):
                q = I.res(st, r)
                if q.r is None:
                    chk.refuse(st, key, SRC, 'null')
                    return st
                got = [st.norm(I.load(st, P(q.r, t.addc(q.o, j)), 'i8')) for j in range(len(c) + 1)]
                same(chk, st, got, c + [C(8, 0)], key + ':content', detail='position()')
                return st
            yield Case('position(%d) of %s' % (i, l), w, 'pos', [p, i32(i)], [p], pf=f, extra=(term, want))
    for l in layouts(2, (1, 2)):
        for strict in (0, 1):
            w, [(p, f)] = W(chk, I, l)

            def emp(chk, I, st, r, case, key, f, strict=strict, l=l):
                if sum(l) == 0:
                    want = C(1, 1)
                elif sum(l) == 1 and not strict:
                    want = t.eq(flat(f)[0], C(8, 0))
                else:
                    want = C(1, 0)
                rr = st.norm(r)
                chk.prove(st, t.eq(rr if rr.w == 1 else t.trunc(rr, 1), want), key + ':answer', SRC, 'isEmpty answers %s' % rr)
                return st
            yield Case('isEmpty(%d) of %s' % (strict, l), w, 'empty', [p, C(1, strict)], [p], pf=f, extra=(emp, f))
    for l in ((), (1,), (2,), (1, 1)):
        for name, lo, d in (('upper', 'a', -32), ('lower', 'A', 32)):
            w, [(p, f)] = W(chk, I, l)

            def cased(chk, I, st, r, case, key, c, lo=lo, d=d, p=p):
                st, got = observe(chk, I, st, p, key)
                g = flat(got)
                if len(g) != len(c):
                    chk.refuse(st, key + ':length', SRC, 'length changed')
                    return st
                for a, b in zip(g, c):
                    letter = t.and_(t.ule(C(8, ord(lo)), b), t.ule(b, C(8, ord(lo) + 25)))
                    chk.prove(st, t.or_(t.and_(letter, t.eq(a, t.add(b, C(8, d & 255)))), t.and_(t.not_(letter), t.eq(a, b))), key + ':case', SRC, 'byte %s became %s' % (b, a))
                return st
            yield Case('%s of %s' % (name, l), w, name, [p], [p], extra=(cased, flat(f)))


GROUPS = (('appends', appends), ('two', two), ('cuts', cuts), ('reads', reads))


def check_case(chk, I, case, content_rules=True):
    key = case.label
    w = case.w
    where = chk.subject('c3pv_sb_' + case.name)
    entry = []
    st = w.st
    ps = case.ps
    if I.cfg.malloc_fails:
        for p in ps:
            st, fr = observe(chk, I, st, p, key)
            entry.append(fr)
    fn = chk.M.funcs['c3pv_sb_' + case.name]
    case.where = where
    I.case_key = key
    for s, r in chk.run(I, fn, st.copy(), case.args):
        failed = any(e[0] == 'alloc-fail' for e in s.events())
        if content_rules:
            memory(chk, s, key)
        if content_rules and not failed:
            if case.ret is not None:
                rr = s.norm(r)
                want = case.ret if isinstance(case.ret, T) else C(rr.w, case.ret & MASK[rr.w])
                chk.prove(s, t.eq(rr, want), key + ':return', where, 'returns %s, not %s' % (rr, want))
            for p, fl, fr in ((ps[0] if ps else None, case.p, case.pf), (ps[-1] if ps else None, case.q, case.qf)):
                if fr is not None:
                    s = content(chk, I, s, p, flat(fr), key, 'after ' + key, frags=fr, where=where)
                elif fl is not None:
                    s = content(chk, I, s, p, fl, key, 'after ' + key, where=where)
            if case.extra:
                s = case.extra[0](chk, I, s, r, case, key, case.extra[1])
        if not content_rules:
            if failed:
                if case.fail is not None:
                    rr = s.norm(r)
                    chk.prove(s, t.eq(rr, C(rr.w, case.fail & MASK[rr.w])), key + ':reports-failure', where, 'returns %s after a failed allocation' % rr)
                if case.unfail:
                    for p, fr in zip(ps, entry):
                        s = content(chk, I, s, p, flat(fr), key + ':unchanged-on-failure', 'after a failed allocation in ' + key, where=where)
            if not getattr(case, 'handed', False):
                released(chk, I, s, ps, key, case.keep)
    chk.count('prepared calls')


LIMIT = 300


def run_groups(chk, fails, content_rules, groups=GROUPS, jobs=8):
    t0 = time.time()

    def part(k):
        I = interp(chk, False)
        n = 0
        for gname, g in groups:
            it = g(chk, I)
            while True:
                I.cfg.malloc_fails = False
                I.steps = 0
                try:
                    case = next(it)
                except StopIteration:
                    break
                except (Budget, Unsupported, RecursionError) as e:
                    chk.undec(gname, 'cannot set up: %s' % e)
                    break
                n += 1
                if n % jobs != k:
                    continue
                if len(chk.violations) >= 6:
                    return
                if time.time() - t0 > LIMIT:
                    chk.undec(gname, 'not reached within the time allowed')
                    return
                I.steps = 0
                I.cfg.malloc_fails = fails
                chk.group(case.label, check_case, chk, I, case, content_rules)
    chk.fork(jobs, part)
