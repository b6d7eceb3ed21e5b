"""locate, contains, cmpBinString, replace, split, strcasestr, strcasecmp, deep_copy and the numeric readers of a token
are interpreted on every fragment layout of up to five arbitrary bytes (nonzero where a call takes text) with needles,
replacements and delimiters of up to three arbitrary bytes.  Each path's result is compared with the textbook definition
over the bytes: first match at or after the offset, left-to-right replacement without overlap, maximal runs of
non-delimiters; nothing outside the strings is read, and every allocation is released once."""
from sbops import *

LEVEL = 'other'
ASSUME = ['haystacks up to five bytes in up to three fragments, needles and replacements up to three; byte values are arbitrary', 'C locale character classes']


def comps(n, k):
    """layouts of n bytes in at most k fragments"""
    if n == 0:
        return [()]
    out = []

    def go(rest, acc):
        if rest == 0:
            out.append(tuple(acc))
            return
        if len(acc) == k:
            return
        for x in range(1, rest + 1):
            go(rest - x, acc + [x])
    go(n, [])
    return out


def eqs(a, b):
    r = C(1, 1)
    for x, y in zip(a, b):
        r = t.and_(r, t.eq(x, y))
    return r


def holds(st, c):
    """True/False/None"""
    return st.decide(st.norm(c)) if isinstance(c, T) else bool(c)


def split_on(chk, st, c):
    """[(state, truth)] with c decided"""
    c = st.norm(c)
    d = st.decide(c)
    if d is not None:
        return [(st, d)]
    return [(s, v) for v in (True, False) for s in st.copy().assume(c, v) if not s.dead()]


def first_match(chk, st, hay, nd, o):
    """[(state, index or None)] : first index >= o where the needle occurs"""
    out = []
    cur = [st]
    for i in range(o, len(hay) - len(nd) + 1):
        nxt = []
        for s in cur:
            for s2, v in match_at(chk, s, hay, nd, i):
                (out.append((s2, i)) if v else nxt.append(s2))
        cur = nxt
    return out + [(s, None) for s in cur]


def match_at(chk, st, hay, nd, i):
    """[(state, bool)] byte by byte, so that every state carries simple facts"""
    out = []
    cur = [st]
    for a, b in zip(hay[i:], nd):
        nxt = []
        for s in cur:
            for s2, v in split_on(chk, s, t.eq(a, b)):
                (nxt if v else out).append(s2 if v else (s2, False))
        cur = nxt
    return out + [(s, True) for s in cur]


class Search(Case):
    pass


def locate(chk, I, n):
    for l in comps(n, 3):
        for m in (1, 2, 3):
            if m > n + 1:
                continue
            for o in sorted(set([0, 1, n - 1, n, n + 1, -1])):
                w, [(p, f)] = W(chk, I, l)
                b, bs = w.buf(m, 'needle')
                hay = flat(f)

                def x(chk, I, st, r, case, key, c, hay=hay, bs=bs, o=o, n=n):
                    rr = st.norm(r)
                    if o < 0 or o >= n:
                        chk.prove(st, t.eq(rr, C(32, 0xffffffff)), key + ':result', case.where, 'returns %s for an offset outside the string' % rr)
                        return st
                    for s, i in first_match(chk, st, hay, bs, o):
                        chk.prove(s, t.eq(s.norm(rr), i32(-1 if i is None else i)), key + ':result', case.where, 'returns %s; the first match is %s' % (rr, i))
                    return st
                yield Case('locate(%d bytes, from %d) in %s' % (m, o, l), w, 'locate', [p, b, i32(m), i32(o)], [p], pf=f, extra=(x, None))
        for m in (0, 1, 2):
            w, [(p, f)] = W(chk, I, l, nonzero=True)
            b, bs = w.buf(m, 'needle', nul=True)
            hay = flat(f)

            def y(chk, I, st, r, case, key, c, hay=hay, bs=bs):
                rr = st.norm(r)
                if not bs:
                    chk.prove(st, t.eq(rr, C(rr.w, 0)), key + ':result', case.where, 'contains the empty string')
                    return st
                for s, i in first_match(chk, st, hay, bs, 0):
                    chk.prove(s, t.eq(s.norm(rr), C(rr.w, int(i is not None))), key + ':result', case.where, 'returns %s; the first match is %s' % (rr, i))
                return st
            yield Case('contains(%d bytes) in %s' % (m, l), w, 'contains_str', [p, b], [p], pf=f, extra=(y, None))
        w, [(p, f)] = W(chk, I, l)
        c = t.S(8, 'c%%%d' % id(w))

        def z(chk, I, st, r, case, key, _, hay=flat(f), c=c):
            rr = st.norm(r)
            for s, i in first_match(chk, st, hay, [c], 0):
                chk.prove(s, t.eq(s.norm(rr), C(rr.w, int(i is not None))), key + ':result', case.where, 'returns %s; the first match is %s' % (rr, i))
            return st
        yield Case('contains(char) in %s' % (l,), w, 'contains_chr', [p, c], [p], pf=f, extra=(z, None))
        for m in range(0, n + 2):
            w, [(p, f)] = W(chk, I, l)
            b, bs = w.buf(m, 'other')

            def q(chk, I, st, r, case, key, _, hay=flat(f), bs=bs):
                rr = st.norm(r)
                if len(bs) != len(hay) or not hay:
                    if hay or bs:
                        chk.prove(st, t.eq(rr, C(rr.w, 0)), key + ':result', case.where, 'strings of different length compare equal')
                    return st
                for s, v in match_at(chk, st, hay, bs, 0):
                    chk.prove(s, t.eq(s.norm(rr), C(rr.w, int(v))), key + ':result', case.where, 'returns %s' % rr)
                return st
            yield Case('cmpBinString(%d) of %s' % (m, l), w, 'cmp', [p, b, i32(m)], [p], p=flat(f), extra=(q, None))


def replaced(chk, st, hay, nd, rep):
    """[(state, bytes, count)]"""
    out = []
    cur = [(st, 0, [], 0)]
    while cur:
        s, i, acc, k = cur.pop()
        if i > len(hay) - len(nd):
            out.append((s, acc + hay[i:], k))
            continue
        for s2, v in match_at(chk, s, hay, nd, i):
            if v:
                cur.append((s2, i + len(nd), acc + rep, k + 1))
            else:
                cur.append((s2, i + 1, acc + [hay[i]], k))
    return out


def replace(chk, I, n):
    for l in comps(n, 3 if n < 5 else 2):
        for m in (1, 2, 3):
            if m > n:
                continue
            if n == 5 and m == 1:
                continue
            for k in (0, 1, 2, None):
                if n == 5 and k in (0, None):
                    continue
                w, [(p, f)] = W(chk, I, l, nonzero=True)
                nd, nb = w.buf(m, 'needle', nul=True)
                rp, rb = w.buf(k, 'repl', nul=True) if k is not None else (NULL, [])

                def x(chk, I, st, r, case, key, _, hay=flat(f), nb=nb, rb=rb, p=p):
                    rr = st.norm(r)
                    for s, want, cnt in replaced(chk, st, hay, nb, rb):
                        chk.prove(s, t.eq(s.norm(rr), i32(cnt)), key + ':count', case.where, 'returns %s; %d occurrences' % (rr, cnt))
                        content(chk, I, s, p, want, key, 'after ' + key, where=case.where)
                    return st
                yield Case('replace(%d,%s) in %s' % (m, k, l), w, 'replace', [p, nd, rp], [p], extra=(x, None), fail=-1)
        w, [(p, f)] = W(chk, I, l, nonzero=True)
        nd, nb = w.buf(0, 'needle', nul=True)
        yield Case('replace(empty) in %s' % (l,), w, 'replace', [p, nd, nd], [p], ret=0, pf=f)
        w, [(p, f)] = W(chk, I, l, nonzero=True)
        nd, nb = w.buf(1, 'needle', nul=True)
        yield Case('replace(null) in %s' % (l,), w, 'replace', [p, NULL, nd], [p], ret=0, pf=f)
        if n and n < 3:
            w, [(p, f)] = W(chk, I, l, nonzero=True)
            nd, nb = w.buf(n + 1, 'needle', nul=True)
            yield Case('replace(longer) in %s' % (l,), w, 'replace', [p, nd, NULL], [p], ret=0, pf=f)


def split(chk, I, n):
    for l in comps(n, 3):
        for m in (1, 2) if n < 5 else (1,):
            w, [(p, f)] = W(chk, I, l, nonzero=True)
            d, db = w.buf(m, 'delims', nul=True)

            def x(chk, I, st, r, case, key, _, hay=flat(f), db=db, p=p):
                rr = st.norm(r)
                cur = [(st, 0, [], [])]      # index, open token, tokens
                while cur:
                    s, i, tok, toks = cur.pop()
                    if i == len(hay):
                        toks = toks + ([tok] if tok else [])
                        chk.prove(s, t.eq(s.norm(rr), i32(len(toks))), key + ':count', case.where, 'returns %s; there are %d tokens' % (rr, len(toks)))
                        if toks:
                            content(chk, I, s, p, flat(toks), key, 'after ' + key, frags=toks, where=case.where)
                        continue
                    br = [(s, False)]
                    for q in db:
                        br = [(s3, v2) for s2, v in br for s3, v2 in ([(s2, True)] if v else split_on(chk, s2, t.eq(hay[i], q)))]
                    for s2, v in br:
                        if v:
                            cur.append((s2, i + 1, [], toks + ([tok] if tok else [])))
                        else:
                            cur.append((s2, i + 1, tok + [hay[i]], toks))
                return st
            c = Case('split(%d) of %s' % (m, l), w, 'split', [p, d], [p], extra=(x, None))
            c.unfail = False
            yield c


def texts(chk, I, n):
    """static text helpers on strings of n bytes; longer ones of capitals"""
    for m in range(0, n + 2):
        w = World(chk, I)
        small = n + m <= 4
        if not small and m > 3:
            continue
        a, ab = w.buf(n, 'a', nul=True, rng=None if small else (65, 90))
        b, bb = w.buf(m, 'b', nul=True, rng=None if small else (65, 90))

        def fold(c):
            up = t.and_(t.ule(C(8, 97), c), t.ule(c, C(8, 122)))
            return up, t.sub(c, C(8, 32))

        def up(chk, st, c):
            return [(s, (t.sub(c, C(8, 32)) if v else c)) for s, v in split_on(chk, st, fold(c)[0])]

        def ups(chk, st, bs):
            cur = [(st, [])]
            for c in bs:
                cur = [(s2, acc + [u]) for s, acc in cur for s2, u in up(chk, s, c)]
            return cur

        def x(chk, I, st, r, case, key, _, ab=ab, bb=bb, a=a):
            q = I.res(st, r)
            for s, U in ups(chk, st, ab):
                for s2, V in ups(chk, s, bb):
                    for s3, i in first_match(chk, s2, U, V, 0) if V else [(s2, None)]:
                        if i is None:
                            if q.r is not None:
                                chk.refuse(s3, key + ':result', case.where, 'finds a needle that is not there')
                            else:
                                chk.ok(key + ':result')
                        elif q.r is not a.r:
                            chk.refuse(s3, key + ':result', case.where, 'misses the needle at %d' % i)
                        else:
                            chk.prove(s3, t.eq(s3.norm(q.o), C(32, i)), key + ':result', case.where, 'finds %s; the first match is at %d' % (q, i))
            return st
        if n < 6:
            yield Case('strcasestr(%d,%d)' % (n, m), w, 'strcasestr', [a, b], [], extra=(x, None))

            def y(chk, I, st, r, case, key, _, ab=ab, bb=bb):
                rr = st.norm(r)
                for s, U in ups(chk, st, ab):
                    for s2, V in ups(chk, s, bb):
                        if len(U) != len(V):
                            chk.prove(s2, t.not_(t.eq(s2.norm(rr), C(32, 0))), key + ':differs', case.where, 'strings of different length compare equal')
                            continue
                        for s3, v in match_at(chk, s2, U, V, 0):
                            z = t.eq(s3.norm(rr), C(32, 0))
                            chk.prove(s3, z if v else t.not_(z), key + ':result', case.where, 'returns %s' % rr)
                return st
            if not small:
                continue
            w2 = World(chk, I, w.st.copy())
            yield Case('strcasecmp(%d,%d)' % (n, m), w2, 'strcasecmp', [a, b], [], extra=(y, None))
    for k in range(0, n + 2):
        w = World(chk, I)
        a, ab = w.buf(n, 'a', nul=True)

        def z(chk, I, st, r, case, key, _, ab=ab, k=k, n=n):
            q = I.res(st, r)
            ln = n if k == 0 else min(n, k)
            if q.r is None:
                chk.refuse(st, key, case.where, 'returns null')
                return st
            got = [st.norm(I.load(st, P(q.r, t.addc(q.o, j)), 'i8')) for j in range(ln + 1)]
            same(chk, st, got, ab[:ln] + [C(8, 0)], key + ':copy', case.where, 'deep copy')
            return st
        c = Case('deep_copy(%d,max %d)' % (n, k), w, 'deepcopy', [a, C(32, k)], [], extra=(z, None))
        c.handed = True
        yield c


DIGITS = (ord('0'), ord('9'), ord('a'), ord('f'), ord('A'), ord('F'), ord('7'))


def numbers(chk, I):
    """hexadecimal tokens: every digit class at every position"""
    for k in (1, 2, 3, 7, 8, 15, 16):
        for d in DIGITS:
            for pos in sorted(set((0, k // 2, k - 1))):
                txt = [ord('1')] * k
                txt[pos] = d
                for name, bits in (('pos_int', 32), ('pos_u64', 64)):
                    if k > bits // 4:
                        continue
                    w, [(p, f)] = W(chk, I, (1, 2 + k), values=tuple([120] + [ord('0'), ord('x')] + txt))
                    yield Case('%s of 0x%s' % (name, bytes(txt).decode()), w, name, [p, C(32, 1)], [p], ret=int(bytes(txt), 16), pf=f)


def groups():
    for n in (0, 1, 2, 3, 4, 5):
        yield ('locate %d' % n, lambda c, I, n=n: locate(c, I, n))
    for n in (0, 1, 2, 3, 4, 5):
        yield ('replace %d' % n, lambda c, I, n=n: replace(c, I, n))
    for n in (1, 2, 3, 4, 5):
        yield ('split %d' % n, lambda c, I, n=n: split(c, I, n))
    for n in (0, 1, 2, 3, 4, 5):
        yield ('texts %d' % n, lambda c, I, n=n: texts(c, I, n))
    yield ('numbers', numbers)


def run(chk):
    G = list(groups())
    run_groups(chk, False, True, G)
    run_groups(chk, True, False, [g for g in G if g[0].split()[0] in ('replace', 'split')])
