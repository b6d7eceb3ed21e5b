"""Hash-consed bit-vector terms with a canonical normal form.

The value domain of the abstract interpreter (absint.py).  An integer value is
kept as one of
  c     a constant
  s     an origin symbol (an argument, a cell of entry memory, a fresh value)
  lin   an affine/polynomial sum  c + sum(coef*atom)  modulo 2**w
  cat   a concatenation of bit slices (bit provenance: which bit of which
        origin symbol sits at which position)
  bw    a per-bit boolean function (truth table) of up to four terms
and a few opaque atoms (udiv, urem, variable shifts, float operations,
comparisons).  Equality of terms is identity after normalisation.
"""

MASK = [(1 << i) - 1 for i in range(0, 257)]


class T:
    __slots__ = ('op', 'w', 'a', 'id', 'lo', 'hi', 'memo')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_next = [0]


def _mk(op, w, a, key, lo=0, hi=None):
    k = (op, w, key)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T.__new__(T)
    t.op = op
    t.w = w
    t.a = a
    t.id = _next[0]
    _next[0] += 1
    t.lo = lo
    t.hi = MASK[w] if hi is None else hi
    t.memo = None
    _tab[k] = t
    return t


def C(w, v):
    v &= MASK[w]
    return _mk('c', w, (v,), v, v, v)


_fresh = [0]


def S(w, name, lo=0, hi=None):
    hi = MASK[w] if hi is None else hi
    return _mk('s', w, (name,), (name, lo, hi), lo, hi)


def fresh(w, name, lo=0, hi=None):
    _fresh[0] += 1
    return S(w, '%s#%d' % (name, _fresh[0]), lo, hi)


TRUE = C(1, 1)
FALSE = C(1, 0)


def isc(t):
    return t.op == 'c'


def cv(t):
    return t.a[0]


def sval(v, w):
    return v - (1 << w) if v >> (w - 1) else v


# ---------------------------------------------------------------- cat / slices
def _pieces(t):
    """t as a list of pieces, low to high: (None, const, len) or (atom, lo, len)."""
    if t.op == 'c':
        return [(None, t.a[0], t.w)]
    if t.op == 'cat':
        return list(t.a)
    return [(t, 0, t.w)]


def mkcat(pieces):
    out = []
    w = 0
    for p in pieces:
        a, lo, n = p
        if n == 0:
            continue
        w += n
        if a is None:
            lo &= MASK[n]
            if out and out[-1][0] is None:
                q = out[-1]
                out[-1] = (None, q[1] | (lo << q[2]), q[2] + n)
            else:
                out.append((None, lo, n))
        else:
            if a.op == 'cat' or a.op == 'c':
                sub = _pieces(extract(a, lo, n))
                for s in sub:
                    _push(out, s)
                continue
            _push(out, (a, lo, n))
    if len(out) == 1:
        a, lo, n = out[0]
        if a is None:
            return C(w, lo)
        if lo == 0 and n == a.w:
            return a
    # a sign extension spelled as slices stays as slices
    key = tuple((None if p[0] is None else p[0].id, p[1], p[2]) for p in out)
    lo_b = hi_b = 0
    pos = 0
    for a, lo, n in out:
        if a is None:
            lo_b += lo << pos
            hi_b += lo << pos
        else:
            if lo == 0 and a.hi <= MASK[n]:
                lo_b += a.lo << pos
                hi_b += a.hi << pos
            else:
                hi_b += min(MASK[n], a.hi >> lo) << pos
        pos += n
    return _mk('cat', w, tuple(out), key, lo_b, hi_b)


def _push(out, s):
    a, lo, n = s
    if out:
        b, l2, n2 = out[-1]
        if a is None and b is None:
            out[-1] = (None, l2 | ((lo & MASK[n]) << n2), n2 + n)
            return
        if a is not None and b is a and l2 + n2 == lo:
            out[-1] = (a, l2, n2 + n)
            return
    out.append(s)


def extract(t, lo, n):
    if lo == 0 and n == t.w:
        return t
    assert lo + n <= t.w, (t, lo, n)
    op = t.op
    if op == 'c':
        return C(n, t.a[0] >> lo)
    if lo and t.hi < (1 << lo):
        return C(n, 0)
    if op == 'cat':
        out = []
        pos = 0
        for a, l, m in t.a:
            s = max(pos, lo)
            e = min(pos + m, lo + n)
            if s < e:
                if a is None:
                    out.append((None, (l >> (s - pos)) & MASK[e - s], e - s))
                else:
                    out.append((a, l + (s - pos), e - s))
            pos += m
        if len(out) == 1 and out[0][0] is not None:
            return _slice(*out[0])
        return mkcat(out)
    return _slice(t, lo, n)


def _slice(t, lo, n):
    """slice of a non-cat, non-const atom"""
    if lo == 0 and n == t.w:
        return t
    if t.op in ('c', 'cat'):
        return extract(t, lo, n)
    if lo == 0 and t.op == 'lin':
        c, terms = t.a
        return lin(n, c, [(k, extract(a, 0, n)) for k, a in terms])
    if lo == 0 and t.op == 'mul':
        r = C(n, 1)
        for a in t.a:
            r = mul(r, extract(a, 0, n))
        return r
    if t.op == 'bw':
        return bw(t.a[0], [extract(x, lo, n) for x in t.a[1]])
    if t.op == 'sext':
        x = t.a[0]
        if lo + n <= x.w:
            return extract(x, lo, n)
        if lo == 0:
            return sext(x, n)
    key = ((t.id, lo, n),)
    hi = min(MASK[n], t.hi >> lo)
    # a slice that holds the whole value keeps the lower bound
    lb = t.lo if (lo == 0 and t.hi <= MASK[n]) else ((t.lo >> lo) if (lo + n == t.w or (t.hi >> lo) <= MASK[n]) else 0)
    return _mk('cat', n, ((t, lo, n),), key, lb, hi)


def zext(t, w):
    if w == t.w:
        return t
    return mkcat(_pieces(t) + [(None, 0, w - t.w)])


def trunc(t, w):
    return extract(t, 0, w)


def sext(t, w):
    if w == t.w:
        return t
    if t.op == 'c':
        return C(w, sval(t.a[0], t.w))
    if t.hi < (1 << (t.w - 1)):
        return zext(t, w)
    if t.op == 'sext':
        return sext(t.a[0], w)
    if t.op == 'cat' and t.a[-1][0] is None:
        _, v, n = t.a[-1]
        return mkcat(_pieces(t) + [(None, MASK[w - t.w] if v >> (n - 1) & 1 else 0, w - t.w)])
    if t.w == 1:
        # i1 -> 0 or all ones
        return _mk('sext', w, (t,), t.id)
    return _mk('sext', w, (t,), t.id)


def concat(parts):
    """parts low to high"""
    out = []
    for p in parts:
        out += _pieces(p)
    return mkcat(out)


# ---------------------------------------------------------------- affine sums
def _linview(t):
    """t as (const, [(coef, atom)]) with cat pieces split into shifted atoms"""
    w = t.w
    if t.op == 'c':
        return t.a[0], []
    if t.op == 'lin':
        return t.a[0], list(t.a[1])
    if t.op == 'cat':
        c = 0
        out = []
        pos = 0
        for a, lo, n in t.a:
            if a is None:
                c += lo << pos
            else:
                s = _slice(a, lo, n)
                out.append((1 << pos, _zx(s, w)))
            pos += n
        return c, out
    if t.op == 'bw' and t.a[0] == 0b01 and len(t.a[1]) == 1:  # not x = -x-1
        c, o = _linview(t.a[1][0])
        return -c - 1, [(-k, a) for k, a in o]
    return 0, [(1, t)]


def _zx(s, w):
    """zero extension of slice s to width w as an atom (cat with one piece)"""
    if s.w == w:
        return s
    p = _pieces(s)
    return mkcat(p + [(None, 0, w - s.w)])


def lin(w, c, terms):
    m = MASK[w]
    acc = {}
    objs = {}
    work = list(terms)
    c &= m
    while work:
        k, a = work.pop()
        k &= m
        if k == 0:
            continue
        if a.w != w:
            raise ValueError('width')
        if a.op == 'cat' and len(a.a) == 2 and a.a[1][0] is None and a.a[1][1] == 0 and a.a[0][0] is not None and a.a[0][0].op == 'bw' and \
                a.a[0][0].a[0] == 1 and len(a.a[0][0].a[1]) == 1 and a.a[0][1] == 0 and a.a[0][2] == a.a[0][0].w:
            # zext(~x) = mask - zext(x)
            n = a.a[0][2]
            c = (c + k * MASK[n]) & m
            work.append(((-k) & m, zext(a.a[0][0].a[1][0], w)))
            continue
        if a.op in ('c', 'lin') or (a.op == 'cat' and not _isatomcat(a)) or (a.op == 'bw' and a.a[0] == 1 and len(a.a[1]) == 1):
            cc, tt = _linview(a)
            c = (c + k * cc) & m
            for k2, a2 in tt:
                if a2 is a:
                    acc[a.id] = (acc.get(a.id, 0) + k * k2) & m
                    objs[a.id] = a
                else:
                    work.append(((k * k2) & m, a2))
            continue
        acc[a.id] = (acc.get(a.id, 0) + k) & m
        objs[a.id] = a
    items = [(k, objs[i]) for i, k in sorted(acc.items()) if k]
    if not items:
        return C(w, c)
    if len(items) == 1 and c == 0 and items[0][0] == 1:
        return items[0][1]
    if len(items) == 1 and items[0][0] == m and c == m and w > 1:
        return bw(0b01, [items[0][1]])
    # disjoint shifted slices: bit concatenation
    cat = _try_cat(w, c, items)
    if cat is not None:
        return cat
    key = (c, tuple((k, a.id) for k, a in items))
    # interval (only when no wrap is possible)
    lo = hi = c
    ok = True
    for k, a in items:
        if k > (m >> 1):
            ok = False
            break
        lo += k * a.lo
        hi += k * a.hi
    if not ok:
        lo, hi = sval(c, w), sval(c, w)
        for k, a in items:
            ks = sval(k, w)
            if ks >= 0:
                lo += ks * a.lo
                hi += ks * a.hi
            else:
                lo += ks * a.hi
                hi += ks * a.lo
    if lo < 0 or hi > m:
        lo, hi = 0, m
    return _mk('lin', w, (c, tuple(items)), key, lo, hi)


def _isatomcat(t):
    """cat of exactly one slice at position 0, zero above"""
    p = t.a
    return p[0][0] is not None and (len(p) == 1 or (len(p) == 2 and p[1][0] is None and p[1][1] == 0))


def _try_cat(w, c, items):
    """All addends shifted slices with disjoint bits -> cat, else None"""
    spans = []
    for k, a in items:
        if k & (k - 1):
            return None
        pos = k.bit_length() - 1
        if a.op == 'cat' and _isatomcat(a):
            x, lo, n = a.a[0]
        else:
            if pos == 0 and len(items) > 1 and a.hi == MASK[w]:
                return None
            x, lo, n = a, 0, min(a.hi.bit_length(), w)
            if n == w and pos:
                n = w - pos
                if a.op != 's' and a.op != 'cat':
                    return None
                return None  # lossy shift stays affine
        if pos + n > w:
            if len(items) == 1 and c == 0:
                return None
            return None
        spans.append((pos, n, x, lo))
    spans.sort(key=lambda s: s[0])
    out = []
    cur = 0
    for pos, n, x, lo in spans:
        if pos < cur:
            return None
        if pos > cur:
            out.append((None, (c >> cur) & MASK[pos - cur], pos - cur))
        if (c >> pos) & MASK[n]:
            return None
        out.append((x, lo, n))
        cur = pos + n
    if cur < w:
        out.append((None, (c >> cur) & MASK[w - cur], w - cur))
    return mkcat(out)


def add(a, b):
    return lin(a.w, 0, [(1, a), (1, b)])


def sub(a, b):
    return lin(a.w, 0, [(1, a), (-1, b)])


def neg(a):
    return lin(a.w, 0, [(-1, a)])


def addc(a, v):
    return lin(a.w, v, [(1, a)])


def mulc(a, v):
    return lin(a.w, 0, [(v, a)])


def mul(a, b):
    w = a.w
    if a.op == 'c':
        return mulc(b, a.a[0])
    if b.op == 'c':
        return mulc(a, b.a[0])
    ca, ta = _linview(a)
    cb, tb = _linview(b)
    if len(ta) * len(tb) > 12:
        ca, ta = 0, [(1, a)]
        cb, tb = 0, [(1, b)]
    out = []
    for k, x in ta:
        if cb:
            out.append((k * cb, x))
        for k2, y in tb:
            out.append((k * k2, _mono(w, x, y)))
    for k2, y in tb:
        if ca:
            out.append((k2 * ca, y))
    return lin(w, ca * cb, out)


def _mono(w, x, y):
    f = (list(x.a) if x.op == 'mul' else [x]) + (list(y.a) if y.op == 'mul' else [y])
    f.sort(key=lambda t: t.id)
    lo = hi = 1
    for t in f:
        lo *= t.lo
        hi *= t.hi
    if hi > MASK[w]:
        lo, hi = 0, MASK[w]
    return _mk('mul', w, tuple(f), tuple(t.id for t in f), lo, hi)


# ---------------------------------------------------------------- bitwise
def _tt_norm(tt, args):
    """drop irrelevant and duplicate operands of a truth table"""
    changed = True
    args = list(args)
    while changed:
        changed = False
        n = len(args)
        for i in range(n):
            # irrelevant
            rel = False
            for r in range(1 << n):
                if not (r >> i) & 1:
                    if ((tt >> r) & 1) != ((tt >> (r | (1 << i))) & 1):
                        rel = True
                        break
            dup = None
            if rel:
                for j in range(i):
                    if args[j] is args[i]:
                        dup = j
                        break
            if not rel or dup is not None or isc(args[i]):
                new = 0
                for r in range(1 << (n - 1)):
                    low = r & MASK[i]
                    high = r >> i
                    full = low | (high << (i + 1))
                    if dup is not None:
                        if (full >> dup) & 1:
                            full |= 1 << i
                    elif isc(args[i]):
                        if args[i].a[0] & 1:
                            full |= 1 << i
                    if (tt >> full) & 1:
                        new |= 1 << r
                if isc(args[i]) and rel and dup is None and args[i].a[0] not in (0, MASK[args[i].w]):
                    continue
                tt = new
                args.pop(i)
                changed = True
                break
    return tt, args


def bw(tt, args):
    """bitwise function; args all the same width"""
    w = args[0].w
    # split along piece boundaries when an operand is const or cat
    cuts = {0, w}
    multi = False
    for a in args:
        if a.op == 'c':
            v = a.a[0]
            prev = v & 1
            for i in range(1, w):
                b = (v >> i) & 1
                if b != prev:
                    cuts.add(i)
                    prev = b
        elif a.op == 'cat':
            pos = 0
            for p in a.a:
                if p[0] is None:
                    v = p[1]
                    prev = None
                    for i in range(p[2]):
                        b = (v >> i) & 1
                        if b != prev:
                            cuts.add(pos + i)
                            prev = b
                    cuts.add(pos + p[2])
                else:
                    cuts.add(pos)
                    cuts.add(pos + p[2])
                pos += p[2]
    cl = sorted(cuts)
    if len(cl) > 2:
        parts = []
        for i in range(len(cl) - 1):
            parts.append(bw(tt, [extract(a, cl[i], cl[i + 1] - cl[i]) for a in args]))
        return concat(parts)
    # flatten nested bw
    flat = []
    n = len(args)
    exprs = []
    for a in args:
        if a.op == 'bw':
            exprs.append((a.a[0], a.a[1]))
        else:
            exprs.append((0b10, (a,)))
    ops = []
    for _, xs in exprs:
        for x in xs:
            if x not in ops:
                ops.append(x)
    if len(ops) <= 6:
        new = 0
        for r in range(1 << len(ops)):
            idx = 0
            for i, (t2, xs) in enumerate(exprs):
                k = 0
                for j, x in enumerate(xs):
                    if (r >> ops.index(x)) & 1:
                        k |= 1 << j
                if (t2 >> k) & 1:
                    idx |= 1 << i
            if (tt >> idx) & 1:
                new |= 1 << r
        tt, args = new, ops
    # complementary comparisons of one pair are one operand
    if w == 1 and len(args) > 1:
        for i in range(len(args)):
            for j in range(i):
                if args[i].op in _CMPNOT and not_(args[i]) is args[j]:
                    nt = 0
                    for r in range(1 << len(args)):
                        # args[i] == not args[j]
                        rr = r & ~(1 << i)
                        if not (r >> j) & 1:
                            rr |= 1 << i
                        if (tt >> rr) & 1:
                            nt |= 1 << r
                    tt = nt
    tt, args = _tt_norm(tt, args)
    n = len(args)
    if n == 0:
        return C(w, MASK[w] if tt & 1 else 0)
    if n == 1:
        if tt == 0b10:
            return args[0]
        if w == 1 and args[0].op in _CMPNOT:
            return not_(args[0])
    # canonical operand order
    order = sorted(range(n), key=lambda i: args[i].id)
    new = 0
    for r in range(1 << n):
        k = 0
        for pos, i in enumerate(order):
            if (r >> pos) & 1:
                k |= 1 << i
        if (tt >> k) & 1:
            new |= 1 << r
    args = tuple(args[i] for i in order)
    hi = None
    if not new & 1:
        hi = 0
        for a in args:
            hi |= MASK[a.hi.bit_length()]
        hi = min(hi, MASK[w])
    if n == 2 and new == 0b1000:
        hi = min(args[0].hi, args[1].hi)
    return _mk('bw', w, (new, args), (new, tuple(a.id for a in args)), 0, hi)


def and_(a, b):
    return bw(0b1000, [a, b])


def or_(a, b):
    return bw(0b1110, [a, b])


def xor_(a, b):
    return bw(0b0110, [a, b])


_CMPNOT = {'eq': 'ne', 'ne': 'eq', 'ult': 'ule', 'ule': 'ult', 'slt': 'sle', 'sle': 'slt'}


def not_(a):
    if a.w == 1:
        if a.op == 'c':
            return C(1, 1 - a.a[0])
        if a.op in ('eq', 'ne'):
            return _mk(_CMPNOT[a.op], 1, a.a, tuple(x.id for x in a.a))
        if a.op in ('ult', 'ule', 'slt', 'sle'):
            x, y = a.a
            return _mk(_CMPNOT[a.op], 1, (y, x), (y.id, x.id))
    return bw(0b01, [a])


# ---------------------------------------------------------------- shifts, division
def shl(a, b):
    if isc(b):
        k = cv(b)
        if k >= a.w:
            return C(a.w, 0)
        if k == 0:
            return a
        if a.op == 'lin' or (a.hi << k) <= MASK[a.w]:
            return mulc(a, 1 << k)
        # lossy shift of bits: keep provenance
        if a.op in ('cat',):
            return concat([C(k, 0), extract(a, 0, a.w - k)])
        return mulc(a, 1 << k)
    return _mk('shl', a.w, (a, b), (a.id, b.id))


def lshr(a, b):
    if isc(b):
        k = cv(b)
        if k >= a.w:
            return C(a.w, 0)
        if k == 0:
            return a
        # a lossy left shift in affine form, shifted back: keep bits
        if a.op == 'lin' and a.a[0] & MASK[k] == 0 and all(c & MASK[k] == 0 for c, _ in a.a[1]):
            inner = lin(a.w - k, a.a[0] >> k, [(c >> k, extract(x, 0, a.w - k)) for c, x in a.a[1]])
            return zext(inner, a.w)
        return zext(extract(a, k, a.w - k), a.w)
    return _mk('lshr', a.w, (a, b), (a.id, b.id), 0, a.hi)


def ashr(a, b):
    if isc(b):
        k = min(cv(b), a.w - 1)
        if k == 0:
            return a
        if a.op == 'lin' and a.a[0] & MASK[k] == 0 and all(c & MASK[k] == 0 for c, _ in a.a[1]):
            inner = lin(a.w - k, a.a[0] >> k, [(c >> k, extract(x, 0, a.w - k)) for c, x in a.a[1]])
            return sext(inner, a.w)
        return sext(extract(a, k, a.w - k), a.w)
    if a.hi < (1 << (a.w - 1)):
        return lshr(a, b)
    return _mk('ashr', a.w, (a, b), (a.id, b.id))


def udiv(a, b):
    if isc(b) and cv(b):
        v = cv(b)
        if v == 1:
            return a
        if isc(a):
            return C(a.w, cv(a) // v)
        if v & (v - 1) == 0:
            return lshr(a, C(a.w, v.bit_length() - 1))
        if a.op == 'lin' and a.a[0] % v == 0 and all(c % v == 0 for c, _ in a.a[1]) and _nowrap(a):
            return lin(a.w, a.a[0] // v, [(c // v, x) for c, x in a.a[1]])
        if a.op == 'lin' and _nowrap(a):
            low = [(c, x) for c, x in a.a[1] if c % v]
            if len(low) < len(a.a[1]) and a.a[0] % v + sum(c * x.hi for c, x in low) < v:
                return lin(a.w, a.a[0] // v, [(c // v, x) for c, x in a.a[1] if c % v == 0])
        return _mk('udiv', a.w, (a, b), (a.id, b.id), a.lo // v, a.hi // v)
    hi = a.hi // max(1, b.lo)
    return _mk('udiv', a.w, (a, b), (a.id, b.id), 0, hi)


def _nowrap(a):
    hi = a.a[0]
    for c, x in a.a[1]:
        hi += c * x.hi
    return hi <= MASK[a.w]


def urem(a, b):
    if isc(b) and cv(b):
        v = cv(b)
        if isc(a):
            return C(a.w, cv(a) % v)
        if v & (v - 1) == 0:
            n = v.bit_length() - 1
            if n == 0:
                return C(a.w, 0)
            return zext(extract(a, 0, n), a.w)
        if a.hi < v:
            return a
        if a.op == 'lin' and _nowrap(a):
            low = [(c, x) for c, x in a.a[1] if c % v]
            if len(low) < len(a.a[1]) and a.a[0] % v + sum(c * x.hi for c, x in low) < v:
                return lin(a.w, a.a[0] % v, low)
        return _mk('urem', a.w, (a, b), (a.id, b.id), 0, min(a.hi, v - 1))
    if a.hi < b.lo:
        return a
    return _mk('urem', a.w, (a, b), (a.id, b.id), 0, min(a.hi, max(b.hi - 1, 0)))


def sdiv(a, b):
    top = 1 << (a.w - 1)
    if a.hi < top and b.hi < top:
        return udiv(a, b)
    if isc(a) and isc(b) and cv(b):
        x, y = sval(cv(a), a.w), sval(cv(b), b.w)
        q = abs(x) // abs(y)
        return C(a.w, q if (x < 0) == (y < 0) else -q)
    return _mk('sdiv', a.w, (a, b), (a.id, b.id))


def srem(a, b):
    top = 1 << (a.w - 1)
    if a.hi < top and b.hi < top:
        return urem(a, b)
    if isc(a) and isc(b) and cv(b):
        x, y = sval(cv(a), a.w), sval(cv(b), b.w)
        r = abs(x) % abs(y)
        return C(a.w, -r if x < 0 else r)
    return _mk('srem', a.w, (a, b), (a.id, b.id))


# ---------------------------------------------------------------- comparisons
def eq(a, b):
    if a is b:
        return TRUE
    if a.hi < b.lo or b.hi < a.lo:
        return FALSE
    if a.w == 1:
        if isc(b):
            return a if cv(b) else not_(a)
        if isc(a):
            return b if cv(a) else not_(b)
        return not_(xor_(a, b))
    if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w:
        return eq(a.a[0], b.a[0])
    for x, y in ((a, b), (b, a)):
        if x.op == 'sext' and y.op == 'cat' and y.a[-1][0] is None and y.a[-1][1] == 0:
            i = x.a[0]
            n = y.w - y.a[-1][2]
            if n <= i.w and i.w < y.w:
                # equal to a number without a sign: the sign bit is clear
                return and_(eq(i, extract(y, 0, i.w)), eq(extract(i, i.w - 1, 1), C(1, 0)))
    if isc(a):
        a, b = b, a
    if isc(b):
        v = cv(b)
        if a.op == 'cat':
            # piecewise
            parts = []
            pos = 0
            for x, lo, n in a.a:
                bits = (v >> pos) & MASK[n]
                pos += n
                if x is None:
                    if bits != lo:
                        return FALSE
                    continue
                parts.append((_slice(x, lo, n), bits))
            if len(parts) == 1:
                s, bits = parts[0]
                if s.op != 'cat' or s.w != a.w:
                    return eq(s, C(s.w, bits))
        if a.op == 'lin':
            c, ts = a.a
            if len(ts) == 1 and ts[0][0] & 1:
                inv = pow(ts[0][0], -1, 1 << a.w)
                return eq(ts[0][1], C(a.w, (v - c) * inv))
            d = lin(a.w, c - v, ts)
            return _eq0(d)
        if a.op == 'sext':
            x = a.a[0]
            lowv = v & MASK[x.w]
            if C(a.w, sval(lowv, x.w)) is b:
                return eq(x, C(x.w, lowv))
            return FALSE
        if a.op == 'bw' and a.a[0] == 1 and len(a.a[1]) == 1:
            return eq(a.a[1][0], C(a.w, ~v))
        if v == 0 and a.op == 'bw' and a.a[0] == 0b0110 and len(a.a[1]) == 2:
            return eq(a.a[1][0], a.a[1][1])
        return _mk('eq', 1, (a, b), (a.id, b.id), 0, 1)
    if a.op == 'cat' and b.op == 'cat':
        # strip equal low / high pieces
        d = _catstrip(a, b)
        if d is not None:
            return d
    d = sub(a, b)
    if d.op == 'c':
        return TRUE if cv(d) == 0 else FALSE
    if d.op == 'lin':
        return _eq0(d)
    return eq(d, C(a.w, 0))


def _catstrip(a, b):
    cuts = {0, a.w}
    for t in (a, b):
        pos = 0
        for p in t.a:
            cuts.add(pos)
            pos += p[2]
    cl = sorted(cuts)
    rest = []
    for i in range(len(cl) - 1):
        x = extract(a, cl[i], cl[i + 1] - cl[i])
        y = extract(b, cl[i], cl[i + 1] - cl[i])
        if x is y:
            continue
        if isc(x) and isc(y):
            return FALSE
        rest.append((x, y))
    if not rest:
        return TRUE
    if len(rest) == 1 and (rest[0][0].w < a.w):
        return eq(rest[0][0], rest[0][1])
    return None


def _eq0(d):
    """d (lin, >=2 atoms or even coef) == 0, sign-normalised"""
    c, ts = d.a
    k0 = ts[0][0]
    if k0 > (MASK[d.w] >> 1):
        d = neg(d)
        if d.op != 'lin':
            return eq(d, C(d.w, 0))
    # 2 atoms, coefs 1,-1 -> eq of atoms
    c, ts = d.a
    if c == 0 and len(ts) == 2 and ts[0][0] == 1 and ts[1][0] == MASK[d.w]:
        x, y = ts[0][1], ts[1][1]
        if x.op == 'cat' and y.op == 'cat' and x.a[0][2] == y.a[0][2] < d.w:
            return eq(_slice(*x.a[0]), _slice(*y.a[0]))
        return _mk('eq', 1, (x, y), (x.id, y.id), 0, 1)
    z = C(d.w, 0)
    return _mk('eq', 1, (d, z), (d.id, z.id), 0, 1)


def has_sext(x):
    return x.op == 'sext' or x.op == 'lin' and any(a.op == 'sext' for k, a in x.a[1])


def ne(a, b):
    return not_(eq(a, b))


def ult(a, b):
    if a is b:
        return FALSE
    if a.hi < b.lo:
        return TRUE
    if a.lo >= b.hi:
        return FALSE
    if isc(b) and cv(b) == 1:
        return eq(a, C(a.w, 0))
    if isc(a) and cv(a) == 0:
        return ne(b, a)
    z = _strip_zext(a, b)
    if z:
        return ult(*z)
    return _mk('ult', 1, (a, b), (a.id, b.id), 0, 1)


def ule(a, b):
    return not_(ult(b, a))


def _strip_zext(a, b):
    """compare at the width of the wider zero-extended operand"""
    n = max(a.hi.bit_length(), b.hi.bit_length(), 1)
    if n >= a.w:
        return None
    for t in (a, b):
        if t.op == 'cat':
            last = t.a[-1]
            if not (last[0] is None and last[1] == 0):
                return None
            n = max(n, t.w - last[2])
        elif t.op != 'c':
            return None
    if n >= a.w:
        return None
    return extract(a, 0, n), extract(b, 0, n)


def slt(a, b):
    top = 1 << (a.w - 1)
    if a is b:
        return FALSE
    if a.hi < top and b.hi < top:
        return ult(a, b)
    if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w:
        return slt(a.a[0], b.a[0])
    if a.op == 'sext' and isc(b):
        x = a.a[0]
        v = sval(cv(b), b.w)
        if v > (1 << (x.w - 1)) - 1:
            return TRUE
        if v <= -(1 << (x.w - 1)):
            return FALSE
        return slt(x, C(x.w, v))
    if b.op == 'sext' and isc(a):
        x = b.a[0]
        v = sval(cv(a), a.w)
        if v >= (1 << (x.w - 1)) - 1:
            return FALSE
        if v < -(1 << (x.w - 1)):
            return TRUE
        return slt(C(x.w, v), x)
    if isc(a) and isc(b):
        return C(1, 1 if sval(cv(a), a.w) < sval(cv(b), b.w) else 0)
    if a.lo >= top and b.hi < top:
        return TRUE
    if a.hi < top and b.lo >= top:
        return FALSE
    if isc(b) and cv(b) == 0:
        return extract(a, a.w - 1, 1)   # the sign bit
    if isc(a) and cv(a) == MASK[a.w]:   # -1 < b
        return not_(extract(b, b.w - 1, 1))
    return _mk('slt', 1, (a, b), (a.id, b.id), 0, 1)


def sle(a, b):
    return not_(slt(b, a))


ICMP = {
    'eq': eq, 'ne': ne, 'ult': ult, 'ule': ule, 'slt': slt, 'sle': sle,
    'ugt': lambda a, b: ult(b, a), 'uge': lambda a, b: ule(b, a),
    'sgt': lambda a, b: slt(b, a), 'sge': lambda a, b: sle(b, a),
}


def fop(w, name, args):
    """opaque operation, canonical in its operands"""
    return _mk('fop', w, (name,) + tuple(args), (name,) + tuple(a.id if isinstance(a, T) else ('k', a) for a in args))


# ---------------------------------------------------------------- evaluation
def ev(t, env, memo=None):
    """Value of t under env: {symbol: int}; opaque atoms may be in env too.
    Raises KeyError when an atom has no value."""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t in env:
        r = env[t]
        memo[t.id] = r
        return r
    op = t.op
    w = t.w
    m = MASK[w]
    if op == 'c':
        r = t.a[0]
    elif op == 'lin':
        r = t.a[0]
        for k, a in t.a[1]:
            r += k * ev(a, env, memo)
        r &= m
    elif op == 'cat':
        r = 0
        pos = 0
        for a, lo, n in t.a:
            if a is None:
                r |= lo << pos
            else:
                r |= ((ev(a, env, memo) >> lo) & MASK[n]) << pos
            pos += n
    elif op == 'mul':
        r = 1
        for a in t.a:
            r = (r * ev(a, env, memo)) & m
    elif op == 'bw':
        tt, args = t.a
        vs = [ev(a, env, memo) for a in args]
        r = 0
        for k in range(1 << len(vs)):
            if (tt >> k) & 1:
                x = m
                for i, v in enumerate(vs):
                    x &= v if (k >> i) & 1 else ~v
                r |= x & m
    elif op == 'sext':
        r = sval(ev(t.a[0], env, memo), t.a[0].w) & m
    elif op in ('eq', 'ne', 'ult', 'ule', 'slt', 'sle'):
        x = ev(t.a[0], env, memo)
        y = ev(t.a[1], env, memo)
        aw = t.a[0].w
        if op == 'eq':
            r = x == y
        elif op == 'ne':
            r = x != y
        elif op == 'ult':
            r = x < y
        elif op == 'ule':
            r = x <= y
        elif op == 'slt':
            r = sval(x, aw) < sval(y, aw)
        else:
            r = sval(x, aw) <= sval(y, aw)
        r = int(r)
    elif op in ('udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr'):
        x = ev(t.a[0], env, memo)
        y = ev(t.a[1], env, memo)
        if op == 'udiv':
            if y == 0:
                raise KeyError('div0')
            r = x // y
        elif op == 'urem':
            if y == 0:
                raise KeyError('div0')
            r = x % y
        elif op == 'shl':
            r = (x << y) & m if y < w else 0
        elif op == 'lshr':
            r = x >> y if y < w else 0
        elif op == 'ashr':
            r = (sval(x, w) >> min(y, w - 1)) & m
        else:
            if y == 0:
                raise KeyError('div0')
            a, b = sval(x, w), sval(y, w)
            if op == 'sdiv':
                q = abs(a) // abs(b)
                r = (q if (a < 0) == (b < 0) else -q) & m
            else:
                q = abs(a) % abs(b)
                r = (-q if a < 0 else q) & m
    else:
        raise KeyError(t)
    memo[t.id] = r
    return r


def atoms(t, out=None, seen=None):
    """origin symbols and opaque atoms below t"""
    if out is None:
        out = set()
    if seen is None:
        seen = set()
    if t.id in seen:
        return out
    seen.add(t.id)
    op = t.op
    if op == 's' or op == 'fop' or op == 'p2i':
        out.add(t)
        if op == 'fop':
            for a in t.a[1:]:
                if isinstance(a, T):
                    atoms(a, out, seen)
    elif op == 'lin':
        for _, a in t.a[1]:
            atoms(a, out, seen)
    elif op == 'cat':
        for a, _, _ in t.a:
            if a is not None:
                atoms(a, out, seen)
    elif op == 'bw':
        for a in t.a[1]:
            atoms(a, out, seen)
    elif op != 'c':
        for a in t.a:
            atoms(a, out, seen)
    return out


def subst(t, m, memo=None):
    """t with symbols replaced (m: {symbol: T})"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    else:
        op = t.op
        if op in ('c', 's'):
            r = t
        elif op == 'lin':
            r = lin(t.w, t.a[0], [(k, subst(a, m, memo)) for k, a in t.a[1]])
        elif op == 'cat':
            parts = []
            for a, lo, n in t.a:
                parts.append(C(n, lo) if a is None else extract(subst(a, m, memo), lo, n))
            r = concat(parts)
        elif op == 'mul':
            r = C(t.w, 1)
            for a in t.a:
                r = mul(r, subst(a, m, memo))
        elif op == 'bw':
            r = bw(t.a[0], [subst(a, m, memo) for a in t.a[1]])
        elif op == 'sext':
            r = sext(subst(t.a[0], m, memo), t.w)
        elif op == 'fop':
            r = fop(t.w, t.a[0], [subst(a, m, memo) if isinstance(a, T) else a for a in t.a[1:]])
        else:
            f = {'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem, 'shl': shl, 'lshr': lshr,
                 'ashr': ashr, 'eq': eq, 'ne': ne, 'ult': ult, 'ule': ule, 'slt': slt, 'sle': sle}[op]
            r = f(subst(t.a[0], m, memo), subst(t.a[1], m, memo))
    memo[t.id] = r
    return r


def show(t, d=0):
    op = t.op
    if op == 'c':
        v = t.a[0]
        return str(v) if v < 65536 else hex(v)
    if op == 's':
        return t.a[0]
    if op == 'p2i':
        return '&' + t.a[0]
    if d > 6:
        return '..'
    if op == 'lin':
        s = []
        for k, a in t.a[1]:
            k = sval(k, t.w)
            s.append(('%d*' % k if k not in (1, -1) else ('-' if k == -1 else '')) + show(a, d + 1))
        c = sval(t.a[0], t.w)
        if c:
            s.append(str(c))
        return '(' + ' + '.join(s) + ')'
    if op == 'cat':
        s = []
        for a, lo, n in reversed(t.a):
            s.append('%d:%d' % (lo, n) if a is None else (show(a, d + 1) + ('' if lo == 0 and n == a.w else '[%d+:%d]' % (lo, n))))
        return '{' + ','.join(s) + '}'
    if op == 'bw':
        names = {(0b1000, 2): '&', (0b1110, 2): '|', (0b0110, 2): '^'}
        nm = names.get((t.a[0], len(t.a[1])))
        if nm:
            return '(' + nm.join(show(x, d + 1) for x in t.a[1]) + ')'
        if t.a[0] == 1 and len(t.a[1]) == 1:
            return '~' + show(t.a[1][0], d + 1)
        return 'bw%s(%s)' % (bin(t.a[0])[2:], ','.join(show(x, d + 1) for x in t.a[1]))
    if op == 'fop':
        return '%s(%s)' % (t.a[0], ','.join(show(x, d + 1) if isinstance(x, T) else str(x) for x in t.a[1:]))
    sym = {'eq': '==', 'ne': '!=', 'ult': '<u', 'ule': '<=u', 'slt': '<s', 'sle': '<=s', 'udiv': '/', 'urem': '%', 'mul': '*'}
    if op in sym:
        return '(' + sym[op].join(show(x, d + 1) for x in t.a) + ')'
    return '%s(%s)' % (op, ','.join(show(x, d + 1) for x in t.a))
