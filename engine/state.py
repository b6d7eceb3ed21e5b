"""Abstract state: facts over entry symbols (intervals, known bits, linear
inequalities, boolean facts) and a region memory."""
import terms as t
from terms import T, C, MASK, isc, cv, sval
import linarith as la


ALLREG = {}


class Region:
    _n = [0]
    __slots__ = ('id', 'kind', 'size', 'name', 'cls', 'maybe_null', 'data', 'rel', 'site', 'hint', 'elem', 'ghost', 'sym')

    def __init__(self, kind, name, size=None, cls=None, maybe_null=False):
        Region._n[0] += 1
        self.id = Region._n[0]
        self.kind = kind
        self.name = name
        self.size = size
        self.cls = cls
        self.maybe_null = maybe_null
        self.data = None
        self.rel = None
        self.site = None
        self.hint = None
        self.elem = None
        self.ghost = None
        self.sym = None
        ALLREG[self.id] = self

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


Z32 = C(32, 0)


class P:
    """pointer: region + byte offset; region None = absolute address"""
    __slots__ = ('r', 'o')

    def __init__(self, r, o=Z32):
        self.r = r
        self.o = o

    def __eq__(self, x):
        return isinstance(x, P) and x.r is self.r and x.o is self.o

    def __hash__(self):
        return hash((id(self.r), self.o.id))

    def __repr__(self):
        if self.r is None:
            return 'null' if self.o is Z32 else 'abs(%s)' % self.o
        return '&%s+%s' % (self.r.name, self.o) if self.o is not Z32 else '&' + self.r.name


NULL = P(None, Z32)


class Agg:
    __slots__ = ('cells', 'size')

    def __init__(self, cells, size):
        self.cells = cells
        self.size = size

    def __repr__(self):
        return 'Agg%s' % self.cells


class RMem:
    __slots__ = ('cells', 'syms', 'base', 'epoch')

    def __init__(self, base, cells=None, syms=(), epoch=0):
        self.base = base
        self.cells = {} if cells is None else cells
        self.syms = syms
        self.epoch = epoch

    def copy(self):
        return RMem(self.base, dict(self.cells), self.syms, self.epoch)


class State:
    unify = False          # one name for symbols assumed equal

    __slots__ = ('mem', 'ref', 'lins', 'nes', 'bools', 'kb', 'nul', 'alias', 'log', 'freed', 'notes', 'pins', 'dirty', 'owned', 'user', 'deep', 'win')

    def __init__(self):
        self.mem = {}      # region id -> RMem
        self.owned = set()  # RMem objects this state may mutate in place
        self.ref = {}      # atom -> (lo, hi)
        self.lins = ()     # facts: ((dict, const), ...) >= 0
        self.nes = ()      # disequalities (dict, const) != 0
        self.bools = {}    # opaque boolean atom -> 0/1
        self.kb = {}       # base atom -> (mask, value)
        self.pins = {}     # symbol -> const T
        self.nul = {}      # region id -> True (null) / False (not null)
        self.alias = {}    # region id -> Region
        self.log = None    # (parent, event)
        self.freed = {}    # region id -> event
        self.notes = frozenset()
        self.dirty = frozenset()
        self.user = {}
        self.deep = 0
        self.win = {}      # affine term -> wrap count decided by the facts

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.ref = dict(self.ref)
        s.lins = self.lins
        s.nes = self.nes
        s.bools = dict(self.bools)
        s.kb = dict(self.kb)
        s.pins = dict(self.pins)
        s.nul = dict(self.nul)
        s.alias = dict(self.alias)
        s.log = self.log
        s.freed = dict(self.freed)
        s.notes = self.notes
        s.dirty = self.dirty
        s.user = dict(self.user)
        s.deep = 0
        s.win = dict(self.win)
        return s

    # ------------------------------------------------------------ log
    def emit(self, ev):
        self.log = (self.log, ev)

    def events(self, since=None):
        out = []
        l = self.log
        while l is not None and l is not since:
            out.append(l[1])
            l = l[0]
        return out[::-1]

    def note(self, n):
        self.notes = self.notes | {n}

    # ------------------------------------------------------------ bounds
    def bounds(self, x):
        """unsigned bounds of term x under the facts"""
        if x.op == 'c':
            v = x.a[0]
            return v, v
        r = self.ref.get(x)
        lo, hi = (max(x.lo, r[0]), min(x.hi, r[1])) if r else (x.lo, x.hi)
        if lo == hi:
            return lo, hi
        op = x.op
        if op == 's':
            return lo, hi
        if op == 'cat':
            l2 = h2 = 0
            pos = 0
            for a, l, n in x.a:
                if a is None:
                    l2 += l << pos
                    h2 += l << pos
                else:
                    if l == 0 and n == a.w:
                        b = self.bounds(a)
                    else:
                        sl = t._slice(a, l, n)
                        if sl is x:
                            b = (lo, hi)
                            ab = self.bounds(a)
                            if l == 0 and ab[1] <= MASK[n]:
                                b = (max(lo, ab[0]), min(hi, ab[1]))
                            elif (ab[1] >> l) <= MASK[n]:
                                b = (max(lo, ab[0] >> l), min(hi, ab[1] >> l))
                        else:
                            b = self.bounds(sl)
                    l2 += b[0] << pos
                    h2 += b[1] << pos
                pos += n
            return max(lo, l2), min(hi, h2)
        if op == 'lin':
            c, ts = x.a
            m = MASK[x.w]
            l2 = h2 = sval(c, x.w)
            for k, a in ts:
                k = sval(k, x.w)
                b = self.bounds(a)
                if k > 0:
                    l2 += k * b[0]
                    h2 += k * b[1]
                else:
                    l2 += k * b[1]
                    h2 += k * b[0]
            if l2 < 0 or h2 > m:
                q = l2 >> x.w
                if q == (h2 >> x.w):
                    l2 -= q << x.w
                    h2 -= q << x.w
                else:
                    return lo, hi
            return max(lo, l2), min(hi, h2)
        if op == 'mul':
            l2 = h2 = 1
            for a in x.a:
                b = self.bounds(a)
                l2 *= b[0]
                h2 *= b[1]
            if h2 <= MASK[x.w]:
                return max(lo, l2), min(hi, h2)
            return lo, hi
        if op == 'urem':
            a, b = self.bounds(x.a[0]), self.bounds(x.a[1])
            return lo, min(hi, a[1], max(b[1] - 1, 0))
        if op == 'udiv':
            a, b = self.bounds(x.a[0]), self.bounds(x.a[1])
            return max(lo, a[0] // max(1, b[1])), min(hi, a[1] // max(1, b[0]))
        if op == 'sext':
            a = x.a[0]
            b = self.bounds(a)
            top = 1 << (a.w - 1)
            if b[1] < top:
                return max(lo, b[0]), min(hi, b[1])
            if b[0] >= top:
                f = MASK[x.w] - MASK[a.w]
                return max(lo, b[0] + f), min(hi, b[1] + f)
            return lo, hi
        if op == 'lshr':
            return lo, min(hi, self.bounds(x.a[0])[1])
        if op == 'bw' and x.a[0] == 1 and len(x.a[1]) == 1:
            b = self.bounds(x.a[1][0])
            return max(lo, MASK[x.w] - b[1]), min(hi, MASK[x.w] - b[0])
        return lo, hi

    def sbounds(self, x):
        lo, hi = self.bounds(x)
        top = 1 << (x.w - 1)
        if hi < top:
            return lo, hi
        if lo >= top:
            return lo - 2 * top, hi - 2 * top
        if x.op == 'sext':
            return self.sbounds(x.a[0])
        return -top, top - 1

    # ------------------------------------------------------------ normalise by pinned values
    def norm(self, x):
        if x.op == 'c' or not self.pins:
            return x
        m = {}
        for a in t.atoms(x):
            p = self.pins.get(a)
            if p is not None:
                m[a] = p
        if not m:
            return x
        return t.subst(x, m)

    # ------------------------------------------------------------ linear views
    def um(self, x):
        """(dict, const): an integer expression equal to the unsigned value"""
        op = x.op
        if op == 'c':
            return {}, x.a[0]
        lo, hi = self.bounds(x)
        if lo == hi:
            return {}, lo
        if op == 'cat':
            d = {}
            k = 0
            pos = 0
            for a, l, n in x.a:
                if a is None:
                    k += l << pos
                else:
                    if l == 0 and (n == a.w or self.bounds(a)[1] <= MASK[n]):
                        d2, k2 = self.um(a)
                    else:
                        sl = t._slice(a, l, n)
                        d2, k2 = ({sl: 1}, 0) if (sl.op == 'cat' and len(sl.a) == 1) else self.um(sl)
                    for v, c in d2.items():
                        d[v] = d.get(v, 0) + (c << pos)
                    k += k2 << pos
                pos += n
            return d, k
        if op == 'lin':
            w = self.windows(x)
            if len(w) == 1:
                d, k, q = w[0]
                return d, k
            q0 = self.win.get(x)
            if q0 is not None:
                for d, k, q in w:
                    if q == q0:
                        return d, k
            # decide the wrap window by the linear facts
            if len(w) <= 4 and self.deep < 1:
                alive = []
                for d, k, q in w:
                    if not self._inf([(d, k), ({v: -c for v, c in d.items()}, MASK[x.w] - k)]):
                        alive.append((d, k, q))
                if len(alive) == 1:
                    d, k, q = alive[0]
                    if q is not None:
                        self.win[x] = q
                    return d, k
            return {x: 1}, 0
        if op == 'bw' and x.a[0] == 1 and len(x.a[1]) == 1:
            d, k = self.um(x.a[1][0])
            return {v: -c for v, c in d.items()}, MASK[x.w] - k
        if op == 'sext':
            a = x.a[0]
            b = self.bounds(a)
            if b[1] < 1 << (a.w - 1):
                return self.um(a)
            if b[0] >= 1 << (a.w - 1):
                d, k = self.um(a)
                return d, k + MASK[x.w] - MASK[a.w]
            return {x: 1}, 0
        if op == 'mul':
            # linear when all but one factor are fixed
            d = None
            k = 1
            for a in x.a:
                b = self.bounds(a)
                if b[0] == b[1]:
                    k *= b[0]
                elif d is None:
                    d = a
                else:
                    return {x: 1}, 0
            h = self.bounds(d)[1]
            if k * h <= MASK[x.w]:
                dd, kk = self.um(d)
                return {v: c * k for v, c in dd.items()}, kk * k
            return {x: 1}, 0
        return {x: 1}, 0

    def windows(self, x):
        """possible (expr) readings of an affine term, one per wrap count"""
        c, ts = x.a
        w = x.w
        M = 1 << w
        d = {}
        k = sval(c, w)
        lo = hi = k
        for co, a in ts:
            co = sval(co, w)
            b = self.bounds(a)
            d2, k2 = self.um(a)
            for v, cc in d2.items():
                d[v] = d.get(v, 0) + cc * co
            k += k2 * co
            if co > 0:
                lo += co * b[0]
                hi += co * b[1]
            else:
                lo += co * b[1]
                hi += co * b[0]
        d = {v: cc for v, cc in d.items() if cc}
        qs = range(lo // M, hi // M + 1)
        if len(qs) > 6:
            return [({x: 1}, 0, None), ({x: 1}, 0, None)] * 3
        return [(d, k - q * M, q) for q in qs]

    def sm(self, x):
        """signed integer view, or None when the sign is open"""
        w = x.w
        top = 1 << (w - 1)
        if x.op == 'c':
            return {}, sval(x.a[0], w)
        if x.op == 'sext':
            return self.sm(x.a[0])
        if x.op == 'lin':
            # windows in signed reading
            c, ts = x.a
            d = {}
            k = sval(c, w)
            lo = hi = k
            ok = True
            for co, a in ts:
                co = sval(co, w)
                s = self.sm(a)
                if s is None:
                    ok = False
                    break
                sb = self.sbounds(a)
                for v, cc in s[0].items():
                    d[v] = d.get(v, 0) + cc * co
                k += s[1] * co
                if co > 0:
                    lo += co * sb[0]
                    hi += co * sb[1]
                else:
                    lo += co * sb[1]
                    hi += co * sb[0]
            if ok:
                d = {v: cc for v, cc in d.items() if cc}
                q1 = (lo + top) >> w
                q2 = (hi + top) >> w
                if q1 == q2:
                    return d, k - (q1 << w)
                alive = []
                if q2 - q1 <= 4 and self.deep < 1:
                    for q in range(q1, q2 + 1):
                        kk = k - (q << w)
                        if not self._inf([(d, kk + top), ({v: -cc for v, cc in d.items()}, top - 1 - kk)]):
                            alive.append(kk)
                    if len(alive) == 1:
                        return d, alive[0]
        lo, hi = self.bounds(x)
        if hi < top:
            return self.um(x)
        if lo >= top:
            d, k = self.um(x)
            return d, k - 2 * top
        d, k = self.um(x)
        if self.deep < 1 and not (len(d) == 1 and x in d and x.op == 'lin'):
            if self._inf([(d, k - top)]):
                return d, k
            if self._inf([({v: -c for v, c in d.items()}, top - 1 - k)]):
                return d, k - 2 * top
        return None

    def sview(self, x):
        """signed view; an atom of unknown sign is read through its biased twin x + 2^(w-1)"""
        r = self.sm(x)
        if r is None and x.op == 's':
            top = 1 << (x.w - 1)
            return {t.addc(x, top): 1}, -top
        return r

    # ------------------------------------------------------------ linear entailment
    def _cons(self, vars0):
        """facts connected to vars0 plus bounds of all variables met"""
        vs = set(vars0)
        out = []
        used = set()
        lins = list(self.lins)
        ch = True
        seen_nl = set()
        while ch:
            ch = False
            for i, (d, k) in enumerate(lins):
                if i in used:
                    continue
                if any(v in vs for v in d):
                    used.add(i)
                    out.append((d, k))
                    for v in d:
                        if v not in vs:
                            vs.add(v)
                            ch = True
            for v in list(vs):
                if v in seen_nl:
                    continue
                seen_nl.add(v)
                for d, k in self._defs(v):
                    out.append((d, k))
                    for u in d:
                        if u not in vs:
                            vs.add(u)
                            ch = True
        for v in vs:
            lo, hi = self.bounds(v)
            out.append(({v: 1}, -lo))
            out.append(({v: -1}, hi))
        out += self._products(vs, out)
        return out

    def _defs(self, v):
        """linear facts defining opaque arithmetic atoms"""
        out = []
        if v.op == 'lin':
            w = self.windows(v)
            if len(w) == 1:
                d = dict(w[0][0])
                d[v] = d.get(v, 0) - 1
                out.append((d, w[0][1]))
                out.append(({u: -c for u, c in d.items()}, -w[0][1]))
        elif v.op == 'udiv' or v.op == 'urem':
            a, b = v.a
            q = t._mk('udiv', v.w, (a, b), (a.id, b.id), 0, None) if v.op == 'urem' else v
            bb = self.bounds(b)
            da, ka = self.um(a)
            if bb[0] == bb[1] and bb[0] > 0:
                n = bb[0]
                if v.op == 'udiv':
                    # n*q <= a <= n*q + n-1
                    d = dict(da)
                    d[v] = d.get(v, 0) - n
                    out.append((d, ka))
                    d2 = {u: -c for u, c in d.items()}
                    out.append((d2, n - 1 - ka))
                else:
                    qq = t.udiv(a, b)
                    if qq.op == 'udiv':
                        d = dict(da)
                        d[qq] = d.get(qq, 0) - n
                        d[v] = d.get(v, 0) - 1
                        out.append((d, ka))
                        out.append(({u: -c for u, c in d.items()}, -ka))
            if v.op == 'urem':
                # r <= a ; r <= b-1
                d = dict(da)
                d[v] = d.get(v, 0) - 1
                out.append((d, ka))
                if bb[0] > 0:
                    db, kb = self.um(b)
                    d = dict(db)
                    d[v] = d.get(v, 0) - 1
                    out.append((d, kb - 1))
            elif bb[0] > 0:
                d = dict(da)
                d[v] = d.get(v, 0) - 1
                out.append((d, ka))
                if bb[0] != bb[1]:
                    # b*(a/b) <= a <= b*(a/b) + b - 1
                    pb = t._mono(v.w, v, b) if b.op not in ('lin', 'cat', 'c') else None
                    if pb is not None:
                        d = dict(da)
                        d[pb] = d.get(pb, 0) - 1
                        out.append((d, ka))
                        db, kb = self.um(b)
                        d = {u: -c for u, c in da.items()}
                        d[pb] = d.get(pb, 0) + 1
                        for u, c in db.items():
                            d[u] = d.get(u, 0) + c
                        out.append((d, kb - 1 - ka))
        elif v.op == 'cat' and len(v.a) == 1 and v.a[0][0] is not None:
            # slice of an atom: no fact beyond bounds
            a, l, n = v.a[0]
            if l == 0 and self.bounds(a)[1] <= MASK[n]:
                da, ka = self.um(a)
                d = dict(da)
                d[v] = d.get(v, 0) - 1
                out.append((d, ka))
                out.append(({u: -c for u, c in d.items()}, -ka))
        elif v.op == 'bw' and v.a[0] == 0b1000 and len(v.a[1]) == 2:
            for x in v.a[1]:
                da, ka = self.um(x)
                d = dict(da)
                d[v] = d.get(v, 0) - 1
                out.append((d, ka))
        return out

    def _products(self, vs, cons):
        """x*y atoms: each fact on x alone (one var + others) times y >= 0"""
        prods = [v for v in vs if v.op == 'mul' and len(v.a) == 2]
        if not prods:
            return []
        out = []
        co = {}
        for p in prods:
            a, b = p.a
            co.setdefault(a, set()).add(b)
            co.setdefault(b, set()).add(a)
        for p in prods:
            if self.bounds(p.a[0])[1] * self.bounds(p.a[1])[1] > MASK[p.w]:
                # product may wrap: only usable when facts exclude it
                if not self.user.get('nowrap_products'):
                    return []
        n = 0
        for d, k in list(cons):
            if len(d) > 3 or n > 60:
                continue
            for y in co:
                # multiply d,k by y when every product is a known atom
                nd = {}
                ok = True
                for v, c in d.items():
                    if v in co.get(y, ()):
                        m = t._mono(v.w if v.w >= y.w else y.w, v, y) if v.w == y.w else None
                        if m is None or m not in vs:
                            ok = False
                            break
                        nd[m] = nd.get(m, 0) + c
                    else:
                        ok = False
                        break
                if ok and nd:
                    nd[y] = nd.get(y, 0) + k
                    out.append((nd, 0))
                    n += 1
        return out

    def _inf(self, extra):
        vs = set()
        for d, k in extra:
            vs |= set(d)
        if not vs:
            return any(k < 0 for d, k in extra)
        self.deep += 1
        try:
            cs = self._cons(vs)
        finally:
            self.deep -= 1
        return la.infeasible(cs + list(extra))

    def entails(self, d, k):
        """sum(d)+k >= 0 on every point of the state"""
        # interval first
        lo = k
        for v, c in d.items():
            b = self.bounds(v)
            lo += c * (b[0] if c > 0 else b[1])
        if lo >= 0:
            return True
        hi = k
        for v, c in d.items():
            b = self.bounds(v)
            hi += c * (b[1] if c > 0 else b[0])
        if hi < 0:
            return False
        return self._inf([({v: -c for v, c in d.items()}, -k - 1)])

    # ------------------------------------------------------------ decide
    def decide(self, c):
        """True / False / None"""
        c = self.norm(c)
        return self._dec(c)

    def _dec(self, c):
        if c.op == 'c':
            return bool(c.a[0])
        b = self.bools.get(c)
        if b is not None:
            return bool(b)
        op = c.op
        if op in ('eq', 'ne', 'ult', 'ule', 'slt', 'sle'):
            n = t.not_(c)
            b = self.bools.get(n)
            if b is not None:
                return not b
            x, y = c.a
            if op in ('eq', 'ne'):
                r = self._deq(x, y)
                if r is None:
                    return None
                return r if op == 'eq' else not r
            if op in ('ult', 'ule'):
                bx, by = self.bounds(x), self.bounds(y)
                if op == 'ult':
                    if bx[1] < by[0]:
                        return True
                    if bx[0] >= by[1]:
                        return False
                else:
                    if bx[1] <= by[0]:
                        return True
                    if bx[0] > by[1]:
                        return False
                dx, kx = self.um(x)
                dy, ky = self.um(y)
            else:
                bx, by = self.sbounds(x), self.sbounds(y)
                if op == 'slt':
                    if bx[1] < by[0]:
                        return True
                    if bx[0] >= by[1]:
                        return False
                else:
                    if bx[1] <= by[0]:
                        return True
                    if bx[0] > by[1]:
                        return False
                sx, sy = self.sview(x), self.sview(y)
                if sx is None or sy is None:
                    return None
                dx, kx = sx
                dy, ky = sy
            d = dict(dy)
            for v, cc in dx.items():
                d[v] = d.get(v, 0) - cc
            d = {v: cc for v, cc in d.items() if cc}
            k = ky - kx
            if op in ('ult', 'slt'):
                # y - x - 1 >= 0
                if self.entails(d, k - 1):
                    return True
                if self.entails({v: -cc for v, cc in d.items()}, -k):
                    return False
            else:
                if self.entails(d, k):
                    return True
                if self.entails({v: -cc for v, cc in d.items()}, -k - 1):
                    return False
            return None
        if op == 'bw':
            tt, args = c.a
            vals = [self._dec(a) for a in args]
            poss = set()
            for r in range(1 << len(args)):
                if all(v is None or bool((r >> i) & 1) == v for i, v in enumerate(vals)):
                    poss.add((tt >> r) & 1)
            if len(poss) == 1:
                return bool(poss.pop())
            return None
        if op == 'cat':
            a, l, n = c.a[0]
            k = self.kb.get(a)
            if k and (k[0] >> l) & 1:
                return bool((k[1] >> l) & 1)
            lo, hi = self.bounds(a)
            if (lo >> l) == (hi >> l):
                return bool((lo >> l) & 1)
            if l == a.w - 1:
                s = self.sm(a)
                if s is not None:
                    if self.entails(*s):
                        return False
                    if self.entails({v: -x for v, x in s[0].items()}, -s[1] - 1):
                        return True
            return None
        b = self.bounds(c)
        if b[0] == b[1]:
            return bool(b[0])
        return None

    def _deq(self, x, y):
        if x is y:
            return True
        bx, by = self.bounds(x), self.bounds(y)
        if bx[1] < by[0] or by[1] < bx[0]:
            return False
        if bx[0] == bx[1] == by[0] == by[1]:
            return True
        if y.op == 'c':
            # known bits
            for a, l, n in (x.a if x.op == 'cat' else ((x, 0, x.w),)):
                pass
            pos = 0
            if x.op in ('cat', 's'):
                for a, l, n in (x.a if x.op == 'cat' else ((x, 0, x.w),)):
                    vv = (cv(y) >> pos) & MASK[n]
                    if a is None:
                        if l != vv:
                            return False
                    else:
                        kb = self.kb.get(a)
                        if kb:
                            m = (kb[0] >> l) & MASK[n]
                            if (kb[1] >> l) & m != vv & m:
                                return False
                    pos += n
        dx, kx = self.um(x)
        dy, ky = self.um(y)
        d = dict(dy)
        for v, c in dx.items():
            d[v] = d.get(v, 0) - c
        d = {v: c for v, c in d.items() if c}
        k = ky - kx
        if not d:
            return k == 0
        if t.has_sext(x) or t.has_sext(y):
            sx, sy = self.sm(x), self.sm(y)
            if sx is not None and sy is not None:
                d2 = dict(sy[0])
                for v, c in sx[0].items():
                    d2[v] = d2.get(v, 0) - c
                d2 = {v: c for v, c in d2.items() if c}
                if not d2 or len(d2) < len(d):
                    d, k = d2, sy[1] - sx[1]
                    if not d:
                        return k == 0
        for nd, nk in self.nes:
            if (nd == d and nk == k) or (nk == -k and nd == {v: -c for v, c in d.items()}):
                return False
        nd = {v: -c for v, c in d.items()}
        ge = self.entails(d, k)
        le = self.entails(nd, -k)
        if ge and le:
            return True
        if ge is True and self.entails(d, k - 1):
            return False
        if le is True and self.entails(nd, -k - 1):
            return False
        if not ge and not le:
            if self._inf([(d, k), (nd, -k)]):
                return False
        return None

    # ------------------------------------------------------------ assume
    def assume(self, c, val=True):
        """refined copies of the state (a partition) in which c has value val"""
        c = self.norm(c)
        if not val:
            c = t.not_(c)
        return self._ass(c)

    def _ass(self, c):
        r = self._dec(c)
        if r is True:
            return [self]
        if r is False:
            return []
        op = c.op
        if op == 'bw':
            tt, args = c.a
            if c.w == 1:
                if len(args) == 1:
                    # negation of an atom
                    a = args[0]
                    s = self.copy()
                    if a.op == 'cat':
                        return s._assume_bit(a, 0)
                    s.bools[c] = 1
                    s.bools[a] = 0
                    s._refine(a, 0, 0)
                    return [s]
                return self._assume_tt(tt, list(args))
        s = self.copy()
        if op == 'eq':
            return s._assume_eq(*c.a, c=c)
        if op == 'ne':
            x, y = c.a
            s.bools[c] = 1
            bx, by = s.bounds(x), s.bounds(y)
            if by[0] == by[1]:
                v = by[0]
                if bx[0] == v:
                    s._refine(x, v + 1, bx[1])
                elif bx[1] == v:
                    s._refine(x, bx[0], v - 1)
            dx, kx = s.um(x)
            dy, ky = s.um(y)
            if dx == {x: 1} and x.op == 'lin' and by[0] == by[1]:
                # whatever the wrap count
                for wd, wk, q in s.windows(x):
                    if q is not None:
                        s.nes = s.nes + ((wd, wk - by[0]),)
            d = dict(dy)
            for v, cc in dx.items():
                d[v] = d.get(v, 0) - cc
            d = {v: cc for v, cc in d.items() if cc}
            k = ky - kx
            nd = {v: -cc for v, cc in d.items()}
            if s.entails(d, k):
                s._addlin(d, k - 1)
            elif s.entails(nd, -k):
                s._addlin(nd, -k - 1)
            else:
                s.nes = s.nes + ((d, k),)
            return [s]
        if op in ('ult', 'ule'):
            return s._assume_less(c, False)
        if op in ('slt', 'sle'):
            return s._assume_less(c, True)
        if op == 'cat':
            return s._assume_bit(c, 1)
        s.bools[c] = 1
        s._refine(c, 1, 1)
        return [s]

    def _assume_tt(self, tt, args):
        """partition on the operands of a boolean function"""
        if not args:
            return [self] if tt & 1 else []
        a = args[-1]
        n = len(args)
        half = 1 << (n - 1)
        lo = tt & MASK[half]
        hi = tt >> half
        if lo == hi:
            return self._assume_tt(lo, args[:-1])
        out = []
        if lo:
            for s in self.assume(a, False):
                out += s._assume_tt(lo, args[:-1])
        if hi:
            for s in self.assume(a, True):
                out += s._assume_tt(hi, args[:-1])
        return out

    def _assume_bit(self, c, v):
        # c is a one-bit slice (or one bit composed)
        parts = c.a
        if len(parts) == 1 and parts[0][0] is not None:
            a, l, n = parts[0]
            if l == a.w - 1:
                top = 1 << (a.w - 1)
                lo, hi = self.bounds(a)
                if v:
                    self._refine(a, max(lo, top), hi)
                else:
                    self._refine(a, lo, min(hi, top - 1))
                if a.op != 'lin':
                    d, k = self.um(a)
                    if d and self._inf([(d, k - top)] if v else [({u: -x for u, x in d.items()}, top - 1 - k)]):
                        return []
                if a.op == 'lin':
                    res = []
                    for s in self._split(a):
                        d, k = s.um(a)
                        if not (len(d) == 1 and a in d):
                            if v:
                                if not s._addlin(d, k - top):
                                    continue
                            else:
                                if not s._addlin({u: -x for u, x in d.items()}, top - 1 - k):
                                    continue
                        s.bools[c] = v
                        res.append(s)
                    return res
            m, vv = self.kb.get(a, (0, 0))
            self.kb[a] = (m | (1 << l), (vv & ~(1 << l)) | (v << l))
        self.bools[c] = v
        return [self]

    def _refine(self, x, lo, hi):
        if x.op == 'c':
            return
        o = self.ref.get(x)
        if o:
            lo, hi = max(lo, o[0]), min(hi, o[1])
        self.ref[x] = (lo, hi)
        if lo == hi and x.op == 's':
            self.pins[x] = C(x.w, lo)
            if State.unify:
                for b, p in list(self.pins.items()):
                    if p is x:
                        self.pins[b] = C(b.w, lo)
                        self.ref[b] = (lo, hi)
        if x.op == 'sext':
            a = x.a[0]
            top = 1 << (a.w - 1)
            f = MASK[x.w] - MASK[a.w]
            if hi < MASK[x.w] - MASK[a.w] + top:
                b = self.bounds(a)
                self._refine(a, max(lo, b[0]), min(hi, top - 1, b[1]))
            elif lo >= top:
                b = self.bounds(a)
                self._refine(a, max(lo - f, top, b[0]), min(hi - f, b[1]))
        # a zero-extended slice: refine the slice
        if x.op == 'cat':
            if len(x.a) == 2 and x.a[1][0] is None and x.a[1][1] == 0 and x.a[0][0] is not None:
                a, l, n = x.a[0]
                self._refine(t._slice(a, l, n), lo, min(hi, MASK[n]))
            elif len(x.a) == 1:
                a, l, n = x.a[0]
                if l == 0 and self.bounds(a)[1] <= MASK[n]:
                    self._refine(a, lo, hi)
                if lo == hi:
                    m, vv = self.kb.get(a, (0, 0))
                    mm = MASK[n] << l
                    self.kb[a] = (m | mm, (vv & ~mm) | (lo << l))
        elif x.op == 'lin' and len(x.a[1]) == 1:
            c, ((k, a),) = x.a
            if k == 1:
                # a = x - c, no wrap when [lo-c, hi-c] lies in range
                c = sval(c, x.w)
                if lo - c >= 0 and hi - c <= MASK[x.w]:
                    b = self.bounds(a)
                    # only sound when a + c does not wrap for a's current bounds
                    if 0 <= b[0] + c and b[1] + c <= MASK[x.w]:
                        self._refine(a, max(b[0], lo - c), min(b[1], hi - c))

    def _addlin(self, d, k):
        """add fact >= 0; False when it empties the state"""
        d = {v: c for v, c in d.items() if c}
        if not d:
            return k >= 0
        if self.entails(d, k):
            return True
        if self._inf([(d, k)]):
            return False
        self.lins = self.lins + ((d, k),)
        if len(d) == 1:
            (v, c), = d.items()
            lo, hi = self.bounds(v)
            if c > 0:
                self._refine(v, max(lo, -(k // c)), hi)
            else:
                self._refine(v, lo, min(hi, k // (-c)))
        return True

    def _split(self, x):
        """partition so that x has a single wrap window"""
        if x.op != 'lin':
            if x.op == 'cat':
                outs = [self]
                for a, l, n in x.a:
                    if a is not None and a.op == 'lin' and l == 0 and n == a.w:
                        outs = [s2 for s in outs for s2 in s._split(a)]
                return outs
            return [self]
        d, k = self.um(x)
        if not (len(d) == 1 and x in d):
            return [self]
        w = self.windows(x)
        if any(q[2] is None for q in w) or len(w) > 3:
            return [self]
        out = []
        for d, k, q in w:
            s = self.copy()
            if not s._addlin(d, k):
                continue
            if not s._addlin({v: -c for v, c in d.items()}, MASK[x.w] - k):
                continue
            out.append(s)
        return out

    def _ssplit(self, x):
        """partition on the sign of x (and wraps) so that sm() is defined"""
        if self.sm(x) is not None:
            return [self]
        if x.op == 'sext':
            return self._ssplit(x.a[0])
        top = 1 << (x.w - 1)
        out = []
        if x.op == 'lin':
            # split atoms first
            outs = [self]
            for k, a in x.a[1]:
                outs = [s2 for s in outs for s2 in s._ssplit(a)]
            res = []
            for s in outs:
                if s.sm(x) is not None:
                    res.append(s)
                    continue
                # windows in signed reading
                c, ts = x.a
                d = {}
                k = sval(c, x.w)
                lo = hi = k
                for co, a in ts:
                    co = sval(co, x.w)
                    sm = s.sm(a)
                    if sm is None:
                        return [self]
                    sb = s.sbounds(a)
                    for v, cc in sm[0].items():
                        d[v] = d.get(v, 0) + cc * co
                    k += sm[1] * co
                    lo += co * (sb[0] if co > 0 else sb[1])
                    hi += co * (sb[1] if co > 0 else sb[0])
                q1, q2 = (lo + top) >> x.w, (hi + top) >> x.w
                if q2 - q1 > 3:
                    res.append(s)
                    continue
                for q in range(q1, q2 + 1):
                    s2 = s.copy()
                    kk = k - (q << x.w)
                    if s2._addlin(d, kk + top) and s2._addlin({v: -cc for v, cc in d.items()}, top - 1 - kk):
                        res.append(s2)
            return res
        lo, hi = self.bounds(x)
        for a, b in ((lo, top - 1), (top, hi)):
            s = self.copy()
            s._refine(x, max(a, lo), min(b, hi))
            d, k = s.um(x)
            if d and (s._inf([(d, k - a)]) or s._inf([({v: -c for v, c in d.items()}, b - k)])):
                continue
            out.append(s)
        return out

    def _assume_less(self, c, signed):
        op = c.op
        x, y = c.a
        strict = op in ('ult', 'slt')
        outs = []
        if signed:
            if x.op == 's' and y.op == 's' and self.sm(x) is None and self.sm(y) is None:
                parts = [self]
            else:
                parts = [s2 for s in self._ssplit(x) for s2 in s._ssplit(y)]
        else:
            parts = [s2 for s in self._split(x) for s2 in s._split(y)]
        for s in parts:
            if s is not self:
                r = s._dec(c)
                if r is True:
                    s.bools[c] = 1
                    outs.append(s)
                    continue
                if r is False:
                    continue
            else:
                s = self
            if signed:
                sx, sy = s.sview(x), s.sview(y)
                if sx is None or sy is None:
                    s.bools[c] = 1
                    outs.append(s)
                    continue
                (dx, kx), (dy, ky) = sx, sy
            else:
                dx, kx = s.um(x)
                dy, ky = s.um(y)
            d = dict(dy)
            for v, cc in dx.items():
                d[v] = d.get(v, 0) - cc
            d = {v: cc for v, cc in d.items() if cc}
            k = ky - kx - (1 if strict else 0)
            if not s._addlin(d, k):
                continue
            if not signed:
                bx, by = s.bounds(x), s.bounds(y)
                s._refine(x, bx[0], min(bx[1], by[1] - (1 if strict else 0)))
                s._refine(y, max(by[0], bx[0] + (1 if strict else 0)), by[1])
            s.bools[c] = 1
            outs.append(s)
        return outs

    def _assume_eq(self, x, y, c=None):
        outs = []
        for s in [s2 for s in self._split(x) for s2 in s._split(y)]:
            bx, by = s.bounds(x), s.bounds(y)
            lo, hi = max(bx[0], by[0]), min(bx[1], by[1])
            if lo > hi:
                continue
            dx, kx = s.um(x)
            dy, ky = s.um(y)
            d = dict(dy)
            for v, cc in dx.items():
                d[v] = d.get(v, 0) - cc
            d = {v: cc for v, cc in d.items() if cc}
            k = ky - kx
            if not s._addlin(d, k):
                continue
            if not s._addlin({v: -cc for v, cc in d.items()}, -k):
                continue
            bad = False
            for nd, nk in s.nes:
                if (nd == d and nk == k) or (nk == -k and nd == {v: -cc for v, cc in d.items()}):
                    bad = True
            if bad:
                continue
            s._refine(x, lo, hi)
            s._refine(y, lo, hi)
            if lo == hi and x.op == 'cat':
                pos = 0
                for a, l, n in x.a:
                    if a is not None:
                        s._refine(t._slice(a, l, n), (lo >> pos) & MASK[n], (lo >> pos) & MASK[n])
                    pos += n
            if c is not None:
                s.bools[c] = 1
            if State.unify and x.op == 's' and y.op == 's' and lo < hi and not s._unify(x, y):
                continue
            outs.append(s)
        return outs

    def _unify(self, x, y):
        """two plain symbols are equal: every later question is asked of one
        of them, and what is already known is read again; False when that
        empties the state"""
        if x.id > y.id:
            x, y = y, x
        self.pins[y] = x
        for b, p in list(self.pins.items()):
            if p is y:
                self.pins[b] = x
        m = {y: x}
        for d, k in self.nes:
            if y in d:
                d = dict(d)
                d[x] = d.get(x, 0) + d.pop(y)
                d = {v: cc for v, cc in d.items() if cc}
                if not d:
                    if k == 0:
                        return False
                    continue
                self.nes = self.nes + ((d, k),)
        for b, v in list(self.bools.items()):
            if y in t.atoms(b):
                n = t.subst(b, m)
                if n.op == 'c':
                    if bool(n.a[0]) != bool(v):
                        return False
                    continue
                o = self.bools.get(n)
                if o is not None and bool(o) != bool(v):
                    return False
                self.bools[n] = v
        return True

    def _refine_eq(self, a, b):
        x, y = self.bounds(a), self.bounds(b)
        lo, hi = max(x[0], y[0]), min(x[1], y[1])
        if lo <= hi:
            self._refine(a, lo, hi)
            self._refine(b, lo, hi)

    def empty(self):
        """what was assumed, read again with everything now known, excludes
        itself"""
        if self.dead():
            return True
        s = self.copy()
        for c, v in list(s.bools.items()):
            del s.bools[c]
            n = t.not_(c)
            o = s.bools.pop(n, None)
            c2 = s.norm(c)
            r = s._dec(c2)
            if r is not None and r != bool(v):
                return True
            s.bools[c] = v
            if o is not None:
                s.bools[n] = o
        return False

    def dead(self):
        for v, (lo, hi) in self.ref.items():
            if lo > hi:
                return True
        return False

    # ------------------------------------------------------------ a point of the state
    def point(self, goal=None, tries=40, extra_atoms=()):
        """An assignment of the entry symbols inside the state (and making goal
        true when given), or None.  Used to confirm that a reported abstract
        path is not empty."""
        import random
        rnd = random.Random(7)
        syms = set()
        conds = []
        for b, v in self.bools.items():
            conds.append((b, v))
        for c, _ in conds:
            t.atoms(c, syms)
        if goal is not None:
            t.atoms(goal, syms)
        for a in list(self.ref) + list(self.pins):
            t.atoms(a, syms)
        for d, k in self.lins + self.nes:
            for v in d:
                t.atoms(v, syms)
        for x in extra_atoms:
            t.atoms(x, syms)
        syms = [s for s in syms if s.op in ('s', 'fop', 'p2i')]
        syms.sort(key=lambda s: s.id)
        cons = self._cons(set(syms) | {v for d, k in self.lins for v in d})
        # only constraints over plain symbols guide the choice
        plain = [(d, k) for d, k in cons if all(v in syms for v in d)]
        for attempt in range(tries):
            env = {}
            order = list(syms)
            if attempt % 3 == 1:
                order.reverse()
            elif attempt % 3 == 2:
                rnd.shuffle(order)
            ok = True
            cs = plain
            for v in order:
                if v in env:
                    continue
                if len(cs) < 300:
                    pr = la.project([(d, k) for d, k in _subst_c(cs, env)], {v}, 200)
                    if pr is None:
                        ok = False
                        break
                    lo, hi = la.var_bounds(pr, v, {})
                else:
                    lo, hi = None, None
                b = self.bounds(v)
                lo = b[0] if lo is None else max(lo, b[0])
                hi = b[1] if hi is None else min(hi, b[1])
                if lo > hi:
                    ok = False
                    break
                m = attempt % 7
                if m == 0:
                    val = lo
                elif m == 1:
                    val = hi
                elif m == 2:
                    val = (lo + hi) // 2
                elif m == 3:
                    val = rnd.choice([lo, hi])
                elif m == 4:
                    val = min(hi, lo + rnd.choice([0, 1, 2, 3]))
                else:
                    val = rnd.choice([lo, hi, rnd.randint(lo, hi), min(hi, lo + rnd.randint(0, 8)), max(lo, hi - rnd.randint(0, 8))])
                kb = self.kb.get(v)
                if kb:
                    val = (val & ~kb[0]) | kb[1]
                env[v] = val
            if not ok:
                continue
            if self._holds(env, conds, goal):
                return env
        return None

    def _holds(self, env, conds, goal):
        memo = {}
        try:
            for c, v in conds:
                if t.ev(c, env, memo) != v:
                    return False
            for a, (lo, hi) in self.ref.items():
                if not lo <= t.ev(a, env, memo) <= hi:
                    return False
            for a, (m, v) in self.kb.items():
                if t.ev(a, env, memo) & m != v & m:
                    return False
            for d, k in self.lins:
                if sum(c * t.ev(v, env, memo) for v, c in d.items()) + k < 0:
                    return False
            for d, k in self.nes:
                if sum(c * t.ev(v, env, memo) for v, c in d.items()) + k == 0:
                    return False
            if goal is not None and not t.ev(goal, env, memo):
                return False
        except KeyError:
            return False
        return True


def _subst_c(cs, env):
    out = []
    for d, k in cs:
        nd = {}
        for v, c in d.items():
            if v in env:
                k += c * env[v]
            else:
                nd[v] = c
        out.append((nd, k))
    return [c for c in out if c[0]]
