"""Path-partitioned abstract interpreter over the dumped IR.

Function bodies are interpreted over State (facts + region memory); loops are
generalised to an inductive state (accelerated induction variables, havoc for
the rest); calls are inlined or replaced by a model.  Nothing is executed."""
import re

import terms as t
from terms import T, C, MASK, isc, cv, sval
from state import State, Region, P, NULL, Agg, RMem, Z32
from program import Module, strip
from front import AnalysisBroken
from loops import LoopMixin, Ghost, ListSpec, IDX, Budget, Unsupported, ALLREG


def tw(ty):
    if ty[0] == 'i' and ty[1:].isdigit():
        return int(ty[1:])
    if ty == 'ptr':
        return 32
    if ty == 'float':
        return 32
    if ty == 'double':
        return 64
    if ty == 'x86_fp80':
        return 80
    if ty.startswith('agg'):
        return int(ty[3:]) * 8
    raise Unsupported('type ' + ty)


def nbytes(ty):
    if ty.startswith('agg'):
        return int(ty[3:])
    if ty == 'x86_fp80':
        return 12
    return (tw(ty) + 7) // 8


class Config:
    def __init__(self):
        self.models = {}        # mangled or demangled-base name -> model(I, st, args, ins, fn) -> [(st, ret)]
        self.opaque = None      # predicate Func -> bool : log the call, fresh result
        self.max_depth = 40
        self.max_rec = 1
        self.unroll = 300
        self.max_states = 1500
        self.steps = 400000
        self.on_access = None   # f(I, st, ptr, n, write, ins, fn)
        self.on_call = None
        self.malloc_fails = True
        self.havoc_opaque_args = False
        self.havoc_loops = True
        self.peel = 2              # exact passes kept as witnesses of a loop that forgets element facts
        self.vcall = None
        self.record_loads = False
        self.addresses = {}        # region -> its address, where code looks at the bytes of pointers
        self.program_start = False  # mutable globals hold their initial values
        self.endless = False       # report paths that come round to the same state in a loop
        self.varargs = False       # give va_start() the arguments of the call
        self.merge = True          # join states that differ in facts only


class Interp(LoopMixin):
    def __init__(self, mod, cfg=None):
        self.mod = mod
        self.cfg = cfg or Config()
        self.gregs = {}
        self.fregs = {}
        self.steps = 0
        self.stack = []
        self.endless = []
        self.stuck = []         # (state, function, loop) of paths given up after many rounds
        self.faults = []        # (state, where, what) of paths ended by a fault
        self.serial = 0
        self.visited = set()
        self.stat_calls = 0
        self.stat_loops = 0

    # ------------------------------------------------------------ regions
    def global_region(self, name):
        r = self.gregs.get(name)
        if r is None:
            g = self.mod.globals.get(name)
            if g is None:
                f = self.mod.funcs.get(name)
                if f is not None:
                    return self.fn_region(name)
                r = Region('glob', '@' + name)
            else:
                r = Region('const' if g['const'] else 'glob', '@' + (g['dem'] or name), C(32, g['size']))
                if 'init' in g:
                    r.data = bytes.fromhex(g['init'])
                    r.rel = {off: v for off, v in g['rel']}
            self.gregs[name] = r
        return r

    def fn_region(self, name):
        r = self.fregs.get(name)
        if r is None:
            r = Region('fn', name)
            self.fregs[name] = r
        return r

    def new_region(self, st, kind, name, size=None, cls=None, base='lazy', maybe_null=False):
        r = Region(kind, name, size, cls, maybe_null)
        m = RMem(base)
        st.mem[r.id] = m
        st.owned.add(id(m))
        return r

    def rmem(self, st, r, write=False):
        m = st.mem.get(r.id)
        if m is None:
            if r.kind == 'const':
                m = RMem('data')
            elif r.kind == 'glob':
                m = RMem('data' if self.cfg.program_start and r.data is not None else 'lazy')
            else:
                m = RMem('lazy')
            st.mem[r.id] = m
            st.owned.add(id(m))
            return m
        if write and id(m) not in st.owned:
            m = m.copy()
            st.mem[r.id] = m
            st.owned.add(id(m))
        return m

    def res(self, st, p):
        """resolve aliases"""
        while p.r is not None and p.r.id in st.alias:
            q = st.alias[p.r.id]
            p = P(q.r, t.add(q.o, p.o)) if isinstance(q, P) else P(q, p.o)
        if p.r is not None and st.nul.get(p.r.id) is True:
            return P(None, p.o)
        return p

    # ------------------------------------------------------------ memory
    def lazy_name(self, r, off):
        if r.cls:
            m = self.mod.member_at(r.cls, off)
            if m:
                return r.name + '.' + m[0], strip(m[1])
        return '%s+%d' % (r.name, off), None

    def init_cell(self, st, r, m, off, n, ty):
        """value of never-written bytes [off, off+n) of region r"""
        if m.base == 'zero':
            return NULL if ty == 'ptr' else C(8 * n, 0)
        if m.base == 'data':
            if r.rel and off in r.rel:
                return self.const(r.rel[off])
            b = r.data[off:off + n] if r.data is not None else b''
            if len(b) == n:
                v = int.from_bytes(b, 'little')
                if ty == 'ptr':
                    return NULL if v == 0 else P(None, C(32, v))
                return C(8 * n, v)
            st.note('const-oob')
            return t.fresh(8 * n, r.name + '.oob')
        if m.base == 'undef':
            if ty == 'ptr':
                nr = Region('lazy', 'undef:%s+%d' % (r.name, off), maybe_null=True)
                return P(nr)
            return t.S(8 * n, 'undef:%s%%%d+%d' % (r.name, r.id, off))
        nm, mt = self.lazy_name(r, off)
        if ty == 'ptr':
            cls = None
            if mt:
                b = mt
                while b.endswith('*') and not b.endswith('**'):
                    b = strip(b[:-1])
                    break
                b = re.sub(r'^(const|volatile) ', '', b)
                if b in self.mod.structs:
                    cls = b
            nr = Region('lazy', nm + ("'%d" % m.epoch if m.epoch else ''), cls=cls, maybe_null=True)
            nr.hint = (r, off)
            if r.ghost is not None and r.ghost.spec.next_off == off:
                r.ghost.spec.link(self, st, r, nr)
            return P(nr)
        hi = None
        if mt == 'bool' and n == 1:
            hi = 1
        return t.S(8 * n, nm + ('%%%d' % r.id) + ("'%d" % m.epoch if m.epoch else ''), 0, hi)

    def to_ty(self, st, v, ty):
        """convert a stored value to load type"""
        if ty == 'ptr':
            if isinstance(v, P):
                return v
            if isinstance(v, T):
                if isc(v):
                    for end in (0, 1):
                        for r, a in self.cfg.addresses.items():
                            if r.id in st.mem and r.id not in st.freed and a <= cv(v) < a + cv(r.size) + end:
                                return P(r, C(32, cv(v) - a))
                    return NULL if cv(v) == 0 else P(None, v)
                if v.op == 'p2i':
                    return v.a[1]
                r = self.ptrsym.get(v) if hasattr(self, 'ptrsym') else None
                if not hasattr(self, 'ptrsym'):
                    self.ptrsym = {}
                if r is None:
                    r = Region('lazy', 'ptr(%s)' % v, maybe_null=True)
                    r.sym = v
                    self.ptrsym[v] = r
                return P(r)
            return v
        if isinstance(v, P):
            return self.p2i(v)
        return v

    def p2i(self, p):
        if p.r is None:
            return p.o
        if p.r in self.cfg.addresses:
            return t.addc(p.o, self.cfg.addresses[p.r])
        if p.r.sym is not None:
            return t.add(p.r.sym, p.o)
        base = t._mk('p2i', 32, (p.r.name, P(p.r)), ('p2i', p.r.id), 1, MASK[32])
        return t.add(base, p.o)

    def conc_off(self, st, o):
        o = st.norm(o)
        if o.op == 'c':
            return sval(cv(o), 32)
        b = st.bounds(o)
        if b[0] == b[1]:
            return sval(b[0], 32)
        return None

    def load(self, st, p, ty, ins=None, fn=None):
        p = self.res(st, p)
        n = nbytes(ty)
        if p.r is None:
            st.note('null-load')
            st.emit(('null-deref', 'load', (p,), None, self.where(ins, fn)))
            return t.fresh(8 * n, 'nullload') if ty != 'ptr' else P(Region('lazy', 'nullload', maybe_null=True))
        r = p.r
        if r.maybe_null and r.id not in st.nul:
            self.touch(st, r, ins, fn)
        m = self.rmem(st, r)
        if self.cfg.on_access:
            self.cfg.on_access(self, st, p, C(32, n), False, ins, fn)
        if ty.startswith('agg'):
            return self.load_agg(st, p, n)
        off = self.conc_off(st, p.o)
        v = self.read(st, r, m, off if off is not None else p.o, n, ty)
        v = self.to_ty(st, v, ty)
        w = tw(ty)
        if isinstance(v, T) and v.w > w:
            v = t.trunc(v, w)
        return v

    def load_agg(self, st, p, n):
        off = self.conc_off(st, p.o)
        if off is None:
            raise Unsupported('aggregate load at symbolic offset')
        cells = []
        m = self.rmem(st, p.r)
        o = off
        while o < off + n:
            c = m.cells.get(o)
            k = c[0] if c and o + c[0] <= off + n else (4 if (o % 4 == 0 and o + 4 <= off + n and not any(x in m.cells for x in range(o + 1, o + 4))) else 1)
            cells.append((o - off, k, self.read(st, p.r, m, o, k, 'i%d' % (8 * k) if not (c and isinstance(c[1], P)) else 'ptr')))
            o += k
        return Agg(cells, n)

    def set_null(self, st, r, isnull):
        """decide the nullness of region r; False when impossible"""
        if isnull and st.nul.get(r.id) is False or (not isnull and st.nul.get(r.id) is True):
            return False
        st.nul[r.id] = isnull
        g = r.ghost
        if g is not None:
            return g.spec.on_null(self, st, r, isnull)
        return True

    def touch(self, st, r, ins, fn):
        """dereference of an unresolved pointer: assume not null"""
        ok = self.set_null(st, r, False)
        if not ok:
            st.note('null-deref')
            st.emit(('null-deref', 'deref', (P(r),), None, self.where(ins, fn)))
            return
        st.emit(('assume-nonnull', r.name, (P(r),), None, self.where(ins, fn)))

    def read(self, st, r, m, off, n, ty):
        if not isinstance(off, int):
            return self.read_sym(st, r, m, off, n, ty)
        if m.syms:
            v = self.scan_syms(st, r, m, C(32, off), n, ty)
            if v is not None:
                return v
        c = m.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        # compose from bytes
        over = [(o, c) for o, c in m.cells.items() if o < off + n and off < o + c[0]] if (c is not None or self._overlap(m, off, n)) else []
        if not over:
            v = self.init_cell(st, r, m, off, n, ty)
            if m.base in ('lazy', 'undef'):
                m = self.rmem(st, r, True)
                m.cells[off] = (n, v, False)
            return v
        parts = []
        o = off
        while o < off + n:
            hit = None
            for oo, cc in over:
                if oo <= o < oo + cc[0]:
                    hit = (oo, cc)
                    break
            if hit:
                oo, cc = hit
                k = min(oo + cc[0], off + n) - o
                val = cc[1]
                if isinstance(val, P):
                    val = self.p2i(val)
                if isinstance(val, Agg):
                    raise Unsupported('partial aggregate')
                parts.append(t.extract(t.zext(val, 8 * cc[0]) if val.w < 8 * cc[0] else val, 8 * (o - oo), 8 * k))
                o += k
            else:
                v = self.init_cell(st, r, m, o, 1, 'i8')
                if m.base in ('lazy', 'undef'):
                    m = self.rmem(st, r, True)
                    m.cells[o] = (1, v, False)
                parts.append(v)
                o += 1
        return t.concat(parts)

    def _overlap(self, m, off, n):
        cells = m.cells
        if len(cells) < 24:
            return any(o < off + n and off < o + c[0] for o, c in cells.items())
        for o in range(off - 15, off + n):
            c = cells.get(o)
            if c is not None and o + c[0] > off:
                return True
        return any(c[0] > 16 and o < off + n and off < o + c[0] for o, c in cells.items())

    def scan_syms(self, st, r, m, offT, n, ty):
        """newest-first search of the write log; None = fall to base cells"""
        for k in range(len(m.syms) - 1, -1, -1):
            e = m.syms[k]
            if e[0] == 'w':
                _, o2, n2, v = e
                if o2 is offT and n2 == n:
                    return v
                d = st.norm(t.sub(offT, o2))
                if isc(d):
                    dv = sval(cv(d), 32)
                    if dv == 0 and n2 == n:
                        return v
                    if dv >= n2 or dv <= -n:
                        continue
                    if 0 <= dv and dv + n <= n2 and isinstance(v, T):
                        return t.extract(v, 8 * dv, 8 * n)
                    if dv == 0 and n2 < n or True:
                        # byte-compose
                        if n > 1 and isinstance(v, T):
                            parts = []
                            for i in range(n):
                                b = self.scan_syms(st, r, m, t.addc(offT, i), 1, 'i8')
                                if b is None:
                                    co = self.conc_off(st, t.addc(offT, i))
                                    mm = RMem(m.base, m.cells, (), m.epoch)
                                    b = self.read(st, r, mm, co if co is not None else t.addc(offT, i), 1, 'i8')
                                if not isinstance(b, T):
                                    b = t.fresh(8, 'ptrbyte')
                                parts.append(b)
                            return t.concat(parts)
                        return t.fresh(8 * n, 'partial')
                dis = self.disjoint(st, offT, C(32, n), o2, C(32, n2))
                if dis:
                    continue
                st.note('ambiguous-read')
                return self.unk(ty, n, 'amb')
            if e[0] == 'fill':
                _, o2, len2, bv = e[:4]
                ins_ = self.inside(st, offT, n, o2, len2)
                if ins_:
                    return t.concat([bv] * n)
                if self.disjoint(st, offT, C(32, n), o2, len2):
                    continue
                st.note('ambiguous-read')
                return self.unk(ty, n, 'amb')
            if e[0] == 'copy':
                _, o2, len2, sr, so, sm = e[:6]
                if self.inside(st, offT, n, o2, len2):
                    src = t.add(so, t.sub(offT, o2))
                    co = self.conc_off(st, src)
                    return self.read(st, sr, sm, co if co is not None else src, n, ty)
                if self.disjoint(st, offT, C(32, n), o2, len2):
                    continue
                st.note('ambiguous-read')
                return self.unk(ty, n, 'amb')
            if e[0] == 'havoc':
                return self.unk(ty, n, 'hv')
        return None

    def unk(self, ty, n, why):
        if ty == 'ptr':
            return P(Region('lazy', why, maybe_null=True))
        return t.fresh(8 * n, why + '!')

    def disjoint(self, st, o1, n1, o2, n2):
        """[o1,o1+n1) and [o2,o2+n2) share no byte (offsets as unsigned)"""
        d1, k1 = st.um(st.norm(o1))
        d2, k2 = st.um(st.norm(o2))
        dn1, kn1 = st.um(st.norm(n1))
        dn2, kn2 = st.um(st.norm(n2))

        def ge(a, ka, b, kb, c, kc):  # a >= b + c
            d = dict(a)
            for v, x in b.items():
                d[v] = d.get(v, 0) - x
            for v, x in c.items():
                d[v] = d.get(v, 0) - x
            return st.entails({v: x for v, x in d.items() if x}, ka - kb - kc)
        return ge(d1, k1, d2, k2, dn2, kn2) or ge(d2, k2, d1, k1, dn1, kn1)

    def inside(self, st, o1, n1, o2, n2):
        d1, k1 = st.um(st.norm(o1))
        d2, k2 = st.um(st.norm(o2))
        dn2, kn2 = st.um(st.norm(n2))
        a = dict(d1)
        for v, x in d2.items():
            a[v] = a.get(v, 0) - x
        if not st.entails({v: x for v, x in a.items() if x}, k1 - k2):
            return False
        b = dict(d2)
        for v, x in dn2.items():
            b[v] = b.get(v, 0) + x
        for v, x in d1.items():
            b[v] = b.get(v, 0) - x
        return st.entails({v: x for v, x in b.items() if x}, k2 + kn2 - k1 - n1)

    def affine_table(self, st, r, offT, n):
        """a table whose entries over the index range are constant or climb by one: the entry as a term"""
        if n > 4:
            return None
        lo, hi = st.bounds(offT)
        if hi - lo > 4096 or hi + n > len(r.data):
            return None
        k = 1
        if n > 1:
            if lo % n or offT.op == 'lin' and any(c % n for c, _ in offT.a[1]) or offT.op != 'lin' and offT.op != 'cat':
                return None
            d = t.urem(offT, C(32, n))
            if not (isc(d) and cv(d) == 0):
                return None
            k = n
        vals = [int.from_bytes(r.data[o:o + n], 'little') for o in range(lo, hi + 1, k)]
        if len(set(vals)) == 1:
            return C(8 * n, vals[0])
        if k == 1 and all(b - a == 1 for a, b in zip(vals, vals[1:])) and vals[-1] < 256:
            return t.zext(t.trunc(t.addc(offT, vals[0] - lo), 8), 8 * n)
        return None

    def read_sym(self, st, r, m, offT, n, ty):
        offT = st.norm(offT)
        if m.syms:
            v = self.scan_syms(st, r, m, offT, n, ty)
            if v is not None:
                return v
        if m.base == 'data' and r.data is not None and not (r.rel):
            # constant table, symbolic index
            v = self.affine_table(st, r, offT, n)
            if v is not None:
                return v
            return t._mk('fop', 8 * n, ('tbl', r.name, offT), ('tbl', r.id, offT.id, n))
        for o, c in m.cells.items():
            if c[2] and not self.disjoint(st, offT, C(32, n), C(32, o), C(32, c[0])):
                st.note('ambiguous-read')
                return self.unk(ty, n, 'amb')
        if m.base == 'zero':
            return NULL if ty == 'ptr' else C(8 * n, 0)
        if m.base == 'data':
            st.note('table-pointer')
        if ty == 'ptr':
            key = ('idx', r.id, m.epoch, offT.id)
            if not hasattr(self, 'idxptr'):
                self.idxptr = {}
            x = self.idxptr.get(key)
            if x is None:
                cls = None
                if r.elem:
                    cls = r.elem
                x = Region('lazy', '%s[%s]' % (r.name, offT), cls=cls, maybe_null=True)
                x.hint = (r, offT)
                self.idxptr[key] = x
            return P(x)
        if m.base == 'undef':
            return t.S(8 * n, 'undef:%s%%%d[%d]' % (r.name, r.id, offT.id))
        v = t._mk('s', 8 * n, ('%s[%s]%s' % (r.name, offT, "'%d" % m.epoch if m.epoch else ''),), ('idx', r.id, m.epoch, offT.id, n), 0, None)
        IDX[v.id] = (r, offT, n)
        return v

    def store(self, st, p, v, ty, ins=None, fn=None):
        p = self.res(st, p)
        n = nbytes(ty)
        if p.r is None:
            st.note('null-store')
            st.emit(('null-deref', 'store', (p,), None, self.where(ins, fn)))
            return
        r = p.r
        if r.maybe_null and r.id not in st.nul:
            self.touch(st, r, ins, fn)
        if self.cfg.on_access:
            self.cfg.on_access(self, st, p, C(32, n), True, ins, fn)
        if isinstance(v, Agg):
            for o, k, x in v.cells:
                self.write(st, r, t.addc(p.o, o), k, x)
            return
        if isinstance(v, T) and v.w < 8 * n:
            v = t.zext(v, 8 * n)
        self.write(st, r, p.o, n, v)

    def write(self, st, r, offT, n, v):
        m = self.rmem(st, r, True)
        off = self.conc_off(st, offT)
        if off is None or m.syms:
            if off is not None:
                offT = C(32, off)
            self.addlog(m, ('w', offT, n, v))
            if len(m.syms) > 400:
                raise Budget('write log')
            return
        self.put(m, off, n, v)

    def addlog(self, m, e):
        """append to the write log, joining adjacent fills and copies"""
        if m.syms:
            l = m.syms[-1]
            if l[0] == 'fill' and len(l) == 4:
                end = t.add(l[1], l[2])
                if e[1] is end:
                    if e[0] == 'w' and isinstance(e[3], T) and t.concat([l[3]] * e[2]) is e[3]:
                        m.syms = m.syms[:-1] + (('fill', l[1], t.addc(l[2], e[2]), l[3]),)
                        return
                    if e[0] == 'fill' and e[3] is l[3]:
                        m.syms = m.syms[:-1] + (('fill', l[1], t.add(l[2], e[2]), l[3]),)
                        return
            elif l[0] == 'copy' and len(l) == 6 and e[1] is t.add(l[1], l[2]):
                if e[0] == 'w' and isinstance(e[3], T):
                    src = IDX.get(e[3].id)
                    if src is not None and src[0] is l[3] and src[2] == e[2] and src[1] is t.add(l[4], l[2]):
                        m.syms = m.syms[:-1] + (('copy', l[1], t.addc(l[2], e[2]), l[3], l[4], l[5]),)
                        return
        m.syms = m.syms + (e,)

    def put(self, m, off, n, v):
        c = m.cells.get(off)
        if c is not None and c[0] == n:
            m.cells[off] = (n, v, True)
            return
        if self._overlap(m, off, n):
            over = [(o, c) for o, c in m.cells.items() if o < off + n and off < o + c[0]]
            for o, c in over:
                del m.cells[o]
                val = c[1]
                if isinstance(val, P):
                    val = self.p2i(val)
                if isinstance(val, Agg):
                    continue
                if val.w < 8 * c[0]:
                    val = t.zext(val, 8 * c[0])
                if o < off:
                    m.cells[o] = (off - o, t.extract(val, 0, 8 * (off - o)), c[2])
                if o + c[0] > off + n:
                    k = o + c[0] - off - n
                    m.cells[off + n] = (k, t.extract(val, val.w - 8 * k, 8 * k), c[2])
        m.cells[off] = (n, v, True)

    def havoc_region(self, st, r):
        m = self.rmem(st, r)
        nm = RMem('lazy', {}, (), m.epoch + 1)
        Region._n[0] += 1
        nm.epoch = Region._n[0]
        st.mem[r.id] = nm
        st.owned.add(id(nm))

    def memcpy(self, st, d, s, ln, ins, fn):
        d = self.res(st, d)
        s = self.res(st, s)
        ln = st.norm(ln)
        lb = st.bounds(ln)
        if lb[1] == 0:
            return
        for q, wr in ((s, False), (d, True)):
            if q.r is None:
                if lb[0] > 0:
                    st.note('null-deref')
                    st.emit(('null-deref', 'memcpy', (q,), None, self.where(ins, fn)))
                return
            if q.r.maybe_null and q.r.id not in st.nul and lb[0] > 0:
                self.touch(st, q.r, ins, fn)
            if self.cfg.on_access:
                self.cfg.on_access(self, st, q, ln, wr, ins, fn)
        do, so = self.conc_off(st, d.o), self.conc_off(st, s.o)
        sm = self.rmem(st, s.r)
        if isc(ln) and do is not None and so is not None and cv(ln) <= 512:
            n = cv(ln)
            tmp = []
            o = so
            while o < so + n:
                c = sm.cells.get(o)
                k = 0
                ty = None
                if c and o + c[0] <= so + n and not sm.syms:
                    k = c[0]
                    ty = 'ptr' if isinstance(c[1], P) else 'i%d' % (8 * k)
                else:
                    # layout-guided granularity
                    k, ty = self.gran(s.r, o, so + n - o, sm)
                    if k == 0:
                        k, ty = self.gran(d.r, do + (o - so), so + n - o, None)
                        if k and self._overlap(sm, o, k):
                            k = 0
                    if k == 0:
                        k, ty = 1, 'i8'
                        if o % 4 == 0 and o + 4 <= so + n and not self._overlap(sm, o, 4) and n >= 16:
                            k, ty = 4, 'i32'
                v = self.read(st, s.r, sm, o, k, ty)
                sm = self.rmem(st, s.r)
                tmp.append((o - so, k, v))
                o += k
            for o, k, v in tmp:
                self.write(st, d.r, C(32, do + o), k, v)
            return
        m = self.rmem(st, d.r, True)
        self.addlog(m, ('copy', st.norm(d.o), ln, s.r, st.norm(s.o), sm.copy()))

    def gran(self, r, off, room, m):
        if r.cls:
            x = self.mod.member_at(r.cls, off)
            if x:
                ty = strip(x[1])
                if '+' in x[0].split('.')[-1]:
                    return 0, None
                if ty.endswith('*') or ty.endswith('fn*'):
                    if room >= 4 and (m is None or not self._overlap(m, off, 4)):
                        return 4, 'ptr'
                sz = {'uint32_t': 4, 'int32_t': 4, 'uint16_t': 2, 'int16_t': 2, 'uint8_t': 1, 'int8_t': 1, 'bool': 1, 'int': 4,
                      'unsigned int': 4, 'float': 4, 'double': 8, 'uint64_t': 8, 'int64_t': 8, 'char': 1}.get(ty)
                if sz and sz <= room and (m is None or not self._overlap(m, off, sz)):
                    return sz, 'i%d' % (8 * sz)
        return 0, None

    def memset(self, st, d, val, ln, ins, fn):
        d = self.res(st, d)
        ln = st.norm(ln)
        lb = st.bounds(ln)
        if lb[1] == 0:
            return
        if d.r is None:
            if lb[0] > 0:
                st.note('null-deref')
                st.emit(('null-deref', 'memset', (d,), None, self.where(ins, fn)))
            return
        if self.cfg.on_access:
            self.cfg.on_access(self, st, d, ln, True, ins, fn)
        b = t.trunc(val, 8)
        do = self.conc_off(st, d.o)
        m = self.rmem(st, d.r, True)
        if isc(ln) and do is not None and not m.syms:
            n = cv(ln)
            if do == 0 and d.r.size is not None and isc(d.r.size) and cv(d.r.size) == n and isc(b) and cv(b) == 0:
                m.cells = {}
                m.syms = ()
                m.base = 'zero'
                m.epoch = 0
                return
            if n <= 512:
                i = 0
                while i < n:
                    k = 4 if (do + i) % 4 == 0 and i + 4 <= n else 1
                    self.put(m, do + i, k, t.concat([b] * k))
                    i += k
                return
        if do == 0 and d.r.size is not None and st.norm(d.r.size) is ln and isc(b) and cv(b) == 0:
            m.cells = {}
            m.syms = ()
            m.base = 'zero'
            return
        self.addlog(m, ('fill', st.norm(d.o), ln, b))

    # ------------------------------------------------------------ values
    def where(self, ins, fn):
        if fn is None:
            return '?'
        return fn.loc(ins)

    def const(self, v):
        k = v[0]
        if k == 'c':
            return C(v[1], int(v[2]))
        if k == 'null':
            return NULL
        if k == 'undef':
            if v[1] == 'ptr':
                return P(Region('lazy', 'undef', maybe_null=True))
            if v[1].startswith('agg'):
                return Agg([], int(v[1][3:]))
            return t.fresh(tw(v[1]), 'undef')
        if k == 'zero':
            n = int(v[1][3:]) if v[1].startswith('agg') else 0
            return Agg([(i, 1, C(8, 0)) for i in range(n)], n)
        if k == 'f':
            w = tw(v[1])
            return C(w, int(v[3], 16))
        if k == 'g':
            return P(self.global_region(v[1]))
        if k == 'ce':
            return self.constexpr(v[1])
        if k in ('md', 'asm', 'unk'):
            return C(32, 0)
        raise Unsupported('operand ' + str(v))

    def constexpr(self, o):
        op = o['op']
        if op == 'gep':
            b = self.const(o['base'])
            off = C(32, o['off'])
            for x, s, bits in o['idx']:
                off = t.add(off, t.mulc(self.const(x), s))
            return P(b.r, t.add(b.o, off))
        a = [self.const(x) for x in o['args']]
        if op == 'ptrtoint':
            r = self.p2i(a[0]) if isinstance(a[0], P) else a[0]
            w = tw(o['ty'])
            return t.trunc(r, w) if w < 32 else t.zext(r, w)
        if op == 'inttoptr':
            return self.to_ty(None, a[0], 'ptr')
        if op in ('bitcast', 'addrspacecast'):
            return a[0]
        if op in ('add', 'sub', 'mul'):
            return {'add': t.add, 'sub': t.sub, 'mul': t.mul}[op](*a)
        raise Unsupported('constexpr ' + op)

    def val(self, env, v):
        if v[0] == 'v':
            return env[v[1]]
        return self.const(v)

    # ------------------------------------------------------------ pointer comparison
    def pcmp(self, st, pred, a, b):
        """list of (state, T w1)"""
        if isinstance(a, T) or isinstance(b, T):
            a = self.to_ty(st, a, 'ptr') if isinstance(a, T) else a
            b = self.to_ty(st, b, 'ptr') if isinstance(b, T) else b
        a = self.res(st, a)
        b = self.res(st, b)
        if pred not in ('eq', 'ne'):
            if a.r is b.r:
                return [(st, t.ICMP[pred](st.norm(a.o), st.norm(b.o)))]
            return [(st, t.ICMP[pred](self.p2i(a), self.p2i(b)))]
        eqv = None
        if a.r is b.r:
            e = t.eq(st.norm(a.o), st.norm(b.o))
            return [(st, e if pred == 'eq' else t.not_(e))]
        if a.r is None:
            a, b = b, a
        if b.r is None:
            # a vs absolute
            if isc(b.o) and cv(b.o) == 0 and a.r.sym is not None and a.r.id not in st.nul:
                c = t.eq(st.norm(self.p2i(a)), b.o)
                return [(st, c if pred == 'eq' else t.not_(c))]
            if isc(b.o) and cv(b.o) == 0:
                if not a.r.maybe_null or st.nul.get(a.r.id) is False or not (isc(a.o) and cv(a.o) == 0):
                    eqv = False
                else:
                    out = []
                    s1 = st.copy()
                    if self.set_null(s1, a.r, True):
                        out.append((s1, t.TRUE if pred == 'eq' else t.FALSE))
                    if self.set_null(st, a.r, False):
                        out.append((st, t.FALSE if pred == 'eq' else t.TRUE))
                    return out
            else:
                c = t.eq(self.p2i(a), b.o)
                return [(st, c if pred == 'eq' else t.not_(c))]
        else:
            la, lb = a.r.kind == 'lazy', b.r.kind == 'lazy'
            if la and lb or ((la or lb) and (a.r.hint == 'any' or b.r.hint == 'any')):
                # two unknown pointers may be one object
                if a.o is b.o and isc(a.o):
                    key = tuple(sorted((a.r.id, b.r.id)))
                    atom = t._mk('s', 1, ('same(%s,%s)' % (a.r.name, b.r.name),), ('same', key), 0, 1)
                    dec = st.bools.get(atom)
                    if dec is not None:
                        eqv = bool(dec)
                    elif a.r.maybe_null and b.r.maybe_null and st.nul.get(a.r.id) is not False and st.nul.get(b.r.id) is not False:
                        eqv = None
                        s1 = st.copy()
                        s1.bools[atom] = 1
                        self.make_alias(s1, a.r, b.r)
                        s2 = st
                        s2.bools[atom] = 0
                        return [(s1, t.TRUE if pred == 'eq' else t.FALSE), (s2, t.FALSE if pred == 'eq' else t.TRUE)]
                    else:
                        s1 = st.copy()
                        s1.bools[atom] = 1
                        for r in (a.r, b.r):
                            if r.maybe_null:
                                s1.nul[r.id] = False
                        self.make_alias(s1, a.r, b.r)
                        s2 = st
                        s2.bools[atom] = 0
                        return [(s1, t.TRUE if pred == 'eq' else t.FALSE), (s2, t.FALSE if pred == 'eq' else t.TRUE)]
                else:
                    c = t.eq(self.p2i(a), self.p2i(b))
                    return [(st, c if pred == 'eq' else t.not_(c))]
            else:
                eqv = False
        return [(st, C(1, int(eqv == (pred == 'eq'))))]

    def make_alias(self, st, ra, rb):
        """rb and ra are one object: keep the one with more content"""
        ca = len(st.mem[ra.id].cells) if ra.id in st.mem else 0
        cb = len(st.mem[rb.id].cells) if rb.id in st.mem else 0
        if cb > ca:
            ra, rb = rb, ra
        st.alias[rb.id] = ra

    # ------------------------------------------------------------ run a function
    def call(self, fn, st, args):
        """interpret fn; returns [(state, retval)]"""
        if len(self.stack) >= self.cfg.max_depth:
            raise Budget('call depth at ' + fn.dem)
        self.visited.add(fn.name)
        self.stat_calls += 1
        env = {}
        for i, a in enumerate(args[:len(fn.args)]):
            env[i] = a
        self.stack.append(fn)
        try:
            frame = Frame(fn, args[len(fn.args):])
            outs = self.run_region(fn, frame, None, {0: [(st, env, None)]})
        finally:
            self.stack.pop()
        return outs['ret']

    def run_region(self, fn, frame, loop, pending):
        """Interpret the blocks of one loop body (loop) or of the whole function
        (None), inner loops collapsed.  pending: block -> [(state, env, prev)].
        Returns {'ret': [(st, v)], 'back': [(st, env, prev)], 'exit': {block: [...]}}"""
        fn.cfg()
        ret = []
        back = []
        exits = {}
        blocks = set(fn.rpo) if loop is None else loop.blocks
        hdr = None if loop is None else loop.header
        first = True
        for b in fn.rpo:
            if b not in blocks:
                continue
            lst = pending.pop(b, None)
            if not lst:
                continue
            inner = fn.loops.get(b)
            if inner is not None and not (loop is not None and b == hdr):
                res = self.run_loop(fn, frame, inner, lst)
                ret += res['ret']
                for tb, l in res['exit'].items():
                    self.route(fn, loop, hdr, blocks, tb, l, pending, back, exits)
                continue
            if len(lst) > self.cfg.max_states:
                raise Budget('%d states at %s' % (len(lst), fn.dem))
            if len(lst) > 24:
                lst = self.merge_same(fn, b, lst)
            for st, env, prev in lst:
                for kind, x in self.exec_block(fn, frame, b, st, env, prev):
                    if kind == 'ret':
                        ret.append(x)
                    else:
                        tb, s2, e2 = x
                        self.route(fn, loop, hdr, blocks, tb, [(s2, e2, b)], pending, back, exits)
        return {'ret': ret, 'back': back, 'exit': exits}

    def route(self, fn, loop, hdr, blocks, tb, lst, pending, back, exits):
        if tb == hdr and loop is not None:
            back += lst
        elif tb in blocks:
            pending.setdefault(tb, []).extend(lst)
        else:
            exits.setdefault(tb, []).extend(lst)

    def merge_same(self, fn, b, lst):
        """join states that differ in facts only"""
        if not self.cfg.merge:
            return lst
        live = self.live(fn, b)
        groups = {}
        for st, env, prev in lst:
            phis = any(i['op'] == 'phi' for i in fn.blocks[b])
            key = (prev if phis else None, id(st.log) if st.log is not None else None, tuple(sorted((k, _hv(v)) for k, v in env.items() if k in live)),
                   _memkey(st), tuple(sorted(st.nul.items())), tuple(sorted((k, v.id) for k, v in st.alias.items())), st.notes)
            groups.setdefault(key, []).append((st, env, prev))
        out = []
        for k, g in groups.items():
            if len(g) == 1:
                out.append(g[0])
                continue
            st, env, prev = g[0]
            s = st.copy()
            others = [x[0] for x in g[1:]]
            s.bools = {a: v for a, v in s.bools.items() if all(o.bools.get(a) == v for o in others)}
            s.kb = {a: v for a, v in s.kb.items() if all(o.kb.get(a) == v for o in others)}
            s.pins = {a: v for a, v in s.pins.items() if all(o.pins.get(a) is v for o in others)}
            nr = {}
            for a, (lo, hi) in s.ref.items():
                for o in others:
                    bb = o.bounds(a)
                    lo, hi = min(lo, bb[0]), max(hi, bb[1])
                if (lo, hi) != (a.lo, a.hi):
                    nr[a] = (lo, hi)
            s.ref = nr
            s.lins = tuple((d, kk) for d, kk in st.lins if all(any(d == d2 and kk >= k2 for d2, k2 in o.lins) or o.entails(d, kk) for o in others))
            s.nes = tuple(x for x in st.nes if all(x in o.nes for o in others))
            for o in others:
                for kk in ('havoc', 'lossy'):
                    if o.user.get(kk):
                        s.user[kk] = True
            # a join that forgets facts is no witness
            if len(s.bools) < len(st.bools) or len(s.lins) < len(st.lins) or s.ref != st.ref or len(s.kb) < len(st.kb) or len(s.nes) < len(st.nes):
                s.user['lossy'] = True
            out.append((s, env, prev))
        return out

    def live(self, fn, b):
        """ids live on entry to block b (backwards dataflow, cached)"""
        if not hasattr(fn, '_live'):
            use = []
            dfn = []
            for ins in fn.blocks:
                u, d = set(), set()
                for i in ins:
                    if i['op'] == 'dbg':
                        continue
                    for x in _uses(i):
                        if x not in d:
                            u.add(x)
                    if 'id' in i:
                        d.add(i['id'])
                use.append(u)
                dfn.append(d)
            li = [set() for _ in fn.blocks]
            ch = True
            while ch:
                ch = False
                for b2 in reversed(fn.rpo):
                    o = set()
                    for s in fn.succ[b2]:
                        o |= li[s]
                    n = use[b2] | (o - dfn[b2])
                    if n != li[b2]:
                        li[b2] = n
                        ch = True
            fn._live = li
        return fn._live[b]

    # ------------------------------------------------------------ blocks
    def exec_block(self, fn, frame, b, st, env, prev):
        """yield ('ret', (st, v)) or ('next', (target, st, env))"""
        ins = fn.blocks[b]
        env = dict(env)
        i = 0
        if prev is not None or ins[0]['op'] == 'phi':
            upd = {}
            while i < len(ins) and ins[i]['op'] in ('phi', 'dbg'):
                p = ins[i]
                if p['op'] == 'phi':
                    for v, pb in p['in']:
                        if pb == prev:
                            upd[p['id']] = self.val(env, v)
                            break
                    else:
                        raise Unsupported('phi')
                i += 1
            env.update(upd)
        work = [(st, env, i)]
        while work:
            st, env, i = work.pop()
            n = len(ins)
            while i < n:
                self.steps += 1
                if self.steps > self.cfg.steps:
                    raise Budget('step budget in ' + fn.dem)
                o = ins[i]
                op = o['op']
                if op == 'dbg':
                    i += 1
                    continue
                if op == 'br':
                    if 'cond' not in o:
                        yield 'next', (o['succ'][0], st, env)
                        break
                    c = st.norm(self.val(env, o['cond']))
                    frame.last_cond_const = None
                    if isc(c):
                        frame.constbr.add((b, cv(c)))
                        yield 'next', (o['succ'][0 if cv(c) else 1], st, env)
                        break
                    # assume may return the state itself: keep a pristine copy
                    s0 = st.copy()
                    ts = st.assume(c, True)
                    if len(ts) == 1 and ts[0] is st:
                        yield 'next', (o['succ'][0], st, env)
                        break
                    fs = s0.assume(c, False)
                    for s in ts:
                        yield 'next', (o['succ'][0], s, env)
                    for s in fs:
                        yield 'next', (o['succ'][1], s, env)
                    break
                if op == 'switch':
                    c = st.norm(self.val(env, o['cond']))
                    if isc(c):
                        tgt = o['def']
                        for k, tb in o['cases']:
                            if int(k) & MASK[c.w] == cv(c):
                                tgt = tb
                        yield 'next', (tgt, st, env)
                        break
                    cur = [st]
                    bytgt = {}
                    for k, tb in o['cases']:
                        nxt = []
                        for s in cur:
                            e = t.eq(c, C(c.w, int(k)))
                            s0 = s.copy()
                            for s1 in s.assume(e, True):
                                yield 'next', (tb, s1, env)
                            nxt += s0.assume(e, False)
                        cur = nxt
                    for s in cur:
                        yield 'next', (o['def'], s, env)
                    break
                if op == 'ret':
                    v = self.val(env, o['args'][0]) if o['args'] else None
                    if isinstance(v, T):
                        v = st.norm(v)
                    yield 'ret', (st, v)
                    break
                if op == 'unreachable':
                    break
                r = self.exec_ins(fn, frame, o, st, env)
                if r is None:
                    i += 1
                    continue
                # list of (state, value)
                if any('stop' in x[0].user for x in r):
                    # a model ended the whole run here
                    for x in r:
                        if 'stop' in x[0].user:
                            yield 'ret', (x[0], None)
                    r = [x for x in r if 'stop' not in x[0].user]
                if len(r) == 0:
                    break
                for s2, v in r[1:]:
                    e2 = dict(env)
                    if 'id' in o:
                        e2[o['id']] = v
                    work.append((s2, e2, i + 1))
                st, v = r[0]
                if 'id' in o:
                    if len(r) > 1:
                        env = dict(env)
                    env[o['id']] = v
                i += 1

    def exec_ins(self, fn, frame, o, st, env):
        op = o['op']
        val = self.val
        if op == 'alloca':
            cnt = val(env, o['args'][0])
            if cnt.w != 32:
                cnt = t.trunc(cnt, 32) if cnt.w > 32 else t.zext(cnt, 32)
            size = t.mulc(st.norm(cnt), o['esz'])
            r = self.new_region(st, 'stack', 'local:%s' % (fn.vars.get(o['id']) or o.get('var') or o['id']), size, base='undef')
            r.site = (fn, o)
            ty = None
            env[o['id']] = P(r)
            return None
        if op == 'load':
            p = val(env, o['args'][0])
            p = self.to_ty(st, p, 'ptr')
            env[o['id']] = self.load(st, p, o['ty'], o, fn)
            return None
        if op == 'store':
            p = self.to_ty(st, val(env, o['args'][1]), 'ptr')
            v = val(env, o['args'][0])
            if isinstance(v, T):
                v = st.norm(v)
            self.store(st, p, v, o['sty'], o, fn)
            return None
        if op == 'gep':
            b = self.to_ty(st, val(env, o['base']), 'ptr')
            off = C(32, o['off'])
            for x, s, bits in o['idx']:
                iv = val(env, x)
                if bits < 32:
                    iv = t.sext(iv, 32)
                elif bits > 32:
                    iv = t.trunc(iv, 32)
                off = t.add(off, t.mulc(iv, s))
            env[o['id']] = P(b.r, st.norm(t.add(b.o, off)))
            return None
        if op == 'icmp':
            a, b = val(env, o['args'][0]), val(env, o['args'][1])
            if o['aty'] == 'ptr' or isinstance(a, P) or isinstance(b, P):
                return self.pcmp(st, o['pred'], a, b)
            env[o['id']] = t.ICMP[o['pred']](st.norm(a), st.norm(b))
            return None
        if op in BIN:
            a, b = val(env, o['args'][0]), val(env, o['args'][1])
            a = self.p2i(a) if isinstance(a, P) else a
            b = self.p2i(b) if isinstance(b, P) else b
            a, b = st.norm(a), st.norm(b)
            if op in ('urem', 'udiv', 'srem', 'sdiv'):
                return self.divide(st, op, a, b, o, fn)
            if op in ('lshr', 'shl', 'ashr') and not isc(b):
                return self.shift(st, op, a, b)
            env[o['id']] = BIN[op](a, b)
            return None
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            a = val(env, o['args'][0])
            if op == 'inttoptr':
                env[o['id']] = self.to_ty(st, a, 'ptr')
                return None
            if op in ('bitcast', 'freeze', 'addrspacecast'):
                env[o['id']] = a
                return None
            if isinstance(a, P):
                a = self.p2i(a)
            w = tw(o['ty'])
            a = st.norm(a)
            if op == 'sext':
                r = st.decide(t.extract(a, a.w - 1, 1)) if a.w > 1 else None
                if r is False:
                    env[o['id']] = t.zext(a, w)
                else:
                    env[o['id']] = t.sext(a, w)
            elif w < a.w:
                env[o['id']] = t.trunc(a, w)
            else:
                env[o['id']] = t.zext(a, w)
            return None
        if op == 'select':
            c = st.norm(val(env, o['args'][0]))
            a, b = o['args'][1], o['args'][2]
            if isc(c):
                env[o['id']] = val(env, a if cv(c) else b)
                return None
            if o['ty'] == 'i1':
                x, y = val(env, a), val(env, b)
                # c ? x : y as a boolean function
                env[o['id']] = t.bw(0b11001010, [y, x, c]) if False else t.or_(t.and_(c, x), t.and_(t.not_(c), y))
                return None
            s0 = st.copy()
            out = [(s, val(env, a)) for s in st.assume(c, True)]
            out += [(s, val(env, b)) for s in s0.assume(c, False)]
            return out
        if op == 'call':
            return self.exec_call(fn, frame, o, st, env)
        if op == 'phi':
            raise Unsupported('late phi')
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = (val(env, x) for x in o['args'])
            if op in ('fadd', 'fmul') and a.id > b.id:
                a, b = b, a
            env[o['id']] = t.fop(a.w, op, [a, b])
            return None
        if op == 'fneg':
            a = val(env, o['args'][0])
            env[o['id']] = t.xor_(a, C(a.w, 1 << (a.w - 1)))
            return None
        if op == 'fcmp':
            a, b = (val(env, x) for x in o['args'])
            env[o['id']] = fcmp(o['pred'], a, b)
            return None
        if op in ('fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp'):
            a = val(env, o['args'][0])
            env[o['id']] = fcast(op, a, o['sty'], o['ty'])
            return None
        if op == 'extractvalue':
            a = val(env, o['args'][0])
            if isinstance(a, Agg):
                for off, n, v in a.cells:
                    if off == o['off']:
                        v = self.to_ty(st, v, 'ptr') if o['ty'] == 'ptr' else v
                        if isinstance(v, T) and v.w > tw(o['ty']):
                            v = t.trunc(v, tw(o['ty']))
                        env[o['id']] = v
                        return None
            env[o['id']] = self.unk(o['ty'], nbytes(o['ty']), 'ev') if o['ty'] != 'i1' else t.fresh(1, 'ev')
            return None
        if op == 'insertvalue':
            a = val(env, o['args'][0])
            v = val(env, o['args'][1])
            cells = list(a.cells) if isinstance(a, Agg) else []
            n = nbytes(o['sty'])
            cells = [c for c in cells if not (c[0] < o['off'] + n and o['off'] < c[0] + c[1])]
            cells.append((o['off'], n, v))
            env[o['id']] = Agg(sorted(cells, key=lambda c: c[0]), a.size if isinstance(a, Agg) else 0)
            return None
        if op == 'va_arg':
            env[o['id']] = self.unk(o['ty'], nbytes(o['ty']), 'va_arg')
            return None
        if op in ('atomicrmw', 'cmpxchg', 'fence'):
            raise Unsupported(op)
        raise Unsupported('instruction ' + op)

    def divide(self, st, op, a, b, o, fn):
        w = a.w
        bb = st.bounds(b)
        if bb[0] == 0:
            z = st.decide(t.eq(b, C(w, 0)))
            if z is not False:
                st.emit(('div', op, (a, b), None, self.where(o, fn)))
                if z is True:
                    if self.cfg.endless:
                        self.faults.append((st, self.where(o, fn), 'division by zero'))
                    st.note('div0')
                    return []
                if self.cfg.endless:
                    self.faults += [(s, self.where(o, fn), 'division by zero') for s in st.copy().assume(t.eq(b, C(w, 0)), True)]
                ss = st.assume(t.eq(b, C(w, 0)), False)
                if not ss:
                    return []
                st = ss[0]
                if len(ss) > 1:
                    return [x for s in ss for x in self.divide(s, op, a, b, o, fn)]
        if op in ('urem', 'udiv') and not isc(b):
            # split small quotients
            outs = []
            lt = st.decide(t.ult(a, b))
            if lt is True:
                return [(st, a if op == 'urem' else C(w, 0))]
            d = t.sub(a, b)
            two = self.lt2(st, a, b)
            if two:
                s0 = st.copy()
                for s in st.assume(t.ult(a, b), True):
                    outs.append((s, a if op == 'urem' else C(w, 0)))
                for s in s0.assume(t.ult(a, b), False):
                    outs.append((s, d if op == 'urem' else C(w, 1)))
                return outs
        if op in ('urem', 'udiv') and isc(b) and cv(b):
            hi = st.bounds(a)[1]
            lo = st.bounds(a)[0]
            if hi // cv(b) == lo // cv(b):
                q = hi // cv(b)
                return [(st, t.addc(a, -q * cv(b)) if op == 'urem' else C(w, q))]
        if op in ('sdiv', 'srem'):
            sa, sb = st.sbounds(a), st.sbounds(b)
            if sa[0] >= 0 and sb[0] >= 0:
                return self.divide(st, 'u' + op[1:], a, b, o, fn)
            if a.op != 'c' and not (sa[0] >= 0) and isc(b) and sval(cv(b), w) > 0:
                s0 = st.copy()
                neg = t.slt(a, C(w, 0))
                outs = []
                for s in st.assume(neg, False):
                    outs += self.divide(s, 'u' + op[1:], a, b, o, fn)
                for s in s0.assume(neg, True):
                    q = self.divide(s, 'u' + op[1:], t.neg(a), b, o, fn)
                    outs += [(s2, t.neg(v)) for s2, v in q]
                return outs
        f = {'urem': t.urem, 'udiv': t.udiv, 'srem': t.srem, 'sdiv': t.sdiv}[op]
        return [(st, f(a, b))]

    def lt2(self, st, a, b):
        """a < 2*b known?"""
        da, ka = st.um(a)
        db, kb = st.um(b)
        d = {v: 2 * c for v, c in db.items()}
        for v, c in da.items():
            d[v] = d.get(v, 0) - c
        return st.entails({v: c for v, c in d.items() if c}, 2 * kb - ka - 1)

    def shift(self, st, op, a, b):
        lo, hi = st.bounds(b)
        if hi - lo <= 64 and (hi < a.w or True) and isinstance(a, T) and hi - lo <= getattr(self.cfg, 'shift_split', 0):
            outs = []
            cur = [st]
            for k in range(lo, min(hi, a.w - 1) + 1):
                nxt = []
                for s in cur:
                    s0 = s.copy()
                    for s1 in s.assume(t.eq(b, C(b.w, k)), True):
                        outs.append((s1, BIN[op](a, C(b.w, k))))
                    nxt += s0.assume(t.eq(b, C(b.w, k)), False)
                cur = nxt
            return outs
        return [(st, BIN[op](a, b))]

    # ------------------------------------------------------------ calls
    def exec_call(self, fn, frame, o, st, env):
        callee = o['callee']
        args = []
        for x in o['args']:
            if x[0] == 'md':
                args.append(None)
                continue
            v = self.val(env, x)
            args.append(st.norm(v) if isinstance(v, T) else v)
        for k, bv in enumerate(o['byval']):
            if bv:
                # callee gets its own copy
                src = args[k]
                r = self.new_region(st, 'stack', 'byval', C(32, bv), cls=src.r.cls if src.r else None, base='undef')
                self.memcpy(st, P(r), src, C(32, bv), o, fn)
                args[k] = P(r)
        tgt = None
        if callee[0] == 'g':
            tgt = callee[1]
        elif callee[0] == 'asm':
            return self.opaque_call(fn, o, st, 'asm', args)
        else:
            p = self.val(env, callee)
            if isinstance(p, P):
                p = self.res(st, p)
            if isinstance(p, P) and p.r is not None and p.r.kind == 'fn':
                tgt = p.r.name
            else:
                return self.indirect(fn, frame, o, st, env, p, args)
        if self.cfg.varargs and tgt.startswith('llvm.va_start'):
            self.va_start(st, frame, args[0], o, fn)
            return [(st, None)]
        return self.call_named(fn, frame, o, st, tgt, args)

    def va_start(self, st, frame, ap, o, fn):
        """the variable arguments as a region of 4-byte slots (i386)"""
        vs = [t.zext(v, 32) if isinstance(v, T) and v.w < 32 else v for v in frame.varargs]
        z = sum((nbytes('i%d' % v.w) + 3) // 4 * 4 if isinstance(v, T) else 4 for v in vs)
        r = self.new_region(st, 'stack', 'varargs', C(32, z), base='undef')
        k = 0
        for v in vs:
            ty = 'i%d' % v.w if isinstance(v, T) else 'ptr'
            self.store(st, P(r, C(32, k)), v, ty, o, fn)
            k += 4 if ty == 'ptr' else (nbytes(ty) + 3) // 4 * 4
        self.store(st, ap, P(r), 'ptr', o, fn)

    def call_named(self, fn, frame, o, st, tgt, args):
        f = self.mod.funcs.get(tgt)
        # alias of complete/base constructors
        mdl = self.cfg.models.get(tgt)
        if mdl is None and f is not None:
            mdl = self.cfg.models.get(f.dem) or self.cfg.models.get(f.base)
        if mdl is None:
            mdl = LIBC.get(tgt)
            if mdl is None and tgt.startswith('llvm.'):
                mdl = llvm_intrinsic(tgt)
            if mdl is None and f is not None and f.decl:
                mdl = LIBC.get(f.base)
        if mdl is not None:
            r = mdl(self, st, args, o, fn)
            if r is None:
                r = [(st, None)]
            return self.fix_ret(o, r)
        if f is None or f.decl:
            return self.opaque_call(fn, o, st, tgt if f is None else f.base, args, f)
        if self.cfg.opaque is not None and self.cfg.opaque(f):
            return self.opaque_call(fn, o, st, f.base, args, f)
        if sum(1 for x in self.stack if x is f) > self.cfg.max_rec:
            st.note('recursion')
            return self.opaque_call(fn, o, st, f.base, args, f)
        outs = self.call(f, st, args)
        return self.fix_ret(o, outs)

    def fix_ret(self, o, outs):
        if 'id' in o:
            r = []
            for s, v in outs:
                if v is None:
                    v = self.unk_ret(o)
                r.append((s, v))
            return r
        return outs

    def unk_ret(self, o, name='ret'):
        ty = o['ty']
        if ty == 'ptr':
            return P(Region('lazy', name, maybe_null=True))
        if ty.startswith('agg') or ty == 'other':
            return Agg([], int(ty[3:]) if ty.startswith('agg') else 0)
        return t.fresh(tw(ty), name)

    def opaque_call(self, fn, o, st, name, args, f=None):
        ret = None
        if 'id' in o:
            ret = self.unk_ret(o, 'ret:' + name.split('::')[-1])
            if f is not None and f.dtypes and f.dtypes[0] == 'bool' and isinstance(ret, T):
                pass
            if isinstance(ret, P) and f is not None and f.dtypes:
                b = strip(f.dtypes[0])
                if b.endswith('*') and strip(b[:-1]) in self.mod.structs:
                    ret.r.cls = strip(b[:-1])
        st.emit(('call', name, tuple(args), ret, self.where(o, fn)))
        return [(st, ret)]

    def indirect(self, fn, frame, o, st, env, p, args):
        """call through a pointer loaded from memory"""
        if self.cfg.vcall:
            r = self.cfg.vcall(self, st, p, args, o, fn, frame)
            if r is not None:
                return self.fix_ret(o, r)
        name = 'indirect'
        slot = None
        if isinstance(p, P) and p.r is not None and p.r.hint and isinstance(p.r.hint, tuple):
            vt, off = p.r.hint
            # vt: the vtable region (loaded from an object); off: slot
            if isinstance(vt, Region) and vt.hint and isinstance(vt.hint, tuple):
                obj, voff = vt.hint
                if isinstance(off, int):
                    slot = off // 4
                    name = 'vcall:%s:%d' % (obj.cls or obj.name, slot)
        ret = self.unk_ret(o, 'ret:' + name) if 'id' in o else None
        st.emit(('vcall' if slot is not None else 'icall', name, tuple(args), ret, self.where(o, fn)))
        return [(st, ret)]


def _hv(v):
    if isinstance(v, T):
        return v.id
    if isinstance(v, P):
        return (v.r.id if v.r is not None else 0, v.o.id)
    return id(v)


def _memkey(st):
    out = []
    for rid, m in st.mem.items():
        out.append((rid, m.epoch, tuple(sorted((o, c[0], _hv(c[1])) for o, c in m.cells.items() if c[2])), tuple((x[0],) + tuple(_hv(y) for y in x[1:]) for x in m.syms)))
    out.sort()
    return tuple(out)


def _uses(i):
    def ops(v):
        if v[0] == 'v':
            yield v[1]
        elif v[0] == 'ce':
            return
    if 'args' in i:
        for v in i['args']:
            yield from ops(v)
    for k in ('cond', 'base', 'callee'):
        if k in i:
            yield from ops(i[k])
    if 'idx' in i:
        for v, _, _ in i['idx']:
            yield from ops(v)
    if 'in' in i:
        for v, _ in i['in']:
            yield from ops(v)


class Frame:
    def __init__(self, fn, varargs):
        self.fn = fn
        self.varargs = varargs
        self.constbr = set()


BIN = {'add': t.add, 'sub': t.sub, 'mul': t.mul, 'and': t.and_, 'or': t.or_, 'xor': t.xor_,
       'shl': t.shl, 'lshr': t.lshr, 'ashr': t.ashr, 'udiv': t.udiv, 'urem': t.urem, 'sdiv': t.sdiv, 'srem': t.srem}


# ------------------------------------------------------------ floats
def fcast(op, a, sty, ty):
    w = tw(ty)
    if op in ('uitofp', 'sitofp'):
        return t.fop(w, op, [a, ty])
    if op in ('fptoui', 'fptosi'):
        return t.fop(w, op, [a, sty])
    if op == 'fpext' and a.op == 'fop' and a.a[0] == 'fptrunc' and False:
        return a.a[1]
    if op == 'fptrunc' and a.op == 'fop' and a.a[0] == 'fpext' and a.a[1].w == w:
        return a.a[1]
    return t.fop(w, op, [a, ty])


def fcmp(pred, a, b):
    if pred in ('ogt', 'oge', 'ugt', 'uge'):
        pred = pred[0] + {'gt': 'lt', 'ge': 'le'}[pred[1:]]
        a, b = b, a
    if pred in ('oeq', 'one', 'ueq', 'une', 'ord', 'uno') and a.id > b.id:
        a, b = b, a
    neg = {'ult': 'oge', 'ule': 'ogt', 'une': 'oeq', 'uno': 'ord', 'ueq': 'one'}
    if pred in neg:
        return t.not_(fcmp(neg[pred], a, b))
    return t.fop(1, 'fcmp_' + pred, [a, b])


# ------------------------------------------------------------ library models
def m_malloc(I, st, a, o, fn, zero=False, nofail=False, kind='malloc'):
    size = a[0]
    outs = []
    if I.cfg.malloc_fails and not nofail:
        s2 = st.copy()
        s2.emit(('alloc-fail', kind, (size,), NULL, I.where(o, fn)))
        outs.append((s2, NULL))
    r = I.new_region(st, 'heap', '%s@%s' % (kind, I.where(o, fn).split('/')[-1]), size, base='zero' if zero else 'undef')
    r.site = (fn, o)
    r.hint = kind
    st.emit(('alloc', kind, (size,), P(r), I.where(o, fn)))
    return [(st, P(r))] + outs


def m_calloc(I, st, a, o, fn):
    return m_malloc(I, st, [t.mul(a[0], a[1])], o, fn, zero=True)


def m_new(I, st, a, o, fn):
    return m_malloc(I, st, [a[0] if a[0].w == 32 else t.trunc(a[0], 32)], o, fn, nofail=True, kind='new')


def m_newarr(I, st, a, o, fn):
    return m_malloc(I, st, [a[0]], o, fn, nofail=True, kind='new[]')


def m_free(I, st, a, o, fn, kind='free'):
    p = I.res(st, a[0])
    ev = ('free', kind, (p,), None, I.where(o, fn))
    if p.r is None:
        return [(st, None)]
    if p.r.maybe_null and p.r.id not in st.nul:
        # free(null) is a no-op
        s2 = st.copy()
        n_ok = I.set_null(s2, p.r, True)
        if not I.set_null(st, p.r, False):
            return [(s2, None)] if n_ok else []
        if p.r.id in st.freed:
            st.emit(('double-free', kind, (p,), None, I.where(o, fn)))
        st.freed[p.r.id] = ev
        st.emit(ev)
        return [(st, None)] + ([(s2, None)] if n_ok else [])
    if p.r.id in st.freed:
        st.emit(('double-free', kind, (p,), None, I.where(o, fn)))
    st.freed[p.r.id] = ev
    st.emit(ev)
    return [(st, None)]


def m_memcpy(I, st, a, o, fn):
    I.memcpy(st, I.to_ty(st, a[0], 'ptr'), I.to_ty(st, a[1], 'ptr'), a[2], o, fn)
    return [(st, a[0])]


def m_memset(I, st, a, o, fn):
    I.memset(st, a[0], a[1], a[2], o, fn)
    return [(st, a[0])]


def m_strlen(I, st, a, o, fn):
    p = I.res(st, a[0])
    if p.r is not None and p.r.data is not None and p.r.kind == 'const':
        off = I.conc_off(st, p.o)
        if off is not None:
            z = p.r.data.find(b'\0', off)
            if z >= 0:
                return [(st, C(32, z - off))]
    # length of the string at p, tied to the content version
    ep = st.mem[p.r.id].epoch if p.r is not None and p.r.id in st.mem else 0
    v = t._mk('s', 32, ('strlen(%s)' % (p,),), ('strlen', _hv(p), ep), 0, (1 << 31) - 1)
    st.emit(('call', 'strlen', tuple(a), v, I.where(o, fn)))
    return [(st, v)]


def m_memcmp(I, st, a, o, fn):
    r = t.fresh(32, 'memcmp')
    st.emit(('call', 'memcmp', tuple(a), r, I.where(o, fn)))
    return [(st, r)]


def m_nop(I, st, a, o, fn):
    return [(st, a[0] if 'id' in o and a else None)]


def opaque_named(name):
    def m(I, st, a, o, fn):
        return I.opaque_call(fn, o, st, name, [x for x in a if x is not None])
    return m


LIBC = {
    'malloc': m_malloc, 'calloc': m_calloc, 'free': m_free, '_Znwj': m_new, '_Znaj': m_newarr,
    '_ZdlPv': lambda I, s, a, o, f: m_free(I, s, a, o, f, 'delete'), '_ZdlPvj': lambda I, s, a, o, f: m_free(I, s, a, o, f, 'delete'),
    '_ZdaPv': lambda I, s, a, o, f: m_free(I, s, a, o, f, 'delete[]'), '_ZdaPvj': lambda I, s, a, o, f: m_free(I, s, a, o, f, 'delete[]'),
    'memcpy': m_memcpy, 'memmove': m_memcpy, 'memset': m_memset, 'strlen': m_strlen, 'memcmp': m_memcmp,
}


def llvm_intrinsic(name):
    b = name.split('.')
    if b[1] in ('memcpy', 'memmove'):
        return m_memcpy
    if b[1] == 'memset':
        return m_memset
    if b[1] in ('lifetime', 'dbg', 'stacksave', 'stackrestore', 'va_start', 'va_end', 'va_copy', 'assume', 'donothing', 'invariant', 'experimental'):
        def nop(I, st, a, o, fn):
            if 'id' in o:
                return [(st, P(Region('lazy', 'stacksave')) if o['ty'] == 'ptr' else t.fresh(tw(o['ty']), 'intr'))]
            return [(st, None)]
        return nop
    if b[1] == 'fabs':
        return lambda I, st, a, o, fn: [(st, t.and_(a[0], C(a[0].w, MASK[a[0].w - 1])))]
    if b[1] == 'abs':
        def ab(I, st, a, o, fn):
            s0 = st.copy()
            c = t.slt(a[0], C(a[0].w, 0))
            return [(s, a[0]) for s in st.assume(c, False)] + [(s, t.neg(a[0])) for s in s0.assume(c, True)]
        return ab
    if b[1] in ('umin', 'umax', 'smin', 'smax'):
        def mm(I, st, a, o, fn):
            lt = (t.ult if b[1][0] == 'u' else t.slt)(a[0], a[1])
            s0 = st.copy()
            x, y = (a[0], a[1]) if b[1][1:] == 'min' else (a[1], a[0])
            return [(s, x) for s in st.assume(lt, True)] + [(s, y) for s in s0.assume(lt, False)]
        return mm
    if b[1] == 'bswap':
        def bs(I, st, a, o, fn):
            n = a[0].w // 8
            return [(st, t.concat([t.extract(a[0], 8 * (n - 1 - i), 8) for i in range(n)]))]
        return bs
    if b[1] in ('fmuladd', 'fma'):
        def fma(I, st, a, o, fn):
            x, y = a[0], a[1]
            if x.id > y.id:
                x, y = y, x
            p = t.fop(x.w, 'fmul', [x, y])
            q = a[2]
            if p.id > q.id:
                p, q = q, p
            return [(st, t.fop(x.w, 'fadd', [p, q]))]
        return fma
    if b[1] == 'trap':
        return lambda I, st, a, o, fn: []
    if b[1] in ('ceil', 'floor', 'sqrt', 'round', 'trunc', 'copysign', 'pow', 'sin', 'cos', 'log', 'exp', 'rint', 'nearbyint', 'maxnum', 'minnum'):
        return lambda I, st, a, o, fn: [(st, t.fop(a[0].w, b[1], list(a)))]
    if b[1] in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
        return None
    return None
