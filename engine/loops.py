"""Loop generalisation.

A loop whose trip count is fixed by constants is interpreted iteration by
iteration.  Any other loop is generalised to the state at the head of an
arbitrary iteration: a slot (header phi or memory cell) that grows by the same
constant on every pass becomes  entry + c*k ; slots that always grow by the
same (varying) amount share one law symbol; a list cursor becomes an arbitrary
node whose ghost values (position, byte offset) follow such a law; array writes
at consecutive offsets become a filled/copied range; everything else is
havocked.  The head is checked to be inductive, then the loop is left from the
first iteration or from iteration k+1 for arbitrary k."""
import terms as t
from terms import T, C, MASK, isc, cv, sval
from state import State, Region, P, NULL, RMem, Z32, ALLREG


class Budget(Exception):
    """the analysis of one obligation exceeded its bounds: undecided"""


class Unsupported(Exception):
    pass


class Ghost:
    """ghost values of a list node: name -> T"""
    __slots__ = ('spec', 'vals')

    def __init__(self, spec, vals):
        self.spec = spec
        self.vals = vals

    def __repr__(self):
        return 'ghost%s' % self.vals


class ListSpec:
    """A null-terminated singly linked list.  Ghost 'pos' counts nodes before;
    optional byte offset ghost 'off' adds the node's length field."""

    def __init__(self, cls, next_off, count, len_off=None, total=None, name='node', min_len=0):
        self.cls = cls
        self.next_off = next_off
        self.count = count      # T: number of nodes
        self.len_off = len_off
        self.total = total      # T: sum of lengths
        self.name = name
        self.min_len = min_len

    def first(self, I, st):
        r = Region('lazy', self.name + '0', cls=self.cls, maybe_null=True)
        v = {'pos': C(32, 0)}
        if self.len_off is not None:
            v['off'] = C(32, 0)
        r.ghost = Ghost(self, v)
        return r

    def link(self, I, st, r, nr):
        """nr is the initial successor of r"""
        nr.cls = self.cls
        g = r.ghost.vals
        v = {'pos': t.addc(g['pos'], 1)}
        if self.len_off is not None:
            ln = self.node_len(I, st, r)
            v['off'] = t.add(g['off'], ln)
        nr.ghost = Ghost(self, v)
        nr.name = '%s[%s]' % (self.name, v['pos'])
        self.inv(I, st, nr)

    def node_len(self, I, st, r):
        """the node's length at entry"""
        key = ('ghostlen', r.id)
        ln = st.user.get(key)
        if ln is None:
            m = st.mem.get(r.id)
            c = m.cells.get(self.len_off) if m else None
            if c is not None and not c[2]:
                ln = c[1]
            elif c is None:
                ln = I.load(st, P(r, C(32, self.len_off)), 'i32')
            else:
                ln = t.S(32, '%s.len%%%d' % (r.name, r.id))
            st.user[key] = ln
        return ln

    def inv(self, I, st, r):
        g = r.ghost.vals
        for c in (t.ule(g['pos'], self.count),):
            s = st._addlin(*_le(st, g['pos'], self.count))
        if self.len_off is not None:
            st._addlin(*_le(st, g['off'], self.total))

    def on_null(self, I, st, r, isnull):
        g = r.ghost.vals
        d, k = _le(st, self.count, g['pos'])        # pos - count >= 0
        if isnull:
            if not st._addlin(d, k):
                return False
            if not st._addlin(*_le(st, g['pos'], self.count)):
                return False
            st._refine_eq(g['pos'], self.count)
            if self.len_off is not None:
                if not st._addlin(*_le(st, self.total, g['off'])) or not st._addlin(*_le(st, g['off'], self.total)):
                    return False
            return True
        # pos + 1 <= count
        d, k = _le(st, g['pos'], self.count)
        if not st._addlin(d, k - 1):
            return False
        if self.len_off is not None:
            ln = self.node_len(I, st, r)
            d, k = _le(st, g['off'], self.total)
            dl, kl = st.um(ln)
            for v, c in dl.items():
                d[v] = d.get(v, 0) - c
            if not st._addlin(d, k - kl):
                return False
            if self.min_len:
                d, k = st.um(ln)
                if not st._addlin(d, k - self.min_len):
                    return False
        return True


def _le(st, a, b):
    """(dict,const) of b - a >= 0"""
    da, ka = st.um(a)
    d, k = st.um(b)
    d = dict(d)
    for v, c in da.items():
        d[v] = d.get(v, 0) - c
    return {v: c for v, c in d.items() if c}, k - ka


class LoopMixin:
    def run_loop(self, fn, frame, loop, entries):
        self.stat_loops += 1
        ret = []
        exits = {}
        for st, env, prev in entries:
            r = self.loop_one(fn, frame, loop, st, env, prev, 0)
            ret += r['ret']
            for b, l in r['exit'].items():
                exits.setdefault(b, []).extend(l)
        return {'ret': ret, 'exit': exits}

    def body(self, fn, frame, loop, heads):
        pend = {loop.header: list(heads)}
        return self.run_region(fn, frame, loop, pend)

    def loop_one(self, fn, frame, loop, st, env, prev, depth):
        ret = []
        exits = {}

        def take(r):
            ret.extend(r['ret'])
            for b, l in r['exit'].items():
                exits.setdefault(b, []).extend(l)
        st0 = st.copy()
        saved_cb = frame.constbr
        self.serial += 1
        serial = self.serial
        cur = [(st.copy(), env, prev)]
        it = 0
        ok = True
        acc = []
        while cur:
            frame.constbr = set()
            r = self.body(fn, frame, loop, cur)
            const_stay = any(b in loop.blocks and any(s not in loop.blocks for s in fn.succ[b]) for b, v in frame.constbr)
            acc.append(r)
            cur = r['back']
            it += 1
            if not cur:
                break
            if self.cfg.endless and it >= 4:
                cur = [c for c in cur if not self.comes_round(fn, serial, loop, *c)]
                if not cur:
                    break
            if self.cfg.endless and it == 100:
                self.stuck += [(c[0], fn, loop) for c in cur[:4]]
            if not const_stay and not self.force_unroll(fn, loop, it):
                ok = False
                break
            if it >= self.cfg.unroll or len(cur) > self.cfg.max_states // 4:
                ok = False
                break
        frame.constbr = saved_cb
        if ok:
            for r in acc:
                take(r)
            return {'ret': ret, 'exit': exits}
        first = acc[0]
        take(first)
        # a cursor that starts null / elsewhere and then walks: its own phase of the loop
        phis = [i for i in fn.blocks[loop.header] if i['op'] == 'phi']
        self.lossy = False
        self.generalise(fn, frame, loop, phis, st0, env, prev, first['back'], take, depth)
        if self.lossy and depth == 0:
            # the generic pass forgets element facts: keep some exact exits as witnesses
            cur = first['back']
            for _ in range(self.cfg.peel):
                if not cur or len(cur) > 12:
                    break
                r = self.body(fn, frame, loop, cur)
                take(r)
                cur = r['back']
            self.lossy = True
        if self.cfg.endless and it >= self.cfg.unroll:
            # what the path did so far, and whether it can end at all
            self.stuck += [(c[0], fn, loop) for c in cur[:4]]
            if not ret and not any(exits.values()):
                self.endless.append((st0, fn, loop))
        return {'ret': ret, 'exit': exits}

    def comes_round(self, fn, serial, loop, st, env, prev):
        """the same registers and memory at the head of the loop as earlier on
        this path, with nothing called outside in between: the path stays in
        the loop for ever"""
        def vk(v):
            if isinstance(v, P):
                return ('P', v.r.id if v.r is not None else None, st.norm(v.o).id)
            if isinstance(v, T):
                return st.norm(v).id
            return id(v)
        regs = tuple(vk(self.phival(p, env, prev)) for p in fn.blocks[loop.header] if p['op'] == 'phi')
        mem = frozenset((r, o, vk(c[1])) for r, m in st.mem.items() for o, c in m.cells.items() if c[2])
        fp = (regs, mem, tuple(sorted((r, len(m.syms), m.epoch) for r, m in st.mem.items() if m.syms or m.epoch)), id(st.log), frozenset(st.freed))
        key = ('round', serial)
        seen = st.user.get(key, ())
        if fp in seen:
            self.endless.append((st, fn, loop))
            return True
        st.user[key] = (seen + (fp,))[-40:]
        return False

    def force_unroll(self, fn, loop, it):
        f = getattr(self.cfg, 'force_unroll', None)
        return bool(f and f(fn, loop, it))

    def phival(self, p, e, pb):
        for v, b in p['in']:
            if b == pb:
                return self.val(e, v)
        raise Unsupported('phi')

    def split_phase(self, fn, phis, st0, env, prev, backs, depth):
        """(staying, leaving) back edges: leaving ones turn a pointer slot that
        is not a list node at entry into one, and start a new phase of the loop"""
        if depth >= 3:
            return backs, []

        def isnode(s, v):
            v = self.res(s, v)
            return v.r is not None and v.r.ghost is not None
        stay, leave = [], []
        for s, e, pb in backs:
            lv = False
            for p in phis:
                a, b = self.phival(p, env, prev), self.phival(p, e, pb)
                if isinstance(a, P) and isinstance(b, P) and not isnode(st0, a) and isnode(s, b) and self.res(st0, a).r is not self.res(s, b).r:
                    lv = True
            for rid, m in s.mem.items():
                m0 = st0.mem.get(rid)
                if m0 is None or m0 is m:
                    continue
                for off, c in m.cells.items():
                    if c[2] and isinstance(c[1], P):
                        c0 = m0.cells.get(off)
                        if c0 is not None and isinstance(c0[1], P) and not isnode(st0, c0[1]) and isnode(s, c[1]):
                            lv = True
            (leave if lv else stay).append((s, e, pb))
        return stay, leave

    # ------------------------------------------------------------ components
    def comps(self, s, v, v0=None):
        """numeric components of a slot value; None when not comparable with v0"""
        if isinstance(v, T):
            if v0 is not None and (not isinstance(v0, T) or v0.w != v.w):
                return None
            return {'': v}
        if isinstance(v, P):
            v = self.res(s, v)
            if v0 is not None:
                if not isinstance(v0, P):
                    return None
                v0 = self.res(s, v0)
                if v.r is v0.r:
                    return {'o': v.o}
                if v.r is not None and v0.r is not None and v.r.ghost is not None and v0.r.ghost is not None and v.r.ghost.spec is v0.r.ghost.spec and v.o is v0.o:
                    return dict(v.r.ghost.vals)
                return None
            if v.r is not None and v.r.ghost is not None:
                d = dict(v.r.ghost.vals)
                d['o'] = v.o
                return d
            return {'o': v.o}
        return None

    def delta(self, s, v1, v0):
        """{component: difference term} or None"""
        c1 = self.comps(s, v1, v0)
        if c1 is None:
            return None
        if isinstance(v0, T):
            return {'': s.norm(t.sub(v1, v0))}
        v0 = self.res(s, v0)
        out = {}
        for k, x in c1.items():
            y = v0.o if k == 'o' else v0.r.ghost.vals[k]
            out[k] = s.norm(t.sub(x, y))
        return out

    # ------------------------------------------------------------ slots
    def changed(self, g, backs):
        """memory slots changed on some back edge: key -> entry value;
        and regions whose change is not cellwise"""
        cells = {}
        regs = set()
        for s, slots, e, pb in backs:
            for rid, m in s.mem.items():
                m0 = g.mem.get(rid)
                if m0 is m:
                    continue
                if m0 is None:
                    r = ALLREG[rid]
                    if r.kind in ('heap', 'stack'):
                        continue
                    if not m.syms and not any(c[2] for c in m.cells.values()) and m.base in ('lazy', 'data'):
                        continue
                    if r.ghost is not None or r.kind == 'lazy' and r.hint != 'any' and False:
                        continue
                    m0 = RMem('data' if r.kind == 'const' else 'lazy')
                if m.base != m0.base or m.epoch != m0.epoch or m.syms != m0.syms:
                    regs.add(rid)
                    continue
                for off, c in m.cells.items():
                    c0 = m0.cells.get(off)
                    if c0 is not None and c0[0] == c[0] and (c0[1] is c[1] or c0[1] == c[1]):
                        continue
                    if not c[2]:
                        continue
                    if c0 is None or c0[0] != c[0]:
                        if c0 is None and not self._overlap(m0, off, c[0]):
                            v0 = self.init_cell(g, ALLREG[rid], m0, off, c[0], 'ptr' if isinstance(c[1], P) else 'i%d' % (8 * c[0]))
                        else:
                            regs.add(rid)
                            continue
                    else:
                        v0 = c0[1]
                    cells[('mem', rid, off, c[0])] = v0
                for off in m0.cells:
                    if off not in m.cells:
                        regs.add(rid)
        return {k: v for k, v in cells.items() if k[1] not in regs}, regs

    def slot(self, s, slots, key, v0):
        if key[0] == 'phi':
            return slots[key]
        m = s.mem.get(key[1])
        if m is None:
            return v0
        c = m.cells.get(key[2])
        if c is None:
            return v0
        return c[1]

    # ------------------------------------------------------------ generalise
    def generalise(self, fn, frame, loop, phis, st0, env, prev, backs0, take, depth):
        hdr = loop.header
        h0 = {('phi', p['id']): self.phival(p, env, prev) for p in phis}
        mk = lambda l: [(s, {('phi', p['id']): self.phival(p, e, pb) for p in phis}, e, pb) for s, e, pb in l]
        backs0, leave = self.split_phase(fn, phis, st0, env, prev, backs0, depth)
        for s, e, pb in leave:
            take(self.loop_one(fn, frame, loop, s, e, pb, depth + 1))
        if not backs0:
            return
        backs = mk(backs0)
        cells, regs = self.changed(st0, backs)
        h0.update(cells)
        L = Laws()
        L.regs = {}
        for rid in regs:
            L.regs[rid] = ('havoc',)
        # infer
        for key, v0 in h0.items():
            self.infer(L, key, v0, backs)
        rel = self.relations(st0, h0, L, backs)
        kname = '%s:%d' % (fn.base.split('::')[-1], hdr)
        for attempt in range(14):
            rmax = max(ALLREG) if ALLREG else 0
            g, genv = self.head(fn, loop, phis, st0, env, h0, L, rel, kname)
            r = self.run_from_head(fn, frame, loop, g.copy(), genv)
            stay, leave = self.split_phase(fn, phis, st0, env, prev, r['back'], depth)
            gb = mk(stay)
            if not self.check(L, h0, g, genv, gb, rel, st0):
                break
        else:
            raise Budget('loop not generalised in %s' % fn.dem)
        hv = L.havoc or any(x[0] == 'havoc' for x in L.regs.values())
        if hv:
            for s, slots, e, pb in gb:
                s.user['havoc'] = True
        lossy = hv or self.is_lossy(L.K, g, rmax, [x[0] for x in gb])
        gb = self.scan_inv(L.K, gb)
        lossy = lossy or self.gap(L.K, g, [x[0] for x in gb],
                                  [x[0] for x in r['ret']] + [x[0] for l in r['exit'].values() for x in l] + [x[0] for x in leave])
        for s, e, pb in leave:
            if hv:
                s.user['havoc'] = True
            if lossy:
                s.user['lossy'] = True
            take(self.loop_one(fn, frame, loop, s, e, pb, depth + 1))
        self.lossy = self.lossy or bool(lossy)
        heads = []
        for s, slots, e, pb in gb:
            if lossy:
                s.user['lossy'] = True
            s.emit(('loop', fn.dem, (hdr,), None, fn.loc(fn.blocks[hdr][-1])))
            heads.append((s, e, pb))
        if len(heads) > self.cfg.max_states // 2:
            raise Budget('loop heads')
        if heads:
            fin = self.body(fn, frame, loop, heads)
            for s, v in fin['ret']:
                self.untag(s)
            for b, l in fin['exit'].items():
                for s, e, pb in l:
                    self.untag(s)
            take({'ret': fin['ret'], 'exit': fin['exit']})

    def untag(self, s):
        """join the accelerated part of each write log with the last pass"""
        for rid, m in list(s.mem.items()):
            if any(len(e) in (5, 7) for e in m.syms):
                m = self.rmem(s, ALLREG[rid], True)
                old, m.syms = m.syms, ()
                for e in old:
                    self.addlog(m, e[:4] if e[0] == 'fill' else e[:6] if e[0] == 'copy' else e)

    def scan_inv(self, K, gb):
        """every pass so far saw K != X for a loop constant X: then K <= X held at
        each head (0 <= X; K <= X and K != X give K+1 <= X)"""
        if K is None or not gb:
            return gb
        cand = None
        for s, slots, e, pb in gb:
            here = {}
            for b, v in s.bools.items():
                if b.op not in ('ne', 'eq') or (b.op == 'ne') != bool(v):
                    continue
                d = t.sub(b.a[0], b.a[1])
                if d.w != K.w or K not in t.atoms(d):
                    continue
                for x in (t.add(d, K), t.sub(K, d)):
                    ats = t.atoms(x)
                    if K not in ats and all(a.id < K.id for a in ats):
                        here[x.id] = x
            cand = here if cand is None else {k: x for k, x in cand.items() if k in here}
            if not cand:
                return gb
        out = []
        for s, slots, e, pb in gb:
            cur = [s]
            for x in cand.values():
                cur = [s3 for s2 in cur for s3 in s2.assume(t.ult(K, x), True)]
            out += [(s2, slots, e, pb) for s2 in cur]
        return out

    def gap(self, K, g, stays, outs):
        """may an earlier pass j < K of the same run have left the loop for sure?  Then a
        stay at pass K need not be reachable."""
        ex = []
        for s in outs:
            f = [(b, v) for b, v in s.bools.items() if b not in g.bools and K in t.atoms(b)]
            if f:
                ex.append(f)
        if not ex or not stays:
            return False
        j = t.fresh(32, 'j', 0, (1 << 31) - 1)
        ex = [[(t.subst(b, {K: j}), v) for b, v in f] for f in ex]
        seen = set()
        for s in stays:
            # an unconstrained pass number is no evidence
            pre = s.copy().assume(t.ult(j, K), True)
            for p in pre:
                for f in ex:
                    k = (tuple((b.id, v) for b, v in f), tuple(sorted((b.id, v) for b, v in s.bools.items() if b not in g.bools)))
                    if k in seen:
                        continue
                    seen.add(k)
                    if len(seen) > 60:
                        return True
                    cur = [p.copy()]
                    for b, v in f:
                        cur = [s3 for s2 in cur for s3 in (s2.assume(b, bool(v)))][:4]
                        if not cur:
                            break
                    if any(not s2.dead() for s2 in cur):
                        return True
        return False

    def is_lossy(self, K, g, rmax, backs):
        """the pass decided on values that differ from pass to pass (other than the
        pass number compared with a loop constant): the generic head forgets those facts"""
        for s in backs:
            keys = [b for b in s.bools if b not in g.bools]
            keys += [x for x, v in s.ref.items() if g.ref.get(x) != v]
            keys += [x for x, v in s.kb.items() if g.kb.get(x) != v]
            ok = None
            for b in keys:
                for a in t.atoms(b):
                    if a is K or K is None or a.id < K.id:
                        continue
                    if ok is None:
                        ok = set()
                        for rid, m in s.mem.items():
                            if rid <= rmax:
                                for c in m.cells.values():
                                    if not c[2] and isinstance(c[1], T):
                                        ok |= t.atoms(c[1])
                    if a in ok:
                        continue
                    src = IDX.get(a.id)
                    if src is not None and src[0].id <= rmax and all(x.id < K.id or x in ok for x in t.atoms(src[1])):
                        continue
                    return True
        return False

    def run_from_head(self, fn, frame, loop, st, env):
        hdr = loop.header
        saved = fn._blocks[hdr]
        i = 0
        while saved[i]['op'] in ('phi', 'dbg'):
            i += 1
        fn._blocks[hdr] = saved[i:]
        cb = frame.constbr
        frame.constbr = set()
        try:
            return self.run_region(fn, frame, loop, {hdr: [(st, env, None)]})
        finally:
            fn._blocks[hdr] = saved
            frame.constbr = cb

    def infer(self, L, key, v0, backs):
        """assign laws to the components of a slot"""
        ds = []
        for s, slots, e, pb in backs:
            d = self.delta(s, self.slot(s, slots, key, v0), v0)
            if d is None:
                L.havoc.add(key)
                return
            ds.append(d)
        if not ds:
            return
        names = set(ds[0])
        if any(set(d) != names for d in ds):
            L.havoc.add(key)
            return
        for n in names:
            vec = tuple(d[n] for d in ds)
            if all(isc(x) for x in vec) and len(set(vec)) == 1:
                v = sval(cv(vec[0]), vec[0].w)
                L.law[(key, n)] = ('c', v)
            else:
                L.law[(key, n)] = ('g', tuple(x.id for x in vec) + (vec[0].w,), vec[0].w)

    def relations(self, st0, h0, L, backs):
        """pointer cells between two moving list cursors that hold before and after a pass"""
        ptrs = [k for k, v in h0.items() if k not in L.havoc and isinstance(v, P) and any((k, n) in L.law for n in ('pos',))]
        rel = []
        for a in ptrs:
            for b in ptrs:
                if a == b:
                    continue

                def holds(s, va, vb):
                    va, vb = self.res(s, va), self.res(s, vb)
                    if va.r is None:
                        return False
                    m = s.mem.get(va.r.id)
                    if m is None:
                        return False
                    c = m.cells.get(va.r.ghost.spec.next_off)
                    if c is None or not isinstance(c[1], P):
                        return False
                    x = self.res(s, c[1])
                    return x.r is vb.r and x.o is vb.o
                if holds(st0, h0[a], h0[b]) and all(holds(s, self.slot(s, sl, a, None), self.slot(s, sl, b, None)) for s, sl, e, pb in backs):
                    rel.append((a, b))
        # nullness shared
        return rel

    def head(self, fn, loop, phis, st0, env, h0, L, rel, kname):
        g = st0.copy()
        g.user = dict(g.user)
        genv = dict(env)
        K = t.fresh(32, 'k@' + kname, 0, (1 << 31) - 1)
        syms = {}

        def inc(lawv, w):
            if lawv[0] == 'c':
                if lawv[1] == 0:
                    return None
                kk = t.trunc(K, w) if w < 32 else t.zext(K, w)
                return t.mulc(kk, lawv[1])
            s = syms.get(lawv[1])
            if s is None:
                s = t.fresh(lawv[2], 'sum@' + kname)
                syms[lawv[1]] = s
            return s
        newval = {}
        created = []
        for key, v0 in h0.items():
            if key in L.havoc:
                newval[key] = self.havoc_val(g, key, v0)
                continue
            if isinstance(v0, T):
                d = inc(L.law[(key, '')], v0.w) if (key, '') in L.law else None
                newval[key] = v0 if d is None else t.add(v0, d)
            elif isinstance(v0, P):
                if (key, 'pos') in L.law:
                    vr = self.res(g, v0)
                    if L.law[(key, 'pos')] == ('c', 0) and all(L.law.get((key, n)) == ('c', 0) for n in vr.r.ghost.vals):
                        newval[key] = v0
                        continue
                    nr = Region('lazy', vr.r.ghost.spec.name + '@' + kname, cls=vr.r.cls, maybe_null=True)
                    vals = {}
                    for n, x in vr.r.ghost.vals.items():
                        d = inc(L.law[(key, n)], x.w)
                        vals[n] = x if d is None else t.add(x, d)
                        # a cursor never passes the end: the steps are bounded by the list
                        top = {'pos': vr.r.ghost.spec.count, 'off': vr.r.ghost.spec.total}.get(n)
                        if d is not None and top is not None and L.law[(key, n)] in (('c', 1),) + ((L.law[(key, n)],) if L.law[(key, n)][0] == 'g' else ()):
                            g._refine(d, 0, g.bounds(top)[1])
                    nr.ghost = Ghost(vr.r.ghost.spec, vals)
                    # one region per node position
                    for r2 in created:
                        if r2.ghost.spec is nr.ghost.spec and all(r2.ghost.vals[n] is vals[n] for n in vals):
                            nr = r2
                            break
                    else:
                        created.append(nr)
                        nr.ghost.spec.inv(self, g, nr)
                    newval[key] = P(nr, vr.o)
                    L.nodes[key] = nr
                elif (key, 'o') in L.law:
                    d = inc(L.law[(key, 'o')], 32)
                    newval[key] = v0 if d is None else P(v0.r, t.add(v0.o, d))
                else:
                    newval[key] = v0
            else:
                newval[key] = v0
        for a, b in rel:
            if a in L.nodes and b in newval and isinstance(newval[b], P):
                ra = L.nodes[a]
                if L.nodes.get(b) is ra:
                    continue
                m = self.rmem(g, ra, True)
                m.cells[ra.ghost.spec.next_off] = (4, newval[b], False)
        for key, v in newval.items():
            if key[0] == 'phi':
                genv[key[1]] = v
            else:
                _, rid, off, n = key
                m = self.rmem(g, ALLREG[rid], True)
                c = m.cells.get(off)
                if c is not None and c[0] == n:
                    m.cells[off] = (n, v, True)
                else:
                    self.put(m, off, n, v)
        for key, nn in L.nonnull.items():
            if nn and key in L.nodes:
                self.set_null(g, L.nodes[key], False)
        for rid, law in L.regs.items():
            r = ALLREG[rid]
            if law[0] == 'havoc':
                self.havoc_region(g, r)
            elif law[0] == 'fill':
                _, A, n, byte = law
                m = self.rmem(g, r, True)
                m.syms = m.syms + (('fill', A, t.mulc(K, n), byte, 1),)
            elif law[0] == 'copy':
                _, A, n, sr, B, sm = law
                m = self.rmem(g, r, True)
                m.syms = m.syms + (('copy', A, t.mulc(K, n), sr, B, sm, 1),)
        L.K = K
        if L.havoc:
            g.user['havoc'] = True
        return g, genv

    def havoc_val(self, g, key, v0):
        if isinstance(v0, P):
            r = Region('lazy', 'loopptr', maybe_null=True, cls=v0.r.cls if v0.r is not None else None)
            r.hint = 'any'
            return P(r)
        if isinstance(v0, T):
            return t.fresh(v0.w, 'loop!%s' % (key[1],))
        return v0

    def check(self, L, h0, g, genv, backs, rel, st0):
        """demote laws the generic pass does not preserve; True when changed"""
        bad = False
        gval = {}
        for key, v0 in h0.items():
            if key[0] == 'phi':
                gval[key] = genv[key[1]]
            else:
                c = g.mem[key[1]].cells.get(key[2])
                gval[key] = c[1] if c else v0
        # new cells changed only from the generic state
        cells, regs = self.changed(g, backs)
        for rid in regs:
            law = L.regs.get(rid)
            if law is None:
                L.regs[rid] = ('havoc',)
                for k in [k for k in h0 if k[0] == 'mem' and k[1] == rid]:
                    del h0[k]
                bad = True
            elif law[0] == 'havoc' and not law[1:]:
                new = self.array_law(L, rid, g, backs, st0)
                if new is not None:
                    L.regs[rid] = new
                    bad = True
                else:
                    L.regs[rid] = ('havoc', 1)
            elif law[0] in ('fill', 'copy'):
                if not self.array_ok(L, rid, law, g, backs):
                    L.regs[rid] = ('havoc', 1)
                    bad = True
        for key, v in cells.items():
            if key not in h0 and key[1] not in L.regs:
                m0 = st0.mem.get(key[1])
                c0 = m0.cells.get(key[2]) if m0 else None
                if c0 is not None and c0[0] == key[3]:
                    v = c0[1]
                elif ALLREG[key[1]].name.startswith('loopptr') or key[1] not in st0.mem and ALLREG[key[1]].ghost is not None:
                    continue
                h0[key] = v
                L.havoc.add(key)
                bad = True
        # laws
        groups = {}
        for key, v0 in list(h0.items()):
            if key in L.havoc:
                continue
            gv = gval.get(key)
            if gv is None:
                continue
            for bi, (s, slots, e, pb) in enumerate(backs):
                d = self.delta(s, self.slot(s, slots, key, gv), gv)
                if d is None:
                    L.havoc.add(key)
                    bad = True
                    break
                stop = False
                for n, x in d.items():
                    law = L.law.get((key, n))
                    if law is None:
                        law = ('c', 0)
                    if law[0] == 'c':
                        if not (isc(x) and sval(cv(x), x.w) == law[1]):
                            # try a group law shared with others
                            L.havoc.add(key)
                            bad = True
                            stop = True
                            break
                    else:
                        gk = (law[1], bi)
                        if gk in groups:
                            if groups[gk][0] is not x:
                                L.havoc.add(key)
                                bad = True
                                stop = True
                                break
                        else:
                            groups[gk] = (x, key)
                if stop:
                    break
        # relations and nonnull facts
        for a, b in list(rel):
            if a in L.havoc or b in L.havoc:
                rel.remove((a, b))
                bad = True
                continue
            for s, slots, e, pb in backs:
                va, vb = self.res(s, self.slot(s, slots, a, None)), self.res(s, self.slot(s, slots, b, None))
                m = s.mem.get(va.r.id) if va.r is not None else None
                c = m.cells.get(va.r.ghost.spec.next_off) if m is not None and va.r.ghost is not None else None
                x = self.res(s, c[1]) if c is not None and isinstance(c[1], P) else None
                if x is None or x.r is not vb.r:
                    rel.remove((a, b))
                    bad = True
                    break
        if not bad and not L.nn_done:
            # a cursor known non-null at entry and after every pass
            L.nn_done = True
            for key in L.nodes:
                v0 = self.res(st0, h0[key])
                if v0.r is not None and st0.nul.get(v0.r.id) is False:
                    ok = True
                    for s, slots, e, pb in backs:
                        v = self.res(s, self.slot(s, slots, key, None))
                        if v.r is None or s.nul.get(v.r.id) is not False:
                            ok = False
                    if ok:
                        L.nonnull[key] = True
                        bad = True
        return bad

    # ------------------------------------------------------------ arrays
    def array_law(self, L, rid, g, backs, st0):
        """region written once per pass at consecutive offsets"""
        K = L.K
        m0 = st0.mem.get(rid)
        if m0 is None:
            return None
        law = None
        for s, slots, e, pb in backs:
            m = s.mem[rid]
            gm = g.mem[rid]
            if m.epoch != gm.epoch or len(m.syms) != len(gm.syms) + 1 or m.syms[:len(gm.syms)] != gm.syms:
                return None
            e1 = m.syms[-1]
            if e1[0] != 'w':
                return None
            _, o, n, v = e1
            A = t.sub(o, t.mulc(K, n))
            if K in t.atoms(A):
                return None
            if isinstance(v, T) and isc(v) and len(set((cv(v) >> (8 * i)) & 255 for i in range(n))) == 1:
                new = ('fill', A, n, C(8, cv(v) & 255))
            elif isinstance(v, T) and n == 1 and K not in t.atoms(v) and not self.havocked(v):
                new = ('fill', A, n, v)
            elif isinstance(v, T) and isinstance(v.a, tuple) and v.op == 's':
                src = IDX.get(v.id)
                if src is None:
                    return None
                sr, so, sn = src
                B = t.sub(so, t.mulc(K, n))
                if sn != n or K in t.atoms(B) or sr.id == rid:
                    return None
                sm = st0.mem.get(sr.id)
                if sm is None or sr.id in L.regs:
                    return None
                if sm.syms != s.mem[sr.id].syms or any(c[2] and sm.cells.get(oo) != c for oo, c in s.mem[sr.id].cells.items()):
                    return None
                new = ('copy', A, n, sr, B, sm.copy())
            else:
                return None
            if law is not None and law[:3] != new[:3]:
                return None
            law = new
        return law

    def havocked(self, v):
        return any('!' in str(a.a[0]) for a in t.atoms(v))

    def array_ok(self, L, rid, law, g, backs):
        K = L.K
        for s, slots, e, pb in backs:
            m = s.mem[rid]
            gm = g.mem[rid]
            if len(m.syms) != len(gm.syms) + 1 or m.syms[:len(gm.syms)] != gm.syms or m.syms[-1][0] != 'w':
                return False
            _, o, n, v = m.syms[-1]
            if n != law[2] or t.sub(o, t.mulc(K, n)) is not law[1]:
                return False
            if law[0] == 'fill':
                if not (isinstance(v, T) and t.concat([law[3]] * n) is v):
                    return False
            else:
                src = IDX.get(v.id) if isinstance(v, T) else None
                if src is None or src[0] is not law[3] or t.sub(src[1], t.mulc(K, n)) is not law[4]:
                    return False
        return True


IDX = {}   # term id of an indexed initial read -> (region, offset, size)


class Laws:
    def __init__(self):
        self.law = {}
        self.havoc = set()
        self.regs = {}
        self.nodes = {}
        self.nonnull = {}
        self.nn_done = False
        self.K = None
