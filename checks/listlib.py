"""Shape effects on a null-terminated list: which positions were unlinked, what was spliced in."""
from lib import *


class Shape:
    """decodes the exit heap of a list operation against the entry list"""

    def __init__(self, chk, I, st, spec, head_reg, head_off, key, where):
        self.chk, self.I, self.st, self.spec, self.key, self.where = chk, I, st, spec, key, where
        self.edits = []       # (position, [inserted nodes], continue position)
        self.bad = None
        self.freed = []
        links = []
        m = st.mem.get(head_reg.id)
        c = m.cells.get(head_off) if m else None
        if c is not None and c[2]:
            links.append((C(32, 0), c[1], head_reg))
        for e in events(st, 'free', 'delete', 'double-free'):
            if e[0] == 'double-free':
                self.bad = 'double free'
                continue
            p = I.res(st, e[2][0])
            if p.r is not None and p.r.ghost is not None:
                self.freed.append(p.r)
            elif p.r is not None and p.r.kind == 'heap':
                self.freed.append(p.r)
        fs = {r.id for r in self.freed}
        if len(fs) != len(self.freed):
            self.bad = 'node freed twice'
        for rid, mm in st.mem.items():
            r = ALLREG[rid]
            if r.ghost is None or r.ghost.spec is not spec or rid in fs:
                continue
            if rid in st.alias:
                continue
            c = mm.cells.get(spec.next_off)
            if c is not None and c[2]:
                links.append((t.addc(r.ghost.vals['pos'], 1), c[1], r))
            if mm.syms:
                self.bad = 'symbolic write into a node'
        for pos, v, owner in links:
            ins = []
            v = I.res(st, v)
            guard = 0
            while v.r is not None and v.r.kind == 'heap' and guard < 4:
                if v.r.id in fs:
                    self.bad = 'link to a freed node'
                ins.append(v.r)
                mm = st.mem.get(v.r.id)
                c = mm.cells.get(spec.next_off) if mm else None
                if c is None:
                    self.bad = 'inserted node has an uninitialised successor'
                    v = None
                    break
                v = I.res(st, c[1])
                guard += 1
            if v is None:
                break
            if v.r is None:
                # null ends the list: only right when it was the end
                self.edits.append((pos, ins, spec.count, owner))
            elif v.r.ghost is not None and v.r.ghost.spec is spec:
                if v.r.id in fs:
                    self.bad = 'link to a freed node'
                self.edits.append((pos, ins, v.r.ghost.vals['pos'], owner))
            else:
                self.bad = 'link to something that is not a node'
        # an edit which changes nothing is no edit
        self.edits = [e for e in self.edits if e[1] or st.decide(t.eq(e[0], e[2])) is not True]

    def unchanged(self):
        self.common()
        if self.edits or self.freed:
            self.chk.refuse(self.st, self.key + ':list-unchanged', self.where, 'the list is modified (%d links, %d frees)' % (len(self.edits), len(self.freed)))
        else:
            self.chk.ok(self.key + ':list-unchanged')

    def common(self):
        if self.bad:
            self.chk.refuse(self.st, self.key + ':well-formed', self.where, self.bad)
        else:
            self.chk.ok(self.key + ':well-formed')

    def removed_one(self, pos):
        """exactly the node at pos is unlinked and freed"""
        chk, st, key = self.chk, self.st, self.key
        self.common()
        if len(self.edits) != 1 or self.edits[0][1]:
            chk.refuse(st, key + ':unlinks-one', self.where, 'expected one node to be unlinked, found %d edits' % len(self.edits))
            return
        p, _, q, _ = self.edits[0]
        chk.prove(st, t.eq(p, pos), key + ':unlinks-position', self.where, 'the node unlinked is the one at the required position')
        chk.prove(st, t.eq(q, t.addc(p, 1)), key + ':unlinks-only-one', self.where, 'exactly one node is unlinked')
        if len(self.freed) != 1:
            chk.refuse(st, key + ':frees-unlinked', self.where, '%d nodes freed for one unlinked' % len(self.freed))
            return
        g = self.freed[0].ghost
        if g is None:
            chk.refuse(st, key + ':frees-unlinked', self.where, 'the freed object is not the unlinked node')
            return
        chk.prove(st, t.eq(g.vals['pos'], p), key + ':frees-unlinked', self.where, 'the freed node is the unlinked one')

    def inserted_one(self, pos=None, data_off=4, data=None):
        chk, st, key = self.chk, self.st, self.key
        self.common()
        if len(self.edits) != 1 or len(self.edits[0][1]) != 1:
            chk.refuse(st, key + ':links-one', self.where, 'expected one new node to be linked in')
            return None
        p, ins, q, owner = self.edits[0]
        chk.prove(st, t.eq(q, p), key + ':keeps-others', self.where, 'no other node is unlinked by the insertion')
        if pos is not None:
            chk.prove(st, t.eq(p, pos), key + ':links-position', self.where, 'the new node is linked at the required position')
        if self.freed:
            chk.refuse(st, key + ':frees-nothing', self.where, 'an insertion frees a node')
        if data is not None:
            d = self.I.res(st, self.I.load(st, P(ins[0], C(32, data_off)), 'ptr'))
            chk.expect(d.r is data.r and d.o is data.o, key + ':stores-payload', self.where, 'the new node carries the caller\'s payload')
        return p, ins[0], q, owner


def make(chk, cls, node, pri=None):
    """an arbitrary list with its cached count in step"""
    I = chk.interp()
    M = chk.M
    st = State()
    this = I.new_region(st, 'lazy', 'this', cls=cls)
    cnt = fld(chk, I, st, this, cls, 'element_count')
    st._refine(cnt, 0, 1 << 28)
    spec = ListSpec(node, M.off(node, 'next'), cnt)
    r = spec.first(I, st)
    I.store(st, P(this, C(32, M.off(cls, 'root'))), P(r), 'ptr')
    st.ref.update({})
    clean(st)
    return I, st, this, spec, cnt, r


def widened(chk, st, key='', where=''):
    """paths through a widened (havocked) loop make no claim"""
    if chk.nulls(st, key, where):
        return True
    if st.notes:
        chk.count('imprecise paths without claim')
        return True
    if not chk.exact(st):
        chk.count('widened paths')
    return False
