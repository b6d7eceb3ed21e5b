"""The resolved program: functions, control-flow graphs, loops, layouts."""
import json
import re

from front import AnalysisBroken, build


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}
        self.parent = None
        self.kids = []


class Func:
    def __init__(self, mod, d):
        self.mod = mod
        self.name = d['name']
        self.dem = d['dem']
        self.decl = d['decl']
        self.file = d.get('file', '')
        self.line = d.get('line', 0)
        self.args = d['args']
        self.ret = d['ret']
        self.virt = d.get('virt', False)
        self.vararg = d['vararg']
        self.noret = d.get('noret', False)
        self.dtypes = d.get('dtypes', [])
        self.linkage = d['linkage']
        self.raw = d.get('blocks')
        self._cfg = False

    @property
    def base(self):
        """name without the parameter list"""
        return base_name(self.dem)

    @property
    def blocks(self):
        self.cfg()
        return self._blocks

    def cfg(self):
        if self._cfg:
            return
        self._cfg = True
        self._blocks = self.raw or []
        n = len(self._blocks)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        self.defs = {}
        self.vars = {}
        for b, ins in enumerate(self._blocks):
            for i in ins:
                if i['op'] == 'dbg':
                    self.vars.setdefault(i['v'], i['var'])
                if 'id' in i:
                    self.defs[i['id']] = (b, i)
            t = ins[-1]
            if t['op'] == 'br':
                self.succ[b] = list(dict.fromkeys(t['succ']))
            elif t['op'] == 'switch':
                self.succ[b] = list(dict.fromkeys([c[1] for c in t['cases']] + [t['def']]))
            for s in self.succ[b]:
                self.pred[s].append(b)
        # reachable, rpo
        order = []
        seen = set()
        stack = [(0, iter(self.succ[0]))] if n else []
        if n:
            seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.rpoi = {b: i for i, b in enumerate(self.rpo)}
        # dominators
        idom = {0: 0} if n else {}
        ch = True
        while ch:
            ch = False
            for b in self.rpo:
                if b == 0:
                    continue
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.rpoi[x] > self.rpoi[y]:
                            x = idom[x]
                        while self.rpoi[y] > self.rpoi[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom
        # natural loops
        loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    L = loops.setdefault(s, Loop(s))
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in L.blocks:
                            continue
                        L.blocks.add(x)
                        work += [p for p in self.pred[x] if p in seen]
        self.loops = loops
        byl = sorted(loops.values(), key=lambda l: len(l.blocks))
        self.loopof = {}
        for i, l in enumerate(byl):
            for m in byl[i + 1:]:
                if l.header in m.blocks and m is not l:
                    l.parent = m
                    m.kids.append(l)
                    break
            for b in l.blocks:
                self.loopof.setdefault(b, l)

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def instrs(self):
        for b, ins in enumerate(self.blocks):
            for i in ins:
                yield b, i

    def calls(self):
        for b, i in self.instrs():
            if i['op'] == 'call':
                yield b, i

    def loc(self, i=None):
        f = (i or {}).get('fl') or self.file
        return '%s:%s' % (f.replace('//', '/'), (i or {}).get('ln') or self.line)

    def __repr__(self):
        return 'Func(%s)' % self.dem


def base_name(dem):
    """'A<B(int)>::f(int) const' -> 'A<B(int)>::f'"""
    if dem.startswith('non-virtual thunk to '):
        return dem
    depth = 0
    i = len(dem)
    # find the opening paren of the parameter list: last top-level '('
    j = dem.rfind(')')
    if j < 0:
        return dem
    k = j
    depth = 0
    while k >= 0:
        if dem[k] == ')':
            depth += 1
        elif dem[k] == '(':
            depth -= 1
            if depth == 0:
                break
        k -= 1
    r = dem[:k]
    if r.endswith('operator'):
        return r + '()'
    # template functions carry a return type
    d = 0
    for i, ch in enumerate(r):
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        elif ch == ' ' and d == 0 and 'operator' not in r[:i]:
            return r[i + 1:]
    return r


class Module:
    def __init__(self, path=None):
        self.path = path or build()
        self.structs = {}
        self.enums = {}
        self.globals = {}
        self.funcs = {}
        self.meta = {}
        alias = {}
        with open(self.path) as fh:
            for line in fh:
                d = json.loads(line)
                k = d['k']
                if k == 'struct':
                    self.structs.setdefault(d['name'], d)
                elif k == 'enum':
                    self.enums.setdefault(d['name'], d)
                elif k == 'global':
                    self.globals[d['name']] = d
                elif k == 'func':
                    self.funcs[d['name']] = Func(self, d)
                elif k == 'alias':
                    alias[d['name']] = d['to']
                elif k == 'meta':
                    self.meta = d
        if not self.meta:
            raise AnalysisBroken('truncated module dump')
        self.by_dem = {}
        self.by_base = {}
        for f in self.funcs.values():
            self.by_dem.setdefault(f.dem, f)
            self.by_base.setdefault(f.base, []).append(f)
        for a, to in alias.items():
            if to in self.funcs and a not in self.funcs:
                self.funcs[a] = self.funcs[to]
        self.gdem = {}
        for g in self.globals.values():
            self.gdem.setdefault(g['dem'], g)

    def fn(self, dem):
        """function by demangled signature, or unique by base name"""
        f = self.by_dem.get(dem)
        if f is None:
            c = [x for x in self.by_base.get(dem, []) if not x.decl]
            if len(c) == 1:
                return c[0]
            raise AnalysisBroken('anchor function not found: %s%s' % (dem, ' (ambiguous: %s)' % [x.dem for x in c] if c else ''))
        if f.decl:
            raise AnalysisBroken('anchor function has no body: %s' % dem)
        return f

    def has(self, dem):
        f = self.by_dem.get(dem)
        return f is not None and not f.decl

    def struct(self, name):
        s = self.structs.get(name)
        if s is None:
            raise AnalysisBroken('anchor type not found: %s' % name)
        return s

    def members(self, name, base=0, out=None):
        """flattened members incl. bases: name -> (byte off, byte size, type, bitoff)"""
        if out is None:
            out = {}
        s = self.struct(name)
        for b, off in s['bases']:
            if b in self.structs:
                self.members(b, base + off, out)
        for n, bit, size, ty, bf in s['members']:
            out.setdefault(n, (base + bit // 8, max(1, size // 8), ty, bit % 8))
        return out

    def off(self, cls, member):
        m = self.members(cls)
        if member not in m:
            raise AnalysisBroken('anchor member not found: %s::%s' % (cls, member))
        return m[member][0]

    def size(self, cls):
        return self.struct(cls)['size']

    def member_at(self, cls, off):
        """(path, type) of the scalar member at byte offset off"""
        s = self.structs.get(cls)
        if s is None:
            return None
        for n, bit, size, ty, bf in s['members']:
            o = bit // 8
            if bf:
                if o == off:
                    return n, ty
                continue
            sz = size // 8
            if o <= off < o + max(sz, 1):
                t = strip(ty)
                m = re.match(r'^(.*?)((?:\[\d+\])+)$', t)
                if m:
                    dims = [int(x) for x in re.findall(r'\[(\d+)\]', m.group(2))]
                    tot = 1
                    for x in dims:
                        tot *= x
                    es = sz // tot if tot else sz
                    if es:
                        i = (off - o) // es
                        et = strip(m.group(1))
                        if et in self.structs:
                            r = self.member_at(et, (off - o) % es)
                            if r:
                                return '%s[%d].%s' % (n, i, r[0]), r[1]
                        return '%s[%d]' % (n, i) + ('' if (off - o) % es == 0 else '+%d' % ((off - o) % es)), m.group(1)
                if t in self.structs:
                    r = self.member_at(t, off - o)
                    if r:
                        return n + '.' + r[0], r[1]
                return (n, ty) if off == o else ('%s+%d' % (n, off - o), ty)
        for b, o in s['bases']:
            sz = self.structs.get(b, {}).get('size', 0)
            if o <= off < o + sz:
                r = self.member_at(b, off - o)
                if r:
                    return r
        return None


def strip(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile '):
            if t.startswith(p):
                t = t[len(p):]
                ch = True
    return t
