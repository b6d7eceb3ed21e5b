"""Every reachable state of a small container: from each state that was reached, each operation is interpreted, what it
returns and what can be observed afterwards is compared with a model, and the memory it leaves is a state to continue
from, until no new state appears."""
from sblib import *


def i(n):
    return C(32, n & 0xffffffff)


class Subject:
    """one container of one configuration"""
    PRE = ''
    SRC = ''

    def __init__(self, chk, name):
        self.chk, self.name = chk, name
        self.I = interp(chk)
        self.st = State()
        self.elems = {}
        self.path = ()
        self.op = 'new'

    def first(self):
        return ()

    def elem(self, c):
        if c not in self.elems:
            self.elems[c] = P(self.I.new_region(self.st, 'heap', c, size=i(12)))
        return self.elems[c]

    def call(self, name, *a):
        self.I.steps = 0
        l = self.chk.run(self.I, self.chk.M.funcs['c3pv_%s_%s' % (self.PRE, name)], self.st, list(a))
        if len(l) > 1:
            l = [x for x in l if not x[0].dead() and not x[0].empty()]
        if len(l) != 1:
            raise Unsupported('%d outcomes of %s after %s' % (len(l), name, ' '.join(self.path)))
        self.st = l[0][0]
        return l[0][1]

    def on(self, name, *a):
        return self.call(name, self.this, *a)

    def num(self, name, *a, signed=True):
        v = self.st.norm(self.on(name, *a))
        if not isc(v):
            self.bad(False, name, '%s() depends on memory that was never set' % name)
            return None
        return sval(cv(v), 32) if signed and v.w == 32 else cv(v)

    def who(self, name, *a):
        """which element"""
        p = self.I.res(self.st, self.on(name, *a))
        if p.r is None:
            return None if isc(p.o) and cv(p.o) == 0 else '?'
        for c, e in self.elems.items():
            if e.r is p.r:
                return c
        return '?'

    def bad(self, cond, key, detail):
        return self.chk.expect(cond, '%s.%s:%s' % (self.name, self.op, key), self.SRC, '%s (after %s)' % (detail, ' '.join(self.path) or 'nothing'), self.st)

    def eq(self, got, want, key, what=None):
        return self.bad(got == want, key, '%s is %s instead of %s' % (what or key, got, want))

    def canon(self):
        """the memory that is reachable from the container"""
        seen, out, todo = {}, [], [self.this.r]
        seen[self.this.r.id] = 0
        while todo:
            r = todo.pop()
            m = self.st.mem.get(r.id)
            if m is None:
                continue
            for o in sorted(m.cells):
                c = m.cells[o]
                v = c[1]
                if isinstance(v, P):
                    v = self.I.res(self.st, v)
                    if v.r is None:
                        out.append((seen[r.id], o, 0))
                        continue
                    if v.r.id not in seen:
                        seen[v.r.id] = len(seen)
                        if all(e.r is not v.r for e in self.elems.values()):
                            todo.append(v.r)
                    nm = next((k for k, e in self.elems.items() if e.r is v.r), seen[v.r.id])
                    out.append((seen[r.id], o, nm, str(v.o)))
                else:
                    out.append((seen[r.id], o, str(self.st.norm(v))))
        return tuple(out)

    def end(self):
        self.call('delete', self.this)
        released(self.chk, self.I, self.st, [], self.name + '.delete')


def explore(chk, s, model, limit=4000, ends=1):
    """all states"""
    model = s.first()
    seen = {(model, s.canon())}
    todo = [(s.st, model, (), s.elems)]
    s.look(model)
    n = 0
    while todo:
        st, m, path, el = todo.pop(0)
        s.st, s.elems = st, el
        for label, f in s.ops(m):
            s.st = st.copy()
            s.elems = el
            s.path = path + (label,)
            s.op = label.split('(')[0]
            m2 = f(m)
            chk.count('transitions')
            memory(chk, s.st, '%s.%s' % (s.name, s.op))
            k = (m2, s.canon())
            if k in seen or len(seen) >= limit:
                continue
            seen.add(k)
            keep = s.st.copy()
            s.look(m2)
            memory(chk, s.st, '%s.look' % s.name)
            s.st = keep.copy()
            s.op = 'delete'
            s.end()
            todo.append((keep, m2, s.path, s.elems))
    chk.count('states', len(seen))
    chk.count('states of ' + s.name, len(seen))


class Ring(Subject):
    PRE, SRC = 'rg', 'src/RingBuffer.h'
    VALS = (0x01020304, 0x01020305, 0x71020304)

    def __init__(self, chk, cap, vals):
        Subject.__init__(self, chk, 'ring%d' % cap)
        self.cap, self.vals = cap, self.VALS[:vals]
        self.this = self.I.res(self.st, self.call('new', i(cap)))

    def buf(self, vs):
        p = P(self.I.new_region(self.st, 'lazy', 'given', size=i(4 * len(vs))))
        for k, v in enumerate(vs):
            self.I.store(self.st, P(p.r, i(4 * k)), i(v), 'i32')
        return p

    def read(self, p, n):
        r = []
        for k in range(n):
            v = self.st.norm(self.I.load(self.st, P(p.r, i(4 * k)), 'i32'))
            r.append(cv(v) if isc(v) else None)
        return tuple(r)

    def look(self, m):
        self.op = 'look'
        self.eq(self.num('count'), len(m), 'count')
        self.eq(self.num('vacancy'), self.cap - len(m), 'vacancy')
        self.eq(self.num('capacity'), self.cap, 'capacity')
        self.eq(self.num('empty'), int(not m), 'empty', 'isEmpty()')
        self.eq(self.num('heap'), 4 * self.cap, 'heap', 'heap_use()')
        self.eq(self.num('peek', signed=False), m[0] if m else 0, 'peek', 'peek()')
        for k in range(len(m)):
            self.eq(self.num('peekat', i(k), signed=False), m[k], 'peek-at', 'peek(%d)' % k)
        if not m:
            self.eq(self.num('peekat', i(0), signed=False), 0, 'peek-at', 'peek(0) of an empty ring')
        for v in self.VALS:
            self.eq(self.num('contains', i(v)), int(v in m), 'contains', 'contains(%x)' % v)
        self.eq(self.num('contains', i(0)), 0, 'contains', 'contains(0)')
        for n in range(1, self.cap + 2):
            p = self.buf([99] * n)
            x = min(n, len(m))
            self.eq(self.num('peeks', p, i(n)), x, 'peeks', 'peek(buf, %d)' % n)
            self.eq(self.read(p, n), m[:x] + (99,) * (n - x), 'peeks', 'what peek(buf, %d) wrote' % n)
        self.bad(self.num('peeks', P(None), i(1)) < 0 and self.num('peeks', self.buf([1]), i(0)) < 0, 'peeks', 'peek() without a buffer or a length does not fail')
        self.eq(self.num('count'), len(m), 'count', 'the count after looking')

    def ops(self, m):
        r = []
        room = self.cap - len(m)

        def insert(v):
            def f(m):
                ok = len(m) < self.cap
                self.bad((self.num('insert', i(v)) == 0) == ok, 'result', 'insert() %s' % ('fails' if ok else 'succeeds when full'))
                return m + (v,) if ok else m
            return f

        def absent(v):
            def f(m):
                ok = len(m) < self.cap and v not in m
                self.bad((self.num('absent', i(v)) == 0) == ok, 'result', 'insertIfAbsent() %s' % ('fails' if ok else 'succeeds'))
                return m + (v,) if ok else m
            return f

        def inserts(vs):
            def f(m):
                p = self.buf(vs)
                n = min(len(vs), self.cap - len(m))
                v = self.num('inserts', p, i(len(vs)))
                self.bad(v == n if n else v < 0, 'result', 'insert(buf, %d) is %d with room for %d' % (len(vs), v, self.cap - len(m)))
                self.eq(self.read(p, len(vs)), tuple(vs), 'source', 'the source')
                return m + tuple(vs[:n])
            return f

        def get(m):
            self.eq(self.num('get', signed=False), m[0] if m else 0, 'result', 'get()')
            return m[1:]

        def gets(n):
            def f(m):
                p = self.buf([99] * n)
                x = min(n, len(m))
                self.eq(self.num('gets', p, i(n)), x, 'result', 'get(buf, %d)' % n)
                self.eq(self.read(p, n), m[:x] + (99,) * (n - x), 'content', 'what get(buf, %d) wrote' % n)
                return m[x:]
            return f

        def cull(n):
            def f(m):
                v = self.num('cull', i(n))
                if n:
                    self.eq(v, min(n, len(m)), 'result', 'cull(%d)' % n)
                return m[n:]
            return f

        def clear(m):
            self.on('clear')
            return ()

        def none(m):
            self.bad(self.num('inserts', P(None), i(1)) < 0 and self.num('inserts', self.buf([1]), i(0)) < 0, 'result', 'insert() without a buffer or a length does not fail')
            self.bad(self.num('gets', P(None), i(1)) < 0 and self.num('gets', self.buf([1]), i(0)) < 0, 'result', 'get() without a buffer or a length does not fail')
            return m
        for v in self.vals:
            r += [('insert(%x)' % v, insert(v)), ('insertIfAbsent(%x)' % v, absent(v))]
        for n in range(1, self.cap + 2):
            r += [('insert(%d of them)' % n, inserts([self.vals[(k + len(m)) % len(self.vals)] for k in range(n)])), ('get(buf,%d)' % n, gets(n))]
        r += [('cull(%d)' % n, cull(n)) for n in list(range(self.cap + 2)) + [0xffffffff]]
        return r + [('get()', get), ('clear()', clear), ('nothing()', none)]


class List(Subject):
    PRE, SRC = 'll', 'src/LightLinkedList.h'

    def __init__(self, chk, elems, size):
        Subject.__init__(self, chk, 'list')
        self.size = size
        self.names = elems
        for c in elems + 'z':
            self.elem(c)
        self.this = self.I.res(self.st, self.call('new'))

    def look(self, m):
        self.op = 'look'
        self.eq(self.num('size'), len(m), 'size')
        self.eq(self.num('hasnext'), int(bool(m)), 'hasNext')
        self.eq(self.who('get'), m[0] if m else None, 'get', 'get()')
        for n in range(-1, len(m) + 2):
            self.eq(self.who('getat', i(n)), m[n] if 0 <= n < len(m) else None, 'get-at', 'get(%d)' % n)
        for c in self.elems:
            self.eq(self.num('contains', self.elem(c)), int(c in m), 'contains', 'contains(%s)' % c)
        self.eq(self.num('contains', P(None)), 0, 'contains', 'contains(null)')

    def ops(self, m):
        r = []

        def insert(c, head):
            def f(m):
                self.bad(self.num('athead' if head else 'insert', self.elem(c)) >= 0, 'result', 'inserting fails')
                return (c,) + m if head else m + (c,)
            return f

        def remove(m):
            self.eq(self.who('remove'), m[0] if m else None, 'result', 'remove()')
            return m[1:]

        def removeat(n):
            def f(m):
                ok = 0 <= n < len(m)
                self.eq(self.who('removeat', i(n)), m[n] if ok else None, 'result', 'remove(%d)' % n)
                return m[:n] + m[n + 1:] if ok else m
            return f

        def removeall(c):
            def f(m):
                self.eq(self.num('removeall', self.elem(c)), int(c in m), 'result', 'remove(%s)' % c)
                return tuple(x for x in m if x != c)
            return f

        def clear(m):
            self.eq(self.num('clear'), len(m), 'result', 'clear()')
            return ()
        if len(m) < self.size:
            for c in self.names:
                r += [('insert(%s)' % c, insert(c, 0)), ('insertAtHead(%s)' % c, insert(c, 1))]
        r += [('remove(at %d)' % n, removeat(n)) for n in range(-1, len(m) + 2)]
        r += [('remove(%s)' % c, removeall(c)) for c in self.elems]
        return r + [('remove()', remove), ('clear()', clear)]


class Queue(Subject):
    PRE, SRC = 'pq', 'src/PriorityQueue.h'

    def __init__(self, chk, elems, pris, size):
        Subject.__init__(self, chk, 'queue')
        self.size, self.pris = size, pris
        self.names = elems
        for c in elems + 'z':
            self.elem(c)
        self.this = self.I.res(self.st, self.call('new'))

    def look(self, m):
        self.op = 'look'
        self.eq(self.num('size'), len(m), 'size')
        self.eq(self.num('hasnext'), int(bool(m)), 'hasNext')
        self.eq(self.who('get'), m[0][0] if m else None, 'get', 'get()')
        for n in range(-1, len(m) + 2):
            ok = 0 <= n < len(m)
            self.eq(self.who('getat', i(n)), m[n][0] if ok else None, 'get-at', 'get(%d)' % n)
            self.eq(self.num('priorityat', i(n)), m[n][1] if ok else -1, 'priority-at', 'getPriority(%d)' % n)
        for p in sorted({x[1] for x in m} | set(self.pris) | {100}):
            self.eq(self.who('getpri', i(p)), next((x[0] for x in m if x[1] == p), None), 'get-by-priority', 'getByPriority(%d)' % p)
        for c in self.elems:
            at = next((k for k, x in enumerate(m) if x[0] == c), -1)
            self.eq(self.num('contains', self.elem(c)), int(at >= 0), 'contains', 'contains(%s)' % c)
            self.eq(self.num('position', self.elem(c)), at, 'position', 'getPosition(%s)' % c)
            self.eq(self.num('priority', self.elem(c)), m[at][1] if at >= 0 else -1, 'priority', 'getPriority(%s)' % c)

    def ordered(self, m):
        return all(m[k][1] >= m[k + 1][1] for k in range(len(m) - 1))

    def put(self, m, c, p):
        k = len([x for x in m if x[1] >= p])
        return m[:k] + ((c, p),) + m[k:]

    def seen(self):
        """the content, by position"""
        n = self.num('size')
        return tuple((self.who('getat', i(k)), self.num('priorityat', i(k))) for k in range(n))

    def ops(self, m):
        r = []

        def insert(c, p, how):
            def f(m):
                a = [self.elem(c)] + ([] if how.endswith('0') else [i(p)])
                v = self.num(how, *a)
                ok = how.startswith('insert') or all(x[0] != c for x in m)
                self.bad((v >= 0) == ok, 'result', 'inserting %s' % ('fails' if ok else 'succeeds'))
                return self.put(m, c, p) if ok else m
            return f

        def dequeue(m):
            self.eq(self.who('dequeue'), m[0][0] if m else None, 'result', 'dequeue()')
            return m[1:]

        def recycle(m):
            self.eq(self.who('recycle'), m[0][0] if m else None, 'result', 'recycle()')
            return m[1:] + ((m[0][0], m[-1][1]),) if len(m) > 1 else m

        def removeat(n):
            def f(m):
                ok = 0 <= n < len(m)
                self.eq(self.num('removeat', i(n)), int(ok), 'result', 'remove(%d)' % n)
                return m[:n] + m[n + 1:] if ok else m
            return f

        def removeall(c):
            def f(m):
                self.eq(self.num('removeall', self.elem(c)), int(any(x[0] == c for x in m)), 'result', 'remove(%s)' % c)
                return tuple(x for x in m if x[0] != c)
            return f

        def clear(m):
            self.eq(self.num('clear'), len(m), 'result', 'clear()')
            return ()

        def change(c, d):
            def f(m):
                at = next((k for k, x in enumerate(m) if x[0] == c), -1)
                self.eq(self.num('up' if d > 0 else 'down', self.elem(c)), int(at >= 0), 'result', 'changing the priority of %s' % c)
                if at < 0:
                    return m
                new = self.seen()
                x = (c, m[at][1] + d)
                rest = m[:at] + m[at + 1:]
                fits = [k for k in range(len(rest) + 1) if rest[:k] + (x,) + rest[k:] == new and self.ordered(new)]
                self.bad(bool(fits), 'order', '%s becomes %s' % (m, new))
                return new
            return f
        if self.ordered(m):
            if len(m) < self.size:
                for c in self.names:
                    r += [('insert(%s,%d)' % (c, p), insert(c, p, 'insert')) for p in self.pris]
                    r += [('insertIfAbsent(%s,%d)' % (c, p), insert(c, p, 'absent')) for p in self.pris]
                    r += [('insert(%s)' % c, insert(c, 0, 'insert0')), ('insertIfAbsent(%s)' % c, insert(c, 0, 'absent0'))]
            for c in self.elems:
                at = next((x[1] for x in m if x[0] == c), None)
                if at is None or at < max(self.pris):
                    r.append(('incrementPriority(%s)' % c, change(c, 1)))
                if at is None or at > min(self.pris):
                    r.append(('decrementPriority(%s)' % c, change(c, -1)))
        r += [('remove(at %d)' % n, removeat(n)) for n in range(-1, len(m) + 2)]
        r += [('remove(%s)' % c, removeall(c)) for c in self.elems]
        return r + [('dequeue()', dequeue), ('recycle()', recycle), ('clear()', clear)]


class Pool(Subject):
    PRE, SRC = 'ep', 'src/ElementPool.h'

    def __init__(self, chk, cap, limit, given):
        Subject.__init__(self, chk, 'pool%d.%d%s' % (cap, limit, '.given' if given else ''))
        self.cap, self.limit, self.given = cap, limit, given
        make = self.I.new_region

        def placed(st, kind, name, size=None, *a, **k):
            r = make(st, kind, name, size, *a, **k)
            if size is not None and isc(size):
                used = [(a, a + cv(x.size)) for x, a in self.I.cfg.addresses.items() if x.id in st.mem and x.id not in st.freed]
                # elements and the memory of the pool: side by side
                tight, n = cv(size) % 12 == 0, cv(size)
                at = 0x20800000 if tight else 0x20001000
                while any(a < at + n and at < b for a, b in used):
                    at += 12 if tight else 0x1000
                self.I.cfg.addresses[r] = at
            return r
        self.I.new_region = placed
        self.mem = P(self.I.new_region(self.st, 'heap', 'memory', size=i(12 * cap))) if given else P(None)
        self.this = self.I.res(self.st, self.call('new', i(cap), i(limit), self.mem))

    # model: (free list, elements that are out, drawn, freed, low)
    def look(self, m):
        self.op = 'look'
        free, out, drawn, freed, low, ready = m
        self.eq(self.num('capacity'), self.cap, 'capacity')
        if ready:
            self.eq(self.num('available'), len(free), 'available')
        self.eq(self.num('overdraws'), drawn, 'overdraws')
        self.eq(self.num('freed'), freed, 'overdraws-freed')
        self.eq(self.num('low'), low, 'low-water-mark')
        for x in out:
            self.eq(self.num('inpool', self.elems[x]), int(x < self.cap), 'inPool')

    def first(self):
        return ((), (), 0, 0, self.cap, False)

    def base(self):
        off = self.chk.M.off('ElementPool<C3PVerifElem>', '_pool')
        return self.I.res(self.st, self.I.load(self.st, P(self.this.r, t.addc(self.this.o, off)), 'ptr'))

    def ready(self, m):
        if m[5]:
            return m
        return (tuple(range(self.cap)),) + m[1:5] + (True,)

    def ops(self, m):
        r = []

        def allocated(m):
            self.eq(self.num('allocated'), 1, 'result')
            return self.ready(m)

        def take(m):
            free, out, drawn, freed, low, _ = m = self.ready(m)
            p = self.I.res(self.st, self.on('take'))
            if not free and drawn - freed >= self.limit:
                self.bad(p.r is None, 'limit', 'take() gives an element beyond the limit of %d' % self.limit)
                return m[:4] + (min(low, 0), True)
            if not self.bad(p.r is not None, 'nothing', 'take() gives nothing'):
                raise Unsupported('cannot continue')
            b = self.base()
            off = self.st.norm(p.o)
            k = cv(off) // 12 if isc(off) and p.r is b.r else None
            if free:
                self.bad(k is not None and cv(off) % 12 == 0 and k == free[0], 'which', 'take() gives element %s of the pool instead of %s' % (k, free[0]))
                k = free[0]
                free = free[1:]
            else:
                self.bad(k is None and all(self.elems[x].r is not p.r for x in out), 'which', 'an overdrawn element is in use already')
                k = next(x for x in range(self.cap, 99) if x not in out)
                drawn += 1
            if k not in self.elems or k >= self.cap:
                for o in (0, 4, 8):
                    v = self.st.norm(self.I.load(self.st, P(p.r, t.addc(p.o, o)), 'i8' if o == 8 else 'i32'))
                    self.bad(isc(v) and cv(v) == 0, 'constructed', 'a new element is not constructed')
            self.elems = dict(self.elems)
            self.elems[k] = p
            return (free, tuple(sorted(out + (k,))), drawn, freed, min(low, len(free)), True)

        def give(k):
            def f(m):
                free, out, drawn, freed, low, _ = m
                x = self.elems[k]
                v = self.num('give', x)
                gone = x.r.id in self.st.freed
                self.eq(v, int(k < self.cap), 'result', 'give()')
                self.bad(gone == (k >= self.cap), 'release', 'an element of the %s is %s' % ('pool' if k < self.cap else 'heap', 'released' if gone else 'not released'))
                out = tuple(y for y in out if y != k)
                return (free + (k,), out, drawn, freed, low, True) if k < self.cap else (free, out, drawn, freed + 1, low, True)
            return f
        if m[2] < 4:
            r.append(('take()', take))
        r += [('give(%d)' % k, give(k)) for k in m[1]]
        return r + [('allocated()', allocated)]

    def end(self):
        over = [k for k in self.elems if k >= self.cap and self.elems[k].r.id not in self.st.freed]
        m = self.mem
        self.call('delete', self.this)
        if self.given:
            self.bad(m.r.id not in self.st.freed, 'kept', 'the memory that was provided is released')
        self.st = released(self.chk, self.I, self.st, [], self.name + '.delete', keep=[self.elems[k].r for k in over])



class Series(Subject):
    PRE, SRC = 'ts', 'src/TimeSeries/TimeSeries.h'

    def __init__(self, chk, sizes, vals, given):
        Subject.__init__(self, chk, 'series%s%s' % (','.join(map(str, sizes)), '.given' if given else ''))
        self.sizes, self.vals, self.given = sizes, vals, given
        self.deep = chk.tier != 'quick'
        self.mem = self.buf([77] * sizes[0]) if given else P(None)
        self.this = self.I.res(self.st, self.call('new', i(sizes[0]), self.mem))

    def buf(self, vs):
        p = P(self.I.new_region(self.st, 'heap', 'given', size=i(4 * len(vs))))
        for k, v in enumerate(vs):
            self.I.store(self.st, P(p.r, i(4 * k)), i(v), 'i32')
        return p

    def read(self, p, n):
        r = []
        for k in range(n):
            v = self.st.norm(self.I.load(self.st, P(p.r, i(4 * k)), 'i32'))
            r.append(sval(cv(v), 32) if isc(v) else None)
        return tuple(r)

    # model: (window, ready, samples by position in memory, how many, how many when clean, statistics that are cached)
    def first(self):
        return (self.sizes[0], False, (), 0, 0, False)

    def newest(self, m):
        w, t = m[0], m[3]
        return m[2][(t - 1) % w]

    def stats(self, m):
        s = sorted(m[2])
        w = m[0]
        x = s[w // 2] + s[(w - 1) // 2]
        return (s[0], s[-1]) + ((0,) if w < 2 else ({s[w // 2]} if w % 2 else {x // 2, -(-x // 2), int(x / 2)},))

    def look(self, m):
        self.op = 'look'
        w, ready, mem, total, clean, _ = m
        full = ready and total >= w
        self.eq(self.num('initd'), int(ready), 'initialized')
        self.eq(self.num('size'), w if ready else 0, 'windowSize')
        self.eq(self.num('used'), 4 * w if ready else 0, 'memUsed')
        self.eq(self.num('total'), total, 'totalSamples')
        self.eq(self.num('full'), int(full), 'windowFull')
        if ready:
            self.eq(self.num('dirty'), int(total != clean), 'dirty')
            self.eq(self.num('last'), total % w, 'lastIndex')
            p = self.I.res(self.st, self.on('mem'))
            self.eq(self.read(p, w), mem, 'content', 'the memory')
            if self.given:
                self.bad(p.r is self.mem.r, 'memory', 'the memory that was provided is not used')
        for k in range(w):
            want = 0
            if ready and k < total:
                want = total - 1 - (total - 1 - k) % w
            self.eq(self.num('which', i(k)), want, 'sample-index', 'indexIsWhichSample(%d)' % k)
        keep = self.st
        for n in range(0, w + 2):
            for o in (0, 1, w) if n else (0,):
                for a in (1, 0):
                    if not a and o:
                        continue
                    ok = ready and 0 < n <= w and total >= n + o
                    for how in ('range', 'copy') if not o else ('range',):
                        self.st = keep.copy()
                        p = self.buf([99] * (n or 1))
                        v = self.num('range', p, i(n), i(o), i(a)) if how == 'range' else self.num('copy', p, i(n), i(a))
                        self.bad(v == 0 if ok else v < 0, 'copy', 'copying %d from %d%s is %s' % (n, o, '' if a else ' of the most recent', v))
                        want = (99,) * (n or 1)
                        if ok:
                            want = tuple(mem[(o + k if a else total - n + k) % w] for k in range(n))
                        self.eq(self.read(p, n or 1), want, 'copied', 'copying %d from %d%s' % (n, o, '' if a else ' of the most recent'))
                        if ready:
                            self.eq(self.num('dirty'), int(total != clean and not ok), 'dirty', 'dirty() after copying')
        self.st = keep.copy()
        self.eq(self.num('value'), self.newest(m) if full else 0, 'value')
        if ready:
            self.eq(self.num('dirty'), int(total != clean and not full), 'dirty', 'dirty() after value()')
        self.st = keep
        self.look_stats(m)
        self.eq(self.num('total'), total, 'totalSamples', 'the total after looking')

    def look_stats(self, m):
        if not m[1]:
            return
        s = self.stats(m) if m[1] and m[3] >= m[0] else (0, 0, 0)
        self.eq(self.num('min'), s[0], 'min')
        self.eq(self.num('max'), s[1], 'max')
        v = self.num('median')
        self.bad(v == s[2] if isinstance(s[2], int) else v in s[2], 'median', 'median() is %s, not %s' % (v, s[2]))

    def fresh(self, w):
        return (w, True, (0,) * w, 0, 0, False)

    def ops(self, m):
        r = []
        w, ready, mem, total, clean, cached = m

        def init(m):
            v = self.num('init')
            self.bad(v == 0 if m[0] else v < 0, 'result', 'init() is %s' % v)
            return self.fresh(m[0]) if m[0] else (0, False, (), 0, 0, False)

        def window(x):
            def f(m):
                v = self.num('window', i(x))
                if self.given and x != m[0]:
                    self.bad(v < 0, 'result', 'windowSize(%d) succeeds in memory that was provided' % x)
                    return m
                self.bad(v == 0, 'result', 'windowSize(%d) is %s' % (x, v))
                return self.fresh(x) if x else (0, False, (), 0, 0, False)
            return f

        def purge(m):
            self.eq(self.num('purge'), 0, 'result')
            return self.fresh(m[0])

        def feed(x):
            def f(m):
                v = self.num('feed', i(x))
                w, ready, mem, total, clean, cached = m
                self.eq(v, -1 if not ready else int(total + 1 >= w), 'result', 'feedSeries(%d)' % x)
                if not ready:
                    return m
                k = total % w
                return (w, True, mem[:k] + (x,) + mem[k + 1:], total + 1, clean, False)
            return f

        def bulk(m):
            w, ready, mem, total, clean, cached = m
            if ready:
                mem = tuple(self.vals[(k + total) % len(self.vals)] for k in range(w))
                p = self.I.res(self.st, self.on('mem'))
                for k in range(w):
                    self.I.store(self.st, P(p.r, i(4 * k)), i(mem[k]), 'i32')
            v = self.num('bulk')
            self.bad(v >= 0 if ready else v < 0, 'result', 'feedSeries() is %s' % v)
            return (w, ready, mem, total + w, clean, False) if ready else m

        def value(m):
            full = m[1] and m[3] >= m[0]
            self.eq(self.num('value'), self.newest(m) if full else 0, 'result')
            return m[:4] + (m[3], m[5]) if full else m

        def stats(m):
            self.look_stats(m)
            return m[:5] + (m[1] and m[3] >= m[0],)

        def clear(m):
            self.on('clean')
            return m[:4] + (m[3], m[5])
        r = [('init()', init)] + [('windowSize(%d)' % x, window(x)) for x in self.sizes + (0,) if not (x == m[0] and not ready)]
        if ready:
            r += [('purge()', purge)]
        if total < 2 * w + self.deep or not ready:
            r += [('feedSeries(%d)' % x, feed(x)) for x in self.vals] + [('feedSeries()', bulk)]
        return r + [('value()', value), ('stats()', stats), ('markClean()', clear)]

    def end(self):
        m = self.mem
        self.call('delete', self.this)
        if self.given:
            self.bad(m.r.id not in self.st.freed, 'kept', 'the memory that was provided is released')
        self.st = released(self.chk, self.I, self.st, [], self.name + '.delete', keep=[m.r] if self.given else [])



NONE, QUEUED, STARTED, DONE = range(4)
BUSY, FAILED, FLUSHED = 5, 6, 14
RECYCLE = 1
TX = 2


class Bus(Subject):
    """an adapter with two devices; what the hardware and the devices answer is chosen by the exploration"""

    def __init__(self, chk, pre, pool, depth, adv, opt, jobs):
        Subject.__init__(self, chk, '%s%d.%d%s' % (pre, pool, depth, '.adv' * adv + '.opt' * opt))
        self.PRE = pre
        self.SRC = 'src/BusQueue/%sAdapter.cpp' % ('I2C' if pre == 'i2' else 'SPI')
        self.spi = pre == 'sp'
        self.pool, self.depth, self.adv, self.opt, self.jobs = pool, depth, adv, opt, jobs
        self.begin, self.advance, self.answer = 0, 0, 0
        m = self.I.cfg.models
        m['c3pv_hw_begin'] = self.model('begin')
        m['c3pv_hw_advance'] = self.model('advance')
        m['c3pv_hw_bus'] = lambda I, st, a, o, fn: [(st, i(0))]
        m['c3pv_hw_callback'] = self.called
        m['_Z6microsv'] = m['_Z6millisv'] = lambda I, st, a, o, fn: [(st, i(1000))]
        for f in self.chk.M.funcs:
            if f.startswith('_Z7c3p_log'):
                m[f] = lambda I, st, a, o, fn: [(st, None)]
        m['_Z6setPinhb'] = lambda I, st, a, o, fn: [(st, C(8, 0))]
        place(self)
        self.this = self.I.res(self.st, self.call('new', i(pool), i(depth)))
        self.bad(self.num('init', i(adv), i(opt)) == 0, 'result', 'init() fails')
        self.bad(self.num('online') == 1 and self.num('error') == 0, 'online', 'the bus is not online')
        self.devs = [self.I.res(self.st, self.chk.run(self.I, self.chk.M.funcs['c3pv_bus_dev'], self.st, [])[0][1]) for k in (0, 1)]
        self.elems, self.slots = {}, {}
        self.own = self.I.res(self.st, self.call('own', i(TX), self.devs[0]))
        self.elems['s'] = self.own
        self.scratch = P(self.I.new_region(self.st, 'heap', 'buffer', size=i(4)))

    def model(self, kind):
        def f(I, st, a, o, fn):
            st.emit(('hw', kind, I.res(st, a[0]), None))
            return [(st, i(getattr(self, kind)))]
        return f

    def called(self, I, st, a, o, fn):
        self.st, keep = st.copy(), self.st
        x = I.res(st, a[1])
        d = (self.of(x, 'state'), self.of(x, 'fault'))
        self.st = keep
        st.emit(('hw', 'callback', x, (I.res(st, a[0]),) + d))
        return [(st, i(self.answer))]

    def of(self, p, what):
        return sval(cv(self.st.norm(self.call(what, p))), 32)

    def job(self, p):
        for c, e in self.elems.items():
            if e.r is p.r and cv(self.st.norm(e.o)) == cv(self.st.norm(p.o)):
                return c
        return '?'

    def events(self):
        out = []
        for e in self.st.events(self.mark):
            if e[0] == 'hw':
                d = e[3]
                if d is not None:
                    d = (next((k for k in (0, 1) if self.devs[k].r is d[0].r), None),) + d[1:]
                out.append((e[1], self.job(e[2]), d))
        return out

    # model: (queued jobs with their priority, (current job, its phase, its fault) or None, (job, fault) with pending callbacks)
    def first(self):
        return ((), None, ())

    def holder(self, x):
        return 0 if x == 's' else int(x[-1])

    def look(self, m):
        self.op = 'look'
        q, cur, cbs = m
        self.eq(self.num('room'), int(len(q) < self.depth), 'room', 'roomInQueue()')
        self.eq(self.num('idle'), int(not q and not cur), 'idle', 'busIdle()')
        if not self.bad(self.scratch.r.id not in self.st.freed, 'buffer', 'a buffer that belongs to a device is released'):
            raise Unsupported('cannot continue')
        if self.spi:
            self.eq(self.num('clear'), int(not q and not cur and not cbs), 'clear', 'allQueuesClear()')
        p = self.I.res(self.st, self.on('current'))
        self.bad((p.r is None) == (cur is None) and (cur is None or self.job(p) == cur[0]), 'current', 'the current job')
        for x, _ in q:
            self.eq(self.of(self.elems[x], 'state'), 2, 'state', 'the state of a queued job')
        if all(x != 's' for x in self.busy(m)):
            self.eq(self.of(self.own, 'state'), 1, 'state', 'the state of a job that is not queued')

    def busy(self, m):
        return [x[0] for x in m[0]] + [x[0] for x in m[2]] + ([m[1][0]] if m[1] else [])

    def expect(self, want):
        got = self.events()
        self.bad(got == want, 'order', 'hardware and devices see %s instead of %s' % (got, want))

    def reclaim(self, m, xs):
        """what was done with jobs that are over"""
        for x in xs:
            p = self.elems[x]
            if x[0] == 'h':
                self.bad(p.r.id in self.st.freed, 'reclaimed', 'a job from the heap is not released')
                self.elems = {c: e for c, e in self.elems.items() if c != x}
            else:
                if not self.bad(p.r.id not in self.st.freed, 'reclaimed', 'a job that is not from the heap is released'):
                    raise Unsupported('cannot continue')
                self.eq(self.of(p, 'state'), 1, 'reclaimed', 'the state of a job that is over')
                if x[0] == 'p':
                    self.elems = {c: e for c, e in self.elems.items() if c != x}

    def enqueue(self, m, x, pri, keep=()):
        """model of accepting a job: (model, accepted, begun)"""
        q, cur, cbs = m
        if self.spi and self.opt and len(q) >= self.depth:
            return (q, cur, cbs + ((x, FLUSHED),)), -1
        if not self.spi and self.opt and cur is None:
            return (q, (x, DONE if self.begin else STARTED, self.begin), cbs), 0 if not self.begin else None
        k = len([y for y in q if y[1] >= pri])
        return (q[:k] + ((x, pri),) + q[k:], cur, cbs), 0

    def ops(self, m):
        r = []
        q, cur, cbs = m

        def queue(x, pri, begin):
            def f(m):
                self.mark = self.st.log
                self.begin = begin
                had = self.busy(m)
                if x in had:
                    v = self.num('queue', self.elems[x], i(pri))
                    self.bad(v < 0, 'result', 'a job that is queued is accepted again')
                    self.expect([])
                    return m
                v = self.num('queue', self.elems[x], i(pri))
                m2, want = self.enqueue(m, x, pri)
                self.bad(v == 0 if want == 0 else v < 0 if want is not None else True, 'result', 'queue_io_job() is %d' % v)
                self.expect([('begin', x, None)] if m2[1] is not m[1] else [])
                return m2
            return f

        def submit(d, pri, begin):
            def f(m):
                self.mark = self.st.log
                q, cur, cbs = m
                p = self.I.res(self.st, self.on('take', i(TX), self.devs[d]))
                out = [x for x in self.elems if x[0] == 'p']
                heap = [x for x in self.elems if x[0] == 'h']
                if len(out) >= self.pool and len(heap) >= self.depth:
                    self.bad(p.r is None, 'limit', 'new_op() gives a job beyond the limit')
                    return m
                if not self.bad(p.r is not None, 'nothing', 'new_op() gives nothing'):
                    raise Unsupported('cannot continue')
                used = {x[1] for x in self.elems if x[0] == 'ph'[len(out) >= self.pool]}
                x = 'ph'[len(out) >= self.pool] + next(c for c in 'abcdefgh' if c not in used) + str(d)
                self.bad(self.job(p) == '?', 'same', 'new_op() gives a job that is in use')
                self.elems = dict(self.elems)
                self.elems[x] = p
                if x[0] == 'p':
                    self.slots[(p.r.id, str(p.o))] = p
                self.eq(self.of(p, 'state'), 1, 'state', 'the state of a new job')
                self.eq(self.of(p, 'fault'), 0, 'fault', 'the fault of a new job')
                self.eq(self.of(p, 'opcode'), TX, 'opcode', 'the opcode of a new job')
                self.bad(self.I.res(self.st, self.call('cb', p)).r is self.devs[d].r, 'device', 'the device of a new job')
                self.bad(self.I.res(self.st, self.call('buf', p)).r is None, 'buffer', 'the buffer of a new job')
                if not d:
                    self.call('setbuf', p, self.scratch, i(4), i(0))
                else:
                    b = self.chk.run(self.I, self.chk.M.funcs['c3pv_libc_malloc'], self.st, [i(4)])[0]
                    self.st = b[0]
                    self.call('setbuf', p, b[1], i(4), i(1))
                return queue(x, pri, begin)(m)
            return f

        def finish(m, ev, x, fault, over):
            ev.append(('callback', x, (self.holder(x), DONE_STATE(self.spi, fault), fault)))
            if self.answer == RECYCLE:
                # the current job is only replaced afterwards
                q, cur, cbs = m
                if self.spi:
                    return self.enqueue((q, cur, cbs), x, 0)[0]
                return (q + ((x, 0),), cur, cbs)
            over.append(x)
            return m

        def poll(begin, advance, answer):
            def f(m):
                self.mark = self.st.log
                self.begin, self.advance, self.answer = begin, advance, answer
                v = self.num('poll')
                q, cur, cbs = m
                ev, over = [], []
                if self.spi:
                    if cur is None and q:
                        cur, q = (q[0][0], QUEUED, 0), q[1:]
                    if cur:
                        x, ph, fl = cur
                        if ph == QUEUED:
                            ev.append(('begin', x, None))
                            if begin == 0:
                                cur = (x, STARTED, 0)
                            elif begin != BUSY:
                                cbs, cur = cbs + ((x, begin),), None
                        elif ph == STARTED:
                            if self.adv:
                                ev.append(('advance', x, None))
                                cur = (x, DONE, 0) if advance == 1 else (x, DONE, FAILED) if advance else cur
                        else:
                            cbs, cur = cbs + ((x, fl),), None
                    self.expect(ev)
                    self.bad(v in (0, 1, 2, 3), 'result', 'poll() is %d' % v)
                    return (q, cur, cbs)
                again = True
                while again:
                    again = False
                    if cur:
                        x, ph, fl = cur
                        if ph == QUEUED:
                            ev.append(('begin', x, None))
                            cur = (x, DONE, begin) if begin else (x, STARTED, 0)
                        elif ph == STARTED:
                            if self.adv:
                                ev.append(('advance', x, None))
                                cur = (x, DONE, 0) if advance == 1 else (x, DONE, FAILED) if advance else cur
                        else:
                            q, cur, cbs = finish((q, None, cbs), ev, x, fl, over)
                    if cur is None and q:
                        cur, q = (q[0][0], QUEUED, 0), q[1:]
                        again = True
                self.expect(ev)
                self.reclaim(m, over)
                return (q, cur, cbs)
            return f

        def service(answer):
            def f(m):
                self.mark = self.st.log
                self.answer = answer
                v = self.num('service')
                q, cur, cbs = m
                ev, over = [], []
                if cbs:
                    (x, fl), cbs = cbs[0], cbs[1:]
                    q, cur, cbs = finish((q, cur, cbs), ev, x, fl, over)
                self.eq(v, int(bool(m[2])), 'result', 'service_callback_queue()')
                self.expect(ev)
                self.reclaim(m, over)
                return (q, cur, cbs)
            return f

        def gone(xs, ev):
            for x in xs:
                ev.append(('callback', x, (self.holder(x), DONE_STATE(self.spi, FLUSHED), FLUSHED)))

        def purge(m):
            self.mark = self.st.log
            self.answer = 0
            self.on('purge')
            ev = []
            xs = [m[1][0]] if m[1] else []
            gone(xs, ev)
            self.expect(ev)
            self.reclaim(m, xs)
            return (m[0], None, m[2])

        def purgeq(m):
            self.mark = self.st.log
            self.answer = 0
            self.on('purgeq')
            ev = []
            xs = [x[0] for x in m[0]]
            gone(xs, ev)
            self.expect(ev)
            self.reclaim(m, xs)
            return ((),) + m[1:]

        def purgedev(d):
            def f(m):
                self.mark = self.st.log
                self.answer = 0
                xs = [x[0] for x in m[0] if self.holder(x[0]) == d]
                self.eq(self.num('purgedev', self.devs[d]), len(xs), 'result', 'purge_queued_work_by_dev()')
                ev = []
                gone(xs, ev)
                self.expect(ev)
                self.reclaim(m, xs)
                return (tuple(x for x in m[0] if self.holder(x[0]) != d),) + m[1:]
            return f
        pris = (0, 2) if self.spi and not self.opt else (0,)
        starts = (0, FAILED) if not self.spi and self.opt and cur is None else (0,)
        if len(self.busy(m)) < self.jobs:
            r += [('submit(%d,%d,%d)' % (d, pri, b), submit(d, pri, b)) for d in (0, 1) for pri in pris for b in starts]
        r += [('queue(%s,%d,%d)' % (x, pri, b), queue(x, pri, b)) for x in self.elems for pri in pris for b in starts if (x == 's' or pri == 0) and (self.spi or not ((cur and cur[0] == x) or (self.opt and not cur and x in self.busy(m))))]
        b = (0,)
        a = (0,)
        w = (0,)
        if self.spi:
            if (cur and cur[1] == QUEUED) or (not cur and q):
                b = (0, FAILED, BUSY)
            if cur and cur[1] == STARTED and self.adv:
                a = (0, 1, 2)
            r += [('service(%d)' % x, service(x)) for x in ((0, -1, RECYCLE) if cbs else (0,))]
        else:
            if (cur and cur[1] in (QUEUED, DONE)) or (not cur and q):
                b = (0, FAILED)
            if cur and cur[1] == STARTED and self.adv:
                a = (0, 1, 2)
            if cur and cur[1] == DONE:
                w = (0, -1, RECYCLE)
        r += [('poll(%d,%d,%d)' % (x, y, z), poll(x, y, z)) for x in b for y in a for z in w]
        return r + [('purge()', purge), ('purge_queue()', purgeq), ('purge_by_dev(0)', purgedev(0)), ('purge_by_dev(1)', purgedev(1))]

    def canon(self):
        return tuple(self.of(p, 'owns') for k, p in sorted(self.slots.items()))

    def end(self):
        self.mark = self.st.log
        self.answer = 0
        self.on('purgeq')
        self.on('purge')
        for k in range(8 if self.spi else 0):
            self.on('service')
        for x, p in self.elems.items():
            self.bad((p.r.id in self.st.freed) == (x[0] == 'h'), 'reclaimed', 'job %s after everything was purged' % x)
        self.call('delete', self.this)
        self.call('disown', self.own)
        for d in self.devs:
            self.st = self.chk.run(self.I, self.chk.M.funcs['c3pv_bus_nodev'], self.st, [d])[0][0]
        self.st = released(self.chk, self.I, self.st, [], self.name + '.delete', keep=[])


def DONE_STATE(spi, fault):
    return 15 if spi and fault else 14


def place(s):
    """concrete addresses, so that the members of a pool can be told from what surrounds it"""
    make = s.I.new_region

    def placed(st, kind, name, size=None, *a, **k):
        r = make(st, kind, name, size, *a, **k)
        if size is not None and isc(size):
            used = {a >> 12 for x, a in s.I.cfg.addresses.items() if x.id in st.mem and x.id not in st.freed}
            s.I.cfg.addresses[r] = next(a for a in range(0x20001, 0x20100) if a not in used) << 12
        return r
    s.I.new_region = placed


def run(chk, jobs):
    def work(part):
        for j in jobs[part::8]:
            chk.group('%s %s' % (j[0].__name__, ' '.join(map(str, j[1:-1]))), lambda: explore(chk, j[0](chk, *j[1:-1]), None, j[-1]))
    chk.fork(8, work)
