"""Every flag-container call on an arbitrary value and mask is compared with its bitwise definition.  The sequencer is
interpreted over a list of steps with chosen flags and dependencies, from an arbitrary state (each of the five status
words arbitrary in every bit), with step functions that return an arbitrary integer: one poll() is compared, step by
step and bit by bit, with the transition the documentation gives, including which functions are called and how many
changes are reported.  requestSteps() is compared with the transitive closure over every dependency matrix."""
import itertools
from balib import *

LEVEL = 'other'
ASSUME = ['step lists of up to three steps (two for poll() in the quick tier) with single-bit flags at several positions; status words, masks and step results are arbitrary', 'step functions do not call back into the sequencer']
SRC = 'src/AsyncSequencer.cpp'
FL = 'src/FlagContainer.h'
WORDS = ('requested', 'runnable', 'running', 'complete', 'passed')


def i(n):
    return C(32, n & 0xffffffff)


def flags(chk):
    I = chk.interp()
    for w in (8, 16, 32, 64):
        def f(name, st, *a):
            return chk.run(I, chk.M.funcs['c3pv_fl%d_%s' % (w, name)], st, list(a))

        def raw(st, p):
            return f('raw', st, p)[0][1]
        f0 = t.S(w, 'flag%d' % w)
        v0 = t.S(w, 'raw%d' % w)
        x = t.S(1, 'on')
        st0 = State()
        p = P(I.new_region(st0, 'lazy', 'flags', size=C(32, w // 8)))
        chk.count('flag container calls', 9)
        for st, _ in f('init0', st0.copy(), p):
            chk.prove(st, t.eq(raw(st, p), C(w, 0)), 'FlagContainer%d:default' % w, FL, 'a container does not start cleared')
        outs = f('init', st0.copy(), p, v0)
        for st, _ in outs:
            chk.prove(st, t.eq(raw(st, p), v0), 'FlagContainer%d:init' % w, FL, 'a container does not start with the value given')
        st1 = outs[0][0]
        inv = t.xor_(f0, C(w, (1 << w) - 1))
        for name, want in (('flip', t.xor_(v0, f0)), ('clear', t.and_(v0, inv)), ('set', t.or_(v0, f0))):
            for st, _ in f(name, st1.copy(), p, f0):
                memory(chk, st, 'FlagContainer%d:%s' % (w, name))
                chk.prove(st, t.eq(raw(st, p), want), 'FlagContainer%d:%s' % (w, name), FL, '%s() does not change exactly the flags given' % name)
        for on in (0, 1):
            for st, _ in f('setx', st1.copy(), p, f0, C(1, on)):
                chk.prove(st, t.eq(raw(st, p), t.or_(v0, f0) if on else t.and_(v0, inv)), 'FlagContainer%d:set-to-%d' % (w, on), FL, 'set(flag, %d) does not change exactly the flags given' % on)
        for name, want in (('all', t.eq(t.and_(v0, f0), f0)), ('value', t.ne(t.and_(v0, f0), C(w, 0)))):
            for st, v in f(name, st1.copy(), p, f0):
                chk.prove(st, t.eq(v, want), 'FlagContainer%d:%s' % (w, name), FL, '%s() gives the wrong answer' % name)
                chk.prove(st, t.eq(raw(st, p), v0), 'FlagContainer%d:%s' % (w, name), FL, '%s() changes the flags' % name)


class Seq:
    def __init__(self, chk, key, pos, deps, state=True, fixed=None):
        """pos: the bit of each step's flag; deps: the bits each depends on"""
        self.chk, self.key, self.pos, self.deps = chk, key, pos, deps
        self.I = I = binterp(chk)
        self.calls = 0
        for which in ('dispatch', 'ask'):
            I.cfg.models['c3pv_seq_' + which] = self.model(which)
        self.w = w = BW(chk, I)
        st = w.st
        w.st, n = self.one(st, 'stepsize')
        sz = cv(n)
        arr = I.new_region(w.st, 'lazy', 'steps', size=i(sz * len(pos)))
        self.labels = []
        for k, b in enumerate(pos):
            l = I.new_region(w.st, 'lazy', 'label', size=i(2))
            I.store(w.st, P(l), C(8, 65 + k), 'i8')
            I.store(w.st, P(l, i(1)), C(8, 0), 'i8')
            m = 0
            for d in deps[k]:
                m |= 1 << d
            w.st, _ = self.one(w.st, 'step', P(arr), i(k), i(1 << b), P(l), i(m))
        self.arr, self.sz = arr, sz
        self.p = w.obj('seq', 'seq_init', P(arr), i(len(pos)), size=64)
        special = sorted(set(pos) | {x for d in deps for x in d})
        self.bits, self.words = [], []
        if state:
            for name in WORDS:
                self.bits.append(bs := [C(1, fixed[name, b]) if fixed and (name, b) in fixed else t.S(1, '%s.%d' % (name, b)) for b in range(32)])
                self.words.append(t.concat(bs))
            w.st, _ = self.one(w.st, 'set', self.p, *self.words)
        self.special = special

    def model(self, which):
        def f(I, st, a, o, fn):
            k = st.norm(a[0])
            if not isc(k):
                raise Unsupported('step: open index')
            n = len([e for e in st.events() if e[0] == 'step'])
            r = t.S(32, '%s%d.%d' % (which, cv(k), n))
            st.emit(('step', which, cv(k), r, I.where(o, fn)))
            return [(st, r)]
        return f

    def call(self, st, name, *a):
        return self.chk.run(self.I, self.chk.M.funcs['c3pv_seq_' + name], st, list(a))

    def one(self, st, name, *a):
        l = self.call(st, name, *a)
        if len(l) != 1:
            raise Unsupported('%s splits' % name)
        return l[0]

    def get(self, st):
        """the five status words"""
        rs = [self.I.new_region(st, 'lazy', 'word', size=i(4)) for _ in WORDS]
        st, _ = self.one(st, 'get', self.p, *[P(r) for r in rs])
        return st, [st.norm(self.I.load(st, P(r), 'i32')) for r in rs]


def bit(v, b):
    return t.extract(v, b, 1)


def poll(chk, key, pos, deps, fixed):
    """partitioned by what each step is doing on entry"""
    s = Seq(chk, key, pos, deps, fixed=fixed)
    q, a, g, c, p = s.bits
    chk.count('poll() partitions')
    for st, ret in s.call(s.w.st.copy(), 'poll', s.p):
        memory(chk, st, key)
        st, now = s.get(st)
        ev = [e for e in st.events() if e[0] == 'step']
        exp = [list(x) for x in s.bits]
        calls = {'dispatch': [[] for _ in pos], 'ask': [[] for _ in pos]}
        for e in ev:
            calls[e[1]][e[2]].append(st.norm(e[3]))
        def nrm(x):
            return st.norm(x)
        def is_(r, v):
            x = t.eq(r, i(v))
            d = st.decide(x)
            return x if d is None else C(1, int(d))
        for k, b in enumerate(pos):
            name = 'step %d' % k
            ready = C(1, 1)
            for d in deps[k]:
                ready = t.and_(ready, p[d])
            exp[1][b] = t.or_(a[b], t.and_(q[b], ready))
            disp = t.and_(a[b], t.and_(t.not_(c[b]), t.not_(g[b])))
            dc = calls['dispatch'][k]
            if len(dc) > 1:
                chk.refuse(st, '%s:%s dispatched twice' % (key, name), SRC, 'a step is dispatched twice in one poll')
                return
            chk.prove(st, t.eq(disp, C(1, len(dc))), '%s:%s dispatch' % (key, name), SRC, 'a step is %sdispatched though its state says otherwise (runnable, incomplete and not running)' % ('' if dc else 'not '))
            d1 = is_(dc[0], 1) if dc else C(1, 0)
            df = t.and_(t.not_(d1), t.not_(is_(dc[0], 0))) if dc else C(1, 0)
            g1 = nrm(t.and_(t.or_(g[b], d1), t.not_(df)))
            c1 = nrm(t.or_(t.and_(c[b], t.not_(d1)), df))
            p1 = nrm(t.and_(p[b], t.not_(t.or_(d1, df))))
            pc = calls['ask'][k]
            if len(pc) > 1:
                chk.refuse(st, '%s:%s polled twice' % (key, name), SRC, 'a step is polled twice in one poll')
                return
            chk.prove(st, t.eq(g1, C(1, len(pc))), '%s:%s poll' % (key, name), SRC, 'a step is %spolled though it is%s running' % (('', ' not') if pc else ('not ', '')))
            s1 = is_(pc[0], 1) if pc else C(1, 0)
            sf = t.and_(t.not_(s1), t.not_(is_(pc[0], 0))) if pc else C(1, 0)
            over = t.or_(s1, sf)
            exp[2][b] = nrm(t.and_(g1, t.not_(over)))
            exp[3][b] = nrm(t.or_(c1, over))
            exp[4][b] = nrm(t.and_(t.or_(p1, s1), t.not_(sf)))
        total = C(8, 0)
        for n, name in enumerate(WORDS):
            for b in range(32):
                if bit(now[n], b) is exp[n][b]:
                    chk.ok()
                    continue
                chk.prove(st, t.eq(bit(now[n], b), exp[n][b]), '%s:%s bit %d' % (key, name, b) if b in s.special else '%s:%s other bits' % (key, name), SRC,
                          'the %s word is wrong after poll()' % name)
        for b in range(32):
            for x, y in ((g[b], exp[2][b]), (c[b], exp[3][b]), (t.and_(a[b], t.and_(t.not_(c[b]), t.not_(g[b]))), t.and_(exp[1][b], t.and_(t.not_(exp[3][b]), t.not_(exp[2][b]))))):
                total = t.add(total, t.zext(nrm(t.xor_(x, y)), 8))
        chk.prove(st, t.eq(ret, st.norm(total)), '%s:changes' % key, SRC, 'poll() does not return the number of changes')


def closure(deps, pos, want):
    got = set()
    todo = [k for k in want]
    while todo:
        k = todo.pop()
        if k in got:
            continue
        got.add(k)
        todo += [j for j in range(len(pos)) if pos[j] in deps[k]]
    return got


def request(chk, key, pos, deps):
    s = Seq(chk, key, pos, deps)
    s.I.cfg.max_rec = 12
    mb = [t.S(1, 'mask.%d' % b) for b in range(32)]
    chk.count('dependency matrices')
    for st, _ in s.call(s.w.st.copy(), 'request', s.p, t.concat(mb)):
        memory(chk, st, key)
        st, now = s.get(st)
        for b in range(32):
            if b in pos:
                k = pos.index(b)
                need = C(1, 0)
                for j in range(len(pos)):
                    if k in closure(deps, pos, [j]):
                        need = t.or_(need, mb[pos[j]])
                want = t.or_(s.bits[0][b], need)
            else:
                want = s.bits[0][b]
            if bit(now[0], b) is want:
                chk.ok()
                continue
            chk.prove(st, t.eq(bit(now[0], b), want), '%s:requested bit %d' % (key, b) if b in s.special else key + ':requested other bits', SRC,
                      'requesting steps does not request exactly them and what they depend on')
        for n in (1, 2, 3, 4):
            chk.prove(st, t.eq(now[n], s.words[n]), '%s:%s' % (key, WORDS[n]), SRC, 'requestSteps() changes the %s word' % WORDS[n])


def simple(chk, free):
    """free: the bits of the status words that are arbitrary, the others are clear"""
    pos, deps = (3, 31), ((), (3,))
    s = Seq(chk, 'simple', pos, deps, fixed={(n, b): 0 for n in WORDS for b in range(32) if b not in free})
    q, a, g, c, p = s.words
    m = t.S(32, 'mask') if len(free) > 4 else t.concat([t.S(1, 'mask.%d' % b) if b in free else C(1, 0) for b in range(32)])
    inv = t.xor_(m, i(-1))
    all_ = lambda m, x: t.eq(t.and_(m, x), m)   # noqa
    chk.count('sequencer queries', 14)
    for name, args, want in (('running', [], t.ne(g, i(0))), ('fulfilled', [], all_(q, t.and_(p, c))), ('completed', [], all_(q, c)), ('allrun', [], all_(a, c)), ('allrunm', [m], all_(m, c)),
                             ('allpass', [], all_(a, p)), ('allpassm', [m], all_(m, p)), ('stillm', [m], all_(m, g)), ('dispm', [m], all_(m, q)),
                             ('failed', [C(1, 1)], t.and_(a, t.xor_(p, i(-1)))), ('failed', [C(1, 0)], t.and_(c, t.xor_(p, i(-1)))), ('count', [], i(2))):
        for st, v in s.call(s.w.st.copy(), name, s.p, *args):
            memory(chk, st, name)
            chk.prove(st, t.eq(v, want), 'query %s' % name, chk.subject('c3pv_seq_' + name), 'the answer does not follow from the status words')
            st, now = s.get(st)
            for n in range(5):
                chk.prove(st, t.eq(now[n], s.words[n]), 'query %s changes' % name, SRC, 'a query changes the %s word' % WORDS[n])
    for name, args, want in (('reset', [], [i(0)] * 5), ('resets', [m], [t.and_(x, inv) for x in s.words])):
        for st, _ in s.call(s.w.st.copy(), name, s.p, *args):
            memory(chk, st, name)
            st, now = s.get(st)
            for n in range(5):
                chk.prove(st, t.eq(now[n], want[n]), '%s:%s' % (name, WORDS[n]), SRC, 'the %s word is wrong after %s' % (WORDS[n], name))
    idx = t.S(8, 'index')
    for st, v in s.call(s.w.st.copy(), 'getstep', s.p, idx):
        memory(chk, st, 'getStep')
        v = s.I.res(st, v)
        if v.r is None:
            chk.prove(st, t.not_(t.ult(idx, C(8, 2))), 'getStep:null', SRC, 'a step of the list is not given')
        else:
            chk.prove(st, t.ult(idx, C(8, 2)), 'getStep:beyond', SRC, 'a step beyond the list is given')
            chk.expect(v.r is s.arr, 'getStep:list', SRC, 'the step is not in the list', st)
            chk.prove(st, t.eq(v.o, t.mulc(t.zext(idx, 32), s.sz)), 'getStep:which', SRC, 'the wrong step is given')
    for given in (0, 1):
        w = s.w
        w.st = s.w.st.copy()
        sb = w.given((), []) if given else NULL
        st, v = s.one(w.st, 'list', s.p, sb)
        memory(chk, st, 'stepList')
        chk.prove(st, t.eq(v, i(2)), 'stepList:count', SRC, 'stepList() does not return the number of steps')
        if given:
            content(chk, s.I, st, sb, [C(8, 65), C(8, 66)], 'stepList:labels', 'the list of labels', where=SRC)
    # a sequencer starts with nothing set
    s = Seq(chk, 'fresh', pos, deps, state=False)
    st, now = s.get(s.w.st)
    for n in range(5):
        chk.prove(st, t.eq(now[n], i(0)), 'fresh:%s' % WORDS[n], SRC, 'a sequencer does not start cleared')
    s.one(s.w.st, 'get', s.p, NULL, NULL, NULL, NULL, NULL)
    for e in s.w.st.events():
        if e[0] == 'null-deref':
            chk.refuse(s.w.st, 'getState:null', e[4], 'a null result pointer is written')
    chk.ok('getState accepts null')


def combos(pos):
    for combo in itertools.product((0, 1), repeat=3 * len(pos)):
        yield {(n, b): combo[3 * k + j] for k, b in enumerate(pos) for j, n in enumerate(('runnable', 'running', 'complete'))}


def jobs(chk):
    yield 'flags', (flags,)
    for free in ((3,), (31,), (3, 31), range(32)):
        yield 'queries', (simple, free)
    X = 9
    for pos in ((0, 1), (31, 4)):
        A, B = pos
        for deps in (((), (A,)), ((X, B), (A,)))[:1 if A else 2]:
            for fx in combos(pos):
                yield 'poll steps %s depending on %s' % (pos, deps), (poll, pos, deps, fx)
    for fx in combos((17,)):
        yield 'poll one step', (poll, (17,), ((),), fx)
    if chk.tier == 'thorough':
        for pos in ((2, 0, 31),):
            A, B, D = pos
            for deps in (((), (A,), (A, B)), ((D,), (), (B,)), ((), (), ())):
                for fx in combos(pos):
                    yield 'poll steps %s depending on %s' % (pos, deps), (poll, pos, deps, fx)
    for n, pos in ((1, (5,)), (2, (31, 0)), (3, (4, 0, 7))):
        alld = [list(itertools.chain.from_iterable(itertools.combinations(pos, r) for r in range(n + 1)))] * n
        for deps in itertools.product(*alld):
            yield 'request steps %s depending on %s' % (pos, deps), (request, pos, deps)
    for deps in (((9,), ()), ((0, 9), (9,))):
        yield 'request steps depending on unknown %s' % (deps,), (request, (31, 0), deps)
    for deps in (((2,), (4,), (6,), ()), ((), (0,), (2,), (4,)), ((2, 4), (6,), (6,), ()), ((6,), (0,), (2,), (4,)), ((), (0,), (0,), (2, 4))):
        yield 'request steps depending on %s' % (deps,), (request, (0, 2, 4, 6), deps)


def run(chk):
    def work(k):
        for j, (key, a) in enumerate(jobs(chk)):
            if j % 8 == k:
                if a[0] in (poll, request):
                    chk.group(key, a[0], chk, key, *a[1:])
                else:
                    chk.group(key, a[0], chk, *a[1:])
                if len(chk.violations) > 6:
                    break
    chk.fork(8, work)
