"""execute(), delay() and willRunAgain() are interpreted on a schedule in an arbitrary state (period, recurrence, due
time, enabled) with the clock reading arbitrary and the body returning an arbitrary integer or changing the schedule
itself, and compared with the rules in the documentation.  The scheduler is interpreted over histories of add, advance
and service with up to three schedules, each due or not at an arbitrary time: what runs, how often, and in what state
it is left."""
import itertools
from balib import *
from p16_timing import Clock, i

LEVEL = 'other'
ASSUME = ['a microsecond clock of 32 bits; it stands still within one call', 'up to three schedules']
SRC = 'src/TimerTools/C3PScheduler.cpp'


class Sch:
    def __init__(self, chk, key):
        self.chk, self.key = chk, key
        self.K = Clock(chk)
        self.I = self.K.I
        self.I.cfg.program_start = True
        self.I.cfg.malloc_fails = False
        self.I.cfg.models['c3pv_sched_run'] = self.body
        # what the profiler makes of a measurement is P16
        self.I.cfg.models['StopWatch::addRuntime'] = lambda I, st, a, o, fn: [(st, C(1, 1))]
        self.st = State()
        self.does = {}

    def body(self, I, st, a, o, fn):
        r = I.res(st, a[0]).r
        v = self.does.get(r, t.S(32, 'result of %s' % r.name))
        st.emit(('run', r, v, I.where(o, fn)))
        return [(st, v)]

    def call(self, st, name, *a):
        self.I.steps = 0
        return self.chk.run(self.I, self.chk.M.funcs['c3pv_' + name], st, list(a))

    def one(self, st, name, *a):
        l = self.call(st, name, *a)
        if len(l) != 1:
            raise Unsupported('%s splits' % name)
        return l[0]

    def new(self, name, per, rec, en, init='sch_init', extra=()):
        self.st, n = self.one(self.st, 'sch_size')
        r = self.I.new_region(self.st, 'lazy', name, size=n if init == 'sch_init' else i(cv(n) + 32))
        self.st, _ = self.one(self.st, init, P(r), per, rec, en, *extra)
        return P(r)

    def set(self, st, p, field, v, ty='i32'):
        self.I.store(st, P(p.r, i(self.chk.M.off('C3PSchedule', field))), v, ty)

    def view(self, st, p):
        out = {}
        for g in ('enabled', 'executing', 'recurrence', 'period', 'last', 'next', 'runs'):
            st, v = self.one(st, 'sch_' + g, p)
            out[g] = st.norm(v)
        return st, out


def parts(st, *conds):
    l = [st]
    for c in conds:
        l = [x for s in l for v in (True, False) for x in s.copy().assume(c, v) if not x.dead() and not x.empty()]
    return l


def arbitrary(chk, key, en, **kw):
    """a schedule in an arbitrary state"""
    w = Sch(chk, key)
    per, rec, due = t.S(32, 'period'), t.S(32, 'recurrence'), t.S(32, 'due')
    p = w.new('schedule', per, rec, C(1, en), **kw)
    w.set(w.st, p, '_exec_at', due)
    w.set(w.st, p, '_last_exec', t.S(32, 'last'))
    return w, p, per, rec, due


def execute(chk, key, en, action):
    w, p, per, rec, due = arbitrary(chk, key, en)
    # the action the body takes, in the upper bits
    if action is not None:
        w.does[p.r] = i(action)
    now = w.K.now
    chk.count('execute() cases')
    for st, ret in w.call(w.st.copy(), 'sch_execute', p):
        memory(chk, st, key)
        runs = [e for e in st.events() if e[0] == 'run']
        chk.expect(len(runs) == 1, key + ':once', SRC, 'execute() does not run the body exactly once', st)
        st, g = w.view(st, p)
        if action is not None:
            chk.prove(st, t.eq(ret, C(8, action & 0xff)), key + ':return', SRC, 'execute() does not return what the body returned')
        else:
            chk.prove(st, t.eq(ret, t.trunc(t.S(32, 'result of schedule'), 8)), key + ':return', SRC, 'execute() does not return what the body returned')
            # the body's own changes are exercised with chosen actions
            st = [x for x in st.assume(t.eq(t.extract(t.S(32, 'result of schedule'), 8, 5), C(5, 0)), True) if not x.dead() and not x.empty()]
            if not st:
                continue
            st = st[0]
        a = action or 0
        on = C(1, 1 if a & 0x200 else 0 if a & 0x100 else en)
        r0 = i(2) if a & 0x400 else rec
        per1 = i(77) if a & 0x1000 else per
        for s in parts(st, t.slt(i(0), r0), t.eq(r0, i(0)), t.eq(r0, i(1)), t.eq(r0, i(-1))):
            r1 = r0
            on1 = on
            if cv(on):
                if s.decide(t.slt(i(0), r0)) is True:
                    r1 = t.addc(r0, -1)
                z = s.decide(t.eq(r1, i(0)))
                if z is None:
                    chk.undec(key, 'recurrence open')
                    continue
                if z:
                    on1 = C(1, 0)
                chk.prove(s, t.eq(g['last'], now), key + ':last', SRC, 'the time of the last execution is not recorded')
            else:
                chk.prove(s, t.eq(g['last'], t.S(32, 'last')), key + ':last', SRC, 'a disabled schedule records an execution time')
            chk.prove(s, t.eq(g['recurrence'], r1), key + ':recurrence', SRC, 'the remaining recurrences are wrong after an execution')
            chk.prove(s, t.eq(g['enabled'], on1), key + ':enabled', SRC, 'the schedule is left in the wrong state of enablement')
            chk.prove(s, t.eq(g['period'], per1), key + ':period', SRC, 'an execution changes the period')
            chk.prove(s, t.eq(g['executing'], C(1, 0)), key + ':executing', SRC, 'the schedule is still marked executing')
            again = cv(on1) and (s.decide(t.slt(i(0), r1)), s.decide(t.eq(r1, i(-1))))
            if again and True not in again and None in again:
                chk.undec(key, 'recurrence open')
                continue
            if again and True in again:
                chk.prove(s, t.eq(g['next'], t.add(now, per1)), key + ':next', SRC, 'the next execution is not one period after this one')
            else:
                chk.prove(s, t.eq(g['next'], i(0)), key + ':next', SRC, 'a schedule that will not run again has a next execution')


def others(chk, key, en):
    w, p, per, rec, due = arbitrary(chk, key, en)
    now = w.K.now
    for s, v in w.call(w.st.copy(), 'sch_again', p):
        for s1 in parts(s, t.slt(i(0), rec), t.eq(rec, i(-1))):
            want = en and (s1.decide(t.slt(i(0), rec)) is True or s1.decide(t.eq(rec, i(-1))) is True)
            chk.prove(s1, t.eq(v, C(1, int(bool(want)))), key + ':willRunAgain', SRC, 'willRunAgain() does not follow from enablement and recurrences')
    for s, v in w.call(w.st.copy(), 'sch_valid', p):
        chk.prove(s, t.eq(v, t.ne(per, i(0))), key + ':valid', SRC, 'a schedule is not valid exactly when its period is not zero')
    n = t.S(32, 'delay')
    for busy in (0, 1):
        s0 = w.st.copy()
        w.set(s0, p, '_executing', C(8, busy), 'i8')
        for what, args, want in (('sch_delay', [], t.add(now, per)), ('sch_delayby', [n], t.add(due if en else now, n))):
            chk.count('delay() cases')
            for s, _ in w.call(s0.copy(), what, p, *args):
                memory(chk, s, key)
                s, g = w.view(s, p)
                k2 = '%s:%s%s' % (key, what, ' while executing' if busy else '')
                if busy:
                    chk.prove(s, t.eq(g['next'], due), k2, SRC, 'a delay takes effect during an execution')
                    chk.prove(s, t.eq(g['enabled'], C(1, en)), k2, SRC, 'a delay enables a schedule during an execution')
                else:
                    chk.prove(s, t.eq(g['next'], want), k2, SRC, 'the schedule is delayed to the wrong time')
                    chk.prove(s, t.eq(g['enabled'], C(1, 1)), k2, SRC, 'a delayed schedule is not enabled')
                chk.prove(s, t.eq(g['recurrence'], rec), k2, SRC, 'a delay changes the recurrences')
                chk.prove(s, t.eq(g['period'], per), k2, SRC, 'a delay changes the period')


def kinds(chk):
    """the schedules for objects and lambdas run what they were given"""
    for kind in ('spol', 'slam'):
        w = Sch(chk, kind)
        r = w.I.new_region(w.st, 'lazy', 'object', size=i(16))
        w.st, _ = w.one(w.st, 'pol_init', P(r))
        p = w.new('schedule', t.S(32, 'period'), i(-1), C(1, 1), init=kind + '_init', extra=(P(r),))
        for s, v in w.call(w.st.copy(), 'sch_execute', p):
            memory(chk, s, kind)
            runs = [e for e in s.events() if e[0] == 'run']
            chk.expect(len(runs) == 1 and runs[0][1] is r, kind + ':once', SRC, 'the schedule does not run its object exactly once', s)
    w = Sch(chk, 'nothing to poll')
    p = w.new('schedule', t.S(32, 'period'), i(-1), C(1, 1), init='spol_init', extra=(NULL,))
    for s, v in w.call(w.st, 'sch_execute', p):
        memory(chk, s, 'nothing to poll')
        chk.ok('nothing to poll')


# addresses that differ in one byte only, low or high
ADDR = {0: lambda k: 0x20000000 + 0x60 * k, 1: lambda k: 0x20000040 + (k << 24), 2: lambda k: 0x20000040 + (k << 8 if k % 2 else k << 16)}


def begin(chk, key, N, ens, where=0):
    w = Sch(chk, key)
    st, q = w.one(w.st, 'scheduler')
    st, q2 = w.one(st, 'scheduler')
    q = w.I.res(st, q)
    chk.expect(w.I.res(st, q2).r is q.r, key + ':singleton', SRC, 'getInstance() gives different schedulers', st)
    w.st = st
    ps = [w.new('s%d' % k, t.S(32, 'period%d' % k), t.S(32, 'recurrence%d' % k), C(1, ens[k])) for k in range(N)]
    for k, p in enumerate(ps):
        w.I.cfg.addresses[p.r] = ADDR[where](k)
        w.set(w.st, p, '_exec_at', t.S(32, 'due%d' % k))
    return w, q, ps


def adding(chk, N, ens, where):
    key = 'adding %s' % (ens,)
    w, q, ps = begin(chk, key, N, ens, where)
    now = w.K.now
    st = w.st
    chk.count('scheduler histories')
    for k, p in enumerate(ps):
        st, v = w.one(st, 'scr_has', q, p)
        chk.prove(st, t.eq(v, C(1, 0)), key + ':contains', SRC, 'a schedule is contained before it was added')
        st, v = w.one(st, 'scr_add', q, p)
        memory(chk, st, key)
        chk.prove(st, t.eq(v, C(8, 0)), key + ':add', SRC, 'adding a schedule fails')
        st, v = w.one(st, 'scr_has', q, p)
        chk.prove(st, t.eq(v, C(1, 1)), key + ':contains', SRC, 'a schedule is not contained after it was added')
        st, v = w.one(st, 'scr_count', q)
        chk.prove(st, t.eq(v, i(k + 1)), key + ':count', SRC, 'the number of schedules is wrong')
        st, g = w.view(st, p)
        chk.prove(st, t.eq(g['enabled'], C(1, ens[k])), key + ':enabled', SRC, 'adding a schedule changes whether it is enabled')
        chk.prove(st, t.eq(g['next'], t.add(now, t.S(32, 'period%d' % k)) if ens[k] else t.S(32, 'due%d' % k)), key + ':next', SRC, 'an enabled schedule is not first due one period after it was added')
    for k, p in enumerate(ps):
        s, v = w.one(st.copy(), 'scr_add', q, p)
        chk.prove(s, t.ne(v, C(8, 0)), key + ':twice', SRC, 'a schedule is added twice')
        s, v = w.one(s, 'scr_count', q)
        chk.prove(s, t.eq(v, i(N)), key + ':twice', SRC, 'adding a schedule again changes the count')
        s, v = w.one(st.copy(), 'scr_get', q, i(k))
        chk.expect(w.I.res(s, v).r is p.r, key + ':order', SRC, 'getScheduleByIndex() gives the wrong schedule', s)
    s, v = w.one(st.copy(), 'scr_get', q, i(N))
    chk.expect(w.I.res(s, v).r is None, key + ':beyond', SRC, 'getScheduleByIndex() gives a schedule beyond the last', s)


def full(chk):
    """more schedules than there is room for are refused"""
    w, q, ps = begin(chk, 'full', 10, [0] * 10)
    st = w.st
    n = 0
    for p in ps:
        st, v = w.one(st, 'scr_add', q, p)
        memory(chk, st, 'full')
        v = st.norm(v)
        took = isc(v) and cv(v) == 0
        st, h = w.one(st, 'scr_has', q, p)
        chk.prove(st, t.eq(h, C(1, int(took))), 'full:contains', SRC, 'the answer to adding a schedule disagrees with what the scheduler contains')
        n += took
        st, c = w.one(st, 'scr_count', q)
        chk.prove(st, t.eq(c, i(n)), 'full:count', SRC, 'the count of schedules is wrong')
    chk.count('scheduler histories')
    for k in range(n):
        s, v = w.one(st.copy(), 'scr_get', q, i(k))
        chk.expect(w.I.res(s, v).r is ps[k].r, 'full:order', SRC, 'a refused schedule displaces another', s)


def starved(chk):
    """allocations may fail"""
    w, q, ps = begin(chk, 'out of memory', 1, [1])
    w.I.cfg.malloc_fails = True
    chk.count('scheduler histories')
    for st, v in w.call(w.st, 'scr_add', q, ps[0]):
        memory(chk, st, 'out of memory')
        if [e for e in st.events() if e[0] == 'alloc-fail']:
            for s, h in w.call(st.copy(), 'scr_has', q, ps[0]):
                chk.prove(s, t.eq(h, t.eq(v, C(8, 0))), 'out of memory:answer', SRC, 'the answer to adding a schedule disagrees with what the scheduler contains')
            for s, _ in w.call(st, 'scr_advance', q):
                memory(chk, s, 'out of memory')
                for s2, _ in w.call(s, 'scr_service', q):
                    memory(chk, s2, 'out of memory')


def cycle(chk, N, ens, script):
    """script: a list of 'advance' and 'service'"""
    key = '%s with %s' % (' '.join(script), ens)
    w, q, ps = begin(chk, key, N, ens)
    st = w.st
    chk.count('scheduler histories')
    for k, p in enumerate(ps):
        st, v = w.one(st, 'scr_add', q, p)
        w.set(st, p, '_exec_at', t.S(32, 'due%d' % k))
        w.set(st, p, '_recurrences', i(-1))
        w.does[p.r] = i(0)
    todo = [(st, [], 0)]
    for step, what in enumerate(script):
        w.K.now = now = t.S(32, 'now%d' % step)
        nxt = []
        for s, queue, pings in todo:

            gs = []
            for p in ps:
                s, g = w.view(s, p)
                gs.append(g)
            base = len([e for e in s.events() if e[0] == 'run'])
            for s1, _ in w.call(s, 'scr_' + what, q):
                memory(chk, s1, key)
                runs = [e[1] for e in s1.events() if e[0] == 'run'][base:]
                if what == 'advance':
                    chk.expect(not runs, key + ':advance runs', SRC, 'advanceScheduler() runs a schedule', s1)
                    # which were due; exactly half the range early is neither
                    l = [(s1, list(queue))]
                    for k, p in enumerate(ps):
                        if not ens[k]:
                            continue
                        late = t.sub(now, gs[k]['next'])
                        n2 = []
                        for x, q2 in l:
                            for y in x.copy().assume(t.ult(late, i(0x7fffffff)), True):
                                if not y.dead() and not y.empty():
                                    n2.append((y, q2 + ([p.r] if p.r not in q2 else [])))
                            for y in x.copy().assume(t.ule(i(0x80000000), late), True):
                                if not y.dead() and not y.empty():
                                    n2.append((y, q2))
                        l = n2
                    nxt += [(x, q2, pings + 1) for x, q2 in l]
                else:
                    want = queue if pings else []
                    if [r for r in runs] != want:
                        if sorted(r.name for r in runs) == sorted(r.name for r in want):
                            pass        # the order in which due schedules run is not promised
                        else:
                            chk.refuse(s1, key + ':ran', SRC, 'the service ran %s, due were %s' % ([r.name for r in runs], [r.name for r in want]))
                            continue
                    chk.ok(key + ':ran')
                    nxt.append((s1, [] if pings else queue, pings))
        todo = nxt
    for s, queue, pings in todo:
        s, v = w.one(s, 'scr_count', q)
        chk.prove(s, t.eq(v, i(N)), key + ':count', SRC, 'the number of schedules changes')


def jobs(chk):
    for en in (0, 1):
        for act in (None, 0x100, 0x200, 0x400, 0x800, 0x1000, 0x1400, 0x602, 0x501, 0x5ff):
            yield 'execute %s %s' % ('enabled' if en else 'disabled', '' if act is None else 'with a body that does %x' % act), (execute, en, act)
        yield 'schedule %s' % ('enabled' if en else 'disabled'), (others, en)
    yield 'kinds', (kinds,)
    for n in (1, 2, 3):
        for ens in itertools.product((0, 1), repeat=n):
            for where in ADDR:
                yield 'add', (adding, n, ens, where)
    yield 'full', (full,)
    yield 'out of memory', (starved,)
    A, S = 'advance', 'service'
    for n, ens in ((1, (1,)), (1, (0,)), (2, (1, 1)), (2, (0, 1)), (3, (1, 0, 1))):
        for sc in ((S,), (A, S), (A, S, S), (A, A, S), (A, S, A, S)):
            if n < 3 or len(sc) < 3:
                yield 'cycle', (cycle, n, ens, sc)


def run(chk):
    def work(k):
        for j, (key, a) in enumerate(jobs(chk)):
            if j % 8 == k:
                if a[0] in (execute, others):
                    chk.group(key, a[0], chk, key, *a[1:])
                else:
                    chk.group(key, a[0], chk, *a[1:])
                if len(chk.violations) > 6:
                    break
    chk.fork(8, work)
