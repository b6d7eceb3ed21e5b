"""StateMachine<> is interpreted over every history of three operations (set, append, prepend, advance, reset) on a
machine with a short route, and compared with the plain list of states it stands for."""
import itertools
from balib import *

LEVEL = 'other'
ASSUME = ['histories of three operations on a route of at most four states', 'the state-entry function does not itself change the route', 'allocations succeed']
SRC = 'src/FiniteStateMachine.h'
VALS = [3, 7, 20, 200]
BAD = 9          # not in the list
HIDDEN = 77      # listed as invalid


def i(n):
    return C(32, n & 0xffffffff)


def only(l):
    if len(l) > 1:
        l = [x for x in l if not x[0].dead() and not x[0].empty()]
    if len(l) != 1:
        raise Unsupported('%d outcomes' % len(l))
    return l[0]


class Machine:
    def __init__(self, chk, depth, start=3, clock=None):
        self.chk = chk
        I = self.I = binterp(chk)
        I.cfg.varargs = True
        self.now = clock or i(1000)
        I.cfg.models['_Z6millisv'] = lambda I, st, a, o, fn: [(st, self.now)]
        I.cfg.models['c3pv_fsm_enter'] = self.enter
        self.accept = True
        w = BW(chk, I)
        size = 16
        (st, v) = only(chk.run(I, chk.M.funcs['c3pv_ed_size'], w.st, []))
        size = cv(st.norm(v))
        n = len(VALS) + 1
        defs = P(I.new_region(st, 'lazy', 'defs', size=i(size * n)))
        for k, x in enumerate(VALS + [HIDDEN]):
            st, _ = only(chk.run(I, chk.M.funcs['c3pv_ed_init'], st, [P(defs.r, i(k * size)), C(8, x), NULL, C(8, 2 if x == HIDDEN else 0), C(8, 0)]))
        l = P(I.new_region(st, 'lazy', 'list', size=i(16)))
        st, _ = only(chk.run(I, chk.M.funcs['c3pv_el_init'], st, [l, defs, i(n)]))
        w.st = st
        self.p = w.obj('machine', 'fsm_init', l, C(8, start), i(depth), size=128)
        self.st = w.st

    def enter(self, I, st, a, o, fn):
        st.emit(('enter', st.norm(a[1])))
        return [(st, C(8, 0 if self.accept else 255))]

    def do(self, name, *a):
        self.I.steps = 0
        self.st, v = only(self.chk.run(self.I, self.chk.M.funcs['c3pv_fsm_' + name], self.st, [self.p] + list(a)))
        return v


OPS = [('set', (7,)), ('set', (7, 20)), ('set', (20, 7, 200, 3)), ('set', (7, BAD)), ('set', (HIDDEN,)), ('set', ()), ('app', (200,)), ('app', (7, 20)), ('app', (BAD, 7)), ('app', ()),
       ('aps', 20), ('aps', BAD), ('pre', 200), ('pre', HIDDEN), ('adv', True), ('adv', False), ('rst', 7)]


def apply(m, model, op, arg, depth, key, chk):
    """one operation on the machine and on the list; model = [current, prior, route]"""
    cur, prior, route = model
    m.st.log = None
    entered = []
    if op in ('set', 'app'):
        v = m.do(op, i(len(arg)), *[i(x) for x in (list(arg) + [BAD] * 4)[:4]])
        take = list(arg)[:depth if op == 'set' else depth - len(route)]
        if not take:
            want = -1
        elif any(x not in VALS for x in take):
            want = -2
        else:
            want = 0
            route = take if op == 'set' else route + take
    elif op in ('aps', 'pre'):
        v = m.do(op, C(8, arg))
        want = -1 if arg not in VALS else -2 if len(route) >= depth else 0
        if want == 0:
            route = route + [arg] if op == 'aps' else [arg] + route
    elif op == 'adv':
        m.accept = arg
        v = m.do(op)
        want = 0 if route and arg else -1
        entered = route[:1]
        if want == 0:
            cur, prior, route = route[0], cur, route[1:]
    else:
        m.do(op, C(8, arg))
        v = None
        cur, prior, route = arg, cur, []
    st = m.st
    if v is not None:
        chk.prove(st, t.eq(v, C(8, want & 255)), key + ':return', SRC, 'the return value of %s is wrong' % op)
    memory(chk, st, key)
    ev = [e[1] for e in st.events() if e[0] == 'enter']
    chk.expect(len(ev) == len(entered), key + ':entered', SRC, 'a state is entered by something else than an advance, or not by it', st)
    for a, b in zip(ev, entered):
        chk.prove(st, t.eq(a, C(8, b)), key + ':entered', SRC, 'the wrong state is entered')
    return cur, prior, route


def look(m, model, key, chk):
    cur, prior, route = model
    for what, want in (('cur', C(8, cur)), ('prior', C(8, prior)), ('stable', C(1, 0 if route else 1))):
        v = m.do(what)
        chk.prove(m.st, t.eq(v, want), '%s:%s' % (key, what), SRC, 'the machine disagrees with its history (%s)' % what)
    if route:
        v = m.do('next')
        chk.prove(m.st, t.eq(v, C(8, route[0])), key + ':next', SRC, 'the next state is wrong')
    for x in VALS:
        v = m.do('planned', C(8, x))
        chk.prove(m.st, t.eq(v, C(1, 1 if x in route else 0)), '%s:planned %d' % (key, x), SRC, 'a state is not reported planned exactly when it is')
        v = m.do('isnext', C(8, x))
        chk.prove(m.st, t.eq(v, C(1, 1 if route[:1] == [x] else 0)), '%s:next is %d' % (key, x), SRC, 'a state is not reported next exactly when it is')


def history(chk, depth, ops):
    key = 'depth %d: %s' % (depth, ops)
    m = Machine(chk, depth)
    model = (3, 3, [])
    for n, (op, arg) in enumerate(ops):
        model = apply(m, model, op, arg, depth, '%s, step %d' % (key, n), chk)
    chk.count('histories')
    look(m, model, key, chk)
    # the rest of the route is taken in order
    for n in range(len(model[2]) + 1):
        model = apply(m, model, 'adv', True, depth, '%s, then %d' % (key, n), chk)
    look(m, model, key + ', at the end', chk)
    m.do('end')
    released(chk, m.I, m.st, [], key)


def lockout(chk):
    """an advance locks the machine for the slowdown, or longer if asked"""
    c, s, x, d = (t.S(32, n) for n in ('clock', 'slowdown', 'lockout', 'elapsed'))
    for early in (False, True):
        m = Machine(chk, 2, clock=c)
        m.do('set', i(1), i(7), i(0), i(0), i(0))
        v = m.do('waiting')
        chk.prove(m.st, t.eq(v, C(1, 0)), 'lockout:fresh', SRC, 'a fresh machine waits')
        st = m.st
        if early:
            m.do('lock', x)
        m.do('slow', s)
        st = m.st
        for cond in ([(t.ult(s, x), True)], [(t.eq(s, x), True)], [(t.ult(x, s), True)]) if early else ([],):
            for zero in (True, False):
                l = [st.copy()]
                for q, b in list(cond) + [(t.eq(s, i(0)), zero)]:
                    l = [z for y in l for z in y.assume(q, b) if not z.dead()]
                for s0 in l:
                    if s0.empty():
                        continue
                    m.now = c
                    longest = (x if cond and cond[0][0] is not None and s0.decide(t.ult(s, x)) is True else s) if early else s
                    for s1, v in chk.run(m.I, chk.M.funcs['c3pv_fsm_adv'], s0, [m.p]):
                        m.now = t.add(c, d)
                        for s2, v in chk.run(m.I, chk.M.funcs['c3pv_fsm_waiting'], s1, [m.p]):
                            for q in (True, False):
                                for s3 in s2.copy().assume(t.ult(d, longest), q):
                                    if not s3.dead() and not s3.empty():
                                        chk.count('lockouts')
                                        chk.prove(s3, t.eq(v, C(1, 1 if q else 0)), 'lockout:%s' % ('with lockout' if early else 'slowdown'), SRC, 'the machine does not wait exactly as long as it should after an advance')


def run(chk):
    chk.load()
    n = 3 if chk.tier == 'quick' else 4
    jobs = [('lockout',)]
    jobs += [('history', d, ops) for d in ((2, 3) if n == 3 else (3,)) for ops in itertools.product(OPS, repeat=n) if d == 3 or all(o[0] != 'rst' for o in ops)]

    def work(k):
        for j in jobs[k::8]:
            chk.group(str(j), globals()[j[0]], chk, *j[1:])
            if len(chk.violations) > 6:
                break
    chk.fork(8, work)
