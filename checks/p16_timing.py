"""The clock is modelled as an arbitrary 32-bit reading, with further readings within one call an arbitrary small
amount later.  delta_assume_wrap, the since/until functions, both timeouts and the stopwatch are interpreted on
arbitrary clock readings, marks, periods and accumulated statistics, and compared with the modular definition.
remaining() must lie between what is left at the first and at the last clock reading it takes."""
from balib import *

LEVEL = 'other'
ASSUME = ['unsigned long is 32 bits wide, as in the analysed build', 'a measurement does not start while the clock reads exactly zero (the stopwatch uses that value for "not started")',
          'the statistics do not overflow 32 bits']
TT = 'src/TimerTools/TimerTools.h'
SW = 'src/TimerTools/StopWatch.cpp'


def i(n):
    return C(32, n & 0xffffffff)


class Clock:
    """drift: later readings are later by an arbitrary amount below 2^drift (0: the clock stands still)"""
    def __init__(self, chk, drift=0, start=None):
        self.I = binterp(chk)
        self.drift = drift
        self.now = start if start is not None else t.S(32, 'now')
        self.I.cfg.models['_Z6millisv'] = self.model('ms')
        self.I.cfg.models['_Z6microsv'] = self.model('us')

    def model(self, which):
        def f(I, st, a, o, fn):
            st.emit(('clock', which))
            v = self.now
            n = len([e for e in st.events() if e[0] == 'clock'])
            for k in range(1, n):
                if self.drift:
                    v = t.add(v, t.zext(t.S(self.drift, 'later%d' % k), 32))
            st.emit(('reading', v))
            return [(st, v)]
        return f


def call(chk, K, st, name, *a):
    return chk.run(K.I, chk.M.funcs['c3pv_' + name], st, list(a))


def only(chk, K, st, name, *a):
    l = call(chk, K, st, name, *a)
    if len(l) != 1:
        raise Unsupported('%s splits' % name)
    return l[0]


def deltas(chk):
    K = Clock(chk)
    for w in (8, 16, 32, 64):
        a, b = t.S(w, 'now%d' % w), t.S(w, 'then%d' % w)
        chk.count('time functions')
        for st, v in call(chk, K, State(), 'delta%d' % w, a, b):
            chk.prove(st, t.eq(v, t.sub(a, b)), 'delta_assume_wrap<%d>' % w, 'src/CppPotpourri.h', 'the displacement is not the difference modulo 2^%d' % w)
    m = t.S(32, 'mark')
    for u in ('ms', 'us'):
        for n, want in (('since', t.sub(K.now, m)), ('until', t.sub(m, K.now))):
            chk.count('time functions')
            for st, v in call(chk, K, State(), '%s_%s' % (u, n), m):
                chk.prove(st, t.eq(v, want), '%s_%s' % (u, n), chk.subject('c3pv_%s_%s' % (u, n)), 'the result is not the wrapped difference to the clock')
                chk.expect([e[1] for e in st.events() if e[0] == 'clock'] == [u], '%s_%s:clock' % (u, n), chk.subject('c3pv_%s_%s' % (u, n)), 'it does not read the %s clock once' % u, st)


def timeout(chk, pre, u, drift):
    key = {'mst': 'MillisTimeout', 'ust': 'MicrosTimeout'}[pre] + (' with the clock running' if drift else '')
    mark = t.S(32, 'mark')
    per = t.S(32, 'period')
    # a timeout last reset when the clock read `mark`
    K0 = Clock(chk, start=mark)
    st = State()
    p = P(K0.I.new_region(st, 'lazy', 'timeout', size=i(64)))
    st, _ = only(chk, K0, st, pre + '_init', p, t.S(32, 'period at construction'))
    st, v = only(chk, K0, st, pre + '_period', p)
    chk.prove(st, t.eq(v, t.S(32, 'period at construction')), key + ':construction', TT, 'the period is not the one given')
    for setper in (0, 1):
        if setper:
            s0, _ = only(chk, K0, st.copy(), pre + '_resetp', p, per)
        else:
            s0, _ = only(chk, K0, st.copy(), pre + '_setp', p, per)
            s0, _ = only(chk, K0, s0, pre + '_reset', p)
        n0 = len([e for e in s0.events() if e[0] == 'clock'])
        s0.log = None
        # ages below 2^31 when the clock runs, so that it cannot wrap within the call
        K = Clock(chk, drift)
        chk.count('timeout states')
        age = t.S(31, 'age') if drift else t.S(32, 'age')
        K.now = t.add(mark, t.zext(age, 32) if drift else age)
        for s1, v in call(chk, K, s0.copy(), pre + '_period', p):
            chk.prove(s1, t.eq(v, per), key + ':period', TT, 'period() is not the period set')
        for s1, v in call(chk, K, s0.copy(), pre + '_enabled', p):
            chk.prove(s1, t.eq(v, t.ne(per, i(0))), key + ':enabled', TT, 'enabled() is wrong')
        for what in ('expired', 'remaining'):
            for s1, v in call(chk, K, s0.copy(), pre + '_' + what, p):
                memory(chk, s1, key)
                rd = [t.sub(e[1], mark) for e in s1.events() if e[0] == 'reading']
                chk.expect(all(e[1] == u for e in s1.events() if e[0] == 'clock'), key + ':clock', TT, 'the wrong clock is read', s1)
                first, last = (rd[0], rd[-1]) if rd else (t.sub(K.now, mark),) * 2
                if what == 'expired':
                    for x, k2, msg in ((t.ule(per, first), 'expired', 'a timeout whose period has passed has not expired'), (t.not_(t.ule(per, last)), 'pending', 'a timeout has expired before its period')):
                        for s2 in s1.copy().assume(x, True):
                            if not s2.dead() and not s2.empty():
                                chk.prove(s2, t.eq(v, C(1, int(k2 == 'expired'))), '%s:%s' % (key, k2), TT, msg)
                else:
                    for s2 in s1.copy().assume(t.ule(per, first), True):
                        if not s2.dead() and not s2.empty():
                            chk.prove(s2, t.eq(v, i(0)), key + ':nothing remains', TT, 'time remains although the period has passed')
                    for s2 in s1.copy().assume(t.ult(first, per), True):
                        if not s2.dead() and not s2.empty():
                            chk.prove(s2, t.ule(v, t.sub(per, first)), key + ':remaining at most', TT, 'remaining() exceeds what was left at the first reading')
                            for s3 in s2.assume(t.ult(last, per), True):
                                if not s3.dead() and not s3.empty():
                                    chk.prove(s3, t.ule(t.sub(per, last), v), key + ':remaining at least', TT, 'remaining() is less than what is left')
    if drift:
        return
    # trigger() expires it at once
    K = Clock(chk)
    for s0, _ in call(chk, K, st.copy(), pre + '_setp', p, per):
        for s1, _ in call(chk, K, s0, pre + '_trigger', p):
            for s2, v in call(chk, K, s1, pre + '_expired', p):
                chk.prove(s2, t.eq(v, C(1, 1)), key + ':trigger', TT, 'a triggered timeout has not expired')


GET = ('tag', 'best', 'last', 'worst', 'mean', 'total', 'execs')


def stats(chk, K, st, p):
    out = {}
    for g in GET:
        st, out[g] = only(chk, K, st, 'sw_' + g, p)
    return st, out


def ways(st, *cond):
    """partition st by the conditions"""
    l = [st]
    for c in cond:
        l = [x for s in l for v in (True, False) for x in s.copy().assume(c, v) if not x.dead() and not x.empty()]
    return l


def stopwatch(chk):
    K = Clock(chk)
    M = chk.M
    st = State()
    tag = t.S(32, 'tag')
    p = P(K.I.new_region(st, 'lazy', 'stopwatch', size=i(64)))
    st, _ = only(chk, K, st, 'sw_init', p, tag)
    chk.count('stopwatch states')
    used = [s2 for s1, _ in call(chk, K, st.copy(), 'sw_add', p, t.S(32, 'x'), t.S(32, 'y')) for s2, _ in call(chk, K, s1, 'sw_reset', p)]
    for key, s in [('construction', st)] + [('reset', x) for x in used]:
        s, g = stats(chk, K, s, p)
        for n in GET:
            chk.prove(s, t.eq(g[n], tag if n == 'tag' else i(0xffffffff) if n == 'best' else i(0)), 'StopWatch:%s:%s' % (key, n), SW, '%s is not the neutral value after %s' % (n, key))
        for s1, v in call(chk, K, s, 'sw_stop', p):
            s1, g = stats(chk, K, s1, p)
            if key == 'construction':
                chk.prove(s1, t.eq(v, C(1, 0)), 'StopWatch:%s:stop' % key, SW, 'a measurement that never started is recorded')
                chk.prove(s1, t.eq(g['execs'], i(0)), 'StopWatch:%s:stop' % key, SW, 'a measurement that never started is counted')
    # one measurement added to arbitrary statistics
    for how in ('add', 'mark'):
        K = Clock(chk)
        s = st.copy()
        old = {}
        for n, f in (('last', '_run_time_last'), ('best', '_run_time_best'), ('worst', '_run_time_worst'), ('mean', '_run_time_average'), ('total', '_run_time_total'), ('execs', '_executions')):
            old[n] = t.S(32, 'old ' + n, 0, 0xffffffff if n in ('best', 'last', 'worst', 'mean') else 0x7fffffff)
            K.I.store(s, P(p.r, i(M.off('StopWatch', f))), old[n], 'i32')
        a = t.S(32, 'start', 1, 0xffffffff)
        b = t.S(32, 'stop')
        chk.count('stopwatch states')
        if how == 'add':
            outs = [(s1, v) for s1, v in call(chk, K, s, 'sw_add', p, a, b)]
        else:
            K.now = a
            s, _ = only(chk, K, s, 'sw_start', p)
            K.now = b
            K.I.cfg.models['_Z6microsv'] = lambda I, st, args, o, fn: [(st, b)]
            outs = call(chk, K, s, 'sw_stop', p)
        took = t.sub(b, a)
        for s1, v in outs:
            memory(chk, s1, 'StopWatch')
            chk.prove(s1, t.eq(v, C(1, 1)), 'StopWatch:%s:return' % how, SW, 'a measurement is not reported as recorded')
            s1, g = stats(chk, K, s1, p)
            chk.prove(s1, t.eq(g['last'], took), 'StopWatch:%s:last' % how, SW, 'the last time is not the time taken')
            chk.prove(s1, t.eq(g['total'], t.add(old['total'], took)), 'StopWatch:%s:total' % how, SW, 'the total does not grow by the time taken')
            chk.prove(s1, t.eq(g['execs'], t.addc(old['execs'], 1)), 'StopWatch:%s:executions' % how, SW, 'the executions are miscounted')
            chk.prove(s1, t.eq(g['tag'], tag), 'StopWatch:%s:tag' % how, SW, 'the tag changes')
            mean = t.udiv(t.add(old['total'], took), t.addc(old['execs'], 1))
            chk.prove(s1, t.eq(g['mean'], mean), 'StopWatch:%s:mean' % how, SW, 'the mean is not total over executions')
            for n, better in (('best', t.ult(took, old['best'])), ('worst', t.ult(old['worst'], took))):
                for s2 in ways(s1, better):
                    w = took if s2.decide(better) is True else old[n]
                    chk.prove(s2, t.eq(g[n], w), 'StopWatch:%s:%s' % (how, n), SW, 'the %s time is wrong' % n)
            # the watch is stopped: a second stop records nothing
            if how == 'mark':
                for s2, v in call(chk, K, s1, 'sw_stop', p):
                    chk.prove(s2, t.eq(v, C(1, 0)), 'StopWatch:second stop', SW, 'one measurement is recorded twice')


def jobs():
    yield 'deltas', (deltas,)
    yield 'stopwatch', (stopwatch,)
    for pre, u in (('mst', 'ms'), ('ust', 'us')):
        for drift in (0, 20):
            yield '%s drift %d' % (pre, drift), (timeout, pre, u, drift)


def run(chk):
    for key, a in jobs():
        chk.group(key, a[0], chk, *a[1:])
