"""ParsingConsole is interpreted on streams of command lines (arguments of arbitrary digits) cut into chunks in many ways:
the handlers called, their arguments, the response and the history are compared with those of the lines of the stream."""
import itertools
from balib import *

LEVEL = 'other'
ASSUME = ['allocations succeed', 'three commands; streams from a list, arguments of arbitrary digits', 'no local echo and no prompt']
SRC = 'src/Console/C3PConsole.cpp'
CMDS = [('run', 'z', 0), ('set', None, 1), ('copy', 'Q', 2)]
TERM = {1: '\r', 2: '\n', 3: '\r\n'}


def i(n):
    return C(32, n & 0xffffffff)


class CW(BW):
    def go(self, name, *args):
        self.I.steps = 0
        l = self.chk.run(self.I, self.chk.M.funcs['c3pv_con_' + name], self.st, list(args))
        if len(l) != 1:
            raise Unsupported('console: %s has %d outcomes' % (name, len(l)))
        self.st, v = l[0]
        return self.st.norm(v) if isinstance(v, T) else v

    def chunk(self, bs):
        """an instance with one fragment of these bytes"""
        return self.given((len(bs),) if bs else (), [b if isinstance(b, T) else C(8, b) for b in bs], 'chunk')


def inner(chk, I, st, name, args):
    l = [x for x in I.call(chk.M.funcs['c3pv_sb_' + name], st, args) if not x[0].dead()]
    if len(l) != 1:
        raise Unsupported('console: %s splits' % name)
    return l[0]


def cstr(I, st, p, o, fn):
    out = []
    p = I.res(st, p)
    while len(out) < 80:
        b = st.norm(I.load(st, P(p.r, t.addc(p.o, len(out))), 'i8', o, fn))
        if isc(b) and cv(b) == 0:
            return tuple(out)
        out.append(b)
    raise Unsupported('console: open text')


def world(chk):
    I = binterp(chk)
    I.cfg.max_rec = 30

    def called(I, st, a, o, fn):
        """a handler: records its arguments and answers with its number"""
        p = I.res(st, a[2])
        st, n = inner(chk, I, st, 'count', [p])
        args = []
        for k in range(cv(st.norm(n))):
            lr = I.new_region(st, 'lazy', 'len', size=i(4))
            st, q = inner(chk, I, st, 'posn', [p, i(k), P(lr)])
            q = I.res(st, q)
            L = cv(st.norm(I.load(st, P(lr), 'i32')))
            args.append(tuple(st.norm(I.load(st, P(q.r, t.addc(q.o, j)), 'i8')) for j in range(L)))
        which = cv(st.norm(a[0]))
        st.emit(('command', which, tuple(args)))
        b = I.new_region(st, 'lazy', 'answer', size=i(2))
        for k, v in enumerate((60, 48 + which)):
            I.store(st, P(b, i(k)), C(8, v), 'i8')
        st, _ = inner(chk, I, st, 'concat', [I.res(st, a[1]), P(b), i(2)])
        return [(st, i(0))]

    def concatf(I, st, a, o, fn):
        f = bytes(cv(b) for b in cstr(I, st, a[1], o, fn))
        if f == b'\t%d:  %s\n':
            st.emit(('past', cv(st.norm(a[2])), cstr(I, st, a[3], o, fn)))
        return [(st, i(0))]
    I.cfg.models['c3pv_con_called'] = called
    I.cfg.models['StringBuilder::concatf'] = concatf
    I.cfg.models['StringBuilder::styleHeader2'] = lambda I, st, a, o, fn: [(st, None)]
    return CW(chk, I)


def strip(l):
    while l and l[0] in (32, 13, 10, 9):
        l = l[1:]
    while l and l[-1] in (32, 13, 10, 9):
        l = l[:-1]
    return l


def oracle(chunks, term, maxlen, histfail, depth):
    """(calls, response, history) for chunks of ints and terms"""
    buf, calls, resp, hist = [], [], [], []
    tm = [ord(c) for c in TERM[term]]
    for ch in chunks:
        if ch[0] == 8:
            buf = buf[:-1]
            continue
        buf = buf + list(ch)
        if len(buf) > maxlen:
            buf = []
            continue
        while True:
            at = next((k for k in range(len(buf) - len(tm) + 1) if buf[k:k + len(tm)] == tm), None)
            if at is None:
                break
            line, buf = strip(buf[:at]), buf[at + len(tm):]
            if not line:
                continue
            toks, cur = [], []
            for b in line + [32]:
                if b == 32:
                    if cur:
                        toks.append(tuple(cur))
                    cur = []
                else:
                    cur.append(b)
            name = ''.join(chr(b) if isinstance(b, int) else '?' for b in toks[0])
            k = next((n for n, c in enumerate(CMDS) if c[0] == name.lower()), None)
            if k is None and len(name) == 1:
                k = next((n for n, c in enumerate(CMDS) if c[1] == name), None)
            ok = k is not None and len(toks) - 1 >= CMDS[k][2]
            if ok:
                calls.append((k, tuple(toks[1:])))
                resp += [10, 60, 48 + k]
            elif k is None:
                resp += [ord(c) for c in "Command '"] + list(toks[0]) + [ord(c) for c in "' not supported.\n"]
            if ok or histfail:
                hist.append(tuple(line))
    return calls, resp, hist[len(hist) - depth:] if depth < len(hist) else hist


def stream(chk, text, cuts, term=2, maxlen=64, histfail=0, depth=8):
    key = 'lines'
    w = world(chk)
    names = []
    for c in CMDS:
        r = w.I.new_region(w.st, 'lazy', 'name', size=i(len(c[0]) + 1))
        for k, v in enumerate(list(c[0].encode()) + [0]):
            w.I.store(w.st, P(r, i(k)), C(8, v), 'i8')
        names.append(P(r))
    con = P(w.I.new_region(w.st, 'lazy', 'console', size=i(256)))
    w.go('init', con, i(maxlen), C(8, term), C(8, 0), C(8, histfail), C(8, depth))
    w.go('define', con, *names)
    data = [t.S(8, 'digit%d' % k, 0x30, 0x39) if c == '?' else ord(c) for k, c in enumerate(text)]
    chunks = [data[a:b] for a, b in zip((0,) + cuts, cuts + (len(data),)) if b > a]
    det = '"%s" pushed as %s' % (text.replace('\r', '\\r').replace('\n', '\\n').replace('\b', '\\b'), [len(c) for c in chunks])
    for c in chunks:
        sb = w.chunk(c)
        r = w.go('push', con, sb)
        chk.count('chunks pushed')
        chk.prove(w.st, t.eq(r, i(1)), key + ':claimed', SRC + ': pushBuffer', '%s: a chunk is not claimed' % det)
        w.f('fini', sb)
    want, resp, hist = oracle(chunks, term, maxlen, histfail, depth)
    chk.count('streams')
    got = [(e[1], e[2]) for e in w.st.events() if e[0] == 'command']
    memory(chk, w.st, key)
    show = lambda l: ['%s%s' % (CMDS[k][0], tuple(len(x) for x in a)) for k, a in l]
    if chk.expect([g[0] for g in got] == [x[0] for x in want] and all(len(g[1]) == len(x[1]) for g, x in zip(got, want)), key + ':commands', SRC + ': _process_buffer',
                  '%s: the commands run are %s instead of %s' % (det, show(got), show(want)), w.st):
        for g, x in zip(got, want):
            for a, b in zip(g[1], x[1]):
                same(chk, w.st, list(a), [v if isinstance(v, T) else C(8, v) for v in b], key + ':arguments', SRC + ': _exec_line', '%s: an argument of %s' % (det, CMDS[x[0]][0]))
    d = w.go('depth', con)
    chk.prove(w.st, t.eq(t.and_(d, i(255)), i(len(hist))), 'history:depth', SRC + ': _append_to_history', '%s: the history has %s lines instead of %d' % (det, d, len(hist)))
    sb, _ = w.sb((), 'log')
    w.go('history', con, sb)
    past = [e[2] for e in w.st.events() if e[0] == 'past']
    if chk.expect(len(past) == len(hist), 'history:lines', SRC + ': printHistory', '%s: the history shows %d lines instead of %d' % (det, len(past), len(hist)), w.st):
        for a, b in zip(past, hist):
            same(chk, w.st, list(a), [v if isinstance(v, T) else C(8, v) for v in b], 'history:lines', SRC + ': _append_to_history', '%s: a line of the history' % det)
    out, _ = w.sb((), 'response')
    w.go('fetch', con, out)
    w.st = content(chk, w.I, w.st, out, [v if isinstance(v, T) else C(8, v) for v in resp], 'response', '%s: the response' % det, where=SRC)
    w.f('fini', out)
    w.f('fini', sb)
    w.go('fini', con)
    memory(chk, w.st, 'destructor')
    for e in w.st.events():
        if e[0] == 'alloc' and isinstance(e[3], P):
            r = w.I.res(w.st, e[3]).r
            if r is not None and r.id not in w.st.freed:
                chk.refuse(w.st, 'leak', e[4], '%s: after the destructor this allocation is never released' % det)
                break


SINGLE = ['run\n', 'RUN\n', 'Run\n', 'z\n', 'Z\n', 'Q\n', 'q ? ?\n', 'set ?\n', 'set\n', 'SET ?? ?\n', 'copy ?\n', 'copy ? ??\n', 'Q ? ?\n', '  run  \n', 'set   ?  \n', '\n', '\n\n', '   \n', 'ru\n', 'runn\n', 'run', 'zz\n', 'run ? ? ?\n']
MULTI = ['run\nset ?\n', 'run\n\nz\n', 'bad\nrun\n', 'set\nrun\n', 'z\nset ?', 'run\nset ?\ncopy ? ?\nz\n']
BACK = [('rum\bn\n', (3, 4)), ('\brun\n', (1,)), ('x\brun\n', (1, 2)), ('run\n\b', (4,)), ('set ?\b?\n', (5, 6)), ('z\b\b\bz\n', (1, 2, 3, 4))]


def run(chk):
    jobs = []
    for s in SINGLE:
        jobs.append((s, ()))
        jobs += [(s, (k,)) for k in range(1, len(s))]
    for s in MULTI:
        jobs.append((s, ()))
        jobs += [(s, (k,)) for k in range(1, len(s))]
        jobs.append((s, tuple(range(1, len(s)))))
        jobs += [(s, c) for c in itertools.combinations(range(1, len(s)), 2) if len(s) < 13 or c[0] % 4 == 2]
    jobs += BACK
    for s, c in [(s, c) for s in ('run\n', 'z\nset ?\n', 'run\nse', 'bad\n') for c in [()] + [(k,) for k in range(1, len(s))]]:
        jobs.append((s.replace('\n', '\r\n'), c, 3))
        jobs.append((s.replace('\n', '\r\n'), c, 2))
        jobs.append((s.replace('\n', '\r'), c, 1))
        jobs.append((s, c, 2, 64, 1, 8))
    for depth in (0, 1, 2):
        jobs.append(('run\nset ?\nbad\ncopy ? ?\nz\n', (), 2, 64, 0, depth))
        jobs.append(('run\nset ?\nbad\ncopy ? ?\nz\n', (6, 13), 2, 64, 1, depth))
    for n in (8, 9, 10):
        jobs.append(('run ????\n', (), 2, n))
        jobs.append(('xxxxxxxxxxrun\nrun\n', (10, 14), 2, n))
        jobs.append(('set ?\nset ?\n', (6,), 2, n))

    def work(k):
        for n in range(k, len(jobs), 8):
            chk.group('stream', stream, chk, *jobs[n])
    chk.fork(8, work)
    chk.rule = 'console interpreted on streams of lines in chunks: handlers called, arguments, response, history and memory compared with the definition'
