"""M2MLink objects in an interpreted world: a clock, random numbers, transports that record what they are given, an
application and services that record what is delivered to them and may answer."""
from balib import *

LNK = 'src/M2MLink/M2MLink.cpp'
SYNC_SEEK, TENTATIVE, AUTH, LIVE, PENDING, HUNGUP = 2, 3, 4, 5, 6, 7
APP, WHO, LOG, CONNECT, SYNC, HANGUP, SVC0 = 15, 9, 8, 2, 1, 5, 16


def i(n):
    return C(32, n & 0xffffffff)


def only(l):
    if len(l) > 1:
        l = [x for x in l if not x[0].dead() and not x[0].empty()]
    if len(l) != 1:
        raise Unsupported('%d outcomes: %s' % (len(l), [str(c)[:60] for x in l for c in list(getattr(x[0],'cs',[]))[-3:]]))
    return l[0]


def frame(code, flags=0, ident=0, payload=()):
    """the bytes of a message; payload holds ints or terms"""
    idb = (ident.bit_length() + 7) // 8
    ln = 4 + idb + len(payload)
    lb = 1
    if ln > 255:
        ln, lb = ln + 1, 2
    fl = flags & 3 | lb << 4 | idb << 6
    out = [code, fl] + [ln >> 8 * k & 255 for k in reversed(range(lb))] + [ident >> 8 * k & 255 for k in reversed(range(idb))]
    out.append((fl + ln + code + 1) & 255)
    return [C(8, b) for b in out] + [C(8, b) if isinstance(b, int) else b for b in payload]


def numbers(l):
    return [cv(b) if isc(b) else b for b in l]


def parse(bs):
    """the messages in a list of byte terms: (code, flags, id, payload)"""
    out, k = [], 0
    while k < len(bs):
        h = numbers(bs[k:k + 9])
        fl = h[1]
        lb, idb = fl >> 4 & 3, fl >> 6
        ln = int.from_bytes(bytes(h[2:2 + lb]), 'big')
        ident = int.from_bytes(bytes(h[2 + lb:2 + lb + idb]), 'big')
        hl = 3 + lb + idb
        out.append((h[0], fl & 3, ident, bs[k + hl:k + ln]))
        k += ln
    return out


class Net:
    """some links, each with its own sink"""
    def __init__(self, chk, n=1, timeout=100, keepalive=50, mtu=64, flags=0, room=1000, verbosity=0, start=1000):
        self.chk = chk
        I = self.I = binterp(chk)
        I.cfg.varargs = True
        I.cfg.program_start = True
        if verbosity:
            I.cfg.steps = 600000
        self.now = start
        self.rand = 0x5A
        self.payload = []        # what a payload packs to; None: it cannot be packed
        self.answers = {}        # what the application does with a message: code -> 'ack' | payload | None
        m = I.cfg.models
        m['_Z6millisv'] = lambda I, st, a, o, fn: [(st, i(self.now))]
        m['_Z12randomUInt32v'] = self.random
        for f in ('c3p_log', 'StringBuilder::concatf', 'C3PValue::C3PValue', 'C3PValue::~C3PValue', 'KeyValuePair::KeyValuePair', 'KeyValuePair::~KeyValuePair'):
            m[f] = lambda I, st, a, o, fn: [(st, i(0) if fn is None else None)]
        m['KeyValuePair::KeyValuePair'] = self.kvp
        m['StringBuilder::concatf'] = lambda I, st, a, o, fn: [(st, i(0))]
        m['StringBuilder::printDebug'] = m['C3PValue::printDebug'] = m['KeyValuePair::printDebug'] = lambda I, st, a, o, fn: [(st, None)]
        m['KeyValuePair::unserialize'] = self.unser
        m['C3PValue::serialize'] = m['KeyValuePair::serialize'] = m['c3pv_kvp_ser'] = self.ser
        m['KeyValuePair::valueWithKey'] = self.value
        m['C3PValue::get_as'] = self.getid
        self.ident = False       # payloads that come in hold an identity
        self.keep, self.mark = False, 0
        m['c3pv_lnk_cb'] = lambda I, st, a, o, fn: (st.emit(('state', I.res(st, a[0]).r)), [(st, None)])[1]
        m['c3pv_msg_cb'] = lambda I, st, a, o, fn: self.deliver(I, st, 'app', a[1], a[0], o, fn)
        m['c3pv_svc_cb'] = lambda I, st, a, o, fn: self.deliver(I, st, I.res(st, a[0]).r, a[2], a[1], o, fn)
        self.st = State()
        f = [g for g in chk.M.funcs.values() if g.name == '_GLOBAL__sub_I_M2MLink.cpp']
        for g in f:
            self.st, _ = only(chk.run(I, g, self.st, []))
        self.w = BW(chk, I)
        self.w.st = self.st
        size = cv(self.st.norm(self.call('ln_size')))
        self.w.st = self.st
        self.links, self.sinks = [], []
        for k in range(n):
            p = self.w.obj('link%d' % k, 'ln_init', i(timeout), i(keepalive), i(mtu), i(flags), size=size)
            s, up = self.w.sink('sink%d' % k, i(room), i(room))
            self.st = self.w.st
            self.call('ln_eff', p, up)
            self.call('ln_cb', p)
            if verbosity:
                self.call('ln_verb', p, C(8, verbosity))
            self.w.st = self.st
            self.links.append(p)
            self.sinks.append(s)
        self.st = self.w.st

    def kvp(self, I, st, a, o, fn):
        if not isinstance(a[1], T):      # with key and value; it is packed by the stand-in
            return I.call(I.mod.funcs['c3pv_kvp_init'], st, [a[0]])
        return [(st, None)]

    def value(self, I, st, a, o, fn):
        if len(a) != 2:
            return [(st, C(8, 255))]
        if not self.ident or not st.user.get('unpacked'):
            return [(st, NULL)]
        return [(st, P(I.new_region(st, 'lazy', 'value', size=i(64))))]

    def getid(self, I, st, a, o, fn):
        l = I.call(I.mod.funcs['c3pv_ident_new'], st, [])
        out = []
        for s, v in l:
            I.store(s, I.res(s, a[-1]), v, 'ptr', o, fn)
            out.append((s, C(8, 0)))
        return out

    def random(self, I, st, a, o, fn):
        # ids of different sizes
        self.rand = (self.rand * 75 + 74) % 65537
        return [(st, i((0x30 + self.rand % 100, self.rand, self.rand | 0x410000)[self.rand % 3]))]

    def ser(self, I, st, a, o, fn):
        if self.payload is None:
            return [(st, C(8, 255))]
        st.emit(('packed',))
        l = [(st, None)]
        if self.payload:
            r = P(I.new_region(st, 'lazy', 'packed', size=i(len(self.payload))))
            for k, b in enumerate(self.payload):
                I.store(st, P(r.r, i(k)), b, 'i8')
            l = I.call(I.mod.funcs['c3pv_sb_concat'], st, [a[1], r, i(len(self.payload))])
        return [(s, C(8, 0)) for s, _ in l]

    def unser(self, I, st, a, o, fn):
        n = st.norm(a[1])
        if not isc(n) or cv(n) > 300:
            raise Unsupported('unserialize: open length')
        p = I.res(st, a[0])
        bs = tuple(st.norm(I.load(st, P(p.r, t.addc(p.o, k)), 'i8', o, fn)) for k in range(cv(n))) if p.r is not None else ()
        st.user = dict(st.user, unpacked=bs)
        if not bs:
            return [(st, NULL)]
        return I.call(I.mod.funcs['c3pv_kvp_new'], st, [])

    def ask(self, st, name, *a):
        return only(self.I.call(self.I.mod.funcs['c3pv_' + name], st, list(a)))

    def deliver(self, I, st, who, m, tag, o, fn):
        st.user = dict(st.user, unpacked=())
        st, code = self.ask(st, 'mm_code', m)
        st, ident = self.ask(st, 'mm_id', m)
        st, rep = self.ask(st, 'mm_isreply', m)
        st, exp = self.ask(st, 'mm_expects', m)
        slot = P(I.new_region(st, 'lazy', 'kvp slot', size=i(4)))
        I.store(st, slot, NULL, 'ptr')
        st, v = self.ask(st, 'mm_getpl', m, slot)
        k = I.res(st, I.load(st, slot, 'ptr', o, fn))
        if k.r is not None:
            st, _ = self.ask(st, 'kvp_delete', k)
        code, ident, rep, exp = (cv(st.norm(x)) for x in (code, ident, rep, exp))
        st.emit(('got', who, code, rep << 1 | exp, ident, list(st.user.get('unpacked', ())), st.norm(tag)))
        act = self.answers.get(code)
        if exp and act is not None:
            st, v = self.ask(st, 'mm_reply', m, NULL, C(1, int(act == 'ask')))
        return [(st, None)]

    def call(self, name, *a):
        self.I.steps = 0
        self.st, v = only(self.chk.run(self.I, self.chk.M.funcs['c3pv_' + name], self.st, list(a)))
        return v

    def state(self, k=0):
        return cv(self.st.norm(self.call('ln_state', self.links[k])))

    def events(self, what):
        return [e for e in self.st.events()[self.mark:] if e[0] == what]

    def clear(self):
        if self.keep:        # the allocations are still needed
            self.mark = len(self.st.events())
        else:
            self.st.log = None
            self.mark = 0

    def sent(self, k=0):
        """bytes given to the transport since the last clear"""
        return [b for e in self.events('sink') if e[1] is self.sinks[k].r for b in e[2]]

    def push(self, k, bs, layout=None):
        self.w.st = self.st
        sb = self.w.given(layout or (len(bs),), list(bs))
        self.st = self.w.st
        v = cv(self.st.norm(self.call('ln_push', self.links[k], sb)))
        left = cv(self.st.norm(self.call('sb_length', sb)))
        # a buffer that was claimed belongs to the link: nothing of it is left with the caller
        self.chk.expect(v == 0 or v == 1 and left == 0, 'claim', LNK, 'pushBuffer() returned %d and left %d bytes in the buffer it was given' % (v, left), self.st)
        self.call('sb_clear', sb)
        return v

    def poll(self, k=0, log=NULL):
        return self.call('ln_poll', self.links[k], log)

    def sink(self, k, room, take=1000):
        self.call('sink_init', self.sinks[k], i(room), i(take))

    def service(self):
        self.w.st = self.st
        size = 64
        p = self.w.obj('service', 'sv_init', self.links[0], size=size)
        self.st = self.w.st
        self.call('ln_svc', self.links[0], p)
        return p.r

    def shake(self):
        """bring one link to LIVE against a scripted counterparty; its WHO is answered"""
        for _ in range(3):
            self.poll()
        self.push(0, frame(SYNC, 2))
        self.poll()
        self.poll()
        self.push(0, frame(CONNECT, 2, 0x77))
        self.clear()
        for _ in range(4):
            self.poll()
        for c, f, d, p in parse(self.sent()):
            if c == WHO and f & 1:
                self.push(0, frame(WHO, 2, d))
        self.poll()
        self.poll()

    def wires(self, rounds, stop=None):
        """two links, each given what the other sent"""
        for _ in range(rounds):
            self.clear()
            for k in (0, 1):
                self.poll(k)
            out = [self.sent(0), self.sent(1)]
            for k in (0, 1):
                if out[1 - k]:
                    self.push(k, out[1 - k])
            self.now += 1
