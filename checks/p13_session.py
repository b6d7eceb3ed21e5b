"""Two M2MLinks connected by two byte streams are interpreted through whole sessions: establishment, exchange, loss of
sync, hangup of every kind, reset, a second session, and destruction at any moment."""
from linklib import *

LEVEL = 'other'
ASSUME = ['two links whose transports lose nothing; sixteen ways to divide and delay the bytes and the polls', 'payload packing, logging, random numbers and the clock are stand-ins; allocations succeed']
UNINIT, SETUP = 0, 1


class Pair:
    def __init__(self, chk, sched, verbosity=0, ident=0, start=1000, flags=0):
        self.chk, self.sched = chk, sched
        self.n = n = Net(chk, 2, timeout=100, keepalive=50, mtu=400, verbosity=verbosity, start=start, flags=flags)
        n.keep = True
        n.ident = bool(ident)
        n.payload = [C(8, 1)]
        n.answers = {APP: 'ack'}
        self.own = [None, None]
        for k in (0, 1):
            if ident >> k & 1:
                self.own[k] = n.call('ident_new')
                n.call('ln_local', n.links[k], self.own[k])
        self.wire = [[], []]          # bytes on the way from this link
        self.all = [[], []]           # bytes sent by this link
        self.told = [[], []]          # what the application was told, and when
        self.got = []
        self.round = 0
        self.what = ['schedule %s' % (sched,)]
        n.clear()

    def bad(self, cond, key, detail):
        return self.chk.expect(cond, key, LNK, '%s: %s' % (', '.join(self.what), detail), self.n.st)

    def step(self):
        n = self.n
        order, skip, chunk, late = self.sched[:4]
        lag = self.sched[4] if len(self.sched) > 4 else (0, 0)
        n.clear()
        for k in order:
            if self.round % (skip[k] + 1) == skip[k] and self.round >= late[k]:
                n.poll(k)
        self.collect()
        for k in (0, 1):
            w = self.wire[k]
            c = 0
            while c < len(w) and (chunk is None or c < chunk) and w[c][0] + lag[k] <= self.round:
                c += 1
            if c:
                n.push(1 - k, [b for r, b in w[:c]])
                del w[:c]
        n.now += 3
        self.round += 1

    def collect(self):
        n = self.n
        for k in (0, 1):
            s = n.sent(k)
            self.wire[k] += [(self.round, b) for b in s]
            self.all[k] += s
            for e in n.events('state'):
                if e[1] is n.links[k].r:
                    self.told[k].append(n.state(k))
        self.got += [(e[2], e[3], e[4]) for e in n.events('got')]

    def until(self, a, b, limit=260):
        n = self.n
        for _ in range(limit):
            s = (n.state(0), n.state(1))
            if (a is None or s[0] == a) and (b is None or s[1] == b):
                return True
            self.step()
        return False

    def settle(self, rounds=40):
        n = self.n
        for _ in range(rounds):
            if all(cv(n.st.norm(n.call('ln_idle', l))) for l in n.links) and not any(self.wire):
                return True
            self.step()
        return False

    def establish(self, key):
        n = self.n
        self.told = [[], []]
        ok = self.bad(self.until(LIVE, LIVE), key + '.establish', 'the links are in states %d and %d, not live' % (n.state(0), n.state(1)))
        if ok:
            ok = self.bad(self.settle(), key + '.quiet', 'the links do not become idle')
            self.bad(self.told == [[LIVE], [LIVE]], key + '.told', 'the applications were told of states %s' % self.told)
            for k in (0, 1):
                self.bad(cv(n.st.norm(n.call('ln_connected', n.links[k]))) == 1, key + '.connected', 'a live link is not connected')
                r = n.I.res(n.st, n.call('ln_remote', n.links[k]))
                self.bad((r.r is not None) == bool(self.own[1 - k]), key + '.identity', 'link %d %s the identity of the other' % (k, 'has' if r.r is not None else 'has not'))
        return ok

    def send(self, k, need, payload=(1, 2)):
        n = self.n
        n.payload = [C(8, x) for x in payload]
        kv = n.call('kvp_new')
        v = sval(cv(n.st.norm(n.call('ln_send', n.links[k], kv, C(1, need)))), 32)
        n.call('kvp_delete', kv)
        n.payload = [C(8, 1)]
        return v

    def exchange(self, key):
        n = self.n
        self.got = []
        want = []
        for k, need in ((0, 0), (0, 1), (1, 1), (1, 0)):
            v = self.send(k, need)
            self.bad(v > 0 if need else v == 0, key + '.send', 'send() on a live link returned %d' % v)
            want.append((APP, need, v))
            if need:
                want.append((APP, 2, v))
        self.bad(self.settle(), key + '.settle', 'the links do not become idle after an exchange')
        self.bad(sorted(self.got) == sorted(want), key + '.exchange', 'delivered %s, sent %s' % (self.got, want))

    def hangup(self, key, how):
        """how: (link, graceful) pairs, carried out together; messages queued before are delivered"""
        n = self.n
        self.got, self.told, self.all = [], [[], []], [[], []]
        calm = all(g for k, g in how)
        want = []
        if calm:
            for k in (0, 1):
                for need in (1, 0):
                    v = self.send(k, need)
                    want.append((APP, need, v))
                    if need:
                        want.append((APP, 2, v))
        if not calm:                  # in the middle of a message, and with messages waiting
            for k in (0, 1):
                n.push(k, frame(APP, 1, 77, (1, 2, 3, 4))[:-2])
                n.poll(k)
                self.send(k, 1)
                self.send(k, 0)
            self.collect()
        for k, g in how:
            v = sval(cv(n.st.norm(n.call('ln_hangup', n.links[k], C(1, int(g))))), 8)
            self.bad(v == 0, key + '.hangup', 'hangup(%d) on a live link returned %d' % (g, v))
        if not calm:
            for k, g in how:
                self.forced(key, k)
        a, b = (HUNGUP if calm or any(k == x for k, g in how) else None for x in (0, 1))
        self.bad(self.until(a, b), key + '.hungup', 'the links are in states %d and %d after hangup' % (n.state(0), n.state(1)))
        for x in (0, 1):
            if a is None and x == 0 or b is None and x == 1:
                v = sval(cv(n.st.norm(n.call('ln_hangup', n.links[x], C(1, 0)))), 8)
                self.bad(v == 0, key + '.hangup', 'hangup(0) returned %d' % v)
                self.forced(key, x)
        for k in (0, 1):
            self.bad(self.told[k] == [HUNGUP], key + '.told-hungup', 'the application was told of states %s' % self.told[k])
            self.bad(cv(n.st.norm(n.call('ln_connected', n.links[k]))) == 0, key + '.disconnected', 'a link that hung up is connected')
            v = self.send(k, 0)
            self.bad(v == -4, key + '.refuse', 'send() on a link that hung up returned %d' % v)
            v = sval(cv(n.st.norm(n.call('ln_hangup', n.links[k], C(1, 1)))), 8)
            self.bad(v == -2, key + '.again', 'hangup(1) on a link that hung up returned %d' % v)
        if calm:
            self.bad(sorted(self.got) == sorted(want), key + '.orderly', 'delivered %s before hangup, sent %s' % (self.got, want))
            for k in (0, 1):
                codes = [m[0] for m in parse(self.all[k]) if m[1] != 2]
                self.bad(HANGUP in codes and set(codes[codes.index(HANGUP):]) == {HANGUP}, key + '.last', 'link %d sent %s' % (k, codes))
        # nothing moves until reset
        for k in (0, 1):
            n.clear()
            n.push(k, frame(APP, 0, 0) + frame(SYNC, 1))
            for _ in range(3):
                n.poll(k)
            self.bad(n.state(k) == HUNGUP and not n.sent(k) and not n.events('got'), key + '.on-hook', 'a link that hung up is in state %d, sent %s' % (n.state(k), n.sent(k)))

    def forced(self, key, k):
        n = self.n
        n.clear()
        for _ in range(3):
            n.poll(k)
        self.collect()
        self.bad(n.state(k) == HUNGUP, key + '.forced', 'the link is in state %d after hangup(0)' % n.state(k))
        self.bad(not n.sent(k), key + '.silent', 'sent %s after hangup(0)' % n.sent(k))
        n.clear()

    def reset(self, key):
        n = self.n
        self.wire = [[], []]
        self.round = 0
        for k in (0, 1):
            v = sval(cv(n.st.norm(n.call('ln_reset', n.links[k]))), 8)
            self.bad(v == 0, key + '.reset', 'reset() of a link that hung up returned %d' % v)
            if (n.now >> k) & 1 and self.own[k] is not None:       # another one takes its place
                n.call('ln_local', n.links[k], NULL)
                n.call('ident_delete', self.own[k])
                self.own[k] = None
        n.clear()

    def destroy(self, key, both=True):
        """every allocation is released when the links are"""
        n = self.n
        keep = (n.st, n.mark)
        n.st = n.st.copy()
        for l in n.links:
            n.call('ln_end', l)
        for p in self.own:
            if p is not None:
                n.call('ident_delete', p)
        self.chk.count('destructions')
        released(self.chk, n.I, n.st, [], key + '.destroy')
        n.st, n.mark = keep


SCHEDS = [((0, 1), (0, 0), None, (0, 0)), ((1, 0), (0, 0), None, (0, 0)), ((0, 1), (0, 1), None, (0, 0)), ((0, 1), (2, 0), None, (0, 0)),
          ((0, 1), (0, 0), 3, (0, 0)), ((1, 0), (0, 0), 1, (0, 0)), ((0, 1), (1, 0), 5, (0, 0)), ((0, 1), (0, 0), None, (0, 9)),
          ((0, 1), (0, 0), None, (30, 0)), ((1, 0), (0, 3), 7, (4, 0)), ((0, 1), (0, 0), 4, (0, 1)), ((0, 1), (0, 0), 2, (2, 0)),
          ((0, 1), (5, 0), None, (0, 0)), ((1, 0), (0, 6), None, (0, 0)), ((0, 1), (0, 0), None, (0, 0), (4, 0)), ((0, 1), (0, 0), 9, (0, 0), (1, 7)), ((0, 1), (1, 0), None, (0, 0), (6, 6))]
HANGUPS = [((0, True),), ((1, True),), ((0, True), (1, True)), ((0, False),), ((1, False),), ((0, False), (1, False))]


def session(chk, sched, how, verb, ident, start):
    p = Pair(chk, sched, verb, ident, start)
    p.what += ['hangup %s' % (how,), 'verbosity %d' % verb]
    if not p.establish('first'):
        return
    p.exchange('first')
    p.hangup('first', how)
    p.reset('first')
    p.what.append('second session')
    if p.establish('second'):
        p.exchange('second')
        p.hangup('second', HANGUPS[(HANGUPS.index(how) + 1) % len(HANGUPS)])
    p.destroy('session')
    chk.count('sessions')


def moments(chk, sched, how, verb):
    """destruction after any round"""
    p = Pair(chk, sched, verb, 3)
    p.what += ['hangup %s' % (how,), 'destroyed']
    step = p.step

    def watched():
        step()
        p.destroy('moment')
    p.step = watched
    if p.establish('moment'):
        p.exchange('moment')
        p.hangup('moment', how)
        p.reset('moment')
        p.establish('moment2')


def loss(chk, sched, k, noise, start):
    """one link loses sync in the middle of a session"""
    p = Pair(chk, sched, 0, 0, start)
    p.what.append('link %d meets %s' % (k, list(noise)))
    if not p.establish('loss'):
        return
    n = p.n
    n.push(k, [C(8, x) for x in noise])
    p.step()
    p.step()
    p.step()
    p.bad(p.until(LIVE, LIVE) and p.settle(), 'loss.recovered', 'the links are in states %d and %d' % (n.state(0), n.state(1)))
    p.exchange('loss')
    p.destroy('loss')
    chk.count('losses of sync')


def codes(chk):
    """what hangup() and reset() answer in each state, and that a forced hangup needs no counterparty"""
    n = None

    def fresh(polls, *pushes):
        p = Pair(chk, SCHEDS[0])
        for _ in range(polls):
            p.n.poll(0)
        for b in pushes:
            p.n.push(0, b)
            for _ in range(3):
                p.n.poll(0)
        p.collect()
        p.n.clear()
        return p
    ways = [('UNINIT', 0, ()), ('PENDING_SETUP', 1, ()), ('SYNC_RESYNC', 3, ()), ('SYNC_TENTATIVE', 3, (frame(SYNC, 2),)), ('LIVE', 3, (frame(SYNC, 2), frame(CONNECT, 2, 5)))]
    for k, (name, polls, pushes) in enumerate(ways):
        p = fresh(polls, *pushes)
        p.what = ['a link in state ' + name]
        p.bad(p.n.state(0) == [UNINIT, SETUP, SYNC_SEEK, TENTATIVE, LIVE][k], 'codes.state', 'the link is in state %d' % p.n.state(0))
        l = p.n.links[0]
        v = sval(cv(p.n.st.norm(p.n.call('ln_reset', l))), 8)
        p.bad(v == -1, 'codes.reset', 'reset() returned %d' % v)
        for g in (1, 0):
            q = fresh(polls, *pushes)
            q.what = ['a link in state %s, hangup(%d)' % (name, g)]
            l = q.n.links[0]
            v = sval(cv(q.n.st.norm(q.n.call('ln_hangup', l, C(1, g)))), 8)
            q.bad(v == (-1 if k < 2 else 0), 'codes.hangup', 'returned %d' % v)
            if k >= 2 and not g:
                q.forced('codes', 0)
            if k == 4 and g:
                q.n.poll(0)
                q.n.poll(0)
                q.bad(q.n.state(0) == PENDING, 'codes.pending', 'the link is in state %d' % q.n.state(0))
                v = sval(cv(q.n.st.norm(q.n.call('ln_hangup', l, C(1, 1)))), 8)
                q.bad(v == -2, 'codes.twice', 'the second hangup(1) returned %d' % v)
                q.bad(q.send(0, 0) == -4, 'codes.send', 'send() was accepted while hanging up')
                # nobody answers
                for _ in range(12):
                    q.n.now += 101
                    q.n.poll(0)
                q.bad(q.n.state(0) == PENDING, 'codes.unanswered', 'the link is in state %d though nobody answered its HANGUP' % q.n.state(0))
                v = sval(cv(q.n.st.norm(q.n.call('ln_hangup', l, C(1, 0)))), 8)
                q.bad(v == 0, 'codes.hangup', 'hangup(0) returned %d' % v)
                q.forced('codes.pending', 0)
                q.bad(sval(cv(q.n.st.norm(q.n.call('ln_reset', l))), 8) == 0, 'codes.reset', 'reset() was refused')
            q.destroy('codes')
        p.destroy('codes')
    # messages wait in every state of a hangup
    for first in (True, False):
        q = fresh(3, frame(SYNC, 2), frame(CONNECT, 2, 5))
        n = q.n
        q.what = ['a live link whose transport refuses%s' % (', hanging up' if first else '')]
        n.sink(0, 0, 0)
        for need in (0, 1, 0):
            q.send(0, need)
        if first:
            n.call('ln_hangup', n.links[0], C(1, 1))
        for _ in range(3):
            n.poll(0)
        q.bad(n.state(0) == (PENDING if first else LIVE), 'codes.pending', 'the link is in state %d' % n.state(0))
        n.sink(0, 1000, 1000)
        n.call('ln_hangup', n.links[0], C(1, 0))
        q.forced('codes.waiting', 0)
        q.destroy('codes')
    # the counterparty hangs up
    if True:
        q = fresh(3, frame(SYNC, 2), frame(CONNECT, 2, 5))
        n = q.n
        q.settle(3)
        n.push(0, [b for e in parse(q.all[0]) if e[0] == WHO for b in frame(WHO, 2, e[2])])
        for _ in range(3):
            n.poll(0)
        q.collect()
        q.what = ['a live link whose counterparty hangs up']
        q.all, q.told = [[], []], [[], []]
        n.clear()
        n.push(0, frame(HANGUP, 1, 0x21))
        for _ in range(8):
            n.poll(0)
        q.collect()
        m = [(e[0], e[1]) for e in parse(q.all[0])]
        q.bad(m == [(HANGUP, 2), (HANGUP, 1)], 'codes.answer', 'sent %s' % m)
        q.bad(n.state(0) == PENDING and q.told[0] == [], 'codes.early', 'the link is in state %d though its own HANGUP is not answered' % n.state(0))
        n.clear()
        n.push(0, frame(HANGUP, 2, parse(q.all[0])[-1][2]))
        for _ in range(3):
            n.poll(0)
        q.collect()
        q.bad(n.state(0) == HUNGUP and q.told[0] == [HUNGUP], 'codes.over', 'the link is in state %d when its HANGUP is answered' % n.state(0))
        q.destroy('codes')


def again(chk):
    """answers and requests that come again change nothing"""
    for name, rep in (('an answer to CONNECT', frame(CONNECT, 2, 5)), ('a CONNECT', frame(CONNECT, 1, 9)), ('an answer to a sync packet', frame(SYNC, 2))):
        for times in (1, 3):
            p = Pair(chk, SCHEDS[0])
            n = p.n
            p.what = ['a live link gets %s %d times' % (name, times)]
            for _ in range(3):
                n.poll(0)
            for b in (frame(SYNC, 2), frame(CONNECT, 2, 5)):
                n.push(0, b)
                for _ in range(3):
                    n.poll(0)
            p.bad(n.state(0) == LIVE, 'again.live', 'the link is in state %d' % n.state(0))
            p.told = [[], []]
            for _ in range(times):
                n.clear()
                n.push(0, rep)
                for _ in range(4):
                    n.poll(0)
                p.collect()
            p.bad(n.state(0) == LIVE and p.told == [[], []], 'again.told', 'the application was told of states %s; the link is in state %d' % (p.told[0], n.state(0)))
            p.destroy('again')


def run(chk):
    chk.load()
    jobs = [('codes',), ('again',)]
    deep = chk.tier != 'quick'
    for a, s in enumerate(SCHEDS):
        for b, h in enumerate(HANGUPS):
            for v in (0, 7) if deep else ((a + b) % 3 // 2 * 7,):
                jobs.append(('session', s, h, v, (a + 2 * b) & 3, 0xFFFFFF80 if (a + b) & 1 else 1000))
    for a, s in enumerate(SCHEDS if deep else (SCHEDS[0], SCHEDS[6])):
        for h in HANGUPS:
            jobs.append(('moments', s, h, 7 if h == HANGUPS[1] else 0))
    for a, s in enumerate(SCHEDS):
        for k in (0, 1):
            for z in ((0xFF,) * 12, (0,) * 8) if deep or a in (0, 5) else ((0,) * 8,):
                jobs.append(('loss', s, k, z, 1000))

    def work(part):
        for j in jobs[part::8]:
            chk.group(str(j), globals()[j[0]], chk, *j[1:])
    chk.fork(8, work)
