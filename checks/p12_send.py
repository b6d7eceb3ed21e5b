"""M2MLink's sending side is interpreted over histories of sending, polling, refusal by the transport, time and replies;
every transmission is compared with the messages that were accepted, and every request with its answer."""
import itertools
from linklib import *

LEVEL = 'other'
ASSUME = ['histories of at most four operations, and then polls until nothing is left', 'payload packing, logging, random numbers and the clock are stand-ins; allocations succeed',
          'message IDs drawn at random differ']
TIMEOUT = 100
X = t.S(8, 'x')
UNSENT_REPLY = 0x00ABCD


class Sent:
    def __init__(self, code, need, ident, payload):
        self.code, self.need, self.ident, self.payload = code, need, ident, payload
        self.times, self.answered, self.trouble, self.at, self.due = [], None, False, None, 0


class Hist:
    """a live link, the messages it accepted, and what it transmitted"""
    def __init__(self, chk, flags=0, start=1000, keepalive=50):
        self.chk = chk
        self.n = n = Net(chk, timeout=TIMEOUT, mtu=400, flags=flags, keepalive=keepalive, start=start)
        n.shake()
        chk.expect(n.state() == LIVE, 'setup.live', LNK, 'the handshake led to state %d' % n.state(), n.st)
        n.clear()
        self.base, self.base_now = n.st, n.now

    def again(self):
        n = self.n
        n.st, n.now = self.base.copy(), self.base_now
        n.clear()
        self.l, self.accepting, self.count, self.what, self.other, self.broken = [], True, 0, [], [], False

    def bad(self, cond, key, detail):
        self.broken |= not cond
        return self.chk.expect(cond, key, LNK, '%s: %s' % (' '.join(self.what), detail), self.n.st)

    def waiting(self):
        return [s for s in self.l if s.times and s.need and not s.answered and not s.at]

    def unsent(self):
        return [s for s in self.l if not s.times]

    def send(self, need, payload):
        n = self.n
        self.count += 1
        self.what.append('send(%s%s)' % ('%d bytes' % len(payload) if payload else 'no payload', ', reply' if need else ''))
        n.payload = payload
        held = len(self.unsent()) + len(self.waiting())
        k = P(None, C(32, 0))
        if payload is not None and not (isinstance(payload, tuple)):
            k = n.call('kvp_new')
        v = n.call('ln_send', n.links[0], k, C(1, int(need)))
        if k.r is not None:
            n.call('kvp_delete', k)
        v = sval(cv(n.st.norm(v)), 32)
        self.settle()
        if held >= 8:
            self.bad(v == -3, 'send.full', 'send() with eight messages waiting returned %d' % v)
            return
        if need:
            if not self.bad(v > 0, 'send.id', 'send() returned %d' % v):
                return
        else:
            self.bad(v == 0, 'send.plain', 'send() returned %d' % v)
        self.l.append(Sent(APP, need, v if need else 0, list(payload)))

    def log(self, need):
        n = self.n
        self.what.append('log(%s)' % ('reply' if need else ''))
        n.payload = [C(8, 0x6C), X]
        n.w.st = n.st
        sb = n.w.given((3,), [C(8, 65), C(8, 66), C(8, 67)])
        n.st = n.w.st
        held = len(self.unsent()) + len(self.waiting())
        v = sval(cv(n.st.norm(n.call('ln_log', n.links[0], sb, C(1, int(need))))), 8)
        left = cv(n.st.norm(n.call('sb_length', sb)))
        self.bad(left == 0, 'log.consumed', '%d bytes of the log are left' % left)
        n.call('sb_clear', sb)
        self.settle()
        if held >= 8:
            self.bad(v < 0, 'log.full', 'writeRemoteLog() with eight messages waiting returned %d' % v)
            return
        if self.bad(v == 0, 'log.sent', 'writeRemoteLog() returned %d' % v):
            self.l.append(Sent(LOG, need, None if need else 0, [C(8, 0x6C), X]))

    def settle(self):
        """attribute what was transmitted since"""
        n = self.n
        out = parse(n.sent()) if self.accepting else []      # what the transport refused was not sent
        n.clear()
        for code, flags, ident, pl in out:
            cand = [s for s in self.l if s.code == code and flags == int(s.need) and (s.ident == ident or s.ident is None) and not s.answered
                    and len(s.payload) == len(pl) and all(x is y for x, y in zip(s.payload, [n.st.norm(y) for y in pl])) and (s.need or not s.times)]
            if not cand:
                self.other.append((code, flags, ident, pl))
                continue
            s = cand[0]
            s.ident = ident
            if not s.times:
                before = [x for x in self.unsent() if x is not s]
                early = before[:before.index(s)] if s in before else [x for x in self.l[:self.l.index(s)] if not x.times]
                self.bad(not any(x.code == s.code for x in early), 'order', 'a message was sent before one that was accepted earlier')
                if s.code == APP:
                    self.bad(not any(x.code != APP for x in before), 'order.internal', 'an application message was sent while one of the link waited')
            else:
                self.bad(n.now - s.times[-1] > TIMEOUT, 'repeat.early', 'a message was repeated %d ms after it was sent' % (n.now - s.times[-1]))
                self.bad(len(s.times) < 4, 'repeat.often', 'a message was sent %d times' % (len(s.times) + 1))
            s.times.append(n.now)
        self.chk.count('transmissions', len(out))
        return len(out)

    def poll(self):
        n = self.n
        self.what.append('poll')
        todo = len(self.unsent())
        n.poll()
        k = self.settle()
        for s in self.l:
            if len(s.times) == 4 and not s.answered and n.now - s.times[-1] > TIMEOUT:
                s.at = n.now        # given up, or about to be
        if self.accepting:
            # a message whose reply is overdue is sent again as soon as those before it in the round were looked at
            w = self.waiting()
            for s in self.l:
                late = s in w and not s.trouble and n.now - s.times[-1] > TIMEOUT and not self.unsent() and not todo
                s.due = max(s.due, 0) + 1 if late else 0
                self.bad(s.due <= len([x for x in self.l if x.need]), 'repeat.late', 'a message is not sent again %d ms after it was sent, in %d polls' % (n.now - s.times[-1] if s.times else 0, s.due))
            if todo:
                self.bad(len(self.unsent()) == todo - 1, 'progress', 'a poll sent %d of %d waiting messages' % (todo - len(self.unsent()), todo))
        else:
            for s in self.waiting():
                s.trouble = True

    def refuse(self):
        self.accepting = not self.accepting
        self.what.append('the transport accepts' if self.accepting else 'the transport refuses')
        self.n.sink(0, *((1000, 1000) if self.accepting else (0, 0)))
        if not self.accepting:
            for s in self.waiting():
                s.trouble = True

    def later(self, ms):
        self.what.append('%d ms' % ms)
        self.n.now += ms

    def reply(self, right, which=0):
        w = self.waiting()
        n = self.n
        if right:
            if not w:
                return False
            s = w[which % len(w)]
            self.what.append('reply')
            n.push(0, frame(s.code, 2, s.ident))
        else:
            self.what.append('wrong reply')
            n.push(0, frame(APP, 2, UNSENT_REPLY))
        was = n.now
        n.poll()
        got = [(e[2], e[3], e[4]) for e in n.events('got')]
        if right:
            s.answered = True
            self.bad(got == ([(APP, 2, s.ident)] if s.code == APP else []), 'reply.delivered', 'delivered %s' % got)
        else:
            self.bad(got == [(APP, 2, UNSENT_REPLY)], 'reply.delivered', 'delivered %s' % got)
        # the poll may also have sent something
        if right:
            s.answered = False
            k = len(s.times)
            self.settle()
            self.bad(len(s.times) == k, 'repeat.answered', 'a message was sent again after its reply came in')
            s.answered = True
        else:
            self.settle()
        return True

    def finish(self, answer):
        """poll until nothing is left; what waits is answered or times out"""
        n = self.n
        if not self.accepting:
            self.refuse()
        for _ in range(60):
            if not self.unsent() and (answer or all(len(s.times) == 4 for s in self.waiting())):
                break
            if not self.unsent():
                n.now += TIMEOUT + 1
            k = sum(len(s.times) for s in self.l)
            self.poll()
            if self.broken:
                return
            if k == sum(len(s.times) for s in self.l) and _ > 30:
                break
        self.what.append('(polls)')
        if not answer:
            n.now += TIMEOUT + 1
            for _ in range(len(self.l) + 2):
                self.poll()
        while answer and self.waiting():
            self.reply(True)
        lost = [s for s in self.l if s.need and not s.answered]
        for s in self.l:
            if not s.need:
                self.bad(len(s.times) == 1, 'once', 'a message that needs no reply was sent %d times' % len(s.times))
            elif not s.answered and not s.trouble:
                self.bad(len(s.times) == 4, 'repeats', 'a message without a reply was sent %d times' % len(s.times))
            else:
                self.bad(len(s.times) >= 1, 'sent', 'an accepted message was never sent')
        self.bad(not self.other, 'other', 'something else was sent: %s' % [o[:3] for o in self.other])
        f = cv(n.st.norm(n.call('ln_fails', n.links[0])))
        self.bad(f == len(lost), 'timeouts', 'replyTimeouts() is %d, %d messages went without a reply' % (f, len(lost)))
        idle = cv(n.st.norm(n.call('ln_idle', n.links[0])))
        self.bad(idle == 1, 'idle', 'the link is not idle when everything is sent and answered')
        self.chk.count('histories')


def op(h, o):
    if o == 'S':
        h.send(False, [C(8, h.count), X])
    elif o == 'R':
        h.send(True, [C(8, h.count), X])
    elif o == 'N':
        h.send(True, ())
    elif o == 'L':
        h.log(True)
    elif o == 'l':
        h.log(False)
    elif o == 'P':
        h.poll()
    elif o == 'X':
        h.refuse()
    elif o == 'T':
        h.later(TIMEOUT + 1)
    elif o == 'h':
        h.later(60)
    elif o == 't':
        h.later(TIMEOUT)
    elif o == 'A':
        return h.reply(True)
    elif o == 'B':
        return h.reply(True, 1)
    elif o == 'W':
        h.reply(False)
    return None


def history(chk, h, ops, answer):
    h.again()
    for o in ops:
        if op(h, o) is False or h.broken:
            return
    h.finish(answer)
    memory(chk, h.n.st, 'memory')


def histories(chk, part):
    h = [Hist(chk), Hist(chk, start=0xFFFFFF80)]
    n = 4 if chk.tier == 'quick' else 5
    jobs = []
    for l in itertools.product('SRNLPXTtAW', repeat=n):
        if l[0] not in 'SRNLX' or 'X' in l and l[-1] == 'X' or ''.join(l).find('XX') >= 0 or not set(l) & set('SRNL'):
            continue
        if set('AB') & set(l) and not (set('P') & set(l)):
            continue
        jobs.append(''.join(l))
    jobs += ['SSSSSSSSSPS', 'RRRRRRRRRPSR', 'RRRRRRRRPPPPPPPPSTPPPPPPPPS', 'LRSPPPTPPP', 'RRRPPPBPA', 'RRPPBTPP', 'NRPPtPPAt', 'LlSPPP', 'XSSPPPXPP', 'SXRLPPP', 'RPTXPPPX', 'SPRPSPRPTPTPAPP', 'lPlPl', 'RPTPTPTPTP', 'RPTPTPA', 'RPTPTPTPA', 'RLNPPPTPPPB', 'RPhRPhPPPP', 'RPhRPhLPPPPPhPPPP', 'RRPPhNPhPPPPP', 'RPhlPhSPPP']
    for k, l in enumerate(jobs):
        if k % 8 == part:
            for a in ((k // 8) & 1,) if len(l) == n else (0, 1):
                chk.group('history ' + l, history, chk, h[(k // 8) % 5 == 0], l, a)


# what the counterparty asks, and the answer
ASKS = {
    'sync': ((SYNC, 1, 0, ()), (SYNC, 2, 0)),
    'sync reply': ((SYNC, 2, 0, ()), None),
    'connect': ((CONNECT, 1, 0x1234, ()), (CONNECT, 2, 0x1234)),
    'log': ((LOG, 1, 0x77, (1, 2)), (LOG, 2, 0x77)),
    'log, no reply': ((LOG, 0, 0, (1,)), None),
    'log without text': ((LOG, 1, 0x78, ()), (LOG, 2, 0x78)),
    'who': ((WHO, 1, 0x9876, ()), (WHO, 2, 0x9876)),
    'who, reply': ((WHO, 2, 0x9877, ()), None),
    'who, reply to be acknowledged': ((WHO, 3, 0x9878, ()), (WHO, 2, 0x9878)),
    'app': ((APP, 1, 0xABC, (5,)), (APP, 2, 0xABC)),
    'app, plain': ((APP, 0, 0, (5,)), None),
    'app, reply': ((APP, 2, 0x15, (5,)), None),
    'app, reply to be acknowledged': ((APP, 3, 0xABCDEF, ()), (APP, 2, 0xABCDEF)),
}


def answers(chk, part):
    h = [Hist(chk), Hist(chk, flags=0x400)]
    n = 0
    for l in list(itertools.product(ASKS, repeat=1)) + list(itertools.product(ASKS, repeat=2)):
        for mode in range(4 if len(l) == 1 or chk.tier != 'quick' else 2):
            n += 1
            if n % 8 == part:
                chk.group('answers', answered, chk, h[n // 8 & 1], l, mode)


def answered(chk, h, l, mode):
    """mode bit 0: the application answers; bit 1: the transport refuses at first"""
    n = h.n
    h.again()
    h.what.append('requests %s%s' % (list(l), ', the transport refuses at first' if mode & 2 else ''))
    n.answers = {APP: 'ack'} if mode & 1 else {}
    want = [ASKS[k][1] for k in l if ASKS[k][1] and (ASKS[k][0][0] != APP or mode & 1)]
    late = [w for w in want if not (mode & 2 and w[0] in (SYNC, CONNECT))]
    if mode & 2:
        n.sink(0, 0, 0)
    for k in l:
        n.push(0, frame(*ASKS[k][0]))
    for _ in range(4):
        n.poll()
    out = []
    if mode & 2:
        n.clear()
        n.sink(0, 1000, 1000)
    for _ in range(6):
        n.poll()
    out += [m[:3] for m in parse(n.sent())]
    n.clear()
    n.now += 5 * TIMEOUT
    for _ in range(4):
        n.poll()
    n.now += 5 * TIMEOUT
    n.poll()
    out += [m[:3] for m in parse(n.sent())]
    n.answers = {}
    h.bad(sorted(out) == sorted(late), 'answers', 'answered %s, expected %s' % (out, late))
    # answers of one kind go out in the order of the requests
    for c in {w[0] for w in late}:
        h.bad([o for o in out if o[0] == c] == [o for o in late if o[0] == c], 'answers.order', 'answered %s' % out)
    h.bad(n.state() == LIVE, 'answers.live', 'the link is in state %d' % n.state())
    memory(chk, n.st, 'answers.memory')
    chk.count('requests', len(l))


def dialog(chk, code, acked):
    """the application answers a request and wants its answer acknowledged"""
    h = Hist(chk)
    h.again()
    n = h.n
    n.answers = {APP: 'ask'}
    h.what.append('an answer that asks for a reply')
    n.push(0, frame(APP, 1, 0x4242))
    n.poll()
    n.poll()
    h.bad([m[:3] for m in parse(n.sent())] == [(APP, 3, 0x4242)], 'dialog.answer', 'sent %s' % n.sent())
    for k in range(acked):
        n.clear()
        n.now += TIMEOUT
        n.poll()
        h.bad(not n.sent(), 'dialog.early', 'sent %s' % n.sent())
        n.now += 1
        n.poll()
        n.poll()
        h.bad([m[:3] for m in parse(n.sent())] == [(APP, 3, 0x4242)], 'dialog.repeat', 'sent %s' % n.sent())
    n.clear()
    n.answers = {}
    if acked < 3:
        n.push(0, frame(APP, 2, 0x4242))
    for k in range(3):
        n.now += 2 * TIMEOUT
        n.poll()
        h.bad(not n.sent(), 'dialog.end', 'sent %s' % n.sent())
    f = cv(n.st.norm(n.call('ln_fails', n.links[0])))
    h.bad(f == (acked == 3), 'dialog.fails', 'replyTimeouts() is %d' % f)
    h.bad(cv(n.st.norm(n.call('ln_idle', n.links[0]))) == 1, 'dialog.idle', 'the link is not idle')
    memory(chk, n.st, 'dialog.memory')


def payloads(chk):
    """a message whose payload cannot be packed is refused"""
    h = Hist(chk)
    for need in (0, 1):
        h.again()
        n = h.n
        n.payload = None
        k = n.call('kvp_new')
        v = sval(cv(n.st.norm(n.call('ln_send', n.links[0], k, C(1, need)))), 32)
        h.what.append('send(a payload that cannot be packed)')
        h.bad(v == -2, 'send.payload', 'send() returned %d' % v)
        n.call('kvp_delete', k)
        for _ in range(3):
            n.poll()
        h.bad(not n.sent(), 'send.payload', 'sent %s' % n.sent())
        h.bad(cv(n.st.norm(n.call('ln_idle', n.links[0]))) == 1, 'send.payload', 'the link is not idle')
        memory(chk, n.st, 'send.memory')


def keepalive(chk, flags, gap, start):
    """sync packets are sent when nothing else was for the interval, and only then"""
    h = Hist(chk, flags=flags, start=start, keepalive=50)
    h.again()
    n = h.n
    last = n.now
    n.now += 51
    n.poll()
    k = len(n.sent())
    h.what.append('keepalive flags %x' % flags)
    if not flags:
        h.bad(k == 0, 'keepalive.off', 'sent %s' % n.sent())
        return
    h.bad([m[:2] for m in parse(n.sent())] == [(SYNC, 1)], 'keepalive.due', 'sent %s' % n.sent())
    last = n.now
    for _ in range(12):
        n.clear()
        n.now += gap
        n.poll()
        out = [m[:2] for m in parse(n.sent())]
        h.what.append('%d ms' % gap)
        h.bad(out == ([(SYNC, 1)] if n.now - last > 50 else []), 'keepalive.interval', 'sent %s %d ms after the last bytes' % (out, n.now - last))
        if out:
            last = n.now
            n.push(0, frame(SYNC, 2))
            n.poll()
    n.clear()
    n.now = last + 50
    n.payload = ()
    n.call('ln_send', n.links[0], NULL, C(1, 0))
    n.poll()
    h.bad([m[0] for m in parse(n.sent())] == [APP], 'keepalive.message', 'sent %s' % n.sent())
    n.clear()
    n.now += 50
    n.poll()
    h.bad(not n.sent(), 'keepalive.after', 'sent %s, 50 ms after a message' % n.sent())
    n.now += 1
    n.poll()
    h.bad([m[:2] for m in parse(n.sent())] == [(SYNC, 1)], 'keepalive.after', 'sent %s, 51 ms after a message' % n.sent())
    chk.count('keepalive runs')


def run(chk):
    chk.load()

    def work(part):
        chk.group('histories', histories, chk, part)
        chk.group('answers', answers, chk, part)
        if part == 0:
            chk.group('payloads', payloads, chk)
            for k in range(4):
                chk.group('dialog', dialog, chk, APP, k)
        k = [(f, g, s) for f in (0x100, 0) for g in (1, 7, 50, 51, 60) for s in (1000, 0xFFFFFF00)]
        for a in k[part::8]:
            chk.group('keepalive', keepalive, chk, *a)
    chk.fork(8, work)
