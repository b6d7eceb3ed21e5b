"""M2MLink's receiving side is interpreted on streams of messages cut into chunks in every way (payload bytes symbolic)
and on streams from which sync has to be gained, and what is handed to the application, the services and the transport
is compared with the messages in the stream."""
import itertools
from linklib import *

LEVEL = 'other'
ASSUME = ['streams of at most three messages, with payloads of at most three bytes except for those that need a second length byte',
          'payload packing, logging and the clock are stand-ins; allocations succeed', 'messages no larger than the MTU']
X = [t.S(8, 'p%d' % k) for k in range(6)]
#        code    flags ident payload
KINDS = {
    'A': (APP, 0, 0, ()),
    'B': (APP, 1, 0x1234, ()),
    'C': (APP, 0, 0, (X[0], X[1], X[2])),
    'D': (SVC0, 0, 0, (X[3],)),
    'E': (SVC0 + 1, 1, 0x77, (X[4], X[5])),
    'F': (SVC0 + 5, 0, 0, (X[0],)),
    'G': (SYNC, 1, 0, ()),
    'H': (APP, 2, 0x345678, (X[1],)),
    'I': (SYNC, 2, 0, ()),
    'J': (SVC0 + 1, 3, 0xFFFEFD, ()),
}
LONG = (APP, 1, 0x55, tuple((k * 7) & 255 for k in range(250)))
LONGER = (SVC0, 0, 0, tuple((k * 5) & 255 for k in range(300)))


def same_bytes(st, a, b):
    if len(a) != len(b):
        return C(1, 0)
    g = C(1, 1)
    for x, y in zip(a, b):
        g = t.and_(g, t.eq(x, C(8, y) if isinstance(y, int) else y))
    return g


class Live:
    """a link that went live, with two services"""
    def __init__(self, chk, **k):
        self.n = n = Net(chk, mtu=400, **k)
        self.svc = [n.service(), n.service()]
        n.shake()
        for _ in range(3):
            n.poll()
        n.clear()
        self.base = n.st

    def again(self):
        self.n.st = self.base.copy()
        self.n.clear()


def stream(kinds):
    out = []
    for k in kinds:
        out += frame(*k)
    return out


def feed(chk, L, kinds, cuts, polls, key, quiet=False):
    """feed the stream in the given chunks, with so many polls after each; judge what came of it"""
    n = L.n
    bs = stream(kinds)
    edges = [0] + list(cuts) + [len(bs)]
    for a, b in zip(edges, edges[1:]):
        if b > a:
            n.push(0, bs[a:b])
        for _ in range(polls):
            n.poll()
    for _ in range(len(kinds) + 2):
        n.poll()
    judge(chk, L, kinds, key, '%s cut at %s' % (kinds, list(cuts)) if not quiet else key)


def judge(chk, L, kinds, key, what):
    n = L.n
    st = n.st
    got = n.events('got')
    want = []
    for code, flags, ident, pl in kinds:
        who = 'app' if code == APP else L.svc[code - SVC0] if SVC0 <= code < SVC0 + 2 else None
        if who is not None:
            want.append((who, code, flags, ident, pl))
    chk.count('messages fed', len(kinds))
    have = [(e[1], e[2], e[3], e[4]) for e in got]
    if chk.expect(have == [w[:4] for w in want], key + '.messages', LNK, '%s: delivered %s, the stream holds %s' % (
            what, [(str(getattr(h[0], 'name', h[0])),) + h[1:] for h in have], [w[1:4] for w in want]), st):
        for e, w in zip(got, want):
            g = same_bytes(st, e[5], w[4])
            if isc(g):
                chk.expect(cv(g), key + '.payload', LNK, '%s: the payload of a message with code %d is %s' % (what, w[1], e[5]), st)
            else:
                chk.prove(st, g, key + '.payload', LNK, '%s: the payload of a message with code %d' % (what, w[1]))
    syncs = sum(1 for k in kinds if k[0] == SYNC and k[1] == 1)
    chk.expect([(c, f) for c, f, d, p in parse(n.sent())] == [(SYNC, 2)] * syncs, key + '.answers', LNK, '%s: sent %s' % (what, n.sent()), st)
    chk.expect(n.state() == LIVE, key + '.live', LNK, '%s: the link left LIVE for %d' % (what, n.state()), st)
    chk.expect(cv(n.st.norm(n.call('ln_idle', n.links[0]))) == 1, key + '.idle', LNK, '%s: the link is not idle' % what, n.st)
    memory(chk, n.st, key + '.memory')


def whole(chk, part):
    L = Live(chk)
    jobs = []
    for k in KINDS:
        ln = len(stream([KINDS[k]]))
        for c in itertools.combinations(range(1, ln), 2):
            jobs.append(((k,), c, 0))
            jobs.append(((k,), c, 1))
        jobs.append(((k,), tuple(range(1, ln)), 1))
        jobs.append(((k,), tuple(range(1, ln)), 0))
        jobs.append(((k,), (), 0))
    deep = chk.tier != 'quick'
    for a, b in itertools.product(KINDS, repeat=2):
        ln = len(stream([KINDS[a], KINDS[b]]))
        for c in range(ln):
            for p in (1, 2) if deep else (1 + (c & 1),):
                jobs.append(((a, b), (c,) if c else (), p))
        jobs.append(((a, b), tuple(range(1, ln)), 1))
        if deep:
            for c in itertools.combinations(range(1, ln), 2):
                jobs.append(((a, b), c, 1))
    for l in itertools.product('BCDGH' if not deep else KINDS, repeat=3):
        ln = len(stream([KINDS[k] for k in l]))
        jobs.append((l, (), 1))
        for c in range(2, ln, 3):
            jobs.append((l, (c,), 1))
    for n, (l, c, p) in enumerate(jobs):
        if n % 8 == part:
            L.again()
            chk.group('stream.' + ''.join(l), feed, chk, L, [KINDS[k] for k in l], c, p, 'stream.' + ''.join(l))
    if part == 0:
        for kinds in ([LONG], [LONGER], [LONG, KINDS['C']], [KINDS['B'], LONGER]):
            ln = len(stream(kinds))
            for c in ((), (1,), (2,), (3,), (4,), (5,), (6,), (ln - 1,), (7, 200), tuple(range(50, ln, 50))):
                L.again()
                chk.group('long', feed, chk, L, kinds, c, 1, 'long', True)


SYNCS = [(SYNC, 0), (SYNC, 1), (SYNC, 2)]


def gain(chk, part):
    """from SYNC_RESYNC: bytes that mean nothing, sync packets, then messages"""
    n = Net(chk, mtu=400)
    svc = [n.service(), n.service()]
    for _ in range(3):
        n.poll()
    chk.expect(n.state() == SYNC_SEEK, 'sync.seek', LNK, 'a link that was set up is in state %d' % n.state(), n.st)
    chk.expect([(c, f) for c, f, d, p in parse(n.sent())][-1:] == [(SYNC, 1)], 'sync.cast', LNK, 'a link that seeks sync sent %s' % n.sent(), n.st)
    base = n.st
    noise = [(), (0,), (1,), (0xFF, 0x00), (0x01, 0x10), (0x01, 0x10, 0x04), (0x10, 0x04, 0x16), (0x01, 0x01, 0x10), (0x01, 0x10, 0x04, 0x17), (0x0F, 0x10, 0x04, 0x24), (1, 2, 3, 4, 5), (0x01, 0x10, 0x04, 0x16 + 1, 0x01), (9,) * 11]
    packs = [[2], [1, 2], [2, 1], [0, 2], [2, 2], [1, 1, 2], [0, 0, 0, 2]]
    jobs = []
    for a in noise:
        for s in packs:
            ln = len(a) + 4 * len(s)
            cuts = [()] + [(c,) for c in range(1, ln)] + [tuple(range(1, ln))]
            if chk.tier != 'quick':
                cuts += list(itertools.combinations(range(1, ln), 2))
            for c in cuts:
                jobs.append((a, s, c, 0))
            for c in [()] + [(c,) for c in range(1, ln + 6)]:
                if len(a) < 5:
                    jobs.append((a, s, c, 1))
    for k, (a, s, c, f) in enumerate(jobs):
        if k % 8 == part:
            n.st = base.copy()
            n.clear()
            chk.group('sync', seek, chk, n, svc, a, s, c, f)


def seek(chk, n, svc, noise, packs, cuts, follow):
    bs = [C(8, x) for x in noise]
    for f in packs:
        bs += frame(SYNC, f)
    if follow:
        # the other side connects right after its sync packets
        bs += frame(CONNECT, 1, 0x4321)
    what = 'bytes %s then sync packets %s, cut at %s' % (list(noise), packs, list(cuts))
    edges = [0] + list(cuts) + [len(bs)]
    for a, b in zip(edges, edges[1:]):
        n.push(0, bs[a:b])
        n.poll()
    for _ in range(len(packs) + 4):
        n.poll()
    chk.expect(n.state() == TENTATIVE, 'sync.gained', LNK, '%s: the link is in state %d' % (what, n.state()), n.st)
    out = [(c, f) for c, f, d, p in parse(n.sent())]
    chk.expect((CONNECT, 1) in out, 'sync.connect', LNK, '%s: the link sent no CONNECT' % what, n.st)
    if 1 in packs:
        chk.expect((SYNC, 2) in out, 'sync.answer', LNK, '%s: no answer to a sync packet that asks for one' % what, n.st)
    if follow:
        out = [m[:3] for m in parse(n.sent())]
        chk.expect((CONNECT, 2, 0x4321) in out, 'sync.follow', LNK, '%s, then CONNECT: it was not answered' % what, n.st)
    chk.expect(not n.events('got'), 'sync.nothing', LNK, '%s: something was delivered' % what, n.st)
    chk.count('sync acquisitions', 1)
    # The connection is answered; messages that follow are delivered.
    n.clear()
    n.push(0, frame(CONNECT, 2, 0x77) + stream([KINDS['B'], KINDS['D']]))
    for _ in range(8):
        n.poll()
    chk.expect(n.state() == LIVE, 'sync.live', LNK, '%s, then CONNECT was answered: the link is in state %d' % (what, n.state()), n.st)
    have = [(e[1], e[2], e[3], e[4]) for e in n.events('got')]
    chk.expect(have == [('app', APP, 1, 0x1234), (svc[0], SVC0, 0, 0)], 'sync.after', LNK, '%s: delivered %s afterwards' % (what, have), n.st)
    chk.expect(len(n.events('state')) == 1, 'sync.callback', LNK, '%s: the application was told %d times that the link is live' % (what, len(n.events('state'))), n.st)


def lose(chk, part):
    """a live link meets bytes that are no message, and recovers when it sees sync again"""
    L = Live(chk)
    n = L.n
    bad = [(0xFF,) * 12, (0,) * 8, (0x0F, 0x10, 0x04, 0x25, 0, 0, 0, 0), (0x0F, 0x00, 0x04, 0x14, 0x0F, 0, 4, 0x14), (0x80, 0x10, 0x04, 0x95, 1, 1, 1, 1), (3, 0x10, 3, 0x17, 9, 9, 9, 9)]
    jobs = [(b, s, k) for b in bad for s in ([1, 2], [2], [0, 2], [2, 2]) for k in range(0, 3)]
    for j, (b, s, k) in enumerate(jobs):
        if j % 8 != part:
            continue
        L.again()
        chk.group('recover', relose, chk, L, b, s, k)


def relose(chk, L, bad, packs, k):
    n = L.n
    first = [[], [KINDS['C']], [KINDS['B'], KINDS['D']]][k]
    what = 'messages %d, then %s, then sync packets %s' % (k, list(bad), packs)
    n.push(0, stream(first) + [C(8, x) for x in bad])
    for _ in range(6):
        n.poll()
    have = [(e[1], e[2], e[3], e[4]) for e in n.events('got')]
    want = [('app' if c == APP else L.svc[c - SVC0], c, f, d) for c, f, d, p in first]
    chk.expect(have == want, 'recover.before', LNK, '%s: delivered %s' % (what, have), n.st)
    chk.expect(n.state() == SYNC_SEEK, 'recover.seek', LNK, '%s: the link is in state %d while it is out of sync' % (what, n.state()), n.st)
    out = [(c, f) for c, f, d, p in parse(n.sent())]
    chk.expect((SYNC, 1) in out, 'recover.cast', LNK, '%s: the link does not ask for sync' % what, n.st)
    n.clear()
    bs = []
    for f in packs:
        bs += frame(SYNC, f)
    n.push(0, bs)
    for _ in range(len(packs) + 3):
        n.poll()
    n.push(0, frame(CONNECT, 2, 0x79) + stream([KINDS['H'], KINDS['E']]))
    for _ in range(8):
        n.poll()
    chk.expect(n.state() == LIVE, 'recover.live', LNK, '%s: the link is in state %d after sync and CONNECT' % (what, n.state()), n.st)
    have = [(e[1], e[2], e[3], e[4]) for e in n.events('got')]
    chk.expect(have == [('app', APP, 2, 0x345678), (L.svc[1], SVC0 + 1, 1, 0x77)], 'recover.after', LNK, '%s: delivered %s afterwards' % (what, have), n.st)
    memory(chk, n.st, 'recover.memory')
    chk.count('recoveries', 1)


def run(chk):
    chk.load()
    chk.fork(8, lambda part: (chk.group('streams', whole, chk, part), chk.group('sync', gain, chk, part), chk.group('recover', lose, chk, part)))
