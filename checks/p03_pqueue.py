"""Each priority-queue operation is interpreted over an arbitrary queue (ghosted node positions, any
length, any priorities).  Proved on every exit path: insertion links exactly one node, behind every
visited node of equal or higher priority and before a node of lower priority; removal unlinks and frees
exactly the addressed node; payload, priority, position and count results are those of the node they name."""
from lib import *
import histories
import listlib

ASSUME = ['queue length below 2^28', 'single-threaded use (the mutex calls are not modelled)', 'the queue is well formed and its cached count right on entry']
F = 'PriorityQueue<C3PVerifElem*>'
CLS = 'PriorityQueue<C3PVerifElem *>'
NODE = 'PriorityNode<C3PVerifElem *>'


def run(chk):
    M = chk.M
    DATA, PRI = M.off(NODE, 'data'), M.off(NODE, 'priority')

    def go(fn, args, judge, key=None, models=None):
        I, st, this, spec, cnt, first = listlib.make(chk, CLS, NODE)
        if models:
            I.cfg.models.update(models)
        a, ctx = args(I, st)
        where = fn.loc()
        key = key or fn.dem.split('::')[-1]
        outs = chk.run(I, fn, st, [P(this)] + a)
        if not outs:
            raise AnalysisBroken('no exit of ' + fn.dem)
        for s, v in outs:
            if listlib.widened(chk, s, key, where):
                continue
            sh = listlib.Shape(chk, I, s, spec, this, M.off(CLS, 'root'), key, where)
            c1 = s.norm(fld(chk, I, s, this, CLS, 'element_count'))
            judge(I, s, v, sh, cnt, c1, key, where, ctx, first)
            chk.count('exit paths judged')

    def payload(I, st):
        r = Region('lazy', 'payload', maybe_null=False)
        return [P(r)], P(r)

    def pp(I, st):
        r = Region('lazy', 'payload', maybe_null=False)
        x = t.S(32, 'priority')
        return [P(r), x], (P(r), x)

    def num(I, st):
        x = t.S(32, 'arg')
        return [x], x
    none = lambda I, st: ([], None)
    isint = lambda f: f.args[1]['ty'] != 'ptr'
    isptr = lambda f: f.args[1]['ty'] == 'ptr'

    def count_is(st, c1, exp, key, where):
        chk.prove(st, t.eq(c1, exp), key + ':count', where, 'the cached count follows the number of nodes')

    def pri(I, st, r):
        return I.load(st, P(r, C(32, PRI)), 'i32')

    def entry_pri(I, st, r):
        """priority of an untouched node"""
        m = st.mem.get(r.id)
        c = m.cells.get(PRI) if m else None
        return None if c is None else c[1]

    def ordered_insert(I, st, sh, d, p, key, where):
        e = sh.inserted_one(None, DATA, d)
        if e is None:
            return None
        pos, node, q, owner = e
        chk.prove(st, t.eq(pri(I, st, node), p), key + ':stores-priority', where, 'the new node carries the requested priority')
        s = st.copy()
        if owner.ghost is not None:
            chk.prove(s, t.sle(p, pri(I, s, owner)), key + ':behind-higher-or-equal', where, 'the node in front has equal or higher priority (FIFO among equals)')
        nxt = I.res(s, I.load(s, P(node, C(32, sh.spec.next_off)), 'ptr'))
        if nxt.r is not None:
            if s.nul.get(nxt.r.id) is None:
                I.set_null(s, nxt.r, False)
            chk.prove(s, t.slt(pri(I, s, nxt.r), p), key + ':before-lower', where, 'the node behind has lower priority')
        return e

    def insert(I, st, v, sh, cnt, c1, key, where, ctx, first):
        d, p = ctx if isinstance(ctx, tuple) else (ctx, C(32, 0))
        if events(st, 'alloc-fail'):
            sh.unchanged()
            count_is(st, c1, cnt, key, where)
            chk.prove(st, t.slt(v, C(32, 0)), key + ':failure-reported', where, 'a failed allocation is reported')
            return
        e = ordered_insert(I, st, sh, d, p, key, where)
        count_is(st, c1, t.addc(cnt, 1), key, where)
        if e is not None and not key.startswith('insertIfAbsent'):
            chk.prove(st, t.eq(v, e[0]), key + ':yields-position', where, 'the position of the new node is returned')
    chk.group('insert', go, chk.fn(F + '::insert', 3), pp, insert)
    chk.group('insert-default', go, chk.fn(F + '::insert', 2, lambda f: 'PriorityNode' not in f.dem), payload, insert)

    def absent(I, st, v, sh, cnt, c1, key, where, ctx, first):
        if not sh.edits and not events(st, 'alloc-fail'):
            same = any(str(k).startswith('same(') and x for k, x in st.bools.items())
            chk.expect(same, key + ':refused-only-when-present', where, 'insertion is refused only when the payload is already queued', st=st)
            sh.unchanged()
            count_is(st, c1, cnt, key, where)
            chk.prove(st, t.slt(v, C(32, 0)), key + ':refusal-reported', where, 'a refused insertion is reported')
            return
        same = any(str(k).startswith('same(') and x for k, x in st.bools.items())
        if sh.edits:
            chk.expect(not same, key + ':no-duplicate', where, 'a payload already queued is not inserted again', st=st)
        insert(I, st, v, sh, cnt, c1, key, where, ctx, first)
    chk.group('insertIfAbsent', go, chk.fn(F + '::insertIfAbsent', 3), pp, absent)
    chk.group('insertIfAbsent-default', go, chk.fn(F + '::insertIfAbsent', 2), payload, absent)

    def isdata(v, r):
        return isinstance(v, P) and v.r is not None and v.r.hint == (r, DATA)

    def dequeue(I, st, v, sh, cnt, c1, key, where, ctx, first):
        if st.nul.get(first.id) is True:
            sh.unchanged()
            count_is(st, c1, cnt, key, where)
            chk.expect(I.res(st, v).r is None, key + ':empty-gives-null', where, 'an empty queue yields null', st=st)
            return
        sh.removed_one(C(32, 0))
        count_is(st, c1, t.addc(cnt, -1), key, where)
        chk.expect(isdata(v, first), key + ':yields-head', where, 'the head payload is returned', st=st)
    chk.group('dequeue', go, chk.fn(F + '::dequeue', 1), none, dequeue)

    def recycle(I, st, v, sh, cnt, c1, key, where, ctx, first):
        count_is(st, c1, cnt, key, where)
        chk.expect(not sh.freed, key + ':frees-nothing', where, 'rotation frees no node', st=st)
        sh.common()
        if st.nul.get(first.id) is True:
            sh.unchanged()
            chk.expect(I.res(st, v).r is None, key + ':empty-gives-null', where, 'an empty queue yields null', st=st)
            return
        chk.expect(isdata(v, first), key + ':yields-head', where, 'the head payload is returned', st=st)
        # result order: second node becomes the head, old head goes last
        if not sh.edits:
            chk.prove(st, t.ule(cnt, C(32, 1)), key + ':moves-head', where, 'a queue of several nodes is rotated')
            return
        root = [e for e in sh.edits if e[3].ghost is None]
        chk.expect(len(root) == 1, key + ':new-head', where, 'the head link moves to the second node', st=st)
        if len(root) == 1:
            chk.prove(st, t.eq(root[0][2], C(32, 1)), key + ':new-head', where, 'the second node becomes the head')
        mine = [e for e in sh.edits if e[3] is first]
        chk.expect(len(mine) == 1, key + ':old-head-is-last', where, 'the old head becomes the tail', st=st)
        if len(mine) == 1:
            chk.prove(st, t.eq(mine[0][2], cnt), key + ':old-head-is-last', where, 'the old head becomes the tail')
        tail = [e for e in sh.edits if e[3].ghost is not None and e[3] is not first]
        chk.expect(len(tail) == 1, key + ':tail-links-old-head', where, 'the old tail links the old head', st=st)
        if len(tail) == 1:
            chk.prove(st, t.eq(tail[0][0], cnt), key + ':tail-links-old-head', where, 'the link is added behind the last node')
            chk.prove(st, t.eq(tail[0][2], C(32, 0)), key + ':tail-links-old-head', where, 'the link added is to the old head')
            chk.prove(st, t.eq(pri(I, st.copy(), first), pri(I, st.copy(), tail[0][3])), key + ':demoted', where, 'the old head takes the priority of the tail')
    chk.group('recycle', go, chk.fn(F + '::recycle', 1), none, recycle)

    def inrange(st, pos, cnt):
        c = t.and_(t.sle(C(32, 0), pos), t.slt(pos, cnt))
        return [(s, True) for s in st.copy().assume(c, True) if not s.dead()] + [(s, False) for s in st.copy().assume(c, False) if not s.dead()]

    def removepos(I, st, v, sh, cnt, c1, key, where, pos, first):
        for s, inr in inrange(st, pos, cnt):
            sh.st = s
            chk.prove(s, t.eq(v, C(v.w, int(inr))), key + ':reports', where, 'true exactly when the position exists')
            if not inr:
                sh.unchanged()
                count_is(s, c1, cnt, key, where)
                continue
            sh.removed_one(pos)
            count_is(s, c1, t.addc(cnt, -1), key, where)
    chk.group('remove-at', go, chk.fn(F + '::remove', 2, isint), num, removepos)

    def posjudge(what):
        def j(I, st, v, sh, cnt, c1, key, where, pos, first):
            for s, inr in inrange(st, pos, cnt):
                sh.st = s
                sh.unchanged()
                count_is(s, c1, cnt, key, where)
                if what == 'data':
                    v2 = I.res(s, v)
                    if not inr:
                        chk.expect(v2.r is None, key + ':out-of-range-null', where, 'a position beyond the queue yields null', st=st)
                        continue
                    h = v2.r.hint if v2.r is not None else None
                    if isinstance(h, tuple) and h[0].ghost is not None and h[1] == DATA:
                        chk.prove(s, t.eq(h[0].ghost.vals['pos'], pos), key + ':yields-position', where, 'the payload at the position is returned')
                    else:
                        chk.refuse(s, key + ':yields-position', where, 'the payload at the position is returned')
                else:
                    if not inr:
                        chk.prove(s, t.eq(v, C(32, MASK[32])), key + ':out-of-range', where, 'a position beyond the queue yields -1')
                        continue
                    own = [r for r in (ALLREG[i] for i in s.mem) if r.ghost is not None and entry_pri(I, s, r) is v]
                    if own:
                        chk.expect(any(s.decide(t.eq(r.ghost.vals['pos'], pos)) is True for r in own), key + ':yields-position', where, 'the priority of the node at the position is returned', st=st)
                    else:
                        chk.refuse(s, key + ':yields-position', where, 'the priority of the node at the position is returned')
        return j
    chk.group('get-at', go, chk.fn(F + '::get', 2, isint), num, posjudge('data'))
    chk.group('getPriority-at', go, chk.fn(F + '::getPriority', 2, isint), num, posjudge('pri'))

    def get0(I, st, v, sh, cnt, c1, key, where, ctx, first):
        sh.unchanged()
        if st.nul.get(first.id) is True:
            chk.expect(I.res(st, v).r is None, key + ':empty-gives-null', where, 'an empty queue yields null', st=st)
        else:
            chk.expect(isdata(v, first), key + ':yields-head', where, 'the head payload is returned', st=st)
    chk.group('get', go, chk.fn(F + '::get', 1), none, get0)

    def bydata(what):
        def j(I, st, v, sh, cnt, c1, key, where, d, first):
            sh.unchanged()
            count_is(st, c1, cnt, key, where)
            hit = [str(k) for k, x in st.bools.items() if str(k).startswith('same(') and x]
            nodes = [r for r in (ALLREG[i] for i in st.mem) if r.ghost is not None]
            if not hit:
                bad = C(v.w, MASK[32]) if what != 'contains' else C(v.w, 0)
                chk.prove(st, t.eq(v, bad), key + ':absent-reported', where, 'an unmatched payload is reported absent')
                return
            # the node whose data was identified with the argument
            own = []
            for r in nodes:
                m = st.mem[r.id].cells.get(DATA)
                if m is not None and isinstance(m[1], P) and I.res(st, m[1]).r is I.res(st, d).r:
                    own.append(r)
            if len(own) != 1:
                chk.undec(key, 'matching node not identified')
                return
            g = own[0].ghost.vals['pos']
            if what == 'contains':
                chk.prove(st, t.eq(v, C(v.w, 1)), key + ':present-reported', where, 'a queued payload is reported present')
            elif what == 'pos':
                chk.prove(st, t.eq(v, g), key + ':its-position', where, 'the position of the matching node is returned')
            else:
                chk.prove(st, t.eq(v, pri(I, st.copy(), own[0])), key + ':its-priority', where, 'the priority of the matching node is returned')
        return j
    chk.group('contains', go, chk.fn(F + '::contains', 2), payload, bydata('contains'))
    chk.group('getPosition', go, chk.fn(F + '::getPosition', 2), payload, bydata('pos'))
    chk.group('getPriority', go, chk.fn(F + '::getPriority', 2, isptr), payload, bydata('pri'))

    def removedata(I, st, v, sh, cnt, c1, key, where, d, first):
        n = len(sh.freed)
        if n == 0:
            sh.unchanged()
            count_is(st, c1, cnt, key, where)
            chk.prove(st, t.eq(v, C(v.w, 0)), key + ':nothing-removed-reported', where, 'false when nothing matched')
            return
        sh.common()
        count_is(st, c1, t.addc(cnt, -n), key, where)
        chk.prove(st, t.eq(v, C(v.w, 1)), key + ':removal-reported', where, 'true when a node was removed')
        for r in sh.freed:
            p = I.res(st, I.load(st.copy(), P(r, C(32, DATA)), 'ptr'))
            chk.expect(p.r is I.res(st, d).r, key + ':removes-matching-only', where, 'only nodes with the given payload are removed', st=st)
        if n == 1:
            sh.removed_one(sh.freed[0].ghost.vals['pos'])
    chk.group('remove-data', go, chk.fn(F + '::remove', 2, isptr), payload, removedata)

    def getbypri(I, st, v, sh, cnt, c1, key, where, p, first):
        sh.unchanged()
        v2 = I.res(st, v)
        if v2.r is None:
            return
        h = v2.r.hint
        if isinstance(h, tuple) and h[0].ghost is not None and h[1] == DATA:
            chk.prove(st, t.eq(pri(I, st.copy(), h[0]), p), key + ':right-priority', where, 'the payload returned belongs to a node of the requested priority')
        else:
            chk.refuse(st, key + ':right-priority', where, 'the value returned is not a queued payload')
    chk.group('getByPriority', go, chk.fn(F + '::getByPriority', 2), num, getbypri)

    def size(I, st, v, sh, cnt, c1, key, where, d, first):
        sh.unchanged()
        chk.prove(st, t.eq(v, cnt), key + ':exact', where, 'the number of nodes is reported')
    chk.group('size', go, chk.fn(F + '::size', 1), none, size)
    chk.group('count', go, chk.fn(F + '::count', 1), none, size)

    def hasnext(I, st, v, sh, cnt, c1, key, where, d, first):
        sh.unchanged()
        for s in st.copy().assume(t.eq(v, C(v.w, 0)), True):
            chk.expect(st.nul.get(first.id) is True, key + ':false-iff-empty', where, 'false only for an empty queue', st=st)
        for s in st.copy().assume(t.ne(v, C(v.w, 0)), True):
            chk.expect(st.nul.get(first.id) is False, key + ':true-iff-some', where, 'true only for a non-empty queue', st=st)
    chk.group('hasNext', go, chk.fn(F + '::hasNext', 1), none, hasnext)

    def ctor():
        b = CLS.split('<')[0]
        fn = chk.fn(F + '::' + b, 1)
        I = chk.interp()
        st = State()
        this = I.new_region(st, 'heap', 'this', cls=CLS)
        for s, v in chk.run(I, fn, st, [P(this)]):
            c = fld(chk, I, s, this, CLS, 'element_count')
            chk.prove(s, t.eq(c, C(32, 0)), 'constructor:empty', fn.loc(), 'a new container is empty')
            r = I.res(s, I.load(s, P(this, C(32, M.off(CLS, 'root'))), 'ptr'))
            chk.expect(r.r is None, 'constructor:no-node', fn.loc(), 'a new container has no node', st=s)
    chk.group('constructor', ctor)
    deep = chk.tier != 'quick'
    histories.run(chk, [(histories.Queue, e, p, n + deep, 20000) for e, p, n in (('ab', (0, 1), 3), ('a', (-1, 0, 1), 4), ('abc', (0,), 3), ('ab', (-2, 7), 3), ('abc', (0, 1), 2))])
