"""Each linked-list operation is interpreted over an arbitrary null-terminated list (ghosted node
positions; list walks generalised inductively, so any length is covered).  On every exit path the
links written, the nodes freed and the cached count are compared with the operation's contract:
exactly the stated node is linked or unlinked, an unlinked node is freed once, nothing else moves,
and the count follows."""
from lib import *
import histories
import listlib

ASSUME = ['list length below 2^28', 'single-threaded use', 'the list is well formed and its cached count right on entry (established by every operation checked here)']
F = 'LinkedList<C3PVerifElem*>'
CLS = 'LinkedList<C3PVerifElem *>'
NODE = 'Node<C3PVerifElem *>'


def run(chk):
    M = chk.M
    DATA = M.off(NODE, 'data')

    def go(fn, args, judge):
        I, st, this, spec, cnt, first = listlib.make(chk, CLS, NODE)
        a, ctx = args(I, st)
        where = fn.loc()
        key = fn.dem.split('::')[-1]
        outs = chk.run(I, fn, st, [P(this)] + a)
        if not outs:
            raise AnalysisBroken('no exit of ' + fn.dem)
        for s, v in outs:
            if listlib.widened(chk, s, key, where):
                continue
            sh = listlib.Shape(chk, I, s, spec, this, M.off(CLS, 'root'), key, where)
            c1 = s.norm(fld(chk, I, s, this, CLS, 'element_count'))
            judge(I, s, v, sh, cnt, c1, key, where, ctx, first)
            chk.count('exit paths judged')

    def peq(st, I, a, b):
        a, b = I.res(st, a), I.res(st, b)
        return a.r is b.r and a.o is b.o

    def payload(I, st):
        r = Region('lazy', 'payload', cls=None, maybe_null=False)
        return [P(r)], P(r)

    def maybe(I, st):
        r = Region('lazy', 'payload', cls=None, maybe_null=True)
        return [P(r)], P(r)

    def posarg(I, st):
        x = t.S(32, 'position')
        return [x], x
    none = lambda I, st: ([], None)

    def count_is(chk, st, c1, exp, key, where):
        chk.prove(st, t.eq(c1, exp), key + ':count', where, 'the cached count follows the number of nodes')

    def insert(at):
        def j(I, st, v, sh, cnt, c1, key, where, d, first):
            if events(st, 'alloc-fail'):
                sh.unchanged()
                count_is(chk, st, c1, cnt, key, where)
                chk.prove(st, t.slt(v, C(32, 0)), key + ':failure-reported', where, 'a failed allocation is reported')
                return
            sh.inserted_one(cnt if at == 'tail' else C(32, 0), DATA, d)
            count_is(chk, st, c1, t.addc(cnt, 1), key, where)
            chk.prove(st, t.sle(C(32, 0), v), key + ':success-reported', where, 'success is reported')
        return j
    chk.group('insert', go, chk.fn(F + '::insert', 2), payload, insert('tail'))
    chk.group('insertAtHead', go, chk.fn(F + '::insertAtHead', 2), payload, insert('head'))

    def remove0(I, st, v, sh, cnt, c1, key, where, ctx, first):
        if st.nul.get(first.id) is True:
            sh.unchanged()
            count_is(chk, st, c1, cnt, key, where)
            chk.expect(peq(st, I, v, NULL), key + ':empty-gives-null', where, 'removing from an empty list yields null', st=st)
            return
        sh.removed_one(C(32, 0))
        count_is(chk, st, c1, t.addc(cnt, -1), key, where)
        chk.expect(isinstance(v, P) and v.r is not None and v.r.hint == (first, DATA), key + ':yields-head', where, 'the head payload is returned', st=st)
    chk.group('remove', go, chk.fn(F + '::remove', 1), none, remove0)

    isint = lambda f: f.args[1]['ty'] != 'ptr'
    isptr = lambda f: f.args[1]['ty'] == 'ptr'

    def inrange(st, pos, cnt):
        c = t.and_(t.sle(C(32, 0), pos), t.slt(pos, cnt))
        return [(s, True) for s in st.copy().assume(c, True)] + [(s, False) for s in st.copy().assume(c, False)]

    def removepos(I, st, v, sh, cnt, c1, key, where, pos, first):
        for s, inr in inrange(st, pos, cnt):
            if s.dead():
                continue
            sh.st = s
            if not inr:
                sh.unchanged()
                count_is(chk, s, c1, cnt, key, where)
                continue
            sh.removed_one(pos)
            count_is(chk, s, c1, t.addc(cnt, -1), key, where)
            v2 = I.res(s, v)
            h = v2.r.hint if v2.r is not None else None
            if isinstance(h, tuple) and h[0].ghost is not None and h[1] == DATA:
                chk.prove(s, t.eq(h[0].ghost.vals['pos'], pos), key + ':yields-position', where, 'the payload at the position is returned')
            else:
                chk.refuse(s, key + ':yields-position', where, 'the payload at the position is returned')
    chk.group('remove-at', go, chk.fn(F + '::remove', 2, isint), posarg, removepos)

    def getpos(I, st, v, sh, cnt, c1, key, where, pos, first):
        for s, inr in inrange(st, pos, cnt):
            if s.dead():
                continue
            sh.st = s
            sh.unchanged()
            count_is(chk, s, c1, cnt, key, where)
            v2 = I.res(s, v)
            if not inr:
                chk.expect(v2.r is None, key + ':out-of-range-null', where, 'a position beyond the list yields null', st=st)
                continue
            h = v2.r.hint if v2.r is not None else None
            if isinstance(h, tuple) and h[0].ghost is not None and h[1] == DATA:
                chk.prove(s, t.eq(h[0].ghost.vals['pos'], pos), key + ':yields-position', where, 'the payload at the position is returned')
            else:
                chk.refuse(s, key + ':yields-position', where, 'the payload at the position is returned')
    chk.group('get-at', go, chk.fn(F + '::get', 2, isint), posarg, getpos)

    def get0(I, st, v, sh, cnt, c1, key, where, ctx, first):
        sh.unchanged()
        count_is(chk, st, c1, cnt, key, where)
        # decided by emptiness
        if st.nul.get(first.id) is True:
            chk.expect(I.res(st, v).r is None, key + ':empty-gives-null', where, 'an empty list yields null', st=st)
        else:
            chk.expect(v.r is not None and v.r.hint == (first, DATA), key + ':yields-head', where, 'the head payload is returned', st=st)
    chk.group('get', go, chk.fn(F + '::get', 1), none, get0)

    def removedata(I, st, v, sh, cnt, c1, key, where, d, first):
        n = len(sh.freed)
        if n == 0:
            sh.unchanged()
            count_is(chk, st, c1, cnt, key, where)
            chk.prove(st, t.eq(v, C(v.w, 0)), key + ':nothing-removed-reported', where, 'false when nothing matched')
            return
        sh.common()
        count_is(chk, st, c1, t.addc(cnt, -n), key, where)
        chk.prove(st, t.eq(v, C(v.w, 1)), key + ':removal-reported', where, 'true when a node was removed')
        for r in sh.freed:
            p = I.res(st, I.load(st.copy(), P(r, C(32, DATA)), 'ptr'))
            chk.expect(p.r is I.res(st, d).r, key + ':removes-matching-only', where, 'only nodes with the given payload are removed', st=st)
        if n == 1:
            sh.removed_one(sh.freed[0].ghost.vals['pos'])
    chk.group('remove-data', go, chk.fn(F + '::remove', 2, isptr), payload, removedata)

    def contains(I, st, v, sh, cnt, c1, key, where, d, first):
        sh.unchanged()
        count_is(chk, st, c1, cnt, key, where)
        if st.decide(t.eq(v, C(v.w, 1))) is True:
            same = any(str(k).startswith('same(') and x for k, x in st.bools.items())
            chk.expect(same, key + ':true-means-present', where, 'true only after a node payload compared equal', st=st)
        elif st.nul.get(first.id) is True:
            chk.prove(st, t.eq(v, C(v.w, 0)), key + ':empty-is-false', where, 'an empty list contains nothing')
    chk.group('contains', go, chk.fn(F + '::contains', 2), payload, contains)

    def size(I, st, v, sh, cnt, c1, key, where, d, first):
        sh.unchanged()
        count_is(chk, st, c1, cnt, key, where)
        chk.prove(st, t.eq(v, cnt), key + ':exact', where, 'the number of nodes is reported')
    chk.group('size', go, chk.fn(F + '::size', 1), none, size)
    chk.group('count', go, chk.fn(F + '::count', 1), none, size)

    def hasnext(I, st, v, sh, cnt, c1, key, where, d, first):
        sh.unchanged()
        for s in st.copy().assume(t.eq(v, C(v.w, 0)), True):
            chk.expect(st.nul.get(first.id) is True, key + ':false-iff-empty', where, 'false only for an empty list', st=st)
        for s in st.copy().assume(t.ne(v, C(v.w, 0)), True):
            chk.expect(st.nul.get(first.id) is False, key + ':true-iff-some', where, 'true only for a non-empty list', st=st)
    chk.group('hasNext', go, chk.fn(F + '::hasNext', 1), none, hasnext)

    def ctor():
        b = CLS.split('<')[0]
        fn = chk.fn(F + '::' + b, 1)
        I = chk.interp()
        st = State()
        this = I.new_region(st, 'heap', 'this', cls=CLS)
        for s, v in chk.run(I, fn, st, [P(this)]):
            c = fld(chk, I, s, this, CLS, 'element_count')
            chk.prove(s, t.eq(c, C(32, 0)), 'constructor:empty', fn.loc(), 'a new container is empty')
            r = I.res(s, I.load(s, P(this, C(32, M.off(CLS, 'root'))), 'ptr'))
            chk.expect(r.r is None, 'constructor:no-node', fn.loc(), 'a new container has no node', st=s)
    chk.group('constructor', ctor)
    histories.run(chk, [(histories.List, 'ab', 4 if chk.tier == 'quick' else 6, 4000), (histories.List, 'abc', 3 if chk.tier == 'quick' else 4, 4000)])
