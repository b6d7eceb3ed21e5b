"""The type helpers' conversions between the nine integral types are interpreted for every
(source type, destination type) pair, in both directions of the API (set_from on the destination's
helper, get_as on the source's helper), with an arbitrary source value.  On each exit path:
success iff the source value is representable, the stored value equal to the source, failure without
a write, and every access inside the two objects."""
from lib import *

INTS = {'INT8': (8, 1), 'INT16': (16, 1), 'INT32': (32, 1), 'INT64': (64, 1), 'UINT8': (8, 0), 'UINT16': (16, 0), 'UINT32': (32, 0), 'UINT64': (64, 0), 'BOOLEAN': (8, 0)}


def world(chk):
    """the state after static initialisation of the type table"""
    I = chk.interp(max_states=5000)
    outs = I.call(chk.M.funcs['_GLOBAL__sub_I_C3PType.cpp'], State(), [])
    if len(outs) != 1 or outs[0][0].notes:
        raise AnalysisBroken('static initialisation of the type table is not constant')
    return I, outs[0][0]


def representable(v, s, d):
    """v (term of the source type) fits the destination"""
    (sw, ss), (dw, ds) = INTS[s], INTS[d]
    if d == 'BOOLEAN' or s == 'BOOLEAN':
        return C(1, 1)
    g = C(1, 1)
    dmax = (1 << (dw - (1 if ds else 0))) - 1
    smax = (1 << (sw - (1 if ss else 0))) - 1
    if ss and not ds:
        g = t.and_(g, t.not_(t.slt(v, C(sw, 0))))
    elif ss and ds and dw < sw:
        g = t.and_(g, t.not_(t.slt(v, C(sw, (-(1 << (dw - 1))) & ((1 << sw) - 1)))))
    if dmax < smax:
        m = C(sw, dmax)
        g = t.and_(g, t.not_(t.slt(m, v)) if ss else t.ule(v, m))
    return g


def equal(v, w, s, d):
    """the stored w (destination type) denotes the same number as v"""
    (sw, ss), (dw, ds) = INTS[s], INTS[d]
    if d == 'BOOLEAN':
        nz = t.not_(t.eq(v, C(sw, 0)))
        return t.and_(t.or_(t.not_(nz), t.eq(w, C(8, 1))), t.or_(nz, t.eq(w, C(8, 0))))
    # representable already holds, so equality modulo the smaller width is equality
    if dw <= sw:
        return t.eq(w, t.trunc(v, dw))
    return t.eq(w, t.sext(v, dw) if ss and ds else t.zext(v, dw))


def pair(chk, d, s, mode, bit=None):
    I, st = chk.world
    st = st.copy()
    E = dict(chk.M.enums['TCode']['vals'])
    sr = I.new_region(st, 'lazy', 'source', size=C(32, INTS[s][0] // 8))
    dr = I.new_region(st, 'lazy', 'dest', size=C(32, INTS[d][0] // 8))
    if bit is not None:
        I.store(st, P(sr), C(8, bit), 'i8')
    v = I.load(st, P(sr), 'i%d' % INTS[s][0])
    w0 = I.load(st, P(dr), 'i%d' % INTS[d][0])
    st = clean(st)
    I.cfg.on_access = acc_hook({sr, dr})
    if mode == 'set_from':
        f = chk.M.funcs['c3pv_type_set_from']
        outs = chk.run(I, f, st, [C(8, E[d]), P(dr), C(8, E[s]), P(sr)])
    else:
        f = chk.M.funcs['c3pv_type_get_as']
        outs = chk.run(I, f, st, [C(8, E[s]), P(sr), C(8, E[d]), P(dr)])
    key = '%s.%s(%s)' % ((d, mode, s) if mode == 'set_from' else (s, mode, d))
    where = 'src/C3PValue/C3PType.cpp'
    for x in sorted(I.visited):
        if '::' + mode in chk.M.funcs[x].base if x in chk.M.funcs else False:
            where = chk.M.funcs[x].loc()
    for s1, ret in outs:
        check_bounds(chk, s1, key + ':within-objects', {sr, dr})
        ok = t.eq(ret, C(8, 0))
        for b in (True, False):
            for s2 in s1.copy().assume(ok, b):
                if s2.dead():
                    continue
                rep = representable(v, s, d)
                w = s2.norm(I.load(s2, P(dr), 'i%d' % INTS[d][0]))
                if b:
                    chk.prove(s2, rep, key + ':success-only-when-representable', where, 'the conversion reports success')
                    chk.prove(s2, equal(v, w, s, d), key + ':value-preserved', where, 'stored value %s for source %s' % (w, s2.norm(v)))
                else:
                    chk.prove(s2, t.not_(rep), key + ':failure-only-when-unrepresentable', where, 'the conversion reports failure')
                    chk.prove(s2, t.eq(w, w0), key + ':failure-leaves-destination', where, 'destination holds %s' % w)


def run(chk):
    chk.world = world(chk)
    for d in INTS:
        for s in INTS:
            for mode in ('set_from', 'get_as'):
                chk.count('conversion pairs')
                for bit in ((0, 1) if s == 'BOOLEAN' else (None,)):
                    chk.group('%s<-%s %s' % (d, s, mode), pair, chk, d, s, mode, bit)
