"""The type registry is evaluated abstractly for all 256 type codes and the conversion-risk table for
every pair of integral types.  The declared risk is compared with the abstract outcome set of the
actual conversion from an arbitrary source value: 0 admits no failing path, -1 no succeeding path,
the width bit requires a failing non-negative value and the sign bit a failing negative one."""
from lib import *
from p05_convert import world, INTS

NUM = {'INT8': 1, 'INT16': 2, 'INT32': 4, 'INT64': 8, 'UINT8': 1, 'UINT16': 2, 'UINT32': 4, 'UINT64': 8, 'BOOLEAN': 1, 'FLOAT': 4, 'DOUBLE': 8,
       'VECT_3_INT8': 3, 'VECT_3_UINT8': 3, 'VECT_3_INT16': 6, 'VECT_3_UINT16': 6, 'VECT_3_INT32': 12, 'VECT_3_UINT32': 12, 'VECT_3_FLOAT': 12, 'VECT_3_DOUBLE': 24}
NUMERIC = 'INT8 INT16 INT32 INT64 INT128 UINT8 UINT16 UINT32 UINT64 UINT128 BOOLEAN FLOAT DOUBLE COLOR8 COLOR16 COLOR24 IPV4_ADDR'.split()
SIGNED = 'INT8 INT16 INT32 INT64 INT128 FLOAT DOUBLE'.split()
VAR = 'STR STR_BUILDER BINARY CBOR KVP IMAGE IDENTITY TIMESERIES'.split()


def one(chk, name, *args):
    """the single value of a wrapper on constant arguments"""
    I, st = chk.world
    outs = chk.run(I, chk.M.funcs[name], st.copy(), list(args))
    if len(outs) != 1 or outs[0][0].notes:
        raise Unsupported('%s: %d outcomes' % (name, len(outs)))
    s, v = outs[0]
    if isinstance(v, T):
        v = s.norm(v)
        if not isc(v):
            raise Unsupported('%s: not constant: %s' % (name, v))
        return sval(cv(v), v.w) if v.w in (8, 32) else cv(v)
    return v


def cstr(v):
    b = v.r.data[cv(v.o):]
    return b[:b.index(0)].decode('latin1')


def registry(chk, E, tc):
    inv = {}
    for k, v in E.items():
        inv.setdefault(v, k)
    nm = inv.get(tc, str(tc))
    f = 'src/C3PValue/C3PType.cpp'
    c = C(8, tc)
    h = one(chk, 'c3pv_type_helper', c)
    known = isinstance(h, P) and h.r is not None
    size = one(chk, 'c3pv_type_sizeof', c)
    name = cstr(one(chk, 'c3pv_type_name', c))
    fixed = one(chk, 'c3pv_type_isfixed', c)
    pun = one(chk, 'c3pv_type_ispunned', c)
    chk.expect(one(chk, 'c3pv_int_to_tcode', c) & 255 == tc, nm + ':code-round-trip', f, 'IntToTcode/TcodeToInt alter the code')
    chk.expect(bool(one(chk, 'c3pv_type_numeric', c)) == (nm in NUMERIC), nm + ':is_numeric', f, 'is_numeric misclassifies ' + nm)
    chk.expect(bool(one(chk, 'c3pv_type_signed', c)) == (nm in SIGNED), nm + ':is_signed', f, 'is_signed misclassifies ' + nm)
    chk.expect(bool(one(chk, 'c3pv_type_integral', c)) == (nm in NUMERIC and nm not in ('FLOAT', 'DOUBLE')), nm + ':is_integral', f, 'is_integral misclassifies ' + nm)
    if not known:
        chk.expect(size == -1, nm + ':unsupported-size', f, 'size of an unsupported type is %d' % size)
        chk.expect(not fixed and not pun, nm + ':unsupported-flags', f, 'an unsupported type claims a property')
        chk.expect(name == 'UNKNOWN', nm + ':unsupported-name', f, 'an unsupported type is named ' + name)
        chk.expect(nm not in NUM and nm not in ('STR', 'BINARY', 'STR_BUILDER', 'KVP'), nm + ':supported', f, nm + ' has no helper')
        return None
    own = one(chk, 'c3pv_type_code', h) & 255
    hl = one(chk, 'c3pv_type_len', h)
    chk.expect(own == tc or nm == 'SI_UNIT', nm + ':helper-is-for-this-code', f, 'the helper found for %s is for %s' % (nm, inv.get(own, own)))
    chk.expect(size == hl, nm + ':size', f, 'sizeOfType %d, helper %d' % (size, hl))
    chk.expect(bool(fixed) == (hl > 0) == bool(one(chk, 'c3pv_type_fixed', h)), nm + ':fixed-length', f, 'fixed-length predicates disagree')
    if nm in NUM:
        chk.expect(size == NUM[nm], nm + ':width', f, 'size of %s is %d, not %d' % (nm, size, NUM[nm]))
        chk.expect(bool(one(chk, 'c3pv_type_by_copy', h)), nm + ':by-copy', f, nm + ' is not a by-copy type')
        chk.expect(bool(pun) == (NUM[nm] <= 4), nm + ':punned-iff-fits-pointer', f, '%d byte type, punned=%s' % (NUM[nm], bool(pun)))
    if nm in VAR:
        chk.expect(size == 0, nm + ':variable-size', f, 'variable-length type has size %d' % size)
        chk.expect(not one(chk, 'c3pv_type_by_copy', h), nm + ':by-reference', f, nm + ' is flagged by-copy')
    chk.expect(bool(one(chk, 'c3pv_type_ptr_len', h)) == (nm in ('BINARY', 'CBOR')), nm + ':pointer-length', f, 'pointer-length flag wrong')
    return name, own


def risk(chk, E, s, d):
    I, st = chk.world
    f = 'src/C3PValue/C3PType.cpp'
    key = 'risk(%s,%s)' % (s, d)
    r = one(chk, 'c3pv_type_risk', C(8, E[s]), C(8, E[d]))
    st = st.copy()
    sr = I.new_region(st, 'lazy', 'source', size=C(32, INTS[s][0] // 8))
    dr = I.new_region(st, 'lazy', 'dest', size=C(32, INTS[d][0] // 8))
    w, sg = INTS[s]
    v = I.load(st, P(sr), 'i%d' % w)
    outs = chk.run(I, chk.M.funcs['c3pv_type_get_as'], clean(st), [C(8, E[s]), P(sr), C(8, E[d]), P(dr)])
    got = {'ok': False, 'neg': False, 'pos': False}
    for s1, ret in outs:
        for b in (True, False):
            for s2 in s1.copy().assume(t.eq(ret, C(8, 0)), b):
                if s2.dead():
                    continue
                if not chk.exact(s2):
                    chk.undec(key, 'imprecise path')
                    return
                if b:
                    got['ok'] = got['ok'] or s2.point() is not None
                    continue
                for neg in (True, False):
                    g = t.slt(v, C(w, 0)) if sg else C(1, 0)
                    for s3 in s2.copy().assume(g, neg):
                        if not s3.dead() and s3.point() is not None:
                            got['neg' if neg else 'pos'] = True
    want = -1 if not got['ok'] else (1 if got['pos'] else 0) | (2 if got['neg'] and (not INTS[d][1]) else 0)
    if want == 0 and got['neg']:
        want = 1
    chk.expect(r == want, key, f, 'declared risk %d; the conversion %s' % (r, 'never succeeds' if not got['ok'] else 'always succeeds' if not (got['neg'] or got['pos'])
               else 'can fail for ' + ' and '.join(x for x, y in (('negative', got['neg']), ('non-negative', got['pos'])) if y) + ' values'))


def run(chk):
    chk.world = world(chk)
    E = dict(chk.M.enums['TCode']['vals'])
    names = {}
    for tc in range(256):
        chk.count('type codes')
        x = chk.group('code %d' % tc, registry, chk, E, tc)
        if x:
            names.setdefault(x[0], set()).add(x[1])
    for n, o in sorted(names.items()):
        chk.expect(len(o) == 1, 'name:' + n, 'src/C3PValue/C3PType.cpp', 'type name %s is shared by codes %s' % (n, sorted(o)))
    for w, n in (('i8', 'INT8'), ('i16', 'INT16'), ('i32', 'INT32'), ('i64', 'INT64'), ('u8', 'UINT8'), ('u16', 'UINT16'), ('u32', 'UINT32'), ('u64', 'UINT64'), ('bool', 'BOOLEAN'), ('f', 'FLOAT'), ('d', 'DOUBLE')):
        v = chk.group('tcodeForType ' + n, one, chk, 'c3pv_tc_' + w)
        if v is not None:
            chk.expect(v & 255 == E[n], 'tcodeForType(%s)' % n, 'src/C3PValue/C3PType.h', 'tcodeForType gives %d for %s' % (v & 255, n))
    for s in INTS:
        for d in INTS:
            chk.count('risk pairs')
            chk.group('risk %s %s' % (s, d), risk, chk, E, s, d)
