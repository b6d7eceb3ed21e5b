"""The functions that name enumerated values are interpreted on all 256 codes: each gives a proper string, the
enumerators get their own names, and no two the same. EnumDefList<> is interpreted on every small list with every
combination of flags; the SI names on every code and on a family of unit strings."""
import itertools
from balib import *
import p05_convert

LEVEL = 'other'
ASSUME = ['lists of up to three definitions', 'unit strings of up to four elements of the grammar that is implemented']
HDR = 'src/EnumWrapper.h'
SI = 'src/EnumeratedTypeCodes.cpp'

# function -> (enum, {enumerator: its name where that is not the enumerator}); None: any name of its own
NAMES = {
    'getFilterStr': ('FilteringStrategy', {}),
    'getPinModeStr': ('GPIOMode', {}),
    'getDataVisString': ('DataVis', {}),
    'shutdownCauseStr': ('ShutdownCause', {}),
    'getIRQConditionString': ('IRQCondition', {'NONE': None}),
    'lineTerminatorNameStr': ('LineTerm', {'INVALID': ''}),
    'lineTerminatorLiteralStr': ('LineTerm', {'ZEROBYTE': '', 'INVALID': '', 'CR': '\r', 'LF': '\n', 'CRLF': '\r\n'}),
    'DataRecord::recordTypeStr': ('StorageRecordType', {}),
    'BatteryOpts::batteryStateStr': ('ChargeState', {}),
    'TripleAxisPipe::spatialSenseStr': ('SpatialSense', {'ENUM_SIZE': None}),
    'TripleAxisCompass::errorString': ('CompassErr', {k: None for k in ('NO_MEM', 'PARAM_MISSING', 'PARAM_RANGE', 'UNLIKELY', 'STALE')}),
    'BusOp::getErrorString': ('XferFault', {}),
    'BusOp::getStateString': ('XferState', {'UNDEF': None}),
    'BusOp::getOpcodeString': ('BusOpcode', {'UNDEF': None, 'TX_WAIT_RX': None, 'TX_CMD_WAIT_RX': None}),
    'Image::formatString': ('ImgBufferFormat', {}),
    'Storage::errStr': ('StorageErr', {}),
    'Identity::identityTypeString': ('IdentFormat', {'CERT_FORMAT_DER': None, 'PK': None, 'PSK_SYM': None, 'PSK_HMAC': None}),
    'M2MLink::msgCodeStr': ('M2MMsgCode', {'SERVICE_SLOT_%X' % k: None for k in range(16)}),
    'M2MLink::sessionStateStr': ('M2MLinkState', {}),
}
SAME_OK = {('lineTerminatorLiteralStr', ''), ('M2MLink::msgCodeStr', 'SERVICESLOT')}

PREFIX = {-15: ('f', 'femto'), -12: ('p', 'pico'), -9: ('n', 'nano'), -6: ('u', 'micro'), -3: ('m', 'milli'), -2: ('c', 'centi'), -1: ('d', 'deci'), 0: ('', ''), 1: ('da', 'deca'),
          2: ('h', 'hecto'), 3: ('k', 'kilo'), 6: ('M', 'mega'), 9: ('G', 'giga'), 12: ('T', 'tera'), 15: ('P', 'peta')}
UNIT = {'UNITLESS': ('', '(unitless)'), 'SECONDS': ('s', 'seconds'), 'METERS': ('m', 'meters'), 'GRAMS': ('g', 'grams'), 'AMPERES': ('A', 'Amps'), 'KELVIN': ('K', 'Kelvin'),
        'MOLES': ('mol', 'mol'), 'CANDELAS': ('cd', 'candela'), 'COUNTS': ('', 'counts'), 'DEGREES': ('deg', 'degrees'), 'RADIANS': ('rad', 'radians'), 'STERADIANS': (None, 'steradians'),
        'PH': ('pH', 'pH'), 'DECIBEL': ('dB', 'dB'), 'GEES': (None, None), 'COULOMBS': (None, 'Coulombs'), 'VOLTS': ('V', 'Volts'), 'FARADS': ('F', 'Farads'), 'OHMS': ('Ohms', 'Ohms'),
        'WEBERS': ('Wb', 'Webers'), 'TESLAS': ('T', 'Teslas'), 'LUMENS': ('lm', 'lumens'), 'HERTZ': ('Hz', 'Hertz'), 'NEWTONS': ('N', 'Newtons'), 'PASCALS': ('Pa', 'Pascals'),
        'JOULES': ('J', 'Joules'), 'WATTS': ('W', 'Watts'), 'CELCIUS': ('C', None), 'CONSTANT_PI': ('pi', 'pi'), 'CONSTANT_EULER': ('e', 'e'), 'CONSTANT_C': ('c', 'c'), 'CONSTANT_G': ('G', 'G'),
        'OPERATOR_EXPONENT': ('^', '^'), 'OPERATOR_PLUS': ('+', '+'), 'OPERATOR_MINUS': ('-', '-'), 'OPERATOR_MULTIPLIED': ('*', '*'), 'OPERATOR_DIVIDED': ('/', '/'),
        'OPERATOR_GROUP_LEFT': ('(', '('), 'OPERATOR_GROUP_RIGHT': (')', ')')}


def i(n):
    return C(32, n & 0xffffffff)


def only(l):
    if len(l) > 1:
        l = [x for x in l if not x[0].dead() and not x[0].empty()]
    if len(l) != 1:
        raise Unsupported('%d outcomes' % len(l))
    return l[0]


def plain(s):
    return s.replace(' ', '').replace('_', '').replace('-', '').upper()


def text(I, st, p):
    """the string at a pointer, None if it is not one"""
    p = I.res(st, p)
    if p.r is None or not isc(p.o):
        return None
    o, out = cv(p.o), ''
    while len(out) < 300:
        b = st.norm(I.load(st, P(p.r, i(o)), 'i8', None, None))
        if not isc(b):
            return None
        if cv(b) == 0:
            return out
        out += chr(cv(b))
        o += 1


def find(chk, name, types):
    l = [f for f in chk.M.funcs.values() if not f.decl and f.dem.split('(')[0] == name and len(f.dtypes or ()) == 1 + len(types)
         and all(str(d).replace('const ', '').strip() in ([w] if isinstance(w, str) else w) for d, w in zip(f.dtypes[1:], types))]
    if len(l) != 1:
        raise Unsupported('%d functions %s(%s)' % (len(l), name, types))
    return l[0]


def start(chk, name):
    I = binterp(chk)
    I.cfg.program_start = True
    st = State()
    if name == 'M2MLink::sessionStateStr':
        f = [g for g in chk.M.funcs.values() if g.name == '_GLOBAL__sub_I_M2MLink.cpp']
        if f:
            st, _ = only(chk.run(I, f[0], st, []))
    return I, st


def naming(chk, name):
    en, exc = NAMES[name]
    f = chk.M.funcs[find(chk, name, [en]).name]
    I, st = start(chk, name)
    vals = dict(chk.M.enums[en]['vals'])
    by = {}
    for k, v in vals.items():
        by.setdefault(v & 255, []).append(k)
    seen = {}
    where = f.dem
    for code in range(256):
        I.steps = 0
        key = '%s(%d)' % (name, code)
        s, p = only(chk.run(I, f, st.copy(), [C(8, code)]))
        memory(chk, s, key)
        z = text(I, s, p)
        if not chk.expect(z is not None, key + ':string', where, 'the name is not a string', s):
            continue
        for k in by.get(code, []):
            want = exc.get(k, k) if k in exc else k
            if want is not None:
                chk.expect(plain(z) == plain(want) if k not in exc else z == want, key + ':name', where, 'the name of %s is "%s"' % (k, z), s)
            other = seen.setdefault(plain(z) if z.strip() else z, code)
            chk.expect(other == code or (name, plain(z) if z.strip() else z) in SAME_OK, key + ':own', where, '%s has the name of another value (%d): "%s"' % (k, other, z), s)
        if code not in by:
            other = seen.setdefault(None, z)
            chk.expect(other == z, key + ':unknown', where, 'undefined values are called "%s" and "%s"' % (other, z), s)


def terminator(chk):
    f = find(chk, 'lineTerminatorLength', ['LineTerm'])
    want = {'ZEROBYTE': 1, 'CR': 1, 'LF': 1, 'CRLF': 2, 'INVALID': 0}
    vals = dict(chk.M.enums['LineTerm']['vals'])
    for code in range(256):
        I, st = start(chk, '')
        s, v = only(chk.run(I, f, st, [C(8, code)]))
        w = [want[k] for k, x in vals.items() if x & 255 == code] or [0]
        chk.prove(s, t.eq(v, C(8, w[0])), 'lineTerminatorLength(%d)' % code, SI, 'the length of the line terminator is wrong')


def si_plain(chk):
    vals = {v & 255: k for k, v in chk.M.enums['SIUnit']['vals']}
    f = find(chk, 'SIUnitToStr', ['SIUnit', ('bool', '_Bool')])
    g = find(chk, 'metricPrefixStr', [('int8_t', 'signed char', '__int8_t'), ('bool', '_Bool')])
    for sym in (0, 1):
        for code in range(256):
            I, st = start(chk, '')
            s, p = only(chk.run(I, f, st, [C(8, code), C(1, sym)]))
            z, k = text(I, s, p), vals.get(code)
            w = UNIT.get(k, ('', ''))[1 - sym]
            chk.expect(z is not None and (w is None or z == w) and (k not in UNIT or w == '' or bool(z)), 'SIUnitToStr(%s, %d)' % (k or code, sym), SI, 'the unit is called "%s"' % z, s)
            I, st = start(chk, '')
            s, p = only(chk.run(I, g, st, [C(8, code), C(1, sym)]))
            z = text(I, s, p)
            w = PREFIX.get(code - 256 if code > 127 else code, ('', ''))[1 - sym]
            chk.expect(z == w, 'metricPrefixStr(%d, %d)' % (code, sym), SI, 'the prefix is called "%s"' % z, s)


def grammar(chk, elems, sym):
    """a unit string renders as the concatenation of its elements"""
    vals = {k: v & 255 for k, v in chk.M.enums['SIUnit']['vals']}
    key = 'unit string %s, %d' % (elems, sym)
    f = [x for x in chk.M.funcs.values() if not x.decl and x.dem.split('(')[0] == 'SIUnitToStr' and 'StringBuilder' in x.dem][0]
    I = binterp(chk)
    I.cfg.program_start = True
    I.cfg.models['StringBuilder::concatf'] = num_model(chk)
    w = BW(chk, I)
    code, want = [vals['UNIT_GRAMMAR_MARKER']], ''
    for e in elems:
        if isinstance(e, tuple):
            op, arg = e
            code += [vals[op], arg & 255]
            if op == 'META_ORDER_OF_MAGNITUDE':
                want += PREFIX.get(arg, ('', ''))[1 - sym]
            elif op == 'META_LITERAL_TCODE':
                want += '-' if arg == -1 else '' if arg == 1 else str(arg)
        else:
            code.append(vals[e])
            want += UNIT[e][1 - sym]
    code.append(0)
    r = P(I.new_region(w.st, 'lazy', 'units', size=i(len(code))))
    for k, b in enumerate(code):
        I.store(w.st, P(r.r, i(k)), C(8, b), 'i8')
    out = w.given((), [])
    st, _ = only(chk.run(I, f, w.st, [r, out, C(1, sym)]))
    memory(chk, st, key)
    content(chk, I, st, out, [C(8, ord(c)) for c in want], key, 'the unit string does not print as "%s"' % want, where=SI)


def num_model(chk):
    """concatf("%d", n) appends the decimal text of n"""
    def m(I, st, a, o, fn):
        fmt = text(I, st, a[1])
        v = st.norm(a[2])
        if fmt not in ('%d', '%i') or not isc(v):
            raise Unsupported('concatf of something else')
        s = str(sval(cv(v), 32))
        r = P(I.new_region(st, 'lazy', 'digits', size=i(len(s) + 1)))
        for k, c in enumerate(s + '\0'):
            I.store(st, P(r.r, i(k)), C(8, ord(c)), 'i8')
        f = [g for g in chk.M.funcs.values() if g.dem == 'StringBuilder::concat(char const*)'] or [g for g in chk.M.funcs.values() if g.dem == 'StringBuilder::concat(const char*)']
        return [(s2, C(32, len(s))) for s2, _ in I.call(f[0], st, [a[0], r])]
    return m


STRS = ['on', 'ON', 'one', 'o', '', 'off', 'x']


def lists(chk, defs):
    """defs: list of (value, string, flags, context)"""
    key = 'list %s' % (defs,)
    I = binterp(chk)
    w = BW(chk, I)
    f = chk.M.funcs
    size = cv(w.st.norm(only(chk.run(I, f['c3pv_ed_size'], w.st, []))[1]))
    n = len(defs)
    st = w.st

    def cstr(s):
        r = P(I.new_region(st, 'lazy', 'str', size=i(len(s) + 1)))
        for k, c in enumerate(s + '\0'):
            I.store(st, P(r.r, i(k)), C(8, ord(c)), 'i8')
        return r
    d = P(I.new_region(st, 'lazy', 'defs', size=i(size * n)))
    sp = []
    for k, (v, s, fl, cx) in enumerate(defs):
        sp.append(cstr(s))
        st, _ = only(chk.run(I, f['c3pv_ed_init'], st, [P(d.r, i(k * size)), C(8, v), sp[-1], C(8, fl), C(8, cx)]))
    l = P(I.new_region(st, 'lazy', 'list', size=i(16)))
    st, _ = only(chk.run(I, f['c3pv_el_init'], st, [l, d, i(n)]))

    def ask(name, *a):
        nonlocal st
        I.steps = 0
        st, v = only(chk.run(I, f['c3pv_el_' + name], st, [l] + list(a)))
        return v

    def isptr(v, want, what):
        p = I.res(st, v)
        if want is None:
            chk.expect(p.r is None, key + what, HDR, 'something is found that is not there', st)
        else:
            chk.expect(p.r is want.r and isc(p.o) and cv(p.o) == cv(want.o), key + what, HDR, 'the wrong thing is found, or nothing', st)
    for x in sorted({v for v, *_ in defs} | {0, 9}):
        hit = [k for k in range(n) if defs[k][0] == x]
        h = hit[0] if hit else None
        chk.prove(st, t.eq(ask('valid', C(8, x)), C(1, 1 if hit and not defs[h][2] & 2 else 0)), key + ': valid %d' % x, HDR, 'a value is not valid exactly when it is listed and not marked invalid')
        chk.prove(st, t.eq(ask('extra', C(8, x)), C(8, defs[h][3] if hit else 0)), key + ': context %d' % x, HDR, 'the context byte is wrong')
        isptr(ask('def', C(8, x)), P(d.r, i(h * size)) if hit else None, ': definition %d' % x)
        z = text(I, st, ask('str', C(8, x)))
        chk.expect(z == (defs[h][1] if hit else '<NO ENUM>'), key + ': name %d' % x, HDR, 'the name is "%s"' % z, st)
    catch = [k for k in range(n) if defs[k][2] & 1]
    for s in STRS:
        hit = [k for k in range(n) if defs[k][1].lower() == s.lower()]
        h = hit[0] if hit else catch[-1] if catch else None
        isptr(ask('bystr', cstr(s)), P(d.r, i(h * size)) if h is not None else None, ': definition of "%s"' % s)
        if n:
            fl = P(I.new_region(st, 'lazy', 'found', size=i(1)))
            v = ask('enum', cstr(s), fl)
            chk.prove(st, t.eq(v, C(8, defs[h if h is not None else n - 1][0])), key + ': value of "%s"' % s, HDR, 'the value is not the one named, the last catch-all, or the last of the list')
            chk.prove(st, t.eq(I.load(st, fl, 'i8', None, None), C(8, 1 if hit else 0)), key + ': found "%s"' % s, HDR, 'the found flag is wrong')
            v = ask('enum', cstr(s), NULL)
            chk.prove(st, t.eq(v, C(8, defs[h if h is not None else n - 1][0])), key + ': value of "%s" (no flag)' % s, HDR, 'the value is not the one named, the last catch-all, or the last of the list')
    shown = [k for k in range(n) if not defs[k][2] & 2]
    chk.prove(st, t.eq(ask('count'), i(len(shown))), key + ': count', HDR, 'the number of exported names is wrong')
    w.st = st
    out = w.given((), [])
    st = w.st
    ask('keys', out)
    st = content(chk, I, st, out, [C(8, ord(c)) for k in shown for c in defs[k][1]], key + ': keys', 'the exported names are wrong', where=HDR)
    memory(chk, st, key)


def run(chk):
    chk.load()
    jobs = [('naming', n) for n in NAMES] + [('terminator',), ('si_plain',)]
    el = ['METERS', 'GRAMS', 'OPERATOR_DIVIDED', 'COUNTS', ('META_ORDER_OF_MAGNITUDE', -6), ('META_ORDER_OF_MAGNITUDE', 5), ('META_ORDER_OF_MAGNITUDE', 0), ('META_LITERAL_TCODE', -1), ('META_LITERAL_TCODE', 1), ('META_LITERAL_TCODE', 12),
          ('META_LITERAL_TCODE', -3), ('META_DIMENSIONALITY', 3)]
    top = 3 if chk.tier == 'quick' else 4
    jobs += [('grammar', e, s) for n in range(top + 1) for e in itertools.product(el if n < 3 else el[2:9], repeat=n) for s in (0, 1)]
    jobs += [('lists', [])]
    one = [(v, s, fl, cx) for v, s, cx in ((1, 'on', 7), (255, 'oFF', 200)) for fl in range(4)]
    jobs += [('lists', [a]) for a in one]
    jobs += [('lists', [a, b]) for a in one[:4] for b in one[4:]]
    jobs += [('lists', [(1, 'on', f1, 7), (1, 'oFF', f2, 8), (3, 'ON', f3, 9)]) for f1 in range(4) for f2 in range(4) for f3 in range(4)]

    def work(k):
        for j in jobs[k::8]:
            chk.group(str(j), globals()[j[0]], chk, *j[1:])
            if len(chk.violations) > 6:
                break
    chk.fork(8, work)
