"""Buffer pipes: mock sinks that record what they are offered, builders with chosen bytes."""
from sblib import *


def sink_model(I, st, a, o, fn):
    """c3pv_sink(who, bytes, n)"""
    n = st.norm(a[2])
    if not isc(n):
        raise Unsupported('sink: open length')
    p = I.res(st, a[1])
    L = sval(cv(n), 32)
    if L > 300 or L < 0:
        raise Unsupported('sink: length %d' % L)
    bs = tuple(st.norm(I.load(st, P(p.r, t.addc(p.o, j)), 'i8', o, fn)) for j in range(L)) if p.r is not None else ()
    st.emit(('sink', I.res(st, a[0]).r, bs, I.where(o, fn)))
    return [(st, None)]


def binterp(chk, **kw):
    I = interp(chk, **kw)
    I.cfg.models['c3pv_sink'] = sink_model
    return I


class BW(World):
    """a world with pipe objects in it"""
    def f1(self, name, *args):
        outs = self.chk.run(self.I, self.chk.M.funcs['c3pv_' + name], self.st, list(args))
        if len(outs) != 1:
            raise Unsupported('construction splits: %s' % name)
        self.st, r = outs[0]
        return r

    def obj(self, name, init, *args, size=256):
        """uninitialised memory with an object constructed in it"""
        r = self.I.new_region(self.st, 'lazy', name, size=C(32, size))
        self.f1(init, P(r), *args)
        return P(r)

    def sink(self, name, room, take):
        """(object, its BufferAccepter)"""
        p = self.obj(name, 'sink_init', room, take)
        return p, self.f1('sink_up', p)

    def given(self, layout, terms, name='s'):
        """an instance whose fragments of these lengths hold the given terms"""
        r = self.I.new_region(self.st, 'lazy', name, size=C(32, SIZE))
        p = P(r)
        self.f('init', p)
        k = 0
        for i, n in enumerate(layout):
            b = self.I.new_region(self.st, 'lazy', '%s.%d' % (name, i), size=C(32, n))
            for j in range(n):
                self.I.store(self.st, P(b, C(32, j)), terms[k + j], 'i8')
            self.f('concat', p, P(b), C(32, n))
            k += n
        return p


def offers(st, p):
    """the byte lists offered to this sink"""
    return [list(e[2]) for e in st.events() if e[0] == 'sink' and e[1] is p.r]


def splits(n):
    """some fragment layouts of n bytes"""
    if n == 0:
        return [()]
    out = [(n,)]
    if n > 1:
        out += [(1, n - 1)]
    if n > 2:
        out += [(1, n - 2, 1)]
    return out
