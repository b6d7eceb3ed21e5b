"""Every state of bus adapters with a few jobs is explored, over what the hardware and the devices may answer: in which
order jobs are begun and called back, what happens to them afterwards, and what purges remove, are compared with a model."""
from lib import *
import histories

LEVEL = 'other'
ASSUME = ['allocations succeed', 'platform drivers begin and advance jobs, and mark them complete or aborted, as the interface demands']


def run(chk):
    chk.load()
    deep = chk.tier != 'quick'
    B = histories.Bus
    L = 6000
    jobs = [('i2', 1, 1, 1, 1, 3), ('i2', 1, 2, 1, 0, 3), ('i2', 2, 1, 1, 0, 2), ('sp', 1, 2, 1, 0, 2), ('sp', 1, 1, 1, 1, 2), ('sp', 2, 1, 0, 1, 2)]
    if deep:
        jobs += [('i2', 2, 3, 0, 0, 3), ('i2', 2, 1, 1, 1, 3), ('sp', 1, 1, 1, 1, 3), ('sp', 1, 2, 1, 0, 3), ('sp', 2, 3, 0, 0, 2)]
    histories.run(chk, [(B,) + j + (L,) for j in jobs])
    chk.group('device', device, chk)


def device(chk):
    """a device queues what it was asked to, as long as there are operations; its jobs go with it"""
    for how, code in ((0, 2), (1, 1), (2, 4)):
        s = histories.Bus(chk, 'i2', 1, 1, 1, 0, 3)
        i, I = histories.i, s.I
        key = 'device%d' % how
        d = I.res(s.st, s.call('device', i(0x55), s.this))
        s.op = key
        for k in (0, 1, 2):
            s.mark = s.st.log
            v = cv(s.st.norm(s.call('x', d, i(how), i(0x21 + k), i(3 - k), s.scratch)))
            s.bad(v == int(k < 2), 'result', 'operation %d is %d' % (k, v))
            s.eq(s.num('idle'), 0, 'idle', 'busIdle()')
        # the jobs that wait go with their device
        keep = s.st.copy()
        s.call('nodevice', d)
        s.mark = s.st.log
        s.num('poll')
        s.bad(not [x for x in s.st.events(s.mark) if x[0] == 'hw' and x[1] == 'begin'], 'orphan', 'a job of a device that is gone is begun')
        histories.memory(chk, s.st, key)
        s.st = keep
        for k in (0, 1):
            s.mark = s.st.log
            s.num('poll')
            e = [x for x in s.st.events(s.mark) if x[0] == 'hw' and x[1] == 'begin']
            if not s.bad(len(e) == 1, 'begin', 'a job is not begun'):
                return
            p = e[0][2]
            s.eq(s.of(p, 'opcode'), code, 'opcode', 'the opcode')
            s.eq(s.of(p, 'addr') & 0xff, 0x55, 'address', 'the address')
            s.eq(s.of(p, 'sub'), -1 if how == 2 else 0x21 + k, 'sub-address', 'the sub-address')
            s.eq(s.of(p, 'len'), 0 if how == 2 else 3 - k, 'length', 'the length')
            s.bad((I.res(s.st, s.call('buf', p)).r is s.scratch.r) == (how != 2), 'buffer', 'the buffer')
            s.advance = 1
            s.num('poll')
        histories.memory(chk, s.st, key)
