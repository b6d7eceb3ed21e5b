"""Harness shared by every check: obligations over abstract states, effect and
table rules, known findings, evidence."""
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, 'engine'))
sys.setrecursionlimit(20000)

import front                                   # noqa: E402
import terms as t                              # noqa: E402
from terms import T, C, isc, cv, sval, MASK    # noqa: E402
from front import AnalysisBroken               # noqa: E402
from program import Module, strip              # noqa: E402
from state import State, Region, P, NULL, Agg, RMem, Z32, ALLREG   # noqa: E402
from absint import Interp, Config, Budget, Unsupported, tw, nbytes  # noqa: E402
from loops import ListSpec, Ghost, IDX         # noqa: E402

LIMIT = {'quick': 540, 'thorough': 3000}
STRICT = bool(os.environ.get('VERIF_STRICT'))


class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.oblig = 0
        self.discharged = 0
        self.undecided = []
        self.violations = []
        self.known = []
        self.instances = {}
        self.functions = set()
        self.paths = 0
        self.samples = []
        self.assumptions = []
        self.trusted = ['clang 18 front end and LLVM 18 sroa pass (source to IR)', 'the abstract transfer functions of engine/absint.py, engine/loops.py',
                        'the term canonicaliser engine/terms.py and linear reasoning engine/linarith.py']
        self.rule = ''
        self.M = None
        self.on_stuck = None        # judges the memory accesses of a path that does not end
        self._seen = set()
        self.kf = {}
        p = os.path.join(ROOT, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'known: property=(\S+) key=(.*?) \| (.*)$', l.strip())
                if m and m.group(1) == pid:
                    self.kf[m.group(2)] = m.group(3)

    # -------------------------------------------------------- anchors
    def load(self):
        self.M = Module()
        return self.M

    def fn(self, name, n=None, pred=None):
        """the one function with this demangled base name (n = arg count with this)"""
        l = [f for f in self.M.by_base.get(name, []) if not f.decl and (n is None or len(f.args) == n) and (pred is None or pred(f))]
        if len(l) != 1:
            raise AnalysisBroken('anchor %s: %d candidates' % (name, len(l)))
        return l[0]

    def sig(self, dem):
        f = self.M.by_dem.get(dem)
        if f is None:
            raise AnalysisBroken('anchor %s not found' % dem)
        return f[0] if isinstance(f, list) else f

    def interp(self, **kw):
        c = Config()
        for k, v in kw.items():
            setattr(c, k, v)
        return Interp(self.M, c)

    def subject(self, wrapper):
        """file:line and name of the method an entry point calls"""
        f = self.M.funcs[wrapper]
        for b in f.blocks:
            for o in b:
                if o['op'] == 'call' and o['callee'][0] == 'g':
                    g = self.M.funcs.get(o['callee'][1])
                    if g is not None and not g.decl:
                        return '%s:%d (%s)' % (g.file, g.line, g.dem)
        return wrapper

    def count(self, what, n=1):
        self.instances[what] = self.instances.get(what, 0) + n

    # -------------------------------------------------------- verdicts
    def ok(self, what=None):
        self.oblig += 1
        self.discharged += 1
        if what and len(self.samples) < 12:
            self.samples.append(what)

    def fail(self, key, where, detail, witness=None):
        """a construct that breaks the property.  key identifies it without line numbers"""
        self.oblig += 1
        if key in self._seen:
            return
        self._seen.add(key)
        rec = {'key': key, 'where': where, 'detail': detail}
        if witness:
            rec['witness'] = witness
        if key in self.kf:
            self.known.append((key, self.kf[key]))
        else:
            self.violations.append(rec)

    def undec(self, key, why):
        self.oblig += 1
        if len(self.undecided) < 200:
            self.undecided.append('%s: %s' % (key, why))

    def noclaim(self, key):
        """an over-approximated path on which the clause is not shown"""
        self.count('clauses without claim on widened paths')
        if STRICT:
            print('  noclaim', key)

    def expect(self, cond, key, where, detail, st=None):
        if cond:
            self.ok('%s @ %s' % (key, where))
        elif st is not None and not self.exact(st):
            self.noclaim(key)
        else:
            self.fail(key, where, detail)
        return bool(cond)

    def exact(self, st):
        return not st.notes and not st.user.get('havoc') and not st.user.get('lossy')

    def prove(self, st, goal, key, where, detail='', extra=()):
        """goal (1-bit term) holds on every point of st"""
        if key in self._seen:
            self.oblig += 1         # already reported
            return None
        goal = st.norm(goal) if isinstance(goal, T) else C(1, int(bool(goal)))
        r = st.decide(goal)
        if r is True:
            self.ok('%s @ %s' % (key, where))
            return True
        neg = [s for s in st.copy().assume(goal, False) if not s.dead()]
        if not neg:
            self.ok('%s @ %s' % (key, where))
            return True
        if not self.exact(st):
            if st.notes:
                self.undec(key, 'imprecise path (%s)' % ','.join(sorted(st.notes)))
            else:
                self.noclaim(key)
            return None
        neg = [s for s in neg if not s.empty()]
        if not neg:
            self.ok('%s @ %s' % (key, where))
            return True
        for s in neg:
            env = s.point(t.not_(goal), extra_atoms=extra)
            if env is not None:
                w = {str(k): v for k, v in list(env.items())[:14]}
                self.fail(key, where, '%s; required: %s; path: %s' % (detail, goal, ' & '.join(('' if v else '!') + str(b) for b, v in list(st.bools.items())[:10])), w)
                return False
        self.undec(key, 'could not decide %s' % goal)
        return None

    def feasible(self, st):
        """a point of an exact state (reachable path), or None"""
        if not self.exact(st):
            return None
        return st.point()

    def nulls(self, st, key, where):
        """definite dereference of null on this path; True when there is one"""
        ev = [e for e in st.events() if e[0] == 'null-deref']
        if not ev:
            return False
        if st.notes <= {'null-store', 'null-load', 'null-deref'} and not st.user.get('havoc') and not st.user.get('lossy'):
            if st.point() is not None:
                self.fail(key + ':null-dereference', ev[0][4], 'a null pointer is dereferenced; path: ' + ' & '.join(('' if v else '!') + str(b) for b, v in list(st.bools.items())[:8]) +
                          '; after ' + ', '.join(e[0] + ' ' + str(e[1]) + ' at ' + str(e[4]) for e in st.events() if e[0] in ('alloc-fail',)))
            else:
                self.undec(key, 'null dereference on a path not shown feasible')
        return True

    def refuse(self, st, key, where, detail):
        """this path must not exist: alarm when the state is shown non-empty"""
        if key in self._seen:
            self.oblig += 1
            return
        if not self.exact(st):
            if st.notes:
                self.undec(key, 'imprecise path (%s)' % ','.join(sorted(st.notes)))
            else:
                self.noclaim(key)
            return
        env = st.point()
        if env is None and st.empty():
            self.ok('%s @ %s' % (key, where))
            return
        if env is None:
            self.undec(key, 'path not shown feasible')
            return
        self.fail(key, where, detail + '; path: ' + ' & '.join(('' if v else '!') + str(b) for b, v in list(st.bools.items())[:10]), {str(k): v for k, v in list(env.items())[:14]})

    def group(self, name, f, *a):
        """run one obligation group; an engine limitation leaves it undecided"""
        spent = time.time() - self.t0
        if spent > LIMIT[self.tier] or (self.violations and spent > LIMIT[self.tier] / 6):
            self.undec(name, 'not analysed: out of time')
            return None
        try:
            return f(*a)
        except AnalysisBroken:
            raise
        except (Budget, Unsupported, RecursionError) as e:
            self.undec(name, 'analysis limit: %s' % (str(e)[:200]))
        except Exception as e:      # noqa
            if STRICT and not getattr(self, '_tb', None):
                self._tb = 1
                traceback.print_exc(file=sys.stdout)
            self.undec(name, 'engine: %s: %s' % (type(e).__name__, str(e)[:200]))
        return None

    def run(self, I, fn, st, args):
        """interpret; keeps the path statistics"""
        I.endless, I.stuck, I.faults = [], [], []
        who = getattr(I, 'case_key', None) or fn.dem
        try:
            outs = I.call(fn, st, args)
        finally:
            for s, where, what in I.faults:
                if not s.dead() and not s.empty():
                    self.refuse(s, '%s:%s' % (who, what), where, what)
            for s, f, loop in I.stuck:
                if self.on_stuck:
                    self.on_stuck(self, s, who)
        for s, f, loop in I.endless:
            b = [i for i in f.blocks[loop.header] if i['op'] not in ('phi', 'dbg')]
            self.refuse(s, '%s:returns' % (getattr(I, 'case_key', None) or f.dem), f.loc(b[0] if b else None), 'the loop never ends')
        outs = [(s, v) for s, v in outs if not s.dead()]
        self.paths += len(outs)
        for n in I.visited:
            self.functions.add(n)
        return outs

    def fork(self, n, f):
        """f(i) in n processes; their verdicts are merged in order"""
        sys.stdout.flush()
        kids = []
        for i in range(n):
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rd)
                code = 1
                try:
                    b = (self.oblig, self.discharged, len(self.undecided), len(self.violations), len(self.known), self.paths, dict(self.instances), len(self.samples))
                    broken = None
                    try:
                        f(i)
                    except AnalysisBroken as e:
                        broken = str(e)
                    res = dict(oblig=self.oblig - b[0], discharged=self.discharged - b[1], undecided=self.undecided[b[2]:], violations=self.violations[b[3]:], known=self.known[b[4]:],
                               paths=self.paths - b[5], instances={k: v - b[6].get(k, 0) for k, v in self.instances.items()}, samples=self.samples[b[7]:],
                               functions=sorted(self.functions), broken=broken)
                    with os.fdopen(wr, 'w') as o:
                        json.dump(res, o, default=str)
                    sys.stdout.flush()
                    code = 0
                except BaseException:      # noqa
                    traceback.print_exc(file=sys.stdout)
                    sys.stdout.flush()
                finally:
                    os._exit(code)
            os.close(wr)
            kids.append((pid, rd))
        out = []
        for pid, rd in kids:
            with os.fdopen(rd) as i:
                data = i.read()
            _, status = os.waitpid(pid, 0)
            if status or not data:
                raise AnalysisBroken('a worker ended with status %d' % status)
            out.append(json.loads(data))
        for r in out:
            if r['broken']:
                raise AnalysisBroken(r['broken'])
            self.oblig += r['oblig']
            self.discharged += r['discharged']
            self.undecided += r['undecided']
            for v in r['violations']:
                if v['key'] not in self._seen:
                    self._seen.add(v['key'])
                    self.violations.append(v)
            for k in r['known']:
                if tuple(k) not in self.known:
                    self.known.append(tuple(k))
            self.paths += r['paths']
            for k, v in r['instances'].items():
                self.instances[k] = self.instances.get(k, 0) + v
            self.samples += r['samples']
            self.functions.update(r['functions'])

    # -------------------------------------------------------- end
    def finish(self):
        for k in ('build/replay', 'evidence'):
            os.makedirs(os.path.join(ROOT, k), exist_ok=True)
        wall = time.time() - self.t0
        fnames = sorted(self.M.funcs[n].dem if n in self.M.funcs else n for n in self.functions) if self.M else []
        cov = {
            'obligations': self.oblig, 'discharged': self.discharged, 'undecided': self.undecided[:60],
            'checker_cmd': 'python3 checks/run.py %s %s' % (self.pid, self.tier),
            'trusted_base': self.trusted,
            'rule': self.rule,
            'explanation': self.rule,
            'functions_analysed': len(fnames), 'functions': fnames[:400],
            'abstract_paths': self.paths,
            'instances': self.instances,
            'samples': self.samples[:12],
            'known_findings': [k for k, _ in self.known],
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(wall, 3), 'violations': len(self.violations)}
        if self.violations:
            cov['violations'] = self.violations
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations, %d discharged, %d undecided, %d functions, %d abstract paths, %.1fs' % (
            self.pid, self.oblig, self.discharged, len(self.undecided), len(fnames), self.paths, wall))
        for k in sorted(self.instances):
            print('  instances %s = %d' % (k, self.instances[k]))
        for u in self.undecided[:30]:
            print('  UNDECIDED ' + u)
        for k, w in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, w))
        if self.violations:
            p = os.path.join(ROOT, 'build', 'replay', self.pid + '.json')
            with open(p, 'w') as f:
                json.dump(self.violations, f, indent=1, default=str)
            for v in self.violations[:20]:
                print('  %s: %s: %s' % (v['where'], v['key'], v['detail'][:600]))
                if v.get('witness'):
                    print('     at %s' % (str(v['witness'])[:400]))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
            return 1
        if self.discharged == 0:
            print('no obligation was decided')
            return 3
        return 0


# ------------------------------------------------------------------ helpers
def acc_hook(regions=None):
    """record every access to the given regions (or all sized ones) as events"""
    def h(I, st, p, n, write, ins, fn):
        if regions is None:
            if p.r.size is None:
                return
        elif p.r not in regions:
            return
        st.emit(('acc', p.r, (st.norm(p.o), st.norm(n)), write, I.where(ins, fn)))
    return h


def fld(chk, I, st, base, cls, name, ty='i32'):
    return I.load(st, P(base, C(32, chk.M.off(cls, name))), ty)


def setf(chk, I, st, base, cls, name, v, ty='i32'):
    I.store(st, P(base, C(32, chk.M.off(cls, name))), v, ty)


def clean(st):
    """set-up stores are not effects of the code under analysis"""
    for rid, m in list(st.mem.items()):
        m2 = m.copy()
        m2.cells = {o: (c[0], c[1], False) for o, c in m.cells.items()}
        st.mem[rid] = m2
        st.owned.add(id(m2))
    st.log = None
    return st


def written(st, r):
    """(dirty cells, write log) of region r"""
    m = st.mem.get(r.id)
    if m is None:
        return {}, ()
    return {o: c for o, c in m.cells.items() if c[2]}, m.syms


def check_bounds(chk, st, key, regions):
    """every recorded access lies inside its region"""
    done = set()
    for e in st.events():
        if e[0] != 'acc' or e[1] not in regions:
            continue
        o, n = st.norm(e[2][0]), st.norm(e[2][1])
        k = (e[1].id, o.id, n.id)
        if k in done:
            continue
        done.add(k)
        sz = e[1].size
        chk.count('memory accesses')
        chk.prove(st, t.and_(t.ule(n, sz), t.ule(o, t.sub(sz, n))), key, e[4], 'access of %s bytes at offset %s of a %s byte buffer' % (n, o, sz))


def events(st, *kinds):
    return [e for e in st.events() if e[0] in kinds]


def expect_read(chk, st, v, region, off, n, key, where, detail):
    """v is the entry content of region at byte offset off"""
    off = st.norm(off)
    if isinstance(v, T):
        v = st.norm(v)
        src = IDX.get(v.id)
        if src is not None and src[0] is region and src[2] == n:
            return chk.prove(st, t.eq(src[1], off), key, where, detail)
        if v.op == 'c' or v.op == 's':
            w = t._mk('s', 8 * n, ('%s[%s]' % (region.name, off),), ('idx', region.id, 0, off.id, n), 0, None)
            return chk.prove(st, t.eq(v, w), key, where, detail, extra=(w,))
    chk.undec(key, 'value %s not traced to a read' % (v,))
    return None


def wrap(st, x, cap):
    """x mod cap for x < 2*cap, using the facts of st; None if open"""
    r = st.decide(t.ult(x, cap))
    if r is True:
        return x
    if r is False:
        return t.sub(x, cap)
    return None
