"""Builds the resolved program from /repo's current working tree.

Copies /repo/src to a scratch folder, compiles every unit the project builds
with clang to LLVM IR with the project's own flags (plus the instantiation unit
/verif/engine/inst.cpp), links, runs mem2reg/SROA and dumps the module
(irdump.cpp).  Nothing is executed."""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = '/usr/bin/clang++-18'
SKIP = ('M2MLink/LinkUtils/DataSharing.cpp', 'Pipes/BufferAccepter/MapFileParser/MapFileParser.cpp')
FLAGS = ['-m32', '-std=c++17', '-O0', '-g', '-w', '-fdelayed-template-parsing', '-Xclang', '-disable-O0-optnone',
         '-Xclang', '-cl-single-precision-constant', '-D_GNU_SOURCE', '-fno-rtti', '-fno-exceptions',
         '-DCONFIG_C3P_CBOR', '-DCONFIG_C3P_M2M_SUPPORT', '-DCONFIG_C3P_IMG_SUPPORT', '-DCONFIG_C3P_TRACE_ENABLED',
         '-c', '-emit-llvm']


class AnalysisBroken(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def tool():
    """the IR dumper, built once"""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'irdump-' + h)
    if not os.path.exists(exe):
        fl = run(['llvm-config-18', '--cxxflags']).stdout.split()
        ld = run(['llvm-config-18', '--ldflags', '--libs']).stdout.split()
        fl = [f for f in fl if not f.startswith('-std')]
        tmp = exe + '.%d' % os.getpid()
        r = run(['g++', '-std=c++17', '-O1', '-fno-rtti', '-w', src, '-o', tmp] + fl + ld)
        if r.returncode:
            raise AnalysisBroken('irdump does not build: ' + r.stderr[-2000:])
        os.rename(tmp, exe)
    return exe


def tree_files():
    out = []
    root = os.path.join(REPO, 'src')
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(('.cpp', '.h', '.c', '.hpp', '.inc')):
                out.append(os.path.relpath(os.path.join(d, f), root))
    return out


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode())
        h.update(open(os.path.join(REPO, 'src', f), 'rb').read())
    for f in ('irdump.cpp', 'inst.cpp', 'front.py'):
        h.update(open(os.path.join(HERE, f), 'rb').read())
    return h.hexdigest()[:24]


LIT = re.compile(r'\b((?:[0-9]+\.[0-9]*|\.[0-9]+))[dD]\b')
VLA = re.compile(r'^(.*?\b([A-Za-z_]\w*)\s*\[[^\]]+\])\s*=\s*\{[^{}]*\}\s*;')


def compile_unit(work, rel, src):
    out = os.path.join(work, 'bc', rel.replace('/', '_') + '.bc')
    for _ in range(8):
        r = run([CXX] + FLAGS + ['-I' + os.path.join(work, 'src'), '-ffile-prefix-map=%s/src=/repo/src' % work,
                                 '-fdebug-compilation-dir=/', '-o', out, src])
        if r.returncode == 0:
            return out
        # GCC accepts "T x[n] = {0};" for a VLA (zeroed); clang does not.
        m = re.search(r'^(\S+?):(\d+):\d+: error: variable-sized object may not be initialized', r.stderr, re.M)
        if not m:
            raise AnalysisBroken('%s does not compile: %s' % (rel, r.stderr[:1500]))
        f, ln = m.group(1), int(m.group(2))
        if not os.path.isabs(f):
            f = os.path.join('/', f)
        if f.startswith('/repo/src'):
            f = work + '/src' + f[len('/repo/src'):]
        lines = open(f).read().split('\n')
        mm = VLA.match(lines[ln - 1])
        if not mm:
            raise AnalysisBroken('cannot lower VLA initialiser at %s:%d' % (f, ln))
        lines[ln - 1] = lines[ln - 1][:mm.start()] + mm.group(1) + '; __builtin_memset(%s, 0, sizeof(%s));' % (mm.group(2), mm.group(2)) + lines[ln - 1][mm.end():]
        open(f, 'w').write('\n'.join(lines))
    raise AnalysisBroken('%s does not compile' % rel)


def build():
    """returns the path of the module dump for the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    exe = tool()
    files = tree_files()
    if not files:
        raise AnalysisBroken('no sources under %s/src' % REPO)
    key = tree_hash(files)
    dump = os.path.join(BUILD, 'ir-%s.jsonl' % key)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(dump):
            return dump
        work = tempfile.mkdtemp(prefix='c3pir-')
        try:
            shutil.copytree(os.path.join(REPO, 'src'), os.path.join(work, 'src'))
            os.makedirs(os.path.join(work, 'bc'))
            for f in files:
                p = os.path.join(work, 'src', f)
                try:
                    t = open(p).read()
                except UnicodeDecodeError:
                    continue
                t2 = LIT.sub(r'\1', t)
                if t2 != t:
                    open(p, 'w').write(t2)
            units = [f for f in files if f.endswith('.cpp') and not f.startswith('Meta/') and f not in SKIP]
            jobs = [(u, os.path.join(work, 'src', u)) for u in units] + [('_inst.cpp', os.path.join(HERE, 'inst.cpp'))]
            with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
                bcs = list(ex.map(lambda j: compile_unit(work, *j), jobs))
            allbc = os.path.join(work, 'all.bc')
            r = run(['llvm-link-18', '-o', allbc] + bcs)
            if r.returncode:
                raise AnalysisBroken('llvm-link: ' + r.stderr[:1500])
            r = run(['opt-18', '-passes=function(sroa)', allbc, '-o', allbc + '.o'])
            if r.returncode:
                raise AnalysisBroken('opt: ' + r.stderr[:1500])
            tmp = dump + '.%d' % os.getpid()
            r = run([exe, allbc + '.o', tmp])
            if r.returncode:
                raise AnalysisBroken('irdump: ' + r.stderr[:1500])
            with open(tmp, 'a') as o:
                o.write(json.dumps({'k': 'meta', 'units': len(jobs), 'hash': key}) + '\n')
            os.rename(tmp, dump)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        # keep the cache small
        old = sorted((f for f in os.listdir(BUILD) if f.startswith('ir-')), key=lambda f: os.path.getmtime(os.path.join(BUILD, f)))
        for f in old[:-6]:
            os.remove(os.path.join(BUILD, f))
        return dump
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


if __name__ == '__main__':
    try:
        print(build())
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN', e, file=sys.stderr)
        sys.exit(3)
