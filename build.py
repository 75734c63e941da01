#!/usr/bin/env python3
"""Builds the simulator and the variants of the library from the working tree of /repo.

  build.py [--repo DIR] [--out DIR] VARIANT...      variants: A B C D, or XY names such as A.comp

Objects are cached by the hash of all their inputs in /verif/.build."""
import hashlib, os, subprocess, sys, threading, time, concurrent.futures as cf, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, 'sim')
MPI = ['-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
BASE = ['-DMAX_DIMENSIONS=4', '-DTHREADSAFE', '-DUSE_PTHREAD', '-DOMPI_SKIP_MPICXX']
VARIANTS = {
    # A: all MPI calls serialised (MPI library that is not thread-safe), MPI-3 windows, round robin block distribution
    'A': ['-DTHREADSAFE_MPI', '-DUSE_MPI3', '-DROUND_ROBIN', '-DTHREADSAFE_COUNTER'],
    # B: thread-safe MPI library, communication thread available
    'B': ['-DUSE_MPI3', '-DROUND_ROBIN', '-DTHREADSAFE_COUNTER'],
    # C: as B with contiguous block distribution, without locked counters, assertions off
    'C': ['-DUSE_MPI3', '-DNDEBUG'],
    # D: no MPI, assertions off
    'D': ['-DASAGI_NOMPI', '-DTHREADSAFE_COUNTER', '-DROUND_ROBIN', '-DNDEBUG'],
    # E: without support for threads
    'E': ['-UTHREADSAFE', '-DTHREADSAFE_MPI', '-DUSE_MPI3', '-DROUND_ROBIN', '-DTHREADSAFE_COUNTER'],
    # F: without MPI-3, assertions off, contiguous block distribution
    'F': ['-DTHREADSAFE_COUNTER', '-DNDEBUG'],
}
SKIP = {'tests', 'examples', 'tools', 'documentation', 'preprocess', 'submodules', 'CMake', '_build', '.git'}
CXX = os.environ.get('SIM_CXX', 'clang++')


class BuildError(Exception):
    pass


ONE = threading.Lock()


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    for attempt in range(4):
        if p.returncode == 0 or not (p.returncode < 0 or 'Killed' in p.stdout or 'out of memory' in p.stdout):
            break
        # not enough memory: one compiler at a time
        with ONE:
            time.sleep(2 + 4 * attempt)
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-6000:])
    return p.stdout


def sources(repo):
    src, hdr = [], []
    for d, ds, fs in os.walk(repo):
        ds[:] = sorted(x for x in ds if x not in SKIP and not x.startswith('.'))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith('.cpp') and f not in ('nonuma.cpp',):
                src.append(p)
            elif f.endswith(('.h', '.hpp')):
                hdr.append(p)
    return src, hdr


def digest(files, extra):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def touched(f):
    """True if the file exists; marks it as recently used (see Builder.clean)"""
    try:
        os.utime(f)
        return True
    except OSError:
        return False


class Builder:
    def __init__(self, repo='/repo', out=None):
        self.repo = os.path.abspath(repo)
        self.out = out or os.path.join(HERE, '.build')
        os.makedirs(self.out, exist_ok=True)
        self.src, self.hdr = sources(self.repo)
        self.simhdr = sorted(os.path.join(SIM, f) for f in os.listdir(SIM) if f.endswith('.hpp'))
        stubs = []
        for d, _, fs in os.walk(os.path.join(SIM, 'stubs')):
            stubs += [os.path.join(d, f) for f in sorted(fs)]
        self.stubs = stubs
        self.pool = cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8)
        self.jobs = {}

    def job(self, key, fn, *a):
        if key not in self.jobs:
            self.jobs[key] = self.pool.submit(fn, *a)
        return self.jobs[key]

    def compile(self, src, flags, deps, redefine=False):
        key = digest([src] + deps, flags + [redefine, open(os.path.join(SIM, 'redefine.syms')).read() if redefine else ''])
        obj = os.path.join(self.out, os.path.basename(src) + '.' + key + '.o')
        if touched(obj):
            return obj
        tmp = obj + '.%d.tmp' % os.getpid()
        run([CXX] + flags + ['-c', src, '-o', tmp])
        if redefine:
            run(['objcopy', '--redefine-syms=' + os.path.join(SIM, 'redefine.syms'), tmp])
        os.rename(tmp, obj)
        return obj

    def libflags(self, variant, tsan=True):
        return (['-std=c++11', '-fPIC', '-O0' if tsan else '-O1', '-w', '-fno-inline', '-femulated-tls'] +
                (['-fsanitize=thread'] if tsan else []) + BASE + VARIANTS[variant] +
                ['-I' + self.repo, '-I' + self.repo + '/include', '-I' + SIM, '-I' + os.path.join(SIM, 'stubs')] + MPI)

    def objects(self, variant):
        fl = self.libflags(variant)
        deps = self.hdr + self.stubs
        src = [s for s in self.src if variant != 'D' or os.path.relpath(s, self.repo).split(os.sep)[0] != 'mpi']
        return [self.job((variant, s), self.compile, s, fl, deps, True) for s in src]

    def glue(self, variant):
        return self.job((variant, 'glue'), self.compile, os.path.join(SIM, 'glue.cpp'), self.libflags(variant, False),
                        self.hdr + self.stubs + self.simhdr, True)

    def comp(self, variant, name):
        return self.job((variant, name), self.compile, os.path.join(SIM, name + '.cpp'), self.libflags(variant),
                        self.hdr + self.stubs + self.simhdr, True)

    def exe_objects(self):
        fl = ['-std=c++17', '-O1', '-g', '-w', '-fPIE', '-I' + SIM] + MPI
        names = sorted(f for f in os.listdir(SIM) if f.endswith('.cpp') and f != 'glue.cpp' and not f.startswith('comp_'))
        return [self.job(('exe', n), self.compile, os.path.join(SIM, n), fl, self.simhdr, False) for n in names]

    def link_so(self, objs, name):
        key = digest(objs, name)
        so = os.path.join(self.out, 'lib%s.%s.so' % (name, key))
        if touched(so):
            return so
        tmp = so + '.%d.tmp' % os.getpid()
        run(['clang++', '-shared', '-Wl,-s', '-Wl,-Bsymbolic', '-o', tmp] + objs + ['-Wl,--unresolved-symbols=ignore-all'])
        os.rename(tmp, so)
        return so

    def link_exe(self, objs):
        key = digest(objs, 'exe')
        exe = os.path.join(self.out, 'sim.' + key)
        if touched(exe):
            return exe
        tmp = exe + '.%d.tmp' % os.getpid()
        run(['clang++', '-rdynamic', '-pie', '-o', tmp] + objs + ['-ldl', '-lpthread'])
        os.rename(tmp, exe)
        return exe

    def check_undefined(self, so, exe):
        have = {l.split()[-1].split('@')[0] for l in run(['nm', '-D', '--defined-only', exe]).splitlines() if l}
        bad = []
        for l in run(['nm', '-D', '--undefined-only', so]).splitlines():
            s = l.split()[-1].split('@')[0]
            if s in have:
                continue
            if s.startswith(('pthread_', 'MPI_', 'nc_', 'sim_', '__tsan', 'numa_', 'ompi_', 'sched_', '__emutls', 'sem_')) or s in ('rand', 'usleep', 'nanosleep', 'time', 'getcpu'):
                bad.append(s)
        if bad:
            raise BuildError('the library uses functions that the simulator does not provide: ' + ' '.join(sorted(set(bad))))

    def build(self, variants, comps=()):
        """Returns (exe, {variant: so}, {(variant, comp): so or None})"""
        exe_j = self.exe_objects()
        var_j = {v: (self.objects(v), self.glue(v)) for v in variants}
        comp_j = {}
        for v, c in comps:
            comp_j[(v, c)] = (self.objects(v), self.comp(v, c))
        exe = self.link_exe([j.result() for j in exe_j])
        sos, csos, notes = {}, {}, []
        for v, (o, g) in var_j.items():
            so = self.link_so([j.result() for j in o] + [g.result()], v)
            self.check_undefined(so, exe)
            sos[v] = so
        for (v, c), (o, g) in comp_j.items():
            try:
                gobj = g.result()
            except BuildError as e:
                notes.append('component harness %s does not compile against this tree and is skipped: %s' % (c, str(e)[-800:]))
                csos[(v, c)] = None
                continue
            so = self.link_so([j.result() for j in o] + [gobj], v + '_' + c)
            self.check_undefined(so, exe)
            csos[(v, c)] = so
        self.clean()
        return exe, sos, csos, notes

    def clean(self):
        """Keeps the cache small: the newest 400 files"""
        fs = sorted((os.path.getmtime(os.path.join(self.out, f)), f) for f in os.listdir(self.out) if f.endswith(('.o', '.so')) or f.startswith('sim.'))
        for _, f in fs[:-400]:
            try:
                os.unlink(os.path.join(self.out, f))
            except OSError:
                pass


if __name__ == '__main__':
    a = sys.argv[1:]
    repo, out = '/repo', None
    vs, cs = [], []
    while a:
        x = a.pop(0)
        if x == '--repo':
            repo = a.pop(0)
        elif x == '--out':
            out = a.pop(0)
        elif '.' in x:
            cs.append(tuple(x.split('.')))
        else:
            vs.append(x)
    try:
        exe, sos, csos, notes = Builder(repo, out).build(vs, cs)
    except BuildError as e:
        print(e)
        sys.exit(2)
    print(exe)
    for v in sos:
        print(v, sos[v])
    for v in csos:
        print(v, csos[v])
    for n in notes:
        print(n)
