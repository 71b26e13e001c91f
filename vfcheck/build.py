"""Front end: turns /repo's current sources into analysable IR.

Nothing is executed from /repo.  Sources are compiled to LLVM bitcode (no optimisation, NDEBUG so
that assert() is never mistaken for a check), then `irdump` (engine/irdump.cpp) inlines,
specialises and simplifies and prints JSON.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VFC_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class AnalysisError(Exception):
    """The analysis could not be carried out.  fatal: /repo's sources do not compile or the engine is
    broken; otherwise an anchor is missing, and what depends on it is reported as undecided."""

    def __init__(self, msg, fatal=False):
        Exception.__init__(self, msg)
        self.fatal = fatal


def irdump_path():
    src = os.path.join(VERIF, 'engine', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'irdump-' + h)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        flags = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
        tmp = exe + '.tmp%d' % os.getpid()
        r = subprocess.run(['clang++', '-O1'] + flags + ['-w', src, '-o', tmp,
                           '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('cannot build irdump:\n' + r.stderr[-2000:], True)
        os.rename(tmp, exe)
    return exe


class Workspace:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vfcheck.')
        inc = os.path.join(self.dir, 'inc', 'VFC')
        os.makedirs(inc)
        shutil.copy(os.path.join(REPO, 'cmake', 'templates', 'NoExport.h'),
                    os.path.join(inc, 'Export.h'))
        self.flags = ['-std=gnu++14', '-I' + os.path.join(REPO, 'lib', 'include'),
                      '-I' + os.path.join(REPO, 'lib', 'src'), '-I' + os.path.join(self.dir, 'inc'),
                      '-isystem', '/opt/vp/deps/include']
        for d in (os.path.join(REPO, 'lib', 'glm'), os.path.join(REPO, 'tool', 'rapidjson', 'include')):
            if os.path.isdir(d):
                self.flags += ['-isystem', d]
        self.bcs = {}
        self.shim()

    def shim(self):
        """std::find_if without libstdc++'s manual unrolling: the same search as a plain loop."""
        for h in glob.glob('/usr/include/c++/*/bits/stl_algobase.h'):
            t = open(h).read()
            a = t.find('__find_if(_RandomAccessIterator')
            b = t.find('    {\n', a)
            c = t.find('\n    }\n', b)
            if a < 0 or '__trip_count' not in t[b:c]:
                continue
            t = t[:b] + '    {\n      return std::__find_if(__first, __last, __pred, input_iterator_tag());' + t[c:]
            d = os.path.join(self.dir, 'shim', 'bits')
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, 'stl_algobase.h'), 'w') as f:
                f.write(t)
            self.flags += ['-isystem', os.path.join(self.dir, 'shim')]
            break

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def lib_sources(self):
        return sorted(glob.glob(os.path.join(REPO, 'lib', 'src', '**', '*.cpp'), recursive=True))

    def tool_sources(self):
        return sorted(glob.glob(os.path.join(REPO, 'tool', '*.cpp')))

    def compile(self, srcs):
        todo = [s for s in srcs if s not in self.bcs]

        def one(s):
            out = os.path.join(self.dir, hashlib.sha256(s.encode()).hexdigest()[:12] + '.bc')
            cmd = ['clang++'] + self.flags + ['-O2', '-Xclang', '-disable-llvm-passes', '-g',
                   '-fno-discard-value-names', '-ffp-contract=off', '-DNDEBUG', '-w', '-emit-llvm', '-c', s, '-o', out]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise AnalysisError('clang cannot compile %s:\n%s' % (s, r.stderr[-2000:]),
                                    s.startswith(REPO + '/'))
            return s, out
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for s, o in ex.map(one, todo):
                self.bcs[s] = o
        return [self.bcs[s] for s in srcs]

    def ir(self, srcs, **cfg):
        cfg['bc'] = self.compile(srcs)
        n = tempfile.mktemp(dir=self.dir, suffix='.json')
        with open(n, 'w') as f:
            json.dump(cfg, f)
        out = n + '.out'
        r = subprocess.run([irdump_path(), n, out], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('irdump failed: ' + r.stderr[-2000:])
        with open(out) as f:
            return json.load(f)
