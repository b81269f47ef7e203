"""Runtime shared by all checks: building harnesses from /repo's working tree,
running them in parallel workers, shrinking a failure, confirming the replay,
known findings, evidence."""
import concurrent.futures as cf
import copy
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('POLYOPS_REPO', '/repo')
BUILD = os.environ.get('PBT_BUILD', os.path.join(VERIF, 'build'))
WORKERS = 8

ENV = dict(os.environ)
ENV['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=78:allocator_may_return_null=1:detect_stack_use_after_return=0'
ENV['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1:exitcode=79'
ENV['PYTHONDONTWRITEBYTECODE'] = '1'
ENV['LC_ALL'] = 'C'


class CheckError(Exception):
    """The machinery could not do its work (not a verdict about the code)."""


class BuildFailure(CheckError):
    """refused: the compiler refuses calls of a library that it accepts otherwise"""
    refused = None


# ---------------------------------------------------------------- case format

class Case:
    def __init__(self):
        self.prop = ''
        self.params = {}
        self.loops = []   # [set, kind, [(x,y),...]]
        self.words = []

    @staticmethod
    def parse(text):
        c = Case()
        for line in text.splitlines():
            f = line.split()
            if not f or f[0].startswith('#'):
                continue
            if f[0] == 'prop':
                c.prop = f[1]
            elif f[0] == 'param':
                c.params[f[1]] = int(f[2])
            elif f[0] == 'loop':
                c.loops.append([int(f[1]), int(f[2]), [tuple(int(v) for v in p.split(',')) for p in f[3:]]])
            elif f[0] == 'word':
                c.words.append([int(v) for v in f[1:]])
        return c

    def text(self):
        o = ['prop ' + self.prop]
        o += ['param %s %d' % kv for kv in sorted(self.params.items())]
        o += [' '.join(['loop', str(l[0]), str(l[1])] + ['%d,%d' % p for p in l[2]]) for l in self.loops]
        o += [' '.join(['word'] + [str(v) for v in w]) for w in self.words]
        return '\n'.join(o) + '\n'

    def size(self):
        def mag(v):
            return v.bit_length() + (1 if v < 0 else 0)
        return (sum(1 + len(l[2]) for l in self.loops) + sum(1 + len(w) for w in self.words),
                sum(mag(x) + mag(y) for l in self.loops for x, y in l[2]) + sum(mag(v) for w in self.words for v in w),
                sum(abs(x) + abs(y) for l in self.loops for x, y in l[2]) + sum(abs(v) for w in self.words for v in w),
                sum(mag(v) for v in self.params.values()))

    def clone(self):
        return copy.deepcopy(self)


def candidates(c):
    """smaller variants, most aggressive first"""
    def chunks(n):
        k = n
        while k >= 1:
            for i in range(0, n, k):
                yield i, min(n, i + k)
            if k == 1:
                break
            k = (k + 1) // 2 if k > 2 else 1
    n = len(c.loops)
    for a, b in chunks(n):
        d = c.clone()
        del d.loops[a:b]
        yield d
    n = len(c.words)
    for a, b in chunks(n):
        d = c.clone()
        del d.words[a:b]
        yield d
    for i, l in enumerate(c.loops):
        for a, b in chunks(len(l[2])):
            if (a, b) == (0, len(l[2])):
                continue
            d = c.clone()
            del d.loops[i][2][a:b]
            yield d
    for i, w in enumerate(c.words):
        for a, b in chunks(len(w)):
            if (a, b) == (0, len(w)):
                continue
            d = c.clone()
            del d.words[i][a:b]
            yield d
    pts = [p for l in c.loops for p in l[2]]
    if pts:
        mx, my = min(p[0] for p in pts), min(p[1] for p in pts)
        if (mx, my) != (0, 0):
            d = c.clone()
            for l in d.loops:
                l[2] = [(x - mx, y - my) for x, y in l[2]]
            yield d
        for q in (2, 3):
            d = c.clone()
            for l in d.loops:
                l[2] = [(x // q, y // q) for x, y in l[2]]
            yield d
        # compress coordinate gaps
        for axis in (0, 1):
            vals = sorted({p[axis] for p in pts})
            for a, b in zip(vals, vals[1:]):
                for g in sorted({1, (b - a) // 2, b - a - 1}):
                    if 0 < g < b - a:
                        d = c.clone()
                        for l in d.loops:
                            l[2] = [tuple(v - (b - a - g) if k == axis and v >= b else v for k, v in enumerate(p)) for p in l[2]]
                        yield d
                        break
    for i, l in enumerate(c.loops):
        for j, (x, y) in enumerate(l[2]):
            for nx, ny in ((0, y), (x, 0), (x // 2, y), (x, y // 2), (x - 1 if x > 0 else x + 1, y), (x, y - 1 if y > 0 else y + 1)):
                if (nx, ny) != (x, y) and abs(nx) <= abs(x) and abs(ny) <= abs(y):
                    d = c.clone()
                    d.loops[i][2][j] = (nx, ny)
                    yield d
        for s, k in ((0, l[1]), (l[0], 0)):
            if (s, k) != (l[0], l[1]):
                d = c.clone()
                d.loops[i][0], d.loops[i][1] = s, k
                yield d
    for i, w in enumerate(c.words):
        for j, v in enumerate(w):
            for nv in (0, v // 2 if v >= 0 else -((-v) // 2), v - 1 if v > 0 else v + 1):
                if nv != v and abs(nv) < abs(v):
                    d = c.clone()
                    d.words[i][j] = nv
                    yield d
    for k, v in sorted(c.params.items()):
        for nv in (0, v // 2 if v >= 0 else -((-v) // 2), v - 1 if v > 0 else v + 1):
            if nv != v and abs(nv) < abs(v):
                d = c.clone()
                d.params[k] = nv
                yield d


# ---------------------------------------------------------------- building

def tree_digest(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode())
            h.update(open(root, 'rb').read())
            continue
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()


def build_cpp(name, src, cxx='g++', flags=(), libs=(), extra=()):
    """compile one harness against /repo/include; returns (path, error text)"""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, src)
    cmd = [cxx, '-std=c++20', '-w', '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'lib')] + list(flags) + [src] + [os.path.join(VERIF, x) for x in extra]
    key = hashlib.sha256((tree_digest([os.path.join(REPO, 'include'), os.path.join(VERIF, 'lib'), src] + cmd[-len(extra):] * bool(extra) + sorted(glob.glob(os.path.join(VERIF, 'harness', '*.hpp')))) + repr(cmd)).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, '%s-%s' % (name, key))
    if not os.path.exists(exe):
        for old in os.listdir(BUILD):
            if re.fullmatch(re.escape(name) + r'-[0-9a-f]{16}', old):
                os.unlink(os.path.join(BUILD, old))
        tmp = exe + '.tmp%d' % os.getpid()
        p = subprocess.run(cmd + ['-o', tmp] + list(libs), capture_output=True, text=True, env=ENV)
        if p.returncode != 0:
            e = BuildFailure('building %s failed:\n%s' % (name, p.stderr[-6000:]))
            first = next((x for x in p.stderr.splitlines() if re.search(r'(: error: |undefined reference|multiple definition)', x)), None)
            if first and not re.search('internal compiler error|Killed|No space left|cannot allocate|virtual memory', p.stderr):
                # do the headers as such compile?
                q = subprocess.run([cxx, '-std=c++20', '-w', '-fsyntax-only', '-I' + os.path.join(REPO, 'include'), '-x', 'c++', '-'], input='#include <poly_ops/poly_ops.hpp>\n#include <poly_ops/polydraw.hpp>\nint main() {}\n',
                                   capture_output=True, text=True, env=ENV)
                if q.returncode == 0:
                    e.refused = (first, ' '.join(cmd))
            raise e
        os.replace(tmp, exe)
    return exe


PYTHON = '/opt/vp/venv/bin/python3'


def build_python(flags=()):
    """stage the Python package from /repo/py as its install rules do, with the
    extension module compiled from the working tree; returns the argv prefix"""
    os.makedirs(BUILD, exist_ok=True)
    inc, py, ref, chk = os.path.join(REPO, 'include'), os.path.join(REPO, 'py'), os.path.join(VERIF, 'harness', 'py_ref.cpp'), os.path.join(VERIF, 'harness', 'py_check.py')
    srcs = sorted(f for f in os.listdir(py) if f.endswith(('.py', '.pyi', '.pyx', '.pxd')))
    key = hashlib.sha256((tree_digest([inc, ref] + [os.path.join(py, f) for f in srcs]) + repr(flags)).encode()).hexdigest()[:16]
    stage = os.path.join(BUILD, 'pystage-' + key)
    if not os.path.exists(stage):
        for old in os.listdir(BUILD):
            if re.fullmatch(r'pystage-[0-9a-f]{16}', old):
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        tmp = stage + '.tmp%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(os.path.join(tmp, 'polyops'))
        for f in srcs:
            if f.endswith(('.py', '.pyi')):
                shutil.copy(os.path.join(py, f), os.path.join(tmp, 'polyops', f))

        def run(cmd):
            p = subprocess.run(cmd, capture_output=True, text=True, env=ENV)
            if p.returncode != 0:
                raise BuildFailure('%s failed:\n%s' % (' '.join(cmd[:4]), (p.stdout + p.stderr)[-6000:]))
            return p.stdout.strip()
        npy = run([PYTHON, '-c', 'import numpy; print(numpy.get_include())'])
        pyinc = run([PYTHON, '-c', 'import sysconfig; print(sysconfig.get_path("include"))'])
        cpp = os.path.join(tmp, '_polyops.cpp')

        def module():
            run([PYTHON, '-m', 'cython', '--cplus', '-I' + py, '-o', cpp, '--module-name', 'polyops._polyops', os.path.join(py, '_polyops.pyx')])
            run(['g++', '-std=gnu++20', '-O1', '-w', '-fPIC', '-shared', '-fvisibility=hidden', '-DCYTHON_EXTERN_C=', '-DCYTHON_USE_PYLONG_INTERNALS=0', '-DNPY_1_7_API_VERSION', '-DNPY_NO_DEPRECATED_API',
                 '-I' + inc, '-isystem', pyinc, '-isystem', npy] + list(flags) + [cpp, '-o', os.path.join(tmp, 'polyops', '_polyops.so')])

        def reference():
            run(['g++', '-std=c++20', '-O1', '-w', '-fPIC', '-shared', '-fvisibility=hidden', '-I' + inc, ref, '-o', os.path.join(tmp, 'ref.so')])
        with cf.ThreadPoolExecutor(2) as ex:
            for f in [ex.submit(module), ex.submit(reference)]:
                f.result()
        try:
            os.replace(tmp, stage)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)  # another process was faster
    return [PYTHON, chk, stage, os.path.join(stage, 'ref.so')]


def build_exe(spec, work):
    """an executable named in props.py -> argv prefix"""
    from props import EXES
    e = EXES[spec]
    if e.get('python'):
        return build_python(e.get('flags', ()))
    return [build_cpp(spec, e['src'], e.get('cxx', 'g++'), e.get('flags', ()), e.get('libs', ()), e.get('extra', ()))]


# ---------------------------------------------------------------- running

def classify(rc, err):
    """None if the case passed, otherwise a one-line description"""
    if rc == 0:
        return None
    m = re.search(r'FAILURE: (.*)', err)
    if m:
        return m.group(1).strip()
    for pat in (r'ERROR: (AddressSanitizer: [\w-]+.*)', r'([\w./+-]+:\d+:\d+: runtime error: .*)', r'(.*[Aa]ssertion .* failed.*)', r'(terminate called.*)'):
        m = re.search(pat, err)
        if m:
            return 'crash: ' + m.group(1).strip()
    if rc < 0:
        try:
            return 'crash: killed by ' + signal.Signals(-rc).name
        except ValueError:
            return 'crash: killed by signal %d' % -rc
    return 'crash: exit status %d: %s' % (rc, err.strip()[-300:])


def fail_class(msg):
    """coarse class, so that shrinking does not drift into another failure"""
    m = re.sub(r'0x[0-9a-f]+|-?\d+(\.\d+)?', '#', msg)
    m = re.sub(r'\[.*', '', m)
    return ' '.join(m.split()[:4])


def replay(argv, path, timeout=120):
    try:
        p = subprocess.run(list(argv) + ['replay', path], capture_output=True, text=True, errors='replace', timeout=timeout, env=ENV)
    except subprocess.TimeoutExpired:
        return 77, 'FAILURE: timeout: no answer in %d s' % timeout
    return p.returncode, p.stderr


def shrink(argv, case, msg, work, seconds, accept=None):
    """greedy parallel shrinking; returns (case, msg)"""
    env_limit = ENV.get('PBT_CPU_LIMIT')
    if 'timeout' in msg:
        ENV['PBT_CPU_LIMIT'] = '3'
    cls = fail_class(msg)
    deadline = time.time() + seconds
    best, bmsg = case, msg
    n = [0]

    def attempt(c):
        if time.time() > deadline:
            return None
        n[0] += 1
        path = os.path.join(work, 'shr-%d-%d.case' % (os.getpid(), n[0]))
        with open(path, 'w') as f:
            f.write(c.text())
        try:
            rc, err = replay(argv, path)
        finally:
            os.unlink(path)
        m = classify(rc, err)
        if m is None or rc == 2 or fail_class(m) != cls:
            return None
        if accept and not accept(c, m):
            return None
        return m

    with cf.ThreadPoolExecutor(WORKERS) as ex:
        progress = True
        while progress and time.time() < deadline:
            progress = False
            batch = []
            bs = best.size()
            seen = set()
            gen = (c for c in candidates(best) if c.size() < bs)
            while True:
                batch = []
                for c in gen:
                    t = c.text()
                    if t in seen:
                        continue
                    seen.add(t)
                    batch.append(c)
                    if len(batch) == WORKERS * 2:
                        break
                if not batch or time.time() > deadline:
                    break
                hit = None
                for c, m in zip(batch, list(ex.map(attempt, batch))):
                    if m is not None:
                        hit = (c, m)
                        break
                if hit:
                    best, bmsg = hit
                    progress = True
                    break
    if env_limit is None:
        ENV.pop('PBT_CPU_LIMIT', None)
    else:
        ENV['PBT_CPU_LIMIT'] = env_limit
    return best, bmsg


class Target:
    """one executable generator+oracle: argv prefix, property name inside it"""
    def __init__(self, label, argv, prop, share=1.0, max_cases=10**9):
        self.label, self.argv, self.prop, self.share, self.max_cases = label, list(argv), prop, share, max_cases


def run_target(t, seed, seconds, work, workers=WORKERS):
    """returns (merged stats, failure or None); a failure is (case text, message, index)"""
    procs = []
    for w in range(workers):
        st, js = os.path.join(work, '%s.%d.st' % (t.label, w)), os.path.join(work, '%s.%d.js' % (t.label, w))
        for f in (st, js):
            if os.path.exists(f):
                os.unlink(f)
        ef = open(os.path.join(work, '%s.%d.err' % (t.label, w)), 'w+', errors='replace')
        p = subprocess.Popen(t.argv + ['run', t.prop, str(seed), str(w), str(workers), str(seconds), str(t.max_cases // workers + 1), st, js],
                             stdout=subprocess.DEVNULL, stderr=ef, env=ENV)
        procs.append((p, st, js, ef))
    merged = {'evaluations': 0, 'discarded': 0, 'nontrivial': 0, 'distinct': 0, 'counters': {}, 'samples': []}
    fails = []
    hard = time.time() + seconds * 2 + 240
    for p, st, js, ef in procs:
        try:
            rc = p.wait(timeout=max(1, hard - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = 77
        ef.seek(0)
        err = ef.read()
        ef.close()
        if os.path.exists(js):
            d = json.load(open(js))
            for k in ('evaluations', 'discarded', 'nontrivial', 'distinct'):
                merged[k] += d[k]
            for k, v in d['counters'].items():
                merged['counters'][k] = merged['counters'].get(k, 0) + v
            merged['samples'] += d['samples']
        if rc != 0:
            msg = classify(rc, err)
            idx = cnt = None
            if os.path.exists(st) and os.path.getsize(st) >= 16:
                idx, cnt = struct.unpack('QQ', open(st, 'rb').read(16))
            if idx is None or rc == 2 or cnt == 0:
                raise CheckError('worker of %s did not start: %s' % (t.label, err[-2000:]))
            if not os.path.exists(js):
                merged['evaluations'] += min(cnt, 10**9) if cnt != 2**64 - 1 else 0
            fails.append((idx, msg))
    if not fails:
        return merged, None
    idx, msg = min(fails)
    g = subprocess.run(t.argv + ['gen', t.prop, str(seed), str(idx)], capture_output=True, text=True, env=ENV)
    if g.returncode != 0:
        raise CheckError('cannot regenerate case %d of %s: %s' % (idx, t.label, g.stderr[-2000:]))
    return merged, (g.stdout, msg, idx)
