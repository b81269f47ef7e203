"""Generated checks of the Python module (run|gen|replay, like the C++ harnesses).

usage: python3 py_check.py STAGE REF.so run PROP SEED START STRIDE SECONDS MAXCASES STATUS STATS
       python3 py_check.py STAGE REF.so gen PROP SEED INDEX
       python3 py_check.py STAGE REF.so replay FILE
"""
import ctypes
import faulthandler
import gc
import json
import mmap
import os
import signal
import struct
import sys
import threading
import time

STAGE, REFLIB = sys.argv[1], sys.argv[2]
sys.path.insert(0, STAGE)
sys.dont_write_bytecode = True
import numpy as np
import polyops
assert os.path.realpath(polyops.__file__).startswith(os.path.realpath(STAGE)), polyops.__file__
faulthandler.enable()

M64 = 2**64 - 1
I64 = np.dtype(np.int64)


class Fail(Exception):
    pass


class Rng:
    def __init__(self, seed):
        self.s = seed & M64
        self.next()
        self.next()

    def next(self):
        self.s = (self.s + 0x9e3779b97f4a7c15) & M64
        z = self.s
        z = ((z ^ (z >> 30)) * 0xbf58476d1ce4e5b9) & M64
        z = ((z ^ (z >> 27)) * 0x94d049bb133111eb) & M64
        return z ^ (z >> 31)

    def int(self, lo, hi):
        return lo + ((self.next() * (hi - lo + 1)) >> 64)

    def chance(self, a, b):
        return self.int(1, b) <= a

    def pick(self, v):
        return v[self.int(0, len(v) - 1)]


def hash_str(s):
    h = 1469598103934665603
    for c in s.encode():
        h = ((h ^ c) * 1099511628211) & M64
    return h


class Case:
    def __init__(self, prop=''):
        self.prop, self.params, self.loops, self.words = prop, {}, [], []

    @staticmethod
    def parse(text):
        c = Case()
        for line in text.splitlines():
            f = line.split()
            if not f or f[0].startswith('#'):
                continue
            if f[0] == 'prop':
                c.prop = f[1]
            elif f[0] == 'param':
                c.params[f[1]] = int(f[2])
            elif f[0] == 'loop':
                c.loops.append([int(f[1]), int(f[2]), [tuple(int(v) for v in p.split(',')) for p in f[3:]]])
            elif f[0] == 'word':
                c.words.append([int(v) for v in f[1:]])
        return c

    def text(self):
        o = ['prop ' + self.prop]
        o += ['param %s %d' % kv for kv in sorted(self.params.items())]
        o += [' '.join(['loop', str(l[0]), str(l[1])] + ['%d,%d' % p for p in l[2]]) for l in self.loops]
        o += [' '.join(['word'] + [str(v) for v in w]) for w in self.words]
        return '\n'.join(o) + '\n'


# ------------------------------------------------------------------ the model
_ref = ctypes.CDLL(REFLIB)
_ref.ref_new.restype = ctypes.c_void_p
_ref.ref_next.restype = ctypes.c_int64
_ref.ref_exec.restype = ctypes.POINTER(ctypes.c_int64)
_lock = threading.Lock()


class Shape:
    """what one successful call added"""
    def __init__(self, pts, bset, dtype, offset=None):
        self.pts, self.bset, self.dtype, self.offset = pts, bset, dtype, offset


class Ref:
    """a C++ clipper"""
    def __init__(self, tracked):
        self.tracked = tracked
        self.h = ctypes.c_void_p(_ref.ref_new(int(tracked)))

    def __del__(self):
        _ref.ref_free(self.h)

    def reset(self):
        _ref.ref_reset(self.h)

    def set_next(self, i):
        _ref.ref_set_next(self.h, ctypes.c_int64(i))

    def next(self):
        return _ref.ref_next(self.h)

    def add(self, s):
        if not s.pts:
            return
        flat = [v for p in s.pts for v in p]
        mag, step, closed = s.offset or (0.0, 1, True)
        _ref.ref_add(self.h, int(s.bset), int(s.offset is not None), ctypes.c_double(mag), step, int(closed), ctypes.c_int64(len(s.pts)), (ctypes.c_int64 * len(flat))(*flat))

    def execute(self, op, tree):
        """a list of loops: (points, children or None, originals or None)"""
        n = ctypes.c_int64()
        with _lock:
            r = _ref.ref_exec(self.h, op, int(tree), ctypes.byref(n))
            out = r[:n.value] if n.value else []
        tracked = self.tracked
        pos = 0

        def take():
            nonlocal pos
            pos += 1
            return out[pos - 1]

        def loops():
            res = []
            for _ in range(take()):
                pts, orig = [], []
                for _ in range(take()):
                    pts.append((take(), take()))
                    if tracked:
                        orig.append([take() for _ in range(take())])
                res.append((pts, loops() if tree else None, orig if tracked else None))
            return res
        return loops()


# ------------------------------------------------------- ways to write an array
DTYPES = ['int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'uint32', 'uint64', '>i8', '>i4', 'float64', 'float32', 'object', 'float16', '>f8', 'longlong', 'bool']
FORMS = 12


def fits(pts, dt):
    vals = [v for p in pts for v in p]
    lo, hi = min(vals, default=0), max(vals, default=0)
    if dt.kind in 'iu':
        i = np.iinfo(dt)
        return i.min <= lo and hi <= i.max
    if dt.kind == 'b':
        return 0 <= lo and hi <= 1
    if dt.kind == 'f':
        m = {2: 2**11, 4: 2**24, 8: 2**53}[dt.itemsize]
        return -m <= lo and hi <= m
    return True


def make_array(pts, kind):
    """(object to pass, dtype numpy will see)"""
    form, dt = kind % FORMS, np.dtype(DTYPES[(kind // FORMS) % len(DTYPES)])
    if not fits(pts, dt):
        dt = I64
    n = len(pts)
    flat = np.array(pts, dtype=dt).reshape(n, 2)
    if n == 0:
        return (flat, dt)
    if form == 0:
        return [list(p) for p in pts], I64
    if form == 1:
        return tuple(tuple(p) for p in pts), I64
    if form == 2:
        return flat, dt
    if form == 3:
        return np.asfortranarray(flat), dt
    if form == 4:  # negative strides
        return np.ascontiguousarray(flat[::-1, ::-1])[::-1, ::-1], dt
    if form == 5:  # columns of a wider array
        w = np.zeros((n, 5), dt)
        w[:, 1::3] = flat
        return w[:, 1::3], dt
    if form == 6:  # every other row
        w = np.zeros((n * 2, 2), dt)
        w[::2] = flat
        return w[::2], dt
    if form == 7:
        w = flat.copy()
        w.setflags(write=False)
        return w, dt
    if form == 8 and dt.kind != 'O':  # not aligned
        raw = bytearray(flat.nbytes + 1)
        w = np.frombuffer(memoryview(raw)[1:], dtype=dt).reshape(n, 2)
        w[:] = flat
        return w, dt
    if form == 9:  # fields of records
        if dt.kind == 'O':
            return flat, dt
        rec = np.zeros(n, dtype=[('a', 'i1'), ('p', dt, (2,)), ('b', 'i2')])
        rec['p'] = flat
        return rec['p'], dt
    if form == 10:
        rows = [flat[i] for i in range(n)]
        return rows, np.asarray(rows).dtype
    if form == 11 and all(p == pts[0] for p in pts):  # a stride of zero
        return np.broadcast_to(flat[0], (n, 2)), dt
    if form == 11 and all(p[0] == p[1] for p in pts):
        return np.broadcast_to(flat[:, :1], (n, 2)), dt
    return flat, dt


OUT_DTYPES = [None, 'int64', 'int32', 'int16', 'int8', 'uint8', 'uint64', '>i8', '>i2', 'float64', 'float32', '>f4', 'object', 'complex128', int, float]
CASTING = ['no', 'equiv', 'safe', 'same_kind', 'unsafe']
BAD_LOOPS = [[1, 2], [[1, 2, 3]], [[[1, 2]]], 7, [], [[1], [2]], np.zeros((2, 3), np.int64), [['a', 'b'], ['c', 'd']], None]


def may_cast(dt, casting):
    return np.can_cast(dt, I64, casting='same_kind' if casting is None else casting)


# ------------------------------------------------------------------ comparison
def conv(pts, dt):
    a = np.array(pts, dtype=np.int64).reshape(len(pts), 2)
    with np.errstate(all='ignore'):
        return a.astype(dt)


def check_loops(got, want, dt, tree, tracked, what):
    if type(got) is not tuple:
        raise Fail('%s returned a %s instead of a tuple' % (what, type(got).__name__))
    if len(got) != len(want):
        raise Fail('%s returned %d loops instead of %d' % (what, len(got), len(want)))
    names = ('loop',) + (('children',) if tree else ()) + (('originals',) if tracked else ())
    for k, (g, (pts, children, orig)) in enumerate(zip(got, want)):
        loop = g
        if tree or tracked:
            if not isinstance(g, tuple) or getattr(g, '_fields', None) != names:
                raise Fail('%s returned a %s with the fields %r where %r was expected' % (what, type(g).__name__, getattr(g, '_fields', None), names))
            cls = polyops.TrackedRecursiveLoop if tree and tracked else polyops.RecursiveLoop if tree else polyops.TrackedLoop
            if type(g) is not cls:
                raise Fail('%s returned an instance of the wrong class' % what)
            loop = g.loop
        if not isinstance(loop, np.ndarray) or loop.shape != (len(pts), 2):
            raise Fail('%s: loop %d is %r instead of an array of %d points' % (what, k, getattr(loop, 'shape', type(loop)), len(pts)))
        if loop.dtype != dt:
            raise Fail('%s: the type of loop %d is %s instead of %s' % (what, k, loop.dtype, dt))
        e = conv(pts, dt)
        if not np.array_equal(loop, e) or (dt.kind == 'O' and not all(type(v) is int for v in loop.flat)):
            raise Fail('%s: loop %d is %s instead of %s' % (what, k, loop.tolist(), e.tolist()))
        if tracked:
            check_map(g.originals, orig, what, k)
        if tree:
            check_loops(g.children, children, dt, tree, tracked, what)


def check_map(m, orig, what, k):
    if type(m) is not polyops.PointMap or len(m) != len(orig):
        raise Fail('%s: the map of loop %d is wrong' % (what, k))
    flat = [i for o in orig for i in o]
    offs = [0]
    for o in orig:
        offs.append(offs[-1] + len(o))
    if m.indices.dtype != np.intp or m.offsets.dtype != np.intp or m.indices.tolist() != flat or m.offsets.tolist() != offs:
        raise Fail('%s: the original points of loop %d are %s/%s instead of %s/%s' % (what, k, m.offsets.tolist(), m.indices.tolist(), offs, flat))
    for i, o in enumerate(orig):
        if m[i].tolist() != o:
            raise Fail('%s: the original points of point %d of loop %d are %s instead of %s' % (what, i, k, m[i].tolist(), o))
    for bad in (len(orig), -1, len(orig) + 5):
        try:
            m[bad]
        except IndexError:
            continue
        raise Fail('PointMap accepts the index %d, with a length of %d' % (bad, len(orig)))
    if [x.tolist() for x in m] != orig:
        raise Fail('iterating over a PointMap gives something else than indexing it')
    im = [i for i, o in enumerate(orig) for _ in o]
    r = m.index_map()
    if r.dtype != np.intp or r.tolist() != im:
        raise Fail('index_map() gives %s instead of %s' % (r.tolist(), im))
    out = np.full(len(im) * 2, -7, np.intp)
    r = m.index_map(out[::2])
    if r.base is not out and r is not out or out[::2].tolist() != im or any(v != -7 for v in out[1::2]):
        raise Fail('index_map(out) gives %s instead of %s' % (out[::2].tolist(), im))
    try:
        m.index_map(np.zeros(len(im) + 1, np.intp))
    except ValueError:
        return
    raise Fail('index_map() accepts an array of the wrong size')


def promote(dts):
    r = None
    for d in dts:
        r = d if r is None else np.promote_types(r, d)
    return r


def magnitude(p):
    return p / 4.0


# ------------------------------------------------------------------ generators
def gen_loop(r, span):
    n = r.int(0, 9) if r.chance(1, 3) else r.int(3, 7)
    ox, oy = (0, 0) if r.chance(1, 2) else (r.int(-span, span), r.int(-span, span))
    k = r.int(0, 5)
    if k == 0:
        a, b, c, d = (r.int(0, span) for _ in range(4))
        pts = [(min(a, b), min(c, d)), (max(a, b), min(c, d)), (max(a, b), max(c, d)), (min(a, b), max(c, d))]
    elif k == 1 and r.chance(1, 4):
        v = (r.int(0, span), r.int(0, span))
        pts = [v] * n
    elif k == 2 and r.chance(1, 4):
        pts = [(v, v) for v in (r.int(0, span) for _ in range(n))]
        ox = oy
    elif k == 3:
        g = max(1, span // 4)
        pts = [(r.int(0, 4) * g, r.int(0, 4) * g) for _ in range(n)]
    else:
        pts = [(r.int(0, span), r.int(0, span)) for _ in range(n)]
    return [(x + ox, y + oy) for x, y in pts]


def gen_fun(r):
    c = Case()
    span = r.pick([1, 4, 10, 60, 1000, 100000, 10**9, 2**40, 2**50])
    for _ in range(r.int(0, 5)):
        c.loops.append([r.int(0, 1), r.int(0, FORMS * len(DTYPES) - 1) if r.chance(1, 2) else r.int(0, FORMS * 4 - 1), gen_loop(r, span)])
    c.params = dict(fun=r.int(0, 4), op=r.int(0, 4), tree=r.int(0, 1), track=r.int(0, 1), dtype=r.int(0, len(OUT_DTYPES) - 1) if r.chance(1, 2) else 0,
                    casting=r.pick([3, 3, 3, 4, 4, 0, 1, 2]), magnitude=gen_mag(r, span), step=r.pick([1, 3, 10]) if span < 1000 else min(2**31 - 1, max(1, span // 50)), closed=r.int(0, 1), iterable=r.int(0, 3), leak=int(r.chance(1, 12)))
    return c


def gen_mag(r, span):
    span = min(span, 2**36)
    return r.int(-4 * max(1, span // 4), 4 * max(1, span // 3))


# which calls a history is made of
(ADD, ADDS, OFF, OFFS, EXEC, RESET, BAD, NEXT) = range(8)


def gen_clip(r):
    c = Case()
    span = r.pick([4, 10, 60, 1000, 100000])
    for _ in range(r.int(1, 6)):
        c.loops.append([r.int(0, 1), r.int(0, FORMS * len(DTYPES) - 1) if r.chance(1, 3) else r.int(0, FORMS * 4 - 1), gen_loop(r, span)])
    nl = len(c.loops)
    for _ in range(r.int(2, 10)):
        op = r.pick([ADD, ADD, ADD, ADDS, ADDS, OFF, OFFS, EXEC, EXEC, RESET, BAD, BAD, NEXT])
        c.words.append([op, r.int(0, nl - 1), r.int(0, nl - 1), r.int(0, 2), r.int(0, 11), gen_mag(r, span), r.pick([1, 3, 10]) if span < 1000 else r.pick([max(1, span // 10), max(1, span // 40)]), r.int(0, 1), r.pick([3, 3, 4, 4, 2])])
    c.words.append([EXEC, r.int(0, nl - 1), 0, r.int(0, 1), r.int(0, 11), 0, 1, 1, 4])
    c.params = dict(track=r.int(0, 1), threads=4 if r.chance(1, 8) else 1)
    return c


# ------------------------------------------------------------------ properties
def iterable(v, how):
    return [lambda x: list(x), lambda x: tuple(x), lambda x: iter(x), lambda x: (y for y in x)][how](v)


def pyfun(c, ctx):
    p = c.params
    casting = CASTING[p['casting'] % len(CASTING)]
    kw = {}
    if casting != 'same_kind':
        kw['casting'] = casting
    made = [make_array(l[2], l[1]) for l in c.loops]
    ok = all(may_cast(dt, casting) for (a, dt), l in zip(made, c.loops) if l[2])
    fun = p['fun'] % 5
    if fun == 4:
        for (a, dt), l in zip(made, c.loops):
            e = sum(x1 * y2 - x2 * y1 for (x1, y1), (x2, y2) in zip(l[2], l[2][1:] + l[2][:1]))
            try:
                g = polyops.winding_dir(a, **kw)
            except TypeError:
                if may_cast(dt, casting):
                    raise
                ctx.bump('refused')
                continue
            if l[2] and not may_cast(dt, casting):
                raise Fail('winding_dir accepts %s with casting=%r' % (dt, casting))
            if type(g) is not int or g != e:
                raise Fail('winding_dir gives %r instead of %d for %s (%s)' % (g, e, l[2], dt))
            ctx.nontrivial |= e != 0
        return
    want_dt = OUT_DTYPES[p['dtype'] % len(OUT_DTYPES)]
    tree, track = bool(p['tree']), bool(p['track'])
    dobj = np.dtype(want_dt) if isinstance(want_dt, str) and p['op'] & 1 else want_dt
    if want_dt is not None:
        kw['dtype'] = dobj
    if tree:
        kw['tree_out'] = True
    if track:
        kw['track_points'] = True
    how = p['iterable'] % 4
    dts = [dt for a, dt in made]
    if fun == 0:
        op, what = 0, 'union'
        shapes = [Shape(l[2], 0, dt) for (a, dt), l in zip(made, c.loops)]
        call = lambda: polyops.union(iterable([a for a, dt in made], how), **kw)
    elif fun == 1:
        op, what = 4, 'normalize'
        shapes = [Shape(l[2], 0, dt) for (a, dt), l in zip(made, c.loops)]
        call = lambda: polyops.normalize(iterable([a for a, dt in made], how), **kw)
    elif fun == 2:
        op = p['op'] % 5
        what = 'boolean_op ' + polyops.BoolOp(op).name
        sets = [[a for (a, dt), l in zip(made, c.loops) if l[0] % 2 == s] for s in (0, 1)]
        dts = [dt for s in (0, 1) for (a, dt), l in zip(made, c.loops) if l[0] % 2 == s]
        shapes = [Shape(l[2], s, dt) for s in (0, 1) for (a, dt), l in zip(made, c.loops) if l[0] % 2 == s]
        o = polyops.BoolOp(op) if p['step'] & 1 else op
        call = lambda: polyops.boolean_op(iterable(sets[0], how), iterable(sets[1], (how + 1) % 4), o, **kw)
    else:
        op, what = 0, 'offset'
        mag, step, closed = magnitude(p['magnitude']), max(1, p['step']), bool(p['closed'])
        shapes = [Shape(l[2], 0, dt, (mag, step, closed)) for (a, dt), l in zip(made, c.loops)]
        if p['op'] & 1:
            call = lambda: polyops.offset(iterable([a for a, dt in made], how), mag, step, closed, **kw)
        else:
            if not closed:
                kw['closed'] = False
            call = lambda: polyops.offset(iterable([a for a, dt in made], how), magnitude=mag, arc_step_size=step, **kw)
    before = [a.copy() if isinstance(a, np.ndarray) else None for a, dt in made]
    try:
        calc = promote(dts)
    except TypeError:
        calc, ok = None, False
    what += ' (tree)' if tree else ''
    what += ' (tracked)' if track else ''
    try:
        got = call()
    except (TypeError, ValueError) as e:
        if ok:
            raise Fail('%s raised %s: %s' % (what, type(e).__name__, e))
        ctx.bump('refused')
        if p.get('leak'):
            leak_check(call, [a for a, _ in made] + [dobj], what)
        return
    if not ok:
        raise Fail('%s accepts %s with casting=%r' % (what, [str(d) for d in dts], casting))
    for (a, dt), b in zip(made, before):
        if b is not None and not np.array_equal(a, b):
            raise Fail('%s changed its input' % what)
    if not c.loops:
        if got != ():
            raise Fail('%s of nothing is not an empty tuple' % what)
        return
    ref = Ref(track)
    for x in shapes:
        ref.add(x)
    want = ref.execute(op, tree)
    dt = calc if want_dt is None else np.dtype(want_dt)
    check_loops(got, want, dt, tree, track, what)
    ctx.nontrivial |= len(want) > 0
    ctx.bump(what.split()[0])
    for (a, d), l in zip(made, c.loops):
        if l[2]:
            ctx.bump('form-%d' % (l[1] % FORMS))
            ctx.bump('type-' + str(d))
    if p.get('leak'):
        del got
        leak_check(call, [a for a, _ in made] + [dobj], what)
        ctx.bump('leak-check')


def leak_check(call, objs, what, n=40):
    """nothing may be leaked, or released too often: the counts must not grow in each of three periods"""
    def counts():
        return [sys.getrefcount(o) for o in objs] + [sys.getrefcount(I64)]
    names = [type(o).__name__ for o in objs] + ['dtype']
    suspects = set(range(len(names)))
    for _ in range(3):
        got = quiet(call)
    if got and counts_of(got)[1:] != counts_of(rebuild(got))[1:]:
        raise Fail('%s leaks or releases its result' % what)
    del got
    for _ in range(3):
        before = counts()
        for _ in range(n):
            quiet(call)
        after = counts()
        suspects = {i for i in suspects if abs(after[i] - before[i]) >= n}
        if not suspects:
            return
    raise Fail('%s leaks or releases %s' % (what, names[min(suspects)]))


def rebuild(x):
    """the same structure, made here"""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, polyops.PointMap):
        return polyops.PointMap(x.offsets.copy(), x.indices.copy())
    if hasattr(x, '_fields'):
        return type(x)(*[rebuild(y) for y in x])
    return tuple([rebuild(y) for y in x])


def counts_of(x):
    r = [sys.getrefcount(x)]
    if isinstance(x, polyops.PointMap):
        r += [sys.getrefcount(x.offsets), sys.getrefcount(x.indices)]
    elif isinstance(x, tuple):
        for i in range(len(x)):
            # the empty tuple is shared
            if not (type(x[i]) is tuple and not x[i]):
                r += counts_of(x[i])
    return r


def quiet(call):
    try:
        return call()
    except (TypeError, ValueError):
        return None


class Model:
    """what a clipper holds"""
    def __init__(self, track):
        self.ref, self.dtype, self.touched = Ref(track), None, False

    def add(self, shapes):
        for x in shapes:
            self.touched = True
            self.ref.add(x)
            self.dtype = x.dtype if self.dtype is None else np.promote_types(self.dtype, x.dtype)

    def reset(self):
        self.ref.reset()
        self.dtype, self.touched = None, False


def history(c, ctx, count):
    p = c.params
    track = bool(p.get('track'))
    name = 'TrackedClipper' if track else 'Clipper'
    clip = polyops.TrackedClipper() if track else polyops.Clipper()
    model = Model(track)
    if not c.loops:
        return
    for w in c.words:
        w = (w + [0] * 9)[:9]
        kind, i, j, bset, k, mag, step, closed, casting = w
        kind %= 8
        i %= len(c.loops)
        j %= len(c.loops)
        step = max(1, step)
        casting = CASTING[casting % len(CASTING)]
        kw = {} if casting == 'same_kind' else {'casting': casting}
        chosen = c.loops[min(i, j):max(i, j) + 1] if kind in (ADDS, OFFS) else [c.loops[i]]
        s = bset % 2
        sets = ((s,), polyops.BoolSet(s))[k & 1]
        sargs = ((polyops.BoolSet(s),), (s,))[k & 1]
        if kind == NEXT:
            if track:
                clip.next_orig_i = abs(mag)
                model.ref.set_next(abs(mag))
                if clip.next_orig_i != abs(mag):
                    raise Fail('next_orig_i is %d after setting it to %d' % (clip.next_orig_i, abs(mag)))
            continue
        if kind == RESET:
            clip.reset()
            model.reset()
            continue
        if kind == EXEC:
            op, tree = k % 5, bool(bset & 1)
            what = '%s.execute(%s%s)' % (name, polyops.BoolOp(op).name, ',tree_out=True' if tree else '')
            want_dt = OUT_DTYPES[mag % len(OUT_DTYPES)] if closed else None
            got = clip.execute(polyops.BoolOp(op) if k & 1 else op, dtype=want_dt, **({'tree_out': True} if tree else {}))
            want = model.ref.execute(op, tree) if model.touched else []
            dt = (model.dtype or I64) if want_dt is None else np.dtype(want_dt)
            check_loops(got, want, dt, tree, track, what)
            if count:
                ctx.nontrivial |= len(want) > 0
                ctx.bump('execute')
            kept = got
            snapshot = [x.copy() for x in arrays(got)]
            if model.touched:
                model.reset()
            if any(not np.array_equal(a, b) for a, b in zip(arrays(kept), snapshot)):
                raise Fail('a result changed')
            continue
        if kind == BAD:
            bad(c, clip, model, w, ctx, name, count)
            continue
        made = [make_array(l[2], l[1]) for l in chosen]
        suffix, args = ('', sargs) if bset == 2 else (('_subject', '_clip')[s], ())
        if bset == 2:
            s = int(sargs[0])
        off = (magnitude(mag), step, bool(closed)) if kind in (OFF, OFFS) else None
        fname = ('add_offset' if off else 'add_loop') + ('s' if kind in (ADDS, OFFS) else '') + suffix
        f = getattr(clip, fname)
        oargs = (off if not closed or k & 2 else off[:2]) if off else ()
        what = '%s.%s' % (name, fname)
        arg = iterable([a for a, dt in made], k % 4) if kind in (ADDS, OFFS) else made[0][0]
        refused = None
        dt0, added = model.dtype, []
        for (a, dt), l in zip(made, chosen):
            try:
                dt0 = dt if dt0 is None else np.promote_types(dt0, dt)
                if l[2] and not may_cast(dt, casting):
                    raise TypeError
            except TypeError:
                refused = (dt, casting)
                break
            added.append(Shape(l[2], s, dt, off))
        try:
            r = f(arg, *args, *oargs, **kw)
        except TypeError as e:
            if not refused:
                raise Fail('%s raised %s: %s' % (what, type(e).__name__, e))
            if count:
                ctx.bump('refused')
            # the loops before the one that was refused are kept
            model.add(added)
            continue
        if refused:
            raise Fail('%s accepts %s with casting=%r' % (what, refused[0], casting))
        if r is not None:
            raise Fail('%s returned %r' % (what, r))
        model.add(added)
        if count:
            ctx.bump(fname.replace('_subject', '').replace('_clip', ''))
        if track and clip.next_orig_i != model.ref.next():
            raise Fail('%s: next_orig_i is %d instead of %d' % (what, clip.next_orig_i, model.ref.next()))


def bad(c, clip, model, w, ctx, name, count):
    """a call with an invalid argument: refused, and nothing is added"""
    kind, i, j, bset, k, mag, step, closed, casting = w
    loop = BAD_LOOPS[k % len(BAD_LOOPS)]
    good, _ = make_array(c.loops[i % len(c.loops)][2], 0)
    if not c.loops[i % len(c.loops)][2]:
        good = [[0, 0], [1, 1], [2, 0]]
    m = magnitude(mag)
    calls = [
        ('add_loop', lambda: clip.add_loop(loop, polyops.BoolSet.subject)),
        ('add_loop_subject', lambda: clip.add_loop_subject(loop)),
        ('add_loop_clip', lambda: clip.add_loop_clip(loop, casting='unsafe')),
        ('add_loops_clip', lambda: clip.add_loops_clip([loop])),
        ('add_offset_subject', lambda: clip.add_offset_subject(loop, m, step)),
        ('add_loop', lambda: clip.add_loop(good, 2 + abs(mag))),
        ('add_loops', lambda: clip.add_loops([good], -1 - abs(mag))),
        ('add_offset', lambda: clip.add_offset(good, 2 + abs(mag), m, step)),
        ('add_offsets', lambda: clip.add_offsets([good], 2 + abs(mag), m, step)),
        ('add_offset', lambda: clip.add_offset(good, polyops.BoolSet.clip, m, -(abs(step) % 5))),
        ('add_offsets_clip', lambda: clip.add_offsets_clip([good], m, 0)),
        ('add_loop', lambda: clip.add_loop(good, polyops.BoolSet.clip, casting='bogus')),
        ('execute', lambda: clip.execute(5 + abs(mag)) if model.touched else clip.execute('x', dtype='nonsense')),
        ('execute', lambda: clip.execute(0, dtype='nonsense')),
        ('add_offset', lambda: clip.add_offset_clip(good, 'x', step)),
        ('winding_dir', lambda: polyops.winding_dir(loop, casting='unsafe')),
        ('union', lambda: polyops.union([good, loop], casting='unsafe')),
        ('normalize', lambda: polyops.normalize(7)),
        ('boolean_op', lambda: polyops.boolean_op([good], [good], 5 + abs(mag))),
        ('offset', lambda: polyops.offset([good], m, 0)),
    ]
    nm, f = calls[(j * 12 + k + bset * 5) % len(calls)]
    if count:
        ctx.bump('bad-' + nm)
    try:
        f()
    except (TypeError, ValueError):
        return
    raise Fail('%s.%s accepts an invalid argument (call %d, loop %r)' % (name, nm, (j * 12 + k + bset * 5) % len(calls), loop))


def arrays(res):
    for x in res:
        if isinstance(x, np.ndarray):
            yield x
        else:
            yield x.loop
            if hasattr(x, 'children'):
                yield from arrays(x.children)


def pyclip(c, ctx):
    n = max(1, min(8, c.params.get('threads', 1)))
    if n == 1:
        return history(c, ctx, True)
    errors = []

    def run(count):
        try:
            for _ in range(3):
                history(c, ctx, count)
        except BaseException as e:
            errors.append(e)
    ts = [threading.Thread(target=run, args=(i == 0,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ctx.bump('threads')
    if errors:
        raise errors[0]


PROPS = {'pyfun': (gen_fun, pyfun), 'pyclip': (gen_clip, pyclip)}


# ------------------------------------------------------------------ command line
class Ctx:
    def __init__(self, counters):
        self.counters, self.nontrivial = counters, False

    def bump(self, k):
        self.counters[k] = self.counters.get(k, 0) + 1


def make_case(prop, seed, index):
    r = Rng(((seed * 0x9e3779b97f4a7c15) & M64) ^ hash_str(prop))
    a = r.next()
    r = Rng(a ^ ((index * 0xd1342543de82ef95 + 0x632be59bd9b4e019) & M64))
    c = PROPS[prop][0](Rng(r.next()))
    c.prop = prop
    return c


def run_case(c, ctx):
    """None or a message"""
    try:
        PROPS[c.prop][1](c, ctx)
    except Fail as e:
        return str(e)
    except Exception as e:
        tb = e.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        return 'unexpected exception: %s: %s (line %d)' % (type(e).__name__, e, tb.tb_lineno)
    return None


def arm():
    signal.setitimer(signal.ITIMER_PROF, float(os.environ.get('PBT_CPU_LIMIT', '20')))


def main():
    mode = sys.argv[3]
    if mode == 'gen':
        sys.stdout.write(make_case(sys.argv[4], int(sys.argv[5]), int(sys.argv[6])).text())
        return 0
    if mode == 'replay':
        c = Case.parse(open(sys.argv[4]).read())
        ctx = Ctx({})
        arm()
        m = run_case(c, ctx)
        if m:
            sys.stderr.write('FAILURE: %s\n' % m.replace('\n', ' '))
            return 1
        sys.stderr.write('ok (non-trivial)\n' if ctx.nontrivial else 'ok (trivial)\n')
        return 0
    prop, seed, idx, stride, seconds, most = sys.argv[4], int(sys.argv[5]), int(sys.argv[6]), int(sys.argv[7]), float(sys.argv[8]), int(sys.argv[9])
    with open(sys.argv[10], 'wb') as f:
        f.write(b'\0' * 16)
    f = open(sys.argv[10], 'r+b')
    status = mmap.mmap(f.fileno(), 16)
    counters, samples, hashes = {}, [], set()
    n = nontriv = 0
    t0 = time.monotonic()
    msg = None
    while n < most and time.monotonic() - t0 < seconds:
        n += 1
        status[:] = struct.pack('QQ', idx, n)
        arm()
        c = make_case(prop, seed, idx)
        ctx = Ctx(counters)
        msg = run_case(c, ctx)
        if msg:
            break
        if ctx.nontrivial:
            nontriv += 1
            t = c.text()
            hashes.add(hash(t))
            if len(samples) < 3 and nontriv % 37 == 1:
                samples.append(t[:1200])
        idx += stride
    signal.setitimer(signal.ITIMER_PROF, 0)
    json.dump(dict(evaluations=n, discarded=0, nontrivial=nontriv, distinct=len(hashes), failed=bool(msg), index=idx, message=msg or '', counters=counters, samples=samples), open(sys.argv[11], 'w'))
    if msg:
        status[:] = struct.pack('QQ', idx, M64)
        sys.stderr.write('FAILURE: %s\n' % msg.replace('\n', ' '))
        return 1
    return 0


sys.exit(main())
