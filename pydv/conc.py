"""Concrete back end of the contracts: runs the same units on the real modules
under the interpreter of the repository's own environment.

Used to replay counter-models of failed obligations, to search for a failing
input, as a cross-check of the symbolic semantics against CPython/numpy, and
as the (labelled, bounded) stand-in where a function is outside the engine's
reach.  It never counts as proof."""
import importlib
import math
import os
import random
import shutil
import sys
import tempfile
import uuid
import types
import numpy as np


UNIQUE = [0]


class Beyond(Exception):
    """The unit stands on something the code no longer has."""


class Discard(Exception):
    pass


class CheckFailed(Exception):
    def __init__(self, name, detail):
        super().__init__("%s: %s" % (name, detail))
        self.name, self.detail = name, detail


def scratch_dir():
    """A folder whose name holds no part CHECLabPy gives a meaning to."""
    d = os.path.join(tempfile.gettempdir(), 'pydv' + uuid.uuid4().hex)
    os.mkdir(d, 0o700)
    return d


def _plain(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    return x


class Source:
    def __init__(self, n, P, S, event):
        self.n_events, self.n_pixels, self.n_samples, self.event = n, P, S, event

    def __iter__(self):
        for k in range(self.n_events):
            yield self.event(k)

    def __len__(self):
        return self.n_events


class Cx:
    symbolic = False

    def __init__(self, unit, seed, given=None, tol=2e-4, root=None):
        self.unit = unit
        self.rng = random.Random(seed)
        self.nprng = np.random.RandomState(seed % (2 ** 32))
        self.given = given or {}
        self.used = {}
        self.tol = tol
        self.root = root
        self.undo = []
        self.checks = 0
        self.stubbed = False
        self.np = np
        # how inputs of this run are drawn
        self.style = self.rng.choice(['plain', 'plain', 'ties', 'peak', 'peak', 'flat', 'signed'])

    # ------------------------------------------------------------ inputs
    def int(self, name, lo=None, hi=None, conc=None):
        if name in self.given:
            v = int(self.given[name])
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                raise Discard
        else:
            if conc is not None:
                a, b = conc
                a = lo if a is None else a
                if lo is not None:
                    a = max(a, lo)
                if hi is not None:
                    b = min(b, hi)
            else:
                a = lo if lo is not None else (min(-20, hi - 20) if hi is not None else -20)
                b = hi if hi is not None else a + 40
                b = min(b, a + 60)
            if b < a:
                raise Discard
            r = self.rng.random()
            v = a if r < .15 else b if r < .3 else self.rng.randint(a, b)
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, conc=None, gt=None):
        if name in self.given:
            v = float(self.given[name])
            if (lo is not None and v < lo) or (hi is not None and v > hi) or (gt is not None and v <= gt):
                raise Discard
        else:
            a, b = conc if conc is not None else (lo if lo is not None else gt if gt is not None else -8,
                                                  hi if hi is not None else None)
            if b is None:
                b = a + 16
            r = self.rng.random()
            if r < .1:
                v = a
            elif r < .5:
                v = round(self.rng.uniform(a, b))
            else:
                v = round(self.rng.uniform(a, b) * 64) / 64
            v = float(min(max(v, a), b))
            if gt is not None and v <= gt:
                v = gt + (b - gt) * self.rng.choice([1 / 64., 1 / 2., 1.])
        self.used[name] = v
        return v

    def bool(self, name):
        v = bool(self.given[name]) if name in self.given else self.rng.random() < .5
        self.used[name] = v
        return v

    def obj(self, name):
        self._objs = getattr(self, '_objs', 0) + 1
        return 'obj_%s_%d' % (name, self._objs)

    def choice(self, name, options):
        options = list(options)
        i = int(self.given[name]) if name in self.given else self.rng.randrange(len(options))
        self.used[name] = i
        return options[i]

    def array(self, name, shape, dtype='f4', lo=None, hi=None, gen=None):
        shape = tuple(int(s) for s in shape)
        dt = np.dtype({'b1': 'bool'}.get(dtype, dtype))
        if any(s < 0 for s in shape) or int(np.prod(shape)) > 4000000:
            raise Discard
        g = self.given.get(name)
        if g is not None:
            if 'data' in g:
                a = np.array([np.nan if x is None else x for x in g['data']], dtype=dt).reshape(shape) \
                    if int(np.prod(shape)) == len(g['data']) else None
                if a is None:
                    raise Discard
            else:
                a = np.full(shape, g['default'] or 0, dtype='f8' if dt.kind == 'f' else 'i8')
                for idx, v in g['entries']:
                    if v is None or any(not isinstance(i, int) for i in idx):
                        continue
                    if len(idx) == len(shape) and all(0 <= i < s for i, s in zip(idx, shape)):
                        a[tuple(idx)] = v
                if lo is not None or hi is not None:
                    a = np.clip(a, lo, hi)
                a = a.astype(dt)
        else:
            a = self.draw(shape, dt, lo, hi, gen)
        self.used[name] = dict(data=[None if isinstance(x, float) and x != x else x for x in a.ravel().tolist()]) \
            if a.size <= 20000 else dict(data=[], large=list(shape))
        return a

    def draw(self, shape, dt, lo, hi, gen):
        r = self.nprng
        n = int(np.prod(shape))
        if gen is not None:
            return np.asarray(gen(r, shape), dtype=dt)
        if dt.kind == 'b':
            p = self.rng.choice([.1, .5, .9, 0, 1])
            return (r.rand(n) < p).reshape(shape)
        if dt.kind in 'iu':
            a = lo if lo is not None else (0 if dt.kind == 'u' else -50)
            b = hi if hi is not None else a + (100 if dt.itemsize == 1 else self.rng.choice([3, 100, 100]))
            return r.randint(a, b + 1, size=shape).astype(dt)
        st = self.style if self.rng.random() < .75 else self.rng.choice(['plain', 'ties', 'peak', 'flat'])
        if st == 'ties':
            a = r.randint(-2, 4, size=n).astype(float)
        elif st == 'flat':
            a = np.full(n, float(r.randint(-3, 4)))
            if n and self.rng.random() < .6:
                k = r.randint(0, n, size=max(1, n // 10))
                a[k] += r.randint(-8, 9, size=len(k)) / 4.
        elif st == 'peak' and len(shape) and shape[-1] >= 4:
            s = shape[-1]
            m = n // s
            x = np.arange(s)
            pos = r.randint(0, s, size=(m, 1))
            if self.rng.random() < .5:
                pos[:] = pos[0] if m else 0
            w = r.randint(1, 8, size=(m, 1))
            amp = r.randint(4, 60, size=(m, 1))
            a = np.round(amp * np.exp(-(x - pos) ** 2 / (2. * w * w)) * 8) / 8 + r.randint(-4, 5, size=(m, s)) / 8.
            a = a.ravel()
        elif st == 'signed':
            a = r.randint(-800, 800, size=n) / 16.
        else:
            a = r.randint(-64, 640, size=n) / 8.
        if lo is not None or hi is not None:
            l = lo if lo is not None else -1e9
            h = hi if hi is not None else 1e9
            if hi is not None and lo is not None:
                a = l + (h - l) * (r.randint(0, 65, size=n) / 64.)
            else:
                a = np.clip(a, l, h)
        return a.reshape(shape).astype(dt)

    def obj_array(self, name, shape):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = '%s_%s' % (name, i)
        return a

    def function(self, name, n):
        c = [self.real('%s_c%d' % (name, i), conc=(-1, 1)) for i in range(n + 1)]
        return lambda *a: c[0] + sum(math.sin(x * y + 1) for x, y in zip(c[1:], a))

    def segment(self, n, f):
        return [f(k) for k in range(n)]

    def is_segment(self, x):
        return False

    def build(self, shape, f, dtype='f8'):
        a = np.zeros(tuple(int(s) for s in shape), dtype=dtype)
        for i in np.ndindex(*a.shape):
            a[i] = f(*i)
        return a

    def arange(self, n):
        return np.arange(int(n))

    def source(self, n, P, S, ev):
        from CHECLabPy.core.io.waveform import Waveform
        return Source(n, P, S, lambda k: Waveform(ev[k].copy(), k))

    # ------------------------------------------------------------ program
    def load(self, mod):
        return importlib.import_module(mod)

    def code(self, src, **names):
        import textwrap
        m = types.ModuleType('contract')
        m.__dict__.update(names, __name__='contract')
        exec(textwrap.dedent(src), m.__dict__)
        return m

    def stream(self, n, f):
        return Source(int(n), None, None, f)

    def truth(self, x):
        return bool(x)

    def optional(self, x):
        return x is None, x

    def stub_module(self, name, value, purge=True):
        if purge and not self.stubbed:
            self.stubbed = True
            self.purge()
        old = sys.modules.get(name)
        if value is None:
            sys.modules[name] = None
        else:
            sys.modules[name] = value

        def undo():
            if old is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = old
        self.undo.append(undo)

    def purge(self):
        for m in [m for m in sys.modules if m == 'CHECLabPy' or m.startswith('CHECLabPy.')]:
            del sys.modules[m]

    def module(self, name, **attrs):
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        return m

    def patch(self, obj, name, value):
        missing = object()
        old = obj.__dict__.get(name, missing) if hasattr(obj, '__dict__') else getattr(obj, name)
        setattr(obj, name, value)

        def undo():
            if old is missing:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
            else:
                setattr(obj, name, old)
        self.undo.append(undo)

    def assume_contract(self, text):
        pass

    def note(self, text):
        pass

    def wrap_fn(self, f):
        return f

    def tmp(self, name):
        if self.root is None:
            self.root = scratch_dir()
        return os.path.join(self.root, name)

    def write_yaml(self, path, data):
        import yaml
        with open(path, 'w') as f:
            if data is not None:
                yaml.safe_dump(data, f)

    def read_yaml(self, path):
        import yaml
        with open(path) as f:
            return yaml.safe_load(f)

    def write_csv(self, path, cols):
        import pandas as pd
        pd.DataFrame(cols).to_csv(path, sep='\t', index=False)

    def same_value(self, a, b, tol=None):
        return self.same_val(a, b, tol)

    def write_table(self, path, a):
        np.savetxt(path, a)

    def close(self):
        for u in reversed(self.undo):
            u()
        self.undo = []
        if self.stubbed:
            self.purge()
        if self.root is not None:
            shutil.rmtree(self.root, ignore_errors=True)
            self.root = None

    def frame(self, cols, metadata=None):
        import pandas as pd
        import warnings
        df = pd.DataFrame(dict(cols))
        if metadata is not None:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore', UserWarning)
                df.metadata = metadata
        return df

    def distinct(self, col):
        u, w = np.unique(col, return_index=True)
        return len(u), lambda g: u[g], lambda g: w[g]

    def typed_list(self, xs):
        from numba import typed
        l = typed.List()
        for x in xs:
            l.append(x)
        return l

    def list(self, x):
        return list(x)

    def nanoseconds(self, t):
        return int(t.value)

    # ------------------------------------------------------------ helpers
    def history(self, obj, step, tag='h'):
        for k in range(self.rng.choice([0, 1, 1, 2, 3, 12])):
            step('%s%d' % (tag, k))

    def unique(self):
        UNIQUE[0] += 1
        return 'u%d' % UNIQUE[0]

    def is_array(self, x):
        return isinstance(x, np.ndarray) and x.ndim > 0

    def snapshot(self, a):
        return np.array(a, copy=True)

    def el(self, a, *idx):
        return a[tuple(int(i) for i in idx)]

    def len(self, x):
        return len(x)

    def getitem(self, x, k):
        return x[k]

    def _vec(self, n, f):
        return [float(f(i)) for i in range(int(n))]

    def sum(self, n, f):
        return math.fsum(self._vec(n, f))

    def mean(self, n, f):
        n = int(n)
        return self.sum(n, f) / n if n else float('nan')

    def var(self, n, f):
        m = self.mean(n, f)
        return self.sum(n, lambda i: (float(f(i)) - m) ** 2) / n if n else float('nan')

    def std(self, n, f):
        return math.sqrt(self.var(n, f)) if n else float('nan')

    def argmax(self, n, f):
        v = self._vec(n, f)
        return v.index(max(v))

    def argmin(self, n, f):
        v = self._vec(n, f)
        return v.index(min(v))

    def max(self, n, f):
        return max(self._vec(n, f))

    def min(self, n, f):
        return min(self._vec(n, f))

    def cannot(self, why):
        raise Beyond(why)

    def first(self, n, p):
        n = int(n)
        for i in range(n):
            if p(i):
                return i
        return n

    def at_first(self, n, p, val, default):
        j = self.first(n, p)
        return val(j) if j < n else default

    def exists(self, n, p):
        return any(bool(p(i)) for i in range(int(n)))

    def forall(self, n, p):
        return all(bool(p(i)) for i in range(int(n)))

    def ite(self, c, a, b):
        r = a if c else b
        return r() if callable(r) else r

    def and_(self, *cs):
        return all(bool(c() if callable(c) else c) for c in cs)

    def or_(self, *cs):
        return any(bool(c() if callable(c) else c) for c in cs)

    def not_(self, c):
        return not c

    def min2(self, a, b):
        return min(a, b)

    def max2(self, a, b):
        return max(a, b)

    def clip(self, x, lo, hi):
        return min(max(x, lo), hi)

    def exp(self, x):
        try:
            return math.exp(x)
        except OverflowError:
            return float('inf')

    def log(self, x):
        x = float(x)
        return math.log(x) if x > 0 else (-float('inf') if x == 0 else float('nan'))

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else float('nan')

    def pow(self, x, y):
        return math.pow(x, y)

    def lgamma(self, x):
        try:
            return math.lgamma(x)
        except ValueError:
            return float('inf')

    def div(self, a, b):
        with np.errstate(all='ignore'):
            return float(np.float64(a) / np.float64(b))

    pi = math.pi
    nan = float('nan')

    def floor(self, x):
        return math.floor(x)

    def round_(self, x):
        return int(round(x))

    def trunc(self, x):
        return int(x)

    def fdiv(self, a, b):
        return a // b

    def isnan(self, x):
        return x != x

    def isfinite(self, x):
        return bool(np.isfinite(x))

    def real_of(self, x):
        return float(x)

    def decide(self, c):
        return bool(c)

    # -------------------------------------------------------- obligations
    def assume(self, c):
        if not c:
            raise Discard

    def ensure(self, name, c):
        self.checks += 1
        if not bool(c):
            raise CheckFailed(name, 'does not hold')

    def same_val(self, a, b, tol=None):
        tol = self.tol if tol is None else tol
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a[()]
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b[()]
        if a is None or b is None or isinstance(a, (str, type)) or isinstance(b, (str, type)):
            return type(a) is type(b) and a == b or (isinstance(a, str) and isinstance(b, str) and a == b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.same_val(x, y, tol) for x, y in zip(a, b))
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return False
        try:
            fa, fb = float(a), float(b)
        except Exception:
            return a == b
        if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
            return int(a) == int(b)
        if fa != fa or fb != fb:
            return fa != fa and fb != fb
        if fa == fb:
            return True
        if math.isinf(fa) or math.isinf(fb):
            return False
        return abs(fa - fb) <= tol * (1 + abs(fb))

    def eq(self, name, a, b, tol=None):
        self.checks += 1
        if not self.same_val(a, b, tol):
            raise CheckFailed(name, 'got %r, expected %r' % (_plain(a), _plain(b)))

    def all(self, name, dims, fn, tol=None):
        dims = tuple(int(d) for d in dims)
        n = int(np.prod(dims)) if dims else 1
        idxs = np.ndindex(*dims)
        if n > 3000:
            k = self.nprng.randint(0, n, size=1500)
            idxs = zip(*[x.tolist() for x in np.unravel_index(k, dims)])
        for idx in idxs:
            r = fn(*[int(i) for i in idx])
            for nm, v in (r.items() if isinstance(r, dict) else [(None, r)]):
                n2 = (name if nm is None else name + '.' + nm)
                if isinstance(v, tuple):
                    self.checks += 1
                    if not self.same_val(*v, tol=tol):
                        raise CheckFailed(n2, 'at %s: got %r, expected %r' % (list(idx), _plain(v[0]), _plain(v[1])))
                elif v is not None:
                    self.ensure(n2 + ' at %s' % (list(idx),), v)

    def shape(self, name, a, shape):
        self.checks += 1
        s = tuple(int(x) for x in shape)
        if np.shape(a) != s or not hasattr(a, 'shape'):
            raise CheckFailed(name, 'has shape %s, expected %s' % (np.shape(a), s))

    def same(self, name, a, b, tol=None):
        self.shape(name, a, np.shape(b))
        self.all(name, np.shape(b), lambda *i: (a[i], b[i]), tol)

    def unchanged(self, name, a, before):
        self.checks += 1
        if a.shape != before.shape or a.dtype != before.dtype or not (
                np.array_equal(a, before, equal_nan=True) if a.dtype.kind == 'f' else np.array_equal(a, before)):
            raise CheckFailed(name, 'was modified')

    def filtered(self, name, result, n, cond, elem, get=lambda x: x):
        exp = [elem(k) for k in range(int(n)) if cond(k)]
        got = [get(x) for x in result]
        self.checks += 1
        if len(exp) != len(got) or not all(self.same_val(a, b) for a, b in zip(got, exp)):
            raise CheckFailed(name, 'got %r, expected %r' % ([_plain(x) for x in got][:50], [_plain(x) for x in exp][:50]))

    def seq(self, name, result, n, elem):
        self.eq(name + ' (length)', len(result), int(n))
        for k in range(int(n)):
            r = elem(k, result[k])
            for nm, v in (r.items() if isinstance(r, dict) else [(None, r)]):
                if isinstance(v, tuple):
                    self.eq('%s%s at %d' % (name, '' if nm is None else '.' + nm, k), *v)
                elif v is not None:
                    self.ensure('%s at %d' % (name, k), v)

    def implies(self, c, a):
        if not c:
            return True
        return a() if callable(a) else a

    def keys(self, name, d, ks):
        self.checks += 1
        if set(d) != set(ks):
            raise CheckFailed(name, 'has %s, expected %s' % (sorted(map(str, d)), sorted(map(str, ks))))

    def raises(self, fn, *excs):
        try:
            fn()
        except excs:
            return True
        return False

    def must_raise(self, name, fn, *excs):
        self.ensure(name, self.raises(fn, *excs))

    def is_same_object(self, a, b):
        return a is b

    def base_is(self, a, b):
        return np.shares_memory(a, b)
