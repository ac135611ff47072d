"""pandas, yaml, iminuit, multiprocessing (partial models)."""
import z3
from . import core, arr, models, red
from .core import Unsupported, State, wrap, iterm, lift, tadd, tsub, simp, const_of, teq, ZERO, ONE, tand, tle, tlt
from .arr import SArr, Compressed, dim_t
from .npmodel import ModelModule, Missing, DIRS


def is_col(v):
    return isinstance(v, (SArr, Compressed))


def take(col, fwd, n):
    """Column read through a row map (new row -> old row)."""
    return SArr.make((wrap(n),), lambda i: col.at(wrap(fwd(i[0]))), col.dtype)


class SSeries:
    """A column with the default row order; the index is not modelled beyond
    "row number" or a key column."""
    def __init__(self, a, name=None, index=None):
        self.a, self.name, self.index_col = a, name, index

    @property
    def values(self):
        return self.a

    def to_numpy(self):
        return self.a

    @property
    def dtype(self):
        return self.a.dtype

    @property
    def size(self):
        return self.a.size

    @property
    def shape(self):
        return self.a.shape

    def __len__(self):
        return models.b_len(self.a)

    def pv_len(self):
        return models.b_len(self.a)

    def pv_iter(self):
        return self.a

    def pv_array(self):
        return self.a

    def __iter__(self):
        return iter(self.a)

    @property
    def iloc(self):
        return SILoc(self)

    def copy(self, deep=True):
        return SSeries(self.a.copy(), self.name, self.index_col)

    def astype(self, t):
        return SSeries(self.a.astype(arr.as_dtype(t)), self.name, self.index_col)

    def clip(self, lower=None, upper=None):
        return SSeries(self.a.clip(lower, upper), self.name, self.index_col)

    def abs(self):
        return SSeries(abs(self.a), self.name, self.index_col)

    def max(self): return self.a.max()
    def min(self): return self.a.min()
    def sum(self): return self.a.sum()
    def mean(self): return self.a.mean()

    def __getitem__(self, k):
        if isinstance(k, SSeries):
            return SSeries(self.a[k.a], self.name)
        if isinstance(k, (int, core.SInt)) and self.index_col is None:
            return self.a[k]
        raise Unsupported("Series[%s]" % type(k).__name__)


def _bin(op):
    def f(self, o):
        o2 = o.a if isinstance(o, SSeries) else o
        if isinstance(o2, list):
            raise Unsupported("Series with a list")
        return SSeries(getattr(self.a, op)(o2), self.name, self.index_col)
    return f


for _op in ('add', 'radd', 'sub', 'rsub', 'mul', 'rmul', 'truediv', 'rtruediv', 'floordiv', 'mod', 'pow', 'lt', 'le', 'gt',
            'ge', 'eq', 'ne', 'and', 'or', 'xor'):
    setattr(SSeries, '__%s__' % _op, _bin('__%s__' % _op))
SSeries.__invert__ = lambda self: SSeries(~self.a, self.name, self.index_col)
SSeries.__neg__ = lambda self: SSeries(-self.a, self.name, self.index_col)
SSeries.__hash__ = object.__hash__


class SILoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        if isinstance(self.s, SSeries):
            r = self.s.a[k]
            return SSeries(r, self.s.name) if is_col(r) else r
        return self.s.rows(k)


class SFrame:
    """Columns of equal length; row labels are the row numbers."""
    def __init__(self, cols=None, n=None):
        self.cols = dict(cols or {})
        self._n = n
        self.metadata = None

    @property
    def nrows(self):
        for c in self.cols.values():
            return dim_t(c.n) if isinstance(c, Compressed) else dim_t(c._shape[0])
        return ZERO if self._n is None else self._n

    def pv_len(self):
        return wrap(self.nrows)

    def __len__(self):
        return models.b_len(self)

    @property
    def index(self):
        n = self.nrows
        return SSeries(SArr.make((wrap(n),), lambda i: wrap(i[0]), arr.i8))

    @property
    def shape(self):
        return wrap(self.nrows), len(self.cols)

    @property
    def columns(self):
        return list(self.cols)

    def __contains__(self, k):
        return k in self.cols

    def __iter__(self):
        return iter(list(self.cols))

    def keys(self):
        return list(self.cols)

    def items(self):
        return [(k, SSeries(v, k)) for k, v in self.cols.items()]

    def copy(self, deep=True):
        return SFrame({k: v.copy() for k, v in self.cols.items()}, self._n)

    @property
    def iloc(self):
        return SILoc(self)

    def rows(self, k):
        return SFrame({c: v[k] for c, v in self.cols.items()})

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise KeyError(k)
            return SSeries(self.cols[k], k)
        if isinstance(k, list):
            for c in k:
                if c not in self.cols:
                    raise KeyError(c)
            return SFrame({c: self.cols[c] for c in k})
        if isinstance(k, SSeries):
            return self.rows(k.a)
        if isinstance(k, (SArr, slice)):
            return self.rows(k)
        raise Unsupported("DataFrame[%s]" % type(k).__name__)

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise Unsupported("DataFrame[%s] = ..." % type(k).__name__)
        from .interp import snapshot
        snapshot(self.cols)
        self.cols[k] = self.as_column(v)

    def as_column(self, v):
        if isinstance(v, SSeries):
            v = v.a
        if isinstance(v, (list, tuple)):
            v = arr.asarray(v)
        if isinstance(v, SArr) and v.ndim == 1:
            if self.cols and not core.prove(teq(dim_t(v._shape[0]), self.nrows)):
                if core.decide(core.tnot(teq(dim_t(v._shape[0]), self.nrows))):
                    raise ValueError("Length of values does not match length of index")
            return v.copy()
        if isinstance(v, SArr) and v.ndim == 0:
            v = v.at()
        n = self.nrows
        dt = arr.asarray(v).dtype if not isinstance(v, str) else arr.obj_
        return SArr.make((wrap(n),), lambda i: v, dt)

    def __getattr__(self, k):
        c = self.__dict__.get('cols')
        if c is not None and k in c:
            return SSeries(c[k], k)
        raise AttributeError("'DataFrame' object has no attribute '%s'" % k)

    def groupby(self, by, as_index=True, sort=True, **k):
        if k:
            raise Unsupported("groupby options")
        keys = [by] if isinstance(by, str) else list(by)
        for c in keys:
            if c not in self.cols:
                raise KeyError(c)
        return SGroupBy(self, keys, isinstance(by, str), None, as_index, sort)

    def to_csv(self, path, sep=',', index=True, **k):
        if k:
            raise Unsupported("to_csv options")
        if index is not False or sep != '\t':
            raise Unsupported("to_csv with an index / another separator")
        State.vfs.put(path, 'csv', {c: v.copy() for c, v in self.cols.items()})


def make_frame(data=None, columns=None, index=None, **k):
    if isinstance(data, SFrame):
        return data.copy()
    if index is not None or columns is not None or k or not isinstance(data, dict):
        raise Unsupported("DataFrame constructed this way")
    f = SFrame()
    vec = [v for v in data.values() if isinstance(v, (SArr, SSeries, list, tuple))]
    if not vec and data:
        raise ValueError("If using all scalar values, you must pass an index")
    for v in vec[:1]:
        f._n = dim_t(models.b_len(v))
    for c in data:
        f.cols[c] = f.as_column(dict.__getitem__(data, c))
    return f


# ------------------------------------------------------------- groups
class Groups:
    """The distinct key tuples of key columns, in increasing order (assumed
    contract of DataFrame.groupby): G of them, the g-th being key(., g)."""

    def __init__(self, name, rows, n):
        self.G = z3.Int('groups!G!' + name)
        self.w = z3.Function('groups!first!' + name, core.I, core.I)
        self.rows, self.n = rows, n

    def first(self, g):
        """The first row of group g."""
        return self.w(g)

    def key(self, j, g):
        return wrap(self.rows[j](self.w(g)))

    def member(self, i, g):
        """Row i belongs to group g."""
        return tand(*[teq(r(i), r(self.w(g))) for r in self.rows])


def distinct(cols, sort=True):
    n = dim_t(cols[0].n) if isinstance(cols[0], Compressed) else dim_t(cols[0]._shape[0])
    if any(isinstance(c, Compressed) for c in cols):
        raise Unsupported("groupby on filtered rows")
    k = z3.Int('groups!row')
    with arr.quant(arr.in_range(k, n)):
        ts = [core.lift(c.at(wrap(k))).t for c in cols]
    memo = State.__dict__.get('groups_memo')
    name = '%s|%s|%s' % (n.sexpr(), '|'.join(t.sexpr() for t in ts), sort)
    import hashlib
    short = hashlib.md5(name.encode()).hexdigest()[:10]

    def row(c):
        return lambda i: core.lift(c.at(wrap(i))).t
    g = Groups(short, [row(c) for c in cols], n)
    core.assume(wrap(tand(tle(ZERO, g.G), core.tor(tle(n, ZERO), tle(ONE, g.G)), tle(g.G, core.tite(tle(ZERO, n), n, ZERO)))))
    return g


class GroupColumn(Compressed):
    """The rows of one group (never empty)."""

    at_first = None

    def __getitem__(self, k):
        if isinstance(k, int) and k == 0:
            return self.elem(self.at_first)
        if isinstance(k, int) and k == -1:
            n = dim_t(self.n)
            return self.elem(simp(n - 1 - red.mk_first(n, lambda i: self.cond(simp(n - 1 - i)))))
        return Compressed.__getitem__(self, k)


class SGroupBy:
    def __init__(self, frame, keys, single, select=None, as_index=True, sort=True):
        self.frame, self.keys, self.single, self.select, self.as_index, self.sort = frame, keys, single, select, as_index, sort

    def __getitem__(self, k):
        return SGroupBy(self.frame, self.keys, self.single, [k] if isinstance(k, str) else list(k), self.as_index, self.sort)

    def agg(self, spec=None, *a, **kw):
        if a or not isinstance(spec, (dict, str)):
            raise Unsupported("groupby.agg of this form")
        cols = [c for c in self.frame.cols if c not in self.keys]
        if isinstance(spec, str):
            spec = {c: spec for c in self.select or cols}
        g = distinct([self.frame.cols[k] for k in self.keys], self.sort)
        out = {}
        for j, k in enumerate(self.keys):
            out[k] = SArr.make((wrap(g.G),), lambda ix, j=j: g.key(j, ix[0]), self.frame.cols[k].dtype)
        for c in spec:
            f = dict.__getitem__(spec, c)
            if c not in self.frame.cols:
                raise KeyError("Column(s) ['%s'] do not exist" % c)
            out[c] = self.column(g, self.frame.cols[c], f, kw)
        r = SFrame(out)
        return r if not self.as_index else SGrouped(r, list(self.keys))

    aggregate = agg

    def column(self, g, col, f, kw):
        def value(gt):
            s = GroupColumn(wrap(g.n), lambda i: g.member(i, gt), lambda i: col.at(wrap(i)), col.dtype)
            s.at_first = g.first(gt)
            if f == 'first':
                return s[0]
            if f == 'last':
                return s[-1]
            if f == 'mean':
                return s.mean()
            if f == 'sum':
                return s.sum()
            if f in ('count', 'size'):
                return s.size
            if callable(f):
                return f(SSeries(s), **{k: v for k, v in kw.items() if k != 'as_index'})
            raise Unsupported("groupby aggregation %r" % (f,))
        with arr.quant(arr.in_range(z3.Int('groups!g'), g.G)):
            v0 = core.lift(value(z3.Int('groups!g')))
        if v0 is None:
            raise Unsupported("groupby aggregation to objects")
        dt = arr.asarray(v0).dtype
        return SArr.make((wrap(g.G),), lambda ix: value(ix[0]), dt)

    def first(self): return self.agg('first')
    def sum(self): return self.agg('sum')
    def mean(self): return self.agg('mean')


class SGrouped:
    """A frame whose index are the group keys."""

    def __init__(self, frame, keys):
        self.f, self.keys = frame, keys

    def reset_index(self, drop=False):
        if drop:
            return SFrame({c: v for c, v in self.f.cols.items() if c not in self.keys})
        return self.f

    def __getitem__(self, k):
        if isinstance(k, str) and k not in self.keys:
            return self.f[k]
        if isinstance(k, list):
            return SGrouped(self.f[self.keys + k], self.keys)
        raise KeyError(k)

    @property
    def index(self):
        if len(self.keys) != 1:
            raise Unsupported("MultiIndex")
        return self.f[self.keys[0]]


class STimestamp:
    """A point in time, in nanoseconds since the epoch."""
    pv_immutable = True

    def __init__(self, value):
        self.value = value

    def pv_subst(self, sub):
        from .loops import subst_value
        return STimestamp(subst_value(self.value, sub))

    def __eq__(self, o):
        return isinstance(o, STimestamp) and self.value == o.value

    def __hash__(self):
        return id(self)


def to_datetime(x, unit=None, **k):
    f = {'ns': 1, 'us': 1000, 'ms': 10 ** 6, 's': 10 ** 9}.get(unit)
    if k or f is None or is_col(x):
        raise Unsupported("to_datetime of this kind")
    return STimestamp(x * f)


def make(loader):
    lib = {}

    def read_csv(path, sep=',', delimiter=None, **k):
        if k or (sep if delimiter is None else delimiter) != '\t':
            raise Unsupported("read_csv options")
        cols = State.vfs.get(path, 'csv')
        return SFrame({c: v.copy() for c, v in cols.items()})
    lib['pandas'] = ModelModule('pandas', set(DIRS['pandas']), to_datetime=to_datetime, DataFrame=FrameType, Series=SSeries, read_csv=read_csv)
    lib['pandas.errors'] = ModelModule('pandas.errors', None, PerformanceWarning=Warning)
    from . import vfs
    lib['yaml'] = vfs.make_yaml(ModelModule)
    lib['iminuit'] = ModelModule('iminuit', None)
    lib['iminuit.iminuit_warnings'] = ModelModule('iminuit.iminuit_warnings', None, HesseFailedWarning=Warning)
    lib['multiprocessing'] = ModelModule('multiprocessing', None)
    return lib


class FrameMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, SFrame)

    def __call__(cls, *a, **k):
        return make_frame(*a, **k)


class FrameType(metaclass=FrameMeta):
    pass
