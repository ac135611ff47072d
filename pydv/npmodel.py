"""Models of numpy, numba, math and scipy functions."""
import json
import os
import functools
import math as _math
from fractions import Fraction
import z3
from . import core, red, arr, loops, models
from .core import (Unsupported, EngineExc, State, SVal, SBool, SInt, SReal, SNum, SObj, decide, prove, wrap, bterm,
                   iterm, as_term, const_of, tand, tor, tnot, teq, tlt, tle, tadd, tsub, tmul, tite, s_ite, lift,
                   toreal, rv, ZERO, ONE, RZERO, TRUE, FALSE, I, R, B, cls_of, has_cls)
from .arr import (SArr, Compressed, DT, asarray, dim_t, in_range, elementwise, f8, f4, i8, bool_, ints, obj_, quant,
                  as_dtype, full, empty, dt_of_scalar)
from .loops import Seg, SymSeq, SymRange

DIRS = json.load(open(os.path.join(os.path.dirname(__file__), 'dirs.json')))


class ModelModule:
    """An external module: names not modelled are Unsupported if they exist in
    the installed library and AttributeErrors if they do not."""
    pv_immutable = True

    def __init__(self, name, known=None, **attrs):
        self.__dict__['__name__'] = name
        self.__dict__['_known'] = known
        self.__dict__.update(attrs)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        k = self.__dict__.get('_known')
        if k is not None and n not in k:
            raise AttributeError("module '%s' has no attribute '%s'" % (self.__name__, n))
        return Missing("%s.%s" % (self.__name__, n))


class Missing:
    """Exists in the library but is not modelled: any use is unsupported."""
    pv_immutable = True

    def __init__(self, name):
        self.__dict__['_n'] = name

    def _bad(self):
        raise Unsupported("%s is not modelled" % self._n)

    def __getattr__(self, n):
        if n.startswith('__') or n.startswith('pv_') or n.startswith('_'):
            raise AttributeError(n)
        return Missing(self._n + '.' + n)

    def __call__(self, *a, **k):
        self._bad()

    def __mro_entries__(self, bases):
        return (object,)

    def __getitem__(self, k):
        self._bad()

    def __iter__(self):
        self._bad()

    def __enter__(self):
        self._bad()

    def __exit__(self, *a):
        self._bad()

    def pv_instancecheck(self, o):
        raise Unsupported("isinstance with %s" % self._n)


def nokw(k, name, ok=()):
    for x, v in k.items():
        if x in ok or v is None:
            continue
        raise Unsupported("%s(%s=...)" % (name, x))


def arrish(x):
    if isinstance(x, (list, tuple, range)) or hasattr(x, 'pv_array') or isinstance(x, SymSeq):
        return np_array(x)
    return x


def ufunc1(f, dt=None, name=''):
    def g(x, out=None, **k):
        nokw(k, name, ('dtype',))
        x = arrish(x)
        if isinstance(x, (SArr, Compressed)):
            d = dt(x.dtype) if callable(dt) and not isinstance(dt, DT) else (dt or x.dtype)
            r = x.map(f, d) if not (isinstance(x, SArr) and x.ndim == 0) else f(x.at())
            if out is not None:
                out.assign(r)
                return out
            return r
        if not isinstance(x, (SVal, int, float, Fraction)):
            raise TypeError("bad operand type for %s" % name)
        return f(x)
    g.__name__ = name
    return g


def ufunc2(op, name):
    def g(a, b, out=None, **k):
        nokw(k, name)
        a, b = arrish(a), arrish(b)
        if isinstance(a, (SArr, Compressed)) or isinstance(b, (SArr, Compressed)):
            r = arr.binop(op, a, b)
            if isinstance(r, SArr) and r.ndim == 0:
                r = r.at()
        else:
            r = arr.scalar_op(op, lift(a), lift(b))
        if out is not None:
            out.assign(r)
            return out
        return r
    g.__name__ = name

    def at(a, idx, v):
        raise Unsupported("%s.at" % name)
    g.at = at

    def reduce(a, axis=0, **k):
        a = arrish(a)
        if isinstance(a, SArr):
            n = const_of(dim_t(a._shape[axis]))
            if op == '+':
                return a.sum(axis)
            if op in ('|', '&') and a._dtype.kind == 'b':
                return a.any(axis) if op == '|' else a.all(axis)
            if n is not None and n > 0 and axis == 0:
                r = a[0]
                for i in range(1, n):
                    r = g(r, a[i])
                return r
        raise Unsupported("%s.reduce" % name)
    g.reduce = reduce
    return g


def fdt(d):
    return d if d.kind == 'f' and d.bits >= 32 else f8


def s_isnan(x):
    x = lift(x)
    return wrap(teq(cls_of(x), z3.IntVal(core.NAN)))


def s_isinf(x):
    x = lift(x)
    return wrap(tor(teq(cls_of(x), z3.IntVal(core.PINF)), teq(cls_of(x), z3.IntVal(core.NINF))))


def s_isfinite(x):
    return wrap(teq(cls_of(lift(x)), ZERO))


def np_floor(x):
    x = lift(x)
    if isinstance(x, SReal):
        core.need_finite(x, 'floor')
        return SReal(toreal(core.floor_term(x.t)))
    return x


def np_ceil(x):
    x = lift(x)
    if isinstance(x, SReal):
        core.need_finite(x, 'ceil')
        return SReal(-toreal(core.floor_term(-x.t)))
    return x


def np_trunc(x):
    x = lift(x)
    return SReal(toreal(iterm(core.s_trunc(x)))) if isinstance(x, SReal) else x


def np_rint(x, d=0):
    x = lift(x)
    return SReal(toreal(iterm(core.round_half_even(x)))) if isinstance(x, SReal) else x


def np_round(x, decimals=0, **k):
    if decimals != 0:
        raise Unsupported("np.round to digits")
    return ufunc1(np_rint, None, 'round')(x)


def s_sign(x):
    x = lift(x)
    if isinstance(x, SReal):
        return SReal(tite(tlt(RZERO, x.t), rv(1), tite(tlt(x.t, RZERO), rv(-1), RZERO)), x.cls)
    return wrap(tite(tlt(ZERO, iterm(x)), ONE, tite(tlt(iterm(x), ZERO), z3.IntVal(-1), ZERO)))


def s_abs(x):
    return abs(lift(x)) if not isinstance(x, (int, float)) else abs(x)


# -------------------------------------------------------------- construction
def shape_of(s):
    if isinstance(s, SArr):
        return tuple(models.concrete_iter(s))
    if isinstance(s, list):
        return tuple(s)
    return s


def np_zeros(shape, dtype=float, order=None, **k):
    return full(shape_of(shape), 0, dtype)


def np_ones(shape, dtype=float, **k):
    return full(shape_of(shape), 1, dtype)


def np_full(shape, v, dtype=None, **k):
    if isinstance(v, (list, tuple, SArr)):
        r = empty(shape_of(shape), as_dtype(dtype) if dtype is not None else asarray(v).dtype)
        r[...] = v
        return r
    return full(shape_of(shape), v, dtype if dtype is not None else dt_of_scalar(v))


def np_empty(shape, dtype=float, **k):
    return empty(shape_of(shape), dtype)


def like(f):
    def g(a, *v, dtype=None, shape=None, **k):
        a = arrish(a)
        return f(a._shape if shape is None else shape, *v, dtype=dtype if dtype is not None else a._dtype)
    return g


def np_arange(*a, dtype=None, **k):
    a = [x.at() if isinstance(x, SArr) else x for x in a]
    if len(a) == 1:
        start, stop, step = 0, a[0], 1
    elif len(a) == 2:
        start, stop, step = a[0], a[1], 1
    else:
        start, stop, step = a
    if start is None:
        start = 0
    allint = all(isinstance(x, (int, SInt)) for x in (start, stop, step))
    if allint:
        cs = const_of(iterm(step))
        if cs is None or cs == 0:
            raise Unsupported("arange step")
        n = iterm(red_range_len(start, stop, cs))
        st = iterm(start)
        d = as_dtype(dtype, i8)
        r = SArr.make((wrap(red.clamp0(core.simp(n))),),
                      lambda ix: arr.scalar_astype(wrap(core.simp(tadd(st, tmul(z3.IntVal(cs), ix[0])))), d), d)
        return r
    st, sp, se = [core.toreal(iterm(x)) for x in (start, stop, step)]
    q = (sp - st) / se
    n = -core.floor_term(core.simp(-q))
    d = as_dtype(dtype, f8)
    return SArr.make((wrap(red.clamp0(core.simp(n))),),
                     lambda ix: arr.scalar_astype(SReal(tadd(st, tmul(se, toreal(ix[0])))), d), d)


def red_range_len(start, stop, cs):
    r = SymRange(iterm(start), iterm(stop), cs)
    return wrap(core.simp(r.n))


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, **k):
    if isinstance(num, (float, SReal)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    a, b = toreal(core.num_term(lift(start))), toreal(core.num_term(lift(stop)))
    n = iterm(num)
    if not prove(tle(ZERO, n)) and decide(tlt(n, ZERO)):
        raise ValueError("Number of samples must be non-negative")
    div = core.simp(n - 1) if endpoint else n
    # one sample with an endpoint: just start
    one = tle(div, ZERO)
    if prove(tnot(one)):
        fn = lambda ix: SReal(tadd(a, tmul(tsub(b, a), div_r(toreal(ix[0]), div))))
    elif decide(one):
        fn = lambda ix: SReal(a)
    else:
        fn = lambda ix: SReal(tadd(a, tmul(tsub(b, a), div_r(toreal(ix[0]), div))))
    r = SArr.make((wrap(n),), fn, f8)
    if dtype is not None:
        r = r.astype(dtype)
    if retstep:
        return r, SReal(div_r(tsub(b, a), div))
    return r


def div_r(x, n):
    c = const_of(n)
    if c is not None:
        return tmul(x, rv(Fraction(1, c)))
    return x / toreal(n)


def np_array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, (list, tuple)) and loops.has_seg(x) or isinstance(x, SymSeq):
        return seq_array(x, dtype)
    if isinstance(x, loops.GenResult):
        raise Unsupported("array of a generator")
    r = asarray(x, dtype, copy=copy)
    if isinstance(r, SArr) and copy and type(r) is not SArr:
        r = r.view(SArr)
    while ndmin and r.ndim < ndmin:
        r = expand(r, 0)
    return r


def seq_array(x, dtype=None):
    segs = loops.segments(x)
    if len(segs) != 1:
        return np_concatenate([np_array(s) if k == 'items' else seq_array(s, dtype) for k, s in segs])
    s = segs[0][1]
    n = red.clamp0(s.n)
    k0 = core.fresh_int('q')
    with quant(in_range(k0, s.n)):
        c = TRUE if s.cond is None else s.cond(k0)
        with core.local_facts(c):
            e = s.elem(k0)
    if isinstance(e, (list, tuple)):
        e = asarray(e)
        conv = asarray
    else:
        conv = lambda v: v
    d = as_dtype(dtype, None) if dtype is not None else None
    if isinstance(e, SArr):
        if s.cond is not None:
            raise Unsupported("array of a filtered sequence of arrays")
        for dd in e._shape:
            if red.occurs(k0, dim_t(dd)):
                raise Unsupported("array of arrays of different sizes")
        dd = d or e._dtype
        return SArr.make((wrap(n),) + tuple(e._shape),
                         lambda ix: arr.scalar_astype(conv(s.elem(ix[0])).elem_fn()(ix[1:]), dd), dd)
    dd = d or dt_of_scalar(e)
    if s.cond is not None:
        return Compressed(wrap(s.n), s.cond, lambda i: arr.scalar_astype(s.elem(i), dd), dd)
    return SArr.make((wrap(n),), lambda ix: arr.scalar_astype(s.elem(ix[0]), dd), dd)


def np_asarray(x, dtype=None, **k):
    if isinstance(x, (list, tuple)) and loops.has_seg(x) or isinstance(x, SymSeq):
        return seq_array(x, dtype)
    r = asarray(x, dtype)
    if isinstance(r, SArr) and type(r) is not SArr:
        return r.view(SArr)
    return r


def np_copy(x, **k):
    x = np_array(x)
    return x


# ---------------------------------------------------------------- structure
def expand(a, axis):
    axis = axis % (a.ndim + 1)
    shape = list(a._shape)
    shape.insert(axis, 1)
    return a._view(tuple(shape), lambda v: v[:axis] + v[axis + 1:],
                   lambda s: (TRUE, s[:axis] + (ZERO,) + s[axis:]))


def np_concatenate(xs, axis=0, **k):
    if isinstance(xs, (list, tuple)) and loops.has_seg(xs) or isinstance(xs, SymSeq):
        raise Unsupported("concatenate a symbolic list")
    xs = [arrish(x) for x in models.concrete_iter(xs)] if not isinstance(xs, SArr) else [xs[i] for i in range(len(xs))]
    if not xs:
        raise ValueError("need at least one array to concatenate")
    if any(isinstance(x, Compressed) for x in xs):
        raise Unsupported("concatenate filtered arrays")
    if len(xs) == 1:
        return xs[0].copy()
    nd = xs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = axis % nd
    d = xs[0]._dtype
    for x in xs[1:]:
        d = arr.promote(d, x._dtype)
        if x.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for i in range(nd):
            if i != axis and not arr.dim_eq(x._shape[i], xs[0]._shape[i]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    offs = [ZERO]
    for x in xs:
        offs.append(core.simp(tadd(offs[-1], dim_t(x._shape[axis]))))
    fs = [x.elem_fn() for x in xs]
    shape = list(xs[0]._shape)
    shape[axis] = wrap(offs[-1])

    def fn(ix):
        i = ix[axis]
        r = None
        conds = []
        for j in range(len(xs)):
            c = tlt(i, offs[j + 1]) if j < len(xs) - 1 else TRUE
            if prove(tnot(c)):
                continue
            loc = ix[:axis] + (core.simp(tsub(i, offs[j])),) + ix[axis + 1:]
            lo = tle(offs[j], i)
            with core.local_facts(c, lo):
                v = fs[j](loc)
            conds.append((c, v))
            if z3.is_true(c) or prove(c):
                break
        r = conds[-1][1]
        for c, v in reversed(conds[:-1]):
            r = s_ite(wrap(c), v, r)
        return r
    return xs[0].fresh(shape, fn, d, keepcls=False)


def np_stack(xs, axis=0, **k):
    xs = models.concrete_iter(xs)
    r = asarray([arrish(x) for x in xs])
    if axis in (0,):
        return r
    n = r.ndim
    axis = axis % n
    p = list(range(1, n))
    p.insert(axis, 0)
    return r.transpose(*p)


def np_vstack(xs):
    xs = [arrish(x) for x in models.concrete_iter(xs)]
    return np_concatenate([expand(x, 0) if x.ndim == 1 else x for x in xs], 0)


def np_hstack(xs):
    xs = [arrish(x) for x in models.concrete_iter(xs)]
    return np_concatenate(xs, 0 if xs[0].ndim == 1 else 1)


def np_where(c, *ab):
    c = arrish(c)
    if not ab:
        return c.nonzero()
    a, b = [arrish(x) for x in ab]
    if not isinstance(c, (SArr, Compressed)) and not isinstance(a, SArr) and not isinstance(b, SArr):
        return s_ite(wrap(bterm(c)), a, b)
    da = a.dtype if isinstance(a, (SArr, Compressed)) else dt_of_scalar(a)
    db = b.dtype if isinstance(b, (SArr, Compressed)) else dt_of_scalar(b)
    d = arr.result_dtype('+', da, db, a, b) if da.kind != 'b' or db.kind != 'b' else bool_

    def f(x, y, z):
        p = bterm(x)
        return arr.scalar_astype(s_ite(wrap(p), y, z), d)
    return elementwise(f, d, c, a, b)


def np_roll(a, shift, axis=None):
    a = arrish(a)
    f = a.elem_fn()
    if axis is None:
        if a.ndim != 1:
            return np_roll(a.ravel(), shift).reshape(*a._shape)
        axis = 0
    axis = axis % a.ndim
    n = dim_t(a._shape[axis])
    s = iterm(shift)

    def fn(ix):
        i = list(ix)
        j = core.simp(tsub(i[axis], s))
        if prove(tand(tle(ZERO, j), tlt(j, n))):
            pass
        elif prove(tand(tle(core.simp(-n), j), tlt(j, ZERO))):
            j = core.simp(tadd(j, n))
        elif prove(tand(tle(core.simp(-n), j), tlt(j, core.simp(tmul(z3.IntVal(2), n))))):
            j = tite(tlt(j, ZERO), tadd(j, n), tite(tlt(j, n), j, tsub(j, n)))
        else:
            j = core.int_divmod('%', j, n)
        i[axis] = j
        return f(tuple(i))
    return a.fresh(a._shape, fn, a._dtype)


def np_tile(a, reps):
    a = arrish(a)
    if a.ndim == 1 and arr.is_int(reps):
        f = a.elem_fn()
        n = dim_t(a._shape[0])
        return a.fresh((wrap(tmul(n, iterm(reps))),), lambda ix: f((core.int_divmod('%', ix[0], n),)), a._dtype)
    raise Unsupported("tile")


def np_diff(a, n=1, axis=-1, **k):
    a = arrish(a)
    if n != 1:
        raise Unsupported("diff n")
    axis = axis % a.ndim
    sl = [slice(None)] * a.ndim
    sl2 = list(sl)
    sl[axis] = slice(1, None)
    sl2[axis] = slice(None, -1)
    return a[tuple(sl)] - a[tuple(sl2)]


def np_cumsum(a, axis=None, **k):
    return arrish(a).cumsum(axis)


def np_trapz(y, x=None, dx=1.0, axis=-1):
    y = arrish(y)
    if isinstance(x, (list, tuple)):
        x = asarray(x)
    axis = axis % y.ndim
    sl = [slice(None)] * y.ndim
    sl2 = list(sl)
    sl[axis] = slice(1, None)
    sl2[axis] = slice(None, -1)
    if x is None:
        d = dx
    else:
        if x.ndim == 1 and y.ndim == 1:
            d = x[1:] - x[:-1]
        else:
            raise Unsupported("trapz of n-d arrays")
    return (d * (y[tuple(sl)] + y[tuple(sl2)]) / 2.0).sum(axis)


def np_histogram(a, bins=10, range=None, weights=None, density=None):
    """Counts in equal bins; the last one includes its upper edge."""
    a = arrish(a)
    if weights is not None or density or range is None or not isinstance(a, SArr) or isinstance(bins, (SArr, list, tuple, str)):
        raise Unsupported("np.histogram options")
    a = a.ravel()
    lo, hi = [toreal(core.num_term(lift(x))) for x in models.concrete_iter(range)]
    nb = iterm(bins)
    if not prove(tle(ONE, nb)) and not decide(tle(ONE, nb)):
        raise ValueError("`bins` must be positive, when an integer")
    if not prove(tlt(lo, hi)) and not decide(tlt(lo, hi)):
        raise Unsupported("histogram over an empty range")
    edges = np_linspace(SReal(lo), SReal(hi), core.simp(nb + 1))
    ef = edges.elem_fn()
    n = dim_t(a._shape[0])
    f = a.elem_fn()

    def count(ix):
        b = ix[0]
        l, h = [toreal(core.num_term(lift(ef((x,))))) for x in (b, core.simp(b + 1))]

        def one(k):
            x = lift(f((k,)))
            if has_cls(x):
                raise Unsupported("histogram of values that may not be finite")
            x = toreal(core.num_term(x))
            return wrap(tite(tand(tle(l, x), tor(tlt(x, h), tand(teq(b, core.simp(nb - 1)), tle(x, h)))), ONE, ZERO))
        return arr.wrap_sum(n, one)
    return SArr.make((wrap(nb),), count, i8), edges


def meth(name):
    def g(a, *args, **k):
        a = arrish(a)
        if isinstance(a, (SVal, int, float)):
            if name in ('mean', 'sum', 'max', 'min', 'squeeze', 'ravel', 'std'):
                if name == 'mean':
                    return models.b_float(a)
                if name == 'std':
                    return 0.0
                return a
            a = asarray(a)
        if not isinstance(a, (SArr, Compressed)):
            m = getattr(a, name, None)
            if m is None:
                raise TypeError("np.%s of %s" % (name, type(a).__name__))
            return m(*args, **k)
        k = {x: v for x, v in k.items() if not (x in ('out', 'dtype') and v is None)}
        m = getattr(a, name)
        return m(*args, **k)
    g.__name__ = name
    return g


def np_average(a, axis=None, weights=None, **k):
    a = arrish(a)
    if weights is None:
        return a.mean(axis)
    w = arrish(weights)
    if axis is None and w.ndim != a.ndim:
        raise TypeError("Axis must be specified when shapes of a and weights differ.")
    if axis is not None and w.ndim == 1 and a.ndim > 1:
        sh = [None] * a.ndim
        sh[axis % a.ndim] = slice(None)
        w2 = w[tuple(slice(None) if s is not None else None for s in sh)]
        if not arr.dim_eq(w._shape[0], a._shape[axis]):
            raise ValueError("Length of weights not compatible with specified axis.")
        num, den = (a * w2).sum(axis), w.sum()
    else:
        num, den = (a * w).sum(axis), w.sum(axis)
    if not isinstance(den, SArr):
        if decide(teq(toreal(iterm(den)), RZERO)):
            raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    return arr.true_div(num, den)


def np_nansum(a, axis=None, **k):
    a = arrish(a)

    def f(x):
        x = lift(x)
        if not has_cls(x):
            return x
        isn = teq(x.cls, z3.IntVal(core.NAN))
        return SReal(tite(isn, RZERO, x.t), core.simp(tite(isn, ZERO, x.cls)))
    return a.map(f, a.dtype).sum(axis)


def np_nanmean(a, axis=None, **k):
    raise Unsupported("nanmean")


def np_dot(a, b):
    a, b = arrish(a), arrish(b)
    if not isinstance(a, SArr) or not isinstance(b, SArr):
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        return (a * b).sum()
    if a.ndim == 2 and b.ndim == 1:
        return (a * b[None, :]).sum(1)
    if a.ndim == 1 and b.ndim == 2:
        return (a[:, None] * b).sum(0)
    raise Unsupported("dot")


def np_isin(a, t, **k):
    a = arrish(a)
    if isinstance(t, (list, tuple, set)) and not loops.has_seg(list(t)):
        ts = list(t)
        return a.map(lambda x: wrap(tor(*[bterm(x == y) for y in ts])), bool_)
    t = arrish(t)
    n = dim_t(t.pv_len())
    if isinstance(t, Compressed):
        return a.map(lambda x: wrap(tlt(red.mk_first(n, lambda k: tand(t.cond(k), bterm(t.elem(k) == x))), n)), bool_)
    if t.ndim != 1:
        raise Unsupported("isin")
    f = t.elem_fn()
    if isinstance(a, SArr):
        return a.map(lambda x: wrap(tlt(red.mk_first(n, lambda k: bterm(f((k,)) == x)), red.clamp0(n))), bool_)
    return wrap(tlt(red.mk_first(n, lambda k: bterm(f((k,)) == a)), red.clamp0(n)))


def np_array_equal(a, b, **k):
    a, b = arrish(a), arrish(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not decide(teq(dim_t(x), dim_t(y))):
            return False
    return (a == b).all()


def np_clip(a, lo, hi, **k):
    a = arrish(a)
    if isinstance(a, SArr):
        return a.clip(lo, hi)
    return models.b_min(models.b_max(a, lo), hi)


def np_count_nonzero(a, axis=None, **k):
    a = arrish(a)
    return (a != 0).sum(axis) if a.dtype.kind != 'b' else a.sum(axis)


def np_take(a, idx, axis=None, **k):
    a = arrish(a)
    idx = arrish(idx)
    if axis is None:
        return a.ravel()[idx]
    sl = [slice(None)] * (axis % a.ndim) + [idx]
    return a[tuple(sl)]


def np_moveaxis(a, s, d):
    a = arrish(a)
    p = [i for i in range(a.ndim) if i != s % a.ndim]
    p.insert(d % a.ndim, s % a.ndim)
    return a.transpose(*p)


class ErrState:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return None

    def __exit__(self, *a):
        return False


def np_searchsorted(*a, **k):
    raise Unsupported("searchsorted")


def np_unique(a, return_inverse=False, return_index=False, return_counts=False, **k):
    h = State.hooks.get('np.unique')
    if h:
        return h(a, return_inverse=return_inverse, return_index=return_index, return_counts=return_counts)
    raise Unsupported("np.unique")


def np_bincount(x, weights=None, minlength=0):
    x = arrish(x)
    if not isinstance(x, SArr):
        raise Unsupported("bincount")
    n = dim_t(x._shape[0])
    m = iterm(minlength)
    f = x.elem_fn()
    k0 = core.fresh_int('q')
    with quant(in_range(k0, n)):
        e = iterm(f((k0,)))
    # result length: max(minlength, max(x)+1)
    core_ok = red.prove_full(list(core.pc()) + [in_range(k0, n)], tand(tle(ZERO, e), tlt(e, m)))
    if not core_ok:
        raise Unsupported("bincount with values that may exceed minlength")
    if weights is not None:
        w = arrish(weights)
        wf = w.elem_fn()
        return SArr.make((wrap(m),), lambda ix: arr.wrap_sum(n, lambda k: s_ite(wrap(teq(iterm(f((k,))), ix[0])), wf((k,)), 0.0), f8), f8)
    return SArr.make((wrap(m),), lambda ix: arr.wrap_sum(n, lambda k: wrap(tite(teq(iterm(f((k,))), ix[0]), ONE, ZERO))), i8)


def np_loadtxt(path, *a, **k):
    if State.vfs is None:
        raise Unsupported("loadtxt")
    return State.vfs.loadtxt(path, *a, **k)


def np_savetxt(path, x, *a, **k):
    if State.vfs is None:
        raise Unsupported("savetxt")
    return State.vfs.savetxt(path, x, *a, **k)


class AbstractDT:
    def __init__(self, name, kinds):
        self.name, self.kinds = name, kinds

    def pv_instancecheck(self, o):
        if isinstance(o, (SVal, int, float)):
            raise Unsupported("isinstance with a numpy type")
        return False


def issubdtype(a, b):
    a = as_dtype(a)
    if isinstance(b, AbstractDT):
        return a.kind in b.kinds
    b = as_dtype(b)
    return a == b


def powf(a, b):
    return lift(a) ** b


def np_ndenumerate(a):
    raise Unsupported("ndenumerate")


State.vfs = None
State.hooks = {}


def make_numpy():
    np = ModelModule('numpy', set(DIRS['numpy']))
    d = np.__dict__
    d.update(zeros=np_zeros, ones=np_ones, full=np_full, empty=np_empty, zeros_like=like(np_zeros),
             ones_like=like(np_ones), empty_like=like(np_empty), full_like=like(np_full), arange=np_arange,
             linspace=np_linspace, array=np_array, asarray=np_asarray, asanyarray=asarray,
             ascontiguousarray=np_asarray, copy=np_copy, where=np_where, concatenate=np_concatenate,
             stack=np_stack, vstack=np_vstack, hstack=np_hstack, roll=np_roll, tile=np_tile, diff=np_diff,
             trapz=np_trapz, histogram=np_histogram, average=np_average, nansum=np_nansum, dot=np_dot, matmul=np_dot, isin=np_isin, in1d=np_isin,
             array_equal=np_array_equal, clip=np_clip, count_nonzero=np_count_nonzero, take=np_take,
             moveaxis=np_moveaxis, errstate=ErrState, unique=np_unique, bincount=np_bincount, loadtxt=np_loadtxt,
             savetxt=np_savetxt, repeat=arr.repeat, ndarray=SArr, newaxis=None, nan=float('nan'), inf=float('inf'),
             pi=SReal(core.PI), dtype=as_dtype_call,
             issubdtype=issubdtype, integer=AbstractDT('integer', 'iu'), floating=AbstractDT('floating', 'f'),
             number=AbstractDT('number', 'iuf'), generic=AbstractDT('generic', 'iufbOMU'),
             float64=f8, float32=f4, float16=arr.f2, bool_=bool_, double=f8, single=f4, object_=obj_,
             float_=f8, int_=i8, **ints)
    for n in ('mean', 'sum', 'std', 'var', 'max', 'min', 'argmax', 'argmin', 'any', 'all', 'ravel', 'squeeze',
              'reshape', 'swapaxes', 'transpose', 'cumsum', 'nonzero', 'ptp', 'amax', 'amin'):
        d[n] = meth({'amax': 'max', 'amin': 'min'}.get(n, n))
    d['median'] = Missing('np.median')
    d['flatnonzero'] = lambda a: arrish(a).ravel().nonzero()[0]
    d['expand_dims'] = lambda a, axis: expand(arrish(a), axis)
    d['atleast_1d'] = lambda a: (lambda x: x if isinstance(x, SArr) and x.ndim else asarray([a]))(arrish(a))
    d['shape'] = lambda a: arrish(a)._shape if isinstance(arrish(a), SArr) else ()
    d['size'] = lambda a, axis=None: arr.axis_size(arrish(a), axis) if isinstance(arrish(a), SArr) else 1
    d['ndim'] = lambda a: arrish(a).ndim if isinstance(arrish(a), SArr) else 0
    d['isscalar'] = lambda a: isinstance(a, (SVal, int, float, str))
    for n, f, dt in [('sqrt', core.s_sqrt, fdt), ('exp', core.s_exp, fdt), ('log', core.s_log, fdt),
                     ('isnan', s_isnan, bool_), ('isinf', s_isinf, bool_), ('isfinite', s_isfinite, bool_),
                     ('floor', np_floor, fdt), ('ceil', np_ceil, fdt), ('trunc', np_trunc, fdt), ('rint', np_rint, fdt),
                     ('sign', s_sign, None), ('abs', s_abs, None), ('absolute', s_abs, None), ('fabs', s_abs, fdt),
                     ('square', lambda x: lift(x) * x, None), ('negative', lambda x: -lift(x), None),
                     ('logical_not', lambda x: core.snot(wrap(bterm(x))), bool_),
                     ('reciprocal', lambda x: arr.np_div(1, x), fdt)]:
        d[n] = ufunc1(f, dt, n)
    d['round'] = d['around'] = np_round
    for n, op in [('add', '+'), ('subtract', '-'), ('multiply', '*'), ('divide', '/'), ('true_divide', '/'),
                  ('power', '**'), ('minimum', 'min'), ('maximum', 'max'), ('floor_divide', '//'),
                  ('mod', '%'), ('remainder', '%'), ('less', '<'), ('greater', '>'), ('equal', '=='),
                  ('less_equal', '<='), ('greater_equal', '>='), ('not_equal', '!='), ('fmin', 'min'), ('fmax', 'max')]:
        d[n] = ufunc2(op, n)

    def logical(op):
        u = ufunc2(op, 'logical')

        def tob(x):
            x = arrish(x)
            if isinstance(x, SArr):
                return x if x._dtype.kind == 'b' else x != 0
            return wrap(bterm(x))

        def g(a, b, out=None):
            return u(tob(a), tob(b), out=out)

        def reduce(xs, axis=0):
            if isinstance(xs, SArr):
                return u.reduce(tob(xs), axis)
            xs = models.concrete_iter(xs)
            r = tob(xs[0])
            for x in xs[1:]:
                r = g(r, x)
            return r
        g.reduce = reduce
        return g
    d['logical_or'], d['logical_and'] = logical('|'), logical('&')
    d['bitwise_or'], d['bitwise_and'] = ufunc2('|', 'bitwise_or'), ufunc2('&', 'bitwise_and')
    d['logical_xor'] = lambda a, b: arr.binop('^', arrish(a), arrish(b))
    d['ma'] = ModelModule('numpy.ma', set(DIRS['numpy.ma']))
    d['random'] = Missing('np.random')
    d['testing'] = Missing('np.testing')
    d['linalg'] = Missing('np.linalg')
    return np


def as_dtype_call(x, **k):
    return as_dtype(x)


# --------------------------------------------------------------------- numba
class NType:
    """numba.float64 & co: signatures are ignored (recorded in DESIGN.md)."""
    pv_immutable = True

    def __init__(self, name, dt):
        self.name, self.dt = name, dt

    def __call__(self, *a):
        if a and all(isinstance(x, (NType, NSig)) for x in a) or not a:
            return NSig(self, a)
        return arr.scalar_astype(a[0], self.dt)

    def __getitem__(self, k):
        return NSig(self, k)

    @property
    def _np_dt(self):
        return self.dt


class NSig:
    pv_immutable = True

    def __init__(self, t, args):
        self.t, self.args = t, args

    def __getitem__(self, k):
        return self

    def __call__(self, *a):
        return NSig(self, a)


class numba_mode:
    def __init__(self, mode):
        self.mode = mode

    def __enter__(self):
        State.numba.append(self.mode)

    def __exit__(self, *a):
        State.numba.pop()


def to_numba(x):
    return x


def njit(*a, **k):
    err = k.get('error_model', 'python')
    mode = 'np' if err == 'numpy' else 'py'

    def deco(f):
        @functools.wraps(f)
        def g(*args, **kw):
            if isinstance(args, tuple) and any(isinstance(x, (list,)) for x in args):
                args = tuple(asarray(x) if isinstance(x, list) and x and not isinstance(x[0], (list, dict, str)) and
                             not loops.has_seg(x) and False else x for x in args)
            with numba_mode(mode):
                return f(*args, **kw)
        g.py_func = f
        g._pv_numba = True
        return g
    if len(a) == 1 and callable(a[0]) and not isinstance(a[0], (NType, NSig)) and not k:
        return deco(a[0])
    return deco


def ret_dtype(sigs):
    """Result dtype and argument dtypes of the first listed signature."""
    s = sigs[0] if isinstance(sigs, (list, tuple)) else sigs
    return s


def vectorize(*a, **k):
    sigs = a[0] if a and not callable(a[0]) or (a and isinstance(a[0], (NSig, list))) else None

    def deco(f):
        s = None
        if sigs:
            s = sigs[0] if isinstance(sigs, (list, tuple)) else sigs
        rd = s.t.dt if s is not None and isinstance(s.t, NType) else f8
        argd = [x.dt if isinstance(x, NType) else None for x in (s.args if s is not None else ())]

        def one(*xs):
            ys = []
            for i, x in enumerate(xs):
                dd = argd[i] if i < len(argd) else None
                if dd is not None:
                    lx = lift(x)
                    if dd.kind == 'i' and isinstance(lx, SReal):
                        raise TypeError("no matching signature (cannot cast float to int safely)")
                    x = arr.scalar_astype(x, dd)
                ys.append(x)
            with numba_mode('np'):
                return arr.scalar_astype(f(*ys), rd)

        def elem(*xs):
            """element-wise use inside an array expression: the function may
            branch, so it is merged over its paths"""
            return merge_paths(lambda: one(*xs))

        def g(*xs):
            xs = [arrish(x) for x in xs]
            if any(isinstance(x, (SArr, Compressed)) for x in xs):
                return elementwise(elem, rd, *xs)
            if State.quant_depth:
                return elem(*xs)
            return one(*xs)
        g.py_func = f
        g.__name__ = f.__name__
        g._pv_numba = True
        return g
    if sigs is None and a and callable(a[0]):
        return deco(a[0])
    return deco


def merge_paths(fn):
    """Value of fn() as one expression, merging its paths."""
    base = list(core.pc())
    nb = len(base)
    qd = State.quant_depth
    out = []
    obs = []

    def run():
        State.quant_depth = 0
        return fn()
    for c, res, exc, dead in core.explore(run, core.PC(base)):
        if dead:
            continue
        if exc is not None:
            raise Unsupported("exception in an element expression: %r" % exc)
        out.append((tand(*c.pc[nb:]), res))
        obs.extend(c.obs)
    State.quant_depth = qd
    if State.ctxs:
        core.ctx().obs.extend(obs)
    if not out:
        raise core.PathAbort()
    r = out[-1][1]
    for c, v in reversed(out[:-1]):
        r = s_ite(wrap(c), v, r)
    return r


def parse_layout(s):
    ins, outs = s.replace(' ', '').split('->')

    def groups(x):
        res = []
        for p in x.split('('):
            if ')' in p:
                inner = p[:p.index(')')]
                res.append([d for d in inner.split(',') if d])
        return res
    return groups(ins), groups(outs)


def guvectorize(sigs, layout=None, *a, **k):
    def deco(f):
        ins, outs = parse_layout(layout)
        sg = sigs[0] if isinstance(sigs, (list, tuple)) else sigs
        types_ = list(sg) if isinstance(sg, tuple) else list(getattr(sg, 'args', ()))

        def g(*args):
            arrs = [asarray(x) if not isinstance(x, SArr) else x for x in args]
            given_out = arrs[len(ins):]
            arrs = arrs[:len(ins)]
            if len(arrs) != len(ins):
                raise TypeError("wrong number of arguments")
            dims = {}
            loop_shape = None
            views = []
            for x, core_dims in zip(arrs, ins):
                nl = x.ndim - len(core_dims)
                if nl < 0:
                    raise ValueError("not enough dimensions")
                for dname, sz in zip(core_dims, x._shape[nl:]):
                    if dname in dims:
                        if not arr.dim_eq(dims[dname], sz):
                            raise ValueError("mismatch in its core dimension")
                    else:
                        dims[dname] = sz
                ls = x._shape[:nl]
                views.append((x, nl))
                if loop_shape is None or len(ls) > len(loop_shape):
                    loop_shape = ls
            for x, nl in views:
                off = len(loop_shape) - nl
                for i in range(nl):
                    if not arr.dim_eq(x._shape[i], loop_shape[off + i]):
                        raise Unsupported("guvectorize broadcasting")
            if len(loop_shape) > 1:
                raise Unsupported("guvectorize with several loop dimensions")
            outs_a = []
            for i, od in enumerate(outs):
                t = types_[len(ins) + i] if len(types_) > len(ins) + i else None
                dt = t.t.dt if isinstance(t, NSig) and isinstance(t.t, NType) else f8
                outs_a.append(empty(tuple(loop_shape) + tuple(dims[x] for x in od), dt))
            if given_out:
                outs_a = given_out

            def body(idx):
                ps = []
                for (x, nl), cd in zip(views, ins):
                    v = x[idx] if nl else x
                    if not isinstance(v, SArr):
                        # scalar core: numba passes a 1-element array for T[:]; a value for T
                        v = v
                    ps.append(v)
                for o, od in zip(outs_a, outs):
                    if loop_shape:
                        v = o[idx:idx + 1] if not od and isinstance(idx, int) else (
                            o[slice(idx, idx + 1)] if not od else o[idx])
                    else:
                        v = o.reshape(1) if not od else o
                    ps.append(v)
                # array-typed scalars
                qs = []
                for p, t, cd in zip(ps, types_ + [None] * 20, ins + outs):
                    if isinstance(t, NSig) and not isinstance(p, SArr):
                        p = asarray([p])
                    qs.append(p)
                with numba_mode('np'):
                    f(*qs)
            if loop_shape:
                n = dim_t(loop_shape[0])

                def iteration(kk):
                    body(wrap(kk))
                    return None
                loops.sym_loop(red.clamp0(n), iteration)
            else:
                body(None)
            res = [o if o.ndim else o.at() for o in outs_a]
            return res[0] if len(res) == 1 else tuple(res)
        g.py_func = f
        g._pv_numba = True
        return g
    return deco


class TypedList(list):
    pass


def typed_list(x=()):
    l = TypedList()
    for i in models.concrete_iter(x):
        list.append(l, i)
    from .interp import born
    return born(l)


class TypedDict(dict):
    @classmethod
    def empty(cls, key_type=None, value_type=None):
        from .interp import born
        return born(cls())


def make_numba():
    nt = {n: NType(n, d) for n, d in list(ints.items()) + [('float64', f8), ('float32', f4), ('boolean', bool_)]}
    typed = ModelModule('numba.typed', None, List=typed_list, Dict=TypedDict)
    types_ = ModelModule('numba.types', None, unicode_type=NType('unicode', arr.str_), **nt)
    nb = ModelModule('numba', None, njit=njit, jit=njit, vectorize=vectorize, guvectorize=guvectorize, prange=range,
                     typed=typed, types=types_, **nt)
    return nb


# ---------------------------------------------------------------------- math
def make_math():
    def py1(f):
        def g(x):
            if isinstance(x, SArr):
                x = x.item()
            return f(x)
        return g

    def m_floor(x):
        return core.s_floor(lift(x)) if not isinstance(x, int) else x

    def m_ceil(x):
        return core.s_ceil(lift(x)) if not isinstance(x, int) else x
    nbm = lambda: State.numba[-1] is not None
    d = dict(
        sqrt=py1(lambda x: core.s_sqrt(x, python=not nbm())),
        exp=py1(core.s_exp), log=py1(lambda x: core.s_log(x, python=not nbm())), lgamma=py1(core.s_lgamma),
        pow=lambda a, b: b_float_pow(a, b), floor=py1(m_floor), ceil=py1(m_ceil), fabs=py1(s_abs),
        isnan=py1(s_isnan), isinf=py1(s_isinf), isfinite=py1(s_isfinite), pi=SReal(core.PI) if hasattr(core, 'PI') else _math.pi,
        inf=float('inf'), nan=float('nan'), trunc=py1(models.b_int))
    return ModelModule('math', set(DIRS['math']), **d)


def b_float_pow(a, b):
    a = lift(a)
    if isinstance(a, (SInt, SBool)):
        a = SReal(toreal(iterm(a)))
    return a ** b


# --------------------------------------------------------------------- scipy
def correlate1d(x, weights, axis=-1, output=None, mode='reflect', cval=0.0, origin=0):
    x, w = arrish(x), arrish(weights)
    if mode != 'constant':
        raise Unsupported("correlate1d mode %s" % mode)
    axis = axis % x.ndim
    f, g = x.elem_fn(), w.elem_fn()
    n = dim_t(x._shape[axis])
    m = dim_t(w._shape[0])
    o = iterm(origin)
    half = core.int_divmod('//', m, z3.IntVal(2))
    # scipy: requires (m//2 + origin >= 0) and (m//2 + origin < m)
    ok = tand(tle(ZERO, tadd(half, o)), tlt(tadd(half, o), m))
    if not prove(ok) and not decide(ok):
        raise ValueError("Invalid origin; origin must satisfy -(len(weights) // 2) <= origin <= (len(weights)-1) // 2")
    d = x._dtype if x._dtype.kind == 'f' else f8
    if output is not None:
        raise Unsupported("correlate1d output")

    def fn(ix):
        def term(j):
            p = core.simp(ix[axis] + j - half - o)
            inside = tand(tle(ZERO, p), tlt(p, n))
            with core.local_facts(inside):
                v = f(ix[:axis] + (p,) + ix[axis + 1:])
            return s_ite(wrap(inside), lift(v) * g((j,)), lift(g((j,))) * cval)
        return arr.wrap_sum(m, term, f8)
    return x.fresh(x._shape, fn, d)


class Interp1d:
    """scipy.interpolate.interp1d (linear, extrapolating): an assumed
    contract -- an uninterpreted function of the abscissa."""
    pv_immutable = True

    def __init__(self, x, y, **k):
        self.x, self.y, self.k = x, y, k
        self.f = z3.Function(core.fresh_name('interp'), R, R)

    def __call__(self, q):
        q = arrish(q)
        if isinstance(q, SArr):
            return q.map(lambda v: SReal(self.f(toreal(iterm(v)))), f8)
        return SReal(self.f(toreal(iterm(q))))


def make_scipy():
    nd = ModelModule('scipy.ndimage', None, correlate1d=correlate1d)
    ip = ModelModule('scipy.interpolate', None, interp1d=Interp1d)
    op = ModelModule('scipy.optimize', None)
    st = ModelModule('scipy.stats', None)
    sp = ModelModule('scipy.special', None)
    s = ModelModule('scipy', None, ndimage=nd, interpolate=ip, optimize=op, stats=st, special=sp)
    return {'scipy': s, 'scipy.ndimage': nd, 'scipy.interpolate': ip, 'scipy.optimize': op, 'scipy.stats': st,
            'scipy.special': sp}
