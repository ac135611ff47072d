"""Symbolic arrays with numpy semantics (contents: exact reals, mathematical
integers, booleans, opaque values)."""
import z3
from fractions import Fraction
from .core import *
from . import core, red
from .core import (I, R, B, U, ZERO, ONE, RZERO, TRUE, FALSE, const_of, tadd,
                   tsub, tmul, tand, tor, tnot, tite, teq, tlt, tle, toreal,
                   rv, wrap, lift, bterm, iterm, as_term, s_ite, prove, decide,
                   cls_of, has_cls, simp, State, fresh_int, fresh_name)


# ----------------------------------------------------------------- dtypes
class DT:
    """A numpy scalar type / dtype."""
    def __init__(self, name, kind, bits):
        self.name, self.kind, self.bits = name, kind, bits
        self.__name__ = name
        self.itemsize = bits // 8

    @property
    def type(self):
        return self

    @property
    def descr(self):
        return self

    def __call__(self, x=0, *a, **k):
        if isinstance(x, SArr):
            return x.astype(self)
        if isinstance(x, (list, tuple)):
            return asarray(x).astype(self)
        return scalar_astype(x, self)

    def __getitem__(self, k):
        return self

    def __eq__(self, o):
        o = as_dtype(o, None)
        return o is not None and o.kind == self.kind and o.bits == self.bits

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash((self.kind, self.bits))

    def __repr__(self):
        return "dtype('%s')" % self.name

    def newbyteorder(self, *a):
        return self

    @property
    def str(self):
        return self.name


f8 = DT('float64', 'f', 64)
f4 = DT('float32', 'f', 32)
f2 = DT('float16', 'f', 16)
ints = {n: DT(n, 'i' if n[0] == 'i' else 'u', int(n.lstrip('uint'))) for n in
        ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64')}
i8 = ints['int64']
bool_ = DT('bool', 'b', 8)
obj_ = DT('object', 'O', 64)
dt64 = DT('datetime64[ns]', 'M', 64)
str_ = DT('str', 'U', 32)
DTYPES = {'float64': f8, 'float32': f4, 'float16': f2, 'bool': bool_, 'object': obj_,
          'datetime64[ns]': dt64, 'double': f8, 'single': f4, 'float': f8, 'int': i8,
          'f8': f8, 'f4': f4, 'i8': i8, 'i4': ints['int32'], 'i2': ints['int16'],
          'u2': ints['uint16'], 'u1': ints['uint8'], 'u4': ints['uint32'], 'str': str_, 'O': obj_, **ints}


def as_dtype(d, default=f8):
    if d is None:
        return default
    if isinstance(d, DT):
        return d
    n = getattr(d, '_pv_type', None)
    if n is not None:
        d = n
    if d is float:
        return f8
    if d is int:
        return i8
    if d is bool:
        return bool_
    if d is object:
        return obj_
    if d is str:
        return str_
    if isinstance(d, str):
        k = d.lstrip('<>=|')
        if k in DTYPES:
            return DTYPES[k]
    if hasattr(d, '_np_dt'):
        return d._np_dt
    if default is None:
        return None
    raise Unsupported("dtype %r" % (d,))


def promote(a, b):
    if a is b:
        return a
    if 'O' in (a.kind, b.kind):
        return obj_
    if a.kind == b.kind:
        return a if a.bits >= b.bits else b
    ks = {a.kind, b.kind}
    if 'M' in ks or 'U' in ks:
        return obj_
    if 'b' in ks:
        return a if b.kind == 'b' else b
    if 'f' in ks:
        f, i = (a, b) if a.kind == 'f' else (b, a)
        if f.bits == 64 or i.bits >= 32:
            return f8
        if f.bits == 32:
            return f4 if i.bits <= 16 else f8
        return f2 if i.bits <= 8 else f4
    s, u = (a, b) if a.kind == 'i' else (b, a)
    if s.bits > u.bits:
        return s
    n = u.bits * 2
    return ints['int%d' % n] if n <= 64 else f8


def dt_of_scalar(x):
    if isinstance(x, (bool, SBool)):
        return bool_
    if isinstance(x, (int, SInt)):
        return i8
    if isinstance(x, (float, Fraction, SReal)):
        return f8
    return obj_


def weak(x):
    """Python-scalar like (value based promotion): does not widen a float32."""
    return not isinstance(x, SArr)


def result_dtype(op, da, db, a, b):
    if weak(a) and not weak(b):
        d = db if rankk(db) >= rankk(da) else promote(da, db)
        if rankk(da) > rankk(db):
            d = f8 if da.kind == 'f' else da
    elif weak(b) and not weak(a):
        d = da if rankk(da) >= rankk(db) else (f8 if db.kind == 'f' else db)
    else:
        d = promote(da, db)
    if op == '/' and d.kind in 'iub':
        return f8
    if op in ('+', '*', '-', '**', '//', '%') and d.kind == 'b':
        return i8 if op != '*' else bool_
    return d


def rankk(d):
    return {'b': 0, 'u': 1, 'i': 1, 'f': 2}.get(d.kind, 3)


def wrap_uint(x, bits):
    return arith_mod(x, 2 ** bits)


def arith_mod(x, m):
    t = iterm(x)
    c = const_of(t)
    if c is not None:
        return c % m
    if prove(tand(tle(ZERO, t), tlt(t, z3.IntVal(m)))):
        return wrap(t)
    return wrap(t % m)


def wrap_int(x, bits):
    t = iterm(x)
    h = 2 ** (bits - 1)
    c = const_of(t)
    if c is not None:
        return (c + h) % (2 * h) - h
    if prove(tand(tle(z3.IntVal(-h), t), tlt(t, z3.IntVal(h)))):
        return wrap(t)
    return wrap((t + h) % (2 * h) - h)


def scalar_astype(x, d):
    """Conversion of one element to dtype d."""
    d = as_dtype(d)
    if d.kind == 'O':
        return x
    if isinstance(x, SArr):
        return x.astype(d)
    if isinstance(x, str):
        if d.kind in 'UO':
            return x
        raise ValueError("could not convert string")
    if isinstance(x, SObj):
        if d.kind in 'MU':
            return x
        raise Unsupported("cast of opaque value")
    if x is None:
        raise TypeError("cannot convert None")
    if d.kind == 'M' or d.kind == 'U':
        return x
    if d.kind == 'f':
        l = lift(x)
        if isinstance(l, SBool):
            l = l._num()
        if isinstance(l, SReal):
            return l
        if not isinstance(l, SInt):
            raise TypeError("float() argument must be a number")
        return SReal(toreal(l.t))
    if d.kind == 'b':
        return wrap(bterm(x))
    l = lift(x)
    if isinstance(l, SBool):
        return wrap(iterm(l))
    if isinstance(l, SReal):
        if has_cls(l) and not prove(teq(l.cls, ZERO)):
            # conversion of a non-finite value: unspecified integer
            z = fresh_int('nf')
            v = core.s_trunc(SReal(l.t))
            l = lift(s_ite(wrap(teq(l.cls, ZERO)), v, wrap(z)))
        else:
            l = lift(core.s_trunc(SReal(l.t)))
    if d.bits >= 64:
        return wrap(l.t)
    if d.kind == 'u':
        return wrap_uint(l, d.bits)
    return wrap_int(l, d.bits)


# ------------------------------------------------------------------ storage
class Storage:
    __slots__ = ('fn', 'memo', 'serial', 'tag', 'info', '__weakref__')

    def __init__(self, fn, tag=None):
        self.fn = fn
        self.memo = {}
        self.serial = core.next_serial()
        self.tag = tag
        self.info = None

    def set(self, fn):
        old, oldm = self.fn, self.memo
        if State.journal is not None:
            def undo():
                self.fn, self.memo = old, oldm
            core.record(('arr', self), undo)
        self.fn, self.memo = fn, {}

    def snapshot(self):
        fn, memo = self.fn, self.memo

        def get(idx):
            key = (tuple(t.get_id() for t in idx), core.pckey())
            r = memo.get(key)
            if r is None:
                r = (fn(idx), idx)
                memo[key] = r
            return r[0]
        return get

    def get(self, idx):
        return self.snapshot()(idx)


def ident(idx):
    return idx


def dim_t(d):
    """z3 term of a dimension."""
    return iterm(d)


def dim_eq(a, b):
    """Provably / decidedly equal dimensions."""
    ta, tb = dim_t(a), dim_t(b)
    e = teq(ta, tb)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if State.quant_depth:
        return prove(e)
    return decide(e)


class quant:
    """Element expressions: no branching allowed."""
    def __init__(self, *facts):
        self.lf = core.local_facts(*facts)

    def __enter__(self):
        State.quant_depth += 1
        self.lf.__enter__()

    def __exit__(self, *a):
        self.lf.__exit__()
        State.quant_depth -= 1


def in_range(t, n):
    return tand(tle(ZERO, t), tlt(t, n))


class Flags:
    writeable = True
    c_contiguous = True


class SArr:
    _is_sarr = True
    __array_priority__ = 1000

    def __new__(cls, *a, **k):
        return object.__new__(cls)

    # construction through `make`
    @staticmethod
    def make(shape, fn, dtype, cls=None, tag=None):
        """fn: tuple of Int terms -> scalar value"""
        return SArr._mk(tuple(wrap(dim_t(d)) for d in shape), Storage(fn, tag), ident,
                        lambda s: (TRUE, s), dtype, cls)

    @staticmethod
    def _mk(shape, st, fwd, inv, dtype, cls=None, base=None, parent=None):
        c = cls or SArr
        a = object.__new__(c)
        d = a.__dict__
        d['_st'], d['_fwd'], d['_inv'] = st, fwd, inv
        d['_shape'], d['_dtype'], d['_base'] = shape, dtype, base
        if fwd is ident and st.info is None:
            st.info = (shape, dtype)
        if c is not SArr:
            d['_serial'] = core.next_serial()
            fin = getattr(a, '__array_finalize__', None)
            if fin is not None:
                fin(parent)
        return a

    def __array_finalize__(self, obj):
        pass

    # --- basics
    @property
    def shape(self):
        return self._shape

    @shape.setter
    def shape(self, s):
        r = self.reshape(s)
        self.__dict__.update(_st=r._st, _fwd=r._fwd, _inv=r._inv, _shape=r._shape)

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def dtype(self):
        return self._dtype

    @property
    def base(self):
        return self._base

    @property
    def flags(self):
        return Flags()

    @property
    def size(self):
        r = ONE
        for d in self._shape:
            r = tmul(r, dim_t(d))
        return wrap(simp(r))

    @property
    def nbytes(self):
        return self.size * self._dtype.itemsize

    @property
    def itemsize(self):
        return self._dtype.itemsize

    @property
    def T(self):
        return self.transpose()

    @property
    def values(self):
        raise AttributeError("values")

    @property
    def real(self):
        return self

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def elem_fn(self):
        """Snapshot: idx terms -> scalar."""
        get, fwd = self._st.snapshot(), self._fwd
        if fwd is ident:
            return get
        return lambda idx: get(fwd(idx))

    def at(self, *idx):
        return self.elem_fn()(tuple(iterm(i) for i in idx))

    def __len__(self):
        c = const_of(dim_t(self.pv_len()))
        if c is None:
            raise Unsupported("len() of symbolic length in uninstrumented code")
        return c

    def pv_len(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        return self._shape[0]

    def __iter__(self):
        n = const_of(dim_t(self.pv_len()))
        if n is None:
            raise Unsupported("iteration over a symbolic array in uninstrumented code")
        return (self[i] for i in range(n))

    def __bool__(self):
        if all(const_of(dim_t(d)) == 1 for d in self._shape):
            return bool(self.at(*[0] * self.ndim))
        if self.ndim == 0:
            return bool(self.at())
        n = self.size
        if core.decide(teq(iterm(n), ONE)):
            return bool(self.at(*[0] * self.ndim))
        if State.numba[-1]:
            raise Unsupported("truth of array in numba")
        if core.decide(teq(iterm(n), ZERO)):
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __float__(self):
        raise Unsupported("float(array)")

    def item(self, *a):
        if self.ndim == 0:
            return self.at()
        if a:
            return self[a if len(a) > 1 else a[0]]
        if not core.decide(teq(iterm(self.size), ONE)):
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.at(*[0] * self.ndim)

    def __repr__(self):
        return "SArr(%s, %s)" % (self._shape, self._dtype.name)

    def __format__(self, s):
        return "<arr>"

    # --- views
    def view(self, t=None, **k):
        if t is None or isinstance(t, DT):
            return self._view(self._shape, ident, lambda v: (TRUE, v))
        return self._view(self._shape, ident, lambda v: (TRUE, v), cls=t)

    def _view(self, shape, fwd, inv, cls=None, dtype=None):
        """fwd: new idx -> self idx; inv: self idx -> (cond, new idx)"""
        sf, si = self._fwd, self._inv
        if sf is ident:
            nf, ni = fwd, inv
        else:
            nf = lambda v: sf(fwd(v))

            def ni(s):
                c, v = si(s)
                c2, w = inv(v)
                return tand(c, c2), w
        return SArr._mk(tuple(shape), self._st, nf, ni, dtype or self._dtype, cls or type(self),
                        self if self._base is None else self._base, self)

    def copy(self, order=None):
        f = self.elem_fn()
        return SArr._mk(self._shape, Storage(f), ident, lambda s: (TRUE, s), self._dtype, type(self), None, self)

    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()

    def fresh(self, shape, fn, dtype, keepcls=True):
        return SArr._mk(tuple(shape), Storage(fn), ident, lambda s: (TRUE, s), dtype,
                        type(self) if keepcls else None, None, self)

    def astype(self, d, copy=True, **k):
        d = as_dtype(d)
        f = self.elem_fn()
        if d == self._dtype:
            return self.copy()
        return self.fresh(self._shape, lambda idx: scalar_astype(f(idx), d), d)

    def transpose(self, *axes):
        n = self.ndim
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        p = tuple(axes) if axes else tuple(range(n))[::-1]
        inv = [p.index(i) for i in range(n)]
        return self._view(tuple(self._shape[i] for i in p),
                          lambda v: tuple(v[inv[i]] for i in range(n)),
                          lambda s: (TRUE, tuple(s[i] for i in p)))

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.transpose(*p)

    def ravel(self, order=None):
        if self.ndim == 1:
            return self._view(self._shape, ident, lambda v: (TRUE, v))
        return self.reshape(-1)

    def flatten(self, order=None):
        return self.ravel().copy()

    def squeeze(self, axis=None):
        keep = [i for i, d in enumerate(self._shape) if const_of(dim_t(d)) != 1 or (axis is not None and i != axis)]
        n = self.ndim

        def fwd(v):
            it = iter(v)
            return tuple(next(it) if i in keep else ZERO for i in range(n))
        return self._view(tuple(self._shape[i] for i in keep), fwd,
                          lambda s: (TRUE, tuple(s[i] for i in keep)))

    def reshape(self, *shape, order=None):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [wrap(dim_t(d)) for d in shape]
        total = iterm(self.size)
        neg = [i for i, d in enumerate(shape) if const_of(dim_t(d)) == -1]
        if neg:
            if len(shape) == 1:
                shape = [wrap(total)]
            else:
                rest = ONE
                for i, d in enumerate(shape):
                    if i != neg[0]:
                        rest = tmul(rest, dim_t(d))
                q = div_exact(total, rest)
                shape[neg[0]] = wrap(q)
        new = ONE
        for d in shape:
            new = tmul(new, dim_t(d))
        shape = tuple(shape)
        if not product_eq(new, total):
            ok = State.quant_depth == 0 and decide(teq(new, total))
            if not ok:
                raise ValueError("cannot reshape array")
        old = self._shape
        # group dimensions from the left: identical leading dims stay
        if len(old) == 1 and len(shape) == 1:
            return self._view(shape, ident, lambda v: (TRUE, v))
        return self._view(shape, lambda v: regroup(v, shape, old), lambda s: (TRUE, regroup(s, old, shape)))

    # --- element-wise
    def __add__(self, o): return binop('+', self, o)
    def __radd__(self, o): return binop('+', o, self)
    def __sub__(self, o): return binop('-', self, o)
    def __rsub__(self, o): return binop('-', o, self)
    def __mul__(self, o): return binop('*', self, o)
    def __rmul__(self, o): return binop('*', o, self)
    def __truediv__(self, o): return binop('/', self, o)
    def __rtruediv__(self, o): return binop('/', o, self)
    def __floordiv__(self, o): return binop('//', self, o)
    def __rfloordiv__(self, o): return binop('//', o, self)
    def __mod__(self, o): return binop('%', self, o)
    def __rmod__(self, o): return binop('%', o, self)
    def __pow__(self, o): return binop('**', self, o)
    def __rpow__(self, o): return binop('**', o, self)
    def __lt__(self, o): return binop('<', self, o)
    def __le__(self, o): return binop('<=', self, o)
    def __gt__(self, o): return binop('>', self, o)
    def __ge__(self, o): return binop('>=', self, o)
    def __eq__(self, o): return binop('==', self, o)
    def __ne__(self, o): return binop('!=', self, o)
    def __and__(self, o): return binop('&', self, o)
    def __rand__(self, o): return binop('&', o, self)
    def __or__(self, o): return binop('|', self, o)
    def __ror__(self, o): return binop('|', o, self)
    def __xor__(self, o): return binop('^', self, o)
    def __rxor__(self, o): return binop('^', o, self)

    def __invert__(self):
        return self.map(lambda x: core.snot(x), self._dtype)

    def __neg__(self):
        return self.map(lambda x: -x, self._dtype)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return self.map(lambda x: abs(x), self._dtype)

    def map(self, f, dtype):
        g = self.elem_fn()
        return self.fresh(self._shape, lambda idx: f(g(idx)), dtype)

    def _inplace(self, op, o):
        r = binop(op, self, o)
        if isinstance(r, SArr):
            if r.ndim > self.ndim:
                raise ValueError("non-broadcastable output operand")
            if rankk(r._dtype) > rankk(self._dtype) and rankk(self._dtype) < 2:
                raise same_kind(op, r._dtype, self._dtype)
        self.assign(r)
        return self

    def __iadd__(self, o): return self._inplace('+', o)
    def __isub__(self, o): return self._inplace('-', o)
    def __imul__(self, o): return self._inplace('*', o)
    def __itruediv__(self, o): return self._inplace('/', o)
    def __ifloordiv__(self, o): return self._inplace('//', o)
    def __imod__(self, o): return self._inplace('%', o)
    def __ipow__(self, o): return self._inplace('**', o)
    def __iand__(self, o): return self._inplace('&', o)
    def __ior__(self, o): return self._inplace('|', o)
    def __ixor__(self, o): return self._inplace('^', o)

    # --- writing
    def assign(self, value, where=None):
        """self[...] = value (broadcast)"""
        d = self._dtype
        if isinstance(value, (list, tuple)):
            value = asarray(value)
        if isinstance(value, Compressed):
            raise Unsupported("assignment of a filtered array")
        if isinstance(value, SArr):
            while value.ndim > self.ndim and const_of(dim_t(value._shape[0])) == 1:
                value = value[0]
                if not isinstance(value, SArr):
                    break
        if isinstance(value, SArr):
            if value.ndim > self.ndim:
                raise ValueError("could not broadcast input array")
            vf, off = value.elem_fn(), self.ndim - value.ndim
            ones = []
            for j, vd in enumerate(value._shape):
                sd = self._shape[off + j]
                c = const_of(dim_t(vd))
                if c == 1 and const_of(dim_t(sd)) != 1:
                    ones.append(j)
                elif not dim_eq(vd, sd):
                    if State.quant_depth == 0 and decide(teq(dim_t(vd), ONE)):
                        ones.append(j)
                    else:
                        raise ValueError("could not broadcast input array from shape into shape")
            get = lambda v: scalar_astype(vf(tuple(ZERO if j in ones else v[off + j]
                                                   for j in range(value.ndim))), d)
        else:
            if value is None and d.kind == 'f':
                value = float('nan')
            cv = scalar_astype(value, d)
            get = lambda v: cv
        old = self._st.snapshot()
        inv = self._inv
        ident_view = self._fwd is ident

        def fn(s):
            if ident_view and where is None:
                return get(s)
            c, v = inv(s)
            if where is not None:
                with quant(c):
                    c = tand(c, where(v))
            if z3.is_false(c):
                return old(s)
            if not z3.is_true(c) and prove(c):
                c = TRUE
            if z3.is_true(c):
                return get(v)
            if prove(tnot(c)):
                return old(s)
            with core.local_facts(c):
                nv = get(v)
            with core.local_facts(tnot(c)):
                ov = old(s)
            return s_ite(wrap(c), nv, ov)
        self._st.set(fn)

    def fill(self, v):
        self.assign(v)

    def __setitem__(self, key, value):
        setitem(self, key, value)

    def __getitem__(self, key):
        return getitem(self, key)

    def itemset(self, k, v):
        self[k] = v

    # --- reductions
    def sum(self, axis=None, dtype=None, keepdims=False, **k):
        return reduce_('sum', self, axis, keepdims)

    def mean(self, axis=None, dtype=None, keepdims=False, **k):
        return reduce_('mean', self, axis, keepdims)

    def std(self, axis=None, ddof=0, keepdims=False, **k):
        return sqrt_any(self.var(axis, ddof=ddof, keepdims=keepdims))

    def var(self, axis=None, ddof=0, keepdims=False, **k):
        m = reduce_('mean', self, axis, True)
        d = self - m
        s = reduce_('sum', d * d, axis, keepdims)
        n = axis_size(self, axis)
        return true_div(s, n - ddof)

    def max(self, axis=None, keepdims=False, **k):
        return reduce_('max', self, axis, keepdims)

    def min(self, axis=None, keepdims=False, **k):
        return reduce_('min', self, axis, keepdims)

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def argmax(self, axis=None, **k):
        return reduce_('argmax', self, axis, False)

    def argmin(self, axis=None, **k):
        return reduce_('argmin', self, axis, False)

    def any(self, axis=None, keepdims=False, **k):
        return reduce_('any', self, axis, keepdims)

    def all(self, axis=None, keepdims=False, **k):
        return reduce_('all', self, axis, keepdims)

    def cumsum(self, axis=None, **k):
        if self.ndim != 1:
            raise Unsupported("cumsum of nd")
        f = self.elem_fn()
        return self.fresh(self._shape, lambda idx: wrap(sum_term(tadd(idx[0], ONE), lambda k: f((k,)))),
                          self._dtype)

    def nonzero(self):
        if self.ndim != 1:
            raise Unsupported("nonzero of nd")
        f = self.elem_fn()
        return (Compressed(self._shape[0], lambda i: bterm(f((i,))), lambda i: wrap(i), i8),)

    def clip(self, a=None, b=None, out=None):
        r = self
        if a is not None:
            r = binop('max', r, a)
        if b is not None:
            r = binop('min', r, b)
        return r

    def round(self, d=0):
        if d:
            raise Unsupported("round decimals")
        return self.map(lambda x: scalar_astype(core.round_half_even(x), f8) if self._dtype.kind == 'f' else x, self._dtype)

    def repeat(self, r, axis=None):
        return repeat(self, r, axis)

    def tolist(self):
        n = const_of(dim_t(self._shape[0]))
        if n is None or n > 4096:
            if self.ndim == 1:
                from .loops import Seg, SymSeq
                f = self.elem_fn()
                return [Seg(SymSeq(dim_t(self._shape[0]), lambda k: f((k,))))]
            raise Unsupported("tolist of symbolic array")
        return [x.tolist() if isinstance(x, SArr) else x for x in self]

    def dot(self, o):
        from . import npmodel
        return npmodel.dot(self, o)

    def sort(self, axis=-1):
        raise Unsupported("sort")

    def setflags(self, *a, **k):
        pass

    def tobytes(self):
        raise Unsupported("tobytes")


def same_kind(op, a, b):
    e = TypeError("Cannot cast ufunc output from %s to %s with casting rule 'same_kind'" % (a.name, b.name))
    return e


def product_eq(a, b):
    if a.eq(b):
        return True
    e = teq(simp(a), simp(b))
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return prove(e)


def div_exact(total, rest):
    c = const_of(rest)
    ct = const_of(total)
    if c is not None and ct is not None:
        return z3.IntVal(ct // c)
    if c is not None and c > 0:
        l = red.int_lin(total)
        if all(v % c == 0 for v in l.values()):
            r = ZERO
            for k, v in l.items():
                r = tadd(r, z3.IntVal(v // c) if k is None else tmul(z3.IntVal(v // c), k.t))
            return r
    return core.int_divmod('//', total, rest)


def lin_index(v, shape):
    """Row-major linear index."""
    r = ZERO
    for i, d in zip(v, shape):
        r = tadd(tmul(r, dim_t(d)), i)
    return r


def regroup(v, src, dst):
    """Index v in shape src -> index in shape dst (same total, row-major)."""
    src, dst = list(src), list(dst)
    v = list(v)
    # strip equal leading dims
    lead = []
    while src and dst and dim_t(src[0]).eq(dim_t(dst[0])):
        lead.append(v.pop(0))
        src.pop(0)
        dst.pop(0)
    tail = []
    while src and dst and dim_t(src[-1]).eq(dim_t(dst[-1])):
        tail.insert(0, v.pop())
        src.pop()
        dst.pop()
    if not src and not dst:
        return tuple(lead + tail)
    facts = [in_range(i, dim_t(d)) for i, d in zip(v, src)]
    with core.local_facts(*[f for f in facts if not z3.is_false(f)]):
        lin = lin_index(v, src)
        out = []
        rest = lin
        for d in reversed(dst[1:]):
            dt = dim_t(d)
            out.insert(0, core.int_divmod('%', rest, dt))
            rest = core.int_divmod('//', rest, dt)
        if dst:
            out.insert(0, rest)
    return tuple(lead + out + tail)


# ------------------------------------------------------------- compressed
class Compressed:
    """Elements elem(i), i increasing in [0,n) with cond(i)."""
    _is_sarr = True
    _is_compressed = True
    __array_priority__ = 1000

    def __init__(self, n, cond, elem, dtype, key=None):
        self.n, self.cond, self.elem, self.dtype = wrap(dim_t(n)), cond, elem, dtype
        self.key = key
        self.ndim = 1

    def __hash__(self):
        raise TypeError("unhashable")

    @property
    def size(self):
        return wrap(red.mk_sumi(dim_t(self.n), lambda k: tite(self.cond(k), ONE, ZERO)))

    @property
    def shape(self):
        return (self.size,)

    def pv_len(self):
        return self.size

    def map(self, f, dtype):
        e = self.elem
        return Compressed(self.n, self.cond, lambda i: f(e(i)), dtype)

    def astype(self, d, copy=True):
        d = as_dtype(d)
        return self.map(lambda x: scalar_astype(x, d), d)

    def copy(self):
        return Compressed(self.n, self.cond, self.elem, self.dtype)

    def tolist(self):
        return self

    def same_mask(self, o):
        if self.cond is o.cond:
            return True
        k = fresh_int('m')
        with quant(in_range(k, dim_t(self.n))):
            a, b = self.cond(k), o.cond(k)
            return dim_t(self.n).eq(dim_t(o.n)) and (a.eq(b) or prove(a == b))

    def sum(self, axis=None, **k):
        def body(i):
            with core.local_facts(self.cond(i)):
                v = self.elem(i)
            return s_ite(wrap(self.cond(i)), v, 0)
        return wrap_sum(dim_t(self.n), body, self.dtype)

    def mean(self, axis=None, **k):
        return true_div(self.sum(), self.size)

    def var(self, axis=None, **k):
        d = self - self.mean()
        return (d * d).mean()

    def std(self, axis=None, **k):
        return core.s_sqrt(self.var())

    def any(self):
        n = dim_t(self.n)
        return wrap(tlt(red.mk_first(n, lambda i: tand(self.cond(i), bterm(self.elem(i)))), n))

    def all(self):
        n = dim_t(self.n)
        return wrap(tnot(tlt(red.mk_first(n, lambda i: tand(self.cond(i), tnot(bterm(self.elem(i))))), n)))

    def __iter__(self):
        raise Unsupported("iteration over a filtered array")

    def __len__(self):
        raise Unsupported("len of a filtered array in uninstrumented code")

    def __getitem__(self, k):
        if isinstance(k, Compressed) and self.same_mask(k):
            return Compressed(self.n, lambda i: tand(self.cond(i), bterm(k.elem(i))), self.elem, self.dtype)
        if isinstance(k, int) and not isinstance(k, bool) and k in (0, -1):
            n = dim_t(self.n)
            j = red.mk_first(n, self.cond if k == 0 else (lambda i: self.cond(simp(n - 1 - i))))
            if not decide(tlt(j, n)):
                raise IndexError("index %d is out of bounds" % k)
            core.assume(wrap(tle(ZERO, j)))
            return self.elem(j if k == 0 else simp(n - 1 - j))
        raise Unsupported("indexing a filtered array")

    def __format__(self, s):
        return "<arr>"


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lt', 'le', 'gt', 'ge', 'eq', 'ne',
           'and', 'or', 'radd', 'rsub', 'rmul', 'rtruediv', 'invert', 'neg', 'abs'):
    setattr(Compressed, '__%s__' % _n, getattr(SArr, '__%s__' % _n))


# ------------------------------------------------------------ element-wise
def scalar_op(op, x, y):
    if op == '+': return x + y
    if op == '-': return x - y
    if op == '*': return x * y
    if op == '/':
        return np_div(x, y)
    if op == '//': return x // y
    if op == '%': return x % y
    if op == '**': return lift(x) ** y
    if op == '<': return x < y
    if op == '<=': return x <= y
    if op == '>': return x > y
    if op == '>=': return x >= y
    if op == '==': return x == y
    if op == '!=':
        r = x == y
        return core.snot(r)
    if op == '&': return bool_or_int('&', x, y)
    if op == '|': return bool_or_int('|', x, y)
    if op == '^': return wrap(z3.Xor(bterm(x), bterm(y)))
    if op == 'max': return s_ite(lift(x) < y, y, x)
    if op == 'min': return s_ite(lift(y) < x, y, x)
    raise Unsupported(op)


def bool_or_int(op, x, y):
    if isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)):
        f = tand if op == '&' else tor
        return wrap(f(bterm(x), bterm(y)))
    if isinstance(x, int) and isinstance(y, int):
        return x & y if op == '&' else x | y
    if op == '&':
        return lift(x) & y
    raise Unsupported("bitwise or")


def np_div(x, y):
    x, y = lift(x), lift(y)
    if isinstance(x, SBool): x = x._num()
    if isinstance(y, SBool): y = y._num()
    if not isinstance(x, SNum) or not isinstance(y, SNum):
        raise TypeError("unsupported operand type(s) for /")
    return core.divide(x, y, arrays=True)


def true_div(x, y):
    if isinstance(x, SArr) or isinstance(y, SArr):
        return binop('/', x, y)
    return np_div(x, y)


CMP = ('<', '<=', '>', '>=', '==', '!=')


def binop(op, a, b):
    if isinstance(a, Compressed) or isinstance(b, Compressed):
        return binop_c(op, a, b)
    if isinstance(a, (list, tuple)):
        a = asarray(a)
    if isinstance(b, (list, tuple)):
        b = asarray(b)
    for x in (a, b):
        if not isinstance(x, (SArr, SVal, int, float, bool, Fraction)):
            if op in ('==', '!=') and (isinstance(x, str) or x is None):
                continue
            if getattr(x, '_is_frame', False) or getattr(x, '_is_series', False):
                return NotImplemented
            raise TypeError("unsupported operand type(s) for %s: array and %s" % (op, type(x).__name__))
    da = a._dtype if isinstance(a, SArr) else dt_of_scalar(a)
    db = b._dtype if isinstance(b, SArr) else dt_of_scalar(b)
    if op == '-' and da.kind == 'b' and db.kind == 'b':
        raise TypeError("numpy boolean subtract, the `-` operator, is not supported")
    d = bool_ if op in CMP else result_dtype(op, da, db, a, b)
    shape, ga, gb = broadcast2(a, b)
    mod = 2 ** d.bits if d.kind == 'u' and op in '+-*' and len(op) == 1 else None

    def fn(idx):
        r = scalar_op(op, ga(idx), gb(idx))
        if mod:
            r = arith_mod(r, mod)
        elif d.kind == 'i' and d.bits < 32 and op in '+-*':
            r = wrap_int(r, d.bits)
        return r
    src = a if isinstance(a, SArr) else b
    if isinstance(a, SArr) and isinstance(b, SArr) and type(a) is SArr and type(b) is not SArr:
        src = b
    return src.fresh(shape, fn, d)


def binop_c(op, a, b):
    c = a if isinstance(a, Compressed) else b
    for x in (a, b):
        if isinstance(x, Compressed):
            if not c.same_mask(x):
                raise Unsupported("operation on differently filtered arrays")
        elif isinstance(x, SArr):
            if x.ndim == 0:
                continue
            raise Unsupported("filtered and full array")
    fa = a.elem if isinstance(a, Compressed) else (lambda i: a.at() if isinstance(a, SArr) else a)
    fb = b.elem if isinstance(b, Compressed) else (lambda i: b.at() if isinstance(b, SArr) else b)
    da = a.dtype if isinstance(a, (SArr, Compressed)) else dt_of_scalar(a)
    db = b.dtype if isinstance(b, (SArr, Compressed)) else dt_of_scalar(b)
    d = bool_ if op in CMP else result_dtype(op, da, db, a, b)
    return Compressed(c.n, c.cond, lambda i: scalar_op(op, fa(i), fb(i)), d)


def broadcast2(a, b):
    shapes = [x._shape if isinstance(x, SArr) else () for x in (a, b)]
    n = max(len(s) for s in shapes)
    shape = []
    drop = [set(), set()]
    for j in range(n):
        ds = []
        for w in (0, 1):
            p = j - (n - len(shapes[w]))
            ds.append((p, shapes[w][p]) if p >= 0 else None)
        if ds[0] is None:
            shape.append(ds[1][1])
        elif ds[1] is None:
            shape.append(ds[0][1])
        else:
            (p0, d0), (p1, d1) = ds
            c0, c1 = const_of(dim_t(d0)), const_of(dim_t(d1))
            if c0 == 1 and c1 == 1:
                shape.append(1)
            elif c0 == 1:
                drop[0].add(p0)
                shape.append(d1)
            elif c1 == 1:
                drop[1].add(p1)
                shape.append(d0)
            elif dim_eq(d0, d1):
                shape.append(d0 if c1 is None else d1)
            elif State.quant_depth == 0 and decide(teq(dim_t(d0), ONE)):
                drop[0].add(p0)
                shape.append(d1)
            elif State.quant_depth == 0 and decide(teq(dim_t(d1), ONE)):
                drop[1].add(p1)
                shape.append(d0)
            else:
                raise ValueError("operands could not be broadcast together")

    def getter(x, s, dr):
        if not isinstance(x, SArr):
            return lambda idx: x
        f = x.elem_fn()
        off = n - len(s)
        if not dr:
            if off == 0:
                return f
            return lambda idx: f(idx[off:])
        return lambda idx: f(tuple(ZERO if p in dr else idx[off + p] for p in range(len(s))))
    return tuple(shape), getter(a, shapes[0], drop[0]), getter(b, shapes[1], drop[1])


def elementwise(f, dtype, *arrs):
    """General n-ary element-wise function with broadcasting."""
    arrs = [asarray(x) if isinstance(x, (list, tuple)) else x for x in arrs]
    if any(isinstance(x, Compressed) for x in arrs):
        c = [x for x in arrs if isinstance(x, Compressed)][0]
        fs = []
        for x in arrs:
            if isinstance(x, Compressed):
                if not c.same_mask(x):
                    raise Unsupported("differently filtered arrays")
                fs.append(x.elem)
            elif isinstance(x, SArr):
                raise Unsupported("filtered and full array")
            else:
                fs.append(lambda i, x=x: x)
        return Compressed(c.n, c.cond, lambda i: f(*[g(i) for g in fs]), dtype)
    real = [x for x in arrs if isinstance(x, SArr)]
    if not real:
        return f(*arrs)
    acc = real[0]
    shape = acc._shape
    for x in real[1:]:
        t = SArr.make(shape, lambda idx: 0, f8)
        shape, _, _ = broadcast2(t, x)
    gs = []
    big = SArr.make(shape, lambda idx: 0, f8)
    for x in arrs:
        _, _, g = broadcast2(big, x)
        gs.append(g)
    if not shape:
        return f(*[g(()) for g in gs])
    return real[0].fresh(shape, lambda idx: f(*[g(idx) for g in gs]), dtype)


# ---------------------------------------------------------------- indexing
def norm_index(i, n, where='index'):
    """Index i (python int / SInt) into [0,n): python wraparound."""
    t = iterm(i)
    c, cn = const_of(t), const_of(n)
    numba = State.numba[-1]
    if c is not None:
        t2 = t if c >= 0 else simp(n + c)
        ok = tlt(t, n) if c >= 0 else tle(ZERO, t2)
    else:
        if prove(tle(ZERO, t)):
            t2, ok = t, tlt(t, n)
        elif prove(tlt(t, ZERO)):
            t2 = simp(t + n)
            ok = tle(ZERO, t2)
        else:
            t2 = tite(tlt(t, ZERO), simp(t + n), t)
            ok = tand(tle(simp(-n), t), tlt(t, n))
    ok = simp(ok)
    if z3.is_true(ok) or prove(ok):
        return t2
    if numba:
        core.oblige("memory safety: %s within bounds" % where, wrap(ok), 'safety')
        return t2
    if State.quant_depth:
        raise Unsupported("possibly failing index inside an element expression")
    if decide(ok):
        return t2
    raise IndexError("index is out of bounds")


def norm_slice(s, n):
    """slice over length n -> (start, step(int), length) terms."""
    step = s.step
    step = 1 if step is None else step
    if not isinstance(step, int):
        c = const_of(iterm(step))
        if c is None:
            raise Unsupported("symbolic slice step")
        step = c
    if step == 0:
        raise ValueError("slice step cannot be zero")

    def bound(x, lo, hi):
        """clip python index"""
        t = iterm(x)
        c = const_of(t)
        cn = const_of(n)
        if c is not None and cn is not None:
            v = c + cn if c < 0 else c
            lo_, hi_ = const_of(lo), const_of(hi)
            return z3.IntVal(min(max(v, lo_), hi_))
        if prove(tle(ZERO, t)):
            v = t
        elif prove(tlt(t, ZERO)):
            v = simp(t + n)
        else:
            v = tite(tlt(t, ZERO), simp(t + n), t)
        if not prove(tle(lo, v)):
            v = tite(tle(lo, v), v, lo)
        if not prove(tle(v, hi)):
            v = tite(tle(v, hi), v, hi)
        return v
    if step > 0:
        lo, hi = ZERO, n
        a = ZERO if s.start is None else bound(s.start, lo, hi)
        b = n if s.stop is None else bound(s.stop, lo, hi)
        d = simp(b - a)
        if step == 1:
            ln = d
        else:
            ln = core.int_divmod('//', simp(d + (step - 1)), z3.IntVal(step))
    else:
        lo, hi = z3.IntVal(-1), simp(n - 1)
        a = hi if s.start is None else bound(s.start, lo, hi)
        b = lo if s.stop is None else bound(s.stop, lo, hi)
        d = simp(a - b)
        ln = d if step == -1 else core.int_divmod('//', simp(d + (-step - 1)), z3.IntVal(-step))
    if not prove(tle(ZERO, ln)):
        ln = tite(tle(ZERO, ln), ln, ZERO)
    return a, step, simp(ln)


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = [k.a if type(k).__name__ == 'SSeries' else k for k in key]
    n = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, SArr) and k._dtype.kind == 'b':
            n += k.ndim
        else:
            n += 1
    if n > a.ndim:
        raise IndexError("too many indices for array")
    for i, k in enumerate(key):
        if k is Ellipsis:
            key[i:i + 1] = [slice(None)] * (a.ndim - n)
            break
    else:
        key += [slice(None)] * (a.ndim - n)
    out = []
    for k in key:
        if isinstance(k, list):
            k = asarray(k)
        if isinstance(k, SArr) and k.ndim == 0 and k._dtype.kind in 'iu':
            k = k.at()
        if isinstance(k, range):
            k = asarray(list(k))
        out.append(k)
    return out


def is_int(k):
    return isinstance(k, (int, SInt)) and not isinstance(k, bool)


def basic_view(a, key):
    """View for ints, slices and newaxis only."""
    shape, specs = [], []       # specs: per self axis
    ax = 0
    newpos = []
    for k in key:
        if k is None:
            newpos.append(len(shape))
            shape.append(1)
            continue
        n = dim_t(a._shape[ax])
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                specs.append(('all', len(shape)))
                shape.append(a._shape[ax])
            else:
                st, step, ln = norm_slice(k, n)
                specs.append(('sl', len(shape), st, step, ln))
                shape.append(wrap(ln))
        else:
            specs.append(('int', norm_index(k, n)))
        ax += 1
    nd = len(shape)

    def fwd(v):
        out = []
        for s in specs:
            if s[0] == 'int':
                out.append(s[1])
            elif s[0] == 'all':
                out.append(v[s[1]])
            else:
                out.append(simp(tadd(s[2], tmul(z3.IntVal(s[3]), v[s[1]]))))
        return tuple(out)

    def inv(x):
        c = TRUE
        v = [ZERO] * nd
        for i, s in enumerate(specs):
            if s[0] == 'int':
                c = tand(c, teq(x[i], s[1]))
            elif s[0] == 'all':
                v[s[1]] = x[i]
            else:
                _, p, st, step, ln = s
                d = simp(tsub(x[i], st))
                if abs(step) == 1:
                    q = d if step == 1 else simp(-d)
                else:
                    q = core.int_divmod('//', d if step > 0 else simp(-d), z3.IntVal(abs(step)))
                    c = tand(c, teq(core.int_divmod('%', d if step > 0 else simp(-d), z3.IntVal(abs(step))), ZERO))
                c = tand(c, tle(ZERO, q), tlt(q, ln))
                v[p] = q
        return c, tuple(v)
    return shape, fwd, inv


def getitem(a, key):
    if isinstance(key, str):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
    if isinstance(key, Compressed):
        return gather_c(a, key)
    if isinstance(key, tuple) and any(isinstance(k, Compressed) for k in key):
        if len(key) == a.ndim and isinstance(key[0], Compressed):
            c = key[0]
            rest = key[1:]
            f = a.elem_fn()
            if all(isinstance(k, (int, SInt)) for k in rest):
                ri = tuple(norm_index(k, dim_t(d)) for k, d in zip(rest, a._shape[1:]))
                return Compressed(c.n, c.cond, lambda i: f((iterm(c.elem(i)),) + ri), a._dtype)
        raise Unsupported("indexing with a filtered index")
    key = expand_key(a, key)
    for k in key:
        if isinstance(k, (float, SReal)):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        if not (k is None or isinstance(k, (slice, SArr)) or is_int(k) or isinstance(k, (bool, SBool))):
            raise Unsupported("index of type %s" % type(k).__name__)
    if any(isinstance(k, (bool, SBool)) for k in key):
        raise Unsupported("boolean scalar index")
    if any(isinstance(k, SArr) for k in key):
        return adv_get(a, key)
    shape, fwd, inv = basic_view(a, key)
    if not shape:
        if all(is_int(k) for k in key):
            v = a.elem_fn()(fwd(()))
            return v
    return a._view(shape, fwd, inv)


def gather_c(a, c):
    f = a.elem_fn()
    if a.ndim != 1:
        raise Unsupported("nd array indexed by a filtered index")
    check_gather(c.elem, dim_t(a._shape[0]), c)
    return Compressed(c.n, c.cond, lambda i: f((iterm(c.elem(i)),)), a._dtype)


def check_gather(elem, n, c):
    k = fresh_int('g')
    with quant(in_range(k, dim_t(c.n)), c.cond(k)):
        t = iterm(elem(k))
        ok = prove(in_range(t, n))
    if not ok:
        raise Unsupported("gather with unproved index range")


def adv_get(a, key):
    masks = [k for k in key if isinstance(k, SArr) and k._dtype.kind == 'b']
    if masks:
        return mask_get(a, key, masks)
    arrs = [k for k in key if isinstance(k, SArr) or is_int(k)]
    pos = [i for i, k in enumerate(key) if isinstance(k, SArr) or is_int(k)]
    if any(k is None for k in key):
        raise Unsupported("newaxis with integer arrays")
    for k in arrs:
        if isinstance(k, SArr) and k._dtype.kind not in 'iu':
            if const_of(iterm(k.size)) == 0:
                continue
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
    # broadcast shape of the index arrays
    acc = None
    for k in arrs:
        if isinstance(k, SArr):
            acc = k if acc is None else SArr.make(broadcast2(acc, k)[0], lambda idx: 0, i8)
    bshape = acc._shape
    big = SArr.make(bshape, lambda idx: 0, i8)
    nb = len(bshape)
    getters = {}
    for p, k in zip(pos, arrs):
        n = dim_t(a._shape[p])
        if isinstance(k, SArr):
            g = broadcast2(big, k)[2]
            check_index_array(g, bshape, n)

            def gg(idx, g=g, n=n):
                t = iterm(g(idx))
                if prove(tle(ZERO, t)):
                    return t
                return tite(tlt(t, ZERO), simp(t + n), t)
            getters[p] = gg
        else:
            t = norm_index(k, n)
            getters[p] = lambda idx, t=t: t
    contiguous = pos == list(range(pos[0], pos[0] + len(pos)))
    rest = [i for i in range(len(key)) if i not in pos]
    base = a
    if any(not (key[i].start is None and key[i].stop is None and key[i].step is None) for i in rest):
        kk = [key[i] if i in rest else slice(None) for i in range(len(key))]
        sh, fw, iv = basic_view(a, kk)
        base = a._view(sh, fw, iv)
    f = base.elem_fn()
    if contiguous:
        p0 = pos[0]
        shape = [base._shape[i] for i in rest if i < p0] + list(bshape) + [base._shape[i] for i in rest if i > p0]
        nlead = len([i for i in rest if i < p0])
    else:
        shape = list(bshape) + [base._shape[i] for i in rest]
        nlead = 0

    def fn(idx):
        if contiguous:
            lead, mid, tail = idx[:nlead], idx[nlead:nlead + nb], idx[nlead + nb:]
            r = list(lead) + list(tail)
        else:
            mid, r = idx[:nb], list(idx[nb:])
        it = iter(r)
        out = []
        for i in range(len(key)):
            out.append(getters[i](mid) if i in getters else next(it))
        return f(tuple(out))
    return a.fresh(shape, fn, a._dtype)


def check_index_array(g, bshape, n):
    """All index values within [-n, n): else IndexError path."""
    ks = [fresh_int('x') for _ in bshape]
    with quant(*[in_range(k, dim_t(d)) for k, d in zip(ks, bshape)]):
        t = iterm(g(tuple(ks)))
        ok = tand(tle(simp(-n), t), tlt(t, n))
        if z3.is_true(simp(ok)) or red.prove_full(core.pc(), ok):
            return
    if State.numba[-1]:
        raise Unsupported("numba fancy indexing with unproved range")
    if State.quant_depth:
        raise Unsupported("possibly failing index inside an element expression")
    if len(ks) == 1:
        m = dim_t(bshape[0])

        def bad(i):
            t = iterm(g((i,)))
            return tor(tlt(t, simp(-n)), tle(n, t))
        first = red.mk_first(m, bad)
        if decide(tlt(first, m)):
            raise IndexError("index is out of bounds")
        # from here on every index is in range: remember as a fact
        State.idx_facts.append((len(State.ctxs), g))
        return
    raise Unsupported("index array with unproved range")


State.idx_facts = []


def mask_get(a, key, masks):
    if len(masks) == 1 and isinstance(key[0], SArr) and masks[0] is key[0]:
        m = masks[0]
        mf = m.elem_fn()
        rest = key[1:]
        f = a.elem_fn()
        if m.ndim == 1:
            if not dim_eq(m._shape[0], a._shape[0]):
                raise IndexError("boolean index did not match indexed array")
            if a.ndim == 1:
                return Compressed(a._shape[0], lambda i: bterm(mf((i,))), lambda i: f((i,)), a._dtype)
            if a.ndim == 2 and len(rest) == 1 and is_int(rest[0]):
                j = norm_index(rest[0], dim_t(a._shape[1]))
                return Compressed(a._shape[0], lambda i: bterm(mf((i,))), lambda i: f((i, j)), a._dtype)
            n = const_of(dim_t(a._shape[0]))
            raise Unsupported("boolean mask on a multi-dimensional array")
        if m.ndim == a.ndim == 2:
            for x, y in zip(m._shape, a._shape):
                if not dim_eq(x, y):
                    raise IndexError("boolean index did not match indexed array")
            n = simp(tmul(dim_t(a._shape[0]), dim_t(a._shape[1])))
            w = dim_t(a._shape[1])

            def sp(i):
                return (core.int_divmod('//', i, w), core.int_divmod('%', i, w))
            return Compressed(wrap(n), lambda i: bterm(mf(sp(i))), lambda i: f(sp(i)), a._dtype)
    raise Unsupported("boolean mask index")


def setitem(a, key, value):
    if isinstance(key, Compressed):
        return set_c(a, key, value)
    key = expand_key(a, key)
    for k in key:
        if isinstance(k, (float, SReal)):
            raise IndexError("only integers, slices ... are valid indices")
        if isinstance(k, Compressed):
            raise Unsupported("assignment through a filtered index")
    masks = [k for k in key if isinstance(k, SArr) and k._dtype.kind == 'b']
    if masks:
        if len(masks) > 1 or key[0] is not masks[0]:
            raise Unsupported("mask assignment")
        m = masks[0]
        rest = key[1:]
        mf = m.elem_fn()
        for x, y in zip(m._shape, a._shape):
            if not dim_eq(x, y):
                raise IndexError("boolean index did not match indexed array")
        if any(not isinstance(k, slice) or k != slice(None) for k in rest):
            full = [slice(None)] * m.ndim + rest
            sh, fw, iv = basic_view(a, full)
            tgt = a._view(sh, fw, iv)
        else:
            tgt = a
        nd = m.ndim
        if isinstance(value, Compressed):
            mc = Compressed(a._shape[0], lambda i: bterm(mf((i,))), lambda i: 0, bool_)
            if nd != 1 or not mc.same_mask(value) or tgt.ndim != 1:
                raise Unsupported("assignment of a filtered array through another mask")
            ve = value.elem
            value = SArr.make(tgt._shape, lambda idx: ve(idx[0]), value.dtype)
        elif isinstance(value, SArr) and value.ndim >= 1:
            if value.ndim + nd > tgt.ndim or nd != 1:
                if const_of(iterm(value.size)) != 1:
                    raise Unsupported("mask assignment of an array")
        tgt.assign(value, where=lambda v: bterm(mf(v[:nd])))
        return
    arrs = [(i, k) for i, k in enumerate(key) if isinstance(k, SArr)]
    if arrs:
        return adv_set(a, key, arrs, value)
    for k in key:
        if not (k is None or isinstance(k, slice) or is_int(k)):
            raise Unsupported("index of type %s" % type(k).__name__)
    shape, fwd, inv = basic_view(a, key)
    v = SArr._mk(tuple(shape), a._st, *compose(a, fwd, inv), a._dtype)
    if not shape and isinstance(value, SArr) and value.ndim > 0:
        if not core.decide(teq(iterm(value.size), ONE)):
            raise ValueError("setting an array element with a sequence.")
        value = value.at(*[0] * value.ndim)
    v.assign(value)


def compose(a, fwd, inv):
    sf, si = a._fwd, a._inv
    if sf is ident:
        return fwd, inv

    def ni(s):
        c, v = si(s)
        c2, w = inv(v)
        return tand(c, c2), w
    return (lambda v: sf(fwd(v))), ni


def set_c(a, c, value):
    if a.ndim != 1:
        raise Unsupported("nd array assigned through a filtered index")
    # a[index list] = value : position s is hit iff some i with cond and elem==s
    n = dim_t(c.n)
    k = fresh_int('g')
    with quant(in_range(k, n), c.cond(k)):
        t = iterm(c.elem(k))
    if not t.eq(k):
        raise Unsupported("assignment through a filtered index")
    if isinstance(value, Compressed):
        if not value.same_mask(c):
            raise Unsupported("assignment of a differently filtered array")
        ve = value.elem
        value = SArr.make(a._shape, lambda idx: ve(idx[0]), value.dtype)
    elif isinstance(value, SArr) and value.ndim:
        raise Unsupported("assignment of array through a filtered index")
    if not dim_t(a._shape[0]).eq(n) and not prove(tle(n, dim_t(a._shape[0]))):
        raise Unsupported("assignment through a filtered index")
    a.assign(value, where=lambda v: tand(in_range(v[0], n), c.cond(v[0])))


def adv_set(a, key, arrs, value):
    if len(arrs) != 1 or any(k is None for k in key):
        if all(isinstance(k, SArr) or is_int(k) for k in key):
            return adv_set_point(a, key, value)
        raise Unsupported("assignment through several index arrays")
    p, k = arrs[0]
    if k.ndim != 1:
        raise Unsupported("assignment through a nd index array")
    if k._dtype.kind not in 'iu':
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    return adv_set_point(a, key, value)


def adv_set_point(a, key, value):
    """a[..., idx, ...] = value with 1-d index arrays (last write wins)."""
    arrs = [(i, k) for i, k in enumerate(key) if isinstance(k, SArr)]
    acc = arrs[0][1]
    for _, k in arrs:
        if k.ndim != 1 or not dim_eq(k._shape[0], acc._shape[0]):
            raise Unsupported("index arrays of different shape")
    m = dim_t(acc._shape[0])
    fs = {}
    for i, k in arrs:
        g = k.elem_fn()
        check_index_array(g, (acc._shape[0],), dim_t(a._shape[i]))
        n = dim_t(a._shape[i])

        def gg(j, g=g, n=n):
            t = iterm(g((j,)))
            return t if prove(tle(ZERO, t)) else tite(tlt(t, ZERO), simp(t + n), t)
        fs[i] = gg
    kk = [slice(None) if i in fs else k for i, k in enumerate(key)]
    sh, fwd, inv = basic_view(a, kk)
    tgt = a._view(sh, fwd, inv)
    # positions of the array axes among the remaining dims
    pos, q = {}, 0
    for i, k in enumerate(kk):
        if is_int(k):
            continue
        if i in fs:
            pos[i] = q
        q += 1
    vshape = None
    if isinstance(value, (list, tuple)):
        value = asarray(value)
    if isinstance(value, Compressed):
        raise Unsupported("assignment of a filtered array")
    d = a._dtype

    def last(v):
        """last j in [0,m) with idx_j == v"""
        r = red.mk_first(m, lambda j: tand(*[teq(fs[i](simp(m - 1 - j)), v[pos[i]]) for i in fs]))
        return tlt(r, m), simp(m - 1 - r)
    axes = sorted(pos.values())
    if isinstance(value, SArr):
        other = [j for j in range(tgt.ndim) if j not in axes]
        if axes != list(range(axes[0], axes[0] + len(axes))):
            raise Unsupported("non-adjacent index arrays")
        # layout of the right-hand side: dims with the array axes replaced by m
        lay = [('o', j) if j in other else 'm' for j in range(tgt.ndim) if j in other or j == axes[0]]
        full = tuple(wrap(m) if l == 'm' else tgt._shape[l[1]] for l in lay)
        big = SArr.make(full, lambda idx: 0, f8)
        _, _, vg = broadcast2(big, value)
        val = lambda v, j: vg(tuple(j if l == 'm' else v[l[1]] for l in lay))
    else:
        val = lambda v, j: value
    old = a._st.snapshot()
    ainv = tgt._inv

    def fn(s):
        c, v = ainv(s)
        hit, j = last(v)
        c = tand(c, hit)
        if z3.is_false(c):
            return old(s)
        with core.local_facts(c):
            nv = scalar_astype(val(v, j), d)
        return s_ite(wrap(c), nv, old(s))
    a._st.set(fn)


# -------------------------------------------------------------- reductions
def axis_size(a, axis):
    if axis is None:
        return a.size
    if isinstance(axis, (tuple, list)):
        r = 1
        for x in axis:
            r = r * a._shape[x]
        return r
    return a._shape[axis]


def sum_term(n, f):
    """Term of the sum of scalar values f(k) over 0<=k<n (finite)."""
    k = fresh_int('k')
    c = red.const_n(n)
    if c is not None:
        vals = [f(z3.IntVal(i)) for i in range(c)]
        r = 0
        for v in vals:
            r = r + (v if not isinstance(v, SBool) else v._num())
        return as_term(r)
    with quant(in_range(k, n)):
        v = lift(f(k))
    if isinstance(v, SBool):
        v = v._num()
    if isinstance(v, SInt):
        return red.mk_sumi_body(n, v.t, k)
    if has_cls(v):
        raise Unsupported("sum of non-finite values")
    return red.sum_body(n, toreal(v.t), k)


def wrap_sum(n, f, dtype=None):
    c = red.const_n(n)
    if c is not None:
        r = 0 if dtype is None or dtype.kind in 'iub' else SReal(RZERO)
        for i in range(c):
            v = f(z3.IntVal(i))
            r = r + v
        return r
    k = fresh_int('k')
    with quant(in_range(k, n)):
        v = lift(f(k))
    if isinstance(v, SBool):
        v = v._num()
    if not isinstance(v, (SInt, SReal)):
        raise Unsupported("sum of opaque values")
    if isinstance(v, SInt):
        return wrap(red.mk_sumi_body(n, v.t, k))
    t = red.sum_body(n, toreal(v.t), k)
    if has_cls(v):
        def anyc(code):
            p = teq(v.cls, z3.IntVal(code))
            if z3.is_false(simp(p)):
                return FALSE
            return tlt(red.first_body(n, simp(p), k), n)
        an, ap, am = anyc(NAN), anyc(PINF), anyc(NINF)
        cls = tite(tor(an, tand(ap, am)), z3.IntVal(NAN),
                   tite(ap, z3.IntVal(PINF), tite(am, z3.IntVal(NINF), ZERO)))
        return SReal(t, cls)
    return SReal(t, None, core.is_nn(v))


def reduce_(op, a, axis, keepdims=False):
    if isinstance(axis, SVal):
        raise Unsupported("symbolic axis")
    nd = a.ndim
    if axis is None:
        axes = list(range(nd))
    elif isinstance(axis, (tuple, list)):
        axes = [x % nd if -nd <= x < nd else bad_axis() for x in axis]
    else:
        if not -nd <= axis < nd:
            bad_axis()
        axes = [axis % nd]
    f = a.elem_fn()
    rest = [i for i in range(nd) if i not in axes]
    dims = [dim_t(a._shape[i]) for i in axes]
    d = a._dtype
    # empty reductions
    if op in ('max', 'min', 'argmax', 'argmin'):
        for n in dims:
            if not prove(tlt(ZERO, n)):
                if State.numba[-1]:
                    core.oblige("%s of a non-empty array" % op, wrap(tlt(ZERO, n)))
                elif State.quant_depth:
                    raise Unsupported("reduction of a possibly empty array")
                elif not decide(tlt(ZERO, n)):
                    raise ValueError("zero-size array to reduction operation")

    def build(idx, red_idx):
        out = [None] * nd
        for i, x in zip(rest, idx):
            out[i] = x
        for i, x in zip(axes, red_idx):
            out[i] = x
        return f(tuple(out))

    def value(idx):
        return reduce_scalar(op, dims, lambda r: build(idx, r), d)
    if op in ('argmax', 'argmin'):
        od = i8
    elif op in ('any', 'all'):
        od = bool_
    elif op == 'mean':
        od = d if d.kind == 'f' else f8
    elif op == 'sum':
        od = i8 if d.kind in 'bi' else (ints['uint64'] if d.kind == 'u' else d)
    else:
        od = d
    if not rest and not keepdims:
        return value(())
    if keepdims:
        shape = [1 if i in axes else a._shape[i] for i in range(nd)]
        return a.fresh(shape, lambda idx: value(tuple(idx[i] for i in rest)), od)
    return a.fresh([a._shape[i] for i in rest], value, od)


def bad_axis():
    raise ValueError("axis is out of bounds for array")


def total(dims):
    r = ONE
    for n in dims:
        r = tmul(r, n)
    return simp(r)


def reduce_scalar(op, dims, f, d):
    if op in ('sum', 'mean'):
        def rec(i, acc):
            if i == len(dims):
                return f(tuple(acc))
            return wrap_sum(dims[i], lambda k: rec(i + 1, acc + [k]), d)
        s = rec(0, [])
        if op == 'sum':
            return s
        return np_div(s, wrap(total(dims)))
    if op in ('any', 'all'):
        def rec(i, acc):
            if i == len(dims):
                p = bterm(f(tuple(acc)))
                return p if op == 'any' else tnot(p)
            return tlt(red.mk_first(dims[i], lambda k: rec(i + 1, acc + [k])), core.tmax(ZERO, dims[i]) if not prove(tle(ZERO, dims[i])) else dims[i])
        r = rec(0, [])
        return wrap(r if op == 'any' else tnot(r))
    sign = 1 if op in ('max', 'argmax') else -1

    def key(v):
        v = lift(v)
        if isinstance(v, SBool):
            v = v._num()
        if has_cls(v):
            with_c = simp(v.cls)
            if not prove(teq(with_c, ZERO)):
                raise Unsupported("%s over possibly non-finite values" % op)
        t = v.t
        return t if sign == 1 else simp_neg(t)
    if len(dims) == 1:
        am = red.mk_argmax(dims[0], lambda k: key(f((k,))))
        if op in ('argmax', 'argmin'):
            return wrap(am)
        if red.const_n(dims[0]) is not None:
            m = red.mk_max(dims[0], lambda k: key(f((k,))))
            m = m if sign == 1 else simp_neg(m)
            return wrap(m) if d.kind in 'iu' or m.sort() == I else SReal(toreal(m))
        with core.local_facts(in_range(am, dims[0])):
            return f((am,))
    # several axes: row-major linear index
    n = total(dims)

    def sp(i):
        out = []
        rest_ = i
        for dd in reversed(dims[1:]):
            out.insert(0, core.int_divmod('%', rest_, dd))
            rest_ = core.int_divmod('//', rest_, dd)
        return tuple([rest_] + out)
    if op in ('argmax', 'argmin'):
        return wrap(red.mk_argmax(n, lambda k: key(f(sp(k)))))
    # max of max
    def rec(i, acc):
        if i == len(dims):
            return key(f(tuple(acc)))
        return red.mk_max(dims[i], lambda k: rec(i + 1, acc + [k]))
    m = rec(0, [])
    m = m if sign == 1 else simp_neg(m)
    return wrap(m) if d.kind in 'iu' else SReal(toreal(m))


def simp_neg(t):
    if t.sort() == I:
        return simp(-t)
    return red.neg(t)


def sqrt_any(x):
    if isinstance(x, (SArr, Compressed)):
        return x.map(core.s_sqrt, f8 if x.dtype.kind != 'f' else x.dtype)
    return core.s_sqrt(x)


# ------------------------------------------------------------ constructors
def asarray(x, dtype=None, copy=False):
    d = as_dtype(dtype, None) if dtype is not None else None
    if isinstance(x, Compressed):
        return x if d is None else x.astype(d)
    if isinstance(x, SArr):
        if d is not None and d != x._dtype:
            return x.astype(d)
        return x.copy() if copy else x
    if hasattr(x, 'pv_array'):
        return asarray(x.pv_array(), dtype, copy)
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, (list, tuple)):
        items = [asarray(i) if isinstance(i, (list, tuple, range)) else i for i in x]
        if any(hasattr(i, 'pv_array') for i in items):
            items = [asarray(i) if hasattr(i, 'pv_array') else i for i in items]
        n = len(items)
        if n and any(isinstance(i, SArr) for i in items):
            if not all(isinstance(i, SArr) for i in items):
                items = [i if isinstance(i, SArr) else SArr.make((), lambda idx, i=i: i, dt_of_scalar(i)) for i in items]
            sh = items[0]._shape
            for it in items[1:]:
                if it.ndim != len(sh) or not all(dim_eq(p, q) for p, q in zip(it._shape, sh)):
                    raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
            dd = items[0]._dtype
            for it in items[1:]:
                dd = promote(dd, it._dtype)
            fs = [it.elem_fn() for it in items]
            dd = d or dd
            return SArr.make((n,) + tuple(sh), lambda idx: scalar_astype(select(fs, idx[0], lambda g: g(idx[1:])), dd), dd)
        if any(isinstance(i, Compressed) for i in items):
            raise Unsupported("array of filtered arrays")
        dd = d
        if dd is None:
            dd = None
            for i in items:
                k = str_ if isinstance(i, str) else dt_of_scalar(i)
                dd = k if dd is None else promote(dd, k)
            dd = dd or f8
        vals = [scalar_astype(i, dd) for i in items]
        return SArr.make((n,), lambda idx: select(vals, idx[0], lambda v: v), dd)
    if isinstance(x, (SVal, int, float, bool, Fraction)):
        dd = d or dt_of_scalar(x)
        v = scalar_astype(x, dd)
        return SArr.make((), lambda idx: v, dd)
    raise Unsupported("asarray(%s)" % type(x).__name__)


def select(vals, i, get):
    c = const_of(i)
    if c is not None and 0 <= c < len(vals):
        return get(vals[c])
    if not vals:
        return 0
    r = get(vals[-1])
    for j in reversed(range(len(vals) - 1)):
        r = s_ite(wrap(teq(i, z3.IntVal(j))), get(vals[j]), r)
    return r


def full(shape, v, dtype):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    for s in shape:
        if isinstance(s, (float, SReal)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if not prove(tle(ZERO, dim_t(s))):
            if decide(tlt(dim_t(s), ZERO)):
                raise ValueError("negative dimensions are not allowed")
    d = as_dtype(dtype)
    cv = scalar_astype(v, d)
    return SArr.make(tuple(shape), lambda idx: cv, d)


def empty(shape, dtype):
    """Uninitialised memory: arbitrary contents."""
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    d = as_dtype(dtype)
    return havoc(shape, d, 'empty')


def havoc(shape, d, name):
    name = fresh_name(name)
    n = len(shape)
    return SArr.make(tuple(shape), uf_elem(name, n, d), d, tag=name)


def uf_elem(name, n, d):
    if d.kind == 'b':
        s = B
    elif d.kind in 'iu':
        s = I
    elif d.kind == 'f':
        s = R
    else:
        s = U
    if n == 0:
        c = z3.Const(name, s)
        return lambda idx: wrap(c)
    f = z3.Function(name, *([I] * n), s)
    return lambda idx: wrap(f(*idx))


def repeat(a, r, axis=None):
    a = asarray(a)
    if isinstance(a, Compressed) or not is_int(r):
        raise Unsupported("repeat")
    if axis is None:
        a = a.ravel()
        axis = 0
    f = a.elem_fn()
    rt = iterm(r)
    axis = axis % a.ndim
    n = dim_t(a._shape[axis])
    shape = list(a._shape)
    shape[axis] = wrap(tmul(n, rt))

    def fn(idx):
        i = list(idx)
        i[axis] = core.int_divmod('//', i[axis], rt)
        return f(tuple(i))
    return a.fresh(shape, fn, a._dtype)
