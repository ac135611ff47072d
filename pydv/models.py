"""Models of Python's builtins for the interpreter."""
import ast
import builtins as _b
import types
import functools
import collections
from fractions import Fraction
import z3
from . import core, red, arr, loops
from .core import (Unsupported, EngineExc, PathAbort, State, SVal, SBool, SInt, SReal, SNum, SObj,
                   decide, prove, wrap, bterm, iterm, as_term, const_of, tand, tor, tnot, teq, tlt, tle,
                   tite, s_ite, lift, ZERO, ONE, I, R, B, U)
from .arr import SArr, Compressed, DT, asarray, dim_t, in_range
from .loops import Seg, SymSeq, SymRange, GenResult, YieldList, SOpt, segments, concrete_iter, to_list, seq_len, has_seg


class SymStr:
    """String with symbolic parts."""
    pv_immutable = True

    def __init__(self, parts):
        self.parts = parts

    def pv_eq(self, o):
        if isinstance(o, SymStr) and len(o.parts) == len(self.parts):
            r = True
            for a, b in zip(self.parts, o.parts):
                if isinstance(a, str) != isinstance(b, str):
                    raise Unsupported("comparison of symbolic strings")
                if isinstance(a, str):
                    if a != b:
                        raise Unsupported("comparison of symbolic strings")
                else:
                    r = b_and(r, a == b)
            return r
        raise Unsupported("comparison of symbolic strings")

    def __eq__(self, o):
        return self.pv_eq(o)

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def pv_subst(self, sub):
        return SymStr([loops.subst_value(p, sub) for p in self.parts])

    def __add__(self, o):
        return join_str([self, o])

    def __radd__(self, o):
        return join_str([o, self])

    def __repr__(self):
        return "SymStr(%r)" % (self.parts,)


def b_and(a, b):
    return wrap(tand(bterm(a), bterm(b)))


def b_or(a, b):
    return wrap(tor(bterm(a), bterm(b)))


def fmt(x, spec='', conv=-1):
    if isinstance(x, (SVal, SArr)) or isinstance(x, SymStr):
        if isinstance(x, SVal) and not isinstance(x, (SObj, SOpt)):
            c = const_of(x.t) if not core.has_cls(x) else None
            if c is not None and isinstance(x, SInt):
                return format(int(c), spec)
            if c is not None and isinstance(x, SReal):
                return format(float(c), spec)
        return SymStr([x])
    if isinstance(x, (list, dict, tuple, set)):
        return SymStr([x])
    if conv == ord('r'):
        return format(repr(x), spec)
    m = getattr(type(x), '__str__', None)
    if isinstance(x, (str, int, float, type(None), type)):
        return format(str(x) if spec == '' else x, spec)
    if isinstance(x, DT):
        return x.name
    return SymStr([x]) if m is object.__str__ else format(m(x), spec)


def join_str(parts):
    out = []
    for p in parts:
        if isinstance(p, SymStr):
            out.extend(p.parts)
        elif out and isinstance(out[-1], str) and isinstance(p, str):
            out[-1] += p
        else:
            out.append(p)
    if all(isinstance(p, str) for p in out):
        return ''.join(out)
    return SymStr(out)


def str_mod(a, b):
    args = b if isinstance(b, tuple) else (b,)
    if any(isinstance(x, (SVal, SArr, SymStr)) for x in args):
        return SymStr([a] + list(args))
    return a % b


def str_format(s, *args, **kw):
    vals = list(args) + list(kw.values())
    if any(isinstance(x, (SVal, SArr, SymStr, list, dict)) for x in vals):
        return SymStr([s] + vals)
    return s.format(*args, **kw)


def num_fold(op, a, b):
    """Constant arithmetic of floats, exactly."""
    if isinstance(a, float) or isinstance(b, float) or isinstance(op, ast.Div):
        for x in (a, b):
            if isinstance(x, float) and (x != x or x in (float('inf'), -float('inf'))):
                return None
        fa, fb = Fraction(a), Fraction(b)
        # exactly representable results stay floats
        f = {ast.Add: lambda: fa + fb, ast.Sub: lambda: fa - fb, ast.Mult: lambda: fa * fb}
        if type(op) in f:
            r = f[type(op)]()
        else:
            if fb == 0:
                return None
            r = fa / fb
        x = float(r)
        if Fraction(x) == r:
            return x
        return SReal(core.rv(r))
    return None


def same_number(a, b):
    return isinstance(a, (SVal, int, float)) and isinstance(b, (SVal, int, float))


def is_(a, b):
    if isinstance(a, SOpt):
        return a == b
    if isinstance(b, SOpt):
        return b == a
    if isinstance(a, SBool) and isinstance(b, bool) or isinstance(b, SBool) and isinstance(a, bool):
        return wrap(teq(bterm(a), bterm(b)))
    if a is None or b is None:
        return a is b
    if isinstance(a, SVal) and isinstance(b, SVal) and a is not b:
        raise Unsupported("identity of numbers")
    return a is b


def eq_values(a, b):
    """a == b as used by `in`, list equality..."""
    if a is b and not isinstance(a, (float, SReal)):
        return True
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return seq_eq(a, b)
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        if isinstance(a, SymStr):
            return a.pv_eq(b)
        return b.pv_eq(a)
    r = a == b
    if isinstance(r, SArr):
        raise Unsupported("array compared in a container")
    return r


def seq_eq(a, b):
    if isinstance(a, tuple) != isinstance(b, tuple):
        return False
    if has_seg(a) or has_seg(b):
        raise Unsupported("comparison of symbolic lists")
    if len(a) != len(b):
        return False
    r = True
    for x, y in zip(a, b):
        e = eq_values(x, y)
        if e is False:
            return False
        r = b_and(r, e)
    return r


def contains(c, x):
    if isinstance(c, (str, bytes)):
        if isinstance(x, SymStr):
            raise Unsupported("substring test of a symbolic string")
        return x in c
    if isinstance(c, (list, tuple, set, frozenset, dict)) or type(c).__name__ in ('dict_keys', 'dict_values', 'dict_items'):
        if isinstance(x, (SVal, SymStr)) or any(isinstance(y, SVal) for y in c):
            r = False
            for y in c:
                if isinstance(y, Seg):
                    r = b_or(r, any_seq(y.seq, lambda e: eq_values(e, x)))
                    continue
                if isinstance(y, str) and isinstance(x, SVal):
                    continue
                if (y is None) != (x is None):
                    continue
                r = b_or(r, eq_values(y, x))
            return r
        if isinstance(c, (list, tuple)):
            r = False
            for y in c:
                if isinstance(y, Seg):
                    r = b_or(r, any_seq(y.seq, lambda e: eq_values(e, x)))
                    continue
                e = eq_values(y, x)
                if e is True:
                    return True
                r = b_or(r, e)
            return r
        return x in c
    if isinstance(c, range) and isinstance(x, SVal):
        if c.step == 1:
            return b_and(wrap(tle(z3.IntVal(c.start), iterm(x))), wrap(tlt(iterm(x), z3.IntVal(c.stop))))
        raise Unsupported("in range")
    if isinstance(c, SymRange):
        if c.step == 1:
            return wrap(tand(tle(c.start, iterm(x)), tlt(iterm(x), c.stop)))
        raise Unsupported("in range")
    if isinstance(c, SArr):
        if c.ndim != 1:
            c = c.ravel()
        return (c == x).any()
    if isinstance(c, Compressed):
        return wrap(tlt(red.mk_first(dim_t(c.n), lambda k: tand(c.cond(k), bterm(c.elem(k) == x))), dim_t(c.n)))
    m = getattr(type(c), 'pv_contains', None) or getattr(type(c), '__contains__', None)
    if m is not None:
        return m(c, x)
    r = False
    for y in concrete_iter(c):
        r = b_or(r, eq_values(y, x))
    return r


def any_seq(s, f):
    n = s.n
    k = core.fresh_int('q')
    with arr.quant(in_range(k, n)):
        c = core.TRUE if s.cond is None else s.cond(k)
        with core.local_facts(c):
            p = tand(c, bterm(f(s.elem(k))))
    return wrap(tlt(red.first_body(n, p, k), red.clamp0(n)))


# ---------------------------------------------------------------- container
def container_attr(o, name):
    if isinstance(o, list):
        return list_attr(o, name)
    if isinstance(o, dict):
        return dict_attr(o, name)
    if isinstance(o, set):
        if name in ('add', 'update', 'discard', 'remove', 'pop', 'clear'):
            from .interp import snapshot

            def f(*a):
                snapshot(o)
                return getattr(o, name)(*[concrete_iter(x) if name == 'update' else x for x in a])
            return f
        return None
    if isinstance(o, str):
        if name == 'format':
            return functools.partial(str_format, o)
        if name == 'join':
            return lambda it: join_str(sum(([o, x] for x in concrete_iter(it)), [])[1:])
        return None
    if isinstance(o, tuple):
        if name == 'index':
            return lambda x: list_index(o, x)
        return None
    return None


def list_index(o, x):
    for i, y in enumerate(o):
        if isinstance(y, Seg):
            raise Unsupported("index in a symbolic list")
        if truth(eq_values(y, x)):
            return i
    raise ValueError("%r is not in list" % (x,))


def truth(v):
    return INTERP.truth(v)


def list_attr(o, name):
    from .interp import snapshot
    if type(o) is not list and name in type(o).__dict__:
        return None
    if name == 'append':
        def append(x):
            snapshot(o)
            list.append(o, x)
        return append
    if name == 'extend':
        def extend(x):
            v = to_list(x)
            snapshot(o)
            list.extend(o, v)
        return extend
    if name == 'index':
        return lambda x: list_index(o, x)
    if name == 'copy':
        from .interp import born
        return lambda: born(list(o))
    if name == 'sort':
        def sort(key=None, reverse=False):
            v = b_sorted(o, key=key, reverse=reverse)
            snapshot(o)
            o[:] = v
        return sort
    if name in ('insert', 'pop', 'remove', 'clear', 'reverse', 'count'):
        def f(*a):
            if has_seg(o) and name != 'clear':
                raise Unsupported("list.%s on a symbolic list" % name)
            snapshot(o)
            return getattr(list, name)(o, *a)
        return f
    return None


def dict_key(o, k):
    """The existing key of o equal to k (symbolic keys are compared)."""
    if isinstance(k, SymStr):
        for kk in o:
            if isinstance(kk, SymStr) or isinstance(kk, SymStrKey):
                pass
        raise Unsupported("symbolic string as dictionary key")
    if isinstance(k, SVal) and not isinstance(k, SOpt):
        for kk in list(dict.keys(o)):
            if isinstance(kk, (int, float, SVal)):
                if kk is k or decide(bterm(k == kk)):
                    return kk
        return k
    if isinstance(k, (int, float)) and any(isinstance(kk, SVal) for kk in dict.keys(o)):
        for kk in list(dict.keys(o)):
            if isinstance(kk, (int, float, SVal)):
                if decide(bterm(kk == k)):
                    return kk
        return k
    if isinstance(k, tuple) and any(isinstance(x, SVal) for x in k):
        raise Unsupported("tuple with symbolic numbers as dictionary key")
    return k


class SymStrKey:
    pass


def dict_attr(o, name):
    from .interp import snapshot, born
    if name == 'get':
        def get(k, d=None):
            kk = dict_key(o, k)
            return dict.__getitem__(o, kk) if dict.__contains__(o, kk) else d
        return get
    if name == 'update':
        def update(*a, **kw):
            snapshot(o)
            for m in a:
                if hasattr(m, 'keys'):
                    for k in concrete_iter(m.keys()):
                        dict.__setitem__(o, dict_key(o, k), getitem(m, k))
                else:
                    for k, v in concrete_iter(m):
                        dict.__setitem__(o, dict_key(o, k), v)
            dict.update(o, **kw)
        return update
    if name == 'setdefault':
        def setdefault(k, d=None):
            kk = dict_key(o, k)
            if not dict.__contains__(o, kk):
                snapshot(o)
                dict.__setitem__(o, kk, d)
            return dict.__getitem__(o, kk)
        return setdefault
    if name == 'pop':
        def pop(k, *d):
            kk = dict_key(o, k)
            if not dict.__contains__(o, kk):
                if d:
                    return d[0]
                raise KeyError(k)
            snapshot(o)
            return dict.pop(o, kk)
        return pop
    if name in ('clear', 'popitem'):
        def f():
            snapshot(o)
            return getattr(dict, name)(o)
        return f
    if name == 'copy':
        return lambda: born(_copy_dict(o))
    return None


def _copy_dict(o):
    if isinstance(o, collections.defaultdict):
        r = collections.defaultdict(o.default_factory)
        dict.update(r, o)
        return r
    return dict(o)


def number_attr(o, name):
    if isinstance(o, (int, float)):
        if name == 'astype':
            return lambda d, **k: arr.scalar_astype(o, arr.as_dtype(d))
        if name == 'item':
            return lambda: o
        if name in ('mean', 'sum', 'max', 'min', 'copy', 'squeeze'):
            return lambda *a, **k: o
        if name == 'shape':
            return ()
        if name == 'ndim':
            return 0
        if name in ('size',):
            return 1
        if name == 'dtype':
            return arr.dt_of_scalar(o)
        return None
    if isinstance(o, (SInt, SReal, SBool)):
        if name in ('mean', 'squeeze'):
            return lambda *a, **k: o
        if name == 'size':
            return 1
        if name == 'dtype':
            return arr.dt_of_scalar(o)
        if name == 'is_integer' and isinstance(o, SReal):
            return lambda: wrap(teq(core.toreal(core.floor_term(o.t)), o.t))
        if name in ('real',):
            return o
    return None


# ----------------------------------------------------------------- indexing
def seg_get(o, i):
    """o[i] of a list with symbolic stretches."""
    n = iterm(seq_len(o))
    t = arr.norm_index(i, n, 'list index')
    off = ZERO
    cases = []
    for x in o:
        if isinstance(x, Seg):
            s = x.seq
            ln = iterm(s.pv_len())
            j = core.simp(core.tsub(t, off))
            inside = tand(tle(off, t), tlt(t, core.tadd(off, ln)))
            if prove(inside):
                if s.cond is None:
                    return s.elem(j)
                raise Unsupported("index into a filtered sequence")
            cases.append((inside, s, j))
            off = core.simp(core.tadd(off, ln))
        else:
            if prove(teq(t, off)):
                return x
            cases.append((teq(t, off), None, x))
            off = core.simp(core.tadd(off, ONE))
    for c, s, j in cases[:-1]:
        if decide(c):
            return j if s is None else (s.elem(j) if s.cond is None else _nocond())
    c, s, j = cases[-1]
    return j if s is None else (s.elem(j) if s.cond is None else _nocond())


def _nocond():
    raise Unsupported("index into a filtered sequence")


def getitem(o, k):
    if isinstance(o, SArr):
        return arr.getitem(o, k)
    if isinstance(o, (list, tuple)) and not _user_getitem(o):
        if isinstance(k, slice):
            if has_seg(o):
                return seg_slice(o, k)
            sl = [None if x is None else conc_int(x) for x in (k.start, k.stop, k.step)]
            r = o[slice(*sl)]
            if isinstance(r, list):
                from .interp import born
                born(r)
            return r
        if isinstance(k, SArr) and k.ndim == 0:
            k = k.at()
        if isinstance(k, bool):
            k = int(k)
        if has_seg(o):
            return seg_get(o, k)
        if isinstance(k, SBool):
            k = k._num()
        if isinstance(k, SInt):
            t = arr.norm_index(k, z3.IntVal(len(o)), 'list index')
            c = const_of(t)
            if c is not None:
                return o[c]
            if all(isinstance(x, (SVal, int, float, bool)) and not isinstance(x, (SOpt,)) for x in o):
                return arr.select(list(o), t, lambda v: v)
            for i in range(len(o) - 1):
                if decide(teq(t, z3.IntVal(i))):
                    return o[i]
            return o[len(o) - 1]
        if isinstance(k, (float, SReal)) or not hasattr(k, '__index__'):
            raise TypeError("list indices must be integers or slices, not %s" % type(k).__name__)
        return o[k]
    if isinstance(o, dict) and not _user_getitem(o):
        kk = dict_key(o, k)
        if not dict.__contains__(o, kk) and isinstance(o, collections.defaultdict) and o.default_factory:
            from .interp import snapshot
            snapshot(o)
            v = INTERP.call(o.default_factory, (), {})
            dict.__setitem__(o, kk, v)
            return v
        return dict.__getitem__(o, kk)
    if isinstance(o, str):
        if isinstance(k, SVal):
            k = conc_int(k)
        return o[k]
    if isinstance(o, range):
        if isinstance(k, SInt):
            return SymRange(z3.IntVal(o.start), z3.IntVal(o.stop), o.step)[k]
        return o[k]
    if isinstance(o, (Compressed, SymRange)):
        return o[k]
    if isinstance(o, type) and hasattr(o, '__class_getitem__'):
        return o
    if isinstance(o, core.SNum):
        raise TypeError("'%s' object is not subscriptable" % type(o).__name__)
    m = getattr(type(o), '__getitem__', None)
    if m is None:
        from .interp import is_model
        if is_model(o) and not isinstance(o, SVal):
            raise Unsupported("subscript of a " + type(o).__name__)
        raise TypeError("'%s' object is not subscriptable" % type(o).__name__)
    return m(o, k)


def seg_slice(o, k):
    if k.step not in (None, 1) or len(o) != 1 or o[0].seq.cond is not None:
        if k.start is None and k.stop is None and k.step in (None, 1):
            return list(o)
        raise Unsupported("slice of a symbolic list")
    s = o[0].seq
    st, step, n = arr.norm_slice(k, red.clamp0(s.n))
    return [Seg(SymSeq(dim_t(n), lambda j: s.elem(core.simp(core.tadd(st, j)))))]


def slice_indices(sl):
    """slice.indices with symbolic length or bounds."""
    def indices(n):
        if isinstance(n, int) and all(x is None or isinstance(x, int) for x in (sl.start, sl.stop, sl.step)):
            return sl.indices(n)
        a, step, ln = arr.norm_slice(sl, iterm(n))
        return (wrap(a), wrap(core.simp(core.tadd(a, core.tmul(z3.IntVal(step), ln)))), step)
    return indices


def _user_getitem(o):
    t = type(o)
    return t not in (list, tuple, dict, collections.defaultdict, collections.OrderedDict) and \
        getattr(t.__dict__.get('__getitem__'), '_pv_node', None) is not None


def conc_int(x):
    if isinstance(x, int):
        return x
    c = const_of(iterm(x))
    if c is None:
        c = red_unique(iterm(x))
    if c is None:
        raise Unsupported("symbolic bound in a list slice")
    return c


def red_unique(t):
    """The only value t can have on this path, if small."""
    for v in range(-2, 41):
        if prove(teq(t, z3.IntVal(v))):
            return v
    return None


def setitem(o, k, v):
    from .interp import snapshot
    if isinstance(o, SArr):
        arr.setitem(o, k, v)
        return
    if isinstance(o, list):
        if has_seg(o):
            raise Unsupported("assignment into a symbolic list")
        if isinstance(k, slice):
            k = slice(*[None if x is None else conc_int(x) for x in (k.start, k.stop, k.step)])
            v = concrete_iter(v)
        elif isinstance(k, SVal):
            t = arr.norm_index(k, z3.IntVal(len(o)), 'list assignment index')
            c = const_of(t)
            snapshot(o)
            if c is None:
                for i in range(len(o)):
                    o[i] = s_ite(wrap(teq(t, z3.IntVal(i))), v, o[i])
                return
            k = c
        snapshot(o)
        o[k] = v
        return
    if isinstance(o, dict) and type(o) in (dict, collections.defaultdict, collections.OrderedDict):
        snapshot(o)
        dict.__setitem__(o, dict_key(o, k), v)
        return
    m = getattr(type(o), '__setitem__', None)
    if m is None:
        from .interp import is_model
        if is_model(o) and not isinstance(o, SVal):
            raise Unsupported("item assignment of a " + type(o).__name__)
        raise TypeError("'%s' object does not support item assignment" % type(o).__name__)
    if isinstance(o, dict):
        snapshot(o)
    m(o, k, v)


# ----------------------------------------------------------------- builtins
def b_range(*a):
    a = [x.at() if isinstance(x, SArr) and x.ndim == 0 else x for x in a]
    for x in a:
        if isinstance(x, (float, SReal)):
            if State.numba[-1]:
                raise Unsupported("float range in numba")
            raise TypeError("'float' object cannot be interpreted as an integer")
    if all(isinstance(x, int) for x in a):
        return range(*a)
    a = [x._num() if isinstance(x, SBool) else x for x in a]
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    cs = const_of(iterm(step))
    if cs is None:
        raise Unsupported("range with symbolic step")
    if cs == 0:
        raise ValueError("range() arg 3 must not be zero")
    return SymRange(iterm(start), iterm(stop), cs)


def b_len(o):
    if isinstance(o, (SArr, Compressed, SymSeq)):
        return o.pv_len()
    if isinstance(o, list) and has_seg(o):
        return wrap(iterm(seq_len(o)))
    m = getattr(type(o), 'pv_len', None)
    if m is not None:
        return m(o)
    if isinstance(o, (list, tuple, dict, str, set, frozenset, range, bytes)):
        return len(o)
    m = getattr(type(o), '__len__', None)
    if m is None:
        from .interp import is_model
        if is_model(o) and not isinstance(o, SVal):
            raise Unsupported("length of a " + type(o).__name__)
        raise TypeError("object of type '%s' has no len()" % type(o).__name__)
    r = m(o)
    if isinstance(r, (SInt, int)):
        return r
    raise TypeError("'%s' object cannot be interpreted as an integer" % type(r).__name__)


def b_int(x=0, *a):
    if isinstance(x, SArr):
        x = x.item()
    if isinstance(x, (SInt, SReal, SBool)):
        return core.s_trunc(x) if isinstance(x, SReal) else (x._num() if isinstance(x, SBool) else x)
    if isinstance(x, Fraction):
        return int(x)
    if isinstance(x, SVal):
        raise Unsupported("int() of an opaque value")
    m = getattr(type(x), 'pv_int', None)
    if m is not None and not a:
        return m(x)
    m = getattr(type(x), '__int__', None)
    if getattr(m, '_pv_node', None):
        return m(x)
    return int(x, *a)


def b_float(x=0.0):
    if isinstance(x, SArr):
        x = x.item()
    if isinstance(x, SReal):
        return x
    if isinstance(x, (SInt, SBool)):
        return SReal(core.toreal(iterm(x)))
    if isinstance(x, int):
        return float(x)
    if isinstance(x, SVal):
        raise Unsupported("float() of an opaque value")
    return float(x)


def b_bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, (SInt, SReal)):
        return wrap(bterm(x))
    if x is None:
        return False
    if isinstance(x, SArr):
        return truth(x)
    if isinstance(x, (list,)) and has_seg(x):
        return wrap(tlt(ZERO, iterm(seq_len(x))))
    m = getattr(type(x), '__bool__', None)
    if m is not None:
        return m(x)
    if hasattr(type(x), '__len__') or hasattr(type(x), 'pv_len'):
        return b_bool(b_len(x))
    return True


def b_abs(x):
    if isinstance(x, (Compressed,)):
        return x.map(abs, x.dtype)
    return abs(x)


def _minmax(args, kw, name):
    key = kw.get('key')
    if len(args) == 1:
        a = args[0]
        if isinstance(a, (SArr, Compressed)) and key is None:
            if isinstance(a, SArr) and a.ndim == 1:
                return getattr(a, name)()
        segs = segments(a)
        if any(k == 'sym' for k, _ in segs):
            if key is not None or len(segs) != 1:
                raise Unsupported(name + " of a symbolic sequence")
            s = segs[0][1]
            if s.cond is not None:
                raise Unsupported(name + " of a filtered sequence")
            if not decide(tlt(ZERO, s.n)):
                if 'default' in kw:
                    return kw['default']
                raise ValueError("%s() arg is an empty sequence" % name)
            la = SArr.make((wrap(s.n),), lambda ix: s.elem(ix[0]), arr.f8)
            k0 = core.fresh_int('q')
            with arr.quant(in_range(k0, s.n)):
                e = lift(s.elem(k0))
            if isinstance(e, SInt):
                la._dtype = arr.i8
            return getattr(la, name)()
        items = segs[0][1] if segs else []
        if not items:
            if 'default' in kw:
                return kw['default']
            raise ValueError("%s() arg is an empty sequence" % name)
    else:
        items = list(args)
    if any(isinstance(x, SArr) for x in items):
        items = [x.item() if isinstance(x, SArr) and x.ndim == 0 else x for x in items]
    best = items[0]
    bk = INTERP.call(key, (best,), {}) if key else best
    for x in items[1:]:
        xk = INTERP.call(key, (x,), {}) if key else x
        c = (xk < bk) if name == 'min' else (xk > bk)
        if isinstance(c, bool):
            if c:
                best, bk = x, xk
            continue
        if key is None and isinstance(x, (SVal, int, float)) and isinstance(best, (SVal, int, float)):
            best = bk = s_ite(c, x, best)
        elif truth(c):
            best, bk = x, xk
    return best


def b_min(*a, **k):
    return _minmax(a, k, 'min')


def b_max(*a, **k):
    return _minmax(a, k, 'max')


def b_sum(it, start=0):
    r = start
    for kind, s in segments(it):
        if kind == 'items':
            for x in s:
                r = r + x
        else:
            k0 = core.fresh_int('q')
            with arr.quant(in_range(k0, s.n)):
                c = core.TRUE if s.cond is None else s.cond(k0)
                with core.local_facts(c):
                    e = s.elem(k0)
            if isinstance(e, SArr):
                if s.cond is not None:
                    raise Unsupported("sum of filtered arrays")
                sh = e._shape
                dt = e._dtype

                def fn(ix, s=s):
                    def el(k):
                        v = s.elem(k)
                        return v.elem_fn()(ix)
                    return arr.wrap_sum(red.clamp0(s.n), el, dt)
                r = r + SArr.make(sh, fn, dt)
                continue
            if s.cond is None:
                r = r + arr.wrap_sum(red.clamp0(s.n), s.elem)
            else:
                def el(k, s=s):
                    c = s.cond(k)
                    with core.local_facts(c):
                        v = s.elem(k)
                    return s_ite(wrap(c), v, 0)
                r = r + arr.wrap_sum(red.clamp0(s.n), el)
    return r


def b_any(it):
    r = False
    for kind, s in segments(it):
        if kind == 'items':
            for x in s:
                if isinstance(x, SVal):
                    r = b_or(r, wrap(bterm(x)))
                elif truth(x):
                    return True
        else:
            r = b_or(r, any_seq(s, lambda e: e))
    return r


def b_all(it):
    r = True
    for kind, s in segments(it):
        if kind == 'items':
            for x in s:
                if isinstance(x, SVal):
                    r = b_and(r, wrap(bterm(x)))
                elif not truth(x):
                    return False
        else:
            r = b_and(r, core.snot(any_seq(s, lambda e: core.snot(wrap(bterm(e))))))
    return r


def _as_seq(v):
    """(items, None) or (None, SymSeq)"""
    segs = segments(v)
    if all(k == 'items' for k, _ in segs):
        out = []
        for _, s in segs:
            out.extend(s)
        return out, None
    if len(segs) == 1:
        return None, segs[0][1]
    raise Unsupported("mixed symbolic sequence")


def b_enumerate(it, start=0):
    items, s = _as_seq(it)
    if s is None:
        return [(wrap(iterm(start)) + i if not isinstance(start, int) else start + i, x) for i, x in enumerate(items)]
    if s.cond is not None:
        raise Unsupported("enumerate of a filtered sequence")
    st = iterm(start)
    return SymSeq(s.n, lambda k: (wrap(core.simp(core.tadd(k, st))), s.elem(k)))


def b_zip(*its, strict=False):
    if not its:
        return []
    ps = [_as_seq(i) for i in its]
    if all(s is None for _, s in ps):
        return list(zip(*[i for i, _ in ps]))
    n = None
    fs = []
    for items, s in ps:
        if s is None:
            ln = z3.IntVal(len(items))
            fs.append(lambda k, items=items: getitem(items, wrap(k)))
        else:
            if s.cond is not None:
                raise Unsupported("zip of a filtered sequence")
            ln = s.n
            fs.append(s.elem)
        if n is None:
            n = ln
        elif not n.eq(ln) and not prove(teq(n, ln)):
            n = core.tmin(n, ln)
    return SymSeq(n, lambda k: tuple(f(k) for f in fs))


def b_map(f, *its):
    if len(its) == 1:
        items, s = _as_seq(its[0])
        if s is None:
            return [INTERP.call(f, (x,), {}) for x in items]
        return SymSeq(s.n, lambda k: INTERP.call(f, (s.elem(k),), {}), s.cond)
    z = b_zip(*its)
    if isinstance(z, list):
        return [INTERP.call(f, x, {}) for x in z]
    return SymSeq(z.n, lambda k: INTERP.call(f, z.elem(k), {}))


def b_filter(f, it):
    items, s = _as_seq(it)
    if s is None:
        return [x for x in items if truth(x if f is None else INTERP.call(f, (x,), {}))]
    raise Unsupported("filter of a symbolic sequence")


def b_sorted(it, key=None, reverse=False):
    items = concrete_iter(it)
    ks = [INTERP.call(key, (x,), {}) if key else x for x in items]
    if any(isinstance(k, SVal) for k in ks):
        # insertion sort by branching
        out = []
        for x, kx in zip(items, ks):
            i = 0
            while i < len(out) and not truth((out[i][1] < kx) if reverse else (kx < out[i][1])):
                i += 1
            out.insert(i, (x, kx))
        return [x for x, _ in out]
    order = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(reverse))
    from .interp import born
    return born([items[i] for i in order])


def b_reversed(o):
    if isinstance(o, SymRange):
        if o.step == 1:
            return SymRange(core.simp(o.stop - 1), core.simp(o.start - 1), -1)
        if o.step == -1:
            return SymRange(core.simp(o.stop + 1), core.simp(o.start + 1), 1)
    items, s = _as_seq(o)
    if s is None:
        return list(reversed(items))
    if s.cond is not None:
        raise Unsupported("reversed filtered sequence")
    return SymSeq(s.n, lambda k: s.elem(core.simp(s.n - 1 - k)))


def b_list(it=()):
    from .interp import born
    return born(to_list(it))


def b_tuple(it=()):
    l = to_list(it)
    if has_seg(l):
        raise Unsupported("tuple of symbolic length")
    return tuple(l)


def b_set(it=()):
    from .interp import born
    l = concrete_iter(it)
    if any(isinstance(x, SVal) for x in l):
        out = []
        for x in l:
            if not truth(contains(out, x)):
                out.append(x)
        return born(set(out))
    return born(set(l))


def b_dict(*a, **k):
    from .interp import born
    d = {}
    dict_attr(d, 'update')(*a, **k)
    return born(d)


def b_isinstance(o, t):
    if isinstance(t, tuple):
        r = False
        for x in t:
            v = b_isinstance(o, x)
            if v is True:
                return True
            r = r or v
        return r
    if isinstance(t, types.UnionType):
        return b_isinstance(o, t.__args__)
    if isinstance(t, DT):
        if isinstance(o, SVal) or isinstance(o, (int, float)):
            raise Unsupported("isinstance with a numpy type")
        return False
    m = getattr(t, 'pv_instancecheck', None)
    if m is not None:
        return m(o)
    if t is int:
        return isinstance(o, (int, SInt, SBool))
    if t is float:
        return isinstance(o, (float, SReal, Fraction))
    if t is bool:
        return isinstance(o, (bool, SBool))
    if t is str:
        return isinstance(o, (str, SymStr))
    if t is type(None):
        return o is None
    if t is slice:
        return isinstance(o, slice)
    if t is object:
        return True
    if isinstance(o, SVal):
        return False
    if t is SArr:
        return isinstance(o, (SArr, Compressed))
    return isinstance(o, t)


def b_type(*a):
    if len(a) == 3:
        return type(*a)
    o = a[0]
    if isinstance(o, SInt):
        return int
    if isinstance(o, SReal):
        return float
    if isinstance(o, SBool):
        return bool
    if isinstance(o, SymStr):
        return str
    return type(o)


def b_getattr(o, name, *d):
    try:
        return INTERP.getattr(o, name)
    except AttributeError:
        if d:
            return d[0]
        raise


def b_hasattr(o, name):
    try:
        INTERP.getattr(o, name)
        return True
    except AttributeError:
        return False


def b_setattr(o, name, v):
    INTERP.setattr(o, name, v)


def b_round(x, nd=None):
    if nd is None or nd == 0:
        if isinstance(x, SVal):
            return core.round_half_even(x)
        return round(x) if nd is None else round(x, nd)
    if isinstance(x, SVal):
        raise Unsupported("round to digits")
    return round(x, nd)


def b_pow(a, b, m=None):
    return lift(a) ** b if isinstance(a, SVal) or isinstance(b, SVal) else pow(a, b)


def b_divmod(a, b):
    return (a // b, a % b)


def b_iter(o):
    m = getattr(type(o), '__iter__', None)
    if getattr(m, '_pv_node', None):
        return m(o)
    return GenResult(to_list(o))


def b_next(it, *d):
    m = getattr(type(it), '__next__', None)
    if m is None:
        raise TypeError("'%s' object is not an iterator" % type(it).__name__)
    try:
        return m(it)
    except StopIteration:
        if d:
            return d[0]
        raise


def b_callable(o):
    return callable(o)


def b_str(x=''):
    return fmt(x)


def b_print(*a, **k):
    return None


def b_open(*a, **k):
    h = State.vfs
    if h is None:
        raise Unsupported("open()")
    return h.open(*a, **k)


def b_id(o):
    return id(o)


def b_super(*a):
    return super(*a)


def b_slice(*a):
    return slice(*a)


def b_vars(o):
    return vars(o)


CALLS = {int: b_int, float: b_float, bool: b_bool, str: b_str, list: b_list, tuple: b_tuple, set: b_set,
         frozenset: lambda it=(): frozenset(concrete_iter(it)), dict: b_dict, type: b_type, slice: slice,
         range: b_range, enumerate: b_enumerate, zip: b_zip, map: b_map, filter: b_filter, reversed: b_reversed,
         super: b_super}

BUILTINS = dict(range=range, len=b_len, int=int, float=float, bool=bool, str=str, list=list, tuple=tuple, set=set,
                frozenset=frozenset, dict=dict, type=type, slice=slice, enumerate=enumerate, zip=zip, map=map,
                filter=filter, reversed=reversed, abs=b_abs, min=b_min, max=b_max, sum=b_sum, any=b_any, all=b_all,
                sorted=b_sorted, isinstance=b_isinstance, issubclass=issubclass, getattr=b_getattr, hasattr=b_hasattr,
                setattr=b_setattr, round=b_round, pow=b_pow, divmod=b_divmod, iter=b_iter, next=b_next,
                callable=b_callable, print=b_print, open=b_open, id=b_id, super=super, object=object,
                property=property, staticmethod=staticmethod, classmethod=classmethod, NotImplemented=NotImplemented,
                Ellipsis=Ellipsis, repr=lambda x: fmt(x, '', ord('r')), vars=b_vars, bytes=bytes, complex=complex,
                chr=chr, ord=ord, format=lambda x, s='': fmt(x, s), hash=hash, dir=dir)

INTERP = None


def call(interp, fn, args, kw):
    global INTERP
    INTERP = interp
    try:
        r = CALLS.get(fn)
    except TypeError:
        r = None
    if r is not None:
        return r(*args, **kw)
    m = getattr(fn, 'pv_call', None)
    if m is not None and not isinstance(fn, type):
        return m(*args, **kw)
    if not callable(fn):
        from .interp import is_model
        if is_model(fn) and not isinstance(fn, SVal):
            raise Unsupported("call of a " + type(fn).__name__)
        raise TypeError("'%s' object is not callable" % type(fn).__name__)
    if isinstance(fn, type) and issubclass(fn, (list, dict)) and fn in (collections.OrderedDict, collections.defaultdict):
        from .interp import born
        if fn is collections.defaultdict:
            d = collections.defaultdict(*args[:1])
            dict_attr(d, 'update')(*args[1:], **kw)
        else:
            d = collections.OrderedDict()
            dict_attr(d, 'update')(*args, **kw)
        return born(d)
    r = fn(*args, **kw)
    if isinstance(fn, type):
        from .interp import born
        born(r)
    return r
