"""Symbolic scalars, path exploration and obligations."""
import z3
from fractions import Fraction


class EngineExc(BaseException):
    pass


class Unsupported(EngineExc):
    """The code uses something the verifier has no semantics for."""


class PathAbort(EngineExc):
    """This path turned out to be infeasible."""


class EngineBudget(EngineExc):
    pass


I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()
U = z3.DeclareSort('Obj')
AIR = z3.ArraySort(I, R)
AII = z3.ArraySort(I, I)
AIB = z3.ArraySort(I, B)
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)
ZERO = z3.IntVal(0)
ONE = z3.IntVal(1)
RZERO = z3.RealVal(0)

SQRT = z3.Function('sqrt', R, R)
ROUND = z3.Function('round', R, I)
EXP = z3.Function('exp', R, R)
LOG = z3.Function('log', R, R)
LGAMMA = z3.Function('lgamma', R, R)
POW = z3.Function('pow', R, R, R)
PI = z3.Real('π')
SUM = z3.Function('SUM', I, AIR, R)
SUMI = z3.Function('SUMI', I, AII, I)
ARGMAX = z3.Function('ARGMAX', I, AIR, I)
FIRST = z3.Function('FIRST', I, AIB, I)

_counter = [0]


def reset_counter():
    _counter[0] = 0


def fresh_name(base):
    _counter[0] += 1
    return "%s!%d" % (base, _counter[0])


def fresh_int(base='i'):
    return z3.Int(fresh_name(base))


def fresh_real(base='r'):
    return z3.Real(fresh_name(base))


def fresh_bool(base='b'):
    return z3.Bool(fresh_name(base))


# ----------------------------------------------------------------- contexts
class Ob:
    """An obligation: under `pc`, `goal` must be valid."""
    __slots__ = ('name', 'pc', 'goal', 'path', 'kind')

    def __init__(self, name, pc, goal, path='', kind='ensures'):
        self.name, self.pc, self.goal, self.path, self.kind = name, list(pc), goal, path, kind


_alive = []


class PC(list):
    """Path condition with a cached identity key; its terms are kept alive so
    that their ids stay unique."""
    def __init__(self, it=()):
        super().__init__(it)
        _alive.extend(self)
        self._k = None

    def append(self, t):
        _alive.append(t)
        self._k = None
        list.append(self, t)

    def extend(self, ts):
        ts = list(ts)
        _alive.extend(ts)
        self._k = None
        list.extend(self, ts)

    def __delitem__(self, i):
        self._k = None
        list.__delitem__(self, i)

    def extended(self, *ts):
        r = PC(self)
        for t in ts:
            if not z3.is_true(t):
                r.append(t)
        return r

    def key(self):
        if self._k is None:
            self._k = tuple(p.get_id() for p in self)
        return self._k


_nopc = PC()


def pckey():
    return State.ctxs[-1].pc.key() if State.ctxs else ()


class Ctx:
    """One exploration level: decision prefix and path condition."""
    def __init__(self, prefix, base_pc):
        self.prefix = prefix
        self.taken = []          # list of bool
        self.alts = []           # prefixes still to explore
        self.pc = PC(base_pc)
        self.nbase = len(base_pc)
        self.obs = []


class State:
    ctxs = []
    numba = [None]       # None | 'py' | 'np'
    journal = None
    serial = 0
    notes = set()
    funcs = set()
    unsup = []
    max_paths = 4000
    quant_depth = 0
    deadline = None


def ctx():
    return State.ctxs[-1]


def pc():
    return State.ctxs[-1].pc if State.ctxs else _nopc


class local_facts:
    """Facts known while a (pure) element expression is being built."""
    def __init__(self, *facts):
        self.facts = [f for f in facts if not z3.is_true(f)]

    def __enter__(self):
        self.n = len(pc())
        pc().extend(self.facts)

    def __exit__(self, *a):
        del pc()[self.n:]


def note(msg):
    State.notes.add(msg)


def next_serial():
    State.serial += 1
    return State.serial


# ------------------------------------------------------------------- values
class SVal:
    __slots__ = ()


NAN, PINF, NINF = 1, 2, 3


def is_sym(x):
    return isinstance(x, SVal)


def rat(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, float):
        return Fraction(repr(x))
    raise Unsupported("rat(%r)" % (x,))


def rv(x):
    f = rat(x)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator)) if f.denominator != 1 else z3.RealVal(f.numerator)


def simp(t):
    return z3.simplify(t)


def const_of(t):
    """Python number of a constant term, else None."""
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


def tadd(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None:
        return z3.IntVal(ca + cb) if a.sort() == I and b.sort() == I else rv(Fraction(ca) + Fraction(cb))
    if ca == 0:
        return b
    if cb == 0:
        return a
    if a.sort() == I and b.sort() == I:
        return z3.simplify(a + b)
    return a + b


def tsub(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None:
        return z3.IntVal(ca - cb) if a.sort() == I and b.sort() == I else rv(Fraction(ca) - Fraction(cb))
    if cb == 0:
        return a
    if a.eq(b):
        return ZERO if a.sort() == I else RZERO
    if a.sort() == I and b.sort() == I:
        return z3.simplify(a - b)
    return a - b


def tmul(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None:
        return z3.IntVal(ca * cb) if a.sort() == I and b.sort() == I else rv(Fraction(ca) * Fraction(cb))
    if ca == 1:
        return b
    if cb == 1:
        return a
    if ca == 0 or cb == 0:
        return ZERO if a.sort() == I and b.sort() == I else RZERO
    return a * b


def toreal(t):
    if t.sort() == R:
        return t
    c = const_of(t)
    if c is not None:
        return z3.RealVal(c)
    return z3.ToReal(t)


def tnot(t):
    if z3.is_true(t):
        return FALSE
    if z3.is_false(t):
        return TRUE
    if z3.is_not(t):
        return t.arg(0)
    return z3.Not(t)


def tand(*ts):
    out = []
    for t in ts:
        if z3.is_false(t):
            return FALSE
        if z3.is_true(t):
            continue
        if any(t.eq(o) for o in out):
            continue
        out.append(t)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else z3.And(*out)


def tor(*ts):
    out = []
    for t in ts:
        if z3.is_true(t):
            return TRUE
        if z3.is_false(t):
            continue
        if any(t.eq(o) for o in out):
            continue
        out.append(t)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else z3.Or(*out)


def tite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if a.sort() != b.sort():
        a, b = toreal(a), toreal(b)
    if a.sort() == B:
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return tnot(c)
    return z3.If(c, a, b)


def teq(a, b):
    if a.eq(b):
        return TRUE
    if a.sort() != b.sort():
        a, b = toreal(a), toreal(b)
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None:
        return z3.BoolVal(ca == cb)
    return a == b


def tlt(a, b):
    if a.sort() != b.sort():
        a, b = toreal(a), toreal(b)
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None:
        return z3.BoolVal(ca < cb)
    if a.eq(b):
        return FALSE
    return a < b


def tle(a, b):
    if a.sort() != b.sort():
        a, b = toreal(a), toreal(b)
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None:
        return z3.BoolVal(ca <= cb)
    if a.eq(b):
        return TRUE
    return a <= b


def tmin(a, b):
    return tite(tle(a, b), a, b)


def tmax(a, b):
    return tite(tle(a, b), b, a)


def as_term(x):
    """z3 term of a python number / symbolic scalar (cls dropped: must be finite)."""
    if isinstance(x, SReal):
        if x.cls is not None:
            raise Unsupported("non-finite value used as plain term")
        return x.t
    if isinstance(x, SVal) and hasattr(x, 't'):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if isinstance(x, (float, Fraction)):
        return rv(x)
    if isinstance(x, z3.ExprRef):
        return x
    raise Unsupported("as_term(%r)" % (type(x),))


def num_term(x):
    """Numeric (Int or Real) term; booleans count as 0/1."""
    x = lift(x)
    if isinstance(x, SBool):
        return tite(x.t, ONE, ZERO)
    if isinstance(x, (SInt, SReal)):
        return x.t
    raise Unsupported("number expected, got %s" % type(x).__name__)


def iterm(x):
    """Int-sorted term."""
    if isinstance(x, SBool) or isinstance(x, bool):
        t = as_term(x)
        return tite(t, ONE, ZERO)
    t = as_term(x)
    if t.sort() == R:
        c = const_of(t)
        if c is not None and c.denominator == 1:
            return z3.IntVal(int(c))
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
            return t.arg(0)
        raise Unsupported("real used as index")
    return t


def wrap(t, cls=None):
    if t.sort() == B:
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SBool(t)
    if t.sort() == I:
        c = const_of(t)
        return c if c is not None else SInt(t)
    if t.sort() == R:
        return SReal(t, cls)
    if t.sort() == U:
        return SObj(t)
    raise Unsupported("wrap %s" % t.sort())


def lift(x):
    """Number -> SVal (SInt, SReal, SBool), never folding."""
    if isinstance(x, SVal):
        return x
    if isinstance(x, bool):
        return SBool(z3.BoolVal(x))
    if isinstance(x, int):
        return SInt(z3.IntVal(int(x)))
    if isinstance(x, float):
        if x != x:
            return SReal(RZERO, z3.IntVal(NAN))
        if x in (float('inf'), float('-inf')):
            return SReal(RZERO, z3.IntVal(PINF if x > 0 else NINF))
        return SReal(rv(x))
    if isinstance(x, Fraction):
        return SReal(rv(x))
    if isinstance(x, z3.ExprRef):
        if x.sort() == B:
            return SBool(x)
        if x.sort() == I:
            return SInt(x)
        if x.sort() == U:
            return SObj(x)
        return SReal(x)
    return None


class SBool(SVal):
    __slots__ = ('t',)
    __array_priority__ = 100

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return decide(self.t)

    def _num(self):
        return SInt(tite(self.t, ONE, ZERO))

    def __and__(self, o):
        if _isarr(o):
            return NotImplemented
        return wrap(tand(self.t, bterm(o)))
    __rand__ = __and__

    def __or__(self, o):
        if _isarr(o):
            return NotImplemented
        return wrap(tor(self.t, bterm(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return wrap(z3.Xor(self.t, bterm(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return wrap(tnot(self.t))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return wrap(simp(self.t == bterm(o)))
        return self._num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        return hash(('SBool', self.t.get_id()))

    def __add__(self, o): return self._num() + o
    def __radd__(self, o): return o + self._num()
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return self._num() * o
    def __rmul__(self, o): return o * self._num()
    def __truediv__(self, o): return self._num() / o
    def __lt__(self, o): return self._num() < o
    def __le__(self, o): return self._num() <= o
    def __gt__(self, o): return self._num() > o
    def __ge__(self, o): return self._num() >= o
    def __neg__(self): return -self._num()
    def __repr__(self): return "SBool(%s)" % short(self.t)
    def all(self): return self
    def any(self): return self
    def item(self): return self
    def astype(self, d):
        from . import arr
        return arr.scalar_astype(self, d)


def short(t):
    s = str(t)
    return s if len(s) < 200 else s[:200] + '...'


def bterm(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (int, SInt)):
        return tnot(teq(as_term(x), ZERO))
    if isinstance(x, SReal):
        z = teq(x.t, RZERO)
        if x.cls is None:
            return tnot(z)
        return tor(tnot(z), tnot(teq(x.cls, ZERO)))
    if type(x).__name__ == 'bool_':
        return z3.BoolVal(bool(x))
    raise Unsupported("bterm(%r)" % (type(x),))


def snot(x):
    if isinstance(x, bool):
        return not x
    return wrap(tnot(bterm(x)))


def _isarr(o):
    return getattr(o, '_is_sarr', False)


def _other(o):
    if _isarr(o):
        return None
    if isinstance(o, SObj):
        return None
    if isinstance(o, SBool):
        return o._num()
    l = lift(o)
    if isinstance(l, SBool):
        l = l._num()
    return l


def cls_of(x):
    return x.cls if isinstance(x, SReal) and x.cls is not None else ZERO


def has_cls(x):
    return isinstance(x, SReal) and x.cls is not None


class SNum(SVal):
    __slots__ = ()
    __array_priority__ = 100

    # --- arithmetic
    def __add__(self, o): return arith('+', self, o)
    def __radd__(self, o): return arith('+', o, self)
    def __sub__(self, o): return arith('-', self, o)
    def __rsub__(self, o): return arith('-', o, self)
    def __mul__(self, o): return arith('*', self, o)
    def __rmul__(self, o): return arith('*', o, self)
    def __truediv__(self, o): return arith('/', self, o)
    def __rtruediv__(self, o): return arith('/', o, self)
    def __floordiv__(self, o): return arith('//', self, o)
    def __rfloordiv__(self, o): return arith('//', o, self)
    def __mod__(self, o): return arith('%', self, o)
    def __rmod__(self, o): return arith('%', o, self)
    def __pow__(self, o): return arith('**', self, o)
    def __rpow__(self, o): return arith('**', o, self)
    def __divmod__(self, o): return (self // o, self % o)
    def __lt__(self, o): return compare('<', self, o)
    def __le__(self, o): return compare('<=', self, o)
    def __gt__(self, o): return compare('>', self, o)
    def __ge__(self, o): return compare('>=', self, o)

    def __eq__(self, o):
        return compare('==', self, o)

    def __ne__(self, o):
        return compare('!=', self, o)

    def __hash__(self):
        return hash(('SNum', self.t.get_id()))

    def __pos__(self):
        return self

    def __bool__(self):
        return decide(bterm(self))

    def item(self): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def copy(self): return self
    def sum(self): return self
    def __format__(self, spec):
        return "<sym>"

    def astype(self, d):
        from . import arr
        return arr.scalar_astype(self, d)

    @property
    def shape(self): return ()

    @property
    def ndim(self): return 0


class SInt(SNum):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __neg__(self): return wrap(simp(-self.t))

    def __abs__(self):
        return wrap(tite(tle(ZERO, self.t), self.t, simp(-self.t)))

    def __index__(self):
        c = const_of(simp(self.t))
        if c is None:
            raise Unsupported("symbolic integer used where a concrete one is needed")
        return c

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __lshift__(self, o): return self * (2 ** int(o))
    def __rshift__(self, o): return self // (2 ** int(o))

    def __and__(self, o):
        if isinstance(o, int) and o > 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        raise Unsupported("bitwise and")

    def __repr__(self): return "SInt(%s)" % short(self.t)

    def __round__(self, nd=None): return self


class SReal(SNum):
    __slots__ = ('t', 'cls', 'nn')

    def __init__(self, t, cls=None, nn=False):
        self.t = t
        self.nn = nn          # known to be non-negative
        if cls is not None:
            c = const_of(cls)
            if c == 0:
                cls = None
        self.cls = cls

    def __neg__(self):
        cls = self.cls
        if cls is not None:
            cls = tite(teq(cls, z3.IntVal(PINF)), z3.IntVal(NINF),
                       tite(teq(cls, z3.IntVal(NINF)), z3.IntVal(PINF), cls))
        return SReal(tsub(RZERO, self.t), cls)

    def __abs__(self):
        cls = self.cls
        if cls is not None:
            cls = tite(teq(cls, z3.IntVal(NINF)), z3.IntVal(PINF), cls)
        return SReal(tite(tle(RZERO, self.t), self.t, -self.t), cls, True)

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        raise Unsupported("int() of a symbolic value in uninstrumented code")

    def __round__(self, nd=None):
        if nd:
            raise Unsupported("round digits")
        return round_half_even(self)

    def __repr__(self): return "SReal(%s%s)" % (short(self.t), "" if self.cls is None else "|" + short(self.cls))


class SObj(SVal):
    """Opaque value: only equality."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, SObj):
            return wrap(teq(self.t, o.t))
        return False

    def __ne__(self, o):
        return snot(self == o)

    def __hash__(self):
        return hash(('SObj', self.t.get_id()))

    def __repr__(self): return "SObj(%s)" % short(self.t)


def floor_term(t):
    if t.sort() == I:
        return t
    c = const_of(t)
    if c is not None:
        return z3.IntVal(c.numerator // c.denominator)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    return z3.ToInt(t)


def need_finite(x, what):
    if has_cls(x) and not prove(teq(x.cls, ZERO)):
        raise Unsupported(what + " of a possibly non-finite value")


def s_floor(x):
    x = lift(x)
    need_finite(x, "floor")
    return wrap(simp(floor_term(x.t)))


def s_ceil(x):
    x = lift(x)
    need_finite(x, "ceil")
    return wrap(simp(-floor_term(simp(-toreal(x.t)))))


def s_trunc(x):
    x = lift(x)
    if isinstance(x, SBool):
        return x._num()
    if isinstance(x, SInt):
        return x
    need_finite(x, "int")
    t = x.t
    f = floor_term(t)
    if f.sort() == I and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return wrap(f)
    if prove(tle(RZERO, t)):
        return wrap(f)
    return wrap(tite(tle(RZERO, t), f, simp(-floor_term(simp(-t)))))


def round_half_even(x):
    x = lift(x)
    if isinstance(x, (SInt, SBool)):
        return x
    need_finite(x, "round")
    t = x.t
    c = const_of(t)
    if c is not None:
        return int(round(Fraction(c)))
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return wrap(t.arg(0))
    return wrap(ROUND(t))


def pow_term(a, b):
    """a ** b on terms (real)."""
    cb = const_of(b)
    if cb is not None and Fraction(cb).denominator == 1 and 0 <= cb <= 4:
        n = int(cb)
        if n == 0:
            return rv(1)
        r = a
        for _ in range(n - 1):
            r = tmul(r, a)
        return r
    if cb is not None and Fraction(cb) == Fraction(1, 2):
        return SQRT(toreal(a))
    if cb is not None and Fraction(cb) == -1:
        return rv(1) / toreal(a)
    if cb is not None and Fraction(cb) == -2:
        return rv(1) / (toreal(a) * toreal(a))
    return POW(toreal(a), toreal(b))


def combine_cls(op, a, b, t):
    """cls of the result for +,-,* when an operand may be non-finite."""
    ca, cb = cls_of(a), cls_of(b)
    nan, pinf, ninf = z3.IntVal(NAN), z3.IntVal(PINF), z3.IntVal(NINF)
    isn = tor(teq(ca, nan), teq(cb, nan))
    if op == '-':
        cb = tite(teq(cb, pinf), ninf, tite(teq(cb, ninf), pinf, cb))
        op = '+'
    if op == '+':
        clash = tand(tnot(teq(ca, ZERO)), tnot(teq(cb, ZERO)), tnot(teq(ca, cb)))
        return tite(tor(isn, clash), nan, tite(tnot(teq(ca, ZERO)), ca, cb))
    if op == '*':
        sa = tite(teq(ca, pinf), z3.IntVal(1), tite(teq(ca, ninf), z3.IntVal(-1),
             tite(tlt(RZERO, toreal(a.t)), z3.IntVal(1), tite(tlt(toreal(a.t), RZERO), z3.IntVal(-1), ZERO))))
        sb = tite(teq(cb, pinf), z3.IntVal(1), tite(teq(cb, ninf), z3.IntVal(-1),
             tite(tlt(RZERO, toreal(b.t)), z3.IntVal(1), tite(tlt(toreal(b.t), RZERO), z3.IntVal(-1), ZERO))))
        inf = tor(tnot(teq(ca, ZERO)), tnot(teq(cb, ZERO)))
        s = sa * sb
        return tite(isn, nan, tite(tnot(inf), ZERO, tite(s == 0, nan, tite(s > 0, pinf, ninf))))
    raise Unsupported("cls " + op)


def arith(op, a, b):
    if _isarr(a) or _isarr(b):
        return NotImplemented
    a, b = _other(a), _other(b)
    if a is None or b is None:
        return NotImplemented
    ints = isinstance(a, SInt) and isinstance(b, SInt)
    if op in '+-*' and len(op) == 1:
        f = dict([('+', tadd), ('-', tsub), ('*', tmul)])[op]
        if ints:
            return wrap(f(a.t, b.t))
        t = f(toreal(a.t), toreal(b.t))
        if has_cls(a) or has_cls(b):
            return SReal(t, combine_cls(op, a, b, t))
        nn = (op == '*' and a.t.eq(b.t)) or (op in '+*' and is_nn(a) and is_nn(b))
        return SReal(t, None, nn)
    if op == '/':
        return divide(a, b)
    if op in ('//', '%'):
        if not ints:
            if has_cls(a) or has_cls(b):
                raise Unsupported("floor division of non-finite")
            zero_check(b)
            q = floor_term(toreal(a.t) / toreal(b.t))
            if op == '//':
                return SReal(toreal(q))
            return SReal(toreal(a.t) - toreal(b.t) * toreal(q))
        zero_check(b)
        return wrap(int_divmod(op, a.t, b.t))
    if op == '**':
        if has_cls(a) or has_cls(b):
            cb = const_of(b.t)
            if cb == 2 and not has_cls(b):
                return arith('*', a, a)
            if has_cls(b):
                raise Unsupported("power of non-finite")
            cls = cls_of(a)
            if cb is not None and cb > 0 and Fraction(cb).denominator == 1:
                if cb % 2 == 0:
                    cls = tite(teq(cls, _NINFT), _PINFT, cls)
                return SReal(pow_term(toreal(a.t), b.t), cls)
            raise Unsupported("power of non-finite")
        cb = const_of(b.t)
        if ints and cb is not None and cb >= 0:
            r = pow_term(a.t, b.t)
            return wrap(r if r.sort() == I else r)
        even = cb is not None and cb == 2
        return SReal(pow_term(toreal(a.t), b.t), None, even or is_nn(a))
    raise Unsupported(op)


def is_nn(x):
    if isinstance(x, SReal):
        if x.nn:
            return True
    c = const_of(x.t)
    return c is not None and c >= 0


def int_divmod(op, a, b):
    """Python floor semantics; z3's div is floor for positive divisors."""
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb:
        return z3.IntVal(ca // cb if op == '//' else ca % cb)
    pos = (cb is not None and cb > 0) or (cb is None and prove(b > 0))
    if pos:
        st = split_mod(a, b)
        if st is not None:
            q, r = st
            return q if op == '//' else r
        return (a / b) if op == '//' else (a % b)
    if cb is not None and cb < 0:
        # a // b == -a // -b
        return ((-a) / (-b)) if op == '//' else -((-a) % (-b))
    q = z3.If(b > 0, a / b, (-a) / (-b))
    return q if op == '//' else a - b * q


def split_mod(a, b):
    """a == q*b + r with 0 <= r < b, syntactically, if recognisable."""
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ADD:
        args = list(a.children())
    else:
        args = [a]
    q, rest = [], []
    cb = const_of(b)
    for t in args:
        m = None
        if t.eq(b):
            m = ONE
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL:
            ch = list(t.children())
            for i, c in enumerate(ch):
                if c.eq(b):
                    o = ch[:i] + ch[i + 1:]
                    m = o[0] if len(o) == 1 else z3.Product(*o)
                    break
                cc = const_of(c)
                if cb is not None and cc is not None and cc % cb == 0:
                    o = ch[:i] + ch[i + 1:]
                    m = tmul(z3.IntVal(cc // cb), o[0] if len(o) == 1 else z3.Product(*o))
                    break
        if m is None:
            rest.append(t)
        else:
            q.append(m)
    if not q:
        return None
    r = rest[0] if len(rest) == 1 else (z3.Sum(rest) if rest else ZERO)
    r = simp(r) if rest else ZERO
    if prove(tand(tle(ZERO, r), tlt(r, b))):
        return simp(z3.Sum(q) if len(q) > 1 else q[0]), r
    # still split: (q*b + r) // b = q + r//b
    qq = z3.Sum(q) if len(q) > 1 else q[0]
    return simp(qq + r / b), r % b


def zero_check(b):
    """Integer/float floor division or modulo by zero raises."""
    c = const_of(b.t)
    if c is not None:
        if c == 0:
            raise ZeroDivisionError("division by zero")
        return
    if decide(teq(b.t, ZERO if b.t.sort() == I else RZERO)):
        raise ZeroDivisionError("division by zero")


def divide(a, b, arrays=False):
    ta, tb = toreal(a.t), toreal(b.t)
    c = const_of(tb)
    mode = State.numba[-1]
    if has_cls(a) or has_cls(b):
        return div_cls(a, b, ta, tb)
    if c is not None:
        if c == 0:
            if mode == 'py' and not arrays:
                raise ZeroDivisionError("division by zero")
            return div_cls(a, b, ta, tb)
        return SReal(tmul(ta, rv(1 / Fraction(c))), None, c > 0 and is_nn(a))
    zero = teq(tb, RZERO)
    if mode == 'py' and not arrays:
        if decide(zero):
            raise ZeroDivisionError("division by zero")
        return SReal(ta / tb)
    if prove(tnot(zero)):
        return SReal(ta / tb, None, is_nn(a) and (is_nn(b) or prove(tlt(RZERO, tb))))
    return div_cls(a, b, ta, tb)


def div_cls(a, b, ta, tb):
    ca, cb = cls_of(a), cls_of(b)
    nan, pinf, ninf = z3.IntVal(NAN), z3.IntVal(PINF), z3.IntVal(NINF)
    zero = teq(tb, RZERO)
    fin = tite(zero, tite(teq(ta, RZERO), nan, tite(tlt(RZERO, ta), pinf, ninf)), ZERO)
    if z3.eq(ca, ZERO) and z3.eq(cb, ZERO):
        return SReal(ta / tb, fin)
    # a infinite / b finite
    sgn_b = tlt(tb, RZERO)
    inf_a = tite(sgn_b, tite(teq(ca, pinf), ninf, pinf), ca)
    cls = tite(tor(teq(ca, nan), teq(cb, nan)), nan,
               tite(teq(cb, ZERO),
                    tite(teq(ca, ZERO), fin, inf_a),
                    tite(teq(ca, ZERO), ZERO, nan)))
    t = tite(teq(cb, ZERO), ta / tb, RZERO)
    return SReal(t, cls)


def rank(x):
    c = cls_of(x)
    return tite(teq(c, z3.IntVal(PINF)), ONE, tite(teq(c, z3.IntVal(NINF)), z3.IntVal(-1), ZERO))


def compare(op, a, b):
    if _isarr(a) or _isarr(b):
        return NotImplemented
    if isinstance(b, SObj) or b is None or isinstance(b, str):
        if op == '==':
            return False
        if op == '!=':
            return True
    a, b = _other(a), _other(b)
    if a is None or b is None:
        if op == '==':
            return False
        if op == '!=':
            return True
        return NotImplemented
    if op == '!=':
        return snot(compare('==', a, b))
    if op == '>':
        return compare('<', b, a)
    if op == '>=':
        return compare('<=', b, a)
    f = {'<': tlt, '<=': tle, '==': teq}[op]
    base = f(a.t, b.t)
    if has_cls(a) or has_cls(b):
        nonan = tand(tnot(teq(cls_of(a), z3.IntVal(NAN))), tnot(teq(cls_of(b), z3.IntVal(NAN))))
        ra, rb = rank(a), rank(b)
        same0 = tand(teq(ra, ZERO), teq(rb, ZERO))
        return wrap(tand(nonan, tite(same0, base, f(ra, rb))))
    return wrap(base)


def s_ite(c, a, b):
    """Elementwise conditional on scalar values."""
    if isinstance(c, bool):
        return a if c else b
    ct = bterm(c)
    if z3.is_true(ct):
        return a
    if z3.is_false(ct):
        return b
    if a is b:
        return a
    la, lb = lift(a), lift(b)
    if la is None or lb is None:
        raise Unsupported("merge of %s and %s" % (type(a).__name__, type(b).__name__))
    if isinstance(la, SBool) and isinstance(lb, SBool):
        return wrap(tite(ct, la.t, lb.t))
    if isinstance(la, SObj) and isinstance(lb, SObj):
        return wrap(tite(ct, la.t, lb.t))
    if isinstance(la, SObj) or isinstance(lb, SObj):
        raise Unsupported("merge of opaque and number")
    if isinstance(la, SBool):
        la = la._num()
    if isinstance(lb, SBool):
        lb = lb._num()
    if isinstance(la, SInt) and isinstance(lb, SInt):
        return wrap(tite(ct, la.t, lb.t))
    cls = None
    if has_cls(la) or has_cls(lb):
        cls = tite(ct, cls_of(la), cls_of(lb))
    return SReal(tite(ct, toreal(la.t), toreal(lb.t)), cls)


def s_min(a, b):
    return s_ite(lift(b) < a, b, a)


def s_max(a, b):
    return s_ite(lift(a) < b, b, a)


def _real_in(x):
    x = lift(x)
    if isinstance(x, SBool):
        x = x._num()
    if not isinstance(x, SNum):
        raise TypeError("must be real number")
    return x


_NANT, _PINFT, _NINFT = z3.IntVal(NAN), z3.IntVal(PINF), z3.IntVal(NINF)


def s_exp(x):
    x = _real_in(x)
    c = const_of(x.t)
    if c == 0 and not has_cls(x):
        return SReal(rv(1))
    if not has_cls(x):
        return SReal(EXP(toreal(x.t)), None, True)
    ninf = teq(x.cls, _NINFT)
    return SReal(tite(ninf, RZERO, EXP(toreal(x.t))), tite(ninf, ZERO, x.cls))


def s_log(x, python=False):
    """numpy / numba-numpy semantics; python: ValueError at <= 0."""
    x = _real_in(x)
    t = toreal(x.t)
    if not has_cls(x) and prove(tlt(RZERO, t)):
        return SReal(LOG(t))
    if python:
        if decide(tand(teq(cls_of(x), ZERO), tle(t, RZERO))):
            raise ValueError("math domain error")
        return SReal(LOG(t), x.cls if has_cls(x) else None)
    fin = tite(tlt(RZERO, t), ZERO, tite(teq(t, RZERO), _NINFT, _NANT))
    if has_cls(x):
        fin = tite(teq(x.cls, ZERO), fin, tite(teq(x.cls, _NINFT), _NANT, x.cls))
    return SReal(LOG(t), fin)


def s_lgamma(x):
    x = _real_in(x)
    if has_cls(x):
        raise Unsupported("lgamma of non-finite value")
    return SReal(LGAMMA(toreal(x.t)))


def s_sqrt(x, python=False):
    x = _real_in(x)
    c = const_of(x.t)
    if c is not None and not has_cls(x):
        f = Fraction(c)
        import math
        if f >= 0:
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return SReal(rv(Fraction(a, b)))
            return SReal(SQRT(rv(f)))
    t = toreal(x.t)
    if not has_cls(x) and (is_nn(x) or is_square(t) or prove(tle(RZERO, t))):
        return SReal(SQRT(t), None, True)
    if python:
        if decide(tand(teq(cls_of(x), ZERO), tlt(t, RZERO))):
            raise ValueError("math domain error")
        return SReal(SQRT(t), x.cls if has_cls(x) else None)
    fin = tite(tle(RZERO, t), ZERO, _NANT)
    if has_cls(x):
        fin = tite(teq(x.cls, ZERO), fin, tite(teq(x.cls, _NINFT), _NANT, x.cls))
    return SReal(SQRT(t), fin)


def is_square(t):
    """Syntactically a non-negative term (sums of squares ...)."""
    from . import red
    return red.nonneg(t)


# ---------------------------------------------------------------- exploring
def prove(goal):
    from . import red
    return red.prove(pc(), goal)


def decide(cond):
    """Branch on a symbolic condition."""
    if isinstance(cond, bool):
        return cond
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    cond = simp(cond)
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    if State.quant_depth:
        if prove(tnot(cond)):
            return False
        if prove(cond):
            return True
        raise Unsupported("branch on a symbolic condition inside an element expression")
    if not State.ctxs:
        raise Unsupported("decide outside exploration")
    c = ctx()
    pos = len(c.taken)
    if pos < len(c.prefix):
        v = c.prefix[pos]
    else:
        from . import red
        st = red.branch(c.pc, cond)
        if st == 'true':
            v = True
            return True
        elif st == 'false':
            return False
        elif st == 'dead':
            raise PathAbort()
        v = True
        c.alts.append(list(c.taken) + [False])
        c.taken.append(v)
        c.pc.append(cond)
        return v
    # replaying a prefix: the same test must be skipped if it was decided
    from . import red
    st = red.branch(c.pc, cond)
    if st == 'true':
        return True
    if st == 'false':
        return False
    if st == 'dead':
        raise PathAbort()
    c.taken.append(v)
    c.pc.append(cond if v else tnot(cond))
    return v


class Choice:
    pass


def choose(label):
    """Nondeterministic boolean choice that only the engine makes."""
    b = z3.Bool(fresh_name('choice_' + label))
    return decide(b)


def assume(cond):
    t = bterm(cond)
    if z3.is_false(simp(t)):
        raise PathAbort()
    if not z3.is_true(t):
        pc().append(t)


def oblige(name, cond, kind='safety'):
    t = bterm(cond)
    if z3.is_true(t):
        c = ctx()
        c.obs.append(Ob(name, [], TRUE, '', kind))
        return
    if State.quant_depth:
        # inside an element expression: must be provable from the local facts
        c = ctx()
        c.obs.append(Ob(name, c.pc, t, '', kind))
        return
    c = ctx()
    c.obs.append(Ob(name, c.pc, t, '', kind))
    c.pc.append(t)


def explore(fn, base_pc, max_paths=None):
    """Run fn() on every feasible path.  Yields (ctx, result, exception)."""
    todo = [[]]
    n = 0
    limit = max_paths or State.max_paths
    import time
    while todo:
        prefix = todo.pop()
        if State.deadline and time.time() > State.deadline:
            raise EngineBudget("time budget of the unit exceeded")
        n += 1
        if n > limit:
            raise Unsupported("more than %d paths" % limit)
        c = Ctx(prefix, base_pc)
        State.ctxs.append(c)
        res = exc = None
        dead = False
        depth = len(State.ctxs)
        nb = len(State.numba)
        qd = State.quant_depth
        try:
            res = fn()
        except PathAbort:
            dead = True
        except EngineExc:
            raise
        except Exception as e:
            exc = e
        finally:
            del State.ctxs[depth - 1:]
            del State.numba[nb:]
            State.quant_depth = qd
        todo.extend(c.alts)
        yield c, res, exc, dead


# ------------------------------------------------------------------ journal
class Journal:
    def __init__(self):
        self.entries = []     # (location key, undo)

    def undo(self, only=None):
        for loc, u in reversed(self.entries):
            if only is None or only(loc):
                u()
        self.entries.clear()


def record(loc, undo):
    if State.journal is not None:
        State.journal.entries.append((loc, undo))


def pv_setattr(obj, name, value):
    if State.journal is not None:
        d = getattr(obj, '__dict__', None)
        if d is not None and not isinstance(getattr(type(obj), name, None), property):
            if name in d:
                old = d[name]
                record(('attr', obj, name), lambda: d.__setitem__(name, old))
            else:
                record(('attr', obj, name), lambda: d.pop(name, None))
    setattr(obj, name, value)
    return value
