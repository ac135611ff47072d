"""Loop summarisation.

A loop with a symbolic trip count is executed once, for an arbitrary iteration
k from an arbitrary ("havocked") state of everything the body changes.  From
the transition so obtained the value of every changed location before
iteration k is derived in closed form -- unchanged, accumulated (SUM),
overwritten (last writer), latched (first writer), running maximum -- by rules
that are inductive by construction; the obligations of the body are then
restated over the closed forms, for every k.  A change of state that fits no
rule makes the loop, and hence the function, unsupported."""
import ast
import z3
from . import core, red, arr
from .core import *
from .core import (State, Ob, Journal, tadd, tsub, tmul, tand, tor, tnot, tite,
                   teq, tlt, tle, toreal, ZERO, ONE, RZERO, TRUE, FALSE, I, R,
                   B, U, const_of, wrap, iterm, bterm, as_term, simp, fresh_int,
                   fresh_name, rv, cls_of, has_cls, decide, prove)
from .arr import SArr, Compressed, Storage, quant, in_range, dim_t

UNROLL = 8
MAX_UNROLL = 200


# --------------------------------------------------------------- sequences
class SymSeq:
    """elem(k) for 0 <= k < n with cond(k) (None: all), in order."""
    _is_symseq = True

    def __init__(self, n, elem, cond=None):
        self.n, self.elem, self.cond = n, elem, cond

    def pv_len(self):
        if self.cond is None:
            return wrap(red.clamp0(self.n))
        return wrap(red.mk_sumi(self.n, lambda k: tite(self.cond(k), ONE, ZERO)))

    def __iter__(self):
        raise Unsupported("iteration over a symbolic sequence in uninstrumented code")


class Seg:
    """Marks a symbolic stretch inside a Python list."""
    def __init__(self, seq):
        self.seq = seq


class SymRange(SymSeq):
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        if step == 1:
            n = simp(tsub(stop, start))
        elif step == -1:
            n = simp(tsub(start, stop))
        elif step > 0:
            n = core.int_divmod('//', simp(stop - start + (step - 1)), z3.IntVal(step))
        else:
            n = core.int_divmod('//', simp(start - stop + (-step - 1)), z3.IntVal(-step))
        super().__init__(n, lambda k: wrap(simp(tadd(start, tmul(z3.IntVal(step), k)))))

    def __getitem__(self, i):
        t = arr.norm_index(i, red.clamp0(self.n), 'range index')
        return self.elem(t)


class YieldList:
    """What a generator yields (collected eagerly)."""
    def __init__(self):
        self.items = []

    def append(self, v):
        if State.journal is not None:
            old = list(self.items)
            core.record(('list', self.items), lambda: self.items.__setitem__(slice(None), old))
        self.items.append(v)

    def finish(self):
        return GenResult(self.items)


class GenResult:
    """Iterator over collected items."""
    def __init__(self, items):
        self.items = list(items)
        self.pos = 0

    def __iter__(self):
        if any(isinstance(x, Seg) for x in self.items):
            raise Unsupported("iteration over a symbolic sequence in uninstrumented code")
        return self

    def __next__(self):
        if self.pos >= len(self.items):
            raise StopIteration
        if isinstance(self.items[self.pos], Seg):
            raise Unsupported("next() on a symbolic sequence")
        self.pos += 1
        return self.items[self.pos - 1]


def has_seg(l):
    return any(isinstance(x, Seg) for x in l)


def segments(v):
    """Value -> list of ('items', [..]) and ('sym', SymSeq)."""
    from . import models
    if isinstance(v, GenResult):
        v2 = v.items[v.pos:]
        v.pos = len(v.items)
        v = v2
    if isinstance(v, (list, tuple)):
        out = []
        cur = []
        for x in v:
            if isinstance(x, Seg):
                if cur:
                    out.append(('items', cur))
                    cur = []
                out.append(('sym', x.seq))
            else:
                cur.append(x)
        if cur:
            out.append(('items', cur))
        return out
    if isinstance(v, SymRange):
        c = const_of(v.n)
        if c is not None and c <= UNROLL:
            return [('items', [v.elem(z3.IntVal(i)) for i in range(max(c, 0))])]
        return [('sym', v)]
    if isinstance(v, SymSeq):
        return [('sym', v)]
    if isinstance(v, range):
        if len(v) <= UNROLL:
            return [('items', list(v))]
        return [('sym', SymRange(z3.IntVal(v.start), z3.IntVal(v.stop), v.step))]
    if isinstance(v, SArr):
        n = dim_t(v.pv_len())
        c = const_of(n)
        if c is not None and c <= UNROLL:
            return [('items', [v[i] for i in range(c)])]
        return [('sym', SymSeq(n, lambda k: v[wrap(k)]))]
    if isinstance(v, Compressed):
        return [('sym', SymSeq(dim_t(v.n), v.elem, v.cond))]
    if isinstance(v, (dict, set, frozenset, str, bytes)) or type(v).__name__ in (
            'dict_keys', 'dict_values', 'dict_items', 'map', 'filter', 'zip', 'enumerate', 'list_iterator',
            'reversed', 'list_reverseiterator', 'generator', 'mappingproxy', 'chain', 'product', 'tuple_iterator'):
        return [('items', list(v))]
    m = getattr(type(v), 'pv_iter', None)
    if m is not None:
        return segments(m(v))
    if isinstance(v, type) and not hasattr(type(v), '__iter__'):
        raise TypeError("'type' object is not iterable")
    it = getattr(type(v), '__iter__', None)
    if it is None:
        raise TypeError("'%s' object is not iterable" % type(v).__name__)
    r = it(v)
    if r is v:
        raise Unsupported("iterating %s" % type(v).__name__)
    return segments(r)


def concrete_iter(v):
    out = []
    for kind, x in segments(v):
        if kind == 'items':
            out.extend(x)
        else:
            c = const_of(simp(x.n))
            if c is None or c > 5000:
                raise Unsupported("symbolic sequence where a concrete one is needed")
            for i in range(max(c, 0)):
                t = z3.IntVal(i)
                if x.cond is not None and not decide(x.cond(t)):
                    continue
                out.append(x.elem(t))
    return out


def to_list(v):
    """list(v), keeping symbolic stretches."""
    out = []
    for kind, x in segments(v):
        if kind == 'items':
            out.extend(x)
        else:
            c = const_of(simp(x.n))
            if c is not None and c <= 64 and x.cond is None:
                out.extend(x.elem(z3.IntVal(i)) for i in range(max(c, 0)))
            else:
                out.append(Seg(x))
    return out


def seq_len(v):
    n = 0
    for x in v:
        n = n + (x.seq.pv_len() if isinstance(x, Seg) else 1)
    return n


# ------------------------------------------------------------- statements
def run_for(interp, s, env):
    it = interp.ev(s.iter, env)
    from .interp import BREAK, CONT, Ret

    def one(x):
        interp.assign(s.target, x, env)
        return interp.block(s.body, env)
    for kind, seg in segments(it):
        if kind == 'items':
            if isinstance(it, range) and len(it) >= 48:
                # closed form if there is one, else unrolled
                ks = list(seg)

                def step(k, first=ks[0], by=it.step):
                    return one(wrap(simp(tadd(z3.IntVal(first), tmul(z3.IntVal(by), k)))))
                try:
                    r = sym_loop(z3.IntVal(len(ks)), step)
                    if r is BREAK:
                        return None
                    if isinstance(r, Ret):
                        return r
                    continue
                except Unsupported:
                    pass
            for x in seg:
                r = one(x)
                if r is BREAK:
                    return None
                if isinstance(r, Ret):
                    return r
        else:
            def iteration(k, seg=seg):
                if seg.cond is not None and not decide(seg.cond(k)):
                    return None
                return one(seg.elem(k))
            c = const_of(simp(seg.n))
            try:
                r = sym_loop(seg.n, iteration)
            except Unsupported:
                if c is None or c > MAX_UNROLL:
                    raise
                core.note("loop with %d iterations unrolled" % c)
                r = None
                for i in range(max(c, 0)):
                    r = iteration(z3.IntVal(i))
                    if r is BREAK or isinstance(r, Ret):
                        break
            if r is BREAK:
                return None
            if isinstance(r, Ret):
                return r
    return interp.block(s.orelse, env)


def run_while(interp, s, env):
    from .interp import BREAK, CONT, Ret

    class EXIT:
        pass
    done = EXIT()
    for _ in range(MAX_UNROLL):
        c = interp.ev(s.test, env)
        if isinstance(c, SVal) and not isinstance(c, bool):
            st = red.branch(core.pc(), simp(bterm(c)))
            if st == 'both':
                break
            c = st == 'true'
        if not interp.truth(c):
            return interp.block(s.orelse, env)
        r = interp.block(s.body, env)
        if r is BREAK:
            return None
        if isinstance(r, Ret):
            return r
    else:
        raise Unsupported("while loop with more than %d iterations" % MAX_UNROLL)

    def iteration(k):
        if not interp.truth(interp.ev(s.test, env)):
            return done
        return interp.block(s.body, env)
    core.note("while loops are assumed to terminate")
    bound = fresh_int('bound')
    r = sym_loop(bound, iteration, must_exit=True)
    if r is done:
        return interp.block(s.orelse, env)
    if r is BREAK:
        return None
    return r


def comprehension(interp, n, env, kind):
    from .interp import Env
    e = interp.comp_env(env)
    bound = set()
    for g in n.generators:
        for x in ast.walk(g.target):
            if isinstance(x, ast.Name):
                bound.add(x.id)
    e.locs = bound
    if kind == 'dict':
        out = {}
    elif kind == 'set':
        out = set()
    else:
        out = YieldList()

    def rec(i):
        if i == len(n.generators):
            if kind == 'dict':
                k = interp.ev(n.key, e)
                from .interp import snapshot
                v = interp.ev(n.value, e)
                snapshot(out)
                out[k] = v
            elif kind == 'set':
                from .interp import snapshot
                snapshot(out)
                out.add(interp.ev(n.elt, e))
            else:
                out.append(interp.ev(n.elt, e))
            return
        g = n.generators[i]
        src = interp.ev(g.iter, e if i else env)

        def one(x):
            interp.assign(g.target, x, e)
            for c in g.ifs:
                if not interp.truth(interp.ev(c, e)):
                    return None
            rec(i + 1)
            return None
        for kd, seg in segments(src):
            if kd == 'items':
                for x in seg:
                    one(x)
            else:
                def iteration(k, seg=seg):
                    if seg.cond is not None and not decide(seg.cond(k)):
                        return None
                    return one(seg.elem(k))
                sym_loop(seg.n, iteration)
    rec(0)
    from .interp import born
    if kind == 'gen':
        return out.finish()
    if kind == 'list':
        return born(out.items)
    return born(out)


# ----------------------------------------------------------- substitution
class Sub:
    """Simultaneous substitution of constants and uninterpreted functions."""
    def __init__(self, consts, funs=()):
        self.consts = list(consts)      # (const, term)
        self.funs = list(funs)          # (decl, body over Var)
        self.memo = {}

    def __call__(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is None:
            x = t
            if self.funs:
                x = z3.substitute_funs(x, *self.funs)
            if self.consts:
                x = z3.substitute(x, *self.consts)
            if not x.eq(t):
                x = renorm(x)
            r = (x, t)
            self.memo[i] = r
        return r[0]


def renorm(t):
    """Re-apply the reduction normal forms after a substitution."""
    return _renorm(t, {})


def _renorm(t, memo):
    i = t.get_id()
    r = memo.get(i)
    if r is not None:
        return r[0]
    if z3.is_quantifier(t) or z3.is_var(t) or t.num_args() == 0:
        out = t
    elif red.is_red(t) and not red.has_vars(t):
        n = _renorm(t.arg(0), memo)
        L = t.arg(1)
        if z3.is_quantifier(L):
            k = fresh_int('k')
            body = red.apply_lam(L, k)
            body = _renorm(body, memo)
            nm = t.decl().name()
            if red.const_n(n) is not None:
                f = lambda j: z3.substitute(body, (k, j))
                if nm == 'SUM':
                    out = red.mk_sum(n, f)
                elif nm == 'SUMI':
                    out = red.mk_sumi(n, f)
                elif nm == 'FIRST':
                    out = red.mk_first(n, f)
                else:
                    out = red.mk_argmax(n, f)
            elif nm == 'SUM':
                out = red.sum_body(n, body, k)
            elif nm == 'SUMI':
                out = red.mk_sumi_body(n, body, k)
            elif nm == 'FIRST':
                out = red.first_body(n, simp(body) if False else body, k)
            else:
                out = red.ARGMAX(n, red.lam(body, k)) if red.occurs(k, body) else ZERO
        else:
            out = t
    else:
        ch = t.children()
        new = [_renorm(c, memo) for c in ch]
        out = t if all(a.eq(b) for a, b in zip(ch, new)) else red.rebuild(t, new)
        kd = red.kind(out)
        if kd == red.K_ITE and out.num_args() == 3:
            c = out.arg(0)
            if red.kind(c) in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and \
                    all(const_of(x) is not None for x in c.children()):
                c = simp(c)
            if z3.is_true(c):
                out = out.arg(1)
            elif z3.is_false(c):
                out = out.arg(2)
    memo[i] = (out, t)
    return out


def subst_value(v, sub):
    """Apply a substitution to a Python value."""
    if isinstance(v, SReal):
        return SReal(sub(v.t), None if v.cls is None else sub(v.cls))
    if isinstance(v, SVal):
        return wrap(sub(v.t))
    if v is None or isinstance(v, (int, float, str, bool, bytes, type)):
        return v
    m = getattr(v, 'pv_subst', None)
    if m is not None:
        return m(sub)
    if isinstance(v, SArr):
        nd = v.ndim
        f = v.elem_fn()
        idx = [fresh_int('sx') for _ in range(nd)]
        facts = [in_range(i, dim_t(d)) for i, d in zip(idx, v._shape)]
        with quant(*facts):
            e = f(tuple(idx))
        shape = tuple(wrap(sub(dim_t(d))) for d in v._shape)
        cache = {}

        def fn(ix):
            key = tuple(i.get_id() for i in ix)
            r = cache.get(key)
            if r is None:
                s2 = Sub(sub.consts + list(zip(idx, ix)), sub.funs)
                r = (subst_value(e, s2), ix)
                cache[key] = r
            return r[0]
        out = SArr._mk(shape, Storage(fn), arr.ident, lambda s: (TRUE, s), v._dtype, None)
        if type(v) is not SArr:
            out.__class__ = type(v)
            for k, x in v.__dict__.items():
                if k not in ('_st', '_fwd', '_inv', '_shape', '_dtype', '_base'):
                    out.__dict__[k] = subst_value(x, sub)
        return out
    if isinstance(v, tuple):
        return tuple(subst_value(x, sub) for x in v)
    if isinstance(v, list):
        return [subst_value(x, sub) for x in v]
    if isinstance(v, dict):
        return {k: subst_value(x, sub) for k, x in v.items()}
    if isinstance(v, Seg):
        return Seg(subst_value(v.seq, sub))
    if isinstance(v, SymSeq):
        n = sub(v.n)
        k0 = fresh_int('sq')
        with quant(in_range(k0, v.n)):
            c0 = None if v.cond is None else v.cond(k0)
            with core.local_facts(*( [] if c0 is None else [c0])):
                e0 = v.elem(k0)
        return SymSeq(n, lambda k: subst_value(e0, Sub(sub.consts + [(k0, k)], sub.funs)),
                      None if c0 is None else (lambda k: Sub(sub.consts + [(k0, k)], sub.funs)(c0)))
    if isinstance(v, Compressed):
        k0 = fresh_int('sq')
        with quant(in_range(k0, dim_t(v.n))):
            c0 = v.cond(k0)
            with core.local_facts(c0):
                e0 = v.elem(k0)
        return Compressed(wrap(sub(dim_t(v.n))), lambda k: Sub(sub.consts + [(k0, k)], sub.funs)(c0),
                          lambda k: subst_value(e0, Sub(sub.consts + [(k0, k)], sub.funs)), v.dtype)
    if callable(v) and not hasattr(v, '__dict__'):
        return v
    if getattr(v, '_pv_node', None) is not None or getattr(v, 'pv_immutable', False):
        return v
    if hasattr(v, '__dict__'):
        o = object.__new__(type(v))
        for k, x in v.__dict__.items():
            o.__dict__[k] = subst_value(x, sub)
        return o
    raise Unsupported("substitution in %s" % type(v).__name__)


# -------------------------------------------------------------- locations
class Loc:
    """A location the body writes."""
    def __init__(self, kind, obj, name=None):
        self.kind, self.obj, self.name = kind, obj, name
        self.key = (kind, id(obj), name)
        self.mode = None
        self.widen = set()
        if kind == 'arr':
            self.v0 = obj.snapshot()
        elif kind == 'list':
            self.v0 = list(obj)
        else:
            self.v0 = self.raw()

    @staticmethod
    def raw_of(entry):
        from .interp import UNBOUND
        d = entry[1] if entry[0] == 'var' else entry[1].__dict__
        return d.get(entry[2], UNBOUND)

    def raw(self):
        from .interp import UNBOUND
        if self.kind in ('var', 'item'):
            return self.obj.get(self.name, UNBOUND)
        if self.kind == 'attr':
            return self.obj.__dict__.get(self.name, UNBOUND)
        if self.kind == 'arr':
            return self.obj.snapshot()
        if self.kind == 'list':
            return list(self.obj)

    def put(self, v):
        from .interp import UNBOUND, write_slot, snapshot
        if self.kind in ('var', 'item', 'attr'):
            d = self.obj if self.kind != 'attr' else self.obj.__dict__
            if State.journal is not None:
                if self.kind == 'item':
                    snapshot(d)
                else:
                    old = d.get(self.name, UNBOUND)

                    def undo(d=d, name=self.name, old=old):
                        if old is UNBOUND:
                            d.pop(name, None)
                        else:
                            d[name] = old
                    core.record((self.kind, self.obj, self.name), undo)
            if v is UNBOUND:
                d.pop(self.name, None)
            else:
                d[self.name] = v
        elif self.kind == 'arr':
            self.obj.set(v)
        elif self.kind == 'list':
            snapshot(self.obj)
            self.obj[:] = v

    def describe(self):
        return "%s %s" % (self.kind, self.name if self.name else type(self.obj).__name__)


class Comp:
    """One real/int/bool component of a location."""
    def __init__(self, loc, part, h, params, x0, decl=None, bounds=()):
        self.loc, self.part, self.h, self.params, self.x0 = loc, part, h, params, x0
        self.decl = decl        # UF of array components
        self.bounds = list(bounds)
        self.T = []             # (cond, term) per normal path
        self.cf = None          # K -> term (over params)


def loc_of(entry):
    kind = entry[0]
    if kind in ('var', 'attr', 'item'):
        return Loc(kind, entry[1], entry[2])
    if kind in ('arr', 'list', 'dict', 'set'):
        return Loc(kind, entry[1]) if kind in ('arr', 'list') else entry
    return entry


def preexisting(kind, obj, mark):
    if kind == 'arr':
        return obj.serial <= mark
    if isinstance(obj, SArr):
        return obj.__dict__.get('_serial', 0) <= mark
    b = State.born.get(id(obj))
    if b is not None and b[1] is obj and b[0] > mark:
        return False
    return True


def num_sort(v):
    if isinstance(v, (bool, SBool)):
        return B
    if isinstance(v, (int, SInt)):
        return I
    if isinstance(v, (float, SReal)):
        return R
    if isinstance(v, SObj):
        return U
    return None


class SOpt(SVal):
    """None or a value."""
    __slots__ = ('isnone', 'val')

    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val

    def __eq__(self, o):
        if o is None:
            return wrap(self.isnone)
        raise Unsupported("use of a value that may be None")

    def __hash__(self):
        return 0


class Path:
    __slots__ = ('pc', 'sig', 'vals', 'obs', 'cond', 'exc')


class Loop:
    def __init__(self, n, iteration, must_exit):
        self.n = n
        self.iteration = iteration
        self.must_exit = must_exit
        self.mark = core.next_serial()
        self.k = fresh_int('it')
        self.facts = [tle(ZERO, self.k), tlt(self.k, n)]
        self.locs = {}
        self.modes = {}

    # -- one exploration of the body from the current (havocked) state
    def paths(self, base):
        out = []
        written = {}

        def run():
            J = Journal()
            prev = State.journal
            State.journal = J
            p = Path()
            p.exc = None
            try:
                try:
                    p.sig = self.iteration(self.k)
                except EngineExc:
                    raise
                except Exception as e:
                    p.sig, p.exc = None, e
                for loc, _ in J.entries:
                    kind, obj = loc[0], loc[1]
                    if not preexisting(kind, obj, self.mark):
                        continue
                    key = (kind, id(obj), loc[2] if len(loc) > 2 else None)
                    written.setdefault(key, loc)
                p.vals = {}
                if p.exc is None:
                    for key, loc in self.locs.items():
                        p.vals[key] = self.capture(loc)
                    for d in [x for x in written.values() if x[0] == 'dict']:
                        p.vals[('dict', id(d[1]), None)] = dict(d[1])
                for key, w in written.items():
                    if w[0] in ('var', 'attr') and key not in self.locs:
                        p.vals[('raw',) + key] = Loc.raw_of(w)
            finally:
                # what the iteration created itself keeps its final contents
                J.undo(lambda loc: preexisting(loc[0], loc[1], self.mark))
                State.journal = prev
            return p
        nb = len(base)
        for c, p, exc, dead in core.explore(run, base):
            if dead:
                continue
            if exc is not None:
                raise exc
            p.pc = list(c.pc[nb:])
            p.obs = c.obs
            out.append(p)
        return out, written

    def capture(self, loc):
        """Current value of a location, as terms."""
        if loc.kind == 'arr':
            comps = loc.comps
            idx = comps[0].params
            with quant(*comps[0].bounds):
                return loc.obj.snapshot()(tuple(idx))
        if loc.kind == 'list':
            return list(loc.obj)
        v = loc.raw()
        if loc.mode == 'sarr' and isinstance(v, SArr):
            if v.ndim != len(loc.comps[0].params):
                raise Unsupported("array variable changes its dimension in a loop")
            for a, b in zip(v._shape, loc.v0._shape):
                if not dim_t(a).eq(dim_t(b)) and not prove(teq(dim_t(a), dim_t(b))):
                    raise Unsupported("array variable changes its shape in a loop")
            with quant(*loc.comps[0].bounds):
                e = v.elem_fn()(tuple(loc.comps[0].params))
            return e
        return v

    def havoc(self, loc):
        """Put an arbitrary value into the location; sets loc.comps."""
        from .interp import Poison, UNBOUND
        loc.comps = []
        w = self.modes.get(loc.key, set())
        if loc.kind == 'list':
            def bad(*a):
                raise Unsupported("list that grows in the loop is read in the loop")
            loc.mark = Seg(SymSeq(fresh_int('hl'), bad))
            loc.put([loc.mark])
            loc.mode = 'list'
            return
        if loc.kind == 'arr':
            st = loc.obj
            d = getattr(st, 'tag', None)
            shape, dt = self.arr_info[id(st)]
            nd = len(shape)
            idx = [fresh_int('x') for _ in shape]
            bounds = [in_range(i, dim_t(s)) for i, s in zip(idx, shape)]
            with quant(*bounds):
                e0 = loc.v0(tuple(idx))
            self.mk_elem_comps(loc, idx, bounds, e0, w, lambda fn: loc.put(fn), dt)
            loc.mode = 'arr'
            return
        v = loc.v0
        if isinstance(v, SArr) and 'poison' not in w:
            idx = [fresh_int('x') for _ in v._shape]
            bounds = [in_range(i, dim_t(s)) for i, s in zip(idx, v._shape)]
            with quant(*bounds):
                e0 = v.elem_fn()(tuple(idx))
            dt = arr.f8 if 'real' in w and v._dtype.kind in 'iub' else v._dtype
            loc.dt = dt

            def put(fn):
                loc.put(SArr.make(v._shape, fn, dt))
            self.mk_elem_comps(loc, idx, bounds, e0, w, put, dt)
            loc.mode = 'sarr'
            return
        s = num_sort(v)
        if s is None and v is None and 'opt' in w:
            srt = I if 'real' not in w else R
            hb = z3.Bool(fresh_name('hn'))
            hv = z3.Const(fresh_name('hv'), srt)
            loc.comps = [Comp(loc, 'none', hb, [], TRUE),
                         Comp(loc, 't', hv, [], z3.IntVal(0) if srt == I else RZERO)]
            loc.put(SOpt(hb, wrap(hv)))
            loc.mode = 'opt'
            return
        if s is None or 'poison' in w:
            loc.mode = 'poison'
            if v is not UNBOUND:
                loc.put(Poison("value carried around a loop"))
            return
        if 'real' in w and s in (I, B):
            s = R
        elif 'int' in w and s == B:
            s = I
        h = z3.Const(fresh_name('h_' + str(loc.name)), s)
        x0 = as_term(v) if not (isinstance(v, SReal) or isinstance(v, float)) else core.lift(v).t
        if s == R:
            x0 = toreal(iterm(v)) if not isinstance(v, (float, SReal)) else core.lift(v).t
        elif s == I:
            x0 = iterm(v)
        loc.comps = [Comp(loc, 't', h, [], x0)]
        if s == R and ('cls' in w or has_cls(core.lift(v))):
            hc = z3.Int(fresh_name('hc'))
            loc.comps.append(Comp(loc, 'c', hc, [], cls_of(core.lift(v))))
            loc.put(SReal(h, hc))
        else:
            loc.put(wrap(h))
        loc.mode = 'num'

    def mk_elem_comps(self, loc, idx, bounds, e0, w, put, dt):
        e0 = core.lift(e0)
        if e0 is None:
            raise Unsupported("array of objects changed in a loop")
        if isinstance(e0, SBool):
            s = B
        elif isinstance(e0, SInt):
            s = I
        elif isinstance(e0, SReal):
            s = R
        else:
            s = U
        if dt.kind == 'f' and s in (I, B):
            e0 = arr.scalar_astype(e0, dt)
            e0, s = core.lift(e0), R
        nd = len(idx)
        name = fresh_name('hA')
        dom = [I] * nd
        f = z3.Function(name, *dom, s) if nd else None
        h = f(*idx) if nd else z3.Const(name, s)
        loc.comps = [Comp(loc, 't', h, idx, e0.t, f, bounds)]
        cls = s == R and ('cls' in w or has_cls(e0))
        if cls:
            g = z3.Function(name + 'c', *dom, I) if nd else None
            hc = g(*idx) if nd else z3.Int(name + 'c')
            loc.comps.append(Comp(loc, 'c', hc, idx, cls_of(e0), g, bounds))

            def fn(ix):
                return SReal(f(*ix), g(*ix)) if nd else SReal(h, hc)
        else:
            def fn(ix):
                return wrap(f(*ix)) if nd else wrap(h)
        put(fn)

    def need_modes(self, p):
        """Representation changes required by the values of path p."""
        changed = False

        def req(loc, m):
            nonlocal changed
            w = self.modes.setdefault(loc.key, set())
            if m not in w:
                w.add(m)
                changed = True
        for key, loc in self.locs.items():
            v = p.vals.get(key)
            if loc.mode == 'num':
                s = num_sort(v)
                hs = loc.comps[0].h.sort()
                if s is None or (s == U) != (hs == U):
                    req(loc, 'poison')
                elif s == R and hs in (I, B):
                    req(loc, 'real')
                elif s == I and hs == B:
                    req(loc, 'int')
                if s == R and isinstance(v, (SReal, float)) and has_cls(core.lift(v)) and len(loc.comps) < 2:
                    req(loc, 'cls')
            elif loc.mode in ('arr', 'sarr'):
                if loc.mode == 'sarr' and not isinstance(v, (SVal, int, float, bool)):
                    req(loc, 'poison')
                    continue
                lv = core.lift(v)
                if lv is None:
                    raise Unsupported("object stored into an array in a loop")
                if isinstance(lv, SReal) and loc.comps[0].h.sort() in (I, B):
                    req(loc, 'real' if loc.mode == 'sarr' else 'real')
                if has_cls(lv) and len(loc.comps) < 2:
                    req(loc, 'cls')
            elif loc.mode == 'poison' and loc.v0 is None and key in p.vals:
                s = num_sort(v)
                if s in (I, R):
                    req(loc, 'opt')
                    if s == R:
                        req(loc, 'real')
        return changed

    # -- everything
    def discover(self):
        base = list(core.pc()) + self.facts
        self.arr_info = {}
        for rnd in range(12):
            J = Journal()
            prev = State.journal
            State.journal = J
            try:
                for loc in self.locs.values():
                    self.havoc(loc)
                # the havocs themselves must be undone, but not be seen as writes
                paths, written = self.paths(base)
            finally:
                J.undo()
                State.journal = prev
            new = False
            for key, entry in written.items():
                kind, obj = entry[0], entry[1]
                if key in self.locs:
                    continue
                if kind == 'arr':
                    self.arr_info[id(obj)] = arr_shape_of(obj)
                    self.locs[key] = Loc('arr', obj)
                elif kind in ('var', 'attr'):
                    # e.g. x += y on an array: the name keeps the same object,
                    # whose contents are a location of their own
                    v0 = Loc.raw_of(entry)
                    if isinstance(v0, SArr) and all(p.vals.get(('raw',) + key, v0) is v0 for p in paths):
                        continue
                    self.locs[key] = Loc(kind, obj, entry[2])
                    if v0 is None:
                        # None until it is first set to a number
                        raws = [p.vals.get(('raw',) + key) for p in paths if p.exc is None]
                        sorts = set(num_sort(x) for x in raws if x is not None)
                        if sorts and sorts <= {I, R}:
                            self.modes.setdefault(key, set()).update({'opt'} | ({'real'} if R in sorts else set()))
                elif kind == 'list':
                    self.locs[key] = Loc('list', obj)
                elif kind == 'dict':
                    ks = set()
                    for p in paths:
                        d = p.vals.get(('dict', id(obj), None))
                        if d is None:
                            continue
                        for kk in set(d) | set(obj):
                            if kk not in d:
                                raise Unsupported("dictionary entry deleted in a loop")
                            if kk not in obj or d[kk] is not obj[kk]:
                                ks.add(kk)
                    for kk in ks:
                        if isinstance(kk, SVal):
                            raise Unsupported("dictionary with symbolic keys built in a loop")
                        lk = ('item', id(obj), kk)
                        if lk not in self.locs:
                            self.locs[lk] = Loc('item', obj, kk)
                            new = True
                    continue
                elif kind in core_extra:
                    raise Unsupported("object %s changed in a loop" % type(obj).__name__)
                else:
                    raise Unsupported("%s changed in a loop" % kind)
                new = True
            if new:
                continue
            ch = False
            for p in paths:
                if p.exc is None:
                    ch = self.need_modes(p) or ch
            if not ch:
                self.pathlist = paths
                return
        raise Unsupported("loop state does not stabilise")


core_extra = ()


def arr_shape_of(st):
    if st.info is None:
        raise Unsupported("array of unknown shape changed in a loop")
    return st.info


def run_loop(n, iteration, must_exit=False):
    from .interp import BREAK, CONT, Ret, Poison, UNBOUND
    L = Loop(n, iteration, must_exit)
    L.discover()
    k = L.k
    base_n = len(core.pc())
    normal, exits = [], []
    for p in L.pathlist:
        p.cond = tand(*p.pc)
        if p.exc is None and (p.sig is None or p.sig is CONT):
            normal.append(p)
        else:
            exits.append(p)
    comps = [c for loc in L.locs.values() for c in loc.comps]
    # transitions
    for c in comps:
        loc = c.loc
        for p in normal:
            v = p.vals[loc.key]
            if loc.mode == 'opt':
                if isinstance(v, SOpt):
                    t = v.isnone if c.part == 'none' else v.val.t
                elif v is None:
                    t = TRUE if c.part == 'none' else c.h
                else:
                    t = FALSE if c.part == 'none' else fit(core.lift(v).t, c.h.sort())
            else:
                lv = core.lift(v)
                t = cls_of(lv) if c.part == 'c' else fit(lv.t, c.h.sort())
            c.T.append((p.cond, t))
    solved = []
    todo = list(comps)
    progress = True
    while todo and progress:
        progress = False
        for c in list(todo):
            if try_solve(L, c, solved, todo, normal):
                todo.remove(c)
                solved.append(c)
                progress = True
        if todo and not progress:
            for c in slot_group(L, todo, solved):
                todo.remove(c)
                solved.append(c)
                progress = True
    if todo:
        raise Unsupported("loop: no closed form for %s" % ", ".join(c.loc.describe() for c in todo))

    def sub_at(K):
        return closed_sub(solved, K, k)
    at_k = sub_at(k)
    # exits
    E = []
    for p in exits:
        e = at_k(p.cond) if p.pc else TRUE
        if not z3.is_true(e) and not z3.is_false(e):
            if red.prove(list(core.pc()) + L.facts, tnot(e)):
                continue
            if p.exc is not None and red.query(list(core.pc()) + L.facts, tnot(e), timeout=2000, levels=1, use_cvc5=False)[0] == 'proved':
                continue
        if z3.is_false(e):
            continue
        E.append(e)
    nn = red.clamp0(n)
    F = None
    if E:
        anyE = tor(*E)
        F = red.first_body(n, anyE, k)
    # obligations of the body, for every executed iteration
    extra = list(L.facts)
    if F is not None:
        extra.append(tle(k, F))
    cctx = core.ctx()
    seen = set()
    for p in L.pathlist:
        for ob in p.obs:
            goal = at_k(ob.goal)
            if z3.is_true(simp(goal)):
                cctx.obs.append(Ob(ob.name, [], TRUE, ob.path, ob.kind))
                continue
            pcs = [at_k(x) for x in ob.pc] + extra
            cctx.obs.append(Ob(ob.name, pcs, goal, ob.path, ob.kind))

    def set_state(K):
        sub = sub_at(K)
        for loc in L.locs.values():
            if loc.mode == 'list':
                loc.put(closed_list(L, loc, K, k, solved, normal))
                continue
            if loc.mode == 'poison':
                if loc.v0 is UNBOUND and not normal:
                    continue
                loc.put(Poison("assigned in a loop"))
                continue
            if loc.mode in ('arr', 'sarr'):
                fn = closed_elem(loc.comps, K)
                if loc.mode == 'arr':
                    loc.put(fn)
                else:
                    loc.put(SArr.make(loc.v0._shape, fn, loc.dt))
                continue
            if loc.mode == 'opt':
                v = SOpt(loc.comps[0].cf(K, []), wrap(loc.comps[1].cf(K, [])))
                if z3.is_true(v.isnone):
                    v = None
                elif z3.is_false(v.isnone):
                    v = v.val
                loc.put(v)
                continue
            t = loc.comps[0].cf(K, [])
            if len(loc.comps) > 1:
                loc.put(SReal(t, simp(loc.comps[1].cf(K, []))))
            else:
                loc.put(wrap(t))
    if F is not None:
        if not must_exit and State.journal is not None and merged_break(L, exits, F, nn, k, solved):
            return None
        if must_exit:
            core.assume(wrap(tand(tlt(F, n), tle(ZERO, n))))
            stop = True
        else:
            stop = decide(tlt(F, nn))
        if stop:
            anyF = Sub([(k, F)])(anyE)
            set_state(F)
            core.assume(wrap(tand(tle(ZERO, F), tlt(F, n))))
            core.assume(wrap(anyF))
            sig = iteration(F)
            if sig is None or sig is CONT:
                raise PathAbort()
            return sig
    elif must_exit:
        raise Unsupported("loop that never ends")
    set_state(nn)
    return None


def latched(L, loc, exits):
    """The loop only breaks when this variable has been latched, in the same
    way as by an iteration without break: the break does not matter to it."""
    c = loc.comps[0]
    if getattr(c, 'latch', None) is None or c.params:
        return False
    T, H = c.latch
    T = z3.substitute(T, (H, c.h))
    facts = list(core.pc()) + L.facts
    for p in exits:
        x = core.lift(p.vals[loc.key])
        if has_cls(x):
            return False
        e = fit(x.t, c.h.sort())
        for goal in (teq(e, T), tnot(teq(e, c.x0))):
            if not red.prove_full(facts + list(p.pc), goal, timeout=2000):
                return False
    return True


def merged_break(L, exits, F, nn, k, solved):
    """A nested loop over numbers that may break: merge the values after a
    break with those after running to the end."""
    from .interp import BREAK, Poison, UNBOUND
    if any(p.exc is not None or p.sig is not BREAK for p in exits):
        return False
    if any(loc.mode not in ('num', 'poison') for loc in L.locs.values()):
        return False
    sub = closed_sub(solved, F, k)
    new = []
    try:
        for loc in L.locs.values():
            if loc.mode == 'poison':
                continue
            stop = tlt(F, nn)
            t, c = loc.comps[0].cf(nn, []), (loc.comps[1].cf(nn, []) if len(loc.comps) > 1 else None)
            end = SReal(t, simp(c)) if c is not None else wrap(t)
            if c is None and latched(L, loc, exits):
                new.append((loc, end))
                continue
            v = None
            for p in exits:
                x = core.lift(p.vals[loc.key])
                if isinstance(x, SReal):
                    x = SReal(sub(x.t), simp(sub(x.cls)) if has_cls(x) else None)
                else:
                    x = wrap(sub(x.t))
                v = x if v is None else core.s_ite(wrap(sub(p.cond)), x, v)
            new.append((loc, core.s_ite(wrap(stop), v, end)))
    except Unsupported:
        return False
    for loc, v in new:
        loc.put(v)
    for loc in L.locs.values():
        if loc.mode == 'poison':
            loc.put(Poison("assigned in a loop"))
    return True


def sym_loop(n, iteration, must_exit=False):
    if State.quant_depth:
        raise Unsupported("loop inside an element expression")
    n = simp(n)
    if not must_exit:
        c = const_of(n)
        if c is not None and (c <= UNROLL or (red.Cfg.cex_mode and c <= MAX_UNROLL)):
            from .interp import BREAK, CONT, Ret
            for i in range(max(c, 0)):
                r = iteration(z3.IntVal(i))
                if r is not None and r is not CONT:
                    return r
            return None
        if prove(tle(n, ZERO)):
            return None
    return run_loop(n, iteration, must_exit)


def fit(t, s):
    if t.sort() == s:
        return t
    if s == R:
        return toreal(tite(t, ONE, ZERO) if t.sort() == B else t)
    if s == I and t.sort() == B:
        return tite(t, ONE, ZERO)
    raise Unsupported("sort mismatch in a loop")


def closed_elem(comps, K):
    def fn(ix):
        t = comps[0].cf(K, list(ix))
        if len(comps) > 1:
            return SReal(t, simp(comps[1].cf(K, list(ix))))
        return wrap(t)
    return fn


def closed_sub(solved, K, k):
    consts, funs = [], []
    for c in solved:
        if c.decl is None:
            consts.append((c.h, c.cf(K, [])))
        else:
            ps = [z3.Int('ρ%d' % i) for i in range(len(c.params))]
            body = c.cf(K, ps)
            if z3.is_app(body) or True:
                lamb = z3.Lambda(list(reversed(ps)), body)
                funs.append((c.decl, lamb.body()))
    if not K.eq(k):
        # the closed forms may mention k nowhere else than through K
        return Sub([(k, K)] + consts, funs)
    return Sub(consts, funs)


def mentions(t, c):
    """Does t mention component c's havoc symbol?"""
    if c.decl is None:
        return red.occurs(c.h, t)
    return any(True for _ in apps_of(t, c.decl))


def apps_of(t, decl):
    seen = set()
    stack = [t]
    did = decl.get_id() if hasattr(decl, 'get_id') else None
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.decl().eq(decl):
                yield x
            stack.extend(x.children())


def merge(ts):
    """[(cond, term)] exclusive and exhaustive -> ite"""
    r = ts[-1][1]
    for c, t in reversed(ts[:-1]):
        r = tite(c, t, r)
    return r


def try_solve(L, c, solved, todo, normal):
    k = L.k
    if not c.T:
        # no path continues: the state before iteration k is the initial one
        c.cf = lambda K, ix: at_params(c, c.x0, ix)
        return True
    if all(t.eq(c.h) for _, t in c.T):
        c.cf = lambda K, ix: at_params(c, c.x0, ix)
        return True
    T = merge(c.T)
    sub = closed_sub(solved, k, k)
    T = sub(T)
    others = [o for o in todo if o is not c]
    if any(mentions(T, o) for o in others):
        T = reduced(L, c, sub, others, normal)
        if T is None:
            return False
    facts = list(core.pc()) + L.facts + c.bounds
    cf = classify(L, c, T, facts)
    if cf is None:
        return False
    c.cf = cf
    return True


def slot_group(L, todo, solved):
    """Arrays of which iteration k writes slot k only (along one axis) and
    reads, of any of them, slot k only: what it reads are initial values."""
    k = L.k
    sub = closed_sub(solved, k, k)
    facts = list(core.pc()) + L.facts
    group = {}
    for c in todo:
        if c.decl is None or not c.T:
            continue
        T = sub(merge(c.T))
        g = write_guard(T, c.h)
        for j, p in enumerate(c.params):
            if red.prove_full(facts + c.bounds + [g], teq(p, k), timeout=3000):
                group[c] = (T, j)
                break
    while group:
        out = {}
        for c, (T, j) in group.items():
            at = facts + c.bounds + [teq(c.params[j], k)]
            reps, ok = [], True
            if any(mentions(T, o) for o in todo if o not in group):
                continue
            for o, (_, oj) in group.items():
                for a in list(apps_of(T, o.decl)):
                    x = a.children()[oj]
                    if red.has_vars(a) or not (x.eq(k) or red.prove_full(at, teq(x, k), timeout=2000)):
                        ok = False
                        break
                    reps.append((a, at_params(o, o.x0, a.children())))
                if not ok:
                    break
            if ok:
                # innermost reads first, so that nested ones are found again
                T2 = z3.substitute(T, *reps) if reps else T
                if not any(mentions(T2, o) for o in todo):
                    out[c] = (T2, j)
        if set(out) == set(group):
            break
        group = {c: group[c] for c in out}
    for c in group:
        T2, j = out[c]

        def cf(K, ix, c=c, T2=T2, j=j):
            v = Sub(list(zip(c.params, ix)) + [(k, ix[j])])(T2)
            return tite(tand(tle(ZERO, ix[j]), tlt(ix[j], K)), v, at_params(c, c.x0, ix))
        c.cf = cf
    return list(group)


def reduced(L, c, sub, others, normal):
    """Transition of c from the conjuncts of the path conditions that do not
    mention other unsolved components, if they still tell the values apart."""
    groups = []
    for p, (_, t) in zip(normal, c.T):
        t = sub(t)
        if any(mentions(t, o) for o in others):
            return None
        r = []
        for x in p.pc:
            for y in red.split_goal(x):
                y = sub(y)
                if not any(mentions(y, o) for o in others):
                    r.append(y)
        r = simp(tand(*r))
        for g in groups:
            if g[0].eq(t):
                g[1].append(r)
                break
        else:
            groups.append((t, [r]))
    gs = [(simp(tor(*dedup(rs))), t) for t, rs in groups]
    facts = list(core.pc()) + L.facts + c.bounds
    for i in range(len(gs)):
        for j in range(i):
            if not red.prove_full(facts, tnot(tand(gs[i][0], gs[j][0])), timeout=2000):
                return None
    gs.sort(key=lambda g: g[1].eq(c.h))
    return merge(gs)


def dedup(ts):
    out = {}
    for t in ts:
        out.setdefault(t.get_id(), t)
    return list(out.values())


def at_params(c, t, ix):
    if not c.params:
        return t
    return Sub(list(zip(c.params, ix)))(t)


def classify(L, c, T, facts):
    k, h, x0 = L.k, c.h, c.x0
    H = z3.Const(fresh_name('H'), h.sort())
    if c.decl is not None:
        T = own_slot(L, c, T, facts, H)
        if T is None:
            return None
    else:
        T = z3.substitute(T, (h, H))
    # T over H, k and the params

    def inst(t, K, ix, extra=()):
        return Sub(list(zip(c.params, ix)) + list(extra))(t)
    dep = red.occurs(H, T)
    pos = lambda K: tlt(ZERO, K) if not z3.is_true(simp(tlt(ZERO, K))) else TRUE
    if not dep:
        return lambda K, ix: tite(tle(K, ZERO), inst(x0, K, ix), inst(T, K, ix, [(k, simp(K - 1))]))
    if T.eq(H):
        return lambda K, ix: inst(x0, K, ix)
    s = h.sort()
    # accumulation
    if s in (I, R):
        d = split_add(T, H)
        if d is not None and not red.occurs(H, d):
            if s == R:
                def cf(K, ix):
                    q = fresh_int('k')
                    body = inst(d, K, ix, [(k, q)])
                    return tadd(inst(x0, K, ix), sumr(K, body, q))
            else:
                def cf(K, ix):
                    q = fresh_int('k')
                    body = inst(d, K, ix, [(k, q)])
                    return simp(tadd(inst(x0, K, ix), sumi(K, body, q)))
            return cf
    # guarded overwrite
    g = split_guard(T, H)
    if g is not None:
        cond, val = g
        if not red.occurs(H, cond):
            e = red.eq_point(cond, k)
            if e is not None:
                at, rest = e

                def cf(K, ix, at=at, rest=rest):
                    a = inst(at, K, ix)
                    r = inst(rest, K, ix, [(k, a)])
                    v = inst(val, K, ix, [(k, a), (H, inst(x0, K, ix))])
                    return tite(tand(tle(ZERO, a), tlt(a, K), r), v, inst(x0, K, ix))
                return cf
            if not red.occurs(H, val):
                def cf(K, ix):
                    q = fresh_int('k')
                    body = inst(cond, K, ix, [(k, simp(K - 1 - q))])
                    r = red.first_body(K, body, q)
                    at = simp(K - 1 - r)
                    return tite(tlt(r, red.clamp0(K)), inst(val, K, ix, [(k, at)]), inst(x0, K, ix))
                return cf
    # running maximum / minimum
    if s in (I, R):
        m = split_max(T, H, facts)
        if m is not None:
            sign, v = m

            def cf(K, ix):
                q = fresh_int('k')
                body = inst(v, K, ix, [(k, q)])
                x = inst(x0, K, ix)
                b = toreal(body) if sign > 0 else red.neg(toreal(body))
                am = red.ARGMAX(K, red.lam(b, q)) if red.occurs(q, b) else ZERO
                best = z3.substitute(body, (q, am))
                pick = tlt(x, best) if sign > 0 else tlt(best, x)
                return tite(tand(tlt(ZERO, K), pick), best, x)
            return cf
    # latch: once different from x0 it never changes again
    g2 = fresh_name('H2')
    H2 = z3.Const(g2, s)
    T2 = z3.substitute(T, (H, H2))
    if red.prove_full(facts + [tnot(teq(H2, x0))], teq(T2, H2), timeout=3000):
        f = z3.substitute(T, (H, x0))
        c.latch = (T, H)

        def cf(K, ix):
            q = fresh_int('k')
            xi = inst(x0, K, ix)
            body = inst(f, K, ix, [(k, q)])
            if s == B and z3.is_false(xi):
                p = body
            elif s == B and z3.is_true(xi):
                p = tnot(body)
            else:
                p = tnot(teq(body, xi))
            p = drop_trivial(p)
            r = red.first_body(K, p, q)
            return tite(tlt(r, red.clamp0(K)), z3.substitute(changed_value(body, xi), (q, r)), xi)
        return cf
    return None


def changed_value(body, x):
    """The value of body where it is known to differ from x."""
    while red.kind(body) == red.K_ITE:
        c, a, b = body.children()
        if b.eq(x):
            body = a
        elif a.eq(x):
            body = b
        else:
            break
    return body


def drop_trivial(p):
    """¬(ite(c, v, x) == x)  ->  c ∧ v != x   (readability of FIRST)."""
    if red.kind(p) == z3.Z3_OP_NOT:
        e = p.arg(0)
        if red.kind(e) == z3.Z3_OP_EQ and red.kind(e.arg(0)) == red.K_ITE:
            c, a, b = e.arg(0).children()
            x = e.arg(1)
            if b.eq(x):
                return tand(c, drop_trivial(tnot(teq(a, x))))
            if a.eq(x):
                return tand(tnot(c), drop_trivial(tnot(teq(b, x))))
    return p


def sumr(K, body, q):
    c = red.const_n(K)
    if c is not None:
        return red.mk_sum(K, lambda j: z3.substitute(body, (q, j)))
    return red.sum_body(K, toreal(body), q)


def sumi(K, body, q):
    c = red.const_n(K)
    if c is not None:
        return red.mk_sumi(K, lambda j: z3.substitute(body, (q, j)))
    return red.mk_sumi_body(K, body, q)


def split_add(T, H):
    """T == H + d with d free of H."""
    if T.eq(H):
        return ZERO if H.sort() == I else RZERO
    kd = red.kind(T)
    if kd == red.K_ITE:
        c, a, b = T.children()
        if red.occurs(H, c):
            return None
        da, db = split_add(a, H), split_add(b, H)
        if da is None or db is None:
            return None
        return tite(c, da, db)
    if kd == red.K_ADD:
        ch = T.children()
        for i, x in enumerate(ch):
            if red.occurs(H, x):
                rest = ch[:i] + ch[i + 1:]
                if any(red.occurs(H, y) for y in rest):
                    return None
                d = split_add(x, H)
                if d is None:
                    return None
                r = d
                for y in rest:
                    r = tadd(r, y)
                return r
        return None
    if kd == red.K_SUB:
        ch = T.children()
        if any(red.occurs(H, y) for y in ch[1:]):
            return None
        d = split_add(ch[0], H)
        if d is None:
            return None
        for y in ch[1:]:
            d = tsub(d, y)
        return d
    return None


def split_guard(T, H):
    """T == ite(cond, val, H) -> (cond, val)"""
    kd = red.kind(T)
    if T.sort() == B:
        if kd == z3.Z3_OP_OR:
            ch = [x for x in T.children() if not x.eq(H)]
            if len(ch) < T.num_args() and not any(red.occurs(H, x) for x in ch):
                return tor(*ch), TRUE
        if kd == z3.Z3_OP_AND:
            ch = [x for x in T.children() if not x.eq(H)]
            if len(ch) < T.num_args() and not any(red.occurs(H, x) for x in ch):
                return tnot(tand(*ch)), FALSE
    if kd == red.K_ITE:
        c, a, b = T.children()
        if b.eq(H):
            g = split_guard(a, H)
            return (c, a) if g is None else (tand(c, g[0]), g[1])
        if a.eq(H):
            g = split_guard(b, H)
            return (tnot(c), b) if g is None else (tand(tnot(c), g[0]), g[1])
        ga, gb = split_guard(a, H), split_guard(b, H)
        if ga is not None and gb is not None:
            xs, ys = red.split_goal(ga[0]), red.split_goal(gb[0])
            both = [x for x in xs if any(x.eq(y) for y in ys)]
            ra = tand(*[x for x in xs if not any(x.eq(y) for y in both)])
            rb = tand(*[y for y in ys if not any(y.eq(x) for x in both)])
            if z3.is_true(ra) and z3.is_true(rb):
                return tand(*both), tite(c, ga[1], gb[1])
            return tand(*(both + [tor(tand(c, ra), tand(tnot(c), rb))])), tite(c, ga[1], gb[1])
        if ga is not None and not red.occurs(H, b):
            return tor(tnot(c), ga[0]), tite(c, ga[1], b)
        if gb is not None and not red.occurs(H, a):
            return tor(c, gb[0]), tite(c, a, gb[1])
        if ga is not None:
            # b depends on H in another way: whole b is the written value
            return tor(tnot(c), ga[0]), tite(c, ga[1], b)
        if gb is not None:
            return tor(c, gb[0]), tite(c, a, gb[1])
    return None


def split_max(T, H, facts):
    """T == max(H, v) or min(H, v), v free of H."""
    if red.kind(T) != red.K_ITE:
        return None
    c, a, b = T.children()
    v = a if b.eq(H) else (b if a.eq(H) else None)
    if v is None or red.occurs(H, v):
        return None
    for sign in (1, -1):
        m = core.tmax(H, v) if sign > 0 else core.tmin(H, v)
        if red.prove_full(facts, T == m, timeout=2000):
            return sign, v
    return None


def own_slot(L, c, T, facts, H):
    """Replace the reads of the carried array: its own element by H, elements
    not yet written by their initial value."""
    params = c.params
    me = c.h

    def leaves(t, conds):
        if red.kind(t) == red.K_ITE and t.sort() == T.sort():
            cc, a, b = t.children()
            cc2 = fix(cc, conds)
            if cc2 is None:
                return None
            la = leaves(a, conds + [cc])
            lb = leaves(b, conds + [tnot(cc)])
            if la is None or lb is None:
                return None
            return tite(cc2, la, lb)
        return fix(t, conds)

    def fix(t, conds):
        reps = []
        for a in list(apps_of(t, c.decl)):
            if red.has_vars(a):
                return None
            if a.eq(me):
                reps.append((a, H))
                continue
            eqs = tand(*[teq(x, y) for x, y in zip(a.children(), params)])
            z = [q for q in conds]
            if red.prove_full(facts + z, eqs, timeout=2000):
                reps.append((a, H))
                continue
            if unwritten(a.children(), z):
                reps.append((a, at_params(c, c.x0, a.children())))
                continue
            return None
        return z3.substitute(t, *reps) if reps else t

    guard = write_guard(T, me)

    def unwritten(args, conds):
        """slot `args` is not written by any iteration j < k"""
        if red.occurs(me, guard) or mentions(guard, c):
            return False
        j = fresh_int('j')
        gj = Sub([(L.k, j)] + list(zip(params, args)))(guard)
        return red.prove_full(facts + conds + [tle(ZERO, j), tlt(j, L.k)], tnot(gj), timeout=2000)
    return leaves(T, [])


def write_guard(T, me):
    if T.eq(me):
        return FALSE
    if red.kind(T) == red.K_ITE:
        cc, a, b = T.children()
        return tor(tand(cc, write_guard(a, me)), tand(tnot(cc), write_guard(b, me)))
    return TRUE


def closed_list(L, loc, K, k, solved, normal):
    items = []
    for p in normal:
        v = p.vals[loc.key]
        if not v or v[0] is not loc.mark:
            raise Unsupported("list rearranged in a loop")
        items.append((p.cond, v[1:]))
    n_each = set(len(x) for _, x in items)
    if n_each == {0} or not items:
        return list(loc.v0)
    if max(n_each) > 1:
        raise Unsupported("several items appended per iteration")
    with_item = [(c, x[0]) for c, x in items if x]
    if any(isinstance(x, Seg) for _, x in with_item):
        raise Unsupported("sequence appended in a loop")
    if 0 in n_each:
        cterm = tor(*[c for c, _ in with_item])
        cond = lambda q: closed_sub(solved, q, k)(cterm)
    else:
        cond = None
    if len(with_item) == 1:
        val = with_item[0][1]

        def elem(q):
            return subst_value(val, closed_sub(solved, q, k))
    else:
        def elem(q):
            s = closed_sub(solved, q, k)
            r = subst_value(with_item[-1][1], s)
            for c, v in reversed(with_item[:-1]):
                r = merge_values(s(c), subst_value(v, s), r)
            return r
    return list(loc.v0) + [Seg(SymSeq(K, elem, cond))]


def merge_values(c, a, b):
    if isinstance(a, SArr) and isinstance(b, SArr) and a.ndim == b.ndim:
        fa, fb = a.elem_fn(), b.elem_fn()
        if all(dim_t(x).eq(dim_t(y)) for x, y in zip(a._shape, b._shape)):
            return SArr.make(a._shape, lambda ix: core.s_ite(wrap(c), fa(ix), fb(ix)), arr.promote(a._dtype, b._dtype))
        raise Unsupported("merge of arrays of different shape")
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_values(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (SVal, int, float, bool)) and isinstance(b, (SVal, int, float, bool)):
        return core.s_ite(wrap(c), a, b)
    if a is b or isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if type(a) is dict and type(b) is dict and list(a) == list(b):
        return {k: merge_values(c, a[k], b[k]) for k in a}
    if type(a) is list and type(b) is list and len(a) == len(b) and not has_seg(a) and not has_seg(b):
        return [merge_values(c, x, y) for x, y in zip(a, b)]
    m = getattr(a, 'pv_merge', None)
    if m is not None and type(a) is type(b):
        return m(c, b, merge_values)
    raise Unsupported("merge of list items")
