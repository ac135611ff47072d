"""Symbolic back end of the contracts: runs a unit over every feasible path
of the interpreted code and collects proof obligations."""
import linecache
import os
import time
import traceback
import z3
from fractions import Fraction
from . import pdmodel, core, red, vfs, prover, arr, loops, models, npmodel, loader as loader_mod
from .core import (Unsupported, EngineExc, PathAbort, EngineBudget, State, Ob, SVal, SBool, SInt, SReal, SObj, PC,
                   prove, decide, wrap, lift, bterm, iterm, as_term, const_of, tand, tor, tnot, teq, tlt, tle, tite,
                   toreal, simp, has_cls, cls_of, s_ite, ZERO, ONE, RZERO, TRUE, FALSE, I, R, B, U)
from .arr import SArr, Compressed, dim_t, in_range, quant
from .loops import Seg, SymSeq, SymRange

HERE = os.path.dirname(os.path.abspath(__file__))


class Frame:
    pass


class Source:
    def __init__(self, n, P, S, event):
        self.n_events, self.n_pixels, self.n_samples, self.event = n, P, S, event

    def pv_iter(self):
        return SymSeq(iterm(self.n_events), self.event)

    def __len__(self):
        return self.n_events


class Cx:
    symbolic = True

    def __init__(self, unit):
        self.unit = unit
        self.inputs = {}
        self.choices = {}
        self.assumed = set()
        self.loader = loader_mod.Loader()
        self.stubs = self.loader.stubs
        self.vfs = State.vfs = vfs.VFS()

    # ------------------------------------------------------------ inputs
    def int(self, name, lo=None, hi=None, conc=None):
        t = z3.Int(name)
        if lo is not None:
            core.assume(wrap(tle(iterm(lo), t)))
        if hi is not None:
            core.assume(wrap(tle(t, iterm(hi))))
        self.inputs[name] = ('int', t)
        return wrap(t)

    def real(self, name, lo=None, hi=None, conc=None, gt=None):
        t = z3.Real(name)
        for b, f in ((lo, tle), (gt, tlt)):
            if b is not None:
                core.assume(wrap(f(toreal(core.num_term(b)), t)))
        if hi is not None:
            core.assume(wrap(tle(t, toreal(core.num_term(hi)))))
        self.inputs[name] = ('real', t)
        return SReal(t)

    def bool(self, name):
        t = z3.Bool(name)
        self.inputs[name] = ('bool', t)
        return SBool(t)

    def obj(self, name):
        t = z3.Const(name, U)
        return SObj(t)

    def choice(self, name, options):
        """One of finitely many concrete values (all are explored)."""
        options = list(options)
        i = 0
        while i < len(options) - 1:
            b = z3.Bool('choice!%s!%d' % (name, i))
            if decide(b):
                break
            i += 1
        self.inputs[name] = ('choice', i)
        return options[i]

    def array(self, name, shape, dtype='f4', lo=None, hi=None, gen=None):
        d = arr.as_dtype(dtype)
        shape = tuple(shape)
        n = len(shape)
        s = {'b': B, 'i': I, 'u': I, 'f': R}[d.kind]
        f = z3.Function(name, *([I] * n), s) if n else z3.Const(name, s)
        l, h = lo, hi
        if d.kind == 'u' and lo is None:
            l = 0
        if d.kind in 'iu' and d.bits < 64:
            if h is None and d.kind == 'u':
                h = 2 ** d.bits - 1
            elif d.kind == 'i':
                h = 2 ** (d.bits - 1) - 1 if h is None else h
                l = -2 ** (d.bits - 1) if l is None else l

        def fn(idx):
            t = f(*idx) if n else f
            for b, up in ((l, False), (h, True)):
                if b is not None:
                    bt = iterm(b) if s == I else toreal(core.num_term(b))
                    t = tite(tle(t, bt), t, bt) if up else tite(tle(bt, t), t, bt)
            return wrap(t)
        a = SArr.make(shape, fn, d, tag=name)
        self.inputs[name] = ('array', f, [dim_t(x) for x in shape], d.name, l, h)
        return a

    def function(self, name, n):
        """An unknown real function of n real numbers."""
        f = z3.Function(name, *([R] * (n + 1)))
        return lambda *a: SReal(f(*[toreal(core.num_term(x)) for x in a]))

    def obj_array(self, name, shape):
        return arr.havoc(shape, arr.obj_, name)

    def build(self, shape, f, dtype='f8'):
        """The array with f(*idx) at every index."""
        return SArr.make(tuple(shape), lambda ix: f(*[wrap(i) for i in ix]), arr.as_dtype(dtype))

    def arange(self, n):
        return SArr.make((n,), lambda i: wrap(i[0]), arr.i8)

    def source(self, n, P, S, ev):
        W = self.load('CHECLabPy.core.io.waveform').Waveform
        return Source(n, P, S, lambda k: self.loader.interp.call(W, (ev[wrap(k)].copy(), wrap(k)), {}))

    def cannot(self, why):
        raise Unsupported(why)

    def representation(self, obj, *names):
        for n in names:
            if n not in vars(obj):
                raise Unsupported("the contract's representation of %s no longer applies (no attribute %s)" % (type(obj).__name__, n))

    # ------------------------------------------------------------ program
    def load(self, mod):
        return self.loader.import_module(mod)

    def code(self, src, **names):
        """Program text of the contract (callees under their contract),
        executed like the code it is called from."""
        import ast
        import textwrap
        m = loader_mod.Module('contract')
        g = m.__dict__
        g.update(names, __name__='contract')
        env = loader_mod.Env(g, None, (), 'module')
        env.vars = g
        sj, State.journal = State.journal, None
        try:
            self.loader.interp.block(ast.parse(textwrap.dedent(src)).body, env)
        finally:
            State.journal = sj
        return m

    def stream(self, n, f):
        """An iterable of n items."""
        return Source(n, None, None, lambda k: f(wrap(k)))

    def truth(self, x):
        return wrap(bterm(x))

    def optional(self, x):
        """(is it None, its value otherwise)"""
        if isinstance(x, loops.SOpt):
            return wrap(x.isnone), x.val
        return x is None, x

    def stub_module(self, name, value, purge=True):
        self.stubs[name] = value

    def module(self, name, **attrs):
        return npmodel.ModelModule(name, None, **attrs)

    def patch(self, obj, name, value):
        setattr(obj, name, value)

    def assume_contract(self, text):
        self.assumed.add(text)

    def wrap_fn(self, f):
        """A Python function of the contract handed to the code."""
        return f

    def write_yaml(self, path, data):
        self.vfs.put(path, 'yaml', loader_mod.m_deepcopy(data))

    def read_yaml(self, path):
        return loader_mod.m_deepcopy(self.vfs.get(path, 'yaml'))

    def write_csv(self, path, cols):
        self.vfs.put(path, 'csv', dict(cols))

    def same_value(self, a, b, tol=None):
        return wrap(self.eq_term(a, b))

    def write_table(self, path, a):
        self.vfs.put(path, 'table', a)

    def tmp(self, name):
        return '/tmp/pydv-virtual/' + name

    @property
    def np(self):
        return self.loader.import_module('numpy')

    # ------------------------------------------------------------ history
    def history(self, obj, step, tag='h'):
        """Put obj in the state it may have after any number of steps: one
        step from an arbitrary state shows which state a step writes; that
        state is then replaced by arbitrary values of the same kinds."""
        before = dict(vars(obj))
        held = {k: content(v) for k, v in before.items()}
        fns = {k: v._st.fn for k, v in before.items() if isinstance(v, SArr)}
        cls_before = dict(vars(type(obj)))
        step(tag + '0')
        for k, v in vars(type(obj)).items():
            if k not in cls_before or cls_before[k] is not v:
                raise Unsupported("class attribute %s written" % k)
        written = []
        for k, v in list(vars(obj).items()):
            if k in before and before[k] is v and not (isinstance(v, SArr) and v._st.fn is not fns[k]) \
                    and not isinstance(v, (list, dict, set)):
                continue
            if isinstance(v, (list, dict, set)) and k in before and before[k] is v and same_content(held[k], content(v)):
                continue
            written.append(k)
            vars(obj)[k] = self.arbitrary(v, tag + '_' + k)
        State.notes.add('state generalised to arbitrary values: %s' % ', '.join(sorted(written)))

    def arbitrary(self, v, name):
        if isinstance(v, SArr):
            return arr.havoc(v._shape, v.dtype, name)
        if v is None or isinstance(v, (str, slice, type)) or callable(v):
            return v
        if isinstance(v, (bool, SBool)):
            return SBool(z3.Const(core.fresh_name(name), B))
        if isinstance(v, (int, SInt)):
            return SInt(z3.Const(core.fresh_name(name), I))
        if isinstance(v, (float, SReal)):
            return SReal(z3.Const(core.fresh_name(name), R))
        if isinstance(v, (tuple, list)) and not any(isinstance(x, Seg) for x in v):
            return type(v)(self.arbitrary(x, name + str(i)) for i, x in enumerate(v))
        if isinstance(v, dict):
            return {k: self.arbitrary(x, name + str(k)) for k, x in v.items()}
        raise Unsupported("state of kind %s cannot be generalised" % type(v).__name__)

    def frame(self, cols, metadata=None):
        df = pdmodel.make_frame(dict(cols))
        if metadata is not None:
            df.metadata = metadata
        return df

    def distinct(self, col):
        g = pdmodel.distinct([col])
        return wrap(g.G), lambda k: g.key(0, iterm(k)), lambda k: wrap(g.first(iterm(k)))

    def typed_list(self, xs):
        return npmodel.typed_list(xs)

    def list(self, x):
        return loops.to_list(x)

    def segment(self, n, f):
        """A list of n items, item k being f(k)."""
        return [Seg(SymSeq(iterm(n), lambda k: f(wrap(k))))]

    def is_segment(self, x):
        return isinstance(x, Seg)

    def nanoseconds(self, t):
        return t.value

    # ------------------------------------------------------------ helpers
    def unique(self):
        return 'u'

    def is_array(self, x):
        return isinstance(x, SArr)

    def snapshot(self, a):
        r = a.copy()
        return r

    def el(self, a, *idx):
        return a.at(*idx)

    def len(self, x):
        return models.b_len(x)

    def getitem(self, x, k):
        return models.getitem(x, k)

    def sum(self, n, f):
        n = iterm(n)
        return arr.wrap_sum(red.clamp0(n), lambda k: f(wrap(k)))

    def mean(self, n, f):
        return arr.np_div(self.sum(n, f), n)

    def var(self, n, f):
        m = self.mean(n, f)
        return arr.np_div(self.sum(n, lambda i: (f(i) - m) * (f(i) - m)), n)

    def std(self, n, f):
        return core.s_sqrt(self.var(n, f))

    def argmax(self, n, f):
        return wrap(red.mk_argmax(iterm(n), lambda k: lift(f(wrap(k))).t))

    def argmin(self, n, f):
        return wrap(red.mk_argmax(iterm(n), lambda k: lift(-lift(f(wrap(k)))).t))

    def max(self, n, f):
        n = iterm(n)
        am = red.mk_argmax(n, lambda k: lift(f(wrap(k))).t)
        with core.local_facts(in_range(am, n)):
            return f(wrap(am))

    def min(self, n, f):
        return -lift(self.max(n, lambda i: -lift(f(i))))

    def first(self, n, p):
        """First index with p, n if there is none."""
        return wrap(red.mk_first(iterm(n), lambda k: bterm(p(wrap(k)))))

    def at_first(self, n, p, val, default):
        """val(j) at the first index j with p(j), default if there is none."""
        j = self.first(n, p)
        with core.local_facts(tlt(iterm(j), iterm(n)), tle(ZERO, iterm(j))):
            pj = bterm(p(j))
            with core.local_facts(pj):
                v = val(j)
        return s_ite(j < n, v, default)

    def exists(self, n, p):
        return wrap(tlt(red.mk_first(iterm(n), lambda k: bterm(p(wrap(k)))), red.clamp0(iterm(n))))

    def forall(self, n, p):
        return core.snot(self.exists(n, lambda i: core.snot(wrap(bterm(p(i))))))

    def ite(self, c, a, b):
        c = wrap(bterm(c))
        if isinstance(c, bool):
            r = a if c else b
            return r() if callable(r) else r
        with core.local_facts(c.t):
            x = a() if callable(a) else a
        with core.local_facts(tnot(c.t)):
            y = b() if callable(b) else b
        return s_ite(c, x, y)

    def and_(self, *cs):
        r = TRUE
        for c in cs:
            if callable(c):
                with core.local_facts(r):
                    c = c()
            r = tand(r, bterm(c))
        return wrap(r)

    def or_(self, *cs):
        r = FALSE
        for c in cs:
            if callable(c):
                with core.local_facts(tnot(r)):
                    c = c()
            r = tor(r, bterm(c))
        return wrap(r)

    def not_(self, c):
        return core.snot(wrap(bterm(c)))

    def min2(self, a, b):
        return core.s_min(a, b)

    def max2(self, a, b):
        return core.s_max(a, b)

    def clip(self, x, lo, hi):
        return core.s_min(core.s_max(x, lo), hi)

    def exp(self, x): return core.s_exp(x)
    def log(self, x): return core.s_log(x)
    def sqrt(self, x): return core.s_sqrt(x)
    def pow(self, x, y): return npmodel.b_float_pow(x, y)
    def lgamma(self, x): return core.s_lgamma(x)
    def div(self, a, b): return arr.np_div(a, b)

    @property
    def pi(self):
        return SReal(core.PI)

    nan = float('nan')

    def floor(self, x):
        return core.s_floor(lift(x))

    def round_(self, x):
        return models.b_round(x)

    def trunc(self, x):
        return models.b_int(x)

    def fdiv(self, a, b):
        return wrap(core.int_divmod('//', iterm(a), iterm(b)))

    def isnan(self, x):
        return npmodel.s_isnan(x)

    def isfinite(self, x):
        return npmodel.s_isfinite(x)

    def real_of(self, x):
        return models.b_float(x)

    def decide(self, c):
        """Case split: the contract treats both cases separately."""
        return decide(bterm(c)) if not isinstance(c, bool) else c

    # -------------------------------------------------------- obligations
    def assume(self, c):
        core.assume(c)

    def ensure(self, name, c):
        t = bterm(c) if not isinstance(c, bool) else z3.BoolVal(c)
        core.ctx().obs.append(Ob(name, core.pc(), t, '', 'ensures'))

    def eq_term(self, a, b):
        if isinstance(a, SArr) and a.ndim == 0:
            a = a.at()
        if isinstance(b, SArr) and b.ndim == 0:
            b = b.at()
        if a is None or b is None or isinstance(a, (str, type)) or isinstance(b, (str, type)):
            if isinstance(a, (SArr, SVal)) or isinstance(b, (SArr, SVal)):
                return z3.BoolVal(False)
            return z3.BoolVal(a == b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return bterm(models.seq_eq(list(a), list(b)))
        if isinstance(a, (SArr, Compressed)) or isinstance(b, (SArr, Compressed)):
            return z3.BoolVal(False)
        la, lb = lift(a), lift(b)
        if la is None or lb is None:
            r = a == b
            return bterm(r)
        if isinstance(la, loops.SOpt) or isinstance(lb, loops.SOpt):
            raise Unsupported("value that may be None")
        if isinstance(la, SObj) or isinstance(lb, SObj):
            return bterm(la == lb) if isinstance(la, SObj) and isinstance(lb, SObj) else FALSE
        if isinstance(la, SBool) and isinstance(lb, SBool):
            return teq(la.t, lb.t)
        ta, tb = core.num_term(la), core.num_term(lb)
        if ta.sort() != tb.sort():
            ta, tb = toreal(ta), toreal(tb)
        e = teq(ta, tb)
        if has_cls(la) or has_cls(lb):
            ca, cb = cls_of(la), cls_of(lb)
            return tand(teq(ca, cb), tor(tnot(teq(ca, ZERO)), e))
        return e

    def eq(self, name, a, b, tol=None):
        core.ctx().obs.append(Ob(name, core.pc(), self.eq_term(a, b), '', 'ensures'))

    def all(self, name, dims, fn, tol=None):
        """fn(*idx) -> condition, or a pair that must be equal, or a dict of
        such, for every index tuple."""
        idx = [core.fresh_int(name.split()[0] + '_i%d' % j) for j in range(len(dims))]
        base = PC(core.pc())
        base.extend([in_range(i, dim_t(d)) for i, d in zip(idx, dims)])
        outer = core.ctx()
        for i in idx:
            State.skolems.append(i)

        def run():
            r = fn(*[wrap(i) for i in idx])
            for nm, v in (r.items() if isinstance(r, dict) else [(None, r)]):
                n2 = name if nm is None else name + '.' + nm
                if isinstance(v, tuple):
                    self.eq(n2, *v)
                elif v is not None:
                    self.ensure(n2, v)
        sat = False
        for c, res, exc, dead in core.explore(run, base):
            if dead:
                continue
            if exc is not None:
                if deliberate(exc):
                    outer.obs.append(Ob(name + ' (evaluating the result raises %s)' % describe(exc), c.pc, FALSE, '', 'ensures'))
                    outer.obs.extend(c.obs)
                    continue
                raise exc
            outer.obs.extend(c.obs)

    def shape(self, name, a, shape):
        if not isinstance(a, SArr):
            self.ensure(name + ' is an array', False)
            return
        ok = a.ndim == len(shape)
        self.ensure(name + ' dimensions', ok)
        if ok:
            for j, (x, y) in enumerate(zip(a._shape, shape)):
                self.eq('%s shape[%d]' % (name, j), x, y)

    def same(self, name, a, b, tol=None):
        """Arrays with the same shape and elements."""
        self.shape(name, a, b._shape)
        if isinstance(a, SArr) and a.ndim == b.ndim:
            self.all(name, b._shape, lambda *i: (a.at(*i), b.at(*i)))

    def unchanged(self, name, a, before):
        self.same(name, a, before)

    def subst(self, v, sub):
        return loops.subst_value(v, sub)

    def filtered(self, name, result, n, cond, elem, get=lambda x: x):
        """[get(x) for x in result] == [elem(k) for k in range(n) if cond(k)]"""
        if isinstance(result, list):
            if len(result) != 1 or not isinstance(result[0], Seg):
                raise Unsupported("filtered list of an unexpected form")
            s = result[0].seq
            rc, re_, rn = s.cond or (lambda k: TRUE), s.elem, s.n
        elif isinstance(result, Compressed):
            rc, re_, rn = result.cond, result.elem, dim_t(result.n)
        else:
            raise Unsupported("filtered array of an unexpected form (%s)" % type(result).__name__)
        self.eq(name + ' (source length)', wrap(rn), n)
        self.all(name, (n,), lambda k: dict(
            member=(wrap(rc(iterm(k))), cond(k)),
            value=self.implies(cond(k), lambda: wrap(self.eq_term(get(re_(iterm(k))), elem(k))))))

    def seq(self, name, result, n, elem):
        """result is a list of n items, item k equal to elem(k) (or checked by
        elem(k) returning None after its own obligations)."""
        self.eq(name + ' (length)', models.b_len(result), n)
        self.all(name, (n,), lambda k: elem(k, models.getitem(result, k)))

    def implies(self, c, a):
        t = bterm(c)
        if z3.is_false(t):
            return True
        with core.local_facts(t):
            x = a() if callable(a) else a
        return wrap(tor(tnot(t), bterm(x)))

    def keys(self, name, d, ks):
        self.ensure(name, set(d) == set(ks) and len(d) == len(list(ks)))

    def raises(self, fn, *excs):
        """Does fn() raise one of excs?  (a case split, not an obligation)"""
        try:
            fn()
        except EngineExc:
            raise
        except excs:
            return True
        return False

    def must_raise(self, name, fn, *excs):
        self.ensure(name, self.raises(fn, *excs))

    def is_same_object(self, a, b):
        return a is b

    def base_is(self, a, b):
        return isinstance(a, SArr) and a._st is b._st


State.skolems = []


def born_in(v):
    # containers held in attributes: generalise whenever they are not empty
    return len(v) > 0


def deliberate(exc):
    """Raised by a raise statement of the code or of a model -- as opposed to
    an error inside the engine itself."""
    tb = exc.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return True
    f = last.tb_frame.f_code.co_filename
    if not f.startswith(HERE):
        # builtins called on behalf of the program (dict.__getitem__ ...)
        return f.startswith(os.path.dirname(HERE)) is False or True
    line = linecache.getline(f, last.tb_lineno).strip()
    return line.startswith('raise') or 'dict.__getitem__' in line or 'getattr(o, name)' in line or \
        line.startswith('return o[k]') or 'list.remove' in line or line.startswith('return int(x')


def describe(exc):
    return "%s: %s" % (type(exc).__name__, str(exc)[:150])


def content(v):
    """What a container holds, down to leaves (to see whether it was written)."""
    if isinstance(v, dict):
        return ('d', [(k, content(dict.__getitem__(v, k))) for k in v])
    if isinstance(v, (list, tuple)):
        return ('l', [(None, content(x)) for x in v])
    if isinstance(v, set):
        return ('l', [(None, x) for x in sorted(v, key=repr)])
    if isinstance(v, SArr):
        return ('a', v, v._st.fn)
    return ('x', v)


def same_content(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'a':
        return a[1] is b[1] and a[2] is b[2]
    if a[0] == 'x':
        return a[1] is b[1]
    return len(a[1]) == len(b[1]) and all(x[0] == y[0] and same_content(x[1], y[1]) if isinstance(x[1], tuple)
                                          else x[1] is y[1] for x, y in zip(a[1], b[1]))


def run_unit(u, timeout=20000, deadline=None, log=None):
    """Explore a unit.  Returns a dict."""
    t0 = time.time()
    core.reset_counter()
    State.notes = set()
    State.deadline = time.time() + deadline if deadline else None
    State.max_paths = u.opts.get('max_paths', 3000)
    State.funcs = set()
    out = dict(unit=u.id, status='proved', obligations=0, discharged=0, failed=[], paths=0, assumed=[], notes=[],
               funcs=[], error=None, backends={})
    cxs = []
    allobs = []

    def body():
        cx = Cx(u)
        cxs.append(cx)
        cx.result = u.fn(cx)
        return cx
    live = 0
    try:
        for c, res, exc, dead in core.explore(body, PC()):
            cx = cxs[-1]
            if dead:
                continue
            out['paths'] += 1
            out['assumed'] = sorted(set(out['assumed']) | cx.assumed)
            if exc is not None:
                if not deliberate(exc):
                    tb = traceback.extract_tb(exc.__traceback__)
                    raise Unsupported("engine error %s at %s" % (describe(exc), tb[-1]))
                loc = State.lineno
                allobs.append((cx, Ob('no exception (%s)' % describe(exc), c.pc, FALSE, '', 'no-exception')))
            for ob in c.obs:
                allobs.append((cx, ob))
            live += 1
    except (Unsupported, EngineBudget) as e:
        out['status'] = 'unsupported'
        out['error'] = "%s (line %s)" % (e, State.lineno)
        out['trace'] = traceback.format_exc()[-3000:]
        out['seconds'] = round(time.time() - t0, 2)
        out['notes'] = sorted(State.notes)
        return out
    except RecursionError:
        out['status'] = 'unsupported'
        out['error'] = 'recursion'
        return out
    State.deadline = None
    out['exec_seconds'] = round(time.time() - t0, 2)
    out['notes'] = sorted(State.notes)
    out['funcs'] = sorted(State.funcs)
    if not live or not allobs:
        out['status'] = 'vacuous'
        return out
    # vacuity: some path with obligations must be satisfiable
    seen = set()
    vac = True
    res = []
    for cx, ob in allobs:
        key = (tuple(p.get_id() for p in ob.pc), ob.goal.get_id(), ob.name)
        if key in seen:
            continue
        seen.add(key)
        out['obligations'] += 1
        t1 = time.time()
        st, leaf = discharge(ob, timeout)
        dt = time.time() - t1
        if log and dt > 1:
            log("  %-60s %s %.1fs" % (ob.name[:60], st, dt))
        if st == 'proved':
            out['discharged'] += 1
        else:
            f = dict(name=ob.name, status=st, kind=ob.kind, goal=core.short(ob.goal), pc=[core.short(p) for p in ob.pc][:20],
                     inputs=None)
            if len(out['failed']) < 3:
                try:
                    f['inputs'] = (leaf and find_inputs(cx, Ob(ob.name, leaf[0], leaf[1], '', ''))) or find_inputs(cx, ob)
                except Exception as e:
                    f['inputs_error'] = repr(e)
            out['failed'].append(f)
            timeout = min(timeout, 3000)
            State.prove_deadline = min(State.prove_deadline or 1e18, time.time() + 25)
        if len(out['failed']) >= 6 or (State.prove_deadline and time.time() > State.prove_deadline):
            break
    for cx, ob in allobs:
        if ob.pc and not vac:
            break
        if sat_pc(ob.pc):
            vac = False
            break
    if vac:
        out['status'] = 'vacuous'
    elif out['failed']:
        out['status'] = 'failed'
    out['seconds'] = round(time.time() - t0, 2)
    out['solver'] = dict(red.Cfg.stats)
    return out


State.prove_deadline = None
State.funcs = set()


def sat_pc(pc):
    s = z3.Solver()
    s.set('timeout', 5000)
    E = red.Elim()
    E.extra = []
    s.add(*[E.el(p) for p in pc])
    s.add(*red.axioms(E, list(pc), 1, True))
    return s.check() != z3.unsat


def discharge(ob, timeout):
    """'proved' | 'refuted' | 'unknown', unproved leaf (path condition, goal)"""
    return prover.prove_obligation(PC(ob.pc), ob.goal, timeout, deadline=State.prove_deadline)


def find_inputs(cx, ob):
    """A concrete input from the solver's counter-model (small dimensions
    preferred)."""
    ints = [v[1] for v in cx.inputs.values() if v[0] == 'int']
    t0 = time.time()
    for cap in (6, 25, 120, 3000):
        if time.time() - t0 > 8:
            break
        E = red.Elim()
        E.extra = []
        fs = [E.el(p) for p in ob.pc] + [E.el(tnot(ob.goal))]
        ax = red.axioms(E, list(ob.pc) + [ob.goal], 2, False)
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*fs)
        s.add(*ax)
        for t in ints:
            s.add(t <= cap, t >= -cap)
        if s.check() == z3.sat:
            return values(cx, s.model())
    return None


def num(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return float(f)
    if z3.is_algebraic_value(v):
        return num(v.approx(10))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return None


def values(cx, m):
    out = {}
    for name, d in cx.inputs.items():
        if d[0] in ('int', 'real', 'bool'):
            out[name] = num(m.eval(d[1], model_completion=True))
        elif d[0] == 'choice':
            out[name] = d[1]
        elif d[0] == 'array':
            f = d[1]
            dims = [num(m.eval(x, model_completion=True)) for x in d[2]]
            ent = []
            default = 0
            if d[2]:
                it = m[f]
                if it is not None:
                    lst = it.as_list()
                    for e in lst[:-1]:
                        ent.append([[num(x) for x in e[:-1]], num(e[-1])])
                    default = num(lst[-1]) if not isinstance(lst[-1], list) else 0
            else:
                default = num(m.eval(f, model_completion=True))
            out[name] = dict(dims=dims, entries=ent, default=default)
    return out
