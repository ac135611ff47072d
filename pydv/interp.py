"""Interpreter of the repository's Python source over symbolic values.

The modules are parsed from /repo on every run and executed statement by
statement; numpy & co. are replaced by the models of pydv.models."""
import ast
import os
import sys
import types
import builtins as _b
import operator
import z3
from . import core, red, arr
from .core import (Unsupported, EngineExc, PathAbort, State, SVal, SBool, SInt, simp,
                   SReal, SNum, decide, prove, wrap, bterm, iterm, as_term,
                   const_of, tand, tor, tnot, s_ite, lift)
from .arr import SArr, Compressed, DT

REPO = os.environ.get('PYDV_REPO', '/repo')
ROOT_PKG = 'CHECLabPy'


class Poison:
    """Value not known after a summarised loop."""
    def __init__(self, why):
        self.why = why


UNBOUND = object()


def is_model(o):
    """Objects that stand for something of a library (pydv or a contract
    defines their class): what they lack is not modelled, not absent."""
    t = o if isinstance(o, type) else type(o)
    m = getattr(t, '__module__', None) or ''
    f = getattr(sys.modules.get(m), '__file__', None) or ''
    return m.startswith('pydv.') and t.__name__ != 'ModelModule' or m == 'contract' or f.startswith(CONTRACTS)


def plain_eq(o):
    return not isinstance(o, (SVal, type, str, int)) and is_model(o) and type(o).__eq__ is object.__eq__ \
        and not callable(o)


def operate(f, a, b):
    try:
        return f(a, b)
    except TypeError as e:
        if 'unsupported operand' in str(e) or 'not supported between' in str(e):
            for o in (a, b):
                if not isinstance(o, (SVal, SArr)) and is_model(o):
                    raise Unsupported("operation on a " + type(o).__name__)
        raise


CONTRACTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts') + os.sep


def real_names(o):
    """Attributes of the real class of a modelled object, if that is known."""
    from . import npmodel, pdmodel
    names = getattr(type(o), 'REAL_NAMES', None)
    if names is not None:
        return names
    if isinstance(o, SArr):
        return npmodel.DIRS['ndarray'] if type(o) is SArr else None
    if isinstance(o, pdmodel.SSeries):
        return npmodel.DIRS['Series']
    if isinstance(o, pdmodel.SFrame):
        return set(npmodel.DIRS['DataFrame']) | set(getattr(o, 'cols', None) or ())
    return None




PURE = (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Compare, ast.BoolOp, ast.Subscript, ast.Tuple,
        ast.operator, ast.unaryop, ast.cmpop, ast.boolop, ast.expr_context)


def simple_if(s):
    r = getattr(s, '_pv_simple', None)
    if r is None:
        names = set()
        r = s._pv_simple = _simple_if(s, names)
        s._pv_names = sorted(names)
        s._pv_both = assigned(s.body) & assigned(s.orelse) if r else ()
    return r


def number_like(v):
    return not isinstance(v, bool) and isinstance(v, (int, float, core.SInt, core.SReal, core.SBool))


def assigned(b):
    """Names certainly assigned by a block."""
    out = set()
    for x in b:
        if isinstance(x, ast.Assign):
            out.add(x.targets[0].id)
        elif isinstance(x, ast.If):
            out |= assigned(x.body) & assigned(x.orelse)
    return out


def _simple_if(s, names):
    if not pure(s.test):
        return False
    for x in s.body + s.orelse:
        if isinstance(x, ast.Pass):
            continue
        if isinstance(x, ast.If):
            if not _simple_if(x, names):
                return False
            continue
        if isinstance(x, ast.Assign) and len(x.targets) == 1:
            t = x.targets[0]
        elif isinstance(x, ast.AugAssign):
            t = x.target
        else:
            return False
        if not isinstance(t, ast.Name) or not pure(x.value):
            return False
        names.add(t.id)
    return True


def pure(e):
    return all(isinstance(n, PURE) or isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name)
               for n in ast.walk(e))


class Held(ast.expr):
    """The value a 'yield from' passes on."""


class Env:
    __slots__ = ('vars', 'parent', 'glob', 'locs', 'globals_', 'nonlocals', 'func', 'kind', 'cell', 'yields', 'first')

    def __init__(self, glob, parent=None, locs=(), kind='func'):
        self.vars = {}
        if State.journal is not None:
            born(self.vars)
        self.parent = parent      # enclosing function env
        self.glob = glob          # module dict
        self.locs = locs
        self.globals_ = ()
        self.nonlocals = ()
        self.kind = kind
        self.cell = None
        self.yields = None
        self.first = None

    def lookup(self, name):
        e = self
        if self.kind == 'module':
            return self.glob_lookup(name)
        if name in self.globals_:
            return self.glob_lookup(name)
        if self.kind == 'class':
            if name in self.vars:
                return self.chk(self.vars[name], name)
            e = self.parent
        elif name in self.locs and name not in self.nonlocals:
            v = self.vars.get(name, UNBOUND)
            if v is UNBOUND:
                raise UnboundLocalError("cannot access local variable '%s'" % name)
            return self.chk(v, name)
        else:
            e = self.parent
        while e is not None:
            if e.kind != 'class' and name in e.vars:
                return self.chk(e.vars[name], name)
            e = e.parent
        return self.glob_lookup(name)

    def chk(self, v, name):
        if isinstance(v, Poison):
            raise Unsupported("use of '%s': %s" % (name, v.why))
        return v

    def glob_lookup(self, name):
        g = self.glob
        if name in g:
            return self.chk(g[name], name)
        from . import models
        b = models.BUILTINS
        if name in b:
            return b[name]
        if hasattr(_b, name):
            v = getattr(_b, name)
            if isinstance(v, type) and issubclass(v, BaseException):
                return v
            raise Unsupported("builtin %s" % name)
        raise NameError("name '%s' is not defined" % name)

    def target(self, name):
        """dict that an assignment to name goes to"""
        if self.kind == 'module' or name in self.globals_:
            return self.glob
        if name in self.nonlocals:
            e = self.parent
            while e is not None:
                if e.kind != 'class' and name in e.locs:
                    return e.vars
                e = e.parent
        return self.vars

    def set(self, name, value):
        d = self.target(name)
        write_slot(d, name, value, 'var')

    def delete(self, name):
        d = self.target(name)
        if name not in d:
            raise NameError(name)
        old = d[name]
        core.record(('var', d, name), lambda: d.__setitem__(name, old))
        del d[name]


def write_slot(d, name, value, tag):
    if State.journal is not None:
        if name in d:
            old = d[name]
            core.record((tag, d, name), lambda: d.__setitem__(name, old))
        else:
            core.record((tag, d, name), lambda: d.pop(name, None))
    d[name] = value


# ------------------------------------------------------------- scope info
class Scope(ast.NodeVisitor):
    def __init__(self):
        self.bound, self.globals, self.nonlocals, self.has_yield = set(), set(), set(), False

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.bound.add(n.id)

    def visit_FunctionDef(self, n):
        self.bound.add(n.name)
        for d in n.decorator_list:
            self.visit(d)
        for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.bound.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        for g in n.generators[:1]:
            self.visit(g.iter)
    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names:
            self.bound.add(a.asname or a.name.split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.bound.add(a.asname or a.name)

    def visit_Global(self, n):
        self.globals.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)

    def visit_Yield(self, n):
        self.has_yield = True
        self.generic_visit(n)
    visit_YieldFrom = visit_Yield

    def visit_ExceptHandler(self, n):
        if n.name:
            self.bound.add(n.name)
        self.generic_visit(n)


_scopes = {}


def scope_of(node):
    s = _scopes.get(id(node))
    if s is None:
        v = Scope()
        body = node.body if isinstance(node.body, list) else [node.body]
        for x in body:
            v.visit(x)
        a = getattr(node, 'args', None)
        if a is not None:
            for p in a.posonlyargs + a.args + a.kwonlyargs:
                v.bound.add(p.arg)
            if a.vararg:
                v.bound.add(a.vararg.arg)
            if a.kwarg:
                v.bound.add(a.kwarg.arg)
        v.bound -= v.globals
        s = (v, node)
        _scopes[id(node)] = s
    return s[0]


class Brk:
    pass


BREAK, CONT = Brk(), Brk()


class Ret:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


MAXDEPTH = 60


class Interp:
    def __init__(self):
        self.depth = 0

    # ------------------------------------------------------- functions
    def make_function(self, node, env, name=None):
        name = name or node.name
        a = node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {p.arg: self.ev(d, env) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        kwonly = [p.arg for p in a.kwonlyargs]
        sc = scope_of(node)
        parent = env if env.kind != 'module' else None
        glob = env.glob
        cell = env.cell if env.kind == 'class' else (env.cell if env.kind == 'func' else None)
        islam = isinstance(node, ast.Lambda)
        interp = self
        fdefaults = dict(zip(pos[len(pos) - len(defaults):], defaults))
        npo = len(a.posonlyargs)

        def call(args, kwargs):
            e = Env(glob, parent, sc.bound)
            e.globals_, e.nonlocals = sc.globals, sc.nonlocals
            e.cell = cell
            v = e.vars
            if len(args) > len(pos):
                if a.vararg is None:
                    raise TypeError("%s() takes %d positional arguments but %d were given"
                                    % (name, len(pos), len(args)))
                v[a.vararg.arg] = tuple(args[len(pos):])
            elif a.vararg is not None:
                v[a.vararg.arg] = ()
            for n, x in zip(pos, args):
                v[n] = x
            extra = {}
            for k, x in kwargs.items():
                if (k in pos[npo:]) or k in kwonly:
                    if k in v:
                        raise TypeError("%s() got multiple values for argument '%s'" % (name, k))
                    v[k] = x
                elif a.kwarg is not None:
                    extra[k] = x
                else:
                    raise TypeError("%s() got an unexpected keyword argument '%s'" % (name, k))
            if a.kwarg is not None:
                v[a.kwarg.arg] = born(extra)
            for n in pos:
                if n not in v:
                    if n in fdefaults:
                        v[n] = fdefaults[n]
                    else:
                        raise TypeError("%s() missing required positional argument: '%s'" % (name, n))
            for n in kwonly:
                if n not in v:
                    if n in kwd:
                        v[n] = kwd[n]
                    else:
                        raise TypeError("%s() missing required keyword-only argument: '%s'" % (name, n))
            e.first = args[0] if args else (v.get(pos[0]) if pos else None)
            if islam:
                return interp.ev(node.body, e)
            if sc.has_yield:
                return interp.run_generator(node, e)
            interp.depth += 1
            if interp.depth > MAXDEPTH:
                interp.depth -= 1
                raise Unsupported("recursion depth")
            try:
                r = interp.block(node.body, e)
            finally:
                interp.depth -= 1
            return r.v if isinstance(r, Ret) else None

        def fn(*args, **kwargs):
            core.State.funcs.add(fid)
            return call(args, kwargs)
        fn.__name__ = name
        q = name
        if env.kind == 'class':
            q = env.vars.get('__qualname__', '') + '.' + name
        elif env.kind == 'func':
            q = '<locals>.' + name
        fn.__qualname__ = q
        fn.__module__ = glob.get('__name__', '?')
        fid = fn.__module__ + ':' + q
        if not islam:
            fn.__doc__ = ast.get_docstring(node)
        fn._pv_node = node
        fn._pv_params = (pos, kwonly, a.vararg is not None, a.kwarg is not None)
        return fn

    def run_generator(self, node, e):
        from . import loops
        y = loops.YieldList()
        e.yields = y
        self.depth += 1
        try:
            self.block(node.body, e)
        finally:
            self.depth -= 1
        return y.finish()

    # ------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            r = self.stmt(s, env)
            if r is not None:
                return r
        return None

    def stmt(self, s, env):
        State.lineno = getattr(s, 'lineno', 0)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Return(self, s, env):
        return Ret(self.ev(s.value, env) if s.value else None)

    def s_Break(self, s, env):
        return BREAK

    def s_Continue(self, s, env):
        return CONT

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = env.lookup(t.id)
            env.set(t.id, self.iop(s.op, old, self.ev(s.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.iop(s.op, old, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            old = self.getitem(o, k)
            self.setitem(o, k, self.iop(s.op, old, self.ev(s.value, env)))

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.delete(t.id)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev(t.slice, env)
                snapshot(o)
                del o[k]
            elif isinstance(t, ast.Attribute):
                delattr(self.ev(t.value, env), t.attr)

    def s_If(self, s, env):
        if State.journal is not None and simple_if(s):
            r = self.merged_if(s, env)
            if r is not NotImplemented:
                return r
        return self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def merged_if(self, s, env):
        """A conditional that only computes numbers: merge the values of both
        branches instead of exploring two paths."""
        names = s._pv_names
        old = {}
        for n in names:
            v = env.vars.get(n, UNBOUND)
            if n not in env.locs or n in env.nonlocals:
                return NotImplemented
            if not number_like(v) and not (n in s._pv_both and (v is UNBOUND or isinstance(v, Poison))):
                return NotImplemented
            old[n] = v
        c = core.ctx()
        nobs, npc = len(c.obs), len(c.pc)

        def put(n):
            if old[n] is UNBOUND:
                if n in env.vars:
                    env.delete(n)
            else:
                env.set(n, old[n])
        State.quant_depth += 1
        ok = False
        try:
            t = self.ev(s.test, env)
            if isinstance(t, (int, float, bool)) and not isinstance(t, SVal):
                t = bool(t)
            elif isinstance(t, (core.SBool, core.SInt, core.SReal)):
                t = wrap(simp(bterm(t)))
            else:
                return NotImplemented
            if isinstance(t, bool):
                r = self.block(s.body if t else s.orelse, env)
                ok = True
                return r
            res = []
            for cond, blk in ((t.t, s.body), (core.tnot(t.t), s.orelse)):
                with core.local_facts(cond):
                    r = self.block(blk, env)
                assert r is None
                res.append({n: env.vars[n] for n in names})
                for n in names:
                    put(n)
            for n in names:
                a, b = res[0][n], res[1][n]
                if not number_like(a) or not number_like(b):
                    return NotImplemented
                env.set(n, a if a is b else core.s_ite(t, a, b))
            ok = True
            return None
        except core.Unsupported:
            return NotImplemented
        finally:
            State.quant_depth -= 1
            if not ok:
                del c.obs[nobs:]
                del c.pc[npc:]
                for n in names:
                    if env.vars.get(n, UNBOUND) is not old[n]:
                        put(n)

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise AssertionError(self.ev(s.msg, env) if s.msg else '')

    def s_Raise(self, s, env):
        if s.exc is None:
            e = State.handling[-1] if State.handling else RuntimeError("No active exception to reraise")
            raise e
        e = self.ev(s.exc, env)
        if isinstance(e, type):
            e = e()
        if not isinstance(e, BaseException):
            raise TypeError("exceptions must derive from BaseException")
        raise e

    def s_Global(self, s, env):
        pass
    s_Nonlocal = s_Global

    def s_Try(self, s, env):
        r = None
        try:
            try:
                r = self.block(s.body, env)
            except EngineExc:
                raise
            except Exception as e:
                nb = len(State.numba)
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, env)
                        ok = isinstance(e, t)
                    if ok:
                        if h.name:
                            env.set(h.name, e)
                        State.handling.append(e)
                        try:
                            r = self.block(h.body, env)
                        finally:
                            State.handling.pop()
                        break
                else:
                    raise
            else:
                if r is None:
                    r = self.block(s.orelse, env)
        except EngineExc:
            raise
        except Exception:
            rf = self.block(s.finalbody, env)
            if rf is not None:
                return rf
            raise
        rf = self.block(s.finalbody, env)
        return rf if rf is not None else r

    def s_With(self, s, env):
        return self.with_items(s.items, s.body, env)

    def with_items(self, items, body, env):
        if not items:
            return self.block(body, env)
        it = items[0]
        cm = self.ev(it.context_expr, env)
        ex = self.getattr(type(cm), '__exit__')
        v = self.getattr(type(cm), '__enter__')(cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            r = self.with_items(items[1:], body, env)
        except EngineExc:
            raise
        except Exception as e:
            if not self.truth(ex(cm, type(e), e, None)):
                raise
            return None
        ex(cm, None, None, None)
        return r

    def s_Import(self, s, env):
        for a in s.names:
            m = self.loader.import_module(a.name)
            if a.asname:
                env.set(a.asname, m)
            else:
                env.set(a.name.split('.')[0], self.loader.import_module(a.name.split('.')[0]))

    def s_ImportFrom(self, s, env):
        name = s.module or ''
        if s.level:
            pkg = env.glob['__name__'] if env.glob.get('__path__') else env.glob['__name__'].rpartition('.')[0]
            for _ in range(s.level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        m = self.loader.import_module(name)
        for a in s.names:
            if a.name == '*':
                for k, v in vars(m).items():
                    if not k.startswith('_'):
                        env.set(k, v)
                continue
            try:
                v = getattr(m, a.name)
            except AttributeError:
                try:
                    v = self.loader.import_module(name + '.' + a.name)
                except ImportError:
                    raise ImportError("cannot import name '%s' from '%s'" % (a.name, name))
            env.set(a.asname or a.name, v)

    def s_FunctionDef(self, s, env):
        decs = [self.ev(d, env) for d in s.decorator_list]
        f = self.make_function(s, env)
        for d in reversed(decs):
            f = self.call(d, (f,), {})
        env.set(s.name, f)

    def s_ClassDef(self, s, env):
        bases = []
        for b in s.bases:
            bases.append(self.ev(b, env))
        kw = {k.arg: self.ev(k.value, env) for k in s.keywords}
        meta = kw.pop('metaclass', None)
        bases = tuple(bases)
        bases2 = types.resolve_bases(bases)
        if meta is None:
            meta = type(bases2[0]) if bases2 else type
        for b in bases2:
            if isinstance(b, type) and issubclass(type(b), meta):
                meta = type(b)
        ns = meta.__prepare__(s.name, bases2, **kw)
        parent = env if env.kind == 'func' else (env.parent if env.kind == 'class' else None)
        e = Env(env.glob, parent, (), 'class')
        e.cell = [None]
        q = s.name if env.kind == 'module' else ((env.vars.get('__qualname__', '') + '.' + s.name) if env.kind == 'class' else '<locals>.' + s.name)
        e.vars = ns
        ns['__module__'] = env.glob.get('__name__', '?')
        ns['__qualname__'] = q
        doc = ast.get_docstring(s)
        if doc:
            ns['__doc__'] = doc
        self.block(s.body, e)
        ns.pop('__annotations__', None)
        cls = meta(s.name, bases2, ns, **kw)
        e.cell[0] = cls
        for d in reversed([self.ev(d, env) for d in s.decorator_list]):
            cls = self.call(d, (cls,), {})
        env.set(s.name, cls)

    def s_For(self, s, env):
        from . import loops
        return loops.run_for(self, s, env)

    def s_While(self, s, env):
        from . import loops
        return loops.run_while(self, s, env)

    # ---------------------------------------------------------- targets
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            self.setitem(o, self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            items = self.unpack(v, len(t.elts), bool(star))
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                items = items[:i] + [list(items[i:len(items) - after])] + items[len(items) - after:]
                elts = [x.value if isinstance(x, ast.Starred) else x for x in t.elts]
            else:
                elts = t.elts
            for x, y in zip(elts, items):
                self.assign(x, y, env)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, star):
        if isinstance(v, SArr):
            c = const_of(iterm(v.pv_len()))
            if c is None:
                if not decide(core.teq(iterm(v.pv_len()), z3.IntVal(n))):
                    raise ValueError("wrong number of values to unpack")
                c = n
            items = [v[i] for i in range(c)]
        else:
            items = list(self.iterate(v))
        if not star and len(items) != n:
            raise ValueError("not enough values to unpack" if len(items) < n else "too many values to unpack")
        return items

    def iterate(self, v):
        """Concrete iteration."""
        from . import loops
        return loops.concrete_iter(v)

    def to_list(self, v):
        """list(v), keeping symbolic stretches."""
        from . import loops
        return loops.to_list(v)

    # -------------------------------------------------------- attribute
    def getattr(self, o, name):
        from . import models
        if isinstance(o, (list, dict, str, tuple, set)):
            r = models.container_attr(o, name)
            if r is not None:
                return r
        if isinstance(o, super):
            return getattr(o, name)
        if isinstance(o, (int, float)) and not isinstance(o, bool) or isinstance(o, SVal):
            r = models.number_attr(o, name)
            if r is not None:
                return r
        if isinstance(o, slice) and name == 'indices':
            return models.slice_indices(o)
        if o is None:
            raise AttributeError("'NoneType' object has no attribute '%s'" % name)
        try:
            v = getattr(o, name)
        except AttributeError:
            if not name.startswith('__') and is_model(o):
                real = real_names(o)
                if real is None or name in real:
                    raise Unsupported("%s of a %s" % (name, type(o).__name__))
            raise
        if isinstance(v, Poison):
            raise Unsupported("use of attribute '%s': %s" % (name, v.why))
        return v

    def setattr(self, o, name, v):
        if State.journal is not None:
            d = getattr(o, '__dict__', None)
            if isinstance(d, dict):
                desc = getattr(type(o), name, None)
                if not (hasattr(type(desc), '__set__')):
                    if name in d:
                        old = d[name]
                        core.record(('attr', o, name), lambda: d.__setitem__(name, old))
                    else:
                        core.record(('attr', o, name), lambda: d.pop(name, None))
            elif isinstance(o, type):
                raise Unsupported("class attribute assigned inside a loop")
        setattr(o, name, v)

    def getitem(self, o, k):
        from . import models
        return models.getitem(o, k)

    def setitem(self, o, k, v):
        from . import models
        return models.setitem(o, k, v)

    # ------------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, SVal):
            if isinstance(v, core.SObj):
                raise Unsupported("truth of an opaque value")
            return decide(bterm(v))
        if isinstance(v, Poison):
            raise Unsupported("truth of an unknown value")
        t = getattr(v, 'pv_truth', None)
        if t is not None:
            return self.truth(t())
        if not isinstance(v, type) and type(v).__module__ == 'pydv.pdmodel' and not hasattr(v, '__bool__'):
            raise Unsupported("truth of a " + type(v).__name__)
        return bool(v)

    def ev(self, n, env):
        return getattr(self, 'e_' + type(n).__name__)(n, env)

    def __getattr__(self, name):
        if name.startswith('e_'):
            raise Unsupported("expression %s" % name[2:])
        raise AttributeError(name)

    def e_Constant(self, n, env):
        v = n.value
        return v

    def e_Name(self, n, env):
        return env.lookup(n.id)

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        env.set(n.target.id, v)
        return v

    def e_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        o = self.ev(n.value, env)
        return self.getitem(o, self.ev(n.slice, env))

    def e_Slice(self, n, env):
        f = lambda x: None if x is None else self.index_int(self.ev(x, env))
        return slice(f(n.lower), f(n.upper), f(n.step))

    def index_int(self, v):
        if isinstance(v, SArr) and v.ndim == 0:
            return v.at()
        if isinstance(v, (float, SReal)):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        return v

    def e_Tuple(self, n, env):
        return tuple(self.elts(n.elts, env))

    def e_List(self, n, env):
        return born(self.elts(n.elts, env, self.to_list))

    def e_Set(self, n, env):
        return born(set(self.elts(n.elts, env)))

    def elts(self, es, env, unpack=None):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend((unpack or self.iterate)(self.ev(e.value, env)))
            else:
                out.append(self.ev(e, env))
        return out

    def e_Dict(self, n, env):
        out = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                m = self.ev(v, env)
                for kk in self.iterate(self.getattr(m, 'keys')()):
                    out[kk] = self.getitem(m, kk)
            else:
                kk = self.ev(k, env)
                out[kk] = self.ev(v, env)
        return born(out)

    def e_JoinedStr(self, n, env):
        from . import models
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                spec = self.ev(v.format_spec, env) if v.format_spec else ''
                parts.append(models.fmt(x, spec, v.conversion))
        return models.join_str(parts)

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            if isinstance(v, SVal):
                return core.snot(wrap(bterm(v)))
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            return -v
        if isinstance(n.op, ast.UAdd):
            return +v
        return ~v

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(n.op, a, b)

    OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
           ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
           ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_,
           ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
           ast.MatMult: operator.matmul}
    IOPS = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul,
            ast.Div: operator.itruediv, ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod,
            ast.Pow: operator.ipow, ast.BitAnd: operator.iand, ast.BitOr: operator.ior,
            ast.BitXor: operator.ixor, ast.LShift: operator.ilshift, ast.RShift: operator.irshift,
            ast.MatMult: operator.imatmul}

    def binop(self, op, a, b):
        from . import models
        if isinstance(a, str):
            if isinstance(op, ast.Mod):
                return models.str_mod(a, b)
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)) and isinstance(a, (int, float)) \
                and isinstance(b, (int, float)) and b == 0 and State.numba[-1] != 'np':
            raise ZeroDivisionError("division by zero")
        if type(op) in (ast.Add, ast.Sub, ast.Mult, ast.Div) and isinstance(a, (int, float)) and isinstance(b, (int, float)):
            r = models.num_fold(op, a, b)
            if r is not None:
                return r
        return operate(self.OPS[type(op)], a, b)

    def iop(self, op, a, b):
        if isinstance(a, (list, dict, set)):
            snapshot(a)
            if isinstance(a, list) and isinstance(op, ast.Add):
                from . import loops
                b = loops.concrete_iter(b)
        if isinstance(a, (SVal, int, float, str, tuple)):
            return self.binop(op, a, b)
        return operate(self.IOPS[type(op)], a, b)

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        acc = None
        for i, x in enumerate(n.values):
            last = i == len(n.values) - 1
            if State.quant_depth:
                return self.bool_quant(n.values, isand, env)
            v = self.ev(x, env)
            if last:
                return v
            if self.truth(v) != isand:
                return v if not isinstance(v, SVal) else ((not isand) if isinstance(v, SBool) else v)
        return v

    def bool_quant(self, vals, isand, env):
        v = self.ev(vals[0], env)
        if len(vals) == 1:
            return v
        if not isinstance(v, SVal):
            if self.truth(v) != isand:
                return v
            return self.bool_quant(vals[1:], isand, env)
        t = bterm(v)
        with core.local_facts(t if isand else tnot(t)):
            r = self.bool_quant(vals[1:], isand, env)
        rt = bterm(r)
        return wrap(tand(t, rt) if isand else tor(t, rt))

    def e_IfExp(self, n, env):
        c = self.ev(n.test, env)
        if State.quant_depth and isinstance(c, SVal):
            t = bterm(c)
            if prove(t):
                return self.ev(n.body, env)
            if prove(tnot(t)):
                return self.ev(n.orelse, env)
            with core.local_facts(t):
                a = self.ev(n.body, env)
            with core.local_facts(tnot(t)):
                b = self.ev(n.orelse, env)
            return s_ite(wrap(t), a, b)
        return self.ev(n.body if self.truth(c) else n.orelse, env)

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        acc = True
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(r, env)
            v = self.compare(op, left, right)
            if len(n.ops) == 1:
                return v
            if isinstance(v, (bool, SBool)):
                if v is False:
                    return False
                acc = v if acc is True else wrap(tand(bterm(acc), bterm(v)))
                if acc is False:
                    return False
            else:
                if i < len(n.ops) - 1 or acc is not True:
                    if not self.truth(v):
                        return v
                    if i == len(n.ops) - 1 and acc is not True and not self.truth(acc):
                        return False
                acc = v if i == len(n.ops) - 1 else acc
            left = right
        return acc

    CMP = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le,
           ast.Gt: operator.gt, ast.GtE: operator.ge}

    def compare(self, op, a, b):
        from . import models
        t = type(op)
        if t is ast.Is or t is ast.IsNot:
            r = models.is_(a, b)
            return r if t is ast.Is else core.snot(r)
        if t is ast.In or t is ast.NotIn:
            r = models.contains(b, a)
            return r if t is ast.In else core.snot(r)
        if t in (ast.Eq, ast.NotEq) and (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list))):
            r = models.seq_eq(a, b)
            return r if t is ast.Eq else core.snot(r)
        if isinstance(a, float) != isinstance(b, float) and isinstance(a, (int, float)) and isinstance(b, (int, float)):
            pass
        if t in (ast.Eq, ast.NotEq) and a is not b and (plain_eq(a) and b is not None or plain_eq(b) and a is not None):
            raise Unsupported("comparison of %s and %s" % (type(a).__name__, type(b).__name__))
        return operate(self.CMP[t], a, b)

    def e_Lambda(self, n, env):
        return self.make_function(n, env, '<lambda>')

    def e_Starred(self, n, env):
        raise Unsupported("starred expression")

    def e_Yield(self, n, env):
        e = env
        while e is not None and e.yields is None:
            e = e.parent
        if e is None:
            raise Unsupported("yield outside generator")
        e.yields.append(self.ev(n.value, env) if n.value else None)
        return None

    def e_YieldFrom(self, n, env):
        from . import loops
        # for x in value: yield x
        x = ast.Name(id='#yielded', ctx=ast.Store())
        loop = ast.For(target=x, iter=n.value, body=[ast.Expr(ast.Yield(Held()))], orelse=[])
        ast.copy_location(loop, n)
        ast.fix_missing_locations(loop)
        loops.run_for(self, loop, env)

    def e_Held(self, n, env):
        return env.chk(env.vars['#yielded'], '#yielded')

    def e_Call(self, n, env):
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'super' and not n.args:
            if env.cell is None:
                raise RuntimeError("super(): no arguments")
            e = env
            while e is not None and e.first is None:
                e = e.parent
            return super(env.cell[0], e.first)
        if isinstance(f, ast.Name) and f.id == 'globals' and not n.args:
            return env.glob
        fn = self.ev(f, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                m = self.ev(k.value, env)
                for kk in list(m.keys()):
                    if not isinstance(kk, str):
                        raise TypeError("keywords must be strings")
                    if kk in kw:
                        raise TypeError("got multiple values for keyword argument '%s'" % kk)
                    kw[kk] = m[kk]
            else:
                if k.arg in kw:
                    raise TypeError("got multiple values for keyword argument '%s'" % k.arg)
                kw[k.arg] = self.ev(k.value, env)
        if isinstance(f, ast.Name) and f.id in ('locals', 'eval', 'exec', 'vars'):
            raise Unsupported(f.id)
        return self.call(fn, tuple(args), kw)

    def call(self, fn, args, kw):
        from . import models
        return models.call(self, fn, args, kw)

    # --------------------------------------------------- comprehensions
    def comp_env(self, env):
        e = Env(env.glob, env if env.kind != 'module' else None, (), 'func')
        e.cell = env.cell
        e.locs = ()
        if env.kind == 'class':
            e.parent = env.parent
        return e

    def e_ListComp(self, n, env):
        from . import loops
        return loops.comprehension(self, n, env, 'list')

    def e_GeneratorExp(self, n, env):
        from . import loops
        return loops.comprehension(self, n, env, 'gen')

    def e_SetComp(self, n, env):
        from . import loops
        r = loops.comprehension(self, n, env, 'set')
        return r

    def e_DictComp(self, n, env):
        from . import loops
        return loops.comprehension(self, n, env, 'dict')


State.handling = []
State.lineno = 0
State.born = {}
State.journal = None


def born(o):
    State.born[id(o)] = (core.next_serial(), o)
    return o


def snapshot(o):
    """Record the contents of a builtin container before it is changed."""
    if State.journal is None:
        return
    if isinstance(o, list):
        old = list(o)

        def undo():
            o[:] = old
        core.record(('list', o), undo)
    elif isinstance(o, dict):
        old = dict(o)

        def undo():
            o.clear()
            o.update(old)
        core.record(('dict', o), undo)
    elif isinstance(o, set):
        old = set(o)

        def undo():
            o.clear()
            o.update(old)
        core.record(('set', o), undo)
