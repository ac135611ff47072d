"""Reductions (SUM, ARGMAX, FIRST ...) and the prover.

A reduction is an application  RED(n, λk. body)  over 0 <= k < n.  Queries
are discharged by replacing every ground reduction by a constant and adding
instances of its defining axioms; the quantifier-free rest goes to z3 and, if
z3 gives no answer, to cvc5.
"""
import os
import subprocess
import tempfile
import time
import z3
from fractions import Fraction
from .core import *
from . import core
from .core import (I, R, B, U, SUM, SUMI, ARGMAX, FIRST, SQRT, EXP, LOG, POW,
                   LGAMMA, ZERO, ONE, RZERO, TRUE, FALSE, const_of, tadd, tsub,
                   tmul, tand, tor, tnot, tite, teq, tlt, tle, toreal, rv,
                   fresh_int, State)

KAPPA = z3.Int('κ')
REDS = (SUM, SUMI, ARGMAX, FIRST)


class Cfg:
    expand = 8           # constant trip counts up to this are expanded
    cex_mode = False     # all dims concrete: expand everything
    timeout = 20000      # ms, full obligations
    branch_timeout = 400
    stats = dict(queries=0, z3=0.0, cvc5=0.0, cvc5_used=0, max=0.0)


# ------------------------------------------------------------ term helpers
def is_red(t):
    return z3.is_app(t) and t.num_args() == 2 and t.decl().name() in ('SUM', 'SUMI', 'ARGMAX', 'FIRST')


def lam(body, k):
    # a name of its own for every nesting depth while the body is normalised,
    # so that no inner binder captures it
    t = z3.Int('κ%d' % (1 + height(body)))
    return z3.Lambda([KAPPA], z3.substitute(canon(z3.substitute(body, (k, t))), (t, KAPPA)))


_skey = {}


def skey(t):
    """Structural sort key (equal for equal structure)."""
    i = t.get_id()
    r = _skey.get(i)
    if r is None:
        if z3.is_quantifier(t):
            h = hash(('λ', skey(t.body())))
        elif z3.is_var(t):
            h = hash(('var', z3.get_var_index(t)))
        elif t.num_args() == 0:
            h = hash(str(t))
        else:
            h = hash((t.decl().name(), kind(t)) + tuple(skey(c) for c in t.children()))
        r = _skey[i] = (h, t)
    return r[0]


_height = {}


def height(t):
    """Nesting depth of lambdas."""
    i = t.get_id()
    r = _height.get(i)
    if r is None:
        if z3.is_quantifier(t):
            h = 1 + height(t.body())
        elif z3.is_app(t) and t.num_args():
            h = max(height(c) for c in t.children())
        else:
            h = 0
        r = _height[i] = (h, t)
    return r[0]


_canon = {}


def canon(t):
    """Order-independent normal form of sums, products, comparisons and
    connectives."""
    i = t.get_id()
    r = _canon.get(i)
    if r is None:
        c = _canon1(t)
        r = _canon[i] = (c, t)
        _canon[c.get_id()] = (c, c)
    return r[0]


def _canon1(t):
    if z3.is_quantifier(t):
        if _hv(t, 0):
            return t
        k = z3.Int('κ%d' % height(t))
        b = canon(z3.substitute_vars(t.body(), k))
        return z3.Lambda([KAPPA], z3.substitute(b, (k, KAPPA)))
    if z3.is_var(t) or t.num_args() == 0:
        return t
    kd = kind(t)
    ch = [canon(c) for c in t.children()]
    if t.sort() == R and kd in (K_MUL, K_ADD, K_SUB, K_UM, K_DIV, K_TR):
        return from_poly(poly_of(kd, ch, t))
    if kd == K_MUL:
        fs = flat(ch, K_MUL)
        c = 1
        rest = []
        for f in fs:
            v = const_of(f)
            if v is not None:
                c = c * Fraction(v)
            else:
                rest.append(f)
        num = z3.IntVal(int(c))
        if c == 0 or not rest:
            return num
        rest.sort(key=skey)
        r = rest[0] if len(rest) == 1 else z3.Product(*rest)
        return from_lin(int_lin(r if c == 1 else num * r))
    if kd in (K_ADD, K_SUB, K_UM):
        return from_lin(int_lin(t if all(a.eq(b) for a, b in zip(ch, t.children())) else t.decl()(*ch) if kd != K_ADD else z3.Sum(*ch)))
    if kd in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
        a, b = ch
        neg_ = False
        if kd in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a
        strict = kd in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if a.sort() == I:
            return int_le(a, b, strict)
        if strict:
            return tnot(real_le(b, a))
        return real_le(a, b)
    if kd == K_NOT:
        x = ch[0]
        if kind(x) == z3.Z3_OP_LE and x.arg(0).sort() == I:
            return int_le(x.arg(1), x.arg(0), True)
        if kind(x) in (K_AND, K_OR):
            return canon((tor if kind(x) == K_AND else tand)(*[canon(tnot(y)) for y in x.children()]))
        return tnot(x)
    if kd == z3.Z3_OP_EQ:
        a, b = ch
        if a.sort() == I:
            l = int_lin(z3.simplify(a - b)) if False else diff_lin(a, b)
            ks = [k for k in l if k is not None and l[k]]
            if not ks:
                return z3.BoolVal(l.get(None, 0) == 0)
            ks.sort(key=lambda k: skey(k.t))
            if l[ks[0]] < 0:
                l = {k: -v for k, v in l.items()}
            pos = {k: v for k, v in l.items() if v > 0}
            neg_ = {k: -v for k, v in l.items() if v < 0}
            return teq(from_lin(pos), from_lin(neg_))
        if a.sort() == R:
            d = diff_poly(a, b)
            if not [m for m in d if m]:
                return z3.BoolVal(not d)
            lead = min((m for m in d if m), key=mkey)
            d = {m: v / d[lead] for m, v in d.items()}
            return teq(from_poly({lead: Fraction(1)}), from_poly({m: -v for m, v in d.items() if m != lead}))
        if skey(b) < skey(a):
            a, b = b, a
        return teq(a, b)
    if kd in (K_AND, K_OR):
        xs = []
        ids = set()
        for c in flat(ch, kd):
            if c.get_id() not in ids:
                ids.add(c.get_id())
                xs.append(c)
        xs.sort(key=skey)
        return tand(*xs) if kd == K_AND else tor(*xs)
    if kd == K_ITE:
        c, a, b = ch
        if kind(c) == K_NOT:
            c, a, b = c.arg(0), b, a
        if kind(c) == z3.Z3_OP_LE and c.arg(0).sort() == I:
            n = int_le(c.arg(1), c.arg(0), True)
            if skey(n) < skey(c):
                c, a, b = n, b, a
        return tite(c, a, b)
    if all(a.eq(b) for a, b in zip(ch, t.children())):
        return t
    return rebuild(t, ch)


def flat(ch, kd):
    out = []
    for c in ch:
        if kind(c) == kd:
            out += flat(c.children(), kd)
        else:
            out.append(c)
    return out


def diff_lin(a, b):
    l = dict(int_lin(a))
    for k, v in int_lin(b).items():
        l[k] = l.get(k, 0) - v
    return l


def from_lin(l):
    ks = [k for k in l if k is not None and l[k]]
    ks.sort(key=lambda k: skey(k.t))
    out = []
    for k in ks:
        out.append(k.t if l[k] == 1 else z3.IntVal(l[k]) * k.t)
    c = l.get(None, 0)
    if c or not out:
        out.append(z3.IntVal(c))
    return out[0] if len(out) == 1 else z3.Sum(*out)


def int_le(a, b, strict):
    """a <= b (a < b) over the integers as pos <= neg."""
    l = diff_lin(a, b)
    if strict:
        l[None] = l.get(None, 0) + 1
    pos = {k: v for k, v in l.items() if v > 0}
    neg_ = {k: -v for k, v in l.items() if v < 0}
    if all(k is None for k in pos) and all(k is None for k in neg_):
        return z3.BoolVal(l.get(None, 0) <= 0)
    return from_lin(pos) <= from_lin(neg_)


def real_le(a, b):
    """a <= b as  ±lead <= rest."""
    d = diff_poly(a, b)
    ms = [m for m in d if m]
    if not ms:
        return z3.BoolVal(d.get((), 0) <= 0)
    lead = min(ms, key=mkey)
    c = d[lead]
    rest = from_poly({m: -v / c for m, v in d.items() if m != lead})
    l = from_poly({lead: Fraction(1)})
    return tle(l, rest) if c > 0 else tle(rest, l)


# polynomials over canonical real atoms: {sorted tuple of atom ids: Fraction}
_atoms = {}
_poly = {}


def mkey(m):
    return (len(m),) + tuple(skey(_atoms[i]) for i in m)


def atom(t):
    i = t.get_id()
    _atoms[i] = t
    return {(i,): Fraction(1)}


def p_mul(p, q):
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            m = tuple(sorted(a + b, key=lambda i: (skey(_atoms[i]), i)))
            v = r.get(m, 0) + x * y
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def p_add(p, q, c=1):
    r = dict(p)
    for m, y in q.items():
        v = r.get(m, 0) + c * y
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def poly(t):
    """Polynomial of a canonical real term."""
    i = t.get_id()
    r = _poly.get(i)
    if r is None:
        c = const_of(t)
        if c is not None:
            p = {(): Fraction(c)} if c != 0 else {}
        elif kind(t) in (K_MUL, K_ADD, K_SUB, K_UM, K_DIV, K_TR):
            p = poly_of(kind(t), t.children(), t)
        else:
            p = atom(t)
        r = _poly[i] = (p, t)
    return r[0]


def poly_of(kd, ch, t):
    if kd == K_TR:
        l = int_lin(ch[0])
        p = {}
        for k, v in l.items():
            if v:
                p = p_add(p, {(): Fraction(v)} if k is None else atom(z3.ToReal(k.t)), 1 if k is None else v)
        return p
    if kd == K_MUL:
        ps = [poly(c) for c in ch]
        p = ps[0]
        for q in ps[1:]:
            if not is_const_poly(p) and not is_const_poly(q):
                p, q = mono(p), mono(q)
            p = p_mul(p, q)
        return p
    if kd == K_ADD:
        p = {}
        for c in ch:
            p = p_add(p, poly(c))
        return p
    if kd == K_UM:
        return {m: -v for m, v in poly(ch[0]).items()}
    if kd == K_SUB:
        p = poly(ch[0])
        for c in ch[1:]:
            p = p_add(p, poly(c), -1)
        return p
    # division
    d = poly(ch[1])
    if not [m for m in d if m]:
        v = d.get((), Fraction(0))
        if v == 0:
            return atom(t)
        return {m: x / v for m, x in poly(ch[0]).items()}
    lead = min((m for m in d if m), key=mkey)
    c = d[lead]
    if c == 1 and len(d) == 1 and len(lead) == 1 and kind(_atoms[lead[0]]) == K_DIV:
        inv = atom(rv(1) / _atoms[lead[0]])
    elif len(d) == 1:
        # reciprocal of a monomial: product of reciprocals
        inv = {(): Fraction(1)}
        for i in lead:
            inv = p_mul(inv, atom(rv(1) / _atoms[i]))
    else:
        inv = atom(rv(1) / from_poly({m: v / c for m, v in d.items()}))
    inv = {m: v / c for m, v in inv.items()}
    if const_of(ch[0]) == 1 and len(inv) == 1:
        return inv
    return p_mul(mono(poly(ch[0])), inv)


def is_const_poly(p):
    return not any(m for m in p)


def mono(p):
    """A sum as constant times one atom with leading coefficient 1."""
    if len(p) <= 1:
        return p
    lead = min((m for m in p if m), key=mkey)
    c = p[lead]
    return {m: c * v for m, v in atom(from_poly({m: v / c for m, v in p.items()})).items()}


def from_poly(p):
    out = []
    for m in sorted((m for m in p if m), key=mkey):
        v = p[m]
        ts = [_atoms[i] for i in m]
        if v == 1:
            out.append(ts[0] if len(ts) == 1 else z3.Product(*ts))
        else:
            out.append(z3.Product(rv(v), *ts))
    if p.get(()) or not out:
        out.append(rv(p.get((), Fraction(0))))
    r = out[0] if len(out) == 1 else z3.Sum(*out)
    _poly[r.get_id()] = (p, r)
    return r


def diff_poly(a, b):
    return p_add(poly(a), poly(b), -1)


def apply_lam(L, t):
    if z3.is_quantifier(L):
        return z3.substitute_vars(L.body(), t)
    return z3.Select(L, t)


_occ_cache = {}


def occurs(k, t):
    """Does constant k occur in t (also below lambdas)?"""
    key = (k.get_id(), t.get_id())
    r = _occ_cache.get(key)
    if r is None:
        r = _occurs(k, t, set())
        _occ_cache[key] = (r, k, t)
        return r
    return r[0]


def _occurs(k, t, seen):
    stack = [t]
    kid = k.get_id()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i == kid:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def consts_in(t, out=None):
    """Uninterpreted 0-ary constants occurring in t."""
    out = {} if out is None else out
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out[i] = x
            else:
                stack.extend(x.children())
    return out


_var_cache = {}


def has_vars(t):
    """Free de Bruijn variables?"""
    return _hv(t, 0)


def _hv(t, depth):
    key = (t.get_id(), depth)
    r = _var_cache.get(key)
    if r is not None:
        return r[0]
    if z3.is_var(t):
        r = z3.get_var_index(t) >= depth
    elif z3.is_quantifier(t):
        r = _hv(t.body(), depth + t.num_vars())
    else:
        r = any(_hv(c, depth) for c in t.children())
    _var_cache[key] = (r, t)
    return r


def kind(t):
    return t.decl().kind() if z3.is_app(t) else None


K_ADD, K_MUL, K_SUB, K_UM, K_ITE = (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB,
                                   z3.Z3_OP_UMINUS, z3.Z3_OP_ITE)
K_TR, K_DIV, K_NOT, K_AND, K_OR = (z3.Z3_OP_TO_REAL, z3.Z3_OP_DIV,
                                   z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR)


# --------------------------------------------------- linear form of a body
def lin(t, k, depth=0):
    """t (real) as list of (coef, core): coef k-free term, core k-dependent
    term or None."""
    if not occurs(k, t):
        return [(t, None)]
    kd = kind(t)
    if kd == K_ADD:
        return [x for c in t.children() for x in lin(c, k, depth)]
    if kd == K_SUB:
        ch = t.children()
        out = list(lin(ch[0], k, depth))
        for c in ch[1:]:
            out += [(neg(a), b) for a, b in lin(c, k, depth)]
        return out
    if kd == K_UM:
        return [(neg(a), b) for a, b in lin(t.arg(0), k, depth)]
    if kd == K_DIV:
        den = t.arg(1)
        if not occurs(k, den):
            inv = rv(1 / Fraction(const_of(den))) if const_of(den) else rv(1) / den
            return [(tmul(a, inv), b) for a, b in lin(t.arg(0), k, depth)]
        return [(rv(1), t)]
    if kd == K_MUL:
        parts = [lin(c, k, depth) for c in t.children()]
        n = 1
        for p in parts:
            n *= len(p)
        if n > 64:
            return [(rv(1), t)]
        acc = [(rv(1), [])]
        for p in parts:
            acc = [(tmul(a, c), b + ([d] if d is not None else [])) for a, b in acc for c, d in p]
        out = []
        for a, b in acc:
            if not b:
                out.append((a, None))
            else:
                b = flatten_mul(b)
                out.append((a, b[0] if len(b) == 1 else z3.Product(*b)))
        return out
    if kd == K_ITE:
        c, a, b = t.children()
        la, lb = lin(a, k, depth), lin(b, k, depth)
        if not occurs(k, c):
            return [(tite(c, x, RZERO), y) for x, y in la] + [(tite(c, RZERO, x), y) for x, y in lb]
        if len(la) + len(lb) > 12:
            return [(rv(1), t)]
        out = []
        for x, y in la:
            if const_of(x) == 0:
                continue
            out.append((x, z3.If(c, y if y is not None else rv(1), RZERO)))
        for x, y in lb:
            if const_of(x) == 0:
                continue
            out.append((x, z3.If(c, RZERO, y if y is not None else rv(1))))
        return out
    if kd == K_TR:
        a = t.arg(0)
        ka = kind(a)
        if ka == K_ADD:
            return [x for c in a.children() for x in lin(toreal(c), k, depth)]
        if ka == K_MUL:
            r = toreal(a.children()[0])
            for c in a.children()[1:]:
                r = tmul(r, toreal(c))
            return lin(r, k, depth)
        if ka == K_UM:
            return [(neg(x), b) for x, b in lin(toreal(a.arg(0)), k, depth)]
        if ka == K_SUB:
            r = toreal(a.arg(0))
            for c in a.children()[1:]:
                r = tsub(r, toreal(c))
            return lin(r, k, depth)
    return [(rv(1), t)]


def neg(t):
    c = const_of(t)
    if c is not None:
        return rv(-Fraction(c))
    return tmul(rv(-1), t)


def flatten_mul(fs):
    out = []
    for f in fs:
        if kind(f) == K_MUL:
            out += flatten_mul(f.children())
        else:
            out.append(f)
    out.sort(key=lambda x: x.get_id())
    return out


def eq_point(c, k):
    """If c is `k == e` (e k-free) possibly conjoined with a rest:
    return (e, rest)."""
    if kind(c) == z3.Z3_OP_EQ and c.arg(0).sort() == I:
        a, b = c.arg(0), c.arg(1)
        d = solve_for(a, b, k)
        if d is not None:
            return d, TRUE
        return None
    if kind(c) == K_AND:
        ch = c.children()
        for i, x in enumerate(ch):
            r = eq_point(x, k)
            if r is not None:
                return r[0], tand(r[1], *(ch[:i] + ch[i + 1:]))
    return None


def solve_for(a, b, k):
    """a == b for k when k occurs linearly with coefficient ±1."""
    la = int_lin(a)
    lb = int_lin(b)
    if la is None or lb is None:
        return None
    coef = {}
    for t, c in list(la.items()):
        coef[t] = coef.get(t, 0) + c
    for t, c in list(lb.items()):
        coef[t] = coef.get(t, 0) - c
    kk = None
    for t in coef:
        if t is not None and t.t.eq(k):
            kk = t
        elif t is not None and coef[t] and occurs(k, t.t):
            return None
    if kk is None or coef[kk] not in (1, -1):
        return None
    s = -coef.pop(kk)
    r = ZERO
    terms = []
    const = 0
    for t, c in coef.items():
        if t is None:
            const += s * c
        elif c:
            terms.append(tmul(z3.IntVal(s * c), t.t))
    r = z3.IntVal(const)
    for t in terms:
        r = tadd(r, t)
    return r


class TKey:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __hash__(self):
        return self.t.get_id()

    def __eq__(self, o):
        return isinstance(o, TKey) and self.t.eq(o.t)


def int_lin(t):
    """Integer term as {TKey or None: coef}."""
    c = const_of(t)
    if c is not None:
        return {None: c}
    kd = kind(t)
    if kd == K_ADD:
        out = {}
        for x in t.children():
            for a, b in int_lin(x).items():
                out[a] = out.get(a, 0) + b
        return out
    if kd == K_SUB:
        ch = t.children()
        out = dict(int_lin(ch[0]))
        for x in ch[1:]:
            for a, b in int_lin(x).items():
                out[a] = out.get(a, 0) - b
        return out
    if kd == K_UM:
        return {a: -b for a, b in int_lin(t.arg(0)).items()}
    if kd == K_MUL:
        ch = t.children()
        cs = [const_of(x) for x in ch]
        k = [x for x in cs if x is not None]
        o = [x for x, y in zip(ch, cs) if y is None]
        if k and len(o) == 1:
            m = 1
            for x in k:
                m *= x
            return {a: m * b for a, b in int_lin(o[0]).items()}
    return {TKey(t): 1}


# ------------------------------------------------------- reduction builders
def clamp0(n):
    """max(n, 0)"""
    c = const_of(n)
    if c is not None:
        return z3.IntVal(max(0, c))
    if core.prove(tle(ZERO, n)):
        return n
    return tite(tle(ZERO, n), n, ZERO)


def const_n(n):
    c = const_of(n)
    if c is None:
        return None
    if c <= Cfg.expand or (Cfg.cex_mode and c <= 5000):
        return max(0, c)
    return None


def mk_sum(n, fn):
    """Real sum of fn(k) (z3 real term) for 0 <= k < n."""
    c = const_n(n)
    if c is not None:
        r = RZERO
        for i in range(c):
            r = tadd(r, toreal(fn(z3.IntVal(i))))
        return r
    k = fresh_int('k')
    with core.local_facts(tle(ZERO, k), tlt(k, n)):
        body = toreal(fn(k))
    return sum_body(n, body, k)


def sum_body(n, body, k):
    groups = {}
    order = []
    for a, b in lin(body, k):
        if const_of(a) == 0:
            continue
        key = None if b is None else b.get_id()
        if key in groups:
            groups[key] = (tadd(groups[key][0], a), b)
        else:
            groups[key] = (a, b)
            order.append(key)
    res = RZERO
    for key in order:
        a, b = groups[key]
        if const_of(a) == 0:
            continue
        if b is None:
            res = tadd(res, tmul(a, toreal(clamp0(n))))
            continue
        res = tadd(res, tmul(a, sum_core(n, b, k)))
    return res


def sum_core(n, b, k):
    if kind(b) == K_ITE:
        c, x, y = b.children()
        if const_of(y) == 0:
            e = eq_point(c, k)
            if e is not None:
                at, rest = e
                val = z3.substitute(x, (k, at))
                rest = z3.substitute(rest, (k, at))
                return tite(tand(tle(ZERO, at), tlt(at, n), rest), val, RZERO)
        elif const_of(x) == 0:
            e = eq_point(tnot(c), k)
            if e is not None:
                at, rest = e
                val = z3.substitute(y, (k, at))
                rest = z3.substitute(rest, (k, at))
                return tite(tand(tle(ZERO, at), tlt(at, n), rest), val, RZERO)
            # normal form: condition first
            if kind(c) == K_NOT:
                b = z3.If(c.arg(0), y, RZERO)
            else:
                b = z3.If(z3.Not(c), y, RZERO)
    if kind(b) == K_TR:
        return toreal(mk_sumi_body(n, b.arg(0), k))
    if b.eq(toreal(k)):
        nn = toreal(clamp0(n))
        return tmul(tmul(nn, nn - 1), rv(Fraction(1, 2)))
    return SUM(n, lam(b, k))


def mk_sumi(n, fn):
    c = const_n(n)
    if c is not None:
        r = ZERO
        for i in range(c):
            r = tadd(r, fn(z3.IntVal(i)))
        return r
    k = fresh_int('k')
    with core.local_facts(tle(ZERO, k), tlt(k, n)):
        body = fn(k)
    return mk_sumi_body(n, body, k)


def mk_sumi_body(n, body, k):
    if not occurs(k, body):
        return tmul(body, clamp0(n))
    kd = kind(body)
    if kd == K_ADD:
        r = ZERO
        for c in body.children():
            r = tadd(r, mk_sumi_body(n, c, k))
        return r
    if kd == K_ITE:
        c, x, y = body.children()
        if not occurs(k, c):
            return tite(c, mk_sumi_body(n, x, k), mk_sumi_body(n, y, k))
        if const_of(y) == 0:
            e = eq_point(c, k)
            if e is not None:
                at, rest = e
                return tite(tand(tle(ZERO, at), tlt(at, n), z3.substitute(rest, (k, at))),
                            z3.substitute(x, (k, at)), ZERO)
        if const_of(x) == 0 and const_of(y) is not None:
            return mk_sumi_body(n, z3.If(tnot(c), y, x), k)
        if const_of(y) == 0 and const_of(x) is not None and kind(c) == z3.Z3_OP_NOT:
            return tsub(tmul(x, clamp0(n)), mk_sumi_body(n, z3.If(c.arg(0), x, y), k))
    if kd == K_MUL:
        ch = body.children()
        fr = [c for c in ch if not occurs(k, c)]
        dep = [c for c in ch if occurs(k, c)]
        if fr and len(dep) == 1:
            return tmul(fr[0] if len(fr) == 1 else z3.Product(*fr), mk_sumi_body(n, dep[0], k))
    return SUMI(n, lam(body, k))


def mk_argmax(n, fn):
    """Index of the first maximum (n >= 1)."""
    c = const_n(n)
    if c is not None and c >= 1:
        best, val = ZERO, fn(ZERO)
        for i in range(1, c):
            v = fn(z3.IntVal(i))
            up = tlt(val, v)
            best, val = tite(up, z3.IntVal(i), best), tite(up, v, val)
        return best
    k = fresh_int('k')
    with core.local_facts(tle(ZERO, k), tlt(k, n)):
        body = toreal(fn(k))
    if not occurs(k, body):
        return ZERO
    return ARGMAX(n, lam(body, k))


def mk_max(n, fn):
    c = const_n(n)
    if c is not None and c >= 1:
        val = fn(ZERO)
        for i in range(1, c):
            val = core.tmax(val, fn(z3.IntVal(i)))
        return val
    am = mk_argmax(n, fn)
    with core.local_facts(tle(ZERO, am), tlt(am, n)):
        return fn(am)


def mk_first(n, fn):
    """Least k in [0,n) with fn(k) (a z3 Bool), n (or 0 if n<0) if none."""
    c = const_n(n)
    if c is not None:
        r = z3.IntVal(c)
        for i in reversed(range(c)):
            r = tite(fn(z3.IntVal(i)), z3.IntVal(i), r)
        return r
    k = fresh_int('k')
    with core.local_facts(tle(ZERO, k), tlt(k, n)):
        p = fn(k)
    return first_body(n, p, k)


def first_body(n, p, k):
    if z3.is_true(p):
        return ZERO
    if z3.is_false(p):
        return clamp0(n)
    if not occurs(k, p):
        return tite(tand(p, tlt(ZERO, n)), ZERO, clamp0(n))
    e = eq_point(p, k)
    if e is not None:
        at, rest = e
        return tite(tand(tle(ZERO, at), tlt(at, n), z3.substitute(rest, (k, at))), at, clamp0(n))
    th = threshold(p, k)
    if th is not None:      # p  <=>  k >= th
        m = clamp0(n)
        lo = core.tmax(ZERO, th)
        return tite(tlt(lo, m), lo, m)
    e = first_of_first(n, p, k)
    if e is not None:
        return e
    return FIRST(n, lam(p, k))


def implied(facts, g, ms=300):
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*facts)
    s.add(z3.Not(g))
    return s.check() == z3.unsat


def first_of_first(n, p, k):
    """The first (k), or the last (n-1-k), index with q(m) such that none
    before m has q: the condition counts the q's below m and finds none."""
    if kind(p) != K_AND:
        return None
    ch = p.children()
    for i, e in enumerate(ch):
        if kind(e) != z3.Z3_OP_EQ or e.arg(0).sort() != I:
            continue
        for s, t in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
            if not (is_red(s) and s.decl().name() == 'SUMI'):
                continue
            m = s.arg(0)
            forward = int_eq(m, k)
            if not forward and not int_eq(m, tsub(tsub(n, ONE), k)):
                continue
            j = fresh_int('j')
            b = apply_lam(s.arg(1), j)
            inside = [ZERO <= k, k < n]
            if implied([], z3.Or(b == 0, b == 1)):
                if implied(inside, t == 0):
                    q = b == 1
                elif implied(inside, t == m):
                    q = b == 0
                else:
                    continue
                rest = tand(*(ch[:i] + ch[i + 1:]))
                back = j if forward else tsub(tsub(n, ONE), j)
                r = canon(z3.substitute(rest, (k, back)))
                if not implied([ZERO <= j, j < n], r == q):
                    continue
                F = first_body(n, r, j)
                return F if forward else tite(tlt(F, clamp0(n)), tsub(tsub(n, ONE), F), clamp0(n))
    return None


def int_eq(a, b):
    d = int_lin(tsub(a, b))
    return d is not None and not any(d.values())


def threshold(p, k):
    """p equivalent to k >= t: return t (integers)."""
    negated = False
    while kind(p) == K_NOT:
        negated = not negated
        p = p.arg(0)
    kd = kind(p)
    if kd not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or p.arg(0).sort() != I:
        return None
    a, b = p.arg(0), p.arg(1)
    op = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>'}[kd]
    if negated:
        op = {'<=': '>', '<': '>=', '>=': '<', '>': '<='}[op]
    la, lb = int_lin(a), int_lin(b)
    coef = dict(la)
    for t, c in lb.items():
        coef[t] = coef.get(t, 0) - c
    kk = None
    for t in coef:
        if t is None:
            continue
        if t.t.eq(k):
            kk = t
        elif coef[t] and occurs(k, t.t):
            return None
    if kk is None or coef[kk] not in (1, -1):
        return None
    ck = coef.pop(kk)
    rest = z3.IntVal(coef.pop(None, 0))
    for t, c in coef.items():
        if c:
            rest = tadd(rest, tmul(z3.IntVal(c), t.t))
    # ck*k + rest OP 0
    if ck == 1 and op == '>=':
        return core.simp(-rest)
    if ck == 1 and op == '>':
        return core.simp(-rest + 1)
    if ck == -1 and op == '<=':
        return core.simp(rest)
    if ck == -1 and op == '<':
        return core.simp(rest + 1)
    return None


# ----------------------------------------------------------------- prover
class Elim:
    def __init__(self):
        self.map = {}        # id -> (app, const)
        self.memo = {}
        self.keep = []
        self.order = []
        self.ufs = {}        # SQRT/EXP/... apps
        self.sel = []

    def const_for(self, t):
        i = t.get_id()
        r = self.map.get(i)
        if r is None:
            name = "%s#%d" % (t.decl().name(), len(self.map))
            c = z3.Const(name, t.sort())
            n = self.el(t.arg(0))
            self.map[i] = (t, c, n)
            self.order.append(i)
            return c
        return r[1]

    def el(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is not None:
            return r
        self.keep.append(t)
        if is_red(t):
            r = self.const_for(t)
        elif z3.is_quantifier(t) or z3.is_var(t) or t.num_args() == 0:
            r = t
        else:
            ch = t.children()
            new = [self.el(c) for c in ch]
            if all(a.eq(b) for a, b in zip(ch, new)):
                r = t
            else:
                r = t.decl()(*new) if kind(t) not in (K_AND, K_OR, K_ADD, K_MUL, z3.Z3_OP_DISTINCT) else rebuild(t, new)
            nm = t.decl().name()
            if nm in ('sqrt', 'exp', 'log', 'pow', 'lgamma', 'round') and kind(t) == z3.Z3_OP_UNINTERPRETED:
                self.ufs[r.get_id()] = r
        self.memo[i] = r
        return r


def rebuild(t, new):
    kd = kind(t)
    if kd == K_AND:
        return z3.And(*new)
    if kd == K_OR:
        return z3.Or(*new)
    if kd == K_ADD:
        return z3.Sum(*new) if len(new) > 1 else new[0]
    if kd == K_MUL:
        return z3.Product(*new) if len(new) > 1 else new[0]
    return t.decl()(*new)


def index_terms(ts):
    """Ground integer arguments of uninterpreted functions (also below
    lambdas): {(decl, pos): {id: term}}."""
    out = {}
    seen = set()
    stack = list(ts)
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_var(x):
            continue
        ch = x.children()
        if ch and kind(x) == z3.Z3_OP_UNINTERPRETED and not is_red(x):
            d = x.decl().name()
            for j, c in enumerate(ch):
                if c.sort() == I and not has_vars(c):
                    out.setdefault((d, j), {})[c.get_id()] = c
        stack.extend(ch)
    return out


def body_patterns(body):
    """Positions at which the outermost bound variable (index 0 at depth 0)
    is used as `var + c`:  list of (decl, pos, offset-term or None)."""
    out = []
    seen = set()
    stack = [(body, 0)]
    while stack:
        x, d = stack.pop()
        key = (x.get_id(), d)
        if key in seen:
            continue
        seen.add(key)
        if z3.is_quantifier(x):
            stack.append((x.body(), d + x.num_vars()))
            continue
        if z3.is_var(x):
            continue
        ch = x.children()
        if ch and kind(x) == z3.Z3_OP_UNINTERPRETED and not is_red(x):
            for j, c in enumerate(ch):
                if c.sort() == I and uses_var(c, d):
                    off = offset_of(c, d)
                    if off is not None:
                        out.append((x.decl().name(), j, off[0], off[1]))
        for c in ch:
            stack.append((c, d))
    return out


def uses_var(t, d):
    if z3.is_var(t):
        return z3.get_var_index(t) == d
    if z3.is_quantifier(t):
        return uses_var(t.body(), d + t.num_vars())
    return any(uses_var(c, d) for c in t.children())


def offset_of(t, d):
    """t == s*var(d) + off with s = ±1, off ground."""
    l = int_lin(t)
    s = None
    off = ZERO
    for a, c in l.items():
        if a is None:
            off = tadd(off, z3.IntVal(c))
        elif z3.is_var(a.t) and z3.get_var_index(a.t) == d:
            if c not in (1, -1):
                return None
            s = c
        elif has_vars(a.t):
            return None
        else:
            off = tadd(off, tmul(z3.IntVal(c), a.t))
    if s is None:
        return None
    return s, off


def axioms(E, formulas, levels, cheap):
    """Instances of the defining axioms of the reductions in E."""
    out = []

    def add(f):
        if not z3.is_true(f):
            out.append(E.el(f))
    done_basic = set()
    done_pair = set()
    done_inst = set()
    done_uf = set()
    witness = []
    for level in range(levels):
        new = False
        for i in list(E.order):
            if i in done_basic:
                continue
            done_basic.add(i)
            new = True
            t, c, n = E.map[i]
            L = t.arg(1)
            nm = t.decl().name()
            if nm == 'ARGMAX':
                add(z3.Implies(n >= 1, z3.And(0 <= c, c < n)))
                if not cheap:
                    apply_lam_safe(L, c)
            elif nm == 'FIRST':
                add(z3.And(0 <= c, z3.Or(c <= n, c == 0)))
                if not cheap:
                    add(z3.Implies(z3.And(c < n), apply_lam(L, c)))
            elif nm in ('SUM', 'SUMI'):
                zero = RZERO if nm == 'SUM' else ZERO
                add(z3.Implies(n <= 0, c == zero))
                if not cheap:
                    add(z3.Implies(n == 1, c == apply_lam(L, ZERO)))
                    # non-negative bodies
                    w = fresh_int('wn')
                    witness.append(w)
                    b = apply_lam(L, w)
                    add(z3.Or(z3.And(0 <= w, w < n, b < 0), c >= 0))
                    if nm == 'SUMI':
                        w = fresh_int('wn')
                        witness.append(w)
                        b = apply_lam(L, w)
                        add(z3.Or(z3.And(0 <= w, w < n, b > 1), c <= z3.If(n > 0, n, 0)))
                    w = fresh_int('wz')
                    witness.append(w)
                    b = apply_lam(L, w)
                    add(z3.Or(n <= 0, z3.And(0 <= w, w < n, b <= 0), c > 0))
                    if nm == 'SUMI':
                        # a positive sum has a positive term; a sum of
                        # non-negative terms is at least each of them
                        w = fresh_int('wp')
                        witness.append(w)
                        add(z3.Or(c <= 0, z3.And(0 <= w, w < n, apply_lam(L, w) > 0)))
                        w = fresh_int('wn')
                        witness.append(w)
                        some_negative = z3.And(0 <= w, w < n, apply_lam(L, w) < 0)
                        for i2 in list(E.order):
                            t2, c2, n2 = E.map[i2]
                            if t2.decl().name() in ('FIRST', 'ARGMAX'):
                                add(z3.Or(some_negative, z3.Not(z3.And(0 <= c2, c2 < n)), c >= apply_lam(L, c2)))
        for u in list(E.ufs.values()):
            if u.decl().name() == 'round' and u.get_id() not in done_uf:
                done_uf.add(u.get_id())
                new = True
                a = u.arg(0)
                h = rv(Fraction(1, 2))
                ur = z3.ToReal(u)
                add(z3.And(ur - h <= a, a <= ur + h))
                if not cheap:
                    add(z3.Implies(z3.Or(a == ur + h, a == ur - h), u % 2 == 0))
        if cheap:
            break
        # pairs
        ids = list(E.order)
        for x in range(len(ids)):
            for y in range(x + 1, len(ids)):
                key = (ids[x], ids[y])
                if key in done_pair:
                    continue
                t1, c1, n1 = E.map[ids[x]]
                t2, c2, n2 = E.map[ids[y]]
                if t1.decl().name() != t2.decl().name():
                    continue
                done_pair.add(key)
                if len(done_pair) > 600:
                    continue
                new = True
                nm = t1.decl().name()
                L1, L2 = t1.arg(1), t2.arg(1)
                if nm in ('SUM', 'SUMI'):
                    if L1.eq(L2):
                        add(z3.Implies(n1 == n2, c1 == c2))
                        add(z3.Implies(z3.And(n2 == n1 + 1, n1 >= 0), c2 == c1 + apply_lam(L1, n1)))
                        add(z3.Implies(z3.And(n1 == n2 + 1, n2 >= 0), c1 == c2 + apply_lam(L1, n2)))
                    else:
                        w = fresh_int('w')
                        witness.append(w)
                        a, b = apply_lam(L1, w), apply_lam(L2, w)
                        add(z3.Or(n1 != n2, z3.And(0 <= w, w < n1, a != b), c1 == c2))
                        w = fresh_int('w')
                        witness.append(w)
                        a, b = apply_lam(L1, w), apply_lam(L2, w)
                        add(z3.Or(n1 != n2, z3.And(0 <= w, w < n1, a != -b), c1 == -c2))
        # instantiation of ARGMAX / FIRST
        allts = formulas + [E.map[i][0].arg(1) for i in E.order] + out
        idx = index_terms(allts)
        base = {}
        for i in E.order:
            t, c, n = E.map[i]
            if c.sort() == I:
                base[c.get_id()] = c
        for w in witness:
            base[w.get_id()] = w
        for i in list(E.order):
            t, c, n = E.map[i]
            nm = t.decl().name()
            if nm not in ('ARGMAX', 'FIRST'):
                continue
            L = t.arg(1)
            cands = dict(base)
            cands.pop(c.get_id(), None)
            if z3.is_quantifier(L):
                for d, j, s, off in body_patterns(L.body()):
                    for term in idx.get((d, j), {}).values():
                        k = tsub(term, off) if s == 1 else tsub(off, term)
                        k = core.simp(E.el(k))
                        cands[k.get_id()] = k
            cands = list(cands.values())
            for extra in E.extra:
                cands.append(extra)
            for k in cands:
                if (i, k.get_id()) in done_inst or k.eq(c):
                    continue
                if len(done_inst) > 800:
                    break
                done_inst.add((i, k.get_id()))
                E.keep.append(k)
                new = True
                b = apply_lam(L, k)
                if nm == 'ARGMAX':
                    m = apply_lam(L, c)
                    add(z3.Implies(z3.And(0 <= k, k < n), z3.And(b <= m, z3.Implies(k < c, b < m))))
                else:
                    add(z3.Implies(z3.And(0 <= k, k < c), z3.Not(b)))
        for u in list(E.ufs.values()):
            if u.get_id() in done_uf:
                continue
            done_uf.add(u.get_id())
            new = True
            nm = u.decl().name()
            a = u.arg(0)
            if nm == 'sqrt':
                add(z3.Implies(a >= 0, z3.And(u >= 0, u * u == a)))
            elif nm == 'exp':
                add(u > 0)
                add(z3.Implies(a == 0, u == 1))
        if not new:
            break
    return out


def apply_lam_safe(L, c):
    return None


def split_goal(g):
    """Conjunction -> list of goals."""
    if kind(g) == K_AND:
        return [x for c in g.children() for x in split_goal(c)]
    return [g]


_cache = {}
_keep = []


def _key(pc_, goal, tag):
    k = pc_.key() if isinstance(pc_, core.PC) else tuple(p.get_id() for p in pc_)
    core._alive.append(goal)
    return (tag, goal.get_id(), k)


def nonneg(t):
    """Syntactic non-negativity."""
    c = const_of(t)
    if c is not None:
        return c >= 0
    kd = kind(t)
    if kd == K_ADD:
        return all(nonneg(c) for c in t.children())
    if kd == K_MUL:
        rest = list(t.children())
        rest = flatten_mul(rest)
        while rest:
            x = rest.pop()
            for i, y in enumerate(rest):
                if y.eq(x):
                    del rest[i]
                    break
            else:
                if not nonneg(x):
                    return False
        return True
    if kd == K_ITE:
        return nonneg(t.arg(1)) and nonneg(t.arg(2))
    if kd == K_DIV:
        return nonneg(t.arg(0)) and nonneg(t.arg(1))
    if kd == K_TR:
        return nonneg(t.arg(0))
    if is_red(t):
        nm = t.decl().name()
        if nm in ('SUM', 'SUMI') and z3.is_quantifier(t.arg(1)):
            return nonneg(t.arg(1).body())
        return nm in ('ARGMAX', 'FIRST') and False
    if kd == z3.Z3_OP_UNINTERPRETED and t.decl().name() == 'exp':
        return True
    return False


def relevant(pc_, goal):
    return pc_


def query(pc_, goal, cheap=False, timeout=None, extra=(), use_cvc5=True, levels=3):
    """'proved' | 'refuted' (sat; possibly spurious) | 'unknown', model"""
    Cfg.stats['queries'] += 1
    t0 = time.time()
    E = Elim()
    E.extra = list(extra)
    fs = [E.el(p) for p in pc_]
    ng = E.el(tnot(goal))
    formulas = list(pc_) + [goal]
    ax = axioms(E, formulas, 1 if cheap else levels, cheap)
    s = z3.Solver()
    s.set('timeout', timeout or Cfg.timeout)
    s.add(core.PI > 3, core.PI < 4)
    s.add(*fs)
    s.add(*ax)
    s.add(ng)
    r = s.check()
    dt = time.time() - t0
    Cfg.stats['z3'] += dt
    Cfg.stats['max'] = max(Cfg.stats['max'], dt)
    if r == z3.unsat:
        return 'proved', None
    if r == z3.sat:
        return 'refuted', s.model()
    if not cheap and use_cvc5:
        r = cvc5_check(s, (timeout or Cfg.timeout) / 1000.)
        if r == 'unsat':
            Cfg.stats['cvc5_used'] += 1
            return 'proved', None
    return 'unknown', None


def cvc5_check(s, tlimit):
    t0 = time.time()
    txt = "(set-logic ALL)\n" + s.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(tlimit * 1000), '--nl-cov', '-q', '-'],
                           input=txt, capture_output=True, text=True, timeout=tlimit + 5)
        out = p.stdout.strip().split('\n')[0]
    except Exception:
        out = 'unknown'
    Cfg.stats['cvc5'] += time.time() - t0
    return out


def prove(pc_, goal):
    """Cheap entailment used to simplify while executing."""
    if z3.is_true(goal):
        return True
    if z3.is_false(goal):
        return False
    k = _key(pc_, goal, 'p')
    r = _cache.get(k)
    if r is None:
        st, _ = query(pc_, goal, cheap=True, timeout=Cfg.branch_timeout)
        r = st == 'proved'
        _cache[k] = r
        core._alive.append(goal)
    return r


def prove_full(pc_, goal, timeout=None):
    k = _key(pc_, goal, 'f')
    r = _cache.get(k)
    if r is None:
        if prove(pc_, goal):
            r = True
        else:
            st, _ = query(pc_, goal, cheap=False, timeout=timeout or 5000)
            r = st == 'proved'
        _cache[k] = r
        core._alive.append(goal)
    return r


def nonlin_node(t):
    kd = kind(t)
    if kd == K_MUL and t.sort() == R:
        return sum(1 for x in t.children() if const_of(x) is None) > 1
    return kd == K_DIV and const_of(t.arg(1)) is None


_nl = {}


def nonlinear(t):
    i = t.get_id()
    r = _nl.get(i)
    if r is None:
        r = _nl[i] = (z3.is_app(t) and (nonlin_node(t) or any(nonlinear(c) for c in t.children())), t)
    return r[0]


def linearised(t, N):
    """Non-linear products and quotients as arbitrary numbers (branch
    feasibility only: an over-approximation of the feasible paths)."""
    if not nonlinear(t):
        return t
    i = t.get_id()
    r = N.get(i)
    if r is None:
        r = N[i] = (z3.Const(fresh_name('nl'), R) if nonlin_node(t) else
                    rebuild(t, [linearised(c, N) for c in t.children()]), t)
    return r[0]


def branch(pc_, cond, again=False):
    k = _key(pc_, cond, 'b')
    r = _cache.get(k)
    if r is not None:
        return r
    E = Elim()
    E.extra = []
    fs = [E.el(p) for p in pc_]
    c = E.el(cond)
    ax = axioms(E, list(pc_) + [cond], 1, True)
    def ask(fs, ax, c):
        s = z3.Solver()
        s.set('timeout', Cfg.branch_timeout)
        s.add(*fs)
        s.add(*ax)
        out = []
        for x in (c, z3.Not(c)):
            s.push()
            s.add(x)
            out.append(s.check())
            s.pop()
        return out
    t0 = time.time()
    lin = any(nonlinear(x) for x in fs + ax + [c])
    if lin:
        N = {}
        fl, al, cl = [linearised(f, N) for f in fs], [linearised(f, N) for f in ax], linearised(c, N)
        a, b = ask(fl, al, cl)
    if not lin or a != z3.unsat and b != z3.unsat and not nonlinear(c):
        a, b = ask(fs, ax, c)
    Cfg.stats['queries'] += 2
    Cfg.stats['z3'] += time.time() - t0
    if a == z3.unsat and b == z3.unsat:
        r = 'dead'
    elif a == z3.unsat:
        r = 'false'
    elif b == z3.unsat:
        r = 'true'
    else:
        r = 'both'
        if not again:
            p2, c2 = [canon(p) for p in pc_], canon(cond)
            if not c2.eq(cond) or any(not x.eq(y) for x, y in zip(p2, pc_)):
                r = branch(p2, c2, True)
    _cache[k] = r
    core._alive.append(cond)
    return r
