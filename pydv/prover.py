"""Discharging obligations: quick query, renormalisation under the path
condition, congruence, case split on undecided conditions, full query."""
import time
import z3
from . import core, red
from .core import (PC, tand, tor, tnot, tite, teq, tlt, tle, tadd, tmul, tsub, toreal, const_of, simp, I, R, B,
                   ZERO, ONE, RZERO, TRUE, FALSE, fresh_int, State)
from .red import kind, is_red, has_vars, apply_lam, K_ITE, K_AND, K_OR, K_NOT, K_ADD, K_MUL, K_SUB, K_UM, K_DIV, K_TR


class under:
    def __init__(self, P):
        self.P = P

    def __enter__(self):
        State.ctxs.append(core.Ctx([], self.P))

    def __exit__(self, *a):
        State.ctxs.pop()


class Budget(Exception):
    pass


class Norm:
    """Rebuild a term with every if-then-else condition decided that the path
    condition decides."""
    def __init__(self, P, deadline=None):
        self.memo = {}
        self.keep = []
        self.deadline = deadline
        self.skol = {}

    def fresh(self, depth):
        s = self.skol.get(depth)
        if s is None:
            s = self.skol[depth] = fresh_int('ν')
        return s

    def go(self, t, P, depth=0):
        if z3.is_var(t) or not z3.is_app(t) and not z3.is_quantifier(t):
            return t
        if z3.is_app(t) and t.num_args() == 0:
            return t
        if self.deadline and time.time() > self.deadline:
            raise Budget
        key = (t.get_id(), P.key())
        r = self.memo.get(key)
        if r is not None:
            return r
        self.keep.append(t)
        r = self._go(t, P, depth)
        self.keep.append(r)
        self.memo[key] = r
        return r

    def _go(self, t, P, depth):
        if z3.is_quantifier(t):
            return t
        kd = kind(t)
        if kd == K_ITE:
            c = self.go(t.arg(0), P, depth)
            d = decided(P, c)
            if d is not None:
                return self.go(t.arg(1 if d else 2), P, depth)
            a, b = t.arg(1), t.arg(2)
            return tite(c, self.go(a, P.extended(c) if useful(c, a) else P, depth),
                        self.go(b, P.extended(tnot(c)) if useful(c, b) else P, depth))
        if is_red(t):
            n = self.go(t.arg(0), P, depth)
            k = self.fresh(depth)
            P2 = P.extended(tle(ZERO, k), tlt(k, n))
            body = self.go(apply_lam(t.arg(1), k), P2, depth + 1)
            nm = t.decl().name()
            with under(P):
                sub = lambda i: z3.substitute(body, (k, i))
                if nm == 'SUM':
                    return red.mk_sum(n, sub)
                if nm == 'SUMI':
                    return red.mk_sumi(n, sub)
                if nm == 'ARGMAX':
                    return red.mk_argmax(n, sub)
                return red.mk_first(n, sub)
        ch = [self.go(c, P, depth) for c in t.children()]
        if kd == K_ADD:
            r = ch[0]
            for c in ch[1:]:
                r = tadd(r, c)
            return r
        if kd == K_MUL:
            r = ch[0]
            for c in ch[1:]:
                r = tmul(r, c)
            return r
        if kd == K_SUB:
            r = ch[0]
            for c in ch[1:]:
                r = tsub(r, c)
            return r
        if kd == K_AND:
            return tand(*ch)
        if kd == K_OR:
            return tor(*ch)
        if kd == K_NOT:
            return tnot(ch[0])
        if kd == z3.Z3_OP_EQ:
            return teq(*ch)
        if kd == z3.Z3_OP_LE:
            return tle(*ch)
        if kd == z3.Z3_OP_LT:
            return tlt(*ch)
        if kd == z3.Z3_OP_GE:
            return tle(ch[1], ch[0])
        if kd == z3.Z3_OP_GT:
            return tlt(ch[1], ch[0])
        if kd == K_TR:
            return toreal(ch[0])
        if all(a.eq(b) for a, b in zip(ch, t.children())):
            return t
        r = simp(red.rebuild(t, ch))
        return r


_use = {}


def useful(c, t):
    """Can knowing c decide a condition inside t?"""
    k = (c.get_id(), t.get_id())
    r = _use.get(k)
    if r is None:
        v = not heavy(c) and has_ite(t) and bool(set(red.consts_in(c)) & set(red.consts_in(t)))
        r = _use[k] = (v, c, t)
    return r[0]


_hi = {}


def has_ite(t):
    i = t.get_id()
    r = _hi.get(i)
    if r is None:
        if z3.is_quantifier(t):
            v = True if is_bounded(t) else has_ite(t.body())
        elif kind(t) == K_ITE or is_red(t):
            v = True
        elif z3.is_app(t):
            v = any(has_ite(x) for x in t.children())
        else:
            v = False
        r = _hi[i] = (v, t)
    return r[0]


def is_bounded(t):
    return False


class Abstraction:
    """Replaces closed ARGMAX / FIRST terms by arbitrary constants."""
    def __init__(self):
        self.map = {}
        self.facts = []

    def collect(self, t, P):
        found = {}
        seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if is_red(x) and x.decl().name() in ('ARGMAX', 'FIRST') and not has_vars(x):
                found[i] = x
                continue
            if z3.is_quantifier(x):
                stack.append(x.body())
            elif z3.is_app(x):
                stack.extend(x.children())
        return found

    def apply(self, t, P):
        found = self.collect(t, P)
        new = []
        for i, x in found.items():
            if i not in self.map:
                nm = x.decl().name()
                c = fresh_int('μ')
                self.map[i] = (x, c)
                n = self.apply(x.arg(0), P)
                if nm == 'ARGMAX':
                    self.facts.append(z3.Implies(n >= 1, z3.And(0 <= c, c < n)))
                else:
                    self.facts.append(z3.And(0 <= c, z3.Or(c <= n, c == 0)))
            new.append(self.map[i])
        if not new:
            return t
        return z3.substitute(t, *new)


_dec = {}


def decided(P, c):
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    if heavy(c):
        for p in P:
            if p.eq(c):
                return True
            if kind(p) == K_NOT and p.arg(0).eq(c) or kind(c) == K_NOT and c.arg(0).eq(p):
                return False
        return None
    if red.prove(P, c):
        return True
    if red.prove(P, tnot(c)):
        return False
    return None


_heavy = {}


def heavy(c):
    """Conditions over reals with reductions are not worth a query."""
    r = _heavy.get(c.get_id())
    if r is None:
        r = (any(x.sort() == R for x in c.children()) and contains_red(c), c)
        _heavy[c.get_id()] = r
    return r[0]


_cr = {}


def contains_red(t):
    i = t.get_id()
    r = _cr.get(i)
    if r is None:
        if is_red(t):
            v = True
        elif z3.is_quantifier(t):
            v = contains_red(t.body())
        elif z3.is_app(t):
            v = any(contains_red(c) for c in t.children())
        else:
            v = False
        r = _cr[i] = (v, t)
    return r[0]


def conditions(t, out, seen, depth=0):
    """Ground conditions of if-then-elses and disjunctions in t."""
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_var(x):
            continue
        if kind(x) == K_ITE and not has_vars(x.arg(0)):
            out.append(x.arg(0))
        stack.extend(x.children())


def atoms(c):
    if kind(c) in (K_AND, K_OR, K_NOT):
        for x in c.children():
            yield from atoms(x)
    elif kind(c) == K_ITE and c.sort() == B:
        for x in c.children():
            yield from atoms(x)
    else:
        yield c


def size(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    n = 0
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        n += 1
        stack.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return n


def congruence(goal):
    """Sufficient smaller goals for an equality of two like terms."""
    if kind(goal) != z3.Z3_OP_EQ:
        return None
    a, b = goal.arg(0), goal.arg(1)
    # c*x == d*y with equal constants
    if kind(a) == kind(b) and z3.is_app(a) and a.num_args() == b.num_args() and a.num_args() and a.decl().eq(b.decl()):
        kd = kind(a)
        if is_red(a):
            k = fresh_int('q')
            x, y = apply_lam(a.arg(1), k), apply_lam(b.arg(1), k)
            return [(None, teq(a.arg(0), b.arg(0))), (tand(tle(ZERO, k), tlt(k, a.arg(0))), teq(x, y))]
        if kd in (z3.Z3_OP_UNINTERPRETED, K_DIV, K_ITE):
            return [(None, teq(x, y)) for x, y in zip(a.children(), b.children())]
        if kd in (K_ADD, K_MUL):
            return match_args(a.children(), b.children())
    return None


def expand(p):
    """Multiply out the factors that are sums."""
    out = {}
    for m, v in p.items():
        q = {(): v}
        for i in m:
            x = red._atoms[i]
            q = red.p_mul(q, expand(red.poly(x)) if kind(x) == K_ADD else {(i,): 1})
            if len(q) > 40:
                return p
        out = red.p_add(out, q)
    return out


def fuse(goal):
    """Σ a_i SUM(n, f_i) == Σ b_j SUM(n, g_j) holds if it holds term by term:
    [(range, Σ a_i f_i(k) == Σ b_j g_j(k))], one for every n."""
    if kind(goal) != z3.Z3_OP_EQ or goal.arg(0).sort() != R:
        return None
    sides = {}
    free = {}
    count = 0
    for side, sign in ((0, 1), (1, -1)):
        for m, v in expand(red.poly(red.canon(goal.arg(side)))).items():
            ats = [red._atoms[i] for i in m]
            sums = [x for x in ats if is_red(x) and x.decl().name() == 'SUM']
            if not sums:
                free[m] = free.get(m, 0) + sign * v
                continue
            s = sums[-1]
            rest = list(ats)
            del rest[[i for i, x in enumerate(rest) if x.eq(s)][0]]
            count += 1
            sides.setdefault(s.arg(0).get_id(), (s.arg(0), [], []))[1 + side].append((v, rest, s.arg(1)))
    if any(free.values()) or count < 2:
        return None
    out = []
    for n, l, r in sides.values():
        k = fresh_int('q')

        def total(ts):
            x = RZERO
            for v, rest, f in ts:
                y = apply_lam(f, k)
                for z in rest:
                    y = tmul(z, y)
                x = tadd(x, tmul(core.rv(v), y))
            return x
        out.append((tand(tle(ZERO, k), tlt(k, n)), red.canon(teq(total(l), total(r)))))
    return out


def match_args(xs, ys):
    ys = list(ys)
    left = []
    for x in xs:
        for i, y in enumerate(ys):
            if y.eq(x):
                del ys[i]
                break
        else:
            left.append(x)
    if len(left) != len(ys) or len(left) > 3:
        return None
    if len(left) == 1:
        return [(None, teq(left[0], ys[0]))]
    # pair by head symbol
    out = []
    for x in left:
        c = [y for y in ys if head(y) == head(x)]
        if len(c) != 1:
            return None
        ys = [y for y in ys if y is not c[0]]
        out.append((None, teq(x, c[0])))
    return out


def head(t):
    if kind(t) == K_MUL:
        return ('*',) + tuple(sorted(str(head(c)) for c in t.children()))
    if is_red(t):
        return (t.decl().name(), core.short(t.arg(1))[:40])
    if t.num_args() == 0:
        return (str(t),)
    return (t.decl().name(),)


def prove_obligation(P, goal, timeout, deadline=None, cdepth=0):
    goal = red.canon(goal)
    P = PC([red.canon(p) for p in P])
    if z3.is_true(goal) or red.prove(P, goal):
        return 'proved', None
    # 1. closed ARGMAX / FIRST terms as arbitrary positions
    A = Abstraction()
    g = A.apply(goal, P)
    if A.map:
        ps = [A.apply(p, P) for p in P]
        P2 = PC(A.facts + [p for p in ps if not heavy(p)])
        # syntactically different positions that are provably equal
        merge(A, P, deadline)
        P2.extend(A.merged)
        st, leaf = prove_goal(P2, g, min(timeout, 2000), 0, min(deadline or 1e18, time.time() + 20), cdepth, light=True)
        if st == 'proved':
            return st, None
    return prove_goal(P, goal, timeout, 0, deadline, cdepth)


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return seen


def generalise(P, goal):
    """Replace the outermost shared ground numeric subterms of the goal by
    arbitrary numbers."""
    if kind(goal) != z3.Z3_OP_EQ or goal.arg(0).sort() == B:
        return P, None
    left = subterms(goal.arg(0))
    right = subterms(goal.arg(1))
    todo = {}
    done = set()
    stack = [goal.arg(0), goal.arg(1)]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in done:
            continue
        done.add(i)
        if i in left and i in right and z3.is_app(x) and x.num_args() and x.sort() in (I, R) \
                and const_of(x) is None and not has_vars(x) and size(x) >= 4:
            todo[i] = x
            continue
        stack.extend([x.body()] if z3.is_quantifier(x) else x.children())
    todo = list(todo.values())
    if not todo:
        return P, None
    todo.sort(key=size, reverse=True)
    ps = list(P)
    facts = []
    for x in todo:
        c = z3.Const(core.fresh_name('γ'), x.sort())
        if x.sort() == I and red.prove(P, tle(ZERO, x)):
            facts.append(tle(ZERO, c))
        goal = z3.substitute(goal, (x, c))
        ps = [z3.substitute(p, (x, c)) for p in ps]
    return PC([red.canon(p) for p in ps] + facts), red.canon(goal)


def equal_bounds(P, goal):
    """Two bounds of reductions that are provably equal: (symbol, term)."""
    found = {}
    seen = set()
    stack = [goal]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_red(x) and not has_vars(x.arg(0)) and size(x.arg(0)) <= 8:
            found[x.arg(0).get_id()] = x.arg(0)
        stack.extend([x.body()] if z3.is_quantifier(x) else x.children())
    ns = list(found.values())
    for a in ns:
        if a.num_args() or const_of(a) is not None:
            continue
        for b in ns:
            if b is not a and not red.occurs(a, b) and red.prove(P, teq(a, b)):
                return a, b
    return None


def none_found(g):
    """g is `n <= FIRST(n, L)`: no index satisfies L."""
    if kind(g) == z3.Z3_OP_LE and g.arg(0).sort() == I:
        a, b = g.arg(0), g.arg(1)
    elif kind(g) == z3.Z3_OP_EQ and is_red(g.arg(0)):
        a, b = g.arg(1), g.arg(0)
    elif kind(g) == z3.Z3_OP_EQ and is_red(g.arg(1)):
        a, b = g.arg(0), g.arg(1)
    else:
        return None
    if is_red(b) and b.decl().name() == 'FIRST' and b.arg(0).eq(a):
        k = fresh_int('q')
        return k, a, apply_lam(b.arg(1), k)
    return None


def merge(A, P, deadline):
    A.merged = []
    xs = list(A.map.values())
    for i in range(len(xs)):
        for j in range(i):
            x, y = xs[i][0], xs[j][0]
            if x.decl().name() != y.decl().name():
                continue
            k = fresh_int('q')
            st, _ = prove_goal(P, teq(x.arg(0), y.arg(0)), 500, 5, deadline, 3, quick=True, light=True)
            if st != 'proved':
                continue
            P2 = P.extended(tle(ZERO, k), tlt(k, x.arg(0)))
            st, _ = prove_goal(P2, teq(apply_lam(x.arg(1), k), apply_lam(y.arg(1), k)), 800, 4, deadline, 2, light=True)
            if st == 'proved':
                A.merged.append(xs[i][1] == xs[j][1])
                break


def prove_goal(P, goal, timeout, depth=0, deadline=None, cdepth=0, quick=False, light=False):
    """'proved' | 'refuted' | 'unknown', leaf (P, goal) not proved"""
    if z3.is_true(goal):
        return 'proved', None
    if deadline and time.time() > deadline:
        return 'unknown', (P, goal)
    parts = red.split_goal(goal)
    if len(parts) > 1:
        for p in parts:
            r = prove_goal(P, p, timeout, depth, deadline, cdepth, quick, light)
            if r[0] != 'proved':
                return r
        return 'proved', None
    if kind(goal) == K_OR and any(kind(x) == K_NOT or True for x in goal.children()):
        # implication form: assume the negations of all but the last
        ch = goal.children()
        pick = max(range(len(ch)), key=lambda i: (kind(ch[i]) == z3.Z3_OP_EQ, kind(ch[i]) == K_AND, i))
        rest = [tnot(c) for i, c in enumerate(ch) if i != pick]
        P2 = P.extended(*rest)
        if red.prove(P2, FALSE):
            return 'proved', None
        return prove_goal(P2, ch[pick], timeout, depth, deadline, cdepth, quick, light)
    if red.prove(P, goal):
        return 'proved', None
    if depth == 0 and not light and size(goal) > 100:
        P2, g2 = generalise(P, goal)
        if g2 is not None:
            st, leaf = prove_goal(P2, g2, min(timeout, 2000), 0, min(deadline or 1e18, time.time() + 20), light=True)
            if st == 'proved':
                return st, None
    g = none_found(goal)
    if g is not None:
        k, n, body = g
        return prove_goal(P.extended(tle(ZERO, k), tlt(k, n)), red.canon(tnot(body)), timeout, depth, deadline, cdepth, quick, light)
    try:
        g2 = red.canon(Norm(P, deadline).go(goal, P))
    except Budget:
        g2 = goal
    if z3.is_true(g2):
        return 'proved', None
    if not g2.eq(goal):
        return prove_goal(P, g2, timeout, depth, deadline, cdepth, quick, light)
    st, model = red.query(P, goal, timeout=min(timeout, 400), use_cvc5=False, levels=1)
    if st == 'proved':
        return st, None
    if quick:
        return st, (P, goal)
    eq = equal_bounds(P, goal)
    if eq is not None:
        P2 = PC([red.canon(z3.substitute(p, eq)) for p in P])
        return prove_goal(P2, red.canon(z3.substitute(goal, eq)), timeout, depth, deadline, cdepth, quick, light)
    fz = fuse(goal) if cdepth < 4 else None
    if fz is not None:
        ok = True
        for f, g in fz:
            if z3.is_false(g) or prove_obligation(P.extended(f), g, min(timeout, 1500), min(deadline or 1e18, time.time() + 30),
                                                  cdepth + 2)[0] != 'proved':
                ok = False
                break
        if ok:
            return 'proved', None
    if depth < 7:
        cs = []
        conditions(goal, cs, set())
        cand = {}
        for c in cs:
            for a in atoms(c):
                if a.get_id() not in cand and not heavy(a) and decided(P, a) is None:
                    cand[a.get_id()] = a
        if cand:
            c = sorted(cand.values(), key=size)[0]
            for x in (c, tnot(c)):
                P2 = P.extended(x)
                r = prove_goal(P2, goal, timeout, depth + 1, deadline, cdepth, quick, light)
                if r[0] != 'proved':
                    return r
            return 'proved', None
    cg = congruence(goal)
    if cg is not None and cdepth < 6:
        ok = True
        for f, g in cg:
            if z3.is_false(g):
                ok = False
                break
            r = prove_goal(P.extended(f) if f is not None else P, g, min(timeout, 1500), depth + 3, deadline, cdepth + 1,
                           quick=cdepth >= 3, light=light)
            if r[0] != 'proved':
                ok = False
                break
        if ok:
            return 'proved', None
        if cdepth:
            return 'unknown', (P, goal)
    for lv in ((1,) if light else (1, 2, 3)):
        st, model = red.query(P, goal, timeout=min(timeout, 5000) if lv < 3 else timeout, levels=lv, use_cvc5=lv == 3)
        if st == 'proved':
            return st, None
        if deadline and time.time() > deadline:
            break
    return st, (P, goal)
