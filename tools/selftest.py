"""Self-test of the term transformations the proofs rest on: random terms with
nested reductions are normalised, and both forms evaluated on random finite
interpretations.  python3-vt tools/selftest.py [seconds] [seed]"""
import sys, os, random, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.setrecursionlimit(20000)
from fractions import Fraction
import z3
from pydv import red, core, loops, prover
from pydv.core import I, R, B, PC, tite, tand, tor, tnot, teq, tlt, tle, tadd, tmul, tsub, toreal


class Ev:
    def __init__(self, rng):
        self.rng = rng
        self.consts = {}
        self.funs = {}

    def fun(self, name, args, sort):
        k = (name,) + args
        if k not in self.funs:
            self.funs[k] = self.rand(sort)
        return self.funs[k]

    def rand(self, sort):
        if sort == I:
            return self.rng.randint(-2, 5)
        if sort == B:
            return self.rng.random() < .5
        return Fraction(self.rng.randint(-4, 4), self.rng.choice([1, 1, 2]))

    def ev(self, t, env=()):
        if z3.is_true(t) or z3.is_false(t):
            return z3.is_true(t)
        c = core.const_of(t)
        if c is not None:
            return Fraction(c) if t.sort() == R else (bool(c) if t.sort() == B else int(c))
        if z3.is_var(t):
            return env[z3.get_var_index(t)]
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            return self.ev(t.arg(1 if self.ev(t.arg(0), env) else 2), env)
        if red.is_red(t):
            n = self.ev(t.arg(0), env)
            L = t.arg(1)
            f = lambda i: self.ev(L.body(), (i,) + env) if z3.is_quantifier(L) else self.ev(L.arg(0), env)
            nm = t.decl().name()
            if nm in ('SUM', 'SUMI'):
                return sum((f(i) for i in range(n)), Fraction(0) if nm == 'SUM' else 0)
            if nm == 'FIRST':
                for i in range(n):
                    if f(i):
                        return i
                return max(n, 0)
            vs = [f(i) for i in range(n)]
            return vs.index(max(vs)) if vs else self.fun('noargmax', (), I) * 0
        a = [self.ev(c, env) for c in t.children()]
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.fun(t.decl().name(), tuple(a), t.sort())
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_MUL:
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r = r - x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_DIV:
            if a[1] == 0:
                raise ZeroDivisionError
            return Fraction(a[0]) / a[1]
        if k == z3.Z3_OP_TO_REAL:
            return Fraction(a[0])
        if k == z3.Z3_OP_EQ:
            return a[0] == a[1]
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k == z3.Z3_OP_AND:
            return all(a)
        if k == z3.Z3_OP_OR:
            return any(a)
        if k == z3.Z3_OP_NOT:
            return not a[0]
        if k == z3.Z3_OP_DISTINCT:
            return a[0] != a[1]
        if k == z3.Z3_OP_TO_INT:
            return a[0].__floor__()
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            if a[1] == 0:
                raise ZeroDivisionError
            r = a[0] % abs(a[1])
            return r if k == z3.Z3_OP_MOD else (a[0] - r) // a[1]
        raise NotImplementedError(str(t.decl()))


ints = [z3.Int(x) for x in ('N', 'P', 'S', 'a', 'b')]
reals = [z3.Real(x) for x in ('x', 'y')]
F = {n: z3.Function('f%d' % n, *([I] * n), R) for n in (1, 2, 3)}
G = {n: z3.Function('g%d' % n, *([I] * n), I) for n in (1, 2)}


class Gen:
    def __init__(self, rng):
        self.r = rng

    def int(self, d, vs):
        r = self.r
        c = r.random()
        if d <= 0 or c < .35:
            return r.choice(list(vs) * 2 + ints + [z3.IntVal(r.randint(-1, 3))])
        if c < .6:
            return (tadd if r.random() < .5 else tsub)(self.int(d - 1, vs), self.int(d - 1, vs))
        if c < .7:
            return tmul(z3.IntVal(r.choice([-1, 2, 3])), self.int(d - 1, vs))
        if c < .8:
            return tite(self.bool(d - 1, vs), self.int(d - 1, vs), self.int(d - 1, vs))
        if c < .85:
            return G[1](self.int(d - 1, vs))
        return self.red(d, vs, I)

    def red(self, d, vs, sort):
        r = self.r
        n = r.choice(ints[:3] + list(vs[:1]) + [self.int(0, ()), z3.IntVal(r.randint(0, 2))])
        f = lambda k: None
        if sort == R:
            return red.mk_sum(n, lambda k: self.real(d - 1, vs + (k,)))
        c = r.random()
        if c < .4:
            return red.mk_sumi(n, lambda k: self.int(d - 1, vs + (k,)))
        if c < .7:
            return red.mk_first(n, lambda k: self.bool(d - 1, vs + (k,)))
        return tite(tlt(z3.IntVal(0), n), red.mk_argmax(n, lambda k: self.real(d - 1, vs + (k,))), z3.IntVal(0))

    def real(self, d, vs):
        r = self.r
        c = r.random()
        if d <= 0 or c < .3:
            n = r.choice([1, 2, 3])
            if r.random() < .2:
                return r.choice(reals + [core.rv(Fraction(r.randint(-3, 3), 2))])
            return F[n](*[self.int(min(d - 1, 1), vs) for _ in range(n)])
        if c < .5:
            return (tadd if r.random() < .5 else tsub)(self.real(d - 1, vs), self.real(d - 1, vs))
        if c < .6:
            return tmul(self.real(d - 1, vs), self.real(d - 1, vs))
        if c < .65:
            return toreal(self.int(d - 1, vs)) / toreal(r.choice(ints[:3]))
        if c < .8:
            return tite(self.bool(d - 1, vs), self.real(d - 1, vs), self.real(d - 1, vs))
        return self.red(d, vs, R)

    def bool(self, d, vs):
        r = self.r
        c = r.random()
        if d <= 0 or c < .5:
            return r.choice([tlt, tle, teq])(self.int(d - 1, vs), self.int(d - 1, vs))
        if c < .65:
            return r.choice([tlt, tle])(self.real(d - 1, vs), self.real(d - 1, vs))
        if c < .8:
            return r.choice([tand, tor])(self.bool(d - 1, vs), self.bool(d - 1, vs))
        return tnot(self.bool(d - 1, vs))


def same(t, u, rng, what, n=4):
    for _ in range(n):
        e = Ev(rng)
        for x in ints[:3]:
            e.funs[(str(x),)] = rng.randint(1, 3)
        try:
            a, b = e.ev(t), e.ev(u)
        except ZeroDivisionError:
            continue
        if a != b:
            print('DIFFERENT', what, a, b)
            print(t.sexpr())
            print(u.sexpr())
            return False
    return True


def main():
    secs = float(sys.argv[1]) if len(sys.argv) > 1 else 30
    rng = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
    end = time.time() + secs
    n = 0
    bad = 0
    pos = PC([tle(z3.IntVal(1), x) for x in ints[:3]])
    core.State.ctxs.append(core.Ctx([], pos))
    while time.time() < end and bad < 3:
        g = Gen(rng)
        srt = rng.choice(['real', 'int', 'bool'])
        t = getattr(g, srt)(rng.choice([2, 3, 4]), ())
        n += 1
        ok = same(t, red.canon(t), rng, 'canon')
        ok = ok and same(t, loops.renorm(t), rng, 'renorm')
        # substitution
        a, b = ints[3], ints[4]
        u = loops.Sub([(a, b)])(t)
        ok = ok and same(z3.substitute(t, (a, b)), u, rng, 'Sub')
        v = tadd(b, z3.IntVal(1))
        ok = ok and same(z3.substitute(t, (a, v)), loops.Sub([(a, v)])(t), rng, 'Sub+1')
        # binding a variable and applying
        if srt != 'bool':
            L = red.lam(t, a)
            ok = ok and same(t, red.apply_lam(L, a), rng, 'lam')
            if srt == 'real':
                s1 = red.SUM(ints[0], z3.Lambda([a], t))
                ok = ok and same(s1, red.mk_sum(ints[0], lambda k: z3.substitute(t, (a, k))), rng, 'mk_sum')
                am = red.ARGMAX(ints[0], z3.Lambda([a], t))
                ok = ok and same(am, red.mk_argmax(ints[0], lambda k: z3.substitute(t, (a, k))), rng, 'mk_argmax')
                ok = ok and same(am, red.canon(am), rng, 'canon argmax')
            else:
                s1 = red.SUMI(ints[0], z3.Lambda([a], t))
                ok = ok and same(s1, red.mk_sumi(ints[0], lambda k: z3.substitute(t, (a, k))), rng, 'mk_sumi')
            ok = ok and same(s1, red.canon(s1), rng, 'canon sum')
        else:
            s1 = red.FIRST(ints[0], z3.Lambda([a], t))
            ok = ok and same(s1, red.mk_first(ints[0], lambda k: z3.substitute(t, (a, k))), rng, 'mk_first')
            ok = ok and same(s1, red.canon(s1), rng, 'canon first')
        if rng.random() < .3:
            try:
                w = prover.Norm(pos, time.time() + 3).go(t, pos)
                ok = ok and same(t, w, rng, 'Norm')
            except prover.Budget:
                pass
        if rng.random() < .2 and srt == 'bool':
            # nothing false is proved
            if red.prove(pos, t):
                ok = ok and same(t, core.TRUE, rng, 'prove', 8)
        bad += not ok
    print(n, 'terms', bad, 'bad')
    sys.exit(1 if bad else 0)


main()
