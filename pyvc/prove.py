"""Contexts, the equality prover and the numeric refuter."""
from __future__ import annotations
import math, time, random
from fractions import Fraction
import mpmath
import numpy as np
import z3
from terms import *
import cross, terms

mpmath.mp.dps = 50
STATS = dict(z3_calls=0, z3_time=0.0, nf=0, split=0)


class Z:
    """translation of terms to z3; non-arithmetic atoms become constants with sign facts"""

    def __init__(self):
        self.c = {}
        self.facts = []
        self.seen = set()

    def atom(self, a):
        v = self.c.get(a)
        if v is not None:
            return v
        k = a.kind
        if k in ("gt", "eq", "bv"):
            v = z3.If(self.cond(a), z3.RealVal(1), z3.RealVal(0))
        elif k == "abs":
            x = self.poly(a.args[0])
            v = z3.If(x >= 0, x, -x)
        elif k == "max":
            xs = [self.poly(x) for x in a.args[0]]
            v = xs[0]
            for x in xs[1:]:
                v = z3.If(x > v, x, v)
        elif k == "inv":
            x = self.poly(a.args[0])
            v = z3.Real(f"inv{a.id}")
            self.facts.append(z3.Implies(x != 0, v * x == 1))
            self.c[a] = v
        elif a.isint:
            iv = z3.Int(f"i{a.id}")
            v = z3.ToReal(iv)
            self._sign(a, v)
            if k == "rd":
                info = ARRS[a.args[0]]
                if info.lo is not None:
                    self.facts.append(v >= self.poly(P(info.lo)))
                if info.hi is not None:
                    self.facts.append(v < self.poly(P(info.hi)))
        else:
            v = z3.Real(f"r{a.id}")
            self._sign(a, v)
        self.c[a] = v
        return v

    def cond(self, a):
        """z3 boolean of an indicator atom"""
        key = ("cond", a)
        b = self.c.get(key)
        if b is None:
            if a.kind == "bv":
                b = z3.Bool(f"bv{a.id}")
            else:
                x = self.ipoly(a.args[0])
                if x is None:
                    x = self.poly(a.args[0])
                b = x > 0 if a.kind == "gt" else x == 0
            self.c[key] = b
        return b

    def ipoly(self, p):
        """z3 integer expression of an integer polynomial, None if it has a non-integer part"""
        if not p.isint:
            return None
        t = []
        for mono, c in p.m.items():
            f = []
            for a, e in mono:
                if e < 0:
                    return None
                if a.kind in ("gt", "eq", "bv"):
                    x = z3.If(self.cond(a), z3.IntVal(1), z3.IntVal(0))
                elif a.kind == "max":
                    xs = [self.ipoly(y) for y in a.args[0]]
                    if any(y is None for y in xs):
                        return None
                    x = xs[0]
                    for y in xs[1:]:
                        x = z3.If(y > x, y, x)
                elif a.kind in ("abs", "inv") or not a.isint:
                    return None
                else:
                    self.atom(a)
                    x = z3.Int(f"i{a.id}")
                f += [x] * e
            if len(f) == 2 and all(not z3.is_app_of(x, z3.Z3_OP_ITE) for x in f):
                x, y = f
                self.facts += [z3.Implies(z3.And(x >= 1, y >= 1), z3.And(x * y >= x, x * y >= y)), z3.Implies(z3.Or(x == 0, y == 0), x * y == 0)]
            t.append(z3.Product([z3.IntVal(int(c))] + f) if c != 1 and f else z3.Product(f) if len(f) > 1 else f[0] if f else z3.IntVal(int(c)))
        return z3.Sum(t) if len(t) > 1 else t[0] if t else z3.IntVal(0)

    def fact(self, f):
        """z3 boolean: the 0/1-valued term f equals one"""
        ind = lambda mono: all(a.kind in ("gt", "eq", "bv") for a, e in mono)
        if len(f.m) == 1:
            (mono, c), = f.m.items()
            if c == 1 and mono and ind(mono):
                return z3.And([self.cond(a) for a, e in mono])
        if len(f.m) == 2 and f.m.get(()) == 1:
            mono, c = [x for x in f.m.items() if x[0]][0]
            if c == -1 and ind(mono):
                return z3.Or([z3.Not(self.cond(a)) for a, e in mono])
        return self.poly(f) == 1

    def _sign(self, a, v):
        s = atom_sign(a)
        if s == 1:
            self.facts.append(v > 0)
        elif s == 0:
            self.facts.append(v >= 0)
        if a.kind == "var":
            i = VARS.get(a.args[0])
            if i is not None and i.lo is not None:
                self.facts.append(v >= i.lo)

    def poly(self, p):
        t = []
        for mono, c in p.m.items():
            f = []
            for a, e in mono:
                x = self.atom(a)
                if e < 0:
                    key = ("neg", a)
                    y = self.c.get(key)
                    if y is None:
                        y = z3.Real(f"n{a.id}")
                        self.c[key] = y
                        self.facts.append(z3.Implies(x != 0, y * x == 1))
                    f += [y] * (-e)
                else:
                    f += [x] * e
            f = f if c == 1 and f else [z3.RealVal(str(c))] + f
            t.append(z3.Product(f) if len(f) > 1 else f[0])
        return z3.Sum(t) if len(t) > 1 else t[0] if t else z3.RealVal(0)


class Ctx:
    """a set of assumed facts (0/1-valued terms equal to one)"""

    def __init__(self, facts=(), hooks=()):
        self.facts = list(facts)
        self.cache = {}
        self.axioms = []  # callables (ctx, atoms) -> facts

    def copy(self):
        c = Ctx(self.facts)
        c.axioms = self.axioms
        return c

    def add(self, b):
        b = P(b)
        if b is ONE:
            return self
        self.facts.append(b)
        self.cache = {}
        return self

    def extend(self, *bs):
        c = self.copy()
        for b in bs:
            c.add(b)
        return c

    def _solver(self, extra, timeout=1500):
        s = z3.Solver()
        s.set("timeout", timeout)
        z = Z()
        fs = [z.fact(f) for f in self.facts]
        es = [z.fact(e) for e in extra]
        ats = []
        for f in list(self.facts) + list(extra):
            ats += all_atoms(f)
        for ax in self.axioms:
            for f in ax(ats):
                fs.append(z.fact(P(f)))
        for f in fs + es + z.facts:
            s.add(f)
        return s, z

    def sat(self, *extra, timeout=1500):
        """False if the facts together with extra are contradictory; True if satisfiable or unknown"""
        s, z = self._solver([P(e) for e in extra], timeout)
        t = time.time()
        r = s.check()
        STATS["z3_calls"] += 1
        STATS["z3_time"] += time.time() - t
        return r != z3.unsat or cross.contradicted(s)

    def decide(self, b):
        """True / False / None"""
        b = P(b)
        if b is ONE:
            return True
        if b is ZERO:
            return False
        r = self.cache.get(b)
        if r is None:
            if not self.sat(ONE - b):
                r = (True,)
            elif not self.sat(b):
                r = (False,)
            else:
                r = (None,)
            self.cache[b] = r
        return r[0]

    def model(self, *extra, timeout=3000, ints=()):
        s, z = self._solver([P(e) for e in extra], timeout)
        cs = {p: z.poly(p) for p in ints}
        if s.check() != z3.sat:
            return None
        m = s.model()
        out = {}
        for p, c in cs.items():
            v = m.eval(c, model_completion=True)
            try:
                out[p] = Fraction(v.as_fraction()) if z3.is_rational_value(v) else None
            except Exception:
                out[p] = None
        return out


# ------------------------------------------------------------------- equality
def simp_ind(p, ctx, depth=0):
    """replace indicator atoms decided by the context"""
    changed = True
    rounds = 0
    while changed and rounds < 4:
        changed = False
        rounds += 1
        todo = [a for a in p.atoms() if a.kind in ("gt", "eq")]
        val = {}
        for a in todo:
            d = ctx.decide(P(a))
            if d is not None:
                val[a] = ONE if d else ZERO
        if val:
            p = _setval(p, val)
            changed = True
    return p


def _setval(p, val):
    r = {}
    for mono, c in p.m.items():
        k = []
        z = False
        for a, e in mono:
            v = val.get(a)
            if v is ZERO:
                z = True
                break
            if v is None:
                k.append((a, e))
        if z:
            continue
        k = tuple(k)
        n = r.get(k, F0) + c
        if n:
            r[k] = n
        else:
            r.pop(k, None)
    return Poly.of(r)


def deep_simp(p, ctx, depth=0):
    """decide indicators also inside binders, exp, log, ... using the ranges of bound variables"""
    if depth > 6:
        return p

    def fn(a):
        k = a.kind
        if not a.hasind:
            return P(a)
        if k in ("gt", "eq"):
            q = terms.P(a)
            d = ctx.decide(q)
            return None if d is None else (ONE if d else ZERO)
        if k in ("sum", "maxb"):
            bs, body = a.args
            ren, nb = {}, []
            c2 = ctx.copy()
            for b, hi in bs:
                nv = mk("var", (fresh_name("$q"), True), True)
                VARS.setdefault(nv.args[0], VarInfo(nv.args[0], True, 0))
                ren[b] = P(nv)
                h = subst(hi, ren)
                nb.append((nv, h))
                c2.add(gt0(h - P(nv)))
            nbody = assume_inds(deep_simp(subst(body, ren), c2, depth + 1))
            r = nbody
            for nv, hi in reversed(nb):
                r = (sum_over if k == "sum" else maxb_over)(nv, hi, r)
            return r
        return None

    return map_atoms(p, fn)


def assume_inds(p):
    """[c] f([c]) = [c] f(1): indicators inside functions multiplied by the same indicator"""
    if not p.hasind:
        return p
    r = ZERO
    changed = False
    for mono, c in p.m.items():
        inds = {a for a, e in mono if a.kind in IND}
        if not inds or not any(a.hasind and a not in inds for a, e in mono):
            r = r + Poly.of({mono: c})
            continue
        excl = set()
        for a in inds:
            if a.kind in ("gt", "eq"):
                b = mk("eq" if a.kind == "gt" else "gt", a.args)
                excl.add(b)
        t = P(c)
        for a, e in mono:
            if a in inds or not a.hasind:
                t = t * P(a) ** e
            else:
                q = map_atoms(P(a), lambda x: ONE if x in inds else ZERO if x in excl else (P(x) if not x.hasind else None))
                if q is not P(a):
                    changed = True
                t = t * q ** e
        r = r + t
    return r if changed else p


def clear_inv(p):
    """multiply by the denominators of inv atoms; sound for proving p == 0 when they do not vanish"""
    for _ in range(6):
        invs = [a for a in p.atoms() if a.kind == "inv"]
        if not invs:
            return p
        a = max(invs, key=lambda x: (x.height, x.id))
        q = a.args[0]
        k = max((dict(m).get(a, 0) for m in p.m), default=0)
        r = ZERO
        for mono, c in p.m.items():
            d = dict(mono)
            e = d.pop(a, 0)
            t = Poly.of({tuple(sorted(d.items(), key=lambda t: t[0].id)): c}) if d else P(c)
            r = r + t * q ** (k - e)
        p = r
    return p


def clear_neg(p):
    """multiply by powers of atoms with negative exponents (so that equalities of sums cancel)"""
    return p


class Budget:
    def __init__(self, seconds=20, splits=400):
        self.t = time.time() + seconds
        self.n = splits

    def ok(self):
        self.n -= 1
        return self.n > 0 and time.time() < self.t


def prove_zero(p, ctx: Ctx, budget=None, depth=0, trace=None):
    """True if p == 0 follows from the context; False if not established"""
    budget = budget or Budget()
    p = P(p)
    if not p.m:
        STATS["nf"] += 1
        return True
    if not budget.ok():
        return False
    try:
        p = deep_simp(p, ctx)
        if not p.m:
            return True
        p, ctx = subst_eqs(p, ctx)
        if not p.m:
            return True
        q = clear_inv(p)
        if not q.m:
            return True
        q = deep_simp(q, ctx)
        if not q.m:
            return True
    except TooBig:
        return False
    # split on an indicator
    inds = {}
    for a in q.atoms():
        if a.kind in IND:
            inds[a] = 0
    for mono in q.m:
        for a, e in mono:
            if a in inds:
                inds[a] += 1
    if not inds:
        # indicators inside exp/log/inv/abs/max at top level
        for a in all_atoms(q):
            if a.kind in IND and not any(v.args[0].startswith("$") for v in a.fv):
                inds[a] = 1
        if not inds:
            if q.isint and depth < 3 and ctx.decide(eq0(q)) is True:
                return True
            if ctx.facts and not ctx.sat():
                return True
            return equal_indices(q, ctx, budget, depth, trace) or split_max(q, ctx, budget, depth, trace)
    if depth > 14:
        return False
    a = max(inds, key=lambda x: (x.kind == "eq", inds[x], -x.id))
    STATS["split"] += 1
    for val in (1, 0):
        lit = P(a) if val else ONE - P(a)
        c2 = ctx.extend(lit)
        if not c2.sat():
            continue
        r = map_atoms(q, lambda x: (ONE if val else ZERO) if x is a else (P(x) if not x.hasind else None))
        if val and a.kind == "eq":
            r = apply_eq(r, a.args[0])
            c2 = rewrite_ctx(c2, a.args[0])
        if not prove_zero(r, c2, budget, depth + 1, trace):
            if trace is not None:
                trace.append(("case", show(lit, 120)))
            return False
    return True


def equal_indices(q, ctx, budget, depth, trace):
    """integer variables that the context forces to be equal"""
    vs = sorted((a for a in q.fv if a.kind == "var" and a.isint), key=lambda a: a.id)
    if len(vs) > 6:
        return False
    for i, a in enumerate(vs):
        for b in vs[i + 1:]:
            if ctx.decide(eq0(P(a) - P(b))) is True:
                return prove_zero(subst(q, {b: P(a)}), ctx, budget, depth + 1, trace)
    return False


def split_max(q, ctx, budget, depth, trace):
    """case distinction on which argument of a maximum (sign of an absolute value) is the larger one"""
    cand = [a for a in all_atoms(q) if a.kind in ("max", "abs") and not any(v.args[0].startswith("$") for v in a.fv)]
    if not cand or depth > 8:
        return False
    a = min(cand, key=lambda x: (x.height, x.id))
    if a.kind == "abs":
        c = ge0(a.args[0])
        alt = (a.args[0], -a.args[0])
    else:
        x, y, *rest = a.args[0]
        c = gt0(x - y)
        alt = (maxv(x, *rest), maxv(y, *rest))
        if ctx.decide(gt0(y - x)) is False:
            c = ONE
    STATS["split"] += 1
    for lit, r in ((c, alt[0]), (ONE - c, alt[1])):
        c2 = ctx.extend(lit)
        if lit is ZERO or not c2.sat():
            continue
        if not prove_zero(map_atoms(q, lambda z: r if z is a else None), c2, budget, depth + 1, trace):
            return False
    return True


def apply_eq(p, e):
    """use e == 0 to eliminate a variable (or an atom) from p"""
    for a in sorted(e.atoms(), key=lambda x: (x.kind != "var", -x.id)):
        if a.kind == "var":
            c = lin_coeff(e, a)
            if c and (c in (1, -1) or not a.isint):
                sol = P(a) - e.scale(1 / c)
                return subst(p, {a: sol})
    for a in sorted(e.atoms(), key=lambda x: -x.id):
        if a.kind in ("rd", "app", "sum"):
            c = e.m.get(((a, 1),))
            if c and not any(a is b for mono in e.m if mono != ((a, 1),) for b, _ in mono):
                sol = P(a) - e.scale(1 / c)
                return map_atoms(p, lambda x: sol if x is a else None)
    return p


def rewrite_ctx(ctx, e):
    """facts after the elimination of the variable apply_eq eliminates"""
    new = []
    for f in ctx.facts:
        g = apply_eq(f, e)
        if g is not f and g is not ONE:
            new.append(g)
    return ctx.extend(*new) if new else ctx


def subst_eqs(p, ctx):
    """use equality facts of the context"""
    for f in list(ctx.facts):
        s = f.single()
        if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][0].kind == "eq":
            e = s[1][0][0].args[0]
            p2 = apply_eq(p, e)
            if p2 is not p:
                p = p2
                ctx = rewrite_ctx(ctx, e)
    return p, ctx


def prove_true(b, ctx: Ctx, timeout=8000):
    """a 0/1-valued term is 1 in the context (z3)"""
    b = P(b)
    if b is ONE:
        return True
    b = deep_simp(b, ctx)
    if b is ONE:
        return True
    return not ctx.sat(ONE - b, timeout=timeout)


# ---------------------------------------------------------- numeric evaluation
class Undef(Exception):
    pass


def _guards_first(t):
    return t[0].kind not in ("gt", "eq", "bv")


class Interp:
    """numeric interpretation: scalars by name, arrays by name (numpy), opaque functions"""

    def __init__(self, rng, fixed=None, arrays=None, gens=None):
        self.rng = rng
        self.vals = dict(fixed or {})
        self.arrays = dict(arrays or {})
        self.memo = {}
        self.gens = gens or {}
        self.consts = ()
        self.ints = ()
        self.mp = False
        self.total = False  # elements outside an array have a value, too (any)

    @property
    def eps(self):
        return 1e-30 if self.mp else 1e-12

    def precise(self):
        """the same interpretation, evaluated with 50 digits"""
        it = Interp(self.rng, self.vals, self.arrays, self.gens)
        it.consts = self.consts
        it.mp = True
        return it

    def var(self, a):
        n = a.args[0]
        if n in self.vals:
            return self.vals[n]
        i = VARS.get(n)
        if n in self.gens:
            v = self.gens[n](self)
        elif a.isint:
            lo = i.lo if i is not None and i.lo is not None else 0
            v = lo + int(self.rng.integers(0, 4))
            if self.ints and self.rng.random() < 0.3:
                v = max(lo, int(self.rng.choice(self.ints)) + int(self.rng.integers(-1, 3)))
        elif i is not None and (i.pos or i.nonneg):
            v = float(np.exp(self.rng.normal()))
        else:
            v = float(self.rng.normal())
        self.vals[n] = v
        return v

    def array(self, name):
        if name in self.arrays:
            return self.arrays[name]
        i = ARRS[name]
        gen = self.gens.get(name) or ARRAY_GEN(name)
        if gen:
            v = gen(self)
        else:
            shp = tuple(max(0, int(round(self.poly(s)))) for s in i.shape)
            if math.prod(shp) > 1_000_000:
                raise Undef("array too large to sample")
            if i.isbool:
                v = self.rng.random(shp) < 0.5
            elif i.isint:
                lo = 0 if i.lo is None else int(self.poly(P(i.lo)))
                hi = lo + 4 if i.hi is None else int(self.poly(P(i.hi)))
                v = self.rng.integers(lo, max(hi, lo + 1), shp)
            elif i.pos or i.nonneg:
                v = np.exp(self.rng.normal(size=shp))
            else:
                v = self.rng.normal(size=shp)
            if not i.isbool and not i.isint and v.size:
                # special values: constants of comparisons, zero
                sp = list(self.consts)
                if not i.pos:
                    sp.append(0.0)
                if sp and self.rng.random() < 0.6:
                    msk = self.rng.random(shp) < 0.3
                    c = self.rng.choice(sp, size=shp) * self.rng.choice([0.5, 1.0, 1.0, 2.0, -1.0], size=shp)
                    if i.pos:
                        msk &= c > 0
                    elif i.nonneg:
                        c = np.abs(c)
                    v = np.where(msk, c, v)
            if ".uniform." in name or ".beta." in name:
                v = np.where(self.rng.random(shp) < 0.1, 0.0, self.rng.random(shp))
            if i.sym:
                v = (v + v.T) / 2
        self.arrays[name] = v
        return v

    def poly(self, p, env=None):
        env = env or {}
        r = 0.0
        for mono, c in p.m.items():
            t = mpmath.mpf(c.numerator) / c.denominator if self.mp else float(c)
            for a, e in sorted(mono, key=_guards_first) if len(mono) > 1 else mono:
                if t == 0.0:
                    break
                x = self.atom(a, env)
                if e < 0 and x == 0:
                    raise Undef()
                t *= x ** e
            r += t
        return r

    def atom(self, a, env):
        if not a.fv or not any(v in env for v in a.fv):
            r = self.memo.get(a)
            if r is None:
                r = self._atom(a, env)
                self.memo[a] = r
            return r
        return self._atom(a, env)

    def _atom(self, a, env):
        k = a.kind
        if k == "var":
            if a in env:
                return env[a]
            return self.var(a)
        if k in ("rd", "bv"):
            if not a.args[1] and k == "bv" and a.args[0] not in ARRS:
                if a.args[0] not in self.vals:
                    self.vals[a.args[0]] = bool(self.rng.random() < 0.5)
                return 1.0 if self.vals[a.args[0]] else 0.0
            arrv = self.array(a.args[0])
            ix = tuple(int(round(self.poly(i, env))) for i in a.args[1])
            if any(i < 0 or i >= s for i, s in zip(ix, np.shape(arrv))):
                if self.total:
                    return self.memo.setdefault((a.args[0], ix), float(self.rng.normal()))
                raise Undef()
            return mpmath.mpf(float(arrv[ix])) if self.mp else float(arrv[ix])
        if k == "exp":
            x = self.poly(a.args[0], env)
            if x > 500:
                raise Undef()
            return mpmath.exp(x) if self.mp else math.exp(x)
        if k == "log":
            x = self.poly(a.args[0], env)
            if x <= 0:
                raise Undef()
            return mpmath.log(x) if self.mp else math.log(x)
        if k == "inv":
            x = self.poly(a.args[0], env)
            if x == 0:
                raise Undef()
            return 1 / x
        if k == "abs":
            return abs(self.poly(a.args[0], env))
        if k == "gt":
            return 1.0 if self.poly(a.args[0], env) > self.eps else 0.0
        if k == "eq":
            return 1.0 if abs(self.poly(a.args[0], env)) <= self.eps else 0.0
        if k == "max":
            return max(self.poly(x, env) for x in a.args[0])
        if k in ("sum", "maxb"):
            bs, body = a.args
            vals = []
            self._loop(list(bs), 0, body, dict(env), vals)
            if k == "sum":
                return sum(vals) if self.mp else math.fsum(vals)
            if not vals:
                raise Undef()
            return max(vals)
        if k == "app":
            f = APP_EVAL.get(a.args[0])
            if f is None:
                raise Undef()
            try:
                return f(self, env, *a.args[1:])
            except Undef:
                if self.total:
                    return 0.0
                raise
        raise NotImplementedError(k)

    def _loop(self, bs, i, body, env, vals):
        if i == len(bs):
            vals.append(self.poly(body, env))
            return
        b, hi = bs[i]
        n = int(round(self.poly(hi, env)))
        if n > 4000:
            raise Undef()
        for x in range(n):
            env[b] = x
            self._loop(bs, i + 1, body, env, vals)
        env.pop(b, None)


APP_EVAL = {}
ARRAY_GEN = lambda name: None  # arrays that depend on others


def refute(p, ctx, seed=0, tries=60, gens=None, fixed=None, seconds=6, dims=()):
    """search an interpretation satisfying the context where p != 0; returns it or None"""
    rng = np.random.default_rng(seed)
    t0 = time.time()
    p = P(p)
    consts = comparison_constants([p] + list(ctx.facts))
    ints = integer_constants([p] + list(ctx.facts))
    for t in range(tries):
        if time.time() - t0 > seconds:
            break
        fx = dict(fixed or {})
        if t % 2 == 1 or ctx.facts:
            # integers from a model of the context in every other try
            if t % 2 == 1 or t > 6:
                m = dims_model(p, ctx, rng, ints)
                if m:
                    fx.update(m)
        it = Interp(rng, fx, gens=gens)
        it.consts = consts
        it.ints = ints
        try:
            ok = all(abs(it.poly(f) - 1) < 1e-9 for f in ctx.facts)
            if not ok:
                ok = repair(it, ctx, rng)
            if not ok:
                continue
            v = it.poly(p)
            sc = sum(abs(float(c)) * abs(np.prod([it.atom(a, {}) ** e for a, e in mono])) for mono, c in p.m.items())
        except (Undef, OverflowError, ZeroDivisionError, ValueError):
            continue
        if abs(v) > 1e-9 * sc and abs(v) > 1e-200 and admissible(it):
            # rounding errors of nested terms do not count: repeat with many digits
            try:
                hp = it.precise()
                if not all(abs(hp.poly(f) - 1) < 1e-9 for f in ctx.facts) or abs(hp.poly(p) - v) > 1e-2 * abs(v):
                    continue
            except (Undef, OverflowError, ZeroDivisionError, ValueError):
                continue
            return dict(value=v, vals=it.vals, arrays=it.arrays, interp=it, consts=consts)
    return None


def admissible(it):
    """the interpretation respects the declared signs and ranges"""
    for n, v in it.vals.items():
        i = VARS.get(n)
        if i is not None and not isinstance(v, bool):
            if (i.pos and not v > 0) or (i.nonneg and not v >= 0) or (i.lo is not None and not v >= i.lo):
                return False
    for n, v in it.arrays.items():
        i = ARRS.get(n)
        if i is None or i.isbool or not hasattr(v, "size") or not v.size:
            continue
        if (i.pos and not (v > 0).all()) or (i.nonneg and not (v >= 0).all()):
            return False
        try:
            if (i.lo is not None and not (v >= it.poly(P(i.lo))).all()) or (i.hi is not None and not (v < it.poly(P(i.hi))).all()):
                return False
        except Undef:
            return False
    return True


def comparison_constants(ps):
    """values at which a comparison between one array entry or scalar and a constant changes"""
    out = set()
    for q in ps:
        for a in all_atoms(q):
            if a.kind in ("gt", "eq"):
                e = a.args[0]
                k = e.m.get(())
                if k and len(e.m) == 2:
                    (mono, c), = [(mm, cc) for mm, cc in e.m.items() if mm]
                    if len(mono) == 1 and mono[0][0].kind in ("rd", "var") and mono[0][1] == 1 and not mono[0][0].isint:
                        out.add(float(-k / c))
    return sorted(out)[:6]


def repair(it, ctx, rng, rounds=40):
    """try to satisfy the facts by resampling scalars / perturbing array entries they mention"""
    for _ in range(rounds):
        bad = None
        for f in ctx.facts:
            try:
                if abs(it.poly(f) - 1) > 1e-9:
                    bad = f
                    break
            except Undef:
                bad = f
                break
        if bad is None:
            return True
        ats = [a for a in all_atoms(bad)]
        ch = False
        for a in ats:
            if a.kind == "var" and a.args[0] in it.vals and not a.args[0].startswith("$") and not a.isint and rng.random() < 0.5:
                del it.vals[a.args[0]]
                ch = True
            elif a.kind == "rd" and a.args[0] in it.arrays and rng.random() < 0.5:
                old = it.arrays.pop(a.args[0])
                ch = True
            elif a.kind == "bv" and rng.random() < 0.5:
                it.vals.pop(a.args[0], None)
                it.arrays.pop(a.args[0], None)
                ch = True
            elif a.kind == "eq":
                # solve the equality numerically for one real array entry / variable
                e = a.args[0]
                for b in e.atoms():
                    c = e.m.get(((b, 1),))
                    if c and b.kind == "rd" and b.isint and b.args[0] in it.arrays and rng.random() < 0.5:
                        # all entries of an integer array compared with one number
                        try:
                            new = it.poly((e - P(b).scale(c)).scale(-1 / c))
                            if new == int(new):
                                it.arrays[b.args[0]] = np.full_like(it.arrays[b.args[0]], int(new))
                                ch = True
                                break
                        except (Undef, IndexError, KeyError):
                            pass
                    if c and b.kind in ("rd", "var") and not b.isint:
                        try:
                            cur = it.atom(b, {})
                            v = it.poly(e)
                            new = cur - v / float(c)
                            if b.kind == "var":
                                it.vals[b.args[0]] = new
                            else:
                                ix = tuple(int(round(it.poly(i))) for i in b.args[1])
                                it.arrays[b.args[0]] = it.arrays[b.args[0]].copy()
                                it.arrays[b.args[0]][ix] = new
                            ch = True
                            break
                        except (Undef, IndexError, KeyError):
                            pass
        it.memo = {}
        for n in [n for n in it.arrays if ARRAY_GEN(n)]:
            del it.arrays[n]
        if not ch:
            return False
    return False


def integer_constants(ps):
    """integers at which a comparison or maximum of integer terms changes"""
    out = set()
    for q in ps:
        for a in all_atoms(q):
            for e in ((a.args[0],) if a.kind in ("gt", "eq") else a.args[0] if a.kind == "max" else ()):
                c = e.m.get(())
                if e.isint and c and c.denominator == 1 and 3 <= abs(c) <= 64:
                    out.add(abs(int(c)))
    return sorted(out)[:6]


def dims_model(p, ctx, rng, consts=()):
    """values for the integer variables from a z3 model of the context, randomised by small bounds"""
    ints = {}
    for f in list(ctx.facts) + [p]:
        for a in all_atoms(f):
            if a.kind == "var" and a.isint and not a.args[0].startswith("$"):
                ints[a.args[0]] = P(a)
    if not ints:
        return None
    extra = []
    for n, v in ints.items():
        if rng.random() < 0.5:
            extra.append(ge0(v - (int(rng.choice(consts)) + 1 if consts and rng.random() < 0.4 else int(rng.integers(0, 4)))))
        extra.append(ge0(100 - v))
    m = ctx.model(*extra, ints=list(ints.values()))
    if m is None:
        m = ctx.model(ints=list(ints.values()))
    if m is None:
        return None
    return {n: int(m[v]) for n, v in ints.items() if m[v] is not None and m[v].denominator == 1}
