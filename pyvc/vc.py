"""Verification harness: contracts, obligations and their discharge.

A contract of a function is a pair (setup, spec): setup builds symbolic arguments satisfying the
precondition, spec gives the result and the effects the function must have for such arguments.  The
body of the function (parsed from /repo) is executed symbolically and compared with spec; callers are
executed with the function replaced by spec (the stub), provided that the contract was discharged.
"""
from __future__ import annotations
import time, traceback
from terms import *
import terms
import prove
from prove import prove_zero, prove_true, refute, Budget, Ctx, deep_simp, Undef
from interp import (Machine, Num, SArr, Store, SObj, SList, SDict, Unsupported, PyRaise, Heap, IX, IDX, num, lift, isnum, sym_arr, new_arr, Poison, SClass)
import interp, npmodel
from npmodel import fvar


class Out:
    """one path through a function"""

    def __init__(self, pc, kind, val, snap, ctx, n, e=None):
        self.pc, self.kind, self.val, self.snap, self.ctx, self.n, self.e = pc, kind, val, snap, ctx, n, e

    def body(self, store):
        s = self.snap[1].get(store)
        if s is None:
            raise Unsupported("harness: array does not belong to this path")
        return s[0]

    def read(self, a, idx=None):
        """element of an array after the call"""
        if isnum(a):
            return lift(a)[0]
        if idx is None:
            idx = IX[:a.ndim]
        return subst(self.body(a.store), {IDX(d): v for d, v in a.sidx(idx).items()})

    def attr(self, obj, name):
        if obj not in self.snap[1]:
            raise Unsupported("harness: object does not belong to this path")
        return self.snap[1][obj].get(name)

    def items(self, l):
        if l not in self.snap[1]:
            raise Unsupported("harness: list does not belong to this path")
        return self.snap[1][l]

    @property
    def exc(self):
        return self.val.cls.name if self.kind == "raise" else None


class Env:
    """values a thunk keeps for the checks of its own path (v.e while running, q.e afterwards)"""


class V:
    """collects the obligations of one task"""

    def __init__(self, m, name, tier="quick", seconds=60, use_stubs=True):
        self.m, self.name, self.tier = m, name, tier
        self.t_end = time.time() + seconds
        self.obls = []
        self.functions = set()
        self.use_stubs = use_stubs
        self.norefute = False
        self.long_searches = 6
        self.paths = 0
        self.sat_checked = 0
        self.gens = {}
        self.engine_errors = []

    # ---------------------------------------------------------------- execution
    def cls(self, mod, name):
        return self.m.load(mod).ns[name]

    def obj(self, mod, name, **attrs):
        """an instance of a class with the given attributes, without running its constructor"""
        return SObj(self.cls(mod, name), dict(attrs))

    def assume(self, *bs):
        for b in bs:
            self.m.ctx.add(b)

    def run(self, thunk, safety=True, label=""):
        m = self.m
        if len(self.obls) == 0:
            self.nonvacuous(label + "precondition")
        m.safety = []

        def th():
            self.e = m.path_tag = Env()
            return thunk()
        res = m.explore(th)
        outs = []
        for n, (pc, out, snap, ctx, tag) in enumerate(res):
            kind, val = out
            if kind == "return":
                kind = "ok"
            outs.append(Out(pc, kind, val, snap, ctx, n, tag))
        self.paths += len(outs)
        if not outs:
            self.add(label + "some path is executed", "other", "", 0, "no feasible path")
        if safety:
            seen = set()
            for kind, cond, facts, where in m.safety:
                key = (kind, cond, tuple(facts))
                if key in seen:
                    continue
                seen.add(key)
                c = Ctx(facts)
                c.axioms = m.ctx.axioms
                if isinstance(kind, tuple):
                    self.zero(f"{label}{kind[1]}", cond, c, kind[2])
                    continue
                self.true(f"{label}{kind} ({where.rsplit(':', 1)[0]})", cond, c)
        for where, loc, rule in m.loop_obls:
            self.add(f"{label}loop invariant of {loc} ({rule}) at {where.rsplit(':', 1)[0]} is inductive", "proved", "loop rule" if rule in ("max", "segment") else "normal form + z3", 0, "")
        m.loop_obls = []
        m.safety = []
        return outs

    def need(self, name, b):
        """an obligation of the running code (precondition of a stub): holds whenever it is reached"""
        self.m.require(name, b)

    def need_zero(self, name, p, bounds=()):
        m = self.m
        p = P(p)
        if m.infer or m.quiet:
            return
        m.safety.append((("zero", name, tuple((P(i), P(h)) for i, h in bounds)), p, list(m.ctx.facts), m.where()))

    def call(self, f, *args, **kw):
        return lambda: self.m.call(f, list(args), kw)

    def method(self, o, name, *args, **kw):
        return lambda: self.m.call(self.m.getattr(o, name), list(args), kw)

    def okpaths(self, outs, label="", allow=()):
        """paths that return normally; the others must be infeasible (or raise an allowed exception)"""
        good = []
        for o in outs:
            if o.kind == "ok":
                good.append(o)
            elif o.kind == "raise" and o.exc in allow:
                continue
            else:
                what = o.exc if o.kind == "raise" else o.kind
                t = time.time()
                if not o.ctx.sat():
                    self.add(f"{label}does not raise {what} [{o.n}]", "proved", "z3", time.time() - t, "")
                else:
                    self.decide_path(f"{label}does not raise {what} [{o.n}]", o)
        if not good:
            self.add(f"{label}some path returns", "other", "", 0, "no path returns normally")
        return good

    def some(self, outs, kind, label=""):
        """non-vacuity: some path ends this way"""
        self.holds(f"{label}some path {'returns' if kind == 'ok' else 'raises'}", any(o.kind == kind for o in outs), "vacuous")
        return outs

    def raises(self, outs, label, *names):
        """every feasible path raises one of the exceptions"""
        for o in outs:
            if o.kind == "raise" and o.exc in names:
                self.add(f"{label} [{o.n}]", "proved", "symbolic execution", 0, "")
            else:
                self.decide_path(f"{label} [{o.n}]", o)

    def decide_path(self, name, o):
        """the path must be infeasible"""
        if not o.ctx.sat():
            self.add(name, "proved", "z3", 0, "")
            return
        r = self.find_model(ONE, o.ctx)
        if r:
            self.add(name, "refuted", "model", 0, f"path condition {show(o.pc, 200)}; outcome {o.kind} {o.exc or ''} {str(o.val)[:150] if o.kind == 'raise' else ''}", r)
        else:
            self.add(name, "other", "", 0, f"path condition {show(o.pc, 200)}; outcome {o.kind} {o.exc or ''} {str(o.val)[:150] if o.kind == 'raise' else ''}")

    # -------------------------------------------------------------- obligations
    def add(self, name, status, by, t, note, models=()):
        self.obls.append(dict(name=f"{self.name}: {name}", status=status, by=by, t=round(t, 3), note=note, models=list(models)))

    def nonvacuous(self, name):
        t = time.time()
        c = self.m.ctx
        if not c.facts:
            return
        if not c.sat():
            self.add(name + " is satisfiable", "other", "z3", time.time() - t, "contradictory precondition: obligations would hold vacuously")
            raise Vacuous()

    def find_model(self, p, ctx, seconds=5):
        if self.norefute:
            return None
        for f in list(ctx.facts) + [P(p)]:
            for a in all_atoms(f):
                if a.kind in ("rd", "bv") and str(a.args[0]).startswith("H_"):
                    return None  # depends on a state that was abstracted: no real counterexample
        seconds = min(seconds, max(0.5, self.t_end - time.time()))
        try:
            r = refute(p, ctx, seed=1, tries=80, seconds=seconds, gens=self.gens)
            if not r and self.long_searches > 0 and self.left() > 15:
                self.long_searches -= 1
                r = refute(p, ctx, seed=2, tries=1500, seconds=seconds, gens=self.gens)
        except Exception:
            self.engine_errors.append(traceback.format_exc()[-600:])
            return None
        if not r:
            return None
        dims, values = {}, []
        for k, v in r["vals"].items():
            if isinstance(v, int) and not k.startswith(("$", "@")):
                dims[k] = v
            elif isinstance(v, float):
                values.append(v)
        txt = {k: (v.tolist() if hasattr(v, "tolist") else v) for k, v in list(r["arrays"].items())[:12]}
        return [dict(dims=dims, values=(list(r.get("consts", ())) + values)[:20], vals={k: v for k, v in r["vals"].items()}, arrays={k: str(v)[:300] for k, v in txt.items()}, difference=r["value"])]

    def left(self):
        return self.t_end - time.time()

    def zero(self, name, p, ctx, bounds=()):
        """p == 0 for all indices below the bounds [(index poly, extent)]"""
        t = time.time()
        p = P(p)
        c = ctx.extend(*[gt0(P(hi) - P(i)) for i, hi in bounds])
        if self.left() < 1:
            self.add(name, "other", "", 0, "time budget of the task exhausted")
            return False
        s0, z0 = prove.STATS["split"], prove.STATS["z3_calls"]
        try:
            ok = not p.m or prove_zero(p, c, Budget(min(30, self.left()), 400))
        except TooBig:
            ok = False
        if ok:
            self.add(name, "proved", "normal form" if prove.STATS["z3_calls"] == z0 else "normal form + z3", time.time() - t, "")
            return True
        r = self.find_model(p, c)
        self.add(name, "refuted" if r else "other", "model" if r else "", time.time() - t, "difference: " + show(p, 400), r or ())
        return False

    def true(self, name, b, ctx, bounds=()):
        t = time.time()
        b = P(b)
        c = ctx.extend(*[gt0(P(hi) - P(i)) for i, hi in bounds])
        try:
            ok = b is ONE or prove_true(b, c)
        except TooBig:
            ok = False
        if ok:
            self.add(name, "proved", "z3", time.time() - t, "")
            return True
        r = self.find_model(ONE - b, c)
        self.add(name, "refuted" if r else "other", "model" if r else "", time.time() - t, "condition: " + show(b, 400), r or ())
        return False

    def holds(self, name, cond, note=""):
        """a fact about the structure of the result (identity of objects, types)"""
        if cond:
            self.add(name, "proved", "symbolic execution", 0, "")
        else:
            self.add(name, "other", "", 0, note)
        return bool(cond)

    def fact(self, name, cond, o, note=""):
        """an observable fact about the structure of the outcome of a path; refuted if the path is feasible"""
        if cond:
            self.add(name, "proved", "symbolic execution", 0, "")
            return True
        r = self.find_model(ONE, o.ctx) if o.ctx.sat() else None
        self.add(name, "refuted" if r else "other", "model" if r else "", 0, note or f"outcome {o.kind} {o.exc or ''}", r or ())
        return False

    def same(self, name, o, val, shape, fn):
        """val is an array of the given shape with elements fn(indices)"""
        shape = [P(s) for s in shape]
        if isnum(val) and not shape:
            return self.zero(name, lift(val)[0] - P(fn([])), o.ctx)
        if not isinstance(val, SArr):
            self.add(name, "other", "", 0, f"result is {type(val).__name__}, not an array")
            return False
        if val.ndim != len(shape):
            r = self.find_model(ONE, o.ctx)
            self.add(name + " has the right rank", "refuted" if r else "other", "", 0, f"rank {val.ndim} instead of {len(shape)}", r or ())
            return False
        for d, (a, b) in enumerate(zip(val.shape, shape)):
            if a is not b and not self.zero(f"{name} has extent {show(b, 60)} along axis {d}", a - b, o.ctx):
                return False
        ix = list(IX[:len(shape)])
        return self.zero(name, o.read(val, ix) - P(fn(ix)), o.ctx, list(zip(ix, shape)))

    def unchanged(self, o, **arrs):
        for n, a in arrs.items():
            b = o.body(a.store)
            before = getattr(o.e, "before", {}).get(a.store, a.store.body)
            self.zero(f"{n} is not modified [{o.n}]", b - before, o.ctx, [(IX[d], s) for d, s in enumerate(a.store.shape)])

    def fresh_store(self, o, name, val, *arrs):
        """the result does not share memory with the given arrays"""
        self.holds(f"{name} does not alias an argument [{o.n}]", not isinstance(val, SArr) or all(val.store is not a.store for a in arrs if isinstance(a, SArr)), "shares memory")


class Vacuous(Exception):
    pass


# ----------------------------------------------------------------------- registry
TASKS = []  # (props, name, fn, level, qual)
STUBS = {}  # qual -> stub function(machine, args, kw)


def task(props, name, internal=None, seconds=60):
    """register a proof task; internal: qualified name of the function whose contract is proved
    (its stub may then be used by callers)"""
    if isinstance(props, str):
        props = props.split()

    def deco(fn):
        TASKS.append(dict(props=props, name=name, fn=fn, internal=internal, seconds=seconds))
        return fn
    return deco


def stub(qual):
    def deco(fn):
        STUBS[qual] = fn
        return fn
    return deco


class Missing(Exception):
    pass


def sum1(n, f):
    v = fvar("$s")
    return sum_over(v, n, f(P(v)))


def maxof(n, f):
    v = fvar("$m")
    return maxb_over(v, n, f(P(v)))
