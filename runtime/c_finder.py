"""Concrete contracts for C09, C14, C15, C17, C18."""
import copy
import inspect
import numpy as np
import spec
from gen import case, need, same, Fail, Skip, Protocol
import flory
from flory.common import ComponentNumberError, FeatureNumberError, VolumeFractionError
from flory.entropy import IdealGasEntropy, IdealGasPolydispersedEntropy
from flory.interaction import FloryHugginsInteraction, FloryHugginsBlockInteraction
from flory.mcmp import finder as fmod
from flory.mcmp import _finder_impl as fi
from flory import CoexistingPhasesFinder, CanonicalEnsemble, GrandCanonicalEnsemble, LinearLocalConstraint, LinearGlobalConstraint, NoConstraint

META = "multicomponent_self_consistent_metastep"


class Patched:
    """replace the solver step by a scripted one and record the calls"""

    def __init__(self, script):
        self.script = script
        self.calls = []

    def __enter__(self):
        if not protocol():
            raise Skip
        self.old = {}

        def fake(*args, **kw):
            names = ["interaction", "entropy", "ensemble", "constraints"]
            try:
                sig = inspect.signature(getattr(self.real, "py_func", self.real))
                d = dict(sig.bind(*args, **kw).arguments)
            except (TypeError, ValueError):
                d = dict(zip(names, args))
                d.update(kw)
            self.calls.append({k: v for k, v in d.items()})
            return self.script(len(self.calls) - 1, d)

        for m in (fmod, fi):
            if hasattr(m, META):
                self.real = self.old[m] = getattr(m, META)
                setattr(m, META, fake)
        return self

    def __exit__(self, typ, exc, tb):
        for m, f in self.old.items():
            setattr(m, META, f)
        if self.calls and typ is not None and issubclass(typ, Exception) and not issubclass(typ, (Fail, Skip)) and typ.__name__ != "Hang":
            # the stand-in does not speak the language of the solver; real runs are checked elsewhere
            raise Protocol(f"{typ.__name__}: {exc}") from exc


PROTOCOL = []


def protocol():
    """does the solver step take and return what the scripted one does? (else scripted cases say nothing)"""
    if not PROTOCOL:
        PROTOCOL.append(False)
        seen = []
        old = {m: getattr(m, META) for m in (fmod, fi) if hasattr(m, META)}
        if old:
            real = list(old.values())[0]

            def spy(*args, **kw):
                r = real(*args, **kw)
                seen.append((inspect.signature(getattr(real, "py_func", real)).bind(*args, **kw).arguments, r))
                return r
            try:
                for m in old:
                    setattr(m, META, spy)
                fe = flory.FloryHuggins(2, 1.0)
                CoexistingPhasesFinder(fe.interaction, fe.entropy, CanonicalEnsemble(2), num_part=2, progress=False, rng=np.random.default_rng(0), max_steps=1, interval=1, random_std=0.1).run()
                d, r = seen[0]
                PROTOCOL[0] = (isinstance(r, tuple) and len(r) == 6 and isinstance(r[4], (int, np.integer)) and isinstance(r[5], (bool, np.bool_)) and
                               {"omegas", "Js", "steps_inner", "revive_tries", "kill_threshold", "acceptance_Js", "acceptance_omega", "Js_step_upper_bound", "revive_scaler"} <= set(d))
            except Exception:
                pass
            finally:
                for m, f in old.items():
                    setattr(m, META, f)
    return PROTOCOL[0]


def simple(g, n=2, M=None, cons=None, **kw):
    fe = flory.FloryHuggins(n, g.arr((n, n), 0, 3), g.posarr(n, 0.5, 2))
    ens = CanonicalEnsemble(n, g.compositions((), n))
    kw.setdefault("progress", False)
    kw.setdefault("rng", np.random.default_rng(int(g.rng.integers(1 << 30))))
    return CoexistingPhasesFinder(fe.interaction, fe.entropy, ens, cons, num_part=M or int(g.rng.integers(2, 6)), **kw)


@case("C09", "scripted", weight=4)
def c09_script(g):
    M = int(g.rng.integers(1, 5))
    dmax, dint, dtol = g.intval(1, 60), g.intval(1, 20), g.choice([1e-5, 1e-3, 1e-2])
    budget = g.choice([0, 1, 3, 16])
    nb = g.dim(1, 3)
    f = simple(g, M=M, max_steps=dmax, interval=dint, tolerance=dtol, max_revive_per_compartment=budget, kill_threshold=0.0,
               acceptance_Js=0.011, acceptance_omega=0.022, Js_step_upper_bound=0.033, revive_scaler=1.25)
    left = budget * M
    for call in range(3):
        over = {}
        if g.p(0.5):
            over["max_steps"] = g.choice([g.intval(1, 80), g.intval(1, 40) + 0.5, g.intval(1, 80)])
        if g.p(0.5):
            over["interval"] = g.intval(1, 30)
        if g.p(0.5):
            over["tolerance"] = g.choice([1e-5, 1e-2, 0.3])
        if g.p(0.3):
            over["progress"] = False
        ms, it, tol = over.get("max_steps", dmax), over.get("interval", dint), over.get("tolerance", dtol)
        conv_at = int(g.rng.integers(0, 8))
        mode = g.choice(["all", "unsafe", "one", "equal", "nan"])
        hist = []

        def script(i, d):
            res = [tol * g.choice([0.0, 0.1, 0.5]) for _ in range(4)]
            safe = True
            if i < conv_at:
                if mode == "unsafe":
                    safe = False
                elif mode == "one" or mode == "all":
                    for k in ([int(g.rng.integers(4))] if mode == "one" else range(4)):
                        res[k] = tol * g.choice([1.01, 2.0, 100.0])
                elif mode == "equal":
                    res[int(g.rng.integers(4))] = tol
                else:
                    res[int(g.rng.integers(4))] = float("nan")
            rv = int(g.rng.integers(0, 3)) if d["revive_tries"] > 0 else 0
            hist.append((res, rv, safe, dict(d)))
            d["Js"][:] = g.posarr(M, 0.1, 3)
            d["phis_comp"][:] = g.rng.random(d["phis_comp"].shape)
            if g.p(0.3) and M > 1:
                d["Js"][0] = 0.0
            hist[-1][3]["snap"] = (d["Js"].copy(), d["phis_comp"].copy())
            return (res[0], res[1], res[2], res[3], rv, safe)

        with Patched(script) as p:
            ph = f.run(**over)
        if not p.calls:
            raise Skip
        d = dict(max_steps=ms, interval=it, tolerance=tol, calls=len(p.calls), mode=mode, converge_at=conv_at, defaults=dict(max_steps=dmax, interval=dint, tolerance=dtol), overrides=over)
        steps = sum(int(c["steps_inner"]) for c in p.calls)
        need(all(int(c["steps_inner"]) >= 1 for c in p.calls), "metastep without steps", **d)
        need(all(int(c["steps_inner"]) <= max(1, it) for c in p.calls), "more steps than the interval without checking convergence", inner=[int(c["steps_inner"]) for c in p.calls], **d)
        need(1 <= steps <= max(1, np.ceil(ms)), "number of steps outside the allowed range", steps=steps, **d)
        # early stop exactly when converged
        for i, (res, rv, safe, dd) in enumerate(hist):
            ok = safe and all(tol > r for r in res)
            last = i == len(hist) - 1
            if ok:
                need(last, "continued although converged", check=i, residuals=res, **d)
            if last and not ok:
                need(len(hist) == int(np.ceil(ms / it)) or steps + int(p.calls[-1]["steps_inner"]) > np.ceil(ms), "stopped before the maximum number of steps without convergence", residuals=res, safe=safe, steps=steps, **d)
        # budget
        b = left
        for i, (res, rv, safe, dd) in enumerate(hist):
            need(int(dd["revive_tries"]) == b, "revive budget handed to the solver", check=i, got=int(dd["revive_tries"]), want=b, **d)
            b -= rv
        left = b
        dg = f.diagnostics
        res, rv, safe, dd = hist[-1]
        need(dg["steps"] == steps, "reported number of steps", got=dg["steps"], want=steps, **d)
        for k, v in zip(("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue"), res):
            need(dg[k] == v or (np.isnan(dg[k]) and np.isnan(v)), f"diagnostics report {k} of another check", got=dg[k], want=v, **d)
        need(dg["revive_count_left"] == left, "reported revive budget", got=dg["revive_count_left"], want=left, **d)
        for c in p.calls:
            for k, v in dict(acceptance_Js=0.011, acceptance_omega=0.022, Js_step_upper_bound=0.033, revive_scaler=1.25, kill_threshold=0.0).items():
                need(float(c[k]) == v, f"solver step got a wrong {k}", got=float(c[k]), want=v)
        # result: compositions and volumes of the last state
        Js, X = hist[-1][3]["snap"]
        V, F = np.asarray(ph.volumes), np.asarray(ph.fractions)
        need(V.shape == (M,) and F.shape == (M, X.shape[0]), "shape of the result")
        live = Js > 0
        same(F[live], X.T[live], "result does not contain the fractions of the last state", **d)
        if live.all():
            same(V, Js, "result does not contain the volumes of the last state", **d)
        same(V.sum(), Js[live].sum(), "total volume of the result", **d)
        same(p.calls[-1]["Js"], Js, "run changed the solver state when building the result", **d)
        if g.p(0.3):
            f.reset_revive()
            left = budget * M


@case("C09", "real-continuation")
def c09_cont(g):
    """two runs in a row equal one long run; steps are really performed"""
    n, M = 2, int(g.rng.integers(2, 5))
    seed = int(g.rng.integers(1 << 30))
    k1, k2, it = g.intval(1, 20), g.intval(1, 20), g.intval(1, 25)
    chi, sizes, mean = g.arr((n, n), 0, 3), g.posarr(n, 0.5, 2), g.compositions((), n)
    w = g.arr((n, M), -1, 1)

    def mk():
        fe = flory.FloryHuggins(n, chi, sizes)
        f = CoexistingPhasesFinder(fe.interaction, fe.entropy, CanonicalEnsemble(n, mean), num_part=M, progress=False, rng=np.random.default_rng(seed),
                                   tolerance=1e-14, max_revive_per_compartment=0, max_steps=1000, interval=1)
        f.reinitialize_from_omegas(w)
        return f
    a, b = mk(), mk()
    a.run(max_steps=k1, interval=1)
    ra = a.run(max_steps=k2, interval=1)
    rb = b.run(max_steps=k1 + k2, interval=1)
    if a.diagnostics["steps"] != k2 or b.diagnostics["steps"] != k1 + k2:
        raise Skip
    d = dict(k1=k1, k2=k2, chi=chi, sizes=sizes, mean=mean, omegas=w)
    same(a.omegas, b.omegas, "continued run differs from one long run (fields)", rtol=1e-9, **d)
    same(ra.fractions, rb.fractions, "continued run differs from one long run (fractions)", rtol=1e-9, **d)
    same(ra.volumes, rb.volumes, "continued run differs from one long run (volumes)", rtol=1e-9, **d)
    for k in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff"):
        same(a.diagnostics[k], b.diagnostics[k], f"diagnostics {k}", rtol=1e-8, **d)
    # number of steps with other intervals
    c = mk()
    c.run(max_steps=k1, interval=it)
    need(1 <= c.diagnostics["steps"] <= k1, "number of steps", steps=c.diagnostics["steps"], max_steps=k1, interval=it)
    s = c.diagnostics["steps"]
    e = mk()
    e.run(max_steps=s, interval=1)
    if e.diagnostics["steps"] == s:
        same(c.omegas, e.omegas, "reported number of steps is not the number performed", max_steps=k1, interval=it, steps=s)


@case("C09", "criterion", weight=0.3)
def c09_crit(g):
    f = simple(g, convergence_criterion="standard" + g.choice(["x", "2", "_"]), max_steps=2, interval=1)
    try:
        f.run()
    except ValueError:
        return
    except Exception as e:
        raise Fail(f"unknown convergence criterion raised {type(e).__name__}")
    raise Fail("unknown convergence criterion accepted")


# ----------------------------------------------------------------------------- C14
def parts(g, n, S, counts=None):
    """interaction, entropy, ensemble fitting n components and S features"""
    if counts is None:
        return FloryHugginsInteraction(n, g.arr((n, n), 0, 3)), IdealGasEntropy(n, g.posarr(n, 0.5, 2)), ens_of(g, n)
    return FloryHugginsBlockInteraction(S, g.arr((S, S), 0, 3), counts), IdealGasPolydispersedEntropy(S, g.posarr(n, 0.5, 2), counts), ens_of(g, n)


def ens_of(g, n):
    return CanonicalEnsemble(n, g.compositions((), n)) if g.p(0.6) else GrandCanonicalEnsemble(n, g.posarr(n, 0.1, 0.6))


def cons_of(g, S):
    K = int(g.rng.integers(1, 3))
    cls = g.choice([LinearLocalConstraint, LinearGlobalConstraint])
    return cls(S, g.arr((K, S)), g.arr((K,)))


def other(g, n, lo=1):
    m = g.choice([n + 1, n - 1, n + 2, 2 * n + 1, 1])
    return m if m != n and m >= lo else n + 1


@case("C14", "constructor")
def c14_ctor(g):
    poly = g.p(0.4)
    if poly:
        S = g.dim(1, 3, "num_feat", big=12)
        counts = g.rng.integers(1, 4, S)
        n = int(counts.sum())
    else:
        n = S = g.dim(1, 4, "num_comp", big=20)
        counts = None
    i, e, en = parts(g, n, S, counts)
    cons = None
    bad = g.choice([None, "interaction", "ensemble", "constraint", "constraint2", "entropy"])
    exc = (ComponentNumberError, FeatureNumberError)
    if bad == "interaction":
        m = other(g, S)
        i = FloryHugginsInteraction(m, 1.0) if g.p(0.5) else FloryHugginsBlockInteraction(m, 1.0, 2)
    elif bad == "ensemble":
        en = ens_of(g, other(g, n))
    elif bad == "constraint":
        cons = cons_of(g, other(g, S)) if g.p(0.8) else NoConstraint(other(g, S))
    elif bad == "constraint2":
        cs = [cons_of(g, S), cons_of(g, other(g, S)), cons_of(g, S)]
        k = int(g.rng.integers(2, 4))
        cons = [cs[j] for j in g.rng.permutation(3)]
        if k == 2:
            cons = [cs[1], cs[0]] if g.p(0.5) else (cs[0], cs[1])
    elif bad == "entropy":
        m = other(g, n)
        e = IdealGasEntropy(m)
        if m == S and m == n:
            raise Skip
    elif g.p(0.5):
        cons = g.choice([cons_of(g, S), [cons_of(g, S), cons_of(g, S)], (cons_of(g, S),), NoConstraint(S)])
    M = int(g.rng.integers(1, 5))
    try:
        f = CoexistingPhasesFinder(i, e, en, cons, num_part=M, progress=False, rng=np.random.default_rng(0))
        ok = True
    except exc:
        ok = False
    except Exception as ex:
        raise Fail(f"mismatching parts ({bad}) raised {type(ex).__name__}: {ex}")
    need(ok == (bad is None), f"solver with a misfitting {bad} was created" if ok else "fitting parts were refused", n=n, S=S, counts=counts)
    if ok:
        need(f.omegas.shape == (S, M), "shape of the fields", shape=f.omegas.shape)
        d = CoexistingPhasesFinder(i, e, en, cons, progress=False, rng=np.random.default_rng(0))
        need(d.omegas.shape == (S, 8 * n), "default number of compartments", shape=d.omegas.shape, n=n)


def fingerprint(f, steps=3):
    """what a run of a private copy of the solver's state gives"""
    w, dg = np.array(f.omegas), f.diagnostics
    r = f.run(max_steps=steps, interval=steps)
    return w, np.asarray(r.volumes).copy(), np.asarray(r.fractions).copy(), {k: v for k, v in f.diagnostics.items() if k != "time"}


@case("C14", "rejected-setter", weight=2)
def c14_setter(g):
    poly = g.p(0.3)
    if poly:
        S = int(g.rng.integers(1, 4))
        counts = g.rng.integers(1, 3, S)
        n = int(counts.sum())
    else:
        n = S = g.dim(1, 4, "num_comp", big=20)
        counts = None
    i, e, en = parts(g, n, S, counts)
    M = int(g.rng.integers(1, 5))
    cons = g.choice([None, cons_of(g, S), [cons_of(g, S), cons_of(g, S)]])
    seed = int(g.rng.integers(1 << 30))

    def mk():
        return CoexistingPhasesFinder(i, e, en, cons, num_part=M, progress=False, rng=np.random.default_rng(seed), tolerance=1e-13, random_std=0.5)
    a, b = mk(), mk()
    if g.p(0.5):
        for f in (a, b):
            f.run(max_steps=2, interval=1)
    tried = []
    for _ in range(int(g.rng.integers(1, 4))):
        what = g.choice(["interaction", "entropy", "ensemble", "constraint", "constraints", "omegas", "phis", "individual"])
        tried.append(what)
        m, mS = other(g, n), other(g, S)
        try:
            if what == "interaction":
                a.set_interaction(FloryHugginsInteraction(mS, 1.0))
            elif what == "entropy":
                if g.p(0.5):
                    a.set_entropy(IdealGasEntropy(m))
                else:
                    # right number of components or features, but not both
                    c2 = np.ones(S, int)
                    c2[0] += 1 if n == S else 0
                    if c2.sum() == n:
                        c2[0] += 1
                    a.set_entropy(IdealGasPolydispersedEntropy(S, 1.0, c2))
            elif what == "ensemble":
                a.set_ensemble(ens_of(g, m))
            elif what == "constraint":
                a.set_constraints(cons_of(g, mS))
            elif what == "constraints":
                cs = [cons_of(g, S), cons_of(g, mS)]
                a.set_constraints(cs[::-1] if g.p(0.5) else cs)
            elif what == "individual":
                a.set_constraints([cons_of(g, S), cons_of(g, S)], kwargs_individual=[{}])
            elif what == "omegas":
                a.reinitialize_from_omegas(np.zeros(g.choice([(S, M + 1), (S + 1, M), (M + 3, S), (S * M + 1,), (1, S, M)])))
            else:
                a.reinitialize_from_phis(np.full(g.choice([(S, M + 1), (S + 1, M), (1, S, M)]), 0.5))
        except ValueError:
            continue
        except Exception as ex:
            raise Fail(f"misfitting {what} raised {type(ex).__name__}: {ex}", n=n, S=S, M=M)
        raise Fail(f"misfitting {what} accepted", n=n, S=S, M=M)
    A, B = fingerprint(a), fingerprint(b)
    d = dict(rejected=tried, n=n, S=S, M=M)
    same(A[0], B[0], "fields changed by a rejected call", **d)
    same(A[1], B[1], "run after a rejected call differs (volumes)", **d)
    same(A[2], B[2], "run after a rejected call differs (fractions)", **d)
    for k in A[3]:
        same(A[3][k], B[3][k], f"run after a rejected call differs ({k})", **d)


@case("C14", "all-constraints-used", weight=1)
def c14_all(g):
    """handing over several constraints equals the self-consistent step with all of them"""
    S = n = int(g.rng.integers(1, 4))
    i, e, _ = parts(g, n, S)
    en = CanonicalEnsemble(n, g.compositions((), n))
    M = int(g.rng.integers(1, 4))
    k = g.dim(1, 3, "constraints", big=4)
    sp, cs = [], []
    for _ in range(k):
        kind = g.choice(["local", "global"])
        K = int(g.rng.integers(1, 3))
        C, T = g.arr((K, S)), g.arr((K,))
        cs.append((LinearLocalConstraint if kind == "local" else LinearGlobalConstraint)(S, C, T))
        sp.append(spec.Cons(kind, C, T, 1.0, 1.0, M))
    w = g.arr((S, M), -1, 1)
    arg = cs[0] if k == 1 and g.p(0.5) else (tuple(cs) if g.p(0.5) else list(cs))
    via = g.choice(["ctor", "setter", "setter-individual"])
    f = CoexistingPhasesFinder(i, e, en, arg if via == "ctor" else None, num_part=M, progress=False, rng=np.random.default_rng(1), tolerance=1e-13, max_revive_per_compartment=0,
                               acceptance_Js=0.01, acceptance_omega=0.05, Js_step_upper_bound=0.05)
    if via == "setter":
        f.set_constraints(arg)
    elif via != "ctor":
        f.set_constraints(arg, kwargs_individual=[{} for _ in cs] if not hasattr(arg, "compiled") else {})
    f.reinitialize_from_omegas(w)
    f.run(max_steps=1, interval=1)
    chi = np.asarray(i.chis)
    r = spec.step(w, np.ones(M), chi_feat=chi, shift=-chi.min() + 1, feat_of=np.arange(n), l=np.asarray(e.sizes), ens="canonical", ens_par=np.asarray(en.phi_means), cons=sp,
                  aJ=0.01, aw=0.05, bound=0.05, thr=0.0)
    same(f.omegas, r["w"], "step does not use all constraints", rtol=1e-8, atol=1e-8, constraints=k, via=via)
    same(f.diagnostics["max_constraint_residue"], r["rc"], "residue does not cover all constraints", rtol=1e-8, constraints=k, via=via)


# ----------------------------------------------------------------------------- C15
@case("C15", "ownership", weight=2)
def c15_own(g):
    poly = g.p(0.3)
    if poly:
        S = int(g.rng.integers(1, 4))
        counts = g.rng.integers(1, 3, S)
        n = int(counts.sum())
    else:
        n = S = int(g.rng.integers(1, 4))
        counts = None
    M = int(g.rng.integers(1, 4))
    chi = g.arr((S, S), 0, 3)
    chi = (chi + chi.T) / 2
    l, mean, act = g.posarr(n, 0.5, 2), g.compositions((), n), g.posarr(n, 0.1, 0.8)
    K = 2
    C, T = g.arr((K, S)), g.arr((K,))
    gc = g.p(0.5)
    ck = g.choice([None, LinearLocalConstraint, LinearGlobalConstraint])
    seed = int(g.rng.integers(1 << 30))

    def objs():
        src = [chi.copy(), l.copy(), mean.copy(), act.copy(), C.copy(), T.copy()]
        if poly:
            i, e = FloryHugginsBlockInteraction(S, src[0], counts), IdealGasPolydispersedEntropy(S, src[1], counts)
        else:
            i, e = FloryHugginsInteraction(n, src[0]), IdealGasEntropy(n, src[1])
        en = GrandCanonicalEnsemble(n, src[3]) if gc else CanonicalEnsemble(n, src[2])
        c = None if ck is None else ck(S, src[4], src[5])
        return i, e, en, c, src

    def mk(o, how):
        i, e, en, c, src = o
        if how == "ctor":
            return CoexistingPhasesFinder(i, e, en, c, num_part=M, progress=False, rng=np.random.default_rng(seed), tolerance=1e-13, random_std=0.5)
        f = CoexistingPhasesFinder(*([FloryHugginsBlockInteraction(S, 1.0, counts), IdealGasPolydispersedEntropy(S, 1.0, counts)] if poly else [FloryHugginsInteraction(n, 1.0), IdealGasEntropy(n)]),
                                   CanonicalEnsemble(n), None, num_part=M, progress=False, rng=np.random.default_rng(seed), tolerance=1e-13, random_std=0.5)
        f.set_interaction(i)
        f.set_entropy(e)
        f.set_ensemble(en)
        f.set_constraints(c)
        return f
    how = g.choice(["ctor", "setters"])
    oa, ob = objs(), objs()
    a, b = mk(oa, how), mk(ob, how)
    # the solver must not have changed what it was given
    for x, y in zip(oa[4], [chi, l, mean, act, C, T]):
        need(np.array_equal(x, y), "creating a solver changed the caller's arrays")
    # scribble over everything the first solver was made from
    i, e, en, c, src = oa
    for x in src:
        x[...] = 0.123
    arrays = [getattr(i, "chis", None), getattr(i, "chis_feat", None), getattr(e, "sizes", None), getattr(en, "phi_means", None), getattr(en, "scaled_activity", None),
              getattr(c, "Cs", None), getattr(c, "Ts", None)]
    for x in arrays:
        if isinstance(x, np.ndarray) and x.flags.writeable:
            x[...] = 0.321
    if g.p(0.5):
        try:
            if poly:
                i.chis_feat = 0.5
            else:
                i.chis = 0.5
            e.sizes = 3.0
            if gc:
                en.scaled_activity = 0.9
            else:
                en.phi_means = np.full(n, 1 / n)
            if c is not None:
                c.Cs = np.ones((K, S))
                c.Ts = np.zeros(K)
        except Exception as ex:
            raise Fail(f"parameter assignment raised {type(ex).__name__}: {ex}")
    A, B = fingerprint(a), fingerprint(b)
    d = dict(how=how, chi=chi, sizes=l, mean=mean, activity=act, ensemble="grand" if gc else "canonical", constraint=ck and ck.__name__, poly=poly)
    for k, nm in enumerate(("fields", "volumes", "fractions")):
        same(A[k], B[k], f"{nm} depend on later changes of the objects the solver was created from", **d)
    # two solvers from the same objects do not share state
    i, e, en, c, src = ob
    f1 = CoexistingPhasesFinder(i, e, en, c, num_part=M, progress=False, rng=np.random.default_rng(seed), tolerance=1e-13, random_std=0.5)
    f2 = CoexistingPhasesFinder(i, e, en, c, num_part=M, progress=False, rng=np.random.default_rng(seed), tolerance=1e-13, random_std=0.5)
    f1.run(max_steps=3, interval=3)
    F = fingerprint(f2)
    for k, nm in enumerate(("fields", "volumes", "fractions")):
        same(F[k], B[k] if how == "ctor" else F[k], f"{nm} of a solver depend on another solver", **d)
    for x, y in zip(src, [chi, l, mean, act, C, T]):
        need(np.array_equal(x, y), "running a solver changed the caller's arrays", **d)
    same(i.chis_feat if poly else i.chis, chi, "running a solver changed the interaction", **d)
    same(e.sizes, l, "running a solver changed the sizes", **d)
    same(en.scaled_activity if gc else en.phi_means, act if gc else mean, "running a solver changed the ensemble", **d)


@case("C15", "results-are-copies", weight=0.7)
def c15_copies(g):
    f = simple(g, cons=g.choice([None, cons_of(g, 2)]), tolerance=1e-13, random_std=0.5)
    h = copy_like = None
    seed = int(g.rng.integers(1 << 30))
    g1 = np.random.default_rng(seed)
    n, M = 2, int(g.rng.integers(2, 5))
    chi, mean = g.arr((n, n), 0, 3), g.compositions((), n)
    w = g.arr((n, M), -1, 1)
    outs = []
    for scribble in (True, False):
        fe = flory.FloryHuggins(n, chi)
        s = CoexistingPhasesFinder(fe.interaction, fe.entropy, CanonicalEnsemble(n, mean), num_part=M, progress=False, rng=np.random.default_rng(seed), tolerance=1e-13, max_revive_per_compartment=0)
        w_in = w.copy()
        s.reinitialize_from_omegas(w_in)
        r = s.run(max_steps=2, interval=1)
        need(np.array_equal(w_in, w), "running changed the caller's initial fields", omegas=w, after=w_in)
        v0, x0 = np.asarray(r.volumes).copy(), np.asarray(r.fractions).copy()
        if scribble:
            r.volumes[...] = 5.0
            r.fractions[...] = 0.1
            w_in[...] = 3.0
        r2 = s.run(max_steps=2, interval=1)
        if not scribble:
            need(np.array_equal(r.volumes, v0) and np.array_equal(r.fractions, x0), "an earlier result changed when the solver ran again")
        outs.append((np.asarray(r2.volumes).copy(), np.asarray(r2.fractions).copy(), np.array(s.omegas)))
    for k in range(3):
        same(outs[0][k], outs[1][k], "changing a returned result or the initial fields changes the solver", chi=chi, mean=mean)


@case("C15", "reinitialise", weight=2)
def c15_reinit(g):
    """a used and then reinitialised solver behaves like a fresh one"""
    S = n = int(g.rng.integers(1, 4))
    M = int(g.rng.integers(1, 5))
    i, e, en = parts(g, n, S)
    cons = g.choice([None, cons_of(g, S), [cons_of(g, S), cons_of(g, S)]])
    std = g.pos(0.1, 1.5)
    budget = int(g.rng.integers(0, 5))
    kw = dict(num_part=M, progress=False, tolerance=1e-13, random_std=std, max_revive_per_compartment=budget, acceptance_Js=0.02, acceptance_omega=0.05, Js_step_upper_bound=0.05)
    rng_used = np.random.default_rng(int(g.rng.integers(1 << 30)))
    used = CoexistingPhasesFinder(i, e, en, cons, rng=rng_used, **kw)
    if g.p(0.5):
        used.set_interaction(i)
        used.set_entropy(e)
    used.run(max_steps=int(g.rng.integers(1, 6)), interval=2)
    seed = int(g.rng.integers(1 << 30))
    fresh = CoexistingPhasesFinder(i, e, en, cons, rng=np.random.default_rng(seed), **kw)
    rng_used.bit_generator.state = np.random.default_rng(seed).bit_generator.state
    how = g.choice(["random", "omegas", "phis", "omegas-after-budget"])
    d = dict(how=how, n=n, M=M, std=std, budget=budget)
    if how == "random":
        used.reinitialize_random()
        z = np.random.default_rng(seed).normal(0.0, 1.0, (S, M))
        need(used.omegas.shape == (S, M), "shape of the random fields", **d)
        same(used.omegas, fresh.omegas, "random fields are not those of a fresh solver", **d)
        same(np.abs(used.omegas), np.abs(std * z), "random fields do not have the configured amplitude", rtol=1e-9, **d)
    else:
        x = g.arr((S, M), -1, 1) if how.startswith("omegas") else g.compositions((M,), S).T
        if g.p(0.15):
            x = np.round(x).astype(int)
        xin = g.layout(x)
        keep = copy.deepcopy(xin)
        for f in (used, fresh):
            (f.reinitialize_from_omegas if how.startswith("omegas") else f.reinitialize_from_phis)(xin)
        want = x if how.startswith("omegas") else np.asarray(i.chis) @ x
        same(used.omegas, want, "reinitialised fields", x=x, **d)
        need(np.array_equal(np.asarray(xin), np.asarray(keep)), "reinitialising changed the caller's array", **d)
        rng_used.bit_generator.state = np.random.default_rng(seed).bit_generator.state
        frng = np.random.default_rng(seed)
    A = fingerprint(used, 1)
    B = fingerprint(fresh, 1)
    if how == "random" or budget == 0:
        for k, nm in enumerate(("fields", "volumes", "fractions")):
            same(A[k], B[k], f"reinitialised solver differs from a fresh one ({nm})", **d)
    same(A[1].sum(), M, "volumes of a reinitialised solver are not one", **d)
    for k in A[3]:
        if how == "random" or budget == 0 or k not in ("steps",):
            same(A[3][k], B[3][k], f"reinitialised solver differs from a fresh one ({k})", **d)


@case("C15", "state-reset", weight=1)
def c15_state(g):
    """whatever an earlier run left behind, a reinitialised solver starts from unit volumes and the given fields"""
    S = n = int(g.rng.integers(1, 4))
    M = int(g.rng.integers(1, 6))
    i, e, en = parts(g, n, S)
    thr = g.choice([0.0, 1e-3, 0.1])
    std = g.pos(0.1, 2)
    rng = np.random.default_rng(int(g.rng.integers(1 << 30)))
    f = CoexistingPhasesFinder(i, e, en, g.choice([None, cons_of(g, S)]), num_part=M, progress=False, rng=rng, max_steps=2, interval=1, tolerance=1e-13, random_std=std, kill_threshold=thr,
                               max_revive_per_compartment=int(g.rng.integers(0, 3)))
    left = []

    def spoil(k, d):
        d["Js"][...] = g.posarr(M, 0.01, 3) * (g.rng.random(M) < 0.6)
        if g.p(0.3):
            d["Js"][...] = g.choice([0.0, 1e-9, 2.0])
        d["omegas"][...] = g.arr((S, M), -9, 9)
        left.append((d["Js"].copy(), d["omegas"].copy()))
        return (1.0, 1.0, 1.0, 0.0, 0, bool(g.p(0.5)))
    starts = []

    def look(k, d):
        starts.append((d["Js"].copy(), d["omegas"].copy()))
        return (1.0, 1.0, 1.0, 0.0, 0, True)
    with Patched(spoil) as p:
        for _ in range(2):  # an iteration only, not the processing of its result
            f_run(f)
    if not p.calls or not left:
        raise Skip
    how = g.choice(["random", "omegas", "phis"])
    seed = int(g.rng.integers(1 << 30))
    rng.bit_generator.state = np.random.default_rng(seed).bit_generator.state
    x = g.arr((S, M), -1, 1) if how == "omegas" else g.compositions((M,), S).T
    if how == "random":
        f.reinitialize_random()
        want = np.abs(std * np.random.default_rng(seed).normal(0.0, 1.0, (S, M)))
    elif how == "omegas":
        f.reinitialize_from_omegas(x)
        want = x
    else:
        f.reinitialize_from_phis(x)
        want = np.asarray(i.chis) @ x
    with Patched(look):
        f.run()
    J, w = starts[0]
    d = dict(how=how, n=n, M=M, left_volumes=left[-1][0], kill_threshold=thr)
    same(J, np.ones(M), "volumes after reinitialisation", **d)
    same(np.abs(w) if how == "random" else w, want, "fields after reinitialisation", **d)


def f_run(f):
    try:
        f.run()
    except Exception:  # the result of the spoiled iteration need not make sense
        pass


@case("C15", "budget-reset", weight=1)
def c15_budget(g):
    S = n = int(g.rng.integers(1, 3))
    M, per = int(g.rng.integers(1, 5)), int(g.rng.integers(1, 6))
    i, e, en = parts(g, n, S)
    f = CoexistingPhasesFinder(i, e, en, None, num_part=M, progress=False, rng=np.random.default_rng(0), max_revive_per_compartment=per, max_steps=1, interval=1, tolerance=1e-13, random_std=0.5)
    use = int(g.rng.integers(1, per * M + 1))
    seen = []

    def script(k, d):
        seen.append(int(d["revive_tries"]))
        return (1.0, 1.0, 1.0, 0.0, use, True)
    for _ in range(3):
        seen.clear()
        with Patched(script) as p:
            f.run()
        if not p.calls:
            raise Skip
        what = g.choice(["interaction", "entropy", "ensemble", "constraints", "reset", "random", "omegas", "phis", "none"])
        keep = g.p(0.4) and what in ("interaction", "entropy", "ensemble", "constraints")
        kw = dict(if_reset_revive=False) if keep else ({} if g.p(0.5) or what in ("reset", "random", "omegas", "phis", "none") else dict(if_reset_revive=True))
        if what == "interaction":
            f.set_interaction(i, **kw)
        elif what == "entropy":
            f.set_entropy(e, **kw)
        elif what == "ensemble":
            f.set_ensemble(en, **kw)
        elif what == "constraints":
            f.set_constraints(g.choice([None, cons_of(g, S)]), **kw)
        elif what == "reset":
            f.reset_revive()
        elif what == "random":
            f.reinitialize_random()
        elif what == "omegas":
            f.reinitialize_from_omegas(np.zeros((S, M)))
        elif what == "phis":
            f.reinitialize_from_phis(np.full((S, M), 0.3))
        before = f.diagnostics["revive_count_left"]
        seen.clear()
        with Patched(script):
            f.run()
        want = before if keep or what == "none" else per * M
        need(seen[0] == want, f"revive budget after {what}", keep=keep, got=seen[0], want=want, per_compartment=per, M=M, used=use)


@case("C15", "constraint-reset", weight=0.7)
def c15_consreset(g):
    """reinitialisation clears the multipliers of all constraints, a plain rerun keeps them"""
    S = n = int(g.rng.integers(1, 3))
    M = int(g.rng.integers(1, 4))
    i, e, _ = parts(g, n, S)
    en = CanonicalEnsemble(n, g.compositions((), n))
    K = 1
    kinds = [g.choice(["local", "global"]) for _ in range(int(g.rng.integers(1, 3)))]
    dat = [(k, g.arr((K, S)), g.arr((K,))) for k in kinds]
    cs = [(LinearLocalConstraint if k == "local" else LinearGlobalConstraint)(S, C, T) for k, C, T in dat]
    f = CoexistingPhasesFinder(i, e, en, cs, num_part=M, progress=False, rng=np.random.default_rng(0), tolerance=1e-13, max_revive_per_compartment=0, acceptance_omega=0.5, acceptance_Js=0.01, Js_step_upper_bound=0.05)
    f.run(max_steps=2, interval=1)
    w = g.arr((S, M), -0.5, 0.5)
    how = g.choice(["omegas", "reinitialize_constraint", "set_constraints"])
    if how == "set_constraints":
        f.set_constraints(cs)
    elif how == "reinitialize_constraint":
        f.reinitialize_constraint()
    f.reinitialize_from_omegas(w)
    sp = [spec.Cons(k, C, T, 1.0, 1.0, M) for k, C, T in dat]
    J, ww = np.ones(M), w.copy()
    chi = np.asarray(i.chis)
    for t in range(2):
        f.run(max_steps=1, interval=1)
        r = spec.step(ww, J, chi_feat=chi, shift=-chi.min() + 1, feat_of=np.arange(n), l=np.asarray(e.sizes), ens="canonical", ens_par=np.asarray(en.phi_means), cons=sp, aJ=0.01, aw=0.5, bound=0.05, thr=0.0)
        ww, J = r["w"], r["J"]
        same(f.omegas, ww, "multipliers are not cleared by reinitialisation" if t == 0 else "multipliers are not kept between runs", rtol=1e-7, atol=1e-8, kinds=kinds, how=how)
        if not np.all(np.isfinite(ww)) or np.abs(ww).max() > 20 or J.min() < 1e-3:
            return


# ----------------------------------------------------------------------------- C17
@case("C17", "pipeline", weight=1, slow=True)
def c17_pipe(g):
    n = int(g.rng.integers(2, 4)) if not g.p(0.15) else g.dim(2, 4, "num_comp", big=8)
    chi = g.arr((n, n), 0, 4) if g.p(0.8) else g.val(0, 4)
    if g.p(0.6) and not np.isscalar(chi):
        chi = (chi + chi.T) / 2
        chi[np.arange(n), np.arange(n)] = 0
    mean = g.compositions((), n)
    sizes = None if g.p(0.25) else g.pos(0.5, 3) if g.p(0.3) else g.posarr(n, 0.5, 2)
    if g.p(0.15) and not np.isscalar(chi):  # other ways to write the same numbers
        chi, mean = chi.tolist(), tuple(mean.tolist())
        sizes = sizes.tolist() if isinstance(sizes, np.ndarray) else sizes
    seed = int(g.rng.integers(1 << 30))
    ms, it = g.intval(1, 60), g.intval(1, 30)
    kw = dict(progress=False, max_steps=ms, interval=it, num_part=int(g.rng.integers(1, 8)), tolerance=g.choice([1e-5, 1e-3, 1e-1, 2.0]))
    opt = dict(random_std=g.pos(0.1, 5), acceptance_Js=g.pos(1e-4, 0.1), acceptance_omega=g.pos(1e-3, 0.1), Js_step_upper_bound=g.pos(1e-4, 0.1), kill_threshold=g.choice([0.0, 0.05]),
               revive_scaler=g.pos(0.5, 2), max_revive_per_compartment=int(g.rng.integers(0, 4)), additional_chis_shift=g.pos(0.1, 3))
    for k, v in opt.items():
        if g.p(0.4):
            kw[k] = v
    if g.p(0.2):
        kw["constraints"] = cons_of(g, n)
    if g.p(0.15):
        kw["redundant_option"] = 5
    c0, m0, s0 = copy.deepcopy(chi), copy.deepcopy(mean), copy.deepcopy(sizes)
    args = (n, chi, mean) if sizes is None else (n, chi, mean, sizes)
    r = flory.find_coexisting_phases(*args, rng=np.random.default_rng(seed), **kw)
    need(np.array_equal(chi, c0) and np.array_equal(mean, m0) and (sizes is None or np.array_equal(sizes, s0)), "the one-call interface changed its arguments")
    fe = flory.FloryHuggins(n, c0, s0)
    f = CoexistingPhasesFinder(fe.interaction, fe.entropy, CanonicalEnsemble(n, m0), rng=np.random.default_rng(seed), **kw)
    ph = f.run().get_clusters().sort().normalize()
    d = dict(n=n, chi=c0, mean=m0, sizes=s0, options={k: v for k, v in kw.items() if k != "constraints"}, seed=seed)
    same(r.volumes, ph.volumes, "volumes of the one-call interface differ from the pipeline", **d)
    same(r.fractions, ph.fractions, "fractions of the one-call interface differ from the pipeline", **d)
    same(np.sum(r.volumes), 1.0, "volumes do not sum to one", **d)
    A = {k: v for k, v in r.info.items() if k != "time"}
    B = {k: v for k, v in f.diagnostics.items() if k != "time"}
    need(set(r.info) == set(f.diagnostics), "information differs from the diagnostics", got=sorted(r.info), want=sorted(f.diagnostics), **d)
    for k in B:
        same(A[k], B[k], f"information {k} differs from the diagnostics", **d)


@case("C17", "homogeneous", weight=0.3, slow=True)
def c17_homog(g):
    """without interactions everything ends in one phase with the mean composition"""
    n = int(g.rng.integers(2, 4))
    mean = g.rng.dirichlet(np.full(n, 5))
    r = flory.find_coexisting_phases(n, np.zeros((n, n)), mean, rng=np.random.default_rng(int(g.rng.integers(1 << 30))), progress=False, num_part=3, max_steps=3000, interval=500,
                                     random_std=0.2, acceptance_omega=0.1, tolerance=1e-6)
    if r.info["steps"] >= 3000:
        raise Skip
    need(len(r.volumes) == 1, "ideal mixture separated", volumes=r.volumes, fractions=r.fractions)
    same(r.volumes, [1.0], "volume of the single phase")
    same(r.fractions[0], mean, "composition of the single phase", rtol=1e-3, atol=1e-3)


# ----------------------------------------------------------------------------- C18
def observed_shift(comp, S):
    """the incompressibility coefficient reveals the shift: coef = sum(chi) + (shift - min chi) S^2"""
    chi = comp.potential(np.eye(S))
    coef = comp.incomp_coef(np.zeros((S, 2)))
    return float(np.ravel(coef)[0] - chi.sum()) / S ** 2 + chi.min()


def observed_cons(comp, S, M=2, C=None):
    """(ratio, elasticity) of a constraint with C=[1,0..], T=0, via its public behaviour"""
    comp.initialize(M)
    phi = np.zeros((S, M))
    phi[0] = 1.0
    comp.prepare(phi, np.ones(M), np.ones(M))
    k1 = float(np.asarray(comp.potential)[0, 0])
    comp.evolve(1.0, np.ones(M))
    comp.prepare(phi, np.ones(M), np.ones(M))
    k2 = float(np.asarray(comp.potential)[0, 0])
    return k2 - k1, k1


@case("C18", "compile-options", weight=1.5)
def c18_comp(g):
    S = g.dim(1, 4, "num_feat", big=12)
    sh, ra, el = g.pos(0.1, 5), g.pos(0.1, 5), g.pos(0.1, 5)
    full = {}
    if g.p(0.6):
        full["additional_chis_shift"] = sh
    if g.p(0.6):
        full["constraint_acceptance_ratio"] = ra
    if g.p(0.6):
        full["constraint_elasticity"] = el
    junk = {k: v for k, v in dict(self=1, foo=2, sizes=3.0, chis=4.0, kwargs=5, num_feat=6, Cs=1, phi_means=0.2).items() if g.p(0.25) and k != "self"}
    opts = {**junk, **full} if g.p(0.5) else {**full, **junk}
    o0 = dict(opts)
    i = FloryHugginsInteraction(S, g.arr((S, S), -3, 3)) if g.p(0.5) else FloryHugginsBlockInteraction(S, g.arr((S, S), -3, 3), 2)
    C = np.zeros((1, S))
    C[0, 0] = 1
    cl, cg = LinearLocalConstraint(S, C, 0.0), LinearGlobalConstraint(S, C, 0.0)
    try:
        same(observed_shift(i.compiled(**opts), S), full.get("additional_chis_shift", 1.0), "interaction shift", rtol=1e-7, options=opts)
        r, e = observed_cons(cl.compiled(**opts), S)
        same([r, e / 2], [full.get("constraint_acceptance_ratio", 1.0), full.get("constraint_elasticity", 1.0)], "local constraint options", rtol=1e-7, options=opts)
        r, e = observed_cons(cg.compiled(**opts), S, 2)
        same([r, e / 4], [full.get("constraint_acceptance_ratio", 1.0), full.get("constraint_elasticity", 1.0)], "global constraint options", rtol=1e-7, options=opts)
        for o in (IdealGasEntropy(S), IdealGasPolydispersedEntropy(S, None, 2), CanonicalEnsemble(S), GrandCanonicalEnsemble(S, 0.4), NoConstraint(S)):
            o.compiled(**opts)
        fe = flory.FreeEnergyBase(i, IdealGasEntropy(int(i.num_comp)))
        same(observed_shift(fe.interaction_compiled(**opts), S), full.get("additional_chis_shift", 1.0), "shift through the free energy", rtol=1e-7, options=opts)
        fe.entropy_compiled(**opts)
    except Fail:
        raise
    except Exception as ex:
        raise Fail(f"options {sorted(opts)} raised {type(ex).__name__}: {ex}")
    need(opts == o0, "compiling changed the option dictionary", options=opts)


@case("C18", "filter", weight=1)
def c18_filter(g):
    try:
        from flory.common.utilities import filter_kwargs
    except ImportError:
        raise Skip
    names = ["a", "b", "c", "d", "e"]
    own = [x for x in names if g.p(0.5)]
    src = "lambda " + ", ".join(f"{x}=1" if g.p(0.5) or True else x for x in own) + ": 0"
    if g.p(0.3) and own:
        src = "lambda *, " + ", ".join(f"{x}=1" for x in own) + ": 0"
    fn = eval(src)
    kw = {x: g.choice([0, None, False, 1.5, "s", [1], ()]) for x in names if g.p(0.6)}
    k0 = dict(kw)
    r = filter_kwargs(kw, fn)
    need(r == {k: v for k, v in k0.items() if k in own}, "filtered options", got=r, given=k0, accepted=own)
    need(all(r[k] is k0[k] for k in r), "filtering changed a value")
    need(kw == k0, "filtering changed the given options")


class SpyInteraction(FloryHugginsInteraction):
    def _compiled_impl(self, *, additional_chis_shift=1.0):
        self.seen = dict(additional_chis_shift=additional_chis_shift)
        return super()._compiled_impl(additional_chis_shift=additional_chis_shift)


class SpyCons(LinearLocalConstraint):
    def _compiled_impl(self, constraint_acceptance_ratio=1.0, constraint_elasticity=1.0):
        self.seen = (constraint_acceptance_ratio, constraint_elasticity)
        return super()._compiled_impl(constraint_acceptance_ratio, constraint_elasticity)


@case("C18", "finder-precedence", weight=2)
def c18_finder(g):
    S = n = int(g.rng.integers(1, 4))
    names = ["additional_chis_shift", "constraint_acceptance_ratio", "constraint_elasticity"]
    dflt = {k: g.pos(0.1, 5) for k in names if g.p(0.5)}
    extra = {"unknown": 1} if g.p(0.3) else {}
    mkc = lambda: SpyCons(S, np.eye(S)[:1], 0.1)
    i = SpyInteraction(n, g.arr((n, n)))
    cs = [mkc() for _ in range(int(g.rng.integers(1, 3)))]
    given = {**dflt, **extra}
    f = CoexistingPhasesFinder(i, IdealGasEntropy(n), CanonicalEnsemble(n), cs if g.p(0.6) or len(cs) > 1 else cs[0], num_part=2, progress=False, rng=np.random.default_rng(0), **given)
    get = lambda o, k: o.get(k, 1.0)
    d = dict(defaults=dflt)
    need(i.seen["additional_chis_shift"] == get(dflt, names[0]), "shift at creation", got=i.seen, **d)
    for c in cs:
        need(c.seen == (get(dflt, names[1]), get(dflt, names[2])), "constraint options at creation", got=c.seen, **d)
    for _ in range(3):
        over = {k: g.pos(0.1, 5) for k in names if g.p(0.4)}
        o0 = dict(over)
        if g.p(0.2):
            over["other"] = 3
        d = dict(defaults=dflt, overrides=over)
        what = g.choice(["interaction", "single", "tuple", "individual", "entropy", "ensemble"])
        if what == "interaction":
            f.set_interaction(i, **over)
            need(i.seen["additional_chis_shift"] == get({**dflt, **over}, names[0]), "shift when replacing the interaction", got=i.seen, **d)
        elif what == "entropy":
            f.set_entropy(IdealGasEntropy(n), **over)
        elif what == "ensemble":
            f.set_ensemble(CanonicalEnsemble(n), **over)
        elif what == "single":
            c = mkc()
            ind = {k: g.pos(0.1, 5) for k in names[1:] if g.p(0.4)}
            i0 = dict(ind)
            if g.p(0.5):
                f.set_constraints(c, **over)
                ind = {}
            else:
                f.set_constraints(c, kwargs_individual=ind, **over)
                need(ind == i0, "individual options were changed", **d)
            m = {**dflt, **over, **ind}
            need(c.seen == (get(m, names[1]), get(m, names[2])), "options of a single constraint", got=c.seen, individual=ind, **d)
        else:
            k = int(g.rng.integers(1, 4))
            c = [mkc() for _ in range(k)]
            ind = [{q: g.pos(0.1, 5) for q in names[1:] if g.p(0.4)} for _ in range(k)] if what == "individual" else None
            i0 = copy.deepcopy(ind)
            if ind is None:
                f.set_constraints(tuple(c) if g.p(0.5) else c, **over)
            else:
                f.set_constraints(tuple(c) if g.p(0.5) else c, kwargs_individual=ind if g.p(0.5) else tuple(ind), **over)
                need(ind == i0, "individual options were changed", **d)
            for j in range(k):
                m = {**dflt, **over, **(ind[j] if ind else {})}
                need(c[j].seen == (get(m, names[1]), get(m, names[2])), "options of one of several constraints", number=j, got=c[j].seen, individual=ind, **d)
    need(given == {**dflt, **extra}, "creation options were changed")
    # documented defaults are untouched for later replacements
    f.set_interaction(i)
    need(i.seen["additional_chis_shift"] == get(dflt, names[0]), "default shift after overrides", got=i.seen, defaults=dflt)
    c = mkc()
    f.set_constraints([c])
    need(c.seen == (get(dflt, names[1]), get(dflt, names[2])), "default constraint options after overrides", got=c.seen, defaults=dflt)


@case("C18", "documented-defaults", weight=0.3)
def c18_defaults(g):
    n = int(g.rng.integers(1, 4))
    f = CoexistingPhasesFinder(FloryHugginsInteraction(n, 1.0), IdealGasEntropy(n), CanonicalEnsemble(n), progress=False, rng=np.random.default_rng(3))
    same(f.omegas, np.random.default_rng(3).normal(0, 5.0, (n, 8 * n)), "default amplitude of the random fields", rtol=1e-12, n=n)
    seen = []

    def script(k, d):
        seen.append(d)
        return (1.0, 1.0, 1.0, 0.0, 0, True)
    with Patched(script) as pt:
        f.run()
    if not pt.calls:
        raise Skip
    c = seen[0]
    need(len(seen) == 100 and all(int(s["steps_inner"]) == 10000 for s in seen), "default steps and interval", calls=len(seen))
    for k, v in dict(acceptance_Js=0.0002, acceptance_omega=0.002, Js_step_upper_bound=0.001, kill_threshold=0.0, revive_scaler=1.0).items():
        need(float(c[k]) == v, f"default {k} handed to the solver step", got=float(c[k]))
    for ms, k in ((10000, 1), (10001, 2), (20000, 2)):
        seen.clear()
        with Patched(script):
            f.run(max_steps=ms)
        need(len(seen) == k, "default interval between checks", max_steps=ms, calls=len(seen), expected=k)
    need(int(c["revive_tries"]) == 16 * 8 * n and c["omegas"].shape == (n, 8 * n), "default revive budget and compartments")
    lo, seen2 = g.p(0.5), []

    def script2(k, d):
        seen2.append(d)
        return ((0.99e-5 if lo else 1.01e-5),) * 4 + (0, True)
    with Patched(script2):
        f.run()
    need(len(seen2) == (1 if lo else 100), "default tolerance", residuals=0.99e-5 if lo else 1.01e-5, calls=len(seen2))
