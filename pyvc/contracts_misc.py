"""C09, C11, C13-C18: the finder, its options, phases and the shortcut."""
from vc import *
from interp import Builtin, SClass
from contracts_parts import N, M, F, K, HALF, sym, own
from contracts_solver import IMPL, STEP, Parts, THR, AJ, AO, BND, SCALE

FIND = "flory.mcmp.finder"
METASTEP = f"{IMPL}:{STEP}"
COPY = f"{IMPL}:revive_compartments_by_copy"
PART = SClass("abstract part", [], {}, native=True)
PART.abstract = True

CLIENT = """
from flory.interaction.base import InteractionBase
from flory.entropy.base import EntropyBase
from flory.ensemble.base import EnsembleBase
from flory.constraint.base import ConstraintBase

class I(InteractionBase):
    def __init__(self, num_feat):
        super().__init__(num_feat)
        self.features = num_feat
    def _compiled_impl(self, opt_a=DEFAULT_A, *, opt_b=DEFAULT_B):
        return compile_part(self, opt_a, opt_b, num_feat=self.features)

class S(EntropyBase):
    def __init__(self, num_comp, num_feat):
        super().__init__(num_comp)
        self.numbers = num_comp, num_feat
    def _compiled_impl(self, opt_b=DEFAULT_B):
        return compile_part(self, None, opt_b, num_comp=self.numbers[0], num_feat=self.numbers[1])

class E(EnsembleBase):
    def __init__(self, num_comp):
        super().__init__(num_comp)
        self.number = num_comp
    def _compiled_impl(self, *, opt_a=DEFAULT_A):
        return compile_part(self, opt_a, None, num_comp=self.number)

class C(ConstraintBase):
    def __init__(self, num_feat):
        super().__init__(num_feat)
        self.number = num_feat
    def _compiled_impl(self, opt_a=DEFAULT_A, opt_b=DEFAULT_B):
        return compile_part(self, opt_a, opt_b, num_feat=self.number)
"""
DEF_A, DEF_B = var("default_a"), var("default_b")


class World:
    """user defined models of which only the interface is known: compiling records the options received;
    one per path"""

    def __init__(self, v):
        self.v = v
        self.log = []
        self.compiled = {}  # model -> [(compiled object, option a, option b)]
        self.ns = v.m.client(CLIENT, dict(compile_part=Builtin("compile_part", self.compile), DEFAULT_A=num(DEF_A, "f"), DEFAULT_B=num(DEF_B, "f")))

    def compile(self, m, a, k):
        model, oa, ob = a
        o = SObj(PART, dict(k))
        o.attrs["initialize"] = Builtin("initialize", lambda m, a, k: self.log.append(("initialize", o, list(a) + list(k.values()))))
        o.attrs["potential"] = Builtin("potential", lambda m, a, k: self.potential(m, o, (list(a) + list(k.values()))[0]))
        self.compiled.setdefault(model, []).append((o, oa, ob))
        self.log.append(("compile", o, model))
        return o

    def potential(self, m, o, phis):
        nm = fresh_name("potential")
        terms.arr(nm, (F, M))
        r = new_arr((F, M), lambda ix: rd(nm, ix), "f", nm)
        self.log.append(("potential", o, npmodel.copy_arr(phis), nm))
        return r

    def make(self, cls, *a):
        return self.v.m.call(self.ns[cls], [num(x, "i") for x in a], {})

    def last(self, model):
        return self.compiled[model][-1]


OPTS = dict(random_std=var("std", nonneg=True), acceptance_Js=AJ, acceptance_omega=AO, Js_step_upper_bound=BND, kill_threshold=THR, revive_scaler=SCALE)
MRPC = ivar("max_revive", 0)


def mk_finder(v, cons=None, parts=None, bare=False, **kw):
    """a solver built from abstract models through its constructor"""
    m = v.m
    v.e.w = w = World(v)
    v.e.models = parts(w) if parts else (w.make("I", F), w.make("S", N, F), w.make("E", N))
    v.e.rng = npmodel.SRng("rng")
    opts = dict(rng=v.e.rng) if bare else dict(num_part=num(M, "i"), rng=v.e.rng, max_revive_per_compartment=num(MRPC, "i"), **{k: num(p, "f") for k, p in OPTS.items()})
    opts.update(kw)
    if callable(cons):
        cons = cons(w)
    v.e.cons = cons
    return m.call(v.cls(FIND, "CoexistingPhasesFinder"), list(v.e.models) + ([cons] if cons is not None else []), opts)


# --------------------------------------------------------------------- C09
RES = ("incomp", "omega", "Js", "constraint")


class Ghost:
    """specification state: what the steps did so far, updated by the contract of the metastep"""

    def __init__(self, v):
        self.v = v
        self.o = SObj(PART, dict(steps=0, calls=0, revived=0, safe=False, **{r: 0.0 for r in RES}))
        self.run = 0
        self.given = None
        self.level = "all"  # which obligations the steps carry: all, options or none
        self.parts = M
        self.opts = dict(acceptance_Js=AJ, acceptance_omega=AO, Js_step_upper_bound=BND, kill_threshold=THR, revive_scaler=SCALE)

    def start(self, omegas):
        """the state before the first step: the fields of the solver and unit volumes"""
        self.arrs = dict(omegas=npmodel.copy_arr(omegas), Js=new_arr((self.parts,), lambda ix: ONE, "f"), phis_feat=new_arr((F, self.parts), lambda ix: ZERO, "f"), phis_comp=new_arr((N, self.parts), lambda ix: ZERO, "f"))

    def metastep(self, m, args, kw):
        v, g = self.v, self.o.attrs
        d = dict(zip(("interaction", "entropy", "ensemble", "constraints"), args), **kw)
        need = v.need if self.level == "all" else lambda *a: None
        need_zero = v.need_zero if self.level == "all" else lambda *a: None
        lv = list(m.loop_vars)

        def fresh(nm, sh=(), **k):
            name = f"{nm}.run{self.run}"
            if name not in terms.ARRS:
                terms.arr(name, [hi for _, hi in lv] + [P(s) for s in sh], **k)
            return lambda ix: rd(name, [P(x) for x, _ in lv] + list(ix))
        given = {n: d[n] for n in ("omegas", "Js", "phis_feat", "phis_comp")}
        for n, a in given.items():
            ix = IX[:a.ndim]
            if n in ("omegas", "Js"):
                need_zero(f"every step continues from the state of the previous one ({n})", a.read(ix) - self.arrs[n].read(ix), list(zip(ix, a.shape)))
        self.given = given
        inner = lift(d["steps_inner"])[0]
        need("every check is preceded by at least one step", gt0(inner))
        (v.need if self.level != "none" else need)("at most one interval between checks", ge0(maxv(ONE, self.interval) - inner))
        need_zero("the budget handed over is what is left of it", lift(d["revive_tries"])[0] - (self.budget - lift(g["revived"])[0]))
        for n, p in self.opts.items():
            (v.need_zero if self.level != "none" else need_zero)(f"the configured {n} is used", lift(d[n])[0] - p)
        parts = [d["interaction"], d["entropy"], d["ensemble"]]
        ok = all(x is v.e.w.last(y)[0] for x, y in zip(parts, v.e.models)) and d["rng"] is v.e.rng
        need("the parts of the solver are used", ONE if ok else ZERO)
        for n, a in given.items():
            f = fresh("new_" + n, a.shape)
            for t in (a, self.arrs[n]):
                npmodel.assign_into(m, t, new_arr(a.shape, f, "f"))
        out = []
        for r in RES:
            x = num(fresh("res_" + r, nonneg=True)(()), "f")
            g[r] = x
            out.append(x)
        rv = num(fresh("revived", isint=True, nonneg=True, lo=0)(()), "i")
        safe = num(fresh("safe", isbool=True)(()), "b")
        g["safe"] = safe
        g["revived"] = m.binop("Add", g["revived"], rv)
        g["steps"] = m.binop("Add", g["steps"], d["steps_inner"])
        g["calls"] = m.binop("Add", g["calls"], 1)
        return tuple(out) + (rv, safe)


def havoc_copy(v):
    """the weakest contract of revive_compartments_by_copy: it may change the arrays it is given"""
    def f(m, args, kw):
        d = dict(zip(("Js", "targets", "threshold", "rng"), args), **kw)
        v.e.copied.append((npmodel.copy_arr(d["Js"]), npmodel.copy_arr(d["targets"]), d["Js"], d["targets"], d["threshold"]))
        for n in ("Js", "targets"):
            nm = fresh_name("copied_" + n)
            terms.arr(nm, d[n].shape)
            npmodel.assign_into(m, d[n], new_arr(d[n].shape, lambda ix, nm=nm: rd(nm, ix), "f"))
        return num(ivar(fresh_name("copies"), 0), "i")
    return f


MS, TOL, INT_ = var("max_steps", pos=True), var("tolerance", pos=True), ivar("interval", 1)
DMS, DTOL, DINT = var("default_max_steps", pos=True), var("default_tolerance", pos=True), ivar("default_interval", 1)


def run_task(name, over, progress, twice=False, props="C09", check=None, level="all"):
    def t(v):
        m = v.m

        def thunk():
            v.e.g = g = Ghost(v)
            g.level = level
            v.e.copied = []
            m.stubs = {METASTEP: g.metastep, COPY: havoc_copy(v)}
            f = mk_finder(v, max_steps=num(DMS, "f"), tolerance=num(DTOL, "f"), interval=num(DINT, "i"), progress=progress is True)
            g.start(m.getattr(f, "omegas"))
            g.budget = MRPC * M
            kw = {}
            g.ms, g.tol, g.interval = DMS, DTOL, DINT
            if "m" in over:
                kw["max_steps"], g.ms = num(MS, "f"), MS
            if "t" in over:
                kw["tolerance"], g.tol = num(TOL, "f"), TOL
            if "i" in over:
                kw["interval"], g.interval = num(INT_, "i"), INT_
            if "p" in over:
                kw["progress"] = False
            m.quiet += twice
            r = m.call(m.getattr(f, "run"), [], kw)
            m.quiet -= twice
            if twice:
                # the next run uses the defaults and continues
                g.run = 1
                g.ms, g.tol, g.interval = DMS, DTOL, DINT
                g.o.attrs.update(steps=0, calls=0)
                v.e.copied = []
                r = m.call(m.getattr(f, "run"), [], {})
            return f, r, m.getattr(f, "diagnostics")
        for q in v.okpaths(v.run(thunk)):
            (check or check_run)(v, q)
    task(props, f"run, {name}", seconds=200 if twice else 100)(t)


def check_run(v, q, o=None):
    n = f"[{q.n}]"
    g = q.e.g
    gh = {k: lift(x)[0] for k, x in q.snap[1][g.o].items()}
    f, res, diag = q.val
    if not isinstance(diag, SDict):
        return v.holds(f"diagnostics are reported {n}", False)
    d = q.snap[1][diag]
    top = npmodel._ceil(g.ms)
    v.true(f"at least one step {n}", gt0(gh["steps"]), q.ctx)
    v.true(f"at most the requested number of steps, rounded up {n}", ge0(top - gh["steps"]), q.ctx)
    conv = gh["safe"]
    for r in RES:
        conv = conv * gt0(g.tol - gh[r])
    v.true(f"stops early only if safe and all residuals are below the tolerance {n}", disj(conv, disj(ge0(gh["calls"] - npmodel._ceil(div(g.ms, g.interval))), ge0(gh["steps"] - top))), q.ctx)
    if g.level == "options":
        return
    for k, x in (("steps", gh["steps"]), ("max_abs_incomp", gh["incomp"]), ("max_abs_omega_diff", gh["omega"]), ("max_abs_js_diff", gh["Js"]), ("max_constraint_residue", gh["constraint"]),
                 ("revive_count_left", g.budget - gh["revived"])):
        if k not in d:
            v.holds(f"diagnostics contain {k} {n}", False)
            continue
        v.zero(f"diagnostics report {k} of the last check {n}", lift(d[k])[0] - x, q.ctx)
    check_result(v, q)


def check_result(v, q):
    n = f"[{q.n}]"
    g, res = q.e.g, q.val[1]
    # the state of the solver is not touched by building the result
    for nm in ("Js", "phis_comp", "omegas"):
        a, b = g.given[nm], g.arrs[nm]
        ix = IX[:a.ndim]
        v.zero(f"the state is left as the last step wrote it ({nm}) {n}", q.read(a, ix) - q.read(b, ix), q.ctx, list(zip(ix, a.shape)))
    # the result is built from the last state
    if v.holds(f"dead compartments are filled in once {n}", len(q.e.copied) == 1, str(len(q.e.copied))):
        J0, X0, J, X, thr = q.e.copied[0]
        v.zero(f"compartments at or below the kill threshold are filled in {n}", lift(thr)[0] - g.opts["kill_threshold"], q.ctx)
        v.same(f"the result starts from the last volumes {n}", q, J0, (g.parts,), lambda ix: q.read(g.arrs["Js"], ix))
        v.same(f"the result starts from the last fractions {n}", q, X0, (N, g.parts), lambda ix: q.read(g.arrs["phis_comp"], ix))
        if v.holds(f"phases are returned {n}", isinstance(res, SObj) and res.cls.name == "Phases"):
            v.same(f"volumes of the phases {n}", q, q.attr(res, "volumes"), (g.parts,), lambda ix: q.read(J, ix))
            v.same(f"fractions of the phases {n}", q, q.attr(res, "fractions"), (g.parts, N), lambda ix: q.read(X, [ix[1], ix[0]]))


run_task("repeated after overrides", "mtip", False, True)
run_task("defaults", "", False)
run_task("all overrides", "mtip", True)
run_task("progress bars", "", True)
for o_, nm_ in (("m", "max_steps"), ("t", "tolerance"), ("i", "interval")):
    run_task(f"{nm_} overridden", o_, False)
run_task("result", "", False, props="C11", check=check_result, level="none")
