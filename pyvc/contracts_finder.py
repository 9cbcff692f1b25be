"""C14, C15, C17, C18: parts, state and options of the solver."""
from vc import *
from interp import Builtin, SClass
from contracts_parts import N, M, F, K, HALF, sym, own
from contracts_solver import IMPL, STEP, THR, AJ, AO, BND, SCALE
from contracts_misc import FIND, METASTEP, COPY, PART, World, mk_finder, havoc_copy, OPTS, MRPC, RES, DEF_A, DEF_B

ARGS = ("acceptance_Js", "acceptance_omega", "Js_step_upper_bound", "kill_threshold", "revive_scaler")
ERR = ("ComponentNumberError", "FeatureNumberError")


def keep(it):
    return it if isinstance(it, interp.SymSeq) else list(it)


class Rec:
    """contract of the metastep that keeps what it was given; it may leave any state behind"""

    def __init__(self, v, copy=None):
        self.v = v
        self.calls = []
        v.e.copied = []
        v.m.stubs = {METASTEP: self.metastep, COPY: copy or havoc_copy(v)}
        v.e.rec = self

    def metastep(self, m, args, kw):
        if m.loop_vars:
            raise Unsupported("harness: repeated metasteps")
        d = dict(zip(("interaction", "entropy", "ensemble", "constraints"), args), **kw)
        k = len(self.calls)
        c = dict(d, k=k, budget=lift(d["revive_tries"])[0], steps=lift(d["steps_inner"])[0], cons=keep(m.iterate(d["constraints"])))
        for n in ("omegas", "Js", "phis_feat", "phis_comp"):
            c["in_" + n] = npmodel.copy_arr(d[n])
            nm = f"after{k}.{n}"
            terms.arr(nm, d[n].shape)
            npmodel.assign_into(m, d[n], new_arr(d[n].shape, lambda ix, nm=nm: rd(nm, ix), "f"))
        c["left"] = c["budget"] - ivar(f"revived{k}", 0)
        self.calls.append(c)
        return tuple(num(var(f"{r}{k}", nonneg=True), "f") for r in RES) + (num(ivar(f"revived{k}", 0), "i"), False)

    def run(self, f):
        m = self.v.m
        n = len(self.calls)
        r = m.call(m.getattr(f, "run"), [], dict(max_steps=1, interval=1, progress=False))
        if len(self.calls) != n + 1:
            raise Unsupported("harness: metastep not called once")
        return r


def attempt(v, thunk):
    """-> name of the exception raised or None"""
    try:
        thunk()
    except PyRaise as e:
        return e.cls.name
    return None


def method(v, o, name, *a, **k):
    return lambda: v.m.call(v.m.getattr(o, name), list(a), k)


def continues(v, q, c0, c1, label):
    """the second metastep starts from the state the first one left"""
    for n in ("omegas", "Js"):
        a = c1["in_" + n]
        nm = f"after{c0['k']}.{n}"
        v.same(f"{label}: {n} is kept", q, a, terms.ARRS[nm].shape, lambda ix, nm=nm: rd(nm, ix))
    for x in ARGS:
        v.zero(f"{label}: {x} is kept", lift(c1[x])[0] - lift(c0[x])[0], q.ctx)
    v.fact(f"{label}: the generator is kept", c1["rng"] is c0["rng"], q)


def parts_are(v, q, c, want, label):
    for n, x in want.items():
        v.fact(f"{label}: {n} in use", c[n] is x, q, f"{n} is another object")


def cons_are(v, q, c, want, label):
    """want: compiled constraints, or None for no constraint"""
    if want is None:
        return v.fact(f"{label}: no constraint in use", all(x.cls.name == "NoConstraintCompiled" for x in c["cons"]), q)
    v.fact(f"{label}: every constraint in use once", len(c["cons"]) == len(want) and all(any(x is y for y in c["cons"]) for x in want), q, f"{len(c['cons'])} constraints instead of {len(want)}")


# --------------------------------------------------------------------- C14
FI, NE, FC, FC2, FJ, NJ = (ivar(n, 1) for n in ("interaction_features", "ensemble_components", "constraint_features", "constraint2_features", "new_features", "new_components"))


def allof(*ps):
    r = ONE
    for p in ps:
        r = r * eq0(p)
    return r


CONS = dict(none=None, bare=1, list=2, tuple=2)


def give(v, form, cs):
    return cs[0] if form == "bare" else SList(list(cs)) if form == "list" else tuple(cs)


def c14_new(form):
    def t(v):
        m = v.m

        def thunk():
            rec = Rec(v)
            cs = []

            def cons(w):
                cs.extend(w.make("C", x) for x in (FC, FC2)[:CONS[form]])
                return give(v, form, cs)
            v.e.cs = cs
            f = mk_finder(v, CONS[form] and cons, lambda w: (w.make("I", FI), w.make("S", N, F), w.make("E", NE)))
            rec.run(f)
        for q in v.some(v.run(thunk), 'ok'):
            n = f"[{q.n}]"
            fit = allof(FI - F, NE - N, *[x - F for x in (FC, FC2)[:CONS[form] or 0]])
            if q.kind == "ok":
                v.true(f"accepted parts fit {n}", fit, q.ctx)
                c, w = q.e.rec.calls[0], q.e.w
                parts_are(v, q, c, {k: w.last(x)[0] for k, x in zip(("interaction", "entropy", "ensemble"), q.e.models)}, f"created {n}")
                cons_are(v, q, c, [w.last(x)[0] for x in q.e.cs] or None, f"created {n}")
                for x in q.e.cs:
                    v.fact(f"constraint is initialised for all compartments {n}", any(a == "initialize" and o is w.last(x)[0] and len(r) == 1 and lift(r[0])[0] is M for a, o, r in [y for y in w.log if len(y) == 3]), q)
            elif q.exc in ERR:
                v.true(f"rejected parts do not fit {n}", nt(fit), q.ctx)
            else:
                v.decide_path(f"no other error {n}", q)
    task("C14", f"create with constraints: {form}", seconds=60)(t)


for form_ in CONS:
    c14_new(form_)


def c14_set(what, form=None, before="bare"):
    """replace a part after an arbitrary history"""
    def t(v):
        m = v.m

        def thunk():
            rec = Rec(v)
            old = []

            def cons(w):
                old.extend(w.make("C", F) for _ in range(CONS[before]))
                return give(v, before, old)
            v.e.old = old
            f = mk_finder(v, CONS[before] and cons)
            rec.run(f)
            w = v.e.w
            v.e.mark = len(w.log)
            v.e.kept = {k: w.last(x)[0] for k, x in zip(("interaction", "entropy", "ensemble"), v.e.models)}, [w.last(x)[0] for x in old] or None
            v.e.new = []
            if what == "interaction":
                v.e.new = [w.make("I", FJ)]
                arg = v.e.new[0]
            elif what == "entropy":
                v.e.new = [w.make("S", NJ, FJ)]
                arg = v.e.new[0]
            elif what == "ensemble":
                v.e.new = [w.make("E", NJ)]
                arg = v.e.new[0]
            else:
                v.e.new = [w.make("C", x) for x in (FJ, FC2)[:CONS[form] or 0]]
                arg = give(v, form, v.e.new) if v.e.new else None
            v.e.err = attempt(v, method(v, f, "set_" + what, arg))
            v.e.log = w.log[v.e.mark:]
            rec.run(f)
            v.e.now = [w.compiled.get(x) for x in v.e.new]
        fit = {"interaction": allof(FJ - F), "entropy": allof(FJ - F, NJ - N), "ensemble": allof(NJ - N)}.get(what)
        if fit is None:
            fit = allof(*[x - F for x in (FJ, FC2)[:CONS[form] or 0]])
        for q in v.okpaths(v.run(thunk)):
            n = f"[{q.n}]"
            w = q.e.w
            c0, c1 = q.e.rec.calls
            parts, cons = q.e.kept
            if q.e.err:
                v.fact(f"error names the mismatch {n}", q.e.err in ERR, q, q.e.err)
                v.true(f"only misfitting parts are rejected {n}", nt(fit), q.ctx)
                parts_are(v, q, c1, parts, f"after the error {n}")
                cons_are(v, q, c1, cons, f"after the error {n}")
                v.zero(f"the budget is kept after the error {n}", c1["budget"] - c0["left"], q.ctx)
                v.fact(f"constraints in use are not reset by the error {n}", not any(x[0] == "initialize" and any(x[1] is y for y in cons or ()) for x in q.e.log), q)
            else:
                v.true(f"accepted parts fit {n}", fit, q.ctx)
                new = [x[-1][0] for x in q.e.now]
                if what == "constraints":
                    cons = new or None
                    for x in new:
                        v.fact(f"the new constraints are initialised {n}", sum(y[0] == "initialize" and y[1] is x for y in q.e.log) >= 1, q)
                else:
                    parts = dict(parts, **{what: new[0]})
                    v.fact(f"constraints are not reset by a new {what} {n}", not any(x[0] == "initialize" for x in q.e.log), q)
                parts_are(v, q, c1, parts, f"replaced {n}")
                cons_are(v, q, c1, cons, f"replaced {n}")
                v.zero(f"the budget is reset {n}", c1["budget"] - MRPC * M, q.ctx)
            continues(v, q, c0, c1, f"after the call {n}")
    task("C14" if form != "bare" else "C14 C15", f"replace {what}" + (f" given as {form}" if form else "") + f", before: {before}", seconds=60)(t)


for what_ in ("interaction", "entropy", "ensemble"):
    c14_set(what_)
for form_ in CONS:
    c14_set("constraints", form_, "list" if form_ in ("bare", "none") else "bare")


def started(v, cons=None, ran=True, **kw):
    """a solver after an arbitrary history: one metastep that may have done anything"""
    rec = Rec(v)
    f = mk_finder(v, cons, **kw)
    w = v.e.w
    if ran:
        rec.run(f)
    v.e.mark = len(w.log)
    cs = [] if v.e.cons is None else [v.e.cons] if isinstance(v.e.cons, SObj) else list(v.m.iterate(v.e.cons))
    v.e.kept = {k: w.last(x)[0] for k, x in zip(("interaction", "entropy", "ensemble"), v.e.models)}, [w.last(x)[0] for x in cs] or None
    return f, rec, w


A0, A1, A2 = ivar("rows", 0), ivar("columns", 0), ivar("layers", 0)


def c14_field(kind, shape):
    def t(v):
        def thunk():
            f, rec, w = started(v, lambda w: w.make("C", F))
            a = sym(v, "given", shape)
            v.e.err = attempt(v, method(v, f, "reinitialize_from_" + kind, a))
            v.e.log = w.log[v.e.mark:]
            v.e.fields = npmodel.copy_arr(v.m.getattr(f, "omegas"))
            rec.run(f)
        fit = allof(A0 - F, A1 - M) if len(shape) == 2 else ZERO
        for q in v.okpaths(v.run(thunk)):
            n = f"[{q.n}]"
            c0, c1 = q.e.rec.calls
            parts, cons = q.e.kept
            if q.e.err:
                v.fact(f"a value error is raised {n}", q.e.err == "ValueError", q, q.e.err)
                v.true(f"only fields of a wrong shape are rejected {n}", nt(fit), q.ctx)
                v.zero(f"the budget is kept {n}", c1["budget"] - c0["left"], q.ctx)
                v.fact(f"constraints are not reset {n}", not any(x[0] == "initialize" for x in q.e.log), q)
                v.same(f"the fields reported are kept {n}", q, q.e.fields, (F, M), lambda ix: rd("after0.omegas", ix))
                continues(v, q, c0, c1, f"after the error {n}")
            else:
                v.true(f"accepted fields have the right shape {n}", fit, q.ctx)
            parts_are(v, q, c1, parts, f"after the call {n}")
            cons_are(v, q, c1, cons, f"after the call {n}")
    task("C14", f"reinitialize_from_{kind}, {len(shape)} axes")(t)


CN = ivar("constraints", 1)
IND = {"with individual options": True, "with common options": False}


class Many:
    """any number of constraints, told apart by their number; what is done with them is recorded in ghost arrays"""

    def __init__(self, v):
        m = v.m
        terms.arr("cons_features", (CN,), isint=True, lo=1)
        self.g = g = {n: own(v, new_arr((CN,), lambda ix: ZERO, "f", "ghost_" + n)) for n in ("compiled", "initialised", "for_parts", "option")}
        at = lambda o: lift(o.attrs["k"])[0]

        def put(nm, k, val):
            m.setitem(g[nm], num(k, "i"), num(val, "f"))

        def compiled(m, a, kw):
            k = at(a[0])
            put("compiled", k, g["compiled"].read((k,)) + 1)
            if "elasticity" in kw:
                put("option", k, lift(kw["elasticity"])[0])
            return SObj(self.part, {"k": num(k, "i")})

        def initialize(m, a, kw):
            k = at(a[0])
            put("initialised", k, g["initialised"].read((k,)) + 1)
            put("for_parts", k, lift((list(a[1:]) + list(kw.values()))[0])[0])
        self.model = SClass("constraint", [], {}, native=True)
        self.part = SClass("compiled constraint", [], {}, native=True)
        for c in (self.model, self.part):
            c.indexed = True
        self.model.ns["compiled"] = Builtin("compiled", compiled)
        self.part.ns.update(initialize=Builtin("initialize", initialize), num_feat=interp.PropDesc(Builtin("num_feat", lambda m, a, k: num(rd("cons_features", (at(a[0]),)), "i"))))
        self.seq = interp.SymSeq(CN, lambda i: SObj(self.model, {"k": num(P(i), "i")}))


def c14_many(label, ind):
    """any number of constraints"""
    own_ = lambda k: rd("own_elasticity", (k,))
    common = var("common_elasticity")

    def t(v):
        m = v.m
        terms.arr("own_elasticity", (CN,))

        def thunk():
            f, rec, w = started(v, lambda w: w.make("C", F))
            v.e.many = c = Many(v)
            kw = dict(elasticity=num(common, "f"))
            if ind:
                kw["kwargs_individual"] = interp.SymSeq(CN, lambda i: SDict({"elasticity": num(own_(P(i)), "f")}))
            v.e.err = attempt(v, method(v, f, "set_constraints", c.seq, **kw))
            v.e.exits = [(k,) for _, _, k in m.exit_marks]
            rec.run(f)
        errs = 0
        for q in v.okpaths(v.run(thunk)):
            n = f"[{q.n}]"
            c0, c1 = q.e.rec.calls
            parts, cons = q.e.kept
            parts_are(v, q, c1, parts, f"after the call {n}")
            continues(v, q, c0, c1, f"after the call {n}")
            misfit = sum1(CN, lambda k: nt(eq0(rd("cons_features", (k,)) - F)))
            if q.e.err:
                errs += 1
                v.fact(f"the error names the misfit {n}", q.e.err in ERR, q, q.e.err)
                m.witness = q.e.exits
                v.true(f"only a misfit is rejected {n}", gt0(misfit), q.ctx)
                m.witness = []
                v.zero(f"the budget is kept {n}", c1["budget"] - c0["left"], q.ctx)
                cons_are(v, q, c1, cons, f"after the call {n}")
                continue
            v.zero(f"accepted constraints fit {n}", misfit, q.ctx)
            used(v, q, c1, n, lambda ix: own_(ix[0]) if ind else common)
        v.holds("both cases occur", errs > 0)
    task("C14 C18", f"replace by any number of constraints {label}", seconds=60)(t)


for l_, i_ in IND.items():
    c14_many(l_, i_)


def used(v, q, c, n, option):
    """the metastep uses every one of the constraints"""
    seq = c["cons"]
    many = isinstance(seq, interp.SymSeq)
    v.zero(f"every constraint is in use (number) {n}", (seq.n if many else P(len(seq))) - CN, q.ctx)
    for k, it in [(IX[0], seq.item(IX[0]))] if many else [(P(k), it) for k, it in enumerate(seq)]:
        if not v.fact(f"every constraint is in use {n}", isinstance(it, SObj) and it.cls is q.e.many.part, q):
            return
        v.zero(f"every constraint is in use once {n}", lift(it.attrs["k"])[0] - k, q.ctx, [(IX[0], CN)] if many else [])
    g = q.e.many.g
    v.same(f"every constraint is compiled once {n}", q, g["compiled"], (CN,), lambda ix: ONE)
    v.same(f"every constraint is initialised {n}", q, g["initialised"], (CN,), lambda ix: ONE)
    v.same(f"every constraint is initialised for all compartments {n}", q, g["for_parts"], (CN,), lambda ix: M)
    v.same(f"every constraint receives its options {n}", q, g["option"], (CN,), option)


@task("C14 C18", "create with any number of constraints", seconds=60)
def c14_new_many(v):
    m = v.m
    common = var("common_elasticity")

    def thunk():
        rec = Rec(v)
        v.e.many = c = Many(v)

        def go():
            v.e.f = mk_finder(v, lambda w: c.seq, lambda w: (w.make("I", F), w.make("S", N, F), w.make("E", N)), elasticity=num(common, "f"))
        v.e.err = attempt(v, go)
        v.e.exits = [(k,) for _, _, k in m.exit_marks]
        if not v.e.err:
            rec.run(v.e.f)
    kinds = set()
    for q in v.okpaths(v.run(thunk)):
        n = f"[{q.n}]"
        kinds.add(bool(q.e.err))
        misfit = sum1(CN, lambda k: nt(eq0(rd("cons_features", (k,)) - F)))
        if q.e.err:
            v.fact(f"the error names the misfit {n}", q.e.err in ERR, q, q.e.err)
            m.witness = q.e.exits
            v.true(f"only a misfit is rejected {n}", gt0(misfit), q.ctx)
            m.witness = []
            continue
        v.zero(f"accepted constraints fit {n}", misfit, q.ctx)
        used(v, q, q.e.rec.calls[0], n, lambda ix: common)
    v.holds("both cases occur", len(kinds) == 2)

for kind_ in ("omegas", "phis"):
    for shape_ in ((A0,), (A0, A1), (A0, A1, A2)):
        c14_field(kind_, shape_)


def c14_individual(ngiven, nopt):
    """a wrong number of individual options never drops a constraint"""
    def t(v):
        def thunk():
            f, rec, w = started(v, lambda w: w.make("C", F))
            v.e.new = [w.make("C", F) for _ in range(ngiven)]
            v.e.err = attempt(v, method(v, f, "set_constraints", SList(list(v.e.new)), kwargs_individual=SList([SDict({}) for _ in range(nopt)])))
            rec.run(f)
        for q in v.okpaths(v.run(thunk)):
            n = f"[{q.n}]"
            c0, c1 = q.e.rec.calls
            parts, cons = q.e.kept
            if q.e.err:
                v.fact(f"only a wrong number is rejected {n}", ngiven != nopt, q, q.e.err)
                v.zero(f"the budget is kept {n}", c1["budget"] - c0["left"], q.ctx)
            else:
                cons = [q.e.w.last(x)[0] for x in q.e.new] or None
            parts_are(v, q, c1, parts, f"after the call {n}")
            cons_are(v, q, c1, cons, f"after the call {n}")
            continues(v, q, c0, c1, f"after the call {n}")
    task("C14", f"{ngiven} constraints with {nopt} individual options")(t)


for g_, o_ in ((2, 1), (1, 2), (2, 2), (2, 0)):
    c14_individual(g_, o_)

# ---- the models of the library report the numbers they were created with
LIB = """
from flory import *
from flory.constraint import NoConstraint, LinearLocalConstraint, LinearGlobalConstraint
"""
NA, FA, NC, FD = (ivar(n, 1) for n in ("components_a", "features_a", "components_c", "features_d"))
REAL = dict(
    plain=("FloryHugginsInteraction(fa, chis)", "IdealGasEntropy(n, sizes)", "CanonicalEnsemble(nc, means)", "LinearLocalConstraint(fd, Cs, Ts)"),
    grand=("FloryHugginsInteraction(fa, chis)", "IdealGasEntropy(n, sizes)", "GrandCanonicalEnsemble(nc, means)", "LinearGlobalConstraint(fd, Cs, Ts)"),
    block=("FloryHugginsBlockInteraction(fa, chis, 1)", "IdealGasPolydispersedEntropy(f, sizes, counts)", "CanonicalEnsemble(nc, means)", "NoConstraint(fd)"),
)


def real_ns(v, kind):
    poly = kind == "block"
    f = F if poly else N
    counts = sym(v, "nf", (F,), "i", lo=0, nonneg=True) if poly else None
    n = sum1(F, lambda k: rd("nf", (k,))) if poly else N
    if poly:
        v.m.assume(gt0(n))
    v.e.nf = n, f
    means = sym(v, "means", (NC,), pos=True)
    v.m.assume(eq0(sum1(NC, lambda i: rd("means", (i,))) - 1))
    return dict(n=num(n, "i"), f=num(f, "i"), fa=num(FA, "i"), nc=num(NC, "i"), fd=num(FD, "i"), counts=counts, chis=sym(v, "chi", (FA, FA)), sizes=sym(v, "l", (n,), pos=True),
                means=means, Cs=sym(v, "Cs", (K, FD)), Ts=sym(v, "Ts", (K,)))


def c14_real(kind):
    def t(v):
        m = v.m

        def thunk():
            rec = Rec(v)
            i, e, en, c = REAL[kind]
            ns = real_ns(v, kind)
            v.e.parts = None
            ns = m.client(LIB + f"parts = {i}, {e}, {en}, {c}\n", ns)
            v.e.parts = ns["parts"]
            f = m.call(v.cls(FIND, "CoexistingPhasesFinder"), list(ns["parts"]), dict(num_part=num(M, "i"), rng=npmodel.SRng("rng")))
            rec.run(f)
        for q in v.some(v.run(thunk), 'ok'):
            n = f"[{q.n}]"
            nn, ff = q.e.nf
            fit = allof(FA - ff, NC - nn, FD - ff)
            if q.kind == "ok":
                v.true(f"accepted parts fit {n}", fit, q.ctx)
                c = q.e.rec.calls[0]
                v.same(f"one field per feature and compartment {n}", q, c["in_omegas"], (ff, M), lambda ix: c["in_omegas"].read(ix))
                v.fact(f"one constraint is used {n}", len(c["cons"]) == 1, q)
            elif q.exc in ERR and q.e.parts:
                v.true(f"rejected parts do not fit {n}", nt(fit), q.ctx)
            else:
                v.decide_path(f"no other error {n}", q)
    task("C14", f"create from the models of the library: {kind}")(t)


for kind_ in REAL:
    c14_real(kind_)


# --------------------------------------------------------------------- C15
def mutate(v, a, tag):
    """the caller overwrites its array"""
    terms.arr(tag, a.shape)
    npmodel.assign_into(v.m, a, new_arr(a.shape, lambda ix: rd(tag, ix), a.dtype))


def is_random(v, q, c, label):
    """the fields are the configured amplitude times independent standard normal draws"""
    d = [x for x in q.e.rng_draws if ".normal." in x]
    if v.fact(f"{label}: fields are drawn from the generator", bool(d), q):
        v.same(f"{label}: fields are normal with the configured amplitude", q, c["in_omegas"], (F, M), lambda ix: OPTS["random_std"] * rd(d[-1], ix))


def reset_done(v, q, c, cons, log, label):
    v.same(f"{label}: all volumes are one", q, c["in_Js"], (M,), lambda ix: ONE)
    v.zero(f"{label}: the budget is full", c["budget"] - MRPC * M, q.ctx)
    for x in cons or ():
        ini = [y for y in log if y[0] == "initialize" and y[1] is x]
        if v.fact(f"{label}: multipliers are cleared", len(ini) >= 1 and len(ini[-1][2]) == 1, q):
            v.zero(f"{label}: multipliers are cleared for all compartments", lift(ini[-1][2][0])[0] - M, q.ctx)


def c15_reinit(kind, dtype="f", ran=True, ncons=2):
    def t(v):
        m = v.m

        def thunk():
            f, rec, w = started(v, (lambda w: SList([w.make("C", F) for _ in range(ncons)])) if ncons else None, ran)
            before = list(v.e.rng.draws)
            if kind == "random":
                m.call(m.getattr(f, "reinitialize_random"), [], {})
            elif kind != "created":
                a = sym(v, "given", (F, M), dtype)
                m.call(m.getattr(f, "reinitialize_from_" + kind), [a], {})
                v.e.given_store = npmodel.copy_arr(a), a
                v.e.log = w.log[v.e.mark:]
                mutate(v, a, "overwritten")
            if kind != "created":
                v.e.log = w.log[v.e.mark:]
            else:
                v.e.log = w.log
            v.e.rng_draws = list(v.e.rng.draws)
            v.e.new_draws = [x for x in v.e.rng.draws if x not in before]
            rec.run(f)
        for q in v.okpaths(v.run(thunk)):
            n = f"[{q.n}]"
            c = q.e.rec.calls[-1]
            parts, cons = q.e.kept
            parts_are(v, q, c, parts, f"reinitialised {n}")
            cons_are(v, q, c, cons, f"reinitialised {n}")
            v.fact(f"the generator is kept {n}", c["rng"] is q.e.rng, q)
            reset_done(v, q, c, cons, q.e.log, f"reinitialised {n}")
            if kind in ("random", "created"):
                if kind == "random":
                    v.fact(f"new values are drawn {n}", bool(q.e.new_draws), q)
                is_random(v, q, c, f"reinitialised {n}")
                continue
            v.fact(f"no random fields are drawn {n}", not q.e.new_draws, q)
            cp, a = q.e.given_store
            v.same(f"the array given is not modified by the call {n}", q, cp, (F, M), lambda ix: rd("given", ix))
            v.same(f"the array given is not modified later {n}", q, a, (F, M), lambda ix: rd("overwritten", ix))
            if kind == "omegas":
                v.same(f"the fields given are installed {n}", q, c["in_omegas"], (F, M), lambda ix: rd("given", ix))
            else:
                pot = [x for x in q.e.log if x[0] == "potential"]
                if v.fact(f"the interaction in use gives the fields {n}", len(pot) >= 1 and pot[-1][1] is parts["interaction"], q):
                    v.same(f"potential of the fractions given {n}", q, pot[-1][2], (F, M), lambda ix: rd("given", ix))
                    v.same(f"the potential is installed {n}", q, c["in_omegas"], (F, M), lambda ix: rd(pot[-1][3], ix))
    task("C15", f"reinitialise: {kind}" + (" (integers)" if dtype == "i" else "") + ("" if ran else ", not run before") + f", {ncons} constraints", seconds=60)(t)


c15_reinit("created", ran=False)
c15_reinit("random")
c15_reinit("random", ran=False, ncons=0)
for kind_ in ("omegas", "phis"):
    c15_reinit(kind_)
    c15_reinit(kind_, "i", ncons=0)
    c15_reinit(kind_, ran=False, ncons=1)


def c15_replace(what, reset):
    """replacing a part, then reinitialising from fractions: the new interaction is used; budget"""
    def t(v):
        m = v.m

        def thunk():
            f, rec, w = started(v, lambda w: w.make("C", F))
            new = dict(interaction=lambda: w.make("I", F), entropy=lambda: w.make("S", N, F), ensemble=lambda: w.make("E", N), constraints=lambda: SList([w.make("C", F), w.make("C", F)]))[what]()
            v.e.new = [new] if isinstance(new, SObj) else list(new.items)
            m.call(m.getattr(f, "set_" + what), [new], {} if reset is None else dict(if_reset_revive=reset))
            rec.run(f)
            a = sym(v, "given", (F, M))
            v.e.mark2 = len(w.log)
            m.call(m.getattr(f, "reinitialize_from_phis"), [a], {})
            v.e.log = w.log[v.e.mark2:]
            rec.run(f)
        for q in v.okpaths(v.run(thunk)):
            n = f"[{q.n}]"
            c0, c1, c2 = q.e.rec.calls
            parts, cons = q.e.kept
            new = [q.e.w.last(x)[0] for x in q.e.new]
            if what == "constraints":
                cons = new
            else:
                parts = dict(parts, **{what: new[0]})
            for c, l in ((c1, "replaced"), (c2, "reinitialised")):
                parts_are(v, q, c, parts, f"{l} {n}")
                cons_are(v, q, c, cons, f"{l} {n}")
            v.zero(f"the budget is {'kept' if reset is False else 'reset'} {n}", c1["budget"] - (c0["left"] if reset is False else MRPC * M), q.ctx)
            continues(v, q, c0, c1, f"replaced {n}")
            reset_done(v, q, c2, cons, q.e.log, f"reinitialised {n}")
            pot = [x for x in q.e.log if x[0] == "potential"]
            if v.fact(f"the interaction in use gives the fields {n}", len(pot) >= 1 and pot[-1][1] is parts["interaction"], q):
                v.same(f"the potential is installed {n}", q, c2["in_omegas"], (F, M), lambda ix: rd(pot[-1][3], ix))
    task("C15", f"replace {what}, " + {None: "default", True: "reset", False: "keep the budget"}[reset], seconds=60)(t)


for what_ in ("interaction", "entropy", "ensemble", "constraints"):
    for r_ in (None, False):
        c15_replace(what_, r_)


@task("C15", "results are independent of the solver")
def c15_results(v):
    m = v.m

    def thunk():
        f, rec, w = started(v, ran=False)
        r0 = rec.run(f)
        arrs = [m.getattr(r0, x) for x in ("volumes", "fractions")]
        v.e.kept0 = [npmodel.copy_arr(x) for x in arrs]
        rec.run(f)
        v.e.kept1 = [npmodel.copy_arr(x) for x in arrs]
        for x in arrs:
            mutate(v, x, fresh_name("overwritten"))
        d = m.getattr(f, "diagnostics")
        if isinstance(d, SDict):
            d.d.clear()
        rec.run(f)
    for q in v.okpaths(v.run(thunk)):
        n = f"[{q.n}]"
        c = q.e.rec.calls
        for x, y, l in zip(q.e.kept0, q.e.kept1, ("volumes", "fractions")):
            v.same(f"{l} of earlier results are not changed {n}", q, y, x.shape, lambda ix: x.read(ix))
        continues(v, q, c[0], c[1], f"second run {n}")
        continues(v, q, c[1], c[2], f"run after overwriting results {n}")
        v.zero(f"the budget is kept {n}", c[2]["budget"] - c[1]["left"], q.ctx)


# ---- the models of the library: compiled parts own their data
MODELS = dict(
    interaction=("FloryHugginsInteraction(n, chis)", ["chis"], ["chis"], [("potential", ["X"]), ("volume_derivative", ["V", "X"]), ("incomp_coef", ["X"])]),
    block=("FloryHugginsBlockInteraction(n, chis, 1)", ["chis"], ["chis_feat", "chis"], [("potential", ["X"]), ("volume_derivative", ["V", "X"]), ("incomp_coef", ["X"])]),
    entropy=("IdealGasEntropy(n, sizes)", ["sizes"], ["sizes"], [("partition", ["X", "V", "J"]), ("volume_derivative", ["X"])]),
    poly=("IdealGasPolydispersedEntropy(n, sizes, 1)", ["sizes"], ["sizes"], [("partition", ["X", "V", "J"]), ("comp_to_feat", ["X", "V"]), ("volume_derivative", ["X"])]),
    counts=("IdealGasPolydispersedEntropy(f, sizes, counts)", ["sizes", "counts"], ["sizes"], [("partition", ["X", "V", "J"]), ("comp_to_feat", ["V", "X"]), ("volume_derivative", ["X"])]),
    canonical=("CanonicalEnsemble(n, means)", ["means"], ["phi_means"], [("normalize", ["X", "Q", "J"])]),
    grand=("GrandCanonicalEnsemble(n, means)", ["means"], ["scaled_activity"], [("normalize", ["X", "Q", "J"])]),
    local=("LinearLocalConstraint(n, Cs, Ts)", ["Cs", "Ts"], ["Cs", "Ts"], [("initialize", ["m"]), ("prepare", ["X", "J", "J"]), ("evolve", ["s", "J"])]),
    glob=("LinearGlobalConstraint(n, Cs, Ts)", ["Cs", "Ts"], ["Cs", "Ts"], [("initialize", ["m"]), ("prepare", ["X", "J", "J"]), ("evolve", ["s", "J"])]),
)


def model_args(v, kind=""):
    if kind == "counts":
        nf = sym(v, "nf", (F,), "i", lo=0, nonneg=True)
        n = sum1(F, lambda k: rd("nf", (k,)))
        v.m.assume(gt0(n))
        v.e.n = n, F
        return dict(f=num(F, "i"), counts=nf, sizes=sym(v, "l", (n,), pos=True))
    v.e.n = N, N
    means = sym(v, "means", (N,), pos=True)
    return dict(n=num(N, "i"), chis=sym(v, "chi", (N, N)), sizes=sym(v, "l", (N,), pos=True), means=means, Cs=sym(v, "Cs", (K, N)), Ts=sym(v, "Ts", (K,)))


def use(v, o, calls):
    """results and effects of the calls, for a fixed set of arguments"""
    m = v.m
    out = []
    n, f = v.e.n
    for name, args in calls:
        a = {}
        for x in args:
            if x in a:
                continue
            a[x] = num(M, "i") if x == "m" else num(var("step"), "f") if x == "s" else {"X": lambda: sym_arr("X", (n, M)), "V": lambda: sym_arr("V", (f, M)), "Q": lambda: sym_arr("Q", (N,), pos=True),
                    "J": lambda: new_arr((M,), lambda ix: rd("Jx", ix), "f")}[x]()
        r = m.call(m.getattr(o, name), [a[x] for x in args], {})
        out.append((name, r))
        out += [(f"{name} argument {k}", x) for k, x in a.items() if isinstance(x, SArr)]
        if name == "prepare":
            out += [("potential", m.getattr(o, "potential")), ("volume derivative", m.getattr(o, "volume_derivative"))]
    return [(n, npmodel.copy_arr(r) if isinstance(r, SArr) else r) for n, r in out if r is not None]


def compare(v, q, one, two, label):
    if not v.fact(f"{label}: same results", [n for n, _ in one] == [n for n, _ in two], q):
        return
    for (n, a), (_, b) in zip(one, two):
        if isinstance(a, SArr) and isinstance(b, SArr):
            v.same(f"{label}: {n}", q, a, b.shape, lambda ix: b.read(ix))
        else:
            v.zero(f"{label}: {n}", lift(a)[0] - lift(b)[0], q.ctx)


def c15_own(kind):
    expr, src, props, calls = MODELS[kind]

    def t(v):
        m = v.m
        terms.arr("Jx", (M,), nonneg=True)
        m.assume(gt0(sum1(M, lambda a: rd("Jx", (a,)))))

        def thunk():
            ns = model_args(v, kind)
            mod = m.client(LIB + f"model = {expr}\n", ns)["model"]
            twin = use(v, m.call(m.getattr(mod, "compiled"), [], {}), calls)
            comp = m.call(m.getattr(mod, "compiled"), [], {})
            held = {p: npmodel.copy_arr(m.getattr(mod, p)) for p in props}
            for x in src:
                mutate(v, ns[x], "overwritten_" + x)
            v.e.held = [(p, held[p], npmodel.copy_arr(m.getattr(mod, p))) for p in props]
            # the model is changed in place and through its setters
            for p in props:
                a = m.getattr(mod, p)
                mutate(v, a, f"inplace_{p}")
            v.e.one, v.e.two = use(v, comp, calls), twin
            v.e.after = [(p, m.getattr(mod, p), f"inplace_{p}") for p in props]
        for q in v.okpaths(v.run(thunk)):
            n = f"[{q.n}]"
            for p, a, b in q.e.held:
                v.same(f"{p} does not depend on the arrays the model was created from {n}", q, b, a.shape, lambda ix: a.read(ix))
            compare(v, q, q.e.one, q.e.two, f"the compiled part does not depend on later changes {n}")
            for p, a, nm in q.e.after:
                v.same(f"using the compiled part does not change {p} {n}", q, a, a.shape, lambda ix: rd(nm, ix))
    task("C15", f"compiled part owns its data: {kind}")(t)


for kind_ in MODELS:
    c15_own(kind_)


def c15_cons(kind):
    """initialising a constraint after any use makes it behave like a new one"""
    expr, src, props, calls = MODELS[kind]

    def t(v):
        m = v.m
        terms.arr("Jx", (M,), nonneg=True)
        m.assume(gt0(sum1(M, lambda a: rd("Jx", (a,)))))
        m2 = ivar("other_M", 1)
        terms.arr("Jy", (m2,), nonneg=True)

        def thunk():
            ns = model_args(v)
            mod = m.client(LIB + f"model = {expr}\n", ns)["model"]
            v.e.two = use(v, m.call(m.getattr(mod, "compiled"), [], {}), calls + calls[1:])
            comp = m.call(m.getattr(mod, "compiled"), [], {})
            m.call(m.getattr(comp, "initialize"), [num(m2, "i")], {})
            for i in range(2):
                J = new_arr((m2,), lambda ix: rd("Jy", ix), "f")
                m.call(m.getattr(comp, "prepare"), [sym_arr(f"Y{i}", (N, m2)), J, J], {})
                m.call(m.getattr(comp, "evolve"), [num(var(f"step{i}"), "f"), J], {})
            v.e.one = use(v, comp, calls + calls[1:])
        m.assume(gt0(sum1(m2, lambda a: rd("Jy", (a,)))))
        for q in v.okpaths(v.run(thunk)):
            compare(v, q, q.e.one, q.e.two, f"like a new constraint [{q.n}]")
    task("C15", f"constraint is completely reinitialised: {kind}")(t)


c15_cons("local")
c15_cons("glob")


# --------------------------------------------------------------------- C18
OA, OB = "opt_a", "opt_b"
HAS = dict(I=(OA, OB), S=(OB,), E=(OA,), C=(OA, OB))  # which model understands which option


class Val:
    """a value given for an option: symbolic, or one that is easily mistaken for 'not given'"""

    def __init__(self, tag, x=None):
        self.x = num(var(tag), "f") if x is None else x[0]

    def same(self, v, q, name, got):
        if isnum(self.x) and isnum(got):
            return v.zero(name, lift(got)[0] - lift(self.x)[0], q.ctx)
        v.fact(name, got is self.x or (isinstance(got, (bool, str, type(None))) and got == self.x), q, f"received {got!r}")


KINDS = dict(value=None, zero=(0,), false=(False,), none=(None,), text=("x",))


def check_opts(v, q, rec, cls, given, label):
    """rec: (object, option a, option b); given: the options that apply to this model"""
    for got, o, dflt in ((rec[1], OA, DEF_A), (rec[2], OB, DEF_B)):
        if o not in HAS[cls]:
            continue
        if o in given:
            given[o].same(v, q, f"{label}: {o} has the value given", got)
        else:
            v.zero(f"{label}: {o} has its default", lift(got)[0] - dflt, q.ctx) if isnum(got) else v.fact(f"{label}: {o} has its default", False, q, f"received {got!r}")


def kwargs(d):
    return {k: x.x for k, x in d.items()}


def c18_flow(name, base, over, ind=None, form="list"):
    """base, over: {option: kind}; creation, replacement of every part with overrides, replacement without"""
    def t(v):
        m = v.m

        def thunk():
            rec = Rec(v)
            B = {k: Val("base_" + k, KINDS[x]) for k, x in base.items()}
            O = {k: Val("over_" + k, KINDS[x]) for k, x in over.items()}
            I = [{k: Val(f"individual{i}_" + k, KINDS[x]) for k, x in d.items()} for i, d in enumerate(ind or ())]
            v.e.opts = B, O, I
            f = mk_finder(v, lambda w: SList([w.make("C", F), w.make("C", F)]), **kwargs(B), unknown=7, num_feat=8, model=9)
            w = v.e.w
            v.e.created = [(c, w.last(x)) for c, x in zip("ISE", v.e.models)] + [("C", w.last(x)) for x in v.e.cons.items]
            v.e.replaced, v.e.later = [], []
            for dest, kw in ((v.e.replaced, kwargs(O)), (v.e.later, {})):
                for c, nm, a in (("I", "interaction", (F,)), ("S", "entropy", (N, F)), ("E", "ensemble", (N,))):
                    x = w.make(c, *a)
                    m.call(m.getattr(f, "set_" + nm), [x], dict(kw, **(dict(unknown2=1) if kw else {})))
                    dest.append((c, w.last(x)))
                # constraints
                n = 1 if form == "bare" else max(len(I), 1)
                xs = [w.make("C", F) for _ in range(n)]
                extra = {}
                if dest is v.e.replaced and ind is not None:
                    ds = [SDict(kwargs(d)) for d in I]
                    v.e.dicts = [(x, dict(x.d)) for x in ds]
                    extra["kwargs_individual"] = ds[0] if form == "bare" else SList(ds) if form == "list" else tuple(ds)
                m.call(m.getattr(f, "set_constraints"), [give(v, form, xs)], dict(kw, **extra))
                v.e.cs = [w.last(x) for x in xs]
                (v.e.replaced if dest is v.e.replaced else v.e.later).extend(("C", y) for y in v.e.cs)
                if dest is v.e.replaced:
                    v.e.ncons = len(xs)
            rec.run(f)
        for q in v.okpaths(v.run(thunk)):
            n = f"[{q.n}]"
            B, O, I = q.e.opts
            for c, r in q.e.created:
                check_opts(v, q, r, c, B, f"creation, {c} {n}")
            j = 0
            for c, r in q.e.replaced:
                d = {**B, **O}
                if c == "C" and ind is not None:
                    d.update(I[j])
                    j += 1
                check_opts(v, q, r, c, d, f"replacement, {c} {n}")
            for c, r in q.e.later:
                check_opts(v, q, r, c, B, f"later replacement, {c} {n}")
            for x, d in getattr(q.e, "dicts", ()):
                v.fact(f"dictionaries of options are not changed {n}", q.snap[1][x] == d, q)
            c = q.e.rec.calls[0]
            cons_are(v, q, c, [x[0] for x in q.e.cs], f"run {n}")
    task("C18", f"options: {name}", seconds=60)(t)


V_ = "value"
c18_flow("none given", {}, {})
c18_flow("at creation", {OA: V_, OB: V_}, {})
c18_flow("only one at creation", {OB: V_}, {})
c18_flow("override one", {OA: V_, OB: V_}, {OA: V_})
c18_flow("override both", {OA: V_, OB: V_}, {OA: V_, OB: V_})
c18_flow("only overrides", {}, {OB: V_})
c18_flow("individual", {OA: V_}, {OB: V_}, [{OA: V_}, {OB: V_}])
c18_flow("individual over common", {OA: V_, OB: V_}, {OA: V_, OB: V_}, [{OA: V_}, {}])
c18_flow("individual in a tuple", {OA: V_}, {OB: V_}, [{OA: V_}, {OB: V_}], "tuple")
c18_flow("individual of a single constraint", {OA: V_, OB: V_}, {OA: V_}, [{OB: V_}], "bare")
c18_flow("single constraint", {OA: V_}, {OA: V_}, None, "bare")
for k_ in ("zero", "false", "none", "text"):
    c18_flow(f"{k_} at creation", {OA: k_, OB: k_}, {})
    c18_flow(f"{k_} as override", {OA: V_, OB: V_}, {OA: k_, OB: k_})
    c18_flow(f"{k_} individually", {OA: V_, OB: V_}, {OA: V_, OB: V_}, [{OA: k_}, {OB: k_}])


def c18_free_energy():
    """a free energy forwards options to its two parts"""
    def t(v):
        m = v.m

        def thunk():
            w = v.e.w = World(v)
            i, s = w.make("I", N), w.make("S", N, N)
            fe = m.call(m.load("flory").ns["FreeEnergyBase"], [i, s], {})
            B = v.e.B = {OA: Val("a"), OB: Val("b", KINDS["zero"])}
            m.call(m.getattr(fe, "interaction_compiled"), [], dict(kwargs(B), unknown=1))
            m.call(m.getattr(fe, "entropy_compiled"), [], dict(kwargs(B), unknown=1))
            v.e.got = [("I", w.last(i)), ("S", w.last(s))]
        for q in v.okpaths(v.run(thunk)):
            for c, r in q.e.got:
                check_opts(v, q, r, c, q.e.B, f"{c} [{q.n}]")
    task("C18", "options through a free energy")(t)


c18_free_energy()


def c18_model(kind, names):
    """options of the models of the library: default 1, others are ignored"""
    expr, src, props, calls = MODELS[kind]

    def t(v):
        m = v.m
        terms.arr("Jx", (M,), nonneg=True)
        m.assume(gt0(sum1(M, lambda a: rd("Jx", (a,)))))

        def thunk():
            ns = model_args(v, kind)
            mod = m.client(LIB + f"model = {expr}\n", ns)["model"]
            comp = lambda **k: use(v, m.call(m.getattr(mod, "compiled"), [], k), calls + calls[1:] if names[:1] != ["additional_chis_shift"] else calls)
            ones = {x: 1.0 for x in names}
            v.e.pairs = [("defaults are one", comp(), comp(**ones)), ("unknown options are ignored", comp(unknown=num(var("unk"), "f"), chis=3, num_feat=4), comp())]
            vals = {x: num(var("given_" + x), "f") for x in names}
            if names:
                v.e.pairs.append(("options of other parts are ignored", comp(**vals, unknown=2), comp(**vals)))
            v.e.vals = comp(**vals)
        for q in v.okpaths(v.run(thunk)):
            n = f"[{q.n}]"
            for l, a, b in q.e.pairs:
                compare(v, q, a, b, f"{l} {n}")
            if "additional_chis_shift" in names:
                got = dict(q.e.vals)["incomp_coef"]
                X = lambda i, j: div(rd("chi", (i, j)) + rd("chi", (j, i)), 2)
                tot = sum1(N, lambda i: sum1(N, lambda j: rd("chi", (i, j))))
                low = -maxof(N, lambda i: maxof(N, lambda j: -X(i, j)))
                v.zero(f"the shift has the value given {n}", lift(got)[0] - tot - (var("given_additional_chis_shift") - low) * N * N, q.ctx)
    task("C18", f"options of the model {kind}")(t)


for kind_ in MODELS:
    c18_model(kind_, ["additional_chis_shift"] if kind_ in ("interaction", "block") else ["constraint_acceptance_ratio", "constraint_elasticity"] if kind_ in ("local", "glob") else [])


def c18_defaults(v, steps=None):
    from contracts_misc import Ghost, check_run
    m = v.m

    def thunk():
        v.e.g = g = Ghost(v)
        g.level = "options"
        v.e.copied = []
        m.stubs = {METASTEP: g.metastep, COPY: havoc_copy(v)}
        g.opts = {k: P(Fraction(str(x))) for k, x in dict(acceptance_Js=0.0002, acceptance_omega=0.002, Js_step_upper_bound=0.001, kill_threshold=0, revive_scaler=1).items()}
        g.parts = 8 * N
        f = mk_finder(v, bare=True)
        v.e.first = npmodel.copy_arr(m.getattr(f, "omegas"))
        v.e.draws = list(v.e.rng.draws)
        g.start(m.getattr(f, "omegas"))
        g.budget = 16 * 8 * N
        g.ms, g.tol, g.interval = P(10**6) if steps is None else steps, P(Fraction("0.00001")), P(10**4)
        r = m.call(m.getattr(f, "run"), [], dict(progress=False, **({} if steps is None else dict(max_steps=num(steps, "f")))))
        return f, r, m.getattr(f, "diagnostics")
    for q in v.okpaths(v.run(thunk)):
        v.same(f"fields are normal with amplitude 5 [{q.n}]", q, q.e.first, (F, 8 * N), lambda ix: 5 * rd(q.e.draws[-1], ix))
        check_run(v, q)


task("C18", "documented defaults", seconds=100)(c18_defaults)
task("C18", "documented defaults, any number of steps", seconds=100)(lambda v: c18_defaults(v, var("max_steps", pos=True)))


@task("C05", "one component per feature unless told otherwise")
def c05_default(v):
    m = v.m

    def thunk():
        ns = m.client(LIB + """
i, e = FloryHugginsBlockInteraction(f, chis), IdealGasPolydispersedEntropy(f, sizes)
""", dict(f=num(F, "i"), chis=sym(v, "chi", (F, F)), sizes=sym(v, "l", (F,), pos=True)))
        i, e = ns["i"], ns["e"]
        return [m.getattr(o, a) for o in (i, e) for a in ("num_comp", "num_feat", "chis" if o is i else "sizes")]
    for q in v.okpaths(v.run(thunk)):
        for nm, x in zip(("interaction", "entropy"), (q.val[:3], q.val[3:])):
            v.zero(f"components of the {nm} [{q.n}]", lift(x[0])[0] - F, q.ctx)
            v.zero(f"features of the {nm} [{q.n}]", lift(x[1])[0] - F, q.ctx)
        v.same(f"interaction between components [{q.n}]", q, q.val[2], (F, F), lambda ix: (rd("chi", ix) + rd("chi", ix[::-1])).scale(Fraction(1, 2)))
        v.same(f"sizes of the components [{q.n}]", q, q.val[5], (F,), lambda ix: rd("l", ix))
