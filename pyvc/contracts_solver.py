"""C07, C08, C10, C11: the self consistent iteration."""
from vc import *
from interp import Builtin, SClass
from contracts_parts import N, M, F, K, HALF, sym, own, mk_entropy, mk_interaction, mk_ensemble, mk_constraint, ConSpec

IMPL = "flory.mcmp._finder_impl"
STEP = "multicomponent_self_consistent_metastep"
AJ, AO, BND, THR, SCALE = var("acc_J", pos=True), var("acc_omega", pos=True), var("bound", pos=True), var("thr", nonneg=True), var("scaler", nonneg=True)
STEPS = ivar("steps", 1)


# -------------------------------------------------------------- abstract parts
class Parts:
    """parts of which only the contracts are known: every method returns arbitrary values, which are
    recorded; fractions vanish in dead compartments (contract of normalize, comp_to_feat)"""

    def __init__(self, v, ncons):
        self.v, self.m = v, v.m
        self.log = []
        self.n = 0
        c = SClass("part", [], {}, native=True)

        def make(**meths):
            return SObj(c, {k: Builtin(k, f) for k, f in meths.items()})
        self.interaction = make(potential=self.ret("V", (F, M)), volume_derivative=self.ret("U", (M,)), incomp_coef=self.ret("coef", ()))
        self.entropy = make(partition=self.partition, comp_to_feat=self.comp_to_feat, volume_derivative=self.ret("S", (M,)))
        self.ensemble = make(normalize=self.normalize)
        self.constraints = []
        for i in range(ncons):
            o = make(evolve=self.ret(f"E{i}", (), nonneg=True))
            o.attrs["prepare"] = Builtin("prepare", (lambda i, o: lambda m, a, k: self.prepare(i, o, m, a, k))(i, o))
            self.constraints.append(o)

    def fresh(self, nm, sh, **kw):
        """an arbitrary array per call and loop iteration; -> reader"""
        m = self.m
        lv = list(m.loop_vars)
        name = f"{nm}.{m.where().rsplit(':', 1)[0]}" if lv else nm
        full = [hi for _, hi in lv] + [P(s) for s in sh]
        if name not in terms.ARRS:
            terms.arr(name, full, **kw)
        return lambda ix: rd(name, [P(x) for x, _ in lv] + list(ix))

    def arr(self, nm, sh, f):
        if not sh:
            return num(f(()), "f")
        return own(self.v, new_arr(sh, f, "f", nm))

    def note(self, what, args):
        self.v.e.log.append((what, [npmodel.copy_arr(a) if isinstance(a, SArr) else a for a in args]))

    def ret(self, nm, sh, **kw):
        def f(m, a, k):
            self.note(nm, list(a) + list(k.values()))
            return self.arr(nm, sh, self.fresh(nm, sh, **kw))
        return f

    def partition(self, m, a, k):
        pc, w, J = self.args(("phis_comp", "omegas", "Js"), a, k)
        self.note("partition", [w, J])
        m.require("precondition of partition: positive total volume", gt0(sum1(M, lambda a: J.read((a,)))))
        npmodel.assign_into(m, pc, self.arr("weights", (N, M), self.fresh("weights", (N, M), nonneg=True)))
        return self.arr("Q", (N,), self.fresh("Q", (N,), pos=True))

    def args(self, names, a, k):
        a = list(a)
        for n in names[len(a):]:
            if n in k:
                a.append(k[n])
            else:
                vals = [x for x in k.values()]
                raise Unsupported("keyword names of a part: " + ", ".join(k))
        return a

    def normalize(self, m, a, k):
        pc, Q, ms = self.args(("phis_comp", "Qs", "masks"), a, k)
        self.note("normalize", [Q, ms])
        f = self.fresh("pc", (N, M), nonneg=True)
        npmodel.assign_into(m, pc, self.arr("pc", (N, M), lambda ix: f(ix) * ms.read((ix[1],))))
        g = self.fresh("inc", (M,))
        return self.arr("inc", (M,), lambda ix: g(ix) * ms.read(ix))

    def comp_to_feat(self, m, a, k):
        pf, pc = self.args(("phis_feat", "phis_comp"), a, k)
        # arbitrary positive linear map: a compartment without components has no features
        f = self.fresh("mix", (F, N), nonneg=True)
        src = npmodel.copy_arr(pc)
        self.note("comp_to_feat", [pc])
        npmodel.assign_into(m, pf, self.arr("pf", (F, M), lambda ix: sum1(N, lambda i: f((ix[0], i)) * src.read((i, ix[1])))))
        return None

    def prepare(self, i, o, m, a, k):
        pf, J, ms = self.args(("phis_feat", "Js", "masks"), a, k)
        self.note(f"prepare{i}", [pf, J, ms])
        o.attrs["potential"] = self.arr(f"P{i}", (F, M), self.fresh(f"P{i}", (F, M)))
        o.attrs["volume_derivative"] = self.arr(f"W{i}", (M,), self.fresh(f"W{i}", (M,)))
        return None


KC = ivar("K", 0)


class ManyParts(Parts):
    """any number of constraints

    What each one is given is recorded in ghost arrays with one row per constraint.  Its potentials
    are multiplied by the number of times it was prepared (and vanish after the update), so that they
    are the expected ones only between one preparation and the update."""

    def __init__(self, v):
        super().__init__(v, 0)
        m = self.m
        terms.arr("PK", (KC, F, M))
        terms.arr("WK", (KC, M))
        terms.arr("EK", (KC,), nonneg=True)
        g = self.ghost = {}
        for nm, sh in (("pf", (KC, F, M)), ("J", (KC, M)), ("ms", (KC, M)), ("prepared", (KC,)), ("factor", (KC,)), ("ms2", (KC, M)), ("updated", (KC,))):
            g[nm] = own(v, new_arr(sh, lambda ix: ZERO, "f", "ghost_" + nm))
        cls = SClass("part", [], {}, native=True)
        at = lambda o: o.attrs["k"].p
        usable = lambda k: g["prepared"].read((k,)) * (ONE - g["updated"].read((k,)))

        def put(nm, k, val):
            m.setitem(g[nm], num(k, "i"), val)

        def prepare(m, a, kw):
            o = a[0]
            pf, J, ms = self.args(("phis_feat", "Js", "masks"), a[1:], kw)
            k = at(o)
            put("pf", k, pf), put("J", k, J), put("ms", k, ms)
            put("prepared", k, num(g["prepared"].read((k,)) + 1, "f"))

        def evolve(m, a, kw):
            o = a[0]
            fac, ms = self.args(("step", "masks"), a[1:], kw)
            k = at(o)
            u = usable(k)
            put("factor", k, fac), put("ms2", k, ms)
            put("updated", k, num(g["updated"].read((k,)) + 1, "f"))
            return num(rd("EK", (k,)) * u, "f")

        def potential(m, a, kw):
            k = at(a[0])
            return new_arr((F, M), lambda ix: rd("PK", (k,) + tuple(ix)) * usable(k), "f", "potential")

        def volume(m, a, kw):
            k = at(a[0])
            return new_arr((M,), lambda ix: rd("WK", (k,) + tuple(ix)) * usable(k), "f", "volume_derivative")
        cls.ns.update(prepare=Builtin("prepare", prepare), evolve=Builtin("evolve", evolve),
                      potential=interp.PropDesc(Builtin("potential", potential)), volume_derivative=interp.PropDesc(Builtin("volume_derivative", volume)))
        self.constraints = interp.SymSeq(KC, lambda i: SObj(cls, {"k": num(P(i), "i")}))


class StepSpec:
    """what one step does, in terms of the values returned by the parts

    J1, w1: volumes and fields after a possible revival; readers take index polys"""

    def __init__(self, J1, w1, ncons, rdr):
        self.J1, self.w1 = J1, w1
        r = self.r = rdr  # (name, idx) -> poly: values returned by parts
        A = self.A = lambda a: gt0(J1(a) - THR)
        self.inc = inc = lambda a: r("inc", (a,)) * A(a)
        self.pc = lambda i, a: r("pc", (i, a)) * A(a)
        self.pf = pf = lambda f, a: sum1(N, lambda i: r("mix", (f, i)) * r("pc", (i, a))) * A(a)
        V = lambda f, a: r("V", (f, a))
        cons = range(ncons or 0)
        Pt = lambda f, a: sum((r(f"P{c}", (f, a)) for c in cons), ZERO)
        Wt = lambda a: sum((r(f"W{c}", (a,)) for c in cons), ZERO)
        if ncons is None:
            Pt = lambda f, a: sum1(KC, lambda k: r("PK", (k, f, a)))
            Wt = lambda a: sum1(KC, lambda k: r("WK", (k, a)))
        self.xi = xi = lambda a: div(A(a) * (r("coef", ()) * inc(a) + sum1(F, lambda f: w1(f, a) - V(f, a) - Pt(f, a))), F)
        self.target = tg = lambda f, a: V(f, a) + Pt(f, a) + xi(a)
        self.e = e = lambda a: r("U", (a,)) + r("S", (a,)) + xi(a) * inc(a) + Wt(a) - sum1(F, lambda f: tg(f, a) * pf(f, a))
        self.nv = nv = sum1(M, A)
        self.mean = mean = div(sum1(M, lambda a: e(a) * J1(a) * A(a)), nv)
        self.D = D = lambda a: (mean - e(a)) * A(a)
        self.maxD = maxof(M, lambda a: absv(D(a)))
        self.lam = lam = div(BND, maxv(self.maxD * AJ, BND))
        self.J2 = J2 = lambda a: A(a) * (J1(a) + lam * AJ * D(a))
        tot = div(sum1(M, J2), nv)
        self.Jn = lambda a: A(a) * (J2(a) + 1 - tot)
        self.R = R = lambda f, a: A(a) * (tg(f, a) - w1(f, a))
        self.wn = lambda f, a: A(a) * (w1(f, a) + lam * AO * R(f, a))
        self.maxR = maxof(F, lambda f: maxof(M, lambda a: absv(R(f, a))))
        self.maxI = maxof(M, lambda a: absv(inc(a)))
        self.maxC = maxv(ZERO, *[r(f"E{c}", ()) for c in cons]) if ncons else ZERO
        if ncons is None:
            self.maxC = maxv(ZERO, maxof(KC, lambda k: r("EK", (k,))))


def living(v, J):
    """some compartment lives: J(alive) > threshold"""
    al = ivar("living", 0)
    v.m.assume(gt0(M - al))
    v.m.assume(gt0(J(al) - THR))
    v.m.witness = [(al,)]
    return al


def call_step(v, parts, st, steps, tries, rng):
    f = v.m.load(IMPL).ns[STEP]
    w, J, pc, pf = st
    return v.m.call(f, [parts.interaction, parts.entropy, parts.ensemble, parts.constraints if isinstance(parts.constraints, interp.SymSeq) else tuple(parts.constraints)],
                    dict(omegas=w, Js=J, phis_comp=pc, phis_feat=pf, steps_inner=steps, acceptance_Js=num(AJ, "f"), Js_step_upper_bound=num(BND, "f"),
                         acceptance_omega=num(AO, "f"), kill_threshold=num(THR, "f"), revive_tries=tries, revive_scaler=num(SCALE, "f"), rng=rng))


def state(v, shift=None):
    w = sym(v, "w", (F, M))
    pc = sym(v, "old_pc", (N, M))
    pf = sym(v, "old_pf", (F, M))
    return w, volumes_any(v), pc, pf


def volumes_any(v, name="J"):
    """arbitrary volumes, written as threshold plus excess"""
    terms.arr(name + "x", (M,))
    return own(v, new_arr((M,), lambda ix: THR + rd(name + "x", ix), "f", name))


def check_step(v, q, sp, full=True):
    w, J, pc, pf = q.e.st
    n = f"[{q.n}]"
    val = q.val
    v.same(f"new volumes {n}", q, J, (M,), lambda ix: sp.Jn(ix[0]))
    v.same(f"new fields {n}", q, w, (F, M), lambda ix: sp.wn(*ix))
    v.same(f"fractions of components vanish in dead compartments {n}", q, pc, (N, M), lambda ix: sp.pc(*ix))
    v.same(f"fractions of features vanish in dead compartments {n}", q, pf, (F, M), lambda ix: sp.pf(*ix))
    v.zero(f"living volumes average to one {n}", sum1(M, lambda a: q.read(J, [a]) * sp.A(a)) - sp.nv, q.ctx)
    v.zero(f"dead compartments have no volume {n}", q.read(J, [IX[0]]) * (ONE - sp.A(IX[0])), q.ctx, [(IX[0], M)])
    v.zero(f"dead compartments have no field {n}", q.read(w, [IX[0], IX[1]]) * (ONE - sp.A(IX[1])), q.ctx, [(IX[0], F), (IX[1], M)])
    after = sum1(M, lambda a: gt0(q.read(J, [a]) - THR))
    ok = lift(val[5])
    v.zero(f"safe flag is set exactly when as many compartments live as in the last step {n}", (ok[0] if ok[1] == "b" else ONE - eq0(ok[0])) - eq0(sp.nv - after), q.ctx)


def residuals(v, q, sp):
    n = f"[{q.n}]"
    val = q.val
    for i, (nm, s) in enumerate((("incompressibility", sp.maxI), ("field", sp.maxR), ("volume", sp.maxD), ("constraint", sp.maxC))):
        v.zero(f"reported {nm} residual is the largest deviation {n}", lift(val[i])[0] - s, q.ctx)


REV = f"{IMPL}:revive_compartments_by_random"


def revive_spec(q_w, q_J):
    """centre and half width of the interval, per feature"""
    hi = lambda f: maxof(M, lambda a: q_w(f, a))
    lo = lambda f: -maxof(M, lambda a: -q_w(f, a))
    return (lambda f: (hi(f) + lo(f)).scale(HALF)), (lambda f: (hi(f) - lo(f)).scale(HALF))


def draws_in(p, tag):
    return sorted({a for a in all_atoms(p) if a.kind == "rd" and str(a.args[0]).startswith(tag + ".")}, key=lambda a: str(a.args))


def check_revived(v, q, old_w, old_J, new_w, new_J, rngtag, n):
    """new_w, new_J: arrays after random revival; old readers"""
    A = lambda a: gt0(old_J(a) - THR)
    v.same(f"revived volumes are one, others unchanged {n}", q, new_J, (M,), lambda ix: ite(A(ix[0]), old_J(ix[0]), ONE))
    f, a = IX[0], IX[1]
    r = q.read(new_w, [f, a])
    ds = draws_in(r, rngtag)
    c, h = revive_spec(old_w, old_J)
    bnd = [(f, F), (a, M)]
    v.zero(f"fields of living compartments are unchanged {n}", (r - old_w(f, a)) * A(a), q.ctx, bnd)
    if not ds:
        v.zero(f"fields are drawn unless no compartment is dead {n}", ONE - A(a), q.ctx, bnd)
        return
    if len(ds) != 1:
        v.holds(f"fields of revived compartments contain one draw each {n}", False, f"{len(ds)} draws: " + ", ".join(show(P(x), 60) for x in ds[:4]))
        return
    u = P(ds[0])
    ix = ds[0].args[1]
    v.holds(f"draws differ between features and compartments {n}", any(x is f for x in ix) and any(x is a for x in ix), show(u, 80))
    v.zero(f"fields of revived compartments are uniform in the interval {n}", (r - (c(f) + h(f) * SCALE * (u.scale(2) - 1))) * (ONE - A(a)), q.ctx, bnd)


def t_revive(v):
    m = v.m
    fn = m.load(IMPL).ns.get("revive_compartments_by_random")
    if fn is None:
        raise Missing("revive_compartments_by_random")

    def thunk():
        w, J = sym(v, "w", (F, M)), sym(v, "J", (M,))
        rng = npmodel.SRng("rng")
        v.e.x = w, J, rng
        return m.call(fn, [J, w, num(THR, "f"), rng, num(SCALE, "f")], {})
    for q in v.okpaths(v.run(thunk)):
        w, J, rng = q.e.x
        check_revived(v, q, lambda f, a: rd("w", (f, a)), lambda a: rd("J", (a,)), w, J, rng.tag, f"[{q.n}]")
        v.zero(f"number of revived compartments [{q.n}]", lift(q.val)[0] - sum1(M, lambda a: ONE - gt0(rd("J", (a,)) - THR)), q.ctx)


task("C10 C07", "revive_compartments_by_random", internal=REV)(t_revive)


@stub(REV)
def stub_revive(m, args, kw):
    names = ("Js", "targets", "threshold", "rng", "scaler")
    d = dict(zip(names, args))
    d.update(kw)
    J, w, thr, rng, sc = (d[n] for n in names)
    t, s = lift(thr)[0], lift(sc)[0]
    J0, w0 = npmodel.copy_arr(J), npmodel.copy_arr(w)
    u = rng.draw(m, "uniform", w.shape, nonneg=True)
    nf, np_ = w.shape
    hi = lambda f: maxof(np_, lambda a: w0.read((f, a)))
    lo = lambda f: -maxof(np_, lambda a: -w0.read((f, a)))
    npmodel.assign_into(m, J, new_arr(J.shape, lambda ix: ite(gt0(J0.read(ix) - t), J0.read(ix), ONE), "f"))
    npmodel.assign_into(m, w, new_arr(w.shape, lambda ix: ite(gt0(J0.read((ix[1],)) - t), w0.read(ix), ((hi(ix[0]) + lo(ix[0])) + (hi(ix[0]) - lo(ix[0])) * s * (u(ix).scale(2) - 1)).scale(HALF)), "f"))
    return num(sum1(np_, lambda a: ONE - gt0(J0.read((a,)) - t)), "i")


def seen(q, what):
    """arguments a part was called with (the last time)"""
    for w, args in reversed(q.e.log):
        if w == what:
            return args
    raise Missing(f"call of {what}")


def parts_see(v, q, sp, ncons):
    """every part is called with the current state"""
    n = f"[{q.n}]"
    w, J = seen(q, "partition")
    v.same(f"partition receives the fields {n}", q, w, (F, M), lambda ix: sp.w1(*ix))
    v.same(f"partition receives the volumes, zero in dead compartments {n}", q, J, (M,), lambda ix: sp.J1(ix[0]) * sp.A(ix[0]))
    Q, ms = seen(q, "normalize")
    v.same(f"normalize receives the partition sums {n}", q, Q, (N,), lambda ix: sp.r("Q", ix))
    v.same(f"normalize receives the living compartments {n}", q, ms, (M,), lambda ix: sp.A(ix[0]))
    for nm in ("V", "coef"):
        pf, = seen(q, nm)
        v.same(f"interaction ({nm}) receives the fractions {n}", q, pf, (F, M), lambda ix: sp.pf(*ix))
    V, pf = seen(q, "U")
    v.same(f"interaction energy receives the potential {n}", q, V, (F, M), lambda ix: sp.r("V", ix))
    v.same(f"interaction energy receives the fractions {n}", q, pf, (F, M), lambda ix: sp.pf(*ix))
    pc, = seen(q, "S")
    v.same(f"entropy receives the fractions {n}", q, pc, (N, M), lambda ix: sp.pc(*ix))
    for c in range(ncons or 0):
        pf, J, ms = seen(q, f"prepare{c}")
        v.same(f"constraint {c} receives the fractions {n}", q, pf, (F, M), lambda ix: sp.pf(*ix))
        v.same(f"constraint {c} receives the volumes {n}", q, J, (M,), lambda ix: sp.J1(ix[0]) * sp.A(ix[0]))
        v.same(f"constraint {c} receives the living compartments {n}", q, ms, (M,), lambda ix: sp.A(ix[0]))
        lam, ms = seen(q, f"E{c}")
        v.zero(f"the multipliers of constraint {c} are scaled by the common factor {n}", lift(lam)[0] - sp.lam * AO, q.ctx)
        v.same(f"the update of constraint {c} receives the living compartments {n}", q, ms, (M,), lambda ix: sp.A(ix[0]))
        calls = [w for w, _ in q.e.log if w in (f"prepare{c}", f"E{c}")]
        v.holds(f"constraint {c} is evaluated and updated once {n}", calls == [f"prepare{c}", f"E{c}"], str(calls))


def many_see(v, q, sp):
    g = q.e.ghost
    n = f"[{q.n}]"
    v.same(f"every constraint is prepared once {n}", q, g["prepared"], (KC,), lambda ix: ONE)
    v.same(f"every constraint is updated once {n}", q, g["updated"], (KC,), lambda ix: ONE)
    v.same(f"every constraint receives the fractions {n}", q, g["pf"], (KC, F, M), lambda ix: sp.pf(ix[1], ix[2]))
    v.same(f"every constraint receives the volumes {n}", q, g["J"], (KC, M), lambda ix: sp.J1(ix[1]) * sp.A(ix[1]))
    v.same(f"every constraint receives the living compartments {n}", q, g["ms"], (KC, M), lambda ix: sp.A(ix[1]))
    v.same(f"the multipliers of every constraint are scaled by the common factor {n}", q, g["factor"], (KC,), lambda ix: sp.lam * AO)
    v.same(f"the update of every constraint receives the living compartments {n}", q, g["ms2"], (KC, M), lambda ix: sp.A(ix[1]))


rdJ = lambda a: THR + rd("Jx", (P(a),))
rdw = lambda f, a: rd("w", (P(f), P(a)))
plain = lambda nm, ix: rd(nm, [P(i) for i in ix])


def no_revival(v):
    """without a budget, revival must not change anything"""
    m = v.m
    if REV not in m.stubs:
        return

    def st_(m, args, kw):
        d = dict(zip(("Js", "targets", "threshold", "rng", "scaler"), args), **kw)
        J = d["Js"]
        thr = lift(d["threshold"])[0]
        if not m.infer:
            v.zero("nothing is revived without budget", sum1(M, lambda a: ONE - gt0(J.read((a,)) - thr)), m.ctx)
        return num(ZERO, "i")
    m.stubs = dict(m.stubs)
    m.stubs[REV] = st_


def step_task(ncons):
    def t(v):
        m = v.m
        no_revival(v)

        def thunk():
            v.e.log = []
            parts = Parts(v, ncons) if ncons is not None else ManyParts(v)
            v.e.ghost = getattr(parts, "ghost", None)
            v.e.st = st = state(v)
            living(v, rdJ)
            return call_step(v, parts, st, 1, 0, npmodel.SRng("rng"))
        for q in v.okpaths(v.run(thunk)):
            sp = StepSpec(rdJ, rdw, ncons, plain)
            check_step(v, q, sp)
            residuals(v, q, sp)
            parts_see(v, q, sp, ncons)
            if ncons is None:
                many_see(v, q, sp)
            v.zero(f"nothing is revived without budget [{q.n}]", lift(q.val[4])[0], q.ctx)
    task("C07 C08 C10", f"one step, {'any number of' if ncons is None else ncons} constraints", seconds=120 if ncons is not None else 200)(t)


for nc in (0, 1, 2, None):
    step_task(nc)


def steps_task(ncons):
    """any number of steps: the last one, from the arbitrary state the others left behind"""
    def t(v):
        m = v.m
        no_revival(v)
        al = "living_at"
        terms.arr("H_Jx", (STEPS, M))
        terms.arr(al, (STEPS,), isint=True, nonneg=True, lo=0)

        def thunk():
            v.e.log = []
            parts = Parts(v, ncons) if ncons is not None else ManyParts(v)
            v.e.ghost = g = getattr(parts, "ghost", None)
            v.e.st = st = state(v)
            Js, ws = st[1].store, st[0].store

            def hook(loop):
                if loop.n is not STEPS:
                    return ()
                # invariant: some compartment lives; it holds initially by assumption and is preserved by
                # the obligation "living volumes average to one" and the lemma on the mean
                loop.arbitrary = True
                Js.body = THR + rd("H_Jx", (loop.pk, IX[0]))  # the arbitrary volumes
                if g:
                    # nothing prepared in an earlier step counts
                    g["prepared"].store.body = g["updated"].store.body = ZERO
                a = rd(al, (loop.pk,))
                m.witness = [(a,)]
                v.e.start = loop.k, Js.body, ws.body
                return [gt0(M - a), gt0(subst(Js.body, {IDX(0): a}) - THR)]
            m.loop_hook = hook
            try:
                return call_step(v, parts, st, num(STEPS, "i"), 0, npmodel.SRng("rng"))
            finally:
                m.loop_hook = None
        outs = v.run(thunk)
        for q in v.okpaths(outs):
            if not hasattr(q.e, "start"):
                raise Missing("loop over the steps")
            k, Jb, wb = q.e.start
            last = lambda b, ix: subst(b, {**{IDX(d): P(x) for d, x in enumerate(ix)}, k: STEPS - 1})
            names = {}
            for nm in terms.ARRS:
                if "." in nm and nm.split(".", 1)[1].startswith("flory"):
                    names[nm.split(".", 1)[0]] = nm
            sp = StepSpec(lambda a: last(Jb, [a]), lambda f, a: last(wb, [f, a]), ncons, lambda nm, ix: rd(names[nm], [STEPS - 1] + [P(i) for i in ix]) if nm in names else plain(nm, ix))
            check_step(v, q, sp)
            residuals(v, q, sp)
            if ncons is None:
                many_see(v, q, sp)
            v.zero(f"nothing is revived without budget [{q.n}]", lift(q.val[4])[0], q.ctx)
    task("C07 C08", f"any number of steps, {'any number of' if ncons is None else ncons} constraints", seconds=120)(t)


for nc in (0, 1, None):
    steps_task(nc)


def t_mean(v):
    """if no compartment were above the threshold, the living volumes could not average to one"""
    A = terms.arr("A", (M,), isbool=True)
    terms.arr("gap", (M,), nonneg=True)
    T = var("thr1", nonneg=True)
    v.m.assume(gt0(ONE - T))
    al = ivar("living", 0)
    v.m.assume(gt0(M - al))
    v.m.assume(rd("A", (al,)))
    v.m.witness = [(al,)]
    # volumes at most the threshold: J = T - gap
    d = sum1(M, lambda a: rd("A", (a,)) * (ONE - T + rd("gap", (a,))))
    v.true("mean one requires a volume above the threshold", gt0(d), v.m.ctx)


task("C07", "lemma: a living compartment remains")(t_mean)


def t_factor(v):
    """the common factor lies in (0, 1] and limits the largest volume change"""
    x = var("largest", nonneg=True)
    lam = div(BND, maxv(x * AJ, BND))
    c = v.m.ctx
    v.true("factor is positive", gt0(lam), c)
    v.true("factor is at most one", ge0(ONE - lam), c)
    v.true("largest change is at most the bound", ge0(BND - lam * AJ * x), c)
    v.zero("factor is one if the change is small", (ONE - lam) * ge0(BND - x * AJ), c)


task("C07", "lemma: common factor")(t_factor)


class Stop(Exception):
    """ends the execution where the contract has seen enough"""


def t_revive_step(v):
    """one step with a budget: what the parts see after revival"""
    m = v.m

    def thunk():
        v.e.log = []
        parts = Parts(v, 0)
        parts.entropy.attrs["partition"] = Builtin("partition", lambda m, a, k: (_ for _ in ()).throw(interp.ReturnS(tuple(npmodel.copy_arr(x) for x in parts.args(("phis_comp", "omegas", "Js"), a, k)[1:]))))
        v.e.st = st = state(v)
        v.m.assume(gt0(ONE - THR))
        v.e.rng = rng = npmodel.SRng("rng")
        m.witness = [(IX[0],), (IX[1],)]
        return call_step(v, parts, st, 1, num(ivar("tries", 1), "i"), rng)
    for q in v.okpaths(v.run(thunk)):
        n = f"[{q.n}]"
        w1, J1 = q.val
        check_revived(v, q, rdw, rdJ, w1, J1, q.e.rng.tag, n)


task("C10", "revival at the beginning of a step", seconds=120)(t_revive_step)


def t_revived_step(v):
    """one step with a budget, whatever the revival does to the dead compartments"""
    m = v.m
    if REV not in m.stubs:
        raise Missing("contract of revive_compartments_by_random")
    cnt = ivar("revived", 0)
    terms.arr("Jrx", (M,))
    Jr = lambda a: THR + rd("Jrx", (P(a),))
    terms.arr("wr", (F, M))

    def st_(m, args, kw):
        d = dict(zip(("Js", "targets", "threshold", "rng", "scaler"), args), **kw)
        v.e.called += 1
        v.zero("revival uses the kill threshold", lift(d["threshold"])[0] - THR, m.ctx)
        v.zero("revival uses the configured width", lift(d["scaler"])[0] - SCALE, m.ctx)
        npmodel.assign_into(m, d["Js"], new_arr((M,), lambda ix: Jr(ix[0]), "f"))
        npmodel.assign_into(m, d["targets"], new_arr((F, M), lambda ix: rd("wr", ix), "f"))
        return num(cnt, "i")
    old = m.stubs[REV]
    m.stubs = dict(m.stubs)
    m.stubs[REV] = lambda mm, a, k: (old.__name__ and None, st_(mm, a, k))[1]

    def thunk():
        v.e.log = []
        v.e.called = 0
        parts = ManyParts(v)
        v.e.ghost = parts.ghost
        v.e.st = st = state(v)
        v.m.assume(gt0(ONE - THR))
        al = ivar("living", 0)
        m.assume(gt0(M - al))
        m.assume(gt0(Jr(al) - THR))
        m.witness = [(al,)]
        m.assume(gt0(rdJ(al) - THR))
        return call_step(v, parts, st, 1, num(ivar("tries", 1), "i"), npmodel.SRng("rng"))
    for q in v.okpaths(v.run(thunk)):
        n = f"[{q.n}]"
        dead = sum1(M, lambda a: ONE - gt0(rdJ(a) - THR))
        if q.e.called:
            sp = StepSpec(Jr, lambda f, a: rd("wr", (P(f), P(a))), None, plain)
            v.zero(f"the number of revivals is reported {n}", lift(q.val[4])[0] - cnt, q.ctx)
        else:
            sp = StepSpec(rdJ, rdw, None, plain)
            v.zero(f"no revival is reported {n}", lift(q.val[4])[0], q.ctx)
            v.zero(f"revival is omitted only if no compartment is dead {n}", dead, q.ctx)
        check_step(v, q, sp)
        many_see(v, q, sp)


task("C10 C07", "step after any revival", seconds=120)(t_revived_step)


def t_budget(v):
    """any number of steps with a budget: in every step revival is used exactly if the revivals of the steps before
    leave a part of the budget and some compartment is dead (ghost: the number of revivals so far)"""
    m = v.m
    if REV not in m.stubs:
        raise Missing("contract of revive_compartments_by_random")
    tries = ivar("tries", 0)
    terms.arr("H_Jx", (STEPS, M))
    terms.arr("Jrx", (STEPS, M))
    terms.arr("wr", (STEPS, F, M))
    terms.arr("revived_in", (STEPS,), isint=True, nonneg=True, lo=0)
    terms.arr("living_at", (STEPS,), isint=True, nonneg=True, lo=0)

    def st_(m, args, kw):
        d = dict(zip(("Js", "targets", "threshold", "rng", "scaler"), args), **kw)
        k, g = v.e.k, v.e.ghost.store
        if not m.infer:
            v.true("revival happens only while the budget lasts", gt0(tries - g.body), m.ctx)
            v.fact("revival is used at most once in a step", not v.e.called, "revived twice")
        v.e.called += 1
        npmodel.assign_into(m, d["Js"], new_arr((M,), lambda ix: THR + rd("Jrx", [k] + list(ix)), "f"))
        npmodel.assign_into(m, d["targets"], new_arr((F, M), lambda ix: rd("wr", [k] + list(ix)), "f"))
        g.body = g.body + rd("revived_in", (k,))
        return num(rd("revived_in", (k,)), "i")
    m.stubs = dict(m.stubs)
    m.stubs[REV] = st_

    def thunk():
        v.e.log = []
        v.e.called = 0
        v.e.k = None
        parts = Parts(v, 0)
        v.e.st = st = state(v)
        v.e.ghost = g = own(v, new_arr((), lambda ix: ZERO, "i", "ghost_revived"))
        Js = st[1].store
        inner = parts.partition

        def partition(m, a, k):
            if v.e.k is not None and not m.infer and not v.e.called:
                J = lambda a: THR + rd("H_Jx", (v.e.k, a))
                dead = sum1(M, lambda a: ONE - gt0(J(a) - THR))
                v.zero("revival is omitted only without budget or dead compartments", dead * gt0(tries - g.store.body), m.ctx)
            return inner(m, a, k)
        parts.entropy.attrs["partition"] = Builtin("partition", partition)

        def hook(loop):
            if loop.n is not STEPS:
                return ()
            loop.arbitrary = True
            v.e.k, v.e.called = loop.pk, 0
            Js.body = THR + rd("H_Jx", (loop.pk, IX[0]))
            a = rd("living_at", (loop.pk,))
            m.witness = [(a,)]
            return [gt0(M - a), gt0(rd("H_Jx", (loop.pk, a))), gt0(rd("Jrx", (loop.pk, a)))]
        m.loop_hook = hook
        try:
            return call_step(v, parts, st, num(STEPS, "i"), num(tries, "i"), npmodel.SRng("rng"))
        finally:
            m.loop_hook = None
    for q in v.okpaths(v.run(thunk)):
        if q.e.k is None:
            raise Missing("loop over the steps")
        v.zero(f"the number of revivals in all steps is reported [{q.n}]", lift(q.val[4])[0] - q.e.ghost.store.body, q.ctx)


task("C10", "budget over any number of steps", seconds=120)(t_budget)


# ------------------------------------------------------------- lemmas for C08
def lemma_coexistence(kind):
    """mu_i(a) = const_i + field residual - volume residual + mean energy, for the fractions of the solver

    so that vanishing residuals give equal chemical potentials (and hence equal pressures) in all living
    compartments; the fractions are those of partition and normalize (s_i: mean/Q or activity).
    Components of the polydisperse model are named by (feature, position in the feature)."""
    def t(v):
        m = v.m
        terms.arr("w", (F, M))
        terms.arr("X", (F, F))
        if kind == "ideal":
            terms.arr("l", (F,), pos=True)
            terms.arr("s", (F,), pos=True)
            ix = lambda f, p: (P(f),)
            cnt = lambda f: ONE
            total = lambda g: sum1(F, lambda f: g(f, ZERO))
        else:
            terms.arr("nf", (F,), isint=True, nonneg=True, lo=0)
            big = ivar("largest", 1)
            terms.arr("l", (F, big), pos=True)
            terms.arr("s", (F, big), pos=True)
            ix = lambda f, p: (P(f), P(p))
            cnt = lambda f: rd("nf", (P(f),))
            total = lambda g: sum1(F, lambda f: sum1(cnt(f), lambda p: g(f, p)))
        C = lambda i, j: (rd("X", (P(i), P(j))) + rd("X", (P(j), P(i)))).scale(HALF)
        l = lambda f, p: rd("l", ix(f, p))
        a, f0, p0 = ivar("a", 0), ivar("f", 0), ivar("p", 0) if kind == "poly" else ZERO
        phi = lambda f, p: rd("s", ix(f, p)) * exp(-(l(f, p) * rd("w", (P(f), a))))
        pf = (lambda f: phi(f, ZERO)) if kind == "ideal" else (lambda f: sum1(cnt(f), lambda p: phi(f, p)))
        V = lambda f: sum1(F, lambda g: C(f, g) * pf(g))
        inc = total(phi) - 1
        x = var("xi")  # the same for every feature, whatever it is
        R = lambda f: V(f) + x - rd("w", (P(f), a))
        U = sum1(F, lambda f: V(f) * pf(f)).scale(HALF)
        S = -total(lambda f, p: div(phi(f, p), l(f, p)))
        e = U + S + x * inc - sum1(F, lambda f: (V(f) + x) * pf(f))
        fe = total(lambda f, p: div(phi(f, p) * log(phi(f, p)), l(f, p))) + total(lambda f, p: total(lambda g, r: C(f, g) * phi(f, p) * phi(g, r))).scale(HALF)
        g = lambda f, p: div(log(phi(f, p)) + 1, l(f, p)) + total(lambda h, r: C(f, h) * phi(h, r))
        mu = fe + g(f0, p0) - total(lambda f, p: phi(f, p) * g(f, p))
        c = m.ctx.extend(gt0(M - a), gt0(F - f0), *([gt0(cnt(f0) - p0)] if kind == "poly" else []))
        v.zero("chemical potential is a constant plus residuals plus the common mean energy", mu - div(log(rd("s", ix(f0, p0))) + 1, l(f0, p0)) - R(f0) - e, c)
    task("C08", f"lemma: vanishing residuals are coexistence ({kind})")(t)


lemma_coexistence("ideal")
lemma_coexistence("poly")


def t_fixed(v):
    """identities showing that a state without residuals is a fixed point"""
    terms.arr("J", (M,))
    terms.arr("D", (M,))
    terms.arr("A", (M,), isbool=True)
    A = lambda a: rd("A", (P(a),))
    lam = var("lam")
    nv = sum1(M, A)
    al = ivar("living", 0)
    v.m.assume(gt0(M - al))
    v.m.assume(A(al))
    v.m.witness = [(al,)]
    J2 = lambda a: A(a) * (rd("J", (a,)) + lam * AJ * rd("D", (a,)) * A(a))
    tot = div(sum1(M, J2), nv)
    a = IX[0]
    Jn = A(a) * (J2(a) + 1 - tot)
    mean = div(sum1(M, lambda b: A(b) * rd("J", (b,))), nv)
    meanD = div(sum1(M, lambda b: A(b) * rd("D", (b,))), nv)
    v.zero("volumes change by the driving force and the deviation of their mean from one only",
           Jn - A(a) * (rd("J", (a,)) + lam * AJ * (rd("D", (a,)) - meanD) + 1 - mean), v.m.ctx, [(a, M)])


task("C08", "lemma: fixed points")(t_fixed)


def concrete_step(kind, ens, con):
    """the step with real parts (their methods are executed or replaced by their contracts)"""
    def t(v):
        m = v.m

        def thunk():
            e, n, f, L, ow = mk_entropy(v, kind)
            ia, nf_, C = mk_interaction(v, "ideal")
            en, act = mk_ensemble(v, ens)
            class Q: pass
            parts = Q()
            parts.interaction, parts.entropy, parts.ensemble = ia, e, en
            parts.constraints = []
            if con:
                co = m.call(m.getattr(m.call(v.cls("flory.constraint.no", "NoConstraint"), [num(N, "i")], {}), "compiled"), [], {})
                m.call(m.getattr(co, "initialize"), [num(M, "i")], {})
                parts.constraints = [co]
            w, J = sym(v, "w", (N, M)), volumes_any(v)
            pc, pf = sym(v, "old_pc", (N, M)), sym(v, "old_pf", (N, M))
            v.e.st = (w, J, pc, pf)
            v.e.x = L, C
            living(v, rdJ)
            return call_step(v, parts, v.e.st, 1, 0, npmodel.SRng("rng"))
        for q in v.okpaths(v.run(thunk)):
            L, C = q.e.x
            A = lambda a: gt0(rdJ(a) - THR)
            wt = lambda i, a: exp(-(L(i) * rdw(i, a)))
            Qi = lambda i: div(sum1(M, lambda b: wt(i, b) * rdJ(b) * A(b)), sum1(M, lambda b: rdJ(b) * A(b)))
            s = (lambda i: div(rd("mean", (P(i),)), Qi(i))) if ens == "canonical" else (lambda i: rd("act", (P(i),)))
            ph = lambda i, a: s(i) * wt(i, a)
            v.same(f"fractions [{q.n}]", q, q.e.st[2], (N, M), lambda ix: ph(*ix) * A(ix[1]))
            inc = lambda a: A(a) * (sum1(N, lambda i: ph(i, a)) - 1)
            v.zero(f"incompressibility residual [{q.n}]", lift(q.val[0])[0] - maxof(M, lambda a: absv(inc(a))), q.ctx)
            V = lambda f, a: sum1(N, lambda g: C(f, g) * ph(g, a)) * A(a)
    task("C08", f"step with {kind}, {ens}{', trivial constraint' if con else ''}", seconds=200)(t)


concrete_step("ideal", "grand canonical", True)
