"""Concrete contracts for C06, C07, C08, C10, C11, C12."""
import numpy as np
import spec
from gen import case, need, same, Fail, Skip
import flory
from flory.entropy import IdealGasEntropy, IdealGasPolydispersedEntropy
from flory.interaction import FloryHugginsInteraction, FloryHugginsBlockInteraction
from flory.mcmp import _finder_impl as fi


def counts_of(g, S):
    return g.rng.integers(1, 4, S)


def volumes(g, M, dead=0.2, thr=0.0):
    J = g.posarr(M, 0.05, 4)
    d = g.rng.random(M) < dead
    J[d] = 0
    if not np.any(J > thr):
        J[int(g.rng.integers(M))] = max(1.0, thr * 2 + 0.1)
    return J


@case("C06", "partition")
def c06_partition(g):
    n, M = g.dim(1, 5, "num_comp"), g.dim(1, 7, "num_part")
    l = g.posarr(n, 0.3, 6)
    if g.p(0.5):
        c = IdealGasEntropy(n, l).compiled()
        feat = np.arange(n)
    else:
        counts = []
        while sum(counts) < n:
            counts.append(int(min(n - sum(counts), g.rng.integers(1, 4))))
        c = IdealGasPolydispersedEntropy(len(counts), l, counts).compiled()
        feat = spec.expand(counts)
    big = g.p(0.2)
    w = g.arr((feat.max() + 1, M), -30, 30) if big else g.arr((feat.max() + 1, M), -3, 3)
    J = volumes(g, M)
    phi = g.arr((n, M))
    w0, J0 = w.copy(), J.copy()
    Q = c.partition(phi, w, J)
    p = np.exp(-w0[feat] * l[:, None])
    d = dict(sizes=l, omegas=w0, Js=J0)
    tol = dict(rtol=1e-9, atol=1e-300) if big else {}
    same(phi, p, "Boltzmann weights are not exp(-l w)", **tol, **d)
    same(Q, (p * J0).sum(1) / J0.sum(), "partition sums are not the volume-weighted means", **tol, **d)
    same(w, w0, "partition modified the fields", **d)
    same(J, J0, "partition modified the volumes", **d)


@case("C06", "normalize-canonical")
def c06_canon(g):
    n, M = g.dim(1, 5, "num_comp"), g.dim(1, 7, "num_part")
    mean = g.compositions((), n)
    if g.p(0.3):
        mean = mean * g.pos(0.3, 2)
    if g.p(0.2):
        mean[int(g.rng.integers(n))] = 0.0
    c = flory.CanonicalEnsemble(n, mean).compiled()
    need(int(c.num_comp) == n, "components of the compiled ensemble")
    J = volumes(g, M)
    mask = (J > 0).astype(float)
    p = g.posarr((n, M), 0.01, 5)
    if g.p(0.3):  # strongly attracted or repelled components
        p *= 10.0 ** g.rng.uniform(-60, 20, (n, 1))
    Q = (p * J).sum(1) / J.sum()
    phi, Q0, m0 = p.copy(), Q.copy(), mask.copy()
    inc = c.normalize(phi, Q, mask)
    d = dict(phi_means=mean, weights=p, Js=J)
    same((phi * J).sum(1) / J.sum(), mean, "mean fractions of the living compartments differ from the prescribed ones", **d)
    same(phi, (mean / Q0)[:, None] * p * m0, "canonical fractions", **d)
    need(np.all(phi[:, m0 == 0] == 0), "dead compartments have non-zero fractions", **d)
    same(inc, (phi.sum(0) - 1) * m0, "incompressibility", **d)
    same(Q, Q0, "normalize modified the partition sums", **d)
    same(mask, m0, "normalize modified the masks", **d)


@case("C06", "normalize-grandcanonical")
def c06_gc(g):
    n, M = g.dim(1, 5, "num_comp"), g.dim(1, 7, "num_part")
    l = g.posarr(n, 0.3, 4)
    if g.p(0.5):
        mus = g.arr((n,), -3, 2)
        e = flory.GrandCanonicalEnsemble.from_chemical_potential(n, mus, l)
        a = l * np.exp(l * mus)
    elif g.p(0.3):
        mus = g.arr((n,), -3, 2)
        e = flory.GrandCanonicalEnsemble.from_chemical_potential(n, mus)
        a = np.exp(mus)
    else:
        a = g.posarr(n, 0.01, 4)
        e = flory.GrandCanonicalEnsemble(n, a)
    same(e.scaled_activity, a, "activities")
    c = e.compiled()
    need(int(c.num_comp) == n, "components of the compiled ensemble")
    J = volumes(g, M)
    mask = (J > 0).astype(float)
    p = g.posarr((n, M), 0.01, 5)
    phi, Q, m0 = p.copy(), g.posarr(n), mask.copy()
    Q0 = Q.copy()
    inc = c.normalize(phi, Q, mask)
    d = dict(activity=a, weights=p, mask=m0)
    same(phi, a[:, None] * p * m0, "grand-canonical fractions", **d)
    same(inc, (phi.sum(0) - 1) * m0, "incompressibility", **d)
    same(Q, Q0, "normalize modified the partition sums", **d)
    same(mask, m0, "normalize modified the masks", **d)


# ------------------------------------------------------------------------ metastep
class Sys:
    """a random system: compiled parts for the real step, parameters for the spec"""

    def __init__(self, g, cons_kinds=None, ens=None, kind=None):
        self.g = g
        kind = kind or g.choice(["plain", "plain", "poly"])
        if kind == "plain":
            self.S = self.n = g.dim(1, 4, "num_comp", big=40)
            self.feat = np.arange(self.n)
            chi = spec.sym(g.arr((self.S, self.S), -3, 4), self.S)
            self.l = g.posarr(self.n, 0.4, 4) if g.p(0.7) else np.ones(self.n)
            self.shift_add = g.pos(0.1, 3) if g.p(0.5) else 1.0
            kw = {} if self.shift_add == 1.0 else dict(additional_chis_shift=self.shift_add)
            self.inter = FloryHugginsInteraction(self.n, chi).compiled(**kw)
            self.ent = IdealGasEntropy(self.n, self.l).compiled()
        else:
            self.S = g.dim(1, 3, "num_feat", big=20)
            counts = counts_of(g, self.S)
            self.n = int(counts.sum())
            self.feat = spec.expand(counts)
            chi = spec.sym(g.arr((self.S, self.S), -3, 4), self.S)
            self.l = g.posarr(self.n, 0.4, 4)
            self.shift_add = g.pos(0.1, 3) if g.p(0.5) else 1.0
            kw = {} if self.shift_add == 1.0 else dict(additional_chis_shift=self.shift_add)
            self.inter = FloryHugginsBlockInteraction(self.S, chi, counts).compiled(**kw)
            self.ent = IdealGasPolydispersedEntropy(self.S, self.l, counts).compiled()
        self.chi = chi
        self.shift = -chi.min() + self.shift_add
        self.M = g.dim(1, 6, "num_part", big=60)
        self.ens_kind = ens or g.choice(["canonical", "canonical", "grand"])
        if self.ens_kind == "canonical":
            self.par = g.compositions((), self.n)
            self.ens = flory.CanonicalEnsemble(self.n, self.par).compiled()
        else:
            self.par = g.posarr(self.n, 0.05, 1)
            self.ens = flory.GrandCanonicalEnsemble(self.n, self.par).compiled()
        if cons_kinds is None:
            cons_kinds = g.choice([(), (), ("local",), ("global",), ("local", "global"), ("local", "local")])
        self.kinds = cons_kinds
        self.cons, self.scons = [], []
        for k in cons_kinds:
            K = g.dim(1, 3, "num_cons", big=6)
            C, T = g.arr((K, self.S), -1, 1), g.arr((K,), -0.5, 0.5)
            ratio, kappa = (g.pos(0.1, 3), g.pos(0.1, 2)) if g.p(0.7) else (1.0, 1.0)
            cls = flory.LinearLocalConstraint if k == "local" else flory.LinearGlobalConstraint
            kw = {} if (ratio, kappa) == (1.0, 1.0) else dict(constraint_acceptance_ratio=ratio, constraint_elasticity=kappa)
            c = cls(self.S, C, T).compiled(**kw)
            c.initialize(self.M)
            self.cons.append(c)
            self.scons.append(spec.Cons(k, C, T, ratio, kappa, self.M))
        if not self.cons:
            c = flory.NoConstraint(self.S).compiled()
            c.initialize(self.M)
            self.cons.append(c)
        self.aJ = g.pos(1e-4, 0.05)
        self.aw = g.pos(1e-3, 0.1)
        self.bound = g.pos(1e-4, 0.2)
        self.thr = 0.0 if g.p(0.5) else g.pos(1e-4, 0.6)
        self.scaler = 1.0

    def state(self, dead=0.2):
        g = self.g
        w = g.arr((self.S, self.M), -2, 2)
        J = volumes(g, self.M, dead, self.thr)
        return w, J

    def real(self, w, J, steps=1, tries=0, rng=None, **over):
        p = dict(acceptance_Js=self.aJ, acceptance_omega=self.aw, Js_step_upper_bound=self.bound, kill_threshold=self.thr)
        p.update(over)
        phic = np.full((self.n, self.M), 7.25)
        phif = np.full((self.S, self.M), -3.5)
        r = fi.multicomponent_self_consistent_metastep(
            self.inter, self.ent, self.ens, tuple(self.cons), omegas=w, Js=J, phis_comp=phic, phis_feat=phif,
            steps_inner=steps, revive_tries=tries, revive_scaler=self.scaler, rng=rng or np.random.default_rng(3), **p)
        return r, phic, phif

    def spec(self, w, J, **over):
        a = dict(aJ=self.aJ, aw=self.aw, bound=self.bound, thr=self.thr)
        a.update(over)
        return spec.step(w, J, chi_feat=self.chi, shift=self.shift, feat_of=self.feat, l=self.l, ens=self.ens_kind, ens_par=self.par, cons=self.scons, **a)

    def info(self):
        return dict(chi=self.chi, sizes=self.l, feat=self.feat, ens=self.ens_kind, ens_par=self.par, cons=[(c.kind, c.C, c.T, c.ratio, c.kappa) for c in self.scons],
                    aJ=self.aJ, aw=self.aw, bound=self.bound, thr=self.thr, shift=self.shift)


def close_to_threshold(s, J):
    return np.any(np.abs(J - s.thr) < 1e-9 * max(1, s.thr)) and s.thr > 0


@case("C07", "step", weight=2)
def c07_step(g):
    s = Sys(g)
    w, J = s.state(dead=g.choice([0, 0.2, 0.5]))
    T = int(g.rng.integers(1, 4))
    d = s.info()
    for t in range(T):
        w0, J0 = w.copy(), J.copy()
        d.update(omegas=w0, Js=J0, step=t)
        sp = s.spec(w0, J0)
        r, phic, phif = s.real(w, J)
        m = sp["mask"]
        nv = m.sum()
        tol = 1e-9 * max(1.0, np.abs(J0).max(), s.aJ * sp["dJ"])
        need(abs(J.sum() - nv) <= 1e-9 * max(1, nv) + s.M * tol, "volumes of the living compartments do not average to one", total=J.sum(), living=nv, **d)
        for name, a in (("volume", J), ("field", w), ("fraction", phic), ("feature fraction", phif)):
            need(np.all(np.asarray(a)[..., m == 0] == 0), f"dead compartment with non-zero {name}", value=a, **d)
        alive = m == 1
        same(J[alive], sp["J"][alive], "volume update", rtol=1e-8, atol=10 * tol, **d)
        same(w[:, alive], sp["w"][:, alive], "field update", rtol=1e-7, atol=1e-8 * max(1, np.abs(sp["w"]).max()), **d)
        if np.min(np.abs(sp["J"][alive] - s.thr)) > 1e-8 * max(1, s.thr):
            need(bool(r[5]) == sp["safe"], "wrong report whether a compartment died in the last step", reported=bool(r[5]), **d)
        need(int(r[4]) == 0, "revived without permission", **d)
        J = np.where(alive, J, 0.0)
        if not np.any(J > s.thr) or close_to_threshold(s, J) or not np.all(np.isfinite(w)) or np.abs(w).max() > 30:
            return


@case("C07", "many-steps")
def c07_many(g):
    """k steps in one call are k single steps; threshold and killing along the way"""
    s = Sys(g, cons_kinds=g.choice([(), ("local",), ("global",)]))
    s.thr = g.choice([0.0, 0.05, 0.3, 0.6])
    s.aJ = g.pos(0.01, 0.5)
    s.bound = g.pos(0.01, 0.5)
    w, J = s.state(dead=0.3)
    k = g.intval(2, 6)
    w0, J0 = w.copy(), J.copy()
    for c in s.scons:
        pass
    sw, sJ = w0.copy(), J0.copy()
    for i in range(k):
        sp = s.spec(sw, sJ)
        sw, sJ = sp["w"], sp["J"]
        if not np.all(np.isfinite(sw)) or np.abs(sw).max() > 20 or np.abs(sJ).max() > 50 or not np.any(sJ > s.thr) or np.min(np.abs(sJ[sp["mask"] == 1] - s.thr)) < 1e-5:
            raise Skip
    r, phic, phif = s.real(w, J, steps=k)
    d = dict(s.info(), omegas=w0, Js=J0, steps=k)
    same(J, sJ, "volumes after several steps", rtol=1e-6, atol=1e-6, **d)
    same(w, sw, "fields after several steps", rtol=1e-6, atol=1e-6, **d)
    need(bool(r[5]) == sp["safe"], "wrong report whether a compartment died in the last step", reported=bool(r[5]), **d)
    same(phic, sp["phi"], "fractions after several steps", rtol=1e-6, atol=1e-6, **d)


@case("C07", "masks", weight=0.5)
def c07_masks(g):
    M = g.dim(1, 9, "num_part")
    thr = g.choice([0.0, g.pos(1e-3, 0.9)])
    J = g.arr((M,), -0.5, 2)
    J[g.rng.random(M) < 0.2] = thr
    J0 = J.copy()
    need(int(fi.count_valid_compartments(J, thr)) == int((J0 > thr).sum()), "number of living compartments", Js=J0, threshold=thr)
    same(fi.make_valid_compartment_masks(J, thr), (J0 > thr).astype(float), "masks of living compartments", Js=J0, threshold=thr)
    same(J, J0, "volumes modified")


@case("C08", "residuals", weight=2)
def c08_res(g):
    s = Sys(g)
    w, J = s.state(dead=g.choice([0, 0.3]))
    if g.p(0.15):
        w = w - w.max() - 0.5 if g.p(0.5) else w - w.min() + 0.5
    d = s.info()
    T = int(g.rng.integers(1, 3))
    for t in range(T):
        w0, J0 = w.copy(), J.copy()
        d.update(omegas=w0, Js=J0, step=t)
        sp = s.spec(w0, J0)
        r, phic, phif = s.real(w, J)
        sc = max(1.0, np.abs(sp["e"]).max(), np.abs(sp["xi"]).max())
        same(r[0], sp["incomp"], "reported incompressibility is not the maximum absolute deviation", rtol=1e-8, atol=1e-9, **d)
        same(r[1], sp["dw"], "reported field error is not the maximum absolute deviation", rtol=1e-8, atol=1e-9 * sc, **d)
        same(r[2], sp["dJ"], "reported volume error is not the maximum absolute deviation", rtol=1e-8, atol=1e-9 * sc, **d)
        same(r[3], sp["rc"], "reported constraint residue is not the maximum absolute deviation", rtol=1e-8, atol=1e-9, **d)
        same(phic, sp["phi"], "fractions", rtol=1e-8, **d)
        same(phif, sp["phif"], "feature fractions", rtol=1e-8, **d)
        J = np.where(sp["mask"] == 1, J, 0.0)
        if not np.any(J > s.thr) or close_to_threshold(s, J) or np.abs(w).max() > 30:
            return


@case("C08", "parameter-independence", weight=0.6)
def c08_indep(g):
    s = Sys(g, cons_kinds=())
    w, J = s.state()
    out = []
    for _ in range(3):
        over = dict(acceptance_Js=g.pos(1e-5, 1), acceptance_omega=g.pos(1e-5, 1), Js_step_upper_bound=g.pos(1e-5, 1))
        r, phic, phif = s.real(w.copy(), J.copy(), **over)
        out.append((np.array(r[:4], float), phic))
    for o in out[1:]:
        same(o[0], out[0][0], "residuals depend on numerical parameters", rtol=1e-9, omegas=w, Js=J, **s.info())
        same(o[1], out[0][1], "fractions depend on numerical parameters", omegas=w, Js=J, **s.info())


def binary_coexistence(chi, l0, l1):
    """numerically exact binodal of a binary mixture, or None"""
    from scipy.optimize import fsolve
    c = np.array([[0, chi], [chi, 0.0]])
    l = np.array([l0, l1])

    def F(x):
        a, b = 1 / (1 + np.exp(-x))
        m1 = spec.mu(np.array([a, 1 - a]), c, l)
        m2 = spec.mu(np.array([b, 1 - b]), c, l)
        return m1 - m2

    for s in (3.0, 5.0, 2.0):
        x, info, ok, _ = fsolve(F, [-s, s], full_output=True, xtol=1e-14)
        a, b = 1 / (1 + np.exp(-x))
        if ok == 1 and abs(a - b) > 0.05 and np.abs(F(x)).max() < 1e-11:
            return a, b
    return None


@case("C08", "fixed-point", weight=0.6)
def c08_fixed(g):
    """exact coexisting phases have vanishing residuals, other pairs of phases do not"""
    chi = g.val(2.6, 4)
    l0, l1 = (1.0, 1.0) if g.p(0.3) else (g.pos(0.7, 2), g.pos(0.7, 2))
    ab = binary_coexistence(chi, l0, l1)
    if ab is None:
        raise Skip
    a, b = ab
    l = np.array([l0, l1])
    phi = np.array([[a, b], [1 - a, 1 - b]])
    M = 2
    J = np.array([1.0, 1.0])
    if g.p(0.5):
        x = g.val(0.3, 1.7)
        J = np.array([x, 2 - x])
    perturb = g.p(0.5)
    if perturb:
        phi[:, 0] = phi[:, 0] + np.array([0.03, -0.03]) * g.choice([1, -1])
        if phi.min() <= 0.001:
            raise Skip
    mean = (phi * J).sum(1) / J.sum()
    chis = np.array([[0, chi], [chi, 0.0]])
    inter = FloryHugginsInteraction(2, chis).compiled()
    ent = IdealGasEntropy(2, l).compiled()
    ens = flory.CanonicalEnsemble(2, mean).compiled()
    no = flory.NoConstraint(2).compiled()
    no.initialize(M)
    # fields that reproduce the compositions: w = -ln(phi)/l + const_i; choose them self-consistent
    w = -np.log(phi) / l[:, None]
    base = chis @ phi
    c = ((base - w)).mean(1)          # per component constant (canonical ensemble ignores it)
    w = w + c[:, None]
    w0 = w.copy()
    J0 = J.copy()
    pc, pf = np.zeros((2, M)), np.zeros((2, M))
    r = fi.multicomponent_self_consistent_metastep(inter, ent, ens, (no,), omegas=w, Js=J, phis_comp=pc, phis_feat=pf, steps_inner=1,
        acceptance_Js=1e-3, Js_step_upper_bound=1e-2, acceptance_omega=1e-2, kill_threshold=0.0, revive_tries=0, revive_scaler=1.0, rng=np.random.default_rng(0))
    d = dict(chi=chi, sizes=l, phi=phi, Js=J0, residuals=[float(x) for x in r[:4]])
    if not perturb:
        need(max(float(x) for x in r[:4]) < 1e-7, "exact coexisting phases have non-zero residuals", **d)
        same(J, J0, "coexisting phases are not a fixed point of the volume update", rtol=1e-7, atol=1e-8, **d)
        same(w, w0, "coexisting phases are not a fixed point of the field update", rtol=1e-7, atol=1e-8, **d)
        same(pc, phi, "fractions of the coexisting phases", rtol=1e-7, **d)
    else:
        m = spec.mu(phi.T, chis, l)
        if np.abs(m[0] - m[1]).max() > 1e-2:
            need(max(float(x) for x in r[:4]) > 1e-5, "phases with different chemical potentials have vanishing residuals", mus=m, **d)


@case("C08", "converged-run", weight=0.15, slow=True)
def c08_run(g):
    kind = g.choice(["binary", "ternary", "grand"] if g.jit else ["binary", "grand"])
    tol = 1e-6
    if kind == "binary" or kind == "ternary":
        n = 2 if kind == "binary" else 3
        chi = np.zeros((n, n))
        iu = np.triu_indices(n, 1)
        chi[iu] = g.rng.uniform(2.6, 3.6, len(iu[0]))
        chi = chi + chi.T
        l = g.rng.uniform(0.8, 1.6, n)
        mean = g.rng.dirichlet(np.full(n, 20))
        ens = flory.CanonicalEnsemble(n, mean)
    else:
        n = 2
        chi = np.array([[0, 1.0], [1.0, 0]])
        l = np.array([1.0, 1.3])
        x = g.val(0.2, 0.8)
        phi = np.array([x, 1 - x])
        # fields and activities of this homogeneous state (up to a common field)
        w = chi @ phi
        a = phi * np.exp(l * w)
        ens = flory.GrandCanonicalEnsemble(n, a)
    fe = flory.FloryHuggins(n, chi, l)
    f = flory.CoexistingPhasesFinder(fe.interaction, fe.entropy, ens, num_part=4 if not g.jit else 8, progress=False, rng=np.random.default_rng(int(g.rng.integers(1 << 30))),
                                     tolerance=tol, interval=2000 if not g.jit else 10000, max_steps=20000 if not g.jit else 400000, acceptance_Js=0.002, acceptance_omega=0.02, Js_step_upper_bound=0.01)
    ph = f.run()
    dg = f.diagnostics
    conv = dg["steps"] < (20000 if not g.jit else 400000) and max(dg[k] for k in ("max_abs_incomp", "max_abs_omega_diff", "max_abs_js_diff", "max_constraint_residue")) < tol
    if not conv:
        raise Skip
    live = np.asarray(ph.volumes) > 1e-6
    phi = np.asarray(ph.fractions)[live]
    m = spec.mu(phi, chi, l)
    d = dict(chi=chi, sizes=l, phases=phi, volumes=np.asarray(ph.volumes)[live], mus=m, kind=kind)
    dev = (m - m.mean(0))
    need(np.abs(dev).max() < 1e-3, "converged run returned compartments with different chemical potentials", **d)
    need(np.abs(phi.sum(1) - 1).max() < 1e-4, "converged run returned compressible phases", **d)
    if kind != "grand":
        mm = (np.asarray(ph.volumes)[:, None] * np.asarray(ph.fractions)).sum(0) / np.asarray(ph.volumes).sum()
        need(np.abs(mm - mean).max() < 1e-3, "converged run violates the mean composition", got=mm, want=mean, **d)


# --------------------------------------------------------------------------------- C10
class FakeUniform:
    def __init__(self, rng):
        self.rng = rng
        self.draws = 0

    def uniform(self, a=0.0, b=1.0, size=None):
        self.draws += 1 if size is None else int(np.prod(size))
        u = self.rng.choice([-1.0, 1.0, 0.0, 0.5, -0.25], size=size) if True else 0
        return a + (b - a) * (u + 1) / 2

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)


def revive_random_check(g, J, w, thr, sc, rng, d, fake=False):
    J0, w0 = J.copy(), w.copy()
    n = fi.revive_compartments_by_random(J, w, thr, rng, sc)
    dead = J0 <= thr
    need(int(n) == int(dead.sum()), "number of revived compartments", reported=int(n), dead=int(dead.sum()), **d)
    need(np.all(J[dead] == 1.0), "revived compartments do not have unit volume", after=J, **d)
    need(np.array_equal(J[~dead], J0[~dead]), "volume of a living compartment changed", after=J, **d)
    need(np.array_equal(w[:, ~dead], w0[:, ~dead]), "fields of a living compartment changed", after=w, **d)
    if w.size:
        c = (w0.max(1) + w0.min(1)) / 2
        h = (w0.max(1) - w0.min(1)) / 2 * abs(sc)
        x = w[:, dead]
        tol = 1e-9 * max(1, np.abs(w0).max() * max(1, abs(sc)))
        need(np.all(np.abs(x - c[:, None]) <= h[:, None] + tol), "revived fields outside the allowed interval", centers=c, half_widths=h, fields=x, **d)
        return x, c, h
    return None, None, None


@case("C10", "direct", weight=2)
def c10_direct(g):
    S, M = g.dim(1, 4, "num_feat"), g.dim(1, 8, "num_part")
    thr = g.choice([0.0, g.pos(1e-3, 0.9)])
    J = g.arr((M,), 0, 2)
    J[g.rng.random(M) < 0.3] = g.choice([0.0, thr, -0.1])
    w = g.arr((S, M), -5, 5)
    sc = g.choice([1.0, 0.0, 1.7, g.pos(0.1, 4)])
    d = dict(Js=J.copy(), omegas=w.copy(), threshold=thr, scaler=sc)
    revive_random_check(g, J, w, thr, sc, np.random.default_rng(int(g.rng.integers(1 << 30))), d)


@case("C10", "distribution", weight=0.3)
def c10_dist(g):
    """revived fields fill the whole interval uniformly"""
    S, M = int(g.rng.integers(1, 4)), 3000
    J = np.ones(M)
    J[2:] = 0
    if g.p(0.5):
        J = J[::-1].copy()
    w = np.zeros((S, M))
    alive = np.where(J > 0)[0]
    w[:] = g.arr((S, 1), -1, 1)
    w[:, alive[0]] = 2.0 + g.arr((S,), 0, 1)
    w[:, alive[1]] = -2.0 - g.arr((S,), 0, 1)
    sc = g.choice([1.0, 0.5, 2.0])
    x, c, h = revive_random_check(g, J, w, 0.0, sc, np.random.default_rng(int(g.rng.integers(1 << 30))), dict(scaler=sc))
    from scipy import stats
    u = (x - c[:, None]) / h[:, None]
    for r in range(S):
        p = stats.kstest(u[r], stats.uniform(-1, 2).cdf).pvalue
        need(p > 1e-15, "revived fields are not uniformly distributed over the interval", pvalue=p, sample=u[r][:10], scaler=sc)
    if S > 1:
        cc = np.corrcoef(u)[0, 1]
        need(abs(cc) < 0.2, "revived fields of different features are correlated", correlation=cc)
    cc = np.corrcoef(u[0][:-1], u[0][1:])[0, 1]
    need(abs(cc) < 0.2, "revived fields of different compartments are correlated", correlation=cc)


@case("C10", "in-iteration")
def c10_iter(g):
    s = Sys(g, cons_kinds=())
    w, J = s.state(dead=0.4)
    if g.p(0.3):
        J[:] = np.maximum(J, s.thr + 0.1)
    tries = g.choice([0, -1, 1, 2, 100, -50])
    w0, J0 = w.copy(), J.copy()
    dead = J0 <= s.thr
    d = dict(s.info(), omegas=w0, Js=J0, tries=tries)
    seed = int(g.rng.integers(1 << 30))
    r, phic, phif = s.real(w, J, tries=tries, rng=np.random.default_rng(seed))
    if tries <= 0:
        need(int(r[4]) == 0, "revival although there is no budget", reported=int(r[4]), **d)
        need(np.all(J[dead] == 0), "dead compartment came back without budget", after=J, **d)
    else:
        need(int(r[4]) == int(dead.sum()), "dead compartments were not all revived", reported=int(r[4]), dead=int(dead.sum()), **d)
        need(s.thr >= 1 or np.all(phic.sum(0) > 0), "revived compartment takes no part in the step", phis=phic, **d)
        # equivalent to reviving first and stepping without budget
        w1, J1 = w0.copy(), J0.copy()
        if dead.any():
            fi.revive_compartments_by_random(J1, w1, s.thr, np.random.default_rng(seed), s.scaler)
        r2, p2, _ = s.real(w1, J1, tries=0)
        same(w, w1, "fields after a step with revival", rtol=1e-8, **d)
        same(J, J1, "volumes after a step with revival", rtol=1e-8, **d)


@case("C10", "budget-over-steps", weight=0.7)
def c10_budget(g):
    """revival stops once the number of revivals of this call has reached the budget"""
    s = Sys(g, cons_kinds=())
    s.thr = g.choice([0.5, 0.8, 0.95])
    s.aJ, s.bound = 1.0, g.pos(0.05, 0.6)
    s.aw = g.pos(1e-3, 0.05)
    w, J = s.state(dead=0.5)
    k = g.intval(2, 8)
    tries = int(g.rng.integers(0, 2 * s.M + 1))
    seed = int(g.rng.integers(1 << 30))
    w1, J1 = w.copy(), J.copy()
    d = dict(s.info(), omegas=w.copy(), Js=J.copy(), tries=tries, steps=k)
    try:
        r, _, _ = s.real(w, J, steps=k, tries=tries, rng=np.random.default_rng(seed))
    except ZeroDivisionError:
        raise Skip
    tot = 0
    rng = np.random.default_rng(seed)
    for i in range(k):
        left = tries - tot
        r1, _, _ = s.real(w1, J1, steps=1, tries=left, rng=rng)
        if left <= 0:
            need(int(r1[4]) == 0, "revival without budget", **d)
        tot += int(r1[4])
    if not (np.all(np.isfinite(w1)) and np.all(np.isfinite(J1))):
        raise Skip
    need(int(r[4]) == tot, "revival count over several steps", reported=int(r[4]), want=tot, **d)
    same(J, J1, "volumes of a multi-step call with revival differ from single steps", rtol=1e-7, atol=1e-7, **d)
    same(w, w1, "fields of a multi-step call with revival differ from single steps", rtol=1e-7, atol=1e-7, **d)


# --------------------------------------------------------------------------------- C11
@case("C11", "direct", weight=3)
def c11_direct(g):
    n, M = g.dim(1, 4, "num_comp"), g.dim(1, 12, "num_part")
    thr = g.choice([0.0, 0.0, g.pos(1e-3, 0.3), g.pos(0.05, 2)])
    J = g.posarr(M, 0.05, 4)
    frac = g.choice([0.0, 0.3, 0.7, 0.95])
    d_ = g.rng.random(M) < frac
    J[d_] = g.rng.choice([0.0, thr, -0.01, 0.5 * thr], size=int(d_.sum())) if d_.any() else J[d_]
    if g.p(0.2):
        J = np.where(J > thr, np.clip(J, None, 2 * thr) if thr > 0 else J, J)
    X = g.rng.random((n, M)) + np.arange(M)[None, :]      # identifies the source
    J0, X0 = J.copy(), X.copy()
    d = dict(Js=J0, targets=X0, threshold=thr)
    cnt = fi.revive_compartments_by_copy(Js=J, targets=X, threshold=thr, rng=np.random.default_rng(int(g.rng.integers(1 << 30))))
    check_copy(J0, X0, thr, J, X, int(cnt), d)


def check_copy(J0, X0, thr, J, X, cnt, d):
    M = len(J0)
    live = J0 > thr
    dead = ~live
    if not np.any(live & (J0 > 0)):
        need(cnt == 0, "revived although nothing is alive", reported=cnt, **d)
        return
    need(cnt == int(dead.sum()), "not all dead compartments were revived", reported=cnt, dead=int(dead.sum()), after=J, **d)
    need(np.array_equal(X[:, live], X0[:, live]), "composition of a living compartment changed", after=X, **d)
    # every compartment now carries the composition of exactly one living one
    src = np.full(M, -1)
    for m in range(M):
        hit = [k for k in np.where(live)[0] if np.array_equal(X[:, m], X0[:, k])]
        need(len(hit) >= 1, "revived compartment does not have the composition of a living one", compartment=m, after=X, **d)
        src[m] = m if live[m] else hit[0]
    need(np.all(J > 0), "compartment without volume after revival", after=J, **d)
    for k in np.where(live)[0]:
        tot = J[src == k].sum()
        need(abs(tot - J0[k]) <= 1e-12 * max(1, J0[k]), "volume of a compartment is not conserved by splitting", compartment=int(k), before=J0[k], after=tot, Js_after=J, **d)
        for v in J[src == k]:
            r = np.log2(J0[k] / v)
            need(abs(r - round(r)) < 1e-9, "volume was not split equally", after=J, **d)
    t0, t1 = (J0[live] * X0[:, live]).sum(1), (J * X).sum(1)
    same(t1, t0, "total amount of a component changed", rtol=1e-10, after=J, **d)


@case("C11", "run-result", weight=0.3)
def c11_run(g):
    n, M = 2, int(g.rng.integers(3, 9))
    fe = flory.FloryHuggins(n, g.val(0, 3))
    thr = g.choice([0.0, 0.1, 0.2])
    f = flory.CoexistingPhasesFinder(fe.interaction, fe.entropy, flory.CanonicalEnsemble(n, [0.4, 0.6]), num_part=M, progress=False, kill_threshold=thr,
                                     max_revive_per_compartment=0, rng=np.random.default_rng(int(g.rng.integers(1 << 30))), max_steps=50, interval=50,
                                     acceptance_Js=0.2, Js_step_upper_bound=0.5, acceptance_omega=0.01)
    ph = f.run()
    J, X = np.asarray(ph.volumes), np.asarray(ph.fractions)
    need(J.shape == (M,) and X.shape == (M, n), "shape of the run result", volumes=J.shape, fractions=X.shape)
    need(np.all(J > 0), "run returned a compartment without volume", volumes=J, threshold=thr)
    need(np.all(X.sum(1) > 0), "run returned an empty compartment", volumes=J, fractions=X, threshold=thr)


# --------------------------------------------------------------------------------- C12
@case("C12", "linear", weight=3)
def c12_linear(g):
    kind = g.choice(["local", "global"])
    S, M, K = g.dim(1, 4, "num_feat"), g.dim(1, 5, "num_part"), g.dim(1, 4, "num_cons", big=8)
    C, T = g.arr((K, S), -2, 2), g.arr((K,), -1, 1)
    ratio, kappa = g.choice([(1.0, 1.0), (g.pos(0.1, 4), g.pos(0.01, 4)), (g.pos(0.1, 3), 0.0), (0.0, 1.0)])
    cls = flory.LinearLocalConstraint if kind == "local" else flory.LinearGlobalConstraint
    c = cls(S, C, T).compiled(constraint_acceptance_ratio=ratio, constraint_elasticity=kappa)
    need(int(c.num_feat) == S, "features of the constraint")
    for rep in range(2):
        c.initialize(M)
        sp = spec.Cons(kind, C, T, ratio, kappa, M)
        for t in range(int(g.rng.integers(1, 4))):
            phi = g.rng.random((S, M))
            J = volumes(g, M)
            mask = (J > 0).astype(float)
            phi = phi * mask
            p0, J0, m0 = phi.copy(), J.copy(), mask.copy()
            c.prepare(phi, J, mask)
            pot, vd = sp.prepare(p0, J0, m0)
            d = dict(kind=kind, Cs=C, Ts=T, phi=p0, Js=J0, multiplier=sp.mult, ratio=ratio, elasticity=kappa, round=t, reinit=rep)
            same(np.asarray(c.potential) + np.zeros((S, M)), pot, "constraint potential is not the derivative of the constraint energy", **d)
            same(np.asarray(c.volume_derivative) + np.zeros(M), vd, "constraint volume derivative", **d)
            need(np.array_equal(phi, p0) and np.array_equal(J, J0) and np.array_equal(mask, m0), "prepare modified its input", **d)
            st = g.pos(1e-3, 2)
            r = c.evolve(st, mask)
            same(r, sp.evolve(st, m0), "constraint error is not the largest absolute residual", **d)
            need(np.array_equal(mask, m0), "evolve modified the masks", **d)


@case("C12", "none", weight=0.4)
def c12_none(g):
    S, M = g.dim(1, 4, "num_feat"), g.dim(1, 5, "num_part")
    c = flory.NoConstraint(S).compiled()
    need(int(c.num_feat) == S, "features of the trivial constraint")
    for _ in range(2):
        c.initialize(M)
        c.prepare(g.rng.random((S, M)), np.ones(M), np.ones(M))
        same(np.asarray(c.potential) + np.zeros((S, M)), np.zeros((S, M)), "trivial constraint exerts a force")
        same(np.asarray(c.volume_derivative) + np.zeros(M), np.zeros(M), "trivial constraint changes volumes")
        need(c.evolve(0.5, np.ones(M)) == 0, "trivial constraint has a residual")


@case("C12", "in-step", weight=0.5)
def c12_step(g):
    """constraints enter the self-consistent step with exactly their force"""
    s = Sys(g, cons_kinds=g.choice([("local",), ("global",), ("local", "global"), ("global", "global")]))
    w, J = s.state()
    for t in range(2):
        w0, J0 = w.copy(), J.copy()
        sp = s.spec(w0, J0)
        r, _, _ = s.real(w, J)
        d = dict(s.info(), omegas=w0, Js=J0)
        sc = max(1.0, np.abs(sp["w"]).max())
        same(w, sp["w"], "field update with constraints", rtol=1e-7, atol=1e-8 * sc, **d)
        same(r[3], sp["rc"], "constraint residue", rtol=1e-8, **d)
        J = np.where(sp["mask"] == 1, J, 0.0)
        if not np.any(J > s.thr) or close_to_threshold(s, J) or np.abs(w).max() > 30:
            return
