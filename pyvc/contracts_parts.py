"""C05, C06, C12: compiled entropies, interactions, ensembles and constraints."""
from vc import *
from contracts_thermo import FE, FH, INT, BLK, ENT, POL, find, reader, make_block, fe_task, c02_task

CAN = "flory.ensemble.canonical"
GRA = "flory.ensemble.grandcanonical"
LOC = "flory.constraint.linear_local"
GLO = "flory.constraint.linear_global"
NOC = "flory.constraint.no"

N, M, F, K = ivar("N", 1), ivar("M", 1), ivar("F", 1), ivar("K", 1)
HALF = Fraction(1, 2)


def sym(v, name, shape, dtype="f", **kw):
    """a symbolic array that belongs to the running path; its initial contents are remembered"""
    a = sym_arr(name, shape, dtype, **kw)
    own(v, a)
    return a


def own(v, a):
    if not hasattr(v.e, "before"):
        v.e.before = {}
    v.e.before[a.store] = a.store.body
    return a


def volumes(v, name="J"):
    """non-negative volumes with positive total"""
    J = sym(v, name, (M,), nonneg=True)
    v.m.assume(gt0(sum1(M, lambda a: J.read((a,)))))
    return J


def masks_arr(v, name="alive"):
    b = sym_arr(name, (M,), "b")
    return own(v, new_arr((M,), lambda ix: b.read(ix), "f"))


# -------------------------------------------------------------------- builders
def poly_sizes(v):
    nf = sym(v, "nf", (F,), "i", lo=0, nonneg=True)
    n = sum1(F, lambda k: rd("nf", (k,)))
    v.m.assume(gt0(n))
    return nf, n


def mk_entropy(v, kind):
    """-> compiled entropy, number of components, number of features, sizes reader, owner reader"""
    m = v.m
    if kind == "ideal":
        l = sym(v, "l", (N,), pos=True)
        e = m.call(v.cls(ENT, "IdealGasEntropy"), [num(N, "i"), l], {})
        e = m.call(m.getattr(e, "compiled"), [], {})
        return e, N, N, (lambda i: rd("l", (P(i),))), (lambda i: P(i))
    nf, n = poly_sizes(v)
    l = sym(v, "l", (n,), pos=True)
    e = m.call(v.cls(POL, "IdealGasPolydispersedEntropy"), [num(F, "i"), l, nf], {})
    e = m.call(m.getattr(e, "compiled"), [], {})
    return e, n, F, (lambda i: rd("l", (P(i),))), (lambda i: npmodel.owner(F, rd("nf", (npmodel.LO,)), P(i)))


def rows_of(f):
    """components of feature f: first index and number"""
    return npmodel.prefix(P(f), rd("nf", (npmodel.LO,))), rd("nf", (P(f),))


def entropy_partition(kind):
    def t(v):
        m = v.m

        def thunk():
            e, n, f, L, own_ = mk_entropy(v, kind)
            w = sym(v, "w", (f, M))
            J = volumes(v)
            out = sym(v, "old", (n, M))
            v.e.x = (n, f, L, own_, w, J, out)
            return m.call(m.getattr(e, "partition"), [out, w, J], {})
        for q in v.okpaths(v.run(thunk)):
            n, f, L, own_, w, J, out = q.e.x
            W = lambda i, a: exp(-(L(i) * w.read((own_(i), a))))
            tot = sum1(M, lambda a: rd("J", (a,)))
            v.same(f"weights are exp(-l w) [{q.n}]", q, out, (n, M), lambda ix: W(ix[0], ix[1]))
            v.same(f"partition sums are volume weighted means [{q.n}]", q, q.val, (n,), lambda ix: div(sum1(M, lambda a: W(ix[0], a) * rd("J", (a,))), tot))
            v.unchanged(q, fields=w, volumes=J)
            v.fresh_store(q, "partition sums", q.val, out, w, J)
    task("C05 C06 C08" if kind == "poly" else "C06 C08", f"partition ({kind})")(t)


def entropy_comp_to_feat(kind):
    def t(v):
        m = v.m

        def thunk():
            e, n, f, L, own_ = mk_entropy(v, kind)
            pf = sym(v, "oldf", (f, M))
            pc = sym(v, "pc", (n, M))
            v.e.x = (n, f, pf, pc)
            return m.call(m.getattr(e, "comp_to_feat"), [pf, pc], {})
        for q in v.okpaths(v.run(thunk)):
            n, f, pf, pc = q.e.x
            if kind == "ideal":
                spec = lambda ix: rd("pc", tuple(ix))
            else:
                def spec(ix):
                    first, cnt = rows_of(ix[0])
                    return sum1(cnt, lambda s: rd("pc", (first + s, ix[1])))
            v.same(f"feature fractions are the sums of their components [{q.n}]", q, pf, (f, M), spec)
            v.unchanged(q, component_fractions=pc)
    task("C05 C08", f"comp_to_feat ({kind})")(t)


def entropy_volume_derivative(kind):
    def t(v):
        m = v.m

        def thunk():
            e, n, f, L, own_ = mk_entropy(v, kind)
            pc = sym(v, "pc", (n, M))
            v.e.x = (n, L, pc)
            return m.call(m.getattr(e, "volume_derivative"), [pc], {})
        for q in v.okpaths(v.run(thunk)):
            n, L, pc = q.e.x
            v.same(f"is minus the number density [{q.n}]", q, q.val, (M,), lambda ix: -sum1(n, lambda i: div(rd("pc", (i, ix[0])), L(i))))
            v.unchanged(q, component_fractions=pc)
            v.fresh_store(q, "result", q.val, pc)
    task("C05 C08", f"entropy volume_derivative ({kind})")(t)


def entropy_counts(kind):
    def t(v):
        m = v.m

        def thunk():
            e, n, f, L, own_ = mk_entropy(v, kind)
            v.e.x = n, f
            return (m.getattr(e, "num_comp"), m.getattr(e, "num_feat"))
        for q in v.okpaths(v.run(thunk)):
            v.zero(f"number of components [{q.n}]", lift(q.val[0])[0] - q.e.x[0], q.ctx)
            v.zero(f"number of features [{q.n}]", lift(q.val[1])[0] - q.e.x[1], q.ctx)
    task("C05 C04 C14", f"compiled entropy sizes ({kind})")(t)


for kind in ("ideal", "poly"):
    entropy_partition(kind)
    entropy_comp_to_feat(kind)
    entropy_volume_derivative(kind)
    entropy_counts(kind)


# ----------------------------------------------------------------- interactions
def mk_interaction(v, kind):
    """-> compiled interaction, number of features, symmetrised matrix reader"""
    m = v.m
    n = N if kind == "ideal" else F
    X = sym(v, "X", (n, n))
    C = lambda i, j: (rd("X", (P(i), P(j))) + rd("X", (P(j), P(i)))).scale(HALF)
    if kind == "ideal":
        o = m.call(v.cls(INT, "FloryHugginsInteraction"), [num(n, "i"), X], {})
    else:
        nf, nn = poly_sizes(v)
        o = m.call(v.cls(BLK, "FloryHugginsBlockInteraction"), [num(n, "i"), X, nf], {})
    return m.call(m.getattr(o, "compiled"), [], {}), n, C


def interaction_potential(kind):
    def t(v):
        m = v.m

        def thunk():
            c, n, C = mk_interaction(v, kind)
            pf = sym(v, "pf", (n, M))
            v.e.x = n, C, pf
            return m.call(m.getattr(c, "potential"), [pf], {})
        for q in v.okpaths(v.run(thunk)):
            n, C, pf = q.e.x
            spec = lambda ix: sum1(n, lambda j: C(ix[0], j) * rd("pf", (j, ix[1])))
            v.same(f"is the gradient of the interaction energy [{q.n}]", q, q.val, (n, M), spec)
            energy = lambda a: sum1(n, lambda i: sum1(n, lambda j: C(i, j) * rd("pf", (i, a)) * rd("pf", (j, a)))).scale(HALF)
            v.same(f"is the derivative of the pair sum [{q.n}]", q, q.val, (n, M), lambda ix: diff(energy(ix[1]), "pf", (ix[0], ix[1])))
            v.unchanged(q, fractions=pf)
            v.fresh_store(q, "result", q.val, pf)
    task("C05 C08 C04" if kind == "poly" else "C08 C04", f"interaction potential ({kind})")(t)

    def t2(v):
        m = v.m

        def thunk():
            c, n, C = mk_interaction(v, kind)
            pf = sym(v, "pf", (n, M))
            pot = sym(v, "pot", (n, M))
            v.e.x = n, pf, pot
            return m.call(m.getattr(c, "volume_derivative"), [pot, pf], {})
        for q in v.okpaths(v.run(thunk)):
            n, pf, pot = q.e.x
            v.same(f"is the interaction energy density for the given potential [{q.n}]", q, q.val, (M,), lambda ix: sum1(n, lambda i: rd("pot", (i, ix[0])) * rd("pf", (i, ix[0]))).scale(HALF))
            v.unchanged(q, fractions=pf, potential=pot)
            v.fresh_store(q, "result", q.val, pf, pot)
    task("C05 C08" if kind == "poly" else "C08", f"interaction volume_derivative ({kind})")(t2)


for kind in ("ideal", "poly"):
    interaction_potential(kind)
for kind in ("free_energy_density", "jacobian", "hessian"):
    fe_task(kind, 1, mk_=make_block, tag="expanded block model", props="C05")
    fe_task(kind, 0, mk_=make_block, tag="expanded block model", props="C05")
c02_task("chemical_potentials", 1, mk_=make_block, tag="expanded block model", props="C05")


# -------------------------------------------------------------------- ensembles
def mk_ensemble(v, kind):
    m = v.m
    if kind == "canonical":
        a = sym(v, "mean", (N,), pos=True)
        o = m.call(v.cls(CAN, "CanonicalEnsemble"), [num(N, "i"), a], {})
    else:
        a = sym(v, "act", (N,), pos=True)
        o = m.call(v.cls(GRA, "GrandCanonicalEnsemble"), [num(N, "i"), a], {})
    return m.call(m.getattr(o, "compiled"), [], {}), a


def ensemble_normalize(kind):
    def t(v):
        m = v.m

        def thunk():
            c, a = mk_ensemble(v, kind)
            p = sym(v, "p", (N, M), nonneg=True)
            Q = sym(v, "Q", (N,), pos=True)
            ms = masks_arr(v)
            v.e.x = p, Q, ms
            return m.call(m.getattr(c, "normalize"), [p, Q, ms], {})
        for q in v.okpaths(v.run(thunk)):
            p, Q, ms = q.e.x
            mk_ = lambda a: rd("alive", (a,))
            if kind == "canonical":
                ph = lambda i, a: div(rd("mean", (i,)), rd("Q", (i,))) * rd("p", (i, a)) * mk_(a)
            else:
                ph = lambda i, a: rd("act", (i,)) * rd("p", (i, a)) * mk_(a)
            v.same(f"fractions are the scaled weights, zero in dead compartments [{q.n}]", q, p, (N, M), lambda ix: ph(ix[0], ix[1]))
            v.same(f"incompressibility is the deviation from one in living compartments [{q.n}]", q, q.val, (M,),
                   lambda ix: mk_(ix[0]) * (sum1(N, lambda i: ph(i, ix[0])) - 1))
            v.unchanged(q, partition_sums=Q, masks=ms)
            v.fresh_store(q, "result", q.val, p, Q, ms)
    task("C06 C08", f"normalize ({kind})")(t)

    def t3(v):
        m = v.m

        def thunk():
            c, a = mk_ensemble(v, kind)
            return m.getattr(c, "num_comp")
        for q in v.okpaths(v.run(thunk)):
            v.zero(f"number of components [{q.n}]", lift(q.val)[0] - N, q.ctx)
    task("C04 C14", f"compiled ensemble size ({kind})")(t3)


for kind in ("canonical", "grand canonical"):
    ensemble_normalize(kind)


def mean_composition(kind):
    """partition followed by normalisation, with volumes that vanish in dead compartments"""
    def t(v):
        m = v.m

        def thunk():
            e, n, f, L, own_ = mk_entropy(v, kind)
            a = sym(v, "mean", (n,), pos=True)
            o = m.call(v.cls(CAN, "CanonicalEnsemble"), [num(n, "i"), a], {})
            c = m.call(m.getattr(o, "compiled"), [], {})
            w = sym(v, "w", (f, M))
            ms = masks_arr(v)
            J0 = sym(v, "J", (M,), pos=True)
            J = new_arr((M,), lambda ix: J0.read(ix) * rd("alive", tuple(ix)))
            alive = ivar("living", 0)  # some compartment lives
            m.assume(gt0(M - alive))
            m.assume(rd("alive", (alive,)))
            m.witness = [(alive,)]
            p = sym(v, "old", (n, M))
            Q = m.call(m.getattr(e, "partition"), [p, w, J], {})
            m.call(m.getattr(c, "normalize"), [p, Q, ms], {})
            v.e.x = n, p, J
            return None
        for q in v.okpaths(v.run(thunk)):
            n, p, J = q.e.x
            Jr = lambda a: rd("J", (a,)) * rd("alive", (a,))
            tot = sum1(M, Jr)
            v.zero(f"the volume weighted mean over living compartments is the prescribed one [{q.n}]",
                   sum1(M, lambda a: Jr(a) * q.read(p, [IX[0], a])) - tot * rd("mean", (IX[0],)), q.ctx, [(IX[0], n)])
    task("C06", f"mean composition after normalize ({kind})")(t)


mean_composition("ideal")
mean_composition("poly")


def from_mu(sizes, dtype="f"):
    def t(v):
        m = v.m

        def thunk():
            mu = sym(v, "mu", (N,), dtype)
            l = sym(v, "l", (N,), pos=True)
            v.e.x = mu, l
            o = m.call(m.getattr(v.cls(GRA, "GrandCanonicalEnsemble"), "from_chemical_potential"), [num(N, "i"), mu] + ([l] if sizes else []), {})
            v.e.c = m.getattr(o, "scaled_activity")
            p = sym(v, "p", (N, M), nonneg=True)
            Q = sym(v, "Q", (N,), pos=True)
            ones = new_arr((M,), lambda ix: ONE, "f")
            v.e.p = p
            m.call(m.getattr(m.call(m.getattr(o, "compiled"), [], {}), "normalize"), [p, Q, ones], {})
            return None
        for q in v.okpaths(v.run(thunk)):
            mu, l = q.e.x
            L = (lambda i: rd("l", (i,))) if sizes else (lambda i: ONE)
            act = lambda i: L(i) * exp(L(i) * rd("mu", (i,)))
            v.same(f"activity is l exp(l mu) [{q.n}]", q, q.e.c, (N,), lambda ix: act(ix[0]))
            v.same(f"fractions are the weights times the activity [{q.n}]", q, q.e.p, (N, M), lambda ix: act(ix[0]) * rd("p", tuple(ix)))
            v.unchanged(q, potentials=mu, sizes=l)
    task("C06 C04", f"from_chemical_potential {'with sizes' if sizes else 'default sizes'} {dtype}")(t)


for s in (True, False):
    from_mu(s)
    from_mu(s, "i")


# ------------------------------------------------------------------ constraints
def mk_constraint(v, kind, opts=True):
    """-> compiled constraint for K conditions on F features; reads C(k, f), T(k), acceptance a, elasticity e"""
    m = v.m
    if kind == "no":
        o = m.call(v.cls(NOC, "NoConstraint"), [num(F, "i")], {})
        return m.call(m.getattr(o, "compiled"), [], {})
    C = sym(v, "C", (K, F))
    T = sym(v, "T", (K,))
    o = m.call(v.cls(LOC if kind == "local" else GLO, "LinearLocalConstraint" if kind == "local" else "LinearGlobalConstraint"), [num(F, "i"), C, T], {})
    kw = dict(constraint_acceptance_ratio=num(var("acc"), "f"), constraint_elasticity=num(var("kappa"), "f")) if opts else {}
    v.e.C, v.e.T = C, T
    return m.call(m.getattr(o, "compiled"), [], kw)


class ConSpec:
    """mathematical specification of a linear constraint"""

    def __init__(self, kind):
        self.kind = kind

    def R(self, k, a, ph):
        return sum1(F, lambda f: rd("C", (P(k), f)) * rd(ph, (f, P(a)))) - rd("T", (P(k),))

    def Rg(self, k, ph, J):
        """volume weighted total residual"""
        return sum1(M, lambda a: self.R(k, a, ph) * rd(J, (a,)))

    def lam(self, k, a, lam):
        return lam(k, a)

    def energy_total(self, ph, J, lam):
        """sum over compartments of J (lam R + kappa R^2) for local constraints;
        lam Rg + kappa Rg^2 for global ones"""
        ka = var("kappa")
        if self.kind == "local":
            return sum1(M, lambda a: sum1(K, lambda k: rd(J, (a,)) * (lam(k, a) * self.R(k, a, ph) + ka * self.R(k, a, ph) * self.R(k, a, ph))))
        return sum1(K, lambda k: lam(k, ZERO) * self.Rg(k, ph, J) + ka * self.Rg(k, ph, J) * self.Rg(k, ph, J))

    def potential(self, f, a, ph, J, lam, alive):
        ka = var("kappa")
        if self.kind == "local":
            r = sum1(K, lambda k: rd("C", (k, f)) * (lam(k, a) + (ka * self.R(k, a, ph)).scale(2)))
        else:
            r = sum1(K, lambda k: rd("C", (k, f)) * (lam(k, ZERO) + (ka * self.Rg(k, ph, J)).scale(2)))
        return r * rd(alive, (a,))

    def volume(self, a, ph, J, lam, alive):
        ka = var("kappa")
        if self.kind == "local":
            r = sum1(K, lambda k: self.R(k, a, ph) * (lam(k, a) + ka * self.R(k, a, ph)))
        else:
            r = sum1(K, lambda k: self.R(k, a, ph) * (lam(k, ZERO) + (ka * self.Rg(k, ph, J)).scale(2)))
        return r * rd(alive, (a,))

    def residual(self, k, a, ph, J, alive):
        """what the multiplier of condition k grows with"""
        if self.kind == "local":
            return self.R(k, a, ph) * rd(alive, (P(a),))
        return div(self.Rg(k, ph, J), sum1(M, lambda b: rd(J, (b,))))

    def error(self, ph, J, alive):
        if self.kind == "local":
            return maxof(K, lambda k: maxof(M, lambda a: absv(self.residual(k, a, ph, J, alive))))
        return maxof(K, lambda k: absv(self.residual(k, ZERO, ph, J, alive)))


def con_inputs(v, tag):
    ph = sym(v, "ph" + tag, (F, M))
    J = volumes(v, "J" + tag)
    b = sym_arr("alive" + tag, (M,), "b")
    ms = own(v, new_arr((M,), lambda ix: b.read(ix), "f"))
    return ph, J, ms


def lemma_derivative(kind):
    """the closed forms of the specification are the derivatives of the constraint energy"""
    def t(v):
        s = ConSpec(kind)
        c = v.m.ctx.copy()
        sym_arr("C", (K, F)), sym_arr("T", (K,)), sym_arr("ph", (F, M)), sym_arr("J", (M,), nonneg=True), sym_arr("alive", (M,), "b")
        sym_arr("lam", (K, M))
        lam = (lambda k, a: rd("lam", (P(k), P(a)))) if kind == "local" else (lambda k, a: rd("lam", (P(k), ZERO)))
        E = s.energy_total("ph", "J", lam)
        f, a = IX[0], IX[1]
        c.add(rd("alive", (a,)))
        bnd = [(f, F), (a, M)]
        # derivative with respect to the fractions, per volume
        v.zero("potential is the derivative of the constraint energy with respect to the fractions", diff(E, "ph", (f, a)) - rd("J", (a,)) * s.potential(f, a, "ph", "J", lam, "alive"), c, bnd)
        v.zero("volume derivative is the derivative of the constraint energy with respect to the volume", diff(E, "J", (a,)) - s.volume(a, "ph", "J", lam, "alive"), c, bnd)
    task("C12", f"lemma: forces are derivatives ({kind})")(t)


def constraint_sequence(kind, rounds):
    """initialise, (prepare, evolve)^rounds, prepare: forces, multipliers and residuals seen from outside"""
    def t(v):
        m = v.m

        def thunk():
            c = mk_constraint(v, kind)
            m.call(m.getattr(c, "initialize"), [num(M, "i")], {})
            v.e.io = []
            v.e.errs = []
            v.e.forces = []
            for r in range(rounds + 1):
                ph, J, ms = con_inputs(v, str(r))
                v.e.io.append((ph, J, ms))
                m.call(m.getattr(c, "prepare"), [ph, J, ms], {})
                pot, vol = m.getattr(c, "potential"), m.getattr(c, "volume_derivative")
                v.e.forces.append((npmodel.copy_arr(pot), npmodel.copy_arr(vol)))
                v.e.errs.append(m.call(m.getattr(c, "evolve"), [num(var(f"step{r}"), "f"), ms], {}))
            return None
        s = ConSpec(kind)
        for q in v.okpaths(v.run(thunk)):
            lam = lambda k, a: ZERO
            for r in range(rounds + 1):
                ph, J, al = f"ph{r}", f"J{r}", f"alive{r}"
                pot, vol = q.e.forces[r]
                v.same(f"potential in round {r} [{q.n}]", q, pot, (F, M), lambda ix: s.potential(ix[0], ix[1], ph, J, lam, al))
                v.same(f"volume derivative in round {r} [{q.n}]", q, vol, (M,), lambda ix: s.volume(ix[0], ph, J, lam, al))
                v.zero(f"returned error is the largest residual in round {r} [{q.n}]", lift(q.e.errs[r])[0] - s.error(ph, J, al), q.ctx)
                old = lam
                if kind == "local":
                    lam = lambda k, a, old=old, r=r: (old(k, a) + var(f"step{r}") * var("acc") * s.residual(k, a, f"ph{r}", f"J{r}", f"alive{r}")) * rd(f"alive{r}", (P(a),))
                else:
                    lam = lambda k, a, old=old, r=r: old(k, a) + var(f"step{r}") * var("acc") * s.residual(k, a, f"ph{r}", f"J{r}", f"alive{r}")
            for r, (ph, J, ms) in enumerate(q.e.io):
                v.unchanged(q, **{f"fractions of round {r}": ph, f"volumes of round {r}": J, f"masks of round {r}": ms})
            v.unchanged(q, Cs=q.e.C, Ts=q.e.T)
    task("C12", f"{kind} constraint, {rounds} updates", seconds=120)(t)


def constraint_state(kind):
    """one step from an arbitrary multiplier (representation: attribute _multiplier)"""
    def t(v):
        m = v.m

        def thunk():
            c = mk_constraint(v, kind)
            m.call(m.getattr(c, "initialize"), [num(M, "i")], {})
            if "_multiplier" not in c.attrs:
                raise Missing("attribute _multiplier")
            lam = sym(v, "lam", (K, M) if kind == "local" else (K,))
            c.attrs["_multiplier"] = lam
            ph, J, ms = con_inputs(v, "")
            m.call(m.getattr(c, "prepare"), [ph, J, ms], {})
            v.e.f = npmodel.copy_arr(m.getattr(c, "potential")), npmodel.copy_arr(m.getattr(c, "volume_derivative"))
            v.e.err = m.call(m.getattr(c, "evolve"), [num(var("step"), "f"), ms], {})
            v.e.lam = c.attrs["_multiplier"]
            v.e.io = ph, J, ms
            return None
        s = ConSpec(kind)
        lam = (lambda k, a: rd("lam", (P(k), P(a)))) if kind == "local" else (lambda k, a: rd("lam", (P(k),)))
        for q in v.okpaths(v.run(thunk)):
            v.same(f"potential [{q.n}]", q, q.e.f[0], (F, M), lambda ix: s.potential(ix[0], ix[1], "ph", "J", lam, "alive"))
            v.same(f"volume derivative [{q.n}]", q, q.e.f[1], (M,), lambda ix: s.volume(ix[0], "ph", "J", lam, "alive"))
            v.zero(f"returned error [{q.n}]", lift(q.e.err)[0] - s.error("ph", "J", "alive"), q.ctx)
            grow = lambda k, a: lam(k, a) + var("step") * var("acc") * s.residual(k, a, "ph", "J", "alive")
            if kind == "local":
                v.same(f"multiplier grows by step * acceptance * residual [{q.n}]", q, q.e.lam, (K, M), lambda ix: grow(ix[0], ix[1]) * rd("alive", (ix[1],)))
            else:
                v.same(f"multiplier grows by step * acceptance * residual [{q.n}]", q, q.e.lam, (K,), lambda ix: grow(ix[0], ZERO))
            v.unchanged(q, fractions=q.e.io[0], volumes=q.e.io[1], masks=q.e.io[2])
    task("C12 C08", f"{kind} constraint, any history", internal=f"representation:{kind} constraint", seconds=120)(t)


for kind in ("local", "global"):
    lemma_derivative(kind)
    constraint_state(kind)
    for r in (0, 1, 2):
        constraint_sequence(kind, r)


def no_constraint():
    def t(v):
        m = v.m

        def thunk():
            c = mk_constraint(v, "no")
            m.call(m.getattr(c, "initialize"), [num(M, "i")], {})
            ph, J, ms = con_inputs(v, "0")
            v.e.io = ph, J, ms
            m.call(m.getattr(c, "prepare"), [ph, J, ms], {})
            v.e.f = m.getattr(c, "potential"), m.getattr(c, "volume_derivative")
            v.e.err = m.call(m.getattr(c, "evolve"), [num(var("step"), "f"), ms], {})
            v.e.g = m.getattr(c, "potential"), m.getattr(c, "volume_derivative")
            return m.getattr(c, "num_feat")
        for q in v.okpaths(v.run(thunk)):
            for nm, (a, b) in (("prepare", q.e.f), ("evolve", q.e.g)):
                v.same(f"no force after {nm} [{q.n}]", q, a, (F, M), lambda ix: ZERO)
                v.same(f"no pressure after {nm} [{q.n}]", q, b, (M,), lambda ix: ZERO)
            v.zero(f"no error [{q.n}]", lift(q.e.err)[0], q.ctx)
            v.zero(f"number of features [{q.n}]", lift(q.val)[0] - F, q.ctx)
            v.unchanged(q, fractions=q.e.io[0], volumes=q.e.io[1], masks=q.e.io[2])
    task("C12", "trivial constraint")(t)


no_constraint()
