"""Concrete contracts for C04, C05."""
import numpy as np
import copy
import spec
from gen import case, need, same, Fail, Skip
import flory
from flory.interaction import FloryHugginsInteraction, FloryHugginsBlockInteraction
from flory.entropy import IdealGasEntropy, IdealGasPolydispersedEntropy


def unchanged(arg, before, what):
    need(np.array_equal(np.asarray(arg), np.asarray(before)), f"{what} changed the caller's array", before=before, after=arg)


def call(f, msg, **d):
    try:
        return f()
    except Exception as e:
        raise Fail(f"{msg}: {type(e).__name__}: {e}", **d)


def rejects(f, msg, **d):
    try:
        f()
    except Exception:
        return
    raise Fail(msg + " accepted", **d)


def form(g, shape, lo=-4, hi=4, pos=False):
    """one way of supplying a parameter of the given full shape"""
    r = g.rng.random()
    if r < 0.2:
        v = g.pos(0.2, 9) if pos else g.val(lo, hi)
        return int(np.ceil(v)) if g.p(0.4) else v
    if r < 0.35 and len(shape) == 2:
        s = (shape[1],)
    elif r < 0.45:
        s = tuple(1 if g.p(0.5) else x for x in shape)
    else:
        s = shape
    a = g.posarr(s, 0.2, 9) if pos else g.arr(s, lo, hi)
    if g.p(0.25):
        a = np.ceil(a).astype(g.choice([int, np.int32, np.int8]))
    elif g.p(0.1):
        a = a.astype(np.float32)
    return g.layout(a)


def compiled_chi(g, inter, S, M=3):
    c = call(lambda: inter.compiled(), "interaction cannot be compiled")
    need(c.num_feat == S, "compiled interaction reports a wrong number of features", got=int(c.num_feat), want=S)
    return c, c.potential(np.eye(S))


@case("C04", "chis")
def c04_chis(g):
    n = g.dim(1, 5, "num_comp")
    x = form(g, (n, n))
    b = copy.deepcopy(x)
    want = spec.sym(b, n)
    tol = dict(rtol=1e-6, atol=1e-6) if np.asarray(b).dtype == np.float32 else {}
    via = g.choice(["ctor", "setter", "fh", "fhsetter", "ctor+compile"])
    if via.startswith("ctor"):
        i = call(lambda: FloryHugginsInteraction(n, x), "constructor", x=b)
    elif via == "setter":
        i = FloryHugginsInteraction(n, g.arr((n, n)))
        if g.p(0.3):
            i.set_uniform_chis(int(g.rng.integers(-3, 4)))

        def f():
            i.chis = x
        call(f, "setter", x=b)
    else:
        fe = flory.FloryHuggins(n, x if via == "fh" else 0)
        if via == "fhsetter":
            fe.chis = x
        i = fe.interaction
        same(fe.chis, want, "interaction matrix of the mixture", x=b, **tol)
    unchanged(x, b, via)
    need(int(i.num_comp) == n, "number of components")
    same(i.chis, want, f"stored interaction matrix ({via})", x=b, **tol)
    same(i.independent_entries, want[np.triu_indices(n)], "independent entries", x=b, **tol)
    c, chi_c = compiled_chi(g, i, n)
    same(chi_c, want, "compiled interaction matrix", x=b, **tol)
    if isinstance(x, np.ndarray) and x.flags.writeable and x.ndim:
        x[...] = 77
        same(i.chis, want, "stored matrix aliases the caller's array", x=b, **tol)
    phi = g.rng.random((n, 4))
    pot = c.potential(phi)
    same(pot, want @ phi, "compiled potential", chi=want, phi=phi, rtol=1e-5 if tol else 1e-9, atol=1e-5 if tol else 1e-9)
    same(c.volume_derivative(pot, phi), 0.5 * (pot * phi).sum(0), "compiled volume derivative", chi=want, phi=phi)


@case("C04", "chis-shapes", weight=0.5)
def c04_badshape(g):
    n = g.dim(2, 5, "num_comp")
    bad = g.choice([(n + 1,), (n, n + 1), (n + 1, n + 1), (n + 1, n), (2, n, n), (n - 1, n - 1) if n > 2 else (n + 2,)])
    x = g.rng.random(bad)
    rejects(lambda: FloryHugginsInteraction(n, x), f"interaction matrix of shape {bad} for {n} components")
    i = FloryHugginsInteraction(n, 1.5)

    def f():
        i.chis = x
    rejects(f, f"assigned interaction matrix of shape {bad} for {n} components")
    same(i.chis, np.full((n, n), 1.5), "rejected assignment changed the interaction matrix")
    bad1 = g.choice([(n + 1,), (n, n), (n - 1,) if n > 2 else (n + 3,), (1, n), (0,)])
    y = g.rng.random(bad1) + 0.1
    if bad1 == (n, n) or bad1 != (1,):
        rejects(lambda: IdealGasEntropy(n, y), f"sizes of shape {bad1} for {n} components")
        e = IdealGasEntropy(n, 2.0)

        def f2():
            e.sizes = y
        rejects(f2, f"assigned sizes of shape {bad1}")
        same(e.sizes, np.full(n, 2.0), "rejected assignment changed the sizes")
        rejects(lambda: flory.CanonicalEnsemble(n, y), f"mean fractions of shape {bad1} for {n} components")
        rejects(lambda: flory.GrandCanonicalEnsemble(n, y), f"activities of shape {bad1} for {n} components")
        rejects(lambda: flory.GrandCanonicalEnsemble.from_chemical_potential(n, y), f"chemical potentials of shape {bad1}")
        rejects(lambda: flory.GrandCanonicalEnsemble.from_chemical_potential(n, 0.5, y), f"sizes of shape {bad1} in from_chemical_potential")
    for k in (flory.LinearLocalConstraint, flory.LinearGlobalConstraint):
        rejects(lambda: k(n, g.rng.random((2, n + 1)), [1, 2]), f"{k.__name__} with a matrix for {n+1} features")
        rejects(lambda: k(n, g.rng.random((2, 2, n)), [1, 2]), f"{k.__name__} with a 3d matrix")
        rejects(lambda: k(n, g.rng.random((2, n)), [1, 2, 3]), f"{k.__name__} with too many targets")
    for m in (0, -1):
        rejects(lambda: flory.CanonicalEnsemble(m), f"canonical ensemble with {m} components")
        rejects(lambda: flory.GrandCanonicalEnsemble(m, 1.0), f"grand-canonical ensemble with {m} components")


@case("C04", "uniform", weight=0.7)
def c04_uniform(g):
    n = g.dim(1, 6, "num_comp")
    chi = g.choice([g.val(-4, 4), int(g.rng.integers(-4, 5)), np.float32(0.5), np.int64(2)])
    van = g.p(0.6)
    want = np.full((n, n), float(chi))
    if van:
        want[np.arange(n), np.arange(n)] = 0
    kw = {} if van and g.p(0.5) else dict(vanishing_diagonal=van)
    s = g.posarr(n)
    via = g.choice(["from", "set", "fh"])
    if via == "from":
        i = FloryHugginsInteraction.from_uniform(n, chi, **kw)
    elif via == "set":
        i = FloryHugginsInteraction(n, g.arr((n, n)))
        i.set_uniform_chis(chi, **kw)
    else:
        fe = flory.FloryHuggins.from_uniform(n, chi, sizes=s, **kw)
        i = fe.interaction
        same(fe.sizes, s, "sizes of from_uniform")
    same(i.chis, want, f"uniform interaction matrix ({via})", chi=float(chi), vanishing=van)
    c, cc = compiled_chi(g, i, n)
    same(cc, want, "compiled uniform matrix")
    # a later assignment is not affected by what was stored before
    x = g.arr((n, n))
    i.chis = x
    same(i.chis, spec.sym(x, n), "interaction matrix assigned after a uniform one")


@case("C04", "random", weight=0.7)
def c04_random(g):
    n = g.dim(1, 7, "num_comp")
    van = g.p(0.6)
    mean, std = g.val(-3, 3), g.pos(0.1, 4)
    if g.p(0.3):
        mean = int(np.round(mean))
    kw = {} if van and g.p(0.5) else dict(vanishing_diagonal=van)
    seed = int(g.rng.integers(1 << 30))

    def make(mean, std, seed=seed):
        rng = np.random.default_rng(seed)
        if via == "from":
            return FloryHugginsInteraction.from_random_normal(n, mean, std, rng=rng, **kw)
        if via == "set":
            i = FloryHugginsInteraction(n, g.arr((n, n)))
            if pre:
                i.set_uniform_chis(3, vanishing_diagonal=False)
            i.set_random_chis(mean, std, rng=rng, **kw)
            return i
        return flory.FloryHuggins.from_random_normal(n, mean, std, rng=rng, sizes=sz, **kw).interaction

    pre = g.p(0.5)
    sz = g.posarr(n)
    via = g.choice(["from", "set", "fh"])
    i = make(mean, std)
    c = np.array(i.chis)
    need(c.shape == (n, n), "shape of the random interaction matrix", shape=c.shape)
    same(c, c.T, "random interaction matrix is not symmetric")
    if van:
        need(np.all(np.diag(c) == 0), "diagonal of the random matrix does not vanish", chis=c)
    iu = np.triu_indices(n, 1 if van else 0)
    v = c[iu]
    need(len(set(v.tolist())) == len(v), "random entries are not independent draws", chis=c, via=via, pre=pre)
    need(not (len(v) > 2 and np.all(v == np.round(v))), "random entries are truncated", chis=c)
    same(make(mean, std).chis, c, "random matrix is not reproducible from the generator")
    c01 = np.array(make(0, 1).chis)
    same(c[iu], mean + std * c01[iu], "random entries do not follow mean + std * standard normal", mean=mean, std=std, via=via)
    same(make(mean, 0.0).chis[iu], np.full(len(v), float(mean)), "zero width does not give the mean")
    cc = compiled_chi(g, i, n)[1]
    same(cc, c, "compiled random matrix")
    if g.p(0.5):
        rng = np.random.default_rng(seed)
        if via == "set":
            d = FloryHugginsInteraction(n, 1.0)
            d.set_random_chis(rng=rng, **kw)
        else:
            d = (FloryHugginsInteraction if via == "from" else flory.FloryHuggins).from_random_normal(n, rng=rng, **kw)
        same(d.chis, c01, "defaults are not mean 0 and width 1")
        e = FloryHugginsInteraction.from_random_normal(n)
        need(np.all(np.isfinite(e.chis)) and np.array_equal(e.chis, e.chis.T) and np.all(np.diag(e.chis) == 0), "default random matrix", chis=e.chis)


@case("C04", "random-statistics", weight=0.1)
def c04_randstat(g):
    n = 90
    van = g.p(0.5)
    i = FloryHugginsInteraction.from_random_normal(n, 2.0, 0.5, vanishing_diagonal=van, rng=np.random.default_rng(int(g.rng.integers(1 << 30))))
    v = i.chis[np.triu_indices(n, 1 if van else 0)]
    m, s = v.mean(), v.std()
    k = len(v)
    need(abs(m - 2) < 9 * 0.5 / np.sqrt(k) and abs(s - 0.5) < 9 * 0.5 / np.sqrt(2 * k), "statistics of the random matrix", mean=m, std=s)


@case("C04", "sizes")
def c04_sizes(g):
    n = g.dim(1, 6, "num_comp")
    x = None if g.p(0.1) else form(g, (n,), pos=True)
    b = copy.deepcopy(x)
    want = np.ones(n) if b is None else spec.bc(b, (n,))
    tol = dict(rtol=1e-6) if b is not None and np.asarray(b).dtype == np.float32 else {}
    via = g.choice(["ctor", "setter", "fh", "fhsetter", "poly", "polysetter"])
    if b is None and "setter" in via:
        via = "ctor"
    if via == "ctor":
        e = IdealGasEntropy(n, x) if b is not None else IdealGasEntropy(n)
    elif via == "setter":
        e = IdealGasEntropy(n, g.posarr(n))
        e.sizes = x
    elif via == "fh":
        e = flory.FloryHuggins(n, 0, x).entropy
    elif via == "fhsetter":
        fe = flory.FloryHuggins(n, 0)
        fe.sizes = x
        e = fe.entropy
        same(fe.sizes, want, "sizes of the mixture", **tol)
    else:
        counts = []
        while sum(counts) < n:
            counts.append(int(min(n - sum(counts), g.rng.integers(1, 4))))
        e = IdealGasPolydispersedEntropy(len(counts), x if via == "poly" else 1.0, counts)
        if via == "polysetter":
            e.sizes = x
    if x is not None:
        unchanged(x, b, via)
    need(int(e.num_comp) == n, "number of components")
    same(e.sizes, want, f"stored sizes ({via})", x=b, **tol)
    if isinstance(x, np.ndarray) and x.flags.writeable and x.ndim:
        x[...] = 55
        same(e.sizes, want, "stored sizes alias the caller's array", x=b, **tol)
    c = call(lambda: e.compiled(), "entropy cannot be compiled", x=b)
    need(int(c.num_comp) == n, "components of the compiled entropy")
    S = int(c.num_feat)
    phis = np.zeros((n, 2))
    c.partition(phis, np.full((S, 2), 0.3), np.ones(2))
    same(-np.log(phis[:, 0]) / 0.3, want, "compiled sizes", rtol=1e-6 if tol else 1e-9, x=b)
    same(c.volume_derivative(np.ones((n, 2))), np.full(2, -(1 / want).sum()), "compiled sizes in the volume derivative", rtol=1e-6 if tol else 1e-9, x=b)


@case("C04", "canonical")
def c04_canon(g):
    n = g.dim(1, 6, "num_comp")
    r = g.rng.random()
    if r < 0.15:
        x = None
    elif r < 0.3:
        x = 1.0 / n
    elif r < 0.4:
        x = 1
    elif r < 0.55:
        x = (np.arange(n) == g.rng.integers(n)).astype(int)
    elif r < 0.65:
        x = [1.0 / n]
    else:
        x = g.layout(g.compositions((), n))
    b = copy.deepcopy(x)
    want = np.full(n, 1 / n) if b is None else spec.bc(b, (n,))
    if g.p(0.5) or b is None:
        e = call(lambda: flory.CanonicalEnsemble(n, x), "canonical ensemble", x=b)
        if b is None and g.p(0.5):
            e = flory.CanonicalEnsemble(n)
    else:
        e = flory.CanonicalEnsemble(n)

        def f():
            e.phi_means = x
        call(f, "mean fractions setter", x=b)
    if x is not None:
        unchanged(x, b, "canonical ensemble")
    same(e.phi_means, want, "stored mean fractions", x=b)
    need(int(e.num_comp) == n, "number of components")
    c = call(lambda: e.compiled(), "canonical ensemble cannot be compiled", x=b)
    if isinstance(x, np.ndarray) and x.flags.writeable and x.ndim:
        x[...] = 9
        same(e.phi_means, want, "stored mean fractions alias the caller's array", x=b)
    p = np.ones((n, 3))
    c.normalize(p, np.ones(n), np.ones(3))
    same(p, np.repeat(want[:, None], 3, 1), "compiled mean fractions", x=b)


@case("C04", "grandcanonical")
def c04_gc(g):
    n = g.dim(1, 6, "num_comp")
    x = form(g, (n,), pos=True)
    b = copy.deepcopy(x)
    tol = dict(rtol=1e-5) if np.asarray(b).dtype == np.float32 else {}
    via = g.choice(["ctor", "setter", "mu", "mu-sizes"])
    if via == "ctor":
        e = flory.GrandCanonicalEnsemble(n, x)
        want = spec.bc(b, (n,))
    elif via == "setter":
        e = flory.GrandCanonicalEnsemble(n, 1.0)
        e.scaled_activity = x
        want = spec.bc(b, (n,))
    elif via == "mu":
        e = flory.GrandCanonicalEnsemble.from_chemical_potential(n, x)
        want = np.exp(spec.bc(b, (n,)))
    else:
        s = form(g, (n,), pos=True)
        s0 = copy.deepcopy(s)
        if np.asarray(s0).dtype == np.float32:
            tol = dict(rtol=1e-4)
        e = flory.GrandCanonicalEnsemble.from_chemical_potential(n, x, s)
        l = spec.bc(s0, (n,))
        want = l * np.exp(l * spec.bc(b, (n,)))
        unchanged(s, s0, via)
    unchanged(x, b, via)
    if np.asarray(b).dtype == np.float32:
        tol = dict(rtol=1e-4)
    same(e.scaled_activity, want, f"stored activities ({via})", x=b, **tol)
    c = call(lambda: e.compiled(), "grand-canonical ensemble cannot be compiled", x=b)
    p = np.ones((n, 2))
    c.normalize(p, np.ones(n), np.ones(2))
    same(p, np.repeat(want[:, None], 2, 1), "compiled activities", x=b, **(tol or dict(rtol=1e-9)))


@case("C04", "constraints")
def c04_cons(g):
    S = g.dim(1, 5, "num_feat")
    K = g.dim(1, 4, "num_cons", big=12)
    cls = g.choice([flory.LinearLocalConstraint, flory.LinearGlobalConstraint])
    if g.p(0.25):
        K = 1
        Cs = g.layout(g.arr((S,)))
    else:
        Cs = g.arr((K, S))
        if g.p(0.2):
            Cs = np.round(Cs).astype(int)
        Cs = g.layout(Cs)
    Ts = form(g, (K,), -1, 1)
    c0, t0 = copy.deepcopy(Cs), copy.deepcopy(Ts)
    wc, wt = spec.bc(c0, (K, S)), spec.bc(t0, (K,))
    if g.p(0.6):
        c = call(lambda: cls(S, Cs, Ts), "linear constraint", Cs=c0, Ts=t0)
    else:
        c = cls(S, g.arr((K, S)), g.arr((K,)))
        if g.p(0.5):
            c.compiled()
        c.Cs = Cs
        c.Ts = Ts
    unchanged(Cs, c0, "constraint")
    unchanged(Ts, t0, "constraint")
    tol = dict(rtol=1e-6, atol=1e-6) if np.asarray(t0).dtype == np.float32 else {}
    same(c.Cs, wc, "stored constraint matrix", Cs=c0)
    same(c.Ts, wt, "stored constraint targets", Ts=t0, **tol)
    k = call(lambda: c.compiled(constraint_elasticity=0.5), "constraint cannot be compiled", Cs=c0, Ts=t0)
    need(int(k.num_feat) == S, "features of the compiled constraint")
    M = 2
    k.initialize(M)
    phi = g.rng.random((S, M))
    J = np.ones(M)
    k.prepare(phi, J, np.ones(M))
    r = wc @ phi - wt[:, None]
    if cls is flory.LinearLocalConstraint:
        pot = wc.T @ r
        err = np.abs(r).max()
    else:
        pot = np.repeat((wc.T @ r.sum(1))[:, None], M, 1)
        err = np.abs(r.mean(1)).max()
    same(np.asarray(k.potential), pot, "compiled constraint parameters", rtol=1e-6, atol=1e-6, Cs=c0, Ts=t0)
    same(k.evolve(0.0, np.ones(M)), err, "compiled constraint residual", rtol=1e-6, atol=1e-6, Cs=c0, Ts=t0)


def counts_of(g, S, zero=False):
    r = g.rng.random()
    if r < 0.15:
        return np.full(S, g.dim(1, 3, "num_comp_per_feat", big=5))
    lo = 0 if zero and g.p(0.3) else 1
    c = g.rng.integers(lo, 5, S)
    if c.sum() == 0:
        c[0] = 1
    return c


@case("C04", "block")
def c04_block(g):
    S = g.dim(1, 5, "num_feat", big=20)
    counts = counts_of(g, S)
    x = form(g, (S, S))
    b = copy.deepcopy(x)
    cin = g.choice([counts, counts.tolist(), counts.astype(np.int32)])
    if np.all(counts == counts[0]) and g.p(0.5):
        cin = int(counts[0])
    c0 = copy.deepcopy(cin)
    if g.p(0.5):
        i = call(lambda: FloryHugginsBlockInteraction(S, x, cin), "block interaction", x=b, counts=counts)
    else:
        i = FloryHugginsBlockInteraction(S, 0.0, cin)

        def f():
            i.chis_feat = x
        call(f, "feature interaction setter", x=b)
    unchanged(x, b, "block interaction")
    unchanged(cin, c0, "block interaction")
    ws = spec.sym(b, S)
    feat = spec.expand(counts)
    tol = dict(rtol=1e-6, atol=1e-6) if np.asarray(b).dtype == np.float32 else {}
    need(int(i.num_comp) == counts.sum() and int(i.num_feat) == S, "sizes of the block interaction")
    same(i.num_comp_per_feat, counts, "components per feature")
    same(i.chis_feat, ws, "feature interaction matrix", x=b, **tol)
    same(i.chis, ws[np.ix_(feat, feat)], "expanded interaction matrix", x=b, counts=counts, **tol)
    c, cc = compiled_chi(g, i, S)
    same(cc, ws, "compiled feature matrix", x=b, **tol)
    need(c.incomp_coef(np.zeros((S, 2))) is not None, "incompressibility coefficient")


# ------------------------------------------------------------------------------- C05
@case("C05", "energies")
def c05_energy(g):
    S = g.dim(1, 4, "num_feat", big=20)
    counts = counts_of(g, S, zero=True)
    n = int(counts.sum())
    feat = spec.expand(counts)
    chi_in = g.arr((S, S))
    l = g.posarr(n)
    blk = FloryHugginsBlockInteraction(S, chi_in, counts)
    full = spec.sym(chi_in, S)[np.ix_(feat, feat)]
    pol = IdealGasPolydispersedEntropy(S, l, counts)
    if g.p(0.15):  # nothing said about the components: one per feature
        counts, n, feat, full = np.ones(S, int), S, np.arange(S), spec.sym(chi_in, S)
        l = g.posarr(n)
        blk, pol = FloryHugginsBlockInteraction(S, chi_in), IdealGasPolydispersedEntropy(S, l)
        need(int(blk.num_comp) == S and int(pol.num_comp) == S, "components of a model without component numbers", num_feat=S, got=[int(blk.num_comp), int(pol.num_comp)])
    fe = flory.FreeEnergyBase(blk, pol)
    phi = np.maximum(g.compositions(g.batch(), n), 1e-6)
    d = dict(chi_feat=chi_in, counts=counts, sizes=l, phi=phi)
    same(fe.free_energy_density(phi), spec.f(phi, full, l), "energy of the feature-based model", **d)
    same(fe.jacobian(phi), spec.grad(phi, full, l), "gradient of the feature-based model", **d)
    same(fe.hessian(phi), spec.hess(phi, full, l), "Hessian of the feature-based model", rtol=1e-8, **d)
    k = int(g.rng.integers(n))
    same(fe.jacobian(phi, k), spec.grad_red(phi, full, l, k), "reduced gradient of the feature-based model", **d)
    # after changing the feature matrix
    chi2 = g.arr((S, S))
    blk.chis_feat = chi2
    full2 = spec.sym(chi2, S)[np.ix_(feat, feat)]
    same(fe.free_energy_density(phi), spec.f(phi, full2, l), "energy after changing the feature matrix", **d)


@case("C05", "compiled")
def c05_compiled(g):
    S = g.dim(1, 5, "num_feat", big=24)
    M = g.dim(1, 6, "num_part")
    counts = counts_of(g, S, zero=True)
    n = int(counts.sum())
    feat = spec.expand(counts)
    l = g.posarr(n, 0.3, 5)
    cin = counts if g.p(0.7) or not np.all(counts == counts[0]) else int(counts[0])
    e = IdealGasPolydispersedEntropy(S, l, cin)
    c = e.compiled()
    d = dict(counts=counts, sizes=l)
    need(int(c.num_comp) == n and int(c.num_feat) == S, "sizes of the compiled polydisperse entropy", **d)
    w = g.arr((S, M), -2, 2)
    J = g.rng.random(M) * 2
    J[g.rng.random(M) < 0.2] = 0
    if J.sum() == 0:
        J[0] = 1
    phi = g.rng.random((n, M))
    w0, J0 = w.copy(), J.copy()
    Q = c.partition(phi, w, J)
    p = np.exp(-w0[feat] * l[:, None])
    same(phi, p, "Boltzmann weights of the polydisperse entropy", omegas=w0, Js=J0, **d)
    same(Q, (p * J0).sum(1) / J0.sum(), "partition sums of the polydisperse entropy", omegas=w0, Js=J0, **d)
    same(w, w0, "fields modified")
    same(J, J0, "volumes modified")
    # equivalence with the expanded component-based entropy
    c2 = IdealGasEntropy(n, l).compiled()
    phi2 = np.zeros((n, M))
    Q2 = c2.partition(phi2, np.ascontiguousarray(w0[feat]), J0)
    same(phi, phi2, "weights differ from the expanded model", **d)
    same(Q, Q2, "partition sums differ from the expanded model", **d)
    x = g.rng.random((n, M))
    x0 = x.copy()
    pf = g.rng.random((S, M))
    c.comp_to_feat(pf, x)
    want = np.zeros((S, M))
    np.add.at(want, feat, x0)
    same(pf, want, "feature fractions are not the sums over their components", phis=x0, **d)
    same(x, x0, "component fractions modified")
    same(c.volume_derivative(x), -(x0 / l[:, None]).sum(0), "volume derivative of the polydisperse entropy", phis=x0, **d)
    same(c2.volume_derivative(x), c.volume_derivative(x), "volume derivative differs from the expanded model", **d)


@case("C05", "interaction-compiled")
def c05_inter(g):
    S = g.dim(1, 5, "num_feat", big=20)
    M = g.dim(1, 5, "num_part")
    counts = counts_of(g, S, zero=True)
    feat = spec.expand(counts)
    chi_in = g.arr((S, S))
    blk = FloryHugginsBlockInteraction(S, chi_in, counts)
    n = int(counts.sum())
    full = FloryHugginsInteraction(n, spec.sym(chi_in, S)[np.ix_(feat, feat)])
    same(blk.chis, full.chis, "expanded matrix", chi_feat=chi_in, counts=counts)
    x = g.rng.random((n, M))
    pf = np.zeros((S, M))
    np.add.at(pf, feat, x)
    cb, cf = blk.compiled(), full.compiled()
    pb, pc = cb.potential(pf), cf.potential(x)
    same(pb[feat], pc, "potential of a feature differs from that of its components", chi_feat=chi_in, counts=counts)
    same(cb.volume_derivative(pb, pf), cf.volume_derivative(pc, x), "interaction volume derivative differs", chi_feat=chi_in, counts=counts)
