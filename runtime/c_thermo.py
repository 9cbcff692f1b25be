"""Concrete contracts for C01, C02, C03."""
import numpy as np
import spec
from gen import case, need, same, Fail, Skip
import flory
from flory.common import VolumeFractionError, ComponentNumberError


def model(g, want_block=None, n=None):
    """a free energy instance and the parameters the spec needs (chi, l, n)"""
    block = g.p(0.3) if want_block is None else want_block
    if block:
        S = g.dim(1, 4, "num_feat", big=20)
        counts = g.rng.integers(1, 4, S) if g.p(0.7) else np.full(S, g.dim(1, 3, "num_comp_per_feat", big=6))
        chi_in = g.arr((S, S), -4, 4)
        if g.p(0.6):
            chi_in = (chi_in + chi_in.T) / 2
        n = int(counts.sum())
        feat = spec.expand(counts)
        chi = spec.sym(chi_in, S)[np.ix_(feat, feat)]
        inter = flory.FloryHugginsBlockInteraction(S, chi_in, counts)
        l, lin = sizes(g, n)
        if g.p(0.5):
            ent = flory.IdealGasPolydispersedEntropy(S, lin, counts)
        else:
            ent = flory.IdealGasEntropy(n, lin)
        return flory.FreeEnergyBase(inter, ent), chi, l, n
    n = n or g.dim(1, 6, "num_comp")
    r = g.rng.random()
    if r < 0.15:
        chi_in = g.val(-4, 4)
    elif r < 0.25:
        chi_in = g.arr((n,), -4, 4)
    else:
        chi_in = g.arr((n, n), -4, 4)
        if g.p(0.5):
            chi_in = (chi_in + chi_in.T) / 2
    l, lin = sizes(g, n)
    chi = spec.sym(chi_in, n)
    if g.p(0.5):
        fe = flory.FloryHuggins(n, chi_in, lin)
    else:
        fe = flory.FreeEnergyBase(flory.FloryHugginsInteraction(n, chi_in), flory.IdealGasEntropy(n, lin))
    return fe, chi, l, n


def sizes(g, n):
    r = g.rng.random()
    if r < 0.2:
        return np.ones(n), None
    if r < 0.35:
        s = g.pos(0.2, 20)
        return np.full(n, s), s
    if r < 0.5:
        s = g.rng.integers(1, 9, n)
        return s.astype(float), s
    s = g.posarr(n, 0.2, 20)
    return s, s


@case("C01", "energy")
def c01_energy(g):
    fe, chi, l, n = model(g)
    b = g.batch()
    phi = g.compositions(b, n, zeros=g.p(0.4), normalized=g.p(0.6))
    if g.p(0.1):
        phi = np.eye(n)[g.rng.integers(0, n, b)] if b else np.eye(n)[int(g.rng.integers(n))]
        if g.p(0.5):
            phi = phi.astype(int)
    keep = phi.copy()
    got = fe.free_energy_density(g.layout(phi))
    same(got, spec.f(keep, chi, l), "free energy density differs from the Flory-Huggins formula", chi=chi, sizes=l, phi=keep)


@case("C01", "gradient")
def c01_grad(g):
    fe, chi, l, n = model(g)
    phi = g.compositions(g.batch(), n, normalized=g.p(0.5))
    got = fe.jacobian(g.layout(phi))
    same(got, spec.grad(phi, chi, l), "gradient differs from the derivative of the formula", chi=chi, sizes=l, phi=phi)
    k = int(g.rng.integers(n))
    got = fe.jacobian(phi, k)
    same(got, spec.grad_red(phi, chi, l, k), "reduced gradient differs", chi=chi, sizes=l, phi=phi, index=k)


@case("C01", "hessian")
def c01_hess(g):
    fe, chi, l, n = model(g)
    phi = g.compositions(g.batch(), n, normalized=g.p(0.5))
    phi = np.maximum(phi, 1e-6)
    got = fe.hessian(g.layout(phi))
    same(got, spec.hess(phi, chi, l), "Hessian differs from the second derivative of the formula", rtol=1e-8, chi=chi, sizes=l, phi=phi)
    k = int(g.rng.integers(n))
    got = fe.hessian(phi, k)
    want = spec.hess_red(phi, chi, l, k)
    scale = np.abs(spec.hess(phi, chi, l)).max() if n else 1
    same(got, want, "reduced Hessian differs", rtol=1e-8, atol=1e-10 * max(1, scale), chi=chi, sizes=l, phi=phi, index=k)


@case("C01", "after-parameter-change", weight=0.4)
def c01_setters(g):
    n = g.dim(1, 5, "num_comp")
    fe = flory.FloryHuggins(n, g.arr((n, n)), g.posarr(n))
    phi = g.compositions(g.batch(), n)
    fe.free_energy_density(phi)
    fe.jacobian(phi)
    chi_in = g.arr((n, n))
    s = g.posarr(n)
    if g.p(0.7):
        fe.chis = chi_in
    else:
        fe.interaction.chis = chi_in
    if g.p(0.7):
        fe.sizes = s
    else:
        fe.entropy.sizes = s
    chi = spec.sym(chi_in, n)
    same(fe.free_energy_density(phi), spec.f(phi, chi, s), "free energy after parameter change", chi=chi, sizes=s, phi=phi)
    same(fe.jacobian(phi), spec.grad(phi, chi, s), "gradient after parameter change", chi=chi, sizes=s, phi=phi)
    same(fe.hessian(phi), spec.hess(phi, chi, s), "Hessian after parameter change", rtol=1e-8, chi=chi, sizes=s, phi=phi)


def same_mu(got, want, msg, **d):
    got = np.asarray(got, float)
    want = np.asarray(want, float)
    if got.size != want.size:
        raise Fail(msg + f": shape {got.shape} instead of {want.shape}", **d)
    # a single composition may be returned with a leading axis of length one
    if got.shape != want.shape:
        if got.shape == (1,) + want.shape:
            got = got[0]
        else:
            raise Fail(msg + f": shape {got.shape} instead of {want.shape}", **d)
    with np.errstate(invalid="ignore"):
        same(got, want, msg, rtol=1e-8, atol=1e-8, **d)


@case("C02", "chemical-potentials")
def c02_mu(g):
    fe, chi, l, n = model(g)
    phi = g.compositions(g.batch(), n, zeros=g.p(0.3), normalized=g.p(0.6))
    want = spec.mu(phi, chi, l)
    with np.errstate(divide="ignore"):
        got = fe.chemical_potentials(g.layout(phi))
        same_mu(got, want, "chemical potentials differ from f + df/dphi_i - sum_j phi_j df/dphi_j", chi=chi, sizes=l, phi=phi)
        k = int(g.rng.integers(n))
        pr = fe.pressure(phi, k)
    w = -want[..., k]
    pr = np.asarray(pr, float)
    if pr.shape != w.shape and pr.size == w.size and pr.shape == (1,) + w.shape:
        pr = pr[0]
    same(pr, w, "pressure is not minus the chemical potential of the named component", rtol=1e-8, atol=1e-8, chi=chi, sizes=l, phi=phi, index=k)


@case("C02", "exchange-potentials")
def c02_ex(g):
    fe, chi, l, n = model(g)
    phi = g.compositions(g.batch(), n, normalized=g.p(0.6))
    k = int(g.rng.integers(n))
    gr = spec.grad(phi, chi, l)
    same_mu(fe.exchange_chemical_potentials(g.layout(phi), k), gr - gr[..., [k]], "exchange chemical potentials differ", chi=chi, sizes=l, phi=phi, index=k)


@case("C02", "stability")
def c02_stab(g):
    fe, chi, l, n = model(g)
    if n < 2:
        raise Skip
    b = g.batch()
    phi = np.maximum(g.compositions(b, n), 1e-4)
    for conserved in (True, False):
        h = spec.hess_red(phi, chi, l, 0) if conserved else spec.hess(phi, chi, l)
        ev = np.linalg.eigvalsh(h)
        if np.any(np.abs(ev) < 1e-6 * max(1.0, np.abs(h).max())):
            continue
        want = (ev < 0).sum(-1)
        got = fe.num_unstable_modes(g.layout(phi), conserved) if not conserved or g.p(0.5) else fe.num_unstable_modes(phi)
        same(got, want, "number of unstable modes is not the number of negative eigenvalues", chi=chi, sizes=l, phi=phi, conserved=conserved)
        st = fe.is_stable(phi, conserved) if not conserved or g.p(0.5) else fe.is_stable(phi)
        same(np.asarray(st).astype(int), (want == 0).astype(int), "stability does not match the number of unstable modes", chi=chi, sizes=l, phi=phi, conserved=conserved)


@case("C02", "equilibration-error")
def c02_eq(g):
    fe, chi, l, n = model(g)
    P = g.dim(1, 5, "phases")
    phi = np.maximum(g.compositions((P,), n), 1e-5)
    if g.p(0.2):
        phi = np.repeat(phi[:1], P, axis=0)
    m = spec.mu(phi, chi, l)
    dev = m - m.mean(0)
    order = g.choice([None, None, 1, 2, np.inf])
    axis = g.choice([0, 1, None])
    want = np.linalg.norm(dev, ord=order, axis=axis)
    got = fe.equilibration_error(g.layout(phi), order, axis) if g.p(0.5) else fe.equilibration_error(phi, order=order, axis=axis)
    same(got, want, "equilibration error is not the norm of the deviation from the mean", rtol=1e-7, atol=1e-8 * max(1, np.abs(m).max()), chi=chi, sizes=l, phi=phi, order=order, axis=axis)
    if order is None and axis == 1:
        same(fe.equilibration_error(phi), want, "default equilibration error", rtol=1e-7, atol=1e-8 * max(1, np.abs(m).max()), chi=chi, sizes=l, phi=phi)


QUERIES = {
    "free_energy_density": lambda fe, p: fe.free_energy_density(p),
    "jacobian": lambda fe, p: fe.jacobian(p),
    "jacobian(index)": lambda fe, p: fe.jacobian(p, 0),
    "hessian": lambda fe, p: fe.hessian(p),
    "hessian(index)": lambda fe, p: fe.hessian(p, 0),
    "chemical_potentials": lambda fe, p: fe.chemical_potentials(p),
    "exchange_chemical_potentials": lambda fe, p: fe.exchange_chemical_potentials(p, 0),
    "pressure": lambda fe, p: fe.pressure(p, 0),
    "num_unstable_modes": lambda fe, p: fe.num_unstable_modes(p),
    "num_unstable_modes(full)": lambda fe, p: fe.num_unstable_modes(p, False),
    "is_stable": lambda fe, p: fe.is_stable(p),
    "is_stable(full)": lambda fe, p: fe.is_stable(p, False),
    "equilibration_error": lambda fe, p: fe.equilibration_error(p),
    "check_volume_fractions": lambda fe, p: fe.check_volume_fractions(p),
}


def expect_vfe(f, msg, **d):
    try:
        r = f()
    except VolumeFractionError:
        return
    except Exception as e:
        raise Fail(msg + f": raised {type(e).__name__} instead of a volume-fraction error", **d)
    raise Fail(msg + ": accepted", result=r, **d)


@case("C03", "reject-negative", weight=2)
def c03_neg(g):
    fe, chi, l, n = model(g)
    if n < 2:
        n = 2
        fe = flory.FloryHuggins(2, 1.0)
    q = g.choice(list(QUERIES))
    b = (g.dim(1, 5, "phases"),) if q == "equilibration_error" else g.batch()
    phi = np.maximum(g.compositions(b, n, zeros=g.p(0.2)), 0)
    for _ in range(int(g.rng.integers(1, 3))):
        idx = tuple(int(g.rng.integers(s)) for s in phi.shape)
        phi[idx] = -g.choice([1.0, 0.1, 1e-3, 1e-6, 1e-8, 1e-10, 1e-12, 1e-15, 1e-17, 1e-100, 5e-324, np.inf, g.pos(1e-9, 3)])
    if g.p(0.1):
        phi = np.where(phi < 0, -1, 1).astype(int)
    arg = g.layout(phi)
    expect_vfe(lambda: QUERIES[q](fe, arg), f"{q} with a negative fraction", phi=phi)


@case("C03", "reject-shape")
def c03_shape(g):
    fe, chi, l, n = model(g)
    q = g.choice(list(QUERIES))
    b = (g.dim(1, 5, "phases"),) if q == "equilibration_error" else g.batch()
    m = g.choice([n + 1, n - 1, 2 * n, n + 2, 1, 0])
    if m == n or m < 0:
        m = n + 1
    if g.p(0.3):
        b = tuple(n if g.p(0.5) else x for x in b)
    phi = np.full(b + (m,), 1.0 / max(m, 1))
    arg = g.layout(phi)
    expect_vfe(lambda: QUERIES[q](fe, arg), f"{q} with {m} instead of {n} components", shape=phi.shape)


@case("C03", "accept-valid")
def c03_accept(g):
    fe, chi, l, n = model(g)
    if n < 2:
        raise Skip
    q = g.choice(list(QUERIES))
    b = (g.dim(1, 5, "phases"),) if q == "equilibration_error" else g.batch()
    zeros = g.p(0.3) and q in ("free_energy_density", "jacobian", "check_volume_fractions", "chemical_potentials", "pressure")
    phi = g.compositions(b, n, zeros=zeros, normalized=g.p(0.6))
    if not zeros:
        phi = np.maximum(phi, 1e-5)
    elif g.p(0.5):
        phi[phi == 0] = g.choice([0.0, -0.0])
    if g.p(0.1):
        phi = np.ones(b + (n,), int)
    arg = g.layout(phi)
    import copy
    before = copy.deepcopy(arg)
    try:
        with np.errstate(all="ignore"):
            r = QUERIES[q](fe, arg)
    except Exception as e:
        raise Fail(f"{q} refused a valid composition ({type(e).__name__}: {e})", phi=phi)
    need(np.array_equal(np.asarray(arg), np.asarray(before)), f"{q} modified its input", before=before, after=arg)
    if isinstance(r, np.ndarray) and q != "check_volume_fractions" and r.ndim and r.flags.writeable:
        r[...] = 123.0
        need(np.array_equal(np.asarray(arg), np.asarray(before)), f"result of {q} aliases its input", before=before)
        with np.errstate(all="ignore"):
            r2 = QUERIES[q](fe, before)
            QUERIES[q](fe, before)
        need(not (np.asarray(r2).size and np.all(np.asarray(r2) == 123.0)), f"result of {q} aliases internal data")
    if q == "check_volume_fractions":
        same(r, np.asarray(before), "checked fractions differ from the input")


@case("C03", "check-axis", weight=0.5)
def c03_axis(g):
    fe, chi, l, n = model(g)
    d = int(g.rng.integers(1, 4))
    ax = int(g.rng.integers(-d, d))
    shape = [int(g.rng.integers(1, 5)) for _ in range(d)]
    shape[ax] = n
    phi = g.rng.random(shape)
    try:
        r = fe.check_volume_fractions(phi, ax)
    except Exception as e:
        raise Fail(f"valid fractions refused along axis {ax}: {e}", shape=shape)
    same(r, phi, "checked fractions differ from the input")
    shape[ax] = n + 1 + int(g.rng.integers(3))
    phi = g.rng.random(shape)
    expect_vfe(lambda: fe.check_volume_fractions(phi, axis=ax), f"wrong size along axis {ax}", shape=shape, n=n)


@case("C03", "component-mismatch", weight=0.5)
def c03_mismatch(g):
    n = g.dim(1, 6, "num_comp")
    m = g.dim(1, 6, "num_comp2")
    if g.p(0.3):
        c = g.rng.integers(1, 3, g.dim(1, 4))
        inter = flory.FloryHugginsBlockInteraction(len(c), 1.0, c)
        n = int(c.sum())
    else:
        inter = flory.FloryHugginsInteraction(n, 1.0)
    ent = flory.IdealGasEntropy(m)
    try:
        flory.FreeEnergyBase(inter, ent)
        ok = True
    except ComponentNumberError:
        ok = False
    except Exception as e:
        raise Fail(f"component mismatch raised {type(e).__name__}", n=n, m=m)
    need(ok == (n == m), "free energy assembled from different component numbers" if ok else "matching parts refused", interaction=n, entropy=m)
