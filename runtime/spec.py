"""Executable specification: independent numpy statements of what the docs promise.
Never imports flory."""
import numpy as np


def sym(chis, n):
    c = np.array(np.broadcast_to(np.atleast_1d(np.asarray(chis, float)), (n, n)))
    return (c + c.T) / 2


def bc(x, shape):
    return np.array(np.broadcast_to(np.atleast_1d(np.asarray(x, float)), shape))


def xlogx(x):
    x = np.asarray(x, float)
    out = np.zeros_like(x)
    m = x > 0
    out[m] = x[m] * np.log(x[m])
    return out


def f(phi, chi, l):
    phi = np.asarray(phi, float)
    ent = (xlogx(phi) / l).sum(-1)
    inter = 0.5 * ((phi @ chi) * phi).sum(-1)
    return ent + inter


def grad(phi, chi, l):
    phi = np.asarray(phi, float)
    with np.errstate(divide="ignore"):
        return (np.log(phi) + 1) / l + phi @ chi


def hess(phi, chi, l):
    phi = np.asarray(phi, float)
    n = phi.shape[-1]
    with np.errstate(divide="ignore"):
        d = 1 / (l * phi)
    return chi + np.eye(n) * d[..., None, :] if np.all(np.isfinite(d)) else chi + np.where(np.eye(n) > 0, d[..., None, :], 0.0)


def grad_red(phi, chi, l, k):
    n = np.asarray(phi).shape[-1]
    g = grad(phi, chi, l)
    keep = [i for i in range(n) if i != k % n]
    return g[..., keep] - g[..., [k % n]]


def hess_red(phi, chi, l, k):
    n = np.asarray(phi).shape[-1]
    k = k % n
    h = hess(phi, chi, l)
    keep = [i for i in range(n) if i != k]
    B = np.zeros((n, n - 1))
    for c, i in enumerate(keep):
        B[i, c] = 1
    B[k, :] = -1
    return np.einsum("ia,...ij,jb->...ab", B, h, B)


def mu(phi, chi, l):
    phi = np.asarray(phi, float)
    phij = ((xlogx(phi) + phi) / l).sum(-1) + ((phi @ chi) * phi).sum(-1)
    return f(phi, chi, l)[..., None] - phij[..., None] + grad(phi, chi, l)


def expand(counts):
    """component -> feature"""
    return np.repeat(np.arange(len(counts)), counts)


# --------------------------------------------------------------- self-consistent step
class Cons:
    """specification of a linear constraint with its multiplier state"""

    def __init__(self, kind, C, T, ratio, kappa, M):
        self.kind, self.C, self.T, self.ratio, self.kappa = kind, C, T, ratio, kappa
        self.mult = np.zeros((len(T), M)) if kind == "local" else np.zeros(len(T))

    def prepare(self, phi, J, mask):
        r = self.C @ phi - self.T[:, None]
        if self.kind == "local":
            self.res = r * mask
            pot = self.C.T @ (self.mult + 2 * self.kappa * r) * mask
            vd = (r * (self.mult + self.kappa * r)).sum(0) * mask
        else:
            R = (r * J).sum(1)
            lam = self.mult + 2 * self.kappa * R
            pot = (self.C.T @ lam)[:, None] * mask
            vd = (lam[:, None] * r).sum(0) * mask
            self.res = R / J.sum()
        return pot, vd

    def evolve(self, step, mask):
        self.mult = self.mult + step * self.ratio * self.res
        if self.kind == "local":
            self.mult = self.mult * mask
        return np.abs(self.res).max()


def step(w, J, *, chi_feat, shift, feat_of, l, ens, ens_par, cons, aJ, aw, bound, thr):
    """one step without revival, from the documentation of the algorithm; returns the new
    state, the fractions and the residuals of the state it started from"""
    S, M = w.shape
    mask = (J > thr).astype(float)
    nv = mask.sum()
    J = J * mask
    p = np.exp(-w[feat_of] * l[:, None])
    Q = (p * J).sum(1) / J.sum()
    if ens == "canonical":
        phi = (ens_par / Q)[:, None] * p * mask
    else:
        phi = ens_par[:, None] * p * mask
    incomp = (phi.sum(0) - 1) * mask
    phif = np.zeros((S, M))
    np.add.at(phif, feat_of, phi)
    pots, vds = [], []
    for c in cons:
        a, b = c.prepare(phif, J, mask)
        pots.append(a)
        vds.append(b)
    base = chi_feat @ phif
    pot = base + sum(pots) if pots else base.copy()
    coef = chi_feat.sum() + shift * S * S
    xi = (coef * incomp + (w - pot).sum(0)) * mask / S
    tot = pot + xi
    e = 0.5 * (base * phif).sum(0) - (phi / l[:, None]).sum(0) + xi * incomp + sum(vds) - (tot * phif).sum(0)
    D = ((e * J).sum() / nv - e) * mask
    mD = np.abs(D).max()
    fac = bound / max(mD * aJ, bound)
    J1 = (J + fac * aJ * D) * mask
    J1 = (J1 + 1 - J1.sum() / nv) * mask
    dw = (tot - w) * mask
    w1 = (w + fac * aw * dw) * mask
    rc = 0.0
    for c in cons:
        rc = max(rc, c.evolve(fac * aw, mask))
    safe = (J1 > thr).sum() == nv
    return dict(w=w1, J=J1, phi=phi, phif=phif, incomp=np.abs(incomp).max(), dw=np.abs(dw).max(), dJ=mD, rc=rc, safe=bool(safe),
                mask=mask, fac=fac, D=D, e=e, xi=xi)
