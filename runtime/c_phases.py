"""Concrete contracts for C13, C16."""
import copy
import numpy as np
from gen import case, need, same, Fail, Skip
import flory
from flory.common import Phases
from flory.common.phases import PhasesResult, get_uniform_random_composition


def make(g, P=None, n=None, groups=False):
    P = P or g.dim(1, 7, "phases", big=60)
    n = n or g.dim(1, 5, "num_comp", big=30)
    V = g.posarr(P, 0.05, 5)
    if g.p(0.15):
        V = np.ceil(V).astype(int)
    X = g.compositions((P,), n, zeros=g.p(0.2))
    if groups:
        centres = g.compositions((int(g.rng.integers(1, 4)),), n)
        X = centres[g.rng.integers(0, len(centres), P)]
        if g.p(0.5):
            X = X + g.rng.normal(0, 1e-4, X.shape)
    info = None
    if g.p(0.5):
        info = {"steps": int(g.rng.integers(100)), "x": [1, 2]}
        ph = PhasesResult(g.layout(V), g.layout(X), info=info)
    else:
        ph = Phases(g.layout(V), g.layout(X))
    return ph, V, X, info


def intact(ph, V, X, info, what):
    same(ph.volumes, V, f"{what} modified the original volumes")
    same(ph.fractions, X, f"{what} modified the original fractions")
    if info is not None:
        need(ph.info == info, f"{what} modified the original information", info=ph.info)


def kept(new, ph, info, what):
    need(type(new) is type(ph), f"{what} changed the kind of collection", got=type(new).__name__, want=type(ph).__name__)
    if info is not None:
        need(new.info == info, f"{what} lost the attached information", got=new.info, want=info)


def order_key(x):
    return tuple(np.argsort(x)[::-1])


def is_sorted(X):
    top = [int(np.argmax(x)) for x in X]
    clear = [np.sort(x)[-1] - np.sort(x)[-2] > 1e-9 if len(x) > 1 else True for x in X]
    return all(not (clear[i] and clear[i + 1]) or top[i] <= top[i + 1] for i in range(len(top) - 1))


@case("C13", "basics")
def c13_basic(g):
    ph, V, X, info = make(g)
    need(ph.num_phases == len(V) and ph.num_components == X.shape[1], "sizes of the collection")
    same(ph.total_volume, V.sum(), "total volume", V=V)
    same(ph.mean_fractions, (V[:, None] * X).sum(0) / V.sum(), "mean fractions", V=V, X=X)
    intact(ph, V, X, info, "reading properties")
    if info is None and g.p(0.5):
        r = PhasesResult.from_phases(ph, info={"a": 1})
        same(r.volumes, V, "from_phases volumes")
        same(r.fractions, X, "from_phases fractions")
        need(r.info == {"a": 1}, "from_phases information")
        need(PhasesResult(V, X).info == {}, "missing information is not empty")
        need(PhasesResult.from_phases(ph).info == {}, "missing information is not empty")
    str(ph)


@case("C13", "normalize")
def c13_norm(g):
    ph, V, X, info = make(g)
    q = ph.normalize()
    same(q.volumes, V / V.sum(), "normalised volumes", V=V)
    same(np.sum(q.volumes), 1.0, "normalised volumes do not sum to one", V=V)
    same(q.fractions, X, "normalising changed the compositions", X=X)
    kept(q, ph, info, "normalize")
    intact(ph, V, X, info, "normalize")


@case("C13", "sort", weight=1.5)
def c13_sort(g):
    ph, V, X, info = make(g)
    q = ph.sort()
    kept(q, ph, info, "sort")
    intact(ph, V, X, info, "sort")
    A = sorted(map(tuple, np.column_stack([V, X]).tolist()))
    B = sorted(map(tuple, np.column_stack([q.volumes, q.fractions]).tolist()))
    need(A == B, "sorting is not a joint permutation of volumes and compositions", volumes=V, fractions=X, sorted_volumes=q.volumes, sorted_fractions=q.fractions)
    need(is_sorted(np.asarray(q.fractions)), "phases are not ordered by their most concentrated component", fractions=X, sorted=q.fractions)
    # ties are broken by the next most concentrated components
    Y = np.asarray(q.fractions)
    if all(len(set(y.tolist())) == len(y) for y in Y):
        keys = [order_key(y) for y in Y]
        need(keys == sorted(keys), "phases are not ordered by the index of their most concentrated components", sorted=Y)
    # the order does not depend on how the phases were listed
    perm = g.rng.permutation(len(V))
    q2 = Phases(V[perm], X[perm]).sort()
    if all(len(set(y.tolist())) == len(y) for y in Y) and len(set(order_key(y) for y in Y)) == len(Y):
        same(q2.fractions, q.fractions, "sorted order depends on the input order", X=X)
        same(q2.volumes, q.volumes, "sorted volumes depend on the input order", X=X)


@case("C13", "clusters", weight=2)
def c13_clusters(g):
    ph, V, X, info = make(g, groups=g.p(0.7))
    dist = g.choice([None, 1e-2, 1e-1, 1e-3, g.pos(1e-4, 1)])
    q = ph.get_clusters() if dist is None else ph.get_clusters(dist)
    dist = 1e-2 if dist is None else dist
    intact(ph, V, X, info, "get_clusters")
    kept(q, ph, info, "get_clusters")
    v, x = np.asarray(q.volumes), np.asarray(q.fractions)
    d = dict(volumes=V, fractions=X, dist=dist, clustered_volumes=v, clustered_fractions=x)
    need(v.ndim == 1 and x.shape == (len(v), X.shape[1]) and 1 <= len(v) <= len(V), "shape of the clustered phases", **d)
    same(v.sum(), V.sum(), "clustering changed the total volume", **d)
    same((v[:, None] * x).sum(0), (V[:, None] * X).sum(0), "clustering changed the total composition", **d)
    need(is_sorted(x), "clustered phases are not sorted", **d)
    if len(V) >= 2:
        # single-linkage components bound what may be merged
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
        comp = list(range(len(V)))
        for i in range(len(V)):
            for j in range(i):
                if D[i, j] <= 1e-12:
                    a, b = comp[i], comp[j]
                    comp = [b if c == a else c for c in comp]
        distinct = len(set(comp))
        need(len(v) <= distinct, "equal compositions were not merged", **d)
        # well separated: all mutual distances either tiny or large -> clusters are exactly the groups
        off = D[np.triu_indices(len(V), 1)]
        if np.all((off < 0.2 * dist) | (off > 5 * dist)):
            lab, k = np.full(len(V), -1), 0
            for i in range(len(V)):
                if lab[i] < 0:
                    lab[D[i] < 0.2 * dist] = k
                    k += 1
            need(len(v) == k, "number of clusters", want=k, **d)
            want = sorted((V[lab == c].sum(), tuple((V[lab == c][:, None] * X[lab == c]).sum(0) / V[lab == c].sum())) for c in range(k))
            got = sorted((float(a), tuple(b)) for a, b in zip(v, x))
            W = np.array([[a, *b] for a, b in want])
            Gt = np.array([[a, *b] for a, b in got])
            if len(set(np.round(W[:, 0], 9))) == k:
                same(Gt, W, "clusters are not the volume-weighted means of their members", **d)


@case("C13", "chain", weight=0.7)
def c13_chain(g):
    ph, V, X, info = make(g, groups=g.p(0.5))
    ops, q = [], ph
    mean = (V[:, None] * X).sum(0) / V.sum()
    for _ in range(int(g.rng.integers(2, 5))):
        op = g.choice(["normalize", "sort", "get_clusters"])
        ops.append(op)
        q = getattr(q, op)()
        same(q.mean_fractions, mean, f"mean composition changed by {ops}", V=V, X=X)
        kept(q, ph, info, str(ops))
        if op != "normalize":
            need(is_sorted(np.asarray(q.fractions)), f"not sorted after {ops}")
    intact(ph, V, X, info, str(ops))
    if info is not None and q is not ph:
        q.info["new"] = 1
        need("new" not in ph.info or q.info is ph.info and set(ops) == {"get_clusters"} and len(V) < 2, "information is shared between collections", ops=ops)


@case("C13", "validation", weight=0.5)
def c13_valid(g):
    P, n = g.dim(1, 5), g.dim(1, 5)
    cls = g.choice([Phases, PhasesResult])
    bad = g.choice([
        (np.ones((P, 1)), np.ones((P, n))), (np.ones(()), np.ones((P, n))), (np.ones(P), np.ones(P)), (np.ones(P), np.ones((P, n, 1))),
        (np.ones(P), np.ones((P + 1, n))), (np.ones(P + 2), np.ones((P, n))), (np.ones(P), np.ones((n + P + 1, P))), (np.ones((1, P)), np.ones((P, n)))])
    try:
        cls(*bad)
    except ValueError:
        pass
    except Exception as e:
        raise Fail(f"inconsistent phases raised {type(e).__name__}", shapes=[b.shape for b in bad])
    else:
        raise Fail("inconsistent volumes and fractions accepted", shapes=[b.shape for b in bad])
    cls(np.ones(P), np.ones((P, n)))
    cls([1.0] * P, [[0.5] * n] * P)


# --------------------------------------------------------------------------------- C16
@case("C16", "simplex", weight=3)
def c16_simplex(g):
    n = g.dim(1, 8, "num_comp")
    seed = int(g.rng.integers(1 << 30))
    a = get_uniform_random_composition(n, np.random.default_rng(seed))
    a = np.asarray(a)
    need(a.shape == (n,), "shape of the random composition", shape=a.shape, n=n)
    need(np.all(a >= -1e-15), "negative entry in a random composition", phi=a, seed=seed)
    same(a.sum(), 1.0, "random composition does not sum to one", rtol=1e-12, atol=1e-12, phi=a, seed=seed)
    same(get_uniform_random_composition(n, np.random.default_rng(seed)), a, "random composition is not reproducible", seed=seed)
    same(get_uniform_random_composition(n, seed), a, "integer seeds are not equivalent to a seeded generator", seed=seed)
    b = np.asarray(get_uniform_random_composition(n))
    need(b.shape == (n,) and np.all(b >= -1e-15) and abs(b.sum() - 1) < 1e-12, "random composition without generator", phi=b)
    r = np.random.default_rng(seed)
    x, y = get_uniform_random_composition(n, r), get_uniform_random_composition(n, r)
    need(n == 1 or not np.array_equal(x, y), "repeated draws are identical", phi=x)


@case("C16", "uniformity", weight=0.3)
def c16_uniform(g):
    """Kolmogorov-Smirnov tests of the marginal, pair-sum and pair-ratio laws.  A suspicious sample never fails by itself:
    the same law is tested again on an independent, eight times larger sample, so the chance of a false alarm is below
    1e-18 per test, while a law that is off by a percent still fails"""
    from scipy import stats
    n = g.choice([2, 3, 4, 5]) if g.p(0.7) else g.dim(2, 7, "num_comp", big=20)
    rng = np.random.default_rng(int(g.rng.integers(1 << 30)))

    def sample(N):
        return np.array([get_uniform_random_composition(n, rng) for _ in range(N)])

    A = sample(2500)

    def law(stat, dist, what, **data):
        p1 = stats.kstest(stat(A), dist.cdf).pvalue
        if not p1 > 1e-7:
            p2 = stats.kstest(stat(sample(20000)), dist.cdf).pvalue
            need(p2 > 1e-12, what, pvalues=[p1, p2], n=n, **data)

    for i in range(n):
        law(lambda X: X[:, i], stats.beta(1, n - 1), "marginal distribution of a component is not that of the uniform simplex", component=i)
    if n > 2:
        for _ in range(3):
            i, j = (int(k) for k in g.rng.choice(n, 2, replace=False))
            law(lambda X: X[:, i] + X[:, j], stats.beta(2, n - 2), "joint distribution of two components is not that of the uniform simplex", components=[i, j])
            law(lambda X: X[:, i] / (X[:, i] + X[:, j]), stats.uniform(), "conditional distribution of two components is not uniform", components=[i, j])
