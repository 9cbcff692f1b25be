"""C16: random compositions."""
from vc import *
from npmodel import BETA, SRng
from contracts_phases import PHA

N = ivar("cuts", 0) + 1  # number of components
GEN = f"{PHA}:get_uniform_random_composition"


def draws(q, p):
    """(generator, draw) for the random numbers in an expression"""
    rs = [o for o in q.snap[1] if isinstance(o, SRng)]
    return [(o, n) for n in dict.fromkeys(a.args[0] for a in all_atoms(p) if a.kind == "rd") for o in rs if n.startswith(o.tag + ".")]


@task("C16", "get_uniform_random_composition")
def composition(v):
    def th():
        v.e.rng = SRng("rng")
        return v.m.call(v.cls(PHA, "get_uniform_random_composition"), [num(N, "i"), v.e.rng], {})
    for q in v.okpaths(v.run(th)):
        t = f"[{q.n}]"
        a = q.val
        if not v.fact(f"the result is an array {t}", isinstance(a, SArr) and a.ndim == 1, q):
            continue
        v.zero(f"one entry per component {t}", a.shape[0] - N, q.ctx)
        x = q.read(a, IX[:1])
        v.zero(f"the entries sum to one {t}", sum1(N, lambda i: q.read(a, (i,))) - 1, q.ctx)
        for what, i, cond in (("entry but the last", IX[0], gt0(N - 1 - IX[0])), ("last entry", N - 1, ONE)):
            c = q.ctx.extend(cond)
            v.true(f"no {what} is negative {t}", ge0(deep_simp(q.read(a, (i,)), c)), c)
        # uniform distribution: stick breaking with independent draws b_d of density ~ b^(a-1) (1-b)^(b-1); the
        # density of the composition is the product of these over the Jacobian, prod over d of prod_{e<d} (1-b_e)
        ds = [n for _, n in draws(q, x)]
        if not v.holds(f"the composition is made of beta distributed draws {t}", set(ds) <= set(BETA) and len(ds) == 1, str(ds)[:200]):
            continue
        al, be, b = BETA[ds[0]]
        k = list(b.fv)
        if not v.holds(f"one independent draw for each but the last component {t}", len(k) == 1 and rd(ds[0], (P(k[0]),)) is b and terms.ARRS[ds[0]].shape[0] is N - 1, "draws are not independent"):
            continue
        d = P(k[0])
        cut = lambda i: rd(ds[0], (i,)) * npmodel.prod(ONE - rd(ds[0], (npmodel.LP,)), i)
        v.zero(f"every component takes its share of what is left {t}", subst(x - cut(IX[0]), {}), q.ctx, [(IX[0], N - 1)])
        v.zero(f"the density does not depend on the shares {t}", al - 1, q.ctx, [(d, N - 1)])
        v.zero(f"the density does not depend on what is left {t}", be - 1 - (N - 2 - d), q.ctx, [(d, N - 1)])


@task("C16", "get_uniform_random_composition: generators and seeds")
def reproducible(v):
    for what in ("generator", "seed", "seed zero", "nothing"):
        def th():
            e = v.e
            e.rng = SRng("rng") if what == "generator" else num(ivar("seed", 0), "i") if what == "seed" else 0 if what == "seed zero" else None
            return v.m.call(v.cls(PHA, "get_uniform_random_composition"), [num(N, "i")] + ([] if what == "nothing" else [e.rng]), {})
        for q in v.okpaths(v.run(th, label=what + ": "), what + ": "):
            t = f"[{q.n}]"
            used = list(dict.fromkeys(o for o, _ in draws(q, q.read(q.val, IX[:1]))))
            v.fact(f"{what}: random numbers come from one generator {t}", len(used) == 1, q)
            for o in used:
                if what == "generator":
                    v.fact(f"{what}: the given generator is used {t}", o is q.e.rng, q)
                elif what != "nothing":
                    s = getattr(o, "seed", None)
                    v.fact(f"{what}: the generator is made from the seed {t}", isnum(s) and lift(s)[0] is lift(q.e.rng)[0], q)
