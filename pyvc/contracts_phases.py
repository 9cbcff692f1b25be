"""C13: collections of phases."""
from vc import *
from npmodel import PERMS, UNIQ, LABELS, perm_key

PHA = "flory.common.phases"
PH, C, DIST = ivar("phases", 1), ivar("comps", 1), var("dist", pos=True)
KINDS = ("Phases", "PhasesResult")


def sym(name, shape, dtype="f", **k):
    return sym_arr(name, shape, dtype, **k)


def any_of(*bs):
    r = bs[0]
    for b in bs[1:]:
        r = disj(r, b)
    return r


def make(v, kind, n=PH, pos=False, dtype="f"):
    """a collection built through its constructor (one per path)"""
    e = v.e
    e.V = sym("V", (n,), dtype, **(dict(nonneg=True, lo=0) if dtype == "i" else dict(pos=True) if pos else dict(nonneg=True)))
    v.assume(gt0(sum1(n, lambda p: rd("V", (p,)))))
    e.Phi = sym("Phi", (n, C), "f", nonneg=True)
    e.info = SDict({"key": num(var("information"), "f")})
    return v.m.call(v.cls(PHA, kind), [e.V, e.Phi], dict(info=e.info) if kind == "PhasesResult" else {})


def arrays(q, o):
    return q.attr(o, "volumes"), q.attr(o, "fractions")


def get(v, o, name):
    return v.m.getattr(o, name)


def kept(v, q, kind):
    """class, information and the original collection after an operation with result q.val"""
    e, r, t = q.e, q.val, f"[{q.n}]"
    v.fact(f"the result is a {kind} {t}", isinstance(r, SObj) and r.cls.name == kind, q)
    v.unchanged(q, volumes=e.V, fractions=e.Phi)
    a, b = arrays(q, e.o)
    v.fact(f"the original keeps its arrays {t}", a.store is e.V.store and b.store is e.Phi.store, q)
    if kind == "PhasesResult":
        info = e.rinfo
        it, old = q.items(info), q.items(e.info)
        v.fact(f"the information is kept {t}", set(it) == {"key"} and isnum(it["key"]) and lift(it["key"])[0] is var("information"), q)
        v.fact(f"the information of the original is kept {t}", set(old) == {"key"} and isnum(old["key"]) and lift(old["key"])[0] is var("information"), q)


def operate(v, kind, name, *args, **k):
    def th():
        v.e.o = make(v, kind, **k)
        r = v.m.call(get(v, v.e.o, name), list(args), {})
        if kind == "PhasesResult":
            v.e.rinfo = get(v, r, "info")
        return r
    return th


@task("C13", "Phases: dimensions are validated")
def validate(v):
    from itertools import product
    for kind in KINDS:
        for a, b in product(range(3), range(4)):
            ds = [ivar(f"d{k}", 1) for k in range(6)]

            def th():
                V = sym("V", ds[:a], nonneg=True) if a else num(var("V0"), "f")
                Phi = sym("Phi", ds[3:3 + b], nonneg=True) if b else num(var("F0"), "f")
                v.e.given = V, Phi
                return v.m.call(v.cls(PHA, kind), [V, Phi], {})
            outs = v.run(th, label=f"{kind} {a}d/{b}d ")
            if (a, b) != (1, 2):
                v.raises(outs, f"{kind}: volumes of rank {a} and fractions of rank {b} are rejected", "ValueError")
                continue
            v.some(outs, "ok"), v.some(outs, "raise")
            for q in outs:
                if q.kind == "ok":
                    v.zero(f"{kind}: accepted only if the numbers of phases agree [{q.n}]", ds[0] - ds[3], q.ctx)
                    x, y = arrays(q, q.val)
                    v.same(f"{kind}: the volumes are kept [{q.n}]", q, x, ds[:1], lambda ix: rd("V", ix))
                    v.same(f"{kind}: the fractions are kept [{q.n}]", q, y, ds[3:5], lambda ix: rd("Phi", ix))
                else:
                    v.fact(f"{kind}: rejected with a value error [{q.n}]", q.exc == "ValueError", q)
                    v.true(f"{kind}: rejected only if the numbers of phases differ [{q.n}]", ONE - eq0(ds[0] - ds[3]), q.ctx)
    outs = v.run(lambda: make(v, "Phases"))
    for q in v.okpaths(outs):
        v.unchanged(q, volumes=q.e.V, fractions=q.e.Phi)


@task("C13", "Phases: derived numbers")
def derived(v):
    for kind in KINDS:
        def th():
            o = v.e.o = make(v, kind)
            return [get(v, o, n) for n in ("num_phases", "num_components", "total_volume", "mean_fractions")]
        for q in v.okpaths(v.run(th, label=kind + " "), kind + " "):
            tot = sum1(PH, lambda p: rd("V", (p,)))
            n, c, t, mean = q.val
            v.zero(f"{kind}: number of phases [{q.n}]", lift(n)[0] - PH, q.ctx)
            v.zero(f"{kind}: number of components [{q.n}]", lift(c)[0] - C, q.ctx)
            v.zero(f"{kind}: total volume [{q.n}]", lift(t)[0] - tot, q.ctx)
            v.same(f"{kind}: mean fractions are the volume weighted mean [{q.n}]", q, mean, (C,), lambda ix: div(sum1(PH, lambda p: rd("V", (p,)) * rd("Phi", (p, ix[0]))), tot))
            v.unchanged(q, volumes=q.e.V, fractions=q.e.Phi)


@task("C13", "Phases.normalize")
def normalize(v):
    for kind in KINDS:
        for dt in ("f", "i"):
            lab = f"{kind} {dt}: "
            for q in v.okpaths(v.run(operate(v, kind, "normalize", dtype=dt), label=lab), lab):
                tot = sum1(PH, lambda p: rd("V", (p,)))
                V, Phi = arrays(q, q.val)
                v.same(f"{lab}volumes are divided by the total [{q.n}]", q, V, (PH,), lambda ix: div(rd("V", ix), tot))
                v.same(f"{lab}compositions are kept [{q.n}]", q, Phi, (PH, C), lambda ix: rd("Phi", ix))
                v.zero(f"{lab}the volumes sum to one [{q.n}]", sum1(PH, lambda p: q.read(V, (p,))) - 1, q.ctx)
                kept(v, q, kind)


def perm_of(p):
    """the sorting permutation in an expression"""
    return [a for a in all_atoms(p) if a.kind == "app" and a.args[0] == "perm"]


def ordered(v, q, lab, frac, n):
    """for phases i < j whose largest fractions are unique, the index of the largest fraction does not decrease"""
    i, j, a, b = ivar("i_", 0), ivar("j_", 0), ivar("a_", 0), ivar("b_", 0)
    m = v.m
    fi, fj = (lambda c: q.read(frac, (i, c))), (lambda c: q.read(frac, (j, c)))
    ctx = q.ctx.extend(gt0(j - i), gt0(n - j), gt0(C - a), gt0(C - b))
    old = m.witness
    m.witness = list(old) + [(a,), (b,)]
    try:
        # a is the unique largest fraction of phase i, b that of phase j, with the instances of this at the sorted indices
        facts = []
        for row, best in ((fi, a), (fj, b)):
            facts.append(eq0(sum1(C, lambda c: (ONE - eq0(c - best)) * ge0(row(c) - row(best)))))
            for e in keys_of(q, frac, (i, j)) + [a, b]:
                facts.append(any_of(eq0(e - best), ONE - ge0(e) * gt0(C - e), gt0(row(best) - row(e))))
        v.true(f"{lab}ordered by the index of the most concentrated component [{q.n}]", ge0(b - a), ctx.extend(*facts))
    finally:
        m.witness = old


def keys_of(q, frac, ixs):
    out = []
    for i in ixs:
        for p in perm_of(q.read(frac, (i, ZERO))):
            k = int(p.args[1].const())
            out.append(perm_key(k, P(p)))
    return out


@task("C13", "Phases.sort")
def sort(v):
    for kind in KINDS:
        lab = kind + ": "
        for q in v.okpaths(v.run(operate(v, kind, "sort"), label=lab), lab):
            V, Phi = arrays(q, q.val)
            pv, pf = q.read(V, IX[:1]), q.read(Phi, IX[:2])
            ps = list(dict.fromkeys(perm_of(pv) + perm_of(pf)))
            if not v.holds(f"{lab}one permutation [{q.n}]", len(ps) == 1 and ps[0].args[3] is IX[0], "no sorting permutation found"):
                continue
            pi = P(ps[0])
            v.same(f"{lab}volumes are permuted [{q.n}]", q, V, (PH,), lambda ix: subst(rd("V", (pi,)), {IDX(0): ix[0]}))
            v.same(f"{lab}compositions are permuted in the same way [{q.n}]", q, Phi, (PH, C), lambda ix: rd("Phi", (subst(pi, {IDX(0): ix[0]}), ix[1])))
            v.zero(f"{lab}total volume [{q.n}]", sum1(PH, lambda p: q.read(V, (p,)) - rd("V", (p,))), q.ctx)
            v.zero(f"{lab}amounts [{q.n}]", sum1(PH, lambda p: q.read(V, (p,)) * q.read(Phi, (p, IX[0])) - rd("V", (p,)) * rd("Phi", (p, IX[0]))), q.ctx, [(IX[0], C)])
            ordered(v, q, lab, Phi, PH)
            kept(v, q, kind)


def named(p, f):
    return [a for a in dict.fromkeys(all_atoms(p)) if f(a)]


@task("C13", "Phases.get_clusters", seconds=120)
def clusters(v):
    for kind in KINDS:
        lab = kind + ": "
        outs = v.run(operate(v, kind, "get_clusters", num(DIST, "f"), pos=True), label=lab)
        v.holds(f"{lab}both cases occur", len([q for q in outs if q.kind == "ok"]) >= 2)
        for q in v.okpaths(outs, lab):
            t = f"[{q.n}]"
            V, Phi = arrays(q, q.val)
            n = V.shape[0]
            V0, F0 = (lambda p: rd("V", (p,))), (lambda p, c: rd("Phi", (p, c)))
            v.zero(f"{lab}total volume is conserved {t}", sum1(n, lambda p: q.read(V, (p,))) - sum1(PH, V0), q.ctx)
            v.zero(f"{lab}amounts are conserved {t}", sum1(n, lambda p: q.read(V, (p,)) * q.read(Phi, (p, IX[0]))) - sum1(PH, lambda p: V0(p) * F0(p, IX[0])), q.ctx, [(IX[0], C)])
            kept(v, q, kind)
            if q.ctx.decide(gt0(2 - PH)) is True:
                v.same(f"{lab}a single phase is kept (volume) {t}", q, V, (PH,), lambda ix: V0(ix[0]))
                v.same(f"{lab}a single phase is kept (fractions) {t}", q, Phi, (PH, C), lambda ix: F0(*ix))
                continue
            pv, pf = q.read(V, IX[:1]), q.read(Phi, IX[:2])
            us = [a for a in named(pv, lambda a: a.kind == "app" and a.args[0] == "uniq") if IDX(0) in P(a).fv]
            ls = named(pv, lambda a: a.kind == "rd" and a.args[0] in LABELS)
            ls = list(dict.fromkeys(a.args[0] for a in ls))
            if not v.holds(f"{lab}phases are grouped by one set of labels {t}", len(us) == 1 and len(ls) == 1, f"{len(us)} {len(ls)}"):
                continue
            u, L = P(us[0]), ls[0]
            same = lambda p, ix: eq0(rd(L, (p,)) - subst(u, {IDX(0): ix[0]}))
            vol = lambda ix: sum1(PH, lambda p: V0(p) * same(p, ix))
            v.same(f"{lab}the volume of a cluster is that of the phases with its label {t}", q, V, (n,), vol)
            v.same(f"{lab}the composition of a cluster is the weighted mean of the phases with its label {t}", q, Phi, (n, C), lambda ix: div(sum1(PH, lambda p: V0(p) * F0(p, ix[1]) * same(p, ix)), vol(ix)))
            k, un = us[0].args[1], UNIQ[int(us[0].args[1].const())]
            v.zero(f"{lab}one phase for each label (number) {t}", n - app("nuniq", k, isint=True), q.ctx)
            v.holds(f"{lab}one phase for each label {t}", un[0] is PH and un[1] is rd(L, (IX[0],)))
            _, a, b, body, d, meth, crit = LABELS[L]
            v.holds(f"{lab}labels are those of the centroid clustering of the fractions with the given distance {t}", (a, b, body, d, meth, crit) == (PH, C, rd("Phi", IX[:2]), DIST, "centroid", "distance"), str(LABELS[L])[:300])
            ordered(v, q, lab, Phi, n)
