"""C04: parameters are stored and compiled faithfully."""
from vc import *
from contracts_thermo import FE, FH, INT, BLK, ENT, POL
from contracts_parts import CAN, GRA, LOC, GLO, NOC, sym, own, masks_arr, volumes, N, M, F, K, HALF, poly_sizes, rows_of

POSITIVE = dict(pos=True)


def value(v, form, name, shape, positive=False):
    """a user supplied value of the given form for a parameter of the given shape -> (value, reader, arrays)"""
    kw = dict(pos=True) if positive else {}
    nd = len(shape)
    base, _, opt = form.partition(":")
    if base == "scalar":
        x = var(name + "0", pos=positive)
        return num(x, "f"), lambda *ix: x, []
    if base == "int":
        x = ivar(name + "0", 1 if positive else None)
        return num(x, "i"), lambda *ix: x, []
    if base == "const":
        return 2, lambda *ix: P(2), []
    dtype = "f"
    if opt == "i":
        dtype = "i"
        if positive:
            kw["lo"] = 1
    if base == "full":
        a = sym(v, name, shape, dtype, **kw)
        r = lambda *ix: rd(name, tuple(P(i) for i in ix))
    elif base == "row":
        a = sym(v, name, shape[-1:], dtype, **kw)
        r = lambda *ix: rd(name, (P(ix[-1]),))
    elif base == "one":
        a = sym(v, name, (ONE,), dtype, **kw)
        r = lambda *ix: rd(name, (ZERO,))
    elif base == "column":
        a = sym(v, name, (shape[0], ONE), dtype, **kw)
        r = lambda *ix: rd(name, (P(ix[0]), ZERO))
    elif base == "zero-d":
        a = own(v, new_arr((), lambda ix: var(name + "0", pos=positive)))
        r = lambda *ix: var(name + "0", pos=positive)
    else:
        raise KeyError(form)
    if opt == "F":
        a.store.layout = "F"
    if opt == "A":
        # every second element of a larger array
        b = sym(v, name + "_big", tuple([shape[0] * 2] + list(shape[1:])), dtype, **kw)
        a = v.m.getitem(b, interp.SSlice(None, None, 2))
        rr = lambda *ix: rd(name + "_big", tuple([P(ix[0]) * 2] + [P(i) for i in ix[1:]]))
        return a, rr, [b]
    return a, r, [a]


FORMS1 = ["scalar", "int", "const", "full", "full:i", "one", "zero-d", "full:A"]
FORMS2 = FORMS1 + ["row", "column", "full:F"]


def call(v, f, *a, **k):
    return v.m.call(f, list(a), k)


def get(v, o, n):
    return v.m.getattr(o, n)


def faithful(name, shape, forms, make, attr, spec=None, positive=False, setter=True, probe=None, props="C04", dtype="f"):
    """make(v, value) -> object; attribute attr holds spec(reader) of the supplied value;
    probe(v, object) -> list of (label, value, shape, fn(reader)) on the compiled object"""
    spec = spec or (lambda r: r)
    for form in forms:
        for how in ("constructor",) + (("setter",) if setter else ()):
            def t(v, form=form, how=how):
                m = v.m

                def thunk():
                    x, r, arrs = value(v, form, "x", shape, positive)
                    if how == "constructor":
                        o = make(v, x)
                    else:
                        y, _, _ = value(v, "full", "y", shape, positive)
                        o = make(v, y)
                        m.setattr(o, attr, x)
                    v.e.r, v.e.arrs = r, arrs
                    v.e.probe = probe(v, o) if probe else []
                    return get(v, o, attr)
                for q in v.okpaths(v.run(thunk)):
                    s = spec(q.e.r)
                    v.same(f"{attr} holds the given values [{q.n}]", q, q.val, shape, lambda ix: s(*ix))
                    for i, a in enumerate(q.e.arrs):
                        v.unchanged(q, **{"caller's array": a})
                        v.fresh_store(q, "parameter", q.val, a)
                    for lab, val, sh, fn in q.e.probe:
                        v.same(f"{lab} [{q.n}]", q, val, sh, lambda ix: fn(s, ix))
            task(props, f"{name}, {how}, {form}")(t)


def rejected(name, shape, make, attr, setter=True, exact_rank=False):
    """values whose shape cannot be broadcast are rejected"""
    nd = len(shape)
    cases = [("wrong length", lambda D: (D,))]
    if nd == 2:
        cases += [("wrong rows", lambda D: (D, shape[1])), ("wrong columns", lambda D: (shape[0], D))]
    cases.append(("too many axes", lambda D: (P(2),) + tuple(shape)))
    for lab, sh in cases:
        for how in ("constructor",) + (("setter",) if setter else ()):
            if lab == "wrong rows" and exact_rank:
                continue

            def t(v, lab=lab, sh=sh, how=how):
                m = v.m

                def thunk():
                    D = ivar("D", 2)
                    s = sh(D)
                    ref = shape[-1] if lab in ("wrong length", "wrong columns") else shape[0]
                    if lab != "too many axes":
                        m.assume(ONE - eq(D, ref))
                    x = sym(v, "x", s)
                    if how == "setter":
                        y, _, _ = value(v, "full", "y", shape, True)
                        o = make(v, y)
                        m.setattr(o, attr, x)
                    else:
                        make(v, x)
                v.raises(v.run(thunk, safety=False), "is rejected", "ValueError")
            task("C04", f"{name}, {how}: {lab}")(t)


half_sum = lambda r: (lambda i, j: (r(i, j) + r(j, i)).scale(HALF))
ident = lambda r: r


# ---- interactions
def probe_interaction(n):
    def p(v, o):
        c = call(v, get(v, o, "compiled"))
        pf = sym(v, "pf", (n, M))
        return [("compiled potential uses the parameters", call(v, get(v, c, "potential"), pf), (n, M), lambda C, ix: sum1(n, lambda j: C(ix[0], j) * rd("pf", (j, ix[1]))))]
    return p


mk_int = lambda v, x: call(v, v.cls(INT, "FloryHugginsInteraction"), num(N, "i"), x)
faithful("FloryHugginsInteraction", (N, N), FORMS2, mk_int, "chis", half_sum, probe=probe_interaction(N))
rejected("FloryHugginsInteraction", (N, N), mk_int, "chis")


def mk_blk(v, x):
    if not hasattr(v.e, "nf"):
        v.e.nf = poly_sizes(v)
    return call(v, v.cls(BLK, "FloryHugginsBlockInteraction"), num(F, "i"), x, v.e.nf[0])


faithful("FloryHugginsBlockInteraction", (F, F), FORMS2, mk_blk, "chis_feat", half_sum, probe=probe_interaction(F))
rejected("FloryHugginsBlockInteraction", (F, F), mk_blk, "chis_feat")


def block_expanded(how):
    def t(v):
        m = v.m

        def thunk():
            x, r, arrs = value(v, "full", "x", (F, F))
            if how == "setter":
                y, _, _ = value(v, "full", "y", (F, F))
                o = mk_blk(v, y)
                m.setattr(o, "chis_feat", x)
            else:
                o = mk_blk(v, x)
            v.e.n = v.e.nf[1]
            return get(v, o, "chis")
        for q in v.okpaths(v.run(thunk)):
            n = q.e.n
            own_ = lambda i: npmodel.owner(F, rd("nf", (npmodel.LO,)), i)
            v.same(f"expanded matrix repeats the entry of the features [{q.n}]", q, q.val, (n, n),
                   lambda ix: (rd("x", (own_(ix[0]), own_(ix[1]))) + rd("x", (own_(ix[1]), own_(ix[0])))).scale(HALF))
    task("C04 C05", f"FloryHugginsBlockInteraction expansion, {how}")(t)


block_expanded("constructor")
block_expanded("setter")


def independent(v):
    m = v.m

    def thunk():
        x = sym(v, "x", (N, N))
        o = mk_int(v, x)
        return get(v, o, "independent_entries")
    for q in v.okpaths(v.run(thunk)):
        C = half_sum(lambda i, j: rd("x", (P(i), P(j))))
        rows = npmodel.tri_idx(m, N, ZERO)
        v.same(f"lists the upper triangle [{q.n}]", q, q.val, (rows[0].shape[0],), lambda ix: C(rows[0].read(ix), rows[1].read(ix)))


task("C04", "independent_entries")(independent)


def uniform(cls_mod, cls, flag, const=False):
    def t(v):
        m = v.m

        def thunk():
            x = 3 if const else num(var("chi"), "f")
            kw = {} if flag is None else dict(vanishing_diagonal=flag)
            o = call(v, get(v, v.cls(cls_mod, cls), "from_uniform"), num(N, "i"), x, **kw)
            inter = get(v, o, "interaction") if cls == "FloryHuggins" else o
            v.e.probe = probe_interaction(N)(v, inter)
            return get(v, o, "chis")
        chi = P(3) if const else var("chi")
        spec = lambda i, j: chi * (ONE - eq(i, j)) if flag in (True, None) else chi
        for q in v.okpaths(v.run(thunk)):
            v.same(f"matrix has exactly the requested values [{q.n}]", q, q.val, (N, N), lambda ix: spec(ix[0], ix[1]))
            for lab, val, sh, fn in q.e.probe:
                v.same(f"{lab} [{q.n}]", q, val, sh, lambda ix: fn(spec, ix))
    task("C04", f"{cls}.from_uniform, vanishing_diagonal={flag}, {'integer' if const else 'float'}")(t)


def random_factory(cls_mod, cls, flag, default=False, setter=False):
    def t(v):
        m = v.m

        def thunk():
            rng = npmodel.SRng("rng")
            v.e.rng = rng
            kw = {} if flag is None else dict(vanishing_diagonal=flag)
            ms = [] if default else [num(var("mean"), "f"), num(var("std", nonneg=True), "f")]
            if setter:
                o = call(v, v.cls(cls_mod, cls), num(N, "i"), num(var("before"), "f"))
                call(v, get(v, o, "set_random_chis"), *ms, rng=rng, **kw)
            else:
                o = call(v, get(v, v.cls(cls_mod, cls), "from_random_normal"), num(N, "i"), *ms, rng=rng, **kw)
            inter = get(v, o, "interaction") if cls == "FloryHuggins" else o
            C = get(v, o, "chis")
            v.e.probe = probe_interaction(N)(v, inter)
            return C
        for q in v.okpaths(v.run(thunk)):
            C = q.val
            i, j = IX[0], IX[1]
            if not (isinstance(C, SArr) and C.ndim == 2):
                v.holds(f"is a matrix [{q.n}]", False)
                continue
            r = lambda a, b: q.read(C, [P(a), P(b)])
            v.zero(f"symmetric [{q.n}]", r(i, j) - r(j, i), q.ctx, [(i, N), (j, N)])
            if flag is not False:
                v.zero(f"vanishing diagonal [{q.n}]", r(i, i), q.ctx, [(i, N)])
            else:
                # the diagonal consists of draws
                d = r(i, i)
                v.holds(f"diagonal is drawn [{q.n}]", any(a.kind in ("rd", "app") and "draw" in str(a.args[0]) or a.kind == "rd" for a in d.atoms()), show(d))
            # the independent entries are independent draws of the requested normal distribution
            mean, std = (ZERO, ONE) if default else (var("mean"), var("std", nonneg=True))
            for what, k, c in [("an entry", j, q.ctx.extend(gt0(j - i)))] + ([("a diagonal entry", i, q.ctx)] if flag is False else []):
                x = deep_simp(r(i, k), c)
                ds = [a for a in all_atoms(x) if a.kind == "rd"]
                if v.holds(f"{what} is one normal draw of the given generator [{q.n}]", len(ds) == 1 and ds[0].args[0].startswith(q.e.rng.tag + ".normal."), show(x)[:200]):
                    v.zero(f"{what} is distributed with the requested mean and width [{q.n}]", x - mean - std * P(ds[0]), c, [(i, N), (j, N)])
                    ix = ds[0].args[1:]
                    pos = [show(P(a)) for a in (ix[0] if len(ix) == 1 and isinstance(ix[0], tuple) else ix)]
                    at = ["@0", "@1" if k is j else "@0"]
                    ok = pos in (at, at[::-1]) or len(pos) == 1 and pos[0].startswith("tripos(N,") and pos[0].endswith("," + ",".join(at) + ")")
                    v.holds(f"{what}: different entries are different draws [{q.n}]", ok, str(pos))
            for lab, val, sh, fn in q.e.probe:
                v.same(f"{lab} [{q.n}]", q, val, sh, lambda ix: fn(r, ix))
    task("C04", f"{cls}.{'set_random_chis' if setter else 'from_random_normal'}, vanishing_diagonal={flag}{', default distribution' if default else ''}")(t)


for mod, c in ((INT, "FloryHugginsInteraction"), (FH, "FloryHuggins")):
    for flag in (None, True, False):
        uniform(mod, c, flag)
        random_factory(mod, c, flag)
    uniform(mod, c, None, const=True)
    random_factory(mod, c, None, default=True)
for flag in (None, False):
    random_factory(INT, "FloryHugginsInteraction", flag, setter=True)
random_factory(INT, "FloryHugginsInteraction", None, default=True, setter=True)


# ---- free energy wrapper
def mk_fhx(v, x):
    return call(v, v.cls(FH, "FloryHuggins"), num(N, "i"), x)


def mk_fhl(v, x):
    X = sym(v, "X", (N, N))
    return call(v, v.cls(FH, "FloryHuggins"), num(N, "i"), X, x)


def probe_fe_int(v, o):
    c = call(v, get(v, o, "interaction_compiled"))
    pf = sym(v, "pf", (N, M))
    return [("compiled potential uses the parameters", call(v, get(v, c, "potential"), pf), (N, M), lambda C, ix: sum1(N, lambda j: C(ix[0], j) * rd("pf", (j, ix[1]))))]


def probe_sizes(n, compiled=lambda v, o: call(v, get(v, o, "compiled"))):
    def p(v, o):
        c = compiled(v, o)
        pc = sym(v, "pc", (n(v) if callable(n) else n, M))
        nn = n(v) if callable(n) else n
        return [("compiled entropy uses the parameters", call(v, get(v, c, "volume_derivative"), pc), (M,), lambda l, ix: -sum1(nn, lambda i: div(rd("pc", (i, ix[0])), l(i))))]
    return p


faithful("FloryHuggins", (N, N), ["scalar", "full", "full:i", "full:F", "row"], mk_fhx, "chis", half_sum, probe=probe_fe_int)
faithful("FloryHuggins", (N,), ["scalar", "full", "full:i"], mk_fhl, "sizes", ident, positive=True, probe=probe_sizes(N, lambda v, o: call(v, get(v, o, "entropy_compiled"))))

# ---- entropies
mk_ent = lambda v, x: call(v, v.cls(ENT, "IdealGasEntropy"), num(N, "i"), x)
faithful("IdealGasEntropy", (N,), FORMS1, mk_ent, "sizes", ident, positive=True, probe=probe_sizes(N))
rejected("IdealGasEntropy", (N,), mk_ent, "sizes")


def default_sizes(v):
    for o_ in ("ideal",):
        def thunk():
            o = call(v, v.cls(ENT, "IdealGasEntropy"), num(N, "i"))
            v.e.probe = probe_sizes(N)(v, o)
            return get(v, o, "sizes")
        for q in v.okpaths(v.run(thunk)):
            v.same(f"sizes default to one [{q.n}]", q, q.val, (N,), lambda ix: ONE)
            for lab, val, sh, fn in q.e.probe:
                v.same(f"{lab} [{q.n}]", q, val, sh, lambda ix: fn(lambda i: ONE, ix))


task("C04", "IdealGasEntropy, default sizes")(default_sizes)


def mk_pol(v, x):
    if not hasattr(v.e, "nf"):
        v.e.nf = poly_sizes(v)
    return call(v, v.cls(POL, "IdealGasPolydispersedEntropy"), num(F, "i"), x, v.e.nf[0])


def poly_faithful(form, how):
    def t(v):
        m = v.m

        def thunk():
            v.e.nf = poly_sizes(v)
            n = v.e.nf[1]
            x, r, arrs = value(v, form, "x", (n,), True)
            if how == "setter":
                y, _, _ = value(v, "full", "y", (n,), True)
                o = mk_pol(v, y)
                m.setattr(o, "sizes", x)
            else:
                o = mk_pol(v, x)
            v.e.r, v.e.arrs = r, arrs
            v.e.probe = probe_sizes(lambda v: n)(v, o)
            v.e.n = n
            return get(v, o, "sizes")
        for q in v.okpaths(v.run(thunk)):
            v.same(f"sizes holds the given values [{q.n}]", q, q.val, (q.e.n,), lambda ix: q.e.r(*ix))
            for a in q.e.arrs:
                v.unchanged(q, **{"caller's array": a})
                v.fresh_store(q, "parameter", q.val, a)
            for lab, val, sh, fn in q.e.probe:
                v.same(f"{lab} [{q.n}]", q, val, sh, lambda ix: fn(q.e.r, ix))
    task("C04", f"IdealGasPolydispersedEntropy, {how}, {form}")(t)


for form in ("scalar", "int", "full", "full:i", "one"):
    for how in ("constructor", "setter"):
        poly_faithful(form, how)


def poly_counts(form):
    """number of components per feature given as integer or row"""
    def t(v):
        m = v.m

        def thunk():
            if form == "int":
                c = ivar("c0", 1)
                x = num(c, "i")
                cnt = lambda f: c
                n = F * c
            else:
                x, n = poly_sizes(v)
                cnt = lambda f: rd("nf", (f,))
            v.e.n, v.e.cnt = n, cnt
            e = call(v, v.cls(POL, "IdealGasPolydispersedEntropy"), num(F, "i"), None, x)
            b = call(v, v.cls(BLK, "FloryHugginsBlockInteraction"), num(F, "i"), 0.0, x)
            return get(v, e, "num_comp"), get(v, e, "num_feat"), get(v, b, "num_comp"), get(v, b, "num_feat"), get(v, b, "num_comp_per_feat"), get(v, e, "sizes")
        for q in v.okpaths(v.run(thunk)):
            for lab, a, w in (("components of the entropy", q.val[0], q.e.n), ("features of the entropy", q.val[1], F), ("components of the interaction", q.val[2], q.e.n), ("features of the interaction", q.val[3], F)):
                v.zero(f"number of {lab} [{q.n}]", lift(a)[0] - w, q.ctx)
            v.same(f"components per feature [{q.n}]", q, q.val[4], (F,), lambda ix: q.e.cnt(ix[0]))
            v.same(f"default sizes [{q.n}]", q, q.val[5], (q.e.n,), lambda ix: ONE)
    task("C04 C05", f"feature based models, components per feature: {form}")(t)


poly_counts("int")
poly_counts("row")


# ---- ensembles
def probe_norm(kind):
    def p(v, o):
        c = call(v, get(v, o, "compiled"))
        w = sym(v, "p", (N, M), nonneg=True)
        Q = sym(v, "Q", (N,), pos=True)
        ones = new_arr((M,), lambda ix: ONE, "f")
        call(v, get(v, c, "normalize"), w, Q, ones)
        return [("compiled ensemble uses the parameters", w, (N, M), (lambda a, ix: div(a(ix[0]), rd("Q", (ix[0],))) * rd("p", tuple(ix))) if kind == "c" else (lambda a, ix: a(ix[0]) * rd("p", tuple(ix))))]
    return p


mk_can = lambda v, x: call(v, v.cls(CAN, "CanonicalEnsemble"), num(N, "i"), x)
mk_gra = lambda v, x: call(v, v.cls(GRA, "GrandCanonicalEnsemble"), num(N, "i"), x)
faithful("CanonicalEnsemble", (N,), FORMS1, mk_can, "phi_means", ident, probe=probe_norm("c"))
rejected("CanonicalEnsemble", (N,), mk_can, "phi_means")
faithful("GrandCanonicalEnsemble", (N,), FORMS1, mk_gra, "scaled_activity", ident, probe=probe_norm("g"))
rejected("GrandCanonicalEnsemble", (N,), mk_gra, "scaled_activity")


def default_means(v):
    def thunk():
        o = call(v, v.cls(CAN, "CanonicalEnsemble"), num(N, "i"))
        return get(v, o, "phi_means")
    for q in v.okpaths(v.run(thunk)):
        v.same(f"phi_means default to equal fractions [{q.n}]", q, q.val, (N,), lambda ix: inv(N))


task("C04", "CanonicalEnsemble, default means")(default_means)


# ---- constraints
def probe_con(kind, which):
    """force of the compiled constraint from zero multiplier: reveals Cs and Ts"""
    def p(v, o):
        c = call(v, get(v, o, "compiled"), constraint_elasticity=num(var("kappa"), "f"), constraint_acceptance_ratio=num(var("acc"), "f"))
        call(v, get(v, c, "initialize"), num(M, "i"))
        ph = sym(v, "ph", (F, M))
        J = volumes(v)
        ones = new_arr((M,), lambda ix: ONE, "f")
        call(v, get(v, c, "prepare"), ph, J, ones)
        other = v.e.other

        def fn(r, ix):
            C = (lambda k, f: r(k, f)) if which == "Cs" else other
            T = (lambda k: r(k)) if which == "Ts" else other
            R = lambda k, a: sum1(F, lambda f: C(k, f) * rd("ph", (f, a))) - T(k)
            if kind == "local":
                return sum1(v.e.K, lambda k: C(k, ix[0]) * var("kappa") * R(k, ix[1]).scale(2))
            return sum1(v.e.K, lambda k: C(k, ix[0]) * var("kappa") * sum1(M, lambda a: R(k, a) * rd("J", (a,))).scale(2))
        return [("compiled constraint uses the parameters", npmodel.copy_arr(get(v, c, "potential")), (F, M), fn)]
    return p


def constraint_params(kind, mod, cls):
    def mkC(v, x):
        T = sym(v, "T", (K,))
        v.e.K = K
        v.e.other = lambda k: rd("T", (k,))
        return call(v, v.cls(mod, cls), num(F, "i"), x, T)

    def mkC1(v, x):
        T = sym(v, "T", (ONE,))
        v.e.K = ONE
        v.e.other = lambda k: rd("T", (ZERO,))
        return call(v, v.cls(mod, cls), num(F, "i"), x, T)

    def mkT(v, x):
        C = sym(v, "C", (K, F))
        v.e.K = K
        v.e.other = lambda k, f: rd("C", (k, f))
        return call(v, v.cls(mod, cls), num(F, "i"), C, x)
    faithful(cls + " Cs", (K, F), ["full", "full:i", "full:F", "full:A"], mkC, "Cs", ident, probe=probe_con(kind, "Cs"))
    faithful(cls + " Cs (one condition)", (ONE, F), ["row", "row:i", "scalar", "one"], mkC1, "Cs", ident, setter=False, probe=probe_con(kind, "Cs"))
    faithful(cls + " Ts", (K,), FORMS1, mkT, "Ts", ident, probe=probe_con(kind, "Ts"))
    rejected(cls + " Ts", (K,), mkT, "Ts")
    rejected(cls + " Cs", (K, F), mkC, "Cs", exact_rank=True)


constraint_params("local", LOC, "LinearLocalConstraint")
constraint_params("global", GLO, "LinearGlobalConstraint")
