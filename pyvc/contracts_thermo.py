"""C01, C02, C03: free energy and derived thermodynamic quantities."""
from vc import *

FE = "flory.free_energy.base"
FH = "flory.free_energy.flory_huggins"
INT = "flory.interaction.flory_huggins"
BLK = "flory.interaction.flory_huggins_block"
ENT = "flory.entropy.ideal_gas"
POL = "flory.entropy.ideal_gas_polydispersed"

RANKS = (0, 1, 2, 3, 4)


def batch(rank):
    return [ivar(f"B{d}", 1) for d in range(rank)]


def result(shape, fn, dtype="f"):
    """value as numpy returns it: a scalar for rank zero"""
    shape = [P(s) for s in shape]
    if not shape:
        return num(fn([]), "f")
    return new_arr(shape, fn, dtype)


def phis_arr(rank, n, pos=True, dtype="f", name="phi"):
    kw = dict(pos=True) if pos else dict(nonneg=True)
    if dtype[0] == "i":
        kw["lo"] = 1 if pos else 0
    return sym_arr(name, batch(rank) + [n], dtype, **kw)


# ---- specification functions (pure, over element readers)
def f_int(C, phi, n):
    return sum1(n, lambda i: sum1(n, lambda j: C(i, j) * phi(i) * phi(j))).scale(Fraction(1, 2))


def xlnx(x):
    return ite(eq0(x), ZERO, x * log(x)) if not known_pos(x) else x * log(x)


def f_ent(l, phi, n):
    return sum1(n, lambda i: div(xlnx(phi(i)), l(i)))


def reader(a, lead=()):
    return lambda *ix: a.read(tuple(lead) + tuple(P(i) for i in ix))


# ------------------------------------------------------------- stubs (contracts)
def _chis(o):
    return o.attrs["_chis"]


def _lead(p):
    return list(p.shape[:-1])


@stub(f"{INT}:FloryHugginsInteractionBase._energy_impl")
def s_int_energy(m, args, kw):
    o, p = args
    C, n = reader(_chis(o)), p.shape[-1]
    return result(_lead(p), lambda b: f_int(C, reader(p, b), n))


@stub(f"{INT}:FloryHugginsInteractionBase._jacobian_impl")
def s_int_jac(m, args, kw):
    o, p = args
    C, n = reader(_chis(o)), p.shape[-1]
    return result(p.shape, lambda ix: sum1(n, lambda i: C(ix[-1], i) * p.read(tuple(ix[:-1]) + (i,))))


@stub(f"{INT}:FloryHugginsInteractionBase._hessian_impl")
def s_int_hess(m, args, kw):
    o, p = args
    C, n = reader(_chis(o)), p.shape[-1]
    return result(list(p.shape) + [n], lambda ix: C(ix[-2], ix[-1]))


def _l(o):
    return o.attrs["_sizes"]


@stub(f"{ENT}:IdealGasEntropyBase._energy_impl")
def s_ent_energy(m, args, kw):
    o, p = args
    return result(_lead(p), lambda b: f_ent(reader(_l(o)), reader(p, b), p.shape[-1]))


@stub(f"{ENT}:IdealGasEntropyBase._jacobian_impl")
def s_ent_jac(m, args, kw):
    o, p = args
    return result(p.shape, lambda ix: div(log(p.read(ix)) + 1, _l(o).read((ix[-1],))))


@stub(f"{ENT}:IdealGasEntropyBase._hessian_impl")
def s_ent_hess(m, args, kw):
    o, p = args
    n = p.shape[-1]
    return result(list(p.shape) + [n], lambda ix: eq(ix[-1], ix[-2]) * inv(p.read(ix[:-1]) * _l(o).read((ix[-1],))))


@stub(f"{ENT}:IdealGasEntropyBase._jacobian_fractions_impl")
def s_ent_jacfrac(m, args, kw):
    o, p = args
    return result(p.shape, lambda ix: div(xlnx(p.read(ix)) + p.read(ix), _l(o).read((ix[-1],))))


def internal(props, qual, obj, args, variants=RANKS, name=None, seconds=60):
    """contract of a method whose stub is registered: execute the body and compare with the stub"""
    for r in variants:
        def t(v, r=r):
            m = v.m
            o = obj(v)
            xs = args(v, r)
            cls, meth = qual.split(":")[1].split(".")
            f = find(v, qual)
            exp = STUBS[qual](m, [o] + xs, {})
            m.stubs.pop(qual, None)
            outs = v.run(v.call(f, o, *xs))
            v.functions.add(qual)
            for q in v.okpaths(outs):
                shp = exp.shape if isinstance(exp, SArr) else ()
                v.same(f"result [{q.n}]", q, q.val, shp, (lambda ix: exp.read(tuple(ix))) if isinstance(exp, SArr) else (lambda ix: lift(exp)[0]))
                v.unchanged(q, **{f"argument {i}": x for i, x in enumerate(xs) if isinstance(x, SArr)})
                for k, x in o.attrs.items():
                    if isinstance(x, SArr):
                        v.unchanged(q, **{k: x})
        task(props, f"{qual} (variant {r})", internal=qual, seconds=seconds)(t)


def find(v, qual):
    mod, path = qual.split(":")
    ns = v.m.load(mod).ns
    parts = path.split(".")
    if parts[0] not in ns:
        raise Missing(f"{qual} does not exist")
    x = ns[parts[0]]
    for p in parts[1:]:
        x = x.lookup(p)
        if x is None:
            raise Missing(f"{qual} does not exist")
    return x


def int_obj(v):
    n = ivar("N", 1)
    return v.obj(INT, "FloryHugginsInteraction", num_comp=num(n, "i"), _chis=sym_arr("C", (n, n), sym=True))


def ent_obj(v):
    n = ivar("N", 1)
    return v.obj(ENT, "IdealGasEntropy", num_comp=num(n, "i"), _sizes=sym_arr("l", (n,), pos=True))


N = ivar("N", 1)
for q, pos in (("_energy_impl", False), ("_jacobian_impl", False), ("_hessian_impl", False)):
    internal("C01 C02 C03", f"{INT}:FloryHugginsInteractionBase.{q}", int_obj, lambda v, r, pos=pos: [phis_arr(r, N, pos)])
for q, pos in (("_energy_impl", False), ("_jacobian_impl", True), ("_hessian_impl", True), ("_jacobian_fractions_impl", False)):
    internal("C01 C02 C03", f"{ENT}:IdealGasEntropyBase.{q}", ent_obj, lambda v, r, pos=pos: [phis_arr(r, N, pos)])


# ---------------------------------------------------------------- public: C01
def make_fh(v, sizes="arr"):
    """a FloryHuggins object built by the real constructor from an arbitrary matrix"""
    n = ivar("N", 1)
    X = sym_arr("X", (n, n))
    l = sym_arr("l", (n,), pos=True)
    fe = v.m.call(v.cls(FH, "FloryHuggins"), [num(n, "i"), X] + ([l] if sizes == "arr" else []), {})
    C = lambda i, j: (X.read((i, j)) + X.read((j, i))).scale(Fraction(1, 2))
    L = (lambda i: l.read((i,))) if sizes == "arr" else (lambda i: ONE)
    return fe, n, C, L


def make_block(v):
    F = ivar("F", 1)
    X = sym_arr("X", (F, F))
    nf = sym_arr("nf", (F,), "i", lo=1, pos=True)
    n = sum1(F, lambda k: rd("nf", (k,)))
    l = sym_arr("l", (n,), pos=True)
    inter = v.m.call(v.cls(BLK, "FloryHugginsBlockInteraction"), [num(F, "i"), X, nf], {})
    ent = v.m.call(v.cls(POL, "IdealGasPolydispersedEntropy"), [num(F, "i"), l, nf], {})
    fe = v.m.call(v.cls(FE, "FreeEnergyBase"), [inter, ent], {})
    own = lambda i: npmodel.owner(F, rd("nf", (npmodel.L0,)), i)
    C = lambda i, j: (X.read((own(i), own(j))) + X.read((own(j), own(i)))).scale(Fraction(1, 2))
    return fe, n, C, lambda i: l.read((i,))


def built(v, thunk):
    """run a constructor; the single normal path's objects are left on the heap"""
    box = []
    outs = v.run(lambda: box.append(thunk()) or box[-1], label="construction: ")
    good = v.okpaths(outs, "construction: ")
    if len(good) != 1:
        # differing only in conditions without effect (warnings)
        pass
    return good


def fe_task(kind, rank, dtype="f", mk_=make_fh, tag="", seconds=60, props="C01"):
    def t(v):
        m = v.m

        def thunk():
            fe, n, C, L = mk_(v)
            v.e.env = (n, C, L)
            p = phis_arr(rank, n, pos=kind != "free_energy_density", dtype=dtype)
            v.e.p = p
            v.e.fe = fe
            args, kw = [p], {}
            if kind.endswith("_reduced"):
                k = ivar("k")
                v.assume(ge0(k), gt0(n - k), gt0(n - 1))
                args.append(num(k, "i"))
            v.e.before = {p.store: p.store.body}
            return m.call(m.getattr(fe, kind.replace("_reduced", "")), args, kw)
        outs = v.run(thunk)
        for q in v.okpaths(outs):
            n, C, L = q.e.env
            p = q.e.p
            lead = _lead(p)
            f = lambda b: f_int(C, reader(p, b), n) + f_ent(L, reader(p, b), n)
            if kind == "free_energy_density":
                v.same(f"equals the Flory-Huggins formula [{q.n}]", q, q.val, lead, f)
            else:
                k = ivar("k")
                D1 = lambda b, i: diff(f(b), "phi", tuple(b) + (P(i),))
                D2 = lambda b, i, j: diff(D1(b, i), "phi", tuple(b) + (P(j),))
                sk = lambda i: i + ge0(P(i) - k)  # index in the full vector
                if kind == "jacobian":
                    v.same(f"is the gradient of the formula [{q.n}]", q, q.val, lead + [n], lambda ix: D1(ix[:-1], ix[-1]))
                elif kind == "hessian":
                    v.same(f"is the Hessian of the formula [{q.n}]", q, q.val, lead + [n, n], lambda ix: D2(ix[:-2], ix[-2], ix[-1]))
                elif kind == "jacobian_reduced":
                    v.same(f"is the gradient with the dependent component eliminated [{q.n}]", q, q.val, lead + [n - 1],
                           lambda ix: D1(ix[:-1], sk(ix[-1])) - D1(ix[:-1], k))
                else:
                    v.same(f"is the Hessian with the dependent component eliminated [{q.n}]", q, q.val, lead + [n - 1, n - 1],
                           lambda ix: D2(ix[:-2], sk(ix[-2]), sk(ix[-1])) - D2(ix[:-2], sk(ix[-2]), k) - D2(ix[:-2], k, sk(ix[-1])) + D2(ix[:-2], k, k))
            v.unchanged(q, composition=p)
    task(props, f"FreeEnergyBase.{kind} rank {rank} {dtype} {tag}", seconds=seconds)(t)


for r in RANKS:
    for kind in ("free_energy_density", "jacobian", "hessian", "jacobian_reduced", "hessian_reduced"):
        fe_task(kind, r, tag="FloryHuggins")
for kind in ("free_energy_density", "jacobian", "hessian"):
    fe_task(kind, 1, dtype="i", tag="FloryHuggins")
    fe_task(kind, 1, mk_=make_block, tag="block model")
    fe_task(kind, 0, mk_=lambda v: make_fh(v, None), tag="FloryHuggins, default sizes")


# ---------------------------------------------------------------- public: C02
def spec_parts(C, L, p, n):
    """readers: f(b), g(b, i) = df/dphi_i (phi_i > 0), s(b) = sum_j phi_j df/dphi_j with 0 ln 0 = 0"""
    ph = lambda b: reader(p, b)
    f = lambda b: f_int(C, ph(b), n) + f_ent(L, ph(b), n)
    g = lambda b, i: sum1(n, lambda j: C(i, j) * p.read(tuple(b) + (j,))) + div(log(p.read(tuple(b) + (P(i),))) + 1, L(i))
    s = lambda b: sum1(n, lambda j: p.read(tuple(b) + (j,)) * sum1(n, lambda i: C(i, j) * p.read(tuple(b) + (i,)))) + sum1(n, lambda j: div(xlnx(p.read(tuple(b) + (j,))) + p.read(tuple(b) + (j,)), L(j)))
    return f, g, s


def same_loose(v, name, q, val, shape, fn):
    """like v.same, but a result for a single composition may carry an extra leading axis of length one"""
    if isinstance(val, SArr) and val.ndim == len(shape) + 1 and val.shape[0].const() == 1:
        shape = [ONE] + list(shape)
        return v.same(name, q, val, shape, lambda ix: fn(ix[1:]))
    return v.same(name, q, val, shape, fn)


def c02_task(kind, rank, mk_=make_fh, tag="", pos=True, props="C02"):
    def t(v):
        m = v.m

        def thunk():
            fe, n, C, L = mk_(v)
            p = phis_arr(rank, n, pos=pos)
            v.e.env = (n, C, L, p)
            v.e.before = {p.store: p.store.body}
            k = ivar("k")
            if kind in ("exchange_chemical_potentials", "pressure"):
                v.assume(ge0(k), gt0(n - k))
                if not pos:
                    # a vanishing fraction has an infinite potential: the named component is present
                    pass
                return m.call(m.getattr(fe, kind), [p, num(k, "i")], {})
            if kind.endswith(":full"):
                return m.call(m.getattr(fe, kind[:-5]), [p], {"conserved": False})
            if kind.startswith(("num_unstable", "is_stable")):
                v.assume(gt0(n - 1))
            return m.call(m.getattr(fe, kind), [p], {})
        outs = v.run(thunk, safety=False)
        for q in v.okpaths(outs):
            n, C, L, p = q.e.env
            lead = _lead(p)
            f, g, s = spec_parts(C, L, p, n)
            k = ivar("k")
            mu = lambda b, i: f(b) + g(b, i) - s(b)
            present = [] if pos else [gt0(p.read(tuple(IX[:rank]) + (IX[rank],)))]
            nm = f"{kind} [{q.n}]"
            if kind == "chemical_potentials":
                q.ctx = q.ctx.extend(*present)
                if not pos and isinstance(q.val, SArr) and q.val.ndim == rank + 2:
                    q.ctx = q.ctx.extend(gt0(p.read(tuple(IX[1:rank + 1]) + (IX[rank + 1],))))
                same_loose(v, "is f + df/dphi_i - sum phi df/dphi" + f" [{q.n}]", q, q.val, lead + [n], lambda ix: mu(ix[:-1], ix[-1]))
            elif kind == "exchange_chemical_potentials":
                v.same(f"is the gradient relative to the reference component [{q.n}]", q, q.val, lead + [n], lambda ix: g(ix[:-1], ix[-1]) - g(ix[:-1], k))
            elif kind == "pressure":
                same_loose(v, f"is minus the chemical potential of the solvent [{q.n}]", q, q.val, lead, lambda b: -mu(b, k))
            elif kind.startswith(("num_unstable", "is_stable")):
                H = lambda b, i, j: C(i, j) + eq(i, j) * inv(p.read(tuple(b) + (P(i),)) * L(i))
                if kind.endswith(":full"):
                    dim, G = n, H
                else:
                    dim = n - 1
                    G = lambda b, i, j: H(b, i + 1, j + 1) - H(b, i + 1, ZERO) - H(b, ZERO, j + 1) + H(b, ZERO, ZERO)
                cnt = lambda b: sum1(dim, lambda a: gt0(-app("eigh", dim, G(b, npmodel.L0, npmodel.L1), a)))
                if kind.startswith("num"):
                    v.same(f"counts the negative eigenvalues of the Hessian [{q.n}]", q, q.val, lead, cnt)
                else:
                    v.same(f"is true exactly when no eigenvalue is negative [{q.n}]", q, q.val, lead, lambda b: eq0(cnt(b)))
            else:
                M = lead[0]
                mean = lambda i: div(sum1(M, lambda a: mu([a], i)), M)
                dev = lambda b, i: mu(b, i) - mean(i)
                v.same(f"is the norm of the deviation from the mean potential [{q.n}]", q, q.val, lead,
                       lambda b: app("sqrt", sum1(n, lambda i: dev(b, i) * dev(b, i))))
            v.unchanged(q, composition=p)
    task(props, f"FreeEnergyBase.{kind} rank {rank} {'' if pos else 'with zeros'} {tag}")(t)


for r in RANKS:
    for kind in ("chemical_potentials", "exchange_chemical_potentials", "pressure"):
        c02_task(kind, r)
    for kind in ("num_unstable_modes", "num_unstable_modes:full", "is_stable", "is_stable:full"):
        c02_task(kind, r)
    c02_task("chemical_potentials", r, pos=False)
c02_task("equilibration_error", 1)
c02_task("chemical_potentials", 1, mk_=make_block, tag="block model")
c02_task("pressure", 1, mk_=make_block, tag="block model")


# ---------------------------------------------------------------- public: C03
QUERIES = [("free_energy_density", 0), ("jacobian", 0), ("jacobian", 1), ("hessian", 0), ("hessian", 1), ("chemical_potentials", 0), ("exchange_chemical_potentials", 1),
           ("pressure", 1), ("num_unstable_modes", 0), ("is_stable", 0), ("equilibration_error", 0)]


def c03_task(kind, nargs, rank, case, seq=False):
    def t(v):
        m = v.m

        def thunk():
            fe, n, C, L = make_fh(v)
            k = ivar("k")
            v.assume(ge0(k), gt0(n - k), gt0(n - 1))
            D = n
            if case == "shape":
                D = ivar("D", 1)
                v.assume(ONE - eq(D, n))
                p = phis_arr(rank, D, pos=True)
            elif case == "negative":
                p = sym_arr("psi", batch(rank) + [n])
                w = [ivar(f"w{d}", 0) for d in range(rank + 1)]
                for x, s in zip(w, p.shape):
                    v.assume(gt0(s - x))
                v.assume(gt0(-p.read(tuple(w))))
                m.witness = [tuple(w)]
            else:
                p = phis_arr(rank, n, pos=True)
            v.e.p = p
            v.e.before = {p.store: p.store.body}
            return m.call(m.getattr(fe, kind), [p] + [num(k, "i")] * nargs, {})
        outs = v.run(thunk, safety=False)
        if case in ("shape", "negative"):
            v.raises(outs, "is rejected with a volume fraction error", "VolumeFractionError")
            for q in outs:
                v.unchanged(q, composition=q.e.p)
        else:
            for q in v.okpaths(outs):
                v.unchanged(q, composition=q.e.p)
                v.fresh_store(q, "result", q.val, q.e.p)
    task("C03", f"FreeEnergyBase.{kind}({nargs}) rank {rank}: {case}")(t)


for kind, na in QUERIES:
    for r in ((1,) if kind == "equilibration_error" else RANKS):
        for case in ("shape", "negative", "valid"):
            c03_task(kind, na, r, case)


def c03_mismatch(cls_i, cls_e):
    def t(v):
        m = v.m
        n1, n2 = ivar("N1", 1), ivar("N2", 1)
        v.assume(ONE - eq(n1, n2))

        def thunk():
            i = m.call(v.cls(INT, "FloryHugginsInteraction"), [num(n1, "i"), sym_arr("X", (n1, n1))], {})
            e = m.call(v.cls(ENT, "IdealGasEntropy"), [num(n2, "i")], {})
            return m.call(v.cls(FE, "FreeEnergyBase"), [i, e], {})
        v.raises(v.run(thunk, safety=False), "different component numbers are rejected", "ComponentNumberError")
    task("C03", "FreeEnergyBase.__init__: mismatch")(t)

    def t2(v):
        m = v.m
        n = ivar("N", 1)

        def thunk():
            i = m.call(v.cls(INT, "FloryHugginsInteraction"), [num(n, "i"), sym_arr("X", (n, n))], {})
            e = m.call(v.cls(ENT, "IdealGasEntropy"), [num(n, "i")], {})
            v.e.i, v.e.en = i, e
            return m.call(v.cls(FE, "FreeEnergyBase"), [i, e], {})
        for q in v.okpaths(v.run(thunk, safety=False)):
            v.holds(f"uses the given interaction [{q.n}]", q.attr(q.val, "interaction") is q.e.i)
            v.holds(f"uses the given entropy [{q.n}]", q.attr(q.val, "entropy") is q.e.en)
            v.zero(f"number of components [{q.n}]", lift(q.attr(q.val, "num_comp"))[0] - n, q.ctx)
    task("C03", "FreeEnergyBase.__init__: match")(t2)


c03_mismatch(None, None)
