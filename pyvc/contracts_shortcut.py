"""C17: the one-call interface against the documented sequence of calls."""
from vc import *
from contracts_parts import N, M, F, K, sym
from contracts_misc import METASTEP, COPY, OPTS, MRPC, havoc_copy
from contracts_finder import Rec, MODELS, LIB, use, compare, ARGS

PHA = "flory.common.phases"
KC = ivar("clusters", 1)
PIPELINE = LIB + """
fe = FloryHuggins(num_comp, chis, sizes) if given_sizes else FloryHuggins(num_comp, chis)
finder = CoexistingPhasesFinder(fe.interaction, fe.entropy, CanonicalEnsemble(num_comp, phi_means), **options)
phases = finder.run().get_clusters().sort().normalize()
diagnostics = finder.diagnostics
"""
ONECALL = LIB + """
result = find_coexisting_phases(num_comp, chis, phi_means, sizes, **options) if given_sizes else find_coexisting_phases(num_comp, chis, phi_means, **options)
volumes, fractions, info = result.volumes, result.fractions, result.info
"""


class Twin(Rec):
    """a metastep that is a function of its arguments: the second sequence of calls gets the same results
    provided that it is called with the same arguments (compared by the checks)"""

    def __init__(self, v):
        super().__init__(v)
        v.e.copied = []
        v.e.clustered = []
        self.results = {}
        v.m.stubs[COPY] = self.copy
        v.m.stubs[f"{PHA}:Phases.get_clusters"] = self.get_clusters
        v.m.stubs[f"{PHA}:Phases.sort"] = self.sort

    def begin(self):
        self.offset = len(self.calls)
        self.ncopy = self.ncluster = 0

    def metastep(self, m, args, kw):
        all_, self.calls = self.calls, self.calls[self.offset:]  # the same names for both sequences
        try:
            return super().metastep(m, args, kw)
        finally:
            self.calls = all_ + self.calls[len(all_) - self.offset:]

    def copy(self, m, args, kw):
        d = dict(zip(("Js", "targets", "threshold", "rng"), args), **kw)
        self.v.e.copied.append((npmodel.copy_arr(d["Js"]), npmodel.copy_arr(d["targets"]), lift(d["threshold"])[0], d["rng"]))
        for n in ("Js", "targets"):
            nm = f"copied{self.ncopy}.{n}"
            terms.arr(nm, d[n].shape)
            npmodel.assign_into(m, d[n], new_arr(d[n].shape, lambda ix, nm=nm: rd(nm, ix), "f"))
        self.ncopy += 1
        return num(ivar("copies", 0), "i")

    def get_clusters(self, m, args, kw):
        o = args[0]
        d = m.bind(self.v.cls(PHA, "Phases").lookup("get_clusters"), args, kw)
        rest = [x for k, x in d.items() if x is not o]
        if len(rest) != 1:
            raise Unsupported("harness: options of get_clusters")
        dist = rest[0]
        self.v.e.clustered.append((npmodel.copy_arr(o.attrs["volumes"]), npmodel.copy_arr(o.attrs["fractions"]), lift(dist)[0]))
        k = self.ncluster
        self.ncluster += 1
        if k:
            raise Unsupported("harness: clustered twice")
        terms.arr("cluster_volumes", (KC,), pos=True)
        terms.arr("cluster_fractions", (KC, N), nonneg=True)
        m.ctx.add(gt0(sum1(KC, lambda i: rd("cluster_volumes", (i,)))))
        r = m.call(m.getattr(o, "_copy"), [new_arr((KC,), lambda ix: rd("cluster_volumes", ix), "f"), new_arr((KC, N), lambda ix: rd("cluster_fractions", ix), "f")], {})
        r.attrs["__sorted__"] = True
        return r

    def sort(self, m, args, kw):
        o = args[0]
        f = o.attrs["fractions"]
        if o.attrs.get("__sorted__") or f.read(IX[:2]) is rd("cluster_fractions", IX[:2]):
            return o  # contract of get_clusters: the result is sorted; sorting again changes nothing
        raise Unsupported("harness: sorting an unsorted collection")


def c17(name, sizes, chis, means, opts):
    def t(v):
        m = v.m

        def thunk():
            tw = Twin(v)
            v.e.n = N, N
            ns = dict(num_comp=num(N, "i"), given_sizes=sizes is not None)
            ns["chis"] = sym(v, "chi", (N, N)) if chis == "matrix" else num(var("chi_value"), "f")
            ns["phi_means"] = sym(v, "means", (N,), pos=True) if means == "array" else num(var("mean_value", pos=True), "f")
            ns["sizes"] = sym(v, "l", (N,), pos=True) if sizes == "array" else num(var("size", pos=True), "f") if sizes == "scalar" else None
            o = dict(max_steps=1, interval=1, progress=False)
            if opts == "all":
                o.update(num_part=num(M, "i"), max_revive_per_compartment=num(MRPC, "i"), tolerance=num(var("tol", pos=True), "f"), additional_chis_shift=num(var("shift"), "f"), unknown=3,
                         **{k: num(p, "f") for k, p in OPTS.items()})
            elif opts == "constraint":
                o.update(num_part=num(M, "i"), constraint_elasticity=num(var("kappa"), "f"), additional_chis_shift=0)
            v.e.sides = []
            tag = fresh_name("rng")
            for src in (ONECALL, PIPELINE):
                rng = npmodel.SRng("rng")
                rng.tag = tag
                tw.begin()
                oo = dict(o, rng=rng)
                if opts == "constraint":
                    c = m.client(LIB + "c = LinearLocalConstraint(num_comp, Cs, Ts)\n", dict(ns, Cs=sym(v, "Cs", (K, N)), Ts=sym(v, "Ts", (K,))))["c"]
                    oo["constraints"] = c
                k, kc = len(tw.calls), len(v.e.copied)
                r = m.client(src, dict(ns, options=SDict(oo)))
                if "result" in r:
                    val = r["volumes"], r["fractions"], r["info"]
                    v.e.cls = r["result"].cls.name
                else:
                    val = m.getattr(r["phases"], "volumes"), m.getattr(r["phases"], "fractions"), r["diagnostics"]
                if len(tw.calls) != k + 1 or len(v.e.copied) != kc + 1:
                    raise Unsupported("harness: the solver was not run exactly once")
                call = tw.calls[-1]
                behave = sum([use(v, call[p], MODELS[q][3]) for p, q in (("interaction", "interaction"), ("entropy", "entropy"), ("ensemble", "canonical"))], [])
                for c in call["cons"]:
                    behave += use(v, c, MODELS["local"][3] + MODELS["local"][3][1:])
                v.e.sides.append((val, call, behave, rng))
        terms.arr("Jx", (M,), nonneg=True)
        m.assume(gt0(sum1(M, lambda a: rd("Jx", (a,)))))
        for q in v.okpaths(v.run(thunk)):
            n = f"[{q.n}]"
            (va, ca, ba, ra), (vb, cb, bb, rb) = q.e.sides
            v.fact(f"phases with information are returned {n}", isinstance(va[2], SDict), q)
            v.fact(f"same number of constraints {n}", len(ca["cons"]) == len(cb["cons"]), q)
            compare(v, q, ba, bb, f"parts handed to the solver {n}")
            for x in ("omegas", "Js"):
                a, b = ca["in_" + x], cb["in_" + x]
                v.same(f"initial {x} {n}", q, a, b.shape, lambda ix: b.read(ix))
            for x in ("budget", "steps"):
                v.zero(f"{x} {n}", ca[x] - cb[x], q.ctx)
            for x in ARGS:
                v.zero(f"option {x} {n}", lift(ca[x])[0] - lift(cb[x])[0], q.ctx)
            v.fact(f"the generator given is used {n}", ca["rng"] is ra, q)
            (j1, x1, t1, r1), (j2, x2, t2, r2) = q.e.copied
            v.zero(f"threshold of the result {n}", t1 - t2, q.ctx)
            if len(q.e.clustered) != 2:
                v.fact(f"the result is clustered once {n}", False, q)
                continue
            (cv, cf, cd), (dv, df, dd) = q.e.clustered
            v.same(f"volumes that are clustered {n}", q, cv, dv.shape, lambda ix: dv.read(ix))
            v.same(f"fractions that are clustered {n}", q, cf, df.shape, lambda ix: df.read(ix))
            v.zero(f"distance used for clustering {n}", cd - dd, q.ctx)
            v.same(f"volumes equal those of the pipeline {n}", q, va[0], (KC,), lambda ix: q.read(vb[0], ix))
            v.same(f"fractions equal those of the pipeline {n}", q, va[1], (KC, N), lambda ix: q.read(vb[1], ix))
            k = fvar("$k")
            v.zero(f"volumes sum to one {n}", sum_over(k, KC, q.read(va[0], [P(k)])) - 1, q.ctx)
            if isinstance(va[2], SDict):
                A, B = q.snap[1][va[2]], q.snap[1][vb[2]]
                v.fact(f"information has the same entries {n}", set(A) == set(B), q, f"{sorted(A)} instead of {sorted(B)}")
                for x in sorted(set(A) & set(B)):
                    if x != "time":
                        v.zero(f"information {x} {n}", lift(A[x])[0] - lift(B[x])[0], q.ctx)
            # arguments are not changed
    task("C17", f"one-call interface: {name}", seconds=80)(t)


c17("all options", "array", "matrix", "array", "all")
c17("scalar parameters", "scalar", "scalar", "scalar", "all")
c17("no sizes", None, "matrix", "array", "all")
c17("constraint", "array", "matrix", "array", "constraint")
