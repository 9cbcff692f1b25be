"""C11: revival by copying (loops over state, verified with inductive invariants in imp.py)."""
import ast, os, time
import z3
from vc import task
import imp_vc as imp
from imp_vc import Prog, Arr, Obj, Outside, fresh, fresh_fn, isz, kind, conv

IMPL = "flory/mcmp/_finder_impl.py"


class Copy:
    """contract of revive_compartments_by_copy

    n compartments, m components; D(j): compartment j is dead, J0(j) <= threshold.
    ghost state: SL, SD  volume in living and in dead compartments
                 WL, WD  amount of an arbitrary component c0 in living and in dead compartments
                 src     compartment whose composition j holds; cut: how often its volume was halved
    """

    def setup(self, p):
        I, R = z3.IntSort(), z3.RealSort()
        self.n, self.m, self.c0 = z3.Ints("n m c0")
        self.thr = z3.Real("threshold")
        J0, T0 = z3.Function("J0", I, R), z3.Function("T0", I, I, R)
        self.J0, self.T0 = J0, T0
        self.D = lambda j: J0(j) <= self.thr
        self.cnt = z3.Function("deadbelow", I, I)
        self.val = z3.Function("halved", I, I, R)
        j, e = z3.Ints("j e")
        for f in (self.n >= 0, self.m >= 0, self.thr >= 0, 0 <= self.c0, self.c0 < self.m,
                  z3.ForAll([j], J0(j) >= 0),
                  self.cnt(0) == 0,
                  z3.ForAll([j], z3.Implies(j >= 0, self.cnt(j + 1) == self.cnt(j) + z3.If(self.D(j), 1, 0)), patterns=[self.cnt(j + 1)]),
                  z3.ForAll([j], self.val(j, 0) == J0(j), patterns=[self.val(j, 0)]),
                  z3.ForAll([j, e], self.val(j, e + 1) == self.val(j, e) / 2, patterns=[self.val(j, e + 1)])):
            p.assume(f)
        w = z3.Int("some_living")
        self.some = z3.And(0 <= w, w < self.n, z3.Not(self.D(w)))
        p.assume(z3.Or(self.some, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.n), self.D(j)))))
        self.aJ = p.new_cell("Js", "f", [self.n], lambda i: J0(i))
        self.aT = p.new_cell("targets", "f", [self.m, self.n], lambda c, i: T0(c, i))
        self.SL0, self.WL0 = z3.Reals("SL0 WL0")
        g = p.st.ghost
        g["SL"], g["SD"], g["WL"], g["WD"] = self.SL0, z3.Real("SD0"), self.WL0, z3.Real("WD0")
        g["src"] = lambda i: i
        g["cut"] = lambda i: z3.IntVal(0)
        self.lemmas(p)
        return [self.aJ, self.aT, self.thr, Obj("rng")]

    def J(self, p):
        return p.st.cell[self.aJ.cell]

    def T(self, p):
        return p.st.cell[self.aT.cell]

    # ---- ghost code
    def bump(self, p, i, dS, dW):
        g = p.st.ghost
        d = self.D(i)
        zero = z3.RealVal(0)
        p.set_ghost("SL", g["SL"] + z3.If(d, zero, dS))
        p.set_ghost("SD", g["SD"] + z3.If(d, dS, zero))
        p.set_ghost("WL", g["WL"] + z3.If(d, zero, dW))
        p.set_ghost("WD", g["WD"] + z3.If(d, dW, zero))

    def on_write(self, p, cell, ix, v):
        J, T = self.J(p), self.T(p)
        if cell is self.aJ.cell:
            i, = ix
            d = v - J(i)
            self.bump(p, i, d, d * T(self.c0, i))
        elif cell is self.aT.cell:
            c, i = ix
            self.bump(p, i, z3.RealVal(0), z3.If(c == self.c0, J(i) * (v - T(self.c0, i)), z3.RealVal(0)))

    def on_bulk(self, p, cell, fixed, free, v, val):
        J, T = self.J(p), self.T(p)
        if cell is self.aT.cell:
            if [d for d, _ in fixed] != [1]:
                raise Outside("assignment to several compartments")
            i = fixed[0][1]
            self.bump(p, i, z3.RealVal(0), J(i) * (val(self.c0, i) - T(self.c0, i)))
            if isinstance(v, Arr) and v.cell is cell and v.col and v.col[0] == 1:
                r = v.col[1]
                src, cut = p.st.ghost["src"], p.st.ghost["cut"]
                p.set_ghost("src", lambda q: z3.If(q == i, src(r), src(q)))
                p.set_ghost("cut", lambda q: z3.If(z3.Or(q == i, q == r), cut(r) + 1, cut(q)))
        elif cell is self.aJ.cell:
            self.on_scatter(p, cell, lambda j: val(j))

    def on_scatter(self, p, cell, new):
        """the sums change only if some element does"""
        if cell is self.aT.cell:
            raise Outside("assignment to several compartments")
        if cell is not self.aJ.cell:
            if cell.k == "i":
                p.set_ghost(("inv", cell), fresh_fn("inv", 1, "i"))
            return
        J = self.J(p)
        for s, w, dead in (("SL", "WL", False), ("SD", "WD", True)):
            S, W, x = fresh(s, z3.RealSort()), fresh(w, z3.RealSort()), fresh("w", z3.IntSort())
            d = self.D(x) if dead else z3.Not(self.D(x))
            p.assume(z3.Or(z3.And(S == p.st.ghost[s], W == p.st.ghost[w]), z3.And(0 <= x, x < self.n, d, new(x) != J(x))))
            p.set_ghost(s, S)
            p.set_ghost(w, W)

    def on_select(self, p, sel, n, N, inv):
        """number of selected elements = number of dead ones if the same are selected"""
        x = fresh("w", z3.IntSort())
        p.assume(z3.Or(N == self.cnt(n), z3.And(0 <= x, x < n, sel(x) != self.D(x))))

    def lemmas(self, p):
        """a sum of zeros is zero"""
        g, J, T = p.st.ghost, self.J(p), self.T(p)
        x, y = fresh("w", z3.IntSort()), fresh("w", z3.IntSort())
        p.assume(z3.Or(z3.And(g["SD"] == 0, g["WD"] == 0), z3.And(0 <= x, x < self.n, self.D(x), J(x) != 0)))
        p.assume(z3.Or(z3.And(g["SL"] == 0, g["WL"] == 0), z3.And(0 <= y, y < self.n, z3.Not(self.D(y)), J(y) != 0)))

    # ---- invariant templates
    def candidates(self, p, frames):
        st, g = p.st, p.st.ghost
        J, T, J0, T0, D, n, m = self.J(p), self.T(p), self.J0, self.T0, self.D, self.n, self.m
        out = []
        i, j, q, c = z3.Ints("i j q c")
        mods = frames[-1]["mods"]
        inn = lambda x, hi: z3.And(0 <= x, x < hi)

        def add(name, vs, f):
            out.append((name, vs, f))
        ints = {}
        for nm, v in st.loc.items():
            if isz(v) and kind(v) == "i":
                ints[str(nm) if not isinstance(nm, tuple) else f"len({nm[1].name})"] = (v, ("loc", nm) in mods, frames[-1]["entry"].loc.get(nm))
        ks = [(f"k{d}", f["k"], f["N"], d == len(frames) - 1) for d, f in enumerate(frames) if f["k"] is not None]
        names = sorted(ints)
        left = [(kn, k, "", N) for kn, k, N, last in ks]
        if not ks:
            # a while loop that counts by itself
            f = frames[0]
            own = [a for a in names if any(("loc", a) == x for x in f["mods"])]
            ks = [(a, ints[a][0], None, len(frames) == 1) for a in own]
            left = [(a, ints[a][0], b, ints[b][0]) for a in own for b in names if b not in own]
        for a in names:
            v, mod, ent = ints[a]
            if not mod:
                continue
            add(f"{a} >= 0", [], v >= 0)
            add(f"{a} <= n", [], v <= n)
            add(f"{a} is zero without living compartments", [], z3.Or(v == 0, self.some))
            if isz(ent):
                add(f"{a} <= entry", [], v <= ent)
                add(f"{a} >= entry", [], v >= ent)
            for kn, k, N, last in ks:
                add(f"{a} <= {kn}", [], v <= k)
                add(f"{a} == {kn}", [], v == k)
                add(f"{a} == deadbelow({kn})", [], v == self.cnt(k))
                add(f"{a} + deadbelow({kn}) <= {kn}", [], v + self.cnt(k) <= k)
                if last and N is not None and isz(ent):
                    add(f"{a} == entry + {kn}", [], v == ent + k)
                if N is None and a != kn:
                    add(f"{a} - {kn} <= entry", [], v - k <= ent) if isz(ent) else None
                for b in names:
                    if b > a and ints[b][1]:
                        add(f"{a} + {b} <= {kn}", [], v + ints[b][0] <= k)
            for kn, k, bn, N in left:
                add(f"{a} + {bn} left({kn}) <= n", [], v + N - k <= n)
                add(f"{a} <= {bn} end of {kn}", [], v <= N)
        arrs = []
        for cell in st.cell:
            if cell.k == "i" and len(cell.shape) == 1:
                arrs.append((cell.name, st.cell[cell], g["inv", cell], cell in mods, cell))
        for an, A, inv, mod, cell in arrs:
            tops = [(a, ints[a][0], ints[a][1]) for a in names] + [("size", cell.shape[0], False)]
            for tn, tv, tmod in tops:
                if not (mod or tmod):
                    continue
                add(f"{an}[:{tn}] are compartments", [q], z3.Implies(inn(q, tv), inn(A(q), n)))
                add(f"{an}[:{tn}] are dead", [q], z3.Implies(inn(q, tv), D(A(q))))
                add(f"{an}[:{tn}] has the inverse", [q], z3.Implies(inn(q, tv), inv(A(q)) == q))
                for kn, k, N, last in ks:
                    if last:
                        add(f"{an}[:{tn}] are below {kn}", [q], z3.Implies(inn(q, tv), A(q) < k))
                for kn, k in [(kn, k) for kn, k, N, last in ks if last] + [("n", n)]:
                    add(f"{an}[:{tn}] has all dead below {kn}", [j], z3.Implies(z3.And(inn(j, k), D(j)), z3.And(inn(inv(j), tv), A(inv(j)) == j)))
            for kn, k, N, last in ks:
                pend = lambda x: z3.And(inn(x, n), D(x), inv(x) >= k)
                proc = lambda x: z3.And(inn(x, n), D(x), inv(x) < k)
                add(f"dead ones in {an} from {kn} are empty", [j], z3.Implies(pend(j), J(j) == 0))
                add(f"dead ones in {an} below {kn} are empty", [j], z3.Implies(proc(j), J(j) == 0))
                add(f"dead ones in {an} below {kn} are revived", [j], z3.Implies(proc(j), J(j) > 0))
        al = lambda x: z3.And(inn(x, n), z3.Not(D(x)))
        de = lambda x: z3.And(inn(x, n), D(x))
        add("volumes are not negative", [j], z3.Implies(inn(j, n), J(j) >= 0))
        add("dead compartments are empty", [j], z3.Implies(de(j), J(j) == 0))
        add("living compartments stay", [j], z3.Implies(al(j), J(j) > 0))
        add("living volumes are unchanged", [j], z3.Implies(al(j), J(j) == J0(j)))
        add("volumes are unchanged", [j], z3.Implies(inn(j, n), J(j) == J0(j)))
        for kn, k, N, last in ks:
            add(f"volumes from {kn} are unchanged", [j], z3.Implies(z3.And(inn(j, n), j >= k), J(j) == J0(j)))
            add(f"dead compartments below {kn} are empty", [j], z3.Implies(z3.And(de(j), j < k), J(j) == 0))
            add(f"compartments below {kn} are not empty", [j], z3.Implies(z3.And(inn(j, n), j < k), J(j) > 0))
            add(f"dead compartments from {kn} are empty", [j], z3.Implies(z3.And(de(j), j >= k), J(j) == 0))
        src, cut = g["src"], g["cut"]
        add("sources are compartments", [j], z3.Implies(inn(j, n), inn(src(j), n)))
        add("sources are living", [j], z3.Implies(z3.And(inn(j, n), J(j) > 0), z3.Not(D(src(j)))))
        add("living are their own sources", [j], z3.Implies(al(j), src(j) == j))
        add("compositions are copies", [c, j], z3.Implies(z3.And(inn(j, n), inn(c, m)), T(c, j) == T0(c, src(j))))
        add("volumes are halved", [j], z3.Implies(z3.And(inn(j, n), J(j) > 0, z3.Not(D(src(j)))), J(j) == self.val(src(j), cut(j))))
        add("nothing was cut", [j], z3.Implies(inn(j, n), z3.And(cut(j) == 0, src(j) == j)))
        add("living volume", [], g["SL"] == self.SL0)
        add("living amount", [], g["WL"] == self.WL0)
        add("total volume", [], g["SL"] + g["SD"] == self.SL0)
        add("total amount", [], g["WL"] + g["WD"] == self.WL0)
        return out

    # ---- postcondition
    def post(self, p, r):
        g, J, T, n = p.st.ghost, self.J(p), self.T(p), self.n
        self.lemmas(p)
        j, w, c = fresh("j", z3.IntSort()), fresh("alive", z3.IntSort()), fresh("c", z3.IntSort())
        inn = lambda x, hi: z3.And(0 <= x, x < hi)
        alive = z3.And(inn(w, n), z3.Not(self.D(w)))
        src = g["src"](j)
        p.assume(inn(j, n))
        p.assume(inn(c, self.m))
        p.ask("the total volume is the living volume", g["SL"] + g["SD"] == self.SL0)
        p.ask("the total amount of every component is that of the living compartments", g["WL"] + g["WD"] == self.WL0)
        p.ask("no volume is negative", J(j) >= 0)
        p.ask("every compartment has volume if some compartment is alive", z3.Implies(alive, J(j) > 0))
        p.ask("living compartments keep their composition", z3.Implies(z3.Not(self.D(j)), T(c, j) == self.T0(c, j)))
        p.ask("every compartment holds the composition of a living one", z3.Implies(alive, z3.And(inn(src, n), z3.Not(self.D(src)), T(c, j) == self.T0(c, src))))
        p.ask("every volume is that of the living compartment, halved", z3.Implies(alive, J(j) == self.val(src, g["cut"](j))))
        if not isz(r) or kind(r) != "i":
            raise Outside("the result is not an integer")
        p.ask("the number of revived compartments is returned", z3.Implies(alive, r == self.cnt(n)))
        p.ask("nothing is reported without a living compartment", z3.Or(r == 0, self.some))


@task("C11", "revive_compartments_by_copy", seconds=150)
def by_copy(v):
    root = os.environ.get("VERIF_REPO", "/repo")
    mod = ast.parse(open(os.path.join(root, IMPL)).read())
    name = "revive_compartments_by_copy"
    if name not in {f.name for f in mod.body if isinstance(f, ast.FunctionDef)}:
        v.add("function exists", "other", "", 0, "not found")
        return
    t_end = v.t_end
    p = Prog(mod, Copy(), t_end - time.time())
    ms = 2000 if v.tier == "quick" else 10000
    try:
        p.explore(name)
        active, rounds = imp.houdini(p, ms, t_end)
    except Outside as e:
        v.add("contract is within reach", "other", "", 0, str(e))
        return
    v.functions |= {f"{IMPL}:{f}" for f in p.used}
    v.paths = p.npaths
    inv = {}
    for q in p.queries.values():
        if q.kind == "inv" and q.tag in active:
            inv[q.where] = inv.get(q.where, 0) + 1
    for w, k in inv.items():
        v.add(f"loop invariant: {w} ({k} paths)", "proved", "z3 (quantified)", 0, "")
    # canary: the assumptions at the end of the function are consistent, at least along one path
    ends = [q for q in p.queries.values() if q.where == "no volume is negative"]
    v.holds("the postconditions are reachable (canary)", ends and not all(imp.prove([(a, f) for a, f in q.hyps if a is None or a in active], z3.BoolVal(False), ms)[0] for q in ends), "contradictory assumptions")
    seen = {}
    for q in p.queries.values():
        if q.kind != "obligation":
            continue
        t = time.time()
        ok, r = imp.prove([(a, f) for a, f in q.hyps if a is None or a in active], q.goal, 3 * ms)
        k = seen[q.where] = seen.get(q.where, -1) + 1
        v.add(f"{q.where} [{k}]", "proved" if ok else "other", "z3 (quantified)" if ok else "", time.time() - t, "" if ok else f"not derivable from the inductive invariants ({r})")
    for (key, where), names in p.variants.items():
        good = []
        for n in sorted(names, key=str):
            qs = [q for q in p.queries.values() if q.kind == "variant" and q.tag == (key, n)]
            if len(qs) == len(p.backs[key]) and all(imp.prove([(a, f) for a, f in q.hyps if a is None or a in active], q.goal, ms)[0] for q in qs):
                good.append(n)
                break
        v.add(f"the loop terminates ({where})", "proved" if good else "other", "z3 (quantified)", 0, "" if good else "no decreasing counter")
    import prove
    prove.STATS["z3_calls"] += imp.STATS["calls"]
    prove.STATS["z3_time"] += imp.STATS["time"]
