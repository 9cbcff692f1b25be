"""Loops with a symbolic number of iterations.

The loop is executed once from a generic state (every location the body modifies holds an
uninterpreted value H(k, index) at the start of iteration k).  From the resulting update closed
forms G(k, index) are inferred (accumulation, element/row/segment write, last write, running
maximum); they are then checked to be an inductive invariant: executing the body once more from
the state G(k) must give G(k+1), G(0) is the state before the loop.  A location for which no
closed form is inductive keeps the arbitrary value H (havoc).  Exits by break, return or raise
fork the execution with the state of the iteration in which they happen.
"""
from __future__ import annotations
import ast
import os
from terms import *
import terms
from prove import prove_zero, deep_simp, Budget, Ctx
from interp import (Num, SArr, Store, SObj, SList, SDict, SymSeq, FixedDict, Frame, Poison, Unsupported, PyRaise, BreakS, ContinueS, ReturnS, Heap, IX, IDX, num, lift, isnum)
import npmodel
from npmodel import fvar, owner, L0


class Loc:
    """a modified location"""

    def __init__(self, kind, obj, name=None):
        self.kind, self.obj, self.name = kind, obj, name
        self.key = (kind, id(obj), name)
        self.mode = None  # 'arr', 'num', 'dead', 'list'
        self.H = None
        self.shape = ()
        self.code = "f"
        self.init = None

    def __repr__(self):
        n = self.name or getattr(self.obj, "origin", "?")
        return f"{self.kind}:{n}"


def state_get(st, kind, name):
    if kind == "store":
        return st[0]
    return st.get(name, MISSING)


MISSING = object()


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Num) and isinstance(b, Num):
        return a.p is b.p and a.k == b.k
    if isinstance(a, (int, float, str, bool, type(None))) and isinstance(b, (int, float, str, bool, type(None))):
        return type(a) is type(b) and (a == b)
    if isinstance(a, SArr) and isinstance(b, SArr):
        return a.store is b.store and a.dims == b.dims and a.shape == b.shape and a.fixed == b.fixed
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def simp_body(m, body, shape, extra=()):
    c = m.ctx.extend(*extra, *[gt0(s - IX[d]) for d, s in enumerate(shape)])
    try:
        return deep_simp(body, c) if body.hasind else body
    except TooBig:
        return body


def reads(p, names):
    """atoms reading one of the H arrays"""
    return [a for a in all_atoms(p) if a.kind in ("rd", "bv") and a.args[0] in names]


def replace_reads(p, table):
    """table: name -> function(list of index polys) -> poly"""
    if not table:
        return p

    def fn(a):
        if a.kind in ("rd", "bv") and a.args[0] in table:
            ix = [replace_reads(i, table) for i in a.args[1]]
            return table[a.args[0]](ix)
        return None

    return map_atoms(p, fn)


class Loop:
    def __init__(self, m, st, seq, fr):
        self.m, self.st, self.seq, self.fr = m, st, seq, fr
        self.n = seq.n
        self.k = fvar("$k")
        self.pk = P(self.k)
        self.base = list(Heap.objs)
        self.baseset = set(map(id, self.base))
        self.snap0 = m.snapshot()
        self.locs = {}
        self.where = m.where()
        m.serials[-1] += 1
        self.serials = list(m.serials)

    # -- executing the body
    def run(self, setter, infer):
        m = self.m
        ds = m.draw_seq
        old_serials = m.serials
        if infer:
            m.infer += 1
        m.loop_vars.append((self.k, self.n))

        def thunk():
            m.draw_seq = 0
            m.serials = self.serials + [0]
            m.ctx.add(gt0(self.n - self.pk))
            for f in self.inv_facts:
                m.ctx.add(f)
            setter()
            if m.loop_hook is not None:
                # facts about the state at the beginning of an iteration; the task that sets the hook
                # proves them to be invariant
                self.hook_facts = list(m.loop_hook(self) or ())
                for f in self.hook_facts:
                    m.ctx.add(f)
            m.assign(self.st.target, self.seq.item(self.pk), self.fr)
            m.block(self.st.body, self.fr)

        try:
            return [r[:4] for r in m.explore(thunk)]
        finally:
            m.loop_vars.pop()
            m.serials = old_serials
            m.draw_seq = ds + 1
            if infer:
                m.infer -= 1

    inv_facts = ()
    hook_facts = ()
    arbitrary = False

    def modified(self, outs):
        new = []
        st0 = self.snap0[1]
        for pc, out, snap, ctx in outs:
            for o in self.base:
                a, b = st0.get(o), snap[1].get(o)
                if a is None or b is None:
                    continue
                if isinstance(o, Store):
                    if a[0] is not b[0]:
                        new.append(Loc("store", o))
                    if a[1:] != b[1:]:
                        raise Unsupported("shape of an array changes in a loop")
                elif isinstance(o, (Frame, SObj)):
                    for nm in b:
                        if nm not in a or not same(a[nm], b[nm]):
                            new.append(Loc("loc" if isinstance(o, Frame) else "attr", o, nm))
                elif isinstance(o, SList):
                    if len(a) != len(b) or not all(same(x, y) for x, y in zip(a, b)):
                        new.append(Loc("list", o))
                elif isinstance(o, SDict):
                    for nm in set(a) | set(b):
                        if nm not in a or nm not in b or not same(a[nm], b[nm]):
                            new.append(Loc("dict", o, nm))
        return new

    def val(self, snap, loc):
        """value of a location in a snapshot; for arrays a poly over IX"""
        s = snap[1].get(loc.obj)
        if loc.kind == "store":
            return s[0]
        v = s.get(loc.name, MISSING) if loc.kind != "list" else s
        if loc.mode == "arr":
            if not isinstance(v, SArr):
                return None
            return self.read_in(snap, v)
        return v

    def read_in(self, snap, v):
        s = snap[1].get(v.store)
        body = s[0] if s is not None else v.store.body
        ix = v.sidx(IX[:v.ndim])
        return subst(body, {IDX(d): x for d, x in ix.items()})

    def setup(self, loc, outs):
        """choose the representation of a newly found location"""
        m = self.m
        st0 = self.snap0[1]
        if loc.kind == "store":
            loc.mode = "arr"
            loc.shape, loc.code = loc.obj.shape, loc.obj.dtype
            loc.init = st0[loc.obj][0]
        elif loc.kind == "list":
            loc.mode = "list"
        else:
            v0 = st0[loc.obj].get(loc.name, MISSING)
            vals = []
            for pc, out, snap, ctx in outs:
                if out[0] == "ok":
                    vals.append((snap, snap[1][loc.obj].get(loc.name, MISSING)))
            kinds = set()
            if isnum(v0) and all(isnum(v) for _, v in vals):
                loc.mode = "num"
                ks = {lift(v0)[1]} | {lift(v)[1] for _, v in vals}
                loc.code = "f" if "f" in ks else "i" if "i" in ks else "b"
                loc.init = lift(v0)[0]
            elif isinstance(v0, SArr) and vals and all(isinstance(v, SArr) and v.shape == v0.shape for _, v in vals):
                loc.mode = "arr"
                loc.shape = v0.shape
                loc.code = v0.dtype
                loc.init = self.read_in(self.snap0, v0)
            else:
                loc.mode = "dead"
                loc.init = v0
        if loc.mode in ("arr", "num"):
            loc.H = fresh_name("H_" + str(loc.name or getattr(loc.obj, "origin", "x")))
            self.declare(loc, False)

    def declare(self, loc, nonneg):
        loc.H = fresh_name("H_" + str(loc.name or getattr(loc.obj, "origin", "x")))
        loc.nonneg = nonneg
        isint = npmodel.kind_of(loc.code) == "i"
        terms.arr(loc.H, (self.n + 1,) + tuple(loc.shape), isint=isint, isbool=loc.code == "b", **({"nonneg": True, "lo": 0} if nonneg else {}))

    def monotone(self, outs):
        r = set()
        for l in self.locs.values():
            if l.mode != "num" or l.nonneg is None or npmodel.kind_of(l.code) != "i":
                continue
            if self.m.ctx.decide(ge0(l.init)) is not True:
                continue
            good = True
            for pc, out, snap, ctx in outs:
                if out[0] != "ok":
                    continue
                v = self.val(snap, l)
                if not isnum(v):
                    good = False
                    break
                d = lift(v)[0] - rd(l.H, [self.pk])
                if not (known_nonneg(d) or ctx.decide(ge0(d)) is True):
                    good = False
                    break
            if good:
                r.add(l)
        return r

    def put(self, loc, fn):
        """set the location to the value fn(index polys)"""
        if loc.mode == "dead":
            if loc.init is MISSING:
                loc.obj.loc.pop(loc.name, None) if isinstance(loc.obj, Frame) else loc.obj.attrs.pop(loc.name, None)
            self._set(loc, Poison("assigned in a loop"))
            return
        if loc.mode == "list":
            return
        body = fn(list(IX[:len(loc.shape)]))
        if loc.kind == "store":
            loc.obj.body = body
        elif loc.mode == "arr":
            s = Store(loc.shape, body, loc.code)
            self._set(loc, SArr(s))
        else:
            self._set(loc, num(body, npmodel.kind_of(loc.code)))

    def _set(self, loc, v):
        if loc.kind == "loc":
            loc.obj.loc[loc.name] = v
        elif loc.kind == "attr":
            loc.obj.attrs[loc.name] = v
        elif loc.kind == "dict":
            loc.obj.d[loc.name] = v

    # -- main
    def go(self):
        m, n, k, pk = self.m, self.n, self.k, self.pk
        c = m.ctx.decide(gt0(n))
        if c is False:
            return
        self.inv_facts = []
        # fixpoint of the modified locations
        for rnd in range(6):
            outs = self.run(self.generic, True)
            new = [l for l in self.modified(outs) if l.key not in self.locs]
            if not new:
                break
            for l in new:
                if l.key not in self.locs:
                    self.setup(l, outs)
                    self.locs[l.key] = l
        else:
            raise Unsupported("modified locations of the loop do not stabilise")
        # counters that start non-negative and never decrease stay non-negative; re-checked with the hypothesis
        cand = self.monotone(outs)
        while cand:
            for l in cand:
                self.declare(l, True)
            outs = self.run(self.generic, True)
            if [l for l in self.modified(outs) if l.key not in self.locs]:
                raise Unsupported("modified locations of the loop do not stabilise")
            still = self.monotone(outs)
            if still >= cand:
                break
            for l in cand - still:
                self.declare(l, False)
                l.nonneg = None
            cand = cand & still
            if not cand:
                outs = self.run(self.generic, True)
        ok = [o for o in outs if o[1][0] == "ok"]
        locs = list(self.locs.values())
        self.F = {}
        for l in locs:
            self.F[l] = self.merge(ok, l) if ok else None
        havoc = set()
        if self.arbitrary:
            # requested by the contract: the state at the beginning of an iteration is arbitrary
            havoc = set(locs)
            self.alias = self.congruent(locs)
            G = self.resolve(locs, havoc)
            outs2 = self.run(self.generic, False)
            self.finish(locs, G, havoc, outs2)
            return
        for attempt in range(8):
            G = self.resolve(locs, havoc)
            outs2, bad = self.check(locs, G, havoc)
            if not bad:
                break
            if self.used_optimistic:
                self.optimistic = self.used_optimistic = False
                continue
            havoc |= bad
        else:
            raise Unsupported("no inductive closed form for the loop")
        self.finish(locs, G, havoc, outs2)

    alias = {}

    def generic(self):
        for l in self.locs.values():
            h = self.alias.get(l, l)
            self.put(l, lambda ix, h=h: rd(h.H, [self.pk] + ix))

    def congruent(self, locs):
        """locations that start equal and are changed in the same way if they are equal before: they stay equal
        -> location: representative"""
        cls = {}
        for l in locs:
            if l.H and self.F[l] is not None and l.init is not None:
                cls.setdefault((l.init, tuple(l.shape), npmodel.kind_of(l.code)), []).append(l)
        groups = [g for g in cls.values() if len(g) > 1]
        while groups:
            rep = {l: g[0] for g in groups for l in g}
            tab = {l.H: (lambda h: lambda ix: rd(h, ix))(r.H) for l, r in rep.items() if l is not r}
            # replacing a representative's reads by itself leaves them alone
            F = {l: replace_reads(self.F[l], tab) for l in rep}
            new = []
            for g in groups:
                by = {}
                for l in g:
                    by.setdefault(F[l], []).append(l)
                new += [b for b in by.values() if len(b) > 1]
            if sum(map(len, new)) == sum(map(len, groups)) and len(new) == len(groups):
                return {l: r for l, r in rep.items() if l is not r}
            groups = new
        return {}

    def merge(self, outs, l):
        if l.mode in ("dead", "list"):
            return None
        vals = []
        for pc, out, snap, ctx in outs:
            v = self.val(snap, l)
            if l.mode == "num":
                if not isnum(v):
                    return None
                v = lift(v)[0]
            if v is None:
                return None
            vals.append((pc, v))
        if all(v is vals[0][1] for pc, v in vals):
            return vals[0][1]
        if len(outs) and len([o for o in outs]) >= 1:
            r = vals[-1][1]
            # path conditions are disjoint and cover everything that does not leave the loop
            for pc, v in reversed(vals[:-1]):
                r = ite(pc, v, r)
            return r

    def resolve(self, locs, havoc):
        """closed forms G[l](k poly, index list) -> poly"""
        m, k, pk, n = self.m, self.k, self.pk, self.n
        names = {l.H: l for l in locs if l.H}
        G = {}
        self.rule = {}
        for l in locs:
            if l in havoc and l.H:
                G[l] = (lambda l: lambda kk, ix: rd(l.H, [kk] + list(ix)))(self.alias.get(l, l))
                self.rule[l] = "havoc"
        pending = [l for l in locs if l.H and l not in havoc]
        needed = lambda F: {names[a.args[0]] for a in reads(F, names)} if F is not None else set()
        while pending:
            prog = False
            for l in list(pending):
                F = self.F[l]
                if F is None:
                    G[l] = (lambda l: lambda kk, ix: rd(l.H, [kk] + list(ix)))(l)
                    self.rule[l] = "havoc"
                    havoc.add(l)
                    pending.remove(l)
                    prog = True
                    continue
                deps = needed(F) - {l}
                if all(d in G for d in deps):
                    g = self.closed(l, F, {d: G[d] for d in deps})
                    if g is None:
                        g = (lambda l: lambda kk, ix: rd(l.H, [kk] + list(ix)))(l)
                        self.rule[l] = "havoc"
                        havoc.add(l)
                    G[l] = g
                    pending.remove(l)
                    prog = True
            if not prog:
                # mutual dependencies: if every element is still untouched when it is read, the updates add up;
                # the guess is checked for inductiveness like every other closed form
                l = None
                if self.optimistic:
                    self.used_optimistic = True
                    tab = {q.H: (lambda q: lambda ix: self.init_at(q, ix[1:]))(q) for q in pending}
                    for q in pending:
                        G[q] = self.closed(q, self.F[q], {d: G[d] for d in needed(self.F[q]) if d in G}, tab)
                    pending = []
                    break
                if l is None:
                    cnt = {l: sum(1 for q in pending if q is not l and l in needed(self.F[q])) for l in pending}
                    l = max(pending, key=lambda q: cnt[q])
                    G[l] = (lambda l: lambda kk, ix: rd(l.H, [kk] + list(ix)))(l)
                    self.rule[l] = "havoc"
                    havoc.add(l)
                    pending.remove(l)
        return G

    optimistic = True
    used_optimistic = False

    def init_at(self, l, ix):
        return subst(l.init, {IDX(d): P(x) for d, x in enumerate(ix)})

    def as_max(self, F, own, hs):
        """h + (e - h)[e > h], the branch form of a running maximum -> max(h, e)"""
        for a in all_atoms(F):
            if a.kind != "gt" or not reads(P(a), hs):
                continue
            q = a.args[0]
            for sg, d in ((1, q), (-1, -q)):
                e = d + own
                if reads(e, hs):
                    continue
                if sg == 1 and F is own + d * P(a):
                    return maxv(own, e)
                if sg == -1 and F is e + (own - e) * P(a):
                    return maxv(own, e)
        return F

    def closed(self, l, F, deps, guess=None):
        m, k, pk, n = self.m, self.k, self.pk, self.n
        nd = len(l.shape)
        ix0 = list(IX[:nd])
        own = rd(l.H, [pk] + ix0)
        init = l.init

        def init_at(ix):
            return subst(init, {IDX(d): P(x) for d, x in enumerate(ix)})

        tab = {d.H: (lambda g: lambda ix: g(ix[0], ix[1:]))(g) for d, g in deps.items()}
        if guess:
            # reads of the cycle other than the element itself
            F = replace_reads(F, {h: g for h, g in guess.items() if h != l.H})
        F1 = replace_reads(F, tab)
        F1 = simp_body(m, F1, l.shape, [gt0(n - pk)])
        ownreads = reads(F1, {l.H})
        j = fvar("$j")
        pj = P(j)
        if not ownreads:
            # last write
            self.rule[l] = "last"

            def g(kk, ix):
                kk = P(kk)
                v = subst(F1, {**{IDX(d): P(x) for d, x in enumerate(ix)}, k: kk - 1})
                return ite(eq0(kk), init_at(ix), v)
            return g
        # running maximum
        F1 = self.as_max(F1, own, {l.H})
        s = F1.single()
        if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][0].kind == "max" and s[1][0][1] == 1:
            args = s[1][0][0].args[0]
            if own in args:
                rest = [x for x in args if x is not own]
                if not any(reads(x, {l.H}) for x in rest):
                    e = maxv(*rest)
                    self.rule[l] = "max"

                    def g(kk, ix):
                        kk = P(kk)
                        mx = maxb_over(j, kk, subst(e, {**{IDX(d): P(x) for d, x in enumerate(ix)}, k: pj}))
                        v = maxv(init_at(ix), mx)
                        if kk is pk + 1 or m.ctx.decide(gt0(kk)) is True:
                            return v
                        return ite(gt0(kk), v, init_at(ix))
                    return g
        # running product
        if not guess and all(sum(e for a, e in mono if P(a) is own) == 1 for mono in F1.m):
            e = Poly.of({tuple(t for t in mono if P(t[0]) is not own): c for mono, c in F1.m.items()})
            if not reads(e, {l.H}):
                self.rule[l] = "product"

                def g(kk, ix):
                    mp = {IDX(d): P(y) for d, y in enumerate(ix)}
                    return subst(init, mp) * npmodel.prod(subst(subst(e, mp), {k: npmodel.LP}), kk)
                return g
        D = F1 - own
        # own reads: only the element itself
        atoms = {a for a in reads(D, {l.H})}
        if any(P(a) is not own for a in atoms):
            others = [a for a in atoms if P(a) is not own]
            table = {l.H: lambda ix: init_at(ix[1:])}
        else:
            table = {l.H: lambda ix: init_at(ix[1:])}
        D1 = replace_reads(D, table)
        seg = self.segment(D1, nd)
        if seg is not None and any(P(a) is not own for a in atoms):
            return None
        if seg is not None:
            W, x, offk, rep, rep_l = seg
            self.rule[l] = "segment"
            own_x = owner(n, rep_l, x)

            def g(kk, ix):
                mp = {IDX(d): P(y) for d, y in enumerate(ix)}
                v = subst(W, {k: subst(own_x, {})})
                bound = subst(offk, {k: P(kk)})
                r = init + ge0(x) * gt0(bound - x) * v
                return subst(r, mp)
            return g
        self.rule[l] = "sum"

        def g(kk, ix):
            body = subst(D1, {k: pj})
            r = init + sum_over(j, P(kk), body)
            return subst(r, {IDX(d): P(x) for d, x in enumerate(ix)})
        return g

    def segment(self, D, nd):
        """D(k, x) vanishes outside off(k) <= x < off(k) + rep(k), off(k) = sum of rep below k"""
        k, pk = self.k, self.pk
        offs = []
        for a in all_atoms(D):
            if a.kind == "gt":
                for b in a.args[0].atoms():
                    if b.kind == "sum" and k in b.fv and len(b.args[0]) == 1 and b.args[0][0][1] is pk:
                        if b not in offs:
                            offs.append(b)
        for b in offs:
            (bv, hi), = b.args[0]
            rep_k = subst(b.args[1], {bv: pk})
            off = P(b)
            for d in range(nd):
                x = IX[d]
                lo, up = ge0(x - off), gt0(off + rep_k - x)
                # inside / outside
                inside = self.decide_in(D, [lo, up])
                out1 = self.decide_in(D, [ONE - lo])
                out2 = self.decide_in(D, [ONE - up])
                if out1 is ZERO and out2 is ZERO and inside is not None:
                    if not known_nonneg(rep_k):
                        continue
                    return inside, x, off, rep_k, subst(b.args[1], {bv: L0})
        return None

    def decide_in(self, D, facts):
        c = self.m.ctx.extend(*facts)
        c.add(gt0(self.n - self.pk))
        if not c.sat():
            return ZERO
        return deep_simp(D, c)

    def check(self, locs, G, havoc):
        """run the body from the state G(k): must give G(k+1)"""
        m, k, pk, n = self.m, self.k, self.pk, self.n

        def setter():
            for l in locs:
                if l.H:
                    self.put(l, lambda ix, l=l: self.simp_state(l, G[l](pk, ix)))
                else:
                    self.put(l, None)

        safety = len(m.safety)
        outs = self.run(setter, False)
        bad = set()
        extra = [l for l in self.modified(outs) if l.key not in self.locs]
        if extra:
            raise Unsupported(f"loop modifies further locations {extra}")
        ok = [o for o in outs if o[1][0] == "ok"]
        for l in locs:
            if not l.H or self.rule.get(l) == "havoc":
                continue
            want = G[l](pk + 1, list(IX[:len(l.shape)]))
            good = bool(ok)
            for pc, out, snap, ctx in ok:
                v = self.val(snap, l)
                if l.mode == "num":
                    v = lift(v)[0] if isnum(v) else None
                if v is None:
                    good = False
                    break
                if self.rule[l] in ("max", "segment"):
                    # rule of the calculus: the update was matched exactly in the generic run
                    continue
                c = ctx.extend(*[gt0(s - IX[d]) for d, s in enumerate(l.shape)])
                d = v - want
                if d.m and not prove_zero(d, c, Budget(10, 60)):
                    good = False
                    break
            init = G[l](ZERO, list(IX[:len(l.shape)])) if self.rule[l] != "max" else l.init
            c = m.ctx.extend(*[gt0(s - IX[d]) for d, s in enumerate(l.shape)])
            if good and (init - l.init).m and not prove_zero(init - l.init, c, Budget(5, 40)):
                good = False
            if not good:
                if os.environ.get("LOOPDEBUG"):
                    print("INIT?", show(init - l.init), "FACTS", [[show(f, 200) for f in o[3].facts] for o in ok])
                    print("BAD", self.where, l, self.rule[l], "| want", show(want, 600), "| got", [show(self.val(o[2], l).p if isinstance(self.val(o[2], l), Num) else self.val(o[2], l), 600) if self.val(o[2], l) is not None else None for o in ok])
                bad.add(l)
        if bad:
            del m.safety[safety:]
        elif not m.infer:
            for l in locs:
                if l.H and self.rule.get(l) != "havoc":
                    m.loop_obls.append((self.where, repr(l), self.rule.get(l)))
        return outs, bad

    def simp_state(self, l, p):
        return simp_body(self.m, p, l.shape, [gt0(self.n - self.pk)])

    def finish(self, locs, G, havoc, outs):
        m, k, pk, n = self.m, self.k, self.pk, self.n
        ok = [o for o in outs if o[1][0] == "ok"]
        exits = [o for o in outs if o[1][0] != "ok"]
        # exits in some iteration k; no exit happened in the iterations before
        leave = ZERO
        for pc, out, snap, ctx in exits:
            leave = leave + pc
        j = fvar("$j")

        def stayed(hi):
            try:
                return eq0(sum_over(j, hi, subst(leave, {k: P(j)})))
            except TooBig:
                return ONE
        for pc, out, snap, ctx in exits:
            b = bvar(fresh_name("exit"))
            if m.branch(b):
                m.ctx.add(gt0(n - pk))
                m.restore(snap)
                m.ctx.add(pc)
                m.ctx.add(stayed(pk))
                for f in ctx.facts:
                    if f not in m.ctx.facts:
                        m.ctx.add(f)
                m.exit_marks.append((self.where, out[0], pk))
                if out[0] == "break":
                    raise LoopBroken()
                if out[0] == "return":
                    raise ReturnS(out[1])
                raise out[1]
        if not ok:
            # every iteration leaves the loop: the normal exit needs n == 0
            if m.branch(gt0(n)):
                from interp import Infeasible
                raise Infeasible()
            return
        if exits:
            m.ctx.add(stayed(n))
        needs = any(self.rule.get(l) == "havoc" for l in locs)
        pos = m.ctx.decide(gt0(n))
        if pos is None and needs:
            pos = m.branch(gt0(n))
            if not pos:
                return
        for f in self.hook_facts:
            # the last iteration, if there is one
            f = subst(f, {k: n - 1})
            m.ctx.add(f if pos is True else ONE - gt0(n) * (ONE - f))
        final = []
        for l in locs:
            nd = len(l.shape)
            if l.mode == "dead":
                final.append((l, self.dead_value(l, ok, pos)))
            elif l.mode == "list":
                final.append((l, self.list_value(l, ok, G)))
            elif self.rule[l] == "havoc":
                v = self.merge(ok, l)
                if v is None:
                    final.append((l, Poison("loop")))
                    continue
                final.append((l, simp_body(m, subst(v, {k: n - 1}), l.shape)))
            else:
                final.append((l, simp_body(m, G[l](n, list(IX[:nd])), l.shape)))
        for l, v in final:
            if isinstance(v, Poly):
                self.put(l, lambda ix, v=v: v)
            elif l.mode == "list":
                l.obj.items, l.obj.tail = v
            elif v is MISSING:
                pass
            elif l.mode == "dead":
                self._set(l, v)
            else:
                self._set(l, v)

    def dead_value(self, l, ok, pos):
        """a name bound afresh in every iteration: value of the last iteration"""
        m, k, n = self.m, self.k, self.n
        if pos is not True:
            return Poison("bound in a loop that may not run")
        return self.last([(pc, snap, snap[1][l.obj].get(l.name, MISSING)) for pc, out, snap, ctx in ok])

    def last(self, vs):
        """vs: (path condition, snapshot, value) of one iteration -> value of the last iteration"""
        m, k, n = self.m, self.k, self.n
        sub = lambda p: subst(p, {k: n - 1})
        v0 = vs[0][2]
        if all(isnum(v) for _, _, v in vs):
            ps = [lift(v) for _, _, v in vs]
            kk = "f" if any(q == "f" for _, q in ps) else ps[0][1]
            r = ps[-1][0]
            for (pc, _, _), (p, q) in reversed(list(zip(vs, ps))[:-1]):
                r = ite(pc, p, r)
            return num(sub(r), kk)
        if all(isinstance(v, SArr) for _, _, v in vs) and all(v.ndim == v0.ndim for _, _, v in vs):
            if any(id(v.store) in self.baseset for _, _, v in vs):
                if not all(v is v0 or same(v, v0) for _, _, v in vs):
                    return Poison("assigned in a loop")
                return SArr(v0.store, [d and (d[0], sub(d[1]), d[2]) for d in v0.dims], [sub(s) for s in v0.shape], {d: sub(x) for d, x in v0.fixed.items()})
            bodies = [self.read_in(snap, v) for _, snap, v in vs]
            r = bodies[-1]
            for (pc, _, _), b in reversed(list(zip(vs, bodies))[:-1]):
                r = ite(pc, b, r)
            return SArr(Store([sub(s) for s in v0.shape], sub(r), v0.dtype))
        if all(type(v) is tuple and len(v) == len(v0) for _, _, v in vs):
            return tuple(self.last([(pc, snap, v[i]) for pc, snap, v in vs]) for i in range(len(v0)))
        if all(same(v, v0) for _, _, v in vs):
            if v0 is MISSING or v0 is None or isinstance(v0, (str, bool, int)) or id(v0) in self.baseset:
                return v0
            if isinstance(v0, (SObj, SList, SDict, tuple)):
                return Poison("object made in a loop")
            return v0
        return Poison("assigned in a loop")

    def list_value(self, l, ok, G):
        m, k, n = self.m, self.k, self.n
        items0 = self.snap0[1][l.obj]
        if len(ok) != 1:
            raise Unsupported("conditional append in a loop")
        pc, out, snap, ctx = ok[0]
        items = snap[1][l.obj]
        if len(items) != len(items0) + 1 or not all(same(a, b) for a, b in zip(items0, items)) or items0:
            raise Unsupported("list modified in a loop")
        at = self.item_value(items[-1], snap)
        return ([], SymSeq(n, lambda i: at(P(i))))

    def item_value(self, v, snap):
        """an item made in one pass -> function of the number of the pass"""
        k = self.k
        if isnum(v):
            p, kk = lift(v)
            return lambda i: num(subst(p, {k: i}), kk)
        if v is None or isinstance(v, str):
            return lambda i: v
        if isinstance(v, tuple):
            f = [self.item_value(x, snap) for x in v]
            return lambda i: tuple(x(i) for x in f)
        if isinstance(v, SArr):
            if v.store in self.snap0[1]:
                # a view of an array that existed before the loop
                at = lambda p, i: subst(P(p), {k: i})
                return lambda i: SArr(v.store, [d and (d[0], at(d[1], i), d[2]) for d in v.dims], [at(x, i) for x in v.shape], {d: at(x, i) for d, x in v.fixed.items()}, v.view_layout)
            body = self.read_in(snap, v)
            sh, code = v.shape, v.dtype
            return lambda i: SArr(Store([subst(x, {k: i}) for x in sh], subst(body, {k: i}), code))
        if isinstance(v, SObj) and getattr(v.cls, "indexed", False) and set(v.attrs) == {"k"}:
            # objects without state of their own, told apart by a number
            p = lift(v.attrs["k"])[0]
            return lambda i: SObj(v.cls, {"k": num(subst(p, {k: i}), "i")})
        if isinstance(v, SDict) and v not in self.snap0[1]:
            f = {a: self.item_value(x, snap) for a, x in snap[1].get(v, v.d).items()}
            return lambda i: FixedDict({a: x(i) for a, x in f.items()})
        raise Unsupported("list of objects built in a loop")


class LoopBroken(Exception):
    pass


def run_for(m, st, seq, fr):
    """True if the else branch of the loop is to be executed"""
    try:
        Loop(m, st, seq, fr).go()
    except LoopBroken:
        return False
    return True


def _pure(e):
    return all(isinstance(n, (ast.Name, ast.Constant, ast.Attribute, ast.UnaryOp, ast.BoolOp, ast.Compare, ast.expr_context, ast.unaryop, ast.boolop, ast.cmpop)) for n in ast.walk(e))


def split_while(m, st, fr):
    """while A and B: S  ->  while A: (if not B: break); S   where A compares a counter;
    if B holds at the beginning: while A: S; (if not B: break)"""
    t = st.test
    if st.orelse or not isinstance(t, ast.BoolOp) or not isinstance(t.op, ast.And) or not _pure(t):
        return st
    for i, a in enumerate(t.values):
        w = ast.copy_location(ast.While(test=a, body=st.body, orelse=[]), st)
        if counter_of(w) is not None:
            rest = t.values[:i] + t.values[i + 1:]
            b = rest[0] if len(rest) == 1 else ast.BoolOp(op=ast.And(), values=rest)
            leave = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=b), body=[ast.Break()], orelse=[])
            ast.copy_location(b, st)
            ast.copy_location(leave, st)
            ast.fix_missing_locations(b)
            v = m.ev(b, fr)
            if v is True and not any(isinstance(n, ast.Continue) for s in st.body for n in ast.walk(s)):
                w.body = st.body + [leave]
            else:
                w.body = [leave] + st.body
            ast.fix_missing_locations(w)
            return w
    return st


def run_while(m, st, fr):
    st = split_while(m, st, fr)
    # concrete execution as long as the condition is decided
    for _ in range(64):
        t = m.truth(m.ev(st.test, fr)) if not _symbolic_test(m, st, fr) else None
        if t is None:
            if _ == 0:
                return counted_while(m, st, fr)
            raise Unsupported("while loop with symbolic condition")
        if not t:
            m.block(st.orelse, fr)
            return
        if _ == 0 and counter_of(st) is not None and _symbolic_bound(m, st, fr):
            return counted_while(m, st, fr)
        try:
            m.block(st.body, fr)
        except BreakS:
            return
        except ContinueS:
            continue
    raise Unsupported("while loop")


def counter_of(st):
    """`while i < e` whose body steps i once by +-1 in every iteration -> (i, comparison, e, step)"""
    t = st.test
    if not isinstance(t, ast.Compare) or len(t.ops) != 1:
        return None
    l, op, r = t.left, type(t.ops[0]).__name__, t.comparators[0]
    flip = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE", "NotEq": "NotEq"}
    if op not in flip:
        return None
    stored = {n.id for s in st.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    for a, b, o in ((l, r, op), (r, l, flip[op])):
        if not isinstance(a, ast.Name) or a.id not in stored:
            continue
        if any(isinstance(n, ast.Name) and n.id in stored for n in ast.walk(b)):
            continue
        step = None
        for s in st.body:
            inc = _increment(s, a.id)
            if inc is not None and step is None:
                step = inc
            elif any(isinstance(n, ast.Name) and n.id == a.id and isinstance(n.ctx, ast.Store) for n in ast.walk(s)):
                return None
            elif step is None and any(isinstance(n, ast.Continue) for n in ast.walk(s)):
                return None  # (conservative: also a continue of an inner loop)
        if step is not None:
            return a.id, o, b, step
    return None


def _increment(s, name):
    def const(e):
        if isinstance(e, ast.Constant) and type(e.value) is int and abs(e.value) == 1:
            return e.value

    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
        c = const(s.value)
        if c is not None:
            return c if isinstance(s.op, ast.Add) else -c if isinstance(s.op, ast.Sub) else None
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name:
        v = s.value
        if isinstance(v, ast.BinOp):
            if isinstance(v.left, ast.Name) and v.left.id == name:
                c = const(v.right)
                if c is not None:
                    return c if isinstance(v.op, ast.Add) else -c if isinstance(v.op, ast.Sub) else None
            if isinstance(v.right, ast.Name) and v.right.id == name and isinstance(v.op, ast.Add):
                return const(v.left)


def _symbolic_bound(m, st, fr):
    i, op, e, step = counter_of(st)
    b, a = m.ev(e, fr), m.name(i, fr)
    if not isnum(b) or not isnum(a):
        return False
    d = (lift(b)[0] - lift(a)[0]).const()
    return d is None or abs(d) > 64


class Guard(ast.stmt):
    """at the beginning of every iteration the condition holds"""

    _fields = ("test",)


def counted_while(m, st, fr):
    """a while loop over a counter is the for loop with the corresponding number of iterations: the condition is
    checked to hold in every iteration and to fail afterwards"""
    c = counter_of(st)
    if c is None:
        raise Unsupported("while loop with symbolic condition")
    i, op, e, step = c
    b, a = m.ev(e, fr), m.name(i, fr)
    if not isnum(b) or not isnum(a) or lift(a)[1] != "i" or lift(b)[1] != "i":
        raise Unsupported("while loop with symbolic condition")
    a, b = lift(a)[0], lift(b)[0]
    d = {("Lt", 1): b - a, ("LtE", 1): b - a + 1, ("NotEq", 1): b - a, ("Gt", -1): a - b, ("GtE", -1): a - b + 1,
         ("NotEq", -1): a - b}.get((op, step))
    if d is None:
        raise Unsupported("while loop with symbolic condition")
    if m.ctx.decide(ge0(d)) is not True:
        if op == "NotEq":
            raise Unsupported("while loop with symbolic condition")
        if not m.branch(ge0(d)):
            m.block(st.orelse, fr)
            return
    g = Guard()
    g.test, g.lineno, g.col_offset = st.test, st.lineno, 0
    # the counter is stepped exactly once per iteration (counter_of), so in iteration k it starts from a + step * k
    w, a0 = f"$while{st.lineno}", f"$from{st.lineno}"
    fr.loc[a0] = num(a, "i")
    val = ast.BinOp(left=ast.Name(id=a0, ctx=ast.Load()), op=ast.Add() if step == 1 else ast.Sub(), right=ast.Name(id=w, ctx=ast.Load()))
    at = ast.Assign(targets=[ast.Name(id=i, ctx=ast.Store())], value=val)
    loop = ast.For(target=ast.Name(id=w, ctx=ast.Store()), iter=st.test, body=[at, g] + st.body, orelse=st.orelse)
    ast.copy_location(loop, st)
    ast.copy_location(at, st)
    ast.fix_missing_locations(at)
    ended = run_for(m, loop, SymSeq(d, lambda k: num(k, "i")), fr)
    if ended:
        if _symbolic_test(m, st, fr) or m.truth(m.ev(st.test, fr)):
            raise Unsupported("end of the while loop")
        m.block(st.orelse, fr)


def _symbolic_test(m, st, fr):
    v = m.ev(st.test, fr)
    return isinstance(v, Num) and m.ctx.decide(v.p if v.k == "b" else ONE - eq0(v.p)) is None
