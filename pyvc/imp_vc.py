"""A verification condition generator for imperative array code (loops over state).

Complements the closed-form calculus of loops.py for functions whose loops have no closed form (random
control flow, while loops).  The function is parsed from the sources and executed symbolically from cut
point to cut point: at a loop the candidate invariants are to be established, the modified state is
replaced by an arbitrary one satisfying them, one iteration is executed and must re-establish them.
Candidates are templates over the variables in scope; those that are not inductive are dropped (Houdini),
so that the invariants do not depend on how the function names its variables.  Arrays are functions from
indices to values; writes are pointwise updates; sums are ghost variables updated by every write.
All obligations go to z3 (integers, reals, uninterpreted functions, quantifiers).
"""
from __future__ import annotations
import ast, os, time
import z3
import cross

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
SORT = {"i": I, "f": R, "b": B}
_n = [0]


class Outside(Exception):
    """construct outside the subset"""


class PathEnd(Exception):
    pass


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Restart(Exception):
    pass


def fresh(name, sort):
    _n[0] += 1
    return z3.Const(f"{name}!{_n[0]}", sort)


def fresh_fn(name, nd, kind):
    _n[0] += 1
    f = z3.Function(f"{name}!{_n[0]}", *([I] * nd + [SORT[kind]]))
    return lambda *ix: f(*ix)


def kind(v):
    s = v.sort()
    return "i" if s == I else "f" if s == R else "b"


def conv(v, k):
    q = kind(v)
    if q == k:
        return v
    if q == "b":
        v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        q = "i"
    if k == "f" and q == "i":
        return z3.ToReal(v)
    if k == "b":
        return v != 0
    if k == "i" and q == "f":
        raise Outside("conversion of a real number to an integer")
    return v


def lit(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        from fractions import Fraction
        f = Fraction(repr(x))
        return z3.Q(f.numerator, f.denominator)
    raise Outside(f"literal {x!r}")


def isz(v):
    return isinstance(v, z3.ExprRef)


class Arr:
    """view of a cell: index tuple -> index tuple of the cell"""

    def __init__(self, cell, shape, ix=None, col=None):
        self.cell, self.shape, self.ix = cell, list(shape), ix or (lambda *a: a)
        self.col = col  # (axis, index) if it is the whole row/column of a 2D cell

    @property
    def nd(self):
        return len(self.shape)


class Tmp:
    """array value that is not stored anywhere"""

    def __init__(self, f, shape, k):
        self.f, self.shape, self.k = f, list(shape), k

    @property
    def nd(self):
        return len(self.shape)


class Cell:
    def __init__(self, name, k, shape):
        self.name, self.k, self.shape = name, k, list(shape)


class Lst:
    """growing list of integers"""

    def __init__(self, cell):
        self.cell = cell


class Obj:
    def __init__(self, tag):
        self.tag = tag


class State:
    def __init__(self):
        self.loc = {}
        self.cell = {}  # Cell -> closure
        self.ghost = {}
        self.pc = []  # (tag or None, formula)

    def copy(self):
        s = State()
        s.loc, s.cell, s.ghost, s.pc = dict(self.loc), dict(self.cell), dict(self.ghost), list(self.pc)
        return s


class Query:
    __slots__ = ("tag", "kind", "hyps", "goal", "where")

    def __init__(self, tag, kind, hyps, goal, where):
        self.tag, self.kind, self.hyps, self.goal, self.where = tag, kind, hyps, goal, where


class Prog:
    """symbolic execution of one function under a specification object"""

    def __init__(self, module_ast, spec, seconds=100):
        self.fn = {f.name: f for f in module_ast.body if isinstance(f, ast.FunctionDef)}
        self.spec = spec
        self.mods = {}  # loop key -> set of ('loc', name) / cell / ('ghost', name)
        self.end = time.time() + seconds
        self.queries = {}
        self.used = set()
        self.order = []

    # ------------------------------------------------------------- exploration
    def explore(self, fname):
        while True:
            self.queries = {}
            self.loops = {}
            self.variants = {}
            self.backs = {}
            try:
                todo = [[]]
                n = 0
                while todo:
                    self.dec = todo.pop()
                    self.pos = 0
                    self.alts = []
                    n += 1
                    if n > 400 or time.time() > self.end:
                        raise Outside("too many paths")
                    _n[0] = 0
                    self.seq = 0
                    self.cellno = 0
                    self.stack = []
                    self.frames = []
                    self.prefix = ''
                    self.depth = 0
                    try:
                        self.st = State()
                        args = self.spec.setup(self)
                        try:
                            r = self.call(self.fn[fname], args, {})
                        except Ret as e:
                            r = e.v
                        self.spec.post(self, r)
                    except PathEnd:
                        pass
                    for d in self.alts:
                        todo.append(d)
                self.npaths = n
                return
            except Restart:
                continue

    def choose(self, n):
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            d = 0
            for i in range(1, n):
                self.alts.append(self.dec[:self.pos] + [i])
            self.dec = self.dec + [0]
        self.pos += 1
        return d

    def branch(self, c):
        """python truth of a condition; forks"""
        if not isz(c):
            return bool(c)
        c = z3.simplify(conv(c, "b"))
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        d = self.choose(2)
        self.assume(c if d == 0 else z3.Not(c))
        return d == 0

    def assume(self, f, tag=None):
        if isz(f):
            s = z3.simplify(f)
            if z3.is_false(s) and tag is None:
                raise PathEnd()
            if z3.is_true(s):
                return
        self.st.pc.append((tag, f))

    def ask(self, name, goal, tag=None, kind="obligation"):
        key = (name, kind, tuple(self.dec[:self.pos]), self.seq)
        self.seq += 1
        if key in self.queries:
            return
        if not isz(goal):
            goal = z3.BoolVal(bool(goal))
        self.queries[key] = Query(tag or name, kind, list(self.st.pc), goal, name)

    def where(self, node):
        return f"line {getattr(node, 'lineno', 0)}"

    # ------------------------------------------------------------- arrays
    def new_cell(self, name, k, shape, f):
        c = self.cells_by_no.setdefault(self.cellno, Cell(name, k, shape)) if hasattr(self, "cells_by_no") else None
        if c is None:
            self.cells_by_no = {self.cellno: Cell(name, k, shape)}
            c = self.cells_by_no[self.cellno]
        self.cellno += 1
        c.name, c.k, c.shape = name, k, list(shape)
        self.st.cell[c] = f
        if k == "i" and len(shape) == 1:
            self.st.ghost["inv", c] = fresh_fn("inv0_" + name, 1, "i")
        return Arr(c, shape)

    def get(self, a, *ix):
        if isinstance(a, Tmp):
            return a.f(*ix)
        return self.st.cell[a.cell](*a.ix(*ix))

    def akind(self, a):
        return a.k if isinstance(a, Tmp) else a.cell.k

    def touch(self, key):
        for lk in self.stack:
            m = self.mods.setdefault(lk, set())
            if key not in m:
                if key not in self.entry[lk]:
                    continue
                m.add(key)
                raise Restart()

    def write(self, cell, f):
        self.touch(cell)
        self.st.cell[cell] = f

    def set_ghost(self, k, v):
        self.touch(("ghost", k))
        self.st.ghost[k] = v

    def store(self, a, ix, v, node):
        """a[ix] = v, ix: list of ints (z3) or slice objects (None)"""
        if isinstance(a, Tmp):
            raise Outside("assignment to a temporary array")
        c = a.cell
        old = self.st.cell[c]
        if any(i is None for i in ix) or len(ix) < a.nd:
            ix = list(ix) + [None] * (a.nd - len(ix))
            fixed = [(d, i) for d, i in enumerate(ix) if i is not None]
            free = [d for d, i in enumerate(ix) if i is None]
            if c.nd_full(a) is False:
                raise Outside("assignment through a slice of a view")
            if isinstance(v, (Arr, Tmp)):
                if v.nd != len(free):
                    raise Outside("broadcasting in an assignment")
                for d, e in zip(free, v.shape):
                    self.ask(f"shapes agree ({self.where(node)})", a.shape[d] == e)
                src = v if isinstance(v, Tmp) else Tmp(lambda *q, v=v, cl=self.st.cell[v.cell]: cl(*v.ix(*q)), v.shape, v.cell.k)
                val = lambda *q: conv(src.f(*[q[d] for d in free]), c.k)
            else:
                x = conv(v, c.k)
                val = lambda *q: x
            cond = lambda q: z3.And(*[q[d] == i for d, i in fixed]) if fixed else z3.BoolVal(True)
            self.spec.on_bulk(self, c, fixed, free, v, val)
            self.write(c, lambda *q: z3.If(cond(q), val(*q), old(*q)))
            return
        bx = a.ix(*ix)
        v = conv(v, c.k)
        self.spec.on_write(self, c, bx, v)
        if c.k == "i" and len(c.shape) == 1:
            inv = self.st.ghost["inv", c]
            self.set_ghost(("inv", c), lambda j: z3.If(j == v, bx[0], inv(j)))
        self.write(c, lambda *q: z3.If(z3.And(*[x == y for x, y in zip(q, bx)]), v, old(*q)))

    # ------------------------------------------------------------- statements
    def call(self, fn, args, kw):
        if self.depth > 6:
            raise Outside("recursion")
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg or a.kwarg:
            raise Outside("star arguments")
        loc = dict(zip(names, args))
        for k, v in kw.items():
            loc[k] = v
        for x, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if x not in loc:
                loc[x] = self.ev(d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in loc and d is not None:
                loc[x.arg] = self.ev(d)
        if set(names) - set(loc):
            raise Outside(f"missing arguments of {fn.name}")
        saved = self.st.loc
        self.used.add(fn.name)
        pre = f"{fn.name}{self.depth}." if self.depth else ""
        self.depth += 1
        outer = getattr(self, "prefix", "")
        self.prefix = pre
        self.st.loc = dict(saved)
        for k, v in loc.items():
            self.st.loc[pre + k] = v
        try:
            self.block(fn.body)
            r = None
        except Ret as e:
            r = e.v
        self.depth -= 1
        self.prefix = outer
        cur = self.st.loc
        self.st.loc = {k: v for k, v in cur.items() if k in saved}
        return r

    def block(self, body):
        for s in body:
            self.stmt(s)

    def setvar(self, name, v):
        self.touch(("loc", self.prefix + name))
        self.st.loc[self.prefix + name] = v

    def stmt(self, s):
        if time.time() > self.end:
            raise Outside("time limit")
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return
            self.ev(s.value)
        elif t is ast.Pass:
            pass
        elif t is ast.Assign:
            v = self.ev(s.value)
            for tg in s.targets:
                self.assign(tg, v)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value))
        elif t is ast.AugAssign:
            import copy
            ld = copy.deepcopy(s.target)
            for x in ast.walk(ld):
                if hasattr(x, "ctx"):
                    x.ctx = ast.Load()
            v = self.binop(s.op, self.ev(ld), self.ev(s.value), s)
            self.assign(s.target, v)
        elif t is ast.If:
            if self.branch(self.truth(self.ev(s.test))):
                self.block(s.body)
            else:
                self.block(s.orelse)
        elif t is ast.Break:
            raise Break()
        elif t is ast.Continue:
            raise Continue()
        elif t is ast.Return:
            raise Ret(self.ev(s.value) if s.value is not None else None)
        elif t is ast.While:
            self.loop(s, None)
        elif t is ast.For:
            self.loop(s, self.sequence(self.ev(s.iter), s))
        elif t is ast.Assert:
            self.ask(f"assertion holds ({self.where(s)})", self.truth(self.ev(s.test)))
        else:
            raise Outside(f"{t.__name__} statement ({self.where(s)})")

    def assign(self, tg, v):
        if isinstance(tg, ast.Name):
            self.setvar(tg.id, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            if not isinstance(v, tuple) or len(v) != len(tg.elts):
                raise Outside("unpacking")
            for x, y in zip(tg.elts, v):
                self.assign(x, y)
        elif isinstance(tg, ast.Subscript):
            a = self.ev(tg.value)
            if isinstance(a, Lst):
                i = self.index(self.ev(tg.slice), self.st.loc[("len", a.cell)], tg)
                self.store(Arr(a.cell, a.cell.shape), [i], v, tg)
                return
            if not isinstance(a, (Arr, Tmp)):
                raise Outside("subscript assignment")
            mask = self.ev(tg.slice) if not isinstance(tg.slice, (ast.Slice, ast.Tuple)) else None
            if isinstance(mask, (Arr, Tmp)):
                return self.scatter(a, mask, v, tg)
            a2, ix = self.indices(a, tg.slice, tg)
            self.store(a2, ix, v, tg)
        else:
            raise Outside("assignment target")

    def scatter(self, a, mask, v, node):
        if not (isinstance(a, Arr) and a.nd == 1 and mask.nd == 1 and isz(v)):
            raise Outside("fancy assignment")
        c = a.cell
        v = conv(v, c.k)
        old = self.st.cell[c]
        new = fresh_fn("scatter", len(c.shape), c.k)
        if len(c.shape) != 1 or c.nd_full(a) is False:
            raise Outside("fancy assignment")
        j, p = z3.Ints("j p")
        if self.akind(mask) == "b":
            self.ask(f"mask has the right length ({self.where(node)})", mask.shape[0] == a.shape[0])
            snap = self.freeze(mask)
            f = lambda q: z3.If(snap(q), v, old(q))
        else:
            mk = self.freeze(mask)
            w = fresh("p", I)
            self.ask(f"index within the array ({self.where(node)})", z3.Implies(z3.And(0 <= w, w < mask.shape[0]), z3.And(0 <= mk(w), mk(w) < a.shape[0])))
            q = fresh_fn("hit", 1, "i")
            self.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < mask.shape[0]), new(mk(p)) == v)))
            self.assume(z3.ForAll([j], z3.Or(new(j) == old(j), z3.And(new(j) == v, 0 <= q(j), q(j) < mask.shape[0], mk(q(j)) == j)), patterns=[new(j)]))
            f = new
        self.spec.on_scatter(self, c, f)
        self.write(c, lambda q: f(q))

    def freeze(self, a):
        if isinstance(a, Tmp):
            return a.f
        cl = self.st.cell[a.cell]
        return lambda *q: cl(*a.ix(*q))

    # ------------------------------------------------------------- loops
    def sequence(self, v, node):
        """-> (length, item function)"""
        if isinstance(v, (Arr, Tmp)) and v.nd == 1:
            # numpy iterates over the live array
            return (v.shape[0], (lambda k: self.get(v, k)), v)
        if isinstance(v, tuple) and v and v[0] == "range":
            lo, hi, st = v[1:]
            if st == 1:
                n = z3.If(hi > lo, hi - lo, z3.IntVal(0))
                return (z3.simplify(n), lambda k: lo + k, None)
            if st == -1:
                n = z3.If(lo > hi, lo - hi, z3.IntVal(0))
                return (z3.simplify(n), lambda k: lo - k, None)
        if isinstance(v, tuple) and v and v[0] == "enumerate":
            n, f, a = self.sequence(v[1], node)
            return (n, lambda k: (k, f(k)), a)
        if isinstance(v, Lst):
            n = self.st.loc[("len", v.cell)]
            self.frozen = v.cell
            return (n, lambda k: self.st.cell[v.cell](k), None)
        raise Outside(f"iteration ({self.where(node)})")

    def assigned(self, body):
        return {("loc", self.prefix + x.id) for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def loop(self, s, seq):
        st = self.st
        key = (s.lineno, s.col_offset, self.prefix, self.depth)
        ent = {("loc", n) for n in st.loc} | set(st.cell) | {("ghost", g) for g in st.ghost}
        if not hasattr(self, "entry"):
            self.entry = {}
        self.entry[key] = ent
        mods = self.mods.setdefault(key, set())
        mods |= self.assigned(s.body) & ent
        for lk in self.stack:
            # an enclosing loop modifies whatever this one does
            extra = {x for x in mods if x in self.entry[lk]} - self.mods[lk]
            if extra:
                self.mods[lk] |= extra
                raise Restart()
        entry = st.copy()
        k = fresh("k", I) if seq else None
        N = seq[0] if seq else None
        frame = dict(key=key, k=k, N=N, entry=entry, mods=mods, seq=seq)
        # establish
        def inst(kk):
            fr = dict(frame, k=kk)
            return self.spec.candidates(self, [f for f in self.frames] + [fr])
        if not hasattr(self, "frames"):
            self.frames = []
        self.spec.lemmas(self)
        start = set()
        for name, vs, g in inst(z3.IntVal(0) if seq else None):
            start.add(name)
            tag = (key, name)
            self.loops.setdefault(key, {})[name] = True
            self.ask(f"{name} at {self.where(s)}: holds initially", self.goal(vs, g), tag, "inv")
        # arbitrary state
        if isinstance(s, ast.For) and any(isinstance(x, Cell) and getattr(x, "is_list", False) and getattr(self, "frozen", None) is x for x in mods):
            raise Outside("list modified while it is iterated")
        for x in sorted(mods, key=str):
            if isinstance(x, Cell):
                st.cell[x] = fresh_fn("H_" + x.name, len(x.shape), x.k)
            elif x[0] == "ghost":
                g = st.ghost[x[1]]
                st.ghost[x[1]] = fresh_fn("G_" + str(x[1])[:8], 1, "i") if not isz(g) else fresh("G_" + str(x[1]), g.sort())
            else:
                v = st.loc.get(x[1])
                if isz(v):
                    st.loc[x[1]] = fresh("H_" + str(x[1]), v.sort())
                else:
                    st.loc.pop(x[1], None)
        if seq:
            self.assume(k >= 0)
            self.assume(k <= N)
        head = inst(k)
        for name in {h[0] for h in head} - start:
            self.ask(f"{name} at {self.where(s)}: holds initially", z3.BoolVal(False), (key, name), "inv")
        for name, vs, g in head:
            self.assume(z3.ForAll(vs, g) if vs else g, (key, name))
        self.spec.lemmas(self)
        if seq:
            d = self.choose(2)
            if d == 1:
                self.assume(k >= N)
                self.block(s.orelse)
                return
            self.assume(k < N)
        else:
            t = self.truth(self.ev(s.test))
            if not self.branch(t):
                self.block(s.orelse)
                return
        self.stack.append(key)
        self.frames.append(frame)
        before = {n: v for n, v in st.loc.items() if isz(v) and kind(v) == "i"}
        nstack = len(self.stack)
        try:
            if seq:
                self.assign(s.target, seq[1](k))
            self.block(s.body)
        except Continue:
            pass
        except Break:
            del self.stack[nstack - 1:]
            del self.frames[nstack - 1:]
            return
        except (Ret, PathEnd, Outside, Restart):
            del self.stack[nstack - 1:]
            del self.frames[nstack - 1:]
            raise
        del self.stack[nstack - 1:]
        del self.frames[nstack - 1:]
        self.spec.lemmas(self)
        back = inst(k + 1 if seq else None)
        for name in {h[0] for h in head} - {b[0] for b in back}:
            self.ask(f"{name} at {self.where(s)}: is preserved", z3.BoolVal(False), (key, name), "inv")
        for name, vs, g in back:
            self.ask(f"{name} at {self.where(s)}: is preserved", self.goal(vs, g), (key, name), "inv")
        if not seq:
            self.backs.setdefault(key, set()).add(tuple(self.dec[:self.pos]))
            self.variants.setdefault((key, self.where(s)), set()).update(before)
            for n, b in before.items():
                v = st.loc.get(n)
                good = isz(v) and kind(v) == "i" and not v.eq(b)
                self.ask(f"counter {n} decreases ({self.where(s)})", z3.And(b >= 0, v < b) if good else z3.BoolVal(False), (key, n), "variant")
                for n2, b2 in before.items():
                    if ("loc", n) in mods and ("loc", n2) not in mods:
                        self.variants[key, self.where(s)].add((n2, n))
                        self.ask(f"{n2} - {n} decreases ({self.where(s)})", z3.And(b2 - b >= 0, v > b) if good else z3.BoolVal(False), (key, (n2, n)), "variant")
        raise PathEnd()

    def goal(self, vs, g):
        if not vs:
            return g
        return z3.substitute(g, *[(v, fresh("sk", v.sort())) for v in vs])

    # ------------------------------------------------------------- expressions
    def truth(self, v):
        if isz(v):
            return conv(v, "b")
        if v is None:
            return z3.BoolVal(False)
        if isinstance(v, Lst):
            return self.st.loc[("len", v.cell)] > 0
        raise Outside("truth value")

    def ev(self, e):
        t = type(e)
        if t is ast.Constant:
            if e.value is None or isinstance(e.value, str):
                return e.value
            return lit(e.value)
        if t is ast.Name:
            n = self.prefix + e.id
            if n in self.st.loc:
                return self.st.loc[n]
            if e.id in ("np", "numpy", "nb", "numba", "math"):
                return Obj("np")
            if e.id in self.fn or e.id in ("range", "len", "int", "float", "bool", "min", "max", "abs", "enumerate", "sum", "tuple", "list"):
                return Obj(e.id)
            if prove([x for x in self.st.pc if x[0] is None], z3.BoolVal(False), 500)[0]:
                raise PathEnd()
            raise Outside(f"name {e.id} ({self.where(e)})")
        if t is ast.Tuple:
            return tuple(self.ev(x) for x in e.elts)
        if t is ast.List:
            if e.elts:
                raise Outside("list display")
            a = self.new_cell(f"list{self.cellno}", "i", [z3.IntVal(0)], fresh_fn("list", 1, "i"))
            a.cell.is_list = True
            self.st.loc[("len", a.cell)] = z3.IntVal(0)
            return Lst(a.cell)
        if t is ast.UnaryOp:
            v = self.ev(e.operand)
            if isinstance(e.op, ast.Not):
                return z3.Not(self.truth(v))
            if isinstance(e.op, ast.USub):
                return self.ew(lambda x: -x, v)
            if isinstance(e.op, ast.Invert):
                return self.ew(lambda x: z3.Not(x) if kind(x) == "b" else -x - 1, v)
            return v
        if t is ast.BinOp:
            return self.binop(e.op, self.ev(e.left), self.ev(e.right), e)
        if t is ast.Compare:
            l = self.ev(e.left)
            r = None
            for op, x in zip(e.ops, e.comparators):
                y = self.ev(x)
                c = self.compare(op, l, y, e)
                r = c if r is None else z3.And(r, c)
                l = y
            return r
        if t is ast.BoolOp:
            # short circuit: obligations of the right operand only where it is evaluated
            v = self.ev(e.values[0])
            for x in e.values[1:]:
                c = self.branch(self.truth(v))
                if c == isinstance(e.op, ast.Or):
                    return z3.BoolVal(c)
                v = self.ev(x)
            return v if isz(v) else self.truth(v)
        if t is ast.IfExp:
            return self.ev(e.body if self.branch(self.truth(self.ev(e.test))) else e.orelse)
        if t is ast.Attribute:
            o = self.ev(e.value)
            if isinstance(o, Obj) and o.tag == "np":
                return Obj("np." + e.attr)
            if isinstance(o, (Arr, Tmp)):
                if e.attr == "shape":
                    return tuple(o.shape)
                if e.attr == "size" and o.nd == 1:
                    return o.shape[0]
                if e.attr == "T" and o.nd == 2 and isinstance(o, Arr):
                    r = Arr(o.cell, o.shape[::-1], lambda i, j: o.ix(j, i))
                    r.partial = True
                    return r
                if e.attr == "dtype":
                    return Obj("np.float64" if self.akind(o) == "f" else "np.int64")
            return ("method", o, e.attr)
        if t is ast.Subscript:
            a = self.ev(e.value)
            if isinstance(a, tuple):
                i = z3.simplify(self.ev(e.slice))
                return a[i.as_long()]
            if isinstance(a, Lst):
                i = self.index(self.ev(e.slice), self.st.loc[("len", a.cell)], e)
                return self.st.cell[a.cell](i)
            if not isinstance(a, (Arr, Tmp)):
                raise Outside("subscript")
            a2, ix = self.indices(a, e.slice, e)
            if len(ix) == a2.nd and all(i is not None for i in ix):
                return self.get(a2, *ix)
            ix = list(ix) + [None] * (a2.nd - len(ix))
            free = [d for d, i in enumerate(ix) if i is None]

            def full(q):
                q = list(q)
                return tuple(i if i is not None else q.pop(0) for i in ix)
            sh = [a2.shape[d] for d in free]
            if isinstance(a2, Tmp):
                return Tmp(lambda *q: a2.f(*full(q)), sh, a2.k)
            r = Arr(a2.cell, sh, lambda *q: a2.ix(*full(q)))
            if a2.nd == 2 and len(free) == 1 and a2.whole(a):
                r.col = (1 - free[0], ix[1 - free[0]])
            return r
        if t is ast.Call:
            return self.ev_call(e)
        raise Outside(f"{t.__name__} ({self.where(e)})")

    def index(self, i, n, node):
        if not isz(i):
            raise Outside(f"index ({self.where(node)})")
        i = conv(i, "i")
        s = z3.simplify(i)
        if z3.is_int_value(s) and s.as_long() < 0:
            i = n + s
        self.ask(f"index within the array ({self.where(node)})", z3.And(0 <= i, i < n))
        self.assume(z3.And(0 <= i, i < n))
        return i

    def indices(self, a, sl, node):
        """-> (array with partial slices applied, list of ints or None for full slices)"""
        parts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
        if len(parts) > a.nd:
            raise Outside("too many indices")
        off, shape, ix = [], list(a.shape), []
        part = False
        for d, p in enumerate(parts):
            if isinstance(p, ast.Slice):
                if p.step is not None:
                    raise Outside("slice with a step")
                n = a.shape[d]
                lo = self.ev(p.lower) if p.lower is not None else z3.IntVal(0)
                hi = self.ev(p.upper) if p.upper is not None else n
                if p.lower is not None or p.upper is not None:
                    self.ask(f"slice within the array ({self.where(node)})", z3.And(0 <= lo, lo <= hi, hi <= n))
                    self.assume(z3.And(0 <= lo, lo <= hi, hi <= n))
                    part = True
                shape[d] = z3.simplify(hi - lo)
                off.append(lo)
                ix.append(None)
            else:
                v = self.ev(p)
                ix.append(self.index(v, a.shape[d], node))
                off.append(z3.IntVal(0))
        if part:
            off += [z3.IntVal(0)] * (a.nd - len(off))
            if isinstance(a, Tmp):
                a = Tmp(lambda *q, a=a: a.f(*[x + o for x, o in zip(q, off)]), shape, a.k)
            else:
                a = Arr(a.cell, shape, lambda *q, a=a: a.ix(*[x + o for x, o in zip(q, off)]))
                a.partial = True
        return a, ix

    def ew(self, f, *vs):
        """elementwise operation"""
        arrs = [v for v in vs if isinstance(v, (Arr, Tmp))]
        if not arrs:
            if not all(isz(v) for v in vs):
                raise Outside("operands")
            return f(*vs)
        sh = arrs[0].shape
        for x in arrs[1:]:
            if x.nd != arrs[0].nd:
                raise Outside("broadcasting")
            for p, q in zip(sh, x.shape):
                if not z3.simplify(p == q).eq(z3.BoolVal(True)):
                    self.ask("shapes agree", p == q)
        fs = [self.freeze(v) if isinstance(v, (Arr, Tmp)) else (lambda *q, v=v: v) for v in vs]
        g = lambda *q: f(*[h(*q) for h in fs])
        return Tmp(g, sh, kind(g(*[z3.IntVal(0)] * len(sh))))

    def binop(self, op, a, b, node):
        if isinstance(a, tuple) or isinstance(b, tuple) or a is None or b is None:
            raise Outside("operands")

        def f(x, y):
            if isinstance(op, (ast.BitAnd, ast.BitOr)) and kind(x) == kind(y) == "b":
                return z3.And(x, y) if isinstance(op, ast.BitAnd) else z3.Or(x, y)
            k = "f" if "f" in (kind(x), kind(y)) or isinstance(op, ast.Div) else "i"
            x, y = conv(x, k), conv(y, k)
            if isinstance(op, ast.Add):
                return x + y
            if isinstance(op, ast.Sub):
                return x - y
            if isinstance(op, ast.Mult):
                return x * y
            if isinstance(op, ast.Div):
                self.ask(f"no division by zero ({self.where(node)})", y != 0)
                return x / y
            if isinstance(op, ast.Pow) and z3.is_int_value(z3.simplify(y)) and 0 <= z3.simplify(y).as_long() <= 4:
                r = conv(z3.IntVal(1), k)
                for _ in range(z3.simplify(y).as_long()):
                    r = r * x
                return r
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and k == "i":
                self.ask(f"positive divisor ({self.where(node)})", y > 0)
                return x / y if isinstance(op, ast.FloorDiv) else x % y
            raise Outside(f"operator ({self.where(node)})")
        return self.ew(f, a, b)

    def compare(self, op, a, b, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = (a is None) == (b is None) and (a is None or a is b)
            return z3.BoolVal(r == isinstance(op, ast.Is))

        def f(x, y):
            if kind(x) == "b" and kind(y) == "b":
                x2, y2 = x, y
            else:
                k = "f" if "f" in (kind(x), kind(y)) else "i"
                x2, y2 = conv(x, k), conv(y, k)
            return {ast.Lt: lambda: x2 < y2, ast.LtE: lambda: x2 <= y2, ast.Gt: lambda: x2 > y2, ast.GtE: lambda: x2 >= y2, ast.Eq: lambda: x2 == y2, ast.NotEq: lambda: x2 != y2}[type(op)]()
        if type(op) not in (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq):
            raise Outside("comparison")
        return self.ew(f, a, b)

    def ev_call(self, e):
        f = self.ev(e.func)
        args = [self.ev(x) for x in e.args]
        kw = {k.arg: self.ev(k.value) for k in e.keywords}
        if isinstance(f, Obj):
            if f.tag in self.fn:
                return self.call(self.fn[f.tag], args, kw)
            t = f.tag
            if t == "range":
                q = [conv(x, "i") for x in args]
                st = 1
                if len(q) == 3:
                    st = z3.simplify(q[2]).as_long()
                lo, hi = (z3.IntVal(0), q[0]) if len(q) == 1 else q[:2]
                return ("range", lo, hi, st)
            if t == "enumerate":
                return ("enumerate", args[0])
            if t == "len":
                if isinstance(args[0], Lst):
                    return self.st.loc[("len", args[0].cell)]
                return args[0].shape[0]
            if t in ("int", "np.int32", "np.int64", "np.intp", "np.uint32"):
                return conv(args[0], "i")
            if t in ("float", "np.float64"):
                return conv(args[0], "f")
            if t in ("abs", "np.abs"):
                return self.ew(lambda x: z3.If(x >= 0, x, -x), args[0])
            if t in ("min", "max", "np.minimum", "np.maximum") and len(args) == 2:
                def g(x, y):
                    k = "f" if "f" in (kind(x), kind(y)) else "i"
                    x, y = conv(x, k), conv(y, k)
                    return z3.If(x <= y, x, y) if "min" in t else z3.If(x >= y, x, y)
                return self.ew(g, *args)
            if t in ("np.full", "np.zeros", "np.ones", "np.empty"):
                sh = args[0] if isinstance(args[0], tuple) else (args[0],)
                if t == "np.full":
                    v = args[1]
                    dt = kw.get("dtype", args[2] if len(args) > 2 else None)
                else:
                    v = z3.IntVal(0 if t == "np.zeros" else 1)
                    dt = kw.get("dtype", args[1] if len(args) > 1 else Obj("np.float64"))
                k = kind(v)
                if isinstance(dt, Obj):
                    k = "i" if "int" in dt.tag else "b" if "bool" in dt.tag else "f"
                for x in sh:
                    self.ask(f"extent is not negative ({self.where(e)})", x >= 0)
                v = conv(v, k)
                g = fresh_fn("empty", len(sh), k) if t == "np.empty" else (lambda *q: v)
                return self.new_cell(f"a{self.cellno}", k, sh, g)
            if t == "np.arange":
                lo, hi = (z3.IntVal(0), args[0]) if len(args) == 1 else args[:2]
                return self.new_cell(f"a{self.cellno}", "i", [hi - lo], lambda j: lo + j)
            if t in ("np.flatnonzero", "np.nonzero", "np.where") and len(args) == 1 and args[0].nd == 1:
                r = self.select(args[0])
                return r if t == "np.flatnonzero" else (r,)
            if t in ("np.count_nonzero", "np.sum", "sum") and self.akind(args[0]) == "b":
                return self.select(args[0]).shape[0]
            if t in ("np.any", "np.all"):
                return self.quant(args[0], t == "np.any")
            if t in ("np.argmax", "np.argmin", "np.max", "np.min", "np.amax", "np.amin") and len(args) == 1:
                return self.extreme(args[0], "max" in t, "arg" in t, e)
            if t in ("np.copy", "np.array", "np.ascontiguousarray"):
                return self.copy(args[0])
            if t == "np.logical_not":
                return self.ew(z3.Not, args[0])
            raise Outside(f"call of {t} ({self.where(e)})")
        if isinstance(f, tuple) and f[0] == "method":
            o, n = f[1], f[2]
            if isinstance(o, Obj) and o.tag == "rng":
                if n in ("integers", "randint"):
                    lo, hi = (z3.IntVal(0), args[0]) if len(args) == 1 else args[:2]
                    self.ask(f"random integers from a non-empty range ({self.where(e)})", lo < hi)
                    x = fresh("rnd", I)
                    self.assume(z3.And(lo <= x, x < hi))
                    return x
                if n == "choice" and len(args) == 1:
                    x = fresh("rnd", I)
                    hi = args[0] if isz(args[0]) else args[0].shape[0]
                    self.ask(f"random choice from a non-empty range ({self.where(e)})", 0 < hi)
                    self.assume(z3.And(0 <= x, x < hi))
                    return x if isz(args[0]) else self.get(args[0], x)
                if n == "random" and not args:
                    x = fresh("rnd", R)
                    self.assume(z3.And(0 <= x, x < 1))
                    return x
            if isinstance(o, (Arr, Tmp)):
                if n in ("argmax", "argmin", "max", "min") and not args:
                    return self.extreme(o, "max" in n, "arg" in n, e)
                if n == "copy":
                    return self.copy(o)
                if n in ("any", "all"):
                    return self.quant(o, n == "any")
                if n == "sum" and self.akind(o) == "b":
                    return self.select(o).shape[0]
                if n == "nonzero":
                    return (self.select(o),)
                if n == "fill" and isinstance(o, Arr) and o.nd == 1:
                    self.store(o, [None], args[0], e)
                    return None
            if isinstance(o, Lst):
                key = ("len", o.cell)
                ln = self.st.loc[key]
                if n == "append":
                    if not isz(args[0]) or kind(args[0]) != "i":
                        raise Outside("list of other objects than integers")
                    self.store(Arr(o.cell, o.cell.shape), [ln], args[0], e)
                    self.touch(("loc", key))
                    self.st.loc[key] = ln + 1
                    return None
                if n == "pop" and not args:
                    self.ask(f"pop from a non-empty list ({self.where(e)})", ln > 0)
                    self.touch(("loc", key))
                    self.st.loc[key] = ln - 1
                    return self.st.cell[o.cell](ln - 1)
            raise Outside(f"method {n} ({self.where(e)})")
        raise Outside(f"call ({self.where(e)})")

    def copy(self, a):
        f = self.freeze(a)
        return self.new_cell(f"a{self.cellno}", self.akind(a), a.shape, f)

    def select(self, mask):
        """indices of the true elements"""
        mk = self.freeze(mask)
        n = mask.shape[0]
        A, inv, N = fresh_fn("sel", 1, "i"), fresh_fn("selinv", 1, "i"), fresh("nsel", I)
        j, p = z3.Ints("j p")
        tr = lambda x: conv(mk(x), "b")
        self.assume(z3.And(0 <= N, N <= n))
        self.assume(z3.ForAll([p], z3.Implies(z3.And(0 <= p, p < N), z3.And(0 <= A(p), A(p) < n, tr(A(p)), inv(A(p)) == p)), patterns=[A(p)]))
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, tr(j)), z3.And(0 <= inv(j), inv(j) < N, A(inv(j)) == j)), patterns=[inv(j)]))
        self.spec.on_select(self, tr, n, N, inv)
        r = self.new_cell(f"a{self.cellno}", "i", [N], A)
        self.st.ghost["inv", r.cell] = inv
        return r

    def quant(self, mask, some):
        mk = self.freeze(mask)
        if mask.nd != 1:
            raise Outside("any/all of a matrix")
        n = mask.shape[0]
        j, w = z3.Int("j"), fresh("w", I)
        tr = (lambda x: conv(mk(x), "b")) if some else (lambda x: z3.Not(conv(mk(x), "b")))
        d = self.choose(2)
        if d == 0:
            self.assume(z3.And(0 <= w, w < n, tr(w)))
        else:
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Not(tr(j)))))
        return z3.BoolVal((d == 0) == some)

    def extreme(self, a, mx, arg, node):
        f = self.freeze(a)
        if a.nd != 1:
            raise Outside("extreme of a matrix")
        n = a.shape[0]
        self.ask(f"maximum of a non-empty array ({self.where(node)})", n > 0)
        r, j = fresh("arg", I), z3.Int("j")
        self.assume(z3.And(0 <= r, r < n))
        b = f(j) <= f(r) if mx else f(j) >= f(r)
        self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), b)))
        return r if arg else f(r)


def _nd_full(cell, a):
    return len(cell.shape) == a.nd and not getattr(a, "partial", False)


Cell.nd_full = _nd_full
Arr.whole = lambda self, a: not getattr(self, "partial", False) and self.nd == 2 and isinstance(self, Arr) and self.ix is not None and getattr(self, "col", None) is None


# ------------------------------------------------------------------------------- discharge
STATS = dict(calls=0, time=0.0)


def prove(hyps, goal, ms, seed=1):
    """hyps: [(tag, formula)] -> (proved, tags used)"""
    t = time.time()
    s = z3.SimpleSolver()
    s.set("auto_config", False)
    s.set("timeout", ms)
    s.set("smt.mbqi", False)
    s.set("smt.random_seed", seed)
    tags = {}
    for tag, f in hyps:
        if tag is None:
            s.add(f)
        else:
            b = z3.Bool(f"t!{len(tags)}")
            tags[b.decl().name()] = tag
            s.assert_and_track(f, b)
    s.add(z3.Not(goal))
    r = s.check()
    STATS["calls"] += 1
    STATS["time"] += time.time() - t
    if r == z3.unsat:
        core = {c.decl().name() for c in s.unsat_core()}
        if cross.ON:
            s2 = z3.Solver()
            names = iter(tags)
            for tag, f in hyps:
                if tag is None or next(names) in core:
                    s2.add(f)
            s2.add(z3.Not(goal))
            if cross.contradicted(s2):
                return False, z3.unknown
        return True, {tags[c] for c in core}
    return False, r


def houdini(prog, ms, end):
    """drop the candidate invariants that are not inductive"""
    active = {(lk, n) for lk, ns in prog.loops.items() for n in ns}
    inv = [q for q in prog.queries.values() if q.kind == "inv"]
    core = {}
    rounds = 0
    while True:
        rounds += 1
        drop = set()
        for q in inv:
            if q.tag not in active or q.tag in drop or id(q) in core and core[id(q)] <= active:
                continue
            if time.time() > end:
                raise Outside("time limit")
            ok, r = prove([(t, f) for t, f in q.hyps if t is None or t in active and t not in drop], q.goal, ms)
            if ok:
                core[id(q)] = r
            else:
                drop.add(q.tag)
                if os.environ.get("IMPDEBUG"):
                    print("drop", q.where, r)
        if not drop:
            return active, rounds
        active -= drop
