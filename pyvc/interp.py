"""Symbolic execution of the real sources (parsed anew on every run).

Values: native Python constants, Num (a term with kind i/f/b), SArr (views of symbolic
stores), SObj/SClass/SFunc for the objects, classes and functions of the repository, models
(Builtin) for numpy, numba, logging, ... .  Loops with symbolic trip count are replaced by
closed forms that are inferred from one symbolic iteration and then *checked inductively*
(initialisation and preservation); anything outside that is reported as Unsupported.
"""
from __future__ import annotations
import ast, os, itertools
from types import MappingProxyType
from fractions import Fraction
from terms import *
import terms
from prove import Ctx, prove_zero, Budget, STATS

REPO = os.environ.get("VERIF_REPO", "/repo")


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, cls, args=()):
        self.cls, self.eargs = cls, args

    def __str__(self):
        return f"raise {self.cls} {str(self.eargs)[:100] if self.eargs else str()}"


class Signal(Exception):
    pass


class BreakS(Signal):
    pass


class ContinueS(Signal):
    pass


class ReturnS(Signal):
    def __init__(self, v):
        self.v = v


class Infeasible(Exception):
    pass


class Poison:
    def __init__(self, why):
        self.why = why


UNDEF = Poison("undefined")


# ---------------------------------------------------------------------- values
class Num:
    __slots__ = ("p", "k")

    def __init__(self, p, k):
        self.p, self.k = P(p), k

    def __repr__(self):
        return f"<{self.k} {show(self.p, 120)}>"


def num(p, k):
    """Num, or a native constant when the term is one"""
    p = P(p)
    c = p.const()
    if c is not None:
        if k == "b":
            return bool(c)
        if k == "i" and c.denominator == 1:
            return int(c)
        return Num(p, k)
    return Num(p, k)


def isnum(v):
    return isinstance(v, (Num, bool, int, float, Fraction))


def lift(v):
    """(poly, kind)"""
    if isinstance(v, Num):
        return v.p, v.k
    if isinstance(v, bool):
        return (ONE if v else ZERO), "b"
    if isinstance(v, int):
        return P(v), "i"
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return app("const_" + repr(v)), "f"
        return P(v), "f"
    if isinstance(v, Fraction):
        return P(v), "f"
    if isinstance(v, Poly):
        return v, "i" if v.isint else "f"
    if isinstance(v, SArr) and v.ndim == 0:
        return v.read(()), v.kind
    raise Unsupported(f"numeric value expected, got {type(v).__name__}")


def IDX(d):
    return mk("var", (f"@{d}", True), True)


IX = [P(IDX(d)) for d in range(8)]


class Heap:
    objs: list = []

    @classmethod
    def reg(cls, o):
        cls.objs.append(o)
        return o


class Store:
    _n = 0

    def __init__(self, shape, body, dtype="f", origin="tmp", layout="C"):
        Store._n += 1
        self.id = Store._n
        self.shape = tuple(P(s) for s in shape)
        self.body = P(body)
        self.dtype = dtype
        self.origin = origin
        self.layout = layout
        self.writable = True
        Heap.reg(self)

    def get_state(self):
        return (self.body, self.shape, self.dtype)

    def set_state(self, s):
        self.body, self.shape, self.dtype = s


class SArr:
    """view of a store: dims = list of (sdim, start, step) or None for broadcast dims"""

    def __init__(self, store, dims=None, shape=None, fixed=None, layout=None):
        self.store = store
        if dims is None:
            dims = [(d, ZERO, 1) for d in range(len(store.shape))]
            shape = store.shape
        self.dims = list(dims)
        self.shape = tuple(P(s) for s in shape)
        self.fixed = dict(fixed or {})
        self.view_layout = layout

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def kind(self):
        return {"i": "i", "i4": "i", "b": "b"}.get(self.store.dtype, "f")

    @property
    def dtype(self):
        return self.store.dtype

    @property
    def whole(self):
        return (not self.fixed and [d for d in self.dims] == [(i, ZERO, 1) for i in range(len(self.store.shape))]
                and len(self.dims) == len(self.store.shape) and self.shape == self.store.shape)

    def sidx(self, idx):
        s = dict(self.fixed)
        for (d, i) in zip(self.dims, idx):
            if d is None:
                continue
            sd, st, step = d
            s[sd] = st + P(i).scale(Fraction(step))
        return s

    def read(self, idx):
        s = self.sidx(idx)
        return subst(self.store.body, {IDX(d): v for d, v in s.items()})

    def write(self, fn):
        """fn(view idx polys) -> poly; writes every element of the view"""
        st = self.store
        cond = ONE
        vidx = [ZERO] * len(self.dims)
        for sd, v in self.fixed.items():
            cond = cond * eq(IX[sd], v)
        for n, d in enumerate(self.dims):
            if d is None:
                if self.shape[n].const() != 1:
                    raise Unsupported("write to broadcast view")
                continue
            sd, start, step = d
            if step == 1:
                vi = IX[sd] - start
            elif step == -1:
                vi = start - IX[sd]
            else:
                raise Unsupported("write with step")
            vidx[n] = vi
            if not (step == 1 and not start.m and self.shape[n] is st.shape[sd]):
                cond = cond * ge0(vi) * gt0(self.shape[n] - vi)
        val = P(fn(vidx))
        # inside the written region every fixed index equals its value
        sub = {}
        for sd, v in self.fixed.items():
            if IDX(sd) not in P(v).fv:
                sub[IDX(sd)] = P(v)
        st.body = ite(cond, val, st.body) if not sub else cond * (subst(val, sub) - subst(st.body, sub)) + st.body

    def __repr__(self):
        return f"<arr {self.store.origin} {[show(s) for s in self.shape]} {show(self.read(IX[:self.ndim]), 200)}>"


def new_arr(shape, fn, dtype="f", origin="tmp"):
    shape = tuple(P(s) for s in shape)
    return SArr(Store(shape, fn(IX[:len(shape)]), dtype, origin))


def sym_arr(name, shape, dtype="f", origin=None, **kw):
    terms.arr(name, shape, isint=dtype[0] == "i", isbool=dtype == "b", **kw)
    return SArr(Store(shape, rd(name, IX[:len(shape)]), dtype, origin or name))


class SClass:
    def __init__(self, name, bases, ns, native=False, jit=None):
        self.name, self.bases, self.ns, self.native, self.jit = name, bases, ns, native, jit

    def mro(self):
        # linearisation good enough for single inheritance and simple mixins
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def lookup(self, n, skip=None):
        m = self.mro()
        if skip is not None:
            m = m[m.index(skip) + 1:]
        for c in m:
            if n in c.ns:
                return c.ns[n]
        return None

    def issub(self, o):
        return o in self.mro()

    def __repr__(self):
        return self.name


def exc(name, *bases):
    return SClass(name, list(bases), {}, native=True)


OBJ = SClass("object", [], {}, native=True)
EXC = {}
for n, b in [("BaseException", None), ("Exception", "BaseException"), ("ValueError", "Exception"), ("TypeError", "Exception"), ("RuntimeError", "Exception"),
             ("NotImplementedError", "RuntimeError"), ("IndexError", "Exception"), ("KeyError", "Exception"), ("AttributeError", "Exception"), ("ImportError", "Exception"),
             ("ZeroDivisionError", "Exception"), ("AssertionError", "Exception"), ("StopIteration", "Exception"), ("KeyboardInterrupt", "BaseException"), ("ArithmeticError", "Exception"),
             ("UserWarning", "Exception"), ("DeprecationWarning", "Exception"), ("RuntimeWarning", "Exception"), ("NameError", "Exception"), ("ModuleNotFoundError", "ImportError"), ("LookupError", "Exception"), ("OverflowError", "Exception")]:
    EXC[n] = exc(n, *([EXC[b]] if b else []))


class SObj:
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        Heap.reg(self)

    def get_state(self):
        return dict(self.attrs)

    def set_state(self, s):
        self.attrs = dict(s)

    def __repr__(self):
        return f"<{self.cls.name} object>"


class SList:
    tail = None  # SymSeq of further items

    def __init__(self, items):
        self.items = list(items)
        Heap.reg(self)

    def get_state(self):
        return list(self.items) + ([self.tail] if self.tail is not None else [])

    def set_state(self, s):
        s = list(s)
        self.tail = s.pop() if s and isinstance(s[-1], SymSeq) else None
        self.items = s


class SDict:
    def __init__(self, d):
        self.d = dict(d)
        Heap.reg(self)

    def get_state(self):
        return dict(self.d)

    def set_state(self, s):
        self.d = dict(s)


class FixedDict(SDict):
    """dictionary in a sequence of symbolic length: may be read only (writing is outside the subset)"""

    def __init__(self, d):
        self.d = MappingProxyType(dict(d))


class SymSeq:
    """sequence of symbolic length: item(i poly) -> value"""

    def __init__(self, n, item):
        self.n, self.item = P(n), item


class SFunc:
    def __init__(self, node, frame, module, cls=None, name=None):
        self.node, self.frame, self.module, self.cls = node, frame, module, cls
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults = None
        self.deco = []

    @property
    def qual(self):
        return f"{self.module.name}:{self.cls.name + '.' if self.cls else ''}{self.name}"


class Bound:
    def __init__(self, f, self_):
        self.f, self.self = f, self_


class PropDesc:
    def __init__(self, fget=None, fset=None):
        self.fget, self.fset = fget, fset


class ClsMethod:
    def __init__(self, f):
        self.f = f


class StaticMethod:
    def __init__(self, f):
        self.f = f


class Builtin:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f"<builtin {self.name}>"


class Module:
    def __init__(self, name, ns):
        self.name, self.ns = name, ns


class Opaque:
    """object whose behaviour is irrelevant (loggers, progress bars, annotations)"""

    def __init__(self, name):
        self.name = name


class SRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = P(lo), P(hi), step


class SSlice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class Frame:
    def __init__(self, module, parent=None, func=None):
        self.module, self.parent, self.func = module, parent, func
        self.loc = {}
        Heap.reg(self)

    def get_state(self):
        return dict(self.loc)

    def set_state(self, s):
        self.loc = dict(s)


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


# ------------------------------------------------------------------- interpreter
class Machine:
    def __init__(self):
        self.ctx = Ctx()
        self.modules = {}
        self.dec = None
        self.pos = 0
        self.alts = None
        self.pc = ONE
        self.safety = []  # (kind, condition, facts, where)
        self.trusted = set()
        self.functions = set()
        self.loop_obls = []  # (name, ok)
        self.node = None
        self.fn_stack = []
        self.steps = 0
        self.max_steps = 400000
        self.stubs = {}  # qualified function name -> python callable(machine, args, kwargs)
        self.loop_hook = None
        self.infer = 0
        self.quiet = 0
        self.draw_seq = 0
        self.serials = [0]  # identifies the running loops among repeated executions
        self.exit_marks = []
        self.path_tag = None
        import npmodel
        self.np = npmodel
        npmodel.install(self)

    # ----- paths
    def branch(self, cond):
        """a symbolic boolean as a Python bool; forks when undetermined"""
        cond = P(cond)
        d = self.ctx.decide(cond)
        if d is not None:
            return d
        if self.dec is None:
            raise Unsupported("branch outside of an exploration")
        if self.pos < len(self.dec):
            v = self.dec[self.pos]
        else:
            v = True
            self.dec.append(True)
            self.alts.append(self.dec[:-1] + [False])
            if len(self.alts) > 400:
                raise Unsupported("too many paths")
        self.pos += 1
        c = cond if v else ONE - cond
        self.ctx.add(c)
        self.pc = self.pc * c
        return v

    def assume(self, c):
        self.ctx.add(c)

    def snapshot(self):
        return len(Heap.objs), {o: o.get_state() for o in Heap.objs}

    def restore(self, snap):
        n, st = snap
        for o, s in st.items():
            o.set_state(s)

    def explore(self, thunk, limit=200):
        """run thunk on every feasible path; -> list of (pc, outcome, snapshot, ctx)"""
        snap = self.snapshot()
        octx, odec, opos, oalts, opc = self.ctx, self.dec, self.pos, self.alts, self.pc
        onode, ostack = self.node, list(self.fn_stack)
        res = []
        todo = [[]]
        try:
            while todo:
                d = todo.pop()
                self.restore(snap)
                self.ctx = octx.copy()
                self.dec, self.pos, self.alts, self.pc = list(d), 0, [], ONE
                self.fn_stack = list(ostack)
                try:
                    out = ("ok", thunk())
                except PyRaise as e:
                    out = ("raise", e)
                except BreakS:
                    out = ("break", None)
                except ContinueS:
                    out = ("ok", None)
                except ReturnS as e:
                    out = ("return", e.v)
                except Infeasible:
                    todo += self.alts
                    continue
                todo += self.alts
                res.append((self.pc, out, self.snapshot(), self.ctx, self.path_tag))
                if len(res) > limit:
                    raise Unsupported("too many paths")
        finally:
            self.restore(snap)
            self.ctx, self.dec, self.pos, self.alts, self.pc = octx, odec, opos, oalts, opc
            self.node, self.fn_stack = onode, ostack
        return res

    def np_written(self, store):
        pass

    def list_append(self, l, v):
        l.items.append(v)

    def where(self):
        f = self.fn_stack[-1].qual if self.fn_stack else "?"
        return f"{f}:{getattr(self.node, 'lineno', '?')}"

    def require(self, kind, cond):
        """an implicit safety obligation (index in bounds, denominator non-zero)"""
        if self.infer or self.quiet:
            return
        cond = P(cond)
        if cond is ONE:
            return
        self.safety.append((kind, cond, list(self.ctx.facts), self.where()))

    # ----- truth
    def truth(self, v):
        if isinstance(v, Num):
            if v.k == "b":
                return self.branch(v.p)
            return self.branch(ONE - eq0(v.p))
        if isinstance(v, (bool, int, float, str, type(None), tuple)):
            return bool(v)
        if isinstance(v, SList):
            return bool(v.items)
        if isinstance(v, SDict):
            return bool(v.d)
        if isinstance(v, SymSeq):
            return self.branch(gt0(v.n))
        if isinstance(v, SArr):
            if v.ndim == 0:
                return self.truth(num(v.read(()), v.kind))
            if all(s.const() == 1 for s in v.shape):
                return self.truth(num(v.read([ZERO] * v.ndim), v.kind))
            raise PyRaise(EXC["ValueError"], ("truth value of an array is ambiguous",))
        if isinstance(v, SObj):
            m = v.cls.lookup("__bool__") or v.cls.lookup("__len__")
            if m:
                return self.truth(self.call(Bound(m, v), [], {}))
            return True
        if isinstance(v, (SClass, SFunc, Bound, Builtin, Module)):
            return True
        if type(v).__name__ == "SRng":
            return True
        raise Unsupported(f"truth value of {type(v).__name__}")

    # ----- modules
    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        rel = name.replace(".", "/")
        base = os.path.join(REPO, rel)
        path = base + ".py" if os.path.exists(base + ".py") else os.path.join(base, "__init__.py")
        if not os.path.exists(path):
            raise PyRaise(EXC["ImportError"], (name,))
        m = Module(name, {"__name__": name})
        m.path = path
        m.is_pkg = path.endswith("__init__.py")
        self.modules[name] = m
        tree = ast.parse(open(path, encoding="utf8").read())
        fr = Frame(m)
        fr.loc = m.ns
        m.frame = fr
        for st in tree.body:
            self.stmt(st, fr)
        if fr.loc is not m.ns:
            m.ns = fr.loc
        return m

    def client(self, src, ns=()):
        """execute a program that uses the package; -> its namespace"""
        self.nclient = getattr(self, "nclient", 0) + 1
        m = Module("client", {"__name__": "client"})
        m.path, m.is_pkg = "client", False
        fr = Frame(m)
        fr.loc = m.ns
        m.frame = fr
        m.ns.update(ns)
        for st in ast.parse(src).body:
            self.stmt(st, fr)
        m.ns = fr.loc
        return m.ns

    def do_import(self, node, fr):
        if isinstance(node, ast.Import):
            for a in node.names:
                m = self.ext(a.name)
                fr.loc[a.asname or a.name.split(".")[0]] = m if a.asname else self.ext(a.name.split(".")[0])
            return
        if node.level:
            parts = fr.module.name.split(".")
            if not fr.module.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (node.level - 1)]
            full = ".".join(parts + ([node.module] if node.module else []))
        else:
            full = node.module
        if full.split(".")[0] == "flory":
            m = self.load(full)
            for a in node.names:
                if a.name == "*":
                    for k, v in m.ns.items():
                        if not k.startswith("_"):
                            fr.loc[k] = v
                elif a.name in m.ns:
                    fr.loc[a.asname or a.name] = m.ns[a.name]
                else:
                    try:
                        fr.loc[a.asname or a.name] = self.load(full + "." + a.name)
                    except PyRaise:
                        raise PyRaise(EXC["ImportError"], (a.name,))
            return
        m = self.ext(full)
        for a in node.names:
            if a.name == "*":
                continue
            fr.loc[a.asname or a.name] = self.getattr(m, a.name)

    def ext(self, name):
        if name.split(".")[0] == "flory":
            return self.load(name)
        m = self.np.EXT.get(name)
        if m is None:
            m = Opaque("module " + name)
        return m

    # ----- statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step limit")
        self.node = st
        k = type(st).__name__
        getattr(self, "s_" + k, self.s_unknown)(st, fr)

    def s_unknown(self, st, fr):
        raise Unsupported("statement " + type(st).__name__)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Import(self, st, fr):
        self.do_import(st, fr)

    s_ImportFrom = s_Import

    def s_Global(self, st, fr):
        raise Unsupported("global")

    def s_Nonlocal(self, st, fr):
        raise Unsupported("nonlocal")

    def s_FunctionDef(self, st, fr, cls=None):
        f = SFunc(st, fr, fr.module, cls)
        a = st.args
        f.defaults = [self.ev(d, fr) for d in a.defaults]
        f.kwdefaults = {x.arg: self.ev(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        v = f
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, fr)
        fr.loc[st.name] = v

    def decorate(self, d, v, fr):
        if isinstance(d, ast.Name) and d.id == "property":
            return PropDesc(v)
        if isinstance(d, ast.Name) and d.id == "classmethod":
            return ClsMethod(v)
        if isinstance(d, ast.Name) and d.id == "staticmethod":
            return StaticMethod(v)
        if isinstance(d, ast.Attribute) and d.attr == "setter":
            old = fr.loc.get(d.value.id)
            return PropDesc(old.fget, v)
        if isinstance(d, ast.Attribute) and d.attr == "getter":
            old = fr.loc.get(d.value.id)
            return PropDesc(v, old.fset)
        dv = self.ev(d, fr)
        return self.call(dv, [v], {})

    def s_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        bases = [b for b in bases if isinstance(b, SClass)] or [OBJ]
        c = SClass(st.name, bases, {})
        f2 = Frame(fr.module, fr)
        for s in st.body:
            self.node = s
            if isinstance(s, ast.FunctionDef):
                self.s_FunctionDef(s, f2, c)
            else:
                self.stmt(s, f2)
        c.ns = f2.loc
        c.module = fr.module
        v = c
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, fr)
        fr.loc[st.name] = v

    def s_Return(self, st, fr):
        raise ReturnS(self.ev(st.value, fr) if st.value else None)

    def s_Break(self, st, fr):
        raise BreakS()

    def s_Continue(self, st, fr):
        raise ContinueS()

    def s_If(self, st, fr):
        if self.truth(self.ev(st.test, fr)):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def s_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr)):
            raise PyRaise(EXC["AssertionError"])

    def s_Raise(self, st, fr):
        if st.exc is None:
            if getattr(self, "cur_exc", None):
                raise self.cur_exc
            raise Unsupported("bare raise")
        v = self.ev(st.exc, fr)
        if isinstance(v, SClass):
            raise PyRaise(v)
        if isinstance(v, SObj):
            raise PyRaise(v.cls, (v,))
        raise Unsupported("raise of unknown value")

    def s_Try(self, st, fr):
        try:
            try:
                self.block(st.body, fr)
            except PyRaise as e:
                for h in st.handlers:
                    ok = h.type is None
                    if not ok:
                        t = self.ev(h.type, fr)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = any(isinstance(x, SClass) and e.cls.issub(x) for x in ts)
                    if ok:
                        if h.name:
                            fr.loc[h.name] = SObj(e.cls, {"args": e.eargs})
                        old = getattr(self, "cur_exc", None)
                        self.cur_exc = e
                        try:
                            self.block(h.body, fr)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.block(st.orelse, fr)
        except (PyRaise, Signal):
            self.block(st.finalbody, fr)
            raise
        else:
            self.block(st.finalbody, fr)

    def s_With(self, st, fr):
        for it in st.items:
            v = self.ev(it.context_expr, fr)
            if not isinstance(v, Opaque):
                raise Unsupported("with statement")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(st.body, fr)

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.loc.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev(t.slice, fr)
                if isinstance(o, SDict):
                    o.d.pop(self.key(k))
                else:
                    raise Unsupported("del item")
            else:
                raise Unsupported("del")

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            v = self.ev(st.value, fr)
            fr.loc[t.id] = self.iop(op, cur, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.ev(st.value, fr)
            self.setattr(o, t.attr, self.iop(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.index(t.slice, fr)
            cur = self.getitem(o, k)
            v = self.ev(st.value, fr)
            r = self.iop(op, cur, v)
            if not (r is cur and isinstance(cur, SArr)):
                self.setitem(o, k, r)
        else:
            raise Unsupported("augmented target")

    def iop(self, op, cur, v):
        if isinstance(cur, SArr):
            r = self.binop(op, cur, v)
            self.np.assign_into(self, cur, r)
            return cur
        if isinstance(cur, SList) and op == "Add":
            cur.items.extend(self.listof(v))
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.loc[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.listof(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                raise Unsupported("starred assignment")
            if len(vs) != len(t.elts):
                raise PyRaise(EXC["ValueError"], ("unpack",))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.index(t.slice, fr)
            self.setitem(o, k, v)
        else:
            raise Unsupported("assignment target")

    # ----- loops
    def iterate(self, v):
        """-> concrete list of items, or SymSeq"""
        if isinstance(v, SList) and v.tail is not None and not v.items:
            return self.iterate(v.tail)
        if isinstance(v, SRange):
            n = self.range_len(v)
            c = n.const()
            if c is not None and c <= 16:
                return [num(v.lo + i * v.step, "i") for i in range(int(c))]
            return SymSeq(n, lambda i: num(v.lo + P(i).scale(Fraction(v.step)), "i"))
        if isinstance(v, SymSeq):
            c = v.n.const()
            if c is not None and c <= 16:
                return [v.item(P(i)) for i in range(int(c))]
            return v
        if isinstance(v, SArr):
            if v.ndim == 0:
                raise PyRaise(EXC["TypeError"], ("iteration over a 0-d array",))
            n = v.shape[0]
            seq = SymSeq(n, lambda i: self.getitem(v, num(P(i), "i")))
            return self.iterate(seq)
        return self.listof(v)

    def range_len(self, r):
        if r.step == 1:
            n = r.hi - r.lo
        elif r.step == -1:
            n = r.lo - r.hi
        else:
            n = self.np.fdiv(r.hi - r.lo + (r.step - 1 if r.step > 0 else r.step + 1), P(r.step))
        d = self.ctx.decide(ge0(n))
        if d is None:
            if not self.branch(ge0(n)):
                return ZERO
        elif d is False:
            return ZERO
        return n

    def listof(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, SList):
            if v.tail is not None:
                raise Unsupported("list of symbolic length")
            return list(v.items)
        if isinstance(v, SDict):
            return list(v.d.keys())
        if isinstance(v, str):
            return list(v)
        if isinstance(v, (list,)):
            return list(v)
        if isinstance(v, (SRange, SymSeq, SArr)):
            r = self.iterate(v)
            if isinstance(r, SymSeq):
                raise Unsupported("sequence of symbolic length used as a list")
            return r
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, (Num, int, float, bool, type(None))):
            raise PyRaise(EXC["TypeError"], ("not iterable",))
        raise Unsupported(f"iteration over {type(v).__name__}")

    def s_For(self, st, fr):
        v = self.ev(st.iter, fr)
        it = self.iterate(v)
        if not isinstance(it, SymSeq):
            for x in it:
                self.assign(st.target, x, fr)
                try:
                    self.block(st.body, fr)
                except BreakS:
                    return
                except ContinueS:
                    continue
            self.block(st.orelse, fr)
            return
        from loops import run_for
        if run_for(self, st, it, fr):
            self.block(st.orelse, fr)

    def s_Guard(self, st, fr):
        if not self.truth(self.ev(st.test, fr)):
            if self.infer:
                raise Infeasible()
            raise Unsupported("while loop: the condition is not known to hold")

    def s_While(self, st, fr):
        from loops import run_while
        run_while(self, st, fr)

    # ----- expressions
    def ev(self, e, fr):
        k = type(e).__name__
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression " + k)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.loc:
                v = f.loc[n]
                if isinstance(v, Poison):
                    raise Unsupported(f"value of {n} unknown: {v.why}")
                return v
            f = f.parent
        if n in fr.module.ns:
            return fr.module.ns[n]
        if n in self.np.BUILTINS:
            return self.np.BUILTINS[n]
        if n in EXC:
            return EXC[n]
        if n == "object":
            return OBJ
        if n in ("NotImplemented", "Ellipsis"):
            return Ellipsis
        raise PyRaise(EXC["NameError"], (n,))

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return SList(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return frozenset(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += self.listof(self.ev(x.value, fr))
            else:
                out.append(self.ev(x, fr))
        return out

    def key(self, k):
        if isinstance(k, (str, int, bool, type(None), tuple)):
            return k
        if isinstance(k, Num):
            return ("num", k.p)
        raise Unsupported("dict key")

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, fr)
                if not isinstance(x, SDict):
                    raise Unsupported("** of non dict")
                d.update(x.d)
            else:
                d[self.key(self.ev(k, fr))] = self.ev(v, fr)
        return SDict(d)

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.ev(v.value, fr)
                out.append(str(x) if isinstance(x, (str, int)) else "<?>")
        return "".join(out)

    def e_IfExp(self, e, fr):
        return self.ev(e.body, fr) if self.truth(self.ev(e.test, fr)) else self.ev(e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        fr.loc[e.target.id] = v
        return v

    def e_Lambda(self, e, fr):
        f = SFunc(e, fr, fr.module)
        f.defaults = [self.ev(d, fr) for d in e.args.defaults]
        f.kwdefaults = {}
        return f

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        k = self.index(e.slice, fr)
        return self.getitem(o, k)

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            return SSlice(*[self.ev(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, fr) for x in s.elts)
        return self.ev(s, fr)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        op = type(e.op).__name__
        if op == "Not":
            if isinstance(v, Num) and v.k == "b":
                return num(ONE - v.p, "b")
            return not self.truth(v)
        return self.unop(op, v)

    def unop(self, op, v):
        if isinstance(v, SArr):
            return self.np.ewise1(self, v, lambda p, k: self.un(op, p, k))
        p, k = lift(v)
        r, k2 = self.un(op, p, k)
        if isinstance(v, (int, float)) and not isinstance(v, bool) and op in ("USub", "UAdd"):
            return -v if op == "USub" else v
        return num(r, k2)

    def un(self, op, p, k):
        if op == "USub":
            return -p, "i" if k == "b" else k
        if op == "UAdd":
            return p, k
        if op == "Invert" and k == "b":
            return ONE - p, "b"
        raise Unsupported("unary " + op)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        acc = None
        for x in e.values:
            v = self.ev(x, fr)
            last = x is e.values[-1]
            if last:
                break
            t = self.truth(v)
            if isand and not t or (not isand) and t:
                return v
        return v

    def e_Compare(self, e, fr):
        l = self.ev(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, fr)
            c = self.compare(type(op).__name__, l, r)
            if len(e.ops) > 1:
                if not self.truth(c):
                    return False
            res = c
            l = r
        return res

    def compare(self, op, l, r):
        if op in ("Is", "IsNot"):
            if isinstance(l, (Num, SArr)) and r is None or isinstance(r, (Num, SArr)) and l is None:
                v = False
            else:
                v = l is r
            return v if op == "Is" else not v
        if op in ("In", "NotIn"):
            if isinstance(r, SDict):
                v = self.key(l) in r.d
            elif isinstance(r, str):
                v = l in r
            elif isinstance(r, (tuple, SList, frozenset)):
                v = any(self.truth(self.compare("Eq", l, x)) for x in self.listof(r))
            else:
                raise Unsupported("in")
            return v if op == "In" else not v
        if isinstance(l, SArr) or isinstance(r, SArr):
            if not isinstance(l, SArr) and not isnum(l) or not isinstance(r, SArr) and not isnum(r):
                if isinstance(l, (SList, tuple)):
                    l = self.np.asarray(self, l)
                elif isinstance(r, (SList, tuple)):
                    r = self.np.asarray(self, r)
                else:
                    return op == "NotEq"
            return self.np.ewise2(self, l, r, lambda a, b, ka, kb: (self.cmp(op, a, b), "b"))
        if isnum(l) and isnum(r):
            if not isinstance(l, Num) and not isinstance(r, Num):
                import operator
                return dict(Eq=operator.eq, NotEq=operator.ne, Lt=operator.lt, LtE=operator.le, Gt=operator.gt, GtE=operator.ge)[op](l, r)
            return num(self.cmp(op, lift(l)[0], lift(r)[0]), "b")
        if op in ("Eq", "NotEq"):
            if isinstance(l, tuple) and isinstance(r, tuple):
                if len(l) != len(r):
                    v = False
                else:
                    acc = ONE
                    for a, b in zip(l, r):
                        c = self.compare("Eq", a, b)
                        acc = acc * (c.p if isinstance(c, Num) else P(bool(c)))
                    v = num(acc, "b")
            elif isinstance(l, SList) and isinstance(r, SList):
                return self.compare(op, tuple(l.items), tuple(r.items))
            elif isinstance(l, (str, type(None))) or isinstance(r, (str, type(None))):
                if isinstance(l, Opaque) or isinstance(r, Opaque):
                    raise Unsupported("comparison with opaque value")
                v = l == r if type(l) is type(r) else False
            elif isinstance(l, (SObj, SClass, SFunc)) or isinstance(r, (SObj, SClass, SFunc)):
                v = l is r
            else:
                raise Unsupported(f"comparison of {type(l).__name__} and {type(r).__name__}")
            if op == "Eq":
                return v
            return num(ONE - v.p, "b") if isinstance(v, Num) else not v
        raise Unsupported(f"comparison {op} of {type(l).__name__} and {type(r).__name__}")

    def cmp(self, op, a, b):
        if op == "Eq":
            return eq(a, b)
        if op == "NotEq":
            return ONE - eq(a, b)
        if op == "Lt":
            return lt(a, b)
        if op == "LtE":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "GtE":
            return le(b, a)
        raise Unsupported(op)

    def e_BinOp(self, e, fr):
        l = self.ev(e.left, fr)
        r = self.ev(e.right, fr)
        self.node = e if hasattr(e, "lineno") else self.node
        return self.binop(type(e.op).__name__, l, r)

    def binop(self, op, l, r):
        if op == "MatMult":
            return self.np.matmul(self, l, r)
        if isinstance(l, self.np.MaskedArr) or isinstance(r, self.np.MaskedArr):
            return self.np.masked_binop(self, op, l, r)
        if isinstance(l, SArr) or isinstance(r, SArr):
            if isinstance(l, (SList, tuple)):
                l = self.np.asarray(self, l)
            if isinstance(r, (SList, tuple)):
                r = self.np.asarray(self, r)
            return self.np.ewise2(self, l, r, lambda a, b, ka, kb: self.arith(op, a, b, ka, kb))
        if isnum(l) and isnum(r):
            if not isinstance(l, Num) and not isinstance(r, Num) and not isinstance(l, Fraction) and not isinstance(r, Fraction):
                if isinstance(l, (int, bool)) and isinstance(r, (int, bool)):
                    f = {"Add": lambda: l + r, "Sub": lambda: l - r, "Mult": lambda: l * r, "FloorDiv": lambda: l // r, "Mod": lambda: l % r, "Pow": lambda: l ** r,
                         "BitOr": lambda: l | r, "BitAnd": lambda: l & r}.get(op)
                    if op in ("FloorDiv", "Mod") and r == 0:
                        raise PyRaise(EXC["ZeroDivisionError"])
                    if f and not (op == "Pow" and r < 0):
                        return f()
            pl, kl = lift(l)
            pr, kr = lift(r)
            return num(*self.arith(op, pl, pr, kl, kr))
        if op == "Add":
            if isinstance(l, tuple) and isinstance(r, tuple):
                return l + r
            if isinstance(l, SList) and isinstance(r, SList):
                return SList(l.items + r.items)
            if isinstance(l, str) and isinstance(r, str):
                return l + r
        if op == "Mult":
            if isinstance(l, (SList, tuple)) and isinstance(r, int):
                return SList(l.items * r) if isinstance(l, SList) else l * r
            if isinstance(r, (SList, tuple)) and isinstance(l, (int, Num)):
                return self.binop(op, r, l)
            if isinstance(l, (SList, tuple)) and isinstance(r, Num) and r.k == "i":
                items = self.listof(l)
                if len(items) == 1 and self.ctx.decide(ge0(r.p)) is True:
                    out = SList([])
                    out.tail = SymSeq(r.p, lambda i: items[0])
                    return out
        if op == "Mod" and isinstance(l, str):
            return l
        if op == "BitOr":
            if isinstance(l, SDict) and isinstance(r, SDict):
                return SDict({**l.d, **r.d})
            if isinstance(l, (SClass, Opaque, Builtin, type(None))) or isinstance(r, (SClass, Opaque, Builtin)):
                return Opaque("union")
        if isinstance(l, Opaque) or isinstance(r, Opaque):
            return Opaque("expr")
        raise Unsupported(f"{op} of {type(l).__name__} and {type(r).__name__}")

    def arith(self, op, a, b, ka, kb):
        k = "f" if "f" in (ka, kb) else "i"
        if op == "Add":
            return (a + b, k) if not (ka == kb == "b") else (disj(a, b), "b")
        if op == "Sub":
            return a - b, k
        if op == "Mult":
            return a * b, ("b" if ka == kb == "b" else k)
        if op == "Div":
            self.require("denominator is not zero", ONE - eq0(b))
            return div(a, b), "f"
        if op == "Pow":
            c = b.const()
            if c is not None and c.denominator == 1 and abs(c) <= 8:
                return a ** int(c), k if c >= 0 else "f"
            if c == Fraction(1, 2):
                return app("sqrt", a), "f"
            return app("pow", a, b), "f"
        if op == "FloorDiv":
            return self.np.fdiv(a, b), k
        if op == "Mod":
            return self.np.fmod(a, b), k
        if op == "BitAnd" and ka == kb == "b":
            return a * b, "b"
        if op == "BitOr" and ka == kb == "b":
            return disj(a, b), "b"
        if op == "BitXor" and ka == kb == "b":
            return a + b - (a * b).scale(Fraction(2)), "b"
        raise Unsupported("operator " + op)

    # comprehensions
    def e_ListComp(self, e, fr):
        r = self.comp(e.generators, fr, lambda f: self.ev(e.elt, f), e.elt)
        return SList(r) if isinstance(r, list) else r

    def e_GeneratorExp(self, e, fr):
        r = self.comp(e.generators, fr, lambda f: self.ev(e.elt, f), e.elt)
        return SList(r) if isinstance(r, list) else r

    def e_SetComp(self, e, fr):
        return frozenset(self.comp(e.generators, fr, lambda f: self.ev(e.elt, f)))

    def e_DictComp(self, e, fr):
        r = self.comp(e.generators, fr, lambda f: (self.key(self.ev(e.key, f)), self.ev(e.value, f)))
        if not isinstance(r, list):
            raise Unsupported("dict comprehension over symbolic range")
        return SDict(dict(r))

    def comp(self, gens, fr, fn, elt=None):
        f2 = Frame(fr.module, fr, fr.func)
        out = []

        def go(i):
            if i == len(gens):
                out.append(fn(f2))
                return
            g = gens[i]
            it = self.iterate(self.ev(g.iter, f2))
            if isinstance(it, SymSeq):
                raise _SymComp(it)
            for x in it:
                self.assign(g.target, x, f2)
                if all(self.truth(self.ev(c, f2)) for c in g.ifs):
                    go(i + 1)

        try:
            go(0)
        except _SymComp as s:
            if len(gens) != 1 or gens[0].ifs or out:
                raise Unsupported("comprehension over symbolic range")
            if elt is None:
                raise Unsupported("comprehension over symbolic range")
            # a comprehension is the loop that appends its items
            from loops import run_for
            f3 = Frame(fr.module, fr, fr.func)
            f3.loc["$out"] = out = SList([])
            add = ast.Expr(ast.Call(ast.Attribute(ast.Name("$out", ast.Load()), "append", ast.Load()), [elt], []))
            loop = ast.For(gens[0].target, gens[0].iter, [add], [], None)
            for x in (loop, add, add.value, add.value.func, add.value.func.value):
                ast.copy_location(x, elt)
            run_for(self, loop, s.seq, f3)
            return out
        return out

    def mapped(self, f, seq):
        """[f(x) for x in seq]"""
        from loops import run_for
        f3 = Frame(getattr(f, "module", None) or next(iter(self.modules.values())))
        f3.loc.update({"$out": SList([]), "$f": f})
        st = ast.parse("for x_ in (): out_.append(f_(x_))").body[0]
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and x.id in ("out_", "f_"):
                x.id = "$" + x.id[:-1]
        run_for(self, st, seq, f3)
        return f3.loc["$out"]

    # ----- calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and (f.func is None or f.func.cls is None):
                f = f.parent
            if f is None:
                raise Unsupported("super")
            a0 = f.func.node.args.args[0].arg
            return SuperProxy(f.func.cls, f.loc[a0])
        fn = self.ev(e.func, fr)
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                x = self.ev(k.value, fr)
                if isinstance(x, Opaque):
                    continue
                if not isinstance(x, SDict):
                    raise Unsupported("** of non dict")
                for a, b in x.d.items():
                    if a in kw:
                        raise PyRaise(EXC["TypeError"], ("multiple values for keyword",))
                    kw[a] = b
            else:
                if k.arg in kw:
                    raise PyRaise(EXC["TypeError"], ("multiple values for keyword",))
                kw[k.arg] = self.ev(k.value, fr)
        self.node = e
        return self.call(fn, args, kw)

    def call(self, fn, args, kw):
        if isinstance(fn, Builtin):
            return fn.f(self, list(args), dict(kw))
        if isinstance(fn, Bound):
            return self.call(fn.f, [fn.self] + list(args), kw)
        if isinstance(fn, SFunc):
            return self.call_func(fn, args, kw)
        if isinstance(fn, SClass):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, Opaque):
            return Opaque(fn.name + "()")
        if isinstance(fn, (ClsMethod, StaticMethod)):
            return self.call(fn.f, args, kw)
        if isinstance(fn, SObj):
            m = fn.cls.lookup("__call__")
            if m:
                return self.call(Bound(m, fn), args, kw)
        if hasattr(fn, "s_call"):
            return fn.s_call(self, args, kw)
        raise Unsupported(f"call of {type(fn).__name__}")

    def bind(self, fn, args, kw):
        a = fn.node.args
        loc = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        if len(args) > len(names) and not a.vararg:
            raise PyRaise(EXC["TypeError"], (f"{fn.name} takes {len(names)} positional arguments",))
        for n, v in zip(names, args):
            loc[n] = v
        if a.vararg:
            loc[a.vararg.arg] = tuple(args[len(names):])
        for n in names[len(args):]:
            if n in kw:
                loc[n] = kw.pop(n)
        for n in names[:len(args)]:
            if n in kw:
                raise PyRaise(EXC["TypeError"], (f"multiple values for {n}",))
        dn = names[len(names) - len(fn.defaults):]
        for n, d in zip(dn, fn.defaults):
            if n not in loc:
                loc[n] = d
        for x in a.kwonlyargs:
            if x.arg in kw:
                loc[x.arg] = kw.pop(x.arg)
            elif x.arg in fn.kwdefaults:
                loc[x.arg] = fn.kwdefaults[x.arg]
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in loc:
                raise PyRaise(EXC["TypeError"], (f"missing argument {n}",))
        if a.kwarg:
            loc[a.kwarg.arg] = SDict(kw)
        elif kw:
            raise PyRaise(EXC["TypeError"], (f"unexpected keyword {list(kw)}",))
        return loc

    def call_func(self, fn, args, kw):
        if fn.qual in self.stubs:
            return self.stubs[fn.qual](self, list(args), dict(kw))
        if len(self.fn_stack) > 40:
            raise Unsupported("recursion depth")
        fr = Frame(fn.module, fn.frame if fn.frame is not fn.module.frame and not isinstance(fn.node, ast.Lambda) and fn.cls is None else (fn.frame if isinstance(fn.node, ast.Lambda) else None), fn)
        fr.loc.update(self.bind(fn, args, kw))
        self.functions.add(fn.qual)
        self.fn_stack.append(fn)
        node = self.node
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, fr)
            if _is_generator(fn.node):
                raise Unsupported("generator function")
            try:
                self.block(fn.node.body, fr)
            except ReturnS as r:
                return r.v
            return None
        finally:
            self.fn_stack.pop()
            self.node = node

    def instantiate(self, cls, args, kw):
        for e in EXC.values():
            if cls.issub(e):
                return SObj(cls, {"args": tuple(args)})
        o = SObj(cls)
        init = cls.lookup("__init__")
        if init is not None:
            self.call(Bound(init, o), args, kw)
        elif args or kw:
            raise PyRaise(EXC["TypeError"], ("takes no arguments",))
        return o

    # ----- attributes
    def getattr(self, o, n, default=None):
        if isinstance(o, SObj):
            d = o.cls.lookup(n)
            if isinstance(d, PropDesc):
                return self.call(Bound(d.fget, o), [], {})
            if n in o.attrs:
                v = o.attrs[n]
                if isinstance(v, Poison):
                    raise Unsupported(f"attribute {n} unknown: {v.why}")
                return v
            if isinstance(d, ClsMethod):
                return Bound(d.f, o.cls)
            if isinstance(d, StaticMethod):
                return d.f
            if isinstance(d, (SFunc, Builtin)):
                return Bound(d, o)
            if d is not None:
                return d
            if n == "__class__":
                return o.cls
            if n == "__dict__":
                raise Unsupported("__dict__")
            if any(getattr(c, "abstract", False) for c in o.cls.mro()) and n not in ("num_comp", "num_feat"):
                raise Unsupported(f"attribute {n} of an abstract object")
            raise PyRaise(EXC["AttributeError"], (n,))
        if isinstance(o, SClass):
            d = o.lookup(n)
            if isinstance(d, ClsMethod):
                return Bound(d.f, o)
            if isinstance(d, StaticMethod):
                return d.f
            if d is not None:
                return d
            if n == "__name__":
                return o.name
            raise PyRaise(EXC["AttributeError"], (n,))
        if isinstance(o, SuperProxy):
            obj = o.obj
            c = obj.cls if isinstance(obj, SObj) else obj
            d = c.lookup(n, skip=o.cls)
            if isinstance(d, PropDesc):
                return self.call(Bound(d.fget, obj), [], {})
            if isinstance(d, ClsMethod):
                return Bound(d.f, c)
            if d is None:
                if n == "__init__":
                    return Builtin("object.__init__", lambda m, a, k: None)
                raise PyRaise(EXC["AttributeError"], (n,))
            return Bound(d, obj)
        if isinstance(o, Module):
            if n in o.ns:
                if not hasattr(o, "path") and not isinstance(o.ns[n], (Module, float, int)) and o.ns[n] is not None:
                    self.trusted.add(f"{o.name}.{n}")
                return o.ns[n]
            if hasattr(o, "path"):
                try:
                    return self.load(o.name + "." + n)
                except PyRaise:
                    raise PyRaise(EXC["AttributeError"], (n,))
            raise Unsupported(f"{o.name}.{n}")
        if isinstance(o, SArr):
            return self.np.arr_attr(self, o, n)
        if isinstance(o, (Num, int, float)):
            return self.np.num_attr(self, o, n)
        if isinstance(o, (SList, SDict, str, tuple, frozenset)):
            return self.np.cont_attr(self, o, n)
        if isinstance(o, Opaque):
            return Opaque(o.name + "." + n)
        if isinstance(o, (Bound, SFunc)):
            f = o.f if isinstance(o, Bound) else o
            if n == "__name__":
                return f.name
            if n == "__self__":
                return o.self
            if n == "__func__":
                return f
            return Opaque(n)
        if hasattr(o, "s_getattr"):
            return o.s_getattr(self, n)
        if o is None:
            raise PyRaise(EXC["AttributeError"], (f"None.{n}",))
        raise Unsupported(f"attribute {n} of {type(o).__name__}")

    def setattr(self, o, n, v):
        if isinstance(o, SObj):
            d = o.cls.lookup(n)
            if isinstance(d, PropDesc):
                if d.fset is None:
                    raise PyRaise(EXC["AttributeError"], (n,))
                self.call(Bound(d.fset, o), [v], {})
                return
            o.attrs[n] = self.np.jit_cast(self, o, n, v)
        elif isinstance(o, Opaque):
            return
        elif isinstance(o, SClass):
            o.ns[n] = v
        else:
            raise Unsupported(f"setting attribute of {type(o).__name__}")

    # ----- items
    def getitem(self, o, k):
        if isinstance(o, SArr):
            return self.np.arr_getitem(self, o, k)
        if isinstance(o, self.np.MaskedArr):
            return self.np.masked_item(self, o, k)
        if isinstance(o, SList) and o.tail is not None:
            if o.items:
                raise Unsupported("item of a list of symbolic length")
            o = o.tail
        if isinstance(o, (SList, tuple, str)):
            xs = o.items if isinstance(o, SList) else o
            if isinstance(k, SSlice):
                f = lambda x: x if x is None or isinstance(x, int) else self._uns("slice of list")
                r = xs[slice(f(k.lo), f(k.hi), f(k.step))]
                return SList(r) if isinstance(o, SList) else r
            if isinstance(k, Num):
                if len(xs) <= 12:
                    for i in range(len(xs)):
                        if self.branch(eq(k.p, P(i))):
                            return xs[i]
                    for i in range(1, len(xs) + 1):
                        if self.branch(eq(k.p, P(-i))):
                            return xs[-i]
                    raise PyRaise(EXC["IndexError"])
                raise Unsupported("symbolic list index")
            if not isinstance(k, int):
                raise PyRaise(EXC["TypeError"], ("list index",))
            if not -len(xs) <= k < len(xs):
                raise PyRaise(EXC["IndexError"])
            return xs[k]
        if isinstance(o, SDict):
            kk = self.key(k)
            if kk not in o.d:
                raise PyRaise(EXC["KeyError"], (k,))
            return o.d[kk]
        if isinstance(o, SymSeq):
            if isinstance(k, SSlice):
                if k.step not in (None, 1):
                    raise Unsupported("step of a slice")

                def bound(x, default):
                    if x is None:
                        return default
                    p = lift(x)[0]
                    if self.holds(gt0(-p)):
                        p = p + o.n
                        return p if self.holds(ge0(p)) else ZERO
                    return p if self.holds(ge0(o.n - p)) else o.n
                lo, hi = bound(k.lo, ZERO), bound(k.hi, o.n)
                return SymSeq(hi - lo if self.holds(ge0(hi - lo)) else ZERO, lambda i: o.item(lo + P(i)))
            p, _ = lift(k)
            if self.holds(gt0(-p)):
                p = p + o.n
            if not self.infer and not (self.holds(ge0(p)) and self.holds(gt0(o.n - p))):
                raise PyRaise(EXC["IndexError"], ("index out of range",))
            return o.item(p)
        if isinstance(o, (Opaque, SClass, Builtin)):
            return Opaque("item")
        if isinstance(o, Num) and (k is None or k is Ellipsis or isinstance(k, tuple) and all(x is None or x is Ellipsis for x in k)):
            return self.np.arr_getitem(self, new_arr((), lambda ix: o.p, {"i": "i", "b": "b"}.get(o.k, "f")), k)  # numpy scalar
        if hasattr(o, "s_getitem"):
            return o.s_getitem(self, k)
        raise Unsupported(f"indexing of {type(o).__name__}")

    def holds(self, b):
        """truth of a condition, splitting the path if it is open"""
        d = self.ctx.decide(b)
        return self.branch(b) if d is None else d

    def _uns(self, w):
        raise Unsupported(w)

    def setitem(self, o, k, v):
        if isinstance(o, SArr):
            return self.np.arr_setitem(self, o, k, v)
        if isinstance(o, SList):
            if isinstance(k, int):
                if not -len(o.items) <= k < len(o.items):
                    raise PyRaise(EXC["IndexError"])
                o.items[k] = v
                return
        if isinstance(o, SDict):
            o.d[self.key(k)] = v
            return
        if isinstance(o, Opaque):
            return
        raise Unsupported(f"item assignment on {type(o).__name__}")


class _SymComp(Exception):
    def __init__(self, seq):
        self.seq = seq


def _is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False
