"""Contracts (axiomatic models) of numpy, numba, logging, ... used by the symbolic execution.

Everything here is trusted: it states what the library functions compute (as terms), when they
raise, and whether their result shares memory with an argument.
"""
from __future__ import annotations
import re
from fractions import Fraction
from terms import *
import terms
import prove
from interp import (Num, SArr, Store, SObj, SClass, SFunc, Bound, SList, SDict, SymSeq, SRange, SSlice, Opaque, Builtin, Module, PropDesc, PyRaise,
                    Unsupported, EXC, OBJ, IX, IDX, num, lift, isnum, new_arr, Heap, Frame, UNDEF)

KIND = {"i": "i", "i4": "i", "b": "b"}


def fvar(base="$r"):
    n = fresh_name(base)
    VARS[n] = VarInfo(n, True, 0)
    return mk("var", (n, True), True)


def shp(v):
    """shape argument -> tuple of polys"""
    if isinstance(v, (SList, tuple)):
        xs = v.items if isinstance(v, SList) else v
        return tuple(lift(x)[0] for x in xs)
    if isinstance(v, SArr):
        if v.ndim == 0:
            return (v.read(()),)
        c = v.shape[0].const()
        if v.ndim == 1 and c is not None:
            return tuple(v.read((P(i),)) for i in range(int(c)))
        raise Unsupported("shape given by an array")
    return (lift(v)[0],)


def dt(v, default="f"):
    if v is None:
        return default
    n = v if isinstance(v, str) else getattr(v, "name", None)
    if isinstance(v, DType):
        return v.code
    m = {"float": "f", "float64": "f", "double": "f", "float_": "f", "int": "i", "int64": "i", "intp": "i", "int_": "i", "int32": "i4", "float32": "f4", "bool": "b", "bool_": "b",
         "single": "f4", "f8": "f", "i8": "i", "f4": "f4", "i4": "i4", "d": "f"}
    if n in m:
        return m[n]
    raise Unsupported(f"dtype {n}")


class DType:
    def __init__(self, code):
        self.code = code
        self.name = {"f": "float64", "i": "int64", "b": "bool", "i4": "int32", "f4": "float32"}[code]

    def s_getattr(self, m, n):
        if n == "kind":
            return self.code[0] if self.code != "b" else "b"
        if n == "name":
            return self.name
        raise Unsupported("dtype." + n)


def kind_of(code):
    return KIND.get(code, "f")


def code_of(kind):
    return kind


def result_dtype(k, *arrs):
    """dtype of an element-wise result of kind k"""
    if k == "f":
        fs = [a.dtype for a in arrs if isinstance(a, SArr)]
        if fs and all(f == "f4" for f in fs):
            return "f4"
        return "f"
    if k == "i":
        fs = [a.dtype for a in arrs if isinstance(a, SArr)]
        if fs and all(f == "i4" for f in fs):
            return "i4"
    return k


def cast(p, k, code):
    """value p of kind k stored into dtype code"""
    k2 = kind_of(code)
    if code == "f4":
        return app("f32", p) if k == "f" and p.const() is None else p
    if k2 == "i" and k == "f":
        if p.isint:
            return p
        c = p.const()
        if c is not None:
            return P(int(c))
        return app("trunc", p, isint=True)
    if k2 == "b" and k != "b":
        return ONE - eq0(p)
    return p


APP_BUILD["f32"] = lambda p: P(p) if P(p).const() is not None else app("f32", P(p))


def _trunc(p):
    p = P(p)
    if p.isint:
        return p
    c = p.const()
    return P(int(c)) if c is not None else app("trunc", p, isint=True)


APP_BUILD["trunc"] = _trunc


def lay(a):
    """memory layout of a value: C, F or A"""
    if isinstance(a, SArr):
        if a.view_layout:
            return a.view_layout
        if a.whole or a.ndim <= 1 and all(d is not None for d in a.dims):
            return a.store.layout
        return "A"
    return "C"


# ---------------------------------------------------------------------- arrays
def asarray(m, v, dtype=None):
    """array value of v (shares memory if v is an array)"""
    if isinstance(v, SArr):
        return v
    if isnum(v):
        p, k = lift(v)
        return SArr(Store((), p, k, "scalar"))
    if isinstance(v, SList) and v.tail is not None:
        return asarray(m, m.iterate(v))
    if isinstance(v, (SList, tuple)):
        xs = v.items if isinstance(v, SList) else list(v)
        n = len(xs)
        if n == 0:
            return SArr(Store((P(0),), ZERO, "f"))
        items = [asarray(m, x) for x in xs]
        nd = items[0].ndim
        if any(i.ndim != nd for i in items):
            raise PyRaise(EXC["ValueError"], ("inhomogeneous shape",))
        for i in items[1:]:
            for s, t in zip(i.shape, items[0].shape):
                if s is not t and not m.branch(eq(s, t)):
                    raise PyRaise(EXC["ValueError"], ("inhomogeneous shape",))
        ks = {i.kind for i in items}
        k = "f" if "f" in ks else "i" if "i" in ks else "b"
        body = ZERO
        for j, i in enumerate(items):
            body = body + eq(IX[0], P(j)) * i.read(IX[1:1 + nd])
        return SArr(Store((P(n),) + items[0].shape, body, k))
    if isinstance(v, SymSeq):
        t = fvar("$t")
        it = v.item(P(t))
        if isnum(it):
            p, k = lift(it)
            return SArr(Store((v.n,), subst(p, {t: IX[0]}), k))
        it = asarray(m, it)
        if any(t in s.fv for s in it.shape):
            raise PyRaise(EXC["ValueError"], ("inhomogeneous shape",))
        return SArr(Store((v.n,) + it.shape, subst(it.read(IX[1:1 + it.ndim]), {t: IX[0]}), it.dtype))
    if isinstance(v, SRange):
        return asarray(m, m.iterate(v) if isinstance(m.iterate(v), SymSeq) else SList(m.iterate(v)))
    if v is None or isinstance(v, (str, SObj, SDict)):
        raise PyRaise(EXC["TypeError"], ("not a numeric array",))
    raise Unsupported(f"array from {type(v).__name__}")


def copy_arr(a, dtype=None, origin="copy", layout=None):
    code = dtype or a.dtype
    s = Store(a.shape, cast(a.read(IX[:a.ndim]), a.kind, code), code, origin)
    s.layout = layout if layout else (lay(a) if lay(a) in "CF" else "C")
    return SArr(s)


def bshape(m, s1, s2):
    """broadcast two shapes"""
    n = max(len(s1), len(s2))
    a = [ONE] * (n - len(s1)) + list(s1)
    b = [ONE] * (n - len(s2)) + list(s2)
    out = []
    for x, y in zip(a, b):
        if x is y:
            out.append(x)
        elif x.const() == 1:
            out.append(y)
        elif y.const() == 1:
            out.append(x)
        elif m.branch(eq(x, y)):
            out.append(x)
        elif m.branch(eq(x, ONE)):
            out.append(y)
        elif m.branch(eq(y, ONE)):
            out.append(x)
        else:
            raise PyRaise(EXC["ValueError"], ("operands could not be broadcast together",))
    return tuple(out)


def bread(m, a, shape, idx):
    """element of a broadcast to shape"""
    off = len(shape) - a.ndim
    ix = []
    for d in range(a.ndim):
        s = a.shape[d]
        t = shape[off + d]
        if s is t:
            ix.append(idx[off + d])
        elif s.const() == 1 or (t.const() != 1 and m.ctx.decide(eq(s, ONE)) is True):
            ix.append(ZERO)
        else:
            ix.append(idx[off + d])
    return a.read(ix)


def ewise1(m, a, fn):
    r, k = fn(a.read(IX[:a.ndim]), a.kind)
    if a.ndim == 0:
        return num(r, k)
    s = Store(a.shape, r, result_dtype(k, a))
    s.layout = lay(a) if lay(a) in "CF" else "C"
    return SArr(s)


def ewise2(m, l, r, fn):
    la, ra = asarray(m, l), asarray(m, r)
    shape = bshape(m, la.shape, ra.shape)
    ix = IX[:len(shape)]
    v, k = fn(bread(m, la, shape, ix), bread(m, ra, shape, ix), la.kind, ra.kind)
    if not shape:
        return num(v, k)
    arrs = [x for x in (l, r) if isinstance(x, SArr) and x.ndim > 0]
    s = Store(shape, v, result_dtype(k, *arrs))
    s.layout = "F" if arrs and all(lay(x) == "F" for x in arrs) else "C"
    return SArr(s)


def assign_into(m, dst, src, casting=True):
    """dst[...] = src"""
    if not dst.store.writable:
        raise PyRaise(EXC["ValueError"], ("assignment destination is read-only",))
    if any(d is None for d, s in zip(dst.dims, dst.shape) if s.const() != 1):
        raise PyRaise(EXC["ValueError"], ("assignment destination is read-only",))
    src = asarray(m, src)
    nd = src.ndim
    while nd > dst.ndim:
        if src.shape[0].const() != 1:
            raise PyRaise(EXC["ValueError"], ("could not broadcast",))
        src = SArr(src.store, src.dims[1:], src.shape[1:], {**src.fixed, **({src.dims[0][0]: src.dims[0][1]} if src.dims[0] else {})})
        nd = src.ndim
    off = dst.ndim - nd
    for d in range(nd):
        s, t = src.shape[d], dst.shape[off + d]
        if s is t or s.const() == 1:
            continue
        if m.branch(eq(s, t)):
            continue
        if not m.branch(eq(s, ONE)):
            raise PyRaise(EXC["ValueError"], ("could not broadcast input array",))
    # freeze the source (it may alias the destination)
    val = bread(m, src, dst.shape, IX[:dst.ndim])
    code = dst.dtype
    val = cast(val, src.kind, code)

    def fn(vidx):
        return subst(val, {IDX(i): v for i, v in enumerate(vidx)})

    dst.write(fn)
    m.np_written(dst.store)


def normidx(m, i, n):
    """python index -> non-negative index (with an in-bounds obligation)"""
    i = P(i)
    c = i.const()
    if c is not None:
        if c < 0:
            i = n + i
    else:
        d = m.ctx.decide(ge0(i))
        if d is None:
            if not m.branch(ge0(i)):
                i = i + n
        elif d is False:
            i = i + n
    m.require("index is within bounds", ge0(i) * gt0(n - i))
    return i


def slice_dim(m, s, n):
    """(start, step, length)"""
    step = 1 if s.step is None else s.step
    if not isinstance(step, int):
        raise Unsupported("symbolic slice step")
    if step == -1 and s.lo is None and s.hi is None:
        return n - 1, -1, n
    if step > 1 and s.lo is None and s.hi is None:
        return ZERO, step, fdiv(n + (step - 1), P(step))
    if step != 1:
        raise Unsupported("slice step")

    def bound(x, default):
        if x is None:
            return default
        p = lift(x)[0]
        c = p.const()
        if (c is not None and c < 0) or (c is None and m.ctx.decide(ge0(p)) is False):
            p = p + n
            if m.ctx.decide(ge0(p)) is not True and not m.branch(ge0(p)):
                return ZERO
            return p
        if c is None and m.ctx.decide(ge0(p)) is None:
            if not m.branch(ge0(p)):
                p = p + n
                return p if m.branch(ge0(p)) else ZERO
        if p is n or m.ctx.decide(le(p, n)) is True:
            return p
        return p if m.branch(le(p, n)) else n

    lo, hi = bound(s.lo, ZERO), bound(s.hi, n)
    ln = hi - lo
    if m.ctx.decide(ge0(ln)) is not True and not m.branch(ge0(ln)):
        ln = ZERO
    return lo, 1, ln


def expand_key(m, a, k):
    ks = list(k) if isinstance(k, tuple) else [k]
    used = sum(1 for x in ks if x is not None and x is not Ellipsis)
    out = []
    if not any(x is Ellipsis for x in ks):
        ks.append(Ellipsis)
    for x in ks:
        if x is Ellipsis:
            out += [SSlice(None, None, None)] * (a.ndim - used)
        else:
            out.append(x)
    if used > a.ndim:
        raise PyRaise(EXC["IndexError"], ("too many indices",))
    return out


def is_mask(x):
    return isinstance(x, SArr) and x.kind == "b"


def is_fancy(x):
    return isinstance(x, SArr) and x.ndim > 0 or isinstance(x, SList)


def basic(m, a, ks):
    """basic indexing -> view"""
    dims, shape, fixed = [], [], dict(a.fixed)
    d = 0
    for x in ks:
        if x is None:
            dims.append(None)
            shape.append(ONE)
            continue
        cur, n = a.dims[d], a.shape[d]
        d += 1
        if isinstance(x, SSlice):
            st, step, ln = slice_dim(m, x, n)
            if cur is None:
                dims.append(None)
            else:
                sd, st0, step0 = cur
                dims.append((sd, st0 + st.scale(Fraction(step0)), step0 * step))
            shape.append(ln)
        elif isnum(x) or isinstance(x, SArr):
            p, kk = lift(x)
            if kk != "i":
                raise PyRaise(EXC["IndexError"], ("arrays used as indices must be of integer type",))
            i = normidx(m, p, n)
            if cur is not None:
                sd, st0, step0 = cur
                fixed[sd] = st0 + i.scale(Fraction(step0))
        else:
            raise Unsupported(f"index of type {type(x).__name__}")
    r = SArr(a.store, dims, shape, fixed)
    if lay(a) == "C" and r.ndim == a.ndim - (len(r.fixed) - len(a.fixed)) and all(x is not None for x in dims):
        # leading integer indices keep C contiguity
        lead = all(not isinstance(x, SSlice) or (x.lo is None and x.hi is None and x.step is None) for x in ks)
        ints = [not isinstance(x, SSlice) for x in ks]
        if lead and ints == sorted(ints, reverse=True):
            r.view_layout = "C"
    return r


def arr_getitem(m, a, k):
    if isinstance(k, IxTuple):
        if len(k) > a.ndim:
            raise PyRaise(EXC["IndexError"], ("too many indices",))
        for d, x in enumerate(k):
            a = arr_getitem(m, a, tuple([FULL] * d + [x]))
        return a
    ks = expand_key(m, a, k)
    if any(is_mask(x) and x.ndim > 0 for x in ks):
        return masked_get(m, a, ks)
    if any(is_fancy(x) for x in ks):
        return fancy_get(m, a, ks)
    r = basic(m, a, ks)
    if r.ndim == 0:
        return num(r.read(()), r.kind)
    return r


def fancy_get(m, a, ks):
    ix = [asarray(m, x) if is_fancy(x) else x for x in ks]
    fs = [x for x in ix if isinstance(x, SArr)]
    if any(f.ndim != 1 for f in fs):
        raise Unsupported("fancy index of higher rank")
    shape = fs[0].shape
    for f in fs[1:]:
        shape = bshape(m, shape, f.shape)
    if any(x is None for x in ix):
        raise Unsupported("newaxis with fancy index")
    pos = [i for i, x in enumerate(ix) if isinstance(x, SArr)]
    if any(not isinstance(x, (SArr, SSlice)) for x in ix) or pos != list(range(pos[0], pos[0] + len(pos))):
        raise Unsupported("mixed fancy index")
    tri = getattr(fs[0], "tri", None)
    out_shape, idx = [], []
    o = 0
    for d, x in enumerate(ix):
        if isinstance(x, SArr):
            if d == pos[0]:
                out_shape.append(shape[0])
                o += 1
            v = bread(m, x, shape, [IX[pos[0]]])
            ln = a.shape[d]
            if x.store.origin != "trusted-index":
                if m.ctx.decide(ge0(v)) is not True:
                    m.require("index is within bounds", ge0(v) * gt0(ln - v) if not any(q in v.fv for q in [IDX(pos[0])]) else ONE)
            idx.append(v)
        else:
            st, step, ln = slice_dim(m, x, a.shape[d])
            idx.append(st + IX[o].scale(Fraction(step)))
            out_shape.append(ln)
            o += 1
    return SArr(Store(out_shape, a.read(idx), a.dtype))


def arr_setitem(m, a, k, v):
    ks = expand_key(m, a, k)
    if any(is_mask(x) and x.ndim > 0 for x in ks):
        return masked_set(m, a, ks, v)
    if any(is_fancy(x) for x in ks):
        return fancy_set(m, a, ks, v)
    dst = basic(m, a, ks)
    if isinstance(v, (SList, tuple)):
        v = asarray(m, v)
    if not isnum(v) and not isinstance(v, SArr):
        raise Unsupported(f"array element of type {type(v).__name__}")
    assign_into(m, dst, v)


def masked_set(m, a, ks, v):
    if len(ks) and is_mask(ks[0]) and ks[0].ndim == a.ndim and isnum(v) and all(isinstance(x, SSlice) for x in ks[1:]):
        mk_ = ks[0]
        for s, t in zip(mk_.shape, a.shape):
            if s is not t and not m.branch(eq(s, t)):
                raise PyRaise(EXC["IndexError"], ("boolean index did not match",))
        p, k = lift(v)
        old = a.read(IX[:a.ndim])
        new = ite(mk_.read(IX[:a.ndim]), cast(p, k, a.dtype), old)
        a.write(lambda vi: subst(new, {IDX(i): x for i, x in enumerate(vi)}))
        m.np_written(a.store)
        return
    raise Unsupported("assignment through a boolean mask")


def fancy_set(m, a, ks, v):
    ix = [asarray(m, x) if is_fancy(x) else x for x in ks]
    fs = [x for x in ix if isinstance(x, SArr)]
    if not any(getattr(f, "tri", None) for f in fs):
        return affine_set(m, a, ix, asarray(m, v))
    if len(fs) != a.ndim or a.ndim != 2 or any(f.ndim != 1 for f in fs):
        raise Unsupported("fancy assignment")
    src = asarray(m, v)
    t0, t1 = getattr(fs[0], "tri", None), getattr(fs[1], "tri", None)
    x, y = IX[0], IX[1]
    if t0 and t1 and t0[:2] == t1[:2] and {t0[2], t1[2]} == {"r", "c"}:
        n, kk, _ = t0
        r, c = (x, y) if t0[2] == "r" else (y, x)
        cond = ge0(c - r - kk)
        if a.shape[0] is not n or a.shape[1] is not n:
            m.require("index is within bounds", ge0(a.shape[0] - n) * ge0(a.shape[1] - n))
            cond = cond * gt0(n - r) * gt0(n - c)
        pos = app("tripos", n, kk, r, c, isint=True)
        cnt = fs[0].shape[0]
    else:
        raise Unsupported("fancy assignment")
    if src.ndim == 0:
        val = src.read(())
    elif src.ndim == 1:
        if src.shape[0] is not cnt and src.shape[0].const() != 1:
            if not m.branch(eq(src.shape[0], cnt)):
                raise PyRaise(EXC["ValueError"], ("shape mismatch",))
        val = src.read((ZERO if src.shape[0].const() == 1 else pos,))
    else:
        raise Unsupported("fancy assignment")
    old = a.read((x, y))
    new = ite(cond, cast(val, src.kind, a.dtype), old)
    a.write(lambda vi: subst(new, {IDX(i): q for i, q in enumerate(vi)}))
    m.np_written(a.store)


def affine_set(m, a, ix, src):
    """a[..., f, g, ...] = src for index arrays of the form +-i + c (every position is hit at most once)"""
    pos = [d for d, x in enumerate(ix) if isinstance(x, SArr)]
    if any(not isinstance(x, (SArr, SSlice)) for x in ix) or pos != list(range(pos[0], pos[0] + len(pos))):
        raise Unsupported("fancy assignment")
    if any(ix[d].ndim != 1 or ix[d].kind != "i" for d in pos):
        raise Unsupported("fancy assignment")
    cnt = ix[pos[0]].shape[0]
    for d in pos[1:]:
        if ix[d].shape[0] is not cnt and not m.branch(eq(ix[d].shape[0], cnt)):
            raise PyRaise(EXC["IndexError"], ("shape mismatch",))
    i0, at, cond = fvar(), None, ONE
    for d in pos:
        body = ix[d].read((P(i0),))
        c = lin_coeff(body, i0)
        if c not in (1, -1) or not body.isint:
            raise Unsupported("fancy assignment")
        lo = subst(body, {i0: ZERO if c == 1 else cnt - 1})
        hi = subst(body, {i0: ZERO if c == -1 else cnt - 1})
        if m.ctx.decide(disj(ge0(lo) * gt0(a.shape[d] - hi), nt(gt0(cnt)))) is not True:
            raise Unsupported("fancy assignment")
        p = solve_int(body - IX[d], i0)
        if at is None:
            at = p
            if not (c == 1 and not lo.m and cnt is a.shape[d]):
                cond = cond * ge0(at) * gt0(cnt - at)
        else:
            cond = cond * eq(p, at)
    shape, idx = [], []
    for d, x in enumerate(ix):
        if isinstance(x, SArr):
            if d == pos[0]:
                shape.append(cnt)
                idx.append(at)
            continue
        st, step, ln = slice_dim(m, x, a.shape[d])
        if step != 1 or st.m or ln is not a.shape[d]:
            raise Unsupported("fancy assignment into a slice")
        shape.append(ln)
        idx.append(IX[d])
    if src.ndim > len(shape):
        raise PyRaise(EXC["ValueError"], ("shape mismatch",))
    bs = bshape(m, tuple(shape), src.shape)
    for s, t in zip(bs, shape):
        if s is not t and not m.branch(eq(s, t)):
            raise PyRaise(EXC["ValueError"], ("shape mismatch",))
    new = ite(cond, cast(bread(m, src, shape, idx), src.kind, a.dtype), a.read(IX[:a.ndim]))
    a.write(lambda vi: subst(new, {IDX(i): q for i, q in enumerate(vi)}))
    m.np_written(a.store)


class MaskedArr:
    """elements of an array selected by a boolean mask along the first axis (order unknown)"""

    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask  # mask: SArr 1d bool

    def s_getattr(self, m, n):
        if n == "sum":
            return Builtin("sum", lambda m, a, k: masked_reduce(m, self, k.get("axis", a[0] if a else None)))
        if n == "shape":
            v = fvar()
            c = num(sum_over(v, self.mask.shape[0], self.mask.read((P(v),))), "i")
            return (c,) + tuple(num(s, "i") for s in self.arr.shape[1:])
        if n == "ndim":
            return self.arr.ndim
        raise Unsupported("masked array." + n)


def same_mask(x, y):
    return x.mask.read((IX[0],)) is y.mask.read((IX[0],)) and x.mask.shape[0] is y.mask.shape[0]


def masked_binop(m, op, l, r):
    """elementwise operation on the selected rows"""
    if op not in ("Add", "Sub", "Mult", "Div") or (op == "Div" and not isnum(r)):
        raise Unsupported("operation on a masked array")
    x = l if isinstance(l, MaskedArr) else r
    if isinstance(l, MaskedArr) and isinstance(r, MaskedArr):
        if not same_mask(l, r) or l.arr.ndim != r.arr.ndim:
            raise Unsupported("different masks")
    elif not isnum(l) and not isnum(r):
        raise Unsupported("operation on a masked array")
    u = lambda z: z.arr if isinstance(z, MaskedArr) else z
    return MaskedArr(m.binop(op, u(l), u(r)), x.mask)


def masked_matmul(m, l, r):
    """Σ over the selected rows"""
    if isinstance(l, MaskedArr) and isinstance(r, MaskedArr) and l.arr.ndim == 1 and same_mask(l, r):
        return masked_reduce(m, r, 0, l)
    raise Unsupported("product of masked arrays")


def masked_item(m, x, k):
    ks = expand_key(m, x.arr, k)
    f = ks[0]
    if isinstance(f, SSlice) and f.lo is None and f.hi is None and f.step is None:
        return MaskedArr(arr_getitem(m, x.arr, tuple(ks)), x.mask)
    raise Unsupported("element of a masked array")


def masked_reduce(m, x, axis, weight=None):
    a, mask = x.arr, x.mask
    v = fvar()
    w = mask.read((P(v),))
    if weight is not None:
        w = w * weight.arr.read((P(v),))
    if a.ndim == 1:
        if axis not in (None, 0, -1):
            raise Unsupported("axis")
        return num(sum_over(v, a.shape[0], w * a.read((P(v),))), a.kind)
    if a.ndim == 2 and axis == 0:
        return SArr(Store(a.shape[1:], sum_over(v, a.shape[0], w * a.read((P(v), IX[0]))), a.dtype))
    raise Unsupported("reduction of a masked array")


def masked_get(m, a, ks):
    if is_mask(ks[0]) and ks[0].ndim == 1 and all(isinstance(x, SSlice) and x.lo is None and x.hi is None and x.step is None for x in ks[1:]):
        mk_ = ks[0]
        if mk_.shape[0] is not a.shape[0] and not m.branch(eq(mk_.shape[0], a.shape[0])):
            raise PyRaise(EXC["IndexError"], ("boolean index did not match",))
        return MaskedArr(a, mk_)
    raise Unsupported("boolean mask index")


# ------------------------------------------------------------------- operators
def matmul(m, l, r):
    if isinstance(l, MaskedArr) or isinstance(r, MaskedArr):
        return masked_matmul(m, l, r)
    l, r = asarray(m, l), asarray(m, r)
    if l.ndim == 0 or r.ndim == 0:
        raise PyRaise(EXC["ValueError"], ("matmul of scalars",))
    n1 = l.shape[-1]
    n2 = r.shape[0] if r.ndim == 1 else r.shape[-2]
    if n1 is not n2 and not m.branch(eq(n1, n2)):
        raise PyRaise(EXC["ValueError"], ("matmul: mismatch in core dimension",))
    v = fvar()
    pv = P(v)
    k = "f" if "f" in (l.kind, r.kind) else "i"
    if r.ndim == 1:
        if l.ndim == 1:
            return num(sum_over(v, n1, l.read((pv,)) * r.read((pv,))), k)
        sh = l.shape[:-1]
        ix = IX[:len(sh)]
        return SArr(Store(sh, sum_over(v, n1, l.read(tuple(ix) + (pv,)) * r.read((pv,))), k))
    if r.ndim != 2:
        if l.ndim == r.ndim and l.ndim > 2:
            bs = bshape(m, l.shape[:-2], r.shape[:-2])
            sh = bs + (l.shape[-2], r.shape[-1])
            ix = IX[:len(sh)]
            body = l.read(tuple(ix[:-1]) + (pv,)) * r.read(tuple(ix[:-2]) + (pv, ix[-1]))
            return SArr(Store(sh, sum_over(v, n1, body), k))
        raise Unsupported("matmul of higher rank")
    sh = l.shape[:-1] + (r.shape[1],)
    ix = IX[:len(sh)]
    body = sum_over(v, n1, l.read(tuple(ix[:-1]) + (pv,)) * r.read((pv, ix[-1])))
    return SArr(Store(sh, body, k))


def fdiv(a, b):
    a, b = P(a), P(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb:
        return P((ca / cb).numerator // (ca / cb).denominator)
    if cb == 1 and a.isint:
        return a
    if cb is not None and cb > 1 and cb.denominator == 1 and a.isint:
        # (b q + r) // b = q + r // b for integers q
        q = Poly.of({mono: c / cb for mono, c in a.m.items() if c.denominator == 1 and c % cb == 0})
        if q.m and q.isint:
            return q + fdiv(a - q.scale(cb), b)
    return app("floordiv", a, b, isint=True)


def fmod(a, b):
    a, b = P(a), P(b)
    return a - b * fdiv(a, b)


APP_BUILD["floordiv"] = fdiv


def _ceil(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return P(-((-c.numerator) // c.denominator))
    return p if p.isint else app("ceil", p, isint=True)


def _floor(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return P(c.numerator // c.denominator)
    return p if p.isint else app("floor", p, isint=True)


APP_BUILD["ceil"] = _ceil
APP_BUILD["floor"] = _floor


def axioms(atoms):
    """defining facts of rounding functions, owners and prefix sums for the atoms of a query"""
    out = []
    seen = set()
    sums = {}
    perms = {}
    for a in atoms:
        if a in seen:
            continue
        seen.add(a)
        if a.kind == "sum" and len(a.args[0]) == 1 and known_nonneg(a.args[1]):
            (bv, hi), = a.args[0]
            sums.setdefault((bv, a.args[1]), {})[a] = hi
            for u in dict.fromkeys(all_atoms(a.args[1])):
                if u.kind == "app" and u.args[0] == "uniq" and bv not in P(u).fv:
                    # a distinct value occurs at some place: a sum of non-negative terms is at least the term there
                    k, i = u.args[1:]
                    n, body = UNIQ[int(k.const())]
                    r = app("uniqpos", k, i, isint=True)
                    bad = ONE - ge0(i) * gt0(app("nuniq", k, isint=True) - i)
                    out += [disj(bad, c) for c in (ge0(r), gt0(n - r), eq0(subst(body, {IDX(0): r}) - P(u)), ge0(P(a) - subst(a.args[1], {bv: r})))]
        if a.kind == "rd" and (".beta." in a.args[0] or ".uniform." in a.args[0]):
            out.append(ge0(ONE - P(a)))
        if a.kind != "app":
            continue
        f, p = a.args[0], P(a)
        if f == "prod":
            lo, up = in_unit(a.args[1])
            out += [ge0(p)] * lo + [ge0(ONE - p)] * (lo and up)
        elif f == "floordiv":
            x, b = a.args[1], a.args[2]
            out += [disj(ONE - gt0(b), ge0(x - p * b)), disj(ONE - gt0(b), gt0(p * b + b - x))]
        elif f == "ceil":
            x = a.args[1]
            out += [ge0(p - x), gt0(x + 1 - p)]
        elif f == "floor":
            x = a.args[1]
            out += [ge0(x - p), gt0(p + 1 - x)]
        elif f == "trunc":
            x = a.args[1]
            out += [disj(ONE - ge0(x), ge0(x - p) * gt0(p + 1 - x)), disj(ge0(x), ge0(p - x) * gt0(x + 1 - p))]
        elif f == "owner":
            n, rep, i = a.args[1:4]
            tot = prefix(n, rep)
            inside = ge0(i) * gt0(tot - i)
            off = prefix(p, rep)
            r = subst(rep, {the_var(LO): p})
            out += [disj(ONE - inside, c) for c in (ge0(p), gt0(n - p), ge0(i - off), gt0(off + r - i))]
        elif f == "sqrt":
            out += [ge0(p), disj(ONE - ge0(a.args[1]), eq0(p * p - a.args[1]))]
        elif f in ("argmax", "argmin"):
            out += [disj(ONE - gt0(a.args[1]), c) for c in (ge0(p), gt0(a.args[1] - p))]
        elif f == "argsort":
            i = a.args[3]
            inside = ge0(i) * gt0(a.args[1] - i)
            out += [disj(ONE - inside, c) for c in (ge0(p), gt0(a.args[1] - p))]
        elif f == "perm":
            i = a.args[3]
            inside = ge0(i) * gt0(a.args[2] - i)
            out += [disj(ONE - inside, c) for c in (ge0(p), gt0(a.args[2] - p))]
            perms.setdefault(a.args[1], []).append(a)
    for k, ps in perms.items():
        if len(ps) > 4:
            continue
        for a in ps:
            for b in ps:
                if a is not b:
                    i, j, n = a.args[3], b.args[3], a.args[2]
                    bad = ONE - ge0(i) * gt0(j - i) * gt0(n - j)
                    k_ = int(k.const())
                    out.append(disj(bad, ge0(perm_key(k_, P(b)) - perm_key(k_, P(a)))))
                    out.append(disj(bad, ONE - eq0(P(a) - P(b))))
    for (bv, body), d in sums.items():
        it = list(d.items())
        if len(it) > 6:
            continue
        for i, (s1, h1) in enumerate(it):
            for s2, h2 in it[i + 1:]:
                for (sa, ha), (sb, hb) in (((s1, h1), (s2, h2)), ((s2, h2), (s1, h1))):
                    # ha <= hb  =>  S(ha) <= S(hb);  0 <= ha < hb  =>  S(ha) + body(ha) <= S(hb)
                    out.append(disj(gt0(ha - hb), ge0(P(sb) - P(sa))))
                    out.append(disj(ONE - gt0(hb - ha) * ge0(ha), ge0(P(sb) - P(sa) - subst(body, {bv: ha}))))
    return out


def witness_axioms(m, atoms):
    """a sum of non-negative terms is at least each term, a maximum at least each element: instances at the
    witness index tuples named by the contract"""
    import itertools
    out = []
    if not m.witness:
        return out
    for a in dict.fromkeys(atoms):
        if a.kind != "app" or a.args[0] not in ("argsort", "argmax", "argmin"):
            continue
        n, body = a.args[1], a.args[2]
        top = {"argmax": 1, "argmin": -1}.get(a.args[0]) or (1 if a.args[3] is n - 1 else -1 if a.args[3] is ZERO else 0)
        if not top:
            continue
        for w in m.witness:
            if len(w) == 1:
                x = P(w[0])
                d = subst(body, {the_var(L0): P(a)}) - subst(body, {the_var(L0): x})
                out.append(disj(ONE - ge0(x) * gt0(n - x), ge0(d.scale(top))))
    for a in dict.fromkeys(atoms):
        if a.kind not in ("sum", "maxb") or (a.kind == "sum" and not known_nonneg(a.args[1])):
            continue
        bs, body = a.args
        for w in m.witness:
            if len(w) < len(bs):
                continue
            for perm in itertools.permutations(w, len(bs)):
                s = {}
                cond = ONE
                for (b, hi), x in zip(bs, perm):
                    cond = cond * ge0(x) * gt0(subst(hi, s) - x)
                    s[b] = P(x)
                try:
                    out.append(disj(ONE - cond, ge0(P(a) - subst(body, s))))
                except TooBig:
                    pass
    # a count is at most the number of indices minus those where the condition fails
    for a in dict.fromkeys(atoms):
        if a.kind != "sum":
            continue
        bs, body = a.args
        x = body.single()
        if not (x and x[0] == 1 and x[1] and all(b.kind in ("gt", "eq", "bv") and e == 1 for b, e in x[1])) or any(b2 in hi.fv for _, hi in bs for b2, _ in bs):
            continue
        for w in m.witness:
            for perm in itertools.permutations(w, len(bs)) if len(w) >= len(bs) else ():
                s, cond, tot = {}, ONE, ONE
                for (v, hi), y in zip(bs, perm):
                    cond = cond * ge0(y) * gt0(hi - y)
                    tot = tot * hi
                    s[v] = P(y)
                out.append(disj(ONE - cond, ge0(tot - P(a) - (ONE - subst(body, s)))))
    # number of indices where q < 0: total minus those with q > 0 and with q == 0
    gts, eqs = {}, {}
    for a in dict.fromkeys(atoms):
        if a.kind == "sum":
            x = a.args[1].single()
            if x and x[0] == 1 and len(x[1]) == 1 and x[1][0][0].kind in ("gt", "eq"):
                (gts if x[1][0][0].kind == "gt" else eqs)[(a.args[0], x[1][0][0].args[0])] = a
    for key, a in gts.items():
        b = eqs.get(key)
        if b is None:
            continue
        bs, q = key
        for w in m.witness:
            for perm in itertools.permutations(w, len(bs)) if len(w) >= len(bs) else ():
                s = {}
                cond, tot = ONE, ONE
                for (v, hi), x in zip(bs, perm):
                    if any(b2 in hi.fv for b2, _ in bs):
                        tot = None
                        break
                    cond = cond * ge0(x) * gt0(hi - x)
                    tot = tot * hi
                    s[v] = P(x)
                if tot is not None:
                    out.append(disj(ONE - cond, ge0(tot - P(a) - P(b) - gt0(-subst(q, s)))))
    return out


def prefix(h, rep):
    """sum of rep over indices below h"""
    v = fvar("$p")
    return sum_over(v, h, subst(rep, {the_var(L0): P(v), the_var(LO): P(v)}))


def full_reduce(m, a, axis, keep, fn, k=None):
    """fn(list of (var, hi), body) -> poly"""
    if isinstance(axis, Num):
        raise Unsupported("symbolic axis")
    if axis is None:
        axes = list(range(a.ndim))
    else:
        axes = [x for x in (axis if isinstance(axis, tuple) else (axis,))]
        for x in axes:
            if not -a.ndim <= x < a.ndim:
                raise PyRaise(EXC["ValueError"], ("axis out of bounds",))
        axes = [x % a.ndim for x in axes]
    vs = {d: fvar() for d in axes}
    idx, shape = [], []
    o = 0
    for d in range(a.ndim):
        if d in vs:
            idx.append(P(vs[d]))
            if keep:
                shape.append(ONE)
                o += 1
        else:
            idx.append(IX[o])
            shape.append(a.shape[d])
            o += 1
    body = a.read(idx)
    r = fn([(vs[d], a.shape[d]) for d in axes], body)
    k = k or a.kind
    if not shape:
        return num(r, k)
    return SArr(Store(shape, r, k))


def r_sum(vs, body):
    for v, hi in reversed(vs):
        body = sum_over(v, hi, body)
    return body


def r_max(vs, body):
    for v, hi in reversed(vs):
        body = maxb_over(v, hi, body)
    return body


def need_nonempty(m, a, axis):
    for s in a.shape if axis is None else [a.shape[axis]]:
        c = s.const()
        if c is not None:
            if c == 0:
                raise PyRaise(EXC["ValueError"], ("zero-size array to reduction",))
            continue
        if not m.branch(gt0(s)):
            raise PyRaise(EXC["ValueError"], ("zero-size array to reduction",))


def np_sum(m, a, axis=None, keepdims=False, dtype=None):
    if isinstance(a, MaskedArr):
        return masked_reduce(m, a, axis)
    a = asarray(m, a)
    return full_reduce(m, a, axis, keepdims, r_sum, "i" if a.kind == "b" else a.kind)


def np_mean(m, a, axis=None, keepdims=False):
    a = asarray(m, a)
    need_nonempty(m, a, axis)
    n = ONE
    for s in a.shape if axis is None else [a.shape[axis]]:
        n = n * s
    return full_reduce(m, a, axis, keepdims, lambda vs, b: r_sum(vs, b) * inv(n), "f")


def np_max(m, a, axis=None, keepdims=False):
    a = asarray(m, a)
    need_nonempty(m, a, axis)
    return full_reduce(m, a, axis, keepdims, r_max)


def np_min(m, a, axis=None, keepdims=False):
    a = asarray(m, a)
    need_nonempty(m, a, axis)
    return full_reduce(m, a, axis, keepdims, lambda vs, b: -r_max(vs, -b))


def np_any(m, a, axis=None, keepdims=False):
    a = asarray(m, a)
    return full_reduce(m, a, axis, keepdims, lambda vs, b: gt0(r_sum(vs, b if a.kind == "b" else ONE - eq0(b))), "b")


def np_all(m, a, axis=None, keepdims=False):
    a = asarray(m, a)
    return full_reduce(m, a, axis, keepdims, lambda vs, b: eq0(r_sum(vs, ONE - b if a.kind == "b" else eq0(b))), "b")


L0 = P(mk("var", ("$L0", True), True))
L1 = P(mk("var", ("$L1", True), True))
LO = P(mk("var", ("$LO", True), True))  # bound by owner(...)
VARS["$LO"] = VarInfo("$LO", True, 0)
VARS["$L0"] = VarInfo("$L0", True, 0)
VARS["$L1"] = VarInfo("$L1", True, 0)


def np_argmax(m, a, axis=None, name="argmax"):
    a = asarray(m, a)
    if a.ndim == 1 or axis in (-1, a.ndim - 1):
        need_nonempty(m, a, -1)
        if a.ndim == 1:
            return num(app(name, a.shape[0], a.read((L0,)), isint=True), "i")
        ix = tuple(IX[:a.ndim - 1])
        return SArr(Store(a.shape[:-1], app(name, a.shape[-1], a.read(ix + (L0,)), isint=True), "i"))
    raise Unsupported("argmax")


def np_argsort(m, a, axis=-1):
    a = asarray(m, a)
    if axis not in (-1, a.ndim - 1):
        raise Unsupported("argsort axis")
    if a.ndim == 1:
        return perm_array(m, a.shape[0], ONE, a.read((IX[1],)))
    ix = tuple(IX[:a.ndim - 1])
    s = Store(a.shape, app("argsort", a.shape[-1], a.read(ix + (L0,)), IX[a.ndim - 1], isint=True), "i")
    return SArr(s)


# permutations that sort and distinct values: opaque functions; what they are about is kept aside
PERMS, UNIQ, KEYED = {}, {}, {}


def _closed(m, *ps):
    """no dependence on the iteration of a loop"""
    for p in ps:
        for a in P(p).fv:
            if any(a is the_var(P(v)) for v, _ in m.loop_vars):
                raise Unsupported("sorting inside a loop")


def perm_array(m, n, nkeys, keys):
    """index array of a sort; keys: poly with IX[0] the number of the key and IX[1] the element; the last is the primary key"""
    _closed(m, n, nkeys, keys)
    k = KEYED.setdefault(("perm", n, nkeys, keys), len(KEYED))
    PERMS[k] = (n, nkeys, keys)
    m.trusted.add("sorting: the index array is a permutation that puts the primary key in ascending order")
    return SArr(Store((n,), app("perm", P(k), n, IX[0], isint=True), "i", "trusted-index"))


def perm_key(k, p):
    """primary key of element p"""
    n, nk, keys = PERMS[k]
    return subst(keys, {IDX(0): nk - 1, IDX(1): P(p)})


def np_lexsort(m, keys):
    keys = asarray(m, keys)
    if keys.ndim == 1:
        return perm_array(m, keys.shape[0], ONE, keys.read((IX[1],)))
    if keys.ndim != 2:
        raise Unsupported("lexsort")
    return perm_array(m, keys.shape[1], keys.shape[0], keys.read((IX[0], IX[1])))


def _perm_rule(v, hi, inn):
    """sum over i of f(perm(i)) = sum of f"""
    for a, e in inn:
        for x in all_atoms(P(a)):
            if x.kind == "app" and x.args[0] == "perm" and x.args[3] is P(v) and x.args[2] is hi:
                u = fvar()
                body = ONE
                for b, eb in inn:
                    body = body * Poly.of({((b, eb),): Fraction(1)})
                body = map_atoms(body, lambda y: P(u) if y is x else None)
                if v not in body.fv:
                    return sum_over(u, hi, body)
                return None
    return None


def _uniq_rule(binders, mono):
    """sum over the distinct values u of x of [x(t) = u] f(u) = f(x(t))"""
    hi = dict(binders)
    for a, e in mono:
        if a.kind != "eq":
            continue
        q = a.args[0]
        for x in q.fv & set(hi) if isinstance(q.fv, (set, frozenset)) else set(q.fv) & set(hi):
            for y in all_atoms(q):
                if y.kind != "app" or y.args[0] != "uniq" or y.args[2] is not P(x):
                    continue
                n, body = UNIQ[int(y.args[1].const())]
                if hi[x] is not app("nuniq", y.args[1], isint=True):
                    continue
                c = q.m.get(((y, 1),))
                if c not in (1, -1):
                    continue
                val = (P(y).scale(c) - q).scale(c)
                if x in val.fv:
                    continue
                for t, ht in binders:
                    if t is not x and ht is n and subst(body, {IDX(0): P(t)}) is val:
                        rest = ONE
                        for b, eb in mono:
                            if b is not a:
                                rest = rest * Poly.of({((b, eb),): Fraction(1)})
                        rest = map_atoms(rest, lambda z: val if z is y else None)
                        if x in rest.fv or any(x in h.fv for _, h in binders):
                            continue
                        r = rest
                        left = [z for z in binders if z[0] is not x]
                        while left:
                            for z in left:
                                if not any(z[0] in h.fv for _, h in left):
                                    break
                            else:
                                raise TooBig("cyclic bounds")
                            left.remove(z)
                            r = sum_over(z[0], z[1], r)
                        return r
    return None


terms.SUM_RULES.append(_perm_rule)
terms.CLOSE_RULES.append(_uniq_rule)


def np_einsum(m, args):
    spec = args[0].replace(" ", "")
    ops = [asarray(m, x) for x in args[1:]]
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ls = spec.replace("...", "").replace(",", "")
        ins, out = spec, ("..." if "..." in spec else "") + "".join(sorted(c for c in set(ls) if ls.count(c) == 1))
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise PyRaise(EXC["ValueError"], ("einsum",))
    ell = ()
    dims = {}
    for s, o in zip(ins, ops):
        letters = s.replace("...", "")
        if "..." in s:
            k = o.ndim - len(letters)
            if k < 0:
                raise PyRaise(EXC["ValueError"], ("einsum",))
            pre = s.index("...")
            ell = bshape(m, ell, o.shape[pre:pre + k])
        elif len(letters) != o.ndim:
            raise PyRaise(EXC["ValueError"], ("einsum: wrong number of subscripts",))
    for s, o in zip(ins, ops):
        letters = s.replace("...", "")
        k = o.ndim - len(letters)
        pre = s.index("...") if "..." in s else len(s)
        for n, ch in enumerate(letters):
            d = o.shape[n if n < pre else n + k]
            if ch in dims and dims[ch] is not d:
                if dims[ch].const() == 1 or d.const() == 1:
                    raise Unsupported("einsum broadcasting")
                if not m.branch(eq(dims[ch], d)):
                    raise PyRaise(EXC["ValueError"], ("einsum: dimension mismatch",))
            dims.setdefault(ch, d)
    outl = out.replace("...", "")
    pre_o = out.index("...") if "..." in out else len(out)
    ne = len(ell) if "..." in out else 0
    if ell and "..." not in out:
        raise Unsupported("einsum drops ellipsis")
    pos = {}
    shape = []
    for n, ch in enumerate(out[:pre_o].replace("...", "")):
        pos[ch] = IX[n]
        shape.append(dims[ch])
    eix = IX[pre_o:pre_o + ne]
    shape += list(ell[:ne])
    for n, ch in enumerate(out[pre_o:].replace("...", "")):
        pos[ch] = IX[pre_o + ne + n]
        shape.append(dims[ch])
    summed = [ch for ch in dims if ch not in pos]
    vs = {ch: fvar() for ch in summed}
    for ch in summed:
        pos[ch] = P(vs[ch])
    body = ONE
    k = "i"
    for s, o in zip(ins, ops):
        letters = s.replace("...", "")
        kd = o.ndim - len(letters)
        pre = s.index("...") if "..." in s else len(s)
        idx = []
        for d in range(o.ndim):
            if d < pre:
                idx.append(pos[letters[d]])
            elif d < pre + kd:
                e = d - pre + (len(ell) - kd)
                idx.append(ZERO if o.shape[d].const() == 1 and ell[e].const() != 1 else eix[e])
            else:
                idx.append(pos[letters[d - kd]])
        body = body * o.read(idx)
        if o.kind == "f":
            k = "f"
    body = r_sum([(vs[ch], dims[ch]) for ch in summed], body)
    if not shape:
        return num(body, k)
    return SArr(Store(shape, body, k))


def np_delete(m, a, index, axis=None):
    a = asarray(m, a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("delete without axis")
        axis = 0
    axis = axis % a.ndim
    p, k = lift(index)
    n = a.shape[axis]
    c = p.const()
    if c is not None and c < 0 or c is None and m.ctx.decide(ge0(p)) is not True and not m.branch(ge0(p)):
        p = p + n
    if not m.branch(ge0(p) * gt0(n - p)):
        raise PyRaise(EXC["IndexError"], ("delete index out of bounds",))
    sh = list(a.shape)
    sh[axis] = n - 1
    ix = list(IX[:a.ndim])
    lo = a.read(ix)
    ix2 = list(ix)
    ix2[axis] = ix[axis] + 1
    return SArr(Store(sh, ite(lt(ix[axis], p), lo, a.read(ix2)), a.dtype))


def owner(n, rep, i):
    """index of the segment (lengths rep[$L0], n segments) that contains position i"""
    n, rep, i = P(n), subst(P(rep), {the_var(L0): LO}), P(i)
    if rep is ONE:
        return i
    return app("owner", n, rep, i, isint=True)


APP_BUILD["owner"] = owner


LP = P(mk("var", ("$LP", True), True))  # bound by prod(...)


def prod(body, n):
    """product of body[$LP] over the indices below n"""
    body, n = P(body), P(n)
    if body is ONE or n is ZERO:
        return ONE
    x = n - 1
    if (x.const() or 0) >= 0 and known_nonneg(x):
        return prod(body, x) * subst(body, {the_var(LP): x})
    return app("prod", body, n, isint=body.isint)


APP_BUILD["prod"] = prod


def _prod_rule(v, hi, inn):
    """sum over i of (1 - f(i)) prod of f below i = 1 - prod of f below hi"""
    for a, e in inn:
        if a.kind == "app" and a.args[0] == "prod" and e == 1 and a.args[2] is P(v) and v not in a.args[1].fv:
            rest = ONE
            for b, eb in inn:
                if b is not a:
                    rest = rest * Poly.of({((b, eb),): Fraction(1)})
            if ONE - subst(a.args[1], {the_var(LP): P(v)}) is rest:
                return ONE - prod(a.args[1], hi)
    return None


terms.SUM_RULES.append(_prod_rule)
IN_UNIT = {}


def in_unit(body):
    """0 <= body <= 1 for all values of its variables"""
    if body not in IN_UNIT:
        IN_UNIT[body] = False, False
        c = prove.Ctx([])
        c.axioms = [axioms]
        IN_UNIT[body] = prove.prove_true(ge0(body), c), prove.prove_true(ge0(ONE - body), c)
    return IN_UNIT[body]


def np_repeat(m, a, rep, axis=None):
    a = asarray(m, a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("repeat without axis")
        axis = 0
    axis %= a.ndim
    r = asarray(m, rep)
    n = a.shape[axis]
    if r.ndim == 0 or r.shape[0].const() == 1:
        rb = r.read(() if r.ndim == 0 else (ZERO,))
    else:
        if r.shape[0] is not n and not m.branch(eq(r.shape[0], n)):
            raise PyRaise(EXC["ValueError"], ("repeat: operands could not be broadcast",))
        rb = r.read((L0,))
    v = fvar()
    tot = sum_over(v, n, subst(rb, {the_var(L0): P(v)}))
    sh = list(a.shape)
    sh[axis] = tot
    ix = list(IX[:a.ndim])
    ix[axis] = owner(n, rb, ix[axis])
    return SArr(Store(sh, a.read(ix), a.dtype))


def tri_idx(m, n, k, lower=False):
    n = lift(n)[0]
    k = lift(k)[0]
    c = k.const()
    if c == 0:
        cnt = fdiv(n * (n + 1), P(2))
    elif c == 1:
        cnt = fdiv(n * (n - 1), P(2))
    else:
        raise Unsupported("triu_indices offset")
    out = []
    for role in ("r", "c"):
        s = Store((cnt,), app("tri" + role, n, k, IX[0], isint=True), "i", "trusted-index")
        a = SArr(s)
        a.tri = (n, k, role)
        out.append(a)
    return tuple(out)


def diag_idx(m, n):
    s = [SArr(Store((n,), IX[0], "i", "trusted-index")) for _ in range(2)]
    return tuple(s)


def transpose(a, axes=None):
    if axes is not None:
        order = list(axes)
    else:
        order = list(reversed(range(a.ndim)))
    r = SArr(a.store, [a.dims[i] for i in order], [a.shape[i] for i in order], a.fixed)
    l = lay(a)
    if a.ndim == 2:
        r.view_layout = {"C": "F", "F": "C"}.get(l, "A")
    elif a.ndim > 2:
        r.view_layout = "A"
    else:
        r.view_layout = a.view_layout
    return r


def broadcast_to(m, a, shape):
    a = asarray(m, a)
    if len(shape) < a.ndim:
        raise PyRaise(EXC["ValueError"], ("broadcast_to: too many dimensions",))
    off = len(shape) - a.ndim
    dims = [None] * off
    for d in range(a.ndim):
        s, t = a.shape[d], P(shape[off + d])
        if s is t:
            dims.append(a.dims[d])
        elif s.const() == 1:
            dims.append(a.dims[d] and None)
            if a.dims[d] is not None:
                # index 0 of a length one axis
                a = SArr(a.store, a.dims, a.shape, {**a.fixed, a.dims[d][0]: a.dims[d][1]}, a.view_layout)
        elif m.branch(eq(s, t)):
            dims.append(a.dims[d])
        elif m.branch(eq(s, ONE)):
            dims.append(None)
            if a.dims[d] is not None:
                a = SArr(a.store, a.dims, a.shape, {**a.fixed, a.dims[d][0]: a.dims[d][1]}, a.view_layout)
        else:
            raise PyRaise(EXC["ValueError"], ("could not broadcast input array",))
    r = SArr(a.store, dims, shape, a.fixed)
    r.view_layout = lay(a) if all(d is not None for d in dims) else "A"
    r.readonly = True
    return r


def reshape(m, a, shape):
    shape = [P(s) for s in shape]
    if len(shape) == 1 and a.ndim == 1 and (shape[0].const() == -1 or shape[0] is a.shape[0]):
        return a
    if a.ndim == 2 and len(shape) == 1 and shape[0].const() == -1:
        raise Unsupported("ravel of a matrix")
    if a.ndim == 1 and len(shape) == 2:
        if shape[0].const() == 1:
            return basic(m, a, [None, SSlice(None, None, None)])
        if shape[1].const() == 1:
            return basic(m, a, [SSlice(None, None, None), None])
    if len(shape) == a.ndim and all(s is t for s, t in zip(shape, a.shape)):
        return a
    raise Unsupported("reshape")


# ------------------------------------------------------------------- attributes
def B(name):
    def deco(f):
        return Builtin(name, f)
    return deco


def meth(name, f):
    return Builtin(name, f)


def arg(a, k, i, name, default=None):
    if len(a) > i:
        return a[i]
    return k.get(name, default)


def arr_attr(m, a, n):
    m.trusted.add("numpy.ndarray." + n)
    if n == "shape":
        return tuple(num(s, "i") for s in a.shape)
    if n == "ndim":
        return a.ndim
    if n == "T":
        return transpose(a)
    if n == "size":
        r = ONE
        for s in a.shape:
            r = r * s
        return num(r, "i")
    if n == "dtype":
        return DType(a.dtype)
    if n == "flags":
        return Opaque("flags")
    red = {"sum": np_sum, "mean": np_mean, "max": np_max, "min": np_min, "any": np_any, "all": np_all}
    if n in red:
        return meth(n, lambda m, x, k: red[n](m, a, axis=arg(x, k, 0, "axis"), keepdims=k.get("keepdims", False)))
    if n == "argmax":
        return meth(n, lambda m, x, k: np_argmax(m, a, arg(x, k, 0, "axis")))
    if n == "argmin":
        return meth(n, lambda m, x, k: np_argmax(m, a, arg(x, k, 0, "axis"), "argmin"))
    if n == "argsort":
        return meth(n, lambda m, x, k: np_argsort(m, a))
    if n == "copy":
        return meth(n, lambda m, x, k: copy_arr(a, layout="C" if not x and k.get("order", "C") == "C" else None))
    if n == "astype":
        def f(m, x, k):
            code = dt(arg(x, k, 0, "dtype"))
            if k.get("copy", True) is False and code == a.dtype:
                return a
            return copy_arr(a, code, layout="C" if k.get("order") == "C" else None)
        return meth(n, f)
    if n == "fill":
        return meth(n, lambda m, x, k: assign_into(m, a, x[0]))
    if n == "clip":
        return meth(n, lambda m, x, k: np_clip(m, a, arg(x, k, 0, "min", k.get("a_min")), arg(x, k, 1, "max", k.get("a_max"))))
    if n == "transpose":
        return meth(n, lambda m, x, k: transpose(a, x[0] if x and isinstance(x[0], tuple) else (tuple(x) if x else None)))
    if n in ("ravel", "flatten"):
        def f(m, x, k):
            if a.ndim == 1:
                return a if n == "ravel" else copy_arr(a)
            raise Unsupported(n)
        return meth(n, f)
    if n == "reshape":
        return meth(n, lambda m, x, k: reshape(m, a, shp(x[0]) if len(x) == 1 else tuple(lift(y)[0] for y in x)))
    if n == "dot":
        return meth(n, lambda m, x, k: matmul(m, a, x[0]))
    if n == "item":
        return meth(n, lambda m, x, k: num(a.read([ZERO] * a.ndim), a.kind))
    if n == "take":
        return meth(n, lambda m, x, k: np_take(m, a, arg(x, k, 0, "indices"), arg(x, k, 1, "axis")))
    if n == "swapaxes":
        return meth(n, lambda m, x, k: swapaxes(m, a, *x))
    if n == "repeat":
        return meth(n, lambda m, x, k: np_repeat(m, a, x[0], arg(x, k, 1, "axis")))
    if n == "tolist":
        return meth(n, lambda m, x, k: SList(m.listof(a)) if a.shape[0].const() is not None else m.iterate(fixed_items(a)) if a.ndim == 1 else m._uns("tolist"))
    if n == "setflags":
        def f(m, x, k):
            if k.get("write") is False:
                a.store.writable = False
        return meth(n, f)
    if n == "base":
        raise Unsupported("base")
    raise PyRaise(EXC["AttributeError"], (n,))


def num_attr(m, v, n):
    if n in ("sum", "max", "min", "mean", "copy", "item", "any", "all", "astype", "squeeze"):
        def f(m, x, k):
            if n == "astype":
                p, kk = lift(v)
                code = dt(x[0])
                return num(cast(p, kk, code), kind_of(code))
            return v
        return meth(n, f)
    if n == "shape":
        return ()
    if n == "ndim":
        return 0
    if n == "dtype":
        return DType(lift(v)[1])
    if n == "clip":
        return meth(n, lambda m, x, k: np_clip(m, v, arg(x, k, 0, "min"), arg(x, k, 1, "max")))
    if n == "is_integer":
        p, kk = lift(v)
        return meth(n, lambda m, x, k: num(eq(_floor(p), p), "b"))
    raise PyRaise(EXC["AttributeError"], (n,))


def cont_attr(m, o, n):
    if isinstance(o, SList):
        if n == "append":
            return meth(n, lambda m, a, k: m.list_append(o, a[0]))
        if n == "extend":
            return meth(n, lambda m, a, k: o.items.extend(m.listof(a[0])))
        if n == "copy":
            return meth(n, lambda m, a, k: SList(o.items))
        if n == "insert":
            return meth(n, lambda m, a, k: o.items.insert(a[0], a[1]))
        if n == "pop":
            return meth(n, lambda m, a, k: o.items.pop(*a))
        if n == "clear":
            return meth(n, lambda m, a, k: o.items.clear())
    if isinstance(o, SDict):
        d = o.d
        if n == "keys":
            return meth(n, lambda m, a, k: tuple(d))
        if n == "values":
            return meth(n, lambda m, a, k: tuple(d.values()))
        if n == "items":
            return meth(n, lambda m, a, k: tuple(tuple(x) for x in d.items()))
        if n == "get":
            return meth(n, lambda m, a, k: d.get(m.key(a[0]), a[1] if len(a) > 1 else None))
        if n == "copy":
            return meth(n, lambda m, a, k: SDict(d))
        if n == "pop":
            def f(m, a, k):
                if m.key(a[0]) in d:
                    return d.pop(m.key(a[0]))
                if len(a) > 1:
                    return a[1]
                raise PyRaise(EXC["KeyError"])
            return meth(n, f)
        if n == "update":
            def f(m, a, k):
                for x in a:
                    d.update(x.d if isinstance(x, SDict) else dict(x))
                d.update(k)
            return meth(n, f)
        if n == "setdefault":
            return meth(n, lambda m, a, k: d.setdefault(m.key(a[0]), a[1]))
    if isinstance(o, str):
        if n == "format":
            return meth(n, lambda m, a, k: o)
        if n in ("lower", "upper", "strip"):
            return meth(n, lambda m, a, k: getattr(o, n)())
        if n in ("startswith", "endswith", "replace", "split", "join"):
            return meth(n, lambda m, a, k: getattr(o, n)(*a) if all(isinstance(x, str) for x in a) else o)
    if isinstance(o, tuple):
        if n in ("count", "index"):
            raise Unsupported("tuple." + n)
    if isinstance(o, frozenset):
        if n in ("union", "intersection", "difference"):
            return meth(n, lambda m, a, k: getattr(o, n)(frozenset(m.listof(a[0]))))
    raise PyRaise(EXC["AttributeError"], (n,))


def jit_cast(m, o, n, v):
    """attribute types of compiled classes"""
    spec = None
    for c in o.cls.mro():
        if c.jit:
            spec = c.jit
            break
    if spec is None:
        return v
    if n not in spec:
        raise PyRaise(EXC["AttributeError"], (f"compiled class has no attribute {n}",))
    t = spec[n]
    base, nd, order = t
    if nd == 0:
        p, k = lift(v)
        if base.startswith("int"):
            return num(cast(p, k, "i"), "i")
        if base.startswith("float"):
            return num(p, "f")
        return v
    if not isinstance(v, SArr):
        raise PyRaise(EXC["TypeError"], (f"compiled attribute {n} must be an array",))
    want = {"float64": "f", "int32": "i4", "int64": "i", "float32": "f4"}.get(base)
    if v.ndim != nd or (want and v.dtype != want) or (order == "C" and lay(v) not in ("C",)):
        raise PyRaise(EXC["TypeError"], (f"compiled attribute {n}: {base} rank {nd} order {order}, got {v.dtype} rank {v.ndim} layout {lay(v)}",))
    return v


class NbType:
    def __init__(self, base, nd=0, order=None):
        self.base, self.nd, self.order = base, nd, order

    def s_getitem(self, m, k):
        ks = k if isinstance(k, tuple) else (k,)
        last = ks[-1]
        order = "C" if isinstance(last, SSlice) and last.step == 1 else "A"
        if isinstance(ks[0], SSlice) and ks[0].step == 1 and len(ks) > 1:
            order = "F"
        return NbType(self.base, len(ks), order)

    def s_getattr(self, m, n):
        raise Unsupported("numba type attribute")

    def s_call(self, m, a, k):
        return Opaque("signature")


# -------------------------------------------------------------------- functions
def ufunc(fn):
    """scalar function (p, k) -> (p, k) lifted to arrays"""
    def f(m, a, k):
        x = a[0]
        if isinstance(x, (SList, tuple)):
            x = asarray(m, x)
        if isinstance(x, SArr):
            r = ewise1(m, x, lambda p, kk: fn(m, p, kk))
        else:
            r = num(*fn(m, *lift(x)))
        if k.get("out") is not None:
            assign_into(m, k["out"], r)
            return k["out"]
        return r
    return f


def u_sign(m, p, k):
    return gt0(p) - gt0(-p), k if k != "b" else "i"


def u_log(m, p, k):
    return log(p), "f"


def u_abs(m, p, k):
    return absv(p), k


def np_clip(m, a, lo, hi):
    def g(p, k):
        kk = k
        for x, f in ((lo, maxv), (hi, minv)):
            if x is not None:
                q, k2 = lift(x)
                kk = "f" if "f" in (kk, k2) else kk
                p = f(p, q)
        return p, kk
    if isinstance(a, SArr):
        return ewise1(m, a, g)
    return num(*g(*lift(a)))


def ewise_builtin(fn):
    def f(m, a, k):
        x, y = a[0], a[1]
        if isinstance(x, (SList, tuple)):
            x = asarray(m, x)
        if isinstance(y, (SList, tuple)):
            y = asarray(m, y)
        if isinstance(x, SArr) or isinstance(y, SArr):
            r = ewise2(m, x, y, lambda p, q, kp, kq: fn(m, p, q, kp, kq))
        else:
            (p, kp), (q, kq) = lift(x), lift(y)
            r = num(*fn(m, p, q, kp, kq))
        if k.get("out") is not None:
            assign_into(m, k["out"], r)
            return k["out"]
        return r
    return f


def kmax(kp, kq):
    return "f" if "f" in (kp, kq) else "i" if "i" in (kp, kq) else "b"


def op2(op):
    return ewise_builtin(lambda m, p, q, kp, kq: m.arith(op, p, q, kp, kq))


def cmp2(op):
    return ewise_builtin(lambda m, p, q, kp, kq: (m.cmp(op, p, q), "b"))


def np_array(m, a, k, copy=True):
    v = arg(a, k, 0, "object", k.get("a"))
    code = arg(a, k, 1, "dtype")
    order = k.get("order")
    x = asarray(m, v)
    fresh = not isinstance(v, SArr)
    c = dt(code) if code is not None else x.dtype
    if k.get("ndmin"):
        while x.ndim < k["ndmin"]:
            x = basic(m, x, [None] + [SSlice(None, None, None)] * x.ndim)
    if copy and k.get("copy", True) is not False:
        return copy_arr(x, c, layout="C" if order == "C" else None) if not fresh or c != x.dtype else x
    if c == x.dtype and (order != "C" or lay(x) == "C"):
        return x
    return copy_arr(x, c, layout="C" if order == "C" else None)


def np_atleast_1d(m, a, k):
    x = asarray(m, a[0])
    if x.ndim == 0:
        if isnum(a[0]):
            p, kk = lift(a[0])
            return SArr(Store((ONE,), p, kk))
        return basic(m, x, [None])
    return x


def np_atleast_2d(m, a, k):
    x = np_atleast_1d(m, a, k)
    if x.ndim == 1:
        return basic(m, x, [None, SSlice(None, None, None)])
    return x


def filled(val):
    def f(m, a, k):
        sh = shp(arg(a, k, 0, "shape"))
        return SArr(Store(sh, val, dt(arg(a, k, 1, "dtype"))))
    return f


def filled_like(val):
    def f(m, a, k):
        x = asarray(m, a[0])
        code = dt(arg(a, k, 1, "dtype"), x.dtype)
        sh = shp(k["shape"]) if k.get("shape") is not None else x.shape
        s = Store(sh, val, code)
        s.layout = lay(x) if lay(x) in "CF" else "C"
        return SArr(s)
    return f


def np_full(m, a, k):
    sh = shp(arg(a, k, 0, "shape"))
    v = arg(a, k, 1, "fill_value")
    code = arg(a, k, 2, "dtype")
    if isinstance(v, SArr) and v.ndim > 0:
        x = broadcast_to(m, v, sh)
        return copy_arr(x, dt(code, v.dtype), layout="C")
    p, kk = lift(v)
    c = dt(code, kk)
    return SArr(Store(sh, cast(p, kk, c), c))


def np_full_like(m, a, k):
    x = asarray(m, a[0])
    p, kk = lift(arg(a, k, 1, "fill_value"))
    c = dt(arg(a, k, 2, "dtype"), x.dtype)
    return SArr(Store(x.shape, cast(p, kk, c), c))


_junk = [0]


def np_empty(m, a, k):
    sh = shp(arg(a, k, 0, "shape"))
    return junk(sh, dt(arg(a, k, 1, "dtype")))


def junk(sh, code="f"):
    """uninitialised memory: arbitrary values"""
    _junk[0] += 1
    n = f"junk{_junk[0]}"
    terms.arr(n, sh, isint=kind_of(code) == "i", isbool=code == "b")
    return SArr(Store(sh, rd(n, IX[:len(sh)]), code, "uninit"))


def np_arange(m, a, k):
    if len(a) == 1:
        lo, hi = ZERO, lift(a[0])[0]
    elif len(a) == 2:
        lo, hi = lift(a[0])[0], lift(a[1])[0]
    else:
        raise Unsupported("arange with step")
    return SArr(Store((hi - lo,), lo + IX[0], "i"))


def np_outer(m, a, k):
    x, y = asarray(m, a[0]), asarray(m, a[1])
    if x.ndim != 1 or y.ndim != 1:
        raise Unsupported("outer of higher rank")
    return SArr(Store(x.shape + y.shape, x.read((IX[0],)) * y.read((IX[1],)), kmax(x.kind, y.kind)))


def np_eye(m, a, k):
    n = lift(a[0])[0]
    return SArr(Store((n, n), eq(IX[0], IX[1]), dt(k.get("dtype"))))


def np_diag(m, a, k):
    x = asarray(m, a[0])
    if x.ndim == 1:
        return SArr(Store(x.shape * 2, eq(IX[0], IX[1]) * x.read((IX[0],)), x.dtype))
    if x.ndim == 2:
        return SArr(Store(x.shape[:1], x.read((IX[0], IX[0])), x.dtype))
    raise Unsupported("diag")


def np_where(m, a, k):
    if len(a) != 3:
        raise Unsupported("where with one argument")
    c, x, y = [asarray(m, v) for v in a]
    sh = bshape(m, bshape(m, c.shape, x.shape), y.shape)
    ix = IX[:len(sh)]
    cb = bread(m, c, sh, ix)
    if c.kind != "b":
        cb = ONE - eq0(cb)
    r = ite(cb, bread(m, x, sh, ix), bread(m, y, sh, ix))
    kk = kmax(x.kind, y.kind)
    return num(r, kk) if not sh else SArr(Store(sh, r, kk))


def np_concat(m, a, k):
    xs = [asarray(m, x) for x in m.listof(a[0])]
    axis = arg(a, k, 1, "axis", 0)
    if any(x.ndim != xs[0].ndim for x in xs):
        raise PyRaise(EXC["ValueError"], ("concatenate",))
    axis %= xs[0].ndim
    off = ZERO
    ix = list(IX[:xs[0].ndim])
    body = ZERO
    for x in xs:
        j = list(ix)
        j[axis] = ix[axis] - off
        nxt = off + x.shape[axis]
        body = body + ge0(j[axis]) * gt0(nxt - ix[axis]) * x.read(j)
        off = nxt
    sh = list(xs[0].shape)
    sh[axis] = off
    return SArr(Store(sh, body, "f" if any(x.kind == "f" for x in xs) else xs[0].dtype))


def np_stack(m, a, k):
    axis = arg(a, k, 1, "axis", 0)
    v = a[0]
    x = asarray(m, v)
    if axis == 0:
        return x
    if axis in (-1, x.ndim - 1) and x.ndim == 2:
        return copy_arr(transpose(x))
    raise Unsupported("stack axis")


def np_norm(m, a, k):
    x = asarray(m, a[0])
    o = arg(a, k, 1, "ord")
    axis = arg(a, k, 2, "axis")
    if o not in (None, 2) or (axis is None and x.ndim > 2) or (axis is None and o == 2 and x.ndim == 2):
        if isinstance(o, (int, float, Num)) and isinstance(axis, int):
            return full_reduce(m, x, axis, False, lambda vs, b: app("norm", lift(o)[0], vs[0][1], subst(b, {vs[0][0]: L0})), "f")
        raise Unsupported("norm")
    return full_reduce(m, x, axis, k.get("keepdims", False), lambda vs, b: app("sqrt", r_sum(vs, b * b)), "f")


def np_eigvalsh(m, a, k):
    x = asarray(m, a[0])
    if x.ndim < 2:
        raise PyRaise(EXC["ValueError"], ("eigvalsh",))
    n = x.shape[-1]
    if x.shape[-2] is not n and not m.branch(eq(x.shape[-2], n)):
        raise PyRaise(EXC["ValueError"], ("eigvalsh: not square",))
    ix = tuple(IX[:x.ndim - 2])
    return SArr(Store(x.shape[:-1], app("eigh", n, x.read(ix + (L0, L1)), IX[x.ndim - 2]), "f"))


def np_average(m, a, k):
    x = a[0]
    axis = arg(a, k, 1, "axis")
    w = arg(a, k, 2, "weights")
    if isinstance(x, MaskedArr):
        if isinstance(w, MaskedArr):
            if w.mask.read((IX[0],)) is not x.mask.read((IX[0],)):
                raise Unsupported("different masks")
            s = masked_reduce(m, x, axis, w)
            t = masked_reduce(m, w, None)
        elif w is None:
            s = masked_reduce(m, x, axis)
            t = num(masked_reduce(m, MaskedArr(SArr(Store(x.mask.shape, ONE, "i")), x.mask), None).p, "i")
        else:
            raise Unsupported("weights")
        m.require("denominator is not zero", ONE - eq0(lift(t)[0]))
        return m.binop("Div", s, t)
    x = asarray(m, x)
    if w is None:
        return np_mean(m, x, axis)
    w = asarray(m, w)
    if axis is None:
        if x.ndim != 1 or w.ndim != 1:
            raise Unsupported("average without axis")
        axis = 0
    axis %= x.ndim
    if w.ndim == 1:
        v = fvar()
        t = sum_over(v, w.shape[0], w.read((P(v),)))
        m.require("denominator is not zero", ONE - eq0(t))
        return full_reduce(m, x, axis, False, lambda vs, b: r_sum(vs, b * w.read((P(vs[0][0]),))) * inv(t), "f")
    raise Unsupported("average")


def np_unique(m, a, k):
    x = asarray(m, a[0])
    if x.ndim != 1 or k:
        raise Unsupported("unique")
    body = x.read((IX[0],))
    _closed(m, x.shape[0], body)
    k = KEYED.setdefault(("uniq", x.shape[0], body), len(KEYED))
    UNIQ[k] = (x.shape[0], body)
    n = app("nuniq", P(k), isint=True)
    m.trusted.add("numpy.unique: every value of the array occurs exactly once")
    m.ctx.add(ge0(n))
    m.ctx.add(ge0(x.shape[0] - n))
    if m.ctx.decide(gt0(x.shape[0])) is True:
        m.ctx.add(gt0(n))
    return SArr(Store((n,), app("uniq", P(k), IX[0], isint=x.kind == "i"), x.dtype, "uniq"))


def np_isclose(m, a, k):
    x, y = asarray(m, a[0]), asarray(m, a[1])
    sh = bshape(m, x.shape, y.shape)
    d = bread(m, x, sh, IX[:len(sh)]) - bread(m, y, sh, IX[:len(sh)])
    # |x - y| small: an unknown predicate of x and y that holds for equal finite values
    nm = close_name("isclose", sh, d, a, k)
    if nm not in ARRS:
        terms.arr(nm, sh, isbool=True)
    r = disj(eq0(d), rd(nm, IX[:len(sh)]))
    if not sh:
        return num(r, "b")
    return SArr(Store(sh, r, "b"))


CLOSE = {}


def close_name(fn, sh, d, a, k):
    """one unknown predicate per difference and tolerance"""
    opt = tuple(str(x) for x in a[2:]) + tuple(sorted((n, str(x)) for n, x in k.items()))
    key = (fn, tuple(sh), d, opt)
    if key not in CLOSE:
        CLOSE[key] = fresh_name("close")
    return CLOSE[key]


def np_allclose(m, a, k):
    x, y = asarray(m, a[0]), asarray(m, a[1])
    sh = bshape(m, x.shape, y.shape)
    d = bread(m, x, sh, IX[:len(sh)]) - bread(m, y, sh, IX[:len(sh)])
    if not deep_eq0(d):
        return num(bvar(close_name("allclose", sh, d, a, k)), "b")
    return True


def deep_eq0(d):
    return not d.m


def const_fn(v):
    return lambda m, a, k: v


def vectorize(m, a, k):
    if a and isinstance(a[0], SFunc):
        return vectorized(a[0])
    return Builtin("vectorize", lambda m, b, kk: vectorized(b[0]))


def vectorized(f):
    def run(m, a, k):
        def scal(ps, ks):
            args = [num(p, "f") for p in ps]
            out = ZERO
            old = m.quiet
            m.quiet += 1
            try:
                for pc, (tag, v), snap, ctx in (r[:4] for r in m.explore(lambda: m.call_func(f, args, {}))):
                    if tag != "ok":
                        raise Unsupported("vectorized function raises")
                    out = out + pc * lift(v)[0]
            finally:
                m.quiet = old
            return out, "f"
        if len(a) == 1:
            x = a[0]
            if isinstance(x, (SList, tuple)):
                x = asarray(m, x)
            if isinstance(x, SArr):
                return ewise1(m, x, lambda p, kk: scal([p], [kk]))
            return num(*scal([lift(x)[0]], [lift(x)[1]]))
        if len(a) == 2:
            return ewise_builtin(lambda m, p, q, kp, kq: scal([p, q], [kp, kq]))(m, a, {})
        raise Unsupported("vectorized function of many arguments")
    b = Builtin("vectorized " + f.name, run)
    b.wrapped = f
    return b


def identity_deco(m, a, k):
    if a and isinstance(a[0], (SFunc, SClass)):
        return a[0]
    return Builtin("decorator", lambda m, b, kk: b[0])


def jitclass(m, a, k):
    def apply(spec, cls):
        d = {}
        for it in m.listof(spec):
            n, t = it
            if isinstance(t, NbType):
                d[n] = (t.base, t.nd, t.order)
            else:
                d[n] = ("any", 0, None)
        cls.jit = d
        return cls
    if a and isinstance(a[0], SClass):
        return a[0]
    spec = a[0] if a else k.get("spec")
    return Builtin("jitclass", lambda m, b, kk: apply(spec, b[0]))


BETA = {}  # parameters of the beta distributed draws


class SRng:
    """random generator: draws are arbitrary values of their range"""
    n = 0

    def __init__(self, name="rng"):
        self.name = name
        self.draws = []
        self.tag = fresh_name(name)
        Heap.reg(self)

    def get_state(self):
        return list(self.draws)

    def set_state(self, s):
        self.draws = list(s)

    def draw(self, m, what, sh, **kw):
        """array (or scalar) of basic draws; one fresh value per loop iteration and draw site"""
        lv = list(m.loop_vars)
        full = [hi for v, hi in lv] + list(sh)
        m.draw_seq += 1
        nm = f"{self.tag}.{what}.{m.where()}.{'.'.join(map(str, m.serials[:-1]))}.{m.draw_seq}" if lv else f"{self.tag}.{what}.{len(self.draws)}"
        if nm not in ARRS:
            terms.arr(nm, full, **kw)
        self.draws.append(nm)
        return lambda ix: rd(nm, [P(v) for v, hi in lv] + list(ix))

    def s_getattr(self, m, n):
        def size(a, k, i):
            s = arg(a, k, i, "size")
            return None if s is None else shp(s)

        def wrap(f, sh):
            if sh is None:
                return num(f(()), "f")
            return SArr(Store(sh, f(IX[:len(sh)]), "f", "draw"))

        if n == "normal":
            def f(m, a, k):
                lo, sc = arg(a, k, 0, "loc", 0.0), arg(a, k, 1, "scale", 1.0)
                if isinstance(lo, SArr) or isinstance(sc, SArr):
                    raise Unsupported("array parameters of normal")
                lo, sc = lift(lo)[0], lift(sc)[0]
                sh = size(a, k, 2)
                d = self.draw(m, "normal", sh or ())
                return wrap(lambda ix: lo + sc * d(ix), sh)
            return meth(n, f)
        if n == "standard_normal":
            def f(m, a, k):
                sh = size(a, k, 0)
                d = self.draw(m, "normal", sh or ())
                return wrap(d, sh)
            return meth(n, f)
        if n in ("uniform", "random"):
            def f(m, a, k):
                if n == "uniform":
                    lo, hi = lift(arg(a, k, 0, "low", 0.0))[0], lift(arg(a, k, 1, "high", 1.0))[0]
                    sh = size(a, k, 2)
                else:
                    lo, hi = ZERO, ONE
                    sh = size(a, k, 0)
                d = self.draw(m, "uniform", sh or (), nonneg=True)
                return wrap(lambda ix: lo + (hi - lo) * d(ix), sh)
            return meth(n, f)
        if n == "beta":
            def f(m, a, k):
                x, y = lift(arg(a, k, 0, "a"))[0], lift(arg(a, k, 1, "b"))[0]
                if size(a, k, 2) is not None:
                    raise Unsupported("size of beta")
                m.require("beta parameters are positive", gt0(x) * gt0(y))
                d = self.draw(m, "beta", (), nonneg=True)
                if not m.infer:
                    BETA[self.draws[-1]] = (x, y, d(()))
                return num(d(()), "f")
            return meth(n, f)
        if n in ("exponential", "standard_exponential"):
            def f(m, a, k):
                sh = size(a, k, 1 if n == "exponential" else 0)
                sc = lift(arg(a, k, 0, "scale", 1.0))[0] if n == "exponential" else ONE
                d = self.draw(m, "expo", sh or (), pos=True)
                return wrap(lambda ix: sc * d(ix), sh)
            return meth(n, f)
        if n == "integers":
            def f(m, a, k):
                lo, hi = (ZERO, lift(a[0])[0]) if len(a) == 1 else (lift(a[0])[0], lift(a[1])[0])
                m.require("integers: low < high", gt0(hi - lo))
                v = fvar("$rnd")
                m.ctx.add(ge0(P(v) - lo))
                m.ctx.add(gt0(hi - P(v)))
                return num(P(v), "i")
            return meth(n, f)
        raise Unsupported("rng." + n)


def default_rng(m, a, k):
    x = arg(a, k, 0, "seed")
    if isinstance(x, SRng):
        return x
    r = SRng("rng_default" if x is None else "rng_seeded")
    r.seed = x
    return r


class GlobalRng(SRng):
    pass


def dist_sort_fn(name):
    def f(m, a, k):
        raise Unsupported(name)
    return f


def mkmod(name, ns):
    return Module(name, ns)


def simple(f):
    return lambda m, a, k: f(m, *a, **k)


def build_numpy():
    ns = {}

    def d(name, f):
        ns[name] = Builtin(name, f)

    for n, f in dict(exp=lambda m, p, k: (exp(p), "f"), log=u_log, abs=u_abs, absolute=u_abs, fabs=u_abs, sign=u_sign, negative=lambda m, p, k: (-p, k),
                     sqrt=lambda m, p, k: (app("sqrt", p), "f"), square=lambda m, p, k: (p * p, k), ceil=lambda m, p, k: (_ceil(p), "f"),
                     floor=lambda m, p, k: (_floor(p), "f"), log10=lambda m, p, k: (log(p) * inv(log(P(10))), "f"), reciprocal=lambda m, p, k: (inv(p), "f"),
                     logical_not=lambda m, p, k: (ONE - (p if k == "b" else ONE - eq0(p)), "b"), isnan=lambda m, p, k: (ZERO, "b"), isfinite=lambda m, p, k: (ONE, "b"),
                     rint=lambda m, p, k: (app("rint", p), "f"), round=lambda m, p, k: (app("rint", p), "f"), trunc=lambda m, p, k: (_trunc(p), "f")).items():
        d(n, ufunc(f))
    d("maximum", ewise_builtin(lambda m, p, q, kp, kq: (maxv(p, q), kmax(kp, kq))))
    d("minimum", ewise_builtin(lambda m, p, q, kp, kq: (minv(p, q), kmax(kp, kq))))
    for n, o in dict(add="Add", subtract="Sub", multiply="Mult", divide="Div", true_divide="Div", power="Pow", floor_divide="FloorDiv").items():
        d(n, op2(o))
    for n, o in dict(equal="Eq", not_equal="NotEq", less="Lt", less_equal="LtE", greater="Gt", greater_equal="GtE").items():
        d(n, cmp2(o))
    d("logical_and", ewise_builtin(lambda m, p, q, kp, kq: (p * q, "b")))
    d("logical_or", ewise_builtin(lambda m, p, q, kp, kq: (disj(p, q), "b")))
    for n, f in dict(sum=np_sum, mean=np_mean, max=np_max, min=np_min, amax=np_max, amin=np_min, any=np_any, all=np_all).items():
        d(n, (lambda f: lambda m, a, k: f(m, a[0], axis=arg(a, k, 1, "axis"), keepdims=k.get("keepdims", False)))(f))
    d("argmax", simple(lambda m, x, axis=None: np_argmax(m, x, axis)))
    d("argmin", simple(lambda m, x, axis=None: np_argmax(m, x, axis, "argmin")))
    d("count_nonzero", lambda m, a, k: np_sum(m, m.compare("NotEq", asarray(m, a[0]), 0) if asarray(m, a[0]).kind != "b" else a[0], arg(a, k, 1, "axis")))
    d("argsort", simple(lambda m, x, axis=-1: np_argsort(m, x, axis)))
    d("lexsort", simple(lambda m, x: np_lexsort(m, x)))
    d("einsum", lambda m, a, k: np_einsum(m, a))
    d("dot", lambda m, a, k: matmul(m, a[0], a[1]))
    d("matmul", lambda m, a, k: matmul(m, a[0], a[1]))
    d("delete", simple(lambda m, x, i, axis=None: np_delete(m, x, i, axis)))
    d("repeat", simple(lambda m, x, r, axis=None: np_repeat(m, x, r, axis)))
    d("transpose", simple(lambda m, x, axes=None: transpose(asarray(m, x), axes)))
    d("broadcast_to", simple(lambda m, x, shape: broadcast_to(m, x, shp(shape))))
    d("array", lambda m, a, k: np_array(m, a, k))
    d("asarray", lambda m, a, k: np_array(m, a, k, copy=False))
    d("asanyarray", lambda m, a, k: np_array(m, a, k, copy=False))
    d("ascontiguousarray", lambda m, a, k: np_array(m, a, {**k, "order": "C"}, copy=False))
    d("copy", lambda m, a, k: np_array(m, a, k))
    d("atleast_1d", np_atleast_1d)
    d("atleast_2d", np_atleast_2d)
    d("zeros", filled(ZERO))
    d("ones", filled(ONE))
    d("empty", np_empty)
    d("zeros_like", filled_like(ZERO))
    d("ones_like", filled_like(ONE))
    d("empty_like", lambda m, a, k: junk(asarray(m, a[0]).shape, dt(arg(a, k, 1, "dtype"), asarray(m, a[0]).dtype)))
    d("full", np_full)
    d("full_like", np_full_like)
    d("arange", np_arange)
    d("outer", np_outer)
    d("eye", np_eye)
    d("identity", np_eye)
    d("diag", np_diag)
    d("diagonal", np_diag)
    d("where", np_where)
    d("concatenate", np_concat)
    d("stack", np_stack)
    d("vstack", lambda m, a, k: np_stack(m, a, {}))
    d("clip", simple(lambda m, x, a_min=None, a_max=None: np_clip(m, asarray(m, x) if not isnum(x) else x, a_min, a_max)))
    d("triu_indices", simple(lambda m, n, k=0: tri_idx(m, n, k)))
    d("triu_indices_from", simple(lambda m, x, k=0: tri_idx(m, num(x.shape[0], "i"), k)))
    d("diag_indices", simple(lambda m, n: diag_idx(m, lift(n)[0])))
    d("diag_indices_from", simple(lambda m, x: diag_idx(m, x.shape[0])))
    d("fill_diagonal", lambda m, a, k: fancy_set(m, a[0], list(diag_idx(m, a[0].shape[0])), a[1]))
    d("allclose", np_allclose)
    d("isclose", np_isclose)
    d("array_equal", np_allclose)
    d("nan_to_num", lambda m, a, k: np_array(m, a[:1], {}))
    d("average", np_average)
    d("unique", np_unique)
    d("shape", lambda m, a, k: arr_attr(m, asarray(m, a[0]), "shape"))
    d("ndim", lambda m, a, k: asarray(m, a[0]).ndim)
    d("expand_dims", np_expand_dims)
    d("append", np_append)
    d("hstack", lambda m, a, k: np_concat(m, a, {}) if all(asarray(m, x).ndim == 1 for x in m.listof(a[0])) else dist_sort_fn("hstack")(m, a, k))
    d("reshape", lambda m, a, k: reshape(m, asarray(m, a[0]), shp(arg(a, k, 1, "newshape", k.get("shape")))))
    d("ravel", lambda m, a, k: reshape(m, asarray(m, a[0]), (P(-1),)))
    d("take", lambda m, a, k: np_take(m, a[0], arg(a, k, 1, "indices"), arg(a, k, 2, "axis")))
    d("ix_", np_ix)
    d("inner", np_inner)
    d("vdot", np_inner)
    d("swapaxes", simple(lambda m, x, i, j: swapaxes(m, asarray(m, x), i, j)))
    d("trace", lambda m, a, k: np_sum(m, np_diag(m, a[:1], {})))
    d("cumsum", np_cumsum)
    d("flatnonzero", dist_sort_fn("flatnonzero"))
    d("isscalar", lambda m, a, k: isnum(a[0]))
    d("errstate", lambda m, a, k: Opaque("errstate"))
    d("seterr", lambda m, a, k: Opaque("errstate"))
    ns["float64"] = PyType("float64")
    ns["float32"] = PyType("float32")
    ns["int32"] = PyType("int32")
    ns["int64"] = PyType("int64")
    ns["intp"] = PyType("intp")
    ns["bool_"] = PyType("bool_")
    ns["double"] = PyType("float64")
    ns["number"] = SClass("number", [OBJ], {}, native=True)
    ns["integer"] = SClass("integer", [OBJ], {}, native=True)
    ns["floating"] = SClass("floating", [OBJ], {}, native=True)
    ns["ndarray"] = NDARRAY
    ns["inf"], ns["nan"], ns["newaxis"], ns["pi"] = float("inf"), float("nan"), None, 3.141592653589793
    ns["linalg"] = mkmod("numpy.linalg", dict(norm=Builtin("norm", np_norm), eigvalsh=Builtin("eigvalsh", np_eigvalsh)))
    ns["random"] = mkmod("numpy.random", dict(default_rng=Builtin("default_rng", default_rng), Generator=RNGCLS, RandomState=Opaque("RandomState")))
    ns["testing"] = Opaque("numpy.testing")
    ns["typing"] = Opaque("numpy.typing")
    return mkmod("numpy", ns)


FULL = SSlice(None, None, None)


def np_expand_dims(m, a, k):
    x, ax = asarray(m, a[0]), arg(a, k, 1, "axis")
    if not isinstance(ax, int) or not -x.ndim - 1 <= ax <= x.ndim:
        raise Unsupported("expand_dims")
    ax %= x.ndim + 1
    return basic(m, x, [FULL] * ax + [None] + [FULL] * (x.ndim - ax))


def np_append(m, a, k):
    x, y = asarray(m, a[0]), asarray(m, a[1])
    if y.ndim == 0:
        y = basic(m, y, [None])
    if x.ndim != 1 or y.ndim != 1:
        raise Unsupported("append")
    return np_concat(m, [SList([x, y])], {})


def np_take(m, x, idx, axis=None):
    x = asarray(m, x)
    if axis is None:
        if x.ndim != 1:
            raise Unsupported("take from the flattened array")
        axis = 0
    if not isinstance(axis, int) or not -x.ndim <= axis < x.ndim:
        raise Unsupported("take")
    return arr_getitem(m, x, tuple([FULL] * (axis % x.ndim) + [idx]))


class IxTuple(tuple):
    """numpy.ix_: the selection of rows and columns"""


def np_ix(m, a, k):
    xs = [asarray(m, x) for x in a]
    if any(x.ndim != 1 or x.kind != "i" for x in xs):
        raise Unsupported("numpy.ix_")
    return IxTuple(xs)


def np_inner(m, a, k):
    x, y = asarray(m, a[0]), asarray(m, a[1])
    if x.ndim != 1 or y.ndim != 1:
        raise Unsupported("inner")
    return matmul(m, x, y)


def swapaxes(m, x, i, j):
    if not isinstance(i, int) or not isinstance(j, int):
        raise Unsupported("swapaxes")
    ax = list(range(x.ndim))
    ax[i], ax[j] = ax[j], ax[i]
    return transpose(x, tuple(ax))


def np_cumsum(m, a, k):
    x = asarray(m, a[0])
    if x.ndim != 1:
        raise Unsupported("cumsum of a matrix")
    v = fvar()
    return SArr(Store(x.shape, sum_over(v, IX[0] + 1, x.read((P(v),))), x.dtype))


NDARRAY = SClass("ndarray", [OBJ], {}, native=True)
RNGCLS = SClass("Generator", [OBJ], {}, native=True)


class PyType(Builtin):
    def __init__(self, name):
        super().__init__(name, lambda m, a, k: pytype_call(m, name, a, k))


def pytype_call(m, name, a, k):
    if name in ("float", "float64", "double", "float32"):
        if not a:
            return 0.0
        x = a[0]
        if isinstance(x, str):
            return float(x)
        if isinstance(x, NbType):
            return Opaque("sig")
        if isinstance(x, SArr):
            if x.ndim == 0 or all(s.const() == 1 for s in x.shape):
                return num(x.read([ZERO] * x.ndim), "f")
            raise PyRaise(EXC["TypeError"], ("only length-1 arrays",))
        p, kk = lift(x)
        return num(p, "f") if not isinstance(x, (int, float)) else float(x)
    if name in ("int", "int64", "int32", "intp"):
        if not a:
            return 0
        x = a[0]
        if isinstance(x, SArr):
            x = num(x.read([ZERO] * x.ndim), x.kind)
        if isinstance(x, (int, float)):
            return int(x)
        p, kk = lift(x)
        return num(_trunc(p) if kk == "f" else p, "i")
    if name in ("bool", "bool_"):
        if not a:
            return False
        v = a[0]
        if isinstance(v, Num):
            return v if v.k == "b" else num(ONE - eq0(v.p), "b")
        return m.truth(v)
    if name == "str":
        return str(a[0]) if a and isinstance(a[0], (str, int, float)) else "<str>"
    raise Unsupported("type " + name)


def b_range(m, a, k):
    xs = [lift(x) for x in a]
    if any(kk == "f" for p, kk in xs):
        raise PyRaise(EXC["TypeError"], ("range of float",))
    xs = [p for p, kk in xs]
    if len(xs) == 1:
        return SRange(0, xs[0])
    if len(xs) == 2:
        return SRange(xs[0], xs[1])
    c = xs[2].const()
    if c is None or c == 0:
        raise Unsupported("range step")
    return SRange(xs[0], xs[1], int(c))


def b_len(m, a, k):
    x = a[0]
    if isinstance(x, (tuple, str, frozenset)):
        return len(x)
    if isinstance(x, SList):
        if x.tail is not None:
            return num(x.tail.n + len(x.items), "i")
        return len(x.items)
    if isinstance(x, SDict):
        return len(x.d)
    if isinstance(x, SArr):
        if x.ndim == 0:
            raise PyRaise(EXC["TypeError"], ("len of unsized object",))
        return num(x.shape[0], "i")
    if isinstance(x, SymSeq):
        return num(x.n, "i")
    if isinstance(x, SRange):
        return num(m.range_len(x), "i")
    if isinstance(x, SObj):
        f = x.cls.lookup("__len__")
        if f:
            return m.call(Bound(f, x), [], {})
    if isnum(x) or x is None:
        raise PyRaise(EXC["TypeError"], ("object has no len()",))
    raise Unsupported("len")


def b_minmax(f):
    def g(m, a, k):
        xs = list(a)
        if len(xs) == 1:
            v = xs[0]
            if isinstance(v, SArr):
                return (np_max if f is maxv else np_min)(m, v)
            xs = m.listof(v)
            if not xs:
                if "default" in k:
                    return k["default"]
                raise PyRaise(EXC["ValueError"], ("empty sequence",))
        if all(isinstance(x, (int, float)) for x in xs):
            return (max if f is maxv else min)(xs)
        ps = [lift(x) for x in xs]
        kk = "f" if any(q == "f" for p, q in ps) else "i"
        return num(f(*[p for p, q in ps]), kk)
    return g


def b_isinstance(m, a, k):
    v, c = a
    cs = c if isinstance(c, tuple) else (c,)
    r = False
    for t in cs:
        n = getattr(t, "name", "")
        if isinstance(t, SClass):
            if t is NDARRAY:
                r = r or isinstance(v, SArr)
            elif t is RNGCLS:
                r = r or isinstance(v, SRng)
            elif t is ITERABLE or t is SEQUENCE:
                r = r or isinstance(v, (SList, tuple, SArr, SymSeq, SDict, str, SRange) if t is ITERABLE else (SList, tuple, str, SRange, SymSeq))
            elif n in ("number", "floating", "integer"):
                r = r or isinstance(v, Num) and (n == "number" or (v.k == "i") == (n == "integer"))
            else:
                r = r or isinstance(v, SObj) and v.cls.issub(t)
        elif isinstance(t, Builtin):
            if n == "int":
                r = r or isinstance(v, int) or isinstance(v, Num) and v.k == "i"
            elif n == "float":
                r = r or isinstance(v, float) or isinstance(v, Num) and v.k == "f"
            elif n == "str":
                r = r or isinstance(v, str)
            elif n == "bool":
                r = r or isinstance(v, bool)
            elif n == "tuple":
                r = r or isinstance(v, tuple)
            elif n == "list":
                r = r or isinstance(v, SList)
            elif n == "dict":
                r = r or isinstance(v, SDict)
            elif n in ("set", "frozenset"):
                r = r or isinstance(v, frozenset)
            else:
                raise Unsupported("isinstance " + n)
        elif isinstance(t, Opaque):
            if isinstance(v, Opaque):
                raise Unsupported("isinstance of opaque values")
            if "Number" in t.name or "Real" in t.name or "Integral" in t.name:
                r = r or isnum(v)
            else:
                raise Unsupported("isinstance " + t.name)
        else:
            raise Unsupported("isinstance")
    return r


def b_hasattr(m, a, k):
    o, n = a
    if isinstance(o, SObj):
        # do not evaluate: attribute or class member
        d = o.cls.lookup(n)
        if isinstance(d, PropDesc):
            try:
                m.getattr(o, n)
                return True
            except PyRaise as e:
                if e.cls.issub(EXC["AttributeError"]):
                    return False
                raise
        return n in o.attrs or d is not None
    try:
        m.getattr(o, n)
        return True
    except PyRaise:
        return False


def b_getattr(m, a, k):
    try:
        return m.getattr(a[0], a[1])
    except PyRaise as e:
        if len(a) > 2 and e.cls.issub(EXC["AttributeError"]):
            return a[2]
        raise


def b_enumerate(m, a, k):
    st = arg(a, k, 1, "start", 0)
    it = m.iterate(a[0])
    if isinstance(it, SymSeq):
        return SymSeq(it.n, lambda i: (num(P(i) + lift(st)[0], "i"), it.item(i)))
    return SList([(st + i, x) for i, x in enumerate(it)])


def b_zip(m, a, k):
    its = [m.iterate(x) for x in a]
    if any(isinstance(i, SymSeq) for i in its):
        short = min([len(i) for i in its if not isinstance(i, SymSeq)], default=None)
        seqs = [i for i in its if isinstance(i, SymSeq)]
        n = seqs[0].n
        for s in seqs[1:]:
            if s.n is not n and not m.holds(ge0(s.n - n)):
                n = s.n
        if short is not None:
            if not m.holds(ge0(n - short)):
                short = next((i for i in range(short) if m.holds(eq(n, P(i)))), None)
                if short is None:
                    raise Unsupported("zip of mixed lengths")
            return SList([tuple(i.item(P(j)) if isinstance(i, SymSeq) else i[j] for i in its) for j in range(short)])
        seqs = its
        return SymSeq(n, lambda i: tuple(s.item(i) for s in seqs))
    return SList([tuple(x) for x in zip(*its)])


def b_sum(m, a, k):
    start = arg(a, k, 1, "start", 0)
    x = a[0]
    it = m.iterate(x)
    if isinstance(it, SymSeq):
        v = fvar()
        t = it.item(P(v))
        if isnum(t):
            p, kk = lift(t)
            q, k2 = lift(start)
            return num(q + sum_over(v, it.n, p), "f" if "f" in (kk, k2) else "i")
        t = asarray(m, t)
        r = SArr(Store(t.shape, sum_over(v, it.n, t.read(IX[:t.ndim])), t.dtype))
        return m.binop("Add", start, r)
    r = start
    for y in it:
        r = m.binop("Add", r, y)
    return r


def b_anyall(isany):
    def f(m, a, k):
        it = m.iterate(a[0])
        if isinstance(it, SymSeq):
            v = fvar()
            t = it.item(P(v))
            p, kk = lift(t)
            if kk != "b":
                p = ONE - eq0(p)
            return num(gt0(sum_over(v, it.n, p)) if isany else eq0(sum_over(v, it.n, ONE - p)), "b")
        for x in it:
            if m.truth(x) == isany:
                return isany
        return not isany
    return f


def fixed_items(v):
    """the numbers of a vector as they are now"""
    if isinstance(v, SArr) and v.ndim == 1:
        return new_arr(v.shape, v.read, v.dtype)
    return v


def b_list(m, a, k):
    if not a:
        return SList([])
    it = m.iterate(fixed_items(a[0]))
    if isinstance(it, SymSeq):
        return it
    return SList(it)


def b_tuple(m, a, k):
    if not a:
        return ()
    it = m.iterate(fixed_items(a[0]))
    if isinstance(it, SymSeq):
        return it
    return tuple(it)


def b_dict(m, a, k):
    d = {}
    if a:
        d.update(a[0].d if isinstance(a[0], SDict) else {m.key(x[0]): x[1] for x in m.listof(a[0])})
    d.update(k)
    return SDict(d)


def b_set(m, a, k):
    if not a:
        return frozenset()
    xs = []
    for x in m.listof(a[0]):
        if not any(x is y or (isnum(x) and isnum(y) and m.truth(m.compare("Eq", x, y))) or x == y for y in xs):
            xs.append(x)
    return SymSet(xs)


class SymSet(tuple):
    """set of values known to be pairwise different"""
    def __new__(cls, xs):
        return super().__new__(cls, xs)


def b_abs(m, a, k):
    x = a[0]
    if isinstance(x, (int, float)):
        return abs(x)
    return ufunc(u_abs)(m, a, k)


def b_round(m, a, k):
    if isinstance(a[0], (int, float)):
        return round(a[0], *a[1:])
    return num(app("round", lift(a[0])[0]), "f")


def b_type(m, a, k):
    if isinstance(a[0], SObj):
        return a[0].cls
    if isinstance(a[0], SArr):
        return NDARRAY
    raise Unsupported("type()")


def b_setattr(m, a, k):
    m.setattr(a[0], a[1], a[2])


def b_print(m, a, k):
    return None


def b_callable(m, a, k):
    return isinstance(a[0], (SFunc, Bound, Builtin, SClass))


def b_divmod(m, a, k):
    return (m.binop("FloorDiv", a[0], a[1]), m.binop("Mod", a[0], a[1]))


def b_reversed(m, a, k):
    it = m.iterate(a[0])
    if isinstance(it, SymSeq):
        return SymSeq(it.n, lambda i: it.item(it.n - 1 - P(i)))
    return SList(list(reversed(it)))


def b_sorted(m, a, k):
    xs = m.listof(a[0])
    if all(isinstance(x, (int, float, str)) for x in xs) and not k:
        return SList(sorted(xs))
    raise Unsupported("sorted")


def b_map(m, a, k):
    it = m.iterate(a[1])
    if isinstance(it, SymSeq):
        return m.mapped(a[0], it)
    return SList([m.call(a[0], [x], {}) for x in it])


def signature(m, a, k):
    """inspect.signature(f).parameters: names of the parameters"""
    f = a[0]
    skip = 0
    if isinstance(f, Bound):
        skip, f = 1, f.f
    if isinstance(f, SClass):
        f = f.lookup("__init__")
        skip = 1
    if not isinstance(f, SFunc):
        raise Unsupported("signature")
    ar = f.node.args
    names = [x.arg for x in ar.posonlyargs + ar.args][skip:]
    if ar.vararg:
        names.append(ar.vararg.arg)
    names += [x.arg for x in ar.kwonlyargs]
    if ar.kwarg:
        names.append(ar.kwarg.arg)
    o = SObj(OBJ)
    o.attrs["parameters"] = SDict({n: Opaque("param") for n in names})
    return o


ITERABLE = SClass("Iterable", [OBJ], {}, native=True)
SEQUENCE = SClass("Sequence", [OBJ], {}, native=True)


class PBar:
    """progress bar: accepts everything, no effect"""


def build():
    bi = {}
    for n, f in dict(range=b_range, len=b_len, max=b_minmax(maxv), min=b_minmax(minv), abs=b_abs, isinstance=b_isinstance, hasattr=b_hasattr, getattr=b_getattr,
                     enumerate=b_enumerate, zip=b_zip, sum=b_sum, any=b_anyall(True), all=b_anyall(False), round=b_round, setattr=b_setattr,
                     type=b_type, print=b_print, callable=b_callable, divmod=b_divmod, reversed=b_reversed, sorted=b_sorted, map=b_map,
                     issubclass=lambda m, a, k: a[0].issub(a[1]), repr=lambda m, a, k: "<repr>", id=lambda m, a, k: id(a[0])).items():
        bi[n] = Builtin(n, f)
    for n, f in dict(list=b_list, tuple=b_tuple, dict=b_dict, set=b_set, frozenset=b_set).items():
        bi[n] = Builtin(n, f)
    for n in ("int", "float", "bool", "str"):
        bi[n] = PyType(n)
    bi["slice"] = Builtin("slice", lambda m, a, k: SSlice(None, a[0], None) if len(a) == 1 else SSlice(a[0], a[1], a[2] if len(a) > 2 else None))
    np_ = build_numpy()
    nbtypes = {n: NbType(n) for n in ("float64", "int32", "int64", "float32", "boolean")}
    nbcall = {n: NbFun(n) for n in nbtypes}
    nb = mkmod("numba", {**nbcall, "njit": Builtin("njit", identity_deco), "jit": Builtin("jit", identity_deco), "vectorize": Builtin("vectorize", vectorize),
                         "literal_unroll": Builtin("literal_unroll", lambda m, a, k: a[0]), "prange": Builtin("prange", b_range), "types": Opaque("types"), "typed": Opaque("typed")})
    jc = Builtin("jitclass", jitclass)
    nb.ns["experimental"] = mkmod("numba.experimental", {"jitclass": jc})
    opq = lambda n: Opaque(n)
    time_ = mkmod("time", {"time": Builtin("time", lambda m, a, k: num(var(fresh_name("clock")), "f"))})
    ext = {
        "numpy": np_, "numpy.linalg": np_.ns["linalg"], "numpy.random": np_.ns["random"], "numba": nb, "numba.experimental": nb.ns["experimental"],
        "time": time_, "inspect": mkmod("inspect", {"signature": Builtin("signature", signature)}),
        "logging": opq("logging"), "datetime": mkmod("datetime", {"datetime": DateTime()}), "typing": Typing(), "tqdm.auto": mkmod("tqdm.auto", {"tqdm": opq("tqdm")}),
        "tqdm": mkmod("tqdm", {"tqdm": opq("tqdm"), "auto": mkmod("tqdm.auto", {"tqdm": opq("tqdm")})}),
        "collections.abc": mkmod("collections.abc", {"Iterable": ITERABLE, "Sequence": SEQUENCE, "Callable": opq("Callable"), "Mapping": opq("Mapping")}),
        "__future__": Typing(), "scipy": mkmod("scipy", {"cluster": Cluster(), "spatial": Spatial()}), "copy": mkmod("copy", {"deepcopy": Builtin("deepcopy", b_deepcopy), "copy": Builtin("copy", b_copy)}),
        "math": mkmod("math", {"ceil": Builtin("ceil", lambda m, a, k: num(_ceil(lift(a[0])[0]), "i")), "floor": Builtin("floor", lambda m, a, k: num(_floor(lift(a[0])[0]), "i")),
                               "log": np_.ns["log"], "exp": np_.ns["exp"], "sqrt": np_.ns["sqrt"], "inf": float("inf")}),
        "warnings": opq("warnings"), "pathlib": opq("pathlib"), "importlib.metadata": opq("importlib.metadata"), "importlib": opq("importlib"),
    }
    return ext, bi


def b_copy(m, a, k):
    x = a[0]
    if isinstance(x, SDict):
        return SDict(x.d)
    if isinstance(x, SList):
        return SList(x.items)
    if isinstance(x, SArr):
        return copy_arr(x)
    if isinstance(x, SObj):
        return SObj(x.cls, dict(x.attrs))
    return x


def b_deepcopy(m, a, k):
    def go(x):
        if isinstance(x, SDict):
            return SDict({q: go(v) for q, v in x.d.items()})
        if isinstance(x, SList):
            return SList([go(v) for v in x.items])
        if isinstance(x, tuple):
            return tuple(go(v) for v in x)
        if isinstance(x, SArr):
            return copy_arr(x)
        if isinstance(x, SObj):
            return SObj(x.cls, {q: go(v) for q, v in x.attrs.items()})
        return x
    return go(a[0])


class NbFun(NbType):
    """numba scalar type, also callable to build signatures"""

    def __init__(self, n):
        super().__init__(n)


class Typing:
    def s_getattr(self, m, n):
        if n == "TYPE_CHECKING":
            return False
        return Opaque("typing." + n)


class DateTime:
    def s_getattr(self, m, n):
        return Opaque("datetime." + n)


LABELS = {}


class Cluster:
    """scipy.cluster: the labels are an uninterpreted function of the distances"""

    def s_getattr(self, m, n):
        if n == "hierarchy":
            return self
        if n == "linkage":
            def link(m, a, k):
                if len(a) > 2 or set(k) - {"y", "method"}:
                    raise Unsupported("options of linkage")
                y = arg(a, k, 0, "y")
                if isinstance(y, SArr) and y.ndim == 2:
                    y = "pdist", copy_arr(y)  # observations: scipy takes their Euclidean distances
                return "linkage", [y], (("method", arg(a, k, 1, "method", "single")),)
            return Builtin(n, link)
        if n == "fcluster":
            def f(m, a, k):
                L = a[0]
                if not (isinstance(L, tuple) and L and L[0] == "linkage"):
                    raise Unsupported("fcluster")
                d = L[1][0]
                if not (isinstance(d, tuple) and d and d[0] == "pdist"):
                    raise Unsupported("fcluster of unknown distances")
                x = d[1]
                t = lift(arg(a, k, 1, "t"))[0]
                meth_ = dict(L[2]).get("method", "single")
                crit = arg(a, k, 2, "criterion", "inconsistent")
                body = x.read((IX[0], IX[1]))
                _closed(m, x.shape[0], x.shape[1], body, t)
                key = ("cluster", x.shape[0], x.shape[1], body, t, meth_, str(crit))
                k = KEYED.setdefault(key, len(KEYED))
                nm = f"labels{k}"
                if nm not in ARRS:
                    terms.arr(nm, (x.shape[0],), isint=True, lo=1, pos=True)
                LABELS[nm] = key
                m.trusted.add("scipy: fcluster(linkage(pdist(x), 'centroid'), d, 'distance') gives equal points the same label and points of well separated groups different labels")
                return SArr(Store((x.shape[0],), rd(nm, (IX[0],)), "i"))
            return Builtin(n, f)
        raise Unsupported("scipy.cluster." + n)


class Spatial:
    def s_getattr(self, m, n):
        if n == "distance":
            return self
        if n == "pdist":
            def pdist(m, a, k):
                if len(a) != 1 or k:
                    raise Unsupported("options of pdist")
                x = copy_arr(asarray(m, a[0]))
                if x.ndim != 2:
                    raise PyRaise(EXC["ValueError"], ("A 2-dimensional array must be passed.",))
                return "pdist", x
            return Builtin(n, pdist)
        raise Unsupported("scipy.spatial." + n)


EXT, BUILTINS = None, None


def install(m):
    global EXT, BUILTINS
    if EXT is None:
        EXT, BUILTINS = build()
    m.witness = []
    m.ctx.axioms = [axioms, lambda atoms: witness_axioms(m, atoms)]
    m.loop_vars = []


# ------------------------------------------------- numeric meaning of the opaque functions
def _at(p):
    return the_var(p)


def _ev():
    import numpy as _np, math
    import prove
    from prove import APP_EVAL, Undef
    l0, l1, lo = _at(L0), _at(L1), _at(LO)

    def vec(it, env, n, body, b=l0):
        n = int(round(it.poly(n, env)))
        return _np.array([it.poly(body, {**env, b: j}) for j in range(n)], dtype=float)

    def one(f):
        return lambda it, env, x: float(f(float(it.poly(x, env))))
    snap = lambda x: round(x) if abs(x - round(x)) < 1e-9 else x
    APP_EVAL["sqrt"] = lambda it, env, x: (lambda y: y ** 0.5 if y > 0 else 0.0 if y > -1e-9 else _undef())(it.poly(x, env))
    APP_EVAL["trunc"] = one(lambda x: math.trunc(snap(x)))
    APP_EVAL["ceil"] = one(lambda x: math.ceil(snap(x)))
    APP_EVAL["floor"] = one(lambda x: math.floor(snap(x)))
    APP_EVAL["rint"] = one(lambda x: _np.rint(float(x)))
    APP_EVAL["f32"] = one(lambda x: _np.float32(float(x)))

    def fdiv(it, env, x, y):
        b = it.poly(y, env)
        if b == 0:
            raise Undef()
        return float(math.floor(snap(float(it.poly(x, env) / b))))
    APP_EVAL["floordiv"] = fdiv

    def amax(f):
        def g(it, env, n, body):
            x = vec(it, env, n, body)
            if not x.size:
                raise Undef()
            return float(f(x))
        return g
    APP_EVAL["argmax"], APP_EVAL["argmin"] = amax(_np.argmax), amax(_np.argmin)

    def asort(it, env, n, body, i):
        x = vec(it, env, n, body)
        i = int(round(it.poly(i, env)))
        if not 0 <= i < x.size or len(set(x)) < x.size:
            raise Undef()
        return float(_np.argsort(x)[i])
    APP_EVAL["argsort"] = asort
    i0, i1 = IDX(0), IDX(1)

    def perm(it, env, k, n, i):
        n, nk, keys = PERMS[int(round(it.poly(k, env)))]
        n, nk = int(round(it.poly(n, env))), int(round(it.poly(nk, env)))
        i = int(round(it.poly(i, env)))
        if not 0 <= i < n:
            raise Undef()
        K = [[it.poly(keys, {**env, i0: j, i1: q}) for q in range(n)] for j in range(nk)]
        return float(_np.lexsort(_np.array(K))[i])
    APP_EVAL["perm"] = perm

    def uq(it, env, k):
        n, body = UNIQ[int(round(it.poly(k, env)))]
        return sorted({it.poly(body, {**env, i0: q}) for q in range(int(round(it.poly(n, env))))})
    APP_EVAL["nuniq"] = lambda it, env, k: float(len(uq(it, env, k)))

    def uniq(it, env, k, i):
        u, i = uq(it, env, k), int(round(it.poly(i, env)))
        if not 0 <= i < len(u):
            raise Undef()
        return u[i]
    APP_EVAL["uniq"] = uniq

    def uniqpos(it, env, k, i):
        n, body = UNIQ[int(round(it.poly(k, env)))]
        x = uniq(it, env, k, i)
        return float([it.poly(body, {**env, i0: q}) for q in range(int(round(it.poly(n, env))))].index(x))
    APP_EVAL["uniqpos"] = uniqpos

    def labels(name):
        """the labels scipy gives for the values of the interpretation"""
        def gen(it):
            from scipy.cluster.hierarchy import linkage, fcluster
            _, n0, n1, body, t, meth_, crit = LABELS[name]
            n0, n1 = (int(round(float(it.poly(P(n))))) for n in (n0, n1))
            x = _np.array([[float(it.poly(body, {i0: r, i1: c})) for c in range(n1)] for r in range(n0)]).reshape(n0, n1)
            try:
                return fcluster(linkage(x, method=meth_), float(it.poly(t)), criterion=crit) if n0 > 1 else _np.ones(n0, int)
            except Exception:
                raise Undef()
        return gen
    prove.ARRAY_GEN = lambda name: labels(name) if name in LABELS else None

    def prod_(it, env, body, n):
        r = 1.0
        for q in range(int(round(it.poly(n, env)))):
            r *= it.poly(body, {**env, the_var(LP): q})
        return r
    APP_EVAL["prod"] = prod_

    def eigh(it, env, n, body, i):
        n = int(round(it.poly(n, env)))
        i = int(round(it.poly(i, env)))
        a = _np.array([[it.poly(body, {**env, l0: r, l1: c}) for c in range(n)] for r in range(n)], dtype=float)
        if not 0 <= i < n or not _np.isfinite(a).all():
            raise Undef()
        e = _np.linalg.eigvalsh(a)
        if abs(e).min() < 1e-6 * abs(e).max():
            raise Undef()
        return float(e[i])
    APP_EVAL["eigh"] = eigh

    def own(it, env, n, rep, i):
        r = vec(it, env, n, rep, lo)
        i = int(round(it.poly(i, env)))
        c = _np.cumsum(r)
        k = int(_np.searchsorted(c, i, side="right"))
        if i < 0 or k >= len(r):
            raise Undef()
        return float(k)
    APP_EVAL["owner"] = own

    def norm(it, env, o, n, body):
        return float(_np.linalg.norm(vec(it, env, n, body), ord=it.poly(o, env)))
    APP_EVAL["norm"] = norm

    def tri(role):
        def g(it, env, n, k, i):
            r = _np.triu_indices(int(round(it.poly(n, env))), int(round(it.poly(k, env))))[role]
            i = int(round(it.poly(i, env)))
            if not 0 <= i < len(r):
                raise Undef()
            return float(r[i])
        return g
    APP_EVAL["trir"], APP_EVAL["tric"] = tri(0), tri(1)

    def tripos(it, env, n, k, r, c):
        a, b = _np.triu_indices(int(round(it.poly(n, env))), int(round(it.poly(k, env))))
        w = _np.nonzero((a == round(it.poly(r, env))) & (b == round(it.poly(c, env))))[0]
        if not len(w):
            raise Undef()
        return float(w[0])
    APP_EVAL["tripos"] = tripos

    def _undef():
        raise Undef()


_ev()
