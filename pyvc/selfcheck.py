"""Differential check of the verifier itself: programs over numpy are executed symbolically (for arrays of
symbolic size) and by the real interpreter; the symbolic result, evaluated at random sizes and values, must be
the value the real program computes.   python3-vt pyvc/selfcheck.py [seed] [rounds] [-v]
"""
from __future__ import annotations
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from terms import *
from interp import Machine, SArr, SList, Num, Unsupported, PyRaise, lift, isnum, sym_arr, num
from prove import Interp, Undef

# a, b : float vectors (N)   p, q : positive vectors (N)   A, B : float (N, N)   R : float (M, N)   w : positive (M)
# k, l : int vectors (N), 1..4   x, y : floats   n : int = N, m : int = M
SNIPPETS = r"""
a + 2 * b - a * b / p
a ** 2 - b ** 3 + 1 / p
-a
np.abs(a - b)
np.maximum(a, b) + np.minimum(a, 0.5)
np.where(a > b, a, b * 2)
np.where(a > 0, 1.0, 0.0).sum()
(a > b).sum()
(a > 0).astype(float)
(a >= b) & (a > 0)
(a > 0) | (b > 0)
~(a > 0)
np.logical_and(a > 0, b > 0)
np.any(a > b)
np.all(a > -100)
np.sign(a - b)
np.clip(a, -0.5, 0.5)
a.clip(0.0)
np.sign(a - x).clip(0.0)
np.exp(a) * np.exp(b) / np.exp(a - b)
np.log(p) + np.log(p * q)
np.sqrt(p) if hasattr(np, "nosuch") else p
a.sum()
a.mean()
a.max() - a.min()
np.max(np.abs(a))
max(a.max(), -a.min())
A.sum(axis=0)
A.sum(axis=1)
A.sum(axis=-1)
A.sum()
R.sum(axis=0)
R.mean(axis=0)
R.max(axis=1)
R.T @ w
w @ R
R @ a
A @ B
A @ a @ b
np.dot(a, b)
np.dot(A, a)
np.einsum("i,ij,j->", a, A, b)
np.einsum("...i,...j,ij->...", R, R, A)
np.einsum("ij,j->i", A, a)
np.outer(a, b)
a[:, None] * b[None, :]
a[:, np.newaxis] - b
A.T - A
np.transpose(A)
0.5 * (A + A.T)
A[0]
A[:, 0]
A[-1]
a[-1]
a[::-1]
a[1:]
a[:-1]
a[1:] - a[:-1]
R[..., 0, None] - R
R[:, -1]
np.delete(a, 0)
np.delete(A, 0, axis=0)
np.zeros_like(a) + np.ones_like(b)
np.full_like(a, 3.0)
np.zeros((m, n)) + a
np.ones(n) * x
np.full((n, n), x)
np.eye(n) * x
np.diag(a)
np.diag(A)
np.arange(n)
np.arange(n) * a
np.repeat(a, k)
np.repeat(np.repeat(A, k, axis=0), k, axis=1)
np.repeat(a, 2)
np.concatenate([a, b])
np.append(a, x)
np.broadcast_to(a, (m, n))
np.broadcast_to(x, (n,))
np.array(a)
np.asarray(a, dtype=float)
np.atleast_1d(x)
np.reshape(a, (-1, 1))
a.reshape(1, -1)
a.reshape(-1)
R.copy()
np.cumsum(k)
np.average(R, weights=w, axis=0)
np.average(a, weights=p)
np.sum(p)
np.count_nonzero(a > 0)
np.linalg.norm(a) if False else a
np.isclose(x, x)
np.allclose(a, a)
np.array_equal(a, a)
a.shape[0] + len(b)
R.shape[1]
float(x) + int(n)
abs(x) + max(x, y) + min(x, y, 0.3)
x if x > y else y
(x > y) + 0
n // 2
n % 3
-n // 2
x * n + m
[v for v in (1, 2, 3)][1]
sum([x, y, 1])
np.take(R, [0], axis=-1)
np.triu_indices(n, k=1)[0].shape[0]
np.nan_to_num(a) if False else a
np.array([x, y, x + y])
np.array([[x, y], [y, x]])
np.stack([a, b])
np.vstack([a, b])
np.ptp(a) if False else a
R[:, a > 0].sum() if False else a
w[w > 1].sum()
R[w > 1].sum(axis=0)
(w[w > 1] @ R[w > 1])
(w[w > 1][:, None] * R[w > 1]).sum(axis=0)
np.einsum("i,i", a, b)
np.sum(a * b, axis=-1)
np.inner(a, b)
np.square(a)
np.fill_diagonal(A, 0) if False else a
np.expand_dims(a, 0)
np.squeeze(a[None, :], axis=0) if False else a
np.swapaxes(A, 0, 1)
np.ascontiguousarray(A.T)
np.moveaxis(R, 0, 1) if False else R
np.divide(a, p)
np.multiply(a, b)
np.add(a, b)
np.subtract(a, x)
np.less(a, b)
np.hstack([a, b])
np.trace(A)
np.take(a, [0])
A.take([0], axis=1)
A.swapaxes(0, 1)
np.expand_dims(A, 1)
np.expand_dims(a, -1)
np.einsum("ij,jk", A, B)
np.append(a, b)
np.ravel(a)
np.floor(x)
np.ceil(x)
int(x)
round(x) if False else x
np.greater_equal(a, x)
np.power(p, 2)
np.mean(R, axis=-1)
np.unique(k).shape[0] if False else k
---
s = 0.0
for i in range(n):
    s += a[i] * b[i]
r = s
---
r = np.zeros(n)
for i in range(n):
    r[i] = a[i] - x
---
r = np.zeros(n)
for i in range(n):
    for j in range(n):
        r[i] += A[i, j] * b[j]
---
r = np.zeros((n, n))
for i in range(n):
    r[i, i] = a[i]
---
r = np.zeros((m, n, n))
i = np.arange(n)
r[..., i, i] = R
---
r = np.zeros((n, n))
i = np.arange(n)
r[i, i] = a
---
r = np.zeros(n + 1)
r[1:] = a
r[0] = x
---
r = np.zeros((n, n))
iu = np.triu_indices(n, k=1)
r[iu] = A[iu]
r = r + r.T
---
r = A[np.triu_indices(n, k=1)]
---
i = 0
s = 0.0
while i < n:
    s += p[i]
    i += 1
r = s + i
---
i = n - 1
s = np.zeros(n)
while i >= 0:
    s[i] = a[i] + i
    i = i - 1
r = s
---
t = (0.0, 0.0, 0)
for i in range(n):
    t = (a[i], p[i] * i, i)
r = t[0] + t[1] * 2 + t[2]
---
i = 0
while i < n:
    i += 1
    r = a[i - 1] * i
r = r + i
---
k = n
done = False
s = 0.0
while k > 0 and not done:
    k -= 1
    s += p[k]
    done = a[k] > x
r = s + k
---
k = 0
s = 0.0
stop = False
while not stop and k < n:
    t = (a[k], p[k])
    s = t[0] * 2 + t[1]
    stop = t[0] > 0
    k = k + 1
r = s + k
---
w = 0.0
for v in p:
    if v > w:
        w = v
r = w
---
w = 0.0
for v in p:
    if w < v * x:
        w = v * x
r = w
---
w = a[0]
for i in range(n):
    if not w >= a[i]:
        w = a[i]
r = w
---
u = 0
q = 0
for v in a:
    if v > x:
        u += 2
        q += 2
r = u - q
---
r = 0.0
for i in range(n - 1, -1, -1):
    r += a[i] * i
---
r = 0.0
for v in a:
    r += v * v
---
r = 0
for v in a:
    if v > x:
        r += 1
---
r = np.zeros(n)
for i, v in enumerate(a):
    r[i] = v * i
---
r = np.zeros(n)
for u, v in zip(a, b):
    r += u * v
---
c = a.copy()
q = [c[i] * 2 for i in range(n)]
c += 1
r = np.array(q)
---
c = a.copy()
q = list(c)
c += 1
r = np.array(q)
---
c = M.copy()
q = [c[:, i] for i in range(c.shape[1])]
c += 1
r = np.array([v.sum() for v in q])
---
c = M.copy()
q = [v for v in c]
c[0] += 1
r = np.array(q).sum()
---
c = np.zeros(n)
def put(i):
    c[i] += b[i]
    return c[i] + 1
q = [put(i) for i in range(n)]
r = c + np.array(q)
---
t = 0.0
c = np.zeros(n)
def put(v):
    c[:] += v
    return v * 2
r = np.array(list(map(put, a))) + c
---
r = 0
for u, v in zip(a, (1, 2)):
    r += u * v
---
q = [(i, v) for i, v in enumerate(a)]
r = 0
for i, v in q:
    r += i * v
---
q = list(a)[1:]
r = 0
for v in q:
    r += v * v
---
q = [x] * n
r = np.array(q) + a
---
q = [v * 2 for v in a]
r = q[-1] + q[0]
---
s = 0
r = np.zeros(n)
c = np.repeat(a, k)
for i in range(n):
    for _ in range(k[i]):
        r[i] += c[s]
        s += 1
---
s = 0
r = np.zeros(n)
c = np.repeat(a, k)
for i in range(n):
    r[i] = c[s:s + k[i]].sum()
    s += k[i]
---
r = a[0]
for i in range(n):
    r = max(r, a[i])
---
t = 1.0
r = np.zeros(n)
for i in range(n):
    r[i] = t * p[i]
    t *= 1 - p[i]
---
r = a.copy()
r += b
r *= 2
r -= x
r /= p
---
c = a
c += 1.0
r = a
---
c = a.copy()
c += 1.0
r = a
---
c = R[0]
c[:] = a
r = R
---
c = R.T
c[0] = 1.5
r = R
---
c = np.array(a)
c[0] = 7.0
r = a + c
---
r = np.empty(n)
r.fill(x)
---
r = np.empty((m, n))
r[:] = a
r[0] = x
---
r = a.copy()
r[r > x] = y
---
r = [v * 2 for v in (x, y)]
r = np.array(r)
---
def f(u, v=1.0, *rest, **kw):
    return u * v + sum(rest) + kw.get("z", 0)
r = f(x) + f(x, y) + f(x, y, 1, 2) + f(x, v=y, z=3)
---
class P:
    c = 2
    def __init__(self, v):
        self.v = v
    @property
    def twice(self):
        return self.c * self.v
    @classmethod
    def make(cls, v):
        return cls(v + 1)
class Q(P):
    c = 3
    def __init__(self, v):
        super().__init__(v)
        self.v += 1
r = P(x).twice + Q.make(y).twice
---
try:
    if x > y:
        raise ValueError("no")
    r = 1
except ValueError:
    r = 2
---
d = {"u": x, "v": y}
d.update(v=n)
d = {**d, "w": 1}
r = d["u"] + d["v"] + d.get("w", 5) + d.get("z", 7) + len(d)
---
r = x
for i in range(n):
    if a[i] > 0:
        continue
    r = a[i]
---
r = 0
for i in range(n):
    if a[i] > x:
        r = i + 1
        break
else:
    r = -1
---
mask = a > x
r = np.zeros(n)
r[mask] = 1.0
r = r * b
---
u, v = x, y
u, v = v, u
r = u - 2 * v
---
r = (lambda t: t + x)(y)
---
Js = w.copy()
mask = np.sign(Js - 0.5).clip(0.0)
c = mask.sum()
Js *= mask
Js += 1 - Js.sum() / (c + 1)
Js *= mask
r = Js
---
F = np.repeat(np.arange(n), k)
r = a[F]
---
F = np.repeat(np.arange(n), k)
r = A[np.ix_(F, F)]
---
r = np.zeros(n)
r[:] = p / p.sum()
r[-1] = 1 - r[:-1].sum()
"""


def snippets():
    parts = SNIPPETS.split("\n---\n")
    out = [f"r = {s}" for s in parts[0].strip().splitlines() if s.strip() and "if False" not in s and "nosuch" not in s]
    return out + [p.strip() for p in parts[1:]]


def symbolic(src):
    """paths of the symbolic execution: (context, kind, value, machine)"""
    m = Machine()
    N, M = ivar("N", 1), ivar("M", 1)
    mk = lambda nm, shape, **kw: sym_arr(nm, [P(s) for s in shape], kw.pop("dtype", "f"), **kw)

    def thunk():
        ns = dict(n=num(N, "i"), m=num(M, "i"), x=num(var("x"), "f"), y=num(var("y"), "f"))
        for nm, sh, kw in (("a", (N,), {}), ("b", (N,), {}), ("p", (N,), dict(pos=True)), ("q", (N,), dict(pos=True)),
                           ("A", (N, N), {}), ("B", (N, N), {}), ("R", (M, N), {}), ("w", (M,), dict(pos=True)),
                           ("k", (N,), dict(dtype="i", lo=1)), ("l", (N,), dict(dtype="i", lo=1))):
            ns[nm] = mk(nm, sh, **kw)
        return m.client("import numpy as np\n" + src, ns)["r"]

    res = []
    for pc, out, snap, ctx, *_ in m.explore(thunk):
        m.restore(snap)
        kind, val = out
        if kind == "raise":
            res.append((ctx, kind, None, None))
            continue
        if isinstance(val, SArr):
            res.append((ctx, kind, val.shape, val.read(tuple(npmodel_ix(val.ndim)))))
        elif isnum(val):
            res.append((ctx, kind, (), lift(val)[0]))
        else:
            raise Unsupported(f"result of type {type(val).__name__}")
    return res


def npmodel_ix(n):
    from interp import IX
    return IX[:n]


def concrete(src, N, M, rng):
    arrs = {nm: rng.normal(size=N) for nm in "ab"}
    arrs.update({nm: rng.uniform(0.05, 0.95, size=N) for nm in "pq"})
    arrs.update({nm: rng.normal(size=(N, N)) for nm in "AB"})
    arrs["R"] = rng.normal(size=(M, N))
    arrs["w"] = np.exp(rng.normal(size=M))
    arrs.update({nm: rng.integers(1, 4, size=N) for nm in "kl"})
    vals = dict(N=N, M=M, x=float(rng.normal()), y=float(rng.normal()))
    ns = {k: v.copy() for k, v in arrs.items()}
    ns.update(n=N, m=M, x=vals["x"], y=vals["y"], np=np)
    try:
        exec(compile(src, "snippet", "exec"), ns)
        r = ("ok", np.asarray(ns["r"], dtype=float))
    except Exception as e:  # noqa
        r = ("raise", repr(e))
    return arrs, vals, r


def holds(it, ctx):
    for f in ctx.facts:
        try:
            if not it.poly(P(f)):
                return False
        except Undef:
            return None
    return True


def abstract(ctx, body):
    """the result mentions values the verifier knows nothing about (sound over-approximation)"""
    from interp import IDX
    known = {"N", "M", "x", "y"} | {IDX(i).args[0] for i in range(8)} | set("abpqABRwkl")
    bound = set()
    ats = [a for p in [P(f) for f in ctx.facts] + ([body] if body is not None else []) for a in all_atoms(p)]
    for a in ats:
        if a.kind in ("sum", "maxb"):
            bound |= {v for v, h in a.args[0]}
    for a in ats:
        if a.kind == "var" and a not in bound and a.args[0] not in known and not a.args[0].startswith("$L"):
            return True
        if a.kind in ("rd", "bv") and a.args[0] not in known:
            return True
    return False


def run(seed=1, rounds=4, verbose=False):
    rng = np.random.default_rng(seed)
    bad, skipped, done = [], [], 0
    from interp import IDX
    for src in snippets():
        try:
            paths = symbolic(src)
        except Unsupported as e:
            skipped.append((src, str(e)))
            continue
        except RecursionError:
            skipped.append((src, "recursion"))
            continue
        if any(abstract(ctx, body) for ctx, k, shape, body in paths):
            skipped.append((src, "over-approximated"))
            continue
        for r in range(rounds):
            N, M = int(rng.integers(1, 5)), int(rng.integers(1, 5))
            arrs, vals, (kind, want) = concrete(src, N, M, rng)
            hit = 0
            for ctx, k, shape, body in paths:
                it = Interp(rng, vals, arrs)
                it.total = True
                h = holds(it, ctx)
                if not h:
                    continue
                hit += 1
                if (k == "raise") != (kind == "raise"):
                    bad.append((src, f"N={N} M={M}: symbolic {k}, real {kind} {want if kind == 'raise' else ''}"))
                    continue
                if k == "raise":
                    continue
                sh = tuple(int(round(it.poly(s))) for s in shape)
                if sh != want.shape:
                    bad.append((src, f"N={N} M={M}: shape {sh}, real {want.shape}"))
                    continue
                got = np.empty(sh)
                try:
                    for ix in np.ndindex(*sh):
                        got[ix] = it.poly(body, {IDX(d): i for d, i in enumerate(ix)})
                except Undef:
                    bad.append((src, f"N={N} M={M}: no value"))
                    continue
                if not np.allclose(got, want, rtol=1e-9, atol=1e-9):
                    bad.append((src, f"N={N} M={M}: {got.tolist()}, real {want.tolist()}"))
            if hit != 1:
                bad.append((src, f"N={N} M={M}: {hit} symbolic paths apply"))
            done += 1
    return bad, skipped, done


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    t = time.time()
    bad, skipped, done = run(int(args[0]) if args else 1, int(args[1]) if len(args) > 1 else 4)
    print(f"selfcheck: {len(snippets())} programs, {len(skipped)} outside the subset, {done} comparisons, {len(bad)} differences, {time.time() - t:.1f} s")
    for s, w in bad[:20]:
        print("DIFFERENCE", repr(s)[:200], "|", w[:300])
    if "-v" in sys.argv:
        for s, w in skipped:
            print("outside", repr(s)[:120], "|", w)
    sys.exit(1 if bad else 0)
