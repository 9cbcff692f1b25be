"""Input generation for the concrete (replay / bounded cross-check) layer.

Runs under the interpreter flory is installed in (/opt/venv/bin/python).  A `G`
object is a seeded random source that additionally knows constants mined from the
current sources and hints (dimensions, values) coming from refuted obligations, so
that rarely triggered branches are reached on purpose.
"""
from __future__ import annotations
import ast, os, glob
import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")


class Fail(Exception):
    def __init__(self, msg, **data):
        super().__init__(msg)
        self.msg = msg
        self.data = data


class Protocol(Exception):
    """a stand-in of the harness and the code do not understand each other"""


class Skip(Exception):
    pass


def mine_constants(files=None):
    """integers and floats occurring in the sources (docstrings are not constants)"""
    ints, floats = set(), set()
    files = files or glob.glob(os.path.join(REPO, "flory", "**", "*.py"), recursive=True)
    for f in files:
        try:
            tree = ast.parse(open(f).read())
        except (SyntaxError, OSError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    continue
                if isinstance(n.value, int):
                    ints.add(n.value)
                elif isinstance(n.value, float):
                    floats.add(n.value)
    return sorted(ints), sorted(floats)


class G:
    def __init__(self, seed, hints=None, mined=None, jit=False):
        self.rng = np.random.default_rng(seed)
        self.seed = seed
        self.hints = hints or {}
        ints, floats = mined if mined is not None else ([], [])
        self.mints = [i for i in ints if 2 <= i <= 72]
        self.mfloats = [f for f in floats if 0 < abs(f) < 1e6]
        self.jit = jit
        self.log = {}

    # ---------------------------------------------------------------- scalars
    def p(self, prob):
        return self.rng.random() < prob

    def choice(self, xs):
        return xs[int(self.rng.integers(len(xs)))]

    def dim(self, lo=1, hi=6, name=None, big=72):
        """a dimension: mostly small, sometimes one named by the sources or by a hint"""
        hs = self.hints.get("dims", {})
        pool = []
        if name and name in hs:
            pool = [h for h in hs[name] if lo <= h]
        elif hs.get("*"):
            pool = [h for h in hs["*"] if lo <= h]
        if pool and self.p(0.5):
            return int(self.choice(pool))
        if self.mints and self.p(0.12):
            c = self.choice(self.mints) + int(self.rng.integers(-1, 2))
            if lo <= c <= big:
                return int(c)
        if self.p(0.04):
            return int(self.rng.integers(max(lo, hi), max(lo, hi) * 4 + 1))
        return int(self.rng.integers(lo, hi + 1))

    def val(self, lo=-3.0, hi=3.0):
        hv = self.hints.get("values")
        if hv and self.p(0.2):
            v = float(self.choice(hv))
            if lo <= v <= hi:
                return v
        if self.mfloats and self.p(0.05):
            v = float(self.choice(self.mfloats)) * float(self.choice([1, 1, 1.0000001, 0.9999999, -1]))
            if lo <= v <= hi:
                return v
        return float(self.rng.uniform(lo, hi))

    def pos(self, lo=0.05, hi=20.0):
        v = self.val(lo, hi) if self.p(0.3) else float(np.exp(self.rng.uniform(np.log(lo), np.log(hi))))
        return v

    def intval(self, lo, hi):
        hv = [int(h) for h in self.hints.get("values", []) if float(h).is_integer() and lo <= h <= hi]
        if hv and self.p(0.3):
            return int(self.choice(hv))
        cand = [c + d for c in self.mints for d in (-1, 0, 1) if lo <= c + d <= hi]
        if cand and self.p(0.15):
            return int(self.choice(cand))
        return int(self.rng.integers(lo, hi + 1))

    # ----------------------------------------------------------------- arrays
    def arr(self, shape, lo=-3.0, hi=3.0, special=0.03):
        a = self.rng.uniform(lo, hi, size=shape)
        if a.size and special and self.p(0.5):
            m = self.rng.random(a.shape) < special
            pool = [x for x in (0.0, 1.0, -1.0, 0.5, 2.0) if lo <= x <= hi]
            hv = [float(h) for h in self.hints.get("values", []) if lo <= float(h) <= hi]
            mv = [f for f in self.mfloats if lo <= f <= hi]
            pool = pool + hv * 3 + mv[:40]
            if pool:
                a[m] = self.rng.choice(pool, size=int(m.sum()))
        return a

    def posarr(self, shape, lo=0.05, hi=20.0):
        return np.exp(self.rng.uniform(np.log(lo), np.log(hi), size=shape))

    def compositions(self, shape, n, zeros=False, normalized=True):
        shape = tuple(shape)
        a = self.rng.gamma(0.7, size=shape + (n,)) + 1e-9
        if zeros:
            a[self.rng.random(a.shape) < 0.3] = 0.0
        if normalized:
            s = a.sum(-1, keepdims=True)
            s[s == 0] = 1.0
            a = a / s
        elif not zeros:
            a = np.maximum(a, 1e-6)
        return a

    def batch(self):
        r = self.rng.random()
        if r < 0.25:
            return ()
        if r < 0.7:
            return (self.dim(1, 5, "batch"),)
        if r < 0.95:
            return (int(self.rng.integers(1, 4)), int(self.rng.integers(1, 4)))
        return (2, 1, 3)

    def layout(self, a):
        """the same values in some other memory layout / container"""
        a = np.asarray(a)
        r = self.rng.random()
        if r < 0.35:
            return a.copy()
        if r < 0.5:
            return np.asfortranarray(a)
        if r < 0.65 and a.ndim >= 1:
            big = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), a.dtype)
            big[..., ::2] = a
            return big[..., ::2]
        if r < 0.75 and a.ndim >= 1:
            return a[::-1].copy()[::-1]
        if r < 0.9:
            return a.tolist()
        b = a.copy()
        b.setflags(write=False)
        return b


def close(a, b, rtol=1e-9, atol=1e-9):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def need(cond, msg, **data):
    if not cond:
        raise Fail(msg, **data)


def same(a, b, msg, rtol=1e-9, atol=1e-9, **data):
    a_, b_ = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a_.shape != b_.shape:
        raise Fail(msg + f": shape {a_.shape} instead of {b_.shape}", observed=a, expected=b, **data)
    if not np.allclose(a_, b_, rtol=rtol, atol=atol, equal_nan=True):
        with np.errstate(all="ignore"):
            d = np.abs(a_ - b_)
        raise Fail(msg, observed=a, expected=b, max_abs_difference=float(np.nanmax(d)) if d.size else 0.0, **data)


CASES = {}


def case(prop, name, weight=1.0, jit_weight=None, slow=False):
    """register a concrete contract check; `weight` scales how often it is run"""

    def deco(f):
        CASES.setdefault(prop, []).append(
            dict(name=name, f=f, weight=weight, jit_weight=weight if jit_weight is None else jit_weight, slow=slow))
        return f

    return deco
