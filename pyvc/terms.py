"""Terms in ring normal form.

A numeric term is a Poly: a finite sum of rational coefficients times monomials; a monomial
is a product of integer powers of interned atoms.  Booleans are 0/1-valued Polys built from
indicator atoms ([not c] = 1-[c], conjunction = product), so if-then-else is polynomial and
equality of terms is (mostly) equality of normal forms.  Finite sums over index ranges are
atoms with a single-monomial body; linearity, factoring of independent parts, delta
elimination and peeling of constant offsets are part of the normal form.
"""
from __future__ import annotations
from fractions import Fraction
from itertools import islice, permutations, product

F0, F1 = Fraction(0), Fraction(1)


class Atom:
    __slots__ = ("kind", "args", "id", "fv", "height", "isint", "hasind")
    table: dict = {}
    byid: list = []

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(kind, args, isint=False):
    key = (kind, args)
    a = Atom.table.get(key)
    if a is None:
        a = Atom()
        if kind in ("gt", "eq", "bv"):
            isint = True
        a.kind, a.args, a.isint = kind, args, isint
        a.id = len(Atom.byid)
        fv, h, ind = set(), 0, kind in ("gt", "eq", "bv")
        if kind == "var":
            pass
        for x in args:
            for p in _polys(x):
                fv |= p.fv
                h = max(h, p.height)
                ind = ind or p.hasind
        if kind == "var":
            fv.add(a)
        if kind in ("sum", "maxb"):
            bs = args[0]
            for b, hi in bs:
                fv.discard(b)
            h += 1
        a.fv = frozenset(fv)
        a.height = h
        a.hasind = ind
        Atom.table[key] = a
        Atom.byid.append(a)
    return a


def _polys(x):
    if isinstance(x, Poly):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _polys(y)


class Poly:
    __slots__ = ("m", "_h", "_fv", "_height", "_hasind", "__weakref__")
    table: dict = {}

    @staticmethod
    def of(m: dict) -> "Poly":
        key = frozenset(m.items())
        p = Poly.table.get(key)
        if p is None:
            p = Poly()
            p.m = m
            p._h = hash(key)
            p._fv = None
            p._height = None
            p._hasind = None
            Poly.table[key] = p
        return p

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for mono in self.m:
                for a, e in mono:
                    s |= a.fv
            self._fv = frozenset(s)
        return self._fv

    @property
    def height(self):
        if self._height is None:
            self._height = max((a.height for mono in self.m for a, e in mono), default=0)
        return self._height

    @property
    def hasind(self):
        if self._hasind is None:
            self._hasind = any(a.hasind for mono in self.m for a, e in mono)
        return self._hasind

    @property
    def isint(self):
        return all(c.denominator == 1 and all(a.isint and e > 0 for a, e in mono) for mono, c in self.m.items())

    def const(self):
        """the rational value if constant else None"""
        if not self.m:
            return F0
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def atoms(self):
        s = {}
        for mono in self.m:
            for a, e in mono:
                s[a.id] = a
        return [s[i] for i in sorted(s)]

    def single(self):
        """(coeff, mono) if one monomial"""
        if len(self.m) == 1:
            (mono, c), = self.m.items()
            return c, mono
        return None

    def __repr__(self):
        return show(self)

    # arithmetic -----------------------------------------------------------
    def __add__(self, o):
        o = P(o)
        if not self.m:
            return o
        if not o.m:
            return self
        r = dict(self.m)
        for k, c in o.m.items():
            v = r.get(k, F0) + c
            if v:
                r[k] = v
            else:
                r.pop(k, None)
        return Poly.of(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly.of({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def scale(self, c):
        if c == 0:
            return ZERO
        if c == 1:
            return self
        return Poly.of({k: v * c for k, v in self.m.items()})

    def __mul__(self, o):
        o = P(o)
        c = o.const()
        if c is not None:
            return self.scale(c)
        c = self.const()
        if c is not None:
            return o.scale(c)
        r = {}
        work = 0
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                work += 1
                if work > 200000:
                    raise TooBig()
                for k, f in mono_mul(k1, k2):
                    v = r.get(k, F0) + c1 * c2 * f
                    if v:
                        r[k] = v
                    else:
                        r.pop(k, None)
        return Poly.of(r)

    __rmul__ = __mul__

    def __pow__(self, n):
        if n == 0:
            return ONE
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            b = b * b if n > 1 else b
            n >>= 1
        return r


class TooBig(Exception):
    pass


def P(x) -> Poly:
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return Poly.of({(): Fraction(x)}) if x else ZERO
    if isinstance(x, Fraction):
        return Poly.of({(): x}) if x else ZERO
    if isinstance(x, float):
        return P(Fraction(repr(x)))
    if isinstance(x, Atom):
        return Poly.of({((x, 1),): F1})
    raise TypeError(f"not a term: {x!r}")


ZERO = Poly.of({})
ONE = Poly.of({(): F1})


def mono_mul(k1, k2):
    """product of two monomials -> list of (mono, coeff)"""
    if not k1:
        return [(k2, F1)]
    if not k2:
        return [(k1, F1)]
    d = {}
    for a, e in k1:
        d[a] = e
    for a, e in k2:
        d[a] = d.get(a, 0) + e
    exps = []
    out = []
    inds = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.kind in IND:
            inds.append(a)
            out.append((a, 1))
        elif a.kind == "exp":
            exps.append((a, e))
        else:
            out.append((a, e))
    if len(inds) > 1:
        gts = {a.args[0] for a in inds if a.kind == "gt"}
        eqs = {a.args[0] for a in inds if a.kind == "eq"}
        if gts & eqs:
            return []
        if contradictory(inds):
            return []
    for a in inds:
        if a.kind == "eq" and len(a.args[0].m) == 1:
            # [x == 0] * x = 0
            z, = a.args[0].m
            if len(z) == 1 and z[0][1] == 1 and d.get(z[0][0], 0) > 0:
                return []
    if exps:
        if len(exps) == 1 and exps[0][1] == 1:
            out.append(exps[0])
        else:
            s = ZERO
            for a, e in exps:
                s = s + a.args[0].scale(Fraction(e))
            ex = exp(s)
            out.sort(key=lambda t: t[0].id)
            base = Poly.of({tuple(out): F1}) if out else ONE
            r = base * ex if not _is_exp_atom(ex) else Poly.of({tuple(sorted(out + list(next(iter(ex.m))), key=lambda t: t[0].id)): F1})
            return list(r.m.items())
    out.sort(key=lambda t: t[0].id)
    return [(tuple(out), F1)]


def _is_exp_atom(p):
    s = p.single()
    return s and s[0] == 1 and len(s[1]) == 1 and s[1][0][0].kind == "exp"


IND = ("gt", "eq", "bv")


def _lin_shift(p):
    """(p without constant, constant)"""
    c = p.m.get((), F0)
    if c:
        m = dict(p.m)
        del m[()]
        return Poly.of(m), c
    return p, F0


def contradictory(inds):
    """cheap contradictions between indicator atoms of one monomial (same linear form)"""
    by = {}
    for a in inds:
        if a.kind == "bv":
            continue
        q, c = _lin_shift(a.args[0])
        by.setdefault(q, []).append((a.kind, c))
        nq = -q
        if nq in by and nq is not q:
            for k2, c2 in by[nq]:
                # q + c > 0 (or ==0) and -q + c2 > 0 (or == 0): sum c + c2 > 0
                s = c + c2
                if (a.kind, k2) == ("gt", "gt"):
                    if s <= 0 or (q.isint and s <= 1 and False):
                        return True
                    if q.isint and s < 2:
                        return True
                elif "gt" in (a.kind, k2):
                    if s <= 0:
                        return True
                elif s != 0:
                    return True
    for q, l in by.items():
        eqc = {c for k, c in l if k == "eq"}
        if len(eqc) > 1:
            return True
        if eqc:
            c0 = next(iter(eqc))  # q = -c0
            if any(k == "gt" and -c0 + c <= 0 for k, c in l):
                return True
    return False


# ---------------------------------------------------------------- basic atoms
class VarInfo:
    def __init__(self, name, isint, lo=None, pos=False, nonneg=False):
        self.name, self.isint, self.lo, self.pos, self.nonneg = name, isint, lo, pos, nonneg


VARS: dict = {}
_fresh = [0]


def fresh_name(base):
    _fresh[0] += 1
    return f"{base}~{_fresh[0]}"


def var(name, isint=False, lo=None, pos=False, nonneg=False) -> Poly:
    a = mk("var", (name, isint), isint)
    if name not in VARS:
        VARS[name] = VarInfo(name, isint, lo, pos, nonneg)
    return P(a)


def ivar(name, lo=None):
    return var(name, True, lo)


def the_var(p: Poly):
    s = p.single()
    if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1 and s[1][0][0].kind == "var":
        return s[1][0][0]
    return None


class ArrInfo:
    def __init__(self, name, shape, isint=False, pos=False, nonneg=False, sym=False, isbool=False, lo=None, hi=None):
        self.name, self.shape, self.isint, self.pos, self.nonneg, self.sym, self.isbool = name, tuple(P(s) for s in shape), isint, pos, nonneg, sym, isbool
        self.lo, self.hi = lo, hi


ARRS: dict = {}


def arr(name, shape, **kw) -> ArrInfo:
    a = ArrInfo(name, shape, **kw)
    ARRS[name] = a
    return a


def rd(name, idx) -> Poly:
    info = ARRS[name]
    idx = tuple(P(i) for i in idx)
    if info.sym and len(idx) == 2:
        idx = tuple(sorted(idx, key=_symkey))
    if info.isbool:
        return P(mk("bv", (name, idx)))
    return P(mk("rd", (name, idx), info.isint))


def _symkey(p):
    return tuple(sorted((tuple((a.id, e) for a, e in m), c) for m, c in p.m.items()))


def bvar(name) -> Poly:
    return P(mk("bv", (name, ())))


def app(fn, *args, isint=False) -> Poly:
    return P(mk("app", (fn,) + tuple(args), isint))


def known_pos(p) -> bool:
    p = P(p)
    if not p.m:
        return False
    return all(c > 0 for c in p.m.values()) and all(mono_sign(m) == 1 for m in p.m) or (
        all(c > 0 and mono_sign(m) >= 0 for m, c in p.m.items()) and any(mono_sign(m) == 1 for m in p.m))


def known_nonneg(p) -> bool:
    p = P(p)
    return all(c > 0 and mono_sign(m) >= 0 for m, c in p.m.items())


def mono_sign(mono):
    """1: >0, 0: >=0, -1: unknown"""
    s = 1
    for a, e in mono:
        t = atom_sign(a)
        if e % 2 == 0 and e > 0:
            t = max(t, 0)
        if t == -1 and any(b.kind == "gt" and _is_atom(b.args[0], a) for b, _ in mono):
            t = 0  # x^e [x > 0] >= 0
        if t == -1:
            return -1
        if e < 0 and t == 0:
            t = 0
        s = min(s, t)
    return s


def _is_atom(p, a):
    return len(p.m) == 1 and p.m.get(((a, 1),)) == 1


def atom_sign(a):
    k = a.kind
    if k == "var":
        if a.args[0][0] in "$@":
            return 0
        i = VARS.get(a.args[0])
        if i is None:
            return -1
        if i.pos or (i.lo is not None and i.lo > 0):
            return 1
        if i.nonneg or i.lo is not None and i.lo >= 0:
            return 0
        return -1
    if k == "rd":
        i = ARRS[a.args[0]]
        return 1 if i.pos else 0 if i.nonneg else -1
    if k == "exp":
        return 1
    if k in IND:
        return 0
    if k == "abs":
        return 0
    if k == "sum":
        return 0 if known_nonneg(a.args[1]) else -1
    if k == "inv":
        return 1 if known_pos(a.args[0]) else 0 if known_nonneg(a.args[0]) else -1
    if k == "maxb":
        return 0 if known_nonneg(a.args[1]) else -1
    if k == "max":
        return 1 if any(known_pos(x) for x in a.args[0]) else 0 if any(known_nonneg(x) for x in a.args[0]) else -1
    if k == "app" and a.args[0] in ("sqrt",):
        return 0
    return -1


# ------------------------------------------------------------------ functions
def exp(p) -> Poly:
    p = P(p)
    if not p.m:
        return ONE
    # exp(c*log(x)) with integer c and nothing else in that monomial
    rest, fac = {}, ONE
    for mono, c in p.m.items():
        if len(mono) == 1 and mono[0][0].kind == "log" and mono[0][1] == 1 and c.denominator == 1:
            fac = fac * mono[0][0].args[0] ** int(c)
        else:
            rest[mono] = c
    if fac is not ONE:
        r = Poly.of(rest)
        return fac * exp(r)
    return P(mk("exp", (p,)))


def log(p) -> Poly:
    p = P(p)
    c = p.const()
    if c == 1:
        return ZERO
    s = p.single()
    if s and (s[0] > 0) and len(s[1]) >= 1:
        c, mono = s
        if all(atom_sign(a) == 1 for a, e in mono) and not (c == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].kind != "exp"):
            r = ZERO
            if c != 1:
                r = r + P(mk("log", (P(c),)))
            for a, e in mono:
                if a.kind == "exp":
                    r = r + a.args[0].scale(Fraction(e))
                else:
                    r = r + P(mk("log", (P(a),))).scale(Fraction(e))
            return r
    return P(mk("log", (p,)))


def content(p: Poly):
    """p = c * mono * q with q primitive (leading coeff 1, no common monomial)"""
    monos = list(p.m)
    common = dict(monos[0])
    for m in monos[1:]:
        d = dict(m)
        for a in list(common):
            if a not in d or a.kind == "exp":
                e = 0
            else:
                e = min(common[a], d[a])
            if a in d and common[a] == d[a]:
                e = common[a]
            if e:
                common[a] = e
            else:
                del common[a]
    # negative exponents: make everything polynomial
    for m in monos:
        for a, e in m:
            if e < 0 and a not in common:
                common[a] = min(e, common.get(a, 0))
            elif e < 0:
                common[a] = min(common[a], e)
    cm = tuple(sorted(common.items(), key=lambda t: t[0].id))
    icm = Poly.of({tuple((a, -e) for a, e in cm): F1}) if cm else ONE
    # indicators cannot be divided out
    if any(a.kind in IND for a in common):
        cm = tuple((a, e) for a, e in cm if a.kind not in IND)
        icm = Poly.of({tuple((a, -e) for a, e in cm): F1}) if cm else ONE
    q = p * icm
    lead = q.m[min(q.m, key=lambda m: tuple((a.id, e) for a, e in m))]
    return lead, (Poly.of({cm: F1}) if cm else ONE), q.scale(1 / lead)


def inv(p) -> Poly:
    p = P(p)
    s = p.single()
    if s:
        c, mono = s
        if not any(a.kind in IND for a, e in mono):
            r = ONE.scale(1 / c)
            d = []
            for a, e in mono:
                if a.kind == "exp":
                    r = r * exp(-a.args[0].scale(Fraction(e)))
                elif a.kind == "inv":
                    r = r * a.args[0] ** e if e > 0 else r * P(a) ** (-e)
                else:
                    d.append((a, -e))
            return r * Poly.of({tuple(d): F1}) if d else r
    if not p.m:
        return P(mk("app", ("undef0",)))
    c, m, q = content(p)
    if q.single():
        r = P(mk("inv", (q,))) if any(a.kind in IND for a, e in q.single()[1]) else inv(q)
    else:
        r = P(mk("inv", (q,)))
    r = r.scale(1 / c)
    return r * inv(m) if m is not ONE else r


def div(a, b):
    return P(a) * inv(P(b))


def leadneg(p):
    lead = p.m[min((m for m in p.m), key=lambda m: tuple((a.id, e) for a, e in m) if m else ((1 << 60, 0),))]
    return lead < 0


def absv(p) -> Poly:
    p = P(p)
    c = p.const()
    if c is not None:
        return P(abs(c))
    if known_nonneg(p):
        return p
    if known_nonneg(-p):
        return -p
    # factor out nonnegative common atoms and constants
    common = None
    for mono in p.m:
        d = {a: e for a, e in mono if atom_sign(a) >= 0 and e > 0}
        common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d and a.kind != "exp"}
    fac = ONE
    if common:
        fac = Poly.of({tuple(sorted(common.items(), key=lambda t: t[0].id)): F1})
        m2 = {}
        for mono, c in p.m.items():
            d = dict(mono)
            for a, e in common.items():
                d[a] -= e
            k = tuple((a, e) for a, e in sorted(d.items(), key=lambda t: t[0].id) if e)
            m2[k] = m2.get(k, F0) + c
        p = Poly.of({k: c for k, c in m2.items() if c})
        if known_nonneg(p):
            return fac * p
    lead = p.m[min(p.m, key=lambda m: tuple((a.id, e) for a, e in m))]
    p = p.scale(1 / lead)
    return fac * P(mk("abs", (p,))).scale(abs(lead))


def indicator_only(p):
    at = p.atoms()
    return all(a.kind in IND for a in at) and len(at) <= 4


def mobius(p, f):
    """apply f to the value of a poly consisting of few indicator atoms"""
    at = p.atoms()
    r = ZERO
    n = len(at)
    for mask in range(1 << n):
        sub = {at[i]: (mask >> i) & 1 for i in range(n)}
        on = [at[i] for i in range(n) if (mask >> i) & 1]
        if on and contradictory(on) or ({a.args[0] for a in on if a.kind == "gt"} & {a.args[0] for a in on if a.kind == "eq"}):
            continue
        v = F0
        for mono, c in p.m.items():
            if all(sub[a] for a, e in mono):
                v += c
        w = f(v)
        if not w:
            continue
        t = P(w)
        for i in range(n):
            t = t * (P(at[i]) if sub[at[i]] else ONE - P(at[i]))
        r = r + t
    return r


def maxv(*ps) -> Poly:
    """max of several terms as a flattened sorted atom"""
    flat = []
    for p in ps:
        p = P(p)
        s = p.single()
        if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][0].kind == "max" and s[1][0][1] == 1:
            flat += list(s[1][0][0].args[0])
        else:
            flat.append(p)
    if len(flat) == 2:
        for a, b in ((flat[0], flat[1]), (flat[1], flat[0])):
            c = b.const()
            if c is not None and a.const() is None and indicator_only(a):
                return mobius(a, lambda v: max(v, c))
    consts = [p.const() for p in flat if p.const() is not None]
    rest = []
    for p in flat:
        if p.const() is None and p not in rest:
            rest.append(p)
    if consts:
        c = max(consts)
        if not rest:
            return P(c)
        if not any(known_nonneg(p - c) for p in rest):
            rest.append(P(c))
    if len(rest) == 1:
        return rest[0]
    # drop elements dominated by another
    keep = [p for p in rest if not any(q is not p and known_nonneg(q - p) for q in rest)]
    rest = keep or rest
    if len(rest) == 1:
        return rest[0]
    # max(f, -f) = |f|, also below the maximum over an index
    for i, p in enumerate(rest):
        for q in rest[i + 1:]:
            r = absv(p) if (p + q).m == {} else _abs_of_extrema(p, q)
            if r is not None:
                return maxv(r, *[x for x in rest if x is not p and x is not q])
    rest.sort(key=_symkey)
    return P(mk("max", (tuple(rest),), all(p.isint for p in rest)))


def _maxb_parts(p):
    s = p.single()
    if not s or s[0] <= 0:
        return None
    mb = [a for a, e in s[1] if a.kind == "maxb" and e == 1]
    if len(mb) != 1 or len(mb[0].args[0]) != 1:
        return None
    rest = [(a, e) for a, e in s[1] if a is not mb[0]]
    if any(atom_sign(a) != 1 for a, e in rest):
        return None
    (v, hi), = mb[0].args[0]
    return hi, v, mb[0].args[1], Poly.of({tuple(rest): s[0]})


def _abs_of_extrema(p, q):
    """max(max_v f(v), max_v -f(v)) = max_v |f(v)|"""
    a, b = _maxb_parts(p), _maxb_parts(q)
    if a is None or b is None or a[0] is not b[0]:
        return None
    v = mk("var", (fresh_name("$s"), True), True)
    f, g = subst(a[2], {a[1]: P(v)}) * a[3], subst(b[2], {b[1]: P(v)}) * b[3]
    if (f + g).m:
        return None
    return maxb_over(v, a[0], absv(f))


def minv(*ps):
    return -maxv(*[-P(p) for p in ps])


# ------------------------------------------------------------------ booleans
def gt0(p) -> Poly:
    """[p > 0]"""
    p = P(p)
    c = p.const()
    if c is not None:
        return ONE if c > 0 else ZERO
    if known_pos(p):
        return ONE
    if known_nonneg(-p):
        return ZERO
    if indicator_only(p):
        return mobius(p, lambda v: 1 if v > 0 else 0)
    if not p.isint and len(p.m) == 1 and known_nonneg(p):
        return ONE - eq0(p)
    if len(p.m) <= 2:
        r = _extremum_gt0(p)
        if r is not None:
            return r
    if p.isint:
        # normalise gcd, canonical sign
        from math import gcd
        g = 0
        for m, c in p.m.items():
            if m:
                g = gcd(g, int(c))
        k = p.m.get((), F0)
        q, _ = _lin_shift(p)
        q = q.scale(Fraction(1, g))
        # g*q + k > 0  <=>  q > -k/g  <=> q >= floor(-k/g)+1 <=> q - floor(-k/g) > 0
        fl = (-k / g).numerator // (-k / g).denominator
        p = q - fl
        if leadneg(q):
            # [p>0] = 1 - [-p >= 0] = 1 - [-p + 1 > 0]
            return ONE - P(mk("gt", (-p + 1,)))
        return P(mk("gt", (p,)))
    lead = p.m[min((m for m in p.m), key=lambda m: tuple((a.id, e) for a, e in m) if m else ((1 << 60, 0),))]
    if lead < 0:
        q = p.scale(1 / lead)  # p = lead*q, lead<0 : p>0 <=> q<0
        return ONE - P(mk("gt", (q,))) - P(mk("eq", (q,))) if not known_pos(q) else ZERO
    return P(mk("gt", (p.scale(1 / lead),)))


def _extremum_gt0(p):
    """max_v f(v) > c exactly if f(v) > c for some v: the form numpy.any has, too"""
    c = p.m.get((), F0)
    rest = [(m, k) for m, k in p.m.items() if m]
    if len(rest) != 1 or len(rest[0][0]) != 1 or rest[0][0][0][1] != 1 or rest[0][0][0][0].kind != "maxb":
        return None
    k = rest[0][1]
    bs, body = rest[0][0][0][0].args
    fr = {b: mk("var", (fresh_name("$s"), True), True) for b, h in bs}
    sb = {b: P(x) for b, x in fr.items()}
    x = subst(body, sb).scale(abs(k))
    r = gt0(x + c) if k > 0 else ONE - gt0(P(c) - x)
    for b, h in reversed(bs):
        r = sum_over(fr[b], subst(h, sb), r)
    return gt0(r) if k > 0 else ONE - gt0(r)


def ge0(p) -> Poly:
    p = P(p)
    if p.isint:
        return gt0(p + 1)
    return ONE - gt0(-p)


def eq0(p) -> Poly:
    p = P(p)
    c = p.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    if known_pos(p) or known_pos(-p):
        return ZERO
    if indicator_only(p):
        return mobius(p, lambda v: 1 if v == 0 else 0)
    if p.isint:
        from math import gcd
        g = 0
        for m, c in p.m.items():
            if m:
                g = gcd(g, int(c))
        k = p.m.get((), F0)
        if k % g:
            return ZERO
        p = p.scale(Fraction(1, g))
    lead = p.m[min((m for m in p.m), key=lambda m: tuple((a.id, e) for a, e in m) if m else ((1 << 60, 0),))]
    if not p.isint or abs(lead) == 1:
        p = p.scale(1 / lead) if not p.isint else (p if lead > 0 else -p)
    elif lead < 0:
        p = -p
    return P(mk("eq", (p,)))


def lt(a, b):
    return gt0(P(b) - P(a))


def le(a, b):
    return ge0(P(b) - P(a))


def eq(a, b):
    return eq0(P(a) - P(b))


def nt(a):
    return ONE - P(a)


def conj(*xs):
    r = ONE
    for x in xs:
        r = r * P(x)
    return r


def disj(a, b):
    a, b = P(a), P(b)
    return a + b - a * b


def ite(c, a, b):
    c = P(c)
    if c is ONE:
        return P(a)
    if c is ZERO:
        return P(b)
    a, b = P(a), P(b)
    if a is b:
        return a
    return c * (a - b) + b


# ---------------------------------------------------------------------- sums
def bvar_at(h, j):
    return mk("var", (f"$b{h}.{j}", True), True)


def sum_over(v: Atom, hi, body) -> Poly:
    """sum of body for v = 0 .. hi-1"""
    hi, body = P(hi), P(body)
    if not body.m:
        return ZERO
    c = hi.const()
    if c is not None:
        if c <= 0:
            return ZERO
        if c <= 12:
            r = ZERO
            for i in range(int(c)):
                r = r + subst(body, {v: P(i)})
            return r
    # peel constant offset of the upper bound
    q, k = _lin_shift(hi)
    if k > 0 and q.m and known_nonneg(q):
        r = sum_over(v, q, body)
        for i in range(int(k)):
            r = r + subst(body, {v: q + i})
        return r
    if k < 0 and q.m and known_nonneg(q + k):
        r = sum_over(v, q, body)
        for i in range(1, int(-k) + 1):
            r = r - subst(body, {v: q - i})
        return r
    if v not in body.fv:
        if not known_nonneg(hi):
            return body * P(mk("max", ((tuple(sorted([hi, ZERO], key=_symkey))),), True)) if False else body * _npos(hi)
        return body * hi
    res = ZERO
    for mono, c in body.m.items():
        res = res + sum_mono(v, hi, mono).scale(c)
    return res


SUM_RULES, CLOSE_RULES = [], []  # lemmas on sums over library functions, see npmodel


def _npos(hi):
    return hi  # index ranges are non-negative by convention (shapes)


def runs_backwards(v, p):
    """the array elements are read at positions e - v only"""
    neg = False
    for a in all_atoms(p):
        if a.kind in ("rd", "bv") and v in a.fv:
            for x in a.args[1]:
                if isinstance(x, Poly) and v in x.fv:
                    c = lin_coeff(x, v)
                    if c is None or c >= 0:
                        return False
                    neg = neg or c == -1
    return neg


def sum_mono(v, hi, mono) -> Poly:
    inner = Poly.of({tuple((a, e) for a, e in mono if v in a.fv): F1})
    if runs_backwards(v, inner):
        # the sum in the opposite order: v -> hi - 1 - v
        rest = Poly.of({tuple((a, e) for a, e in mono if v not in a.fv): F1})
        return rest * sum_over(v, hi, subst(inner, {v: hi - 1 - P(v)}))
    out, inn = [], []
    for a, e in mono:
        (inn if v in a.fv else out).append((a, e))
    fac = Poly.of({tuple(out): F1}) if out else ONE
    if not inn:
        return fac * hi
    for rule in SUM_RULES:
        r = rule(v, hi, inn)
        if r is not None:
            return fac * r
    # delta elimination
    for a, e in inn:
        if a.kind == "eq":
            sol = solve_int(a.args[0], v)
            if sol is not None:
                rest = Poly.of({tuple(x for x in inn if x[0] is not a): F1}) if len(inn) > 1 else ONE
                g = conj(ge0(sol), gt0(hi - sol))
                return fac * g * subst(rest, {v: sol})
    # guards v < e  (gt: e - v > 0 appears as 1-[v-e+1>0], canonical sign decides); [v - e > 0] = lower bound
    for a, e in inn:
        if a.kind == "gt":
            p = a.args[0]
            cv = lin_coeff(p, v)
            if cv is None or abs(cv) != 1:
                continue
            rest_p = p - P(v).scale(cv)
            if v in rest_p.fv or not rest_p.isint:
                continue
            rest = Poly.of({tuple(x for x in inn if x[0] is not a): F1}) if len(inn) > 1 else ONE
            if cv == -1:
                # rest_p - v > 0 : v < rest_p
                nb = rest_p
                if known_nonneg(nb) and known_nonneg(hi - nb):
                    return fac * sum_over(v, nb, rest)
                if known_nonneg(nb - hi):
                    return fac * sum_over(v, hi, rest)
            else:
                # v + rest_p > 0 : v >= 1 - rest_p
                lo = ONE - rest_p
                if known_nonneg(-lo):
                    return fac * sum_over(v, hi, rest)
                if known_nonneg(lo) and known_nonneg(hi - lo):
                    return fac * (sum_over(v, hi, rest) - sum_over(v, lo, rest))
    # connected components after flattening inner sums
    binders = [(v, hi)]
    bp = ONE
    plain = {}
    for a, e in inn:
        if a.kind == "sum" and e == 1:
            bs, ib = a.args
            ren = {}
            nb = []
            for b, h in bs:
                nv = mk("var", (fresh_name("$s"), True), True)
                ren[b] = P(nv)
                nb.append((b, nv, h))
            for b, nv, h in nb:
                binders.append((nv, subst(h, ren)))
            bp = bp * subst_raw(ib, ren)
        else:
            plain[a] = plain.get(a, 0) + e
    # merge through poly multiplication (exp merging etc.)
    for a, e in plain.items():
        bp = bp * Poly.of({((a, e),): F1})
    if not bp.m:
        return ZERO
    s = bp.single()
    if not s:
        r = ZERO
        for mm, c in bp.m.items():
            r = r + _close_sum(binders, mm).scale(c)
        return fac * r
    return fac * _close_sum(binders, s[1]).scale(s[0])


def _close_sum(binders, mono) -> Poly:
    """product of Sum atoms for the connected components"""
    for rule in CLOSE_RULES:
        r = rule(binders, mono)
        if r is not None:
            return r
    bset = {b for b, h in binders}
    hi = dict(binders)
    # union-find via repeated merging
    comps = []
    for b in bset:
        vs = {b} | (set(hi[b].fv) & bset)
        comps.append(vs)
    items = []
    free = []
    for a, e in mono:
        vs = set(a.fv) & bset
        if not vs:
            free.append((a, e))
            continue
        items.append(((a, e), vs))
        comps.append(set(vs))
    merged = []
    for c in comps:
        c = set(c)
        nm = []
        for m in merged:
            if m & c:
                c |= m
            else:
                nm.append(m)
        nm.append(c)
        merged = nm
    res = Poly.of({tuple(sorted(free, key=lambda t: t[0].id)): F1}) if free else ONE
    for comp in merged:
        its = [it for it, vs in items if vs & comp]
        if not its and len(comp) == 1:
            b, = comp
            res = res * hi[b]
            continue
        res = res * canon_sum([(b, hi[b]) for b, h in binders if b in comp], its)
    return res


def _skel(x, col):
    """structure of a term with the binders replaced by their colours; independent of their names"""
    if type(x) is Atom:
        if x in col:
            return col[x]
        if not any(b in x.fv for b in col):
            return f"#{x.id}"
        return f"{x.kind}({_skel(x.args, col)})"
    if type(x) is Poly:
        if not any(b in x.fv for b in col):
            return "p" + _skel_key(x)
        return "{" + ";".join(sorted(f"{c}:" + ",".join(sorted(f"{_skel(a, col)}^{e}" for a, e in mono)) for mono, c in x.m.items())) + "}"
    if type(x) in (tuple, list):
        return "(" + ",".join(_skel(y, col) for y in x) + ")"
    return repr(x)


def _skel_key(p):
    return ";".join(sorted(f"{c}:" + ",".join(f"{a.id}^{e}" for a, e in mono) for mono, c in p.m.items()))


def binder_orders(binders, body):
    """candidate orders of many binders: sorted by an invariant, permuted only where it does not separate them"""
    names = [b for b, hh in binders]
    depth = {}

    def dep(b):
        if b not in depth:
            depth[b] = 0
            hh = next(h for x, h in binders if x is b)
            depth[b] = max([1 + dep(x) for x in names if x in hh.fv and x is not b], default=0)
        return depth[b]
    col = {b: "_" for b in names}
    for rnd in range(3):
        sig = {b: f"{dep(b):02d} " + _skel(hh, col) + " " + _skel(body, {**col, b: "*" + col[b]}) for b, hh in binders}
        rank = {s: i for i, s in enumerate(sorted(set(sig.values())))}
        new = {b: f"_{rank[sig[b]]}" for b in names}
        if new == col:
            break
        col = new
    groups = {}
    for i, b in enumerate(names):
        groups.setdefault(rank[sig[b]], []).append(i)
    res = product(*[permutations(groups[r]) for r in sorted(groups)])
    return (tuple(i for g in t for i in g) for t in islice(res, 720))


NPERM = 3


def canon_sum(binders, its) -> Poly:
    its = sorted(its, key=lambda t: t[0].id)
    body = Poly.of({tuple(its): F1})
    h = max([body.height] + [hh.height for b, hh in binders]) + 1
    best = None
    n = len(binders)
    perms = permutations(range(n)) if n <= NPERM else binder_orders(binders, body)
    for perm in perms:
        # dependent bounds must come after the binder they mention
        pos = {binders[i][0]: p for p, i in enumerate(perm)}
        if any(x in pos and pos[x] >= pos[b] for b, hh in binders for x in hh.fv):
            continue
        ren = {binders[i][0]: P(bvar_at(h, p)) for p, i in enumerate(perm)}
        nb = subst_raw(body, ren)
        bs = tuple((bvar_at(h, p), subst_raw(binders[i][1], ren)) for p, i in enumerate(perm))
        s = nb.single()
        if s is None:
            continue
        key = (tuple((a.id, e) for a, e in s[1]), tuple(_symkey(hh) for b, hh in bs))
        if best is None or key < best[0]:
            best = (key, bs, nb)
    if best is None:
        return _split_sum(binders, body, h)
    key, bs, nb = best
    c, mono = nb.single()
    nb1 = Poly.of({mono: F1})
    isint = nb1.isint
    return P(mk("sum", (bs, nb1), isint)).scale(c)


def _split_sum(binders, body, h) -> Poly:
    """renaming the binders turns the body into several monomials (orientation of comparisons)"""
    order = []
    rest = list(binders)
    while rest:
        for x in rest:
            if not any(y[0] in x[1].fv for y in rest if y is not x):
                order.append(x)
                rest.remove(x)
                break
        else:
            raise TooBig("cyclic bounds")
    ren = {b: P(bvar_at(h, p)) for p, (b, hh) in enumerate(order)}
    nb = subst_raw(body, ren)
    bs = tuple((bvar_at(h, p), subst_raw(hh, ren)) for p, (b, hh) in enumerate(order))
    bset = {b for b, hh in bs}
    res = ZERO
    for mono, c in nb.m.items():
        p1 = Poly.of({mono: F1})
        if bset <= set(p1.fv):
            res = res + P(mk("sum", (bs, p1), p1.isint)).scale(c)
            continue
        fr = {b: mk("var", (fresh_name("$s"), True), True) for b, hh in bs}
        sb = {b: P(x) for b, x in fr.items()}
        r = subst_raw(p1, sb)
        for b, hh in reversed(bs):
            r = sum_over(fr[b], subst_raw(hh, sb), r)
        res = res + r.scale(c)
    return res


def lin_coeff(p: Poly, v: Atom):
    """coefficient of v if p is linear in v (v occurring nowhere else), else None"""
    c = p.m.get(((v, 1),), F0)
    for mono in p.m:
        if mono == ((v, 1),):
            continue
        if any(v in a.fv for a, e in mono):
            return None
    return c


def solve_int(p: Poly, v: Atom):
    """solution of p == 0 for v if linear with coefficient +-1"""
    c = lin_coeff(p, v)
    if c in (1, -1):
        return (P(v).scale(c) - p).scale(c)
    return None


def maxb_over(v, hi, body, guard=None) -> Poly:
    """max over v<hi of body (hi >= 1)"""
    body, hi = P(body), P(hi)
    if v not in body.fv:
        return body
    c = hi.const()
    if c is not None and 1 <= c <= 6:
        return maxv(*[subst(body, {v: P(i)}) for i in range(int(c))])
    if runs_backwards(v, body):
        body = subst(body, {v: hi - 1 - P(v)})
    # common positive factors free of v
    c = ONE
    common = None
    for mono in body.m:
        d = {a: e for a, e in mono if v not in a.fv and atom_sign(a) == 1}
        common = d if common is None else {a: e for a, e in common.items() if d.get(a) == e}
    cf = None
    coefs = {abs(x) for x in body.m.values()}
    g = coefs.pop() if len(coefs) == 1 else F1
    fac = P(g)
    if common:
        fac = fac * Poly.of({tuple(sorted(common.items(), key=lambda t: t[0].id)): F1})
    body = body * inv(fac)
    binders = [(v, hi)]
    s = body.single()
    if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][0].kind == "maxb" and s[1][0][1] == 1:
        bs, ib = s[1][0][0].args
        ren = {}
        nb = []
        for b, h in bs:
            nv = mk("var", (fresh_name("$s"), True), True)
            ren[b] = P(nv)
            nb.append((nv, h))
        binders += [(nv, subst(h, ren)) for nv, h in nb]
        body = subst(ib, ren)
    h = max([body.height] + [hh.height for b, hh in binders]) + 1
    best = None
    n = len(binders)
    for perm in permutations(range(n)):
        pos = {binders[i][0]: p for p, i in enumerate(perm)}
        if any(x in pos and pos[x] >= pos[b] for b, hh in binders for x in hh.fv):
            continue
        ren = {binders[i][0]: P(bvar_at(h, p)) for p, i in enumerate(perm)}
        nb = subst_raw(body, ren)
        bs = tuple((bvar_at(h, p), subst_raw(binders[i][1], ren)) for p, i in enumerate(perm))
        key = (_symkey(nb), tuple(_symkey(hh) for b, hh in bs))
        if best is None or key < best[0]:
            best = (key, bs, nb)
    return fac * P(mk("maxb", (best[1], best[2]), best[2].isint))


# --------------------------------------------------------------- substitution
def subst(p: Poly, s: dict) -> Poly:
    """substitute variable atoms by polys (capture free, renormalising)"""
    p = P(p)
    if not s:
        return p
    ks = set(s)
    for k in ks:
        if type(k) is not Atom:
            raise TypeError("substitution of a term that is not a variable")
    if not (p.fv & ks):
        return p
    return _Subst(s).poly(p)


subst_raw = subst


class _Subst:
    def __init__(self, s, atomfn=None):
        self.s = s
        self.ks = set(s)
        self.memo = {}
        self.atomfn = atomfn

    def touch(self, x):
        return self.atomfn is not None or bool(x.fv & self.ks)

    def poly(self, p):
        if not self.touch(p):
            return p
        r = self.memo.get(p)
        if r is not None:
            return r
        acc = ZERO
        simple = {}
        for mono, c in p.m.items():
            t = None
            keep = []
            for a, e in mono:
                if not self.touch(a):
                    keep.append((a, e))
                    continue
                q = self.atom(a)
                if e < 0:
                    q = inv(q) ** (-e)
                elif e > 1:
                    q = q ** e
                t = q if t is None else t * q
            if t is None:
                simple[mono] = simple.get(mono, F0) + c
            else:
                k = Poly.of({tuple(keep): F1}) if keep else ONE
                acc = acc + (k * t).scale(c)
        if simple:
            acc = acc + Poly.of(simple)
        self.memo[p] = acc
        return acc

    def atom(self, a):
        r = self.memo.get(a)
        if r is None:
            r = self._atom(a)
            self.memo[a] = r
        return r

    def _atom(self, a):
        k = a.kind
        if self.atomfn is not None:
            q = self.atomfn(a)
            if q is not None:
                return q
        if k == "var":
            return self.s.get(a, P(a))
        if k == "rd":
            return rd(a.args[0], tuple(self.poly(i) for i in a.args[1]))
        if k == "bv":
            if not a.args[1]:
                return P(a)
            return rd(a.args[0], tuple(self.poly(i) for i in a.args[1]))
        if k == "exp":
            return exp(self.poly(a.args[0]))
        if k == "log":
            return log(self.poly(a.args[0]))
        if k == "inv":
            return inv(self.poly(a.args[0]))
        if k == "abs":
            return absv(self.poly(a.args[0]))
        if k == "gt":
            return gt0(self.poly(a.args[0]))
        if k == "eq":
            return eq0(self.poly(a.args[0]))
        if k == "max":
            return maxv(*[self.poly(x) for x in a.args[0]])
        if k in ("sum", "maxb"):
            bs, body = a.args
            if self.atomfn is None and not (a.fv & self.ks):
                return P(a)
            ren = {}
            nb = []
            for b, hi in bs:
                nv = mk("var", (fresh_name("$o"), True), True)
                VARS.setdefault(nv.args[0], VarInfo(nv.args[0], True, 0))
                ren[b] = P(nv)
                nb.append((nv, hi))
            body = subst(body, ren)
            nb = [(nv, subst(hi, ren)) for nv, hi in nb]
            inner = _Subst(self.s, self.atomfn)
            inner.memo = self.memo
            r = inner.poly(body)
            for nv, hi in reversed(nb):
                r = (sum_over if k == "sum" else maxb_over)(nv, inner.poly(hi), r)
            return r
        if k == "app":
            return rebuild_app(a, [self.poly(x) if isinstance(x, Poly) else x for x in a.args[1:]])
        raise NotImplementedError(k)


APP_BUILD = {}


def rebuild_app(a, args):
    f = APP_BUILD.get(a.args[0])
    if f:
        return f(*args)
    return app(a.args[0], *args, isint=a.isint)


def map_atoms(p, fn):
    """rewrite atoms bottom-up-ish: fn(atom) -> Poly or None"""
    return _Subst({}, fn).poly(P(p))


def contains(p, pred):
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            return any(go(y) for y in x)
        if isinstance(x, Poly):
            if x in seen:
                return False
            seen.add(x)
            return any(ga(a) for mono in x.m for a, e in mono)
        if isinstance(x, Atom):
            return ga(x)
        return False

    def ga(a):
        if a in seen:
            return False
        seen.add(a)
        return pred(a) or any(go(y) for y in a.args)

    return go(P(p))


def all_atoms(p):
    """all atoms occurring anywhere (also under binders)"""
    seen, order = set(), []

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, Poly):
            if x in seen:
                return
            seen.add(x)
            for mono in x.m:
                for a, e in mono:
                    ga(a)
        elif isinstance(x, Atom):
            ga(x)

    def ga(a):
        if a in seen:
            return
        seen.add(a)
        for y in a.args:
            go(y)
        order.append(a)

    go(p)
    return order


# ------------------------------------------------------------ differentiation
def diff(p: Poly, name: str, idx) -> Poly:
    """partial derivative with respect to the array element name[idx]"""
    idx = tuple(P(i) for i in idx)
    return _diff(P(p), name, idx)


def _dep(a, name):
    return contains(P(a), lambda x: x.kind == "rd" and x.args[0] == name)


def _diff(p, name, idx):
    r = ZERO
    for mono, c in p.m.items():
        for n, (a, e) in enumerate(mono):
            if not _dep(a, name):
                continue
            rest = mono[:n] + mono[n + 1:]
            rp = Poly.of({rest: F1}) if rest else ONE
            lower = Poly.of({((a, e - 1),): F1}) if e != 1 else ONE
            r = r + (rp * lower * _diff_atom(a, name, idx)).scale(c * e)
    return r


def _diff_atom(a, name, idx):
    k = a.kind
    if k == "rd":
        if a.args[0] != name:
            return ZERO
        return conj(*[eq(x, y) for x, y in zip(a.args[1], idx)])
    if k == "exp":
        return P(a) * _diff(a.args[0], name, idx)
    if k == "log":
        return div(_diff(a.args[0], name, idx), a.args[0])
    if k == "inv":
        return -P(a) * P(a) * _diff(a.args[0], name, idx)
    if k in IND:
        return ZERO
    if k == "sum":
        bs, body = a.args
        ren, nb = {}, []
        for b, hi in bs:
            nv = mk("var", (fresh_name("$d"), True), True)
            VARS.setdefault(nv.args[0], VarInfo(nv.args[0], True, 0))
            ren[b] = P(nv)
            nb.append((nv, hi))
        r = _diff(subst(body, ren), name, idx)
        for nv, hi in reversed(nb):
            r = sum_over(nv, subst(hi, ren), r)
        return r
    raise NotImplementedError("derivative of " + k)


# -------------------------------------------------------------------- display
def show(p, n=400):
    p = P(p)
    if not p.m:
        return "0"
    out = []
    for mono, c in sorted(p.m.items(), key=lambda t: tuple((a.id, e) for a, e in t[0])):
        ms = "*".join(show_atom(a) + (f"^{e}" if e != 1 else "") for a, e in mono)
        cs = str(c)
        if ms:
            out.append(ms if c == 1 else "-" + ms if c == -1 else cs + "*" + ms)
        else:
            out.append(cs)
    s = " + ".join(out)
    return s if len(s) <= n else s[:n] + "…"


def show_atom(a):
    k = a.kind
    if k == "var":
        return a.args[0]
    if k in ("rd", "bv"):
        return a.args[0] + ("[" + ",".join(show(i) for i in a.args[1]) + "]" if a.args[1] else "")
    if k == "gt":
        return f"[{show(a.args[0])} > 0]"
    if k == "eq":
        return f"[{show(a.args[0])} == 0]"
    if k in ("sum", "maxb"):
        bs, body = a.args
        return ("Σ" if k == "sum" else "max") + "_{" + ",".join(f"{b.args[0]}<{show(h)}" for b, h in bs) + "}(" + show(body) + ")"
    if k == "max":
        return "max(" + ",".join(show(x) for x in a.args[0]) + ")"
    if k == "app":
        return a.args[0] + "(" + ",".join(show(x) if isinstance(x, Poly) else str(x) for x in a.args[1:]) + ")"
    return k + "(" + ",".join(show(x) for x in a.args if isinstance(x, Poly)) + ")"
