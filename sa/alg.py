"""Scalar abstract domain: sign-decorated polynomial forms.

An abstract scalar is a polynomial with rational coefficients over *atoms*.  Atoms are
either base quantities introduced by a scenario (an element of a weight, of a bound, a
slack that is known to be nonnegative ...) or applications of a primitive function
(positive part, reciprocal, exp ...) to an abstract scalar; applications are hash-consed,
so equal computations get equal names (value numbering).  A weight known only up to its
sign is introduced as its Jordan decomposition W = P - N with P, N >= 0 and P*N = 0, which
makes max(W, 0) and min(W, 0) plain polynomial operations: this is the polarity part of the
domain.

Order queries (`nonneg`) are answered from the signs of monomials after clearing positive
denominators, with case splits on positive parts and the first-order (tangent / chord)
inequality of convex functions.  An unanswered query is `None`; `refute` looks for an
instance of the base atoms on which a query fails, it gates every alarm.
"""
from __future__ import annotations

import math
import random
from fractions import Fraction

ATOMS: list["Atom"] = []
_INTERN: dict = {}


class Atom:
    __slots__ = ("id", "name", "kind", "args", "sgn", "partner", "fn", "partition", "opposite")

    def __init__(self, name, kind, args=(), sgn="*", fn=None):
        self.id = len(ATOMS)
        self.name = name
        self.kind = kind
        self.args = args
        self.sgn = sgn  # '+' > 0, '0+' >= 0, '*' unknown
        self.partner = None
        self.opposite = None
        self.fn = fn
        ATOMS.append(self)

    def __repr__(self):
        return self.name


FACTS = {}  # key of the primitive part -> True when known to be >= 0


def fact_nonneg(p):
    if p.t and not p.is_const():
        g, cm, prim = content(p)
        if g < 0:
            prim = -prim
        if mono_sign(cm) != 1:
            prim = prim * Poly({cm: 1})
        FACTS[prim.key()] = True


def decided(p):
    """value of a 0/1 combination of one comparison, when recorded facts or a proof decide the comparison"""
    ms = [m for m in p.t if m]
    if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1:
        return None
    at = ATOMS[ms[0][0][0]]
    if at.kind != "ind":
        return None
    q = -at.args[0]
    if FACTS.get(q.key()) or nonneg(q) is True:
        return p.t.get((), 0)
    return None


def reset_atoms():
    ATOMS.clear()
    _INTERN.clear()
    FACTS.clear()


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def to_coef(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        return _norm(v)
    if isinstance(v, float):
        if v != v or v in (math.inf, -math.inf):
            raise OverflowError("infinite coefficient")
        if v == int(v):
            return int(v)
        f = Fraction(v).limit_denominator(10**6)
        if float(f) == v:
            return f
        return Fraction(v)
    if type(v).__name__ == "ndarray":
        raise TooBig("array used as a coefficient")
    raise TypeError(f"not a coefficient: {v!r}")


MAX_TERMS = 6000


class TooBig(Exception):
    pass


class Poly:
    __slots__ = ("t", "_key", "_h")

    def __init__(self, t):
        self.t = t
        self._key = None
        self._h = None

    # -- identity
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        if isinstance(o, (int, float, Fraction)) and not isinstance(o, bool):
            o = const(o)
        if not isinstance(o, Poly):
            return NotImplemented
        return self.t == o.t

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    # -- arithmetic
    def __add__(self, o):
        if not isinstance(o, Poly):
            o = const(o)
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = _norm(v)
        if len(r) > MAX_TERMS:
            raise TooBig()
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = const(o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, Poly):
            o = const(o)
        if not self.t or not o.t:
            return ZERO
        if len(o.t) == 1 and () in o.t:
            c = o.t[()]
            return self if c == 1 else Poly({m: _norm(c * d) for m, d in self.t.items()})
        if len(self.t) == 1 and () in self.t:
            c = self.t[()]
            return o if c == 1 else Poly({m: _norm(c * d) for m, d in o.t.items()})
        if len(self.t) * len(o.t) > 40 * MAX_TERMS:
            raise TooBig()
        r: dict = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                if m is None:
                    continue
                v = r.get(m, 0) + c1 * c2
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
        if len(r) > MAX_TERMS:
            raise TooBig()
        return Poly({m: _norm(c) for m, c in r.items()})

    __rmul__ = __mul__

    def __pow__(self, n):
        if isinstance(n, Poly):
            if n.is_const():
                n = n.cval()
            else:
                return apply_fn("power", self, n)
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, Fraction) or isinstance(n, float):
            if n == Fraction(1, 2):
                return apply_fn("sqrt", self)
            return apply_fn("power", self, const(n))
        if n < 0:
            return recip(self) ** (-n)
        r = ONE
        for _ in range(n):
            r = r * self
        return r

    def __truediv__(self, o):
        if not isinstance(o, Poly):
            o = const(o)
        return div(self, o)

    def __rtruediv__(self, o):
        return div(const(o), self)

    def __repr__(self):
        return show(self)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n == 0:
            del d[a]
        else:
            at = ATOMS[a]
            if at.kind == "ind":
                n = 1
                if at.opposite is not None and at.opposite in d:
                    return None
            if at.partner is not None and at.partner in d and at.kind == "jordan":
                return None
            d[a] = n
    return tuple(sorted(d.items()))


ZERO = Poly({})
ONE = Poly({(): 1})


def const(v):
    if isinstance(v, Poly):
        return v
    c = to_coef(v)
    return ZERO if c == 0 else Poly({(): c})


def atom_poly(a: Atom):
    return Poly({((a.id, 1),): 1})


def fresh(name, sgn="*"):
    return atom_poly(Atom(name, "base", sgn=sgn))


def jordan(name):
    """A quantity of unknown sign as P - N."""
    p = Atom(name + "+", "jordan", sgn="0+")
    n = Atom(name + "-", "jordan", sgn="0+")
    p.partner, n.partner = n.id, p.id
    return atom_poly(p) - atom_poly(n)


def show_mono(m):
    return "*".join(
        (ATOMS[a].name if e == 1 else f"{ATOMS[a].name}^{e}") for a, e in m
    )


def show(p, limit=8):
    if not p.t:
        return "0"
    out = []
    for i, (m, c) in enumerate(sorted(p.t.items())):
        if i >= limit:
            out.append(f"... ({len(p.t)} terms)")
            break
        s = show_mono(m)
        if not s:
            out.append(str(c))
        elif c == 1:
            out.append(s)
        elif c == -1:
            out.append("-" + s)
        else:
            out.append(f"{c}*{s}")
    return " + ".join(out).replace("+ -", "- ")


# ---------------------------------------------------------------- signs
def mono_sign(m):
    """1 (>0), 0.5 (>=0), None unknown for the product of atoms."""
    s = 1
    for a, e in m:
        sg = ATOMS[a].sgn
        if sg == "+":
            continue
        if sg == "0+":
            s = 0.5
            continue
        if e % 2 == 0:
            s = 0.5
            continue
        return None
    return s


def quick_sign(p: Poly):
    """'0','+','0+','-','0-' or None from monomial signs."""
    if not p.t:
        return "0"
    pos = neg = True
    strict = False
    for m, c in p.t.items():
        s = mono_sign(m)
        if s is None:
            return None
        if s == 1:
            strict = True
        if c > 0:
            neg = False
        else:
            pos = False
        if not pos and not neg:
            return None
    if pos:
        return "+" if strict else "0+"
    return "-" if strict else "0-"


_SIGN_CACHE: dict = {}


def sign(p: Poly):
    q = quick_sign(p)
    if q is not None:
        return q
    if len(p.t) == 1:
        return None
    # factor a common monomial / clear reciprocals
    if any(ATOMS[a].kind == "recip" for m in p.t for a, _ in m) or any(e < 0 for m in p.t for _, e in m):
        cl = clear_denominators(p)
        if cl is not None:
            return quick_sign(cl)
    return None


def recip_sign_ok(a: Atom):
    return a.sgn in ("+", "0+")


def clear_denominators(p: Poly):
    """Multiply by positive denominators; None if a denominator has unknown sign."""
    for _ in range(12):
        rec = {}
        negs = {}
        for m in p.t:
            for a, e in m:
                at = ATOMS[a]
                if at.kind == "recip":
                    rec[a] = max(rec.get(a, 0), e)
                elif e < 0:
                    negs[a] = max(negs.get(a, 0), -e)
        if not rec and not negs:
            return p
        for a in negs:
            if ATOMS[a].sgn not in ("+", "0+"):
                return None
        for a in rec:
            if not recip_sign_ok(ATOMS[a]):
                return None
        if negs:
            mm = tuple(sorted(negs.items()))
            p = p * Poly({mm: 1})
            continue
        a = max(rec)
        k = rec[a]
        d = ATOMS[a].args[0]
        out = ZERO
        groups: dict = {}
        for m, c in p.t.items():
            e = dict(m).get(a, 0)
            rest = tuple(x for x in m if x[0] != a)
            groups.setdefault(e, {})[rest] = c
        for e, t in groups.items():
            q = Poly(t)
            for _i in range(k - e):
                q = q * d
            out = out + q
        p = out
    return None


def content(p: Poly):
    """(rational content with sign of leading term, gcd monomial, primitive part)"""
    items = sorted(p.t.items())
    lead = items[0][1] if items[0][0] else items[-1][1]
    g = None
    for _, c in items:
        c = abs(Fraction(c))
        g = c if g is None else Fraction(math.gcd(g.numerator * c.denominator, c.numerator * g.denominator), g.denominator * c.denominator)
    if lead < 0:
        g = -g
    common = dict(items[0][0])
    for m, _ in items[1:]:
        dm = dict(m)
        for a in list(common):
            if a not in dm:
                del common[a]
            else:
                common[a] = min(common[a], dm[a])
    cm = tuple(sorted((a, e) for a, e in common.items() if e != 0))
    inv = tuple((a, -e) for a, e in cm)
    prim = Poly({mono_div(m, cm): _norm(Fraction(c) / g) for m, c in p.t.items()})
    return _norm(g), cm, prim


def mono_div(m, d):
    if not d:
        return m
    r = dict(m)
    for a, e in d:
        n = r.get(a, 0) - e
        if n == 0:
            r.pop(a, None)
        else:
            r[a] = n
    return tuple(sorted(r.items()))


def mono_recip(m):
    """1/monomial as poly"""
    out = ONE
    keep = []
    for a, e in m:
        at = ATOMS[a]
        if at.kind == "recip" and e > 0:
            for _ in range(e):
                out = out * at.args[0]
        else:
            keep.append((a, -e))
    return out * Poly({tuple(keep): 1})


def recip(p: Poly):
    if not p.t:
        raise ZeroDivisionError("division by abstract zero")
    if p.is_const():
        return const(Fraction(1) / Fraction(p.cval()))
    g, cm, prim = content(p)
    inv_cm = mono_recip(cm)
    if prim.is_const():
        return inv_cm * const(Fraction(1) / Fraction(g))
    k = ("recip", prim.key())
    a = _INTERN.get(k)
    if a is None:
        s = sign(prim)
        if s in ("-", "0-"):
            prim2 = -prim
            r = recip(prim2) if prim2.key() != prim.key() else None
            k2 = ("recip", prim2.key())
            if k2 not in _INTERN:
                _INTERN[k2] = Atom(f"(1/({show(prim2,4)}))", "recip", (prim2,), "+")
            return -(inv_cm * atom_poly(_INTERN[k2])) * const(Fraction(1) / Fraction(g))
        sg = "+" if s in ("+", "0+") else "*"
        a = Atom(f"(1/({show(prim,4)}))", "recip", (prim,), sg)
        _INTERN[k] = a
    return inv_cm * atom_poly(a) * const(Fraction(1) / Fraction(g))


def exact_div(n: Poly, d: Poly):
    """n/d if d divides n (few steps), else None"""
    if len(n.t) > 400 or len(d.t) > 60:
        return None
    dl = max(d.t)
    dc = d.t[dl]
    q = ZERO
    r = n
    for _ in range(60):
        if not r.t:
            return q
        rl = max(r.t)
        mm = mono_div(rl, dl)
        if any(e < 0 for _, e in mm):
            return None
        term = Poly({mm: _norm(Fraction(r.t[rl]) / Fraction(dc))})
        q = q + term
        r2 = r - term * d
        if len(r2.t) > len(n.t) + len(d.t) + 40:
            return None
        r = r2
    return None


def div(n: Poly, d: Poly):
    if d.is_const():
        if not d.t:
            raise ZeroDivisionError("division by abstract zero")
        return n * const(Fraction(1) / Fraction(d.cval()))
    if not n.t:
        return ZERO
    if len(d.t) > 1:
        try:
            q = exact_div(n, d)
        except TooBig:
            q = None
        if q is not None:
            return q
    return n * recip(d)


# ---------------------------------------------------------------- trace partitioning
ORACLE = [None]  # decides the comparisons the domain leaves open, one way per trace


def choose(p):
    """the sign of p on the trace under analysis, None without a partition"""
    o = ORACLE[0]
    if o is None:
        return None
    ORACLE[0] = None
    try:
        return "+" if o(p) else "-"
    finally:
        ORACLE[0] = o


# ---------------------------------------------------------------- functions
def pos(p: Poly):
    """max(p, 0)"""
    s = sign(p) or _bigm(p) or choose(p)
    if s in ("0", "-", "0-"):
        return ZERO
    if s in ("+", "0+"):
        return p
    r = _pos_indicators(p)
    if r is not None:
        return r
    # jordan: p = (P - N) * q with sign(q) known
    ids = set()
    for m in p.t:
        for a, _ in m:
            if ATOMS[a].kind == "jordan":
                ids.add(a)
    for a in ids:
        at = ATOMS[a]
        b = at.partner
        if b not in ids or b < a:
            continue
        qp, qn, rest = {}, {}, False
        for m, c in p.t.items():
            d = dict(m)
            if a in d:
                if d[a] != 1:
                    rest = True
                    break
                del d[a]
                qp[tuple(sorted(d.items()))] = c
            elif b in d:
                if d[b] != 1:
                    rest = True
                    break
                del d[b]
                qn[tuple(sorted(d.items()))] = c
            else:
                rest = True
                break
        if rest:
            continue
        # p = P*qp + N*qn with P*N = 0: max(p,0) = P*max(qp,0) + N*max(qn,0)
        sp, sn = sign(Poly(qp)), sign(Poly(qn))
        if sp is not None and sn is not None:
            out = ZERO
            if sp in ("+", "0+"):
                out = out + Poly(qp) * atom_poly(at)
            if sn in ("+", "0+"):
                out = out + Poly(qn) * atom_poly(ATOMS[b])
            return out
    g, cm, prim = content(p)
    # pull out a nonnegative monomial
    ps = mono_sign(cm)
    scale = const(abs(g))
    if ps is None:
        prim = prim * Poly({cm: 1})
        cm = ()
    scale = scale * Poly({cm: 1})
    if g < 0:
        # pos(-prim) = pos(prim) - prim
        return scale * (_pos_atom(prim) - prim)
    return scale * _pos_atom(prim)


def _pos_indicators(p):
    """max(p, 0) for p depending on a few indicators only: by cases"""
    ids = sorted({a for m in p.t for a, _ in m})
    if not ids or len(ids) > 3 or any(ATOMS[a].kind != "ind" for a in ids):
        return None

    def excl(sub):
        return any((ATOMS[x].args[0] + ATOMS[y].args[0]).t == {} for x in sub for y in sub if x < y)

    val = {}
    for k in range(1 << len(ids)):
        on = {ids[i] for i in range(len(ids)) if k >> i & 1}
        v = 0
        for m, c in p.t.items():
            if all(a in on for a, _ in m):
                v += c
        val[k] = 0 if excl(on) else max(v, 0)
    out = {}
    for k in range(1 << len(ids)):
        c = 0
        j = k
        while True:  # Moebius inversion over the subsets of k
            c += (-1) ** (bin(k).count("1") - bin(j).count("1")) * val[j]
            if j == 0:
                break
            j = (j - 1) & k
        sub = [ids[i] for i in range(len(ids)) if k >> i & 1]
        if excl(sub):
            continue
        if c:
            out[tuple((a, 1) for a in sub)] = c
    return Poly(out)


def _pos_atom(prim):
    k = ("pos", prim.key())
    a = _INTERN.get(k)
    if a is None:
        a = Atom(f"max(0,{show(prim,4)})", "pos", (prim,), "0+")
        _INTERN[k] = a
    return atom_poly(a)


def pmax(a, b):
    if a == b:
        return a
    if NARY[0] and sign(a - b) is None and (not a.is_const() and not b.is_const() or _has_max(a) or _has_max(b)):
        return nmax([a, b])
    return b + pos(a - b)


NARY = [False]  # represent the maximum of three values or more by one atom
BIGM = [None]  # constants of at least this magnitude dominate everything else


def _has_max(p):
    return any(ATOMS[a].kind == "fn" and ATOMS[a].fn == "max" or ATOMS[a].kind == "pos" for m in p.t for a, _ in m)


def _flatten(vals):
    """max(.., k max(a, b) + r, ..) with k > 0 -> max(.., k a + r, k b + r, ..)"""
    todo, out = list(vals), []
    while todo:
        if len(todo) + len(out) > 48:
            return vals
        p = todo.pop()
        for m, c in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and c > 0:
                at = ATOMS[m[0][0]]
                if at.kind == "fn" and at.fn == "max" or at.kind == "pos":
                    args = at.args if at.kind == "fn" else (ZERO, at.args[0])
                    rest = Poly({k: v for k, v in p.t.items() if k != m})
                    if any(m[0][0] == x for k in rest.t for x, _ in k):
                        continue
                    todo.extend(rest + q * const(c) for q in args)
                    break
        else:
            out.append(p)
    return out


def _bigm(p):
    """sign of p when a dominating constant decides it"""
    if BIGM[0] is not None:
        c = p.t.get((), 0)
        if not isinstance(c, complex) and abs(c) >= BIGM[0]:
            return "+" if c > 0 else "-"
    return None


def nmax(vals):
    """maximum of a list of values"""
    if NARY[0] and any(_has_max(p) for p in vals):
        vals = _flatten(vals)
    keep = []
    for p in vals:
        if not any(p == q for q in keep):
            keep.append(p)
    if BIGM[0] is not None:
        keep = [p for p in keep if not any(_bigm(q - p) == "+" for q in keep)]
    if NARY[0] and len(keep) > 2:
        left = list(keep)
        for p in keep:
            if any(q is not p and quick_sign(q - p) in ("+", "0+") for q in left):
                left = [q for q in left if q is not p]
        keep = left
    if len(keep) > 1:
        consts = [p for p in keep if p.is_const()]
        if len(consts) > 1:
            best = max(consts, key=lambda p: p.cval())
            keep = [p for p in keep if not p.is_const() or p is best]
    if len(keep) == 1:
        return keep[0]
    if len(keep) == 2 and (not NARY[0] or sign(keep[1] - keep[0]) is not None or any(p.is_const() for p in keep)):
        return keep[0] + pos(keep[1] - keep[0])
    if not NARY[0]:
        r = keep[0]
        for p in keep[1:]:
            r = pmax(r, p)
        return r
    com = {m: c for m, c in keep[0].t.items() if all(p.t.get(m) == c for p in keep[1:])}
    if com:
        com = Poly(com)
        return com + nmax([p - com for p in keep])
    keep.sort(key=lambda p: p.key())
    return apply_fn("max", *keep)


def pmin(a, b):
    if a == b:
        return a
    if NARY[0]:
        return -pmax(-a, -b)
    return a - pos(a - b)


def pabs(p):
    return pos(p) * 2 - p


def ind_pos(p: Poly):
    """indicator of p > 0 (measure-zero ties resolved to 0)"""
    s = sign(p)
    if s is None or s == "0+":
        s = choose(p) or s
    if s == "+":
        return ONE
    if s in ("0", "-", "0-"):
        return ZERO
    g, cm, prim = content(p)
    if g < 0:
        prim = -prim
    sm = mono_sign(cm)
    if sm != 1:
        prim = prim * Poly({cm: 1})
    k = ("ind", prim.key())
    a = _INTERN.get(k)
    if a is None:
        a = Atom(f"[{show(prim,4)}>0]", "ind", (prim,), "0+")
        _INTERN[k] = a
        b = _INTERN.get(("ind", (-prim).key()))
        if b is not None:
            a.opposite, b.opposite = b.id, a.id
    return atom_poly(a)


_FN_EVAL = {
    "exp": lambda v: math.exp(v),
    "log": lambda v: math.log(v),
    "sqrt": lambda v: math.sqrt(v),
    "tanh": lambda v: math.tanh(v),
    "sigmoid": lambda v: 1 / (1 + math.exp(-v)) if v > -500 else 0.0,
    "softplus": lambda v: math.log1p(math.exp(-abs(v))) + max(v, 0.0),
    "softsign": lambda v: v / (1 + abs(v)),
    "power": lambda v, n: v**n,
    "elu": lambda v: v if v > 0 else math.exp(v) - 1,
    "selu": lambda v: 1.0507009873554805 * (v if v > 0 else 1.6732632423543772 * (math.exp(v) - 1)),
    "hard_sigmoid": lambda v: min(1.0, max(0.0, v / 6 + 0.5)),
    "floor": lambda v: math.floor(v),
    "mod": lambda v, n: v % n,
    "max": lambda *v: max(v),
}
_FN_SIGN = {"exp": "+", "sqrt": "0+", "sigmoid": "+", "softplus": "+", "hard_sigmoid": "0+"}
_ODD = {"tanh", "softsign"}


def apply_fn(fn, *args):
    args = tuple(const(a) for a in args)
    if fn == "exp":
        if not args[0].t:
            return ONE
        # exp(log(x)) = x
        inner = single_fn(args[0])
        if inner and inner.fn == "log":
            return inner.args[0]
    if fn == "log":
        if args[0] == ONE:
            return ZERO
        inner = single_fn(args[0])
        if inner and inner.fn == "exp":
            return inner.args[0]
    if fn == "sqrt":
        if args[0].is_const():
            c = args[0].cval()
            r = math.isqrt(c) if isinstance(c, int) and c >= 0 else None
            if r is not None and r * r == c:
                return const(r)
    if fn in ("tanh", "softsign") and not args[0].t:
        return ZERO
    if fn == "power" and args[1].is_const() and args[1].cval() == 1:
        return args[0]
    if fn in _ODD:
        c = sorted(args[0].t.items())[0][1]
        if c < 0:
            return -apply_fn(fn, -args[0])
    k = (fn,) + tuple(a.key() for a in args)
    a = _INTERN.get(k)
    if a is None:
        sg = _FN_SIGN.get(fn, "*")
        if fn in _ODD and quick_sign(args[0]) in ("+", "0+"):
            sg = "0+"
        if fn == "log":
            s = quick_sign(args[0] - 1)
            if s in ("+", "0+"):
                sg = "0+"
        a = Atom(f"{fn}({','.join(show(x,4) for x in args)})", "fn", args, sg, fn)
        _INTERN[k] = a
    return atom_poly(a)


def single_fn(p):
    if len(p.t) == 1:
        ((m, c),) = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "fn":
            return ATOMS[m[0][0]]
    return None


# ---------------------------------------------------------------- queries
CONVEX = {"exp": "exp"}


def atoms_of(p, acc=None):
    if acc is None:
        acc = set()
    for m in p.t:
        for a, _ in m:
            if a not in acc:
                acc.add(a)
                for q in ATOMS[a].args:
                    atoms_of(q, acc)
    return acc


def top_atoms(p):
    return {a for m in p.t for a, _ in m}


def subst(p: Poly, a: int, q: Poly):
    out = ZERO
    keep = {}
    for m, c in p.t.items():
        e = 0
        for x, k in m:
            if x == a:
                e = k
        if e == 0:
            keep[m] = c
            continue
        if e < 0:
            return None
        rest = Poly({tuple(x for x in m if x[0] != a): c})
        for _ in range(e):
            rest = rest * q
        out = out + rest
    return Poly(keep) + out


_FN_CONVEX = {
    # fn -> (derivative as Poly given argument atom value f(m), m)
    "exp": lambda m: apply_fn("exp", m),
}


def deriv(fn, m):
    if fn == "exp":
        return apply_fn("exp", m)
    if fn == "log":
        return recip(m)
    if fn == "softplus":
        return apply_fn("sigmoid", m)
    if fn == "sigmoid":
        s = apply_fn("sigmoid", m)
        return s * (ONE - s)
    if fn == "tanh":
        t = apply_fn("tanh", m)
        return ONE - t * t
    if fn == "softsign":
        return recip((ONE + pabs(m)) ** 2)
    return None


_LIPSCHITZ = {"tanh", "sigmoid", "softplus", "softsign"}
_SHAPE = {"exp": 1, "log": -1, "softplus": 1, "sqrt": -1}


def _monotone_fns():
    return {"exp", "log", "sqrt", "tanh", "sigmoid", "softplus", "softsign", "elu", "selu", "hard_sigmoid"}


def nonneg(p: Poly, depth=4, facts=()):
    """True when p >= 0 is established, None otherwise."""
    outer = _STEPS[0] is None
    if outer:
        _STEPS[0] = 6000 if NARY[0] else 1 << 60
    try:
        return _nonneg(p, depth, facts)
    except (TooBig, ZeroDivisionError, RecursionError):
        return None
    finally:
        if outer:
            _STEPS[0] = None


_STEPS = [None]


def _nonneg(p, depth, facts):
    if _STEPS[0] is not None:
        _STEPS[0] -= 1
        if _STEPS[0] < 0:
            raise TooBig("proof budget")
    s = quick_sign(p)
    if s in ("0", "+", "0+"):
        return True
    if s in ("-",):
        return None
    c = clear_denominators(p)
    if c is not None:
        p = c
        s = quick_sign(p)
        if s in ("0", "+", "0+"):
            return True
    if depth <= 0:
        return None
    if facts and _elim(p, facts, 3):
        return True
    tops = top_atoms(p)
    if NARY[0]:
        r = _by_max(p, tops, depth, facts)
        if r is not None:
            return r or None
    fnas = [ATOMS[a] for a in tops if ATOMS[a].kind == "fn"]
    # monotone functions: f(hi) = f(lo) + nonneg when hi - lo >= 0
    byfn: dict = {}
    for at in fnas:
        byfn.setdefault(at.fn, []).append(at)
    for fn, lst in byfn.items():
        if fn in _monotone_fns() and len(lst) >= 2:
            for hi in lst:
                for lo in lst:
                    if hi is lo:
                        continue
                    gap = hi.args[0] - lo.args[0]
                    if quick_sign(gap) in ("+", "0+") or (len(fnas) <= 4 and depth >= 3 and _nonneg(gap, 2, ())):
                        k = ("mono", hi.id, lo.id)
                        sl = _INTERN.get(k)
                        if sl is None:
                            sl = Atom(f"({hi.name}-{lo.name})", "base", sgn="0+")
                            _INTERN[k] = sl
                        q = subst(p, hi.id, atom_poly(lo) + atom_poly(sl))
                        lip = (gap - atom_poly(sl),) if fn in _LIPSCHITZ else ()
                        if q is not None and _nonneg(q, depth - 2, facts + lip):
                            return True
        if fn in _ODD and len(lst) >= 2:
            for hi in lst:
                for lo in lst:
                    # hi + lo: f(hi) = -f(lo) + nonneg when hi.arg + lo.arg >= 0
                    if hi is lo or not (len(fnas) <= 4 and depth >= 3 and _nonneg(hi.args[0] + lo.args[0], 2, ())):
                        continue
                    k = ("odd", hi.id, lo.id)
                    sl = _INTERN.get(k)
                    if sl is None:
                        sl = Atom(f"({hi.name}+{lo.name})", "base", sgn="0+")
                        _INTERN[k] = sl
                    q = subst(p, hi.id, atom_poly(sl) - atom_poly(lo))
                    if q is not None and _nonneg(q, depth - 2, facts):
                        return True
        if fn in _SHAPE:
            sgn_ = _SHAPE[fn]
            # tangent: convex f(y) >= f(m) + f'(m)(y-m)
            for y in lst:
                for mref in atoms_points(p, fn):
                    if mref == y.args[0]:
                        continue
                    d = deriv(fn, mref)
                    if d is None:
                        continue
                    k = ("tan", y.id, mref.key())
                    sl = _INTERN.get(k)
                    if sl is None:
                        sl = Atom(f"tan({y.name})", "base", sgn="0+")
                        _INTERN[k] = sl
                    line = apply_fn(fn, mref) + d * (y.args[0] - mref)
                    q = subst(p, y.id, line + atom_poly(sl) * sgn_)
                    if q is not None and _nonneg(q, depth - 2, facts):
                        return True
    npos = [a for a in tops if ATOMS[a].kind in ("pos", "ind")]
    if _pairs(p, depth, facts):
        return True
    if len(npos) >= 2 and _by_factor(p, npos, depth, facts):
        return True
    for a in sorted(tops):
        at = ATOMS[a]
        if at.kind == "pos":
            d = at.args[0]
            p0 = subst(p, a, ZERO)
            p1 = subst(p, a, d)
            if p0 is None or p1 is None:
                continue
            if _nonneg(p0, depth - 1, facts + (-d,)) and _nonneg(p1, depth - 1, facts + (d,)):
                return True
            return None
        if at.kind == "ind":
            d = at.args[0]
            p0 = subst(p, a, ZERO)
            p1 = subst(p, a, ONE)
            if p0 is None or p1 is None:
                continue
            if _nonneg(p0, depth - 1, facts + (-d,)) and _nonneg(p1, depth - 1, facts + (d,)):
                return True
            return None
    return None


def _by_max(p, tops, depth, facts):
    """p = q M + r with M = max(args): q <= 0 and every arg, or q >= 0 and one arg"""
    ups = []
    for a in sorted(tops):
        at = ATOMS[a]
        if at.kind != "fn" or at.fn != "max":
            continue
        q = {}
        lin = True
        for m, c in p.t.items():
            e = dict(m).get(a, 0)
            if e not in (0, 1):
                lin = False
            if e:
                q[tuple(x for x in m if x[0] != a)] = c
        if not lin:
            continue
        s = quick_sign(Poly(q))
        if s in ("-", "0-"):
            return all(_nonneg(subst(p, a, x), depth, facts) is True for x in at.args)
        if s in ("+", "0+"):
            ups.append(a)
    if not ups:
        return None
    a = ups[0]
    cand = sorted((subst(p, a, x) for x in ATOMS[a].args), key=lambda q: len(q.t))
    for q in cand:
        if quick_sign(q) in ("0", "+", "0+"):
            return True
    for q in cand[: 4 if len(ups) > 2 else 8]:
        if _nonneg(q, depth, facts) is True:
            return True
    return False


_PAIR_BUDGET = [0]


def _pairs(p, depth, facts):
    """c pos(A) - c pos(B) + R >= min(R, R + c (A - B)): monotonicity of the positive part"""
    ups, downs = [], []
    cnt = {}
    for m in p.t:
        for a, _ in m:
            if ATOMS[a].kind == "pos":
                cnt[a] = cnt.get(a, 0) + 1
    for a, k in cnt.items():
        c = p.t.get(((a, 1),))
        if k == 1 and c is not None:
            (ups if c > 0 else downs).append((a, c))
    if not ups or not downs:
        return False
    outer = _PAIR_BUDGET[0] == 0
    if outer:
        _PAIR_BUDGET[0] = 60
    try:
        for a, c in ups:
            for b, e in downs:
                if c != -e:
                    continue
                if _PAIR_BUDGET[0] <= 1:
                    return False
                _PAIR_BUDGET[0] -= 1
                r = Poly({m: v for m, v in p.t.items() if m not in (((a, 1),), ((b, 1),))})
                A, B = ATOMS[a].args[0], ATOMS[b].args[0]
                if _nonneg(r, depth - 1, facts) and _nonneg(r + (A - B) * const(c), depth, facts):
                    return True
                r = r - B * const(c)  # pos(B) = B + pos(-B)
                if _nonneg(r, depth - 1, facts) and _nonneg(r + (A + B) * const(c), depth, facts):
                    return True
        return False
    finally:
        if outer:
            _PAIR_BUDGET[0] = 0


def _elim(p, facts, k):
    """p = q + sum of nonnegative monomials times facts, with q >= 0 by signs"""
    for f in facts:
        for m, cf in f.t.items():
            for mp, cp in p.t.items():
                if cp * cf <= 0 or cp > 0 and mono_sign(mp) is not None:
                    continue
                mm = mono_div(mp, m)
                if any(e < 0 for _, e in mm) or mono_sign(mm) is None:
                    continue
                q = p - f * Poly({mm: _norm(Fraction(cp) / Fraction(cf))})
                if quick_sign(q) in ("0", "+", "0+"):
                    return True
                if k > 1 and len(q.t) <= len(p.t) and _elim(q, facts, k - 1):
                    return True
    return False


def _by_factor(p, npos, depth, facts):
    """p = sum of m * q_m with distinct nonnegative monomials m: each q_m >= 0 suffices.

    The monomials are the cofactors of the positive-part atoms."""
    cof = set()
    ps = set(npos)
    for m in p.t:
        if any(a in ps for a, _ in m):
            c = tuple((a, e) for a, e in m if a not in ps)
            if c and mono_sign(c) is not None:
                cof.add(c)
    if not cof:
        return False
    groups = {}
    rest = {}
    order = sorted(cof, key=lambda c: (-len(c), c))
    for m, v in p.t.items():
        dm = dict(m)
        for c in order:
            if all(dm.get(a, 0) >= e for a, e in c):
                groups.setdefault(c, {})[mono_div(m, c)] = v
                break
        else:
            rest[m] = v
    if len(groups) + (1 if rest else 0) < 2:
        return False
    if rest and not _nonneg(Poly(rest), depth - 1, facts):
        return False
    return all(_nonneg(Poly(g), depth - 1, facts) for g in groups.values())


def atoms_points(p, fn):
    pts = []
    seen = set()
    for a in top_atoms(p):
        at = ATOMS[a]
        if at.kind == "fn" and (at.fn == fn or fn == "softplus" and at.fn == "sigmoid"):
            k = at.args[0].key()
            if k not in seen:
                seen.add(k)
                pts.append(at.args[0])
    return pts


def is_zero(p: Poly):
    if not p.t:
        return True
    try:
        c = clear_denominators_any(p)
    except TooBig:
        return None
    if c is not None and not c.t:
        return True
    return None


def clear_denominators_any(p):
    for _ in range(12):
        rec = {}
        negs = {}
        for m in p.t:
            for a, e in m:
                if ATOMS[a].kind == "recip":
                    rec[a] = max(rec.get(a, 0), e)
                elif e < 0:
                    negs[a] = max(negs.get(a, 0), -e)
        if not rec and not negs:
            return p
        if negs:
            p = p * Poly({tuple(sorted(negs.items())): 1})
            continue
        a = max(rec)
        k = rec[a]
        d = ATOMS[a].args[0]
        out = ZERO
        for m, c in p.t.items():
            e = dict(m).get(a, 0)
            q = Poly({tuple(x for x in m if x[0] != a): c})
            for _i in range(k - e):
                q = q * d
            out = out + q
        p = out
    return None


# ---------------------------------------------------------------- valuations
class Valuation:
    """One instance of the base atoms (lazy, reproducible)."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.v: dict[int, float] = {}
        self.scale = self.rng.choice([0.3, 1.0, 1.0, 2.0, 4.0])
        self.pz = self.rng.choice([0.0, 0.15, 0.4])

    def atom(self, i):
        v = self.v.get(i)
        if v is not None:
            return v
        a = ATOMS[i]
        if a.kind == "base":
            if a.sgn == "+":
                v = self.rng.uniform(0.05, 1.0) * self.scale
            elif a.sgn == "0+":
                v = 0.0 if self.rng.random() < self.pz else self.rng.uniform(0.01, 1.0) * self.scale
            else:
                v = self.rng.uniform(-1.0, 1.0) * self.scale
        elif a.kind == "jordan":
            w = self.rng.uniform(-1.0, 1.0) * self.scale
            lo, hi = min(i, a.partner), max(i, a.partner)
            self.v[lo] = max(w, 0.0)
            self.v[hi] = max(-w, 0.0)
            return self.v[i]
        elif a.kind == "recip":
            v = 1.0 / self.eval(a.args[0])
        elif a.kind == "pos":
            v = max(0.0, self.eval(a.args[0]))
        elif a.kind == "ind":
            v = 1.0 if self.eval(a.args[0]) > 0 else 0.0
        elif a.kind == "fn":
            v = _FN_EVAL[a.fn](*(self.eval(x) for x in a.args))
        else:
            raise KeyError(a.kind)
        self.v[i] = v
        return v

    def eval(self, p: Poly):
        s = 0.0
        for m, c in p.t.items():
            v = float(c)
            for a, e in m:
                v *= self.atom(a) ** e
            s += v
        return s

    def eval_abs(self, p):
        s = 0.0
        t = 0.0
        for m, c in p.t.items():
            v = float(c)
            for a, e in m:
                v *= self.atom(a) ** e
            s += v
            t += abs(v)
        return s, t


_VALS: dict = {}


def valuation(i):
    v = _VALS.get(i)
    if v is None:
        v = Valuation(1000 + i)
        _VALS[i] = v
    return v


def clear_valuations():
    _VALS.clear()


def _ok_mag(t):
    return t == t and t < 1e12


def refute_nonneg(p: Poly, n=60, tol=1e-7):
    """An instance on which p < 0, described; None when none was found."""
    if not p.t:
        return None
    for i in range(n):
        v = valuation(i)
        try:
            s, t = v.eval_abs(p)
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        if isinstance(s, complex) or not _ok_mag(t):
            continue
        if s < -tol * max(t, 1e-6) - 1e-9:
            return i, s
    return None


def refute_zero(p: Poly, n=40, tol=1e-7):
    if not p.t:
        return None
    for i in range(n):
        v = valuation(i)
        try:
            s, t = v.eval_abs(p)
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        if isinstance(s, complex) or not _ok_mag(t):
            continue
        if abs(s) > tol * max(t, 1e-6) + 1e-9:
            return i, s
    return None
