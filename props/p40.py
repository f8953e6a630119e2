"""Linear relaxations of sigmoid, tanh and softsign."""
import math
import random

from sa.scen import *
from sa.alg import recip, apply_fn, ZERO, ONE
from sa.natives import base_tensor
from props.p01 import keras_layer, decomon_of
from props.p11 import make as backward_of, box_inputs

EXPLANATION = (
    "The functions computing the relaxation are interpreted on an interval with symbolic ends, once per outcome of the comparisons the interval leaves "
    "open (trace partitioning; the points of the search grid are cut down to three).  On each trace the upper line (the lower one by mirror) is "
    "judged by a certificate: above the function at the lower end and at 0 where the function is convex, and where it is concave either less steep "
    "than the function and above it at the upper end, or steeper and above it at the other end, or parallel to it at a point of contact.  The "
    "conditions of the trace and the shape of the function (monotone, convex below 0, concave above 0) are the facts available to the proof."
)
ASSUMPTIONS = [
    "Keras ops behave as their transfer-function summaries under sa/ten.py",
    "the search grid np.linspace(0, 1, 100) is represented by a grid of three points: the code treats every point alike",
    "a comparison of equal values may go either way; an interval narrower than epsilon() that is not a point is left out",
]
H = "props.p40"
LIMIT = {"quick": 150, "thorough": 900}
FUNS = ("sigmoid", "tanh", "softsign")
KINDS = ("positive", "zero-start", "crossing", "zero-end", "negative", "point-positive", "point-zero", "point-negative")


def obligations(tier):
    out = []
    for f in FUNS:
        for k in KINDS:
            if f != "softsign":
                out.append((f"hull/{f}/{k}", H, "hull", f, k))
            for mode in MODES:
                out.append((f"backward/{f}/{k}/{mode}", H, "backward", f, k, mode))
            for mode in (AFFINE, HYBRID):
                out.append((f"forward/{f}/{k}/{mode}", H, "forward", f, k, mode))
    return out


# ------------------------------------------------------------------ trace partitioning
def norm(p):
    """the sign-carrying part of p: denominators cleared, nonnegative monomials dropped"""
    c = alg.clear_denominators(p)
    if c is not None:
        p = c
    if not p.t or p.is_const():
        return p
    g, cm, prim = alg.content(p)
    if g < 0:
        prim = -prim
    if alg.mono_sign(cm) is None:
        prim = prim * alg.Poly({cm: 1})
    return prim


class Partition:
    def __init__(self, shape, base, limit=1500):
        self.shape, self.base, self.limit = shape, base, limit
        self.proved = {}

    def traces(self, run):
        """run() once per combination of outcomes; yields (value of run, facts of the trace)"""
        stack = [[]]
        n = 0
        while stack:
            prefix = stack.pop()
            n += 1
            if n > self.limit:
                raise Unsupported(f"more than {self.limit} traces")
            self.facts, self.taken, self.todo, self.seen = list(self.base), [], list(prefix), {}
            alg.ORACLE[0] = self.decide
            try:
                r = run()
            finally:
                alg.ORACLE[0] = None
            for k in range(len(prefix), len(self.taken)):
                stack.append(self.taken[:k] + [not self.taken[k]])
            yield r, list(self.facts)

    def decide(self, p):
        q = norm(p)
        if q.is_const():
            return q.cval() > 0
        for sg, s in ((q, True), (-q, False)):
            k = sg.key()
            if k in self.seen:
                return s
        v = self.prove(q)
        if v is None:
            v = self.todo.pop(0) if self.todo else True
            self.taken.append(v)
            self.facts.append(q if v else -q)
        self.seen[(q if v else -q).key()] = True
        return v

    def prove(self, q):
        k = q.key()
        if k not in self.proved:
            self.proved[k] = True if self.holds(q, self.base) else False if self.holds(-q, self.base) else None
        return self.proved[k]

    def holds(self, q, facts):
        return nonneg(self.shape, q, facts)


class Shape:
    """what is known of the function at the points met"""

    def __init__(self, fun):
        self.fun = fun
        self.f = lambda x: apply_fn(fun, x)
        self.d = lambda x: alg.deriv(fun, x)
        self.memo = {}

    def points(self, p):
        out = []
        for a in sorted(alg.atoms_of(p)):
            at = alg.ATOMS[a]
            if at.kind == "fn" and at.fn == self.fun:
                x = at.args[0]
                for y in (x, -x) if self.fun != "sigmoid" else (x,):
                    if not any(y == z for z in out):
                        out.append(y)
        return out

    def facts(self, p):
        """monotonicity, convexity and range at the points p mentions"""
        pts = [(x, alg.quick_sign(x)) for x in self.points(p) + [ZERO]]
        pts = [(x, s) for k, (x, s) in enumerate(pts) if not any(x == y for y, _ in pts[:k])]
        key = tuple(x.key() for x, _ in pts)
        if key in self.memo:
            return self.memo[key]
        out = []
        f, d = self.f, self.d
        for x, s in pts:
            if self.fun == "sigmoid":
                out += [ONE - f(x), f(x)]
            else:
                out += [ONE - f(x), ONE + f(x)]
        for x, s in pts:
            for y, r in pts:
                if x == y:
                    continue
                if alg.quick_sign(y - x) in ("+", "0+"):
                    out.append(f(y) - f(x))
                for side, signs in ((-1, ("0", "0+", "+")), (1, ("0", "0-", "-"))):
                    if s in signs and r in signs and d(x) is not None:
                        out.append((f(y) - f(x) - d(x) * (y - x)) * side)
        res = []
        for q in out:
            q = norm(q) if q.t else q
            if q.t and alg.quick_sign(q) not in ("0", "+", "0+") and not any(q == z for z in res):
                res.append(q)
        self.memo[key] = res
        return res


def nonneg(shape, p, facts):
    if not p.t:
        return True
    q = norm(p)
    if alg.quick_sign(q) in ("0", "+", "0+"):
        return True
    for g in facts:
        if q == g:
            return True
    try:
        if alg._elim(q, list(facts), 2):
            return True
        if alg._elim(q, shape.facts(q), 2):
            return True
        if alg._elim(q, list(facts) + shape.facts(q), 3):
            return True
    except (alg.TooBig, ZeroDivisionError):
        pass
    return alg.nonneg(q, 2) is True


# ------------------------------------------------------------------ certificates
def certificate(shape, side, w, b, L, U, facts, points):
    """w y + b is above (side 1) or below (side -1) the function on [L, U]"""
    f, d = shape.f, shape.d
    zero = lambda p: not p.t or alg.is_zero(p) is True
    ge = lambda p: zero(p) or nonneg(shape, p, facts)
    gap = lambda y: (w * y + b - f(y)) * side
    # the end of the curved-away part (convex under an upper line) and the end of the curved-against part
    far, near = (L, U) if side > 0 else (U, L)
    sf, sn = alg.quick_sign(far), alg.quick_sign(near)
    only_chord = sn in (("0", "0-", "-") if side > 0 else ("0", "0+", "+"))  # no curved-against part
    only_tang = sf in (("0", "0+", "+") if side > 0 else ("0", "0-", "-"))
    if only_chord:
        return ge(gap(L)) and ge(gap(U))
    if not only_tang and not ge(gap(far)):
        return False
    start = far if only_tang else ZERO
    if zero(w) and ge(gap(near)):  # flat beyond the largest value
        return True
    if ge(gap(near)) and ge(d(near) - w):
        return True
    if ge(gap(start)) and ge(w - d(start)):
        return True
    for t in points:
        st = alg.quick_sign(t)
        if st not in (("0", "0+", "+") if side > 0 else ("0", "0-", "-")):
            continue
        if zero(w - d(t)) and ge(gap(t)):
            return True
    return False


def judge(shape, side, w, b, L, U, facts, points):
    if certificate(shape, side, w, b, L, U, facts, points):
        return True
    # half of a flat line at the largest value, half of another one
    near = U if side > 0 else L
    fl = shape.f(near)
    return certificate(shape, side, w * 2, b * 2 - fl, L, U, facts, points)


class Val(alg.Valuation):
    def __init__(self, seed):
        super().__init__(seed)
        r = random.Random(seed * 7 + 1)
        self.lo, self.hi = r.choice([(-2, 2), (-1, 1), (0, 2), (-2, 0)])

    def atom(self, i):
        a = alg.ATOMS[i]
        if i not in self.v and a.kind == "base" and a.sgn in ("+", "0+"):
            self.v[i] = 10 ** self.rng.uniform(self.lo, self.hi)
        return super().atom(i)


TOL = 0.01
_PY = {"sigmoid": lambda v: 1 / (1 + math.exp(-v)) if v > -500 else 0.0, "tanh": math.tanh, "softsign": lambda v: v / (1 + abs(v))}


def refute(shape, side, w, b, L, U, facts, vals):
    """an instance satisfying the conditions of the trace on which the line crosses the function by more than TOL"""
    f = _PY[shape.fun]
    for v in vals:
        try:
            if any(v.eval(q) < 0 for q in facts):
                continue
            wv, bv, lv, uv = v.eval(w), v.eval(b), v.eval(L), v.eval(U)
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        for k in range(41):
            y = lv + (uv - lv) * k / 40
            g = (wv * y + bv - f(y)) * side
            if not g == g or g < -TOL:
                return f"on [{lv:.4g}, {uv:.4g}] the line {wv:.4g} y + {bv:.4g} is on the wrong side of {shape.fun} by {-g:.3g} at y = {y:.4g}"
    return None


# ------------------------------------------------------------------ scenarios
def interval(kind):
    t = lambda n: fresh(n, "+")
    if kind == "positive":
        a, s = t("a"), t("s")
        return a, a + s, s
    if kind == "negative":
        a, s = t("a"), t("s")
        return -a - s, -a, s
    if kind == "crossing":
        a, c = t("a"), t("c")
        return -a, c, a + c
    if kind == "zero-start":
        s = t("s")
        return ZERO, s, s
    if kind == "zero-end":
        s = t("s")
        return -s, ZERO, s
    if kind == "point-zero":
        return ZERO, ZERO, None
    a = t("a")
    return (a, a, None) if kind == "point-positive" else (-a, -a, None)


EPS = Fraction(1, 10**7)


def scene(rec):
    sc = Scene(rec, 1, 1)
    sc.I.hooks.append(lambda f, args, kwargs: EPS if f.qual == "keras.config:epsilon" else MISSING)
    ten.GRID[0] = 3
    alg.ORACLE[0] = lambda p: True  # whatever is evaluated while layers are built
    return sc


def reduced(run):
    """what is raised may come from the reduced search grid: no verdict"""
    try:
        return run()
    except AbsRaise as e:
        raise Unsupported(f"{e.typename()} on the reduced search grid") from None


def decide(rec, sc, cons, fun, kind, L, U, width, run):
    """run() -> ((w_u, b_u, w_l, b_l), origins)"""
    alg.ORACLE[0] = None
    shape = Shape(fun)
    base = [width - const(EPS)] if width is not None else []
    part = Partition(shape, base)
    vals = [Val(i) for i in range(160)]
    n = good = 0
    first = None
    done = {}
    try:
        for (lines, origin), facts in part.traces(run):
            for side, w, b in ((1, lines[0], lines[1]), (-1, lines[2], lines[3])):
                n += 1
                own = relevant(facts, part.base)
                key = (side, w.key(), b.key())
                if any(s <= own for s in done.get(key, ())):
                    good += 1
                    continue
                pts = shape.points(w) + shape.points(b) + [ZERO, L, U]
                ok = False
                for sub in subsets(facts, part.base):
                    if judge(shape, side, w, b, L, U, sub, pts):
                        done.setdefault(key, []).append(relevant(sub, part.base))
                        ok = True
                        break
                if ok:
                    good += 1
                    continue
                bad = refute(shape, side, w, b, L, U, facts, vals)
                if bad:
                    rec.bad("line-above" if side > 0 else "line-below", cons, f"{fun} {kind}: {bad}", origin[0 if side > 0 else 1])
                    return
                if first is None:
                    first = f"{fun} {kind} {'upper' if side > 0 else 'lower'}: line {alg.show(w, 6)} * y + {alg.show(b, 6)} where {'; '.join(alg.show(q, 4) + ' >= 0' for q in facts)}"
    except AbsRaise as e:
        raise Unsupported(f"{e.typename()} on the reduced search grid") from None
    if first is None:
        rec.ok("line", cons, f"{fun} {kind}: {n} lines", n=n)
    else:
        rec._add("undecided", "line", cons, f"{n - good}/{n} lines, e.g. {first}", n=n, proved=good)


def relevant(facts, base):
    b = {q.key() for q in base}
    return frozenset(q.key() for q in facts if q.key() not in b)


def subsets(facts, base):
    nb = len(base)
    yield list(base)
    for q in facts[nb:]:
        yield list(base) + [q]
    if len(facts) - nb > 1:
        yield list(facts)


def four(outs):
    outs = list(outs)
    if len(outs) != 4:
        raise Unsupported(f"{len(outs)} tensors")
    r = []
    for t in outs:
        a = ten.raw(t)
        if a.size != 1:
            raise Unsupported(f"shape {a.shape}")
        r.append(a.reshape(-1)[0])
    return r, (getattr(outs[1], "origin", None), getattr(outs[3], "origin", None))


def hull(rec, fun, kind):
    sc = scene(rec)
    L, U, width = interval(kind)
    f = sc.get("decomon.utils", f"get_linear_hull_{fun}")
    one = lambda p: sc.fresh(tens(arr((1, 1), lambda i: p)))
    decide(rec, sc, f.qual, fun, kind, L, U, width, lambda: four(sc.call(f, one(U), one(L), sc.slope("volume-slope"))))


def backward(rec, fun, kind, mode):
    sc = scene(rec)
    L, U, width = interval(kind)
    bl = reduced(lambda: backward_of(sc, fun, mode, (1,), "keras"))
    ins = box_inputs(sc, mode, [L], [U], (1,))
    decide(rec, sc, f"{bl.cls.module.name}:{bl.cls.name}({fun})", fun, kind, L, U, width, lambda: four(sc.call(bl, ins)))


def forward(rec, fun, kind, mode):
    sc = scene(rec)
    L, U, width = interval(kind)
    lay = reduced(lambda: decomon_of(sc, keras_layer(sc, ("Activation", (fun,), {}), (1,)), mode, 1))
    ins = box_inputs(sc, mode, [L], [U], (1,))

    def run():
        d = sc.unpack(list(sc.call(lay, ins)), mode)
        return four([d[k] for k in ("w_u", "b_u", "w_l", "b_l")])

    decide(rec, sc, f"{lay.cls.module.name}:{lay.cls.name}({fun})", fun, kind, L, U, width, run)
