"""Scenario construction shared by the obligations."""
from __future__ import annotations

import itertools
from fractions import Fraction

import numpy as np

from . import alg, ten
from .alg import Poly, const, fresh, jordan
from .interp import AbsRaise, Obj, MISSING
from .natives import base_tensor, jordan_tensor
from .ten import T, Unsupported

IBP, AFFINE, HYBRID = "ibp", "affine", "hybrid"
MODES = (HYBRID, IBP, AFFINE)


def arr(shape, f):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = f(i)
    return a


def tens(a):
    return T(a, "float32")


class Scene:
    def __init__(self, rec, nin=2, batch=1):
        self.rec = rec
        self.I = rec.interp()
        self.nin = nin
        self.B = batch
        self.I.state.batch = batch
        I = self.I
        self.keras = I.import_module("keras")
        self.layers = I.import_module("keras.layers")
        self.pkg = I.import_module("decomon")
        self.core = I.import_module("decomon.core")
        self.slacks = []  # slack base atoms (ids)
        self.X = arr((batch, nin), lambda i: fresh(f"x{list(i)}"))
        self.P = arr((batch, nin), lambda i: fresh(f"p{list(i)}", "0+"))
        self.Q = arr((batch, nin), lambda i: fresh(f"q{list(i)}", "0+"))

    # ---------------------------------------------------------------- access
    def mod(self, name):
        return self.I.import_module(name)

    def get(self, mod, name):
        return self.I.from_import(mod, name)

    def call(self, f, *a, **k):
        return self.I.call(f, list(a), dict(k))

    def attr(self, o, n):
        return self.I.getattr(o, n)

    def mode(self, m):
        return self.core.d["ForwardMode"].members[m.upper()]

    def slope(self, s):
        return self.call(self.core.d["Slope"], s)

    # ---------------------------------------------------------------- domain
    def box(self):
        return self.call(self.core.d["BoxDomain"])

    def x_box(self):
        a = np.empty((self.B, 2, self.nin), dtype=object)
        a[:, 0] = self.X - self.P
        a[:, 1] = self.X + self.Q
        return tens(a)

    # ---------------------------------------------------------------- bounds
    def slack(self, name, sgn="0+"):
        p = fresh(name, sgn)
        self.slacks.append(next(iter(p.t))[0][0])
        return p

    def ghost(self, shape, name="y"):
        return base_tensor((self.B,) + tuple(shape), name)

    def bounds(self, y, name="", sgn="0+", const_slack=True):
        """dict with abstract constant and affine bounds enclosing the ghost tensor y"""
        Y = ten.raw(y)
        sh = Y.shape
        d = {}
        d["u_c"] = tens(arr(sh, lambda i: Y[i] + self.slack(f"{name}su{list(i)}", sgn)))
        d["l_c"] = tens(arr(sh, lambda i: Y[i] - self.slack(f"{name}sl{list(i)}", sgn)))
        for s, sg in (("u", 1), ("l", -1)):
            w = arr((sh[0], self.nin) + sh[1:], lambda i: jordan(f"{name}w{s}{list(i)}"))
            wx = arr(sh, lambda i: ten._fsum([w[(i[0], j) + i[1:]] * self.X[i[0], j] for j in range(self.nin)]))
            d["w_" + s] = tens(w)
            d["b_" + s] = tens(arr(sh, lambda i: Y[i] + const(sg) * self.slack(f"{name}sa{s}{list(i)}", sgn) - wx[i]))
        d["y"] = y
        return d

    def pack(self, d, mode, x=None, sym=True):
        x = x if x is not None else self.x_box()
        if mode == HYBRID:
            l = [x] + [d[k] for k in ("u_c", "w_u", "b_u", "l_c", "w_l", "b_l")]
        elif mode == IBP:
            l = [d["u_c"], d["l_c"]]
        else:
            l = [x] + [d[k] for k in ("w_u", "b_u", "w_l", "b_l")]
        return [self.fresh(t) for t in l]

    def fresh(self, t):
        r = T(t.a, t.dtype)
        r.sym = True
        return r

    def unpack(self, outs, mode):
        names = {HYBRID: ("x", "u_c", "w_u", "b_u", "l_c", "w_l", "b_l"), IBP: ("u_c", "l_c"),
                 AFFINE: ("x", "w_u", "b_u", "w_l", "b_l")}[mode]
        if len(outs) != len(names):
            raise Mismatch(f"expected {len(names)} tensors in mode {mode}, got {len(outs)}")
        return dict(zip(names, outs))

    def affine_value(self, w, b):
        """w . X + b at the ghost point"""
        wa, ba = ten.raw(w), ten.raw(b)
        if wa.ndim == ba.ndim:  # identity shortcut
            return None
        if wa.shape[0] != ba.shape[0] or wa.shape[2:] != ba.shape[1:] or wa.shape[1] != self.nin:
            raise Mismatch(f"affine bound shapes w {wa.shape} b {ba.shape} for input dimension {self.nin}")
        return arr(ba.shape, lambda i: ten._fsum([wa[(i[0], j) + i[1:]] * self.X[i[0], j] for j in range(self.nin)] + [ba[i]]))

    def drop_slack(self, a):
        """the same values when every slack is zero"""
        return self.drop_ids(a, set(self.slacks))

    def drop_ids(self, a, ids):
        return arr(a.shape, lambda i: zero_atoms(a[i], ids))

    def ghost_ids(self):
        """atoms measuring how loose the bounds are: slacks and the extent of the perturbation domain"""
        ids = set(self.slacks)
        for a in (self.P, self.Q):
            for i in np.ndindex(a.shape):
                ids |= {m[0][0] for m in a[i].t if m}
        return ids

    # ---------------------------------------------------------------- contracts
    def ghost_of(self, l, mode):
        """the value enclosed by a list of bounds: what they collapse to when every slack vanishes (None when they do not)"""
        try:
            d = self.unpack(list(l), mode)
        except Mismatch:
            return None
        vals = []
        for k in ("u", "l"):
            if k + "_c" in d:
                vals.append(ten.raw(d[k + "_c"]))
            if "w_" + k in d:
                try:
                    v = self.affine_value(d["w_" + k], d["b_" + k])
                except Mismatch:
                    return None
                if v is None:
                    return None
                vals.append(v)
        ids = self.ghost_ids()
        try:
            ys = [self.drop_ids(v, ids) for v in vals]
        except ZeroDivisionError:
            return None
        for y in ys[1:]:
            if y.shape != ys[0].shape or any(alg.is_zero(y[i] - ys[0][i]) is not True for i in np.ndindex(y.shape)):
                return None
        y = ys[0]
        for v, k in zip(vals, [k for k in ("u", "l") for q in ("_c", "w") if (k + "_c" if q == "_c" else "w_" + k) in d]):
            for i in np.ndindex(y.shape):
                diff = v[i] - y[i] if k == "u" else y[i] - v[i]
                if alg.nonneg(diff) is not True:
                    return None
        return tens(y)

    symbolic = False

    def symbolic_ghost(self, l, mode):
        try:
            d = self.unpack(list(l), mode)
        except Mismatch:
            return None
        sh = ten.raw(d["l_c" if mode != AFFINE else "b_l"]).shape
        self.nsym = getattr(self, "nsym", 0) + 1
        return base_tensor(sh, f"sym{self.nsym}")

    def contract(self, qual, fn):
        """replace a bound-propagating function by its specification: fn(sc, arguments, ghosts) -> enclosed value"""
        from .interp import Env

        def hook(f, args, kwargs):
            if f.qual != qual:
                return MISSING
            env = Env(f.env, f.module, f, {})
            self.I.bind_args(f, env, args, kwargs)
            a = env.vars
            m = a.get("mode")
            try:
                mode = str(self.I.getattr(m, "value")) if not isinstance(m, str) else m
            except Exception:
                return MISSING
            if mode not in MODES or a.get("dc_decomp"):
                return MISSING
            ins = [v for v in a.values() if isinstance(v, (list, tuple)) and v and all(isinstance(t, T) for t in v)]
            if self.symbolic:  # symbolic call building the layer: only shapes matter
                ys = [self.symbolic_ghost(i, mode) for i in ins]
            else:
                ys = [self.ghost_of(i, mode) for i in ins]
            if any(y is None for y in ys):
                return MISSING
            out = fn(self, a, ys)
            if out is None:
                return MISSING
            self.ncontract = getattr(self, "ncontract", 0) + 1
            d = self.bounds(out, f"c{self.ncontract}.")
            return self.pack(d, mode, None if mode == IBP else list(ins[0])[0])

        self.I.hooks.append(hook)

    # ---------------------------------------------------------------- checking
    def check_bounds(self, outs, mode, target, construct, what="", exact=False, rule="sound"):
        rec = self.rec
        Y = ten.raw(target)
        try:
            d = self.unpack(outs, mode)
        except Mismatch as e:
            rec.bad("tensor-count", construct, f"{what}: {e}")
            return
        for k, sg in (("u", 1), ("l", -1)):
            if k + "_c" in d:
                v = ten.raw(d[k + "_c"])
                self._bound(v, Y, sg, construct, f"{what} {k}_c", exact, rule, d[k + "_c"].origin)
            if "w_" + k in d:
                try:
                    v = self.affine_value(d["w_" + k], d["b_" + k])
                except Mismatch as e:
                    rec.bad("shapes", construct, f"{what} {k}: {e}")
                    continue
                if v is None:
                    rec.undecided(rule, construct, "identity weights")
                    continue
                self._bound(v, Y, sg, construct, f"{what} w_{k}.x+b_{k}", exact, rule, d["b_" + k].origin)

    def _bound(self, v, Y, sg, construct, what, exact, rule, origin=None):
        if v.shape != Y.shape:
            self.rec.bad("shapes", construct, f"{what}: bound has shape {v.shape}, layer output {Y.shape}", origin)
            return
        diff = (v - Y) if sg > 0 else (Y - v)
        t = tens(diff)
        t.origin = origin
        self.rec.nonneg(t, rule, construct, what)
        if exact:
            t2 = tens(self.drop_slack(diff))
            t2.origin = origin
            self.rec.zero(t2, "exact", construct, what + " with exact inputs")


class Mismatch(Exception):
    pass


def zero_atoms(p, ids, memo=None):
    """substitute 0 for base atoms (through function arguments)"""
    if memo is None:
        memo = {}
    out = alg.ZERO
    for m, c in p.t.items():
        term = const(c)
        for a, e in m:
            if a in ids:
                term = alg.ZERO
                break
            q = zero_atom(a, ids, memo)
            term = term * (q**e if e > 0 else alg.recip(q) ** (-e))
        out = out + term
    return out


def zero_atom(a, ids, memo):
    if a in memo:
        return memo[a]
    at = alg.ATOMS[a]
    if not at.args:
        r = alg.atom_poly(at)
    else:
        args = [zero_atoms(x, ids, memo) for x in at.args]
        if all(x.t == y.t for x, y in zip(args, at.args)):
            r = alg.atom_poly(at)
        elif at.kind == "pos":
            r = alg.pos(args[0])
        elif at.kind == "ind":
            r = alg.ind_pos(args[0])
        elif at.kind == "recip":
            if not args[0].t:
                raise Unsupported("degenerate denominator")
            r = alg.recip(args[0])
        else:
            r = alg.apply_fn(at.fn, *args)
    memo[a] = r
    return r
