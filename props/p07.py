"""Extremum of an affine function over the perturbation domain."""
from sa.scen import *

EXPLANATION = (
    "get_upper/get_lower of each domain are interpreted on symbolic weights, biases and domain; the result must be on the right side of the "
    "affine function at an arbitrary point of the domain (rule sound) and equal the closed form of the extremum: corner chosen by the sign of "
    "each weight for boxes, value at the centre plus radius times the dual norm for balls (rule exact)."
)
H = "props.p07"


def obligations(tier):
    out = []
    outs = [(2,), (1, 2)] + ([(2, 1, 2), (3,)] if tier != "quick" else [])
    for batch in (1, 2):
        for sh in outs:
            for dom in ("box", "ball1", "ball2", "ballinf"):
                for nin in (2, 3) if sh == (2,) and batch == 1 else (2,):
                    out.append((f"{dom}/{len(sh)}d{sh[0]}/n{nin}/b{batch}", H, "affine", dom, sh, nin, batch))
    for dom in ("box", "ball1", "ball2", "ballinf"):
        out.append((f"{dom}/identity", H, "identity", dom))
        out.append((f"{dom}/x-shape", H, "x_shape", dom))
    for dom in ("ball-bad-p", "ball3"):
        out.append((dom, H, "rejected", dom))
    return out


def domain(sc, dom, eps):
    if dom == "box":
        return sc.box()
    p = {"ball1": 1, "ball2": 2, "ballinf": float("inf")}[dom]
    return sc.call(sc.core.d["BallDomain"], eps=eps, p=p)


def affine(rec, dom, sh, nin, batch):
    sc = Scene(rec, nin, batch)
    eps = fresh("eps", "0+")
    D = domain(sc, dom, tens(np.array(eps, dtype=object)))
    w = arr((batch, nin) + sh, lambda i: jordan(f"w{list(i)}"))
    b = arr((batch,) + sh, lambda i: fresh(f"b{list(i)}"))
    x = sc.x_box() if dom == "box" else tens(sc.X)
    val = arr(b.shape, lambda i: ten._fsum([w[(i[0], j) + i[1:]] * sc.X[i[0], j] for j in range(nin)] + [b[i]]))
    for side, sg in (("get_upper", 1), ("get_lower", -1)):
        r = sc.call(sc.attr(D, side), x, tens(w), tens(b))
        cons = f"decomon.core:{D.cls.name}.{side}"
        v = ten.raw(r)
        if v.shape != b.shape:
            rec.bad("shapes", cons, f"{dom}: result of shape {v.shape} for biases {b.shape}", r.origin)
            continue

        def opt(i):
            ws = [w[(i[0], j) + i[1:]] for j in range(nin)]
            if dom == "box":
                return ten._fsum([alg.pos(ws[j] * sg) * sc.Q[i[0], j] + alg.pos(-ws[j] * sg) * sc.P[i[0], j] for j in range(nin)])
            if dom == "ballinf":
                return eps * ten._fsum([alg.pabs(t) for t in ws])
            if dom == "ball1":
                return eps * ten._fmax([alg.pabs(t) for t in ws])
            return eps * ten._sqrt(ten._fsum([t * t for t in ws]))

        gap = arr(b.shape, lambda i: (v[i] - val[i]) * sg)
        t = tens(gap)
        t.origin = r.origin
        ref = arr(b.shape, opt)
        if dom == "box":
            rec.nonneg(t, "sound", cons, f"{dom} {sh}")
        t = tens(gap - ref)
        t.origin = r.origin
        rec.zero(t, "exact", cons, f"{dom} {sh} minus its extremum")


def identity(rec, dom):
    """weights of the rank of the biases stand for the identity"""
    sc = Scene(rec, 2, 1)
    eps = fresh("eps", "0+")
    D = domain(sc, dom, tens(np.array(eps, dtype=object)))
    x = sc.x_box() if dom == "box" else tens(sc.X)
    w = tens(arr((1, 2), lambda i: alg.ONE))
    b = tens(arr((1, 2), lambda i: alg.ZERO))
    for side, sg in (("get_upper", 1), ("get_lower", -1)):
        v = sc.call(sc.attr(D, side), x, w, b)
        if dom == "box":
            ref = sc.X + sc.Q if sg > 0 else sc.X - sc.P
        else:
            ref = sc.X + eps * sg
        cons = f"decomon.core:{D.cls.name}.{side}"
        if ten.raw(v).shape != ref.shape:
            rec.bad("shapes", cons, f"identity {dom}: {ten.raw(v).shape}")
            continue
        rec.zero(tens(ten.raw(v) - ref), "exact", cons, f"identity {dom}")


def x_shape(rec, dom):
    sc = Scene(rec, 2, 1)
    D = domain(sc, dom, 0.5)
    sh = tuple(sc.call(sc.attr(D, "get_x_input_shape_wo_batchsize"), 4))
    rec.check(sh == ((2, 4) if dom == "box" else (4,)), "shapes", f"decomon.core:{D.cls.name}.get_x_input_shape_wo_batchsize", f"{sh}")


def rejected(rec, dom):
    """a norm the library cannot concretise is refused at construction or at use"""
    sc = Scene(rec, 2, 1)
    cons = "decomon.core:BallDomain"
    if dom == "ball-bad-p":
        for p in (0, -1, 1.5, "x"):
            try:
                sc.call(sc.core.d["BallDomain"], eps=0.1, p=p)
            except AbsRaise:
                rec.ok("rejected", cons, f"p={p}")
                continue
            rec.bad("rejected", cons, f"p={p} accepted")
        return
    D = sc.call(sc.core.d["BallDomain"], eps=0.1, p=3)
    w = tens(arr((1, 2, 1), lambda i: fresh("w")))
    b = tens(arr((1, 1), lambda i: fresh("b")))
    for side in ("get_upper", "get_lower"):
        try:
            sc.call(sc.attr(D, side), tens(sc.X), w, b)
        except AbsRaise:
            rec.ok("rejected", cons + "." + side, "p=3")
            continue
        rec.undecided("rejected", cons + "." + side, "p=3 accepted")
