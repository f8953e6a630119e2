"""Obligations: what a rule demands of one construct in one configuration, and how it was decided."""
from __future__ import annotations

import os
import signal
import sys
import time
import traceback

from . import alg, ten
from .interp import AbsRaise
from .natives import new_interp
from .ten import T, Unsupported

REPO = os.environ.get("SA_REPO", "/repo")


class Budget(Exception):
    pass


def _alarm(*a):
    raise Budget()


class Rec:
    """Collects the verdicts of one obligation."""

    def __init__(self, oid):
        self.oid = oid
        self.items = []
        self.visited = set()
        self.interps = []

    def interp(self):
        I = new_interp(REPO)
        self.interps.append(I)
        return I

    def _add(self, status, rule, construct, detail="", where=None, n=1, proved=0):
        self.items.append(
            dict(oid=self.oid, status=status, rule=rule, construct=construct, detail=str(detail)[:600], where=where, n=n, proved=proved)
        )

    def ok(self, rule, construct, detail="", n=1):
        self._add("proved", rule, construct, detail, n=n, proved=n)

    def bad(self, rule, construct, detail="", where=None):
        self._add("refuted", rule, construct, detail, where)

    def undecided(self, rule, construct, detail=""):
        self._add("undecided", rule, construct, detail)

    def check(self, cond, rule, construct, detail="", where=None):
        if cond:
            self.ok(rule, construct)
        else:
            self.bad(rule, construct, detail, where)

    def _elements(self, t, rule, construct, prove, refute, what):
        a = ten.raw(t)
        n = proved = 0
        und = []
        origin = t.origin if isinstance(t, T) else None
        for i in __import__("numpy").ndindex(a.shape):
            p = a[i]
            n += 1
            w = refute(p)
            if w is not None:
                self._add("refuted", rule, construct,
                          f"{what}: element {list(i)} = {alg.show(p, 10)} takes value {w[1]:.4g} on an instance", origin, n=1)
                return False
            if prove(p) is True:
                proved += 1
            else:
                und.append((i, p))
        if und:
            i, p = und[0]
            self._add("undecided", rule, construct, f"{what}: {len(und)}/{n} elements, e.g. {list(i)}: {alg.show(p, 6)}", n=n, proved=proved)
            return None
        self._add("proved", rule, construct, what, n=n, proved=proved)
        return True

    def nonneg(self, t, rule, construct, what=""):
        return self._elements(t, rule, construct, alg.nonneg, alg.refute_nonneg, what)

    def zero(self, t, rule, construct, what=""):
        return self._elements(t, rule, construct, _zero, alg.refute_zero, what)


def _zero(p):
    r = alg.is_zero(p)
    if r is not True and alg.NARY[0] and alg.nonneg(p) is True and alg.nonneg(-p) is True:
        return True
    return r


def run_one(job):
    oid, modname, fname, args, limit = job
    import importlib

    sys.setrecursionlimit(20000)
    rec = Rec(oid)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    err = None
    try:
        f = getattr(importlib.import_module(modname), fname)
        f(rec, *args)
    except AbsRaise as e:
        w = e.where
        cons = w[2] if w else "?"
        rec._add("refuted", "no-exception", cons, f"{oid}: {e.typename()}: {_exc_text(e)}", w)
    except Unsupported as e:
        I = rec.interps[-1] if rec.interps else None
        rec._add("undecided", "analysable", oid, f"no model: {e}")
    except Budget:
        rec._add("undecided", "analysable", oid, f"analysis budget of {limit}s exhausted")
    except (RecursionError, MemoryError) as e:
        rec._add("undecided", "analysable", oid, f"{type(e).__name__}")
    except Exception:
        err = traceback.format_exc()
    finally:
        signal.alarm(0)
    vis = set()
    files = set()
    for I in rec.interps:
        vis |= {v for v in I.visited if v.startswith("decomon")}
    return dict(oid=oid, items=rec.items, visited=sorted(vis), wall=time.time() - t0, error=err)


def _exc_text(e):
    x = e.exc
    from .interp import Obj

    if isinstance(x, Obj):
        return str(x.d.get("_args", ""))
    return str(x)
