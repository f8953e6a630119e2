"""Models of the standard library for the interpreter: containers, dataclasses, context
managers, functional tools.  What is not modelled evaluates to `Unsupported`."""
from __future__ import annotations

import ast
import collections
import contextlib
import copy
import functools
import itertools
import keyword
import operator
import re
import threading
import types

from .interp import (MISSING, AbsRaise, BoundV, ClassMV, ClassV, EnumMember, FuncV, ModuleV, Obj, Opaque, PropV, StaticV,
                     TensorType, TypingForm, Unsupported, _Break, _Continue, _Return)
from .ten import T, Prog


def host_module(name, extra=None, only=None):
    import importlib

    m = importlib.import_module(name)
    d = {n: getattr(m, n) for n in (only or dir(m)) if not n.startswith("_")}
    d.update(extra or {})
    return ModuleV(name, d)


class Noop:
    """object whose methods do nothing (loggers)"""

    def sa_getattr(self, name):
        if name in ("isEnabledFor", "hasHandlers"):
            return lambda *a, **k: False
        return lambda *a, **k: Noop()

    def __bool__(self):
        return True


# ------------------------------------------------------------------ typing, collections.abc
def abc_types(I):
    def obj_has(*names):
        return lambda o: all(o._dun(n) is not MISSING for n in names)

    def mk(name, test, dunders):
        return TensorType(name, lambda o: obj_has(*dunders)(o) or (o.host is not None and test(o.host)) if isinstance(o, Obj) else
                          False if isinstance(o, (FuncV, BoundV, ClassV, ModuleV, Opaque)) else test(o))

    abc = collections.abc
    seq = lambda o: isinstance(o, abc.Sequence)
    host = lambda c: lambda o: isinstance(o, c) and not isinstance(o, EnumMember)
    d = {
        "Sequence": mk("Sequence", seq, ("_sa_never",)), "MutableSequence": mk("MutableSequence", host(abc.MutableSequence), ("_sa_never",)),
        "Iterable": mk("Iterable", lambda o: isinstance(o, T) and o.ndim > 0 or host(abc.Iterable)(o), ("__iter__",)),
        "Iterator": mk("Iterator", host(abc.Iterator), ("__iter__", "__next__")),
        "Generator": mk("Generator", host(abc.Iterator), ("_sa_never",)),
        "Mapping": mk("Mapping", host(abc.Mapping), ("_sa_never",)), "MutableMapping": mk("MutableMapping", host(abc.MutableMapping), ("_sa_never",)),
        "Set": mk("Set", host(abc.Set), ("_sa_never",)), "Sized": mk("Sized", lambda o: isinstance(o, T) or host(abc.Sized)(o), ("__len__",)),
        "Hashable": mk("Hashable", host(abc.Hashable), ()), "Container": mk("Container", host(abc.Container), ("__contains__",)),
        "Collection": mk("Collection", lambda o: isinstance(o, T) or host(abc.Collection)(o), ("__len__", "__iter__", "__contains__")),
    }
    d["Callable"] = TensorType("Callable", lambda o: I.builtins["callable"](o))
    for v in d.values():
        v.sa_unsupported_base = True
    return d


class NamedTupleForm(TypingForm):
    def __call__(self, name, fields=None, **k):
        names = [n for n, _ in (fields or [])] + list(k)
        return NTClass(name, names, [])

    def build(self, I, node, d):
        names = [s.target.id for s in node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
        c = NTClass(node.name, names, [d[n] for n in names if n in d])
        for k, v in d.items():
            if k not in names and not k.startswith("__"):
                c.sa_extra[k] = v
        return c


def NTClass(name, names, defaults):
    """host type of a named tuple; methods written in the analysed program are bound on access"""
    base = collections.namedtuple(name, names, defaults=defaults or None)
    t = type(name, (base,), {"sa_extra": {}, "__slots__": ()})
    return t


def make_typing(I):
    names = """Any Union Optional Dict List Tuple Set FrozenSet Type Generic ClassVar Literal Final Annotated Protocol
    SupportsFloat SupportsInt NoReturn Never Self TypeAlias Concatenate Required NotRequired Unpack LiteralString Text DefaultDict
    OrderedDict Counter Deque AnyStr IO Pattern Match Awaitable Coroutine AsyncIterator TypedDict""".split()
    d = {n: TypingForm(n) for n in names}
    d.update(abc_types(I))
    d["NamedTuple"] = NamedTupleForm("NamedTuple")
    d["TYPE_CHECKING"] = False
    d["cast"] = lambda t, v: v
    for n in ("overload", "final", "runtime_checkable", "no_type_check", "override"):
        d[n] = lambda f: f
    for n in ("TypeVar", "ParamSpec", "TypeVarTuple"):
        d[n] = lambda *a, **k: TypingForm("T")
    d["NewType"] = lambda n, t: (lambda x: x)
    d["assert_never"] = lambda x: _raise(AssertionError("Expected code to be unreachable"))
    d["reveal_type"] = lambda x: x
    d["get_args"] = lambda x: _unsup("get_args")
    return ModuleV("typing", d)


def _raise(e):
    raise AbsRaise(e)


def _unsup(m):
    raise Unsupported(m)


def make_cabc(I):
    return ModuleV("collections.abc", abc_types(I))


# ------------------------------------------------------------------ collections
def make_collections(I):
    def namedtuple(name, fields, defaults=None, rename=False, module=None):
        names = fields.replace(",", " ").split() if isinstance(fields, str) else list(I.iterate(fields))
        try:
            return NTClass(name, names, list(defaults) if defaults else [])
        except (ValueError, TypeError) as e:
            raise AbsRaise(e)

    return ModuleV("collections", {
        "OrderedDict": collections.OrderedDict, "defaultdict": collections.defaultdict, "deque": collections.deque,
        "Counter": collections.Counter, "ChainMap": collections.ChainMap, "namedtuple": namedtuple, "abc": I.load("collections.abc")})


# ------------------------------------------------------------------ abc, enum
class ABC:
    pass


class Enum:
    pass


class IntEnum:
    pass


class StrEnum:
    pass


def make_abc(I):
    def abstractmethod(f):
        g = f.fget if isinstance(f, PropV) else f.f if isinstance(f, (ClassMV, StaticV)) else f
        if isinstance(g, FuncV):
            g.d["__isabstractmethod__"] = True
        return f

    def ABCMeta(*a):
        raise Unsupported("ABCMeta()")

    ABCMeta.sa_base = ABC
    return ModuleV("abc", {"ABC": ABC, "ABCMeta": ABCMeta, "abstractmethod": abstractmethod,
                           "abstractproperty": lambda f: PropV(abstractmethod(f))})


class Auto:
    sa_auto = True


def make_enum(I):
    def EnumMeta(*a):
        raise Unsupported("EnumMeta()")

    EnumMeta.sa_base = Enum
    return ModuleV("enum", {"Enum": Enum, "IntEnum": IntEnum, "StrEnum": StrEnum, "unique": lambda c: c, "auto": Auto, "EnumMeta": EnumMeta,
                            "member": lambda v: v, "nonmember": lambda v: _unsup("nonmember")})


# ------------------------------------------------------------------ itertools, functools, operator
def make_itertools(I):
    L = lambda x: list(I.iterate(x))

    def chain(*xs):
        return iter([e for x in xs for e in L(x)])

    chain.from_iterable = lambda xs: chain(*L(xs))

    def lazy(x):
        return iter(I.iterate(x))

    def takewhile(f, xs):
        for x in lazy(xs):
            if not I.truth(I.call(f, [x], {})):
                return
            yield x

    def accumulate(xs, func=None, initial=None):
        acc = MISSING if initial is None else initial
        out = [] if initial is None else [initial]
        for x in L(xs):
            acc = x if acc is MISSING else I.binop(operator.add, acc, x, ast.Add()) if func is None else I.call(func, [acc, x], {})
            out.append(acc)
        return iter(out)

    def groupby(xs, key=None):
        out = []
        for x in L(xs):
            k = x if key is None else I.call(key, [x], {})
            if out and I.truth(out[-1][0] == k):
                out[-1][1].append(x)
            else:
                out.append((k, [x]))
        return iter([(k, iter(v)) for k, v in out])

    def dropwhile(f, xs):
        xs = L(xs)
        i = 0
        while i < len(xs) and I.truth(I.call(f, [xs[i]], {})):
            i += 1
        return iter(xs[i:])

    return ModuleV("itertools", {
        "chain": chain, "product": lambda *a, **k: iter(list(itertools.product(*[L(x) for x in a], **k))),
        "permutations": lambda x, *a: iter(list(itertools.permutations(L(x), *a))),
        "combinations": lambda x, r: iter(list(itertools.combinations(L(x), r))),
        "combinations_with_replacement": lambda x, r: iter(list(itertools.combinations_with_replacement(L(x), r))),
        "repeat": itertools.repeat, "count": itertools.count, "cycle": lambda x: itertools.cycle(L(x)),
        "zip_longest": lambda *a, **k: iter(list(itertools.zip_longest(*[L(x) for x in a], **k))),
        "accumulate": accumulate, "islice": lambda x, *a: itertools.islice(lazy(x), *a),
        "starmap": lambda f, xs: iter([I.call(f, L(a), {}) for a in L(xs)]),
        "pairwise": lambda x: iter(list(itertools.pairwise(L(x)))), "takewhile": takewhile, "dropwhile": dropwhile,
        "filterfalse": lambda f, xs: iter([x for x in L(xs) if not I.truth(x if f is None else I.call(f, [x], {}))]),
        "compress": lambda x, s: iter([a for a, b in zip(L(x), L(s)) if I.truth(b)]), "groupby": groupby,
        "tee": lambda x, n=2: (lambda l: tuple(iter(l) for _ in range(n)))(L(x)),
    })


class Partial:
    def __init__(self, I, f, a, k):
        if isinstance(f, Partial):
            f, a, k = f.func, f.args + a, {**f.keywords, **k}
        self.I, self.func, self.args, self.keywords = I, f, a, k

    def __call__(self, *a, **k):
        return self.I.call(self.func, list(self.args) + list(a), {**self.keywords, **k})

    def sa_getattr(self, name):
        if name in ("func", "args", "keywords"):
            return getattr(self, name)
        raise AbsRaise(AttributeError(name))


class Memo:
    """lru_cache: returns the same object for equal arguments"""

    sa_method = True

    def __init__(self, I, f):
        self.I, self.f, self.memo = I, f, {}
        self.__name__ = getattr(f, "name", "cached")

    def __call__(self, *a, **k):
        if any(isinstance(x, T) for x in list(a) + list(k.values())):
            return self.I.call(self.f, list(a), dict(k))
        try:
            key = (a, tuple(sorted(k.items())))
            hash(key)
        except TypeError as e:
            raise AbsRaise(e)
        if key not in self.memo:
            self.memo[key] = self.I.call(self.f, list(a), dict(k))
        return self.memo[key]

    def sa_getattr(self, name):
        if name == "cache_clear":
            return self.memo.clear
        if name == "__wrapped__":
            return self.f
        return self.I.getattr(self.f, name)


class CachedPropV(PropV):
    def __init__(self, I, f):
        name = getattr(f, "name", "cached")

        def get(o):
            if name not in o.d:
                o.d[name] = I.call(f, [o], {})
            return o.d[name]

        super().__init__(get, lambda o, v: o.d.__setitem__(name, v))


class PartialMethod:
    sa_method = True

    def __init__(self, I, f, a, k):
        self.I, self.f, self.a, self.k = I, f, a, k

    def __call__(self, o, *a, **k):
        return self.I.call(self.f, [o, *self.a, *a], {**self.k, **k})


class Single:
    """functools.singledispatch"""

    sa_method = True

    def __init__(self, I, f):
        self.I, self.f, self.table = I, f, []

    def dispatch(self, v):
        best = None
        for t, g in self.table:
            if self.I.builtins["isinstance"](v, t):
                if best is None or self.I.builtins["issubclass"](t, best[0]):
                    best = (t, g)
        return best[1] if best else self.f

    def __call__(self, *a, **k):
        return self.I.call(self.dispatch(a[0]), list(a), k)

    def sa_getattr(self, name):
        if name == "register":
            def register(t, g=None):
                if g is not None:
                    self.table.append((t, g))
                    return g
                if isinstance(t, FuncV):
                    a = t.node.args
                    p = (a.posonlyargs + a.args)[0]
                    if p.annotation is None:
                        raise AbsRaise(TypeError("register() without an annotation"))
                    from .interp import Env

                    env = t.env
                    if env is None:
                        env = Env(None, t.module)
                        env.vars = t.module.d
                    self.table.append((self.I.eval(p.annotation, env), t))
                    return t
                return lambda g: (self.table.append((t, g)), g)[1]
            return register
        if name == "dispatch":
            raise Unsupported("dispatch of a type")
        return self.I.getattr(self.f, name)


def make_functools(I):
    def reduce(f, xs, *init):
        xs = list(I.iterate(xs))
        if init:
            acc = init[0]
        else:
            if not xs:
                raise Prog("TypeError", "reduce of empty sequence")
            acc, xs = xs[0], xs[1:]
        for x in xs:
            acc = I.call(f, [acc, x], {})
        return acc

    def wraps(f, *a, **k):
        def deco(g):
            if isinstance(g, FuncV):
                try:
                    g.d["__wrapped__"] = f
                    g.d["__name__"] = I.getattr(f, "__name__")
                except AbsRaise:
                    pass
            return g

        return deco

    def lru_cache(*a, **k):
        if a and isinstance(a[0], (FuncV, BoundV, ClassV)):
            return Memo(I, a[0])
        return lambda f: Memo(I, f)

    def total_ordering(c):
        have = [n for n in ("__lt__", "__le__", "__gt__", "__ge__") if n in c.d]
        if not have:
            return c
        n = have[0]
        f = c.d[n]
        lt = {"__lt__": lambda a, b: I.truth(f(a, b)), "__gt__": lambda a, b: I.truth(f(b, a)),
              "__le__": lambda a, b: not I.truth(f(b, a)), "__ge__": lambda a, b: not I.truth(f(a, b))}[n]
        for m, g in {"__lt__": lt, "__gt__": lambda a, b: lt(b, a), "__le__": lambda a, b: not lt(b, a), "__ge__": lambda a, b: not lt(a, b)}.items():
            if m not in c.d:
                c.d[m] = method(g)
        return c

    return ModuleV("functools", {
        "partial": lambda f, *a, **k: Partial(I, f, a, k), "reduce": reduce, "wraps": wraps, "lru_cache": lru_cache,
        "cache": lambda f: Memo(I, f), "cached_property": lambda f: CachedPropV(I, f), "total_ordering": total_ordering,
        "partialmethod": lambda f, *a, **k: PartialMethod(I, f, a, k), "singledispatch": lambda f: Single(I, f),
        "update_wrapper": lambda g, f, *a, **k: g,
        "cmp_to_key": functools.cmp_to_key,
    })


def method(f):
    """host function usable as a method of an analysed class"""

    def g(*a, **k):
        return f(*a, **k)

    g.sa_method = True
    return g


def make_operator(I):
    d = {n: getattr(operator, n) for n in dir(operator) if not n.startswith("_")}

    ops = dict(add=ast.Add, sub=ast.Sub, mul=ast.Mult, truediv=ast.Div, floordiv=ast.FloorDiv, mod=ast.Mod, pow=ast.Pow, matmul=ast.MatMult, and_=ast.BitAnd, or_=ast.BitOr)
    for n, a in ops.items():
        d[n] = (lambda op, node: lambda x, y: I.binop(op, x, y, node))(getattr(operator, n), a())
        i = "i" + n.rstrip("_")
        if i == "ior" or i == "iand" or hasattr(operator, i):
            d[i] = (lambda op, node: lambda x, y: I.binop(op, x, y, node))(getattr(operator, i), a())
    d["getitem"] = I.getitem
    d["setitem"] = I.setitem
    d["contains"] = I.contains
    d["not_"] = lambda x: not I.truth(x)
    d["truth"] = I.truth
    d["call"] = lambda f, *a, **k: I.call(f, list(a), k)

    def path(o, n):
        for p in n.split("."):
            o = I.getattr(o, p)
        return o

    d["attrgetter"] = lambda *ns: (lambda o: path(o, ns[0]) if len(ns) == 1 else tuple(path(o, n) for n in ns))
    d["itemgetter"] = lambda *ks: (lambda o: I.getitem(o, ks[0]) if len(ks) == 1 else tuple(I.getitem(o, k) for k in ks))
    d["methodcaller"] = lambda n, *a, **k: (lambda o: I.call(I.getattr(o, n), list(a), dict(k)))
    return ModuleV("operator", d)


# ------------------------------------------------------------------ contextlib
class Channel:
    """runs a generator function of the analysed program up to each of its yields"""

    def __init__(self, I, f, a, k):
        self.I = I
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.out = self.send = self.exc = None
        self.done = False
        self.state = (list(I.stack), I.depth)
        self.f, self.a, self.k = f, a, k
        self.thread = None

    def append(self, v):  # called by the yield expression, in the generator's thread
        self.out = ("yield", v)
        self.back.release()
        self.go.acquire()
        if self.exc is not None:
            e, self.exc = self.exc, None
            raise e
        return None

    def run(self):
        self.go.acquire()
        try:
            self.I.channel = self
            self.I.call(self.f, list(self.a), self.k)
            self.out = ("end", None)
        except BaseException as e:  # noqa: BLE001
            self.out = ("raise", e)
        self.done = True
        self.back.release()

    def resume(self, exc=None):
        if self.thread is None:
            old = threading.stack_size(64 << 20)
            self.thread = threading.Thread(target=self.run, daemon=True)
            self.thread.start()
            threading.stack_size(old)
        caller = (self.I.stack, self.I.depth)
        self.I.stack, self.I.depth = self.state
        self.exc = exc
        self.go.release()
        self.back.acquire()
        self.state = (self.I.stack, self.I.depth)
        self.I.stack, self.I.depth = caller
        kind, v = self.out
        if kind == "raise":
            raise v
        return kind, v


class GenCM:
    def __init__(self, I, f, a, k):
        self.I, self.f, self.a, self.k = I, f, a, k

    def __enter__(self):
        self.ch = Channel(self.I, self.f, self.a, self.k)
        kind, v = self.ch.resume()
        if kind == "end":
            raise AbsRaise(RuntimeError("generator didn't yield"))
        return v

    def __exit__(self, t, v, tb):
        if v is None:
            kind, _ = self.ch.resume()
            if kind == "yield":
                raise AbsRaise(RuntimeError("generator didn't stop"))
            return False
        try:
            self.ch.resume(AbsRaise(v))
        except AbsRaise as e:
            if e.exc is v:
                return False
            raise
        return True

    def sa_call(self, g):
        def wrapped(*a, **k):
            cm = GenCM(self.I, self.f, self.a, self.k)
            cm.__enter__()
            r = self.I.call(g, list(a), k)
            cm.__exit__(None, None, None)
            return r

        return method(wrapped)

    __call__ = sa_call


class CMFactory:
    sa_method = True

    def __init__(self, I, f):
        self.I, self.f = I, f
        self.__name__ = getattr(f, "name", "cm")

    def __call__(self, *a, **k):
        return GenCM(self.I, self.f, a, k)


class Suppress:
    def __init__(self, I, types):
        self.I, self.types = I, types

    def __enter__(self):
        return None

    def __exit__(self, t, v, tb):
        return v is not None and self.I.exc_match(AbsRaise(v), tuple(self.types))


class Null:
    def __init__(self, v=None):
        self.v = v

    def __enter__(self):
        return self.v

    def __exit__(self, *a):
        return False


class ExitStack:
    def __init__(self, I):
        self.I, self.stack = I, []

    def __enter__(self):
        return self

    def sa_getattr(self, name):
        if name == "__enter__":
            return self.__enter__
        if name == "__exit__":
            return self.__exit__
        if name == "enter_context":
            def enter(c):
                v = self.I.call(self.I.getattr(c, "__enter__"), [], {})
                self.stack.append(self.I.getattr(c, "__exit__"))
                return v
            return enter
        if name == "callback":
            def cb(f, *a, **k):
                self.stack.append(lambda *e: (self.I.call(f, list(a), k), False)[1])
                return f
            return cb
        if name == "close":
            return lambda: self.__exit__(None, None, None)
        raise Unsupported(f"ExitStack.{name}")

    def __exit__(self, t, v, tb):
        stop = False
        while self.stack:
            if self.I.truth(self.I.call(self.stack.pop(), [t, v, tb], {})):
                t = v = None
                stop = True
        return stop


def make_contextlib(I):
    return ModuleV("contextlib", {
        "contextmanager": lambda f: CMFactory(I, f), "suppress": lambda *t: Suppress(I, t), "nullcontext": Null,
        "ExitStack": lambda: ExitStack(I), "AbstractContextManager": ABC, "closing": lambda x: _unsup("closing"),
    })


# ------------------------------------------------------------------ dataclasses
class DCField:
    def __init__(self, default=MISSING, default_factory=MISSING, init=True, repr=True, hash=None, compare=True, metadata=None, kw_only=False):
        self.default, self.default_factory, self.init, self.compare, self.kw_only = default, default_factory, init, compare, kw_only
        self.metadata = metadata or {}
        self.name = None


def make_dataclasses(I):
    def process(c, init=True, eq=True, order=False, frozen=False, kw_only=False, slots=False, unsafe_hash=False, repr=True, **_):
        fs = {}
        for b in reversed(c.mro[1:]):
            if isinstance(b, ClassV) and "__dataclass_fields__" in b.d:
                fs.update(b.d["__dataclass_fields__"])
        seen_kw = False
        for st in (c.node.body if c.node is not None else []):
            if not (isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name)):
                continue
            ann = ast.unparse(st.annotation)
            if "ClassVar" in ann:
                continue
            if ann.split(".")[-1] == "KW_ONLY":
                seen_kw = True
                continue
            if "InitVar" in ann:
                raise Unsupported("InitVar")
            n = st.target.id
            v = c.d.get(n, MISSING)
            f = v if isinstance(v, DCField) else DCField(v)
            if f.default is not MISSING and isinstance(f.default, (list, dict, set)):
                raise AbsRaise(ValueError(f"mutable default {type(f.default)} for field {n} is not allowed: use default_factory"))
            f.name = n
            f.kw_only = f.kw_only or kw_only or seen_kw
            fs.pop(n, None) if n not in fs else None
            fs[n] = f
            if f.default is not MISSING:
                c.d[n] = f.default
            elif n in c.d:
                del c.d[n]
        c.d["__dataclass_fields__"] = fs
        pos = [f for f in fs.values() if f.init and not f.kw_only]
        opt = False
        for f in pos:
            has = f.default is not MISSING or f.default_factory is not MISSING
            if opt and not has:
                raise AbsRaise(TypeError(f"non-default argument '{f.name}' follows default argument"))
            opt = opt or has
        c.d["__match_args__"] = tuple(f.name for f in pos)

        def put(o, n, v):
            if frozen:
                o.d[n] = v
            else:
                I.setattr(o, n, v)

        def __init__(o, *a, **k):
            if len(a) > len(pos):
                raise AbsRaise(TypeError(f"{c.name}.__init__() takes {len(pos) + 1} positional arguments but {len(a) + 1} were given"))
            given = {f.name: v for f, v in zip(pos, a)}
            for n, v in k.items():
                if n in given or n not in fs or not fs[n].init:
                    raise AbsRaise(TypeError(f"{c.name}.__init__() got an unexpected or repeated argument '{n}'"))
                given[n] = v
            for f in fs.values():
                if f.name in given:
                    put(o, f.name, given[f.name])
                elif f.default is not MISSING:
                    put(o, f.name, f.default)
                elif f.default_factory is not MISSING:
                    put(o, f.name, I.call(f.default_factory, [], {}))
                elif f.init:
                    raise AbsRaise(TypeError(f"{c.name}.__init__() missing required argument '{f.name}'"))
            post = c.lookup("__post_init__")[0]
            if isinstance(o, Obj) and o._dun("__post_init__") is not MISSING:
                I.call(o._dun("__post_init__"), [o], {})

        key = lambda o: tuple(o.d.get(f.name) for f in fs.values() if f.compare)
        if init and "__init__" not in c.d:
            c.d["__init__"] = method(__init__)
        if eq and "__eq__" not in c.d:
            c.d["__eq__"] = method(lambda a, b: key(a) == key(b) if isinstance(b, Obj) and b.cls is a.cls else NotImplemented if not isinstance(b, Obj) else False)
            if frozen or unsafe_hash:
                c.d["__hash__"] = method(lambda a: hash(key(a)))
                c.hashed = True
        if order:
            for n, op in (("__lt__", operator.lt), ("__le__", operator.le), ("__gt__", operator.gt), ("__ge__", operator.ge)):
                c.d[n] = method((lambda op: lambda a, b: op(key(a), key(b)))(op))
        if frozen:
            def deny(o, n, v):
                raise AbsRaise(AttributeError(f"cannot assign to field '{n}'"))

            c.d["__setattr__"] = method(deny)
        return c

    def dataclass(c=None, **k):
        if c is not None:
            return process(c, **k)
        return lambda c: process(c, **k)

    def fields(o):
        c = o if isinstance(o, ClassV) else o.cls
        fs = c.lookup("__dataclass_fields__")[0]
        if fs is MISSING:
            raise AbsRaise(TypeError("must be called with a dataclass type or instance"))
        return tuple(fs.values())

    def deep(v, f):
        if isinstance(v, Obj) and v.cls.lookup("__dataclass_fields__")[0] is not MISSING:
            return f(v)
        if isinstance(v, (list, tuple)) and type(v) in (list, tuple):
            return type(v)(deep(e, f) for e in v)
        if type(v) is dict:
            return {k: deep(e, f) for k, e in v.items()}
        return v

    asdict = lambda o, **k: {f.name: deep(o.d[f.name], asdict) for f in fields(o)}
    astuple = lambda o, **k: tuple(deep(o.d[f.name], astuple) for f in fields(o))

    def replace(o, **k):
        kw = {f.name: o.d[f.name] for f in fields(o) if f.init}
        kw.update(k)
        return I.call(o.cls, [], kw)

    return ModuleV("dataclasses", {
        "dataclass": dataclass, "field": lambda **k: DCField(**k), "fields": fields, "replace": replace, "asdict": asdict,
        "astuple": astuple, "is_dataclass": lambda o: (o.cls if isinstance(o, Obj) else o).lookup("__dataclass_fields__")[0] is not MISSING
        if isinstance(o, (Obj, ClassV)) else False, "KW_ONLY": TypingForm("KW_ONLY"), "InitVar": TypingForm("InitVar"),
        "FrozenInstanceError": AttributeError, "MISSING": MISSING})


# ------------------------------------------------------------------ copy, inspect, logging, ...
def make_copy(I):
    d = I.load("_sa").d
    return ModuleV("copy", {"copy": d["copy"], "deepcopy": d["deepcopy"]})


class Param:
    empty = MISSING

    def __init__(self, name, default, kind, annotation=None):
        self.name, self.default, self.kind, self.annotation = name, default, kind, annotation


class Signature:
    def __init__(self, ps):
        self.parameters = {p.name: p for p in ps}


def make_inspect(I):
    kinds = dict(POSITIONAL_ONLY=0, POSITIONAL_OR_KEYWORD=1, VAR_POSITIONAL=2, KEYWORD_ONLY=3, VAR_KEYWORD=4)
    P = type("Parameter", (Param,), kinds)

    def signature(f, **k):
        drop = 0
        while not isinstance(f, FuncV):
            if isinstance(f, BoundV):
                f, drop = f.func, drop + 1
            elif isinstance(f, (Memo, Single, CMFactory)):
                f = f.f
            elif isinstance(f, ClassV):
                g = f.lookup("__init__")[0]
                if g is MISSING:
                    return Signature([])
                f, drop = g, drop + 1
            elif isinstance(f, Obj):
                g = f._dun("__call__")
                if g is MISSING:
                    raise AbsRaise(TypeError("not a callable object"))
                f, drop = g, drop + 1
            else:
                raise Unsupported("signature")
        while isinstance(f.d.get("__wrapped__"), FuncV):
            f = f.d["__wrapped__"]
        a = f.node.args
        pos = [(p.arg, 0) for p in a.posonlyargs] + [(p.arg, 1) for p in a.args]
        nd = len(pos) - len(f.defaults)
        ps = [P(n, f.defaults[i - nd] if i >= nd else MISSING, kd) for i, (n, kd) in enumerate(pos)][drop:]
        if a.vararg:
            ps.append(P(a.vararg.arg, MISSING, 2))
        ps += [P(p.arg, f.kwdefaults.get(p.arg, MISSING), 3) for p in a.kwonlyargs]
        if a.kwarg:
            ps.append(P(a.kwarg.arg, MISSING, 4))
        return Signature(ps)

    return ModuleV("inspect", {
        "signature": signature, "Parameter": P, "_empty": MISSING, "isclass": lambda o: isinstance(o, (ClassV, type)),
        "isfunction": lambda o: isinstance(o, FuncV), "ismethod": lambda o: isinstance(o, BoundV),
        "isabstract": lambda c: bool(list(I._abstract(c))) if isinstance(c, ClassV) else False,
        "getmro": lambda c: tuple(c.mro),
        "getfullargspec": lambda f: _unsup("getfullargspec")})


def make_logging(I):
    import logging

    d = {n: getattr(logging, n) for n in ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL", "NOTSET")}
    d["getLogger"] = lambda *a: Noop()
    for n in "debug info warning error exception critical log basicConfig captureWarnings disable".split():
        d[n] = lambda *a, **k: None
    d["Logger"] = TypingForm("Logger")
    d["NullHandler"] = lambda *a: Noop()
    return ModuleV("logging", d)


class CatchWarnings(Null):
    pass


def make_warnings(I):
    no = lambda *a, **k: None
    return ModuleV("warnings", {"warn": no, "simplefilter": no, "filterwarnings": no, "resetwarnings": no,
                                "catch_warnings": lambda **k: CatchWarnings([] if k.get("record") else None)})


def make_types(I):
    def ns(**k):
        c = ClassV(I, "SimpleNamespace", [object], {}, ModuleV("types"))
        o = Obj(c)
        o.d.update(k)
        return o

    return ModuleV("types", {"SimpleNamespace": ns, "MappingProxyType": types.MappingProxyType, "NoneType": type(None),
                             "FunctionType": TensorType("FunctionType", lambda o: isinstance(o, FuncV)),
                             "LambdaType": TensorType("FunctionType", lambda o: isinstance(o, FuncV)),
                             "MethodType": TensorType("MethodType", lambda o: isinstance(o, BoundV)),
                             "ModuleType": TensorType("ModuleType", lambda o: isinstance(o, ModuleV)),
                             "GeneratorType": TensorType("GeneratorType", lambda o: hasattr(o, "__next__"))})


def make_numbers(I):
    import numbers

    real = lambda o: isinstance(o, numbers.Real)
    return ModuleV("numbers", {"Number": TensorType("Number", lambda o: isinstance(o, numbers.Number)), "Real": TensorType("Real", real),
                               "Integral": TensorType("Integral", lambda o: isinstance(o, numbers.Integral)),
                               "Rational": TensorType("Rational", lambda o: isinstance(o, numbers.Rational))})


def make_heapq(I):
    import heapq

    return host_module("heapq")


def make_time(I):
    n = itertools.count()
    return ModuleV("time", {k: (lambda *a: float(next(n))) for k in ("time", "perf_counter", "monotonic", "process_time")} | {"sleep": lambda *a: None})


def make_threading(I):
    return ModuleV("threading", {"Lock": Null, "RLock": Null, "local": lambda: Obj(ClassV(I, "local", [object], {}, ModuleV("threading")))})


def make_sys(I):
    import sys

    return ModuleV("sys", {"version_info": sys.version_info, "maxsize": sys.maxsize, "float_info": sys.float_info, "platform": sys.platform,
                           "version": sys.version, "modules": I.modules, "path": []})


def make_weakref(I):
    return ModuleV("weakref", {"WeakKeyDictionary": dict, "WeakValueDictionary": dict, "WeakSet": set, "ref": lambda o, *a: (lambda: o), "proxy": lambda o, *a: o})


PYLIB = {
    "typing": make_typing, "typing_extensions": make_typing, "collections.abc": make_cabc, "collections": make_collections, "abc": make_abc,
    "enum": make_enum, "itertools": make_itertools, "functools": make_functools, "operator": make_operator, "contextlib": make_contextlib,
    "dataclasses": make_dataclasses, "copy": make_copy, "inspect": make_inspect, "logging": make_logging, "warnings": make_warnings,
    "types": make_types, "numbers": make_numbers, "heapq": make_heapq, "time": make_time, "threading": make_threading, "sys": make_sys,
    "weakref": make_weakref,
    "re": lambda I: host_module("re"), "string": lambda I: host_module("string"), "textwrap": lambda I: host_module("textwrap"),
    "bisect": lambda I: host_module("bisect"), "json": lambda I: host_module("json", only=["dumps", "loads"]),
    "fractions": lambda I: host_module("fractions", only=["Fraction"]), "keyword": lambda I: host_module("keyword"),
    "pprint": lambda I: ModuleV("pprint", {"pprint": lambda *a, **k: None, "pformat": lambda o, **k: repr(o)}),
    "os": lambda I: ModuleV("os", {"path": host_module("posixpath", only=["join", "basename", "dirname", "splitext"]),
                                   "environ": {}, "getenv": lambda n, d=None: d, "sep": "/", "linesep": "\n", "name": "posix"}),
}
