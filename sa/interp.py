"""Interprocedural abstract interpreter over the Python syntax tree of the analysed tree.

Control is resolved by constant propagation of the configuration (mode, domain, flags,
shapes); a branch whose condition is not a constant of the abstraction is not followed:
the analysis gives up on the obligation (`Unsupported`).  Repository code is never
imported or executed."""
from __future__ import annotations

import ast
import builtins
import collections
import math
import operator
import os
import types

import numpy

from . import ten
from .alg import Poly, TooBig
from .ten import T, Unsupported, Prog

MISSING = object()


class AbsRaise(Exception):
    """exception propagating in the analysed program"""

    def __init__(self, exc, native=False):
        super().__init__(repr(exc))
        self.exc = exc
        self.native = native
        self.where = None

    def typename(self):
        if isinstance(self.exc, Obj):
            return self.exc.cls.name
        return type(self.exc).__name__


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class ModuleV:
    def __init__(self, name, d=None, file=None):
        self.name = name
        self.d = d if d is not None else {}
        self.file = file

    def __repr__(self):
        return f"<module {self.name}>"


class Opaque:
    """External name without a model."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<external {self.name}>"

    def __call__(self, *a, **k):
        raise Unsupported(f"call of unmodelled external {self.name}")


class Env:
    __slots__ = ("vars", "parent", "module", "func", "locals", "globals_decl", "nonlocals", "first", "defcls")

    def __init__(self, parent, module, func=None, locs=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.func = func
        self.locals = locs
        self.globals_decl = ()
        self.nonlocals = ()
        self.first = MISSING
        self.defcls = None


class FuncV:
    def __init__(self, interp, node, env, module, name, defaults, kwdefaults, qual, defcls=None):
        self.interp = interp
        self.node = node
        self.env = env
        self.module = module
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.qual = qual
        self.defcls = defcls
        self.d = {}

    def __call__(self, *a, **k):
        return self.interp.call_func(self, list(a), dict(k))

    def __repr__(self):
        return f"<function {self.qual}>"

    @property
    def __name__(self):
        return self.name


class BoundV:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __call__(self, *a, **k):
        return self.func(self.self_, *a, **k)

    def __repr__(self):
        return f"<bound {self.func}>"

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.func is self.func and o.self_ is self.self_

    def __hash__(self):
        return hash((id(self.func), id(self.self_)))

    @property
    def __name__(self):
        return getattr(self.func, "name", "method")


class PropV:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticV:
    def __init__(self, f):
        self.f = f


class ClassMV:
    def __init__(self, f):
        self.f = f


class ClassV:
    def __init__(self, interp, name, bases, d, module, node=None):
        self.interp = interp
        self.name = name
        self.bases = bases
        self.d = d
        self.module = module
        self.node = node
        self.mro = c3(self)
        self.is_enum = any(isinstance(b, ClassV) and b.is_enum for b in bases) or any(
            getattr(b, "__name__", "") in ("Enum", "IntEnum", "StrEnum") and not isinstance(b, ClassV) for b in bases
        )
        self.members = {}
        self.host = next((h for h in self.host_bases() if h in HOST_DATA), None) if not self.is_enum else None
        self.hashed = self.lookup("__hash__")[0] not in (MISSING, None)

    def __repr__(self):
        return f"<class {self.name}>"

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, ClassV):
                if name in c.d:
                    return c.d[name], c
        return MISSING, None

    def host_bases(self):
        return [c for c in self.mro if not isinstance(c, ClassV)]

    def __call__(self, *a, **k):
        return self.interp.instantiate(self, list(a), dict(k))

    def issub(self, other):
        return other in self.mro

    @property
    def __name__(self):
        return self.name

    def __hash__(self):
        return id(self)

    def __iter__(self):
        if self.is_enum:
            return iter(dict.fromkeys(self.members.values()))
        raise TypeError(f"'{self.name}' class is not iterable")

    def __len__(self):
        if self.is_enum:
            return len(dict.fromkeys(self.members.values()))
        raise TypeError(f"object of type 'type' has no len()")

    def __bool__(self):
        return True


def c3(cls):
    def merge(seqs):
        res = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise Prog("TypeError", "MRO conflict")
            res.append(c)
            for s in seqs:
                if s and s[0] is c:
                    del s[0]
            seqs = [s for s in seqs if s]
        return res

    def lin(b):
        return b.mro if isinstance(b, ClassV) else [b]

    return [cls] + merge([lin(b) for b in cls.bases] + [list(cls.bases)])


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"

    def _isstr(self):
        """mixed with str or int: compares like its value"""
        return any(h in (str, int) or getattr(h, "__name__", "") in ("IntEnum", "StrEnum") for h in self.cls.host_bases())

    def __index__(self):
        if isinstance(self.value, int) and self._isstr():
            return self.value
        raise TypeError(f"'{self.cls.name}' object cannot be interpreted as an integer")

    def _cmp(self, o, op):
        if isinstance(o, EnumMember):
            o = o.value
        if not self._isstr():
            return NotImplemented
        return op(self.value, o)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __eq__(self, o):
        if isinstance(o, EnumMember):
            return self is o
        if self._isstr() and isinstance(o, (str, int)):
            return self.value == o
        return False

    def __hash__(self):
        return hash(self.value) if self._isstr() else id(self)

    def __str__(self):
        if any(getattr(h, "__name__", "") in ("IntEnum", "StrEnum") for h in self.cls.host_bases()):
            return str(self.value)
        f, _ = self.cls.lookup("__str__")
        if f is not MISSING:
            return f(self)
        return f"{self.cls.name}.{self.name}"


HOST_DATA = (dict, list, tuple, set, frozenset, str, int, float, collections.OrderedDict, collections.defaultdict, collections.deque, collections.Counter)


class Obj:
    host = None  # data of a subclass of a builtin container

    def __init__(self, cls):
        self.cls = cls
        self.d = {}

    def _dun(self, name):
        f, _ = self.cls.lookup(name)
        return f

    def __repr__(self):
        n = self.d.get("name", self.d.get("_name", ""))
        return f"<{self.cls.name} {n if isinstance(n, str) else ''}>"

    def __call__(self, *a, **k):
        f = self._dun("__call__")
        if f is MISSING:
            raise Prog("TypeError", f"{self.cls.name} object is not callable")
        return f(self, *a, **k)

    def __eq__(self, o):
        f = self._dun("__eq__")
        if f is not MISSING:
            return f(self, o)
        if self.host is not None:
            return self.host == (o.host if isinstance(o, Obj) else o)
        return self is o

    def __ne__(self, o):
        f = self._dun("__ne__")
        if f is not MISSING:
            return f(self, o)
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def _order(self, name, o):
        f = self._dun(name)
        return f(self, o) if f is not MISSING else NotImplemented

    def __lt__(self, o):
        return self._order("__lt__", o)

    def __le__(self, o):
        return self._order("__le__", o)

    def __gt__(self, o):
        return self._order("__gt__", o)

    def __ge__(self, o):
        return self._order("__ge__", o)

    def _unary(self, name):
        f = self._dun(name)
        if f is MISSING:
            raise TypeError(f"bad operand type for {name}: {self.cls.name}")
        return f(self)

    def __neg__(self):
        return self._unary("__neg__")

    def __pos__(self):
        return self._unary("__pos__")

    def __invert__(self):
        return self._unary("__invert__")

    def __abs__(self):
        return self._unary("__abs__")

    def __int__(self):
        return self._unary("__int__")

    def __float__(self):
        return self._unary("__float__")

    def __index__(self):
        return self._unary("__index__")

    def __str__(self):
        f = self._dun("__str__")
        if f is MISSING:
            f = self._dun("__repr__")
        if f is MISSING and "_args" in self.d:
            a = self.d["_args"]
            return "" if not a else str(a[0]) if len(a) == 1 else str(tuple(a))
        return f(self) if f is not MISSING else repr(self)

    def __hash__(self):
        if self.cls.hashed:
            return self._dun("__hash__")(self)
        return id(self)

    def __len__(self):
        f = self._dun("__len__")
        if f is MISSING and self.host is not None:
            return len(self.host)
        if f is MISSING:
            raise TypeError(f"object of type {self.cls.name} has no len()")
        return f(self)

    def __bool__(self):
        f = self._dun("__bool__")
        if f is not MISSING:
            return bool(f(self))
        f = self._dun("__len__")
        if f is not MISSING:
            return bool(f(self))
        return bool(self.host) if self.host is not None else True

    def __iter__(self):
        f = self._dun("__iter__")
        if f is MISSING and self.host is not None:
            return iter(self.host)
        if f is MISSING and self._dun("__getitem__") is not MISSING:
            return self._by_index()
        if f is MISSING:
            raise TypeError(f"{self.cls.name} object is not iterable")
        r = f(self)
        return r._by_next() if isinstance(r, Obj) and r._dun("__next__") is not MISSING else iter(r)

    def _by_index(self):
        for i in range(100000):
            try:
                yield self[i]
            except IndexError:
                return
            except AbsRaise as e:
                if isinstance(e.exc, IndexError):
                    return
                raise

    def _by_next(self):
        for i in range(100000):
            try:
                v = self._dun("__next__")(self)
            except AbsRaise as e:
                if isinstance(e.exc, StopIteration):
                    return
                raise
            yield v

    def __getitem__(self, i):
        f = self._dun("__getitem__")
        if f is MISSING and self.host is not None:
            try:
                return self.host[i]
            except KeyError:
                f = self._dun("__missing__")
                if f is MISSING:
                    raise
        if f is MISSING:
            raise TypeError(f"{self.cls.name} object is not subscriptable")
        return f(self, i)

    def __setitem__(self, i, v):
        f = self._dun("__setitem__")
        if f is MISSING and self.host is not None:
            self.host[i] = v
            return None
        if f is MISSING:
            raise TypeError(f"{self.cls.name} object does not support item assignment")
        return f(self, i, v)

    def __contains__(self, i):
        f = self._dun("__contains__")
        if f is MISSING and self.host is not None:
            return i in self.host
        if f is MISSING:
            return any(i is x or i == x for x in self)
        return f(self, i)

    def __delitem__(self, i):
        f = self._dun("__delitem__")
        if f is MISSING and self.host is not None:
            del self.host[i]
            return None
        if f is MISSING:
            raise TypeError(f"{self.cls.name} object does not support item deletion")
        return f(self, i)

    def __reversed__(self):
        f = self._dun("__reversed__")
        if f is MISSING:
            return iter(list(self)[::-1])
        return iter(f(self))

    def __enter__(self):
        return self._dun("__enter__")(self)


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SliceHost:
    pass


_BIN = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
    ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow, ast.MatMult: operator.matmul,
    ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift,
    ast.RShift: operator.rshift,
}
_IBIN = {
    ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv,
    ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod, ast.Pow: operator.ipow, ast.BitOr: operator.ior,
    ast.BitAnd: operator.iand, ast.BitXor: operator.ixor, ast.MatMult: operator.imatmul,
}
_CMP = {
    ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
    ast.GtE: operator.ge, ast.Is: operator.is_, ast.IsNot: operator.is_not,
}

PROG_EXC = (
    ValueError, TypeError, IndexError, KeyError, AttributeError, ZeroDivisionError, NotImplementedError,
    AssertionError, StopIteration, RuntimeError, NameError, OverflowError,
)

_SCAN_CACHE: dict = {}


def scan_function(node):
    """(local names, is_generator, global decls, nonlocal decls)"""
    r = _SCAN_CACHE.get(id(node))
    if r is not None and r[0] is node:
        return r[1]
    locs, gl, nl = set(), set(), set()
    gen = False

    def target(t):
        if isinstance(t, ast.Name):
            locs.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def walk(n):
        nonlocal gen
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            locs.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    target(c.target)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen = True
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            if not (isinstance(n, ast.AnnAssign) and n.value is None):
                target(n.target)
            elif isinstance(n.target, ast.Name):
                locs.add(n.target.id)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    target(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            locs.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                locs.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.Global):
            gl.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            locs.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            locs.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        locs.add(p.arg)
    if a.vararg:
        locs.add(a.vararg.arg)
    if a.kwarg:
        locs.add(a.kwarg.arg)
    res = (locs - gl - nl, gen, gl, nl)
    _SCAN_CACHE[id(node)] = (node, res)
    return res


class Interp:
    def __init__(self, root, stub_root, natives=None, package="decomon"):
        self.root = root
        self.stub_root = stub_root
        self.package = package
        self.modules: dict[str, ModuleV] = {}
        self.natives = natives or {}
        self.fuel = 60_000_000
        self.stack: list = []
        self.visited: set = set()
        self.sources: dict[str, str] = {}
        self.builtins = make_builtins(self)
        self.hooks = []  # call hooks: f(func, args, kwargs) -> MISSING or value
        self.depth = 0
        self.unknown = 0  # size of the batch which the analysed program does not know
        self.trace_calls = None
        self.channel = None  # receives what the next generator function yields

    # ------------------------------------------------------------ modules
    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in self.natives:
            m = self.natives[name](self)
            self.modules[name] = m
            return m
        path = self.find(name)
        if path is None:
            return None
        m = ModuleV(name, file=path)
        m.d["__name__"] = name
        m.d["__file__"] = path
        self.modules[name] = m
        with open(path, encoding="utf-8") as f:
            src = f.read()
        self.sources[path] = src
        tree = ast.parse(src, path)
        env = Env(None, m)
        env.vars = m.d
        is_pkg = path.endswith("__init__.py")
        m.d["__package__"] = name if is_pkg else name.rpartition(".")[0]
        saved, self.stack = self.stack, [("<module>", path)]
        try:
            for s in tree.body:
                self.exec(s, env)
        finally:
            self.stack = saved
        return m

    def find(self, name):
        rel = name.replace(".", "/")
        roots = [self.stub_root]
        if name == self.package or name.startswith(self.package + "."):
            roots = [self.root]
        for r in roots:
            for p in (os.path.join(r, rel + ".py"), os.path.join(r, rel, "__init__.py")):
                if os.path.isfile(p):
                    return p
        return None

    def import_module(self, name):
        parts = name.split(".")
        mod = None
        for i in range(len(parts)):
            full = ".".join(parts[: i + 1])
            sub = self.load(full)
            if sub is None:
                if name.startswith(self.package + ".") or name == self.package:
                    raise AbsRaise(ModuleNotFoundError(full))
                return Opaque(name)
            if mod is not None and isinstance(mod, ModuleV):
                mod.d.setdefault(parts[i], sub)
            mod = sub
        return mod

    def from_import(self, modname, attr):
        mod = self.import_module(modname)
        if isinstance(mod, Opaque):
            return Opaque(f"{modname}.{attr}")
        if attr in mod.d:
            return mod.d[attr]
        sub = self.load(f"{modname}.{attr}")
        if sub is not None:
            return sub
        if modname.split(".")[0] == self.package:
            raise AbsRaise(ImportError(f"cannot import name {attr} from {modname}"))
        return Opaque(f"{modname}.{attr}")

    # ------------------------------------------------------------ lookup
    def getvar(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                return v
            if e.locals is not None and name in e.locals:
                raise AbsRaise(UnboundLocalError(f"local variable '{name}' referenced before assignment"))
            e = e.parent
        d = env.module.d
        if name in d:
            return d[name]
        if name in self.builtins:
            return self.builtins[name]
        if hasattr(builtins, name):
            return Opaque(f"builtins.{name}")
        raise AbsRaise(NameError(f"name '{name}' is not defined"))

    def setvar(self, name, v, env):
        if name in env.globals_decl:
            env.module.d[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars or (e.locals and name in e.locals):
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Obj):
            v, c = o.cls.lookup(name)
            if v is not MISSING and isinstance(v, PropV):
                return v.fget(o)
            if name in o.d:
                return o.d[name]
            if v is not MISSING:
                return self.bind(v, o)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return o.d
            if name == "__doc__":
                return None
            if o.host is not None and hasattr(o.host, name):
                return getattr(o.host, name)
            ga, _ = o.cls.lookup("__getattr__")
            if ga is not MISSING:
                return ga(o, name)
            if BaseException in o.cls.mro or Exception in o.cls.mro:
                if name == "args":
                    return o.d.get("_args", ())
            if name == "__init__":
                return lambda *a, **k: None
            if name == "__setattr__":
                return lambda n, v: self.setattr(o, n, v)
            if name == "__module__":
                return o.cls.module.name
            if name in ("__str__", "__repr__"):
                return lambda: str(o)
            if name in ("__eq__", "__ne__", "__hash__"):
                return lambda *a: getattr(o, name)(*a)
            if name.startswith("__") and hasattr(object, name):
                raise Unsupported(f"{name} of an object")
            raise AbsRaise(AttributeError(f"'{o.cls.name}' object has no attribute '{name}'"))
        if isinstance(o, ModuleV):
            if name in o.d:
                return o.d[name]
            sub = self.load(f"{o.name}.{name}")
            if sub is not None:
                o.d[name] = sub
                return sub
            if o.name.split(".")[0] == self.package or (o.name == "keras.ops" and name not in ("nn", "numpy", "core", "math", "linalg")):
                raise AbsRaise(AttributeError(f"module {o.name} has no attribute {name}"))
            return Opaque(f"{o.name}.{name}")
        if isinstance(o, ClassV):
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__module__":
                return o.module.name
            if name == "__bases__":
                return tuple(o.bases)
            if name == "__dict__":
                return dict(o.d)
            if name == "__class__":
                return type
            if o.is_enum and name in o.members:
                return o.members[name]
            if o.is_enum and name == "__members__":
                return dict(o.members)
            v, c = o.lookup(name)
            if v is MISSING:
                if name == "__init__":
                    return lambda *a, **k: None
                if name == "__doc__":
                    return ast.get_docstring(o.node) if o.node is not None else None
                if name == "__subclasses__" or (name.startswith("__") and (hasattr(type, name) or hasattr(object, name))):
                    raise Unsupported(f"{name} of a class")
                if o.host is not None and hasattr(o.host, name):
                    raise Unsupported(f"{name} of a subclass of {o.host.__name__}")
                raise AbsRaise(AttributeError(f"type object '{o.name}' has no attribute '{name}'"))
            if isinstance(v, StaticV):
                return v.f
            if isinstance(v, ClassMV):
                return BoundV(v.f, o)
            if isinstance(v, Obj) and v._dun("__get__") is not MISSING:
                return v._dun("__get__")(v, None, o)
            return v
        if isinstance(o, SuperV):
            mro = o.obj.mro if isinstance(o.obj, ClassV) else o.obj.cls.mro
            i = mro.index(o.cls)
            for c in mro[i + 1 :]:
                if isinstance(c, ClassV) and name in c.d:
                    v = c.d[name]
                    if isinstance(v, PropV):
                        return v.fget(o.obj)
                    return self.bind(v, o.obj)
            if name in ("__init__", "__init_subclass__", "__setattr__"):
                if name == "__setattr__":
                    return lambda n, v: o.obj.d.__setitem__(n, v)
                if name == "__init__" and isinstance(o.obj, Obj) and o.obj.cls.host in (dict, list, set):
                    return lambda *a, **k: o.obj.host.__init__(*a, **k)
                if name == "__init__" and isinstance(o.obj, Obj) and o.obj.cls.host is None:
                    return lambda *a, **k: o.obj.d.__setitem__("_args", tuple(a)) if BaseException in o.obj.cls.mro or Exception in o.obj.cls.mro else None
                return lambda *a, **k: None
            if isinstance(o.obj, Obj) and o.obj.host is not None and hasattr(o.obj.host, name):
                return getattr(o.obj.host, name)
            if name == "__new__":
                return lambda c, *a, **k: self.new_object(c, a, k)
            if name.startswith("__") and hasattr(object, name):
                raise Unsupported(f"super().{name}")
            raise AbsRaise(AttributeError(f"'super' object has no attribute '{name}'"))
        if isinstance(o, EnumMember):
            if name in ("value", "_value_"):
                return o.value
            if name == "name":
                return o.name
            if name == "__class__":
                return o.cls
            v, _ = o.cls.lookup(name)
            if v is not MISSING:
                return self.bind(v, o)
            if o._isstr() and hasattr(o.value, name):
                return getattr(o.value, name)
            if o.cls.is_enum and name in o.cls.members:
                return o.cls.members[name]
            raise AbsRaise(AttributeError(name))
        if isinstance(o, T):
            if name == "shape" and self.unknown and not o.np_ and self.stack and self.stack[-1][0].startswith(self.package + "."):
                # traced: sizes derived from the size of the batch are unknown
                return tuple(None if s and s % self.unknown == 0 else s for s in o.shape)
            if name in ("shape", "ndim", "size", "T", "dtype", "name"):
                return getattr(o, name)
            if name == "_keras_history":
                if o.hist is None:
                    raise AbsRaise(AttributeError("_keras_history"))
                return o.hist
            if name in ("path",):
                return o.name
            if name in ("value",):
                return o
            if name == "constraint" or name == "trainable" or name == "initializer" or name == "regularizer":
                return (o.extra or {}).get(name, True if name == "trainable" else None)
            if name == "sparse":
                return False
            if hasattr(T, name) and not name.startswith("_"):
                return getattr(o, name)
            if o.extra is not None and name in o.extra:
                return o.extra[name]
            if name == "__class__":
                return self.tensor_class(o)
            if o.np_ and hasattr(numpy.ndarray, name):
                kops = self.load("numpy").d
                if name in ("any", "all", "sum", "max", "min", "mean", "prod", "argmax", "argmin", "cumsum", "squeeze", "ravel", "repeat", "take", "clip", "dot", "swapaxes", "transpose", "round", "sort", "argsort", "std", "var") and name in kops:
                    return lambda *a, **k: kops[name](o, *a, **k)
                raise Unsupported(f"numpy array attribute {name}")
            raise AbsRaise(AttributeError(f"tensor has no attribute '{name}'"))
        if isinstance(o, FuncV):
            if name in ("__name__", "__qualname__"):
                return o.d.get("__name__", o.name)
            if name == "__doc__":
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            if name == "__module__":
                return o.module.name
            if name in o.d:
                return o.d[name]
            if name == "__dict__":
                return o.d
            if name == "__defaults__":
                return tuple(o.defaults) or None
            if name == "__get__":
                return lambda obj, cls=None: BoundV(o, obj) if obj is not None else o
            if name.startswith("__") and hasattr(scan_function, name):
                raise Unsupported(f"{name} of a function")
            raise AbsRaise(AttributeError(f"function has no attribute {name}"))
        if isinstance(o, BoundV):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
            return self.getattr(o.func, name)
        if isinstance(o, PropV):
            if name == "setter":
                return lambda f: PropV(o.fget, f)
            if name == "getter":
                return lambda f: PropV(f, o.fset)
            if name == "deleter":
                return lambda f: o
            if name in ("fget", "fset"):
                return getattr(o, name)
        if isinstance(o, Opaque):
            return Opaque(f"{o.name}.{name}")
        if isinstance(o, Poly):
            raise Unsupported("attribute of abstract scalar")
        if name == "__class__":
            return self.typeof(o)
        x = getattr(o if isinstance(o, type) else type(o), "sa_extra", None)
        if x and name in x:
            if isinstance(o, type):
                return BoundV(x[name].f, o) if isinstance(x[name], ClassMV) else x[name].f if isinstance(x[name], StaticV) else x[name]
            return BoundV(x[name].f, type(o)) if isinstance(x[name], ClassMV) else self.bind(x[name], o)
        if o is None or isinstance(o, (int, float, str, bytes, list, tuple, dict, set, frozenset, slice, range, complex)):
            if not hasattr(o, name):
                raise AbsRaise(AttributeError(f"'{type(o).__name__}' object has no attribute '{name}'"))
            return getattr(o, name)
        if isinstance(o, type):
            if o is object and name == "__setattr__":
                return lambda x, n, v: x.d.__setitem__(n, v) if isinstance(x, Obj) else self.setattr(x, n, v)
            if o is object and name == "__new__":
                return lambda c, *a, **k: self.new_object(c, (), {})
            if o is object and name == "__getattribute__":
                return lambda x, n: self.getattr(x, n)
            if o is object and name == "__init__":
                return lambda *a, **k: None
            if name in ("__init__", "__new__", "__eq__", "__hash__", "__setattr__", "__delattr__") and o in HOST_DATA + (object,):
                raise Unsupported(f"{o.__name__}.{name}")
            if hasattr(o, name):
                return getattr(o, name)
            raise AbsRaise(AttributeError(f"{o} {name}"))
        if isinstance(o, BaseException):
            if hasattr(o, name):
                return getattr(o, name)
            raise AbsRaise(AttributeError(f"{o} {name}"))
        if hasattr(o, "sa_getattr"):
            return o.sa_getattr(name)
        if callable(o):
            if name in ("__name__", "__qualname__"):
                return getattr(o, "__name__", "fn")
            if hasattr(o, name) and (not name.startswith("__") or name in ("__enter__", "__exit__", "__call__", "__doc__")):
                return getattr(o, name)
            raise AbsRaise(AttributeError(f"{o} {name}"))
        if hasattr(o, name):
            return getattr(o, name)
        raise AbsRaise(AttributeError(f"{type(o).__name__} has no attribute {name}"))

    def tensor_class(self, o):
        raise Unsupported("class of tensor")

    def bind(self, v, o):
        if isinstance(v, (FuncV,)):
            return BoundV(v, o)
        if isinstance(v, StaticV):
            return v.f
        if isinstance(v, ClassMV):
            return BoundV(v.f, o.cls if isinstance(o, Obj) else o)
        if isinstance(v, PropV):
            return v.fget(o)
        if isinstance(v, Obj):
            g = v._dun("__get__")
            return v if g is MISSING else g(v, o, o.cls if isinstance(o, Obj) else None)
        if hasattr(v, "sa_method"):
            return BoundV(v, o)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            p, _ = o.cls.lookup(name)
            if isinstance(p, PropV):
                if p.fset is None:
                    raise AbsRaise(AttributeError(f"property '{name}' of '{o.cls.name}' object has no setter"))
                p.fset(o, v)
                return
            if isinstance(p, Obj) and p._dun("__set__") is not MISSING:
                p._dun("__set__")(p, o, v)
                return
            sa, _ = o.cls.lookup("__setattr__")
            if sa is not MISSING:
                sa(o, name, v)
                return
            o.d[name] = v
            return
        if isinstance(o, ClassV):
            o.d[name] = v
            return
        if isinstance(o, ModuleV):
            o.d[name] = v
            return
        if isinstance(o, FuncV):
            o.d[name] = v
            return
        if isinstance(o, T):
            if name == "name":
                o.name = v
                return
            if o.extra is None:
                o.extra = {}
            o.extra[name] = v
            return
        raise Unsupported(f"attribute assignment on {type(o).__name__}")

    def typeof(self, o):
        if isinstance(o, Obj):
            return o.cls
        if isinstance(o, EnumMember):
            return o.cls
        if isinstance(o, T):
            return self.tensor_class(o)
        if isinstance(o, ClassV):
            return type
        return type(o)

    # ------------------------------------------------------------ calls
    def instantiate(self, cls, args, kwargs):
        if cls.is_enum:
            if len(args) == 1:
                v = args[0]
                for m in cls.members.values():
                    if m is v or m.value == v:
                        return m
                miss, _ = cls.lookup("_missing_")
                if miss is not MISSING:
                    m = (miss.f if isinstance(miss, ClassMV) else miss)(cls, v)
                    if isinstance(m, EnumMember):
                        return m
                raise AbsRaise(ValueError(f"{v!r} is not a valid {cls.name}"))
            raise Unsupported("enum functional API")
        # abstract methods
        for n in self._abstract(cls):
            raise AbsRaise(TypeError(f"Can't instantiate abstract class {cls.name} with abstract method {n}"))
        new, _ = cls.lookup("__new__")
        if new is not MISSING:
            o = (new.f if isinstance(new, StaticV) else new)(cls, *args, **kwargs)
            if not (isinstance(o, Obj) and o.cls.issub(cls)):
                return o
        else:
            o = self.new_object(cls, args, kwargs)
        init, _ = cls.lookup("__init__")
        if init is not MISSING:
            init(o, *args, **kwargs)
        elif any(isinstance(h, type) and issubclass(h, BaseException) for h in cls.host_bases()):
            o.d["_args"] = tuple(args)
        return o

    def new_object(self, cls, args=(), kwargs=None):
        o = Obj(cls)
        if cls.host is not None:
            init, _ = cls.lookup("__init__")
            try:
                o.host = cls.host() if init is not MISSING and cls.host in (dict, list, set) else cls.host(*args, **(kwargs or {}))
            except PROG_EXC as e:
                raise AbsRaise(e)
        elif args and (BaseException in cls.mro or Exception in cls.mro):
            o.d["_args"] = tuple(args)
        return o

    def _abstract(self, cls):
        seen = set()
        for c in cls.mro:
            if not isinstance(c, ClassV):
                continue
            for n, v in c.d.items():
                if n in seen:
                    continue
                seen.add(n)
                f = v.fget if isinstance(v, PropV) else v
                if isinstance(f, FuncV) and f.d.get("__isabstractmethod__"):
                    if any(getattr(h, "__name__", "") == "ABC" for h in cls.host_bases()):
                        yield n

    def call(self, f, args, kwargs, node=None):
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BoundV):
            return self.call(f.func, [f.self_] + list(args), kwargs, node)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Obj):
            m, _ = f.cls.lookup("__call__")
            if m is MISSING:
                raise AbsRaise(TypeError(f"'{f.cls.name}' object is not callable"))
            return self.call(m, [f] + list(args), kwargs, node)
        if isinstance(f, Opaque):
            raise Unsupported(f"call of unmodelled external {f.name}")
        if callable(f):
            return self.native(f, args, kwargs)
        raise AbsRaise(TypeError(f"{type(f).__name__} object is not callable"))

    def traced_native(self, f, args, kwargs):
        """what fails when the batch size is unknown"""
        ops = self.load("keras.ops").d
        name = next((k for k, v in ops.items() if v is f), "")

        def shape_like(v):
            return isinstance(v, (tuple, list)) and any(x is None for x in v)

        if getattr(f, "__name__", "") == "len_" and args and isinstance(args[0], T) and not args[0].np_ and args[0].extra is None:
            raise AbsRaise(TypeError("len is not well defined for a symbolic tensor"), native=True)
        if name and (any(shape_like(v) for v in args) or any(shape_like(v) for k, v in kwargs.items() if k in ("shape", "newshape", "repeats"))):
            raise AbsRaise(TypeError(f"{name}: None values not supported"), native=True)
        if name in ("repeat", "split", "tile", "broadcast_to", "reshape") and (
            len(args) > 1 and args[1] is None or any(k in kwargs and kwargs[k] is None for k in ("repeats", "indices_or_sections", "shape", "newshape"))
        ):
            raise AbsRaise(TypeError(f"{name}: None values not supported"), native=True)
        if name in ("zeros", "ones", "eye", "identity", "arange", "full") and args and args[0] is None:
            raise AbsRaise(TypeError(f"{name}: None values not supported"), native=True)
        np_ = self.load("numpy")
        if any(f is np_.d.get(n) for n in ("prod", "sum", "max", "min", "zeros", "ones", "reshape", "arange", "repeat")):
            if any(v is None or shape_like(v) for v in args[:1]):
                raise AbsRaise(TypeError("unsupported operand: None"), native=True)
            if any(isinstance(v, T) and not v.np_ and v.extra is None for v in args):
                raise AbsRaise(NotImplementedError("Cannot convert a symbolic tensor to a numpy array"), native=True)

    def native(self, f, args, kwargs):
        if self.unknown and self.stack and self.stack[-1][0].startswith(self.package + "."):
            self.traced_native(f, args, kwargs)
        try:
            return f(*args, **kwargs)
        except (AbsRaise, Unsupported, _Return, _Break, _Continue):
            raise
        except Prog as e:
            raise AbsRaise(getattr(builtins, e.exc)(e.msg), native=True)
        except TooBig:
            raise Unsupported("abstract value too large")
        except RecursionError:
            raise Unsupported("recursion depth")
        except PROG_EXC as e:
            if str(getattr(f, "__module__", "") or "").startswith("sa.") and isinstance(e, (TypeError, AttributeError, NameError, IndexError, KeyError)):
                raise Unsupported(f"model of {getattr(f, '__name__', f)}: {e}")
            raise AbsRaise(e, native=True)

    def call_func(self, f, args, kwargs):
        for h in self.hooks:
            r = h(f, args, kwargs)
            if r is not MISSING:
                return r
        node = f.node
        locs, gen, gl, nl = scan_function(node)
        env = Env(f.env, f.module, f, locs)
        env.globals_decl = gl
        env.nonlocals = nl
        env.defcls = f.defcls
        self.bind_args(f, env, args, kwargs)
        if args:
            env.first = args[0]
        self.depth += 1
        if self.depth > 150:
            self.depth -= 1
            raise Unsupported("call depth")
        self.visited.add(f.qual)
        self.stack.append((f.qual, f.module.file, node.lineno))
        if self.trace_calls is not None:
            self.trace_calls(f, args, kwargs)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            if gen:
                env.vars["__yields__"] = [] if self.channel is None else self.channel
                self.channel = None
            try:
                for s in node.body:
                    self.exec(s, env)
            except _Return as r:
                if gen:
                    return iter(env.vars["__yields__"]) if isinstance(env.vars["__yields__"], list) else None
                return r.v
            if gen:
                return iter(env.vars["__yields__"]) if isinstance(env.vars["__yields__"], list) else None
            return None
        finally:
            self.stack.pop()
            self.depth -= 1

    def bind_args(self, f, env, args, kwargs):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        v = env.vars
        n = len(names)
        if len(args) > n and not a.vararg:
            raise AbsRaise(TypeError(f"{f.name}() takes {n} positional arguments but {len(args)} were given"))
        for nm, val in zip(names, args):
            v[nm] = val
        if a.vararg:
            v[a.vararg.arg] = tuple(args[n:])
        nd = len(f.defaults)
        for i, nm in enumerate(names):
            if nm in v:
                if nm in kwargs and i < len(args) and i >= len(a.posonlyargs):
                    raise AbsRaise(TypeError(f"{f.name}() got multiple values for argument '{nm}'"))
                continue
            if nm in kwargs:
                v[nm] = kwargs.pop(nm)
            elif i >= n - nd:
                v[nm] = f.defaults[i - (n - nd)]
            else:
                raise AbsRaise(TypeError(f"{f.name}() missing required argument: '{nm}'"))
        for p in a.kwonlyargs:
            if p.arg in kwargs:
                v[p.arg] = kwargs.pop(p.arg)
            elif p.arg in f.kwdefaults:
                v[p.arg] = f.kwdefaults[p.arg]
            else:
                raise AbsRaise(TypeError(f"{f.name}() missing keyword-only argument '{p.arg}'"))
        if a.kwarg:
            v[a.kwarg.arg] = kwargs
        elif kwargs:
            raise AbsRaise(TypeError(f"{f.name}() got an unexpected keyword argument '{next(iter(kwargs))}'"))

    # ------------------------------------------------------------ statements
    def exec(self, s, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("analysis budget exhausted")
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        try:
            m(s, env)
        except AbsRaise as e:
            if e.where is None:
                e.where = (env.module.file, s.lineno, env.func.qual if env.func else "<module>")
            raise
        except TooBig:
            raise Unsupported("abstract value too large")

    def body(self, ss, env):
        for s in ss:
            self.exec(s, env)

    def x_Expr(self, s, env):
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Return(self, s, env):
        raise _Return(self.eval(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        raise _Break()

    def x_Continue(self, s, env):
        raise _Continue()

    def x_Global(self, s, env):
        pass

    x_Nonlocal = x_Global

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        op = _IBIN[type(s.op)]
        if isinstance(t, ast.Name):
            cur = self.getvar(t.id, env)
            self.setvar(t.id, self.binop(op, cur, self.eval(s.value, env), s.op), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.binop(op, cur, self.eval(s.value, env), s.op))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.binop(op, cur, self.eval(s.value, env), s.op))
        else:
            raise Unsupported("augmented assignment target")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            try:
                vals = list(self.iterate(v))
            except TypeError as e:
                raise AbsRaise(e)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise AbsRaise(ValueError("not enough values to unpack"))
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, vals[i : len(vals) - after], env)
                for e, x in zip(t.elts[i + 1 :], vals[len(vals) - after :]):
                    self.assign(e, x, env)
                return
            if len(vals) != len(t.elts):
                raise AbsRaise(
                    ValueError(f"unpack: expected {len(t.elts)} values, got {len(vals)}")
                )
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        else:
            raise Unsupported("assignment target")

    def x_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.body(s.body, env)
        else:
            self.body(s.orelse, env)

    def x_For(self, s, env):
        for v in self.iterate(self.eval(s.iter, env)):
            self.assign(s.target, v, env)
            try:
                self.body(s.body, env)
            except _Break:
                break
            except _Continue:
                continue
        else:
            self.body(s.orelse, env)

    def x_While(self, s, env):
        n = 0
        while self.truth(self.eval(s.test, env)):
            n += 1
            if n > 100000:
                raise Unsupported("loop bound")
            try:
                self.body(s.body, env)
            except _Break:
                break
            except _Continue:
                continue
        else:
            self.body(s.orelse, env)

    def x_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise AbsRaise(AssertionError(ast.unparse(s.test)))

    def x_Raise(self, s, env):
        if s.exc is None:
            e = env.vars.get("__current_exc__")
            x = env
            while e is None and x.parent is not None:
                x = x.parent
                e = x.vars.get("__current_exc__")
            if e is None:
                raise AbsRaise(RuntimeError("No active exception to reraise"))
            raise e
        v = self.eval(s.exc, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = v()
        elif isinstance(v, ClassV):
            v = self.instantiate(v, [], {})
        raise AbsRaise(v)

    def exc_match(self, e, typ):
        if isinstance(typ, tuple):
            return any(self.exc_match(e, t) for t in typ)
        if isinstance(typ, ClassV):
            return isinstance(e.exc, Obj) and e.exc.cls.issub(typ)
        if isinstance(typ, type):
            if isinstance(e.exc, Obj):
                return any(isinstance(h, type) and issubclass(h, typ) for h in e.exc.cls.host_bases())
            return isinstance(e.exc, typ)
        return False

    def x_Try(self, s, env):
        try:
            try:
                self.body(s.body, env)
            except AbsRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_match(e, self.eval(h.type, env)):
                        if h.name:
                            env.vars[h.name] = e.exc
                        prev = env.vars.get("__current_exc__")
                        env.vars["__current_exc__"] = e
                        try:
                            self.body(h.body, env)
                        finally:
                            if prev is None:
                                env.vars.pop("__current_exc__", None)
                            else:
                                env.vars["__current_exc__"] = prev
                        break
                else:
                    raise
            else:
                self.body(s.orelse, env)
        finally:
            if s.finalbody:
                self.body(s.finalbody, env)

    def x_With(self, s, env):
        self.with_items(s.items, s, env)

    def with_items(self, items, s, env):
        if not items:
            self.body(s.body, env)
            return
        it = items[0]
        c = self.eval(it.context_expr, env)
        if isinstance(c, Opaque):
            raise Unsupported("context manager")
        enter = self.getattr(c, "__enter__")
        leave = self.getattr(c, "__exit__")
        v = self.call(enter, [], {})
        try:
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            self.with_items(items[1:], s, env)
        except AbsRaise as e:
            if not self.truth(self.call(leave, [self.typeof(e.exc), e.exc, None], {})):
                raise
        except (_Return, _Break, _Continue):
            self.call(leave, [None, None, None], {})
            raise
        else:
            self.call(leave, [None, None, None], {})

    # ------------------------------------------------------------ match
    def x_Match(self, s, env):
        v = self.eval(s.subject, env)
        for c in s.cases:
            if self.matches(c.pattern, v, env) and (c.guard is None or self.truth(self.eval(c.guard, env))):
                self.body(c.body, env)
                return

    def matches(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.contains([self.eval(p.value, env)], v))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v, env):
                return False
            if p.name:
                self.setvar(p.name, v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.matches(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, (Obj, Opaque)):
                raise Unsupported("sequence pattern on an object")
            if not isinstance(v, (list, tuple, range, collections.deque)):
                return False
            v = list(v)
            star = next((i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)), None)
            if star is None:
                return len(v) == len(p.patterns) and all(self.matches(q, x, env) for q, x in zip(p.patterns, v))
            after = len(p.patterns) - star - 1
            if len(v) < star + after:
                return False
            if not all(self.matches(q, x, env) for q, x in zip(p.patterns[:star], v)):
                return False
            if not all(self.matches(q, x, env) for q, x in zip(p.patterns[star + 1 :], v[len(v) - after :])):
                return False
            if p.patterns[star].name:
                self.setvar(p.patterns[star].name, v[star : len(v) - after], env)
            return True
        if isinstance(p, ast.MatchMapping):
            if isinstance(v, (Obj, Opaque)):
                raise Unsupported("mapping pattern on an object")
            if not isinstance(v, dict):
                return False
            ks = [self.eval(k, env) for k in p.keys]
            if not all(k in v for k in ks) or not all(self.matches(q, v[k], env) for k, q in zip(ks, p.patterns)):
                return False
            if p.rest:
                self.setvar(p.rest, {k: x for k, x in v.items() if k not in ks}, env)
            return True
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, env)
            if not self.builtins["isinstance"](v, c):
                return False
            names = []
            if p.patterns:
                if isinstance(c, type) and c in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple):
                    if len(p.patterns) != 1 or not self.matches(p.patterns[0], v, env):
                        return False
                else:
                    ma = self.getattr(c, "__match_args__")
                    names = list(zip(ma, p.patterns))
            for n, q in names + list(zip(p.kwd_attrs, p.kwd_patterns)):
                try:
                    x = self.getattr(v, n)
                except AbsRaise as e:
                    if isinstance(e.exc, AttributeError):
                        return False
                    raise
                if not self.matches(q, x, env):
                    return False
            return True
        raise Unsupported("pattern")

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                i = self.eval(t.slice, env)
                try:
                    del o[i]
                except (KeyError, IndexError, TypeError) as e:
                    raise AbsRaise(e)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Obj):
                    if t.attr not in o.d:
                        raise AbsRaise(AttributeError(t.attr))
                    del o.d[t.attr]
                else:
                    raise Unsupported("del attribute")
            else:
                raise Unsupported("del target")

    def x_Import(self, s, env):
        for al in s.names:
            if al.asname:
                self.setvar(al.asname, self.import_module(al.name), env)
            else:
                self.import_module(al.name)
                top = al.name.split(".")[0]
                m = self.modules.get(top) or self.import_module(top)
                self.setvar(top, m, env)

    def x_ImportFrom(self, s, env):
        mod = s.module or ""
        if s.level:
            pkg = env.module.d.get("__package__", "")
            parts = pkg.split(".")
            parts = parts[: len(parts) - (s.level - 1)]
            mod = ".".join(parts + ([mod] if mod else []))
        if mod in ("__future__",):
            return
        for al in s.names:
            if al.name == "*":
                m = self.import_module(mod)
                for k, v in list(m.d.items()):
                    if not k.startswith("_"):
                        self.setvar(k, v, env)
                continue
            self.setvar(al.asname or al.name, self.from_import(mod, al.name), env)

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        for d in reversed(s.decorator_list):
            dv = self.eval(d, env)
            f = self.call(dv, [f], {})
        self.setvar(s.name, f, env)

    def make_func(self, node, env, name):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {p.arg: self.eval(d, env) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        qual = f"{env.module.name}:{name}"
        penv = env
        if env.vars is env.module.d:
            penv = None
        cls = env.vars.get("__class_obj__") if env.locals is None else None
        if env.vars.get("__in_class__"):
            qual = f"{env.module.name}:{env.vars['__in_class__']}.{name}"
            penv = env.parent if env.parent is not None and env.parent.vars is not env.module.d else None
        elif env.func is not None:
            qual = f"{env.func.qual}.{name}"
        fv = FuncV(self, node, penv, env.module, name, defaults, kwd, qual)
        if env.vars.get("__in_class__"):
            env.vars.setdefault("__methods__", []).append(fv)
        return fv

    def x_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        bases = [object if isinstance(b, Opaque) and b.name.startswith("typing") else b for b in bases]
        for b in bases:
            if isinstance(b, Opaque) or getattr(b, "sa_unsupported_base", False):
                raise Unsupported(f"base class {b!r}")
        ntuple = any(getattr(b, "n", None) == "NamedTuple" for b in bases)
        bases = [dict if getattr(b, "n", None) == "TypedDict" else b for b in bases if not isinstance(b, TypingForm) or b.n == "TypedDict"]
        kws = {k.arg: self.eval(k.value, env) for k in s.keywords if k.arg}
        meta = kws.pop("metaclass", None)
        if meta is not None:
            if getattr(meta, "sa_base", None) is None:
                raise Unsupported("metaclass")
            bases.append(meta.sa_base)
        if any(b is object for b in bases) and len(bases) > 1:
            bases = [b for b in bases if b is not object]
        if any(not isinstance(b, (ClassV, type)) for b in bases):
            raise Unsupported("base class")
        cenv = Env(env, env.module)
        cenv.vars = {"__in_class__": s.name}
        cenv.func = env.func
        for st in s.body:
            self.exec(st, cenv)
        methods = cenv.vars.pop("__methods__", [])
        cenv.vars.pop("__in_class__")
        cls = ClassV(self, s.name, bases or [object], cenv.vars, env.module, s)
        for m in methods:
            m.defcls = cls
        if cls.is_enum:
            last = 0
            for k, v in list(cls.d.items()):
                if not k.startswith("_") and not isinstance(v, (FuncV, PropV, StaticV, ClassMV)):
                    if isinstance(v, tuple) and len(v) == 1:
                        v = v[0]
                    if getattr(v, "sa_auto", False):
                        v = k.lower() if any(getattr(h, "__name__", "") == "StrEnum" or h is str for h in cls.host_bases()) else last + 1
                    last = v if isinstance(v, int) else last
                    same = next((m for m in cls.members.values() if type(m.value) is type(v) and m.value == v), None)
                    cls.members[k] = same or EnumMember(cls, k, v)
                    cls.d[k] = cls.members[k]
        for k, v in list(cls.d.items()):
            if isinstance(v, Obj) and v._dun("__set_name__") is not MISSING:
                v._dun("__set_name__")(v, cls, k)
        hook = next((b.lookup("__init_subclass__")[0] for b in cls.mro[1:] if isinstance(b, ClassV) and "__init_subclass__" in b.d), None)
        if hook is not None:
            (hook.f if isinstance(hook, ClassMV) else hook)(cls, **kws)
        res = cls
        if ntuple:
            res = self.load("typing").d["NamedTuple"].build(self, s, cenv.vars)
        for d in reversed(s.decorator_list):
            dv = self.eval(d, env)
            res = self.call(dv, [res], {})
        self.setvar(s.name, res, env)

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, Poly):
            raise Unsupported("branch on abstract scalar")
        if isinstance(v, Opaque):
            raise Unsupported(f"branch on unmodelled external {v.name}")
        try:
            return bool(v)
        except Prog as e:
            raise AbsRaise(getattr(builtins, e.exc)(e.msg))

    def iterate(self, v):
        if isinstance(v, Obj):
            if v._dun("__iter__") is MISSING and v._dun("__next__") is not MISSING:
                return v._by_next()
            try:
                return iter(v)
            except TypeError as e:
                raise AbsRaise(e)
        if isinstance(v, (list, tuple, dict, set, frozenset, range, str, T)) or hasattr(v, "__next__"):
            return v
        if isinstance(v, Opaque):
            raise Unsupported(f"iteration over {v.name}")
        try:
            return iter(v)
        except TypeError as e:
            raise AbsRaise(TypeError(str(e)))

    def binop(self, op, a, b, opnode=None):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(opnode, ast.BitOr):
                return Opaque("union")
            raise Unsupported("operation on external value")
        if isinstance(b, EnumMember) and b._isstr() and not isinstance(a, (Obj, EnumMember, ClassV)):
            b = b.value
        if isinstance(a, (Obj, EnumMember, ClassV)) or isinstance(b, (Obj, ClassV)):
            nm = _DUNDER.get(type(opnode))
            if isinstance(a, Obj) and nm and op in _IBIN.values():
                f, _ = a.cls.lookup(f"__i{nm}__")
                if f is not MISSING:
                    return f(a, b)
            if isinstance(a, Obj) and nm:
                f, _ = a.cls.lookup(f"__{nm}__")
                if f is not MISSING:
                    r = f(a, b)
                    if r is not NotImplemented:
                        return r
            if isinstance(b, Obj) and nm:
                f, _ = b.cls.lookup(f"__r{nm}__")
                if f is not MISSING:
                    return f(b, a)
            if isinstance(a, Obj) and a.host is not None or isinstance(b, Obj) and b.host is not None:
                raise Unsupported("operation on a subclass of a builtin container")
            if isinstance(opnode, ast.BitOr) and (isinstance(a, ClassV) or isinstance(b, ClassV)):
                return (a, b)
            if isinstance(a, EnumMember) and a._isstr():
                a = a.value
                if isinstance(b, EnumMember) and b._isstr():
                    b = b.value
            elif isinstance(a, Obj) or isinstance(b, Obj):
                raise AbsRaise(TypeError(f"unsupported operand types {a!r} {b!r}"))
        try:
            return op(a, b)
        except (AbsRaise, Unsupported):
            raise
        except Prog as e:
            raise AbsRaise(getattr(builtins, e.exc)(e.msg), native=True)
        except TooBig:
            raise Unsupported("abstract value too large")
        except PROG_EXC as e:
            raise AbsRaise(e, native=True)

    def eval(self, e, env):
        m = _DISPATCH.get(type(e))
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(self, e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.getvar(e.id, env)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.elts(e.elts, env)

    def e_Set(self, e, env):
        return set(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, env))
            else:
                d[self.eval(k, env)] = self.eval(v, env)
        return d

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        if type(a) is T or type(b) is T:
            ten.ORIGIN[0] = (env.module.file, e.lineno, env.func.qual if env.func else "<module>")
        return self.binop(_BIN[type(e.op)], a, b, e.op)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        try:
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.UAdd):
                return +v
            return ~v
        except TypeError as x:
            raise AbsRaise(x)

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.eval(x, env)
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            if isinstance(op, (ast.In, ast.NotIn)):
                res = self.contains(right, left)
                if isinstance(op, ast.NotIn):
                    res = not res
            else:
                if isinstance(left, Opaque) or isinstance(right, Opaque):
                    if not isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                        raise Unsupported("comparison with external value")
                try:
                    res = _CMP[type(op)](left, right)
                except PROG_EXC as x:
                    raise AbsRaise(x)
            if len(e.ops) > 1 and not self.truth(res):
                return res
            left = right
        return res

    def contains(self, c, x):
        if isinstance(c, Opaque):
            raise Unsupported("membership in external value")
        if isinstance(c, ClassV) and c.is_enum:
            return any(m is x or m == x for m in c.members.values())
        try:
            if isinstance(c, (list, tuple)):
                for y in c:
                    if y is x:
                        return True
                    r = y == x
                    if isinstance(r, T):
                        r = bool(r)
                    if r:
                        return True
                return False
            return x in c
        except PROG_EXC as e:
            raise AbsRaise(e)

    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        if f is SUPER:
            if e.args:
                a = [self.eval(x, env) for x in e.args]
                return SuperV(a[0], a[1])
            x = env
            while x is not None and (x.defcls is None):
                x = x.parent
            if x is None:
                raise Unsupported("super() outside a method")
            return SuperV(x.defcls, x.first)
        args = self.elts(e.args, env)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, dict):
                    raise Unsupported("** of non dict")
                for kk, vv in d.items():
                    if kk in kwargs:
                        raise AbsRaise(TypeError(f"got multiple values for keyword argument '{kk}'"))
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        if not isinstance(f, (FuncV, ClassV)):
            ten.ORIGIN[0] = (env.module.file, e.lineno, env.func.qual if env.func else "<module>")
        if f is LOCALS:
            return dict(env.vars)
        if f is GLOBALS:
            return env.module.d
        return self.call(f, args, kwargs, e)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        i = self.eval(e.slice, env)
        return self.getitem(o, i)

    def getitem(self, o, i):
        if isinstance(o, Opaque):
            return Opaque(o.name + "[]")
        if isinstance(o, ClassV):
            if o.is_enum:
                if i in o.members:
                    return o.members[i]
                raise AbsRaise(KeyError(i))
            return o
        if isinstance(i, EnumMember) and isinstance(o, (list, tuple, str)):
            i = i.value
        if isinstance(o, type):
            return o
        if isinstance(i, T) and isinstance(o, (list, tuple)):
            i = int(i)
        if isinstance(i, slice) and isinstance(o, (list, tuple, str)):
            f = lambda v: int(v) if isinstance(v, T) else v
            i = slice(f(i.start), f(i.stop), f(i.step))
        try:
            return o[i]
        except (AbsRaise, Unsupported):
            raise
        except Prog as x:
            raise AbsRaise(getattr(builtins, x.exc)(x.msg), native=True)
        except PROG_EXC as x:
            raise AbsRaise(x)

    def setitem(self, o, i, v):
        if isinstance(i, T) and isinstance(o, list):
            i = int(i)
        try:
            o[i] = v
        except (AbsRaise, Unsupported):
            raise
        except Prog as x:
            raise AbsRaise(getattr(builtins, x.exc)(x.msg), native=True)
        except PROG_EXC as x:
            raise AbsRaise(x)

    def e_Slice(self, e, env):
        f = lambda x: self.eval(x, env) if x is not None else None
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        return self.make_func(e, env, f"<lambda:{e.lineno}>")

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.eval(v.value, env)
                spec = self.eval(v.format_spec, env) if v.format_spec else ""
                if isinstance(x, EnumMember):
                    x = str(x)
                elif v.conversion in (ord("r"), ord("a")):
                    x = self.builtins["repr"](x)
                try:
                    out.append(format(x, spec) if spec else str(x))
                except Exception:
                    out.append("?")
        return "".join(out)

    def e_FormattedValue(self, e, env):
        return str(self.eval(e.value, env))

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value else None
        x = env
        while "__yields__" not in x.vars:
            x = x.parent
        return x.vars["__yields__"].append(v)

    def e_YieldFrom(self, e, env):
        env.vars["__yields__"].extend(self.iterate(self.eval(e.value, env)))

    def comp(self, gens, env, emit):
        cenv = Env(env, env.module, env.func)
        cenv.defcls = None

        def rec(i):
            if i == len(gens):
                emit(cenv)
                return
            g = gens[i]
            it = self.iterate(self.eval(g.iter, env if i == 0 else cenv))
            for v in it:
                self.assign(g.target, v, cenv)
                if all(self.truth(self.eval(c, cenv)) for c in g.ifs):
                    rec(i + 1)

        if env.vars.get("__in_class__"):
            cenv.parent = env
        rec(0)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda c: out.append(self.eval(e.elt, c)))
        return out

    def e_GeneratorExp(self, e, env):
        return iter(self.e_ListComp(e, env))

    def e_SetComp(self, e, env):
        return set(self.e_ListComp(e, env))

    def e_DictComp(self, e, env):
        out = {}

        def emit(c):
            k = self.eval(e.key, c)
            out[k] = self.eval(e.value, c)

        self.comp(e.generators, env, emit)
        return out


_DUNDER = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.BitOr: "or", ast.BitAnd: "and",
    ast.MatMult: "matmul", ast.Mod: "mod", ast.Pow: "pow", ast.FloorDiv: "floordiv",
}
_DISPATCH = {getattr(ast, n[2:]): f for n, f in vars(Interp).items() if n.startswith("e_")}


def SUPER(*a):
    raise Unsupported("super")


def LOCALS():
    raise Unsupported("locals")


def GLOBALS():
    raise Unsupported("globals")


class TypingForm:
    """subscriptable typing construct"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"typing.{self.n}"

    def __getitem__(self, i):
        return self

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __iter__(self):
        raise Unsupported(f"iteration over {self!r}")

    def __call__(self, *a, **k):
        raise Unsupported(f"call of {self!r}")


class TensorType:
    """Stands for the tensor classes in isinstance tests."""

    def __init__(self, name, test):
        self.__name__ = name
        self.test = test

    def __or__(self, o):
        return (self, o)

    def __ror__(self, o):
        return (o, self)

    def __getitem__(self, i):
        return self


def make_builtins(I):
    def isinstance_(o, t):
        if isinstance(t, tuple):
            return any(isinstance_(o, x) for x in t)
        if isinstance(t, types.UnionType):
            return any(isinstance_(o, x) for x in t.__args__)
        if t is None:
            return o is None
        if isinstance(t, TypingForm):
            raise Unsupported(f"isinstance with {t!r}")
        if isinstance(t, ClassV):
            if isinstance(o, Obj):
                return o.cls.issub(t)
            if isinstance(o, EnumMember):
                return o.cls.issub(t)
            return False
        if isinstance(t, TensorType):
            return t.test(o)
        if isinstance(t, Opaque):
            raise Unsupported(f"isinstance with external {t.name}")
        if isinstance(t, type):
            if isinstance(o, Obj):
                return any(isinstance(h, type) and issubclass(h, t) for h in o.cls.host_bases()) or t is object
            if isinstance(o, EnumMember):
                return t in o.cls.host_bases() or t is object or (t in (int, str) and o._isstr() and isinstance(o.value, t))
            if isinstance(o, ClassV) and t is type:
                return True
            if isinstance(o, (FuncV, BoundV, ClassV)):
                return t is object or (t is type and isinstance(o, ClassV))
            return isinstance(o, t)
        if type(t).__name__ == "Dtype" and (not isinstance(o, T) or o.ndim):
            return False
        if callable(t):
            raise Unsupported("isinstance with a function")
        raise AbsRaise(TypeError("isinstance() arg 2 must be a type"))

    def issubclass_(c, t):
        if isinstance(t, tuple):
            return any(issubclass_(c, x) for x in t)
        if isinstance(c, ClassV):
            if isinstance(t, (Opaque, TypingForm, TensorType)):
                raise Unsupported("issubclass with external")
            return t in c.mro or t is object or (isinstance(t, type) and any(isinstance(h, type) and issubclass(h, t) for h in c.host_bases()))
        if isinstance(c, type) and isinstance(t, type):
            return issubclass(c, t)
        if isinstance(c, type):
            return False
        if isinstance(t, Opaque) or isinstance(c, Opaque):
            raise Unsupported("issubclass with external")
        raise AbsRaise(TypeError("issubclass() arg 1 must be a class"))

    def getattr_(o, n, *d):
        try:
            return I.getattr(o, n)
        except AbsRaise as e:
            if d and isinstance(e.exc, AttributeError):
                return d[0]
            raise

    def hasattr_(o, n):
        try:
            I.getattr(o, n)
            return True
        except AbsRaise as e:
            if isinstance(e.exc, AttributeError):
                return False
            raise

    def type_(*a):
        if len(a) == 1:
            return I.typeof(a[0])
        name, bases, d = a
        cls = ClassV(I, name, list(bases) or [object], dict(d), I.modules.get(d.get("__module__")) or ModuleV("<type>"))
        if cls.is_enum:
            raise Unsupported("enum from type()")
        return cls

    def print_(*a, **k):
        return None

    def len_(o):
        return len(o)

    def property_(fget=None, fset=None):
        return PropV(fget, fset)

    def callable_(o):
        return isinstance(o, (FuncV, BoundV, ClassV)) or (isinstance(o, Obj) and o._dun("__call__") is not MISSING) or (
            not isinstance(o, Obj) and callable(o)
        )

    def vars_(o):
        if isinstance(o, (Obj, ModuleV, FuncV)):
            return o.d
        if isinstance(o, ClassV):
            return dict(o.d)
        raise Unsupported("vars")

    def dir_(o):
        if isinstance(o, Obj):
            ns = set(o.d)
            for c in o.cls.mro:
                ns |= set(c.d) if isinstance(c, ClassV) else set()
            return sorted(ns)
        if isinstance(o, ModuleV):
            return sorted(o.d)
        raise Unsupported("dir")

    def iter_(x, *sentinel):
        if sentinel:
            def g():
                for _ in range(100000):
                    v = I.call(x, [], {})
                    if v == sentinel[0]:
                        return
                    yield v
            return g()
        return iter(I.iterate(x))

    def repr_(x):
        if isinstance(x, Obj):
            f = x._dun("__repr__")
            if f is not MISSING:
                return f(x)
        return repr(x)

    def round_(x, *a):
        if isinstance(x, (T, Poly)):
            raise Unsupported("round of an abstract value")
        return round(x, *a)

    def max_(*a, **k):
        return _mm(max, a, k)

    def min_(*a, **k):
        return _mm(min, a, k)

    def _mm(f, a, k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if any(isinstance(x, T) for x in xs):
            r = xs[0]
            for x in xs[1:]:
                r = ten.k_maximum(r, x) if f is max else ten.k_minimum(r, x)
            return r
        return f(xs, **k)

    def sum_(xs, start=0):
        r = start
        for x in xs:
            r = r + x
        return r

    def sorted_(xs, key=None, reverse=False):
        return sorted(xs, key=key, reverse=reverse)

    def int_(x=0, *a):
        if isinstance(x, T):
            return int(x)
        return int(x, *a)

    def float_(x=0):
        return float(x)

    def str_(x=""):
        if isinstance(x, Obj):
            f = x._dun("__str__")
            if f is not MISSING:
                return f(x)
        return str(x)

    def abs_(x):
        if isinstance(x, T):
            return ten.k_abs(x)
        return abs(x)

    def map_(f, *xs):
        return iter([I.call(f, list(a), {}) for a in zip(*xs)])

    def filter_(f, xs):
        return iter([x for x in xs if (I.truth(I.call(f, [x], {})) if f is not None else I.truth(x))])

    def next_(it, *d):
        try:
            if isinstance(it, Obj):
                return I.call(I.getattr(it, "__next__"), [], {})
            return next(it)
        except (StopIteration, AbsRaise) as e:
            if isinstance(e, AbsRaise) and not isinstance(e.exc, StopIteration):
                raise
            if d:
                return d[0]
            raise AbsRaise(StopIteration())

    def any_(xs):
        return any(I.truth(x) for x in xs)

    def all_(xs):
        return all(I.truth(x) for x in xs)

    def setattr_(o, n, v):
        I.setattr(o, n, v)

    def delattr_(o, n):
        del o.d[n]

    class _t:
        pass

    d = {
        "setattr": setattr_, "delattr": delattr_, "getattr": getattr_, "hasattr": hasattr_, "isinstance": isinstance_,
        "issubclass": issubclass_, "type": type_, "print": print_, "len": len_, "property": property_,
        "staticmethod": StaticV, "classmethod": ClassMV, "callable": callable_, "vars": vars_, "max": max_,
        "min": min_, "sum": sum_, "sorted": sorted_, "abs": abs_, "map": map_, "filter": filter_, "next": next_,
        "any": any_, "all": all_, "super": SUPER, "locals": LOCALS, "zip": lambda *a, **k: iter(list(zip(*[I.iterate(x) for x in a], **k))),
        "enumerate": lambda x, start=0: iter(list(enumerate(I.iterate(x), start))),
        "reversed": lambda x: iter(list(reversed(list(x)))), "range": lambda *a: range(*[int(x) if isinstance(x, T) else x for x in a]),
        "iter": iter_, "id": id, "hash": hash, "repr": repr_, "round": round_, "dir": dir_, "globals": GLOBALS, "divmod": divmod, "pow": pow,
        "list": list, "tuple": tuple, "dict": dict, "set": set, "frozenset": frozenset, "str": str, "int": int,
        "float": float, "bool": bool, "bytes": bytes, "object": object, "slice": slice, "complex": complex,
        "None": None, "True": True, "False": False, "NotImplemented": NotImplemented, "Ellipsis": Ellipsis,
        "chr": chr, "ord": ord, "format": format, "__name__": "builtins",
    }
    for n in dir(builtins):
        v = getattr(builtins, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            d[n] = v
    return d
