"""Abstract interpreter of the repository's source (no code of the repository is run).

Statements are executed over abstract values (:mod:`sa.values`). Branches whose condition
the abstraction cannot decide are explored both ways (:class:`Explorer`), giving one
abstract path per combination. Everything observable on a path (writes to memory that is
not the operator's own, hooks, random draws, exceptions, ...) is recorded as an event with
the source location and call stack.
"""

from __future__ import annotations

import ast
import os
import sys

from .poly import P, Poly, info
from .values import (
    axsize,
    AbsRaise,
    DType,
    Device,
    Ext,
    LDict,
    LList,
    NoAttr,
    TypeErr,
    none_error,
    Obj,
    Opaque,
    PathLimit,
    PyFn,
    RepIter,
    RepRange,
    SizeT,
    Sym,
    Tensor,
    Unsupported,
    Where,
    dimval,
    scalar,
)
from . import poly
from . import tensorops as T

sys.setrecursionlimit(20000)
MAX_STEPS = 1_500_000


# ------------------------------------------------------------------------------- objects
class Module:
    def __init__(self, name, path):
        self.name, self.path, self.vars = name, path, {}


class Function:
    def __init__(self, name, node, env, module, defaults, kwdefaults, cls=None):
        self.name, self.node, self.env, self.module = name, node, env, module
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.attrs = {}
        self.isgen = is_generator(node)
        self.locals = local_names(node)

    def __repr__(self):
        return f"<function {self.name}>"


class BoundMethod:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __eq__(self, o):
        return isinstance(o, BoundMethod) and o.func is self.func and o.self_ is self.self_

    def __hash__(self):
        return hash((id(self.func), id(self.self_)))

    def __repr__(self):
        return f"<bound {self.func!r}>"


PLAIN_BASES = ("object", "builtins.object", "abc.ABC", "typing.Generic")
# internals of scipy's LinearOperator (its stub need not have all of them)
LINOP_NAMES = ("_adjoint", "_init_dtype", "_matmat", "_matvec", "_rdot", "_rmatmat", "_rmatvec",
               "_transpose")


class Class:
    def __init__(self, name, bases, vars, module, meta=None):
        self.name, self.bases, self.vars, self.module, self.meta = name, bases, vars, module, meta
        self.mro = linearize(self)
        self.members = None

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, Class) and name in c.vars:
                return c, c.vars[name]
        return None, None

    def has_ext(self, name):
        return any(isinstance(c, Ext) and c.name == name for c in self.mro)

    def __repr__(self):
        return f"<class {self.name}>"


def linearize(cls):
    seqs = []
    for b in cls.bases:
        seqs.append(list(b.mro) if isinstance(b, Class) else [b])
    seqs.append(list(cls.bases))
    out = [cls]
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise Unsupported("inconsistent bases")
        out.append(c)
        seqs = [[x for x in s if x is not c and x != c] for s in seqs]
        seqs = [s for s in seqs if s]
    return out


class Instance:
    def __init__(self, cls):
        self.cls, self.attrs = cls, {}
        self.owner = "op"

    def __repr__(self):
        return f"<{self.cls.name} instance>"


class EnumMember(str):
    def __new__(cls, ecls, name, value):
        s = str.__new__(cls, value if isinstance(value, str) else name)
        s.ecls, s.mname, s.mvalue = ecls, name, value
        return s


class Property:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class CachedProperty:
    def __init__(self, fget):
        self.fget, self.name = fget, fget.name


class ClassMethod:
    def __init__(self, f):
        self.f = f


class StaticMethod:
    def __init__(self, f):
        self.f = f


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Partial:
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


class Generator_:
    """An abstract generator."""

    def __init__(self, ip, gen, name):
        self.ip, self.gen, self.name = ip, gen, name
        self.started = self.done = False

    def __iter__(self):
        return self

    def _drive(self, f):
        try:
            self.started = True
            return f()
        except StopIteration as e:
            self.done = True
            raise AbsStop(e.value)
        except BaseException:
            self.done = True
            raise

    def __next__(self):
        if self.done:
            raise StopIteration
        try:
            return self._drive(lambda: self.gen.send(None))
        except AbsStop as e:
            raise StopIteration(e.value)

    def throw(self, exc):
        if self.done:
            raise exc
        if not self.started:
            self.done = True
            raise exc
        try:
            return self._drive(lambda: self.gen.throw(exc))
        except AbsStop as e:
            raise StopIteration(e.value)


class AbsStop(Exception):
    def __init__(self, value):
        self.value = value


class Env:
    __slots__ = ("vars", "parent", "module", "globals_", "nonlocals", "locals", "func", "cls",
                 "is_class")

    def __init__(self, parent, module, locals_=None, func=None, is_class=False):
        self.vars = {}
        self.parent, self.module = parent, module
        self.globals_, self.nonlocals = set(), set()
        self.locals = locals_
        self.func = func
        self.cls = None
        self.is_class = is_class


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


_gen_cache: dict = {}


def is_generator(node):
    k = id(node)
    if k not in _gen_cache:
        _gen_cache[k] = (node, _has_yield(node))
    return _gen_cache[k][1]


def _has_yield(node):
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


_loc_cache: dict = {}


def local_names(node):
    k = id(node)
    if k in _loc_cache:
        return _loc_cache[k][1]
    names = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        names.add(x.arg)
    glob = set()
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            todo.extend(n.decorator_list)
            continue
        elif isinstance(n, ast.Lambda):
            continue
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus targets leak; loop targets do not
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    names.add(m.target.id)
            continue
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.alias):
            names.add((n.asname or n.name).split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        todo.extend(ast.iter_child_nodes(n))
    r = names - glob
    _loc_cache[k] = (node, r)
    return r


class Mangle(ast.NodeTransformer):
    """Private name mangling."""

    def __init__(self):
        self.stack = []

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.stack.append(node.name.lstrip("_"))
        node.body = [self.visit(s) for s in node.body]
        self.stack.pop()
        return node

    def m(self, n):
        if self.stack and n.startswith("__") and not n.endswith("__"):
            return f"_{self.stack[-1]}{n}"
        return n

    def visit_Name(self, node):
        node.id = self.m(node.id)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        node.attr = self.m(node.attr)
        return node

    def visit_FunctionDef(self, node):
        node.name = self.m(node.name)
        self.generic_visit(node)
        return node

    def visit_arg(self, node):
        node.arg = self.m(node.arg)
        return node

    def visit_keyword(self, node):
        self.generic_visit(node)
        if node.arg:
            node.arg = self.m(node.arg)
        return node


_src_cache: dict = {}


def parse(path):
    st = os.stat(path)
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in _src_cache:
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        _src_cache[k] = Mangle().visit(tree)
    return _src_cache[k]


class Frame:
    __slots__ = ("func", "path", "line")

    def __init__(self, func, path, line=0):
        self.func, self.path, self.line = func, path, line


class Event:
    def __init__(self, kind, loc, stack, data):
        self.kind, self.loc, self.stack = kind, loc, stack
        self.__dict__.update(data)
        self.data = data

    def __repr__(self):
        return f"{self.kind}@{self.loc}: {self.data}"


BIN = {
    ast.Add: ("add", "__add__", "__radd__", "__iadd__"),
    ast.Sub: ("sub", "__sub__", "__rsub__", "__isub__"),
    ast.Mult: ("mul", "__mul__", "__rmul__", "__imul__"),
    ast.Div: ("div", "__truediv__", "__rtruediv__", "__itruediv__"),
    ast.FloorDiv: ("floordiv", "__floordiv__", "__rfloordiv__", "__ifloordiv__"),
    ast.Mod: ("mod", "__mod__", "__rmod__", "__imod__"),
    ast.Pow: ("pow", "__pow__", "__rpow__", "__ipow__"),
    ast.MatMult: ("matmul", "__matmul__", "__rmatmul__", "__imatmul__"),
    ast.BitAnd: ("and", "__and__", "__rand__", "__iand__"),
    ast.BitOr: ("or", "__or__", "__ror__", "__ior__"),
    ast.BitXor: ("xor", "__xor__", "__rxor__", "__ixor__"),
    ast.LShift: ("lshift", "__lshift__", "__rlshift__", "__ilshift__"),
    ast.RShift: ("rshift", "__rshift__", "__rrshift__", "__irshift__"),
}

CMP = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
    ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
}


class Interp:
    """One abstract path."""

    def __init__(self, repo, prefix=(), package="curvlinops"):
        self.repo, self.package = repo, package
        self.modules = {}
        self.events = []
        self.frames = []
        self.prefix, self.decisions = list(prefix), []
        self.memo = {}
        self.steps = 0
        self.grad_enabled = True
        self.exc_stack = []
        self.rep_loops = []
        self.draws = {}
        self.counter = 0
        self.visited = set()
        self.state = {}
        self.faults_left = 0
        self.fault_log = []
        T.Cur.ip = self
        Where.now = self.here
        from . import ext

        self.ext = ext

    # ------------------------------------------------------------------------- plumbing
    def fresh(self):
        self.counter += 1
        return self.counter

    def here(self):
        for f in reversed(self.frames):
            if f.path:
                return (f.path, f.line, f.func)
        return None

    def loc(self):
        for f in reversed(self.frames):
            if f.path:
                return f"{os.path.relpath(f.path, self.repo)}:{f.line} ({f.func})"
        return "?"

    def stack(self):
        return [
            f"{os.path.relpath(f.path, self.repo)}:{f.line} {f.func}" for f in self.frames if f.path
        ]

    def event(self, kind, **kw):
        self.events.append(Event(kind, self.loc(), self.stack(), kw))

    def choose(self, key, options=2, default=0):
        """An undecided condition: explore all options (the same condition is stable)."""
        if key is not None and key in self.memo:
            return self.memo[key]
        n = len(self.decisions)
        v = self.prefix[n] if n < len(self.prefix) else default
        self.decisions.append((key, v, options))
        if key is not None:
            self.memo[key] = v
        return v

    def maybe_fault(self, what):
        """Possible failure of user code or the numerical libraries at this call."""
        if self.faults_left > 0 and what in self.state.get("fault_only", (what,)):
            if self.choose(("fault", what, len(self.decisions)), 2):
                self.faults_left -= 1
                self.fault_log.append((what, self.loc()))
                self.event("fault", what=what)
                cls = InjectedInterrupt if self.state.get("interrupt") else InjectedFault
                raise AbsRaise(cls(f"failure injected at {what}"))

    # -------------------------------------------------------------------------- modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(self.repo, *name.split("."))
        path = base + ".py" if os.path.isfile(base + ".py") else os.path.join(base, "__init__.py")
        if not os.path.isfile(path):
            raise AbsRaise(ImportError(name))
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
        m = Module(name, path)
        self.modules[name] = m
        m.vars["__name__"] = name
        m.vars["__file__"] = path
        env = Env(None, m)
        env.vars = m.vars
        self.frames.append(Frame("<module>", path))
        try:
            self.drain(self.block(parse(path).body, env))
        finally:
            self.frames.pop()
        return m

    def import_name(self, name):
        """Value of a dotted import."""
        if name.split(".")[0] == self.package:
            return self.load(name)
        return Ext(name)

    def import_from(self, modname, name):
        if modname.split(".")[0] == self.package:
            m = self.load(modname)
            if name in m.vars:
                return m.vars[name]
            try:
                return self.load(f"{modname}.{name}")
            except AbsRaise:
                raise AbsRaise(ImportError(f"cannot import {name} from {modname}"))
        return self.ext.resolve(self, f"{modname}.{name}")

    def get(self, dotted):
        """Public object by module path, e.g. ``curvlinops:GGNLinearOperator``."""
        mod, name = dotted.split(":")
        m = self.load(mod)
        if name not in m.vars:
            raise AbsRaise(ImportError(f"{mod} has no {name}"))
        return m.vars[name]

    # ------------------------------------------------------------------------ execution
    def drain(self, gen):
        """Run statements that do not yield."""
        for _ in gen:
            raise Unsupported("yield outside of a generator")

    def block(self, stmts, env):
        for s in stmts:
            self.steps += 1
            if self.steps > MAX_STEPS:
                raise PathLimit("steps")
            self.frames[-1].line = s.lineno
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                raise Unsupported(f"statement {type(s).__name__}")
            r = m(s, env)
            if r is not None:
                yield from r

    def s_Expr(self, s, env):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(s.value, env)
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, env)

    def do_yield(self, n, env):
        if isinstance(n, ast.Yield):
            v = self.ev(n.value, env) if n.value else None
            frames = self.frames.pop()
            try:
                got = yield v
            finally:
                self.frames.append(frames)
            return got
        it = self.iterate(self.ev(n.value, env))
        for v in it:
            frames = self.frames.pop()
            try:
                yield v
            finally:
                self.frames.append(frames)
        return None

    def s_Assign(self, s, env):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            def run():
                v = yield from self.do_yield(s.value, env)
                for t in s.targets:
                    self.assign(t, v, env)
            return run()
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = type(s.op)
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            self.store(t.id, self.binop(op, old, self.ev(s.value, env), inplace=True), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.binop(op, old, self.ev(s.value, env), inplace=True))
        else:
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            old = self.getitem(o, i)
            self.setitem(o, i, self.binop(op, old, self.ev(s.value, env), inplace=True))

    def s_Return(self, s, env):
        raise ReturnEx(self.ev(s.value, env) if s.value else None)

    def s_Pass(self, s, env):
        return None

    def s_Break(self, s, env):
        raise BreakEx

    def s_Continue(self, s, env):
        raise ContinueEx

    def s_Global(self, s, env):
        env.globals_ |= set(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocals |= set(s.names)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, Instance):
                    if t.attr not in o.attrs:
                        raise AbsRaise(AttributeError(t.attr))
                    del o.attrs[t.attr]
                else:
                    self.event("delattr", obj=o, name=t.attr)
            else:
                o = self.ev(t.value, env)
                i = self.ev(t.slice, env)
                self.note_container_write(o, "del")
                try:
                    del o[i]
                except (KeyError, IndexError) as e:
                    raise AbsRaise(e)

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            msg = self.ev(s.msg, env) if s.msg else ""
            raise AbsRaise(AssertionError(str(msg)), self.loc())

    def s_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            return self.block(s.body, env)
        return self.block(s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 400:
                raise PathLimit("loop")
            try:
                yield from self.block(s.body, env)
            except BreakEx:
                return
            except ContinueEx:
                pass
            self.frames[-1].line = s.lineno
        yield from self.block(s.orelse, env)

    def s_For(self, s, env):
        it = self.iterate(self.ev(s.iter, env))
        rep = getattr(it, "rep", None)
        if rep is not None:
            self.rep_loops.append({"size": rep, "lists": {}, "first": True})
        try:
            while True:
                self.frames[-1].line = s.lineno
                try:
                    v = next(it)
                except StopIteration:
                    break
                self.assign(s.target, v, env)
                try:
                    yield from self.block(s.body, env)
                except BreakEx:
                    return
                except ContinueEx:
                    pass
        finally:
            if rep is not None:
                loop = self.rep_loops.pop()
                for lst, n0 in loop["lists"].values():
                    if n0 == 0 and len(lst) == 3:
                        lst.rep = rep
        yield from self.block(s.orelse, env)

    def s_FunctionDef(self, s, env):
        f = self.make_function(s, env, s.name)
        for d in reversed(s.decorator_list):
            f = self.decorate(self.ev(d, env), f)
        self.store(s.name, f, env)

    def make_function(self, s, env, name):
        defaults = [self.ev(d, env) for d in s.args.defaults]
        kwd = {
            a.arg: self.ev(d, env)
            for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults)
            if d is not None
        }
        e = env
        cls = None
        while e is not None:
            if e.is_class:
                cls = e
                break
            if e.func is not None and e.func.cls is not None:
                cls = e.func.cls
                break
            e = e.parent
        return Function(name, s, env, env.module, defaults, kwd, cls)

    def decorate(self, d, f):
        return self.call(d, [f], {})

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        bases = [b for b in bases if not (isinstance(b, Ext) and b.name in (
            "typing.Generic", "typing.Protocol")) and not isinstance(b, Opaque)]
        kws = {k.arg: self.ev(k.value, env) for k in s.keywords}
        cenv = Env(env, env.module, is_class=True)
        self.drain(self.block(s.body, cenv))
        meta = kws.pop("metaclass", None)
        if meta is None:
            for b in bases:
                if isinstance(b, Class) and b.meta is not None:
                    meta = b.meta
                    break
        bases = [self.native_to_ext(b) for b in bases]
        vars = dict(cenv.vars)
        c = Class(s.name, bases, vars, env.module, meta)
        cenv.cls = c
        c.qualname = s.name
        if c.has_ext("enum.Enum") or c.has_ext("enum.StrEnum"):
            c.members = {}
            for k, v in list(vars.items()):
                if k.startswith("_") or isinstance(v, (Function, Property, ClassMethod,
                                                       StaticMethod)):
                    continue
                m = EnumMember(c, k, v)
                c.members[k] = m
                c.vars[k] = m
        for k, v in c.vars.items():
            if isinstance(v, CachedProperty):
                v.name = k
        v = c
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, env), v)
        self.store(s.name, v, env)

    def native_to_ext(self, b):
        if isinstance(b, type):
            return Ext(f"builtins.{b.__name__}")
        return b

    def s_Import(self, s, env):
        for a in s.names:
            if a.asname:
                self.store(a.asname, self.import_name(a.name), env)
            else:
                v = self.import_name(a.name)
                root = a.name.split(".")[0]
                self.store(root, self.import_name(root), env)

    def s_ImportFrom(self, s, env):
        mod = s.module or ""
        if s.level:
            parts = env.module.name.split(".")
            if not env.module.path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            mod = ".".join(parts + ([mod] if mod else []))
        for a in s.names:
            if a.name == "*":
                m = self.load(mod)
                for k, v in m.vars.items():
                    if not k.startswith("_"):
                        self.store(k, v, env)
                continue
            self.store(a.asname or a.name, self.import_from(mod, a.name), env)

    def s_Raise(self, s, env):
        if s.exc is None:
            if not self.exc_stack:
                raise AbsRaise(RuntimeError("No active exception to reraise"))
            raise AbsRaise(self.exc_stack[-1], self.loc())
        v = self.ev(s.exc, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = v()
        elif isinstance(v, Class):
            v = self.call(v, [], {})
        if s.cause is not None:
            self.ev(s.cause, env)
        self.event("raise", value=v)
        raise AbsRaise(v, self.loc())

    def s_Try(self, s, env):
        internal = False
        nframes, nrep, ge = len(self.frames), len(self.rep_loops), None
        try:
            try:
                yield from self.block(s.body, env)
            except AbsRaise as e:
                del self.frames[nframes:]
                del self.rep_loops[nrep:]
                for h in s.handlers:
                    self.frames[-1].line = h.lineno
                    if h.type is None or self.exc_match(e.value, self.ev(h.type, env)):
                        if h.name:
                            self.store(h.name, e.value, env)
                        self.exc_stack.append(e.value)
                        try:
                            yield from self.block(h.body, env)
                        finally:
                            self.exc_stack.pop()
                        break
                else:
                    raise
            else:
                yield from self.block(s.orelse, env)
        except (Unsupported, PathLimit):
            internal = True
            raise
        except RecursionError:
            internal = True
            raise Unsupported("recursion")
        finally:
            if not internal:
                del self.frames[nframes:]
                del self.rep_loops[nrep:]
                yield from self.block(s.finalbody, env)

    def exc_match(self, v, cls):
        if isinstance(cls, tuple):
            return any(self.exc_match(v, c) for c in cls)
        if isinstance(cls, type):
            if isinstance(v, BaseException):
                return isinstance(v, cls)
            if isinstance(v, Instance):
                return any(
                    isinstance(c, Ext) and c.name.startswith("builtins.")
                    and issubclass(getattr(__import__("builtins"), c.name[9:]), cls)
                    for c in v.cls.mro
                )
            return False
        if isinstance(cls, Class):
            return isinstance(v, Instance) and cls in v.cls.mro
        if isinstance(cls, Ext):
            n = cls.name.rsplit(".", 1)[-1]
            if n in ("LinAlgError", "_LinAlgError"):
                return type(v).__name__ in ("LinAlgError",)
            return False
        raise Unsupported(f"except {cls!r}")

    def s_With(self, s, env):
        yield from self.with_items(s.items, s.body, env)

    def with_items(self, items, body, env):
        if not items:
            yield from self.block(body, env)
            return
        it = items[0]
        cm = self.ev(it.context_expr, env)
        v = self.enter(cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        nframes, nrep = len(self.frames), len(self.rep_loops)
        try:
            yield from self.with_items(items[1:], body, env)
        except AbsRaise as e:
            del self.frames[nframes:]
            del self.rep_loops[nrep:]
            self.exc_stack.append(e.value)
            try:
                sup = self.exit(cm, e)
            finally:
                self.exc_stack.pop()
            if not sup:
                raise
        except (ReturnEx, BreakEx, ContinueEx, GeneratorExit):
            self.exit(cm, None)
            raise
        else:
            self.exit(cm, None)

    def enter(self, cm):
        if isinstance(cm, Instance):
            return self.call(self.getattr(cm, "__enter__"), [], {})
        if hasattr(cm, "sa_enter"):
            return cm.sa_enter(self)
        raise Unsupported(f"with {cm!r}")

    def exit(self, cm, exc):
        """Returns whether the exception is suppressed."""
        if isinstance(cm, Instance):
            a = [None] * 3 if exc is None else [type(exc.value), exc.value, Opaque("traceback")]
            r = self.call(self.getattr(cm, "__exit__"), a, {})
            return exc is not None and self.truth(r)
        return cm.sa_exit(self, exc)

    def s_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.match(c.pattern, v, env) and (
                c.guard is None or self.truth(self.ev(c.guard, env))
            ):
                yield from self.block(c.body, env)
                return

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("==", v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                self.store(p.name, v, env)
            return True
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.ext.isinstance_(self, v, self.ev(p.cls, env)))
        if isinstance(p, ast.MatchSequence) and isinstance(v, (list, tuple)):
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Unsupported("match star")
            return len(v) == len(p.patterns) and all(
                self.match(q, x, env) for q, x in zip(p.patterns, v)
            )
        raise Unsupported("match pattern")

    # ----------------------------------------------------------------------- assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Sym) or v is None or isinstance(v, (int, float)):
                raise AbsRaise(none_error(v)("cannot unpack"))
            vals = []
            it = self.iterate(v)
            n = len(t.elts)
            star = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for x in it:
                vals.append(x)
                if not star and len(vals) > n:
                    break
            if star:
                k = star[0]
                if len(vals) < n - 1:
                    raise AbsRaise(ValueError("not enough values to unpack"))
                m = len(vals) - (n - 1)
                vals = vals[:k] + [LList(vals[k:k + m])] + vals[k + m:]
            elif len(vals) != n:
                raise AbsRaise(ValueError(f"expected {n} values to unpack, got {len(vals)}"),
                               self.loc())
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
        else:
            raise Unsupported(f"assignment to {type(t).__name__}")

    def store(self, name, v, env):
        if name in env.globals_:
            env.module.vars[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if not e.is_class and name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    def lookup(self, name, env):
        e, first = env, True
        if name in env.globals_:
            e = None
        while e is not None:
            if (first or not e.is_class) and name in e.vars:
                return e.vars[name]
            if e.locals is not None and name in e.locals and name not in e.nonlocals:
                raise AbsRaise(UnboundLocalError(name), self.loc())
            first = False
            e = e.parent
        if name in env.module.vars:
            return env.module.vars[name]
        if name == "__class__":
            return self.current_class(env)
        if name in self.ext.BUILTINS:
            return self.ext.BUILTINS[name]
        raise AbsRaise(NameError(f"name {name!r} is not defined"), self.loc())

    def current_class(self, env):
        e = env
        while e is not None:
            if e.func is not None and e.func.cls is not None:
                return e.func.cls.cls
            e = e.parent
        raise AbsRaise(RuntimeError("super(): no class"))

    # ---------------------------------------------------------------------- expressions
    def ev(self, n, env):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise PathLimit("steps")
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Attribute(self, n, env):
        o = self.ev(n.value, env)
        return self.getattr(o, n.attr)

    def e_Subscript(self, n, env):
        return self.getitem(self.ev(n.value, env), self.ev(n.slice, env))

    def e_Slice(self, n, env):
        f = lambda x: None if x is None else self.ev(x, env)
        return slice(f(n.lower), f(n.upper), f(n.step))

    def e_Tuple(self, n, env):
        return tuple(self.elements(n.elts, env))

    def e_List(self, n, env):
        return LList(self.elements(n.elts, env))

    def e_Set(self, n, env):
        return set(self.elements(n.elts, env))

    def elements(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, env)))
            else:
                out.append(self.ev(e, env))
        return out

    def e_Dict(self, n, env):
        d = LDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.ev(v, env)
                for kk in self.iterate(self.dict_keys(src)):
                    d[kk] = self.getitem(src, kk)
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return d

    def dict_keys(self, d):
        if isinstance(d, dict):
            return list(d.keys())
        return self.call(self.getattr(d, "keys"), [], {})

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        return self.binop(type(n.op), a, self.ev(n.right, env))

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, Sym):
                return scalar(-v.poly, v.isint)
            if isinstance(v, Tensor):
                return T.neg(v)
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, Instance):
                return self.call(self.getattr(v, "__neg__"), [], {})
            if hasattr(v, "sa_neg"):
                return v.sa_neg(self)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if isinstance(v, Tensor):
                return self.ext.t_not(v)
            if isinstance(v, int):
                return ~v
        raise Unsupported(f"unary {type(n.op).__name__} {v!r}")

    def e_BoolOp(self, n, env):
        is_and = isinstance(n.op, ast.And)
        v = None
        for k, x in enumerate(n.values):
            v = self.ev(x, env)
            if k == len(n.values) - 1:
                return v
            if self.truth(v) != is_and:
                return v
        return v

    def e_Compare(self, n, env):
        a = self.ev(n.left, env)
        r = True
        for k, (op, c) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev(c, env)
            r = self.compare(CMP[type(op)], a, b)
            if k < len(n.ops) - 1 and not self.truth(r):
                return r
            a = b
        return r

    def e_IfExp(self, n, env):
        return self.ev(n.body if self.truth(self.ev(n.test, env)) else n.orelse, env)

    def e_Lambda(self, n, env):
        return self.make_function(n, env, "<lambda>")

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while e.locals is None and e.parent is not None and not e.is_class and getattr(
            e, "func", None) is None:
            e = e.parent
        self.store(n.target.id, v, e)
        return v

    def e_JoinedStr(self, n, env):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.ev(v.value, env)
                spec = self.ev(v.format_spec, env) if v.format_spec else ""
                out.append(self.format(x, spec, v.conversion))
        return "".join(out)

    def format(self, x, spec="", conv=-1):
        if isinstance(x, (str, int, float, bool)) and not isinstance(x, EnumMember):
            try:
                return format(repr(x) if conv == 114 else x, spec)
            except (ValueError, TypeError) as e:
                raise AbsRaise(e)
        return f"<{self.str_(x)}>"

    def str_(self, x):
        if isinstance(x, EnumMember):
            return f"{x.ecls.name}.{x.mname}"
        if isinstance(x, Device):
            return x.name
        return str(x)

    def e_Starred(self, n, env):
        raise Unsupported("starred")

    def e_Yield(self, n, env):
        raise Unsupported("yield inside an expression")

    e_YieldFrom = e_Yield

    # comprehensions
    def comp(self, n, env, emit):
        """Returns representative length if the result stands for more elements."""
        cenv = Env(env, env.module)
        state = {"rep": None, "n": 0}

        def go(k, e):
            if k == len(n.generators):
                emit(e)
                return
            g = n.generators[k]
            it = self.iterate(self.ev(g.iter, env if k == 0 else e))
            rep = getattr(it, "rep", None)
            if rep is not None and len(n.generators) == 1 and not g.ifs:
                state["rep"] = rep
            for v in it:
                self.assign(g.target, v, e)
                if all(self.truth(self.ev(c, e)) for c in g.ifs):
                    go(k + 1, e)

        go(0, cenv)
        return state["rep"]

    def e_ListComp(self, n, env):
        out = LList()
        out.rep = self.comp(n, env, lambda e: out.append(self.ev(n.elt, e)))
        return out

    def e_SetComp(self, n, env):
        out = set()
        self.comp(n, env, lambda e: out.add(self.ev(n.elt, e)))
        return out

    def e_DictComp(self, n, env):
        out = LDict()

        def emit(e):
            k = self.ev(n.key, e)
            out[k] = self.ev(n.value, e)

        self.comp(n, env, emit)
        return out

    def e_GeneratorExp(self, n, env):
        # lazy: outermost iterable is evaluated immediately
        first = self.iterate(self.ev(n.generators[0].iter, env))
        rep = getattr(first, "rep", None)
        cenv = Env(env, env.module)
        frame = self.frames[-1]

        def go(k, e):
            g = n.generators[k]
            it = first if k == 0 else self.iterate(self.ev(g.iter, e))
            for v in it:
                self.assign(g.target, v, e)
                if all(self.truth(self.ev(c, e)) for c in g.ifs):
                    if k == len(n.generators) - 1:
                        yield self.ev(n.elt, e)
                    else:
                        yield from go(k + 1, e)

        g = Generator_(self, go(0, cenv), "<genexpr>")
        if rep is not None and len(n.generators) == 1 and not n.generators[0].ifs:
            g.rep = rep
        return g

    # ---------------------------------------------------------------------------- calls
    def e_Call(self, n, env):
        # super() needs the environment
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            cls = self.current_class(env)
            e = env
            while e.func is None:
                e = e.parent
            a = e.func.node.args
            first = (a.posonlyargs + a.args)[0].arg
            return Super(cls, e.vars[first])
        if isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals", "eval", "exec"):
            raise Unsupported(n.func.id)
        f = self.ev(n.func, env)
        args = self.elements(n.args, env)
        kwargs = {}
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                for kk in self.dict_keys(v):
                    if kk in kwargs:
                        raise AbsRaise(TypeError("multiple values for keyword"))
                    kwargs[kk] = self.getitem(v, kk)
            else:
                if k.arg in kwargs:
                    raise AbsRaise(TypeError("multiple values for keyword"))
                kwargs[k.arg] = v
        self.frames[-1].line = n.lineno
        return self.call(f, args, kwargs)

    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        if isinstance(f, Function):
            return self.call_function(f, args, kwargs)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + args, kwargs)
        if isinstance(f, Class):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Partial):
            return self.call(f.f, list(f.args) + args, {**f.kwargs, **kwargs})
        if isinstance(f, PyFn):
            return f.fn(self, *args, **kwargs)
        if isinstance(f, Ext):
            return self.ext.call(self, f.name, args, kwargs)
        if isinstance(f, type) or f in self.ext.NATIVE_FUNCS:
            return self.ext.call_builtin(self, f, args, kwargs)
        if isinstance(f, Instance):
            c, m = f.cls.lookup("__call__")
            if m is None:
                raise AbsRaise(TypeError(f"{f!r} is not callable"))
            return self.call(m, [f] + args, kwargs)
        if isinstance(f, (ClassMethod, StaticMethod)):
            return self.call(f.f, args, kwargs)
        if hasattr(f, "sa_call"):
            return f.sa_call(self, args, kwargs)
        if isinstance(f, Opaque):
            return self.opaque_call(f, args, kwargs)
        if isinstance(f, DType) and len(args) == 1 and not kwargs:
            # the scalar types of NumPy convert what they are called with
            return self.ext.call(self, "numpy.array", args, {"dtype": f})
        raise AbsRaise(none_error(f)(f"{f!r} is not callable"), self.loc())

    def opaque_call(self, f, args, kwargs):
        raise Unsupported(f"call of unknown {f!r}")

    def call_function(self, f, args, kwargs):
        env = Env(f.env, f.module, f.locals, f)
        self.bind(f, args, kwargs, env)
        node = f.node
        if len(self.frames) > 200:
            raise Unsupported("recursion")
        frame = Frame(f.name, f.module.path, node.lineno)
        self.visited.add((f.module.name, f.name, node.lineno))
        if isinstance(node, ast.Lambda):
            self.frames.append(frame)
            try:
                return self.ev(node.body, env)
            finally:
                self.frames.pop()
        if f.isgen:
            return Generator_(self, self.run_gen(f, env, frame), f.name)
        n = len(self.frames)
        self.frames.append(frame)
        try:
            self.drain(self.block(node.body, env))
        except ReturnEx as r:
            return r.value
        finally:
            del self.frames[n:]
        return None

    def run_gen(self, f, env, frame):
        self.frames.append(frame)
        try:
            try:
                yield from self.block(f.node.body, env)
            except ReturnEx as r:
                return r.value
            except AbsRaise as e:
                if isinstance(e.value, StopIteration):
                    raise AbsRaise(RuntimeError("generator raised StopIteration"))
                raise
        finally:
            if self.frames and self.frames[-1] is frame:
                self.frames.pop()

    def bind(self, f, args, kwargs, env):
        a = f.node.args
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos]
        v = env.vars
        kwargs = dict(kwargs)
        n = len(names)
        for nm, x in zip(names, args):
            v[nm] = x
        if len(args) > n:
            if a.vararg is None:
                raise AbsRaise(
                    TypeError(f"{f.name}() takes {n} positional arguments but {len(args)} given"),
                    self.loc(),
                )
            v[a.vararg.arg] = tuple(args[n:])
        elif a.vararg is not None:
            v[a.vararg.arg] = ()
        for nm in names + [x.arg for x in a.kwonlyargs]:
            if nm in kwargs:
                if nm in v:
                    raise AbsRaise(TypeErr(f"{f.name}() got multiple values for {nm!r}"),
                                   self.loc())
                v[nm] = kwargs.pop(nm)
        for nm, d in zip(names[n - len(f.defaults):], f.defaults):
            v.setdefault(nm, d)
        for nm, d in f.kwdefaults.items():
            v.setdefault(nm, d)
        if a.kwarg is not None:
            v[a.kwarg.arg] = LDict(kwargs)
        elif kwargs:
            raise AbsRaise(
                TypeErr(f"{f.name}() got an unexpected keyword argument {list(kwargs)[0]!r}"),
                self.loc(),
            )
        missing = [nm for nm in names + [x.arg for x in a.kwonlyargs] if nm not in v]
        if missing:
            raise AbsRaise(TypeErr(f"{f.name}() missing required arguments: {missing}"),
                           self.loc())

    def instantiate(self, c, args, kwargs):
        if c.members is not None:
            for m in c.members.values():
                if args and (m is args[0] or m.mvalue == args[0]):
                    return m
            raise AbsRaise(ValueError(f"{args[0] if args else None!r} is not a valid {c.name}"),
                           self.loc())
        _, new = c.lookup("__new__")
        if new is not None:
            f = new.f if isinstance(new, StaticMethod) else new
            o = self.call(f, [c] + args, kwargs)
            if not isinstance(o, Instance) or c not in o.cls.mro:
                return o
        else:
            o = Instance(c)
        _, init = o.cls.lookup("__init__")
        if init is not None:
            self.call(init, [o] + args, kwargs)
        else:
            for b in c.mro:
                if isinstance(b, Ext) and b.name == "torch.nn.Module":
                    raise Unsupported("torch.nn.Module subclass")
            if any(isinstance(b, Ext) and b.name.startswith("builtins.") and b.name[9:] in (
                    "Exception", "ValueError", "RuntimeError", "TypeError", "BaseException",
                    "NotImplementedError") for b in c.mro):
                o.attrs["args"] = tuple(args)
            elif args or kwargs:
                raise AbsRaise(TypeError(f"{c.name}() takes no arguments"), self.loc())
        return o

    # ----------------------------------------------------------------------- attributes
    def getattr(self, o, name, default=None, has_default=False):
        try:
            return self._getattr(o, name)
        except AbsRaise as e:
            if has_default and isinstance(e.value, AttributeError):
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, Instance):
            if name == "__dict__":
                return o.attrs
            if name == "__class__":
                return o.cls
            c, v = o.cls.lookup(name)
            if isinstance(v, Property):
                if v.fget is None:
                    raise AbsRaise(AttributeError(name))
                return self.call(v.fget, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            if isinstance(v, CachedProperty):
                r = self.call(v.fget, [o], {})
                o.attrs[name] = r
                return r
            if c is not None:
                return self.bind_value(v, o, o.cls)
            g, ga = o.cls.lookup("__getattr__")
            if ga is not None:
                return self.call(ga, [o, name], {})
            if name == "__init__":
                return PyFn("object.__init__", lambda ip, *a, **k: None)
            # attributes of repository objects are fully tracked
            own = not name.startswith("__") and all(
                isinstance(b, Class) and (b.module.name.startswith("curvlinops")
                                          or name.startswith("_") and name not in LINOP_NAMES)
                for b in o.cls.mro if getattr(b, "name", "") not in PLAIN_BASES)
            E = NoAttr if own else AttributeError
            raise AbsRaise(E(f"{o.cls.name} has no attribute {name!r}"), self.loc())
        if isinstance(o, Class):
            if name == "__name__" or name == "__qualname__":
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            if name == "__members__":
                return LDict(o.members)
            c, v = o.lookup(name)
            if c is not None:
                if isinstance(v, StaticMethod):
                    return v.f
                if isinstance(v, ClassMethod):
                    return BoundMethod(v.f, o)
                return v
            if name == "__init__":
                return PyFn("object.__init__", lambda ip, *a, **k: None)
            if name == "__doc__":
                return None
            raise AbsRaise(AttributeError(f"type {o.name} has no attribute {name!r}"), self.loc())
        if isinstance(o, Super):
            inst = o.obj
            mro = inst.cls.mro if isinstance(inst, Instance) else inst.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, Class) and name in c.vars:
                    v = c.vars[name]
                    if isinstance(v, Property):
                        return self.call(v.fget, [inst], {})
                    return self.bind_value(v, inst, inst.cls if isinstance(inst, Instance) else inst)
            if name == "__init__":
                return PyFn("object.__init__", lambda ip, *a, **k: None)
            if name in ("__enter__", "__exit__"):
                raise AbsRaise(AttributeError(name))
            for c in mro[i + 1:]:
                if isinstance(c, Ext) and c.name not in ("builtins.object", "abc.ABC"):
                    raise Unsupported(f"super().{name} of {c.name}")
            raise AbsRaise(AttributeError(f"super object has no attribute {name!r}"), self.loc())
        if isinstance(o, Module):
            if name in o.vars:
                return o.vars[name]
            return self.load(f"{o.name}.{name}")
        if isinstance(o, Ext):
            return self.ext.resolve(self, f"{o.name}.{name}")
        if isinstance(o, Function):
            if name in ("__name__", "__qualname__"):
                return o.name
            if name in o.attrs:
                return o.attrs[name]
            if name == "__doc__":
                return None
            raise AbsRaise(AttributeError(name))
        if isinstance(o, BoundMethod):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.func
            return self._getattr(o.func, name)
        if isinstance(o, Property):
            if name == "setter":
                return PyFn("setter", lambda ip, f: Property(o.fget, f))
            if name == "getter":
                return PyFn("getter", lambda ip, f: Property(f, o.fset))
        if isinstance(o, EnumMember):
            if name == "value":
                return o.mvalue
            if name == "name":
                return o.mname
        if isinstance(o, Partial):
            if name == "func":
                return o.f
            if name == "keywords":
                return LDict(o.kwargs)
        return self.ext.getattr_(self, o, name)

    def bind_value(self, v, o, cls):
        if isinstance(v, (Function,)):
            return BoundMethod(v, o)
        if isinstance(v, PyFn):
            return BoundMethod(v, o)
        if isinstance(v, ClassMethod):
            return BoundMethod(v.f, cls)
        if isinstance(v, StaticMethod):
            return v.f
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Instance):
            c, p = o.cls.lookup(name)
            if isinstance(p, Property):
                if p.fset is None:
                    raise AbsRaise(AttributeError(f"property {name} has no setter"), self.loc())
                self.call(p.fset, [o, v], {})
                return
            o.attrs[name] = v
            return
        if isinstance(o, Class):
            o.vars[name] = v
            return
        if isinstance(o, (Function,)):
            o.attrs[name] = v
            return
        if isinstance(o, Module):
            o.vars[name] = v
            return
        self.ext.setattr_(self, o, name, v)

    # -------------------------------------------------------------------------- items
    def note_container_write(self, o, op):
        if getattr(o, "owner", None) not in (None, "op"):
            self.event("container-write", owner=o.owner, op=op)

    def getitem(self, o, i):
        if isinstance(o, Tensor):
            return T.getitem(o, self.index(i))
        if isinstance(o, (list, tuple, str)):
            if isinstance(i, Sym):
                if isinstance(o, LList) and o.rep is not None:
                    raise Unsupported("symbolic index into a list")
                raise Unsupported("symbolic index into a list")
            if isinstance(i, Tensor):
                c = i.uniform().const() if i.ndim == 0 and i.uniform() is not None else None
                if c is None:
                    raise Unsupported("tensor index into a list")
                i = int(c)
            if isinstance(i, slice):
                i = slice(*[self.as_int(x) for x in (i.start, i.stop, i.step)])
            try:
                r = o[i]
            except (IndexError, TypeError) as e:
                raise AbsRaise(e, self.loc())
            if isinstance(i, slice):
                if isinstance(o, SizeT):
                    return SizeT(r)
                if isinstance(o, list):
                    r = LList(r)
                    if getattr(o, "rep", None) is not None:
                        if len(r) == len(o):
                            r.rep = o.rep
                        else:
                            raise Unsupported("slice of a representative list")
            return r
        if isinstance(o, dict):
            if i in o:
                return o[i]
            if hasattr(o, "default_factory") and o.default_factory is not None:
                v = self.call(o.default_factory, [], {})
                o[i] = v
                return v
            raise AbsRaise(KeyError(i), self.loc())
        if isinstance(o, Instance):
            return self.call(self.getattr(o, "__getitem__"), [i], {})
        if isinstance(o, Class):
            if o.members is not None and i in o.members:
                return o.members[i]
            if o.members is not None:
                raise AbsRaise(KeyError(i))
            return o
        if isinstance(o, (Ext, type)):
            return o  # generic alias
        if hasattr(o, "sa_getitem"):
            return o.sa_getitem(self, i)
        if isinstance(o, RepRange):
            raise Unsupported("index of a symbolic range")
        raise Unsupported(f"indexing {o!r}")

    def as_int(self, x):
        if isinstance(x, Tensor) and x.ndim == 0:
            u = x.uniform()
            c = u.const() if u is not None else None
            if c is None:
                raise Unsupported("symbolic index")
            return int(c)
        if isinstance(x, Sym):
            raise Unsupported("symbolic index")
        return x

    def index(self, i):
        if isinstance(i, tuple):
            return tuple(self.index1(x) for x in i)
        return self.index1(i)

    def index1(self, x):
        if isinstance(x, slice):
            return slice(*[self.index1(y) if y is not None else None
                           for y in (x.start, x.stop, x.step)])
        if isinstance(x, Tensor) and x.ndim == 0 and x.dtype != T.BOOL:
            return scalar(x.uniform(), True)
        return x

    def setitem(self, o, i, v):
        if isinstance(o, Tensor):
            T.setitem(o, self.index(i), v)
            return
        if isinstance(o, list):
            self.note_container_write(o, "setitem")
            try:
                o[self.as_int(i) if not isinstance(i, slice) else i] = v
            except IndexError as e:
                raise AbsRaise(e, self.loc())
            return
        if isinstance(o, dict):
            self.note_container_write(o, "setitem")
            o[i] = v
            return
        if isinstance(o, Instance):
            self.call(self.getattr(o, "__setitem__"), [i, v], {})
            return
        if hasattr(o, "sa_setitem"):
            o.sa_setitem(self, i, v)
            return
        raise AbsRaise(none_error(o)(f"{o!r} does not support item assignment"), self.loc())

    # ------------------------------------------------------------------------ operators
    def binop(self, op, a, b, inplace=False):
        name, dun, rdun, idun = BIN[op]
        num = (int, float, Sym)
        if isinstance(a, num) and isinstance(b, num):
            return self.num_op(name, a, b)
        for x in (a, b):
            if isinstance(x, Opaque):
                raise Unsupported(f"{name} of {x!r}")
        if isinstance(a, Instance) or isinstance(b, Instance):
            if isinstance(a, Instance):
                if inplace:
                    c, m = a.cls.lookup(idun)
                    if m is not None:
                        return self.call(m, [a, b], {})
                c, m = a.cls.lookup(dun)
                if m is not None:
                    r = self.call(m, [a, b], {})
                    if r is not NotImplemented:
                        return r
            if isinstance(b, Instance):
                c, m = b.cls.lookup(rdun)
                if m is not None:
                    r = self.call(m, [b, a], {})
                    if r is not NotImplemented:
                        return r
            raise AbsRaise(TypeError(f"unsupported operand types for {name}"), self.loc())
        if hasattr(a, "sa_binop"):
            return a.sa_binop(self, name, b, False)
        if hasattr(b, "sa_binop"):
            return b.sa_binop(self, name, a, True)
        if isinstance(a, Tensor) or isinstance(b, Tensor):
            return self.ext.tensor_binop(self, name, a, b, inplace)
        if isinstance(a, EnumMember) or isinstance(b, EnumMember):
            a, b = str(a), str(b)
        try:
            if inplace and isinstance(a, (list, dict, set)):
                if name == "add" and isinstance(a, list):
                    self.note_container_write(a, "extend")
                    a.extend(self.iterate(b))
                    return a
                if name == "or" and isinstance(a, (dict, set)):
                    self.note_container_write(a, "update")
                    a |= b
                    return a
            if name == "add":
                if isinstance(a, list) and isinstance(b, list):
                    return LList(list(a) + list(b))
                if isinstance(a, tuple) and isinstance(b, tuple):
                    r = tuple(a) + tuple(b)
                    return SizeT(r) if isinstance(a, SizeT) else r
                return a + b
            if name == "mul":
                if isinstance(a, Sym) or isinstance(b, Sym):
                    raise Unsupported("symbolic repetition")
                r = a * b
                return LList(r) if isinstance(r, list) else r
            if name == "sub":
                return a - b
            if name == "or":
                r = a | b
                return LDict(r) if isinstance(r, dict) else r
            if name == "and":
                return a & b
            if name == "xor":
                return a ^ b
            if name == "mod" and isinstance(a, str):
                return a
        except TypeError as e:
            raise AbsRaise(none_error(a, b)(str(e)), self.loc())
        raise AbsRaise(none_error(a, b)(f"unsupported operand types for {name}: {a!r}, {b!r}"),
                       self.loc())

    def num_op(self, name, a, b):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            try:
                return {
                    "add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b,
                    "div": lambda: a / b, "floordiv": lambda: a // b, "mod": lambda: a % b,
                    "pow": lambda: a**b, "and": lambda: a & b, "or": lambda: a | b,
                    "xor": lambda: a ^ b, "lshift": lambda: a << b, "rshift": lambda: a >> b,
                }[name]()
            except (ZeroDivisionError, OverflowError, TypeError) as e:
                raise AbsRaise(e, self.loc())
        p, q = P(a), P(b)
        ints = all(isinstance(x, int) or (isinstance(x, Sym) and x.isint) for x in (a, b))
        if name == "add":
            return scalar(p + q, ints)
        if name == "sub":
            return scalar(p - q, ints)
        if name == "mul":
            return scalar(p * q, ints)
        if name == "div":
            if q.const() == 0:
                raise AbsRaise(ZeroDivisionError("division by zero"))
            return scalar(p.div(q), False)
        if name in ("floordiv", "mod"):
            d = T.exact_div(p, q)
            if d is not None:
                return scalar(d, ints) if name == "floordiv" else 0
            if (p - q).sign() == -1 and p.sign() in (0, 1):
                return 0 if name == "floordiv" else scalar(p, ints)
            f = Poly.func("floordiv", p, q)
            from .poly import info

            for at in f.atoms():
                info(at).lower = 0
            return scalar(f, ints) if name == "floordiv" else scalar(
                self._mod_atom(p, q), ints)
        if name == "pow":
            c = q.const()
            if c is not None:
                return scalar(p.pow(c), ints and isinstance(c, int) and c >= 0)
            return scalar(Poly.func("pow", p, q), False)
        raise Unsupported(f"symbolic {name}")

    def _mod_atom(self, p, q):
        from .poly import info

        f = Poly.func("mod", p, q)
        for at in f.atoms():
            info(at).lower = 0
        return f

    def compare(self, op, a, b):
        if op == "is":
            return self.identical(a, b)
        if op == "is not":
            return not self.identical(a, b)
        if op in ("in", "not in"):
            r = self.contains(a, b)
            return r if op == "in" else not r
        if isinstance(a, Tensor) or isinstance(b, Tensor):
            if a is None or b is None or isinstance(a, (str, Ext)) or isinstance(b, (str, Ext)):
                return op == "!="
            return self.ext.tensor_compare(self, op, a, b)
        num = (int, float, Sym)
        if isinstance(a, num) and isinstance(b, num):
            if not isinstance(a, Sym) and not isinstance(b, Sym):
                return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b,
                        ">=": a >= b}[op]
            d = P(a) - P(b)
            s = d.sign()
            if s is None:
                if op in ("==", "!="):
                    if d.const() == 0:
                        return op == "=="
                s = self.choose_sign(d)
            return {"==": s == 0, "!=": s != 0, "<": s < 0, "<=": s <= 0, ">": s > 0,
                    ">=": s >= 0}[op]
        if op in ("==", "!="):
            if isinstance(a, Instance):
                c, m = a.cls.lookup("__eq__")
                if m is not None:
                    r = self.truth(self.call(m, [a, b], {}))
                    return r if op == "==" else not r
                return (a is b) == (op == "==")
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported("comparison with an unknown value")
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and (
                any(isinstance(x, Tensor) for x in a) or any(isinstance(x, Tensor) for x in b)
            ):
                raise Unsupported("comparison of lists of tensors")
            r = bool(a == b)
            return r if op == "==" else not r
        if isinstance(a, Instance):
            m = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op]
            return self.call(self.getattr(a, m), [b], {})
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("comparison with an unknown value")
        try:
            return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
                    ">=": lambda: a >= b}[op]()
        except TypeError as e:
            raise AbsRaise(e, self.loc())

    def no_guess(self, p):
        """Conditions on values which are known must not be guessed."""
        ds = p.deps()
        if any(("values", a) in self.state for a in ds) and all(
            ("values", a) in self.state or info(a).deps or info(a).lower is not None
            or info(a).kind in ("pick", "gen") for a in ds
        ):
            raise Unsupported("condition on the values of the targets")

    def choose_sign(self, d):
        """Sign of an undecided difference."""
        self.no_guess(d)
        key = str(d)
        nkey = str(-d)
        if ("sign", nkey) in self.memo:
            return -self.memo[("sign", nkey)]
        if ("sign", key) in self.memo:
            return self.memo[("sign", key)]
        v = (-1, 0, 1)[self.choose(None, 3)]
        self.memo[("sign", key)] = v
        self.state.setdefault("signs", []).append((d, v))
        return v

    def identical(self, a, b):
        if a is b:
            return True
        if isinstance(a, (Ext, DType, Device)) and isinstance(b, (Ext, DType, Device)):
            return a == b
        if isinstance(a, (int, bool, str)) and isinstance(b, (int, bool, str)):
            return type(a) is type(b) and a == b
        return False

    def contains(self, x, c):
        if isinstance(c, Class):
            if c.meta is not None and isinstance(c.meta, Class):
                _, m = c.meta.lookup("__contains__")
                if m is not None:
                    return self.truth(self.call(m, [c, x], {}))
            if c.members is not None:
                return any(m is x or m.mvalue == x for m in c.members.values())
        if isinstance(c, Instance):
            _, m = c.cls.lookup("__contains__")
            if m is not None:
                return self.truth(self.call(m, [c, x], {}))
            return any(self.truth(self.compare("==", x, y)) for y in self.iterate(c))
        if isinstance(c, (dict, set, frozenset)):
            try:
                return x in c
            except TypeError as e:
                raise AbsRaise(e, self.loc())
        if isinstance(c, str):
            if not isinstance(x, str):
                raise AbsRaise(TypeError("in <string> requires string"), self.loc())
            return x in c
        if isinstance(c, (list, tuple)) or hasattr(c, "__iter__"):
            for y in c:
                if y is x:
                    return True
                if isinstance(y, Tensor) or isinstance(x, Tensor):
                    raise Unsupported("membership of a tensor")
                if self.truth(self.compare("==", y, x)):
                    return True
            return False
        if hasattr(c, "sa_contains"):
            return c.sa_contains(self, x)
        raise Unsupported(f"membership in {c!r}")

    def truth(self, v):
        if v is None or isinstance(v, (bool, int, float, str)):
            return bool(v)
        if isinstance(v, Sym):
            s = v.poly.sign()
            if s is None:
                s = self.choose_sign(v.poly)
            return s != 0
        if isinstance(v, Tensor):
            c = v.numel().const()
            if c != 1:
                raise AbsRaise(
                    RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
                    if v.kind == "torch" else ValueError("truth value of an array is ambiguous"),
                    self.loc(),
                )
            p = v.uniform()
            c = p.const()
            if c is None:
                c = self.ext.one_value(self, p)
            if c is not None:
                return bool(c)
            self.no_guess(p)
            r = bool(self.choose(("truth", str(p.detach()))))
            (a, *more) = p.atoms() or [None]
            if not more and a and info(a).fname in ("cmp<", "cmp<=", "cmp>", "cmp>="):
                d = info(a).args[0] - info(a).args[1]
                self.state.setdefault("signs", []).append(
                    (d, 1 if r == (info(a).fname[3] == ">") else -1))
            return r
        if isinstance(v, (list, tuple, dict, set, frozenset)):
            return len(v) > 0
        if isinstance(v, Instance):
            _, m = v.cls.lookup("__bool__")
            if m is not None:
                return self.truth(self.call(m, [v], {}))
            _, m = v.cls.lookup("__len__")
            if m is not None:
                return self.truth(self.call(m, [v], {}))
            return True
        if isinstance(v, Opaque):
            return bool(self.choose(("truth", id(v))))
        if hasattr(v, "sa_truth"):
            return v.sa_truth(self)
        if hasattr(v, "__len__"):
            return len(v) > 0
        return True

    # ------------------------------------------------------------------------- iteration
    def iterate(self, v):
        """A Python iterator over abstract elements."""
        if isinstance(v, LList):
            if v.rep is not None:
                return RepIter(list(v), v.rep)
            return iter_live(v)
        if isinstance(v, (tuple, str, range, dict, set, frozenset)):
            if isinstance(v, (set, frozenset)):
                return iter(sorted(v, key=lambda x: str(x)))
            return iter(v)
        if isinstance(v, list):
            return iter_live(v)
        if isinstance(v, (Generator_, RepIter)):
            return v
        if isinstance(v, RepRange):
            return iter(v)
        if isinstance(v, Tensor):
            return self.iter_tensor(v)
        if isinstance(v, Instance):
            _, m = v.cls.lookup("__iter__")
            if m is not None:
                return self.iterate(self.call(m, [v], {}))
            _, m = v.cls.lookup("__next__")
            if m is not None:
                return self.iter_next(v)
            _, m = v.cls.lookup("__getitem__")
            raise AbsRaise(TypeError(f"{v.cls.name} object is not iterable"), self.loc())
        if isinstance(v, Class) and v.members is not None:
            return iter(list(v.members.values()))
        if hasattr(v, "sa_iter"):
            return v.sa_iter(self)
        if isinstance(v, (int, float, Sym)) or v is None:
            raise AbsRaise(none_error(v)(f"{type(v).__name__} object is not iterable"),
                           self.loc())
        if hasattr(v, "__next__"):
            return v
        if hasattr(v, "__iter__"):
            return iter(v)
        raise Unsupported(f"iteration over {v!r}")

    def iter_next(self, v):
        while True:
            try:
                x = self.call(self.getattr(v, "__next__"), [], {})
            except AbsRaise as e:
                if isinstance(e.value, StopIteration):
                    return
                raise
            yield x

    def iter_tensor(self, t):
        if t.ndim == 0:
            raise AbsRaise(TypeError("iteration over a 0-d tensor"), self.loc())
        a = t.axes[0]
        if all(s.size.const() == 1 for s in a):
            return iter([T.getitem(t, i) for i in range(len(a))])
        if axsize(a).const() == 0:
            return iter([])
        if len(a) == 1:
            size = a[0].size
            if any(info(x).kind == "count" for x in size.atoms()):
                g = list(RepRange(size))[1]
                return RepIter([T.getitem(t, g)], size)
            return RepIter([T.getitem(t, i) for i in RepRange(size)], size)
        raise Unsupported("iteration over a partitioned axis")


def iter_live(lst):
    """Iterate like Python does (the list may grow meanwhile)."""
    i = 0
    while i < len(lst):
        yield lst[i]
        i += 1


class InjectedFault(RuntimeError):
    """A failure of user code or a numerical library, injected by the analysis."""


class InjectedInterrupt(KeyboardInterrupt):
    """An interruption by the user, injected by the analysis."""


# --------------------------------------------------------------------------- exploration
class Path:
    def __init__(self, ip, outcome, value, note=None):
        self.ip, self.outcome, self.value, self.note = ip, outcome, value, note
        self.events = ip.events

    @property
    def decided(self):
        return self.outcome in ("return", "raise")

    def kinds(self, *k):
        return [e for e in self.events if e.kind in k]

    def __repr__(self):
        return f"<path {self.outcome} {self.value!r} {self.note or ''}>"


DEBUG = bool(os.environ.get("SA_DEBUG"))


def explore(repo, fn, max_paths=64):
    """All abstract paths of ``fn(ip)`` (depth first over undecided conditions)."""
    poly.reset()
    paths, todo = [], [[]]
    while todo:
        if len(paths) >= max_paths:
            paths.append(_limit(repo))
            break
        prefix = todo.pop()
        ip = Interp(repo, prefix)
        try:
            v = fn(ip)
            p = Path(ip, "return", v)
        except AbsRaise as e:
            p = Path(ip, "raise", e.value, e.where)
        except (Unsupported, PathLimit) as e:
            p = Path(ip, "undecided", None, f"{e} at {ip.loc()}")
        except RecursionError:
            p = Path(ip, "undecided", None, "recursion")
        except Exception as e:  # noqa: BLE001 - the analysis does not understand the construct
            if DEBUG:
                raise
            p = Path(ip, "undecided", None, f"internal {type(e).__name__}: {e} at {ip.loc()}")
        paths.append(p)
        for k in range(len(prefix), len(ip.decisions)):
            _, v, n = ip.decisions[k]
            for alt in range(n):
                if alt != v:
                    todo.append([d[1] for d in ip.decisions[:k]] + [alt])
    return paths


def _limit(repo):
    ip = Interp(repo)
    return Path(ip, "undecided", None, "path limit")


def bind(ip):
    """Make ``ip`` the current analysis (judges call transfer functions)."""
    T.Cur.ip = ip
    Where.now = ip.here
