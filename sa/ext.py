"""Transfer functions of Python builtins and of the libraries the repository builds on."""

from __future__ import annotations

import ast
import builtins
import math

from . import tensorops as T
from .poly import DRULES, P, Poly, atom, info
from .tensorops import BOOL, F32, F64, INT64
from .values import (
    AbsRaise,
    TypeErr,
    Box,
    CPU,
    DType,
    Device,
    Ext,
    GPU,
    Graph,
    LDict,
    LList,
    NoAttr,
    none_error,
    Obj,
    Opaque,
    PyFn,
    RepIter,
    RepRange,
    Seg,
    SizeT,
    Storage,
    Sym,
    Tensor,
    Unsupported,
    ax,
    axsize,
    dimval,
    rt,
    scalar,
)

# ------------------------------------------------------------------------------ builtins
_CLASSES = """object int float str bool list tuple dict set frozenset bytes complex type slice
property classmethod staticmethod
BaseException Exception ValueError TypeError RuntimeError KeyError IndexError AttributeError
NotImplementedError StopIteration AssertionError ImportError OSError ZeroDivisionError
ArithmeticError LookupError OverflowError NameError GeneratorExit KeyboardInterrupt SystemExit
UserWarning Warning DeprecationWarning RuntimeWarning FutureWarning MemoryError RecursionError
FloatingPointError UnboundLocalError""".split()
_FUNCS = """len range enumerate zip map filter sum min max abs any all sorted reversed iter next
isinstance issubclass hasattr getattr setattr delattr print repr id hash callable round super
divmod pow vars format chr ord""".split()
BUILTINS = {n: getattr(builtins, n) for n in _CLASSES + _FUNCS}
BUILTINS["NotImplemented"] = NotImplemented
BUILTINS["Ellipsis"] = Ellipsis
BUILTINS["__name__"] = "module"


class _NativeFuncs:
    def __contains__(self, f):
        try:
            return f in _NF
        except TypeError:
            return False


_NF = {getattr(builtins, n) for n in _FUNCS}
NATIVE_FUNCS = _NativeFuncs()


def as_list(ip, v):
    out = LList()
    it = ip.iterate(v)
    out.extend(it)
    out.rep = getattr(it, "rep", None)
    return out


def call_builtin(ip, f, args, kwargs):
    from .interp import (BoundMethod, CachedProperty, Class, ClassMethod, EnumMember, Function,
                         Instance, Property, StaticMethod)

    n = getattr(f, "__name__", "")
    if f is property:
        return Property(*args)
    if f is classmethod:
        return ClassMethod(args[0])
    if f is staticmethod:
        return StaticMethod(args[0])
    if isinstance(f, type) and issubclass(f, BaseException):
        return f(*[a if isinstance(a, str) else str(a) for a in args])
    if n == "len":
        (v,) = args
        if isinstance(v, LList) and v.rep is not None:
            return dimval(v.rep)
        if isinstance(v, (list, tuple, dict, set, frozenset, str, range)):
            return len(v)
        if isinstance(v, RepRange):
            return dimval(v.size)
        if isinstance(v, Tensor):
            if v.ndim == 0:
                raise AbsRaise(TypeError("len() of a 0-d tensor"))
            return dimval(axsize(v.axes[0]))
        if isinstance(v, Instance):
            return ip.call(ip.getattr(v, "__len__"), [], {})
        if isinstance(v, Class) and v.members is not None:
            return len(v.members)
        if hasattr(v, "sa_len"):
            return v.sa_len(ip)
        if hasattr(v, "__len__"):
            return len(v)
        raise AbsRaise(none_error(v)(f"object of type {type(v).__name__} has no len()"), ip.loc())
    if n == "range":
        args = [_int0(a) for a in args]
        if any(isinstance(a, Sym) for a in args):
            if len(args) == 1:
                return RepRange(args[0].poly)
            if len(args) == 2 and args[0] == 0:
                return RepRange(args[1].poly)
            raise Unsupported("symbolic range")
        if any(isinstance(a, float) for a in args):
            raise AbsRaise(TypeError("'float' object cannot be interpreted as an integer"),
                           ip.loc())
        return range(*args)
    if n in ("enumerate", "zip", "map", "reversed", "filter"):
        return lazy(ip, n, args, kwargs)
    if n == "sum":
        start = args[1] if len(args) > 1 else kwargs.get("start", 0)
        it = ip.iterate(args[0])
        rep = getattr(it, "rep", None)
        if rep is not None:
            xs = list(it)
            if all(isinstance(x, (int, float, Sym)) for x in xs) and all(
                P(x).same(P(xs[0])) for x in xs
            ):
                return ip.binop(ast.Add, start, ip.binop(ast.Mult, xs[0], dimval(rep)))
            acc = start
            for x in xs:
                acc = ip.binop(ast.Add, acc, x)
            return acc
        acc = start
        for x in it:
            acc = ip.binop(ast.Add, acc, x)
        return acc
    if n in ("min", "max"):
        xs = list(ip.iterate(args[0])) if len(args) == 1 else list(args)
        key = kwargs.get("key")
        if not xs:
            if "default" in kwargs:
                return kwargs["default"]
            raise AbsRaise(ValueError(f"{n}() arg is an empty sequence"))
        best = xs[0]
        for x in xs[1:]:
            a, b = (x, best) if key is None else (ip.call(key, [x]), ip.call(key, [best]))
            if isinstance(a, (Sym, Tensor)) or isinstance(b, (Sym, Tensor)):
                pa, pb = _spoly(a), _spoly(b)
                s = (pa - pb).sign()
                if s is None:
                    # keep both in one opaque value
                    best = _minmax(n, best, x)
                    continue
                if (s > 0) == (n == "max") and s != 0:
                    best = x
                continue
            if ip.truth(ip.compare(">" if n == "max" else "<", a, b)):
                best = x
        return best
    if n == "abs":
        (v,) = args
        if isinstance(v, Sym):
            return scalar(_abs(v.poly), v.isint)
        if isinstance(v, Tensor):
            return T.ew(_abs, v, op="abs")
        return abs(v)
    if n in ("any", "all"):
        for x in ip.iterate(args[0]):
            if ip.truth(x) == (n == "any"):
                return n == "any"
        return n == "all"
    if n == "sorted":
        xs = list(ip.iterate(args[0]))
        key = kwargs.get("key")
        rev = bool(kwargs.get("reverse", False))
        ks = [ip.call(key, [x]) if key is not None else x for x in xs]
        if any(isinstance(k, (Sym, Tensor)) for k in ks):
            raise Unsupported("sorting symbolic values")
        try:
            order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=rev)
        except TypeError as e:
            raise AbsRaise(e, ip.loc())
        return LList(xs[i] for i in order)
    if n == "iter":
        it = ip.iterate(args[0])
        return it if not isinstance(args[0], (LList, list)) else it
    if n == "next":
        return next_(ip, *args)
    if n in ("isinstance", "issubclass"):
        if n == "issubclass":
            return issubclass_(ip, *args)
        return isinstance_(ip, *args)
    if n == "hasattr":
        try:
            ip.getattr(args[0], args[1])
            return True
        except AbsRaise as e:
            if isinstance(e.value, AttributeError):
                return False
            raise
    if n == "getattr":
        if len(args) == 3:
            return ip.getattr(args[0], args[1], args[2], True)
        return ip.getattr(args[0], args[1])
    if n == "setattr":
        ip.setattr(*args)
        return None
    if n == "print":
        return None
    if n in ("repr", "str", "format"):
        if not args:
            return ""
        v = args[0]
        if isinstance(v, EnumMember):
            return ip.str_(v)
        if isinstance(v, str) and n == "str":
            return str(v)
        if isinstance(v, Instance):
            _, m = v.cls.lookup("__str__" if n == "str" else "__repr__")
            if m is None:
                _, m = v.cls.lookup("__repr__")
            if m is not None:
                return ip.call(m, [v])
        if isinstance(v, BaseException):
            return str(v)
        return ip.str_(v) if n != "repr" else repr(v)
    if n == "id":
        return id(args[0])
    if n == "hash":
        return hash(args[0])
    if n == "callable":
        v = args[0]
        return (isinstance(v, (Function, BoundMethod, Class, PyFn, Ext, type))
                or hasattr(v, "sa_call")
                or (isinstance(v, Instance) and v.cls.lookup("__call__")[1] is not None)
                or v in NATIVE_FUNCS)
    if n == "round":
        if isinstance(args[0], Sym):
            return scalar(Poly.func("round", args[0].poly), True)
        return round(*args)
    if n == "divmod":
        return (ip.binop(ast.FloorDiv, *args), ip.binop(ast.Mod, *args))
    if n == "pow":
        return ip.binop(ast.Pow, *args[:2])
    if n == "int":
        if not args:
            return 0
        v = _int0(args[0])
        if isinstance(v, Sym):
            if v.isint or all(float(c) == int(c) for c in v.poly.terms.values()) and all(
                e > 0 for m in v.poly.terms for _, e in m
            ):
                return Sym(v.poly, True)
            f = Poly.func("int", v.poly)
            return scalar(f, True)
        if isinstance(v, Tensor):
            return scalar(v.uniform(), True) if v.uniform() is not None else _bad("int of tensor")
        try:
            return int(v)
        except (ValueError, TypeError) as e:
            raise AbsRaise(e, ip.loc())
    if n == "float":
        if not args:
            return 0.0
        v = args[0]
        if isinstance(v, Sym):
            return scalar(v.poly)
        if isinstance(v, Tensor):
            return scalar(v.uniform()) if v.uniform() is not None else _bad("float of tensor")
        try:
            return float(v)
        except (ValueError, TypeError) as e:
            raise AbsRaise(e, ip.loc())
    if n == "bool":
        return ip.truth(args[0]) if args else False
    if n == "list":
        return as_list(ip, args[0]) if args else LList()
    if n == "tuple":
        if args and isinstance(args[0], SizeT):
            return tuple(args[0])
        return tuple(ip.iterate(args[0])) if args else ()
    if n in ("set", "frozenset"):
        try:
            return set(ip.iterate(args[0])) if args else set()
        except TypeError as e:
            raise AbsRaise(e, ip.loc())
    if n == "dict":
        d = LDict()
        if args:
            s = args[0]
            if isinstance(s, dict) or hasattr(s, "sa_keys"):
                for k in ip.iterate(ip.dict_keys(s)):
                    d[k] = ip.getitem(s, k)
            else:
                for kv in ip.iterate(s):
                    k, v = list(ip.iterate(kv))
                    d[k] = v
        d.update(kwargs)
        return d
    if n == "type" and len(args) == 1:
        return type_(args[0])
    if n == "object":
        return Opaque("object()")
    if n == "slice":
        return slice(*args)
    if n == "super":
        from .interp import Super

        return Super(*args)
    if n == "vars":
        if isinstance(args[0], Instance):
            return args[0].attrs
    raise Unsupported(f"builtin {n}")


def _bad(msg):
    raise Unsupported(msg)


def _int0(a):
    if isinstance(a, Tensor) and a.ndim == 0 and a.uniform() is not None:
        return scalar(a.uniform(), True)
    return a


def _spoly(a):
    if isinstance(a, Tensor):
        if a.ndim or a.uniform() is None:
            raise Unsupported("min/max of tensors")
        return a.uniform()
    return P(a)


def _minmax(n, a, b):
    f = Poly.func(n, *sorted([_spoly(a), _spoly(b)], key=str))
    for x in (a, b):
        if isinstance(x, Tensor):
            return x.like(x.axes, f)
    return scalar(f)


def _abs(p):
    c = p.const()
    if c is not None:
        return Poly.num(abs(c))
    if p.sign() == 1:
        return p
    if p.sign() == -1:
        return -p
    if len(p.terms) == 1:
        ((m, c),) = p.terms.items()
        if all(info(a).kind == "abs" for a, _ in m):
            return Poly({m: abs(c)})
        if c != 1:
            return Poly.num(abs(c)) * Poly.func("abs", Poly({m: 1}), kind="abs")
    return Poly.func("abs", p, kind="abs")


def next_(ip, it, *default):
    from .interp import Instance

    if isinstance(it, Instance):
        try:
            return ip.call(ip.getattr(it, "__next__"), [], {})
        except AbsRaise as e:
            if default and isinstance(e.value, StopIteration):
                return default[0]
            raise
    if isinstance(it, (list, tuple, dict, Tensor)):
        raise AbsRaise(TypeError(f"{type(it).__name__} object is not an iterator"), ip.loc())
    try:
        return next(it)
    except StopIteration:
        if default:
            return default[0]
        raise AbsRaise(StopIteration(), ip.loc())
    except TypeError as e:
        raise AbsRaise(e, ip.loc())


class LazyIter:
    def __init__(self, gen, rep):
        self.gen, self.rep = gen, rep

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.gen)


def lazy(ip, n, args, kwargs):
    if n == "enumerate":
        it = ip.iterate(args[0])
        start = args[1] if len(args) > 1 else kwargs.get("start", 0)
        rep = getattr(it, "rep", None)
        if rep is not None:
            idx = iter(RepRange(rep))

            def g():
                for x in it:
                    yield (next(idx), x)

            return LazyIter(g(), rep)

        def g2():
            for k, x in enumerate(it):
                yield (k + start, x)

        return LazyIter(g2(), None)
    if n == "zip":
        its = [ip.iterate(a) for a in args]
        reps = [getattr(i, "rep", None) for i in its]
        rep = next((r for r in reps if r is not None), None)
        if rep is not None and any(r is not None and not P(r).same(P(rep)) for r in reps):
            raise Unsupported("zip of sequences of different symbolic length")
        strict = kwargs.get("strict", False)

        def g():
            while True:
                row = []
                for k, i in enumerate(its):
                    try:
                        row.append(next(i))
                    except StopIteration:
                        if strict:
                            if k > 0:
                                raise AbsRaise(ValueError("zip() arguments have different length"))
                            for j in its[1:]:
                                try:
                                    next(j)
                                except StopIteration:
                                    continue
                                raise AbsRaise(
                                    ValueError("zip() arguments have different length"))
                        elif k > 0 or any(True for _ in ()):
                            ip.event("zip-short")
                        return
                yield tuple(row)

        return LazyIter(g(), rep)
    if n == "map":
        its = [ip.iterate(a) for a in args[1:]]
        rep = next((getattr(i, "rep", None) for i in its if getattr(i, "rep", None) is not None),
                   None)

        def g():
            for row in zip(*its):
                yield ip.call(args[0], list(row))

        return LazyIter(g(), rep)
    if n == "filter":
        it = ip.iterate(args[1])

        def g():
            for x in it:
                if ip.truth(x if args[0] is None else ip.call(args[0], [x])):
                    yield x

        return LazyIter(g(), None)
    xs = as_list(ip, args[0])
    if xs.rep is not None:
        return RepIter(list(xs)[::-1], xs.rep)
    return iter(list(xs)[::-1])


# ------------------------------------------------------------------------------- types
_ABC = {"MutableMapping": dict, "Mapping": dict, "Dict": dict, "List": list,
        "MutableSequence": list, "Tuple": tuple}


def isinstance_(ip, v, cls):
    from .interp import (BoundMethod, Class, EnumMember, Function, Generator_, Instance, Partial)

    if isinstance(cls, (tuple, list)):
        return any(isinstance_(ip, v, c) for c in cls)
    if isinstance(cls, Class):
        if isinstance(v, Instance):
            return cls in v.cls.mro
        if isinstance(v, EnumMember):
            return cls in v.ecls.mro
        if isinstance(v, Obj):
            return v.sa_isinstance(f"{cls.module.name}.{cls.name}")
        return False
    if isinstance(cls, type):
        if cls is object:
            return True
        if isinstance(v, Sym):
            return cls is int and v.isint or cls is float and not v.isint
        if isinstance(v, Instance):
            return any(isinstance(c, Ext) and c.name == f"builtins.{cls.__name__}"
                       for c in v.cls.mro)
        if isinstance(v, (Tensor, Obj)):
            return isinstance(v, Obj) and v.sa_isinstance(f"builtins.{cls.__name__}")
        if isinstance(v, (LList, LDict, tuple, str, int, float, set, range, BaseException)):
            return isinstance(v, cls)
        if cls is type:
            return isinstance(v, (Class, type))
        return isinstance(v, cls) if v is None else False
    if isinstance(cls, Ext):
        n = cls.name
        s = n.rsplit(".", 1)[-1]
        if n.startswith(("typing.", "collections.")) or n.startswith("numbers."):
            if s in _ABC:
                return isinstance(v, _ABC[s]) or (isinstance(v, Obj) and v.sa_isinstance(
                    f"collections.abc.{s}"))
            if s == "Callable":
                return call_builtin(ip, callable, [v], {})
            if s in ("Iterable", "Iterator", "Sequence", "Collection", "Sized", "Generator"):
                if isinstance(v, (list, tuple, str, range)):
                    return s in ("Iterable", "Sequence", "Collection", "Sized")
                if isinstance(v, (dict, set)):
                    return s in ("Iterable", "Collection", "Sized")
                if isinstance(v, (Generator_,)) or hasattr(v, "__next__"):
                    return s in ("Iterable", "Iterator", "Generator")
                if isinstance(v, Instance):
                    return v.cls.lookup("__iter__")[1] is not None
                return hasattr(v, "sa_iter") and s == "Iterable"
            if s in ("Number", "Real", "Integral", "Complex"):
                if isinstance(v, (int, float, Sym)):
                    return s != "Integral" or isinstance(v, int) or (
                        isinstance(v, Sym) and v.isint)
                return False
        if isinstance(v, Tensor):
            if n in ("torch.Tensor", "torch._tensor.Tensor"):
                return v.kind == "torch"
            if n in ("torch.nn.Parameter", "torch.nn.parameter.Parameter"):
                return v.is_param
            if n == "numpy.ndarray":
                return v.kind == "np"
            if s in ("floating", "generic", "number", "float64"):
                return v.kind == "np" and v.ndim == 0
            return False
        if n in ("torch.Size",):
            return isinstance(v, SizeT)
        if n == "torch.device":
            return isinstance(v, Device)
        if n in ("torch.dtype", "numpy.dtype"):
            return isinstance(v, DType)
        if n == "functools.partial":
            return isinstance(v, Partial)
        if isinstance(v, Obj):
            return v.sa_isinstance(n)
        if isinstance(v, Instance):
            return any(c == cls for c in v.cls.mro)
        if n in ("numpy.integer", "numpy.int64", "numpy.int32", "numpy.generic", "numpy.number"):
            return False
        return False
    if cls is None:
        return v is None
    raise Unsupported(f"isinstance of {cls!r}")


def issubclass_(ip, a, b):
    from .interp import Class

    if isinstance(b, tuple):
        return any(issubclass_(ip, a, c) for c in b)
    if isinstance(a, Class):
        b2 = Ext(f"builtins.{b.__name__}") if isinstance(b, type) else b
        return any(c is b2 or c == b2 for c in a.mro) or b is object
    if isinstance(a, type) and isinstance(b, type):
        return issubclass(a, b)
    if isinstance(a, Ext) and isinstance(b, Ext):
        return a == b
    return False


def type_(v):
    from .interp import EnumMember, Instance

    if isinstance(v, Instance):
        return v.cls
    if isinstance(v, EnumMember):
        return v.ecls
    if isinstance(v, Obj):
        return Ext(v.cls_name)
    if isinstance(v, Tensor):
        return Ext("numpy.ndarray" if v.kind == "np" else "torch.Tensor")
    if isinstance(v, Sym):
        return int if v.isint else float
    if isinstance(v, LList):
        return list
    if isinstance(v, LDict):
        return dict
    return type(v)


# --------------------------------------------------------------------------- name lookup
_DT = {
    "float32": "float32", "float": "float32", "float64": "float64", "double": "float64",
    "float16": "float16", "half": "float16", "bfloat16": "bfloat16", "int64": "int64",
    "long": "int64", "int32": "int32", "int": "int32", "uint8": "uint8", "bool": "bool",
    "complex64": "complex64", "complex128": "complex128",
}
_NPDT = {k: k for k in ("float32", "float64", "float16", "int64", "int32", "uint8", "complex64",
                        "complex128")} | {"double": "float64", "single": "float32",
                                          "bool_": "bool", "float_": "float64", "int_": "int64"}
F: dict = {}  # dotted name -> transfer function
CONST = {
    "math.pi": math.pi, "numpy.pi": math.pi, "math.e": math.e, "numpy.e": math.e,
    "math.inf": math.inf, "numpy.inf": math.inf, "torch.inf": math.inf,
    "numpy.nan": math.nan, "torch.nan": math.nan, "math.nan": math.nan,
    "typing.TYPE_CHECKING": False, "numpy.newaxis": None, "torch.pi": math.pi,
}
ALIASES = {
    "torch._C.Generator": "torch.Generator",
    "torch.nn.parameter.Parameter": "torch.nn.Parameter",
    "torch.nn.modules.loss.MSELoss": "torch.nn.MSELoss",
    "torch.nn.modules.loss.CrossEntropyLoss": "torch.nn.CrossEntropyLoss",
    "torch.nn.modules.loss.BCEWithLogitsLoss": "torch.nn.BCEWithLogitsLoss",
    "torch.nn.modules.linear.Linear": "torch.nn.Linear",
    "torch.nn.modules.conv.Conv2d": "torch.nn.Conv2d",
    "torch.nn.modules.module.Module": "torch.nn.Module",
    "torch.nn.modules.Module": "torch.nn.Module",
    "torch.inverse": "torch.linalg.inv", "torch.det": "torch.linalg.det",
    "torch.cholesky": "torch.linalg.cholesky",
    "torch.concat": "torch.cat", "torch.concatenate": "torch.cat",
    "torch.autograd.functional.grad": "torch.autograd.grad",
    "scipy.sparse.linalg._interface.LinearOperator": "scipy.sparse.linalg.LinearOperator",
    "scipy.sparse.linalg.interface.LinearOperator": "scipy.sparse.linalg.LinearOperator",
    "scipy.sparse.linalg.eigen.eigsh": "scipy.sparse.linalg.eigsh",
    "scipy.linalg.cholesky": "numpy.linalg.cholesky",
    "numpy.concatenate": "numpy.concatenate",
    "torch.Tensor.new_ones": "torch.Tensor.new_ones",
    "backpack.hessianfree.lop.L_op": "backpack.hessianfree.lop.transposed_jacobian_vector_product",
    "backpack.hessianfree.rop.R_op": "backpack.hessianfree.rop.jacobian_vector_product",
    "torch.true_divide": "torch.div", "torch.divide": "torch.div", "torch.multiply": "torch.mul",
    "torch.subtract": "torch.sub",
    "tqdm.auto.tqdm": "tqdm.tqdm", "tqdm.std.tqdm": "tqdm.tqdm",
    "numpy.divide": "numpy.true_divide",
    "torch.nn.functional.softmax": "torch.softmax", "torch.nn.functional.sigmoid": "torch.sigmoid",
    "torch.special.expit": "torch.sigmoid",
    "collections.abc.MutableMapping": "typing.MutableMapping",
    "typing.MutableMapping": "typing.MutableMapping",
}


def resolve(ip, name):
    name = ALIASES.get(name, name)
    if name in CONST:
        return CONST[name]
    if name == "scipy.sparse.linalg.LinearOperator":
        return linop_class(ip)
    if name == "functools.cached_property":
        from .interp import CachedProperty

        return PyFn("cached_property", lambda ip_, f: CachedProperty(f))
    root, _, last = name.partition(".")
    if root == "torch" and last in _DT:
        return DType(_DT[last])
    if root == "numpy" and last in _NPDT:
        return DType(_NPDT[last])
    if root == "builtins":
        return getattr(builtins, last)
    if root == "warnings" and False:
        return None
    return Ext(name)


STUB = '''
class LinearOperator:
    ndim = 2
    def __new__(cls, *args, **kwargs):
        if cls is LinearOperator:
            return object_new(_CustomLinearOperator)
        return object_new(cls)
    def __init__(self, dtype, shape):
        if dtype is not None:
            dtype = as_dtype(dtype)
        shape = tuple(shape)
        if len(shape) != 2:
            raise ValueError("invalid shape (must be 2-d)")
        self.dtype = dtype
        self.shape = shape
    def _init_dtype(self):
        if self.dtype is None:
            self.dtype = guess_dtype(self)
    def _matmat(self, X):
        return hstack_columns(self, X)
    def _matvec(self, x):
        return self.matmat(as_column(x))
    def matvec(self, x):
        check_vec(x, self.shape[1])
        return fix_vec(self._matvec(x), self.shape[0], x)
    def rmatvec(self, x):
        check_vec(x, self.shape[0])
        return fix_vec(self._rmatvec(x), self.shape[1], x)
    def _rmatvec(self, x):
        return self.H.matvec(x)
    def matmat(self, X):
        check_mat(X, self.shape[1])
        return self._matmat(X)
    def rmatmat(self, X):
        check_mat(X, self.shape[0])
        return self._rmatmat(X)
    def _rmatmat(self, X):
        return self.H.matmat(X)
    def __call__(self, x):
        return self * x
    def __mul__(self, x):
        return self.dot(x)
    def dot(self, x):
        if is_linop(x):
            return unsupported("product of operators")
        if not_array(x):
            return scaled(self, x)
        if x.ndim == 1 or x.ndim == 2 and is_one(x.shape[1]):
            return self.matvec(x)
        elif x.ndim == 2:
            return self.matmat(x)
        raise ValueError("expected 1-d or 2-d array or matrix")
    def __matmul__(self, other):
        if is_scalar(other):
            raise ValueError("Scalar operands are not allowed, use '*' instead")
        return self.__mul__(other)
    def adjoint(self):
        return self._adjoint()
    @property
    def H(self):
        return self.adjoint()
    def transpose(self):
        return unsupported("transpose")
    @property
    def T(self):
        return self.transpose()
    def _adjoint(self):
        return _AdjointLinearOperator(self)

class _CustomLinearOperator(LinearOperator):
    def __init__(self, shape, matvec, rmatvec=None, matmat=None, dtype=None, rmatmat=None):
        super().__init__(dtype, shape)
        self.args = ()
        self.__matvec_impl = matvec
        self.__rmatvec_impl = rmatvec
        self.__rmatmat_impl = rmatmat
        self.__matmat_impl = matmat
        self._init_dtype()
    def _matmat(self, X):
        if self.__matmat_impl is not None:
            return self.__matmat_impl(X)
        return hstack_columns(self, X)
    def _matvec(self, x):
        return self.__matvec_impl(x)
    def _rmatvec(self, x):
        func = self.__rmatvec_impl
        if func is None:
            raise NotImplementedError("rmatvec is not defined")
        return self.__rmatvec_impl(x)
    def _rmatmat(self, X):
        if self.__rmatmat_impl is not None:
            return self.__rmatmat_impl(X)
        return unsupported("default rmatmat")
    def _adjoint(self):
        return _CustomLinearOperator(shape=(self.shape[1], self.shape[0]),
            matvec=self.__rmatvec_impl, rmatvec=self.__matvec_impl,
            matmat=self.__rmatmat_impl, rmatmat=self.__matmat_impl, dtype=self.dtype)

class _AdjointLinearOperator(LinearOperator):
    def __init__(self, A):
        shape = (A.shape[1], A.shape[0])
        super().__init__(dtype=A.dtype, shape=shape)
        self.A = A
    def _matvec(self, x):
        return self.A._rmatvec(x)
    def _rmatvec(self, x):
        return self.A._matvec(x)
    def _matmat(self, x):
        return self.A._rmatmat(x)
    def _rmatmat(self, x):
        return self.A._matmat(x)
'''
_STUB_TREE = None


def linop_class(ip):
    from .interp import Env, Frame, Instance, Mangle, Module

    global _STUB_TREE
    if "scipy.sparse.linalg" in ip.modules:
        return ip.modules["scipy.sparse.linalg"].vars["LinearOperator"]
    if _STUB_TREE is None:
        _STUB_TREE = Mangle().visit(ast.parse(STUB))
    m = Module("scipy.sparse.linalg", "")
    ip.modules["scipy.sparse.linalg"] = m

    def check_vec(ip, x, n):
        ok = x.ndim in (1, 2) and axsize(x.axes[0]).same(P(n)) and (
            x.ndim == 1 or T._one(x.axes[1]))
        if not ok:
            raise AbsRaise(ValueError("dimension mismatch"), ip.loc())

    def check_mat(ip, X, n):
        if X.ndim != 2:
            raise AbsRaise(ValueError("expected 2-d ndarray"), ip.loc())
        if not axsize(X.axes[0]).same(P(n)):
            raise AbsRaise(ValueError("dimension mismatch"), ip.loc())

    def fix_vec(ip, y, n, x):
        if not isinstance(y, Tensor):
            raise Unsupported("matvec result")
        if x.ndim == 2:
            return T.reshape(y, [n, 1])
        return T.reshape(y, [n])

    def hstack_columns(ip, A, X):
        cols = []
        it = ip.iter_tensor(T.permute(X, [1, 0]))
        rep = getattr(it, "rep", None)
        for c in it:
            y = ip.call(ip.getattr(A, "matvec"), [T.reshape(c, [dimval(axsize(c.axes[0])), 1])])
            cols.append(T.reshape(y, [dimval(y.numel()), 1]))
        if rep is not None:
            raise Unsupported("columns")
        return T.cat(cols, 1)

    m.vars.update(
        object_new=PyFn("object.__new__", lambda ip, c: Instance(c)),
        as_dtype=PyFn("dtype", lambda ip, d: to_dtype(d)),
        guess_dtype=PyFn("guess", lambda ip, s: F64),
        hstack_columns=PyFn("hstack", hstack_columns),
        as_column=PyFn("col", lambda ip, x: T.reshape(x, [-1, 1])),
        check_vec=PyFn("check_vec", check_vec),
        check_mat=PyFn("check_mat", check_mat),
        fix_vec=PyFn("fix_vec", fix_vec),
        is_linop=PyFn("is_linop", lambda ip, x: isinstance(x, (Instance, Obj))),
        not_array=PyFn("not_array", lambda ip, x: not isinstance(x, Tensor)),
        is_scalar=PyFn("is_scalar", lambda ip, x: isinstance(x, (int, float, Sym))),
        is_one=PyFn("is_one", lambda ip, x: P(x).const() == 1),
        scaled=PyFn("scaled", lambda ip, a, x: _bad("scaled operator")),
        unsupported=PyFn("unsupported", lambda ip, what: _bad(what)),
    )
    env = Env(None, m)
    env.vars = m.vars
    ip.frames.append(Frame("scipy", ""))
    try:
        ip.drain(ip.block(_STUB_TREE.body, env))
    finally:
        ip.frames.pop()
    return m.vars["LinearOperator"]


def call(ip, name, args, kwargs):
    name = ALIASES.get(name, name)
    f = F.get(name)
    if f is not None:
        return f(ip, *args, **kwargs)
    root, _, rest = name.partition(".")
    if root in ("torch", "numpy") and args and isinstance(args[0], Tensor):
        short = rest.rsplit(".", 1)[-1]
        if root == "numpy":
            kwargs = {("dim" if k == "axis" else "keepdim" if k == "keepdims" else k): v
                      for k, v in kwargs.items()}
        if rest.startswith("Tensor.") or "." not in rest or rest.startswith(
            ("linalg.", "nn.functional.", "special.")
        ):
            m = METHODS.get(short)
            if m is not None:
                return m(ip, *args, **kwargs)
    if root in ("typing", "typing_extensions"):
        return Ext(name) if not name.endswith("cast") else args[1]
    if root == "torch" and name.startswith("torch.nn."):
        short = name.rsplit(".", 1)[-1]
        from .user import LossObj

        if short in LossObj.KINDS:
            return LossObj(short, *args, **kwargs)
    raise Unsupported(f"call of {name}")


def reg(*names):
    def deco(f):
        for n in names:
            F[n] = f
        return f

    return deco


# ---------------------------------------------------------------------------- dtype, device
def to_dtype(d):
    if d is None:
        return F64
    if isinstance(d, DType):
        return d
    if d is float or d == "float":
        return F64
    if d is int:
        return INT64
    if d is bool:
        return BOOL
    if isinstance(d, str):
        return DType(d)
    if isinstance(d, Ext):
        return DType(d.name.rsplit(".", 1)[-1])
    raise Unsupported(f"dtype {d!r}")


def to_device(d):
    if isinstance(d, Device):
        return d
    if d is None:
        return CPU
    if isinstance(d, str):
        return GPU if d == "cuda" else Device(d)
    raise Unsupported(f"device {d!r}")


def tdtype(d):
    """dtype argument of a torch function (``None``: default)."""
    if d is None:
        return F32
    if d is float:
        return F64
    if d is int:
        return INT64
    if d is bool:
        return BOOL
    if isinstance(d, DType):
        return d
    raise Unsupported(f"dtype {d!r}")


@reg("torch.device")
def _device(ip, type=None, index=None, device=None):
    type = device if type is None else type
    return to_device(type if index is None else f"{type}:{index}")


@reg("numpy.dtype")
def _npdtype(ip, d):
    return to_dtype(d)


@reg("numpy.issubdtype")
def _issubdtype(ip, d, c):
    d = to_dtype(d)
    n = c.name.rsplit(".", 1)[-1] if isinstance(c, (Ext, DType)) else getattr(c, "__name__", "")
    if n in ("inexact",):
        return T.isfloat(d)
    if n in ("floating", "float"):
        return T.isfloat(d) and not d.name.startswith("complex")
    if n in ("integer", "signedinteger", "int"):
        return not T.isfloat(d) and d.name != "bool"
    if n in ("number",):
        return d.name != "bool"
    if n == "complexfloating":
        return d.name.startswith("complex")
    return d.name == n


@reg("numpy.isrealobj", "numpy.iscomplexobj")
def _realobj(ip, x):
    raise Unsupported("realobj")


@reg("numpy.result_type", "numpy.promote_types")
def _result_type(ip, *xs):
    d = None
    for x in xs:
        if isinstance(x, (int, float, Sym)) and not isinstance(x, bool):
            continue
        e = x.dtype if isinstance(x, Tensor) else to_dtype(x)
        d = e if d is None else T.promote(d, e)
    return d or F64


@reg("torch.promote_types", "torch.result_type")
def _tresult_type(ip, *xs):
    ds = [x.dtype if isinstance(x, Tensor) else x for x in xs if isinstance(x, (Tensor, DType))]
    d = ds[0]
    for e in ds[1:]:
        d = T.promote(d, e)
    return d


# ------------------------------------------------------------------------------ factories
def size_args(size):
    if len(size) == 1 and isinstance(size[0], (tuple, list)):
        return list(size[0])
    return list(size)


def factory(ip, size, val, dtype, device, kind="torch", note=""):
    axes = [T.mkaxis(s) for s in size]
    return Tensor.new(axes, P(val), dtype, device, kind, note=note)


def _mk(val):
    def f(ip, *size, dtype=None, device=None, requires_grad=False, out=None, size_=None, **kw):
        if "size" in kw:
            size = (kw["size"],)
        if val is None:
            return factory(ip, size_args(size), Poly.atom(_uninit(ip)), tdtype(dtype),
                           to_device(device))
        return factory(ip, size_args(size), val, tdtype(dtype), to_device(device))

    return f


def _uninit(ip):
    n = f"uninitialised{ip.fresh()}"
    atom(n, kind="uninit")
    return n


F["torch.zeros"] = _mk(0)
F["torch.ones"] = _mk(1)
F["torch.empty"] = _mk(None)


@reg("torch.full")
def _full(ip, size, fill_value, dtype=None, device=None):
    return factory(ip, list(size), fill_value, tdtype(dtype), to_device(device))


def _like(val):
    def f(ip, t, dtype=None, device=None, requires_grad=False, memory_format=None):
        v = P(val) if val is not None else Poly.atom(_uninit(ip))
        r = Tensor.new(t.axes, v, dtype and tdtype(dtype) or t.dtype,
                       t.device if device is None else to_device(device), t.kind)
        return r

    return f


F["torch.zeros_like"] = _like(0)
F["torch.ones_like"] = _like(1)
F["torch.empty_like"] = _like(None)


@reg("torch.full_like")
def _full_like(ip, t, v, dtype=None, device=None):
    return Tensor.new(t.axes, P(v), dtype or t.dtype, t.device if device is None
                      else to_device(device), t.kind)


def id_poly():
    atom("Id", kind="Id")
    return Poly.atom("Id")


@reg("torch.eye")
def _eye(ip, n, m=None, dtype=None, device=None):
    p = id_poly() if P(n).const() != 1 else Poly.num(1)
    return Tensor.new([ax(P(n)), ax(P(n if m is None else m))], p, tdtype(dtype), to_device(device))


@reg("numpy.eye", "numpy.identity")
def _npeye(ip, n, dtype=None):
    return Tensor.new([ax(P(n)), ax(P(n))], id_poly(), to_dtype(dtype), CPU, "np")


@reg("torch.arange")
def _arange(ip, *a, dtype=None, device=None):
    if len(a) == 1:
        n = a[0]
        return Tensor.new([ax(P(n))], Poly.func("arange", P(n)), dtype or INT64, to_device(device))
    raise Unsupported("arange")


@reg("torch.tensor", "torch.as_tensor", "torch.asarray")
def _tensor(ip, x, dtype=None, device=None, requires_grad=False):
    share = not ip._callee_is("torch.tensor") if hasattr(ip, "_callee_is") else True
    return as_tensor(ip, x, dtype, device)


def as_tensor(ip, x, dtype=None, device=None, copy=False):
    if isinstance(x, Tensor):
        dev = x.device if device is None else to_device(device)
        d = x.dtype if dtype is None else tdtype(dtype)
        if x.kind == "torch":
            if dev == x.device and d == x.dtype and not copy:
                return x
            if T.isfloat(x.dtype) and not T.isfloat(d):
                ip.event("truncate", op="as_tensor", to=d.name, frm=x.dtype.name)
            return T.copy(x, d, dev)
        cells = x.cells if (dev == CPU and d == x.dtype and not copy) else None
        if T.isfloat(x.dtype) and not T.isfloat(d):
            ip.event("truncate", op="as_tensor", to=d.name, frm=x.dtype.name)
        if cells is not None:
            return Tensor(x.axes, cells, d, dev, "torch")
        T.note_cast(x.dtype, d, "as_tensor")
        return Tensor.new(x.axes, x.polys(), d, dev, "torch")
    if isinstance(x, bool):
        return Tensor.new([], P(int(x)), dtype and tdtype(dtype) or BOOL, to_device(device))
    if isinstance(x, (int, float, Sym)):
        d = tdtype(dtype) if dtype is not None else (
            INT64 if isinstance(x, int) or (isinstance(x, Sym) and x.isint) else F32)
        return Tensor.new([], P(x), d, to_device(device))
    if isinstance(x, (list, tuple)):
        items = [as_tensor(ip, v, dtype, device) for v in x]
        if not items:
            return Tensor.new([ax(0)], {}, tdtype(dtype), to_device(device))
        if getattr(x, "rep", None) is not None:
            return T.stack(items, 0, x.rep)
        return T.stack(items, 0)
    raise Unsupported(f"tensor from {x!r}")


def F_tensor(ip, x, dtype=None, device=None, requires_grad=False):
    r = as_tensor(ip, x, dtype, device, copy=True)
    return T.detach(r) if r.live() else r


F["torch.tensor"] = F_tensor


def F_as_tensor(ip, x, dtype=None, device=None, copy=None, requires_grad=False):
    return as_tensor(ip, x, dtype, device, copy=bool(copy))


F["torch.as_tensor"] = F["torch.asarray"] = F_as_tensor


@reg("torch.from_numpy")
def _from_numpy(ip, x):
    return Tensor(x.axes, x.cells, x.dtype, CPU, "torch")


def _npmk(val):
    def f(ip, shape, dtype=None, **kw):
        v = P(val) if val is not None else Poly.atom(_uninit(ip))
        s = list(shape) if isinstance(shape, (tuple, list)) else [shape]
        return Tensor.new([T.mkaxis(x) for x in s], v, to_dtype(dtype), CPU, "np")

    return f


F["numpy.zeros"], F["numpy.ones"], F["numpy.empty"] = _npmk(0), _npmk(1), _npmk(None)


@reg("numpy.full")
def _npfull(ip, shape, v, dtype=None):
    s = list(shape) if isinstance(shape, (tuple, list)) else [shape]
    return Tensor.new([T.mkaxis(x) for x in s], P(v), to_dtype(dtype), CPU, "np")


for _n, _v in (("zeros_like", 0), ("ones_like", 1), ("empty_like", None)):
    def _f(ip, t, dtype=None, _v=_v, **kw):
        v = P(_v) if _v is not None else Poly.atom(_uninit(ip))
        return Tensor.new(t.axes, v, to_dtype(dtype) if dtype is not None else t.dtype, CPU, "np")

    F[f"numpy.{_n}"] = _f


@reg("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray")
def _nparray(ip, x, dtype=None, **kw):
    if isinstance(x, Tensor):
        if x.kind == "np":
            return x if dtype is None or to_dtype(dtype) == x.dtype else T.copy(x, to_dtype(dtype))
        raise Unsupported("array from a tensor")
    if isinstance(x, (int, float, Sym)):
        return Tensor.new([], P(x), to_dtype(dtype), CPU, "np")
    if isinstance(x, (list, tuple)):
        items = [_nparray(ip, v, dtype) for v in x]
        return T.stack(items, 0, getattr(x, "rep", None))
    raise Unsupported(f"array from {x!r}")


@reg("numpy.linspace")
def _linspace(ip, lo, hi, num=50, endpoint=True, **kw):
    u = Poly.func("linspace", P(num), extra=str(bool(endpoint)))  # from zero to one
    p = _spoly(lo) + (_spoly(hi) - _spoly(lo)) * u
    return Tensor.new([ax(P(num))], p, F64, CPU, "np")


@reg("numpy.cumsum", "itertools.accumulate")
def _cumsum(ip, xs):
    if isinstance(xs, Tensor):
        raise Unsupported("cumsum")
    out, acc = LList(), 0
    for x in ip.iterate(xs):
        acc = ip.binop(ast.Add, acc, x)
        out.append(acc)
    return out


# ------------------------------------------------------------------------------ randomness
class GenObj(Obj):
    cls_name = "torch.Generator"

    def __init__(self, ip, device=CPU):
        self.device = device
        self.gid = ip.fresh()
        self.seed, self.cnt, self.value = f"unseeded{self.gid}", 0, None
        ip.event("generator", gen=self)

    def sa_isinstance(self, n):
        return n in ("torch.Generator", "builtins.object")

    def sa_getattr(self, ip, name):
        if name == "device":
            return self.device
        if name == "manual_seed":
            def f(ip, s):
                ip.event("seed", gen=self, seed=s)
                self.seed, self.cnt = str(P(s)) if isinstance(s, (int, Sym)) else str(s), 0
                self.value = s
                return self
            return PyFn(name, f)
        if name == "seed":
            def f(ip):
                self.seed, self.cnt, self.value = f"entropy{ip.fresh()}", 0, None
                return 0
            return PyFn(name, f)
        if name == "initial_seed":
            def f(ip):
                if self.seed.startswith("unseeded"):
                    return 67280421310721  # PyTorch's default
                return self.value if isinstance(self.value, (int, Sym)) else _bad("initial_seed")
            return PyFn(name, f)
        if name in ("get_state",):
            return PyFn(name, lambda ip: ("genstate", self.seed, self.cnt))
        if name == "set_state":
            def f(ip, s):
                _, self.seed, self.cnt = s
                return self
            return PyFn(name, f)
        return super().sa_getattr(ip, name)


@reg("torch.Generator")
def _generator(ip, device=None):
    return GenObj(ip, to_device(device))


def numel(axes):
    """Number of entries (of independent draws)."""
    if axes is None:
        return None
    n = Poly.num(1)
    for a in axes:
        n = n * axsize(a)
    return n


def draw(ip, gen, device, what, axes=None):
    """Name of the next random draw of a generator."""
    if gen is None:
        lib = "np" if what.startswith("np") else "torch"
        st = ip.draws.setdefault(lib, {"seed": f"global-{lib}", "cnt": 0})
        name = f"{st['seed']}.{st['cnt']}"
        st["cnt"] += 1
        ip.event("draw", gen=None, what=what, name=name, numel=numel(axes),
                 constructing=bool(ip.state.get("constructing")))
        return name
    if not isinstance(gen, GenObj):
        raise Unsupported("generator")
    if device is not None and gen.device != device:
        ip.event("device-mismatch", op=what, devices=[gen.device.name, device.name])
        raise rt(f"{what}: Expected a {device} generator but found {gen.device}")
    name = f"{gen.seed}.{gen.cnt}"
    gen.cnt += 1
    ip.event("draw", gen=gen, what=what, name=name, numel=numel(axes))
    return name


@reg("torch.manual_seed", "torch.seed", "torch.cuda.manual_seed", "torch.cuda.manual_seed_all",
     "torch.random.manual_seed")
def _mseed(ip, s=None):
    ip.event("global-seed", lib="torch")
    ip.draws["torch"] = {"seed": f"reseeded-{s}", "cnt": 0}
    return Opaque("generator")


@reg("numpy.random.seed")
def _npseed(ip, s=None):
    ip.event("global-seed", lib="np")
    ip.draws["np"] = {"seed": f"reseeded-{s}", "cnt": 0}


def rand_cells(axes, name, kind):
    polys = {}
    for i in T.indices(axes):
        n = f"{kind}<{name}>" + ("" if all(x == 0 for x in i) and all(len(a) == 1 for a in axes)
                                 else f"[{','.join(map(str, i))}]")
        atom(n, kind=kind)
        polys[i] = Poly.atom(n)
    return polys


@reg("torch.randn")
def _randn(ip, *size, generator=None, dtype=None, device=None, **kw):
    if "size" in kw:
        size = (kw["size"],)
    dev = to_device(device)
    axes = [T.mkaxis(s) for s in size_args(size)]
    name = draw(ip, generator, dev, "randn", axes)
    return Tensor.new(axes, rand_cells(axes, name, "gauss"), tdtype(dtype), dev)


@reg("torch.rand")
def _rand(ip, *size, generator=None, dtype=None, device=None, **kw):
    if "size" in kw:
        size = (kw["size"],)
    dev = to_device(device)
    axes = [T.mkaxis(s) for s in size_args(size)]
    name = draw(ip, generator, dev, "rand", axes)
    return Tensor.new(axes, rand_cells(axes, name, "unif"), tdtype(dtype), dev)


@reg("torch.randn_like")
def _randn_like(ip, t, dtype=None, device=None, generator=None):
    name = draw(ip, generator, t.device, "randn", t.axes)
    return Tensor.new(t.axes, rand_cells(t.axes, name, "gauss"), dtype or t.dtype, t.device)


@reg("torch.rand_like")
def _rand_like(ip, t, dtype=None, device=None):
    name = draw(ip, None, t.device, "rand", t.axes)
    return Tensor.new(t.axes, rand_cells(t.axes, name, "unif"), dtype or t.dtype, t.device)


@reg("torch.normal")
def _normal(ip, mean, std=1.0, size=None, generator=None, dtype=None, device=None):
    if size is not None:
        r = _randn(ip, *size, generator=generator, dtype=dtype, device=device)
        return T.add(T.mul(r, std), mean)
    base = mean if isinstance(mean, Tensor) and mean.ndim else std
    if not isinstance(base, Tensor):
        raise rt("normal", TypeError)
    for x in (mean, std):
        if isinstance(x, Tensor) and x.device != base.device:
            ip.event("device-mismatch", op="normal", devices=[x.device.name, base.device.name])
            raise rt("normal: tensors on different devices")
    name = draw(ip, generator, base.device, "normal", base.axes)
    r = Tensor.new(base.axes, rand_cells(base.axes, name, "gauss"), base.dtype, base.device)
    s = std if not isinstance(std, Tensor) or std.dtype == base.dtype else T.copy(std, base.dtype)
    return T.add(T.mul(r, s), T.detach(mean) if isinstance(mean, Tensor) else mean)


def m_multinomial(ip, t, num_samples, replacement=False, generator=None):
    name = draw(ip, generator, t.device, "multinomial",
                t.axes[:-1] + [T.mkaxis(num_samples)])
    if t.ndim not in (1, 2):
        raise rt("multinomial: prob_dist must be 1 or 2 dim")
    if not replacement and P(num_samples).const() != 1:
        ip.event("no-replacement", op="multinomial")
    u = t.uniform()
    if u is None:
        raise Unsupported("multinomial of a partitioned tensor")
    axes = t.axes[:-1] + [T.mkaxis(num_samples)]
    polys = {}
    cls = axsize(t.axes[-1])
    for i in T.indices(axes):
        suffix = f"{name}[{','.join(map(str, i))}]" + ("" if replacement or P(
            num_samples).const() == 1 else "norepl")
        polys[i] = Poly.func("label", u, live=False, extra=f"{suffix}@{cls}", kind="draw")
    return Tensor.new(axes, polys, INT64, t.device)


def m_bernoulli(ip, t, p=None, generator=None):
    name = draw(ip, generator, t.device, "bernoulli", t.axes)
    polys = {}
    for i, b in t.cells.items():
        polys[i] = Poly.func("bernoulli", b.get(), live=False,
                             extra=f"{name}[{','.join(map(str, i))}]", kind="draw")
    return Tensor.new(t.axes, polys, t.dtype, t.device)


@reg("torch.nn.functional.one_hot")
def _one_hot(ip, t, num_classes=-1):
    if isinstance(num_classes, int) and num_classes == -1:
        raise Unsupported("one_hot with inferred classes")
    axes = list(t.axes) + [ax(P(num_classes))]
    polys = {i + (0,): Poly.func("onehot", b.get(), live=False) for i, b in t.cells.items()}
    return Tensor.new(axes, polys, INT64, t.device)


def _nprand(what, kind):
    def f(ip, *size, **kw):
        if "size" in kw:
            size = (kw["size"],) if not isinstance(kw["size"], tuple) else kw["size"]
        axes = [T.mkaxis(s) for s in size_args(size)]
        name = draw(ip, None, None, "np." + what)
        return Tensor.new(axes, rand_cells(axes, name, kind), F64, CPU, "np")

    return f


F["numpy.random.randn"] = _nprand("randn", "gauss")
F["numpy.random.standard_normal"] = _nprand("randn", "gauss")
F["numpy.random.rand"] = _nprand("rand", "unif")
F["numpy.random.random"] = _nprand("rand", "unif")


@reg("numpy.random.normal")
def _npnormal(ip, loc=0.0, scale=1.0, size=None):
    r = _nprand("randn", "gauss")(ip, *([size] if not isinstance(size, tuple) else size))
    return T.add(T.mul(r, scale), loc)


@reg("numpy.random.binomial")
def _binomial(ip, n, p, size=None):
    s = [size] if not isinstance(size, (tuple, list)) else list(size)
    axes = [T.mkaxis(x) for x in s]
    name = draw(ip, None, None, "np.binomial")
    polys = {}
    for i in T.indices(axes):
        a = f"binomial[{n},{p}]<{name}>[{','.join(map(str, i))}]"
        atom(a, kind="binomial", args=(n, p))
        polys[i] = Poly.atom(a)
    return Tensor.new(axes, polys, INT64, CPU, "np")


@reg("numpy.random.choice")
def _choice(ip, a, size=None, replace=True, p=None):
    a = list(ip.iterate(a))
    whole = all(isinstance(x, int) or isinstance(x, Tensor) and x.dtype == INT64 for x in a)
    xs = sorted(float((x.uniform() if isinstance(x, Tensor) else P(x)).const()) for x in a)
    s = [size] if not isinstance(size, (tuple, list)) else list(size)
    axes = [T.mkaxis(x) for x in s]
    name = draw(ip, None, None, "np.choice")
    if xs == [-1.0, 1.0] and p is None:
        polys = {}
        for i in T.indices(axes):
            b = f"binomial[1,0.5]<{name}>[{','.join(map(str, i))}]"
            atom(b, kind="binomial", args=(1, 0.5))
            polys[i] = Poly.atom(b) * 2 - 1
        return Tensor.new(axes, polys, INT64 if whole else F64, CPU, "np")
    raise Unsupported("choice")


@reg("numpy.random.randint")
def _randint(ip, lo, hi=None, size=None):
    if hi is None:
        lo, hi = 0, lo
    s = [size] if not isinstance(size, (tuple, list)) else list(size)
    axes = [T.mkaxis(x) for x in s]
    name = draw(ip, None, None, "np.randint")
    polys = {}
    for i in T.indices(axes):
        two = (lo, hi) == (0, 2)
        a = (f"binomial[1,0.5]<{name}>" if two else f"randint[{lo},{hi}]<{name}>") + (
            f"[{','.join(map(str, i))}]")
        atom(a, kind="binomial" if two else "randint", args=(1, 0.5) if two else (lo, hi))
        polys[i] = Poly.atom(a)
    return Tensor.new(axes, polys, INT64, CPU, "np")


# --------------------------------------------------------------------------------- math
def _math(name):
    def f(ip, x, *rest):
        if isinstance(x, Tensor):
            x = scalar(_spoly(x))
        if isinstance(x, Sym):
            if name == "sqrt":
                return scalar(x.poly.pow(0.5))
            return scalar(Poly.func(name, x.poly))
        try:
            return getattr(math, name)(x, *rest)
        except (ValueError, OverflowError) as e:
            raise AbsRaise(e, ip.loc())

    return f


for _n in ("sqrt", "log", "exp", "ceil", "floor", "log2", "log10", "log1p", "fabs"):
    F[f"math.{_n}"] = _math(_n)


@reg("math.prod", "numpy.prod")
def _prod(ip, xs, **kw):
    acc = 1
    for x in ip.iterate(xs):
        acc = ip.binop(ast.Mult, acc, x)
    return acc


@reg("math.isclose")
def _isclose(ip, a, b, **kw):
    if P(a).same(P(b)):
        return True
    return bool(ip.choose(("isclose", str(P(a) - P(b)))))


@reg("operator.mul")
def _opmul(ip, a, b):
    return ip.binop(ast.Mult, a, b)


@reg("operator.add")
def _opadd(ip, a, b):
    return ip.binop(ast.Add, a, b)


@reg("operator.matmul")
def _opmm(ip, a, b):
    return ip.binop(ast.MatMult, a, b)


def _npunary(name):
    def f(ip, x, **kw):
        if isinstance(x, Tensor):
            return METHODS[name](ip, x) if name in METHODS else T.unary(name, x)
        if isinstance(x, (list, tuple)):
            return _npunary(name)(ip, _nparray(ip, x))
        if name == "abs":
            return call_builtin(ip, abs, [x], {})
        if name == "square":
            return ip.binop(ast.Pow, x, 2)
        return _math(name)(ip, x)

    return f


for _n in ("sqrt", "log", "exp", "abs", "square"):
    F[f"numpy.{_n}"] = _npunary(_n)
F["numpy.absolute"] = _npunary("abs")


# --------------------------------------------------------------------- functools, itertools
@reg("functools.partial")
def _partial(ip, f, *args, **kwargs):
    from .interp import Partial

    return Partial(f, args, kwargs)


@reg("functools.wraps", "functools.update_wrapper")
def _wraps(ip, f, *a, **k):
    return PyFn("wraps", lambda ip_, g: g)


@reg("functools.reduce")
def _reduce(ip, f, xs, *init):
    it = ip.iterate(xs)
    acc = init[0] if init else next(it)
    for x in it:
        acc = ip.call(f, [acc, x])
    return acc


@reg("functools.lru_cache", "functools.cache")
def _lru(ip, f=None, *a, **k):
    if f is None or not hasattr(f, "name"):
        return PyFn("lru_cache", lambda ip_, g: _lru(ip_, g))
    cache = {}

    def call_(ip_, *args, **kw):
        key = (tuple(id(x) if not isinstance(x, (int, str, float)) else x for x in args),
               tuple(sorted((k, id(v)) for k, v in kw.items())))
        if key not in cache:
            cache[key] = (ip_.call(f, list(args), kw), args, kw)
        return cache[key][0]

    return PyFn("lru_cached", call_)


@reg("itertools.chain")
def _chain(ip, *xs):
    def g():
        for x in xs:
            yield from ip.iterate(x)

    return LazyIter(g(), None)


@reg("itertools.chain.from_iterable")
def _chain_fi(ip, xs):
    def g():
        for x in ip.iterate(xs):
            yield from ip.iterate(x)

    return LazyIter(g(), None)


@reg("itertools.islice")
def _islice(ip, x, *a):
    import itertools

    if any(isinstance(v, Sym) for v in a):
        raise Unsupported("islice")
    return LazyIter(itertools.islice(ip.iterate(x), *a), None)


@reg("itertools.product")
def _product(ip, *xs, repeat=1):
    import itertools

    return LazyIter(itertools.product(*[list(ip.iterate(x)) for x in xs], repeat=repeat), None)


@reg("itertools.repeat")
def _irepeat(ip, x, n=None):
    def g():
        k = 0
        while n is None or k < n:
            yield x
            k += 1

    return LazyIter(g(), None)


@reg("itertools.count")
def _count(ip, start=0, step=1):
    import itertools

    return LazyIter(itertools.count(start, step), None)


@reg("itertools.tee")
def _tee(ip, x, n=2):
    xs = list(ip.iterate(x))
    return tuple(LazyIter(iter(list(xs)), None) for _ in range(n))


@reg("itertools.zip_longest")
def _zl(ip, *xs, fillvalue=None):
    import itertools

    return LazyIter(itertools.zip_longest(*[ip.iterate(x) for x in xs], fillvalue=fillvalue), None)


@reg("collections.deque")
def _deque(ip, it=None, maxlen=None):
    out = as_list(ip, it) if it is not None else LList()
    if maxlen is not None:
        out[:] = out[-maxlen:] if maxlen else []
    return out


@reg("collections.OrderedDict")
def _od(ip, *a, **k):
    return call_builtin(ip, dict, list(a), k)


@reg("collections.defaultdict")
def _dd(ip, factory=None, *a):
    d = LDict()
    d.default_factory = factory
    return d


@reg("copy.copy")
def _copy(ip, x):
    from .interp import Instance

    if isinstance(x, LList):
        return LList(x)
    if isinstance(x, dict):
        return LDict(x)
    if isinstance(x, Instance):
        y = Instance(x.cls)
        y.attrs = dict(x.attrs)
        return y
    if isinstance(x, Tensor):
        return T.copy(x)
    raise Unsupported("copy.copy")


@reg("copy.deepcopy")
def _deepcopy(ip, x, memo=None):
    if isinstance(x, LList):
        return LList(_deepcopy(ip, v) for v in x)
    if isinstance(x, tuple):
        return tuple(_deepcopy(ip, v) for v in x)
    if isinstance(x, dict):
        return LDict({k: _deepcopy(ip, v) for k, v in x.items()})
    if isinstance(x, Tensor):
        return T.copy(x)
    if isinstance(x, (int, float, str, Sym, type(None), Device, DType)):
        return x
    raise Unsupported("deepcopy")


# ------------------------------------------------------------------------ context managers
class CM:
    """Context manager with native callbacks."""

    def __init__(self, enter=None, exit_=None):
        self._e, self._x = enter, exit_

    def sa_enter(self, ip):
        return self._e(ip) if self._e else None

    def sa_exit(self, ip, exc):
        return bool(self._x(ip, exc)) if self._x else False


class GradMode(CM):
    """``torch.no_grad`` and friends (also usable as decorator)."""

    def __init__(self, value):
        self.value, self.saved = value, []

    def sa_enter(self, ip):
        self.saved.append(ip.grad_enabled)
        ip.grad_enabled = self.value

    def sa_exit(self, ip, exc):
        ip.grad_enabled = self.saved.pop()
        return False

    def sa_call(self, ip, args, kwargs):
        (f,) = args

        def g(ip_, *a, **k):
            self.sa_enter(ip_)
            try:
                return ip_.call(f, list(a), k)
            finally:
                self.sa_exit(ip_, None)

        return PyFn("no_grad", g)


@reg("torch.no_grad", "torch.inference_mode", "torch.autograd.no_grad")
def _no_grad(ip, f=None):
    g = GradMode(False)
    return g if f is None or isinstance(f, bool) else g.sa_call(ip, [f], {})


@reg("torch.enable_grad", "torch.autograd.enable_grad")
def _enable_grad(ip):
    return GradMode(True)


@reg("torch.set_grad_enabled")
def _sge(ip, v):
    g = GradMode(bool(v))
    return g


@reg("torch.is_grad_enabled")
def _ige(ip):
    return ip.grad_enabled


@reg("contextlib.suppress")
def _suppress(ip, *classes):
    return CM(None, lambda ip_, exc: exc is not None and any(
        ip_.exc_match(exc.value, c) for c in classes))


@reg("contextlib.nullcontext")
def _nullcontext(ip, v=None):
    return CM(lambda ip_: v, None)


@reg("contextlib.closing")
def _closing(ip, v):
    return CM(lambda ip_: v, lambda ip_, e: ip_.call(ip_.getattr(v, "close")) and False)


@reg("contextlib.contextmanager")
def _contextmanager(ip, f):
    def make(ip_, *a, **k):
        g = ip_.call(f, list(a), k)

        def enter(ip2):
            try:
                return next(g)
            except StopIteration:
                raise AbsRaise(RuntimeError("generator didn't yield"))

        def exit_(ip2, exc):
            if exc is None:
                try:
                    next(g)
                except StopIteration:
                    return False
                raise AbsRaise(RuntimeError("generator didn't stop"))
            try:
                g.throw(exc)
            except StopIteration:
                return True
            except AbsRaise as e:
                if e.value is exc.value:
                    return False
                raise
            raise AbsRaise(RuntimeError("generator didn't stop after throw()"))

        return CM(enter, exit_)

    p = PyFn("contextmanager", make)
    return p


class ExitStack(Obj):
    cls_name = "contextlib.ExitStack"

    def __init__(self):
        self.cbs = []

    def sa_enter(self, ip):
        return self

    def sa_exit(self, ip, exc):
        sup = False
        for cb in reversed(self.cbs):
            try:
                if cb(ip, None if sup else exc):
                    sup = True
            except AbsRaise as e:
                exc, sup = e, False
                err = e
                self._pending = err
        if getattr(self, "_pending", None) is not None and not sup:
            raise self._pending
        self.cbs = []
        return sup and exc is not None

    def sa_getattr(self, ip, name):
        if name == "callback":
            def f(ip, fn, *a, **k):
                self.cbs.append(lambda ip_, exc: ip_.call(fn, list(a), k) and False)
                return fn
            return PyFn(name, f)
        if name == "enter_context":
            def f(ip, cm):
                v = ip.enter(cm)
                self.cbs.append(lambda ip_, exc: ip_.exit(cm, exc))
                return v
            return PyFn(name, f)
        if name == "push":
            def f(ip, cm):
                self.cbs.append(lambda ip_, exc: ip_.exit(cm, exc))
                return cm
            return PyFn(name, f)
        if name == "close":
            return PyFn(name, lambda ip: self.sa_exit(ip, None) and None)
        return super().sa_getattr(ip, name)


@reg("contextlib.ExitStack")
def _exitstack(ip):
    return ExitStack()


@reg("warnings.warn")
def _warn(ip, *a, **k):
    ip.event("warn")


@reg("warnings.catch_warnings", "torch.backends.cudnn.flags")
def _cw(ip, *a, **k):
    return CM()


@reg("warnings.simplefilter", "warnings.filterwarnings")
def _sf(ip, *a, **k):
    return None


@reg("gc.collect", "torch.cuda.empty_cache")
def _noop(ip, *a, **k):
    return None


class Tqdm(Obj):
    cls_name = "tqdm.tqdm"

    def __init__(self, it):
        self.it = it

    def sa_iter(self, ip):
        return ip.iterate(self.it)

    def sa_len(self, ip):
        return call_builtin(ip, len, [self.it], {})

    def sa_getattr(self, ip, name):
        return PyFn(name, lambda ip, *a, **k: None)

    def sa_enter(self, ip):
        return self

    def sa_exit(self, ip, exc):
        return False


@reg("tqdm.tqdm", "tqdm.trange")
def _tqdm(ip, it=None, *a, **k):
    if it is None:
        it = k.get("iterable")
    return Tqdm(it)


@reg("typing.cast")
def _cast(ip, t, v):
    return v


@reg("logging.getLogger")
def _getlogger(ip, *a):
    class L(Obj):
        def sa_getattr(self, ip, name):
            return PyFn(name, lambda ip, *a, **k: None)

    return L()


@reg("torch.nn.modules.utils._pair")
def _pair(ip, x):
    return tuple(x) if isinstance(x, (tuple, list)) else (x, x)


@reg("torch.Size")
def _size(ip, x=()):
    return SizeT(ip.iterate(x))


@reg("torch.is_tensor")
def _is_tensor(ip, x):
    return isinstance(x, Tensor) and x.kind == "torch"


@reg("torch.get_default_dtype")
def _gdd(ip):
    return F32


@reg("torch.is_floating_point")
def _ifp(ip, t):
    return T.isfloat(t.dtype)


# -------------------------------------------------------------------------- tensor methods
METHODS: dict = {"multinomial": m_multinomial, "bernoulli": m_bernoulli}


def meth(*names):
    def deco(f):
        for n in names:
            METHODS[n] = f
        return f

    return deco


def _bin(name, fn):
    METHODS[name] = lambda ip, a, b, **k: fn(a, b, **k)
    METHODS[name + "_"] = lambda ip, a, b, **k: T.inplace(a, lambda x, y: fn(x, y, **k), b,
                                                         op=name + "_")


def _addfn(a, b, alpha=1):
    if not isinstance(a, Tensor) and isinstance(b, Tensor):
        a, b = T.ew(lambda x: P(a) + 0 * x, b, op="add"), b
    return T.add(a, b, alpha)


_bin("add", _addfn)
_bin("sub", lambda a, b, alpha=1: T.sub(a, b, alpha))
_bin("mul", lambda a, b: T.mul(a, b))
_bin("pow", lambda a, b: T.power(a, b))
METHODS["multiply"], METHODS["subtract"] = METHODS["mul"], METHODS["sub"]
METHODS["multiply_"], METHODS["subtract_"] = METHODS["mul_"], METHODS["sub_"]


def _divfn(a, b, rounding_mode=None):
    if rounding_mode is not None:
        raise Unsupported("div with rounding")
    return T.div(a, b)


_bin("div", _divfn)
for _a in ("true_divide", "divide"):
    METHODS[_a], METHODS[_a + "_"] = METHODS["div"], METHODS["div_"]


def _un(name, fn):
    METHODS[name] = lambda ip, t: fn(t)
    METHODS[name + "_"] = lambda ip, t: T.inplace(t, fn, op=name + "_")


_un("sqrt", lambda t: T.power(t, 0.5))
_un("rsqrt", lambda t: T.power(t, -0.5))
_un("square", lambda t: T.power(t, 2))
_un("reciprocal", lambda t: T.power(t, -1))
_un("neg", T.neg)
_un("abs", lambda t: T.ew(_abs, t, op="abs"))
for _n in ("exp", "log", "sigmoid", "tanh", "sin", "cos", "relu", "log1p", "sign"):
    _un(_n, lambda t, _n=_n: T.unary(_n, t))
_un("logical_not", lambda t: t_not(t))


def _logical(n):
    def f(ip, a, b):
        return tensor_binop(ip, n, a, b)

    METHODS["logical_" + n] = METHODS["bitwise_" + n] = f
    F["torch.logical_" + n] = F["numpy.logical_" + n] = F["torch.bitwise_" + n] = f


for _n in ("and", "or", "xor"):
    _logical(_n)


@reg("torch.isin", "numpy.isin")
def _isin(ip, t, values, **k):
    if isinstance(values, Tensor):
        values = m_tolist(ip, values)
    r = None
    for v in values if isinstance(values, (list, tuple)) else [values]:
        e = tensor_compare(ip, "==", t, v)
        r = e if r is None else tensor_binop(ip, "or", r, e)
    return t_not(r) if k.get("invert") else r


def t_not(t):
    def f(x):
        c = x.const()
        return Poly.num(0 if c else 1) if c is not None else Poly.func("not", x)

    return T.ew(f, t, op="not", dtype=BOOL)


def _softmaxish(name):
    def f(ip, t, dim=None, dtype=None, **k):
        if dim is None:
            raise Unsupported(f"{name} without dim")
        size = T.axsize(t.axes[dim % t.ndim])
        return T.ew(lambda x: Poly.func(name, x, extra=str(size)), t, op=name)

    return f


METHODS["softmax"] = _softmaxish("softmax")
METHODS["log_softmax"] = _softmaxish("log_softmax")


def _dims(dim, axis):
    return axis if dim is None else dim


@meth("sum", "nansum")
def m_sum(ip, t, dim=None, keepdim=False, dtype=None, axis=None, **k):
    return T.reduce_sum(t, _dims(dim, axis), keepdim)


@meth("mean")
def m_mean(ip, t, dim=None, keepdim=False, dtype=None, axis=None, **k):
    return T.reduce_sum(t, _dims(dim, axis), keepdim, mean=True)


def _np_reduction(name):
    def f(ip, x, axis=None, dtype=None, **k):
        if not isinstance(x, Tensor):
            x = _nparray(ip, x)
        return METHODS[name](ip, x, **({} if axis is None else {"dim": axis}), **k)

    return f


for _n in ("sum", "mean", "any", "all"):
    F.setdefault("numpy." + _n, _np_reduction(_n))


for _n in ("amax", "amin", "std", "var", "prod", "logsumexp"):
    METHODS[_n] = lambda ip, t, dim=None, keepdim=False, axis=None, _n=_n, **k: T.reduce_func(
        _n, t, _dims(dim, axis), keepdim)


@meth("max")
def m_max(ip, t, dim=None, axis=None, **k):
    if dim is not None and t.kind == "torch":
        raise Unsupported("max with dim")
    r = reduce_known(ip, "amax", t, _dims(dim, axis))
    return T.reduce_func("amax", t, _dims(dim, axis)) if r is None else r


@meth("min")
def m_min(ip, t, dim=None, axis=None, **k):
    if dim is not None and t.kind == "torch":
        raise Unsupported("min with dim")
    r = reduce_known(ip, "amin", t, _dims(dim, axis))
    return T.reduce_func("amin", t, _dims(dim, axis)) if r is None else r


def at_values(p, leaf):
    """An element-wise function of units, some of which have a known value."""
    def unit(a):
        v = leaf(a)
        if v is not None:
            return v
        i = info(a)
        if i.kind == "pick":
            return 1
        xs = [at(q) for q in i.args if isinstance(q, Poly)]
        if not xs or any(x is None for x in xs):
            return None
        n = i.fname
        if n == "unique":
            return xs[0]
        if n == "not":
            return int(not xs[0])
        if n in ("and", "or", "xor") and len(xs) == 2:
            x, y = map(bool, xs)
            return int({"and": x and y, "or": x or y, "xor": x != y}[n])
        if n[:3] == "cmp" and len(xs) == 2:
            x, y = xs
            return int({"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y,
                        ">=": x >= y}[n[3:]])
        if n in ("abs", "round", "floor", "ceil"):
            return {"abs": abs, "round": round, "floor": math.floor, "ceil": math.ceil}[n](xs[0])
        if n == "where":
            return xs[1] if xs[0] else xs[2]
        if n in ("max", "min"):
            return (max if n == "max" else min)(xs)
        return None

    def at(q):
        r = 0
        for m, c in q.terms.items():
            for a, e in m:
                x = unit(a)
                if x is None or not isinstance(e, int) or (e < 0 and x == 0):
                    return None
                c = c * x**e
            r = r + c
        return r

    try:
        return at(p)
    except (TypeError, ValueError, OverflowError):
        return None


def elem_values(ip, p):
    """The values which an element-wise function takes, where they are known."""
    ds = p.deps()
    nans = sorted(a for a in ds if info(a).fname == "isnan")
    if nans:
        # either no element is NaN or some (but not all) are
        has = {a: not ip.choose(("nan", a)) for a in nans}
        out = [at_values(p, lambda a: 0 if a in has else None)]
        if any(has.values()):
            out.append(at_values(p, lambda a: int(has[a]) if a in has else None))
    else:
        bases = [a for a in ds if ("values", a) in ip.state]
        if len(bases) != 1:
            return None
        out = [at_values(p, lambda a, v=v: v if a == bases[0] else None)
               for v in ip.state[("values", bases[0])]]
    return None if any(x is None for x in out) else out


def one_value(ip, p):
    """The value of a single number, where it is known."""
    v = elem_values(ip, p)
    return None if v is None else v[-1] if any(info(a).fname == "isnan" for a in p.deps()) else (
        v[0] if all(x == v[0] for x in v) else None)


def not_a_number(ip, x, name="isnan"):
    """Predicate ``isnan`` (or ``isinf``, ``isfinite``), values being finite unless stated."""
    def f(p):
        if name == "isinf":
            return Poly()
        if not ip.state.get("nan_possible") or p.const() is not None:
            return Poly.num(int(name == "isfinite"))
        q = Poly.func("isnan", p, live=False)
        return Poly.func("not", q) if name == "isfinite" else q

    if isinstance(x, Tensor):
        return T.ew(f, x, op=name, dtype=BOOL)
    p = f(P(x))
    c = p.const()
    if c is None:
        c = one_value(ip, p)
    return bool(c)


for _n in ("isnan", "isinf", "isfinite"):
    METHODS[_n] = F["torch." + _n] = F["numpy." + _n] = F["math." + _n] = (
        lambda ip, x, _n=_n: not_a_number(ip, x, _n))


def reduce_known(ip, name, t, dim):
    """A reduction over all elements, whose values are known."""
    if dim is not None:
        return None
    vals = []
    for p in t.polys().values():
        c = p.const()
        v = [c] if c is not None else elem_values(ip, p)
        if v is None:
            return None
        vals += v
    r = {"any": lambda: int(any(vals)), "all": lambda: int(all(vals)), "amax": lambda: max(vals),
         "amin": lambda: min(vals)}[name]()
    return Tensor.new([], P(r), BOOL if name in ("any", "all") else t.dtype, t.device, t.kind)


@meth("any")
def m_any(ip, t, dim=None, **k):
    r = reduce_known(ip, "any", t, dim)
    return T.reduce_func("any", t, dim, dtype=BOOL) if r is None else r


@meth("all")
def m_all(ip, t, dim=None, **k):
    r = reduce_known(ip, "all", t, dim)
    return T.reduce_func("all", t, dim, dtype=BOOL) if r is None else r


@meth("norm")
def m_norm(ip, t, p=None, dim=None, keepdim=False, ord=None, **k):
    o = p if p is not None else ord
    if o in (None, 2, "fro", 2.0):
        return T.reduce_func("norm", t, dim, keepdim)
    raise Unsupported("norm order")


@reg("torch.linalg.norm", "torch.linalg.vector_norm", "torch.linalg.matrix_norm")
def _tlnorm(ip, t, ord=None, dim=None, keepdim=False):
    return m_norm(ip, t, ord, dim, keepdim)


@reg("numpy.linalg.norm")
def _nlnorm(ip, t, ord=None, axis=None, keepdims=False):
    return m_norm(ip, t, ord, axis, keepdims)


def _square(t, op):
    if t.ndim != 2 or not axsize(t.axes[0]).same(axsize(t.axes[1])):
        T.event("shape-mismatch", op=op, sizes=[str(t.shape)])
        raise rt(f"{op}: A must be a square matrix, got {t.shape}")


def _diag_poly(t, name):
    """Function of a square (block) matrix with one scalar result."""
    polys = t.polys()
    u = t.uniform()
    if u is not None:
        return Poly.func(name, u, extra=str(axsize(t.axes[0])))
    parts = [f"{i}:{p}" for i, p in sorted(polys.items())]
    return Poly.func(name, *[p for _, p in sorted(polys.items())], extra=str(axsize(t.axes[0])))


@meth("trace")
def m_trace(ip, t, **k):
    if t.ndim != 2:
        raise rt("trace: expected a matrix")
    if len(t.axes[0]) > 1 and len(t.axes[0]) == len(t.axes[1]):
        p = Poly()
        for i in range(len(t.axes[0])):
            p = p + _tr(t.cells[(i, i)].get(), t.axes[0][i].size)
        return T.finish(t.like([], p))
    u = t.uniform()
    if u is None:
        raise Unsupported("trace")
    return T.finish(t.like([], _tr(u, axsize(t.axes[0]))))


def _tr(p, n):
    if n.const() == 1:
        return p
    if p.same(id_poly()):
        return n
    return Poly.func("tr", p, extra=str(n))


@meth("det")
def m_det(ip, t):
    _square(t, "det")
    ip.maybe_fault("det")
    return T.finish(t.like([], _diag_poly(t, "det")))


@meth("logdet")
def m_logdet(ip, t):
    _square(t, "logdet")
    ip.maybe_fault("logdet")
    return T.finish(t.like([], _diag_poly(t, "logdet")))


@reg("torch.linalg.slogdet", "torch.slogdet", "numpy.linalg.slogdet")
def _slogdet(ip, t):
    _square(t, "slogdet")
    return (t.like([], Poly.func("signdet", _diag_poly(t, "det"))),
            t.like([], _diag_poly(t, "logdet")))


F["torch.linalg.det"] = F["numpy.linalg.det"] = lambda ip, t: m_det(ip, t)
F["torch.logdet"] = lambda ip, t: m_logdet(ip, t)


@meth("diag", "diag_embed", "diagonal")
def m_diag(ip, t, *a, **k):
    if a and a[0] != 0:
        raise Unsupported("diag offset")
    if t.ndim == 1:
        u = t.uniform()
        if u is None:
            raise Unsupported("diag of a partitioned vector")
        return T.finish(t.like([t.axes[0], t.axes[0]], Poly.func("diag", u) if
                               u.const() != 1 else id_poly()))
    if t.ndim == 2:
        u = t.uniform()
        if u is None and not (len(t.axes[0]) == len(t.axes[1]) and all(
                a.size.same(b.size) for a, b in zip(*t.axes))):
            raise Unsupported("diag of a partitioned matrix")
        if u is None:
            return T.finish(t.like([t.axes[0]], {
                (i,): _diag_of(t.cells[i, i].get(), s.size) for i, s in enumerate(t.axes[0])}))
        return T.finish(t.like([t.axes[0]], _diag_of(u, axsize(t.axes[0]))))
    raise Unsupported("diag")


def _diag_of(p, n):
    if n.const() == 1:
        return p
    if len(p.terms) == 1:
        ((m, c),) = p.terms.items()
        if len(m) == 1 and m[0][1] == 1 and info(m[0][0]).fname == "diag":
            return Poly.num(c) * info(m[0][0]).args[0]
        if len(m) == 1 and m[0] == ("Id", 1):
            return Poly.num(c)
    return Poly.func("diagof", p)


# ------------------------------------------------------------ factorisations and inverses
def inv_poly(p):
    return Poly.func("inv", p)


@reg("torch.linalg.cholesky", "numpy.linalg.cholesky")
def _cholesky(ip, t, upper=False, out=None):
    _square(t, "cholesky")
    ip.maybe_fault("cholesky")
    ip.event("decomposed", dtype=t.dtype.name)
    if t.kind == "torch" and t.dtype.name in ("float16", "bfloat16", "half"):
        pass
    return T.finish(_block_func(t, "chol", lower=True))


def _block_func(t, name, symmetric=False, lower=False):
    """Matrix function of a square block matrix: one unit per block of the result."""
    n = len(t.axes[0])
    if n == 1 or n != len(t.axes[1]):
        return t.like([ax(axsize(t.axes[0])), ax(axsize(t.axes[1]))],
                      {(0, 0): _diag_poly(t, name)})
    args = [p for _, p in sorted(t.polys().items())]
    size = axsize(t.axes[0])
    polys = {}
    for i in range(n):
        for j in range(n):
            a, b = (min(i, j), max(i, j)) if symmetric else (i, j)
            polys[i, j] = Poly() if lower and j > i else Poly.func(
                name, *args, extra=f"{size}|{a},{b}")
    return t.like([[Seg(s.size) for s in a] for a in t.axes], polys)


METHODS["cholesky"] = lambda ip, t, upper=False: _cholesky(ip, t)


@reg("torch.linalg.cholesky_ex")
def _chol_ex(ip, t, **k):
    raise Unsupported("cholesky_ex")


@reg("torch.cholesky_inverse")
def _chol_inv(ip, L, upper=False):
    u = L.uniform()
    if u is not None and len(u.atoms()) == 1:
        (a,) = u.atoms()
        i = info(a)
        if i.fname == "chol" and u.same(Poly.atom(a)) and not upper:
            p = Poly.func("inv", *i.args, extra=i.extra)
            return T.finish(L.like(L.axes, p))
    if not upper and len(L.axes[0]) > 1:
        diag = L.polys()[0, 0].atoms()
        if len(diag) == 1 and info(next(iter(diag))).fname == "chol":
            i = info(next(iter(diag)))
            size = i.extra.split("|")[0]
            n = len(L.axes[0])
            if len(i.args) == n * n and all(
                p.same(Poly.func("chol", *i.args, extra=f"{size}|{a},{b}"))
                for (a, b), p in L.polys().items() if a >= b
            ):
                return T.finish(L.like([list(a) for a in L.axes], {
                    (a, b): Poly.func("inv", *i.args, extra=f"{size}|{min(a, b)},{max(a, b)}")
                    for a, b in L.polys()}))
    return T.finish(L.like(L.axes, Poly.func("cholesky_inverse", u if u is not None else
                                             _bad("cholesky_inverse"))))


METHODS["cholesky_inverse"] = _chol_inv


@reg("torch.linalg.inv", "numpy.linalg.inv", "torch.linalg.pinv")
def _inv(ip, t, **k):
    _square(t, "inv")
    ip.maybe_fault("inv")
    return T.finish(_block_func(t, "inv", symmetric=_is_symmetric(t)))


def _is_symmetric(t):
    ps = t.polys()
    return all((j, i) in ps and ps[j, i].same(p) for (i, j), p in ps.items())


METHODS["inverse"] = _inv


@reg("torch.cholesky_solve")
def _chol_solve(ip, B, L, upper=False):
    return T.matmul(_chol_inv(ip, L, upper), B)


@reg("torch.linalg.solve", "numpy.linalg.solve", "scipy.linalg.solve")
def _solve(ip, A, B, **k):
    return T.matmul(_inv(ip, A), B)


def _eigh(ip, t, name="eigh"):
    _square(t, name)
    ip.maybe_fault(name)
    n = axsize(t.axes[0])
    key = _diag_poly(t, "eig")
    lab = f"eig({n})"
    vals = t.like([ax(n, lab)], {(0,): Poly.func("eigvals", key)})
    if len(t.axes[0]) > 1:
        vecs = t.like([[Seg(s.size) for s in t.axes[0]], ax(n, lab)],
                      {(i, 0): Poly.func("eigvecs", key, extra=f"rows{i}")
                       for i in range(len(t.axes[0]))})
    else:
        vecs = t.like([ax(n), ax(n, lab)], {(0, 0): Poly.func("eigvecs", key)})
    return T.finish(vals), T.finish(vecs)


@reg("torch.linalg.eigh")
def _teigh(ip, t, UPLO="L"):
    return _eigh(ip, t)


@reg("numpy.linalg.eigh", "scipy.linalg.eigh")
def _neigh(ip, t, **k):
    ip.event("eigh", poly=t.uniform())
    if isinstance(t, Tridiag):
        t = t.tensor
    return _eigh(ip, t)


@reg("torch.linalg.eigvalsh", "numpy.linalg.eigvalsh")
def _eigvalsh(ip, t, **k):
    return _eigh(ip, t)[0]


@reg("numpy.linalg.qr", "scipy.linalg.qr", "torch.linalg.qr")
def _qr(ip, t, mode="reduced", **k):
    ip.maybe_fault("qr")
    ps = []
    for p in t.polys().values():
        if not any(p.same(q) for q in ps):
            ps.append(p)
    sig = Poly.func("span", *sorted(ps, key=str))
    full = mode not in ("reduced", "r", "economic")
    q = {}
    for i in T.indices([ax(1), t.axes[1]]):
        q[i] = Poly.func("Q", sig, extra=str(i[1]))
    Q = t.like([ax(axsize(t.axes[0])), t.axes[1]], q)
    if full:
        raise Unsupported("complete QR")
    if mode == "r":
        return t.like([t.axes[1], t.axes[1]], Poly.func("Rfac", sig))
    return Q, t.like([t.axes[1], t.axes[1]], Poly.func("Rfac", sig))


class Tridiag(Obj):
    cls_name = "scipy.sparse"

    def __init__(self, tensor):
        self.tensor = tensor

    def sa_getattr(self, ip, name):
        if name in ("todense", "toarray"):
            return PyFn(name, lambda ip: self.tensor)
        return super().sa_getattr(ip, name)


@reg("scipy.sparse.diags")
def _diags(ip, diagonals, offsets=0, **k):
    ds = [d for d in ip.iterate(diagonals)]
    offs = [o for o in ip.iterate(offsets)]
    parts = {}
    for d, o in zip(ds, offs):
        parts[o] = ";".join(str(p) for _, p in sorted(d.polys().items()))
    main = ds[offs.index(0)]
    n = axsize(main.axes[0])
    if 1 in parts and -1 in parts and parts[1] == parts[-1]:
        ps = [p for p in main.polys().values()]
        sig = Poly.func("tridiag", extra=f"{parts[0]}|{parts[1]}")
        off = ds[offs.index(1)]
        ip.event("tridiag", main=[p for _, p in sorted(main.polys().items())],
                 off=[p for _, p in sorted(off.polys().items())], sig=sig)
    else:
        sig = Poly.func("diags", extra=str(sorted(parts.items())))
    return Tridiag(Tensor.new([ax(n), ax(n)], sig, F64, CPU, "np"))


@reg("scipy.linalg.eigh_tridiagonal")
def _eigh_tri(ip, d, e, **k):
    n = axsize(d.axes[0])
    a = ";".join(str(p) for _, p in sorted(d.polys().items()))
    b = ";".join(str(p) for _, p in sorted(e.polys().items()))
    sig = Poly.func("tridiag", extra=f"{a}|{b}")
    ip.event("tridiag", main=[p for _, p in sorted(d.polys().items())],
             off=[p for _, p in sorted(e.polys().items())], sig=sig)
    return _eigh(ip, Tensor.new([ax(n), ax(n)], sig, F64, CPU, "np"))


# ----------------------------------------------------------------------------- layout
@meth("reshape", "view")
def m_reshape(ip, t, *shape, **k):
    if len(shape) == 1 and isinstance(shape[0], DType):
        raise Unsupported("view as dtype")
    return T.reshape(t, size_args(shape))


METHODS["view_as"] = METHODS["reshape_as"] = lambda ip, t, o: T.reshape(t, list(o.shape))


@meth("flatten", "ravel")
def m_flatten(ip, t, start_dim=0, end_dim=-1, **k):
    if t.kind == "np":
        t = T.copy(t) if False else t
        return T.reshape(t, [-1])
    if t.ndim == 0:
        return T.reshape(t, [1])
    s, e = start_dim % t.ndim, end_dim % t.ndim
    shape = list(t.shape)
    n = Poly.num(1)
    for x in shape[s:e + 1]:
        n = n * P(x)
    return T.reshape(t, shape[:s] + [dimval(n)] + shape[e + 1:])


@meth("unflatten")
def m_unflatten(ip, t, dim, sizes):
    d = dim % t.ndim
    s = list(t.shape)
    sizes = list(sizes)
    if any(isinstance(x, int) and x == -1 for x in sizes):
        rest = Poly.num(1)
        for x in sizes:
            if not (isinstance(x, int) and x == -1):
                rest = rest * P(x)
        q = T.exact_div(P(s[d]), rest)
        if q is None:
            raise rt("unflatten")
        sizes = [dimval(q) if isinstance(x, int) and x == -1 else x for x in sizes]
    return T.reshape(t, s[:d] + sizes + s[d + 1:])


METHODS["t"] = lambda ip, t: T.permute(t, list(range(t.ndim))[::-1])
METHODS["transpose"] = lambda ip, t, *a: (
    T.permute(t, list(range(t.ndim))[::-1] if not a else list(a[0]) if isinstance(a[0], tuple)
              else list(a))
    if t.kind == "np" else T.transpose(t, *a))
METHODS["swapaxes"] = METHODS["swapdims"] = lambda ip, t, a, b: T.transpose(t, a, b)
METHODS["permute"] = lambda ip, t, *d: T.permute(t, size_args(d))


@meth("movedim", "moveaxis")
def m_movedim(ip, t, src, dst):
    src = [src] if isinstance(src, int) else list(src)
    dst = [dst] if isinstance(dst, int) else list(dst)
    src, dst = [s % t.ndim for s in src], [d % t.ndim for d in dst]
    rest = [k for k in range(t.ndim) if k not in src]
    order = []
    for k in range(t.ndim):
        order.append(src[dst.index(k)] if k in dst else rest.pop(0))
    return T.permute(t, order)


@meth("unsqueeze", "expand_dims")
def m_unsqueeze(ip, t, dim=None, axis=None):
    return T.unsqueeze(t, dim if dim is not None else axis)


@meth("unsqueeze_")
def m_unsqueeze_(ip, t, dim):
    r = T.unsqueeze(t, dim)
    t.axes, t.cells = r.axes, r.cells
    return t


@meth("squeeze")
def m_squeeze(ip, t, dim=None, axis=None):
    return T.squeeze(t, dim if dim is not None else axis)


@meth("squeeze_")
def m_squeeze_(ip, t, dim=None):
    r = T.squeeze(t, dim)
    t.axes, t.cells = r.axes, r.cells
    return t


METHODS["expand"] = lambda ip, t, *s: T.expand(t, size_args(s))
METHODS["expand_as"] = lambda ip, t, o: T.expand(t, list(o.shape))
METHODS["broadcast_to"] = lambda ip, t, s: T.expand(t, list(s))


@meth("repeat")
def m_repeat(ip, t, *reps, axis=None, dim=None):
    axis = axis if axis is not None else dim
    if t.kind == "np":
        if axis is None:
            raise Unsupported("numpy repeat without axis")
        r = [1] * t.ndim
        r[axis] = reps[0]
        if not T._one(t.axes[axis]):
            raise Unsupported("numpy repeat")
        if P(reps[0]).const() is None or True:
            a = list(t.axes)
            a[axis] = T.mkaxis(reps[0])
            return t.like(a, {i: t.cells[i[:axis % t.ndim] + (0,) + i[axis % t.ndim + 1:]].get()
                              for i in T.indices(a)})
    reps = size_args(reps)
    return T.repeat(t, reps)


METHODS["tile"] = lambda ip, t, *r: T.repeat(t, size_args(r))


@meth("split")
def m_split(ip, t, sizes=None, dim=0, split_size_or_sections=None, split_size=None):
    if sizes is None:
        sizes = split_size_or_sections if split_size_or_sections is not None else split_size
    if isinstance(sizes, (list, tuple)):
        sizes = [x for x in sizes]
    r = T.split(t, sizes, dim)
    return rep_pieces(t, r, dim)


def rep_pieces(t, r, dim):
    if isinstance(r, tuple) and r and r[0] == "rep":
        _, q, c = r
        if c.const() == 1:
            out = LList()
            for i in RepRange(q):
                sl = [slice(None)] * t.ndim
                sl[dim % t.ndim] = i
                out.append(T.unsqueeze(T.getitem(t, tuple(sl)), dim))
            out.rep = q
            return out
        raise Unsupported("split into symbolic chunks")
    return tuple(r)


@meth("chunk")
def m_chunk(ip, t, n, dim=0):
    size = axsize(t.axes[dim % t.ndim])
    q = T.exact_div(size, P(n))
    if q is None:
        raise Unsupported("chunk")
    return rep_pieces(t, T.split(t, dimval(q), dim), dim)


@meth("unbind")
def m_unbind(ip, t, dim=0):
    t = m_movedim(ip, t, dim, 0)
    it = ip.iter_tensor(t)
    rep = getattr(it, "rep", None)
    if rep is not None:
        out = LList(it)
        out.rep = rep
        return out
    return tuple(it)


@meth("index_select")
def m_index_select(ip, t, dim, idx):
    sl = [slice(None)] * t.ndim
    sl[dim % t.ndim] = idx
    return T.getitem(t, tuple(sl))


@meth("select")
def m_select(ip, t, dim, i):
    sl = [slice(None)] * t.ndim
    sl[dim % t.ndim] = i
    return T.getitem(t, tuple(sl))


@meth("narrow")
def m_narrow(ip, t, dim, start, length):
    sl = [slice(None)] * t.ndim
    sl[dim % t.ndim] = slice(start, ip.binop(ast.Add, start, length))
    return T.getitem(t, tuple(sl))


METHODS["flip"] = lambda ip, t, *d: _bad("flip")


def seq(ip, ts):
    return as_list(ip, ts)


@reg("torch.cat", "torch.concat")
def _cat(ip, tensors, dim=0, axis=None, out=None):
    xs = seq(ip, tensors)
    d = dim if axis is None else axis
    if xs.rep is not None:
        t0 = xs[0]
        dd = d % t0.ndim
        if not T._one(t0.axes[dd]):
            raise Unsupported("cat over representatives")
        return T.stack([T.squeeze(x, dd) for x in xs], dd, xs.rep) if True else None
    return T.cat(xs, d)


@reg("numpy.concatenate", "numpy.hstack", "numpy.vstack")
def _npcat(ip, tensors, axis=0, **k):
    return _cat(ip, tensors, axis)


def _hstack(ip, tensors):
    xs = seq(ip, tensors)
    if xs[0].ndim == 1:
        return T.cat(xs, 0)
    return T.cat(xs, 1)


F["numpy.hstack"] = F["torch.hstack"] = _hstack
F["numpy.vstack"] = F["torch.vstack"] = lambda ip, ts: T.cat(
    [x if x.ndim > 1 else T.unsqueeze(x, 0) for x in seq(ip, ts)], 0)


@reg("torch.stack", "numpy.stack")
def _stack(ip, tensors, dim=0, axis=None, out=None):
    xs = seq(ip, tensors)
    return T.stack(xs, dim if axis is None else axis, xs.rep)


@reg("numpy.column_stack", "torch.column_stack")
def _column_stack(ip, xs):
    xs = seq(ip, xs)
    return T.cat([T.reshape(x, [dimval(axsize(x.axes[0])), 1]) if x.ndim == 1 else x for x in xs],
                 1) if xs.rep is None else T.stack(xs, 1, xs.rep)


@meth("numel")
def m_numel(ip, t):
    return dimval(t.numel())


@meth("size")
def m_size(ip, t, dim=None):
    return t.shape if dim is None else t.shape[dim]


METHODS["dim"] = METHODS["ndimension"] = lambda ip, t: t.ndim
METHODS["element_size"] = lambda ip, t: 4
METHODS["is_floating_point"] = lambda ip, t: T.isfloat(t.dtype)


@meth("is_contiguous")
def m_is_contiguous(ip, t, memory_format=None):
    """The user's tensors may have any strides."""
    users = {b.storage.sid for b in t.cells.values() if b.storage.owner.startswith("user:")}
    if not users:
        return True
    return not ip.choose(("strides", min(users), str(t.shape)), 2)


METHODS["get_device"] = lambda ip, t: _bad("get_device")


# ---------------------------------------------------------------------- copies, conversion
@meth("to")
def m_to(ip, t, *args, device=None, dtype=None, copy=False, non_blocking=False, other=None, **k):
    for a in args:
        if isinstance(a, Tensor):
            device, dtype = a.device, a.dtype
        elif isinstance(a, DType):
            dtype = a
        elif isinstance(a, (Device, str)):
            device = a
        elif isinstance(a, bool) or a is None:
            pass
        else:
            raise Unsupported(f"to({a!r})")
    dev = t.device if device is None else to_device(device)
    d = t.dtype if dtype is None else dtype
    if dev == t.device and d == t.dtype and not copy:
        return t
    if d != t.dtype:
        if T.isfloat(t.dtype) and not T.isfloat(d):
            ip.event("truncate", op="to", to=d.name, frm=t.dtype.name)
        ip.event("cast", frm=t.dtype.name, to=d.name)
    r = T.copy(t, d, dev)
    return r


METHODS["cpu"] = lambda ip, t, *a, **k: m_to(ip, t, CPU)
METHODS["cuda"] = lambda ip, t, *a, **k: m_to(ip, t, GPU)
for _n, _d in (("float", "float32"), ("double", "float64"), ("half", "float16"),
               ("bfloat16", "bfloat16"), ("long", "int64"), ("int", "int32"), ("bool", "bool")):
    METHODS[_n] = lambda ip, t, _d=_d, **k: m_to(ip, t, DType(_d))
METHODS["type"] = lambda ip, t, d: m_to(ip, t, d)
METHODS["type_as"] = lambda ip, t, o: m_to(ip, t, o)


@meth("astype")
def m_astype(ip, t, dtype, copy=True, **k):
    d = to_dtype(dtype)
    if T.isfloat(t.dtype) and not T.isfloat(d):
        ip.event("truncate", op="astype", to=d.name, frm=t.dtype.name)
    if d != t.dtype:
        ip.event("cast", frm=t.dtype.name, to=d.name)
    elif not copy:
        return t
    return T.copy(t, d)


METHODS["clone"] = lambda ip, t, **k: T.copy(t)
METHODS["copy"] = lambda ip, t, *a: T.copy(t)
METHODS["contiguous"] = lambda ip, t, **k: t
METHODS["detach"] = lambda ip, t: T.detach(t)


@meth("detach_")
def m_detach_(ip, t):
    r = T.detach(t)
    t.cells, t.graph, t.requires_grad = r.cells, frozenset(), False
    return t


@meth("requires_grad_")
def m_requires_grad_(ip, t, v=True):
    if any(s.owner != "op" for s in t.storages()):
        ip.event("setattr", obj=t, name="requires_grad")
    t.requires_grad = v
    if v and not t.live() and t.leaf is False:
        n = f"leaf{ip.fresh()}"
        raise Unsupported("requires_grad_ on a temporary")
    return t


METHODS["zero_"] = lambda ip, t: T.write(t, 0, "zero_")
METHODS["fill_"] = lambda ip, t, v: T.write(t, v, "fill_")
METHODS["fill"] = lambda ip, t, v: T.write(t, v, "fill")


@meth("copy_")
def m_copy_(ip, t, src, non_blocking=False):
    return T.write(t, src, "copy_")


@meth("addcmul_")
def m_addcmul_(ip, t, a, b, value=1):
    return T.inplace(t, lambda x: T.add(x, T.mul(a, b), value), op="addcmul_")


@meth("lerp")
def m_lerp(ip, t, end, weight):
    return T.add(t, T.mul(T.sub(end, t), weight))


def _new(val):
    def f(ip, t, *size, dtype=None, device=None, **k):
        if "size" in k:
            size = (k["size"],)
        v = val
        size = size_args(size)
        return factory(ip, size, v, dtype or t.dtype, t.device if device is None
                       else to_device(device))

    return f


METHODS["new_ones"], METHODS["new_zeros"] = _new(1), _new(0)
METHODS["new_empty"] = lambda ip, t, *s, **k: _new(Poly.atom(_uninit(ip)))(ip, t, *s, **k)
METHODS["new_full"] = lambda ip, t, size, v, **k: _new(v)(ip, t, *size, **k)
METHODS["new_tensor"] = lambda ip, t, x, **k: as_tensor(ip, x, k.get("dtype") or t.dtype, t.device)


@meth("numpy")
def m_numpy(ip, t, **k):
    if t.device != CPU:
        raise rt("can't convert cuda device type tensor to numpy", TypeErr)
    if t.live():
        raise rt("Can't call numpy() on Tensor that requires grad.")
    if t.dtype.name == "bfloat16":
        raise rt("Got unsupported ScalarType BFloat16", TypeErr)
    return Tensor(t.axes, t.cells, t.dtype, CPU, "np")


@meth("item")
def m_item(ip, t):
    if t.numel().const() != 1:
        raise rt("a Tensor with more than one element cannot be converted to Scalar")
    u = t.uniform()
    if t.dtype == BOOL:
        c = u.const()
        if c is None:
            c = one_value(ip, u)
        if c is None:
            ip.no_guess(u)
        return bool(c) if c is not None else bool(ip.choose(("item", str(u))))
    return scalar(u.detach(), not T.isfloat(t.dtype))


@meth("tolist")
def m_tolist(ip, t):
    if t.ndim == 0:
        return m_item(ip, t)
    v = t.meta.get("values") or known_values(ip, t.uniform())
    if v is not None:
        return LList(v)
    return LList(m_tolist(ip, x) for x in ip.iter_tensor(t))


@meth("unique")
def m_unique(ip, t, **k):
    u = t.uniform()
    r = Tensor.new([ax(Poly.atom(atom(f"nuniq({u})", lower=1)))],
                   Poly.func("unique", u if u is not None else _bad("unique")), t.dtype, t.device,
                   t.kind)
    v = known_values(ip, u)
    if v is not None:
        r.meta["values"] = v
    return r


def known_values(ip, u):
    """Distinct values of a target of which they are known."""
    if u is None:
        return None
    hits = []
    for a in u.atoms():
        if ("values", a) in ip.state:
            hits.append(ip.state[("values", a)])
        elif info(a).fname == "unique":
            hits.append(known_values(ip, info(a).args[0]))
        elif info(a).kind != "pick":
            return None
    return hits[0] if len(hits) == 1 and len(u.terms) == 1 else None


@meth("argwhere", "nonzero")
def m_argwhere(ip, t, **k):
    return Tensor.new([ax(T.count_true(t)), ax(Poly.num(t.ndim))],
                      Poly.func("argwhere", T.summary(t)),
                      INT64, t.device, t.kind)


@meth("argmax", "argmin", "argsort")
def m_argmax(ip, t, dim=None, **k):
    return T.reduce_func("argmax", t, dim, dtype=INT64)


def _clamp(t, n, a, k):
    args = [*a, *k.values()]
    if n != "nan_to_num" and all(isinstance(x, (int, float, Sym, type(None))) for x in args) and \
            not any(isinstance(x, float) and not math.isfinite(x) for x in args):
        lo = a[0] if a and n != "clamp_max" else k.get("min", k.get("a_min"))
        hi = (a[0] if a and n == "clamp_max" else a[1] if len(a) > 1 else
              k.get("max", k.get("a_max")))

        def bounded(x):
            for b, m in ((lo, "max"), (hi, "min")):
                if b is not None:
                    s = (x - P(b)).sign()
                    x = (Poly.func(m, *sorted([x, P(b)], key=str)) if s is None else
                         x if s == 0 or (s > 0) == (m == "max") else P(b))
            return x

        return bounded
    ex = ",".join(str(P(x)) if isinstance(x, (int, float, Sym)) else str(x) for x in a)
    ex += ",".join(f"{n}={v}" for n, v in k.items())
    return lambda x: Poly.func("clamp" if n != "nan_to_num" else n, x, extra=ex)


def _mk_clamp(n):
    METHODS[n] = lambda ip, t, *a, **k: T.ew(_clamp(t, n, a, k), t, op=n)
    METHODS[n + "_"] = lambda ip, t, *a, **k: T.inplace(
        t, lambda x: T.ew(_clamp(x, n, a, k), x, op=n), op=n + "_")


for _n in ("clamp", "clip", "clamp_min", "clamp_max", "nan_to_num"):
    _mk_clamp(_n)


@reg("torch.nn.functional.pad")
def _pad(ip, t, pad, mode="constant", value=None):
    if mode != "constant":
        raise Unsupported("padding mode")
    pad = list(ip.iterate(pad))
    if len(pad) % 2 or len(pad) // 2 > t.ndim:
        raise rt("pad: invalid padding")
    v = P(0 if value is None else value)
    for k in range(len(pad) // 2):
        d = t.ndim - 1 - k
        parts = [t]
        for n, first in ((pad[2 * k], True), (pad[2 * k + 1], False)):
            s = P(n).sign()
            if s == 0:
                continue
            if s != 1:
                raise Unsupported("padding size")
            axes = list(t.axes)
            axes[d] = T.mkaxis(n)
            c = t.like(axes, v)
            parts = [c] + parts if first else parts + [c]
        t = T.cat(parts, d) if len(parts) > 1 else t
    return t


@reg("torch.where", "numpy.where")
def _where(ip, c, a=None, b=None):
    if a is None:
        raise Unsupported("where")
    return T.ew(lambda x, y, z: y if y.same(z) else Poly.func("where", x, y, z), c, a, b,
                op="where")


@reg("torch.maximum", "numpy.maximum", "torch.max", "torch.minimum", "numpy.minimum")
def _maximum(ip, a, b=None, **k):
    if b is None:
        return METHODS["max"](ip, a, **k)
    return T.ew(lambda x, y: x if x.same(y) else Poly.func("max", *sorted([x, y], key=str)), a, b,
                op="max")


del F["torch.minimum"], F["numpy.minimum"]


@meth("allclose")
def m_allclose(ip, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return allclose(ip, a, b, rtol, atol, equal_nan)


def allclose(ip, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if isinstance(a, Tensor) and isinstance(b, Tensor):
        if a.device != b.device:
            ip.event("device-mismatch", op="allclose", devices=[a.device.name, b.device.name])
            raise rt("allclose: tensors on different devices")
        if a.kind == "torch" and a.dtype != b.dtype:
            raise rt("allclose: dtypes differ")
        try:
            T.broadcast([a, b], "allclose")
        except Unsupported:  # e.g. rows of batches in another order
            ip.event("compared", same=False, a=a, b=b, tol=(rtol, atol))
            return False
        if T.same_value(a, b):
            ip.event("compared", same=True, a=a, b=b, tol=(rtol, atol), self_=a is b or same_boxes(a, b))
            if ip.state.get("nan_possible") and not equal_nan:
                us = {str(q) for q in a.polys().values() if q.const() is None}
                return all([bool(ip.choose(("nan", "isnan(" + u + ")"))) for u in sorted(us)])
            return True
        ip.event("compared", same=False, a=a, b=b, tol=(rtol, atol))
        return False
    pa = a if isinstance(a, Tensor) else None
    if isinstance(a, (int, float, Sym)) and isinstance(b, (int, float, Sym)):
        return P(a).same(P(b))
    t, s = (a, b) if isinstance(a, Tensor) else (b, a)
    u = t.uniform()
    return u is not None and u.same(P(s))


def same_boxes(a, b):
    return a.cells.keys() == b.cells.keys() and all(a.cells[i] is b.cells[i] for i in a.cells)


F["numpy.allclose"] = lambda ip, a, b, *x, **k: allclose(ip, a, b, *x, **k)
F["torch.allclose"] = lambda ip, a, b, *x, **k: allclose(ip, a, b, *x, **k)
METHODS["equal"] = lambda ip, a, b: allclose(ip, a, b, 0.0, 0.0)
F["numpy.array_equal"] = lambda ip, a, b, **k: allclose(ip, a, b, 0.0, 0.0)


@meth("isclose")
def m_isclose(ip, a, b, *x, **k):
    if isinstance(a, Tensor):
        try:
            T.broadcast([a, b], "isclose")
        except Unsupported:
            return Tensor.new([ax(n) for n in a.shape], Poly.func("isclose", T.summary(a),
                              T.summary(b)), BOOL, a.device, a.kind)
        return T.ew(lambda p, q: Poly.num(1) if p.same(q) else Poly.func("isclose", p, q), a, b,
                    op="isclose", dtype=BOOL)
    return P(a).same(P(b))


# -------------------------------------------------------------------------------- algebra
METHODS["matmul"] = METHODS["mm"] = METHODS["bmm"] = METHODS["mv"] = lambda ip, a, b, **k: (
    T.matmul(a, b))
METHODS["__matmul__"] = METHODS["matmul"]


@meth("dot", "inner", "vdot")
def m_dot(ip, a, b, **k):
    if not isinstance(b, Tensor):
        from .interp import Instance

        if isinstance(b, (Instance, Obj)):
            raise Unsupported("array.dot(operator)")
        return T.mul(a, b)
    if a.ndim == 0 or b.ndim == 0:
        return T.mul(a, b)
    return T.matmul(a, b)


@meth("outer", "ger")
def m_outer(ip, a, b, **k):
    return T.einsum([a, b], [["i"], ["j"]], ["i", "j"], "outer")


@reg("torch.einsum")
def _teinsum(ip, eq, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = ops[0]
    return T.torch_einsum(list(ops), eq)


@reg("numpy.einsum")
def _neinsum(ip, eq, *ops, **k):
    return T.torch_einsum(list(ops), eq)


@reg("numpy.einsum_path")
def _einsum_path(ip, eq, *ops, **k):
    T.torch_einsum(list(ops), eq)
    return (LList(["einsum_path"]), "")


@reg("torch.addmm")
def _addmm(ip, a, b, c, beta=1, alpha=1):
    return T.add(T.mul(a, beta), T.matmul(b, c), alpha)


@reg("torch.tensordot", "numpy.tensordot")
def _tensordot(ip, a, b, dims=2, axes=None):
    dims = dims if axes is None else axes
    if isinstance(dims, int):
        da, db = list(range(a.ndim - dims, a.ndim)), list(range(dims))
    else:
        da, db = [list(x) if isinstance(x, (list, tuple)) else [x] for x in dims]
    sa = [f"a{k}" for k in range(a.ndim)]
    sb = [f"b{k}" for k in range(b.ndim)]
    for x, y in zip(da, db):
        sb[y % b.ndim] = sa[x % a.ndim]
    out = [s for k, s in enumerate(sa) if k not in [x % a.ndim for x in da]] + [
        s for k, s in enumerate(sb) if k not in [y % b.ndim for y in db]]
    return T.einsum([a, b], [sa, sb], out)


@reg("einops.rearrange")
def _rearrange(ip, t, pattern, **sizes):
    if isinstance(t, (list, tuple)):
        t = _stack(ip, t)
    return T.einops_reduce(t, pattern, None, sizes)


@reg("einops.reduce")
def _ereduce(ip, t, pattern, reduction, **sizes):
    return T.einops_reduce(t, pattern, reduction, sizes)


@reg("einops.einsum")
def _eeinsum(ip, *args):
    return T.einops_einsum(list(args[:-1]), args[-1])


@reg("einops.repeat")
def _erepeat(ip, t, pattern, **sizes):
    l, r = pattern.split("->")
    left, right = T.parse_side(l), T.parse_side(r)
    new = [x for x in right if isinstance(x, str) and x not in left and x != "..."]
    if any(isinstance(x, list) for x in right):
        raise Unsupported("einops.repeat with merged axes")
    base = " ".join("1" if x in new else (x if isinstance(x, str) else "(" + " ".join(x) + ")")
                    for x in right)
    t = T.einops_reduce(t, f"{l}-> {base}", None,
                        {k: v for k, v in sizes.items() if k not in new})
    shape = list(t.shape)
    if "..." in right:
        raise Unsupported("einops.repeat with ellipsis")
    for k, x in enumerate(right):
        if x in new:
            shape[k] = sizes[x]
    return T.copy(T.expand(t, shape))


# ------------------------------------------------------------------- convolution helpers
def _str(x):
    if isinstance(x, (tuple, list)):
        return "(" + ",".join(_str(v) for v in x) + ")"
    return str(P(x)) if isinstance(x, (int, float, Sym)) else str(x)


def pair(x):
    return list(x) if isinstance(x, (tuple, list)) else [x, x]


def conv_out(i, k, s, p, d):
    """Symbolic output size of a convolution along one axis."""
    return Poly.atom(atom(f"convout({_str(i)},k={_str(k)},s={_str(s)},p={_str(p)},d={_str(d)})",
                          lower=1))


@reg("torch.nn.functional.unfold")
def _unfold(ip, x, kernel_size, dilation=1, padding=0, stride=1):
    b, c, h, w = [axsize(a) for a in x.axes]
    k, s, p, d = pair(kernel_size), pair(stride), pair(padding), pair(dilation)
    o = conv_out(h_(h), k[0], s[0], p[0], d[0]) * conv_out(h_(w), k[1], s[1], p[1], d[1])
    key = f"k={_str(k)},s={_str(s)},p={_str(p)},d={_str(d)}"
    u = x.uniform()
    if u is None:
        raise Unsupported("unfold of a partitioned tensor")
    ch = x.axes[1]
    ch = list(ch[0].fac) if len(ch) == 1 and ch[0].fac is not None else [Seg(c)]
    inner = Seg(c * P(k[0]) * P(k[1]), None, ch + [Seg(P(k[0])), Seg(P(k[1]))])
    return T.finish(x.like([x.axes[0], (inner,), ax(o)], lin_func("unfold", u, key)))


def lin_func(name, p, key):
    """A linear map applied to a polynomial: scalars factor out."""
    r = Poly()
    for m, c in p.terms.items():
        sc = tuple((a, e) for a, e in m if is_scalar_atom(a))
        ten = tuple((a, e) for a, e in m if not is_scalar_atom(a))
        r = r + Poly({sc: c}) * Poly.func(name, Poly({ten: 1}), extra=key)
    return r


def is_scalar_atom(a):
    i = info(a)
    return i.lower is not None or i.kind == "scalar"


def h_(p):
    return Sym(p, True)


def plain_padding(padding, k, s, d):
    """Equal padding of both sides of one axis where there is one."""
    if not isinstance(padding, str):
        return padding
    left, right = _conv_paddings(None, k, s, padding, d)
    return left if P(left).same(P(right)) else padding


@reg("einconv.index_pattern")
def _index_pattern(ip, i, k, stride=1, padding=0, dilation=1, device=None, dtype=None):
    padding = plain_padding(padding, k, stride, dilation)
    o = conv_out(i, k, stride, padding, dilation)
    key = f"i={_str(i)},k={_str(k)},s={_str(stride)},p={_str(padding)},d={_str(dilation)}"
    n = atom(f"pattern({key})", kind="pattern")
    return Tensor.new([ax(P(k)), ax(o), ax(P(i))], Poly.atom(n),
                      BOOL if dtype is None else dtype, to_device(device))


@reg("einconv.utils.get_conv_paddings")
def _conv_paddings(ip, k, s, padding, d):
    if not isinstance(padding, str):
        return (padding, padding)
    if padding == "valid":
        return (0, 0)
    if padding != "same":
        raise ve("unknown padding")
    if not P(s).same(P(1)):
        raise ve("padding='same' with a stride")
    k, d = P(k).const(), P(d).const()
    if k is None or d is None:
        raise Unsupported("padding='same' of a kernel of unknown size")
    total = int(d * (k - 1))
    return (total // 2, total - total // 2)


# ------------------------------------------------------------------------------- autograd
DRULES["MSE"] = lambda i: [2 * P(i.args[0]) - 2 * P(i.args[1]), 2 * P(i.args[1]) - 2 * P(i.args[0])] \
    if False else [Poly.num(2) * (i.args[0] - i.args[1]), Poly.num(2) * (i.args[1] - i.args[0])]
DRULES["CE"] = lambda i: [
    Poly.func("softmax", i.args[0], extra=i.extra) - Poly.func("onehot", i.args[1], live=False),
    Poly.func("D1CE", *i.args, extra=i.extra),
]
DRULES["softmax"] = lambda i: [
    Poly.func("diag", Poly.func("softmax", *i.args, extra=i.extra))
    - Poly.func("softmax", *i.args, extra=i.extra).pow(2)]
DRULES["sigmoid"] = lambda i: [Poly.func("sigmoid", *i.args) - Poly.func("sigmoid", *i.args).pow(2)]
DRULES["BCE"] = lambda i: [Poly.func("sigmoid", i.args[0]) - i.args[1],
                           Poly.func("D1BCE", *i.args)]


def var_of(t):
    """The unit a tensor stands for (to differentiate with respect to it)."""
    u = t.uniform()
    if u is None or len(u.terms) != 1:
        raise Unsupported("derivative with respect to a computed tensor")
    ((m, c),) = u.terms.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        raise Unsupported("derivative with respect to a computed tensor")
    return m[0][0]


def use_graph(ip, ts, op, retain, ins=()):
    """Traverse the graph between ``ins`` and ``ts``; frees it unless retained."""
    stop = frozenset()
    for t in ins:
        if not t.is_param:
            stop |= t.graph
    for t in ts:
        for g in t.graph - stop:
            if g.freed:
                ip.event("freed-graph", op=op)
                raise rt("Trying to backward through the graph a second time")
    if not retain:
        for t in ts:
            for g in t.graph - stop:
                g.freed = True


def scalar_out(t):
    u = t.uniform()
    if u is None:
        raise Unsupported("gradient of a partitioned tensor")
    return u


def fire_hooks(ip, outs, weight):
    """Tensor hooks on the graph of the differentiated tensors."""
    for t, w in zip(outs, weight):
        for g in sorted(t.graph, key=lambda x: -x.gid):
            for z, h in reversed(list(getattr(g, "hooks", []))):
                d = scalar_out(t).derivative(var_of(z)) * w
                if d.terms and h.active:
                    gz = Tensor.new(z.axes, d.detach(), z.dtype, z.device)
                    gz.is_hook_grad = True
                    r = ip.call(h.fn, [gz])
                    if r is not None:
                        ip.event("hook-return")


class GraphX(Graph):
    __slots__ = ("hooks",)

    def __init__(self):
        super().__init__()
        self.hooks = []


class Handle(Obj):
    cls_name = "torch.utils.hooks.RemovableHandle"

    def __init__(self, fn, where, what):
        self.fn, self.active, self.where, self.what = fn, True, where, what

    def sa_getattr(self, ip, name):
        if name == "remove":
            def f(ip):
                self.active = False
                ip.event("hook-remove", handle=self)
            return PyFn(name, f)
        return super().sa_getattr(ip, name)

    def sa_enter(self, ip):
        return self

    def sa_exit(self, ip, exc):
        self.active = False
        ip.event("hook-remove", handle=self)
        return False


@meth("register_hook")
def m_register_hook(ip, t, fn):
    if not t.live():
        raise rt("cannot register a hook on a tensor that doesn't require gradient")
    h = Handle(fn, ip.loc(), "tensor")
    if any(s.owner == "user:param" for s in t.storages()):
        ip.event("hook-add", obj=t, handle=h)
        ip.state.setdefault("hooks", []).append(h)
    for g in t.graph:
        g.hooks.append((t, h))
    if not t.graph:
        raise Unsupported("hook on a leaf")
    return h


@reg("torch.autograd.grad")
def _grad(ip, outputs, inputs, grad_outputs=None, retain_graph=None, create_graph=False,
          only_inputs=True, allow_unused=None, is_grads_batched=False, materialize_grads=False):
    outs = [outputs] if isinstance(outputs, Tensor) else as_list(ip, outputs)
    ins = [inputs] if isinstance(inputs, Tensor) else as_list(ip, inputs)
    if is_grads_batched:
        raise Unsupported("batched gradients")
    for t in outs:
        if not t.live():
            raise rt("element 0 of tensors does not require grad and does not have a grad_fn")
    if grad_outputs is None:
        for t in outs:
            if t.numel().const() != 1:
                raise rt("grad can be implicitly created only for scalar outputs")
        ws = [Poly.num(1)] * len(outs)
        wt = []
    else:
        gos = [grad_outputs] if isinstance(grad_outputs, Tensor) else as_list(ip, grad_outputs)
        wt = gos
        for o, g in zip(outs, gos):
            _same_shape(ip, o, g, "grad_outputs")
        ws = [scalar_out(g) for g in gos]
    retain = create_graph if retain_graph is None else ip.truth(retain_graph)
    ip.maybe_fault("backward pass")
    use_graph(ip, outs, "grad", retain, ins)
    fire_hooks(ip, outs, ws)
    graph = frozenset()
    if create_graph:
        for t in outs:
            graph |= t.graph
    calls = ip.state["grad-calls"] = ip.state.get("grad-calls", -1) + 1
    noisy = ip.state.get("noise_grad") or {}
    res = []
    for pos, t in enumerate(ins):
        noise = calls in noisy and (noisy[calls] is None or pos in noisy[calls])
        v = var_of(t)
        d = Poly()
        dep = False
        for o, w in zip(outs, ws):
            p = scalar_out(o)
            dd = p.derivative(v)
            dep = dep or bool(dd.terms) or v in p.deps()
            d = d + dd * w
        if not dep and not d.terms:
            if not (allow_unused or materialize_grads):
                raise rt("One of the differentiated Tensors appears to not have been used")
            if not materialize_grads:
                res.append(None)
                continue
        if not create_graph:
            d = d.detach()
        if noise:
            d = d + Poly.atom(atom(f"gradnoise{calls}", kind="scalar"))
        r = Tensor.new(t.axes, d, t.dtype, t.device, graph=graph)
        res.append(r)
    return tuple(res)


def _same_shape(ip, a, b, op):
    if a.ndim != b.ndim or not all(axsize(x).same(axsize(y)) for x, y in zip(a.axes, b.axes)):
        ip.event("shape-mismatch", op=op, sizes=[str(a.shape), str(b.shape)])
        raise rt(f"{op}: shape mismatch {a.shape} vs {b.shape}")
    if a.device != b.device:
        ip.event("device-mismatch", op=op, devices=[a.device.name, b.device.name])
        raise rt(f"{op}: device mismatch")


@meth("backward")
def m_backward(ip, t, gradient=None, retain_graph=None, create_graph=False, inputs=None):
    ip.event("grad-write", op="backward", inputs=inputs)
    retain = create_graph if retain_graph is None else ip.truth(retain_graph)
    ip.maybe_fault("backward pass")
    use_graph(ip, [t], "backward", retain)
    fire_hooks(ip, [t], [Poly.num(1) if gradient is None else scalar_out(gradient)])


@reg("torch.autograd.backward")
def _backward(ip, t, grad_tensors=None, retain_graph=None, create_graph=False, inputs=None):
    m_backward(ip, t if isinstance(t, Tensor) else t[0], None, retain_graph, create_graph)


def tlist(ip, x):
    return [x] if isinstance(x, Tensor) else list(as_list(ip, x))


def _det(p, detach):
    return p.detach() if detach else p


def jvp_poly(ip, f, xs, vs, op):
    p = scalar_out(f)
    r = Poly()
    if len(xs) != len(vs):
        ip.event("shape-mismatch", op=op, sizes=[len(xs), len(vs)])
        raise rt(f"{op}: got {len(vs)} vectors for {len(xs)} inputs")
    for x, v in zip(xs, vs):
        _same_shape(ip, x, v, op)
        r = r + p.derivative(var_of(x)) * scalar_out(v)
    return r


@reg("backpack.hessianfree.rop.jacobian_vector_product")
def _jvp(ip, f, x, v, retain_graph=True, detach=True):
    xs, vs = tlist(ip, x), tlist(ip, v)
    fs = tlist(ip, f)
    use_graph(ip, fs, "jvp", True)
    ip.maybe_fault("automatic differentiation")
    return tuple(
        Tensor.new(g.axes, _det(jvp_poly(ip, g, xs, vs, "jvp"), detach), g.dtype, g.device,
                   graph=frozenset() if detach else g.graph)
        for g in fs
    )


@reg("backpack.hessianfree.lop.transposed_jacobian_vector_product")
def _vjp(ip, f, x, v, retain_graph=True, detach=True):
    xs, vs, fs = tlist(ip, x), tlist(ip, v), tlist(ip, f)
    ip.maybe_fault("automatic differentiation")
    use_graph(ip, fs, "vjp", bool(retain_graph), xs)
    if len(fs) != len(vs):
        raise rt("vjp: number of vectors")
    for a, b in zip(fs, vs):
        _same_shape(ip, a, b, "vjp")
    fire_hooks(ip, fs, [scalar_out(b) for b in vs])
    out = []
    for x_ in xs:
        p = Poly()
        for a, b in zip(fs, vs):
            p = p + scalar_out(a).derivative(var_of(x_)) * scalar_out(b)
        out.append(Tensor.new(x_.axes, _det(p, detach), x_.dtype, x_.device))
    return tuple(out)


@reg("backpack.hessianfree.hvp.hessian_vector_product")
def _hvp(ip, f, params, v, grad_params=None, detach=True):
    xs, vs = tlist(ip, params), tlist(ip, v)
    ip.maybe_fault("automatic differentiation")
    if grad_params is not None:
        gs = tlist(ip, grad_params)
        use_graph(ip, gs, "hvp", True)
        for g in gs:
            if not g.live():
                raise rt("element 0 of tensors does not require grad")
        polys = [(scalar_out(g), g) for g in gs]
    else:
        use_graph(ip, [f], "hvp", True)
        polys = [(scalar_out(f).derivative(var_of(x)), x) for x in xs]
    if len(xs) != len(vs):
        ip.event("shape-mismatch", op="hvp", sizes=[len(xs), len(vs)])
        raise rt("hvp: number of vectors")
    out = []
    for p, like in polys:
        r = Poly()
        for x, w in zip(xs, vs):
            _same_shape(ip, x, w, "hvp")
            r = r + p.derivative(var_of(x)) * scalar_out(w)
        out.append(Tensor.new(like.axes, _det(r, detach), like.dtype, like.device))
    return tuple(out)


@reg("backpack.hessianfree.ggnvp.ggn_vector_product_from_plist")
def _ggnvp(ip, loss, output, plist, v):
    ps, vs = tlist(ip, plist), tlist(ip, v)
    ip.maybe_fault("automatic differentiation")
    use_graph(ip, [loss, output], "ggnvp", True)
    if not loss.live() or not output.live():
        raise rt("element 0 of tensors does not require grad")
    if loss.numel().const() != 1:
        raise rt("ggnvp: loss is not a scalar")
    jv = jvp_poly(ip, output, ps, vs, "ggnvp")
    ov = var_of(output)
    h = scalar_out(loss).derivative(ov).derivative(ov)
    hjv = h * jv
    out = []
    for p in ps:
        r = scalar_out(output).derivative(var_of(p)) * hjv
        out.append(Tensor.new(p.axes, r.detach(), p.dtype, p.device))
    return tuple(out)


# ---------------------------------------------------------------------------- scipy solvers
def _solver(name):
    def f(ip, A, b, *args, **kw):
        ip.event("solver", name=name, A=A, b=b, args=list(args), kwargs=dict(kw))
        ip.maybe_fault(name)
        if not isinstance(b, Tensor) or b.ndim not in (1, 2):
            raise Unsupported(f"{name} right-hand side")
        n = ip.getattr(A, "shape")[1]
        x = Tensor.new([ax(P(n))], Poly.func(f"{name}-solve", b.uniform() if b.uniform() is not None
                                             else Poly.atom("b")), b.dtype, CPU, "np")
        if name in ("cg", "gmres", "bicgstab", "minres"):
            return (x, 0)
        return (x, 1, Sym(Poly.atom("itn"), True)) + tuple(
            Sym(Poly.atom(f"lsmr{k}")) for k in range(5))

    return f


for _n in ("cg", "lsmr", "lsqr", "gmres", "minres", "bicgstab"):
    F[f"scipy.sparse.linalg.{_n}"] = _solver(_n)


@reg("scipy.sparse.linalg.eigsh")
def _eigsh(ip, A, k=6, M=None, sigma=None, which="LM", v0=None, ncv=None, maxiter=None, tol=0,
           return_eigenvectors=True, **kw):
    ip.event("eigsh", A=A, k=k, which=which, tol=tol)
    ip.maybe_fault("eigsh")
    nm = f"({getattr(A, 'name', 'A')})"
    if sigma is not None:
        raise Unsupported("shift-invert")
    table = {"BE": ["lambda_min", "lambda_max"], "SA": ["lambda_min"], "LA": ["lambda_max"],
             "LM": ["lambda_absmax"], "SM": ["lambda_absmin"]}
    want = table.get(which)
    if want is None or k != len(want):
        want = [f"eig[{which},{k}]{j}" for j in range(k)]
    vals = [Poly.atom(atom(w + nm, kind="eig")) for w in want]
    t = Tensor.new([tuple(Seg(1) for _ in vals)], {(i,): p for i, p in enumerate(vals)}, F64, CPU,
                   "np")
    if return_eigenvectors:
        return (t, Opaque("eigenvectors"))
    return t


# --------------------------------------------------------------------- attribute dispatch
def getattr_(ip, o, name):
    if isinstance(o, Tensor):
        return tensor_attr(ip, o, name)
    if isinstance(o, (LList, LDict, list, dict, set, frozenset, tuple, str, range, int, float)):
        return native_attr(ip, o, name)
    if isinstance(o, Obj):
        if "_extra" in o.__dict__ and name in o._extra:
            return o._extra[name]
        return o.sa_getattr(ip, name)
    if isinstance(o, Sym):
        if name == "is_integer":
            return PyFn(name, lambda ip: o.isint or _bad("is_integer"))
        if name == "item":
            return PyFn(name, lambda ip: o)
        raise AbsRaise(AttributeError(name), ip.loc())
    if isinstance(o, Device):
        if name == "type":
            return o.name.split(":")[0]
        if name == "index":
            return int(o.name.split(":")[1]) if ":" in o.name else None
    if isinstance(o, DType):
        if name == "is_floating_point":
            return T.isfloat(o)
        if name in ("kind",):
            return "f" if T.isfloat(o) else "i"
        if name in ("type", "newbyteorder"):
            return o
        if name == "name":
            return o.name
        if name == "is_complex":
            return o.name.startswith("complex")
        if name == "itemsize":
            digits = "".join(x for x in o.name if x.isdigit())
            return {"bool": 1, "half": 2}.get(o.name) or int(digits) // 8
    if isinstance(o, BaseException):
        if name == "args":
            return tuple(o.args)
        if name == "with_traceback":
            return PyFn(name, lambda ip, *a: o)
        if name in ("value",):
            return getattr(o, "value", None)
        if name == "__traceback__":
            return None
        if name == "__class__":
            return type(o)
        if name == "add_note":
            return PyFn(name, lambda ip, *a: None)
    if isinstance(o, type):
        if name == "__name__":
            return o.__name__
        if name == "__init__":
            return PyFn("object.__init__", lambda ip, *a, **k: None)
        if name == "__new__" and o is object:
            from .interp import Instance

            return PyFn("object.__new__", lambda ip, c, *a, **k: Instance(c))
        if o is dict and name == "fromkeys":
            return PyFn(name, lambda ip, ks, v=None: LDict({k: v for k in ip.iterate(ks)}))
        if o in (list, dict, set, str, tuple) and hasattr(o, name):
            return PyFn(name, lambda ip, x, *a, **k: ip.call(native_attr(ip, x, name), list(a), k))
    if isinstance(o, PyFn):
        if name in ("__name__", "__qualname__"):
            return o.name
        if name == "__doc__":
            return None
    from .interp import Generator_

    if isinstance(o, Generator_):
        if name == "close":
            def close(ip):
                if not o.done:
                    o.done = True
                    o.gen.close()
            return PyFn(name, close)
        if name == "throw":
            return PyFn(name, lambda ip, e, *a: o.throw(AbsRaise(e() if isinstance(e, type) else e)))
        if name == "send":
            return PyFn(name, lambda ip, v: next_(ip, o))
    if name == "__class__":
        return type_(o)
    if name == "__name__" and isinstance(o, PyFn):
        return o.name
    if o is None:
        raise AbsRaise(NoAttr(f"'NoneType' object has no attribute {name!r}"), ip.loc())
    if isinstance(o, Opaque):
        raise Unsupported(f"attribute {name} of {o!r}")
    if isinstance(o, slice) and name in ("start", "stop", "step"):
        return getattr(o, name)
    if hasattr(o, "sa_getattr"):
        return o.sa_getattr(ip, name)
    if isinstance(o, (LazyIter, RepIter)) or hasattr(o, "__next__"):
        raise AbsRaise(AttributeError(name), ip.loc())
    raise AbsRaise(AttributeError(f"{o!r} has no attribute {name!r}"), ip.loc())


_MUT = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update",
        "setdefault", "popitem", "add", "discard", "difference_update", "intersection_update",
        "symmetric_difference_update", "__setitem__", "__delitem__"}


def native_attr(ip, o, name):
    if name == "__class__":
        return type_(o)
    if isinstance(o, SizeT) and name == "numel":
        return PyFn(name, lambda ip: o.numel())
    if not hasattr(o, name) or name in ("owner", "rep"):
        raise AbsRaise(AttributeError(f"{type(o).__name__} object has no attribute {name!r}"),
                       ip.loc())
    m = getattr(o, name)
    if not callable(m):
        return m

    def f(ip, *a, **k):
        if name in _MUT:
            ip.note_container_write(o, name)
        if isinstance(o, list) and name == "append":
            for loop in ip.rep_loops:
                loop["lists"].setdefault(id(o), (o, len(o)))
        if isinstance(o, list) and name == "extend":
            a = [list(ip.iterate(a[0]))]
        if isinstance(o, list) and name == "sort":
            raise Unsupported("list.sort")
        if isinstance(o, list) and name in ("index", "count", "remove"):
            if any(isinstance(x, Tensor) for x in o) or isinstance(a[0], Tensor):
                idx = [k_ for k_, x in enumerate(o) if x is a[0]]
                if name == "index":
                    if not idx:
                        raise Unsupported("index of a tensor")
                    return idx[0]
                raise Unsupported(f"list.{name} of tensors")
        if isinstance(o, str):
            if name == "join":
                a = [[x if isinstance(x, str) else str(x) for x in ip.iterate(a[0])]]
            if name == "format":
                return o
        if isinstance(o, (set, frozenset)) and a and not isinstance(a[0], (set, frozenset)) and (
            name in ("issubset", "issuperset", "union", "difference", "intersection", "update")
        ):
            a = [set(ip.iterate(x)) for x in a]
        if isinstance(o, dict) and name == "update" and a and not isinstance(a[0], dict):
            a = [call_builtin(ip, dict, list(a), {})]
        if isinstance(o, dict) and name in ("setdefault", "get", "pop"):
            pass
        try:
            r = m(*a, **k)
        except (ValueError, KeyError, IndexError, TypeError, AttributeError) as e:
            raise AbsRaise(e, ip.loc())
        if isinstance(r, list) and not isinstance(r, LList):
            return LList(r)
        if isinstance(r, dict) and not isinstance(r, LDict):
            return LDict(r)
        return r

    return PyFn(name, f)


def tensor_attr(ip, t, name):
    if name == "shape":
        return t.shape
    if name == "ndim":
        return t.ndim
    if name == "dtype":
        return t.dtype
    if name == "device":
        return t.device
    if name == "size" and t.kind == "np":
        return dimval(t.numel())
    if name == "data":
        if t.kind != "torch":
            raise Unsupported("memory")
        r = T.detach(t)
        return r
    if name in ("T", "mT"):
        if name == "mT":
            return T.transpose(t, -1, -2)
        return T.permute(t, list(range(t.ndim))[::-1])
    if name in ("H", "mH", "real"):
        return t if name == "real" else T.transpose(t, -1, -2)
    if name == "requires_grad":
        if t.requires_grad is not None:
            return t.requires_grad
        return t.live()
    if name == "grad":
        return t.grad
    if name == "is_leaf":
        return t.is_param or not t.live()
    if name == "grad_fn":
        return None if not t.live() or t.is_param else Opaque("grad_fn")
    if name == "is_cuda":
        return t.device != CPU
    if name == "itemsize":
        return 4
    if name == "data_ptr":
        return PyFn(name, lambda ip: ("ptr", min(s.sid for s in t.storages())))
    if name == "flat":
        raise Unsupported("flat")
    if name == "conj":
        return PyFn(name, lambda ip: t)
    if name in t.meta.get("attrs", {}):
        return t.meta["attrs"][name]
    m = METHODS.get(name)
    if m is not None and not (t.kind == "np" and name in ("cpu", "detach", "numpy", "clone",
                                                          "unsqueeze", "to", "numel", "add_",
                                                          "mul_", "div_", "sub_")):
        if t.kind == "np":
            def f(ip, *a, **k):
                k = {("dim" if x == "axis" else "keepdim" if x == "keepdims" else x): v
                     for x, v in k.items()}
                return m(ip, t, *a, **k)
            return PyFn(name, f)
        return PyFn(name, lambda ip, *a, **k: m(ip, t, *a, **k))
    if name in ("backward", "to", "cpu", "detach", "clone", "unsqueeze"):
        raise AbsRaise(AttributeError(f"ndarray has no attribute {name}"), ip.loc())
    if name.startswith("__") or name in ("shape_", "module"):
        raise AbsRaise(AttributeError(f"Tensor has no attribute {name!r}"), ip.loc())
    raise Unsupported(f"tensor attribute {name}")


def setattr_(ip, o, name, v):
    if isinstance(o, Tensor):
        if name == "data":
            T.note_write(o, "data")
            if isinstance(v, Tensor):
                o.axes, o.cells, o.device, o.dtype = list(v.axes), v.cells, v.device, v.dtype
            return
        if any(s.owner != "op" for s in o.storages()):
            ip.event("setattr", obj=o, name=name)
        if name == "grad":
            o.grad = v
        elif name == "requires_grad":
            o.requires_grad = v
        elif name == "shape":
            r = T.reshape(o, list(v))
            o.axes, o.cells = r.axes, r.cells
        else:
            o.meta.setdefault("attrs", {})[name] = v
        return
    if isinstance(o, Obj):
        o.sa_setattr(ip, name, v)
        return
    raise AbsRaise(AttributeError(f"cannot set {name} on {o!r}"), ip.loc())


def tensor_binop(ip, name, a, b, inplace=False):
    fn = {
        "add": lambda x, y: T.add(x, y), "sub": lambda x, y: T.sub(x, y),
        "mul": lambda x, y: T.mul(x, y), "div": lambda x, y: T.div(x, y),
        "pow": lambda x, y: T.power(x, y),
    }.get(name)
    for x in (a, b):
        if isinstance(x, (list, tuple)):
            if (isinstance(a, Tensor) and a.kind == "np") or (isinstance(b, Tensor)
                                                              and b.kind == "np"):
                raise Unsupported("array and list")
            raise AbsRaise(TypeError("unsupported operand of a tensor"), ip.loc())
        if x is None or isinstance(x, str):
            raise AbsRaise(none_error(x)(f"unsupported operand of a tensor: {x!r}"), ip.loc())
    if name == "matmul":
        if not isinstance(a, Tensor) or not isinstance(b, Tensor):
            raise AbsRaise(TypeError("matmul with a scalar"), ip.loc())
        return T.matmul(a, b)
    if fn is None and name in ("and", "or", "xor"):
        return T.ew(lambda x, y: Poly.func(name, x, y) if x.const() is None or y.const() is None
                    else Poly.num(int({"and": bool(x.const()) and bool(y.const()),
                                       "or": bool(x.const()) or bool(y.const()),
                                       "xor": bool(x.const()) != bool(y.const())}[name])), a, b,
                    op=name)
    if fn is None:
        fn = lambda x, y: T.ew(lambda p, q: Poly.func(name, p, q), x, y, op=name)
    if inplace and isinstance(a, Tensor):
        if isinstance(b, Tensor) and a.kind == "np" and a.ndim == 0:
            return fn(a, b)  # numpy scalars are immutable
        if a.kind == "np" and a.ndim == 0:
            return fn(a, b)
        if a.kind == "np" and not T.isfloat(a.dtype) and (
            (isinstance(b, Tensor) and T.isfloat(b.dtype)) or isinstance(b, float)
        ):
            raise AbsRaise(TypeError("cannot cast ufunc output"), ip.loc())
        return T.inplace(a, fn, b, op="i" + name)
    return fn(a, b)


def tensor_compare(ip, op, a, b):
    def f(x, y):
        d = x - y
        if d.same(Poly()) and op in ("==", "!=") and ip.state.get("nan_possible"):
            if x.const() is None:
                q = Poly.func("isnan", x, live=False)
                return q if op == "!=" else Poly.func("not", q)
        s = d.sign()
        if s is None:
            return Poly.func("cmp" + op, x, y, live=False)
        v = {"==": s == 0, "!=": s != 0, "<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0}[op]
        return Poly.num(int(v))

    return T.ew(f, a, b, op="compare", dtype=BOOL)
