"""Abstract user objects: model, loss, parameters, data, dict-like inputs, operators.

They are the environment of the analysed code. Their transfer functions record what the
library does to them (effects) and produce units that say where a value comes from.
"""

from __future__ import annotations

from . import tensorops as T
from .poly import P, Poly, atom, info
from .values import (
    CPU,
    AbsRaise,
    TypeErr,
    DType,
    LDict,
    LList,
    NoAttr,
    Obj,
    PyFn,
    Seg,
    Sym,
    Tensor,
    Unsupported,
    ax,
    axsize,
    dimval,
    rt,
)


def dim(name, lower=1):
    """A symbolic dimension."""
    return Poly.atom(atom(name, lower=lower, kind="scalar"))


def sym(name, lower=1):
    return Sym(dim(name, lower), True)


# --------------------------------------------------------------------------------- losses
class LossObj(Obj):
    """Loss module of the user. Its value's provenance is a function of output and target."""

    KINDS = {"MSELoss": "MSE", "CrossEntropyLoss": "CE", "BCEWithLogitsLoss": "BCE",
             "L1Loss": "L1", "UserLoss": "LOSS"}
    cls_name = "torch.nn.Module"
    owner = "user:loss"

    def __init__(self, short, weight=None, size_average=None, reduce=None, reduction="mean",
                 module=True, **kw):
        self.short, self.fn, self.reduction = short, self.KINDS[short], reduction
        self.module = module
        self.device = None
        self.cls_name = f"torch.nn.{short}"

    def sa_isinstance(self, name):
        names = {f"torch.nn.{self.short}", "builtins.object"}
        if self.module:
            names |= {"torch.nn.Module", "torch.nn.modules.loss._Loss"}
        return name in names

    def sa_getattr(self, ip, name):
        if name == "reduction":
            return self.reduction
        if name == "to" and self.module:
            return PyFn("to", lambda ip, *a, **k: self)
        if name == "weight":
            return None
        if name == "ignore_index":
            return -100
        if name == "label_smoothing":
            return 0.0
        if name == "__class__":
            from .values import Ext

            return Ext(self.cls_name)
        if name in ("__call__", "forward"):
            return PyFn(name, lambda ip, *a, **k: self.sa_call(ip, list(a), k))
        return super().sa_getattr(ip, name)

    def sa_call(self, ip, args, kwargs):
        out, y = args if len(args) == 2 else (args[0] if args else kwargs["input"],
                                               kwargs["target"])
        ip.maybe_fault("loss")
        ip.event("loss-call", loss=self, output=out, target=y)
        r = loss_value(ip, self.fn, out, y, self.reduction)
        k = ip.state["loss-calls"] = ip.state.get("loss-calls", -1) + 1
        if k in (getattr(self, "noise", None) or ()):
            r = T.ew(lambda a: a + Poly.atom(atom(f"lossnoise{k}", kind="scalar")), r, op="loss")
        return r

    def __repr__(self):
        return f"{self.short}({self.reduction})"


def same_order(axes, others):
    for a, b in zip(axes, others):
        T.unify([a, b], broadcast=False, op="loss", varying=[True, True])


def loss_value(ip, fn, out, y, reduction):
    for t in (out, y):
        if not isinstance(t, Tensor):
            raise rt("loss of non-tensors", TypeErr)
    if out.device != y.device:
        T.event("device-mismatch", op="loss", devices=[out.device.name, y.device.name])
        raise rt("loss: devices differ")
    if fn == "CE":
        cdim = 1 if out.ndim > 1 else 0
        C = axsize(out.axes[cdim])
        rest = [a for k, a in enumerate(out.axes) if k != cdim]
        if y.ndim != len(rest) or not all(axsize(a).same(axsize(b)) for a, b in zip(rest, y.axes)):
            T.event("shape-mismatch", op="loss", sizes=[str(out.shape), str(y.shape)])
            raise rt(f"cross-entropy: output {out.shape} and target {y.shape} do not match")
        same_order(rest, y.axes)
        if T.isfloat(y.dtype):
            raise Unsupported("class probabilities")
        n = y.numel()
        p, q = _uni(out), _uni(y)
        val = Poly.func("CE", p, q, extra=str(C))
    else:
        if out.ndim != y.ndim or not all(
            axsize(a).same(axsize(b)) for a, b in zip(out.axes, y.axes)
        ):
            if fn != "LOSS":
                T.event("shape-mismatch", op="loss", sizes=[str(out.shape), str(y.shape)])
                raise rt(f"loss: output {out.shape} and target {y.shape} do not match", ValueError)
        else:
            same_order(out.axes, y.axes)
        n = out.numel()
        val = Poly.func(fn, _uni(out), _uni(y))
    if reduction == "mean":
        val = val.div(n)
    elif reduction == "none":
        return T.finish(out.like(out.axes, val, graph=out.graph))
    r = Tensor.new([], {(): val}, out.dtype, out.device,
                   graph=out.graph | y.graph | {ip.ext.GraphX()})
    r.meta["loss"] = True
    return T.finish(r)


def _uni(t):
    u = t.uniform()
    if u is None:
        raise Unsupported("loss of a partitioned tensor")
    return u


# --------------------------------------------------------------------------------- tensors
def make_param(name, dims, dtype, device, owner="user:param"):
    t = Tensor.new([ax(d) for d in dims], Poly.atom(atom(name, live=True, kind="param")), dtype,
                   device, owner=owner, note=name)
    t.leaf = t.is_param = True
    t.requires_grad = True
    return t


def user_tensor(name, axes, dtype, device=CPU, owner="user:data", note=None):
    return Tensor.new(axes, Poly.atom(atom(name)), dtype, device, owner=owner, note=note or name)


# ----------------------------------------------------------------------------------- model
class UserDict(Obj):
    """A dict-like model input (``MutableMapping``) that is not a dict."""

    owner = "user:data"

    def __init__(self, items, cls="collections.UserDict"):
        self.items_ = LDict(items)
        self.cls_name = cls
        self.moved = None

    def sa_isinstance(self, name):
        return name in ("typing.MutableMapping", "collections.abc.MutableMapping",
                        "collections.abc.Mapping", "builtins.object", "typing.Mapping",
                        self.cls_name)

    def sa_getattr(self, ip, name):
        d = self.items_
        if name == "keys":
            return PyFn(name, lambda ip: LList(d.keys()))
        if name == "values":
            return PyFn(name, lambda ip: LList(d.values()))
        if name == "items":
            return PyFn(name, lambda ip: LList(d.items()))
        if name == "get":
            return PyFn(name, lambda ip, k, v=None: d.get(k, v))
        if name == "__contains__":
            return PyFn(name, lambda ip, k: k in d)
        if name in ("copy", "__copy__"):
            return PyFn(name, lambda ip: UserDict(d, self.cls_name))
        if name in ("pop", "update", "clear", "setdefault", "__setitem__", "popitem"):
            def f(ip, *a, **k):
                ip.event("container-write", owner=self.owner, op=name)
                return getattr(dict, name)(d, *a, **k)
            return PyFn(name, f)
        if name == "to":
            # e.g. transformers.BatchEncoding: moves its content in place
            raise AbsRaise(NoAttr("to"), ip.loc())
        if name in ("shape", "device", "dtype", "size", "ndim", "dim", "numel", "detach"):
            raise AbsRaise(NoAttr(f"dict-like input has no attribute {name!r}"), ip.loc())
        return super().sa_getattr(ip, name)

    def sa_getitem(self, ip, k):
        if k not in self.items_:
            raise AbsRaise(KeyError(k))
        return self.items_[k]

    def sa_setitem(self, ip, k, v):
        ip.event("container-write", owner=self.owner, op="setitem")
        self.items_[k] = v

    def sa_iter(self, ip):
        return iter(list(self.items_))

    def sa_contains(self, ip, k):
        return k in self.items_

    def sa_len(self, ip):
        return len(self.items_)


class UserModel(Obj):
    """A differentiable model with parameters; opaque except for its output's shape."""

    cls_name = "user.Model"
    owner = "user:model"

    def __init__(self, sc):
        self.sc = sc
        self.calls = 0

    # -- Module interface
    def sa_isinstance(self, name):
        return name == "builtins.object" or (self.sc.model_is_module and name == "torch.nn.Module")

    def all_params(self):
        return self.sc.model_params

    def sa_getattr(self, ip, name):
        if not self.sc.model_is_module:
            if name in ("__call__",):
                return PyFn(name, lambda ip, *a, **k: self.sa_call(ip, list(a), k))
            raise AbsRaise(NoAttr(f"function has no attribute {name!r}"), ip.loc())
        if name == "to":
            return PyFn(name, self.to)
        if name in ("cpu", "cuda"):
            from .values import GPU

            return PyFn(name, lambda ip, *a: self.to(ip, CPU if name == "cpu" else GPU))
        if name == "training":
            return True
        if name in ("train", "eval", "zero_grad", "requires_grad_", "apply", "half", "float",
                    "double", "bfloat16", "type"):
            def f(ip, *a, **k):
                ip.event("model-state", op=name)
                return self
            return PyFn(name, f)
        if name in ("parameters", "buffers"):
            return PyFn(name, lambda ip, *a, **k: LList(
                self.all_params().values() if name == "parameters" else ()))
        if name == "named_parameters":
            return PyFn(name, lambda ip, *a, **k: LList(self.all_params().items()))
        if name in ("__call__", "forward"):
            return PyFn(name, lambda ip, *a, **k: self.sa_call(ip, list(a), k))
        if name == "state_dict":
            return PyFn(name, lambda ip, *a, **k: LDict(self.all_params()))
        if name == "load_state_dict":
            def f(ip, sd, *a, **k):
                ip.event("model-load", state=sd)
                return None
            return PyFn(name, f)
        if name.startswith("register_"):
            return PyFn(name, lambda ip, fn, **k: self.add_hook(ip, name, fn))
        return super().sa_getattr(ip, name)

    def add_hook(self, ip, name, fn):
        raise Unsupported("hook on an opaque model")

    def to(self, ip, *args, device=None, **kw):
        dev = device
        for a in args:
            dev = ip.ext.to_device(a)
        dev = ip.ext.to_device(dev)
        for p in self.all_params().values():
            if p.device != dev:
                ip.event("model-move", param=p, to=dev.name)
                p.device = dev
        return self

    # -- forward pass
    def input_unit(self, ip, X):
        if isinstance(X, (UserDict, LDict, dict)):
            d = X.items_ if isinstance(X, UserDict) else X
            if "x" not in d:
                raise AbsRaise(KeyError("x"), ip.loc())
            x = d["x"]
            dev = next(iter(self.all_params().values())).device
            # documented: dict-like inputs are handed to the model, which moves them itself
            ip.event("model-call", model=self, input=X, device=dev)
            return x, dev
        if not isinstance(X, Tensor):
            raise rt(f"model called with {X!r}", TypeErr)
        ip.event("model-call", model=self, input=X, device=X.device)
        return X, X.device

    def sa_call(self, ip, args, kwargs):
        if len(args) != 1 or kwargs:
            raise rt("model takes one argument", TypeErr)
        ip.maybe_fault("model")
        x, dev = self.input_unit(ip, args[0])
        for p in self.all_params().values():
            if p.device != dev:
                T.event("device-mismatch", op="model", devices=[p.device.name, dev.name])
                raise rt("model: input and parameters on different devices")
        return self.forward(ip, x, dev)

    def out_name(self, ip, x):
        u = x.uniform()
        if u is None:
            raise Unsupported("model input")
        self.calls += 1
        extra = ""
        if self.sc.nondet_model or self.calls - 1 in (self.sc.nondet_at or ()):
            extra = f";{self.calls}"
        return f"out({u}{extra}{self.sc.version})"

    def forward(self, ip, x, dev):
        n = self.out_name(ip, x)
        if "out_meta" not in self.sc.__dict__:
            self.sc.out_meta = {}
        atom(n, live=True, kind="out", deps=set(self.all_params()))
        if info(n).kind != "out":
            raise Unsupported("output unit")
        rows = x.axes[0] if self.sc.R is None else ax(axsize(x.axes[0]) * self.sc.R)
        axes = [rows] + [ax(d) for d in self.sc.out_dims]
        g = ip.ext.GraphX()
        t = Tensor.new(axes, Poly.atom(n), self.sc.dtype, dev, graph=frozenset([g]))
        return T.finish(t)


# ------------------------------------------------------------------------------------ data
class UserData(Obj):
    """Iterable over (input, target); documented: any iterable, possibly re-ordering."""

    cls_name = "user.Data"
    owner = "user:data"

    def __init__(self, batches, order=None, fresh=None):
        self.batches = batches  # list of (X, y)
        self.order = order  # pass index -> list of batch indices
        self.passes = 0
        self.fresh = fresh

    def sa_isinstance(self, name):
        return name == "builtins.object"

    def sa_iter(self, ip):
        k = self.passes
        self.passes += 1
        ip.event("data-pass", k=k)
        order = self.order(k) if self.order else range(len(self.batches))
        return self.gen(ip, k, list(order))

    def gen(self, ip, k, order):
        for n, j in enumerate(order):
            ip.maybe_fault("data")
            ip.event("data-batch", pass_=k, batch=j, pos=n)
            X, y = self.batches[j]
            if self.fresh is not None:
                X, y = self.fresh(k, j, X, y)
            yield (X, y)
        ip.event("data-end", pass_=k)

    def sa_len(self, ip):
        return len(self.batches)

    def sa_getattr(self, ip, name):
        if name == "__iter__":
            return PyFn(name, lambda ip: self.sa_iter(ip))
        if name == "__len__":
            return PyFn(name, lambda ip: len(self.batches))
        raise AbsRaise(NoAttr(f"data has no attribute {name!r}"), ip.loc())


# ------------------------------------------------------------------------- linear operators
class UserLinOp(Obj):
    """A SciPy linear operator of the user (NumPy interface)."""

    cls_name = "scipy.sparse.linalg.LinearOperator"
    owner = "user:operator"

    def __init__(self, name, shape, dtype=DType("float64"), adj=None, symmetric=False):
        self.name, self.shp, self.dtype, self.symmetric = name, shape, dtype, symmetric
        self.adj = adj
        self.calls = 0

    def sa_isinstance(self, name):
        return name in ("scipy.sparse.linalg.LinearOperator", "builtins.object",
                        "scipy.sparse.linalg.interface.LinearOperator")

    def adjoint(self):
        if self.symmetric:
            return self
        if self.adj is None:
            self.adj = UserLinOp(self.name + "^H", (self.shp[1], self.shp[0]), self.dtype, self)
        return self.adj

    def apply(self, ip, x, what):
        if isinstance(x, UserLinOp):
            return UserLinOp(f"{self.name}{x.name}", (self.shp[0], x.shp[1]), self.dtype)
        if not isinstance(x, Tensor):
            raise Unsupported("operator applied to non-array")
        if x.kind != "np":
            raise rt("operator applied to a tensor", TypeErr)
        ok = x.ndim in (1, 2) and axsize(x.axes[0]).same(P(self.shp[1]))
        if what == "matvec":
            ok = ok and (x.ndim == 1 or T._one(x.axes[1]))
        if what == "matmat":
            ok = ok and x.ndim == 2
        if not ok:
            T.event("shape-mismatch", op=f"{self.name} @", sizes=[str(self.shp), str(x.shape)])
            raise AbsRaise(ValueError("dimension mismatch"), ip.loc())
        self.calls += 1
        ip.event("matvec", op=self, x=x, k=self.calls)
        ip.maybe_fault("operator")
        a = Poly.atom(atom(self.name, kind="op"))
        if len(x.axes[0]) != 1:
            polys = {}
            for i, p in x.polys().items():
                key = i[1:]
                polys.setdefault(key, []).append((x.axes[0][i[0]], p))
            out = {}
            for key, lst in polys.items():
                r = Poly()
                for s, p in lst:
                    r = r + p
                out[(0,) + key] = a * r
        else:
            out = {i: a * p for i, p in x.polys().items()}
        return Tensor.new([ax(P(self.shp[0]))] + list(x.axes[1:]), out,
                          T.promote(self.dtype, x.dtype), CPU, "np")

    def sa_getattr(self, ip, name):
        if name == "shape":
            return self.shp
        if name == "dtype":
            return self.dtype
        if name in ("matvec", "matmat", "dot", "_matvec", "_matmat", "__matmul__"):
            return PyFn(name, lambda ip, x: self.apply(ip, x, name.strip("_")))
        if name in ("rmatvec", "rmatmat", "_rmatvec", "_rmatmat"):
            return PyFn(name, lambda ip, x: self.adjoint().apply(ip, x, name.strip("_")[1:]))
        if name in ("adjoint", "transpose", "_adjoint", "_transpose"):
            return PyFn(name, lambda ip: self.adjoint())
        if name in ("T", "H"):
            return self.adjoint()
        if name == "ndim":
            return 2
        raise AbsRaise(AttributeError(f"LinearOperator has no attribute {name!r}"), ip.loc())

    def sa_binop(self, ip, name, other, reflected):
        if name in ("matmul", "mul") and not reflected:
            if isinstance(other, (int, float, Sym)) and name == "mul":
                raise Unsupported("scaled operator")
            return self.apply(ip, other, "@")
        if name in ("matmul",) and reflected:
            # x @ A
            if isinstance(other, Tensor):
                raise Unsupported("array @ operator")
        raise Unsupported(f"operator {name}")

    def sa_call(self, ip, args, kwargs):
        return self.apply(ip, args[0], "@")

    def __repr__(self):
        return f"<operator {self.name}>"
