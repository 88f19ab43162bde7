"""Abstract scenarios: an operator of the library in an abstract user environment."""

from __future__ import annotations

from math import prod

from . import tensorops as T
from .net import UserNet, layers_of
from .poly import P, Poly, atom
from .user import (LossObj, UserData, UserDict, UserLinOp, UserModel, dim, make_param, sym,
                   user_tensor)
from .values import CPU, GPU, DType, LList, Opaque, PyFn, Seg, Sym, Tensor, ax, dimval

PARAM_DIMS = {"P0": ("a0", "a1"), "P1": ("b0",), "P2": ("c0", "c1", "c2"), "P3": ()}
LABEL_VALUES = (0, 1)


class Scen:
    """Configuration of one scenario (what the user hands to the library)."""

    defaults = dict(
        op="GGNLinearOperator", loss="MSELoss", reduction="mean", dtype="float64", pdev="cpu",
        ddev="cpu", dict_input=False, extra=True, num_data=None, module=True, nbatch=3, K=3,
        nondet_model=False, nondet_data=None, order=None, check=False, progressbar=False,
        blocks=None, params=("P0", "P1", "P2"), form="list", mc=5, kwargs=None, batch_fn=None,
        mdtype=None, functional=False, labels=(0, 1), static_order=None, net=None,
        equal=False, minB=1, activation=None, ones=(),
        nondet_at=None, noise_loss=None, noise_grad=None, rows=False, grads=False, xdims=1,
    )

    def __init__(self, **kw):
        for k, v in {**self.defaults, **kw}.items():
            setattr(self, k, v)
        unknown = set(kw) - set(self.defaults)
        assert not unknown, unknown
        self.cfg = kw
        self.dtype_name = self.dtype
        self.dtype = DType(self.dtype)
        self.mdtype = DType(self.mdtype) if self.mdtype else self.dtype
        self.pdev = GPU if self.pdev == "cuda" else CPU
        self.ddev = GPU if self.ddev == "cuda" else CPU
        self.model_is_module = self.module
        self.version = ""  # of the parameters' values
        self.opname = "M"  # of the operand's units

    def describe(self):
        return ", ".join(f"{k}={v}" for k, v in self.cfg.items()) or "default"

    # --------------------------------------------------------------------------- set-up
    def dim(self, name, lower=1):
        """Dimension of the user's objects: a symbol, or one."""
        return Poly.num(1) if name in self.ones else dim(name, lower)

    def build(self, ip):
        """Create the user's objects (fresh per path)."""
        self.ip = ip
        self.model_params = {}
        # further output axes: none, one, or several; "none": not even the class axis
        k = 0 if self.extra == "none" else int(self.extra)
        self.Ts = [self.dim("T" if j == 0 else f"T{j}", 2) for j in range(k)]
        self.T = prod(self.Ts[1:], start=self.Ts[0]) if k else None
        if self.net is None:
            for n, ds in PARAM_DIMS.items():
                self.model_params[n] = make_param(n, [self.dim(d, 2) for d in ds], self.dtype,
                                                  self.pdev)
        else:
            layers = layers_of(self, ip)
        if self.grads:  # gradients of the user's own training step
            for n, q in self.model_params.items():
                q.grad = Tensor.new(list(q.axes), Poly.atom(atom(f"grad({n})")), q.dtype, q.device,
                                    owner="user:grad", note=f"grad({n})")
        self.plist = LList(self.model_params[n] for n in self.params)
        self.plist.owner = "user:params"
        self.C = self.dim("C", 2)
        cls = self.loss
        self.out_dims = ([self.C] + self.Ts) if cls == "CrossEntropyLoss" else (self.Ts + [self.C])
        if self.extra == "none":
            self.C, self.out_dims = P(1), []
        self.Bs = [self.dim("B" if self.equal else f"B{i}", 2 if self.equal else self.minB)
                   for i in range(self.nbatch)]
        self.R = self.dim("R", 2) if self.rows else None  # rows of the output per data point
        batches = []
        for i, b in enumerate(self.Bs):
            r = b if self.R is None else b * self.R
            xin = [ax(self.dim("din" if j == 0 else f"din{j}", 2))
                   for j in range(self.xdims)] if self.net is None else layers[0].conf["_in"]
            x = user_tensor(f"x{i}", [ax(b)] + xin, self.dtype, self.ddev)
            if cls == "CrossEntropyLoss":
                yax = [ax(r)] + [ax(d) for d in self.Ts]
                y = user_tensor(f"y{i}", yax, DType("int64"), self.ddev)
            else:
                y = user_tensor(f"y{i}", [ax(r)] + [ax(d) for d in self.out_dims], self.dtype,
                                self.ddev)
                ip.state[("values", f"y{i}")] = list(self.labels)
            ids = user_tensor(f"ids{i}", [ax(b)], DType("int64"), self.ddev)
            mask = user_tensor(f"mask{i}", [ax(b)], DType("bool"), self.ddev)
            X = UserDict({"mask": mask, "x": x, "meta": "text", "ids": ids}) \
                if self.dict_input else x
            batches.append((X, y))
        self.batches = batches
        self.N = sum(self.Bs[1:], self.Bs[0])
        self.model = UserModel(self) if self.net is None else UserNet(self, layers)
        self.loss_obj = None if cls is None else LossObj(cls, reduction=self.reduction,
                                                         module=not self.functional)
        if self.noise_loss:
            self.loss_obj.noise = self.noise_loss
        ip.state["noise_grad"] = self.noise_grad
        fresh = None
        if self.nondet_data:
            which = self.nondet_data

            def fresh(k, j, X, y):
                def new(t, n):
                    return user_tensor(f"{n}{j};{k}", t.axes, t.dtype, t.device)

                if isinstance(which, tuple):  # one batch of one pass deviates
                    if (k, j) != which[1:]:
                        return X, y
                    kind = which[0]
                else:
                    kind = which
                if kind == "x":
                    X = new(X, "x")
                if kind == "y":
                    y = new(y, "y")
                if kind == "dict":
                    X = UserDict({**X.items_, "x": new(X.items_["x"], "x")})
                if kind in ("dict-ids", "dict-mask"):
                    n = kind[5:]
                    X = UserDict({**X.items_, n: new(X.items_[n], n)})
                return X, y
        self.data = UserData(batches, self.order, fresh)
        if self.static_order:
            self.data.order = lambda k: self.static_order
        self.state0 = self.snapshot()
        return self

    def snapshot(self):
        return {
            n: (p.device.name, p.requires_grad,
                p.grad and (id(p.grad), {k: str(b.poly) for k, b in p.grad.cells.items()}),
                {k: str(b.poly) for k, b in p.cells.items()})
            for n, p in self.model_params.items()
        }

    def bfn(self):
        """The user's batch size function for dict-like inputs."""
        def f(ip, X):
            ip.event("batch-size-fn", x=X)
            if isinstance(X, UserDict):
                return dimval(T.axsize(X.items_["x"].axes[0]))
            if isinstance(X, Tensor):
                return dimval(T.axsize(X.axes[0]))
            raise T.rt("batch_size_fn of something else", TypeError)

        return PyFn("batch_size_fn", f)

    def ctor_kwargs(self):
        kw = dict(check_deterministic=self.check, progressbar=self.progressbar)
        if self.num_data is not None:
            kw["num_data"] = self.num_data
        if self.dict_input or self.batch_fn:
            kw["batch_size_fn"] = self.bfn()
        if self.blocks is not None:
            kw["block_sizes"] = LList(self.blocks)
        if self.op == "FisherMCLinearOperator":
            kw["mc_samples"] = self.mc
        kw.update(self.kwargs or {})
        return kw

    def make(self, ip):
        """Construct the operator."""
        cls = None if self.op.startswith("Activation") else ip.get(f"curvlinops:{self.op}")
        args = [self.model, self.loss_obj, self.plist, self.data]
        if self.op in ("JacobianLinearOperator", "TransposedJacobianLinearOperator"):
            args = [self.model, self.plist, self.data]
        if self.op == "ActivationHessianLinearOperator":
            args = [self.model, self.loss_obj, self.activation, self.data]
            cls = ip.get(f"curvlinops.experimental.activation_hessian:{self.op}")
            kw = dict(check_deterministic=self.check, progressbar=self.progressbar)
            kw.update(self.kwargs or {})
        else:
            kw = self.ctor_kwargs()
        ip.state["constructing"] = ip.state.get("constructing", 0) + 1
        try:
            self.op_ = ip.call(cls, args, kw)
        finally:
            ip.state["constructing"] -= 1
        return self.op_

    # --------------------------------------------------------------------------- operands
    def in_axes(self, ip, op=None):
        if self.op == "TransposedJacobianLinearOperator":
            return [(f"{self.opname}0", [tuple(Seg(b) for b in self.Bs)] + [ax(d) for d in self.out_dims])]
        if self.op == "ActivationHessianLinearOperator":
            name, io, idx = self.activation
            m = self.layer_info[name].conf
            shapes = [m[f"_{io[:-3]}"]] + m[f"_{io[:-3]}s"]
            return [(f"{self.opname}0", [ax(self.Bs[0])] + shapes[idx])]
        return [(f"{self.opname}{j}", list(p.axes)) for j, p in enumerate(self.plist)]

    def operand(self, ip, form=None, axes=None, dtype=None, owner="user:operand", K=None):
        """The user's operand: list or flat tensor, matrix or vector."""
        form = form or self.form
        K = self.K if K is None else K
        axes = axes or self.in_axes(ip)
        dt = dtype or self.mdtype
        pieces = []
        vec = form.endswith("-vec")
        for name, a in axes:
            col = [] if vec else [tuple(Seg(1) for _ in range(K))]
            full = list(a) + col
            polys = {}
            part = 0 if self.op == "TransposedJacobianLinearOperator" else None
            for i in T.indices(full):
                n = "" if vec else f"|{i[-1]}"
                r = "" if part is None else f".{i[part]}"
                polys[i] = Poly.atom(atom(f"{name}{r}{n}", kind="operand"))
            pieces.append((a, full, polys, name))
        if form.startswith("list"):
            M = LList(
                Tensor.new(full, polys, dt, self.pdev, owner=owner, note=name)
                for _, full, polys, name in pieces
            )
            M.owner = owner
            return M
        # flat tensor
        if self.op == "TransposedJacobianLinearOperator":
            a, full, polys, name = pieces[0]
            rest = Poly.num(1)
            for x in a[1:]:
                rest = rest * T.axsize(x)
            segs = tuple(Seg(s.size * rest, None, [s] + [x[0] for x in a[1:]]) for s in a[0])
            axs = [segs] + full[len(a):]
            cells = {(i[0],) + i[len(a):]: p for i, p in polys.items()}
            return Tensor.new(axs, cells, dt, self.pdev, owner=owner, note=name)
        segs, cells = [], {}
        for k, (a, full, polys, name) in enumerate(pieces):
            size = Poly.num(1)
            for x in a:
                size = size * T.axsize(x)
            segs.append(Seg(size, None, [x[0] for x in a] if len(a) > 1 else None))
            for i, p in polys.items():
                cells[(k,) + i[len(a):]] = p
        axs = [tuple(segs)] + ([] if vec else [tuple(Seg(1) for _ in range(K))])
        return Tensor.new(axs, cells, dt, self.pdev, owner=owner, note="M")
