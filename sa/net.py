"""Abstract network with named layers (for the Kronecker-factored operators)."""

from __future__ import annotations

from . import tensorops as T
from .poly import P, Poly, atom
from .user import UserModel, dim, make_param
from .values import (AbsRaise, LDict, LList, Obj, PyFn, Seg, Tensor, Unsupported, ax, axsize,
                     dimval)


class Layer(Obj):
    """A layer of the user's network."""

    owner = "user:model"

    def __init__(self, net, name, kind, params, conf=None):
        self.net, self.name, self.kind = net, name, kind
        self.params = params  # {"weight": tensor, "bias": tensor}
        self.conf = conf or {}
        self.pre, self.post = [], []
        self.cls_name = f"torch.nn.{kind}"

    def sa_isinstance(self, name):
        return name in (f"torch.nn.{self.kind}", "torch.nn.Module", "builtins.object") or (
            self.kind.startswith("Conv") and name == "torch.nn.modules.conv._ConvNd")

    def sa_getattr(self, ip, name):
        if name in ("weight", "bias"):
            return self.params.get(name)
        if name in self.conf:
            return self.conf[name]
        if name in ("parameters", "named_parameters"):
            return PyFn(name, lambda ip, *a, **k: LList(
                self.params.values() if name == "parameters" else self.params.items()))
        if name in ("children", "modules", "named_children", "buffers"):
            return PyFn(name, lambda ip, *a, **k: LList([self] if name == "modules" else []))
        if name in ("register_forward_pre_hook", "register_forward_hook"):
            where = self.pre if "pre" in name else self.post

            def add(ip, fn, prepend=False, with_kwargs=False, always_call=False):
                if with_kwargs:
                    raise Unsupported("hook with keywords")
                h = ip.ext.Handle(fn, ip.loc(), name)
                if prepend:
                    where.insert(0, h)
                else:
                    where.append(h)
                ip.event("hook-add", obj=self, handle=h)
                ip.state.setdefault("hooks", []).append(h)
                return h
            return PyFn(name, add)
        if name.startswith("register_"):
            raise Unsupported(f"hook {name}")
        if name == "training":
            return True
        if name == "to":
            def to(ip, *a, **k):
                dev = ip.ext.to_device(a[0] if a else k.get("device"))
                for p in self.params.values():
                    if p.device != dev:
                        ip.event("model-move", param=p, to=dev.name)
                        p.device = dev
                return self
            return PyFn(name, to)
        if name in ("train", "eval", "requires_grad_", "zero_grad", "half", "float", "double"):
            def f(ip, *a, **k):
                ip.event("model-state", op=name)
                return self
            return PyFn(name, f)
        return super().sa_getattr(ip, name)

    def sa_call(self, ip, args, kwargs):
        raise Unsupported("direct call of a layer")

    def __repr__(self):
        return f"<{self.kind} {self.name}>"


class Container(Obj):
    """A module that holds other modules."""

    owner = "user:model"
    cls_name = "torch.nn.Sequential"

    def __init__(self, name, layers):
        self.name, self.layers = name, layers

    def sa_isinstance(self, name):
        return name in ("torch.nn.Sequential", "torch.nn.Module", "builtins.object")

    def sa_getattr(self, ip, name):
        n = len(self.name) + 1
        if name in ("parameters", "named_parameters"):
            ps = [(f"{m.name[n:]}.{k}", p) for m in self.layers for k, p in m.params.items()]
            return PyFn(name, lambda ip, *a, recurse=True, **k: LList(
                () if not recurse else [p for _, p in ps] if name == "parameters" else ps))
        if name in ("children", "named_children", "modules", "named_modules"):
            ms = [(m.name[n:], m) for m in self.layers]
            if name.endswith("modules"):
                ms.insert(0, ("", self))
            return PyFn(name, lambda ip, *a, **k: LList(
                ms if name.startswith("named") else [m for _, m in ms]))
        raise Unsupported(f"{name} of a container")

    def __repr__(self):
        return f"<Sequential {self.name}>"


class UserNet(UserModel):
    """``layers``: list of (name, kind, {"weight"/"bias": param name}, conf)."""

    cls_name = "user.Net"

    def __init__(self, sc, layers):
        super().__init__(sc)
        self.layers = layers
        # the network can consist of one layer only (which has an empty name), or of containers
        self.root = layers[0] if layers[0].name == "" else None
        self.named = [] if self.root else [("", self)]
        self.top, boxes = [], {}
        for m in layers:
            box, _, _ = m.name.rpartition(".")
            if box and box not in boxes:
                boxes[box] = Container(box, [])
                self.named.append((box, boxes[box]))
                self.top.append((box, boxes[box]))
            if box:
                boxes[box].layers.append(m)
            else:
                self.top.append((m.name, m))
            self.named.append((m.name, self if self.root else m))

    def sa_isinstance(self, name):
        if self.root is not None and self.root.sa_isinstance(name):
            return True
        return super().sa_isinstance(name)

    def sa_getattr(self, ip, name):
        if self.root is not None:
            if name in ("named_modules", "modules"):
                return PyFn(name, lambda ip: LList(self.named if name == "named_modules"
                                                   else [self]))
            if name in ("children", "named_children"):
                return PyFn(name, lambda ip: LList())
            if name == "state_dict":
                def f(ip, *a, **k):
                    d = LDict(self.root.params)
                    d.owner = "model-state"
                    return d
                return PyFn(name, f)
            if name in ("parameters", "named_parameters") or name in self.root.params or \
                    name in self.root.conf or name.startswith("register_"):
                return self.root.sa_getattr(ip, name)
        if name == "named_modules":
            return PyFn(name, lambda ip, *a, **k: LList(self.named))
        if name == "modules":
            return PyFn(name, lambda ip: LList([m for _, m in self.named]))
        if name in ("children", "named_children"):
            return PyFn(name, lambda ip: LList(
                [m for _, m in self.top] if name == "children" else self.top))
        if name == "get_submodule":
            def f(ip, n):
                for k, m in self.named:
                    if k == n:
                        return m
                for m in self.layers:
                    if m.name == n:
                        return m
                raise AbsRaise(AttributeError(f"no submodule {n}"), ip.loc())
            return PyFn(name, f)
        if name == "named_parameters":
            def f(ip, *a, **k):
                return LList((f"{m.name}.{n}", p) for m in self.layers
                             for n, p in m.params.items())
            return PyFn(name, f)
        if name == "state_dict":
            def f(ip, *a, **k):
                d = LDict((f"{m.name}.{n}", p) for m in self.layers for n, p in m.params.items())
                d.owner = "model-state"
                return d
            return PyFn(name, f)
        return super().sa_getattr(ip, name)

    def all_params(self):
        return self.sc.model_params

    def forward(self, ip, x, dev):
        u = x.uniform()
        if u is None:
            raise Unsupported("model input")
        self.calls += 1
        tag = f"{u}" + (
            f";{self.calls}" if self.sc.nondet_model or self.calls - 1 in (
                self.sc.nondet_at or ()) else "") + self.sc.version
        g = ip.ext.GraphX()
        batch = x.axes[0]
        if x.device != dev:  # documented: the model moves dict-like inputs itself
            x = Tensor.new(x.axes, u, x.dtype, dev, owner="user:act")
        seen, zs = set(), set()
        for k, m in enumerate(self.layers):
            inp = x
            if k:
                # activations depend on everything before
                n = f"act_{m.name}({tag})"
                atom(n, live=True, kind="act", deps=set(seen) | set(zs))
                zs.add(n)
                inp = Tensor.new([batch] + m.conf["_in"], Poly.atom(n), self.sc.dtype, dev,
                                 graph=frozenset([g]), owner="user:act", note=n)
            inp = (inp,)
            for j, shape in enumerate(m.conf.get("_ins", ()), 1):
                n = f"act_{m.name}.{j}({tag})"
                atom(n, live=True, kind="act", deps=set(seen) | set(zs))
                zs.add(n)
                inp += (Tensor.new([batch] + shape, Poly.atom(n), self.sc.dtype, dev,
                                   graph=frozenset([g]), owner="user:act", note=n),)
            for h in list(m.pre):
                if h.active and ip.call(h.fn, [self if self.root else m, inp]) is not None:
                    ip.event("hook-return")
            seen |= set(m.pnames.values())
            n = f"z_{m.name}({tag})"
            atom(n, live=True, kind="out", deps=set(seen) | set(zs))
            zs.add(n)
            z = Tensor.new([batch] + m.conf["_out"], Poly.atom(n), self.sc.dtype, dev,
                           graph=frozenset([g]), owner="user:act", note=n)
            for j, shape in enumerate(m.conf.get("_outs", ()), 1):
                n = f"z_{m.name}.{j}({tag})"
                atom(n, live=True, kind="out", deps=set(seen) | set(zs))
                zs.add(n)
                y = Tensor.new([batch] + shape, Poly.atom(n), self.sc.dtype, dev,
                               graph=frozenset([g]), owner="user:act", note=n)
                z = (z, y) if j == 1 else z + (y,)
            for h in list(m.post):
                if h.active and ip.call(h.fn, [self if self.root else m, inp, z]) is not None:
                    ip.event("hook-return")
        ip.maybe_fault("model, after its layers")
        n = f"out({tag})"
        atom(n, live=True, kind="out", deps=set(seen) | set(zs))
        axes = [batch] + [ax(d) for d in self.sc.out_dims]
        return T.finish(Tensor.new(axes, Poly.atom(n), self.sc.dtype, dev, graph=frozenset([g])))


def layers_of(sc, ip):
    """Layer list of a scenario; fills ``sc.model_params``."""
    out = []
    sc.layer_info = {}
    for name, kind, tensors, *rest in sc.net:
        opts = rest[0] if rest else {}
        T_ = [ax(d) for d in sc.Ts]
        if kind in ("Linear", "Other"):
            do, di = sc.dim(f"do_{name}", 2), sc.dim(f"di_{name}", 2)
            wax = [ax(do), ax(di)]
            conf = {"_in": T_ + [ax(di)], "_out": T_ + [ax(do)], "in_features": ip.ext.h_(di),
                    "out_features": ip.ext.h_(do)}
        else:
            do, ci, G = sc.dim(f"do_{name}", 2), sc.dim(f"ci_{name}", 2), sc.dim(f"g_{name}", 1)
            k = (sc.dim(f"k1_{name}"), sc.dim(f"k2_{name}"))
            s = (sc.dim(f"s1_{name}"), sc.dim(f"s2_{name}"))
            p = (sc.dim(f"p1_{name}", 0), sc.dim(f"p2_{name}", 0))
            d = (sc.dim(f"d1_{name}"), sc.dim(f"d2_{name}"))
            k, s, d = (tuple(map(P, opts[n])) if n in opts else v
                       for n, v in (("k", k), ("s", s), ("d", d)))  # concrete ones
            i = (sc.dim(f"i1_{name}"), sc.dim(f"i2_{name}"))
            h = ip.ext.h_
            if "padding" in opts:
                p = [ip.ext.plain_padding(opts["padding"], h(k[j]), h(s[j]), h(d[j]))
                     for j in (0, 1)]
            else:
                p = [h(p[j]) for j in (0, 1)]
            o = [ip.ext.conv_out(h(i[j]), h(k[j]), h(s[j]), p[j], h(d[j])) for j in (0, 1)]
            wax = [ax(do), ax(ci), ax(k[0]), ax(k[1])]
            G = G if opts.get("groups", True) else P(1)
            conf = {"_in": [(Seg(G * ci, None, [Seg(G), Seg(ci)]),), ax(i[0]), ax(i[1])],
                    "_out": [ax(do), ax(o[0]), ax(o[1])],
                    "kernel_size": tuple(map(h, k)), "stride": tuple(map(h, s)),
                    "padding": opts.get("padding") or tuple(p), "_p": tuple(p),
                    "dilation": tuple(map(h, d)),
                    "groups": dimval(G), "_o": o, "_g": G, "_k": k, "_i": i, "_ci": ci}
        ps = {}
        for slot, pn in tensors.items():
            if pn in sc.model_params:  # shared tensor
                ps[slot] = sc.model_params[pn]
                continue
            a = wax if slot == "weight" else [ax(do)]
            t = make_param(pn, [axsize(x) for x in a], sc.dtype, sc.pdev)
            sc.model_params[pn] = ps[slot] = t
        conf["_do"] = do
        # further inputs and outputs of the layer (one further axis each)
        conf["_ins"] = [conf["_in"] + [ax(sc.dim(f"in{j}_{name}", 2))]
                        for j in range(1, opts.get("ins", 1))]
        conf["_outs"] = [conf["_out"] + [ax(sc.dim(f"out{j}_{name}", 2))]
                         for j in range(1, opts.get("outs", 1))]
        m = Layer(None, name, kind, ps, conf)
        m.pnames = dict(tensors)
        out.append(m)
        sc.layer_info[name] = m
    return out
