"""Kronecker-factored approximation: factors, products, scalar functions and inverse."""

import ast
from itertools import product as cart

from .. import canon
from .. import judges as J
from .. import spec
from .. import tensorops as T
from ..ext import METHODS, _block_func, _eigh, _str, lin_func, id_poly
from ..poly import P, Poly, atom, info, jac
from ..report import Bad, Skip
from ..tensorops import power
from ..values import AbsRaise, LDict, LList, Seg, Tensor, ax, axsize
from . import check
from .products import product_judge

KF, KI = "KFACLinearOperator", "KFACInverseLinearOperator"
L1 = ("l1", "Linear", {"weight": "W1", "bias": "b1"})
L2 = ("l2", "Linear", {"weight": "W2", "bias": "b2"})
LX = ("lx", "Other", {"weight": "WX"})
C1 = ("c1", "Conv2d", {"weight": "W1", "bias": "b1"})
C1S = ("c1", "Conv2d", {"weight": "W1", "bias": "b1"}, {"groups": False})



def c1(**opts):
    """The convolution with other options."""
    return C1[:3] + (opts,)


ROOT = (("", "Linear", {"weight": "W1", "bias": "b1"}),)  # the network is one layer
ROOTC = (("", "Conv2d", {"weight": "W1", "bias": "b1"}),)
NESTED = (("body.l1", "Linear", {"weight": "W1", "bias": "b1"}), ("body.lx", "Other",
                                                                   {"weight": "WX"}),
          ("body.l2", "Linear", {"weight": "W2", "bias": "b2"}),
          ("head", "Linear", {"weight": "W3"}))
MLP, CNN, ONE = (L1, L2), (C1, L2), (L1,)
ALL = ("b1", "W2", "W1", "b2")
TYPES = ("mc", "empirical", "type-2", "forward-only")
LOSSES = ("MSELoss", "CrossEntropyLoss", "BCEWithLogitsLoss")


def cfg(net=MLP, params=ALL, **kw):
    """Scenario of the operator; ``kw`` mixes scenario options and its own arguments."""
    own = {k: kw.pop(k) for k in ("fisher_type", "kfac_approx", "separate_weight_and_bias",
                                  "mc_samples", "seed", "num_per_example_loss_terms") if k in kw}
    return dict(op=KF, net=net, params=params, kwargs=own, **kw)


def own(sc, name):
    return {"fisher_type": "mc", "kfac_approx": "expand", "separate_weight_and_bias": True,
            "mc_samples": 1, **(sc.kwargs or {})}[name]


def layers(sc):
    """{layer: {"weight": position, "bias": position}} of the layers with given parameters."""
    out = {}
    for name, m in sc.layer_info.items():
        pos = {s: sc.params.index(p) for s, p in m.pnames.items() if p in sc.params}
        if pos:
            out[name] = pos
    return out


def joint(sc, pos):
    return not own(sc, "separate_weight_and_bias") and len(pos) == 2


# ----------------------------------------------------------------------------- factors
def state(ip, op):
    return ip.call(ip.getattr(op, "state_dict"), [], {})


def product_then_state(ip, sc):
    op = sc.make(ip)
    ip.binop(ast.MatMult, op, sc.operand(ip))
    return state(ip, op)


def input_unit(sc, name, i):
    """Input of a layer for one batch (after patch extraction) and its shared-axis size."""
    first = next(iter(sc.layer_info)) == name
    m = sc.layer_info[name]
    if first:
        u = Poly.atom(f"x{i}")
    else:
        u = Poly.atom(atom(f"act_{name}(x{i})", live=True, kind="act")).detach()
    if m.kind == "Linear":
        return u, sc.T if sc.T is not None else P(1)
    c = m.conf
    o = c["_o"][0] * c["_o"][1]
    G = c["_g"]
    u = u.div(G)
    pad = c["_p"]
    key = (f"k=({P(c['kernel_size'][0])},{P(c['kernel_size'][1])}),"
           f"s=({P(c['stride'][0])},{P(c['stride'][1])}),p=({_str(pad[0])},{_str(pad[1])}),"
           f"d=({P(c['dilation'][0])},{P(c['dilation'][1])})")
    if own(sc, "kfac_approx") == "expand":
        return lin_func("unfold", u, key), o
    pat = Poly.num(1)
    for j in (0, 1):
        k = (f"i={c['_i'][j]},k={P(c['kernel_size'][j])},s={P(c['stride'][j])},"
             f"p={_str(pad[j])},d={P(c['dilation'][j])}")
        pat = pat * Poly.atom(atom(f"pattern({k})", kind="pattern"))
    return pat * u, o


def want_input(sc, name, i, j):
    """Block (i, j) of the documented input-based factor."""
    N = P(sc.num_data) if sc.num_data is not None else sc.N
    reduce = own(sc, "kfac_approx") == "reduce"
    r = Poly()
    for b in range(sc.nbatch):
        a, s = input_unit(sc, name, b)
        if (i, j) == (1, 1):
            r = r + sc.Bs[b].div(N)
        elif (i, j) == (0, 0):
            r = r + (a * a).div(N * s * s if reduce else N * s)
        else:
            r = r + a.div(N * s)
    return r


def want_gradient(sc, name):
    if own(sc, "fisher_type") == "forward-only":
        return id_poly()
    c = spec.loss_coeff(sc)
    r = Poly()
    for i in range(sc.nbatch):
        n = spec.out_unit(i, sc)
        z = f"z_{name}(x{i})"
        g = spec.batch_loss(sc, i).derivative(n)
        h = g * g if own(sc, "fisher_type") == "empirical" else g.derivative(n)
        r = r + c * h * jac(n, z) * jac(n, z)
    return r.detach()


def root_rules(p, ce):
    """Square roots of the loss Hessian: contraction over the columns of the root.

    diag(u)^2 -> u^2 (diagonal) and, for softmax probabilities p (which sum to one),
    diag(sqrt p) p sqrt(p)^T -> p p^T and p sqrt(p)^T sqrt(p) p^T -> p p^T.
    """
    r = Poly()
    for m, c in p.terms.items():
        t = Poly.num(c)
        d = [(a, e) for a, e in m if info(a).fname == "diag"]
        soft = [(a, e) for a, e in m if info(a).fname == "softmax"]
        rest = tuple(x for x in m if x not in d and x not in soft)
        if any(a == "Id" for a, _ in rest):
            if ce or dict(rest)["Id"] != 2:
                raise Skip("identity in the loss Hessian")
            rest = tuple(x for x in rest if x[0] != "Id")
        t = Poly({rest: c})
        if not ce:
            for a, e in d:
                if e != 2:
                    raise Skip("diagonal root")
                t = t * info(a).args[0].pow(2)
            for a, e in soft:
                t = t * Poly({((a, e),): 1})
        else:
            d, soft = dict(d), dict(soft)
            if len(d) > 1 or len(soft) > 1:
                raise Skip("root of the loss Hessian")
            if d:
                (a, e), = d.items()
                u = info(a).args[0]
                if e == 2 and not soft:
                    t = t * Poly.func("diag", u.pow(2))
                elif e == 1 and soft:
                    (s, k), = soft.items()
                    if float(k) != 1.5 or not u.same(Poly({((s, k / 3),): 1})):
                        raise Skip("root of the loss Hessian")
                    t = t * Poly({((s, 2),): 1})
                else:
                    raise Skip("root of the loss Hessian")
            elif soft:
                (s, k), = soft.items()
                if float(k) not in (3.0,):
                    raise Skip("root of the loss Hessian")
                t = t * Poly({((s, 2),): 1})
        r = r + t
    return r


FUNCS = canon.KNOWN_FUNCS | {"unfold", "tr", "det", "logdet", "pow", "inv", "eigvals", "eigvecs",
                             "eig", "max", "min"}


def known_units(p):
    """Units of a factor that the rules interpret; ``None`` if there are others."""
    out = []
    for a in p.atoms():
        i = info(a)
        if i.kind in ("pick", "select", "uninit"):
            out.append(a)
        elif i.fname and i.fname not in FUNCS and not (
            i.fname[:1] == "D" and i.fname[1:2].isdigit()
        ):
            out.append(a)
        elif i.kind == "composite":
            out += known_units(i.args[0])
    return out


def equal(got, want, what, box):
    g = canon.merge(got.detach())
    if g.equiv(want):
        return
    unk = known_units(g)
    if unk:
        raise Skip(f"{what}: unknown units {unk[:2]}")
    raise Bad(f"{what}: got {J.short(g)}, documented {J.short(want)}", J.where(box))


def factor_meta(sc, t, what):
    J.tensor_meta(t, sc.dtype, sc.pdev, what)
    if t.ndim != 2:
        raise Bad(f"{what} has {t.ndim} dimensions", J.first_where(t))


def factors_judge(p, sc):
    sd = p.value
    for key, side in (("input_covariances", "A"), ("gradient_covariances", "B")):
        got = sd[key]
        want = {n for n, pos in layers(sc).items() if side == "B" or "weight" in pos}
        if set(got) != want:
            raise Bad(f"factors {key} exist for layers {sorted(got)} instead of {sorted(want)}")
    for name, pos in layers(sc).items():
        if "weight" in pos:
            t = sd["input_covariances"][name]
            what = f"input factor of {name}"
            factor_meta(sc, t, what)
            din = Poly.num(1)
            for a in sc.layer_info[name].params["weight"].axes[1:]:
                din = din * axsize(a)
            jt = joint(sc, pos)
            for k in (0, 1):
                if not axsize(t.axes[k]).equiv(din + 1 if jt else din):
                    raise Bad(f"{what} has size {axsize(t.axes[k])}", J.first_where(t))
            if jt and len(t.axes[0]) != 2:
                raise Skip("blocks of the joint factor")
            for (i, j), b in t.cells.items():
                equal(b.get(), want_input(sc, name, i, j), f"{what}, block {i}{j}", b)
        t = sd["gradient_covariances"][name]
        what = f"gradient factor of {name}"
        factor_meta(sc, t, what)
        do = sc.layer_info[name].conf["_do"]
        if not (axsize(t.axes[0]).equiv(do) and axsize(t.axes[1]).equiv(do)):
            raise Bad(f"{what} has size {axsize(t.axes[0])}", J.first_where(t))
        ce = sc.loss == "CrossEntropyLoss"
        for b in t.cells.values():
            g = canon.merge(b.get().detach())
            if own(sc, "fisher_type") == "mc":
                try:
                    g = canon.expect(g)
                except canon.Undecided as e:
                    raise Skip(str(e)) from None
            if own(sc, "fisher_type") == "type-2":
                g = root_rules(g, ce)
            equal(g, want_gradient(sc, name), what, b)


def sharing_judge(p, sc):
    """Weight sharing: expand sums outer products over shared positions, reduce sums first."""
    if own(sc, "fisher_type") == "forward-only":
        return
    for name in layers(sc):
        m = sc.layer_info[name]
        seen = 0
        shared = m.conf["_o"][0] * m.conf["_o"][1] if m.kind == "Conv2d" else (
            sc.T if sc.T is not None else P(1))
        for e in p.events:
            if e.kind != "selfprod":
                continue
            zs = [f"dz_{name}(x{i})" for i in range(sc.nbatch)]
            hit = [i for i, z in enumerate(zs)
                   if any(z in a.replace("/", "") for a in e.data["unit"].atoms())]
            if len(hit) != 1:
                continue
            seen += 1
            want = sc.Bs[hit[0]]
            if own(sc, "kfac_approx") == "expand":
                want = want * shared
            if not e.data["size"].equiv(want):
                raise Bad(f"gradients of layer {name} enter the factor as {e.data['size']} outer "
                          f"products per batch, documented {want}", e.loc)
        if not seen:
            raise Skip("no outer products of gradients found")


def factor_uses(thorough):
    out = []
    for ft, loss, red, ex in cart(TYPES, LOSSES, ("mean", "sum"), (True, False)):
        if not thorough and ex and red == "sum":
            continue
        out.append(cfg(fisher_type=ft, loss=loss, reduction=red, extra=ex, nbatch=2,
                       minB=2 if ft == "type-2" else 1))
    for ap, jt, ft in cart(("expand", "reduce"), (True, False), ("mc", "empirical")):
        for net in (MLP, CNN, (C1S, L2)):
            out.append(cfg(net=net, fisher_type=ft, kfac_approx=ap, extra=net is MLP,
                           separate_weight_and_bias=not jt, nbatch=2))
    base = dict(fisher_type="empirical", nbatch=2)
    for v in (dict(num_data=100, num_per_example_loss_terms=1, extra=False), dict(nbatch=3),
              dict(nbatch=1), dict(nbatch=8, net=ONE, params=("W1", "b1")), dict(dict_input=True), dict(params=("W1",)), dict(params=("b2",)),
              dict(params=("W2", "W1")), dict(params=("b2", "b1", "W2")), dict(dtype="float32"),
              dict(pdev="cuda", ddev="cpu"), dict(pdev="cuda", ddev="cuda"), dict(check=True),
              dict(order=lambda k: [1, 0] if k % 2 else [0, 1]), dict(progressbar=True),
              dict(net=(L1, LX, L2)), dict(net=(LX, L1), params=("W1", "b1")),
              dict(equal=True), dict(fisher_type="mc", mc_samples=3), dict(form="flat"),
              dict(fisher_type="mc", mc_samples=2, reduction="sum", loss="CrossEntropyLoss"),
              dict(fisher_type="mc", mc_samples=4, loss="BCEWithLogitsLoss"),
              dict(fisher_type="forward-only", params=("b2", "W1")),
              dict(separate_weight_and_bias=False, params=("b2", "W1", "W2"))):
        out.append(cfg(**{**base, **v}))
    for ft, jt in cart(TYPES, (True, False)):
        for net, ps in ((ROOT, ("b1", "W1")), (ROOTC, ("W1", "b1")),
                        (NESTED, ("b2", "W3", "W1", "b1")), (NESTED, ("b1", "W2", "b2", "W3"))):
            out.append(cfg(net=net, params=ps, fisher_type=ft, separate_weight_and_bias=not jt,
                           extra=False, nbatch=2, minB=2 if ft == "type-2" else 1))
    for ft, loss in cart(TYPES, LOSSES):
        for v in (dict(extra=2), dict(ones=("C",), extra=False), dict(ones=("C",))):
            out.append(cfg(fisher_type=ft, loss=loss, nbatch=2, mc_samples=2 if ft == "mc" else 1,
                           minB=2 if ft == "type-2" else 1, **v))
    for ps in (("b1", "W2"), ("b2", "b1"), ("b1",), ("W2", "b1", "b2")):
        for ft in TYPES:
            out.append(cfg(params=ps, fisher_type=ft, nbatch=2, minB=2 if ft == "type-2" else 1))
    for ap, jt in cart(("expand", "reduce"), (True, False)):
        out.append(cfg(extra=2, kfac_approx=ap, separate_weight_and_bias=jt, **base))
        for v in (dict(padding="same", k=(3, 5), s=(1, 1), d=(1, 1)),
                  dict(padding="same", k=(2, 4), s=(1, 1), d=(2, 2)),
                  dict(padding="same", k=(1, 1), s=(1, 1), d=(1, 3)), dict(padding="valid")):
            out.append(cfg(net=(c1(**v), L2), kfac_approx=ap, separate_weight_and_bias=jt,
                           extra=False, **base))
    for ks in ((2, 3), (3, 2), (4, 2)):  # unequal padding of the two sides
        out.append(cfg(net=(c1(padding="same", k=ks, s=(1, 1), d=(1, 1)), L2),
                       kfac_approx="reduce", extra=False, **base))
    if thorough:
        for ap, jt, ft, loss, red, net in cart(("expand", "reduce"), (True, False), TYPES, LOSSES,
                                               ("mean", "sum"), (MLP, CNN)):
            out.append(cfg(net=net, fisher_type=ft, kfac_approx=ap, loss=loss, reduction=red,
                           extra=net is MLP and not jt, separate_weight_and_bias=not jt,
                           nbatch=2, minB=2 if ft == "type-2" else 1))
    return out


@check("C08")
def factors(c):
    for u in factor_uses(c.thorough):
        c.cases(label(u), u, product_then_state, [("kronecker-factors", factors_judge),
                                                  ("weight-sharing", sharing_judge)])


def label(u):
    d = {k: v for k, v in u.items() if k not in ("op", "net", "kwargs")}
    d.update(u.get("kwargs") or {})
    return ", ".join([f"net={'-'.join(x[1] for x in u['net'])}"] + [f"{k}={v}" for k, v in
                                                                   d.items()])


# ------------------------------------------------------------------- given factors
def given_factors(ip, sc):
    """Atomic Kronecker factors, as a state dict would contain them."""
    A, B = LDict(), LDict()
    for name, pos in layers(sc).items():
        m = sc.layer_info[name]
        w = m.params.get("weight")
        if "weight" in pos:
            din = Poly.num(1)
            for a in w.axes[1:]:
                din = din * axsize(a)
            fac = [Seg(axsize(a)) for a in w.axes[1:]]
            row = Seg(din, None, fac) if len(fac) > 1 else Seg(din)
            if joint(sc, pos):
                axs = [(row, Seg(1))] * 2
                pol = {(i, j): Poly.atom(f"A_{name}.{min(i, j)}{max(i, j)}") for i in (0, 1)
                       for j in (0, 1)}
            else:
                axs, pol = [(row,)] * 2, Poly.atom(f"A_{name}")
            A[name] = Tensor.new(axs, pol, sc.dtype, sc.pdev)
        do = m.conf["_do"]
        B[name] = Tensor.new([ax(do)] * 2, Poly.atom(f"B_{name}"), sc.dtype, sc.pdev)
    return A, B


def with_factors(ip, sc):
    op = sc.make(ip)
    sd = state(ip, op)
    sd["input_covariances"], sd["gradient_covariances"] = given_factors(ip, sc)
    sc.A, sc.B = sd["input_covariances"], sd["gradient_covariances"]
    ip.call(ip.getattr(op, "load_state_dict"), [sd], {})
    return op


def slots(sc):
    """position -> (layer, slot)"""
    return {k: (n, s) for n, pos in layers(sc).items() for s, k in pos.items()}


def kron(sc, j, q, A, B):
    """Block (j, q) of the block-diagonal Kronecker matrix with the given factors."""
    (lj, sj), (lq, sq) = slots(sc)[j], slots(sc)[q]
    if lj != lq:
        return Poly()
    pos = layers(sc)[lj]
    b = B[lj].polys()[0, 0]
    if joint(sc, pos):
        ix = {"weight": 0, "bias": 1}
        a = A[lj].polys()
        return b * a[ix[sj], ix[sq]]
    if sj != sq:
        return Poly()
    return b * A[lj].polys()[0, 0] if sj == "weight" else b


def kfac_coeff(sc, j, q):
    return kron(sc, j, q, sc.A, sc.B)


def given_uses(thorough):
    out = []
    for net, jt in cart((ONE, MLP, CNN), (True, False)):
        for params in (("W1", "b1"), ("b1", "W1"), ("W1",), ("b1",)) + (
                (ALL, ("W2", "b1"), ("b2", "b1", "W2")) if len(net) > 1 else ()):
            out.append(cfg(net=net, params=params, separate_weight_and_bias=not jt, extra=False,
                           fisher_type="empirical", nbatch=1))
    for jt, (net, ps) in cart((True, False), (
            (ROOT, ("b1", "W1")), (ROOTC, ("W1", "b1")), (NESTED, ("b2", "W3", "W2", "b1")))):
        out.append(cfg(net=net, params=ps, separate_weight_and_bias=not jt, extra=False,
                       fisher_type="empirical", nbatch=1))
    for form in ("flat", "flat-vec", "list-vec"):
        for jt in (True, False):
            out.append(cfg(net=CNN, form=form, separate_weight_and_bias=not jt, extra=False,
                           fisher_type="empirical", nbatch=1))
    for v in (dict(K=1), dict(dtype="float32"), dict(pdev="cuda"), dict(K=1, form="flat"),
              dict(K=130)):
        for jt in (True, False):
            out.append(cfg(separate_weight_and_bias=not jt, extra=False, nbatch=1,
                           fisher_type="empirical", **v))
    return out


def matmul_with_factors(ip, sc):
    return ip.binop(ast.MatMult, with_factors(ip, sc), sc.operand(ip))


def matmul_and_state(ip, sc):
    """Product with the factors the operator computes itself (read afterwards)."""
    op = sc.make(ip)
    r = ip.binop(ast.MatMult, op, sc.operand(ip))
    sd = state(ip, op)
    sc.A, sc.B = sd["input_covariances"], sd["gradient_covariances"]
    return r


@check("C09")
def products(c):
    judge = product_judge(kfac_coeff, funcs=FUNCS)
    for u in given_uses(c.thorough):
        c.run("kronecker-product", u, matmul_with_factors, judge, label=label(u))
    for jt, ft in cart((True, False), ("mc", "empirical", "forward-only")):
        u = cfg(net=ONE, params=("b1", "W1"), separate_weight_and_bias=not jt, extra=False,
                fisher_type=ft, nbatch=1, K=2)
        c.run("own-factors", u, matmul_and_state, own_judge, label=label(u))


def own_judge(p, sc):
    def raw(t):
        return {n: x.like(x.axes, x.polys()) for n, x in t.items()}
    sc.A, sc.B = raw(sc.A), raw(sc.B)
    product_judge(kfac_coeff, funcs=FUNCS | {"binomial"})(p, sc)


# --------------------------------------------------------------- trace, det, logdet, norm
def scalars(order, twice=False):
    def body(ip, sc):
        op = with_factors(ip, sc)
        out = {}
        for n in order:
            out[n] = ip.getattr(op, n)
        if twice:
            for n in order:
                again = ip.getattr(op, n)
                out[n + "#2"] = again
        return out
    return body


def want_scalar(sc, name):
    ip = sc.ip
    r = Poly.num(1) if name == "det" else Poly()

    def val(f, t):
        return METHODS[f](ip, t).polys()[()]

    def sq(t):
        s = Poly()
        for p in t.polys().values():
            s = s + p * p
        return s

    def ppow(p, n):
        t = Tensor.new([], {(): p}, sc.dtype, sc.pdev)
        return power(t, n).polys()[()]

    for layer, pos in layers(sc).items():
        B = sc.B[layer]
        m = axsize(B.axes[0])
        factors = []
        if joint(sc, pos):
            factors = [sc.A[layer]]
        else:
            if "weight" in pos:
                factors.append(sc.A[layer])
            if "bias" in pos:
                factors.append(None)
        for A in factors:
            n = P(1) if A is None else axsize(A.axes[0])
            if name == "trace":
                r = r + val("trace", B) * (val("trace", A) if A is not None else 1)
            elif name == "logdet":
                r = r + n * val("logdet", B)
                if A is not None:
                    r = r + m * val("logdet", A)
            elif name == "det":
                from ..values import dimval
                r = r * ppow(val("det", B), dimval(n))
                if A is not None:
                    r = r * ppow(val("det", A), dimval(m))
            else:
                r = r + sq(B) * (sq(A) if A is not None else 1)
    return r.pow(P("1/2") if False else __import__("fractions").Fraction(1, 2)) \
        if name == "frobenius_norm" else r


OWN_FUNCS = {"trace": {"tr"}, "det": {"det", "pow"}, "logdet": {"logdet"}, "frobenius_norm": set()}


def scalar_judge(p, sc):
    for key, t in p.value.items():
        name = key.split("#")[0]
        if not isinstance(t, Tensor):
            raise Bad(f"{name} is not a tensor ({t!r})")
        if t.ndim:
            raise Bad(f"{name} has {t.ndim} dimensions", J.first_where(t))
        (b,) = t.cells.values()
        J.same_poly(b.get(), want_scalar(sc, name), key, b, funcs=OWN_FUNCS[name])
        J.tensor_meta(t, sc.dtype, sc.pdev, name)


NAMES = ("trace", "det", "logdet", "frobenius_norm")


@check("C10")
def scalar_functions(c):
    for u in given_uses(c.thorough):
        if u.get("form"):
            continue
        for n in NAMES:
            c.run(n, u, scalars((n,)), scalar_judge, label=label(u))
    for jt in (True, False):
        u = cfg(net=CNN, separate_weight_and_bias=not jt, extra=False, nbatch=1,
                fisher_type="empirical")
        c.run("repeated-and-mixed", u, scalars(NAMES, True), scalar_judge, label=label(u))
        c.run("repeated-and-mixed", u, scalars(NAMES[::-1], True), scalar_judge, label=label(u))


# ---------------------------------------------------------------------------- inverse
def inverse_body(twice=False, **kw):
    def body(ip, sc):
        op = with_factors(ip, sc)
        sc.kfac = op
        inv = ip.call(ip.get(f"curvlinops:{KI}"), [op], dict(kw))
        r = ip.binop(ast.MatMult, inv, sc.operand(ip))
        if twice:
            r = ip.binop(ast.MatMult, inv, sc.operand(ip))
        return r
    return body


def inverse_after_fault(**kw):
    """Product with the inverse after one that a numerical routine may have failed in."""
    def body(ip, sc):
        op = with_factors(ip, sc)
        sc.kfac = op
        inv = ip.call(ip.get(f"curvlinops:{KI}"), [op], dict(kw))
        ip.faults_left = 1
        try:
            ip.binop(ast.MatMult, inv, sc.operand(ip))
        except AbsRaise:
            pass
        ip.faults_left = 0
        return ip.binop(ast.MatMult, inv, sc.operand(ip))
    return body


def cholesky_retry(**kw):
    """Product with the inverse; the first Cholesky decomposition of some factor may fail."""
    def body(ip, sc):
        op = with_factors(ip, sc)
        sc.kfac = op
        inv = ip.call(ip.get(f"curvlinops:{KI}"), [op], dict(kw))
        ip.faults_left = 1
        ip.state["fault_only"] = ("cholesky",)
        return ip.binop(ast.MatMult, inv, sc.operand(ip))
    return body


def retry_judge(retries, options):
    """A decomposition that fails in low precision is repeated in double precision, if wanted."""
    inner = inverse_judge(options=options)

    def judge(p, sc):
        failed = [e for e in p.events if e.kind == "fault"]
        if failed and not retries:
            if p.outcome == "return":
                raise Bad("a failing decomposition goes unnoticed", failed[0].loc)
            return
        if p.outcome != "return":
            raise Bad("a decomposition that fails is not repeated in double precision",
                      failed and failed[0].loc)
        inner(p, sc)
        if failed:
            later = [e for e in p.events if e.kind == "decomposed"
                     and p.events.index(e) > p.events.index(failed[0])]
            if not later or later[0].data["dtype"] != "float64":
                raise Bad("the decomposition is not repeated in double precision",
                          failed[0].loc)
    return judge


def damped_inverse(t, lam):
    n = axsize(t.axes[0])
    eye = Tensor.new([ax(n), ax(n)], id_poly(), t.dtype, t.device)
    M = T.add(t, T.mul(eye, lam))
    return _block_func(M, "inv", symmetric=True)


def inverse_want(sc, exact, pair=None, damping=None):
    """coefficient function (sc, j, q) of the damped inverse"""
    if not exact:
        A = {n: damped_inverse(t, pair(sc, n, t, sc.B[n])[0]) for n, t in sc.A.items()}
        B = {n: damped_inverse(t, pair(sc, n, sc.A.get(n), t)[1]) for n, t in sc.B.items()}
        return lambda sc, j, q: kron(sc, j, q, A, B)
    EA = {n: _eigh(sc.ip, t) for n, t in sc.A.items()}
    EB = {n: _eigh(sc.ip, t) for n, t in sc.B.items()}

    def coeff(sc, j, q):
        (lj, sj), (lq, sq) = slots(sc)[j], slots(sc)[q]
        if lj != lq:
            return Poly()
        vb, Qb = EB[lj][0].polys()[0,], EB[lj][1].polys()[0, 0]
        pos = layers(sc)[lj]
        ix = {"weight": 0, "bias": 1}
        if joint(sc, pos):
            va, Qa = EA[lj][0].polys()[0,], EA[lj][1].polys()
            d = Poly.num(1).div(va * vb + P(damping))
            return d * Qb * Qb * Qa[ix[sj], 0] * Qa[ix[sq], 0]
        if sj != sq:
            return Poly()
        if sj == "bias":
            return Poly.num(1).div(vb + P(damping)) * Qb * Qb
        va, Qa = EA[lj][0].polys()[0,], EA[lj][1].polys()[0, 0]
        return Poly.num(1).div(va * vb + P(damping)) * Qb * Qb * Qa * Qa
    return coeff


def plain(damping):
    a, b = damping if isinstance(damping, tuple) else (damping, damping)
    return lambda sc, n, A, B: (a, b)


def heuristic(damping, floor):
    from ..ext import call_builtin

    def f(sc, n, A, B):
        if A is None:
            return (damping, damping)
        ip = sc.ip

        def mean(t):
            return T.div(METHODS["trace"](ip, t), t.shape[0])

        s = power(T.div(mean(A), mean(B)), 0.5)
        root = damping ** 0.5
        return (call_builtin(ip, max, [T.mul(s, root), floor], {}),
                call_builtin(ip, max, [T.div(root, s), floor], {}))
    return f


def factors_in(p, name):
    """Which factors of a layer occur in a polynomial ("A", "B")."""
    out, todo = set(), list(p.atoms())
    while todo:
        a = todo.pop()
        i = info(a)
        for s in "AB":
            if f"{a}.".startswith(f"{s}_{name}."):
                out.add(s)
        todo += [b for x in i.args if isinstance(x, Poly) for b in x.atoms()]
    return out


def not_applicable(p, name):
    """Plain damping instead of the heuristic: only where a factor's mean eigenvalue is not
    positive (then the heuristic is undefined)."""
    rel = [(d, v) for d, v in p.ip.state.get("signs", ()) if factors_in(d, name)]
    for d, v in rel:
        if len(factors_in(d, name)) == 1 and v <= 0:
            return
    if not rel:
        raise Skip("the condition for the heuristic is unknown")
    for d, v in rel:
        by = [(c, factors_in(Poly({m: 1}), name)) for m, c in d.terms.items()]
        one = [c for c, f in by if len(f) == 1]
        if len(factors_in(d, name)) == 2 and not (len(one) == len(by) and min(one) < 0 < max(one)):
            raise Skip("the condition for the heuristic is unknown")
    raise Bad("the heuristic is not applied although both factors have positive traces",
              "curvlinops/inverse.py (KFACInverseLinearOperator)")


def inverse_judge(exact=False, damping=None, options=()):
    """``options``: documented damping values, the first must be used on some path."""
    def judge(p, sc):
        if exact:
            for e in p.events:
                if e.kind == "eigen-role":
                    raise Bad(f"contracts eigenvector {e.data['roles'][0]} index with "
                              f"{e.data['roles'][1]}", e.loc)
            product_judge(inverse_want(sc, True, damping=damping), funcs=FUNCS)(p, sc)
            return
        bad = None
        names = list(layers(sc))
        for ks in cart(range(len(options)), repeat=len(names)):
            which = dict(zip(names, ks))
            try:
                product_judge(inverse_want(
                    sc, False, lambda sc, n, A, B: options[which[n]](sc, n, A, B)),
                    funcs=FUNCS)(p, sc)
                sc.used = ks
                return
            except Bad as e:
                bad = bad or e
        raise bad
    return judge


@check("C11")
def inverse(c):
    for u in given_uses(c.thorough):
        for kw in (dict(damping=0.25), dict(damping=(0.5, 0.125)), dict(damping=(0.125, 0.5))):
            c.run("damped-inverse", u, inverse_body(**kw),
                  inverse_judge(options=[plain(kw["damping"])]), label=f"{label(u)}, {kw}")
        kw = dict(damping=0.25, use_exact_damping=True)
        c.run("exact-damping", u, inverse_body(**kw), inverse_judge(True, 0.25),
              label=f"{label(u)}, {kw}")
        if u.get("form"):
            continue
        for floor in (1e-8, 0.5):
            kw = dict(damping=0.25, use_heuristic_damping=True, min_damping=floor)
            used = set()

            def judge(p, sc, floor=floor, used=used):
                inverse_judge(options=[heuristic(0.25, floor), plain(0.25)])(p, sc)
                used.update(sc.used)
                for n, k in zip(layers(sc), sc.used):
                    if k == 1 and n in sc.A:
                        not_applicable(p, n)

            def after(used=used):
                if used == {1}:
                    raise Bad("the heuristic is never applied",
                              "curvlinops/inverse.py (KFACInverseLinearOperator)")

            judge.after = after
            c.run("heuristic-damping", u, inverse_body(**kw), judge, label=f"{label(u)}, {kw}")
    for jt, cache in cart((True, False), (True, False)):
        u = cfg(separate_weight_and_bias=not jt, extra=False, nbatch=1, fisher_type="empirical")
        kw = dict(damping=0.25, cache=cache)
        c.run("repeated-product", u, inverse_body(True, **kw),
              inverse_judge(options=[plain(0.25)]), label=f"{label(u)}, {kw}")
        kw = dict(damping=0.25, cache=cache, use_exact_damping=True)
        c.run("repeated-product", u, inverse_body(True, **kw), inverse_judge(True, 0.25),
              label=f"{label(u)}, {kw}")
        for dt, retry in cart(("float32", "float64"), (True, False, None)):
            for kw, options in (
                (dict(damping=0.25, cache=cache), [plain(0.25)]),
                (dict(damping=(0.5, 0.125), cache=cache), [plain((0.5, 0.125))]),
                (dict(damping=0.25, cache=cache, use_heuristic_damping=True, min_damping=1e-8),
                 [heuristic(0.25, 1e-8), plain(0.25)]),
            ):
                if retry is not None:
                    kw["retry_double_precision"] = retry
                u = cfg(separate_weight_and_bias=not jt, extra=False, nbatch=1, dtype=dt,
                        fisher_type="empirical")
                judge = retry_judge(dt == "float32" and retry is not False, options)
                c.cases(f"{label(u)}, {kw}", u, cholesky_retry(**kw),
                        [("retry-in-double-precision", judge)], judge)
