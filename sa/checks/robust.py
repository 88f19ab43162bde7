"""Determinism check, rejected uses, serialization."""

import ast
from itertools import product as cart

from .. import judges as J
from .. import tensorops as T
from ..interp import bind
from ..poly import P, Poly, atom
from ..report import SOFT, Bad, Skip, exc_name, exc_text, raised_by_library
from ..user import NoAttr, UserLinOp, sym
from ..values import (CPU, DType, LDict, LList, Opaque, Seg, Sym, Tensor, TypeErr, ax, axsize)
from . import check
from .arrays import F64, arr, meth, mul, new
from .effects import (calls, fault_name, model_judge, product_on, same_value, uses_of, valid)
from .jacobian import JA, TJ
from .kfac import (ALL, C1, CNN, KF, KI, L1, L2, LX, MLP, NAMES, ONE, c1, cfg, factors_judge, label,
                   scalar_judge, state)
from .linop import AH, make, name_of, scenarios
from .products import E, F, G, H

ALLOPS = (H, G, E, F, JA, TJ, KF, AH)


def expect(p, names, what):
    """The use ends with one of the exceptions."""
    if p.outcome == "return":
        raise Bad(f"{what} is accepted", None)
    v = p.value
    if exc_name(v) in names:
        return
    if isinstance(v, SOFT) and not isinstance(v, (NoAttr, TypeErr)) and not raised_by_library(p):
        raise Skip(f"{exc_name(v)}: {exc_text(v)}")
    raise Bad(f"{what} fails with {exc_name(v)} ({exc_text(v)[:80]}) instead of "
              f"{' or '.join(names)}", p.note)


def rejected(c, rule, lab, u, body, names=("ValueError",), what=None, max_paths=64):
    def judge(p, sc):
        if what in EQUAL_IF and any(
                k[0] == "sign" and v == 0 for k, v in p.ip.memo.items() if isinstance(k, tuple)):
            return
        expect(p, names, what or lab)
        if sc is not None:
            model_judge(p, sc)
    c.cases(lab, u, body, [(rule, judge)], judge, max_paths)


# ------------------------------------------------------------------- determinism check
def base(op, **kw):
    if op == KF:
        own = dict(fisher_type="empirical")
        own.update(kw.pop("kwargs", {}))
        return cfg(nbatch=kw.pop("nbatch", 2), **own, **kw)
    if op == AH:
        return dict(op=AH, net=MLP, params=ALL, nbatch=1, loss="CrossEntropyLoss",
                    activation=("l1", "output", 0), **{k: v for k, v in kw.items()
                                                       if k != "nbatch"})
    return dict(op=op, loss=None if op in (JA, TJ) else kw.pop("loss", "MSELoss"),
                nbatch=kw.pop("nbatch", 2), **kw)


def deviating(kind, k, only=None):
    """Construct with the check while the user's objects deviate once, at the ``k``-th use."""
    def body(ip, sc):
        sc.check = False
        sc.make(ip)
        st = ip.state
        n0, p0 = sc.model.calls, sc.data.passes
        l0, g0 = st.get("loss-calls", -1), st.get("grad-calls", -1)
        first = len(ip.events)
        sc.model.calls = sc.data.passes = 0
        st["loss-calls"] = st["grad-calls"] = -1
        sc.check, sc.reached = True, lambda: False
        if kind == "model":
            sc.nondet_at = {n0 + k}
            sc.reached = lambda: sc.model.calls > n0 + k
        elif kind == "loss":
            sc.loss_obj.noise = {l0 + 1 + k}
            sc.reached = lambda: st["loss-calls"] >= l0 + 1 + k
        elif kind == "gradient":
            st["noise_grad"] = {g0 + 1 + k: only}  # None: with respect to all parameters
            sc.reached = lambda: st["grad-calls"] >= g0 + 1 + k
        elif kind == "order":
            n = sc.nbatch
            sc.data.order = lambda i: ([1, 0] + list(range(2, n))) if i == p0 + k else range(n)
            sc.reached = lambda: sc.data.passes > p0 + k
        else:
            which, batch = kind
            fresh = sc.data.fresh
            sc.data.fresh = lambda i, j, X, y: fresh(
                0 if (i, j) == (p0 + k, batch) else 1, j, X, y)
            sc.reached = lambda: sc.data.passes > p0 + k
        del ip.events[:first]
        op = sc.make(ip)
        return op
    return body


def caught(what):
    def judge(p, sc):
        if p.outcome == "return":
            if sc.reached():
                raise Bad(f"{what} goes unnoticed", "curvlinops/_torch_base.py "
                          "(_check_deterministic)")
            return
        expect(p, ("RuntimeError",), what)
        for e in p.events:  # the deviations are arbitrarily small ones above the tolerance
            if e.kind == "compared" and not e.data["same"]:
                for t in e.data["tol"]:
                    if not isinstance(t, (int, float)):
                        raise Skip("tolerance")
                    if not 0 <= t <= 1e-3:
                        raise Bad(f"{what} is only noticed above the tolerance {t}", e.loc)
        model_judge(p, sc)
    return judge


@check("C29")
def determinism(c):
    for op in ALLOPS:
        nb = 1 if op == AH else 2
        vs = [{}, dict(pdev="cuda")]
        if op in (H, G, E, F):
            vs += [dict(loss="CrossEntropyLoss"), dict(loss="BCEWithLogitsLoss", reduction="sum")]
        if op not in (AH,):
            vs.append(dict(dict_input=True))
        vs += [dict(dtype="float32")] + ([dict(dtype="float16")] if op in (H, G, E, JA) else [])
        for v in vs:
            u = base(op, **v)
            n = 2 * nb if op == KF else 4 * nb
            for k in range(n):
                j = caught(f"a model evaluation that deviates (number {k} of the check)")
                c.cases(f"{op}, {v}, model call {k}", u, deviating("model", k),
                        [("model-deviation", j)], j)
            passes = 2 if op == KF else 4
            kinds = [("x", b) for b in range(nb)] + [("y", b) for b in range(nb)]
            if v.get("dict_input"):
                kinds = [("dict", b) for b in range(nb)]
                if op in (JA, TJ, F):  # compare the data themselves
                    kinds += [(n, b) for b in range(nb) for n in ("dict-ids", "dict-mask")]
            for kind in kinds:
                for k in range(2 if kind[0] in ("y", "dict-ids", "dict-mask") else passes):
                    j = caught(f"data ({kind[0]} of batch {kind[1]}) that deviates in pass {k}")
                    w = {**u, "nondet_data": (kind[0], 0, kind[1])}
                    c.cases(f"{op}, {v}, {kind}, pass {k}", w, deviating(kind, k),
                            [("data-deviation", j)], j)
            if op in (JA, TJ, F):
                for k in range(4):
                    j = caught(f"an order of the data that deviates in pass {k}")
                    c.cases(f"{op}, {v}, order, pass {k}", u, deviating("order", k),
                            [("order-deviation", j)], j)
            if op not in (JA, TJ):
                for kind in ("loss", "gradient"):
                    for k in range(2 * nb):
                        j = caught(f"a {kind} that deviates (number {k} of the check)")
                        c.cases(f"{op}, {v}, {kind} {k}", u, deviating(kind, k),
                                [(f"{kind}-deviation", j)], j)
                for pos in range(3 if op in (H, G, E, F) else 2 if op == KF else 0):
                    j = caught(f"a gradient that deviates for parameter {pos} only")
                    c.cases(f"{op}, {v}, gradient of parameter {pos}", u,
                            deviating("gradient", nb, (pos,)), [("gradient-deviation", j)], j)
    # no false alarm, and no effort without the check
    for pid, (lab, u, body, raises, mp) in uses_of(c, ("C01", "C02", "C03", "C04", "C05", "C08",
                                                       "C19")):
        u = valid(dict(u, check=True))
        if u.get("pdev") and u.get("module") is False:
            continue
        c.cases(f"{pid}: {lab}, check=True", u, lambda ip, sc: sc.make(ip),
                [("no-false-alarm", lambda p, sc: None)])
    for op in ALLOPS:
        for v in (dict(nondet_model=True), dict(nondet_data="x"), dict(nondet_data="y")):
            u = base(op, check=False, **v)

            def off(p, sc):
                if p.outcome != "return":
                    expect(p, (), "construction without the check")
                for e in p.events:
                    if e.kind == "draw":
                        raise Bad("random numbers are drawn without the check", e.loc)
                    if e.kind == "loss-call":
                        raise Bad("the loss is evaluated while constructing without the check",
                                  e.loc)
            c.cases(f"{op}, {v}, check=False", u, lambda ip, sc: sc.make(ip),
                    [("check-disabled", off)], off)


# ------------------------------------------------------------------- malformed operands
def numel(axes):
    n = Poly.num(1)
    for a in axes:
        n = n * axsize(a)
    return n


def tens(axes, sc, name="Z", dtype=None):
    return Tensor.new([ax(a) if isinstance(a, (Poly, int)) else a for a in axes],
                      Poly.atom(atom(name, kind="operand")), dtype or sc.mdtype, sc.pdev,
                      owner="user:operand", note=name)


def col(k):
    return tuple(Seg(1) for _ in range(k))


def wrong_operands(ip, sc):
    """Operands that do not fit (what, value)."""
    shapes = [a for _, a in sc.in_axes(ip)]
    total = sum((numel(a) for a in shapes), Poly())
    good = sc.operand(ip, form="list")
    vec = sc.operand(ip, form="list-vec")
    flat = sc.operand(ip, form="flat")
    out = {
        "a flat vector that is too long": tens([total + 1], sc),
        "a flat matrix with too many rows": tens([total + 1, 2], sc),
        "a flat matrix that is too short": tens([1, 2], sc),
        "a flat tensor with three dimensions": tens([total, 2, 2], sc),
        "a zero-dimensional tensor": tens([], sc),
        "an array": Tensor.new(flat.axes, flat.polys(), flat.dtype, CPU, "np",
                               owner="user:operand"),
        "None": None,
        "a number": 1.0,
        "a tuple of tensors": tuple(good),
        "an empty list": LList(),
        "a list with too many tensors": LList(list(good) + [good[0]]),
        "a list with a number": LList([1.0] * len(good)),
        "a list with None": LList(list(good)[:-1] + [None]),
        "a list with an array": LList(list(good)[:-1] + [Tensor.new(
            good[-1].axes, good[-1].polys(), good[-1].dtype, CPU, "np", owner="user:operand")]),
        "a list with a wrong shape": LList(list(good)[:-1] + [
            tens(list(shapes[-1][:-1]) + [axsize(shapes[-1][-1]) + 1, 3], sc)]),
        "a list of vectors with a wrong shape": LList(list(vec)[:-1] + [
            tens(list(shapes[-1][:-1]) + [axsize(shapes[-1][-1]) + 1], sc)]),
        "a list with a missing dimension": LList(list(good)[:-1] + [
            tens(list(shapes[-1][1:]), sc)]),
        "a list with an additional dimension": LList(list(good)[:-1] + [
            tens(list(shapes[-1]) + [3, 1], sc)]),
    }
    if sc.op in (JA, TJ):
        sizes = [p.axes for p in sc.model_params.values()]
        rows = {JA: numel([tuple(Seg(b) for b in sc.Bs)] + [ax(d) for d in sc.out_dims]),
                TJ: sum((numel(a) for a in sizes), Poly())}[sc.op]
        out["a flat vector of the size of the output"] = tens([rows], sc)
    if len(good) > 1:
        out["a list that is too short"] = LList(list(good)[:-1])
        out["a list of vectors and matrices"] = LList(list(good)[:-1] + [vec[-1]])
        out["a list with different numbers of columns"] = LList(list(good)[:-1] + [
            tens(list(shapes[-1]) + [2], sc)])
        out["a list with reordered tensors"] = LList(
            [tens([axsize(a) + 2 for a in good[0].axes], sc)] + list(good)[1:])
    return out


def wrong_body(what):
    def body(ip, sc):
        sc.inv = None
        op = make(ip, sc) if not getattr(sc, "inverse", False) else ip.call(
            ip.get(f"curvlinops:{KI}"), [make(ip, sc)], dict(damping=0.25))
        bad = wrong_operands(ip, sc)
        if what not in bad:
            raise Skip(what)
        return ip.binop(ast.MatMult, op, bad[what])
    return body


EQUAL_IF = ("a flat vector of the size of the output",)  # valid if the sizes are equal
NAMES_OF_WRONG = (
    "a flat vector that is too long", "a flat matrix with too many rows",
    "a flat matrix that is too short", "a flat tensor with three dimensions",
    "a zero-dimensional tensor", "an array", "None", "a number", "a tuple of tensors",
    "an empty list", "a list with too many tensors", "a list with a number", "a list with None",
    "a list with an array", "a list with a wrong shape", "a list of vectors with a wrong shape",
    "a list with a missing dimension", "a list with an additional dimension")
NAMES_OF_PAIRS = ("a list that is too short", "a list of vectors and matrices",
                  "a list with different numbers of columns", "a list with reordered tensors")


@check("C30")
def operands(c):
    for op in ALLOPS:
        u = base(op)
        many = op not in (TJ, AH)
        for w in NAMES_OF_WRONG + (NAMES_OF_PAIRS if many else ()):
            rejected(c, "malformed-operand", f"{op}: {w}", u, wrong_body(w), what=w)
        if op in (JA, TJ):
            w = "a flat vector of the size of the output"
            rejected(c, "malformed-operand", f"{op}: {w}", u, wrong_body(w), what=w)
    for w in NAMES_OF_WRONG + NAMES_OF_PAIRS:
        def body(ip, sc, w=w):
            sc.inverse = True
            return wrong_body(w)(ip, sc)
        rejected(c, "malformed-operand", f"{KI}: {w}", base(KF), body, what=w)
    for lab, u, body in configurations():
        rejected(c, "malformed-configuration", lab, u, body)
    for lab, body in array_configurations():
        rejected(c, "malformed-configuration", lab, None, body)


def built(ip, sc):
    return sc.make(ip)


def configurations():
    """(label, scenario, body) of constructions that are invalid."""
    for bs in ([1], [3, 1], [1, 1], [0, 3], [4, -1], [], [1, 1, 1, 0]):
        yield f"block sizes {bs} for three parameters", base(H, blocks=bs), built
    for op in (H, G, E, F, JA, TJ, KF):
        u = base(op, dict_input=True)

        def nofn(ip, sc):
            kw = sc.ctor_kwargs()
            sc.ctor_kwargs = lambda: {k: v for k, v in kw.items() if k != "batch_size_fn"}
            return sc.make(ip)
        for chk in (True, False):
            yield (f"{op}: dict-like data without a batch size function, check={chk}",
                   {**u, "check": chk}, nofn)
    for op in (JA, TJ):
        def nograd(ip, sc):
            op = sc.make(ip)
            return ip.call(ip.getattr(op, "gradient_and_loss"), [], {})
        yield f"{op}: gradient and loss without a loss", base(op), nograd
    for kw in (dict(fisher_type="type2"), dict(fisher_type="MC"), dict(fisher_type=None),
               dict(kfac_approx="expanded"), dict(kfac_approx=""), dict(kfac_approx=None),
               dict(fisher_type="empirical", mc_samples=2),
               dict(fisher_type="type-2", mc_samples=0),
               dict(fisher_type="forward-only", mc_samples=3)):
        u = base(KF)
        yield f"{KF}: {kw}", {**u, "kwargs": kw}, built
    for loss in ("L1Loss", "UserLoss"):
        yield f"{KF}: loss {loss}", base(KF, loss=loss), built

    def inv(kw, A=None):
        def body(ip, sc):
            op = A(ip, sc) if A else sc.make(ip)
            return ip.call(ip.get(f"curvlinops:{KI}"), [op], dict(kw))
        return body
    for kw in (dict(damping=0.1, use_heuristic_damping=True, use_exact_damping=True),
               dict(damping=(0.1, 0.2), use_heuristic_damping=True),
               dict(damping=(0.1, 0.2), use_exact_damping=True)):
        yield f"{KI}: {kw}", base(KF), inv(kw)
    yield f"{KI} of another operator", base(G), inv(dict(damping=0.1))
    yield f"{KI} of a SciPy operator", base(KF), inv(dict(damping=0.1), lambda ip, sc: UserLinOp(
        "A", (sym("n", 2), sym("n", 2))))
    for act in (("l9", "output", 0), ("l1", "outputs", 0), ("l1", "output", 1),
                ("l1", "output", -1), ("l1", "", 0), ("", "inputs", 0)):
        yield f"{AH}: activation {act}", {**base(AH), "activation": act}, built
    for nb in (2, 3):
        yield f"{AH}: {nb} batches", {**base(AH), "nbatch": nb}, built

    # state dicts that do not fit
    def other(change):
        def body(ip, sc):
            op = sc.make(ip)
            product_on(ip, sc, op)
            sd = state(ip, op)
            change(ip, sc, sd)
            at = len(ip.events)
            ip.state["load_at"] = at
            sc.attrs0 = {k: v for k, v in op.attrs.items()}
            sc.loaded = op
            return ip.call(ip.getattr(op, "load_state_dict"), [sd], {})
        return body

    def drop(which, key):
        def change(ip, sc, sd):
            d = LDict(sd[which])
            del d[key]
            sd[which] = d
        return change

    def extra(which):
        def change(ip, sc, sd):
            d = LDict(sd[which])
            d["l9"] = d["l1"]
            sd[which] = d
        return change

    def setk(k, v):
        def change(ip, sc, sd):
            sd[k] = v
        return change
    for lab, ch in (
        ("another loss", setk("loss_type", "CrossEntropyLoss")),
        ("another loss (BCE)", setk("loss_type", "BCEWithLogitsLoss")),
        ("another reduction", setk("loss_reduction", "sum")),
        ("a missing input factor", drop("input_covariances", "l1")),
        ("a missing gradient factor", drop("gradient_covariances", "l2")),
        ("an additional input factor", extra("input_covariances")),
        ("an additional gradient factor", extra("gradient_covariances")),
        ("no input factors", setk("input_covariances", LDict())),
        ("no gradient factors", setk("gradient_covariances", LDict())),
    ):
        yield f"{KF}: state dict with {lab}", base(KF), other(ch)


def array_configurations():
    SUB, HT, HD, HPP = (f"curvlinops:{n}" for n in (
        "SubmatrixLinearOperator", "HutchinsonTraceEstimator",
                        "HutchinsonDiagonalEstimator", "HutchPPTraceEstimator"))

    def lin(square=True, size=None):
        n = size or sym("n", 9)
        return UserLinOp("A", (n, n if square else Sym(P(n) + 1, True)))
    for which in (HT, HD, HPP):
        yield f"{which} of a non-square operator", (
            lambda ip, sc, w=which: new(ip, w, lin(False)))
    yield f"{HPP}: basis larger than the operator", (
        lambda ip, sc: new(ip, HPP, lin(True, 7), basis_dim=8))
    for which in (HT, HD, HPP):
        for d in ("gaussian", "Normal", "", None):
            yield f"{which}: distribution {d!r}", (
                lambda ip, sc, w=which, d=d: meth(
                    ip, new(ip, w, lin(), **(dict(basis_dim=2) if w == HPP else {})),
                    "sample", d))
    yield f"{HPP}: basis distribution", (
        lambda ip, sc: meth(ip, new(ip, HPP, lin(), basis_dim=2, basis_distribution="uniform"),
                            "sample"))
    for rows, cols in (([1, 1], [0]), ([0], [2, 2]), ([-1], [0]), ([0], [-2]), ([9], [0]),
                       ([0], [7]), ([0.0], [1]), ([0], [1.5]), (["0"], [0]), ([0], [None]),
                       ([100], [1]), ([0, 1, 0], [0, 1])):
        def body(ip, sc, rows=rows, cols=cols):
            return new(ip, SUB, UserLinOp("A", (9, 7)), LList(rows), LList(cols))

        def reset(ip, sc, rows=rows, cols=cols):
            S = new(ip, SUB, UserLinOp("A", (9, 7)), LList([0]), LList([1]))
            return meth(ip, S, "set_submatrix", LList(rows), LList(cols))
        yield f"{SUB}: rows {rows}, columns {cols} of 9 x 7", body
        yield f"{SUB} reset: rows {rows}, columns {cols} of 9 x 7", reset


# ------------------------------------------------------------------- unsupported setups
@check("C31")
def unsupported(c):
    NI, VE = ("NotImplementedError",), ("ValueError",)
    for op in (E, F):
        for loss in ("L1Loss", "UserLoss"):
            rejected(c, "unsupported-loss", f"{op}: {loss}", base(op, loss=loss), built, NI)
        rejected(c, "unsupported-loss", f"{op}: function", base(op, loss="UserLoss",
                                                                 functional=True), built, NI)

    def prod(ip, sc):
        return product_on(ip, sc, sc.make(ip))
    for lv in ((0, 1, 2), (0.5,), (-1, 1)):
        rejected(c, "non-binary-labels", f"{F}: labels {lv}",
                 base(F, loss="BCEWithLogitsLoss", labels=lv), prod, NI)
        for nb in (1, 2):
            rejected(c, "non-binary-labels", f"{KF} type-2: labels {lv}, {nb} batches",
                     base(KF, loss="BCEWithLogitsLoss", labels=lv, minB=2, nbatch=nb,
                          kwargs=dict(fisher_type="type-2")), prod, NI)
    for net, ps in (((LX, L1), ("WX", "W1")), ((L1, LX), ("WX",)), ((L1, LX, L2), ALL + ("WX",)),
                    ((L1, LX), ("W1", "b1", "WX"))):
        rejected(c, "unsupported-layer", f"{KF}: parameters of an unsupported layer, {ps}",
                 base(KF, net=net, params=ps), built, NI)
    for ks in ((2, 3), (3, 2), (4, 2), (1, 6)):
        for ft in ("mc", "forward-only"):
            rejected(c, "unequal-padding", f"{KF}: 'same' padding of a convolution, kernel {ks}",
                     base(KF, net=(c1(padding="same", k=ks, s=(1, 1), d=(1, 1)), L2),
                          extra=False, kwargs=dict(fisher_type=ft)), prod, NI)
    for op in (H, G, E, F, JA, TJ, KF):
        for which, names in (("device", ("RuntimeError",)), ("dtype", ("RuntimeError",))):
            def mixed(ip, sc, which=which):
                from ..values import GPU
                p = sc.plist[-1]
                if which == "device":
                    p.device = GPU
                    sc.state0 = sc.snapshot()
                else:
                    p.dtype = DType("float32")
                op = sc.make(ip)
                if which == "dtype":
                    ip.call(ip.getattr(op, "to_scipy"), [], {})
                return op
            rejected(c, "mixed-parameters", f"{op}: parameters with different {which}s", base(op),
                     mixed, names)


# ------------------------------------------------------------------- serialization
OPTIONS = (
    dict(fisher_type="empirical"),
    dict(fisher_type="mc", mc_samples=3, seed=7),
    dict(fisher_type="mc", seed=0),
    dict(fisher_type="type-2", separate_weight_and_bias=False),
    dict(fisher_type="forward-only", kfac_approx="reduce"),
    dict(fisher_type="mc", kfac_approx="reduce", separate_weight_and_bias=False),
    dict(fisher_type="empirical", num_per_example_loss_terms=1),
)


def fresh_user(ip, sc):
    """The arguments of ``from_state_dict``."""
    kw = dict(check_deterministic=False)
    if sc.dict_input:
        kw["batch_size_fn"] = sc.bfn()
    return [sc.model, sc.plist, sc.data], kw


def restored(ip, sc, sd, cls=KF):
    a, kw = fresh_user(ip, sc)
    return ip.call(ip.getattr(ip.get(f"curvlinops:{cls}"), "from_state_dict"), [sd] + a, kw)


def trip(query, how):
    """State after ``query``; restore; state, product and scalars of both."""
    def body(ip, sc):
        op = sc.make(ip)
        if "product" in query:
            product_on(ip, sc, op)
        for n in query:
            if n in NAMES:
                ip.getattr(op, n)
        sd = state(ip, op)
        if how == "class":
            new_ = restored(ip, sc, sd)
        else:
            new_ = sc.make(ip)
            if how == "load-used":
                sc2 = sc.operand(ip)
                ip.binop(ast.MatMult, new_, sc2)
                for n in NAMES:
                    ip.getattr(new_, n)
            if how == "load-other":
                new_ = other_options(ip, sc)
            ip.call(ip.getattr(new_, "load_state_dict"), [sd], {})
        st = state(ip, new_)
        at = len(ip.events)
        r1 = product_on(ip, sc, op)
        mid = len(ip.events)
        r2 = product_on(ip, sc, new_)
        res = dict(sd=sd, st=st, r1=r1, r2=r2, new=new_, evs=(at, mid, len(ip.events)),
                   s1={n: ip.getattr(op, n) for n in NAMES},
                   s2={n: ip.getattr(new_, n) for n in NAMES}, query=query)
        sc.op_ = new_
        return res
    return body


def other_options(ip, sc):
    """An operator with different options and computed factors."""
    keep = sc.kwargs
    try:
        sc.kwargs = dict(fisher_type="empirical", kfac_approx="expand", seed=99,
                         separate_weight_and_bias=not (keep or {}).get(
                             "separate_weight_and_bias", True))
        if "num_per_example_loss_terms" in (keep or {}):
            sc.kwargs["num_per_example_loss_terms"] = keep["num_per_example_loss_terms"]
        op = sc.make(ip)
        product_on(ip, sc, op)
        for n in NAMES:
            ip.getattr(op, n)
        return op
    finally:
        sc.kwargs = keep


def same_entry(a, b, what):
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            raise Bad(f"the restored state has other entries in {what}: {set(a) ^ set(b)}")
        for k in a:
            same_entry(a[k], b[k], f"{what}[{k!r}]")
    elif isinstance(a, Tensor) or isinstance(b, Tensor):
        if a is b:
            return
        if not isinstance(a, Tensor) or not isinstance(b, Tensor):
            raise Bad(f"{what} is {b!r} instead of {a!r}")
        same_value(a, b, what)
    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            raise Bad(f"{what} is {b!r} instead of {a!r}")
        for k, (x, y) in enumerate(zip(a, b)):
            same_entry(x, y, f"{what}[{k}]")
    elif isinstance(a, (int, float, Sym)) and isinstance(b, (int, float, Sym)) and not isinstance(
            a, bool):
        if not P(a).equiv(P(b)):
            raise Bad(f"{what} is {b} instead of {a}")
    elif a is not b and a != b:
        raise Bad(f"{what} is {b!r} instead of {a!r}")


def trip_judge(p, sc):
    v = p.value
    same_entry(v["sd"], v["st"], "the restored state")
    same_value(v["r1"], v["r2"], "products of the original and the restored operator")
    for n in NAMES:
        same_entry(v["s1"][n], v["s2"][n], n)
    if v["query"]:
        a, m, e = v["evs"]
        for ev in p.events[m:e]:
            if ev.kind in ("model-call", "data-pass"):
                raise Bad("the restored operator recomputes its Kronecker factors", ev.loc)


def inv_trip(kw, how, before):
    def body(ip, sc):
        cls = ip.get(f"curvlinops:{KI}")
        op = sc.make(ip)
        inv = ip.call(cls, [op], dict(kw))
        if before:
            product_on(ip, sc, inv)
        sd = state(ip, inv)
        if how == "class":
            new_ = ip.call(ip.getattr(cls, "from_state_dict"), [sd, sc.make(ip)], {})
        else:
            new_ = ip.call(cls, [sc.make(ip)], dict(damping=0.875))
            if how == "load-used":
                product_on(ip, sc, new_)
            ip.call(ip.getattr(new_, "load_state_dict"), [sd], {})
        st = state(ip, new_)
        return dict(sd=sd, st=st, r1=product_on(ip, sc, inv), r2=product_on(ip, sc, new_))
    return body


def inv_trip_judge(p, sc):
    v = p.value
    same_entry(v["sd"], v["st"], "the restored state")
    same_value(v["r1"], v["r2"], "products of the original and the restored operator")


def unchanged_judge(model):
    """A rejected state dict leaves the operator (and the model) as they were."""
    def judge(p, sc):
        expect(p, ("ValueError",), "a state dict that does not fit")
        at = p.ip.state.get("load_at")
        if at is None:
            raise Skip("not loaded")
        for e in p.events[at:]:
            if e.kind == "model-load" and model:
                raise Bad("a rejected state dict changes the model", e.loc)
        for k, v in sc.loaded.attrs.items():
            w = sc.attrs0.get(k, sc)
            if w is not v and not (isinstance(v, (int, float, str, type(None))) and w == v):
                raise Bad(f"a rejected state dict changes the operator ({k})", None)
    return judge


@check("C32")
def serialization(c):
    for opt in OPTIONS:
        for v in ({}, dict(net=CNN, extra=False), dict(params=("b1", "W2"), extra=False),
                  dict(reduction="sum", loss="CrossEntropyLoss"),
                  dict(num_data=100, extra=False),
                  dict(dict_input=True), dict(progressbar=True),
                  dict(pdev="cuda")):
            if opt.get("num_per_example_loss_terms") and v.get("extra") is not False:
                continue
            if v.get("num_data"):
                v = {**v, "num_per_example_loss_terms": 1}
            u = valid(cfg(nbatch=2, **{**opt, **v}))
            for query in ((), ("product",), ("trace", "logdet"), ("det", "frobenius_norm")):
                for how in ("class", "load", "load-used", "load-other"):
                    if how == "load-other" and not query:
                        continue
                    c.run("round-trip", u, trip(query, how), trip_judge,
                          label=f"{label(u)}, after {query or 'nothing'}, {how}")
        u = valid(cfg(nbatch=1, extra=False, **opt))
        for kw in (dict(damping=0.25), dict(damping=(0.25, 0.5)),
                   dict(damping=0.25, use_exact_damping=True, min_damping=0.25),
                   dict(damping=0.25, min_damping=0.5, cache=False),
                   dict(damping=0.25, use_heuristic_damping=True, min_damping=0.125),
                   dict(damping=0.25, cache=False, retry_double_precision=False)):
            for how in ("class", "load", "load-used"):
                for before in (True, False):
                    c.run("inverse-round-trip", u, inv_trip(kw, how, before), inv_trip_judge,
                          label=f"{label(u)}, {kw}, {how}, used={before}", max_paths=128)
    for lab, u, body in configurations():
        if "state dict with" in lab:
            j = unchanged_judge("loss" in lab or "reduction" in lab)
            c.cases(lab, u, body, [("rejected-state", j)], j)
