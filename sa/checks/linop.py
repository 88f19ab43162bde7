"""Every operator is one linear map: formats, columns, adjoints, exports, gradient, activations."""

import ast
from itertools import product as cart

from .. import canon
from .. import judges as J
from .. import spec
from .. import tensorops as T
from ..poly import P, Poly, atom, info
from ..report import Bad, Skip, exc_name
from ..values import CPU, DType, LList, Seg, Sym, Tensor, ax, axsize
from . import check
from .jacobian import JA, TJ, jac_judge, tjac_judge
from .kfac import (ALL, C1, CNN, FUNCS, KF, KI, L1, LX, MLP, NESTED, ONE, cfg, inverse_judge,
                   kfac_coeff, label, plain,
                   with_factors)
from .products import E, F, G, H, COEFF, product_judge

AH = "ActivationHessianLinearOperator"
FORMS = ("list", "flat", "list-vec", "flat-vec")
DAMP = (("plain", dict(damping=0.25)), ("exact", dict(damping=0.25, use_exact_damping=True)),
        ("heuristic", dict(damping=0.25, use_heuristic_damping=True)))


def make(ip, sc):
    """The operator of the scenario; Kronecker-factored ones with atomic factors."""
    inv = getattr(sc, "inv", None)
    if sc.op != KF:
        return sc.make(ip)
    op = with_factors(ip, sc) if getattr(sc, "given", True) else sc.make(ip)
    if inv:
        op = ip.call(ip.get(f"curvlinops:{KI}"), [op], dict(inv))
    return op


def scenarios(thorough, losses=("MSELoss",)):
    """One configuration per operator and structurally different data or model."""
    out = []
    for op in (H, G, E, F):
        for v in ({}, dict(nbatch=1, K=2), dict(loss="CrossEntropyLoss"),
                  dict(reduction="sum", extra=False), dict(params=("P2", "P0"))):
            out.append((dict(op=op, **{"loss": "MSELoss", **v}), None))
    for v in (dict(blocks=[1, 2]), dict(blocks=[2, 1]), dict(blocks=[1, 1, 1])):
        out.append((dict(op=H, loss="MSELoss", **v), None))
    for op in (H, G, E, F):
        for v in (dict(params=("P1",), ones=("b0",)), dict(ones=("a0", "a1", "b0")),
                  dict(ones=("B0",), nbatch=1), dict(ones=("C",)), dict(ones=("T",)),
                  dict(K=1), dict(ones=("B0", "B1", "B2"), params=("P1",)),
                  dict(params=("P1",), ones=("b0",), K=1)):
            out.append((dict(op=op, **{"loss": "MSELoss", **v}), None))
    for op in (JA, TJ):
        for v in (dict(params=("P1",), ones=("b0",)), dict(ones=("C", "B0"), extra=False),
                  dict(ones=("B0", "B1", "B2")), dict(ones=("T", "C")), dict(K=1),
                  dict(ones=("B0", "C"), extra=False, nbatch=1),
                  dict(ones=("B0", "C"), extra=False, nbatch=1, K=1)):
            out.append((dict(op=op, loss=None, **v), None))
    for op in (JA, TJ):
        for v in ({}, dict(extra=False), dict(params=("P2", "P0")), dict(nbatch=1)):
            out.append((dict(op=op, loss=None, **v), None))
    for act in (("l1", "output", 0), ("l2", "input", 0)):
        out.append((dict(op=AH, net=MLP, params=ALL, nbatch=1, loss="CrossEntropyLoss",
                         activation=act), None))
    for net, ps in ((MLP, ALL), (CNN, ALL), (ONE, ("W1",)), (ONE, ("b1",)),
                    (MLP, ("W2", "b1"))):
        for jt in (True, False):
            u = cfg(net=net, params=ps, separate_weight_and_bias=not jt, extra=False,
                    fisher_type="empirical", nbatch=1, K=2)
            out.append((u, None))
            for name, inv in DAMP:
                out.append((u, inv))
    return out


def name_of(u, inv):
    base = label(u) if u["op"] == KF else ", ".join(f"{k}={v}" for k, v in u.items())
    return base + (f", inverse {inv}" if inv else "")


def run(c, rule, u, inv, body, judge, raises="bad", tag="", max_paths=64):
    def b(ip, sc):
        sc.inv = inv
        return body(ip, sc)

    c.cases(name_of(u, inv) + tag, u, b, [(rule, judge)], raises, max_paths)


# ------------------------------------------------------------------ formats and columns
def four_forms(ip, sc):
    op = make(ip, sc)
    res = {}
    for f in FORMS:
        res[f] = ip.binop(ast.MatMult, op, sc.operand(ip, form=f))
    return res


def op_units(p):
    return [a for a in p.atoms() if info(a).kind == "operand"]


def linear(poly, what, box, vec, n, funcs=None):
    """Coefficients {operand unit: polynomial}; the unit without its column."""
    poly = canon.merge(poly.detach())
    hidden = [a for a in poly.atoms() if info(a).kind != "operand" and (
        "M0" in a or "M1" in a or "M2" in a)]
    if hidden:
        raise Skip(f"{what}: operand inside {hidden[0][:60]}")
    out = {}
    for key, co in canon.coeff_of(poly).items():
        if len(key) != 1 or key[0][1] != 1:
            u = canon.unknown(poly, canon.KNOWN_FUNCS | FUNCS)
            if u:
                raise Skip(f"{what}: unknown units {u[:1]}")
            raise Bad(f"{what} is not linear in the operand: {J.short(poly)}", J.where(box))
        name, _, col = key[0][0].partition("|")
        if not vec and col != str(n):
            raise Bad(f"{what} depends on column {col} of the operand", J.where(box))
        out[name] = out.get(name, Poly()) + co
    return out


def same_coeffs(a, b, what, box):
    for k in set(a) | set(b):
        x, y = a.get(k, Poly()), b.get(k, Poly())
        if not x.equiv(y):
            raise Bad(f"{what}: coefficient of {k} is {J.short(x)} or {J.short(y)}", J.where(box))


def row_axes(sc, value):
    """Axes of the pieces of the result in list format."""
    return [list(t.axes[:-1]) for t in value]


def forms_judge(p, sc):
    res = p.value
    lst = res["list"]
    if not isinstance(lst, (list, tuple)) or not all(isinstance(t, Tensor) for t in lst):
        raise Bad("a product with a list does not give a list of tensors")
    axes = row_axes(sc, lst)
    ref = None
    for f in FORMS:
        vec = f.endswith("-vec")
        for t in J.tensors(res[f]):
            J.tensor_meta(t, sc.dtype, sc.pdev)
        got = J.pieces(res[f], axes, sc.K, vec)
        mine = {}
        for (j, n), blocks in got.items():
            mine[j, n] = [(linear(q, f"{f} piece {j}", b, vec, n), b) for q, b in blocks]
        cols = {n for _, n in mine}
        for n in cols:
            cur = {j: v for (j, m), v in mine.items() if m == n}
            if ref is None:
                ref = cur
                continue
            if cur.keys() != ref.keys() or any(len(cur[j]) != len(ref[j]) for j in cur):
                raise Skip("results are partitioned differently")
            for j in cur:
                for (a, box), (r, _) in zip(cur[j], ref[j]):
                    same_coeffs(a, r, f"{f}, piece {j}, column {n} differs from column 0 of the "
                                "list format", box)


@check("C06")
def formats(c):
    for u, inv in scenarios(c.thorough):
        run(c, "formats-and-columns", u, inv, four_forms, forms_judge)
        if u["op"] not in (KF, AH):
            run(c, "formats-and-columns", {**u, "check": True}, inv, four_forms, forms_judge)
    if c.thorough:
        for op, loss, red, ex, nb, K in cart((H, G, E, F), ("MSELoss", "CrossEntropyLoss",
                                             "BCEWithLogitsLoss"), ("mean", "sum"),
                                             (True, False), (1, 2, 4), (1, 2, 4)):
            run(c, "formats-and-columns", dict(op=op, loss=loss, reduction=red, extra=ex,
                                               nbatch=nb, K=K), None, four_forms, forms_judge)


# ------------------------------------------------------------------------------ adjoints
def adjoint_body(ip, sc):
    op = make(ip, sc)
    adj = ip.call(ip.getattr(op, "adjoint"), [], {})
    back = ip.call(ip.getattr(adj, "adjoint"), [], {})
    sa = ip.getattr(op, "SELF_ADJOINT")
    M = sc.operand(ip, form="list-vec")
    r = ip.binop(ast.MatMult, op, M)
    # operand of the row space: same axes as the result
    W = LList(Tensor.new(list(t.axes), {i: Poly.atom(atom(f"V{j}" + (
        "." + ".".join(map(str, i)) if len(t.cells) > 1 else ""), kind="operand"))
        for i in t.cells}, t.dtype, t.device, owner="user:operand") for j, t in enumerate(r))
    back_r = ip.binop(ast.MatMult, back, M)
    return dict(r=r, a=ip.binop(ast.MatMult, adj, W), b=back_r, sa=sa, M=M, W=W,
                shapes=(ip.getattr(op, "shape"), ip.getattr(adj, "shape")))


def blockwise(value, kind):
    out = {}
    for j, t in enumerate(value):
        for i, b in t.cells.items():
            poly = canon.merge(b.get().detach())
            if any(info(a).kind != "operand" and (kind + "0" in a or kind + "1" in a)
                   for a in poly.atoms()):
                raise Skip("operand inside another unit")
            for key, co in canon.coeff_of(poly).items():
                if len(key) != 1 or key[0][1] != 1:
                    raise Skip("not linear")
                k = (kind, j, i, key[0][0])
                out[k] = (out.get(k, (Poly(), b))[0] + co, b)
    return out


def names(value):
    out = {}
    for j, t in enumerate(value):
        for i, b in t.cells.items():
            out[j, i] = b.get()
    return out


def adjoint_judge(p, sc):
    v = p.value
    (r0, c0), (r1, c1) = v["shapes"]
    if not (P(r0).equiv(P(c1)) and P(c0).equiv(P(r1))):
        raise Bad(f"the adjoint has shape {v['shapes'][1]}, the operator {v['shapes'][0]}")
    fwd, bwd = blockwise(v["r"], "M"), blockwise(v["a"], "V")
    dom, ran = names(v["M"]), names(v["W"])
    if len(v["a"]) != len(v["M"]):
        raise Bad(f"the adjoint gives {len(v['a'])} pieces for {len(v['M'])}")
    A, B = {}, {}
    for (_, j, i, u), (co, b) in fwd.items():
        A[(j, i), u] = (co, b)
    for (_, j, i, u), (co, b) in bwd.items():
        B[(j, i), u] = (co, b)
    for (jr, rn) in ran.items():
        for (jd, dn) in dom.items():
            (x, bx), (y, by) = (A.get((jr, str(dn)), (Poly(), None)),
                                B.get((jd, str(rn)), (Poly(), None)))
            if not x.equiv(y):
                unk = canon.unknown(x + y, canon.KNOWN_FUNCS | FUNCS)
                if unk:
                    raise Skip(f"unknown units {unk[:2]}")
                raise Bad(f"entry ({rn}, {dn}) of the operator is {J.short(x)} but its adjoint's "
                          f"is {J.short(y)}", J.where(bx or by))
    again = blockwise(v["b"], "M")
    for k in set(fwd) | set(again):
        x, y = fwd.get(k, (Poly(),))[0], again.get(k, (Poly(),))[0]
        if not x.equiv(y):
            raise Bad(f"the adjoint of the adjoint differs: {J.short(y)} instead of {J.short(x)}",
                      J.where((fwd.get(k) or again.get(k))[1]))


@check("C07")
def adjoints(c):
    for u, inv in scenarios(c.thorough):
        run(c, "adjoint", u, inv, adjoint_body, adjoint_judge)
    for op in (JA, TJ):
        for v in (dict(dict_input=True), dict(pdev="cuda"), dict(dtype="float32"),
                  dict(equal=True), dict(progressbar=True), dict(module=False),
                  dict(check=True), dict(dict_input=True, check=True)):
            run(c, "adjoint", dict(op=op, loss=None, **v), None, adjoint_body, adjoint_judge)
    if c.thorough:
        for op, ex, nb, ps, d in cart((JA, TJ), (True, False), (1, 2, 4), (("P1",), ("P1", "P0")),
                                      (True, False)):
            run(c, "adjoint", dict(op=op, loss=None, extra=ex, nbatch=nb, params=ps,
                                   dict_input=d), None, adjoint_body, adjoint_judge)


# -------------------------------------------------------------------------------- SciPy
def np_of(t, dtype=None, owner="user:operand"):
    return Tensor.new(list(t.axes), t.polys(), dtype or t.dtype, CPU, "np", owner=owner, note="x")


def scipy_body(xdtype=None, how="matmul", form="flat", sdtype=None, adj=False):
    def body(ip, sc):
        op = make(ip, sc)
        args = [] if sdtype is None else [DType(sdtype)]
        S = ip.call(ip.getattr(op, "to_scipy"), args, {})
        if adj and sc.op == JA:
            pass
        t = sc.operand(ip, form=form) if not adj else adj_operand(ip, sc, form)
        X = np_of(t, DType(xdtype) if xdtype else None)
        if how == "matmul":
            Y = ip.binop(ast.MatMult, S, X)
        elif how == "H":
            Y = ip.binop(ast.MatMult, ip.getattr(S, "H"), X)
        else:
            Y = ip.call(ip.getattr(S, how), [X], {})
        return dict(X=X, Y=Y, S=(ip.getattr(S, "shape"), ip.getattr(S, "dtype")),
                    shape=ip.getattr(op, "shape"))

    return body


def adj_operand(ip, sc, form):
    keep = sc.op
    if keep == JA:
        sc.op = TJ
    elif keep == TJ:
        sc.op = JA
    try:
        return sc.operand(ip, form=form)
    finally:
        sc.op = keep


def scipy_judge(xdtype, form, sdtype, inner, adj=False):
    """``inner``: judge of the tensor product (value, scenario)."""
    def judge(p, sc):
        v = p.value
        Y = v["Y"]
        if not isinstance(Y, Tensor) or Y.kind != "np":
            raise Bad(f"the export returns {Y!r} instead of an array")
        if Y.device != CPU:
            raise Bad("the exported result is not on the CPU", J.first_where(Y))
        shape, dt = v["S"]
        if len(shape) != 2 or not all(P(a).equiv(P(b)) for a, b in zip(shape, v["shape"])):
            raise Bad(f"the export has shape {shape} instead of {v['shape']}")
        if sdtype is not None and dt != DType(sdtype):
            raise Bad(f"the export has dtype {dt} instead of {sdtype}")
        if any(e.kind == "truncate" for e in p.events):
            raise Bad("values are truncated", next(e for e in p.events
                                                   if e.kind == "truncate").loc)
        x = v["X"].dtype
        if T.isfloat(x) and Y.dtype != x:
            raise Bad(f"the result has dtype {Y.dtype.name} for an array of {x.name}",
                      J.first_where(Y))
        if not T.isfloat(x) and not T.isfloat(Y.dtype):
            raise Bad(f"the result has dtype {Y.dtype.name}", J.first_where(Y))
        J.no_rounding(p, sc.dtype, x)
        J.no_user_writes(p)
        keep = sc.form, sc.dtype, sc.pdev, sc.op
        sc.form, sc.dtype, sc.pdev = form, Y.dtype, CPU
        if adj and sc.op in (JA, TJ):
            sc.op = TJ if sc.op == JA else JA
        val = p.value
        try:
            p.value = Y
            inner(p, sc)
        finally:
            sc.form, sc.dtype, sc.pdev, sc.op = keep
            p.value = val

    return judge


@check("C15")
def scipy_export(c):
    uses = []
    for op in (H, G, E):
        uses.append((dict(op=op, loss="MSELoss"), None, product_judge(COEFF[op])))
    uses.append((dict(op=F, loss="MSELoss"), None, product_judge(COEFF[F], True)))
    uses.append((dict(op=G, loss="MSELoss", params=("P2", "P0")), None, product_judge(COEFF[G])))
    uses.append((cfg(extra=False, fisher_type="empirical", nbatch=1), None,
                 product_judge(kfac_coeff, funcs=FUNCS)))
    u = cfg(extra=False, fisher_type="empirical", nbatch=1)
    uses.append((u, dict(damping=0.25), inverse_judge(options=[plain(0.25)])))
    uses.append((u, dict(damping=0.25, use_exact_damping=True), inverse_judge(True, 0.25)))
    uses.append((dict(op=AH, net=MLP, params=ALL, nbatch=1, loss="MSELoss",
                      activation=("l2", "input", 0)), None, act_judge))
    for u, inv, inner in uses:
        for dt, xdt, dev in (("float64", None, "cpu"), ("float32", "float64", "cpu"),
                             ("float64", "float32", "cuda"), ("float32", "int64", "cpu"),
                             ("bfloat16", "float64", "cpu"), ("float32", None, "cuda"),
                             ("float16", "float32", "cpu")):
            for how, form in (("matmul", "flat"), ("matmul", "flat-vec"), ("H", "flat-vec"),
                              ("H", "flat"), ("matvec", "flat-vec"), ("rmatvec", "flat-vec"),
                              ("matmat", "flat"), ("rmatmat", "flat")):
                uu = {**u, "dtype": dt, "pdev": dev}
                run(c, "scipy-export", uu, inv, scipy_body(xdt, how, form, "float32"),
                    scipy_judge(xdt, form, "float32", inner, how[0] in "rH"),
                    tag=f", {how} with {form} {xdt}")
    for op, fwd, bwd in ((JA, jac_judge, tjac_judge), (TJ, tjac_judge, jac_judge)):
        for how, form in (("matmul", "flat"), ("matmul", "flat-vec"), ("H", "flat-vec"),
                          ("H", "flat"), ("matvec", "flat-vec"), ("rmatvec", "flat-vec"),
                          ("matmat", "flat"), ("rmatmat", "flat")):
            adj = how[0] in "rH"
            for dt, xdt, dev in (("float64", None, "cpu"), ("float32", "float64", "cpu"),
                                 ("float64", "float32", "cuda"), ("float32", "int64", "cpu")):
                for sdt in (None, "float64"):
                    run(c, "scipy-export", dict(op=op, loss=None, dtype=dt, pdev=dev), None,
                        scipy_body(xdt, how, form, sdt, adj),
                        scipy_judge(xdt, form, sdt, bwd if adj else fwd, adj),
                        tag=f", {how} with {form} {xdt} {sdt}")


# -------------------------------------------------------------------- gradient and loss
def gradient_body(ip, sc):
    op = make(ip, sc)
    return ip.call(ip.getattr(op, "gradient_and_loss"), [], {})


def gradient_judge(p, sc):
    r = p.value
    if not isinstance(r, tuple) or len(r) != 2:
        raise Bad("gradient and loss are not returned")
    g, loss = r
    if not isinstance(g, (list, tuple)) or len(g) != len(sc.plist):
        raise Bad("the gradient does not have one tensor per parameter")
    for j, (t, q) in enumerate(zip(g, sc.plist)):
        if not isinstance(t, Tensor) or t.ndim != q.ndim or not all(
                axsize(a).equiv(axsize(b)) for a, b in zip(t.axes, q.axes)):
            raise Bad(f"gradient {j} has shape {getattr(t, 'shape', t)}", J.first_where(t))
        for b in t.cells.values():
            J.same_poly(b.get(), spec.gradient(sc, j), f"gradient {j}", b)
        J.tensor_meta(t, sc.dtype, sc.pdev, "the gradient")
    if not isinstance(loss, Tensor) or loss.ndim:
        raise Bad("the loss is not a scalar tensor")
    for b in loss.cells.values():
        J.same_poly(b.get(), spec.total_loss(sc).detach(), "loss", b)
    J.tensor_meta(loss, sc.dtype, sc.pdev, "the loss")
    J.no_user_writes(p)
    J.no_alias(p, r)


@check("C16")
def gradient(c):
    for op in (H, G, E, F):
        for loss, red, ex in cart(("MSELoss", "CrossEntropyLoss", "BCEWithLogitsLoss"),
                                  ("mean", "sum"), (True, False)):
            c.run("gradient-and-loss", dict(op=op, loss=loss, reduction=red, extra=ex),
                  gradient_body, gradient_judge)
        for v in (dict(nbatch=1), dict(nbatch=2), dict(nbatch=12), dict(num_data=100),
                  dict(dict_input=True), dict(params=("P2", "P0")), dict(pdev="cuda"), dict(dtype="float32"),
                  dict(check=True), dict(progressbar=True), dict(ddev="cuda"),
                  dict(module=False)):
            c.run("gradient-and-loss", dict(op=op, loss="MSELoss", **v), gradient_body,
                  gradient_judge)
    for ft in ("mc", "empirical", "type-2", "forward-only"):
        for ex in (True, False):
            for v in ({}, dict(reduction="sum"), dict(params=("b1", "W2"))):
                u = cfg(**{"fisher_type": ft, "extra": ex, "loss": "MSELoss", **v})

                def body(ip, sc):
                    op = sc.make(ip)
                    return ip.call(ip.getattr(op, "gradient_and_loss"), [], {})
                c.run("gradient-and-loss", u, body, gradient_judge, label=label(u))


# ------------------------------------------------------------------- activation Hessian
def act_unit(sc):
    name, io, idx = sc.activation
    n = ("z_" if io == "output" else "act_") + name + (f".{idx}" if idx else "")
    return n + f"(x0{sc.version})"


def act_judge(p, sc):
    vec = sc.form.endswith("-vec")
    axes = [a for _, a in sc.in_axes(None)]
    a = act_unit(sc)
    co = spec.total_loss(sc).derivative(a).derivative(a).detach()
    for (j, n), lst in J.pieces(p.value, axes, sc.K, vec).items():
        m = Poly.atom(f"{sc.opname}0" + ("" if vec else f"|{n}"))
        for poly, box in lst:
            J.same_poly(poly, co * m, f"column {n}", box)
    for t in J.tensors(p.value):
        J.tensor_meta(t, sc.dtype, sc.pdev)
    left = [h for h in p.ip.state.get("hooks", []) if h.active]
    if left:
        raise Bad("a hook stays registered", left[0].where)
    J.no_user_writes(p)


def act_body(ip, sc):
    op = sc.make(ip)
    r = ip.binop(ast.MatMult, op, sc.operand(ip))
    if getattr(sc, "again", False):
        r = ip.binop(ast.MatMult, op, sc.operand(ip))
    return r


@check("C19")
def activation(c):
    several = (("l1", "Other", {"weight": "W1"}, {"outs": 3}),
               ("l2", "Other", {"weight": "W2"}, {"ins": 3, "outs": 2}),
               ("l3", "Linear", {"weight": "W3"}))
    acts = [(("l1", "output", 0), MLP, ALL), (("l2", "input", 0), MLP, ALL),
            (("l2", "output", 0), MLP, ALL), (("c1", "output", 0), CNN, ALL)]
    acts += [(a, several, ("W1", "W2", "W3")) for a in
             (("l1", "output", 0), ("l1", "output", 1), ("l1", "output", 2), ("l2", "input", 0),
              ("l2", "input", 1), ("l2", "input", 2), ("l2", "output", 1), ("l3", "input", 0))]
    acts += [(("body.l2", "input", 0), NESTED, ("W1", "W2", "W3", "WX")),
             (("head", "output", 0), NESTED, ("W1", "W2", "W3", "WX"))]
    for act, net, ps in acts:
        base = dict(op=AH, net=net, params=ps, nbatch=1, activation=act)
        for loss, red, ex in cart(("MSELoss", "CrossEntropyLoss", "BCEWithLogitsLoss"),
                                  ("mean", "sum"), (False, True)):
            if ex and net is CNN:
                continue
            c.run("activation-hessian", dict(base, loss=loss, reduction=red, extra=ex), act_body,
                  act_judge)
        for v in (dict(form="flat"), dict(form="flat-vec"), dict(form="list-vec"),
                  dict(pdev="cuda"), dict(dtype="float32"), dict(progressbar=True),
                  dict(check=True), dict(K=1), dict(pdev="cuda", ddev="cuda"), dict(K=130)):
            c.run("activation-hessian", dict(base, loss="MSELoss", extra=False, **v), act_body,
                  act_judge)
