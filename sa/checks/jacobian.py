"""Jacobian and transposed Jacobian: one row block per batch, in the order of the data."""

from .. import judges as J
from .. import spec
from ..poly import Poly
from ..report import Bad, Skip
from ..values import Tensor, axsize
from . import check
from .products import matmat

JA, TJ = "JacobianLinearOperator", "TransposedJacobianLinearOperator"


def uses(op, thorough):
    out = []
    for v in (
        {}, dict(extra=False), dict(form="flat"), dict(form="flat-vec"), dict(form="list-vec"),
        dict(dict_input=True), dict(nbatch=1), dict(nbatch=2, K=1), dict(params=("P2", "P0")),
        dict(params=("P1",)), dict(progressbar=True), dict(dtype="float32"),
        dict(pdev="cuda", ddev="cpu"), dict(check=True), dict(K=1, form="flat"),
        dict(module=False), dict(form="flat", extra=False), dict(pdev="cuda", dict_input=True),
        dict(check=True, dict_input=True),
        dict(extra=2), dict(extra="none"), dict(extra="none", form="flat"), dict(xdims=3),
        dict(extra=2, form="flat"), dict(extra="none", K=1), dict(extra="none", form="list-vec"),
        dict(ones=("C",), extra=False), dict(params=("P3", "P0")), dict(params=("P3",), form="flat"),
        dict(xdims=0, extra=2), dict(ones=("C", "T"), K=1),
        dict(K=130, nbatch=1), dict(nbatch=12, K=1),
        dict(static_order=[2, 0, 1]), dict(equal=True), dict(equal=True, form="flat"),
    ):
        out.append(dict(op=op, loss=None, **v))
    if thorough:
        for ex in (True, False):
            for form in ("list", "flat", "list-vec", "flat-vec"):
                for nb in (1, 2, 4):
                    for ps in (("P0", "P1", "P2"), ("P1", "P0"), ("P2",)):
                        for d in (True, False):
                            out.append(dict(op=op, loss=None, extra=ex, form=form, nbatch=nb,
                                            params=ps, dict_input=d))
    return out


def jac_judge(p, sc):
    vec = sc.form.endswith("-vec")
    t = p.value
    if sc.form.startswith("list"):
        if not isinstance(t, (list, tuple)) or len(t) != 1:
            raise Bad("the result is not a list with one tensor")
        t = t[0]
    if not isinstance(t, Tensor):
        raise Bad("the result is not a tensor")
    rest = Poly.num(1)
    for d in sc.out_dims:
        rest = rest * d
    if sc.form.startswith("list"):
        want = [sc.N] + list(sc.out_dims)
    else:
        want = [sc.N * rest]
    if t.ndim != len(want) + (not vec):
        raise Bad(f"the result has {t.ndim} dimensions", J.first_where(t))
    for k, w in enumerate(want):
        if not axsize(t.axes[k]).equiv(w):
            raise Bad(f"dimension {k} of the result is {axsize(t.axes[k])} instead of {w}",
                      J.first_where(t))
    J.ncol(t, sc.K, vec)
    order = list(sc.static_order or range(sc.nbatch))
    rows, acc = [], Poly()
    unit = Poly.num(1) if sc.form.startswith("list") else rest
    j = 0
    for s in t.axes[0]:
        rows.append(order[min(j, len(order) - 1)])
        acc = acc + s.size
        if j < len(order) and acc.equiv(sc.Bs[order[j]] * unit):
            j, acc = j + 1, Poly()
    if j != len(order) or acc.terms:
        raise Skip("row blocks do not match the batches")
    for i, b in t.cells.items():
        n = None if vec else i[-1]
        w = Poly()
        for q in range(len(sc.plist)):
            w = w + spec.jac_row(sc, rows[i[0]], q) * Poly.atom(f"{sc.opname}{q}" + (
                "" if vec else f"|{n}"))
        J.same_poly(b.get(), w, f"rows of batch {rows[i[0]]}, column {n}", b)
    J.tensor_meta(t, sc.dtype, sc.pdev)


def tjac_judge(p, sc):
    vec = sc.form.endswith("-vec")
    axes = [list(q.axes) for q in sc.plist]
    order = list(sc.static_order or range(sc.nbatch))
    for (j, n), lst in J.pieces(p.value, axes, sc.K, vec).items():
        w = Poly()
        for pos, i in enumerate(order):
            w = w + spec.jac_row(sc, i, j) * Poly.atom(f"{sc.opname}0.{pos}" + ("" if vec else f"|{n}"))
        for poly, box in lst:
            J.same_poly(poly, w, f"piece {j}, column {n}", box)
    for t in J.tensors(p.value):
        J.tensor_meta(t, sc.dtype, sc.pdev)


@check("C05")
def jacobian(c):
    for cfg in uses(JA, c.thorough):
        c.run("jacobian-product", cfg, matmat, jac_judge)
    for cfg in uses(TJ, c.thorough):
        if cfg.get("static_order"):
            continue
        c.run("transposed-jacobian-product", cfg, matmat, tjac_judge)
