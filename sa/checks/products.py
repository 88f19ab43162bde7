"""Products with the sum-over-data operators equal the documented matrices."""

import ast
from itertools import product as cart

from .. import judges as J
from .. import spec
from ..poly import Poly
from ..report import Bad, Skip
from . import check

LOSSES = ("MSELoss", "CrossEntropyLoss", "BCEWithLogitsLoss")
H, G, E, F = ("HessianLinearOperator", "GGNLinearOperator", "EFLinearOperator",
              "FisherMCLinearOperator")
COEFF = {H: spec.hessian_coeff, G: spec.ggn_coeff, E: spec.ef_coeff, F: spec.ggn_coeff}


def uses(op, thorough):
    """Ways to use an operator (configurations of the abstract environment)."""
    base = []
    for loss, red, ex in cart(LOSSES, ("mean", "sum"), (True, False)):
        base.append(dict(op=op, loss=loss, reduction=red, extra=ex))
    one = dict(op=op, loss="CrossEntropyLoss")
    two = dict(op=op, loss="MSELoss")
    var = [
        dict(form="flat"), dict(form="flat-vec"), dict(form="list-vec"), dict(dict_input=True),
        dict(num_data=1000), dict(nbatch=1), dict(nbatch=2, K=1), dict(params=("P2", "P0")),
        dict(params=("P1",)), dict(progressbar=True), dict(functional=True, loss="MSELoss"),
        dict(dtype="float32"), dict(pdev="cuda", ddev="cpu"), dict(pdev="cuda", ddev="cuda"),
        dict(order=lambda k: [2, 1, 0]), dict(check=True), dict(K=1), dict(K=1, form="flat"),
        dict(module=False), dict(equal=True), dict(K=130, nbatch=1), dict(nbatch=12, K=1),
    ]
    var += [dict(extra=2), dict(ones=("C",), extra=False), dict(params=("P3", "P1")),
            dict(params=("P3",), form="flat"), dict(params=("P1", "P3"), form="flat-vec"),
            dict(xdims=3), dict(xdims=0)]
    if op in (H, G):
        var += [dict(loss="MSELoss", extra="none"), dict(loss="BCEWithLogitsLoss", extra="none")]
    if op == H:
        var += [dict(blocks=[1, 2]), dict(blocks=[2, 1], form="flat"), dict(blocks=[1, 1, 1]),
                dict(blocks=[3]), dict(blocks=[1, 1, 1], form="flat-vec")]
    if op in (H, G):
        var += [dict(loss="UserLoss")]
    if op == F:
        var += [dict(ones=("C",), extra=False, mc=1, loss=x) for x in LOSSES]
        var += [dict(mc=1), dict(mc=7), dict(mc=1, nbatch=1)]
    for v in var:
        for b in (one, two) if thorough or "blocks" in v or "form" in v or "num_data" in v else (
                one,):
            c = {**b, **v}
            if c.get("functional") and op != H:
                continue
            if c.get("module") is False and op != H and False:
                continue
            base.append(c)
    if thorough:
        for loss, red, ex, form, nb in cart(LOSSES, ("mean", "sum"), (True, False),
                                            ("list", "flat", "flat-vec", "list-vec"), (1, 2, 4)):
            base.append(dict(op=op, loss=loss, reduction=red, extra=ex, form=form, nbatch=nb))
        for loss, red, d, nd in cart(LOSSES, ("mean", "sum"), (True, False), (None, 17)):
            base.append(dict(op=op, loss=loss, reduction=red, dict_input=d, num_data=nd,
                             params=("P1", "P2", "P0"), K=4))
    return base


def matmat(ip, sc):
    op = sc.make(ip)
    return ip.binop(ast.MatMult, op, sc.operand(ip))


def product_judge(coeff, expectation=False, funcs=None, pick=None):
    """The product equals the matrix with blocks ``coeff(sc, j, q)`` times the operand."""
    def judge(p, sc):
        vec = sc.form.endswith("-vec")
        axes = [list(q.axes) for q in sc.plist]
        value = p.value if pick is None else pick(p.value)
        got = J.pieces(value, axes, sc.K, vec)
        cache = {}
        for (j, n), lst in got.items():
            if (j, n) not in cache:
                want = Poly()
                for q in range(len(axes)):
                    m = Poly.atom(f"{sc.opname}{q}" + ("" if vec else f"|{n}"))
                    want = want + coeff(sc, j, q) * m
                cache[j, n] = want
            for poly, box in lst:
                J.same_poly(poly, cache[j, n], f"piece {j}, column {n}", box, expectation, funcs)
        for t in J.tensors(value):
            J.tensor_meta(t, sc.dtype, sc.pdev)
    return judge


@check("C01")
def hessian(c):
    for cfg in uses(H, c.thorough):
        c.run("hessian-product", cfg, matmat, product_judge(spec.hessian_coeff))


@check("C02")
def ggn(c):
    for cfg in uses(G, c.thorough):
        c.run("ggn-product", cfg, matmat, product_judge(spec.ggn_coeff))


@check("C03")
def ef(c):
    for cfg in uses(E, c.thorough):
        c.run("ef-product", cfg, matmat, product_judge(spec.ef_coeff))


@check("C04")
def fisher(c):
    for cfg in uses(F, c.thorough):
        c.run("mc-fisher-expectation", cfg, matmat, product_judge(spec.ggn_coeff, True))
