"""Documented matrices, written as polynomials over the same units as the analysis."""

from __future__ import annotations

from .poly import P, Poly, atom, info, jac
from .user import LossObj


def unit(n):
    return Poly.atom(n)


def out_unit(i, sc):
    n, params = f"out(x{i}{sc.version})", sc.model_params
    atom(n, live=True, kind="out", deps=set(params))
    return n


def loss_coeff(sc, num_data=None):
    """Factor in front of the sum over all loss terms."""
    if sc.reduction == "sum":
        return Poly.num(1)
    N = P(num_data) if num_data is not None else (
        P(sc.num_data) if sc.num_data is not None else sc.N)
    c = N
    if sc.T is not None:
        c = c * sc.T
    if sc.R is not None:
        c = c * sc.R
    if sc.loss != "CrossEntropyLoss":
        c = c * sc.C
    return Poly.num(1).div(c)


def batch_loss(sc, i):
    fn = LossObj.KINDS[sc.loss]
    o, y = unit(out_unit(i, sc)), unit(atom(f"y{i}"))
    if fn == "CE":
        return Poly.func("CE", o, y, extra=str(sc.C))
    return Poly.func(fn, o, y)


def total_loss(sc, batches=None):
    c = loss_coeff(sc)
    r = Poly()
    for i in batches if batches is not None else range(len(sc.Bs)):
        r = r + c * batch_loss(sc, i)
    return r


def blocks_of(sc):
    n = len(sc.params)
    sizes = sc.blocks or [n]
    out, s = {}, 0
    for b in sizes:
        for j in range(s, s + b):
            out[j] = list(range(s, s + b))
        s += b
    return out


def hessian_coeff(sc, j, q):
    if q not in blocks_of(sc)[j]:
        return Poly()
    return total_loss(sc).derivative(sc.params[j]).derivative(sc.params[q]).detach()


def _outd(sc, i):
    n = out_unit(i, sc)
    return n


def ggn_coeff(sc, j, q):
    """Generalised Gauss-Newton (equals the expectation of the MC Fisher)."""
    c = loss_coeff(sc)
    r = Poly()
    for i in range(len(sc.Bs)):
        n = _outd(sc, i)
        h = batch_loss(sc, i).derivative(n).derivative(n)
        r = r + c * h * jac(n, sc.params[j]) * jac(n, sc.params[q])
    return r.detach()


def ef_coeff(sc, j, q):
    c = loss_coeff(sc)
    r = Poly()
    for i in range(len(sc.Bs)):
        n = _outd(sc, i)
        g = batch_loss(sc, i).derivative(n)
        r = r + c * g * g * jac(n, sc.params[j]) * jac(n, sc.params[q])
    return r.detach()


def jac_row(sc, i, q):
    return jac(_outd(sc, i), sc.params[q]).detach()


def gradient(sc, j):
    return total_loss(sc).derivative(sc.params[j]).detach()
