"""Sequences of operations on one operator: earlier ones leave no trace in later ones."""

import ast

from .. import judges as J
from ..report import Bad
from ..values import LList, Tensor
from . import check
from .effects import attrs_of
from .jacobian import JA, TJ, jac_judge, tjac_judge
from .kfac import (ALL, CNN, FUNCS, KF, KI, MLP, NAMES, cfg, heuristic, inverse_judge, kfac_coeff,
                   plain, scalar_judge)
from .linop import AH, act_judge, adj_operand, gradient_judge, make, name_of, np_of, scipy_judge
from .products import COEFF, E, F, G, H, product_judge

SETTINGS = ("form", "K", "opname", "version")


class Path:
    """An abstract path with another value."""

    def __init__(self, p, value):
        self.__dict__.update(p.__dict__)
        self.value = value


def sequence(steps):
    """Perform the steps on one operator; returns (step, settings, value) of each."""
    def body(ip, sc):
        op = make(ip, sc)
        sc.subject = op
        log, export, adj, versions = [], None, None, 0
        for k, (what, *args) in enumerate(steps):
            if what == "update":  # the user trains the model between operations
                versions += 1
                sc.version = f"#{versions}"
                continue
            if args:
                sc.form, sc.K = args
            sc.opname = "MNOQ"[k % 4] + ("" if k < 4 else "x")
            if what == "mul":
                r = ip.binop(ast.MatMult, op, sc.operand(ip))
            elif what == "adj":
                if adj is None:
                    adj = ip.call(ip.getattr(op, "adjoint"), [], {})
                r = ip.binop(ast.MatMult, adj, adj_operand(ip, sc, sc.form))
            elif what in ("scipy", "scipy-adj"):
                if export is None:
                    export = ip.call(ip.getattr(op, "to_scipy"), [], {})
                S = export if what == "scipy" else ip.getattr(export, "H")
                X = np_of(sc.operand(ip) if what == "scipy" else adj_operand(ip, sc, sc.form))
                Y = ip.binop(ast.MatMult, S, X)
                r = dict(X=X, Y=Y, S=(ip.getattr(S, "shape"), ip.getattr(S, "dtype")),
                         shape=ip.getattr(op if what == "scipy" or sc.op not in (JA, TJ) else ip.
                                          call(ip.getattr(op, "adjoint"), [], {}), "shape"))
            elif what == "grad":
                r = ip.call(ip.getattr(op, "gradient_and_loss"), [], {})
            else:
                r = {n: ip.getattr(op, n) for n in NAMES}
            log.append((what, {s: getattr(sc, s) for s in SETTINGS}, r))
        return log

    return body


def storages(v):
    return {id(b.storage): b for t in J.tensors(v) if t.kind != "np" for b in t.cells.values()}


def history_judge(fwd, bwd):
    def judge(p, sc):
        keep = {s: getattr(sc, s) for s in SETTINGS}
        op0 = sc.op
        try:
            for k, (what, settings, value) in enumerate(p.value):
                for s, x in settings.items():
                    setattr(sc, s, x)
                sc.op = op0
                try:
                    if what.startswith("scipy"):
                        scipy_judge(None, sc.form, None, fwd if what == "scipy" else bwd,
                                    what != "scipy")(Path(p, value), sc)
                        continue
                    if what == "adj" and op0 in (JA, TJ):
                        sc.op = TJ if op0 == JA else JA
                    {"mul": fwd, "adj": bwd, "grad": gradient_judge,
                     "scalars": scalar_judge}[what](Path(p, value), sc)
                except Bad as e:
                    raise Bad(f"operation {k + 1} ({what}): {e.msg}", e.where) from None
        finally:
            sc.op = op0
            for s, x in keep.items():
                setattr(sc, s, x)
        owned = {id(b.storage) for _, t in attrs_of(sc.subject, {}) for b in t.cells.values()}
        seen = {}
        for k, (what, _, value) in enumerate(p.value):
            if what == "scalars":
                continue
            for i, b in storages(value).items():
                if i in owned:
                    raise Bad(f"the result of operation {k + 1} ({what}) shares memory with the "
                              "operator's state", J.where(b))
                if seen.setdefault(i, k) != k:
                    raise Bad(f"operations {seen[i] + 1} and {k + 1} share the memory of their "
                              "results", J.where(b))
        J.no_user_writes(p)
    return judge


MUL = [("mul", "list", 3), ("mul", "list", 3), ("mul", "flat-vec", 3), ("mul", "flat", 1)]
PLAIN = {
    "products": MUL,
    "vectors": [("mul", "flat-vec", 3), ("mul", "list-vec", 3), ("mul", "list-vec", 3)],
    "adjoints": [("mul", "list", 2), ("adj", "list", 2), ("adj", "flat", 3), ("mul", "list", 2)],
    "export": [("scipy", "flat-vec", 3), ("scipy", "flat", 2), ("scipy-adj", "flat", 2),
               ("mul", "flat", 2), ("scipy", "flat-vec", 3)],
}
TRAINED = {
    "trained": [("mul", "list", 2), ("update",), ("mul", "list", 2), ("mul", "flat-vec", 2)],
    "trained first": [("update",), ("mul", "list", 2)],
    "trained export": [("scipy", "flat-vec", 2), ("update",), ("scipy", "flat-vec", 2),
                       ("scipy-adj", "flat-vec", 2), ("update",), ("scipy", "flat", 2)],
    "trained adjoint": [("adj", "flat-vec", 2), ("update",), ("adj", "flat-vec", 2),
                        ("mul", "list", 2)],
}
LOSSY = {
    "gradients": [("grad",), ("mul", "list", 2), ("grad",), ("mul", "flat-vec", 2)],
    "trained gradients": [("grad",), ("update",), ("grad",), ("mul", "list", 2), ("update",),
                          ("mul", "flat", 2), ("grad",)],
}
SCALARS = {
    "scalars": [("scalars",), ("mul", "list", 2), ("scalars",), ("mul", "flat-vec", 2)],
}


@check("C33")
def histories(c):
    def add(u, inv, seqs, fwd, bwd):
        for name, steps in seqs.items():
            def b(ip, sc, steps=steps):
                sc.inv = inv
                return sequence(steps)(ip, sc)
            c.cases(f"{name_of(u, inv)}, {name}", u, b,
                    [("history-independence", history_judge(fwd, bwd))])

    for op in (H, G, E, F):
        j = product_judge(COEFF[op], op == F)
        for v in (dict(loss="MSELoss"), dict(loss="CrossEntropyLoss", nbatch=1),
                  dict(loss="BCEWithLogitsLoss", extra=False, nbatch=1),
                  dict(loss="MSELoss", nbatch=1, num_data=50), dict(loss="MSELoss", equal=True),
                  dict(loss="MSELoss", dict_input=True, nbatch=2),
                  dict(loss="CrossEntropyLoss", reduction="sum", extra=False, nbatch=2),
                  dict(loss="MSELoss", check=True, nbatch=1),
                  dict(loss="MSELoss", params=("P1",), nbatch=1),
                  dict(loss="MSELoss", progressbar=True, pdev="cuda", nbatch=2)) + (
                      (dict(loss="MSELoss", blocks=[2, 1]),) if op == H else ()):
            add(dict(op=op, **v), None, {**PLAIN, **TRAINED, **LOSSY}, j, j)
    for op, j, a in ((JA, jac_judge, tjac_judge), (TJ, tjac_judge, jac_judge)):
        for v in ({}, dict(nbatch=1), dict(nbatch=2, dict_input=True), dict(check=True, nbatch=1),
                  dict(params=("P1",)), dict(extra=False, equal=True)):
            add(dict(op=op, loss=None, **v), None, {**PLAIN, **TRAINED}, j, a)
    for act in (("l1", "output", 0), ("l2", "input", 0)):
        for v in (dict(loss="MSELoss"), dict(loss="CrossEntropyLoss"), dict(check=True)):
            add(dict(op=AH, net=MLP, params=ALL, nbatch=1, activation=act,
                     **{"loss": "MSELoss", **v}), None, {**PLAIN, **TRAINED}, act_judge, act_judge)
    kf = product_judge(kfac_coeff, funcs=FUNCS)
    for net, ps in ((MLP, ALL), (CNN, ALL), (MLP, ("W2", "b1")), (MLP, ("b2", "W1", "b1"))):
        for jt in (True, False):
            u = cfg(net=net, params=ps, separate_weight_and_bias=not jt, extra=False,
                    fisher_type="empirical", nbatch=1)
            add(u, None, {**PLAIN, **SCALARS}, kf, kf)
            for kw, judge in ((dict(damping=0.25), inverse_judge(options=[plain(0.25)])),
                              (dict(damping=0.25, use_exact_damping=True),
                               inverse_judge(True, 0.25))):
                for cache in (True, False):
                    add(u, dict(kw, cache=cache), PLAIN, judge, judge)
