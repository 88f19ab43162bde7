"""Operators and estimators with SciPy's interface."""

import ast
import math

from .. import canon
from .. import judges as J
from .. import tensorops as T
from ..poly import P, Poly, atom, info
from ..report import Bad, Skip, exc_name, exc_text
from ..user import UserLinOp, dim, sym
from ..values import (AbsRaise, CPU, DType, LList, Opaque, PyFn, Seg, Sym, Tensor, ax, axsize)
from . import check

F64, F32, I64 = DType("float64"), DType("float32"), DType("int64")


def arr(name, axes, dtype=F64, owner="user:operand"):
    """Array of the user; axes are sizes, tuples of segments or ("cols", K)."""
    full, cols = [], 0
    for a in axes:
        if isinstance(a, tuple) and a and a[0] == "cols":
            cols = a[1]
            full.append(tuple(Seg(1) for _ in range(cols)))
        else:
            full.append(ax(a) if not isinstance(a, tuple) else a)
    polys = {}
    for i in _indices(full):
        tags = [str(k) for k, a in zip(i, full) if len(a) > 1 and not cols]
        if cols:
            tags = [str(i[-1])]
        u = name + ("|" + ",".join(tags) if tags else "")
        polys[i] = Poly.atom(atom(u, kind="operand"))
    t = Tensor.new(full, polys, dtype, CPU, "np", owner=owner, note=name)
    T.Cur.ip.state.setdefault("given", []).append(t)
    return t


def _indices(axes):
    out = [()]
    for a in axes:
        out = [o + (k,) for o in out for k in range(len(a))]
    return out


def mul(ip, A, x):
    return ip.binop(ast.MatMult, A, x)


def new(ip, name, *args, **kw):
    return ip.call(ip.get(name), list(args), kw)


def meth(ip, o, name, *args, **kw):
    return ip.call(ip.getattr(o, name), list(args), kw)


def is_vec(t, size, what, np=True):
    if not isinstance(t, Tensor):
        raise Bad(f"{what} is not an array ({t!r})")
    if np and t.kind != "np":
        raise Bad(f"{what} is a tensor, not an array", J.first_where(t))
    if t.ndim != 1 or not axsize(t.axes[0]).equiv(P(size)):
        raise Bad(f"{what} has shape {t.shape} instead of ({size},)", J.first_where(t))


def is_mat(t, size, k, what):
    if not isinstance(t, Tensor) or t.kind != "np":
        raise Bad(f"{what} is not an array ({t!r})")
    if t.ndim != 2 or not axsize(t.axes[0]).equiv(P(size)) or not axsize(t.axes[1]).equiv(P(k)):
        raise Bad(f"{what} has shape {t.shape} instead of ({size}, {k})", J.first_where(t))
    if len(t.axes[1]) != k:
        raise Skip("columns are not distinguished")


def cells_equal(t, want, what, funcs=None):
    """``want(index, segments)`` gives the documented value of each block."""
    for i, b in t.cells.items():
        J.same_poly(b.get(), want(i), f"{what}{list(i)}", b, funcs=funcs)


# -------------------------------------------------------------------------- inverses
CG, LSMR, NEU = (f"curvlinops:{n}InverseLinearOperator" for n in ("CG", "LSMR", "Neumann"))
# SciPy's defaults (documented: "same as SciPy's")
SCIPY = {"cg": dict(x0=None, maxiter=None, M=None, callback=None, atol=None, tol=1e-5),
         "lsmr": dict(damp=0.0, atol=1e-6, btol=1e-6, conlim=1e8, maxiter=None, show=False,
                      x0=None)}
ALT = {"rtol": "tol"}


def solver_body(name, given, form, twice=False, reset=None, dtype=F64):
    cls, setter = (CG, "set_cg_hyperparameters") if name == "cg" else (
        LSMR, "set_lsmr_hyperparameters")

    def body(ip, sc):
        n = sym("n", 2)
        A = UserLinOp("A", (n, n), symmetric=name == "cg", dtype=dtype)
        inv = new(ip, cls, A)
        want = dict(SCIPY[name])
        vals = {}
        for g in given:
            v = Opaque(f"user's {g}")
            if g == "x0":
                v = arr("x0", [n.poly])
            if g == "show":
                v = True
            if g in ("damp", "atol", "btol", "conlim", "tol"):
                v = Sym(Poly.atom(atom(f"user_{g}", lower=0, kind="scalar")))
            if g == "maxiter":
                v = Sym(Poly.atom(atom("user_maxiter", lower=1, kind="scalar")), True)
            vals[g] = v
        if given:
            meth(ip, inv, setter, **vals)
        want.update(vals)
        if reset:
            meth(ip, inv, setter)
            want = dict(SCIPY[name])
        if form == "info":
            X = arr("x", [n.poly])
            return A, want, X, meth(ip, inv, "matvec_with_info", X)
        if form == "vec":
            X = arr("x", [n.poly])
        elif form == "col":
            X = arr("x", [n.poly, ("cols", 1)])
        else:
            X = arr("x", [n.poly, ("cols", 3)])
        Y = mul(ip, inv, X)
        if twice:
            Y = mul(ip, inv, X)
        return A, want, X, Y, ip.getattr(inv, "shape"), ip.getattr(inv, "dtype")

    return body


def value_same(a, b):
    if a is b:
        return True
    if isinstance(a, Tensor) and isinstance(b, Tensor):
        from .. import tensorops as T
        return a.axes == b.axes and T.same_value(a, b)
    if isinstance(a, (int, float, Sym)) and isinstance(b, (int, float, Sym)) and not (
            isinstance(a, bool) or isinstance(b, bool)):
        return P(a).equiv(P(b))
    return a == b and type(a) is type(b)


def solver_judge(name, form, twice=False):
    def judge(p, sc):
        A, want, X, Y = p.value[:4]
        evs = p.kinds("solver")
        cols = 3 if form == "mat" else 1
        cols *= 2 if twice else 1
        other = {e.data["name"] for e in evs} - {name}
        if other:
            raise Skip(f"solved with {sorted(other)}")
        if len(evs) != cols:
            raise Bad(f"{len(evs)} systems solved for {cols} right-hand sides")
        for e in evs:
            if e.data["A"] is not A:
                raise Bad("solves with another operator", e.loc)
            if e.data["args"]:
                raise Skip("positional solver arguments")
            kw = {ALT.get(k, k): v for k, v in e.data["kwargs"].items()}
            for k, v in want.items():
                got = kw.get(k, SCIPY[name].get(k))
                if not value_same(got, v):
                    raise Bad(f"{name} is called with {k}={got!r} instead of {v!r}", e.loc)
            extra = set(kw) - set(want)
            if extra:
                raise Skip(f"further solver arguments {sorted(extra)}")
        J.no_user_writes(p)
        if form == "info":
            if not isinstance(Y, tuple) or len(Y) != 8:
                raise Bad("the solver's information is not returned completely")
            return
        n = axsize(X.axes[0])
        shape, dt = p.value[4:]
        if not all(P(s).equiv(n) for s in shape) or dt != A.dtype:
            raise Bad(f"shape {shape} or dtype {dt} differs from the operator's")
        if form == "mat":
            is_mat(Y, n, 3, "the result")
        elif form == "vec":
            is_vec(Y, n, "the result")
        cells_equal(Y, lambda i: Poly.func(f"{name}-solve", X.cells[i].get()), "solution",
                    funcs=canon.KNOWN_FUNCS | {f"{name}-solve"})

    return judge


def neumann_body(terms, scale, form, how, nan=None, check=None, dt=F64, xdt=F64):
    def body(ip, sc):
        n = sym("n", 2)
        if nan:
            ip.state["nan_possible"] = True
        A = UserLinOp("A", (n, n), dt)
        s = Sym(Poly.atom(atom("scale", lower=0, kind="scalar"))) if scale == "sym" else scale
        kw = {} if check is None else {"check_nan": check}
        if terms is not None:
            kw["num_terms"] = terms
        if scale is not None:
            kw["scale"] = s
        if how == "init":
            inv = new(ip, NEU, A, **kw)
        else:
            inv = new(ip, NEU, A, num_terms=7, scale=0.125)
            meth(ip, inv, "set_neumann_hyperparameters", **kw)
        X = arr("x", [n.poly] + ([("cols", 3)] if form == "mat" else []), xdt)
        return X, (1 if scale is None else s), mul(ip, inv, X)

    return body


def precise(p, got, *dtypes):
    """The result has the common data type, nothing was converted to a smaller one."""
    want = dtypes[0]
    for d in dtypes[1:]:
        want = T.promote(want, d)
    if T.promote(got.dtype, want) != got.dtype:
        raise Bad(f"the result has dtype {got.dtype.name} for {', '.join(d.name for d in dtypes)}",
                  J.first_where(got))
    for e in p.events:
        if e.kind == "truncate":
            raise Bad("values are truncated to integers", e.loc)


def neumann_judge(terms, form, *dtypes):
    terms = 100 if terms is None else terms

    def judge(p, sc):
        X, scale, Y = p.value
        n = axsize(X.axes[0])
        is_mat(Y, n, 3, "the result") if form == "mat" else is_vec(Y, n, "the result")
        s, a = P(scale), Poly.atom("A")

        def want(i):
            v = X.cells[i].get()
            r = v
            for _ in range(terms):
                v = v - s * a * v
                r = r + v
            return s * r

        cells_equal(Y, want, "truncated series")
        if dtypes:
            precise(p, Y, *dtypes)
        J.no_user_writes(p)

    return judge


def nan_rule(check):
    """Outcome of paths where an iterate is NaN."""
    def outcome(p):
        return any(k[0] == "nan" and v == 0 for k, v, _ in p.ip.decisions)

    def raised(p, sc):
        if not raised_value_error(p):
            raise Bad(f"raises {exc_name(p.value)} instead of ValueError", p.note)
        if not check:
            raise Bad("checks for NaNs although switched off", p.note)

    def judge(p, sc):
        nans = [d for d in p.ip.decisions if d[0][0] == "nan"]
        if check and not nans:
            raise Bad("iterates are not checked for NaNs")
        if check and any(v == 0 for _, v, _ in nans):
            raise Bad("NaNs in an iterate are not reported")
        if not check and nans:
            raise Bad("checks for NaNs although switched off")

    return judge, raised


def raised_value_error(p):
    return exc_name(p.value) == "ValueError"


@check("C12")
def inverses(c):
    for name in ("cg", "lsmr"):
        forms = ("vec", "col", "mat") + (("info",) if name == "lsmr" else ())
        for form in forms:
            for given in [()] + [(k,) for k in SCIPY[name]] + [tuple(SCIPY[name])]:
                c.cases(f"{name}, {form}, given {','.join(given) or 'nothing'}", None,
                        solver_body(name, given, form),
                        [("solver-forwarding", solver_judge(name, form))])
        for form in ("vec", "mat"):
            c.cases(f"{name}, {form}, twice", None,
                    solver_body(name, ("x0",), form, twice=True),
                    [("solver-forwarding", solver_judge(name, form, True))])
            c.cases(f"{name}, {form}, reset to the defaults", None,
                    solver_body(name, tuple(SCIPY[name]), form, reset=True),
                    [("solver-forwarding", solver_judge(name, form))])
            c.cases(f"{name}, {form}, float32", None, solver_body(name, (), form, dtype=F32),
                    [("solver-forwarding", solver_judge(name, form))])
    for terms in (0, 1, 2, 5) + ((3, 4, 6, 8) if c.thorough else ()):
        for scale in (0.5, "sym", 1.0, None):
            for form in ("vec", "mat"):
                for how in ("init", "set"):
                    for chk in (None, False):
                        c.cases(f"neumann, {terms} terms, scale {scale}, {form}, {how}, "
                                f"check_nan={chk}", None,
                                neumann_body(terms, scale, form, how, check=chk),
                                [("neumann-series", neumann_judge(terms, form))])
    for dt, xdt in ((F64, F32), (F64, I64), (F32, F64), (F32, F32)):
        for terms, form in ((1, "vec"), (3, "mat"), (2, "vec")):
            c.cases(f"neumann, {terms} terms, {form}, {dt.name} @ {xdt.name}", None,
                    neumann_body(terms, 0.5, form, "init", dt=dt, xdt=xdt),
                    [("neumann-series", neumann_judge(terms, form, dt, xdt))])
    for chk in (None, True, False):
        j, r = nan_rule(chk is not False)
        c.cases(f"neumann, NaN iterates, check_nan={chk}", None,
                neumann_body(3, 0.5, "vec", "init", nan=True, check=chk),
                [("nan-detection", j)], raises=r)
    c.cases("neumann, default number of terms", None, neumann_terms, [("default-terms", terms_judge)])


def neumann_terms(ip, sc):
    n = sym("n", 2)
    A = UserLinOp("A", (n, n))
    A.apply = lambda ip, x, what: (ip.event("matvec", op=A, x=x, k=0), x)[1]
    return mul(ip, new(ip, NEU, A), arr("x", [n.poly]))


def terms_judge(p, sc):
    n = len(p.kinds("matvec"))
    if n != 100:
        raise Bad(f"{n} products with the operator by default, documented are 100")


# ------------------------------------------------------------------------ sub-matrices
SUB = "curvlinops:SubmatrixLinearOperator"


def sub_body(rows, cols, form, dt=F64, xdt=F64, adj=False, how="init", square=False,
             entry="adjoint"):
    def body(ip, sc):
        n, m = sym("n", 9), sym("m", 9)
        if square:
            m = n
        A = UserLinOp("A", (n, m), dt)
        R, C = LList(rows), LList(cols)
        R.owner = C.owner = "user:indices"
        if how == "init":
            S = new(ip, SUB, A, R, C)
        else:
            S = new(ip, SUB, A, LList([1]), LList([2, 3]))
            if how == "reset":
                mul(ip, S, arr("x0", [(Seg(2),)], xdt))
            if how == "after adjoint":
                S_adj = meth(ip, S, "adjoint")
                mul(ip, S_adj, arr("x0", [(Seg(1),)], xdt))
            meth(ip, S, "set_submatrix", R, C)
            if how == "other first":
                other = new(ip, SUB, A, LList([3]), LList([2, 3]))
                mul(ip, other, arr("x0", [(Seg(2),)], xdt))
        if entry == "twice":
            S = meth(ip, meth(ip, S, "adjoint"), "adjoint")
        k = len(rows if adj else cols)
        if adj and entry == "direct":
            X = arr("x", [(Seg(k),)] + ([("cols", 2)] if form == "mat" else [("cols", 1)]
                                        if form == "col" else []), xdt)
            shape = ip.getattr(S, "shape")
            return (X, meth(ip, S, "rmatvec" if form == "vec" else "rmatmat", X),
                    (shape[1], shape[0]), ip.getattr(S, "dtype"))
        if adj:
            S = ip.getattr(S, "H") if entry == "H" else meth(ip, S, "adjoint")
        X = arr("x", [(Seg(k),)] + ([("cols", 2)] if form == "mat" else [("cols", 1)]
                                    if form == "col" else []), xdt)
        return X, mul(ip, S, X), ip.getattr(S, "shape"), ip.getattr(S, "dtype")

    return body


def sub_judge(rows, cols, form, dt, xdt, adj, square=False):
    r, c = (cols, rows) if adj else (rows, cols)

    def judge(p, sc):
        from .. import tensorops as T
        X, Y, shape, sdt = p.value
        shape = list(shape)
        if [P(s).const() for s in shape] != [len(r), len(c)]:
            raise Bad(f"the sub-matrix has shape {shape} instead of {[len(r), len(c)]}")
        if sdt != dt:
            raise Bad(f"the sub-matrix has dtype {sdt} instead of {dt.name}")
        if form == "mat":
            is_mat(Y, len(r), 2, "the result")
        elif form == "vec":
            is_vec(Y, len(r), "the result")
        want_dt = T.promote(dt, xdt)
        if Y.dtype != want_dt:
            raise Bad(f"the result has dtype {Y.dtype.name} instead of {want_dt.name}",
                      J.first_where(Y))
        a = Poly.atom("A^H" if adj else "A")
        nrow, ncol = (dim("m"), dim("n")) if adj else (dim("n"), dim("m"))
        if square:
            nrow = ncol = dim("n")
        for e in p.kinds("truncate"):
            raise Bad("values are truncated", e.loc)

        def unit(kind, lst, size):
            # names of the units in sa/tensorops.py
            at = ",".join(map(str, lst))
            return Poly.atom(f"{kind}[{at}@{size}]")

        rr, cc = unit("R", r, nrow), unit("E", c, ncol)
        known = {u for q in (rr, cc) for u in q.atoms()}
        for i, b in Y.cells.items():
            got = b.get()
            want = a * rr * cc * X.cells[(0,) + i[1:]].get()
            if got.equiv(want):
                continue
            entry(got, want, i, b)
        J.no_user_writes(p)

    def entry(got, want, i, b):
        if got.equiv(want):
            return
        bad = [u for u in got.atoms() if info(u).kind not in ("op", "operand", "select")]
        split = J.each_case(got, bad)
        if bad and split is None:
            raise Skip(f"unknown units {bad[:2]}")
        for q, _ in split or ():
            entry(q, want, i, b)
        if not split:
            raise Bad(f"entries {list(i)}: got {J.short(got)}, documented {J.short(want)}",
                      J.where(b))

    return judge


@check("C13")
def submatrix(c):
    lists = [([5, 0, 3], [1, 4]), ([2], [7, 3, 0]), ([0, 1, 2], [0, 1, 2]), ([4, 3], [4, 3]),
             ([8], [8])]
    if c.thorough:
        lists += [([6, 5, 4, 3, 2, 1, 0], [0]), ([1], [6, 0]), ([0], [0]), ([7, 2, 5], [5, 2, 7])]
    for rows, cols in lists:
        for form in ("vec", "mat", "col"):
            for adj in (False, True):
                for dt, xdt in ((F64, F64), (F32, F64), (I64, F64), (F64, F32), (F32, F32)):
                    for how in ("init", "set", "reset"):
                        c.cases(f"rows {rows}, cols {cols}, {form}, adjoint={adj}, {dt.name} @ "
                                f"{xdt.name}, {how}", None,
                                sub_body(rows, cols, form, dt, xdt, adj, how),
                                [("sub-matrix", sub_judge(rows, cols, form, dt, xdt, adj))])
            for square in (False, True):
                for adj, entry in ((False, "adjoint"), (False, "twice"), (True, "adjoint"),
                                   (True, "twice"), (True, "H"), (True, "direct")):
                    for how in ("init", "after adjoint", "other first"):
                        c.cases(f"rows {rows}, cols {cols}, {form}, adjoint={adj} ({entry}), "
                                f"square={square}, {how}", None,
                                sub_body(rows, cols, form, F64, F64, adj, how, square, entry),
                                [("sub-matrix",
                                  sub_judge(rows, cols, form, F64, F64, adj, square))])


# ---------------------------------------------------------------- outer products, projector
OUT, PRO = "curvlinops.outer:OuterProductLinearOperator", "curvlinops.outer:Projector"


def outer_body(proj, form, dt=F64, adj=False, twice=False, entry="adjoint", cdt=None, xdt=None):
    def body(ip, sc):
        n, k = sym("n", 2), sym("k", 2)
        A = arr("A", [n.poly, k.poly], dt, "user:matrix")
        cvec = arr("c", [k.poly], cdt or dt, "user:coefficients")
        O = new(ip, PRO, A) if proj else new(ip, OUT, cvec, A)
        if adj and entry != "direct":
            O = ip.getattr(O, "H") if entry == "H" else meth(ip, O, "adjoint")
        cols = {"mat": [("cols", 3)], "col": [("cols", 1)], "vec": []}[form]
        X = arr("x", [n.poly] + cols, xdt or dt)
        if entry == "direct":
            Y = meth(ip, O, ("r" if adj else "") + ("matvec" if form == "vec" else "matmat"), X)
        else:
            Y = mul(ip, O, X)
        if twice:
            Y = mul(ip, O, X)
        return X, Y, ip.getattr(O, "shape"), ip.getattr(O, "dtype")

    return body


def outer_judge(proj, form, dt, *dtypes):
    def judge(p, sc):
        X, Y, shape, odt = p.value
        n = axsize(X.axes[0])
        if not all(P(s).equiv(n) for s in shape) or len(shape) != 2:
            raise Bad(f"the operator has shape {shape}")
        if odt != dt:
            raise Bad(f"the operator has dtype {odt} instead of {dt.name}")
        if form == "mat":
            is_mat(Y, n, 3, "the result")
        elif form == "vec":
            is_vec(Y, n, "the result")
        a = Poly.atom("A")
        w = a * a if proj else a * a * Poly.atom("c")
        cells_equal(Y, lambda i: w * X.cells[i].get(), "product")
        precise(p, Y, dt, *dtypes)
        J.no_user_writes(p)

    return judge


@check("C14")
def outer(c):
    for proj in (False, True):
        for form in ("vec", "mat", "col"):
            for dt in (F64, F32):
                for adj in (False, True):
                    for twice in (False, True):
                        c.cases(f"{'projector' if proj else 'outer product'}, {form}, {dt.name}, "
                                f"adjoint={adj}, twice={twice}", None,
                                outer_body(proj, form, dt, adj, twice),
                                [("outer-product", outer_judge(proj, form, dt))])
                    for entry in ("direct", "H"):
                        c.cases(f"{'projector' if proj else 'outer product'}, {form}, {dt.name}, "
                                f"adjoint={adj}, {entry}", None,
                                outer_body(proj, form, dt, adj, False, entry),
                                [("outer-product", outer_judge(proj, form, dt))])
            for dt, cdt, xdt in ((F64, F32, F32), (F32, F64, F32), (F32, F32, F64), (I64, F64, F64),
                                 (F64, I64, F32), (F32, F64, I64), (I64, F64, F32)):
                c.cases(f"{'projector' if proj else 'outer product'}, {form}, A {dt.name}, "
                        f"c {cdt.name}, x {xdt.name}", None,
                        outer_body(proj, form, dt, cdt=cdt, xdt=xdt),
                        [("outer-product", outer_judge(proj, form, dt, xdt,
                                                       *(() if proj else (cdt,))))])


# -------------------------------------------------------------------------- estimators
EST = {
    "trace": "curvlinops:HutchinsonTraceEstimator",
    "diag": "curvlinops:HutchinsonDiagonalEstimator",
    "norm": "curvlinops:HutchinsonSquaredFrobeniusNormEstimator",
    "hutchpp": "curvlinops:HutchPPTraceEstimator",
}


def est_body(which, dist, samples=1, shape=None, dtype=F64, **kw):
    def body(ip, sc):
        n = sym("n", 9) if shape is None else shape
        m = sym("m", 9) if which == "norm" and shape is None else n
        A = UserLinOp("A", (n, m), dtype)
        O = new(ip, EST[which], A, **kw)
        args = [] if dist is None else [dist]
        vals = []
        for _ in range(samples):
            start = len(ip.events)
            v = ip.call(ip.getattr(O, "sample"), args, {})
            vals.append((v, start, len(ip.events)))
        return n, vals

    return body


def as_poly(v):
    if isinstance(v, Sym):
        return v.poly, None
    if isinstance(v, Tensor):
        u = v.uniform()
        if u is None:
            raise Skip("the estimate has several blocks")
        return u, next(iter(v.cells.values()))
    return P(v), None


def norm_basis(p):
    """Projection identities: q_i q_i^T q_j q_j^T = delta_ij q_i q_i^T."""
    r = Poly()
    for m, cc in p.terms.items():
        qs = [(a, e) for a, e in m if info(a).kind == "basis" or a.startswith("Q(")]
        if any(e % 2 for _, e in qs):
            r = r + Poly({m: cc})
            continue
        if len(qs) > 1:
            continue
        rest = tuple((a, e) for a, e in m if (a, e) not in qs)
        t = Poly({rest: cc})
        if qs:
            t = t * Poly.atom(qs[0][0], 2)
        r = r + t
    return r


DRAWS = {"rademacher": ("binomial",), "normal": ("gauss",)}


def draws_of(poly, kinds=("gauss", "binomial", "unif", "randint")):
    return {a for a in poly.atoms() if info(a).kind in kinds}


def est_judge(which, dist, basis_dist="rademacher", basis=None):
    dist = dist or "rademacher"

    def judge(p, sc):
        n, vals = p.value
        a = Poly.atom("A")
        seen = set()
        for k, (v, lo, hi) in enumerate(vals):
            got, box = as_poly(v)
            if which == "diag":
                if not isinstance(v, Tensor):
                    raise Bad("the diagonal estimate is not an array")
                is_vec(v, P(n), "the estimate")
            elif isinstance(v, Tensor) and v.ndim:
                raise Bad(f"the estimate is not a scalar but has shape {v.shape}", J.where(box))
            ds = draws_of(got)
            if any(info(d).kind not in DRAWS[dist] for d in ds):
                raise Bad(f"estimate {k} uses {sorted(ds)} instead of {dist} entries",
                          J.where(box))
            if ds & seen:
                raise Bad(f"estimate {k} reuses the random vector of an earlier one", J.where(box))
            seen |= ds
            inner = set()
            if which == "hutchpp":
                for u in got.atoms():
                    if u.startswith("Q("):
                        inner |= {d for d in ds if d in u}
                if inner:
                    raise Bad(f"estimate {k} reuses the random vectors of the subspace",
                              J.where(box))
            odd = [u for u in got.atoms() if info(u).fname in ("min", "max", "abs")]
            for e, case in J.each_case(got, odd) or [(got, "")]:
                expected(e, case, a, n, box)
        J.no_user_writes(p)

    def expected(got, case, a, n, box):
        try:
            e = canon.expect(got)
        except canon.Undecided as x:
            raise Skip(x) from None
        want = a * a if which == "norm" else a
        if which == "hutchpp":
            e, want = hutchpp_want(e, a, n, basis, basis_dist, box)
        unk = [u for u in e.atoms() if info(u).kind not in ("op", "operand", "gauss",
                                                           "binomial", "basis", "scalar")
               and not u.startswith("Q(")]
        if not e.equiv(want):
            if unk:
                raise Skip(f"unknown units {unk[:2]}")
            raise Bad(f"the expected estimate{case and ', '}{case} is {J.short(e)} instead of "
                      f"{J.short(want)}", J.where(box))

    return judge


def hutchpp_want(e, a, n, basis, dist, box):
    qs = sorted({u for u in e.atoms() if u.startswith("Q(")}, key=lambda u: int(
        u[2:u.index(";")]))
    if len(qs) != basis:
        raise Bad(f"the subspace has {len(qs)} directions instead of {basis}", J.where(box))
    kinds = {"rademacher": "binomial[1,0.5]", "normal": "gauss"}
    for q in qs:
        wrong = [k for k in kinds.values() if k in q and k != kinds[dist]]
        if wrong:
            raise Bad(f"the subspace uses {wrong[0]} entries instead of {dist}", J.where(box))
    s = Poly()
    for q in qs:
        s = s + Poly.atom(q, 2)
    want = a * s + a * (Poly.num(1) - s) * (Poly.num(1) - s)
    return norm_basis(e), norm_basis(want)


def columns_of(x):
    """The columns which an operator is applied to (None where not uniform)."""
    if x.ndim == 1:
        return [x.uniform()]
    out = []
    for k, seg in enumerate(x.axes[1]):
        n = seg.size.const()
        if n is None:
            raise Skip("number of columns")
        ps = [x.cells[i, k].get() for i in range(len(x.axes[0]))]
        out += [ps[0] if all(q.same(ps[0]) for q in ps) else None] * int(n)
    return out


def span_judge(basis, dist):
    """Hutch++'s subspace is spanned by products with ``basis`` independent random vectors."""
    def judge(p, sc):
        n, vals = p.value
        lo, hi = vals[0][1:]
        want = 2 * basis + 1
        first = [u for e in p.kinds("matvec") for u in columns_of(e.data["x"])][:basis]
        seen = set()
        for u in first:
            if u is None:
                raise Skip("blocks")
            ds = draws_of(u)
            if not ds or any(info(d).kind not in DRAWS[dist] for d in ds):
                raise Bad(f"the subspace is probed with {J.short(u)} instead of {dist} entries")
            if ds & seen:
                raise Bad("the subspace is probed with the same vector twice")
            seen |= ds
        per = [sum(len(columns_of(e.data["x"])) for e in p.events[a:b] if e.kind == "matvec")
               for _, a, b in vals]
        if per[0] != want or any(k != 1 for k in per[1:]):
            raise Bad(f"samples use {per} products with the operator, expected {want} for the "
                      "first and one for each further sample")

    return judge


@check("C17")
def estimators(c):
    for which in ("trace", "diag", "norm"):
        for dist in (None, "rademacher", "normal"):
            for k in (1, 3):
                for dt in (F64, F32):
                    c.cases(f"{which}, {dist}, {k} samples, {dt.name}", None,
                            est_body(which, dist, k, dtype=dt),
                            [("unbiased", est_judge(which, dist))])
            c.cases(f"{which}, {dist}, dimension 1", None,
                    est_body(which, dist, 2, shape=1), [("unbiased", est_judge(which, dist))])
    for dist in (None, "rademacher", "normal"):
        for bd in (None, "rademacher", "normal"):
            for nb in (1, 2, 3):
                kw = {"basis_dim": nb}
                if bd:
                    kw["basis_distribution"] = bd
                c.cases(f"hutch++, {dist}, basis {nb} {bd}", None,
                        est_body("hutchpp", dist, 2, **kw),
                        [("unbiased", est_judge("hutchpp", dist, bd or "rademacher", nb)),
                         ("subspace", span_judge(nb, bd or "rademacher"))])
    for n, nb in ((50, 1), (99, 1), (100, 1), (250, 2), (399, 3), (5000, 10)):
        c.cases(f"hutch++, default basis for dimension {n}", None,
                est_body("hutchpp", None, 1, shape=n),
                [("default-basis", span_judge(nb, "rademacher"))])
    for n in (2, 3):
        c.cases(f"hutch++, basis of the full dimension {n}", None,
                est_body("hutchpp", None, 1, shape=n, basis_dim=n),
                [("full-basis", lambda p, sc: None)])


# ----------------------------------------------------------------------------- spectra
SPEC = "curvlinops.papyan2020traces.spectrum:"
SPECTRUM_FUNCS = {"exp", "log", "abs", "sqrt", "linspace", "eigvals", "eigvecs", "norm"}


def lanczos_body(ncv, tri):
    def body(ip, sc):
        n = sym("n", 9)
        A = UserLinOp("A", (n, n), symmetric=True)
        kw = {} if tri is None else {"use_eigh_tridiagonal": tri}
        return n, ip.call(ip.get(SPEC + "fast_lanczos"), [A, ncv], kw)

    return body


def _norm(p):
    return Poly.func("norm", p)


def lanczos_judge(ncv):
    """The tridiagonal matrix follows the three-term recurrence of the operator."""
    def judge(p, sc):
        n, res = p.value
        tri = p.kinds("tridiag")
        if len(tri) != 1:
            raise Skip("no tridiagonal matrix")
        evs = p.kinds("matvec")
        if len(evs) != ncv:
            raise Bad(f"{len(evs)} products with the operator instead of {ncv}")
        draws = p.kinds("draw")
        if len(draws) != 1:
            raise Bad(f"{len(draws)} random starting vectors")
        start = evs[0].data["x"]
        is_vec(start, P(n), "the starting vector")
        u = start.uniform()
        gs = draws_of(u, ("gauss", "binomial", "unif"))
        if len(gs) != 1 or info(next(iter(gs))).kind != "gauss":
            raise Bad(f"the starting vector is {J.short(u)}, not Gaussian")
        g = Poly.atom(next(iter(gs)))
        v = g * _norm(g).pow(-1)
        if not u.equiv(v):
            raise Bad(f"the starting vector {J.short(u)} is not normalized")
        a = Poly.atom("A")
        main, off = tri[0].data["main"], tri[0].data["off"]
        if len(main) != ncv or len(off) != ncv - 1:
            raise Skip("blocks of the tridiagonal matrix")
        prev, beta = None, None
        for m in range(ncv):
            x = evs[m].data["x"].uniform()
            if not x.equiv(v):
                raise Bad(f"Lanczos vector {m} is {J.short(x)}", evs[m].loc)
            w = a * v
            alts = [w * v]
            if m:
                w = w - beta * prev
                alts.append(w * v)
            got = main[m]
            hit = [q for q in alts if got.equiv(q)]
            if not hit:
                raise Bad(f"diagonal entry {m} is {J.short(got)} instead of {J.short(alts[-1])}",
                          tri[0].loc)
            w = w - hit[0] * v
            if m < ncv - 1:
                beta = _norm(w)
                if not off[m].equiv(beta):
                    raise Bad(f"off-diagonal entry {m} is {J.short(off[m])} instead of "
                              f"{J.short(beta)}", tri[0].loc)
                prev, v = v, w * beta.pow(-1)
        if not isinstance(res, tuple) or len(res) != 2:
            raise Bad("eigenvalues and eigenvectors are not returned")
        for t, f, dims in zip(res, ("eigvals", "eigvecs"), (1, 2)):
            if not isinstance(t, Tensor) or t.ndim != dims:
                raise Bad(f"{f} have the wrong dimension")
            fs = {info(q).fname for b in t.cells.values() for q in b.get().atoms()}
            if fs != {f}:
                raise Bad(f"{f} are {fs}")

    return judge


def bounds_body(func, given):
    def body(ip, sc):
        n = sym("n", 9)
        A = UserLinOp("A", (n, n), symmetric=True)
        tol = Sym(Poly.atom(atom("tol", lower=0, kind="scalar")))
        b = given and tuple(
            None if g is None else Sym(Poly.atom(atom(f"user_{k}", kind="scalar")))
            for k, g in zip(("min", "max"), given))
        return A, tol, b, ip.call(ip.get(SPEC + func), [A], {"tol": tol, "boundaries": b})

    return body


def bounds_judge(log, given):
    def judge(p, sc):
        A, tol, b, res = p.value
        names = ("lambda_absmin", "lambda_absmax") if log else ("lambda_min", "lambda_max")
        res = list(p.ip.iterate(res)) if not isinstance(res, (list, tuple)) else list(res)
        if len(res) != 2:
            raise Bad(f"{len(res)} boundaries")
        need = 0
        for k, (r, name) in enumerate(zip(res, names)):
            got, box = as_poly(r)
            if given and given[k] is not None:
                want = P(b[k])
                if log and not got.equiv(want):
                    want = Poly.func("abs", want)
            else:
                want = Poly.atom(name + "(A)")
                need += 1
                if log and not got.equiv(want):
                    want = Poly.func("abs", want)
            if not got.equiv(want):
                raise Bad(f"boundary {k} is {got} instead of {want}", J.where(box))
        evs = p.kinds("eigsh")
        if not need and evs:
            raise Bad("computes boundaries the user has given", evs[0].loc)
        for e in evs:
            if e.data["A"] is not A:
                raise Bad("boundaries of another operator", e.loc)
            if not P(e.data["tol"]).equiv(P(tol)):
                raise Bad(f"boundaries are computed with tolerance {e.data['tol']}", e.loc)

    return judge


DENS = ("lanczos_approximate_spectrum", "lanczos_approximate_log_spectrum")
CACHED = (("LanczosApproximateSpectrumCached", "approximate_spectrum"),
          ("LanczosApproximateLogSpectrumCached", "approximate_log_spectrum"))


def dens_args(opts):
    kw = {}
    for k in ("kappa", "margin", "epsilon"):
        if k in opts:
            kw[k] = opts[k]
    return kw


def density_body(log, ncv, reps, num, opts, cached=None):
    def body(ip, sc):
        n = sym("n", 9)
        A = UserLinOp("A", (n, n), symmetric=True)
        kw = dens_args(opts)
        kw["num_points"] = num
        ctor = {}
        if "tol" in opts:
            ctor["boundaries_tol"] = opts["tol"]
        if opts.get("bounds"):
            ctor["boundaries"] = tuple(Sym(Poly.atom(atom(f"user_{k}", lower=0, kind="scalar")))
                                       for k in ("min", "max"))
        out = []
        if cached is None:
            r = ip.call(ip.get(SPEC + DENS[log]), [A, ncv], {**ctor, **kw, "num_repeats": reps})
            out.append((reps, r, 0))
        else:
            cls, m = CACHED[log]
            O = ip.call(ip.get(SPEC + cls), [A, ncv], ctor)
            for k in cached:
                lo = len(ip.events)
                r = meth(ip, O, m, **{**kw, "num_repeats": k})
                out.append((k, r, lo))
        return A, out

    return body


def density_judge(log, ncv, reps, num, opts, cached=None):
    def judge(p, sc):
        A, out = p.value
        want_tol = opts.get("tol", 1e-2)
        for e in p.kinds("eigsh"):
            if not P(e.data["tol"]).equiv(P(want_tol)):
                raise Bad(f"boundaries are computed with tolerance {e.data['tol']}", e.loc)
            if opts.get("bounds"):
                raise Bad("computes boundaries the user has given", e.loc)
        tri = p.kinds("tridiag")
        most = max(cached) if cached else reps
        if len(tri) != most:
            raise Bad(f"{len(tri)} Lanczos runs for at most {most} repeats")
        sigs = [e.data["sig"] for e in tri]
        if any(sigs[i].equiv(sigs[k]) for i in range(len(sigs)) for k in range(i)):
            raise Bad("repeats use the same Lanczos run", tri[0].loc)
        for e in p.kinds("matvec"):
            if e.data["op"] is not A:
                raise Bad("uses another operator", e.loc)
        if any(len(e.data["main"]) != ncv for e in tri):
            raise Bad("Lanczos runs have the wrong number of vectors", tri[0].loc)
        eps = P(opts.get("epsilon", 1e-5))
        kappa = opts.get("kappa", 3.0 if not log or cached else 1.04)
        margin = opts.get("margin", 0.05)
        if opts.get("bounds"):
            lo, hi = Poly.atom("user_min"), Poly.atom("user_max")
            if log:
                lo, hi = Poly.func("abs", lo), Poly.func("abs", hi)
        elif log:
            lo, hi = (Poly.func("abs", Poly.atom(f"lambda_abs{k}(A)")) for k in ("min", "max"))
        else:
            lo, hi = Poly.atom("lambda_min(A)"), Poly.atom("lambda_max(A)")
        if log:
            lo, hi = (Poly.func("log", q + eps) for q in (lo, hi))
        wid = hi - lo
        lo, hi = lo - wid * margin, hi + wid * margin
        cen, d = (lo + hi) * 0.5, (hi - lo) * 0.5
        unit = Poly.func("linspace", P(num), extra="True")
        s = unit * 2 - 1
        grid = lo + (hi - lo) * unit
        if log:
            grid = Poly.func("exp", s * d + cen)
        sigma = 2 / (ncv - 1) / math.sqrt(8 * math.log(kappa))
        for k, res, start in out:
            if not isinstance(res, tuple) or len(res) != 2:
                raise Bad("grid and density are not returned")
            acc = Poly()
            for e in tri[:k]:
                sig = _eig_unit(p, e)
                ev, vec = Poly.func("eigvals", sig), Poly.func("eigvecs", sig)
                if log:
                    ev = Poly.func("log", Poly.func("abs", ev) + eps)
                z = (s - (ev - cen).div(d)) * (1 / sigma)
                gauss = Poly.func("exp", z * z * -0.5) * (1 / (sigma * math.sqrt(2 * math.pi)))
                w = vec * vec * Poly.atom(f"[0@{ncv}]", 2)  # summed over the nodes
                acc = acc + w * gauss
            acc = acc.div(d) * (1 / k)
            if log:
                acc = acc.div(grid)
            for t, want, what in zip(res, (grid, acc), ("grid", "density")):
                if not isinstance(t, Tensor) or t.ndim != 1 or not axsize(t.axes[0]).equiv(P(num)):
                    raise Bad(f"the {what} does not have {num} points")
                for i, b in t.cells.items():
                    got = b.get()
                    if got.equiv(want):
                        continue
                    todo = [(got, "")]
                    while todo:
                        got, case = todo.pop()
                        if got.equiv(want):
                            continue
                        unk = [u for u in got.atoms() if info(u).fname and info(u).fname not in
                               SPECTRUM_FUNCS]
                        if unk:
                            split = J.each_case(got, unk)
                            if split is None:
                                raise Skip(f"unknown units {unk[:2]}")
                            todo += [(q, f" where {c}") for q, c in split]
                            continue
                        raise Bad(f"the {what} for {k} repeats is {J.short(got)}{case} instead of "
                                  f"{J.short(want)}", J.where(b))

    return judge


def _eig_unit(p, e):
    """Unit of the eigendecomposition of a tridiagonal matrix (see ext._eigh)."""
    n = len(e.data["main"])
    return Poly.atom(f"eig({n};{e.data['sig']})")


@check("C18")
def spectra(c):
    for ncv in (2, 3, 4) + ((5,) if c.thorough else ()):
        for tri in (None, True, False):
            c.cases(f"fast Lanczos, {ncv} vectors, tridiagonal={tri}", None, lanczos_body(ncv, tri),
                    [("lanczos-recurrence", lanczos_judge(ncv))])
    for log, f in ((False, "approximate_boundaries"), (True, "approximate_boundaries_abs")):
        for given in (None, (1, 1), (None, 1), (1, None)) + (((None, None),)):
            c.cases(f"{f}, given {given}", None, bounds_body(f, given),
                    [("boundaries", bounds_judge(log, given))])
    for log in (0, 1):
        all_opts = [{}, {"kappa": 2.0}, {"margin": 0.25}, {"tol": 0.5}, {"bounds": True}]
        if log:
            all_opts.append({"epsilon": 0.125})
        for opts in all_opts:
            for ncv, reps, num in ((3, 1, 4), (2, 2, 4), (4, 3, 5)) + (
                    ((3, 4, 7), (5, 2, 1024)) if c.thorough else ()):
                c.cases(f"{DENS[log]}, {ncv} vectors, {reps} repeats, {opts}", None,
                        density_body(log, ncv, reps, num, opts),
                        [("density", density_judge(log, ncv, reps, num, opts))])
            for cached in ((1,), (2,), (1, 2), (3, 1), (2, 2)):
                c.cases(f"{CACHED[log][0]}, repeats {cached}, {opts}", None,
                        density_body(log, 3, None, 4, opts, cached),
                        [("density", density_judge(log, 3, None, 4, opts, cached))])
