"""Rules on the abstract results."""

from __future__ import annotations

from . import canon
from . import tensorops as T
from .poly import P, Poly, info
from .report import Bad, Skip
from .values import LList, Tensor, axsize


def where(box):
    """Construct that wrote a block."""
    if box is None or box.loc is None:
        return None
    path, line, func = box.loc
    k = path.find("curvlinops")
    return f"{path[k:]}:{line} ({func})"


def short(p, n=110):
    s = str(p)
    return s if len(s) <= n else s[:n] + "..."


def size_of(p):
    n = Poly.num(1)
    for a in p.axes:
        n = n * axsize(a)
    return n


def pieces(value, plist_axes, K, vec=False):
    """Split a product into {(piece, column): [(poly, box)]}.

    ``value`` is a list of tensors or a flat tensor; ``plist_axes`` are the axes of the
    pieces of the row space; ``K`` the number of columns (blocks of size one).
    """
    out = {}
    if isinstance(value, (list, tuple)):
        if len(value) != len(plist_axes):
            raise Bad(f"{len(value)} pieces instead of {len(plist_axes)}")
        for j, (t, axes) in enumerate(zip(value, plist_axes)):
            if not isinstance(t, Tensor):
                raise Bad(f"piece {j} of the result is not a tensor ({t!r})")
            want = list(axes)
            n = len(want)
            if t.ndim != n + (0 if vec else 1):
                raise Bad(f"piece {j} has {t.ndim} dimensions, expected {n + (0 if vec else 1)}",
                          first_where(t))
            for k, a in enumerate(want):
                if not axsize(t.axes[k]).equiv(axsize(a)):
                    raise Bad(f"piece {j} has size {axsize(t.axes[k])} instead of {axsize(a)} in "
                              f"dimension {k}", first_where(t))
            ncol(t, K, vec)
            for i, b in t.cells.items():
                out.setdefault((j, None if vec else i[-1]), []).append((b.get(), b))
        return out
    t = value
    if not isinstance(t, Tensor):
        raise Bad(f"the result is not a tensor ({t!r})")
    if t.ndim != (1 if vec else 2):
        raise Bad(f"the result has {t.ndim} dimensions", first_where(t))
    sizes = []
    for axes in plist_axes:
        n = Poly.num(1)
        for a in axes:
            n = n * axsize(a)
        sizes.append(n)
    tot = sum(sizes[1:], sizes[0])
    if not axsize(t.axes[0]).equiv(tot):
        raise Bad(f"the result has {axsize(t.axes[0])} rows instead of {tot}", first_where(t))
    ncol(t, K, vec)
    owner, j, acc = [], 0, Poly()
    for s in t.axes[0]:
        owner.append(j)
        acc = acc + s.size
        if j < len(sizes) and acc.equiv(sizes[j]):
            j, acc = j + 1, Poly()
        elif j < len(sizes) and (sizes[j] - acc).sign() == -1:
            raise Skip("result blocks do not match the pieces")
    for i, b in t.cells.items():
        out.setdefault((owner[i[0]], None if vec else i[-1]), []).append((b.get(), b))
    return out


def first_where(t):
    for b in t.cells.values():
        return where(b)
    return None


def ncol(t, K, vec):
    if vec:
        return
    if not axsize(t.axes[-1]).equiv(P(K)):
        raise Bad(f"the result has {axsize(t.axes[-1])} columns instead of {K}", first_where(t))
    if len(t.axes[-1]) != K:
        raise Skip("columns are not distinguished")


def same_poly(got, want, what, box, expectation=False, funcs=None):
    """``got`` equals ``want`` as provenance polynomial."""
    g = got
    if expectation:
        try:
            g = canon.expect(got)
        except canon.Undecided as e:
            raise Skip(f"{what}: {e}") from None
    g = canon.merge(g.detach())
    if g.equiv(want):
        return
    unk = canon.unknown(g, canon.KNOWN_FUNCS if funcs is None else funcs)
    if unk:
        split = each_case(g, unk)
        if split is not None:
            for q, case in split:
                same_poly(q, want, f"{what}, {case}", box, funcs=funcs)
            return
        # units outside the domain: only a scalar discrepancy of matching terms is decided
        raise Skip(f"{what}: unknown units {unk[:2]}")
    raise Bad(f"{what}: got {short(g)}, documented {short(want)}", where(box))


def no_rounding(p, *dtypes):
    """No value is rounded to a data type less precise than all of ``dtypes``."""
    low = min(T.BITS.get(d.name, 99) for d in dtypes)
    for e in p.events:
        if e.kind == "rounded" and T.BITS[e.data["to"]] < low:
            raise Bad(f"intermediate values of {e.data['frm']} are rounded to {e.data['to']}",
                      e.loc)


def cases(u):
    """What the unit may be equal to, all of which do occur."""
    i = info(u)
    if i.fname == "abs" and i.args and sign_free(i.args[0]):
        x = i.args[0]
        return [(u, x, f"{x} positive"), (u, -x, f"{x} negative")]
    if i.fname in ("min", "max") and len(i.args) == 2:
        lo, hi = attained(i.args[0] - i.args[1])
        if not lo < 0 < hi:
            return None
        return [(u, x, f"{i.fname} is {x}") for x in i.args]
    return None


def deep(p, u, q):
    """``p`` with the unit ``u`` replaced, also within the arguments of functions."""

    def f(a):
        if a == u:
            return q
        i = info(a)
        if not any(isinstance(x, Poly) for x in i.args or ()) or a not in holders(u, p):
            return Poly.atom(a)
        if i.kind == "composite":
            return deep(i.args[0], u, q)
        if i.fname:
            return Poly.func(i.fname, *[deep(x, u, q) if isinstance(x, Poly) else x for x in i.args],
                             kind="" if i.kind == "func" else i.kind, extra=i.extra)
        return Poly.atom(a)

    return p.subst(f)


def holders(u, p):
    """The units of ``p`` that have ``u`` in their arguments."""
    out = set()

    def inside(q):
        r = False
        for m in q.terms:
            for a, _ in m:
                h = a == u
                for x in info(a).args or ():
                    if isinstance(x, Poly) and inside(x):
                        h = True
                if h:
                    out.add(a)
                r = r or h
        return r

    inside(p)
    return out


def each_case(got, unk):
    """Variants of ``got``, all of which do occur, without the units ``unk``; None if unknown."""
    split = [c for c in map(cases, unk) if c]
    if not split or len(split) != len(unk):
        return None
    return [(deep(got, u, q), case) for u, q, case in split[0]]


def attained(p):
    """Infimum and supremum of the values that ``p`` takes, (0, 0) if unknown."""
    inf = float("inf")
    c = p.const()
    if c is not None:
        return c, c
    if sign_free(p):
        return -inf, inf
    free = p.terms.get((), 0)
    rest = [(m, c) for m, c in p.terms.items() if m]
    if len(rest) == 1 and len(rest[0][0]) == 1 and rest[0][0][0][1] == 1:
        i, c = info(rest[0][0][0][0]), rest[0][1]
        if i.fname in ("min", "max") and len(i.args) == 2:
            (a, b), (d, e) = map(attained, i.args)
            if a == b or d == e:
                f = min if i.fname == "min" else max
                r = sorted((free + c * f(a, d), free + c * f(b, e)))
                return tuple(r)
    return 0, 0


def sign_free(p):
    """Of either sign: linear in the operand or the wrapped matrix (which may be multiples of any
    number), or in its extreme eigenvalues (it may be a multiple of the identity)."""
    if not isinstance(p, Poly) or not p.terms:
        return False
    for kind in ("operand", "op"):
        deg = [[e for a, e in m if info(a).kind == kind] for m in p.terms]
        if [1] in deg and all(d in ([], [1]) for d in deg):
            return True
    lead = 0
    for m, c in p.terms.items():
        eig = [(a, e) for a, e in m if str(a).startswith("lambda_m")]
        if not m:
            continue  # the eigenvalues dominate
        if len(m) != 1 or eig != list(m) or m[0][1] != 1:
            return False
        lead += c
    return lead != 0


def tensor_meta(t, dtype=None, device=None, what="result", graph_free=True):
    if graph_free and t.live():
        for b in t.cells.values():
            if b.get().live():
                raise Bad(f"{what} is attached to the autograd graph", where(b))
    if dtype is not None and t.dtype != dtype:
        raise Bad(f"{what} has dtype {t.dtype.name} instead of {dtype.name}", first_where(t))
    if device is not None and t.device != device:
        raise Bad(f"{what} is on {t.device.name} instead of {device.name}", first_where(t))


def tensors(v):
    if isinstance(v, Tensor):
        yield v
    elif isinstance(v, dict):
        for x in v.values():
            yield from tensors(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from tensors(x)


def user_owned(o):
    return isinstance(o, str) and o.startswith("user:")


def no_user_writes(p, allow=()):
    """No event of the path modifies memory or containers of the user."""
    for e in p.events:
        d = e.data
        if e.kind in ("mutate", "container-write"):
            st = d.get("storage")
            o = st.owner if st is not None else d.get("owner")
            if user_owned(o) and o not in allow:
                n = f":{st.note}" if st is not None and st.note else ""
                raise Bad(f"writes to {o}{n} ({d.get('op', '')})", e.loc)


def no_alias(p, value, what="result"):
    for t in tensors(value):
        for b in t.cells.values():
            if user_owned(b.storage.owner):
                raise Bad(f"{what} shares memory with {b.storage.owner}"
                          f"{':' + b.storage.note if b.storage.note else ''}", where(b))
