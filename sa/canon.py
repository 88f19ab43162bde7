"""Normal forms of provenance polynomials (expectations, idempotent units)."""

from __future__ import annotations

from .poly import P, Poly, info


class Undecided(Exception):
    """The normal form contains units whose meaning is unknown to the analysis."""


def draw_of(a):
    """(kind, key) if the unit is a random draw, else None."""
    i = info(a)
    if i.kind in ("gauss", "unif", "binomial", "randint"):
        return i.kind, a
    if i.fname == "bernoulli":
        return "bernoulli", a
    if i.fname == "onehot" and isinstance(i.args[0], Poly):
        q = _single(i.args[0])
        if q is not None and info(q).fname == "label":
            return "onehot", a
    return None


def _single(p):
    if len(p.terms) == 1:
        ((m, c),) = p.terms.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def is_random(p):
    return any(draw_of(a) for a in p.atoms()) or any(
        draw_of(d) for a in p.atoms() for d in info(a).deps)


def draws_in(p):
    return {a for a in p.atoms() if draw_of(a)}


def moment(kind, a, e):
    """E[a^e] as polynomial or None (unknown)."""
    if not isinstance(e, int) or e < 0:
        return None
    if kind == "gauss":
        if e % 2:
            return Poly()
        return {0: Poly.num(1), 2: Poly.num(1), 4: Poly.num(3)}.get(e)
    if kind == "binomial":
        n, p = info(a).args
        if n == 1:
            return Poly.num(p) if e else Poly.num(1)
        return None
    if kind == "bernoulli":
        p = info(a).args[0]
        return p if e else Poly.num(1)
    if kind == "onehot":
        lab = _single(info(a).args[0])
        p = info(lab).args[0]
        if "norepl" in lab:
            # drawing without replacement: later labels do not have the class probabilities
            p = Poly.func("inclusion", p)
        return {0: Poly.num(1), 1: p, 2: Poly.func("diag", p)}.get(e)
    return None


def expect(p):
    """Expectation over all (independent) draws."""
    r = Poly()
    for m, c in p.terms.items():
        rest = {(): c}
        t = Poly({tuple((a, e) for a, e in m if draw_of(a) is None): c})
        for a, e in m:
            d = draw_of(a)
            if d is None:
                continue
            q = moment(d[0], a, e)
            if q is None:
                raise Undecided(f"moment {e} of {a}")
            t = t * q
            if not t.terms:
                break
        r = r + t
    return r


def merge(p):
    """Sum over all positions of an index: first + generic + last = all."""
    marks = {}
    for a in p.atoms():
        i = info(a)
        if i.kind == "pick":
            marks.setdefault(i.args[1], {})[a] = i.args[0]
    for size, ms in marks.items():
        want = [P(0), Poly.atom(f"i<{size}>"), P(size) - 1]
        names = [next((a for a, q in ms.items() if q.same(w)), None) for w in want]
        if None in names or len(ms) != 3:
            continue
        parts = [{}, {}, {}]
        rest = {}
        for m, c in p.terms.items():
            hit = [k for k, n in enumerate(names) if n in dict(m)]
            if len(hit) == 1:
                e = dict(m)[names[hit[0]]]
                key = (e, tuple(x for x in m if x[0] != names[hit[0]]))
                parts[hit[0]][key] = c
            elif hit:
                break
            else:
                rest[m] = c
        else:
            if parts[0] and all(
                Poly({k[1] + (("^e", k[0]),): c for k, c in q.items()}).same(
                    Poly({k[1] + (("^e", k[0]),): c for k, c in parts[0].items()}))
                for q in parts[1:]
            ):
                p = Poly(rest) + Poly({k[1]: c for k, c in parts[0].items()})
    return p


KNOWN_KINDS = {"", "operand", "param", "out", "J", "op", "composite", "gauss", "unif", "binomial",
               "scalar", "func", "draw", "eig", "factor", "act", "label"}
KNOWN_FUNCS = {"softmax", "inclusion", "sigmoid", "diag", "onehot", "label", "bernoulli", "MSE", "CE", "BCE",
               "LOSS", "L1"}


def unknown(p, funcs=KNOWN_FUNCS):
    """Units of ``p`` the normal form cannot interpret."""
    out = []
    for a in p.atoms():
        i = info(a)
        if i.kind in ("pick", "select", "pattern", "uninit"):
            out.append(a)
        elif i.fname and i.fname not in funcs and not (
            i.fname[:1] == "D" and i.fname[1:2].isdigit()
        ):
            out.append(a)
        elif i.kind == "composite":
            out += unknown(i.args[0], funcs)
    return out


def coeff_of(p, kinds=("operand",)):
    """Split into {operand monomial: coefficient polynomial}."""
    r = {}
    for m, c in p.terms.items():
        key = tuple((a, e) for a, e in m if info(a).kind in kinds)
        rest = tuple((a, e) for a, e in m if info(a).kind not in kinds)
        r.setdefault(key, {})[rest] = c
    return {k: Poly(v) for k, v in r.items()}


def scalars(m):
    """Scalar part (dimensions) and tensor part of a monomial."""
    sc, te = [], []
    for a, e in m:
        i = info(a)
        if i.kind == "scalar" or i.lower is not None:
            sc.append((a, e))
        elif i.kind == "composite" and not i.args[0].live() and all(
            info(b).kind == "scalar" or info(b).lower is not None for b in i.args[0].atoms()
        ):
            sc.append((a, e))
        else:
            te.append((a, e))
    return tuple(sc), tuple(te)
