"""Units algebra: sums of monomials over named atoms, with rational exponents.

A ``Poly`` abstracts how a value was produced: each monomial is a numeric coefficient
times a product of atoms (units) raised to exponents. It serves as symbolic integer
(tensor dimensions), as unit of measure (normalisation factors), and as provenance of
tensors (which operand, factor, batch or random draw enters, and how often).
"""

from __future__ import annotations

import hashlib
from fractions import Fraction
from math import isclose

MAX_TERMS = 400
TOL = 1e-9


class AtomInfo:
    """Facts about an atom (unit)."""

    __slots__ = ("name", "live", "deps", "kind", "args", "lower", "fname", "extra")

    def __init__(self, name, live=False, deps=(), kind="", args=(), lower=None, fname="", extra=""):
        self.name, self.live = name, live
        self.deps, self.kind, self.args = frozenset(deps), kind, tuple(args)
        self.lower = lower  # lower bound of an integer quantity
        self.fname, self.extra = fname, extra


ATOMS: dict = {}


def atom(name, **kw):
    """Register an atom and return its name."""
    if name not in ATOMS:
        ATOMS[name] = AtomInfo(name, **kw)
    return name


def info(name):
    return ATOMS.get(name) or AtomInfo(name)


def const_name(a):
    """Name of the atom's graph-free (detached) version."""
    i = info(a)
    if not i.live:
        return a
    n = "~" + a
    if n not in ATOMS:
        ATOMS[n] = AtomInfo(n, False, i.deps | {a}, i.kind, i.args)
    return n


def _detach_atom(a):
    i = info(a)
    if not i.live:
        return Poly.atom(a)
    if i.kind == "composite":
        return Poly.atom(i.args[0].detach()._composite())
    if i.fname:
        return Poly.func(
            i.fname, *[x.detach() if isinstance(x, Poly) else x for x in i.args], extra=i.extra
        )
    return Poly.atom(const_name(a))


# rules for derivatives of named functions: name -> f(args) -> list of partial derivatives
DRULES: dict = {}


def _datom(a, var):
    if a == var:
        return Poly.num(1)
    i = info(a)
    if not i.live:
        return Poly()
    if i.kind == "composite":
        return i.args[0].derivative(var)
    if i.fname and i.fname.startswith("J("):
        return Poly()
    if i.fname:
        r = Poly()
        partials = DRULES[i.fname](i) if i.fname in DRULES else None
        for k, x in enumerate(i.args):
            if not isinstance(x, Poly) or not x.live():
                continue
            dx = x.derivative(var)
            if not dx.terms:
                continue
            if partials is not None:
                p = partials[k]
            else:
                p = Poly.func(f"D{k}{i.fname}", *i.args, extra=i.extra)
            r = r + p * dx
        return r
    if i.kind == "J":
        base, vs = i.args
        if var not in info(base).deps:
            return Poly()
        return jac(base, *vs, var)
    if var in i.deps:
        return jac(a, var)
    return Poly()


def jac(a, *vs):
    """(Higher) derivative of a base unit."""
    vs = tuple(sorted(vs))
    n = f"d{len(vs)}{a}/d{','.join(vs)}"
    atom(n, live=True, kind="J", args=(a, vs), deps=info(a).deps)
    return Poly.atom(n)


SHIFTS: dict = {}  # integer quantity -> polynomial over non-negative quantities ("^...")


def _shift(a):
    if a in SHIFTS:
        return SHIFTS[a]
    lo = info(a).lower
    if lo is None:
        return Poly.atom(a)
    return Poly.atom("^" + a) + Poly.num(lo)


def _exp(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


class Poly:
    __slots__ = ("terms", "_h", "_s")

    def __init__(self, terms=None):
        self.terms = {m: c for m, c in (terms or {}).items() if abs(c) > 0}
        self._h = None
        self._s = None

    # ---------------------------------------------------------------- constructors
    @staticmethod
    def num(c):
        return Poly({(): c}) if c else Poly()

    @staticmethod
    def atom(name, exp=1):
        return Poly({((name, exp),): 1})

    @staticmethod
    def func(name, *args, live=None, kind="", extra=""):
        """An opaque function of polynomials."""
        key = Poly._key(name, args, extra)
        deps = set()
        lv = False
        for a in args:
            if isinstance(a, Poly):
                deps |= a.deps()
                lv = lv or a.live()
        if live is False:
            args = [a.detach() if isinstance(a, Poly) else a for a in args]
            key = Poly._key(name, args, extra)
            lv = False
        atom(key, live=lv, deps=deps, kind=kind or "func", args=args, fname=name, extra=extra)
        return Poly.atom(key)

    @staticmethod
    def _key(name, args, extra):
        key = f"{name}({extra}{';' if extra else ''}{','.join(str(a) for a in args)})"
        if len(key) > 200:
            key = f"{name}#{hashlib.sha1(key.encode()).hexdigest()[:12]}"
        return key

    # ------------------------------------------------------------------- arithmetic
    def __add__(self, o):
        o = P(o)
        t = dict(self.terms)
        for m, c in o.terms.items():
            t[m] = t.get(m, 0) + c
            if abs(t[m]) < TOL * max(1, abs(c)):
                del t[m]
        return Poly(t)._cap()

    def __neg__(self):
        return Poly({m: -c for m, c in self.terms.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __mul__(self, o):
        o = P(o)
        if len(self.terms) == 1 and () in self.terms and self.terms[()] == 1:
            return o
        if len(o.terms) == 1 and () in o.terms and o.terms[()] == 1:
            return self
        if len(self.terms) * len(o.terms) > 4 * MAX_TERMS:
            return Poly.func("mul", self, o)
        t = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                m = _mul(m1, m2)
                t[m] = t.get(m, 0) + c1 * c2
        return Poly({m: c for m, c in t.items() if abs(c) > 1e-300})._cap()

    def inverse(self):
        if not self.terms:
            return Poly.func("inv", self)
        if len(self.terms) == 1:
            ((m, c),) = self.terms.items()
            return Poly({tuple((a, _exp(-e)) for a, e in m): 1 / c if c not in (1, -1) else c})
        g = self._common()
        if g:
            inv = tuple((a, _exp(-e)) for a, e in g)
            rest = Poly({_mul(m, inv): c for m, c in self.terms.items()})
            return rest.inverse() * Poly({inv: 1})
        lead = min(self.terms, key=_mkey)
        c = self.terms[lead]
        base = Poly({m: v / c for m, v in self.terms.items()}) if c != 1 else self
        return Poly.atom(base._composite(), -1) * Poly.num(1 / c if c != 1 else 1)

    def _common(self):
        """Monomial dividing all terms (integer quantities and units in every term)."""
        its = iter(self.terms)
        g = dict(next(its))
        for m in its:
            d = dict(m)
            g = {a: min(e, d[a]) for a, e in g.items() if a in d and e > 0 and d[a] > 0}
            if not g:
                return ()
        return tuple(sorted(g.items()))

    def _composite(self):
        n = f"<{self}>"
        if len(n) > 160:
            n = f"<#{hashlib.sha1(n.encode()).hexdigest()[:12]}>"
        atom(n, live=self.live(), deps=self.deps(), kind="composite", args=(self,))
        return n

    def div(self, o):
        o = P(o)
        if len(o.terms) <= 1:
            return self * o.inverse()
        if not self.terms:
            return self
        # exact division by a multi-term polynomial
        ls, lo = min(self.terms, key=_mkey), min(o.terms, key=_mkey)
        ratio = Poly({_mul(ls, tuple((a, _exp(-e)) for a, e in lo)): self.terms[ls] / o.terms[lo]})
        if (ratio * o).same(self):
            return ratio
        return self * o.inverse()

    def pow(self, e):
        if isinstance(e, float) and e == int(e):
            e = int(e)
        if isinstance(e, float):
            e = Fraction(e).limit_denominator(1000)
        if e == 0:
            return Poly.num(1)
        if e == 1:
            return self
        if len(self.terms) == 1:
            ((m, c),) = self.terms.items()
            if c > 0 or isinstance(e, int):
                cc = float(c) ** float(e) if not isinstance(e, int) else c**e
                return Poly({tuple((a, _exp(x * e)) for a, x in m): cc})
        if isinstance(e, int) and 0 < e <= 4:
            r = self
            for _ in range(e - 1):
                r = r * self
            return r
        if not self.terms:
            return Poly() if e > 0 else Poly.func("pow0", self)
        return Poly.atom(self._composite(), _exp(e))

    # -------------------------------------------------------------------- inspection
    def const(self):
        """The number this polynomial equals, or ``None``."""
        if not self.terms:
            return 0
        if len(self.terms) == 1 and () in self.terms:
            return self.terms[()]
        return None

    def same(self, o):
        o = P(o)
        for m in set(self.terms) | set(o.terms):
            if not isclose(self.terms.get(m, 0), o.terms.get(m, 0), rel_tol=1e-6, abs_tol=1e-12):
                return False
        return True

    def equiv(self, o):
        """Identity of the rational functions (decided by evaluating them at three points)."""
        o = P(o)
        if self.same(o):
            return True
        for seed in ("p", "q", "r"):
            x, y = self.value(seed), o.value(seed)
            if not isclose(x, y, rel_tol=1e-7, abs_tol=1e-9 * (1 + abs(x) + abs(y))):
                return False
        return True

    def value(self, seed):
        """Value at a pseudo-random positive point (same unit, same value)."""
        r = 0.0
        for m, c in self.terms.items():
            t = float(c)
            for a, e in m:
                v = _atom_value(a, seed)
                t *= (v if float(e).is_integer() else abs(v)) ** float(e)
            r += t
        return r

    def atoms(self):
        return {a for m in self.terms for a, _ in m}

    def deps(self):
        r = set()
        for a in self.atoms():
            r.add(a)
            r |= info(a).deps
        return r

    def live(self):
        return any(info(a).live for a in self.atoms())

    def detach(self):
        if not self.live():
            return self
        return self.subst(_detach_atom)

    def subst(self, f):
        """Replace every atom ``a`` by the polynomial ``f(a)``."""
        r = Poly()
        for m, c in self.terms.items():
            t = Poly.num(c)
            for a, e in m:
                q = f(a)
                t = t * (q if e == 1 else q.pow(e))
            r = r + t
        return r

    def derivative(self, var):
        """Total derivative with respect to the unit ``var`` (product and chain rule)."""
        r = Poly()
        for m, c in self.terms.items():
            for k, (a, e) in enumerate(m):
                d = _datom(a, var)
                if not d.terms:
                    continue
                rest = Poly({tuple(x for j, x in enumerate(m) if j != k): c})
                if e != 1:
                    rest = rest * Poly.num(e if isinstance(e, int) else float(e)) * Poly.atom(a).pow(
                        _exp(e - 1)
                    )
                r = r + rest * d
        return r

    def rename(self, f):
        t = {}
        for m, c in self.terms.items():
            nm = _norm([(f(a), e) for a, e in m])
            t[nm] = t.get(nm, 0) + c
        return Poly(t)

    def sign(self):
        """+1, -1 or 0 if decided for all admissible values of the quantities, else None.

        Every quantity is at least its lower bound, so the shifted polynomial decides.
        """
        c = self.const()
        if c is not None:
            return (c > 0) - (c < 0)
        gen = [a for a in self.atoms() if info(a).kind == "gen"]
        if gen:
            return self._sign_generic(gen[0])
        q = Poly()
        for m, c in self.terms.items():
            t = Poly.num(c)
            for a, e in m:
                if not isinstance(e, int) or e < 0:
                    return self._sign_mono()
                t = t * _shift(a).pow(e)
            q = q + t
        cs = list(q.terms.items())
        if any(info(a).lower is None and not a.startswith("^") for m, _ in cs for a, _e in m):
            return self._sign_mono()
        k = q.terms.get((), 0)
        if all(c > 0 for _, c in cs) and k > 0:
            return 1
        if all(c < 0 for _, c in cs) and k < 0:
            return -1
        return None

    def _sign_generic(self, g):
        """Sign for all 1 <= g <= size - 2 of an expression that is affine in index ``g``."""
        (size,) = info(g).args
        if any(dict(m).get(g, 0) not in (0, 1) for m in self.terms):
            return None
        ends = []
        for v in (Poly.num(1), size - 2):
            e = self.subst(lambda a, v=v: v if a == g else Poly.atom(a))
            sg = e.sign()
            if sg is None:
                if (e - (size - 3)).sign() in (0, 1) and (e - (size - 3)).const() != 0:
                    sg = 1
                elif (e + (size - 3)).sign() == -1:
                    sg = -1
            ends.append(sg)
        return ends[0] if ends[0] == ends[1] and ends[0] in (1, -1) else None

    def _sign_mono(self):
        if len(self.terms) == 1:
            ((m, c),) = self.terms.items()
            if all(info(a).lower is not None and info(a).lower > 0 for a, _ in m):
                return 1 if c > 0 else -1
        return None

    def exponents(self, a):
        return {dict(m).get(a, 0) for m in self.terms}

    def _cap(self):
        if len(self.terms) > MAX_TERMS:
            return Poly.func("big", self)
        return self

    def __eq__(self, o):
        return isinstance(o, Poly) and self.same(o)

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.terms))
        return self._h

    def __str__(self):
        if self._s is None:
            ts = []
            for m in sorted(self.terms, key=_mkey):
                c = self.terms[m]
                f = [a if e == 1 else f"{a}^{e}" for a, e in m]
                if c != 1 or not f:
                    f.insert(0, f"{c:.6g}" if isinstance(c, float) else str(c))
                ts.append("*".join(f))
            self._s = " + ".join(ts) or "0"
        return self._s

    __repr__ = __str__


_VALUES: dict = {}


def reset():
    """Forget all units (start of an analysis)."""
    ATOMS.clear()
    _VALUES.clear()
    SHIFTS.clear()


def _atom_value(a, seed):
    k = (a, seed)
    if k not in _VALUES:
        i = info(a)
        if i.kind == "composite":
            v = i.args[0].value(seed) or 1.0
        elif i.fname:
            parts = [f"{x.value(seed):.6e}" if isinstance(x, Poly) else str(x) for x in i.args]
            v = _hash(f"{seed}|{i.fname}|{i.extra}|{parts}")
            if i.fname in ("sigmoid", "softmax"):
                v -= 0.9999
                v /= 1.0001
        else:
            v = _hash(f"{seed}|{a}")
        _VALUES[k] = v
    return _VALUES[k]


def _hash(s):
    return 1.0 + int(hashlib.sha1(s.encode()).hexdigest()[:12], 16) / 16**12


def _mkey(m):
    return tuple((str(a), float(e)) for a, e in m)


def _norm(pairs):
    d = {}
    for a, e in pairs:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, _exp(e)) for a, e in d.items() if e != 0), key=lambda p: p[0]))


def _mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    return _norm(list(m1) + list(m2))


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return Poly.num(int(x))
    if isinstance(x, (int, float, Fraction)):
        return Poly.num(x)
    from . import values

    if isinstance(x, values.Sym):
        return x.poly
    raise TypeError(f"no polynomial for {x!r}")
