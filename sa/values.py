"""Abstract values: symbolic scalars, block tensors with provenance, containers."""

from __future__ import annotations

from itertools import count, product

from .poly import P, Poly

_ids = count()


class NoAttr(AttributeError):
    """A user's or repository's object lacks an attribute (decided, not a gap of the analysis)."""


class AbsRaise(Exception):
    """The analysed program raises ``value``."""

    def __init__(self, value, where=None):
        super().__init__(repr(value))
        self.value = value
        self.where = where


class Unsupported(Exception):
    """The analysis cannot follow the program here (undecided, never an alarm)."""


class PathLimit(Exception):
    """Too many abstract paths or steps."""


class TypeErr(TypeError):
    """TypeError the modelled library certainly raises."""


TypeErr.__name__ = "TypeError"


def none_error(*vs):
    """Class of the error of an operation that ``None`` does not support."""
    return TypeErr if any(v is None for v in vs) else TypeError


def rt(msg, cls=RuntimeError):
    """An exception that the library underneath raises."""
    return AbsRaise(cls(msg))


# ---------------------------------------------------------------------- symbolic scalars
class Sym:
    """A symbolic number."""

    __slots__ = ("poly", "isint")

    def __init__(self, poly, isint=False):
        self.poly, self.isint = poly, isint

    def __eq__(self, o):
        try:
            return self.poly.same(P(o))
        except TypeError:
            return False

    def __hash__(self):
        return hash(self.poly)

    def __repr__(self):
        return f"Sym({self.poly})"


def scalar(poly, isint=False):
    """Native number if constant, symbolic number otherwise."""
    c = poly.const()
    if c is None:
        return Sym(poly, isint)
    if isint and float(c) == int(c):
        return int(c)
    return c if isinstance(c, int) and isint else (float(c) if not isint else c)


def is_num(x):
    return isinstance(x, (int, float, Sym)) and not isinstance(x, bool) or isinstance(x, bool)


def dimval(poly):
    """Dimension as seen by the program."""
    return scalar(poly, True)


class Device:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Device) and o.name == self.name

    def __hash__(self):
        return hash(("device", self.name))

    def __repr__(self):
        return f"device({self.name})"

    __str__ = __repr__


class DType:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, DType) and o.name == self.name

    def __hash__(self):
        return hash(("dtype", self.name))

    def __repr__(self):
        return f"dtype({self.name})"


CPU = Device("cpu")
GPU = Device("cuda:0")


class SizeT(tuple):
    """``torch.Size``."""

    def numel(self):
        p = Poly.num(1)
        for s in self:
            p = p * P(s)
        return dimval(p)


# -------------------------------------------------------------------- tracked containers
class LList(list):
    """A list with owner (``user`` lists must not be modified) and representative length."""

    owner = None
    rep = None

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return list.__eq__(self, o) if isinstance(o, list) else False

    def __ne__(self, o):
        return not self.__eq__(o)


class LDict(dict):
    owner = None

    def __hash__(self):
        return id(self)


class RepIter:
    """Iterator over representatives (first, generic, last) of ``size`` elements."""

    def __init__(self, it, size):
        self.it, self.rep = iter(it), size

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)


class RepRange:
    """``range(n)`` with a symbolic bound."""

    def __init__(self, size: Poly):
        self.size = size

    def __iter__(self):
        from .poly import atom

        g = atom(f"i<{self.size}>", lower=1, kind="gen", args=(self.size,))
        return RepIter(
            [0, Sym(Poly.atom(g), True), Sym(self.size - 1, True)], self.size
        )


# -------------------------------------------------------------------------- block tensors
class Storage:
    """Memory with an owner."""

    __slots__ = ("sid", "owner", "note")

    def __init__(self, owner="op", note=""):
        self.sid, self.owner, self.note = next(_ids), owner, note

    def __repr__(self):
        return f"Storage#{self.sid}({self.owner}{':' + self.note if self.note else ''})"


class Where:
    """Source location at which values are created (set by the interpreter)."""

    now = staticmethod(lambda: None)


class Box:
    """One block of a storage and the abstraction of what it holds."""

    __slots__ = ("poly", "storage", "forward", "loc")

    def __init__(self, poly, storage):
        self.poly, self.storage, self.forward = poly, storage, None
        self.loc = Where.now()

    def get(self):
        if self.forward:
            ps = [b.get() for b in self.forward]
            if all(p.same(ps[0]) for p in ps[1:]):
                return ps[0]
            raise Unsupported("read of a block that was split")
        return self.poly

    def set(self, p):
        if self.forward:
            for b in self.forward:
                b.set(p)
        else:
            self.poly = p
            self.loc = Where.now()


class Graph:
    """An autograd graph that can be freed."""

    __slots__ = ("gid", "freed", "where")

    def __init__(self):
        self.gid, self.freed, self.where = next(_ids), False, None


class Seg:
    """A segment of an axis: its size and (optionally) the role it plays."""

    __slots__ = ("size", "label", "fac")

    def __init__(self, size, label=None, fac=None):
        self.size = P(size)
        self.label = label
        self.fac = fac  # segments this one is the (row-major) product of

    def __repr__(self):
        return f"{self.size}" + (f"'{self.label}" if self.label else "")


def ax(size, label=None):
    return (Seg(size, label),)


def axsize(a):
    s = a[0].size
    for seg in a[1:]:
        s = s + seg.size
    return s


class Tensor:
    """A view of blocks. ``cells`` maps block indices to (shared) boxes."""

    def __init__(self, axes, cells, dtype, device=CPU, kind="torch", graph=frozenset()):
        self.axes = list(axes)
        self.cells = cells
        self.dtype, self.device, self.kind = dtype, device, kind
        self.graph = frozenset(graph)
        self.requires_grad = None  # None: derived from the provenance
        self.leaf = False
        self.is_param = False
        self.hooks = None
        self.ident = next(_ids)
        self.grad = None
        self.meta = {}

    # ------------------------------------------------------------------- constructors
    @staticmethod
    def new(axes, polys, dtype, device=CPU, kind="torch", graph=frozenset(), owner="op", note=""):
        st = Storage(owner, note)
        if isinstance(polys, Poly):
            polys = {i: polys for i in indices(axes)}
        return Tensor(axes, {i: Box(p, st) for i, p in polys.items()}, dtype, device, kind, graph)

    def like(self, axes, polys, dtype=None, graph=None):
        return Tensor.new(
            axes,
            polys,
            dtype or self.dtype,
            self.device,
            self.kind,
            self.graph if graph is None else graph,
        )

    def view(self, axes, cells):
        t = Tensor(axes, cells, self.dtype, self.device, self.kind, self.graph)
        t.meta = dict(self.meta)
        return t

    # ---------------------------------------------------------------------- inspection
    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        s = SizeT(dimval(axsize(a)) for a in self.axes)
        return s if self.kind == "torch" else tuple(s)

    def polys(self):
        return {i: b.get() for i, b in self.cells.items()}

    def uniform(self):
        """The abstraction common to all blocks or None."""
        ps = list(self.polys().values())
        if ps and all(p.same(ps[0]) for p in ps[1:]):
            return ps[0]
        return None

    def storages(self):
        return {b.storage for b in self.cells.values()}

    def numel(self):
        p = Poly.num(1)
        for a in self.axes:
            p = p * axsize(a)
        return p

    def live(self):
        return any(b.get().live() for b in self.cells.values())

    def __repr__(self):
        ps = self.polys()
        u = self.uniform()
        return (
            f"<{self.kind} {'x'.join(str(axsize(a)) for a in self.axes) or 'scalar'} "
            f"{u if u is not None else ps} {self.dtype.name}@{self.device.name}>"
        )


def indices(axes):
    return list(product(*[range(len(a)) for a in axes]))


# ----------------------------------------------------------------------------- externals
class Ext:
    """A function, class or module outside the repository, by its dotted name."""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))

    def __repr__(self):
        return f"<ext {self.name}>"


class Obj:
    """An abstract object of the user or of a library, with hand-written transfer functions."""

    cls_name = "object"
    owner = None

    def sa_getattr(self, ip, name):
        raise AbsRaise(AttributeError(f"{self.cls_name} has no attribute {name}"))

    def sa_setattr(self, ip, name, value):
        ip.event("setattr", obj=self, name=name)
        self.__dict__.setdefault("_extra", {})[name] = value

    def sa_isinstance(self, name):
        return name == "builtins.object" or name == self.cls_name


class Opaque(Obj):
    """A value about which nothing is known."""

    cls_name = "?"

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"<opaque {self.what}>"


class PyFn:
    """A transfer function callable by the analysed program."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<fn {self.name}>"
