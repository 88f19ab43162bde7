"""Transfer functions of (block) tensors: layout, algebra, views and in-place updates."""

from __future__ import annotations

from itertools import product

from .poly import P, Poly, atom, info
from .values import (
    AbsRaise,
    Box,
    CPU,
    DType,
    none_error,
    Seg,
    Storage,
    Sym,
    Tensor,
    Unsupported,
    ax,
    axsize,
    dimval,
    indices,
    rt,
    scalar,
)

SMALL = 8  # constant axes up to this size are tracked element by element

RANK = ["bool", "uint8", "int32", "int64", "float16", "bfloat16", "half", "float32", "float64",
        "complex64", "complex128"]
FLOATS = {"float16", "bfloat16", "half", "float32", "float64", "complex64", "complex128"}
BOOL, INT64, F32, F64 = DType("bool"), DType("int64"), DType("float32"), DType("float64")


class Cur:
    ip = None


def event(kind, **kw):
    if Cur.ip is not None:
        Cur.ip.event(kind, **kw)


def mkaxis(n, label=None):
    """Axis of a fresh tensor."""
    p = P(n)
    c = p.const()
    if c is not None and c < 0:
        raise rt("negative dimension")
    if label is None and c is not None and 2 <= c <= SMALL:
        return tuple(Seg(1) for _ in range(int(c)))
    return ax(p, label)


def isfloat(d):
    return d.name in FLOATS


BITS = {"float16": 10, "bfloat16": 7, "half": 10, "float32": 23, "float64": 52}


def note_cast(frm, to, op):
    """Conversion to a data type with fewer significant bits."""
    if BITS.get(frm.name, 0) > BITS.get(to.name, 99):
        event("rounded", op=op, frm=frm.name, to=to.name)


def promote(a, b):
    if a == b:
        return a
    if {a.name, b.name} <= {"float16", "bfloat16", "half"}:
        return F32
    ra = RANK.index(a.name) if a.name in RANK else RANK.index("float32") - 0.5
    rb = RANK.index(b.name) if b.name in RANK else RANK.index("float32") - 0.5
    return a if ra >= rb else b


def join_meta(ts, strict_dtype=False, op=""):
    """dtype, device, kind, graph of an operation's result."""
    ts = [t for t in ts if isinstance(t, Tensor)]
    kind = ts[0].kind
    if any(t.kind != kind for t in ts):
        if kind == "np" or any(t.kind == "np" for t in ts):
            raise rt(f"{op}: mixing torch and numpy", TypeError)
    devs = {t.device for t in ts if t.ndim > 0 or t.device != CPU}
    if len(devs) > 1:
        event("device-mismatch", op=op, devices=sorted(d.name for d in devs))
        raise rt(f"{op}: Expected all tensors to be on the same device, got {devs}")
    dev = devs.pop() if devs else ts[0].device
    big = [t for t in ts if t.ndim > 0] or ts
    d = big[0].dtype
    for t in big[1:]:
        if t.dtype != d:
            if strict_dtype and kind == "torch":
                event("dtype-mismatch", op=op, dtypes=[d.name, t.dtype.name])
                raise rt(f"{op}: expected the same dtype, got {d} and {t.dtype}")
            d = promote(d, t.dtype)
    if not isfloat(d) and any(isfloat(t.dtype) for t in ts):
        d = next(t.dtype for t in ts if isfloat(t.dtype))
    g = frozenset()
    for t in ts:
        g |= t.graph
    return d, dev, kind, g


# -------------------------------------------------------------------------------- axes
def _lab(a, b):
    if a is None or a == b:
        return b
    if b is None:
        return a
    event("role-mismatch", roles=[a, b])
    return a


def _order(seg):
    return [(str(f.size), f.label) for f in seg.fac if f.size.const() != 1]


def entries_order(segs, op):
    """Combined entries of a flattened axis must come in the same order."""
    orders = [_order(s) for s in segs if s.fac is not None]
    for o in orders[1:]:
        if o != orders[0] and (sorted(map(str, o)) == sorted(map(str, orders[0])) or any(
                lab and lab.startswith("mixed:") for q in (o, orders[0]) for _, lab in q)):
            event("order-mismatch", op=op,
                  orders=["*".join(n if not lab else lab for n, lab in q) for q in (o, orders[0])])


def unify(axes_list, broadcast=True, op="", varying=()):
    """Common refinement of axes. Returns the axis and one index map per input.

    ``varying``: which of the axes are ones of tensors with different entries.
    """
    real = [a for a in axes_list if not (broadcast and _one(a))]
    if not real:
        a = axes_list[0]
        return a, [[0] for _ in axes_list]
    tot = axsize(real[0])
    for a in real[1:]:
        s = axsize(a)
        if not s.same(tot):
            event("shape-mismatch", op=op, sizes=[str(tot), str(s)])
            raise rt(f"{op}: size {tot} does not match {s}")
    best = max(real, key=len)
    n = len(best)
    maps = []
    for a in axes_list:
        if broadcast and _one(a):
            maps.append([0] * n)
        elif len(a) == n and all(x.size.same(y.size) for x, y in zip(a, best)):
            maps.append(list(range(n)))
        elif len(a) == 1:
            maps.append([0] * n)
        else:
            # a coarser partition: every boundary of ``a`` is a boundary of ``best``
            m, k, acc, acc_a = [], 0, Poly(), a[0].size
            for seg in best:
                acc = acc + seg.size
                m.append(k)
                if acc.same(acc_a):
                    k += 1
                    if k < len(a):
                        acc_a = acc_a + a[k].size
            if k != len(a):
                raise Unsupported(f"{op}: partitions of an axis do not nest")
            maps.append(m)
    if any(varying):
        for i in range(n):
            entries_order([a[m[i]] for a, m, v in zip(axes_list, maps, varying)
                           if v and not _one(a)], op)
    out = []
    for i, seg in enumerate(best):
        lab, fac = seg.label, seg.fac
        for a, m in zip(axes_list, maps):
            if a is best or (broadcast and _one(a)):
                continue
            o = a[m[i]]
            lab = _lab(lab, o.label)
            if fac is None and o.size.same(seg.size):
                fac = o.fac
        out.append(seg if (lab, fac) == (seg.label, seg.fac) else Seg(seg.size, lab, fac))
    return tuple(out), maps


def varies(t):
    return any(b.get().const() is None for b in t.cells.values())


def _one(a):
    return len(a) == 1 and a[0].size.const() == 1


def exact_div(p, q):
    """p / q if it is a polynomial with non-negative exponents, else None."""
    p, q = P(p), P(q)
    if q.const() == 0:
        return None
    r = p.div(q)
    if all(e > 0 for m in r.terms for _, e in m) and all(
        float(c) == int(c) for c in r.terms.values()
    ):
        return r
    return None


def _repeated(t, k):
    """Is ``t`` one and the same along an axis which consists of entries (see ``repeat``)?"""
    a = t.axes[k]
    if len(a) < 2 or any(s.size.const() != 1 for s in a):
        return False
    seen = {}
    for i, b in t.cells.items():
        p = b.get()
        if p.const() is not None or not seen.setdefault(i[:k] + i[k + 1:], p).same(p):
            return False
    return True


# -------------------------------------------------------------------------- elementwise
def broadcast(tensors, op=""):
    """Common axes and for each tensor a function from result index to its index."""
    n = max(t.ndim for t in tensors)
    axes, maps = [], []
    vary = [varies(t) for t in tensors]
    for k in range(n):
        cols, who = [], []
        for j, t in enumerate(tensors):
            i = k - (n - t.ndim)
            if i >= 0:
                cols.append(t.axes[i])
                who.append(j)
        coarse = [q for q in range(len(cols)) if _repeated(tensors[who[q]], k - (n - tensors[who[q]].ndim))]
        if coarse and any(len(a) == 1 and not _one(a) and q not in coarse
                          for q, a in enumerate(cols)) and all(
                len(a) == 1 or q in coarse for q, a in enumerate(cols)):
            tot = [axsize(a) for a in cols]
            cols = [ax(tot[q]) if q in coarse else a for q, a in enumerate(cols)]
        a, ms = unify(cols, op=op, varying=[vary[j] for j in who])
        axes.append(a)
        maps.append(dict(zip(who, ms)))

    def indexer(j, t):
        off = n - t.ndim

        def f(idx):
            return tuple(maps[k][j][idx[k]] for k in range(off, n))

        return f

    return axes, [indexer(j, t) for j, t in enumerate(tensors)]


def to_poly(x):
    if isinstance(x, bool):
        return Poly.num(int(x))
    if isinstance(x, complex):
        raise Unsupported("complex number")
    return P(x)


def ew(fn, *args, op="", dtype=None, strict=False):
    """Element-wise function of tensors and scalars."""
    ts = [a for a in args if isinstance(a, Tensor)]
    for a in args:
        if not isinstance(a, (Tensor, int, float, Sym)):
            raise rt(f"{op}: unsupported operand {a!r}", none_error(a))
    d, dev, kind, g = join_meta(ts, strict_dtype=strict, op=op)
    if not isfloat(d) and any(isinstance(a, (float,)) or (isinstance(a, Sym) and not a.isint)
                              for a in args):
        d = F32 if kind == "torch" else F64
    axes, ixs = broadcast(ts, op)
    ix = dict(zip([id(t) for t in ts], ixs))
    polys = {}
    for i in indices(axes):
        vals = [
            off_diagonal(a, a.cells[ix[id(a)](i)].get(), axes, i) if isinstance(a, Tensor)
            else to_poly(a) for a in args
        ]
        polys[i] = fn(*vals)
    return finish(Tensor.new(axes, polys, dtype or d, dev, kind, g))


def off_diagonal(t, p, axes, i):
    """Block ``i`` of a diagonal matrix ``t`` that is partitioned by an operation."""
    if t.ndim != 2 or len(i) < 2 or i[-1] == i[-2] or len(t.cells) != 1 or not p.terms:
        return p
    if len(axes[-1]) != len(axes[-2]) or not all(
        a.size.same(b.size) for a, b in zip(axes[-1], axes[-2])
    ):
        return p
    return Poly({m: c for m, c in p.terms.items()
                 if not any(a == "Id" or info(a).fname == "diag" for a, _ in m)})


def finish(t):
    """Results computed without gradient tracking are constants."""
    if Cur.ip is not None and not Cur.ip.grad_enabled and t.live():
        for b in t.cells.values():
            b.poly = b.poly.detach()
        t.graph = frozenset()
    return t


def add(a, b, alpha=1):
    al = to_poly(alpha) if not isinstance(alpha, Tensor) else None
    if al is None:
        b = mul(b, alpha)
        al = Poly.num(1)
    return ew(lambda x, y: x + y * al, a, b, op="add")


def sub(a, b, alpha=1):
    al = to_poly(alpha)
    return ew(lambda x, y: x - y * al, a, b, op="sub")


def mul(a, b):
    return ew(lambda x, y: x * y, a, b, op="mul")


def div(a, b):
    ints = all(
        (isinstance(v, Tensor) and not isfloat(v.dtype)) or isinstance(v, int) for v in (a, b)
    )
    kind = a.kind if isinstance(a, Tensor) else b.kind
    return ew(
        lambda x, y: x.div(y), a, b, op="div",
        dtype=(F32 if kind == "torch" else F64) if ints else None,
    )


def power(a, e):
    if isinstance(a, Tensor) and not isinstance(e, Tensor):
        c = to_poly(e).const()
        if c is None:
            return ew(lambda x: Poly.func("pow", x, to_poly(e)), a, op="pow")
        u = a.meta.get("square of")
        if u is not None and c in (0.5, -0.5):
            return ew(lambda x: Poly.func("norm", u).pow(2 * c), a, op="pow")
        return ew(lambda x: x.pow(c), a, op="pow")

    def f(x, y):
        c = y.const()
        return x.pow(c) if c is not None else Poly.func("pow", x, y)

    return ew(f, a, e, op="pow")


def unary(name, t, dtype=None):
    import math

    def f(x):
        c = x.const()
        if c is not None and hasattr(math, name):
            try:
                return Poly.num(getattr(math, name)(c))
            except (ValueError, OverflowError):
                pass
        if name == "sigmoid" and c == 0:
            return Poly.num(0.5)
        if name == "exp" and c == 0:
            return Poly.num(1)
        return Poly.func(name, x)

    return ew(f, t, op=name, dtype=dtype)


def neg(t):
    return ew(lambda x: -x, t, op="neg")


def copy(t, dtype=None, device=None):
    r = t.like(t.axes, t.polys(), dtype)
    if dtype is not None:
        note_cast(t.dtype, dtype, "conversion")
    if device is not None:
        r.device = device
    r.meta = dict(t.meta)
    return finish(r)


def detach(t):
    """Shares memory but is a constant."""
    if not t.live():
        r = t.view(t.axes, t.cells)
        r.graph = frozenset()
        r.requires_grad = False
        return r
    r = t.view(t.axes, {i: DetachBox(b) for i, b in t.cells.items()})
    r.graph = frozenset()
    r.requires_grad = False
    return r


class DetachBox(Box):
    """Detached view of a box (same memory)."""

    __slots__ = ("base",)

    def __init__(self, base):
        self.base = base
        self.storage, self.forward, self.poly = base.storage, None, None
        self.loc = base.loc

    def get(self):
        if self.forward:
            return Box.get(self)
        return self.base.get().detach()

    def set(self, p):
        if self.forward:
            return Box.set(self, p)
        self.base.set(p)


class PartBox(Box):
    """Read-only view of a part of a block."""

    __slots__ = ()

    def set(self, p):
        if self.forward:
            return Box.set(self, p)
        raise Unsupported("update of a part of a block")


# ------------------------------------------------------------------------------ in-place
def note_write(t, op):
    seen = set()
    for b in t.cells.values():
        if b.storage not in seen:
            seen.add(b.storage)
            if b.storage.owner != "op":
                event("mutate", storage=b.storage, op=op)


def refine(t, axes):
    """Split the blocks of ``t`` (in place) so that its axes equal ``axes``."""
    maps = []
    for a, b in zip(t.axes, axes):
        _, ms = unify([a, b], broadcast=False, op="refine")
        if len(ms[1]) != len(b):
            raise Unsupported("target of an update is partitioned more finely")
        maps.append(ms[0])
    if all(len(a) == len(b) for a, b in zip(t.axes, axes)):
        return
    new, fwd = {}, {}
    for i in indices(axes):
        j = tuple(m[k] for m, k in zip(maps, i))
        old = t.cells[j]
        nb = Box(old.get(), old.storage)
        new[i] = nb
        fwd.setdefault(id(old), (old, []))[1].append(nb)
    for old, nbs in fwd.values():
        if len(nbs) == 1:
            nbs[0].poly = old.get()
        old.forward = nbs
    t.axes, t.cells = list(axes), new


def write(t, value, op="write"):
    """Overwrite the memory behind ``t`` by ``value`` (a tensor or scalar)."""
    note_write(t, op)
    if not isinstance(value, Tensor):
        p = to_poly(value)
        for b in t.cells.values():
            b.set(p)
        return t
    if value.device != t.device and value.ndim > 0 and op not in ("copy_", "setitem"):
        event("device-mismatch", op=op, devices=[t.device.name, value.device.name])
        raise rt(f"{op}: tensors on different devices")
    if value.ndim > t.ndim:
        extra = value.ndim - t.ndim
        if all(_one(a) for a in value.axes[:extra]) and t.kind == "np":
            value = value.view(value.axes[extra:], {i[extra:]: b for i, b in value.cells.items()})
        else:
            event("shape-mismatch", op=op, sizes=[str(t.shape), str(value.shape)])
            raise rt(f"{op}: output shape {t.shape} does not match {value.shape}")
    polys = value.polys()
    axes, ms = [], []
    vary = varies(t) and varies(value)
    off = t.ndim - value.ndim
    for k, a in enumerate(t.axes):
        if k < off:
            axes.append(a)
            ms.append(None)
            continue
        v = value.axes[k - off]
        if _one(a) and not _one(v):
            event("shape-mismatch", op=op, sizes=["1", str(axsize(v))])
            raise rt(f"{op}: output with size 1 cannot be broadcast to {axsize(v)}")
        u, m = unify([a, v], op=op, varying=[vary, vary])
        axes.append(u)
        ms.append(m[1])
    refine(t, axes)
    for i, b in t.cells.items():
        b.set(polys[tuple(ms[k][i[k]] for k in range(off, t.ndim))])
    t.graph |= value.graph
    if isfloat(value.dtype) and not isfloat(t.dtype):
        event("truncate", op=op)
    if value.ndim:
        note_cast(value.dtype, t.dtype, op)
    return t


def inplace(t, fn, *args, op=""):
    """t <- fn(t, *args)."""
    r = fn(t, *args)
    if r.ndim != t.ndim or not all(axsize(a).same(axsize(b)) for a, b in zip(r.axes, t.axes)):
        event("shape-mismatch", op=op, sizes=[str(t.shape), str(r.shape)])
        raise rt(f"{op}: result does not fit {t.shape}, got {r.shape}")
    return write(t, r, op)


# ------------------------------------------------------------------------------- indexing
def _pick_name(i, size):
    return f"[{i}@{size}]"


def pick_atom(i, size, label=None):
    n = _pick_name(i, size)
    if label is not None and str(label).startswith("eig("):
        n = n[:-1] + "'eig]"  # one eigenvector (not one entry of all of them)
    atom(n, kind="pick", args=(P(i), P(size)))
    return Poly.atom(n)


def find_index(a, i):
    """Block of an axis that holds index ``i`` -> (block number, exact?)."""
    i = P(i)
    tot = axsize(a)
    if i.sign() == -1 or (i.const() is not None and i.const() < 0):
        i = i + tot
    over = (i - tot).sign()
    if over in (0, 1) or i.sign() == -1:
        raise AbsRaise(IndexError("index out of range"))
    acc = Poly()
    for g in i.atoms():
        if info(g).kind == "gen" and info(g).args[0].same(tot) and i.same(P(Poly.atom(g))):
            if len(a) == 1:
                return 0, False, i
            raise Unsupported("generic index of a partitioned axis")
    for k, s in enumerate(a):
        if i.same(acc) and s.size.const() == 1:
            return k, True, i
        nxt = acc + s.size
        if (nxt - i).sign() == 1 and ((i - acc).sign() in (0, 1)):
            return k, s.size.const() == 1, i - acc
        acc = nxt
    raise Unsupported(f"cannot locate index {i} on axis of size {tot}")


def _bound(v, tot, default):
    if v is None:
        return default
    p = P(v)
    if p.sign() == -1:
        p = p + tot
        if p.sign() == -1:
            p = Poly()
    if (p - tot).sign() == 1:
        p = tot
    return p


def getitem(t, idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    if any(isinstance(i, (list, Tensor)) for i in idx):
        return advanced(t, idx)
    n_used = sum(1 for i in idx if i is not None and i is not Ellipsis)
    if n_used > t.ndim:
        raise AbsRaise(IndexError("too many indices"))
    full = []
    seen_e = False
    for i in idx:
        if i is Ellipsis and not seen_e:
            seen_e = True
            full += [slice(None)] * (t.ndim - n_used)
        else:
            full.append(i)
    full += [slice(None)] * (t.ndim - sum(1 for i in full if i is not None))
    # split constant blocks at slice boundaries first
    axes, sel = [], []  # per result axis; sel: per source axis list of (blocks, factor)
    k = 0
    src = []
    for i in full:
        if i is None:
            axes.append(ax(1))
            src.append(None)
            continue
        a = t.axes[k]
        if isinstance(i, slice):
            axes.append(None)
            src.append(k)
            sel.append(_slice_axis(t, k, i))
        elif isinstance(i, (int, Sym)) and not isinstance(i, bool):
            if _one(a):
                c = P(i).const()
                if c not in (0, -1):
                    raise AbsRaise(IndexError("index out of range")) if c is not None else (
                        Unsupported("symbolic index on an axis of size 1"))
                sel.append(([(0, None)], True, None))
            else:
                b, exact, off = find_index(a, i)
                if not exact and off.const() is not None and a[b].size.const() is not None and all(
                        c.get().const() is not None for j, c in t.cells.items() if j[k] == b):
                    _slice_axis(t, k, slice(i, P(i).const() + 1 or None))
                    b, exact, off = find_index(t.axes[k], i)
                    a = t.axes[k]
                sel.append(([(b, None if exact else pick_atom(off, a[b].size, a[b].label))], True, None))
        else:
            raise Unsupported(f"index {i!r}")
        k += 1
    # axes may have been refined by _slice_axis
    res_axes = []
    for a, s in zip(axes, src):
        if a is not None:
            res_axes.append(a)
        else:
            blocks, _, segs = sel[s]
            res_axes.append(tuple(segs))
    cells = {}
    choices = [range(len(b[0])) for b in sel]
    for c in product(*choices):
        fac = Poly.num(1)
        si = []
        for j, cc in enumerate(c):
            b, f = sel[j][0][cc]
            si.append(b)
            if f is not None:
                fac = fac * f
        box = t.cells[tuple(si)]
        if fac.const() != 1:
            p = box.get()
            box = PartBox(p if p.const() is not None else p * fac, box.storage)
        out = []
        for a, s in zip(axes, src):
            out.append(0 if s is None else c[s])
        cells[tuple(out)] = box
    return t.view(res_axes, cells)


def _slice_axis(t, k, s):
    a = t.axes[k]
    tot = axsize(a)
    step = 1 if s.step is None else s.step
    if step != 1:
        if step == -1 and s.start is None and s.stop is None:
            if all(x.size.const() == 1 for x in a):
                return [(i, None) for i in reversed(range(len(a)))], False, list(reversed(a))
            if len(a) == 1:
                return [(0, pick_atom(Poly.atom("rev"), tot))], False, list(a)
        if isinstance(step, int) and all(x.size.const() == 1 for x in a):
            r = list(range(len(a)))[slice(_native(s.start), _native(s.stop), step)]
            return [(i, None) for i in r], False, [a[i] for i in r] or [Seg(0)]
        raise Unsupported("slice with a step")
    if s.start is None and s.stop is None:
        return [(i, None) for i in range(len(a))], False, list(a)
    lo, hi = _bound(s.start, tot, Poly()), _bound(s.stop, tot, tot)
    if (hi - lo).sign() == -1:
        hi = lo
    cum = [Poly()]
    for seg in t.axes[k]:
        cum.append(cum[-1] + seg.size)
    i0 = next((i for i, c in enumerate(cum) if c.same(lo)), None)
    i1 = next((i for i, c in enumerate(cum) if c.same(hi)), None)
    if i0 is not None and i1 is not None:
        segs = list(t.axes[k][i0:i1])
        if not segs:
            return [(0, None)], False, [Seg(0)]
        return [(i, None) for i in range(i0, i1)], False, segs
    # split blocks of constants
    newb, ok = list(cum), True
    for v in (lo, hi):
        if not any(c.same(v) for c in newb):
            pos = next(
                (i for i in range(len(newb) - 1)
                 if (v - newb[i]).sign() in (1, 0) and (newb[i + 1] - v).sign() in (1, 0)),
                None,
            )
            if pos is None:
                if all(b.get().const() is not None for b in t.cells.values()):
                    raise Unsupported(f"cannot locate slice boundary {v} in {tot}")
                ok = False
                break
            j = next(q for q in range(len(cum) - 1, -1, -1) if any(
                c is cum[q] for c in newb[:pos + 1]))
            ok = ok and all(b.get().const() is not None for i, b in t.cells.items() if i[k] == j)
            newb.insert(pos + 1, v)
    if ok:
        new_axes = list(t.axes)
        new_axes[k] = tuple(Seg(newb[i + 1] - newb[i]) for i in range(len(newb) - 1))
        refine(t, new_axes)
        return _slice_axis(t, k, s)
    if len(a) == 1:
        return [(0, pick_atom(P(lo) * Poly.atom("from") + P(hi) * Poly.atom("to"), tot))], False, [
            Seg(hi - lo)
        ]
    raise Unsupported(f"slice [{lo}:{hi}] does not match the blocks of an axis of size {tot}")


def _native(v):
    if isinstance(v, Sym):
        raise Unsupported("symbolic slice")
    return v


def summary(t):
    """One value that stands for all entries."""
    u = t.uniform()
    if u is not None:
        return u
    ps = []
    for p in t.polys().values():
        if not any(p.same(q) for q in ps):
            ps.append(p)
    return Poly.func("entries", *ps)


def count_true(m):
    """Number of true entries (only known not to be negative)."""
    return Poly.atom(atom(f"n<{summary(m)}>", lower=0, kind="count"))


def advanced(t, idx):
    """Indexing by lists of integers."""
    if len(idx) == 1 and isinstance(idx[0], Tensor) and idx[0].dtype == BOOL:
        m = idx[0]
        if m.ndim != t.ndim:
            raise Unsupported("boolean mask")
        return t.like([ax(count_true(m))], Poly.func("mask", summary(t), summary(m)))
    lists = [k for k, i in enumerate(idx) if isinstance(i, (list, Tensor))]
    if len(lists) != 1 or any(
        not isinstance(i, (list, Tensor)) and i != slice(None) and i is not Ellipsis for i in idx
    ):
        raise Unsupported("advanced index")
    k = lists[0]
    if Ellipsis in [i for i in idx if not isinstance(i, (list, Tensor))]:
        k = t.ndim - (len(idx) - k)
    lst = idx[lists[0]]
    a = t.axes[k]
    if isinstance(lst, list) and all(x.size.const() == 1 for x in a):
        bl = [find_index(a, i)[0] for i in lst]
        cells = {}
        st = Storage("op", "gather")
        for i in indices([x if j != k else tuple(Seg(1) for _ in bl) for j, x in enumerate(t.axes)]):
            src = list(i)
            src[k] = bl[i[k]]
            cells[i] = Box(t.cells[tuple(src)].get(), st)
        axes = list(t.axes)
        axes[k] = tuple(Seg(1) for _ in bl)
        return Tensor(axes, cells, t.dtype, t.device, t.kind, t.graph)
    if isinstance(lst, list):
        for i in lst:
            find_index(a, i)
        nm, size = _idxname(lst), Poly.num(len(lst))
    else:
        u = lst.uniform()
        if u is None or lst.ndim != 1:
            raise Unsupported("index tensor")
        nm, size = str(u), axsize(lst.axes[0])
    f = f"R[{nm}@{axsize(a)}]"
    atom(f, kind="select", args=(nm, axsize(a)))
    if len(a) != 1:
        raise Unsupported("gather from a partitioned axis")
    axes = list(t.axes)
    axes[k] = ax(size)
    return t.like(axes, {i: p * Poly.atom(f) for i, p in t.polys().items()})


def keep_except(p, lst, a):
    """Content ``p`` of an axis with the entries ``lst`` removed (None: not expressible)."""
    out = Poly()
    for m, c in p.terms.items():
        if any(info(x).kind == "op" for x, _ in m):
            return None
        sel = [info(x).args[0] for x, _ in m if str(x).startswith("E[")]
        if not sel:
            f = f"K[{_idxname(lst)}@{axsize(a)}]"
            atom(f, kind="select", args=(_idxname(lst), axsize(a)))
            out = out + Poly({m: c}) * Poly.atom(f)
            continue
        old, gone = set(sel[-1].split(",")), {str(i) for i in lst}
        if old <= gone:
            continue
        if old & gone:
            f = f"K[{_idxname(lst)}@{axsize(a)}]"
            atom(f, kind="select", args=(_idxname(lst), axsize(a)))
            out = out + Poly({m: c}) * Poly.atom(f)
        else:
            out = out + Poly({m: c})
    return out


def _idxname(lst):
    return ",".join(str(i) if isinstance(i, int) else str(P(i)) for i in lst)


def setitem(t, idx, value):
    i0 = idx if isinstance(idx, tuple) else (idx,)
    if any(isinstance(i, (list, Tensor)) for i in i0):
        if len(i0) >= 1 and isinstance(i0[0], list) and all(i == slice(None) or i is Ellipsis
                                                            for i in i0[1:]):
            lst, a = i0[0], t.axes[0]
            note_write(t, "setitem")
            kept = {i: keep_except(b.get(), lst, a) for i, b in t.cells.items()}
            if all(k is not None for k in kept.values()):
                for i in lst:
                    find_index(a, i)
                f = f"E[{_idxname(lst)}@{axsize(a)}]"
                atom(f, kind="select", args=(_idxname(lst), axsize(a)))
                if isinstance(value, Tensor):
                    if value.ndim and not axsize(value.axes[0]).same(Poly.num(len(lst))):
                        event("shape-mismatch", op="setitem", sizes=[len(lst), str(value.shape)])
                        raise rt("setitem: shape mismatch", ValueError)
                    if isfloat(value.dtype) and not isfloat(t.dtype) or (
                        promote(t.dtype, value.dtype) != t.dtype
                    ):
                        event("truncate", op="setitem", to=t.dtype.name, frm=value.dtype.name)
                    u = value.uniform()
                    if u is None:
                        if value.ndim == t.ndim and all(
                            len(x) == 1 for x in t.axes
                        ) and value.ndim == 2:
                            refine(t, [t.axes[0], value.axes[1]])
                            for i, b in t.cells.items():
                                b.set(Poly.atom(f) * value.cells[(0, i[1])].get()
                                      + keep_except(b.get(), lst, a))
                            return
                        raise Unsupported("scatter of a partitioned value")
                else:
                    u = to_poly(value)
                for i, b in t.cells.items():
                    b.set(u * Poly.atom(f) + kept[i])
                return
        raise Unsupported("advanced assignment")
    v = getitem(t, idx)
    if isinstance(value, Tensor) and t.kind == "np" and not isfloat(t.dtype) and isfloat(value.dtype):
        event("truncate", op="setitem", to=t.dtype.name, frm=value.dtype.name)
    if isinstance(value, Tensor):
        value = value.like(value.axes, value.polys())
    write(v, value, "setitem")
    t.graph |= v.graph


# --------------------------------------------------------------------------------- layout
def permute(t, dims):
    dims = [d % t.ndim for d in dims]
    if sorted(dims) != list(range(t.ndim)):
        raise rt("permute: wrong dimensions")
    return t.view(
        [t.axes[d] for d in dims], {tuple(i[d] for d in dims): b for i, b in t.cells.items()}
    )


def transpose(t, a, b):
    d = list(range(t.ndim))
    a, b = a % t.ndim, b % t.ndim
    d[a], d[b] = d[b], d[a]
    return permute(t, d)


def unsqueeze(t, d):
    d = d % (t.ndim + 1)
    return t.view(
        t.axes[:d] + [ax(1)] + t.axes[d:], {i[:d] + (0,) + i[d:]: b for i, b in t.cells.items()}
    )


def squeeze(t, d=None):
    if d is None:
        ds = [k for k, a in enumerate(t.axes) if _one(a)]
    else:
        ds = [x % t.ndim for x in (d if isinstance(d, (tuple, list)) else [d])]
        ds = [k for k in ds if _one(t.axes[k])]
    keep = [k for k in range(t.ndim) if k not in ds]
    return t.view([t.axes[k] for k in keep],
                  {tuple(i[k] for k in keep): b for i, b in t.cells.items()})


def _merge(group):
    """Merge adjacent axes -> (axis, list of old block indices per new block) or None."""
    group = [g for g in group]
    if len(group) == 1:
        return group[0], [(i,) for i in range(len(group[0]))]
    first, rest = group[0], group[1:]
    if all(len(g) == 1 for g in rest):
        segs = []
        for s in first:
            size, fac = s.size, list(s.fac or [s])
            for g in rest:
                size = size * g[0].size
                fac += list(g[0].fac or [g[0]])
            lab = None
            segs.append(Seg(size, lab, tuple(fac)))
        return tuple(segs), [(i,) + (0,) * len(rest) for i in range(len(first))]
    if all(_one(g) for g in group[:-1]):
        return group[-1], [(0,) * (len(group) - 1) + (i,) for i in range(len(group[-1]))]
    if all(s.size.const() == 1 for s in first) or _one(first):
        # enumerate the leading axis explicitly
        sub = _merge(rest)
        if sub is None:
            return None
        segs, mp = [], []
        for i in range(len(first)):
            for s, m in zip(sub[0], sub[1]):
                segs.append(s)
                mp.append((i,) + m)
        return tuple(segs), mp
    return None


def reshape(t, shape):
    shape = list(shape)
    tot = t.numel()
    neg = [k for k, s in enumerate(shape) if isinstance(s, int) and s == -1]
    if neg:
        rest = Poly.num(1)
        for k, s in enumerate(shape):
            if k != neg[0]:
                rest = rest * P(s)
        q = exact_div(tot, rest)
        if q is None:
            raise rt(f"reshape: shape {shape} is invalid for size {tot}")
        shape[neg[0]] = dimval(q)
    new = [P(s) for s in shape]
    np_ = Poly.num(1)
    for s in new:
        np_ = np_ * s
    if not np_.same(tot):
        event("shape-mismatch", op="reshape", sizes=[str(tot), str(np_)])
        raise rt(f"reshape: shape {shape} is invalid for input of size {tot}")
    olds = [k for k in range(t.ndim) if not _one(t.axes[k])]
    news = [k for k in range(len(new)) if new[k].const() != 1]
    groups = []
    i = j = 0
    while i < len(olds) or j < len(news):
        go, gn = [], []
        po, pn = Poly.num(1), Poly.num(1)
        while True:
            if go and gn and po.same(pn):
                break
            if i >= len(olds) and j >= len(news):
                raise Unsupported("reshape: cannot group axes")
            ext_old = (not go) or (gn and exact_div(pn, po) is not None and i < len(olds))
            if ext_old and i < len(olds):
                po = po * axsize(t.axes[olds[i]])
                go.append(olds[i])
                i += 1
            elif j < len(news):
                pn = pn * new[news[j]]
                gn.append(news[j])
                j += 1
            elif i < len(olds):
                po = po * axsize(t.axes[olds[i]])
                go.append(olds[i])
                i += 1
        groups.append((go, gn))
    axes = [ax(1)] * len(new)
    plans = []  # (new axes, [(new idx tuple, old idx tuple)])
    for go, gn in groups:
        m = _merge([t.axes[k] for k in go])
        if m is None:
            raise Unsupported("reshape: merging partitioned axes")
        axis, back = m
        if len(gn) == 1:
            axes[gn[0]] = axis
            plans.append((go, gn, [((q,), back[q]) for q in range(len(axis))]))
            continue
        sizes = [new[k] for k in gn]
        if len(axis) == 1:
            segs = _unflatten(axis[0], sizes)
            for k, s in zip(gn, segs):
                c = s.size.const()
                axes[k] = (s,)
            plans.append((go, gn, [((0,) * len(gn), back[0])]))
        else:
            trail = Poly.num(1)
            for s in sizes[1:]:
                trail = trail * s
            lead = []
            ok = True
            for s in axis:
                q = exact_div(s.size, trail)
                if q is None:
                    ok = False
                    break
                lead.append(Seg(q))
            if ok:
                fac = axis[0].fac or ()
                labs = [None] * len(sizes[1:])
                tail = list(fac)[-len(labs):] if len(fac) == len(sizes) else []
                axes[gn[0]] = tuple(lead)
                for q, k in enumerate(gn[1:]):
                    axes[k] = (tail[q],) if tail and tail[q].size.same(sizes[1:][q]) else ax(
                        sizes[1:][q])
                plans.append((go, gn, [((q,) + (0,) * (len(gn) - 1), back[q])
                                       for q in range(len(axis))]))
            elif sizes[0].const() is not None and len(gn) == 2:
                # leading constant axis: consecutive blocks per element
                n = int(sizes[0].const())
                per = len(axis) // n
                if per * n != len(axis):
                    raise Unsupported("reshape: unflatten")
                rows = [axis[r * per:(r + 1) * per] for r in range(n)]
                if not all(axsize(r).same(sizes[1]) for r in rows):
                    raise Unsupported("reshape: unflatten")
                axes[gn[0]] = tuple(Seg(1) for _ in range(n))
                axes[gn[1]] = rows[0]
                plans.append((go, gn, [((q // per, q % per), back[q]) for q in range(len(axis))]))
            else:
                raise Unsupported("reshape: unflatten a partitioned axis")
    cells = {}
    for combo in product(*[p[2] for p in plans]):
        ni, oi = [0] * len(new), [0] * t.ndim
        for (go, gn, _), (nn, oo) in zip(plans, combo):
            for k, v in zip(gn, nn):
                ni[k] = v
            for k, v in zip(go, oo):
                oi[k] = v
        cells[tuple(ni)] = t.cells[tuple(oi)]
    return t.view(axes, cells)


def _unflatten(seg, sizes):
    if seg.fac is not None:
        fac, out, i = list(seg.fac), [], 0
        for s in sizes:
            p, got = Poly.num(1), []
            while i < len(fac) and not (got and p.same(s)):
                p = p * fac[i].size
                got.append(fac[i])
                i += 1
            if not p.same(s):
                break
            out.append(got[0] if len(got) == 1 else Seg(s, None, tuple(got)))
        else:
            if i == len(fac):
                return out
        if seg.size.const() is None:  # entries of different axes end up in one
            src = "mixed:" + "*".join(str(f.size) for f in seg.fac)
            return [Seg(s, None, (Seg(s, src),)) for s in sizes]
    return [Seg(s) for s in sizes]


def cat(ts, dim=0):
    ts = list(ts)
    if not ts:
        raise rt("cat: expected a non-empty list")
    rep = None
    n = ts[0].ndim
    if n == 0:
        raise rt("cat: zero-dimensional tensor cannot be concatenated")
    if any(t.ndim != n for t in ts):
        event("shape-mismatch", op="cat", sizes=[str(t.shape) for t in ts])
        raise rt("cat: tensors must have the same number of dimensions")
    d, dev, kind, g = join_meta(ts, op="cat")
    dim = dim % n
    full = [t for t in ts if axsize(t.axes[dim]).const() != 0]
    ts = full or ts[:1]
    axes, maps = [], []
    for k in range(n):
        if k == dim:
            axes.append(tuple(s for t in ts for s in t.axes[k]))
            maps.append(None)
        else:
            a, m = unify([t.axes[k] for t in ts], broadcast=False, op="cat")
            axes.append(a)
            maps.append(m)
    off, polys = 0, {}
    for q, t in enumerate(ts):
        nk = len(t.axes[dim])
        sub = [a if k != dim else t.axes[dim] for k, a in enumerate(axes)]
        for i in indices(sub):
            src = tuple(i[k] if k == dim else maps[k][q][i[k]] for k in range(n))
            dst = tuple(i[k] + off if k == dim else i[k] for k in range(n))
            polys[dst] = t.cells[src].get()
        off += nk
    return finish(Tensor.new(axes, polys, d, dev, kind, g))


def stack(ts, dim=0, rep=None):
    ts = list(ts)
    if not ts:
        raise rt("stack: expected a non-empty list")
    if rep is not None:
        t0 = ts[0]
        uni = {i: unmark(b.get(), 0, rep) for i, b in t0.cells.items()}
        for n, t in enumerate(ts[1:], 1):
            if not all(unmark(b.get(), n, rep).same(uni[i]) for i, b in t.cells.items()):
                raise Unsupported("stack over representatives that differ")
        r = unsqueeze(t0, dim)
        d = dim % (t0.ndim + 1)
        axes = list(r.axes)
        axes[d] = ax(rep)
        back = {i[:d] + (0,) + i[d:]: p for i, p in uni.items()}
        return r.like(axes, {i: back[i] for i in r.cells})
    s0 = ts[0].shape
    for t in ts[1:]:
        if len(t.shape) != len(s0) or any(a != b for a, b in zip(t.shape, s0)):
            event("shape-mismatch", op="stack", sizes=[str(t.shape) for t in ts])
            raise rt("stack expects each tensor to be equal size")
    return cat([unsqueeze(t, dim) for t in ts], dim)


def rep_index(n, size):
    """Index of representative ``n`` (first, generic, last) among ``size`` elements."""
    return [P(0), Poly.atom(f"i<{size}>"), P(size) - 1][n]


def unmark(p, n, size):
    """Value of representative ``n``, relative to its own position."""
    return strip_mark(p, _pick_name(rep_index(n, size), size))


def strip_mark(p, mark):
    def f(a):
        if a == mark:
            return Poly.num(1)
        i = info(a)
        if i.kind == "composite":
            q = strip_mark(i.args[0], mark)
            return q if q.same(i.args[0]) is False else Poly.atom(a)
        if i.fname and any(isinstance(x, Poly) for x in i.args):
            new = [strip_mark(x, mark) if isinstance(x, Poly) else x for x in i.args]
            if any(isinstance(x, Poly) and not x.same(y) for x, y in zip(i.args, new)):
                return Poly.func(i.fname, *new, kind="" if i.kind == "func" else i.kind,
                                 extra=i.extra)
        return Poly.atom(a)

    return p.subst(f)


def split(t, sizes, dim=0):
    """Split into pieces; ``sizes`` is one size or a list."""
    dim = dim % t.ndim
    tot = axsize(t.axes[dim])
    if isinstance(sizes, (int, Sym)):
        c = P(sizes)
        tc = tot.const()
        if tc is not None and c.const() is not None:
            n, r = divmod(int(tc), int(c.const()))
            sizes = [int(c.const())] * n + ([r] if r else [])
        else:
            q = exact_div(tot, c)
            if q is None:
                raise Unsupported("split into uneven chunks")
            if q.const() is not None:
                sizes = [dimval(c)] * int(q.const())
            else:
                return ("rep", q, c)
    acc = Poly()
    out = []
    for s in sizes:
        p = P(s)
        sl = [slice(None)] * t.ndim
        sl[dim] = slice(dimval(acc), dimval(acc + p))
        if p.const() == 0:
            raise Unsupported("empty piece")
        if (acc + p - tot).sign() == 1:
            break
        out.append(getitem(t, tuple(sl)))
        acc = acc + p
    if not acc.same(tot) or len(out) != len(sizes):
        event("shape-mismatch", op="split", sizes=[str(tot), str(acc)])
        raise rt(f"split: sizes sum to {acc}, expected {tot}")
    return out


def expand(t, shape):
    shape = list(shape)
    off = len(shape) - t.ndim
    if off < 0:
        raise rt("expand: too few dimensions")
    axes, maps = [], []
    for k, s in enumerate(shape):
        if k < off:
            a = mkaxis(s)
            axes.append(a)
            maps.append(None)
            continue
        src = t.axes[k - off]
        if isinstance(s, int) and s == -1 or P(s).same(axsize(src)):
            axes.append(src)
            maps.append(list(range(len(src))))
        elif _one(src):
            a = mkaxis(s)
            axes.append(a)
            maps.append([0] * len(a))
        else:
            event("shape-mismatch", op="expand", sizes=[str(axsize(src)), str(P(s))])
            raise rt("expand: sizes do not match")
    cells = {i: t.cells[tuple(maps[k][i[k]] for k in range(off, len(shape)))]
             for i in indices(axes)}
    return t.view(axes, cells)


def repeat(t, reps):
    reps = list(reps)
    off = len(reps) - t.ndim
    if off < 0:
        raise rt("repeat: too few dimensions")
    for _ in range(off):
        t = unsqueeze(t, 0)
    axes, maps = [], []
    for a, r in zip(t.axes, reps):
        if isinstance(r, int) and r == 1:
            axes.append(a)
            maps.append(list(range(len(a))))
        elif isinstance(r, int) and r * len(a) <= 200:
            axes.append(tuple(a) * r)
            maps.append(list(range(len(a))) * r)
        elif len(a) == 1:
            axes.append(ax(P(r) * a[0].size))
            maps.append([0])
        else:
            raise Unsupported("repeat of a partitioned axis")
    return t.like(axes, {i: t.cells[tuple(m[q] for m, q in zip(maps, i))].get()
                         for i in indices(axes)})


# -------------------------------------------------------------------------------- algebra
def einsum(operands, subs, out, op="einsum"):
    """Generalised contraction. ``subs`` are lists of axis names per operand."""
    d, dev, kind, g = join_meta(operands, strict_dtype=True, op=op)
    names, occ, vary = [], {}, {}
    for t, s in zip(operands, subs):
        if len(s) != t.ndim:
            event("shape-mismatch", op=op, sizes=[str(t.shape), str(s)])
            raise rt(f"{op}: {len(s)} names for {t.ndim} dimensions")
        for k, n in enumerate(s):
            if n not in occ:
                occ[n], vary[n] = [], []
                names.append(n)
            occ[n].append(t.axes[k])
            vary[n].append(varies(t))
    axis, imap = {}, {}
    for n in names:
        axis[n], ms = unify(occ[n], op=op, varying=vary[n])
        imap[n] = ms
    for n in out:
        if n not in axis:
            raise rt(f"{op}: unknown output axis {n}", ValueError)
    order = list(out) + [n for n in names if n not in out]
    _eigen_roles(operands, subs)
    if len(operands) == 2 and len(order) > len(out):
        us = [t.uniform() for t in operands]
        if all(u is not None for u in us) and us[0].same(us[1]):
            size = Poly.num(1)
            for n in order[len(out):]:
                size = size * axsize(axis[n])
            event("selfprod", unit=us[0], size=size)
    square = None
    if len(operands) == 2 and not out:
        us = [t.uniform() for t in operands]
        if all(u is not None for u in us) and us[0].same(us[1]) and us[0].const() is None:
            square = us[0]
    polys = {}
    cnt = {n: 0 for n in names}
    which = []
    for s in subs:
        w = []
        for n in s:
            w.append((n, cnt[n]))
            cnt[n] += 1
        which.append(w)
    caches = [t.polys() for t in operands]
    for combo in product(*[range(len(axis[n])) for n in order]):
        at = dict(zip(order, combo))
        p = Poly.num(1)
        for ps, w in zip(caches, which):
            p = p * ps[tuple(imap[n][c][at[n]] for n, c in w)]
            if not p.terms:
                break
        o = combo[: len(out)]
        p = times_size(p, [axis[n][at[n]].size for n in order[len(out):]])
        polys[o] = polys[o] + p if o in polys else p
    r = finish(Tensor.new([axis[n] for n in out], polys, d, dev, kind, g))
    if square is not None:
        r.meta["square of"] = square
    return r


def _eigen_roles(operands, subs):
    """Index typestate: eigenvector columns are contracted with coordinates in that basis."""
    for k, (t, s) in enumerate(zip(operands, subs)):
        atoms = {a for p in t.polys().values() for a in p.atoms()}
        if t.ndim != 2 or not atoms or any(info(a).fname != "eigvecs" for a in atoms):
            continue
        keys = {str(info(a).args[0]) for a in atoms}
        if len(keys) != 1:
            continue
        for j, (o, r) in enumerate(zip(operands, subs)):
            if j == k:
                continue
            units = set()
            for p in o.polys().values():
                units |= p.atoms()
                for a in p.atoms():
                    if info(a).kind == "composite":
                        units |= info(a).args[0].atoms()
            based = any(info(a).fname in ("eigvecs", "eigvals") and
                        {str(info(a).args[0])} == keys for a in units)
            for d, n in enumerate(s):
                lab = t.axes[d][0].label
                if n not in r or len(t.axes[d]) != 1 and lab is None and d == 1:
                    continue
                other = o.axes[r.index(n)][0].label
                if lab and lab.startswith("eig(") and not based and "Id" not in units:
                    event("eigen-role", roles=["column", "coordinates in the original basis"])
                if lab is None and other == f"eig({axsize(t.axes[d])})" and based:
                    event("eigen-role", roles=["row", "coordinates in the eigenbasis"])


def times_size(p, sizes):
    """Sum over blocks of the given sizes: constants are counted, units are summed implicitly."""
    if len(sizes) == 1 and any(info(a).fname == "diagof" for m in p.terms for a, _ in m):
        r = Poly()
        for m, c in p.terms.items():
            if len(m) == 1 and info(m[0][0]).fname == "diagof" and m[0][1] == 1:
                r = r + Poly.func("tr", info(m[0][0]).args[0], extra=str(sizes[0])) * c
            else:
                r = r + times_size(Poly({m: c}), sizes) if not any(
                    info(a).fname == "diagof" for a, _ in m) else r + Poly({m: c})
        return r
    if not sizes or not any(is_count(m) for m in p.terms):
        return p
    n = Poly.num(1)
    for s in sizes:
        n = n * s
    if n.const() == 1:
        return p
    return Poly({m: c for m, c in p.terms.items() if not is_count(m)}) + n * Poly(
        {m: c for m, c in p.terms.items() if is_count(m)})


def is_count(m):
    """Does the monomial consist of integer quantities only?"""
    for a, _ in m:
        i = info(a)
        if i.kind == "composite":
            if not all(is_count(k) for k in i.args[0].terms):
                return False
        elif not (i.kind == "scalar" or (i.lower is not None and i.kind != "gen")):
            return False
    return True


def matmul(a, b):
    la = ["x%d" % i for i in range(a.ndim)]
    if a.ndim == 0 or b.ndim == 0:
        raise rt("matmul: scalar operand")
    if a.ndim == 1 and b.ndim == 1:
        return einsum([a, b], [["c"], ["c"]], [], "matmul")
    if b.ndim == 1:
        return einsum([a, b], [la[:-1] + ["c"], ["c"]], la[:-1], "matmul")
    if a.ndim == 1:
        lb = ["x%d" % i for i in range(b.ndim - 2)]
        return einsum([a, b], [["c"], lb + ["c", "n"]], lb + ["n"], "matmul")
    n = max(a.ndim, b.ndim)
    bat = ["b%d" % i for i in range(n - 2)]
    return einsum(
        [a, b],
        [bat[n - a.ndim:] + ["m", "c"], bat[n - b.ndim:] + ["c", "n"]],
        bat + ["m", "n"],
        "matmul",
    )


def dims_arg(t, dim):
    if dim is None:
        return list(range(t.ndim))
    if isinstance(dim, (list, tuple)):
        return [d % t.ndim for d in dim]
    return [dim % t.ndim]


def reduce_sum(t, dim=None, keepdim=False, mean=False):
    ds = dims_arg(t, dim)
    keep = [k for k in range(t.ndim) if k not in ds]
    polys = {}
    for i, b in t.cells.items():
        o = tuple(i[k] for k in keep)
        p = times_size(b.get(), [t.axes[k][i[k]].size for k in range(t.ndim) if k in ds])
        polys[o] = polys[o] + p if o in polys else p
    if mean:
        n = Poly.num(1)
        for k in ds:
            n = n * axsize(t.axes[k])
        polys = {i: p.div(n) for i, p in polys.items()}
    r = finish(t.like([t.axes[k] for k in keep], polys,
                      dtype=INT64 if t.dtype == BOOL and not mean else None))
    if keepdim:
        for d in sorted(ds):
            r = unsqueeze(r, d)
    return r


def reduce_func(name, t, dim=None, keepdim=False, dtype=None):
    """Opaque reduction (max, norm, any, ...)."""
    ds = dims_arg(t, dim)
    keep = [k for k in range(t.ndim) if k not in ds]
    groups = {}
    for i, b in t.cells.items():
        groups.setdefault(tuple(i[k] for k in keep), []).append(b.get())
    polys = {}
    for o, ps in groups.items():
        u = []
        for p in ps:
            if not any(p.same(q) for q in u):
                u.append(p)
        c = [p.const() for p in u]
        if name in ("amax", "amin") and len(u) == 1 and c[0] is not None:
            polys[o] = u[0]
        else:
            polys[o] = Poly.func(name, *sorted(u, key=str))
    r = finish(t.like([t.axes[k] for k in keep], polys, dtype=dtype))
    if keepdim:
        for d in sorted(ds):
            r = unsqueeze(r, d)
    return r


def same_value(a, b):
    """Do two tensors provably hold the same values?"""
    if a.ndim != b.ndim:
        return False
    try:
        saved, Cur.ip = Cur.ip, None
        axes, (fa, fb) = broadcast([a, b])
    except AbsRaise:
        return False
    finally:
        Cur.ip = saved
    return all(
        a.cells[fa(i)].get().detach().same(b.cells[fb(i)].get().detach()) for i in indices(axes)
    )


# ---------------------------------------------------------------------------------- einops
def parse_side(s):
    """Parse one side of an einops pattern into a list of names / lists of names."""
    out, i = [], 0
    toks = s.replace("(", " ( ").replace(")", " ) ").replace("…", "...").split()
    cur = None
    for t in toks:
        if t == "(":
            cur = []
        elif t == ")":
            out.append(cur)
            cur = None
        elif cur is not None:
            cur.append(t)
        else:
            out.append(t)
    return out


def einops_reduce(t, pattern, reduction, sizes):
    """``einops.rearrange`` (reduction None) and ``einops.reduce``."""
    left, right = pattern.split("->")
    left, right = parse_side(left), parse_side(right)
    n_ell = t.ndim - sum(1 for x in left if x != "...")
    if "..." in left:
        if n_ell < 0:
            raise rt("einops: wrong number of dimensions", ValueError)
    elif n_ell != 0:
        event("shape-mismatch", op="einops", sizes=[str(t.shape), pattern])
        raise rt(f"einops: pattern {pattern!r} does not fit shape {t.shape}", ValueError)
    ell = [f".{k}" for k in range(n_ell)]

    def ex(side):
        out = []
        for x in side:
            if x == "...":
                out += ell
            elif isinstance(x, list):
                y = []
                for z in x:
                    y += ell if z == "..." else [z]
                out.append(y)
            else:
                out.append(x)
        return out

    left, right = ex(left), ex(right)
    # 1) unflatten
    shape, names = [], []
    for k, x in enumerate(left):
        tot = axsize(t.axes[k])
        if isinstance(x, list):
            known = Poly.num(1)
            unk = []
            for z in x:
                if z in sizes:
                    known = known * P(sizes[z])
                elif z != "1":
                    unk.append(z)
            if len(unk) > 1:
                raise rt("einops: could not infer sizes", ValueError)
            q = exact_div(tot, known)
            if q is None or (not unk and q.const() != 1):
                event("shape-mismatch", op="einops", sizes=[str(tot), str(known)])
                raise rt(f"einops: cannot divide axis {tot} into {known}", ValueError)
            for z in x:
                names.append(z)
                shape.append(P(sizes[z]) if z in sizes else q if z in unk else Poly.num(1))
        elif x == "1":
            if not _one(t.axes[k]):
                raise rt("einops: axis is not of size 1", ValueError)
            names.append(f"1@{k}")
            shape.append(tot)
        else:
            if x in sizes and not P(sizes[x]).same(tot):
                raise rt("einops: size mismatch", ValueError)
            names.append(x)
            shape.append(tot)
    if len(names) != t.ndim:
        t = reshape(t, [dimval(s) for s in shape])
    rflat = []
    for x in right:
        rflat += x if isinstance(x, list) else [x]
    drop = [k for k, n in enumerate(names) if n not in rflat]
    if drop:
        bad = [k for k in drop if not _one(t.axes[k]) ]
        if reduction is None and bad:
            raise rt("einops: identifiers only on one side", ValueError)
        if reduction in ("mean", "sum"):
            t = reduce_sum(t, drop, mean=reduction == "mean")
        elif reduction is None:
            t = squeeze(t, drop)
        else:
            t = reduce_func(reduction, t, drop)
        names = [n for k, n in enumerate(names) if k not in drop]
    order, new_names = [], []
    for n in rflat:
        if n in names:
            order.append(names.index(n))
    for n in rflat:
        if n not in names and n != "1" and n not in sizes:
            raise rt(f"einops: unknown axis {n}", ValueError)
        if n in sizes and n not in names:
            raise Unsupported("einops.repeat")
    t = permute(t, order) if order != list(range(t.ndim)) else t
    # merge
    shape, k = [], 0
    need = False
    for x in right:
        if isinstance(x, list):
            p = Poly.num(1)
            for z in x:
                if z in names:
                    p = p * axsize(t.axes[k])
                    k += 1
            shape.append(dimval(p))
            need = need or len(x) != 1
        elif x == "1":
            shape.append(1)
            need = True
        else:
            shape.append(dimval(axsize(t.axes[k])))
            k += 1
    return reshape(t, shape) if need else t


def einops_einsum(operands, pattern):
    left, right = pattern.split("->")
    ins = [parse_side(s) for s in left.split(",")]
    out = parse_side(right)
    if len(ins) != len(operands):
        raise rt("einops.einsum: wrong number of operands", ValueError)
    return einsum_ellipsis(operands, ins, out)


def einsum_ellipsis(operands, ins, out):
    n_ell = 0
    subs = []
    for t, s in zip(operands, ins):
        if "..." in s:
            n = t.ndim - (len(s) - 1)
            if n < 0:
                event("shape-mismatch", op="einsum", sizes=[str(t.shape), str(s)])
                raise rt("einsum: too few dimensions")
            n_ell = max(n_ell, n)
    for t, s in zip(operands, ins):
        if "..." in s:
            n = t.ndim - (len(s) - 1)
            ell = [f".{k}" for k in range(n_ell - n, n_ell)]
            k = s.index("...")
            s = s[:k] + ell + s[k + 1:]
        subs.append(s)
    if "..." in out:
        k = out.index("...")
        out = out[:k] + [f".{j}" for j in range(n_ell)] + out[k + 1:]
    return einsum(operands, subs, out)


def torch_einsum(operands, eq):
    eq = eq.replace(" ", "")
    if "->" in eq:
        l, r = eq.split("->")
    else:
        l = eq
        letters = [c for c in l.replace("...", "") if c.isalpha()]
        r = ("..." if "..." in l else "") + "".join(sorted(c for c in set(letters)
                                                          if letters.count(c) == 1))

    def toks(s):
        out, i = [], 0
        while i < len(s):
            if s[i:i + 3] == "...":
                out.append("...")
                i += 3
            else:
                out.append(s[i])
                i += 1
        return out

    ins = [toks(s) for s in l.split(",")]
    if len(ins) != len(operands):
        raise rt("einsum: wrong number of operands", ValueError)
    return einsum_ellipsis(list(operands), ins, toks(r))
