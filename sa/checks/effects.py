"""Effects of the operators: order of data, user state, hooks, faults, randomness, devices."""

import ast

from .. import judges as J
from .. import spec
from .. import tensorops as T
from ..poly import P, Poly, atom
from ..report import Bad, Check, Skip, exc_name, exc_text
from ..values import CPU, AbsRaise, LDict, LList, Obj, Sym, Tensor, axsize
from . import CHECKS, check
from .jacobian import JA, TJ, jac_judge, tjac_judge
from .kfac import (ALL, C1, CNN, FUNCS, KF, KI, L1, MLP, NAMES, ONE, cart, cfg, factors_judge,
                   inverse_after_fault, inverse_judge, kfac_coeff,
                   label, plain, product_then_state, scalar_judge, state, with_factors)
from .linop import (AH, DAMP, act_judge, gradient_judge, make, name_of, np_of, run, scenarios,
                    scipy_body)
from .products import COEFF, E, F, G, H, matmat, product_judge

OPS = tuple(f"C{k:02d}" for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 19))
ARRAYS = ("C12", "C13", "C14", "C17", "C18")


class Recorder(Check):
    """Collects the uses of other checks."""

    def __init__(self, c):
        super().__init__(c.pid, c.tier)
        self.uses = []

    def cases(self, label, cfg, body, judges, raises="bad", max_paths=64):
        self.uses.append((label, cfg, body, raises, max_paths))


def uses_of(c, ids):
    """All uses analysed by the checks ``ids`` (without their judges)."""
    out = []
    for pid in ids:
        r = Recorder(c)
        CHECKS[pid](r)
        seen = set()
        for u in r.uses:
            # several rules of one check may analyse the same use
            key = (u[0], getattr(u[2], "__code__", None), str(u[1]))
            if key not in seen or pid in ARRAYS:
                seen.add(key)
                out.append((pid, u))
    return out


def ignore(p, sc):
    """Exceptional outcomes are judged elsewhere."""
    raise Skip(f"raises {exc_name(p.value)}: {exc_text(p.value)[:80]}")


def everywhere(c, rule, judge, ids, when=None, tag="", change=None):
    """Apply ``judge`` to every use of the checks ``ids``; also to its exceptional paths."""
    for pid, (lab, u, body, raises, mp) in uses_of(c, ids):
        if when and not when(u):
            continue
        if change and u is not None:
            u = change(dict(u))
            if u is None:
                continue
        c.cases(f"{pid}: {lab}{tag}", u, body, [(rule, judge)], judge, mp)


def valid(u):
    """Two examples per batch where a square root per example is unrolled."""
    if (u.get("kwargs") or {}).get("fisher_type") == "type-2":
        u = {**u, "minB": 2}
    return u


def existing_gradients(c, rule, judge):
    """Uses in the middle of a training step: the parameters' ``.grad`` hold gradients."""
    everywhere(c, rule, judge, ("C01", "C02", "C03", "C04", "C05", "C08", "C16", "C19"),
               when=lambda u: u is not None and len(u) < 8 and u.get("pdev") is None,
               tag=", existing gradients", change=lambda u: valid({**u, "grads": True}))


def numel(axes):
    n = Poly.num(1)
    for a in axes:
        n = n * axsize(a)
    return n


def calls(p, kind):
    return [e for e in p.events if e.kind == kind]


# ------------------------------------------------------------------- order of the data
ROT = {
    "reversed": lambda k: [2, 1, 0],
    "rotating": lambda k: [(i + k) % 3 for i in range(3)],
    "alternating": lambda k: [0, 1, 2] if k % 2 else [1, 2, 0],
}


class Order:
    """A shuffling data loader (prints as its name)."""

    def __init__(self, name):
        self.name, self.f = name, ROT[name]

    def __call__(self, k):
        return self.f(k)

    def __repr__(self):
        return self.name


@check("C20")
def order(c):
    for name in ROT:
        o = Order(name)
        for op in (H, G, E, F):
            for v in (dict(loss="MSELoss"), dict(loss="CrossEntropyLoss", extra=False),
                      dict(loss="BCEWithLogitsLoss", reduction="sum"),
                      dict(loss="MSELoss", num_data=50), dict(loss="MSELoss", dict_input=True),
                      dict(loss="MSELoss", form="flat", params=("P2", "P0")),
                      dict(loss="CrossEntropyLoss", equal=True)):
                u = dict(op=op, order=o, **v)
                c.run("product", u, matmat, product_judge(COEFF[op], op == F))
                c.run("gradient-and-loss", u, gradient_body, gradient_judge)
            if op != F:
                c.run("no-false-alarm", dict(op=op, order=o, loss="MSELoss", check=True), matmat,
                      product_judge(COEFF[op]))
        for ft in ("mc", "empirical", "type-2", "forward-only"):
            for red in ("mean", "sum"):
                for net, ap in ((MLP, "expand"), (CNN, "reduce")):
                    u = cfg(net=net, fisher_type=ft, kfac_approx=ap, extra=net is MLP, nbatch=3,
                            reduction=red, order=o, minB=2 if ft == "type-2" else 1)
                    c.run("kronecker-factors", u, product_then_state, factors_judge,
                          label=label(u))
            u = cfg(fisher_type=ft, order=o)
            c.run("gradient-and-loss", u, gradient_body, gradient_judge, label=label(u))


def gradient_body(ip, sc):
    op = make(ip, sc)
    return ip.call(ip.getattr(op, "gradient_and_loss"), [], {})


# ------------------------------------------------------------------- size of the data set
def size_judge(expect_full, inner):
    """``expect_full``: number of complete traversals allowed while constructing."""
    def judge(p, sc):
        n = getattr(sc, "built_at", None)
        full = len([e for e in p.events[:n] if e.kind == "data-end"])
        if full > expect_full:
            ev = [e for e in p.events[:n] if e.kind == "data-end"]
            raise Bad(f"{full} traversals of the data while constructing, documented at most "
                      f"{expect_full}", ev[-1].loc)
        inner(p, sc)
    return judge


def sized_body(ip, sc):
    op = sc.make(ip)
    sc.built_at = len(ip.events)
    return ip.binop(ast.MatMult, op, sc.operand(ip))


def sized_grad(ip, sc):
    op = sc.make(ip)
    sc.built_at = len(ip.events)
    return ip.call(ip.getattr(op, "gradient_and_loss"), [], {})


def sized_state(ip, sc):
    op = sc.make(ip)
    sc.built_at = len(ip.events)
    ip.binop(ast.MatMult, op, sc.operand(ip))
    return state(ip, op)


@check("C21")
def data_size(c):
    for op in (H, G, E, F):
        for nd, red, loss in ((None, "mean", "MSELoss"), (1, "mean", "MSELoss"),
                              (1000, "mean", "CrossEntropyLoss"), (1000, "sum", "MSELoss"),
                              (7, "mean", "BCEWithLogitsLoss"), (None, "sum", "CrossEntropyLoss")):
            for d in (True, False):
                for bf in (True, False):
                    u = dict(op=op, num_data=nd, reduction=red, loss=loss, dict_input=d,
                             batch_fn=bf)
                    n = 0 if nd is not None else 1
                    c.run("normalization", u, sized_body,
                          size_judge(n, product_judge(COEFF[op], op == F)))
                    c.run("gradient-normalization", u, sized_grad, size_judge(n, gradient_judge))
        # several rows of the output, and of the labels, per data point
        for red, loss, ex, nd in (("mean", "MSELoss", False, None), ("mean", "MSELoss", True, None),
                                  ("mean", "CrossEntropyLoss", False, None),
                                  ("mean", "CrossEntropyLoss", True, 1000),
                                  ("mean", "BCEWithLogitsLoss", False, None),
                                  ("sum", "MSELoss", False, None)):
            u = dict(op=op, num_data=nd, reduction=red, loss=loss, dict_input=True, extra=ex,
                     rows=True)
            n = 0 if nd is not None else 1
            c.run("normalization-of-rows", u, sized_body,
                  size_judge(n, product_judge(COEFF[op], op == F)))
            c.run("gradient-normalization-of-rows", u, sized_grad, size_judge(n, gradient_judge))
    for op, judge in ((JA, jac_judge), (TJ, tjac_judge)):
        for d in (True, False):
            c.run("data-size", dict(op=op, loss=None, dict_input=d, batch_fn=True), sized_body,
                  size_judge(1, judge))
    for ft in ("mc", "empirical", "type-2", "forward-only"):
        for red in ("mean", "sum"):
            for d in (True, False):
                for nd, t, ex, n in ((None, None, True, 2), (None, None, False, 2),
                                     (100, 1, False, 0), (None, 1, False, 1)):
                    u = cfg(fisher_type=ft, reduction=red, dict_input=d, num_data=nd, extra=ex,
                            num_per_example_loss_terms=t, nbatch=2,
                            minB=2 if ft == "type-2" else 1)
                    c.run("factor-normalization", u, sized_state, size_judge(n, factors_judge),
                          label=label(u))
            u = cfg(fisher_type=ft, reduction=red, num_data=100, extra=False,
                    num_per_example_loss_terms=1)
            c.run("gradient-normalization", u, sized_grad, size_judge(0, gradient_judge),
                  label=label(u))


# ------------------------------------------------------------------- the user's memory
def result_tensors(v, depth=0):
    """Tensors handed to the user (not the scenario's own entries of a result)."""
    if isinstance(v, Tensor):
        yield v
    elif isinstance(v, dict):
        for k, x in v.items():
            if k in ("X", "x", "model_func_state_dict", "S", "shape", "M", "W"):
                continue
            yield from result_tensors(x, depth + 1)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from result_tensors(x, depth + 1)


def memory_judge(p, sc):
    J.no_user_writes(p)
    for e in p.events:
        if e.kind == "grad-write":
            raise Bad("writes to a parameter's .grad", e.loc)
    if p.outcome == "return":
        given = {id(t) for t in p.ip.state.get("given", ())}
        for t in result_tensors(p.value):
            if id(t) not in given:  # the use returns its own operand for reference
                J.no_alias(p, t)


@check("C22")
def memory(c):
    everywhere(c, "user-memory", memory_judge, OPS + ARRAYS)
    existing_gradients(c, "user-memory", memory_judge)


# ------------------------------------------------------------------- the user's model
def model_judge(p, sc):
    if sc is None:
        return
    now = sc.snapshot()
    for n, s in sc.state0.items():
        dev, rg, grad, cells = s
        dev2, rg2, grad2, cells2 = now[n]
        if dev != dev2:
            e = [e for e in calls(p, "model-move") if e.data["param"] is sc.model_params[n]]
            raise Bad(f"parameter {n} is left on {dev2} instead of {dev}", e and e[-1].loc)
        if rg != rg2:
            raise Bad(f"requires_grad of {n} is changed")
        if grad2 != grad:
            raise Bad(f"the gradient of {n} is changed")
        if cells2 != cells:
            raise Bad(f"the values of {n} are changed")
    for e in p.events:
        if e.kind == "model-state":
            raise Bad(f"changes the model ({e.data['op']})", e.loc)
        if e.kind == "grad-write":
            raise Bad("writes to a parameter's .grad", e.loc)
        if e.kind in ("setattr", "delattr") and J.user_owned(getattr(e.data.get("obj"), "owner",
                                                                    None)):
            raise Bad(f"changes an attribute of {e.data['obj'].owner}", e.loc)
        if e.kind == "hook-return":
            raise Bad("a hook replaces a layer's input or output", e.loc)


FAULTS = [
    (dict(op=op, loss="MSELoss", **v), None)
    for op in (H, G, E, F) for v in (dict(nbatch=2), dict(nbatch=2, pdev="cuda"),
                                     dict(nbatch=2, pdev="cuda", check=True))
] + [(dict(op=op, loss=None, nbatch=2, **v), None) for op in (JA, TJ)
     for v in ({}, dict(pdev="cuda", check=True))]
FAULTS += [(cfg(fisher_type=ft, extra=False, nbatch=2, minB=2, **v), None)
           for ft in ("mc", "empirical", "type-2", "forward-only")
           for v in ({}, dict(pdev="cuda", check=True))]
FAULTS += [(cfg(net=CNN, fisher_type="mc", extra=False, nbatch=2, params=("b1", "W2")), None)]
FAULTS += [(dict(op=AH, net=MLP, params=ALL, nbatch=1, loss="CrossEntropyLoss", activation=a,
                 **v), None)
           for a in (("l1", "output", 0), ("l2", "input", 0))
           for v in ({}, dict(check=True), dict(pdev="cuda", check=True))]


def fault_name(u):
    return label(u) if u["op"] == KF else ", ".join(f"{k}={v}" for k, v in u.items())


def product_on(ip, sc, op):
    return ip.binop(ast.MatMult, op, sc.operand(ip))


def actions_for(u):
    acts = {"product": product_on}
    if u["op"] in (H, G, E, F, KF):
        acts["gradient_and_loss"] = lambda ip, sc, op: ip.call(
            ip.getattr(op, "gradient_and_loss"), [], {})
    if u["op"] == KF:
        for n in NAMES:
            acts[n] = lambda ip, sc, op, n=n: ip.getattr(op, n)
    return acts


def faulty(action, at, interrupt=False):
    """Action with one fault at an arbitrary point, while constructing or in the action."""
    def body(ip, sc):
        ip.state["interrupt"] = interrupt
        if at == "construct":
            ip.faults_left = 1
        op = sc.make(ip)
        if at != "construct":
            ip.faults_left = 1
        return action(ip, sc, op)
    return body


@check("C23")
def model_state(c):
    everywhere(c, "model-state", model_judge, OPS)
    everywhere(c, "model-state", model_judge, ("C01", "C02", "C03", "C04", "C05", "C16"),
               when=lambda u: u.get("pdev") is None and u.get("module") is not False,
               tag=", pdev=cuda, check=True",
               change=lambda u: valid({**u, "pdev": "cuda", "check": True}))
    existing_gradients(c, "model-state", model_judge)
    for u, _ in FAULTS:
        for at in ("construct", "action"):
            for n, a in actions_for(u).items():
                if at == "construct" and n != "product":
                    continue
                c.cases(f"{fault_name(u)}, {n}, fault at {at}", u, faulty(a, at),
                        [("model-state-after-fault", model_judge)], model_judge, 256)
        if set(u) <= {"op", "loss", "nbatch", "net", "params", "kwargs", "activation", "extra"}:
            for at in ("construct", "action"):
                c.cases(f"{fault_name(u)}, interrupt at {at}", u, faulty(product_on, at, True),
                        [("model-state-after-interrupt", model_judge)], model_judge, 256)


# ------------------------------------------------------------------- hooks
def hooks_judge(p, sc):
    hooks = p.ip.state.get("hooks", [])
    left = [h for h in hooks if h.active]
    if left:
        raise Bad(f"a hook ({left[0].kind}) stays registered" if hasattr(left[0], "kind")
                  else "a hook stays registered", where_of(left[0].where))
    for e in p.events:
        if e.kind == "hook-return":
            raise Bad("a hook replaces a layer's input or output", e.loc)


def where_of(loc):
    if isinstance(loc, tuple):
        path, line, func = loc
        return f"{path[path.find('curvlinops'):]}:{line} ({func})"
    return loc


@check("C24")
def hooks(c):
    everywhere(c, "hooks-removed", hooks_judge, ("C08", "C19", "C09"))
    for u, _ in FAULTS:
        if u["op"] not in (KF, AH):
            continue
        for at in ("construct", "action"):
            for n, a in actions_for(u).items():
                if at == "construct" and n != "product":
                    continue
                c.cases(f"{fault_name(u)}, {n}, fault at {at}", u, faulty(a, at),
                        [("hooks-removed-after-fault", hooks_judge)], hooks_judge, 256)
                c.cases(f"{fault_name(u)}, {n}, interrupt at {at}", u, faulty(a, at, True),
                        [("hooks-removed-after-interrupt", hooks_judge)], hooks_judge, 256)


# ------------------------------------------------------------------- repeat after failure
def reaches_caller(ip):
    if not ip.faults_left:
        ip.state["swallowed"] = True


def retry(action, at, after):
    def body(ip, sc):
        op = None
        if at == "construct":
            ip.faults_left = 1
            try:
                op = sc.make(ip)
                reaches_caller(ip)
            except AbsRaise:
                pass
            ip.faults_left = 0
            if op is None:
                op = sc.make(ip)
        else:
            op = sc.make(ip)
            ip.faults_left = 1
            try:
                action(ip, sc, op)
                reaches_caller(ip)
            except AbsRaise:
                pass
            ip.faults_left = 0
        return after(ip, sc, op)
    return body


def kfac_state_after(ip, sc, op):
    product_on(ip, sc, op)
    return state(ip, op)


def grad_after(ip, sc, op):
    return ip.call(ip.getattr(op, "gradient_and_loss"), [], {})


def after_judges(u):
    op = u["op"]
    if op == KF:
        return [("factors-after-fault", kfac_state_after, factors_judge),
                ("gradient-after-fault", grad_after, gradient_judge)]
    if op in (JA, TJ):
        return [("product-after-fault", product_on, jac_judge if op == JA else tjac_judge)]
    if op == AH:
        return [("product-after-fault", product_on, act_judge)]
    return [("product-after-fault", product_on, product_judge(COEFF[op], op == F)),
            ("gradient-after-fault", grad_after, gradient_judge)]


@check("C25")
def retries(c):
    for u, _ in FAULTS:
        for at in ("construct", "action"):
            for n, a in actions_for(u).items():
                if at == "construct" and n != "product":
                    continue
                for rule, after, judge in after_judges(u):
                    c.cases(f"{fault_name(u)}, {n}, fault at {at}", u, retry(a, at, after),
                            [(rule, judge)], "bad", 256)
    for net, sep, cache in cart((MLP, CNN), (True, False), (True, False)):
        for exact in (True, False):
            for dt in ("float64", "float32"):
                u = cfg(net=net, separate_weight_and_bias=sep, extra=False, nbatch=1, dtype=dt,
                        fisher_type="empirical")
                kw = dict(damping=0.25, cache=cache, use_exact_damping=exact)
                c.run("inverse-after-fault", u, inverse_after_fault(**kw),
                      inverse_judge(exact, 0.25, () if exact else [plain(0.25)]),
                      label=f"{label(u)}, {kw}")


# ------------------------------------------------------------------- randomness
def random_judge(p, sc):
    """Operators draw from their own generator only, seeded with the given seed."""
    for e in p.events:
        if e.kind in ("global-seed",):
            raise Bad("seeds the global random number generator", e.loc)
        if e.kind != "draw":
            continue
        gen = e.data.get("gen")
        if gen is None:
            if sc.check and e.data.get("constructing"):
                continue  # probe vector of the documented determinism check
            raise Bad(f"draws from the global random number generator ({e.data['what']})", e.loc)


def draw_names(events):
    return [e.data["name"] for e in events if e.kind == "draw"]


def twice_body(ip, sc):
    op = sc.make(ip)
    a = len(ip.events)
    r1 = product_on(ip, sc, op)
    b = len(ip.events)
    if getattr(sc, "between", None):
        sc.between(ip, op)
    m = len(ip.events)
    r2 = product_on(ip, sc, op)
    return {"1": r1, "2": r2, "d1": draw_names(ip.events[a:b]), "d2": draw_names(ip.events[m:])}


def same_value(a, b, what):
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            raise Bad(f"{what}: different structure")
        for k, (x, y) in enumerate(zip(a, b)):
            same_value(x, y, f"{what}, piece {k}")
        return
    if not isinstance(a, Tensor) or not isinstance(b, Tensor):
        raise Skip(f"{what}: not tensors")
    if a.ndim != b.ndim or set(a.cells) != set(b.cells):
        raise Skip(f"{what}: different blocks")
    for i, x in a.cells.items():
        if not x.get().equiv(b.cells[i].get()):
            raise Bad(f"{what} differ: {J.short(x.get())} and {J.short(b.cells[i].get())}",
                      J.where(b.cells[i]))


def twice_judge(p, sc):
    v = p.value
    if sc.op == F and not v["d1"]:
        raise Skip("no draws")
    if sc.op == F and v["d1"] != v["d2"]:
        raise Bad("the second product uses other samples than the first")
    same_value(v["1"], v["2"], "results of equal products")


def other_call(ip, op):
    ip.call(ip.getattr(op, "gradient_and_loss"), [], {})


@check("C26")
def randomness(c):
    everywhere(c, "own-generator", random_judge, OPS)
    for loss in ("MSELoss", "CrossEntropyLoss", "BCEWithLogitsLoss"):
        for v in ({}, dict(mc=1), dict(pdev="cuda"), dict(form="flat-vec"), dict(check=True),
                  dict(pdev="cuda", check=True), dict(nbatch=1)):
            c.run("same-samples", dict(op=F, loss=loss, **v), twice_body, twice_judge)

            def body(ip, sc):
                sc.between = other_call
                return twice_body(ip, sc)
            c.run("same-samples", dict(op=F, loss=loss, **v), body, twice_judge,
                  label=f"loss={loss}, {v}, gradient in between")
        for seed in (0, 1234):
            for op, dev, dt, nb in cart((F, KF), ("cpu", "cuda"), ("float64", "float32"), (1, 2)):
                u = dict(op=F, loss=loss, kwargs=dict(seed=seed), pdev=dev, nbatch=nb,
                         dtype=dt) if op == F else cfg(
                    fisher_type="mc", loss=loss, seed=seed, pdev=dev, nbatch=nb, dtype=dt)

                def seeded(p, sc, seed=seed):
                    s = calls(p, "seed")
                    if not s:
                        raise Bad("the generator is never seeded")
                    for e in s:
                        if e.data.get("seed") != seed:
                            raise Bad(f"the generator is seeded with {e.data.get('seed')} instead "
                                      f"of {seed}", e.loc)
                c.run("seed", u, matmat, seeded, label=f"{op} {loss} {seed} {dev} {dt} {nb}")
    for u, inv in scenarios(c.thorough):
        def rb(ip, sc):
            op = make(ip, sc)
            return {"1": product_on(ip, sc, op), "2": product_on(ip, sc, op), "d1": 0, "d2": 0}

        def rj(p, sc):
            same_value(p.value["1"], p.value["2"], "results of equal products")
        if u["op"] != F:
            run(c, "repeatable", u, inv, rb, rj, max_paths=128)


    independent_draws(c)
    seeded_again(c)


def independent_draws(c):
    """Each example (and entry) of each sample has a draw of its own."""
    def body(ip, sc):
        op = sc.make(ip)
        at = len(ip.events)
        product_on(ip, sc, op)
        return [e for e in ip.events[at:] if e.kind == "draw"]

    def judge(p, sc):
        names, got = [], Poly()
        for e in p.value:
            if e.data["numel"] is None:
                raise Skip("number of draws")
            if e.data["name"] in names:
                raise Bad("different batches or samples use the same draws", e.loc)
            names.append(e.data["name"])
            got = got + e.data["numel"]
        samples = (sc.kwargs or {}).get("mc_samples", 1) if sc.op == KF else sc.mc
        want = Poly()
        for X, y in sc.data.batches:
            want = want + P(samples) * numel(y.axes)
        if (got - want).sign() == -1:
            raise Bad(f"{got} random numbers are drawn, {want} are needed for independent samples",
                      p.value[-1].loc if p.value else None)
        if (got - want).sign() is None:
            raise Skip(f"{got} draws instead of {want}")
    for loss in ("MSELoss", "CrossEntropyLoss", "BCEWithLogitsLoss"):
        for ex in (True, False):
            for nb in (1, 3):
                for s in (1, 5):
                    c.run("independent-draws", dict(op=F, loss=loss, extra=ex, nbatch=nb, mc=s),
                          body, judge)
                    u = cfg(fisher_type="mc", loss=loss, extra=ex, nbatch=nb, mc_samples=s)
                    c.run("independent-draws", u, body, judge, label=label(u))


def seeded_again(c):
    """Factors computed again, after a failure or a restored state, use the seed's samples."""
    def fresh(ip, sc):
        at = len(ip.events)
        product_on(ip, sc, sc.make(ip))
        return draw_names(ip.events[at:])

    def after_fault(ip, sc):
        op = sc.make(ip)
        ip.faults_left = 1
        try:
            product_on(ip, sc, op)
        except AbsRaise:
            pass
        ip.faults_left = 0
        at = len(ip.events)
        product_on(ip, sc, op)
        return draw_names(ip.events[at:]), fresh(ip, sc)

    def reset(change):
        def body(ip, sc):
            op = sc.make(ip)
            sd = state(ip, op)
            product_on(ip, sc, op)
            sd["input_covariances"], sd["gradient_covariances"] = LDict(), LDict()
            if change:
                sd["seed"] = 4242
            ip.call(ip.getattr(op, "load_state_dict"), [sd], {})
            at = len(ip.events)
            product_on(ip, sc, op)
            d = draw_names(ip.events[at:])
            if change:
                sc.kwargs = {**(sc.kwargs or {}), "seed": 4242}
            return d, fresh(ip, sc)
        return body

    def judge(p, sc):
        got, want = p.value
        if not want:
            raise Skip("no draws")
        if got and got != want:
            raise Bad(f"factors computed again use the draws {got[0]}.. instead of {want[0]}..")
    for loss in ("MSELoss", "CrossEntropyLoss", "BCEWithLogitsLoss"):
        for v in ({}, dict(pdev="cuda"), dict(mc_samples=3, seed=7), dict(kfac_approx="reduce")):
            u = cfg(fisher_type="mc", loss=loss, nbatch=2, **v)
            c.run("same-samples-after-failure", u, after_fault, judge, label=label(u),
                  max_paths=256)
            for ch in (False, True):
                c.run("same-samples-after-restoring", u, reset(ch), judge,
                      label=f"{label(u)}, other seed={ch}")


# ------------------------------------------------------------------- autograd graphs
def attrs_of(o, seen, path="operator"):
    """Tensors reachable from an operator's attributes."""
    if id(o) in seen:
        return
    seen[id(o)] = o
    if isinstance(o, Tensor):
        yield path, o
    elif isinstance(o, dict):
        for k, x in o.items():
            yield from attrs_of(x, seen, f"{path}[{k!r}]")
    elif isinstance(o, (list, tuple, set)):
        for k, x in enumerate(o):
            yield from attrs_of(x, seen, f"{path}[{k}]")
    elif hasattr(o, "attrs") and isinstance(getattr(o, "attrs"), dict):
        for k, x in o.attrs.items():
            yield from attrs_of(x, seen, f"{path}.{k}")


def graph_judge(p, sc):
    if p.outcome != "return":
        return
    for t in result_tensors(p.value):
        if not J.user_owned(next((b.storage.owner for b in t.cells.values()), None)):
            J.tensor_meta(t)
    op = getattr(sc, "op_", None)
    if op is None:
        return
    for path, t in attrs_of(op, {}):
        if t.is_param or any(J.user_owned(b.storage.owner) for b in t.cells.values()):
            continue
        if t.live():
            raise Bad(f"{path} keeps a tensor attached to the autograd graph", J.first_where(t))


@check("C27")
def graphs(c):
    everywhere(c, "graph-free", graph_judge, OPS)


# ------------------------------------------------------------------- devices and data types
def device_judge(p, sc):
    for e in p.events:
        if e.kind in ("device-mismatch", "dtype-mismatch"):
            raise Bad(f"{e.kind} in {e.data.get('op')}: {e.data}", e.loc)
    if p.outcome != "return":
        return
    if sc is not None:
        J.no_rounding(p, sc.dtype, sc.mdtype)
    for t in result_tensors(p.value):
        if t.kind == "np" or any(J.user_owned(b.storage.owner) for b in t.cells.values()):
            continue
        if T.isfloat(t.dtype):
            J.tensor_meta(t, sc.dtype, sc.pdev, graph_free=False)


def moved_body(to, action=product_on):
    """Product after moving the operator to another device."""
    def body(ip, sc):
        op = with_factors(ip, sc) if sc.op == KF and getattr(sc, "given", False) else sc.make(ip)
        ip.call(ip.getattr(op, "to_device"), [ip.ext.to_device(to)], {})
        sc.pdev = ip.ext.to_device(to)
        return action(ip, sc, op)
    return body


def back_body(ip, sc):
    """Move to the other device and back, with a product before and after."""
    op = sc.make(ip)
    home = sc.pdev
    product_on(ip, sc, op)
    other = "cpu" if home != CPU else "cuda"
    ip.call(ip.getattr(op, "to_device"), [ip.ext.to_device(other)], {})
    sc.pdev = ip.ext.to_device(other)
    product_on(ip, sc, op)
    ip.call(ip.getattr(op, "to_device"), [home], {})
    sc.pdev = home
    r = product_on(ip, sc, op)
    if sc.op == KF:
        return state(ip, op)
    return r


@check("C28")
def devices(c):
    everywhere(c, "device-and-dtype", device_judge, [i for i in OPS if i != "C15"])
    for v in (dict(pdev="cuda"), dict(dtype="float32"), dict(dtype="float16", pdev="cuda"),
              dict(ddev="cuda"), dict(pdev="cuda", check=True)):
        everywhere(c, "device-and-dtype", device_judge, ("C01", "C02", "C03", "C04", "C05", "C08",
                                                         "C16", "C19"),
                   when=lambda u: not ({"pdev", "dtype", "ddev", "check"} & set(u)) and u.get(
                       "module") is not False, tag=f", {v}",
                   change=lambda u, v=v: valid({**u, **v}))
    for u, _ in FAULTS:
        if u.get("check"):
            continue
        for home, to in (("cpu", "cuda"), ("cuda", "cpu")):
            w = {**u, "pdev": home}
            for n, a in actions_for(u).items():
                inner = after_judges(u)[0][2] if n == "product" and u["op"] != KF else (
                    gradient_judge if n == "gradient_and_loss" else device_judge)
                c.run("to-device", w, moved_body(to, a), inner,
                      label=f"{fault_name(w)}, {n} on {to}")
            if u["op"] == KF:
                c.run("to-device", w, moved_body(to, kfac_state_after), factors_judge,
                      label=f"{fault_name(w)}, factors on {to}")
            c.run("to-device", w, back_body, after_judges(u)[0][2],
                  label=f"{fault_name(w)}, to {to} and back")
