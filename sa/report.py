"""Obligations, evidence and verdicts of a check."""

from __future__ import annotations

import json
import os
import pickle
import time

from . import interp as I
from .scen import Scen
from .user import NoAttr
from .values import AbsRaise, TypeErr, Opaque, Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")  # another tree only while developing the checks
EVIDENCE = f"{VERIF}/evidence" if REPO == "/repo" else f"{REPO}/evidence"

# exceptions a transfer function raises because the analysis lacks a construct
SOFT = (AttributeError, TypeError, NotImplementedError, ImportError, NameError)


def exc_name(v):
    if isinstance(v, BaseException):
        return type(v).__name__
    c = getattr(v, "cls", None)
    return getattr(c, "name", None) or type(v).__name__


def exc_text(v):
    if isinstance(v, BaseException):
        return str(v)
    a = getattr(v, "attrs", {}).get("args") if hasattr(v, "attrs") else None
    return str(a or v)


# properties of values: flattened axes are combined entry by entry, in one order
ORDERED = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C16", "C19")


class Bad(Exception):
    """A judge found a violation."""

    def __init__(self, msg, where=None):
        super().__init__(msg)
        self.msg, self.where = msg, where


class Skip(Exception):
    """A judge cannot decide (never an alarm)."""


def raised_by_library(p):
    """The library itself raised (a ``raise`` statement of the analysed code)."""
    return any(e.kind == "raise" and e.data.get("value") is p.value for e in p.events[-3:])


class Check:
    """Collects the obligations of one property."""

    def __init__(self, pid, tier, title=""):
        self.pid, self.tier, self.title = pid, tier, title
        self.obs, self.todo = [], []
        self.paths = 0
        self.funcs = set()
        self.t0 = time.time()
        self.assumptions = []

    thorough = property(lambda self: self.tier == "thorough")

    # ------------------------------------------------------------------ bookkeeping
    def ok(self, rule, label):
        self.obs.append((rule, label, "ok", "", None))

    def undecided(self, rule, label, why):
        self.obs.append((rule, label, "undecided", str(why)[:300], None))

    def violation(self, rule, label, msg, where=None):
        self.obs.append((rule, label, "violation", str(msg)[:900], where))

    # ------------------------------------------------------------------ analysis
    def paths_of(self, fn, max_paths=64):
        ps = I.explore(REPO, fn, max_paths)
        self.paths += len(ps)
        for p in ps:
            self.funcs |= set(p.ip.visited)
        return ps

    def run(self, rule, cfg, body, judge, raises="bad", label=None, max_paths=64):
        """Analyse ``body(ip, sc)`` for one configuration and judge every path.

        ``raises``: "bad" (a valid use must not fail), "soft" (a failure is not judged here),
        or a function judging the raised exception.
        """
        label = label or ", ".join(f"{k}={v}" for k, v in cfg.items())
        self.cases(label, cfg, body, [(rule, judge)], raises, max_paths)

    def cases(self, label, cfg, body, judges, raises="bad", max_paths=64):
        """Schedule a use; ``analyse`` works on all scheduled uses, in forked workers."""
        self.todo.append((label, cfg, body, judges, raises, max_paths))

    def analyse(self):
        todo, self.todo = self.todo, []
        n = 1 if I.DEBUG else min(int(os.environ.get("SA_JOBS", os.cpu_count() or 1)),
                                  len(todo) // 4)
        if n <= 1:
            for t in todo:
                self.case(*t)
            return
        pipes = []
        for w in range(n):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    self.obs, self.paths, self.funcs = [], 0, set()
                    res = []
                    for k in range(w, len(todo), n):
                        at = len(self.obs)
                        self.case(*todo[k])
                        res.append((k, self.obs[at:]))
                    data = pickle.dumps((res, self.paths, self.funcs))
                    with os.fdopen(wr, "wb") as f:
                        f.write(data)
                    code = 0
                finally:
                    os._exit(code)
            os.close(wr)
            pipes.append((w, pid, r))
        out = {}
        for w, pid, r in pipes:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            _, status = os.waitpid(pid, 0)
            if status == 0 and data:
                res, paths, funcs = pickle.loads(data)
                self.paths += paths
                self.funcs |= funcs
                out.update(res)
        for k, t in enumerate(todo):
            if k in out:
                self.obs += out[k]
            else:  # the worker was ended (e.g. memory)
                self.case(*t)

    def case(self, label, cfg, body, judges, raises="bad", max_paths=64):
        box = {}

        def fn(ip):
            sc = Scen(**cfg).build(ip) if cfg is not None else None
            box[id(ip)] = sc
            box["keep"] = box.get("keep", []) + [ip]
            return body(ip, sc)

        try:
            paths = self.paths_of(fn, max_paths)
        except Unsupported as e:
            for rule, _ in judges:
                self.undecided(rule, label, e)
            return
        verdict = {}
        for p in paths:
            sc = box.get(id(p.ip))
            for rule, judge in judges:
                try:
                    if p.outcome == "undecided":
                        raise Skip(p.note)
                    if p.outcome == "raise":
                        if callable(raises):
                            raises(p, sc)
                        elif raises == "bad":
                            self.unexpected(p)
                        else:
                            raise Skip(f"raises {exc_name(p.value)}: {exc_text(p.value)}")
                    else:
                        I.bind(p.ip)
                        at = len(p.events)
                        if p.ip.state.get("swallowed"):
                            raise Bad("a failure of the user's code does not reach the caller")
                        judge(p, sc)
                        if self.pid in ORDERED:
                            self.ordered(p, at)
                    verdict.setdefault(rule, ("ok", "", None))
                except Skip as e:
                    if verdict.get(rule, ("ok",))[0] != "violation":
                        verdict[rule] = ("undecided", str(e), None)
                except Bad as e:
                    verdict[rule] = ("violation", e.msg, e.where)
                except (Unsupported, AbsRaise, RecursionError) as e:
                    if verdict.get(rule, ("ok",))[0] != "violation":
                        verdict[rule] = ("undecided", str(e), None)
                except Exception as e:  # noqa: BLE001
                    if I.DEBUG:
                        raise
                    if verdict.get(rule, ("ok",))[0] != "violation":
                        verdict[rule] = ("undecided", f"judge {type(e).__name__}: {e}", None)
        for rule, judge in judges:
            v = verdict.get(rule, ("undecided", "no path", None))
            if v[0] == "ok" and hasattr(judge, "after"):
                try:  # over all paths of the use
                    judge.after()
                except Bad as e:
                    v = ("violation", e.msg, e.where)
            if v[0] == "ok":
                self.ok(rule, label)
            elif v[0] == "violation":
                self.violation(rule, label, v[1], v[2])
            else:
                self.undecided(rule, label, v[1])

    @staticmethod
    def ordered(p, at):
        for e in p.events[:at]:
            if e.kind == "order-mismatch":
                a, b = e.data["orders"]
                raise Bad(f"combines entries in the orders {a} and {b} ({e.data['op']})", e.loc)

    @staticmethod
    def unexpected(p):
        v = p.value
        if isinstance(v, SOFT) and not isinstance(v, (NoAttr, TypeErr)) and not raised_by_library(p):
            raise Skip(f"{exc_name(v)}: {exc_text(v)}")
        raise Bad(f"valid use fails with {exc_name(v)}: {exc_text(v)}", p.note)

    # ------------------------------------------------------------------ output
    def finish(self, known):
        self.analyse()
        n = {"ok": 0, "violation": 0, "undecided": 0}
        for o in self.obs:
            n[o[2]] += 1
        bad = [o for o in self.obs if o[2] == "violation"]
        listed, fresh = [], []
        for o in bad:
            k = known.match(self.pid, o)
            (listed if k else fresh).append((o, k))
        os.makedirs(EVIDENCE, exist_ok=True)
        for f in os.listdir(EVIDENCE):
            if f.startswith(f"{self.pid}-"):
                os.remove(f"{EVIDENCE}/{f}")
        per_rule = {}
        for rule, label, st, msg, where in self.obs:
            r = per_rule.setdefault(rule, {"ok": 0, "undecided": 0, "violation": 0})
            r[st] += 1
        samples = {}
        for rule, label, st, *_ in self.obs:
            samples.setdefault(rule, f"{rule}: {label} -> {st}")
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", 0)),
            "level": "other",
            "coverage": {
                "explanation": "Abstract interpretation of the abstract syntax trees of the "
                "library's modules (never imported or executed). Each obligation is one rule "
                "applied to all abstract paths of one use of the library in an abstract user "
                "environment; it is discharged when the rule holds on every path, undecided when "
                "the analysis does not understand a construct on some path.",
                "obligations": len(self.obs), "discharged": n["ok"],
                "undecided_obligations": n["undecided"],
                "abstract_paths": self.paths,
                "functions_analysed": sorted(f"{m}.{f} (line {n})" for m, f, n in self.funcs),
                "rules": per_rule,
                "samples": list(samples.values())[:12],
                "undecided": [f"{o[0]}: {o[1]}: {o[3]}" for o in self.obs
                              if o[2] == "undecided"][:12],
            },
            "assumptions": self.assumptions or [
                "transfer functions of torch, NumPy, SciPy and einops in /verif/sa",
                "user objects behave as the abstract model, loss and data of /verif/sa/user.py"],
            "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh),
        }
        with open(f"{EVIDENCE}/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for (o, k) in listed:
            pass
        for k in {k for _, k in listed}:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        print(f"{self.pid}: {len(self.obs)} obligations, {n['ok']} discharged, "
              f"{n['undecided']} undecided, {len(bad)} violated, {self.paths} paths, "
              f"{time.time() - self.t0:.1f}s")
        if os.environ.get("SA_UNDECIDED"):  # development aid: reasons with examples
            why = {}
            for o in self.obs:
                if o[2] == "undecided":
                    why.setdefault(o[3], []).append(f"{o[0]}: {o[1]}")
            for w, us in sorted(why.items(), key=lambda x: -len(x[1])):
                print(f"    {len(us)}x {w}  e.g. {us[0]}")
        if not fresh:
            return 0
        groups = {}
        for o, _ in fresh:
            groups.setdefault((o[0], o[4]), []).append(o)
        for k, ((rule, where), os_) in enumerate(groups.items()):
            path = f"{EVIDENCE}/{self.pid}-replay-{k}.json"
            with open(path, "w") as f:
                json.dump({"property": self.pid, "rule": rule, "where": where,
                           "instances": [{"use": o[1], "message": o[3]} for o in os_[:20]],
                           "replay": f"cd /verif && python3 -m sa.run {self.pid} --tier {self.tier}"
                           }, f, indent=1)
            print(f"  [{rule}] {where or ''} {os_[0][3]}  (use: {os_[0][1]}; {len(os_)} uses)")
            print(f"VIOLATION property={self.pid} replay={path}")
        return 1


class Known:
    """Known findings: lines ``finding: property=ID rule=RULE where=FUNC text``."""

    def __init__(self):
        self.items = []
        p = f"{VERIF}/known-findings.txt"
        if os.path.exists(p):
            for line in open(p):
                if line.startswith("finding:"):
                    d = dict(x.split("=", 1) for x in line.split()[1:4])
                    self.items.append((d["property"], d["rule"], d["where"],
                                       " ".join(line.split()[1:])))

    def match(self, pid, o):
        for p, rule, where, text in self.items:
            if p == pid and rule == o[0] and o[4] and where in str(o[4]):
                return text.split(" ", 1)[1]
        return None
