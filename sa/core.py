"""Shared frame of the checks: cached interpretation, obligations, findings, evidence."""
import json
import os
import sys
import time
import traceback

from .program import Program, AnalysisBroken
from .interp import Interp, State
from .terms import T, Term, show, is_const, cval
from .logic import Theory, is_abstract

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Lib:
    """The analysed library with memoised interpretation of its functions."""

    def __init__(self, root=None):
        self.p = Program(root)
        self.memo = {}
        self.failed = []
        self.nfun = set()

    def interp(self, opaque=(), depth=None):
        return Interp(self.p, opaque=opaque, **({"max_depth": depth} if depth else {}))

    def run(self, func, cls=None, presets=None, opaque=(), key=None, depth=None, exact=True):
        """Interpretation of one function; cls: qualified class of an exact receiver."""
        k = (func.qual, cls, key if key is not None else (tuple(sorted(presets.items())) if presets else None), opaque if isinstance(opaque, (tuple, frozenset)) else id(opaque), depth)
        if k in self.memo:
            return self.memo[k]
        I = self.interp(frozenset(opaque) if isinstance(opaque, tuple) else opaque, depth)
        so = T("obj", cls, "self", exact) if cls else None
        try:
            r = I.run(func, presets=presets, self_obj=so)
        except RecursionError as e:
            self.failed.append((func.qual, cls, "recursion"))
            r = None
        except AnalysisBroken:
            raise
        except Exception as e:    # one function the interpreter cannot follow never hides the others
            self.failed.append((func.qual, cls, f"{type(e).__name__}: {e}"))
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            r = None
        self.memo[k] = r
        self.nfun.add(func.qual)
        return r

    def run_with(self, func, cls=None, heap=None, presets=None, opaque=(), depth=None, exact=False):
        """Interpretation with given values in attributes of the receiver."""
        I = self.interp(frozenset(opaque) if isinstance(opaque, (tuple, list)) else opaque, depth)
        q = cls or (func.cls.qual if func.cls else None)
        so = T("obj", q, "self", exact) if q else None
        st = State()
        for n, v in (heap or {}).items():
            st.heap[(so, n) if isinstance(n, str) else n] = v
        self.nfun.add(func.qual)
        return I.run(func, presets=presets, self_obj=so, state=st)

    def concrete(self, base):
        """Concrete classes below a base class (short name)."""
        q = self.p.cls(base).qual
        out = [c for c in [q] + sorted(self.p.subclasses.get(q, ())) if not is_abstract(self.p, c)]
        return out

    def generic(self):
        """Every function of the library once, receiver of the defining class or a subclass."""
        for q, f in sorted(self.p.functions.items()):
            r = self.run(f)
            if r is not None:
                yield f, r

    def exact(self, bases=None):
        """Every method on every concrete class that has it."""
        for q, c in sorted(self.p.classes.items()):
            if is_abstract(self.p, q):
                continue
            if bases and not any(self.p.is_subclass(q, b) for b in bases):
                continue
            names = {}
            for b in self.p.mro(q):
                k = self.p.classes.get(b)
                if k:
                    for n, f in k.methods.items():
                        if not n.endswith("@setter"):
                            names.setdefault(n, f)
            for n, f in sorted(names.items()):
                if f.is_static or f.is_classmethod:
                    continue
                r = self.run(f, cls=q)
                if r is not None:
                    yield c, f, r


class Ctx:
    def __init__(self, prop, lib, tier):
        self.prop, self.lib, self.p, self.tier = prop, lib, lib.p, tier
        self.rules = {}
        self.violations = {}
        self.undecided = []
        self.samples = []
        self.notes = []

    # every judged instance of a rule is an obligation
    def ok(self, rule, what, n=1):
        r = self.rules.setdefault(rule, {"instances": 0, "violations": 0, "undecided": 0})
        r["instances"] += n
        if len([s for s in self.samples if s.startswith(rule + ":")]) < 2:
            self.samples.append(f"{rule}: {what}")

    def unknown(self, rule, what):
        r = self.rules.setdefault(rule, {"instances": 0, "violations": 0, "undecided": 0})
        r["undecided"] += 1
        if len(self.undecided) < 60:
            self.undecided.append(f"{rule}: {what}")

    def bad(self, rule, construct, message, path="", line=None):
        r = self.rules.setdefault(rule, {"instances": 0, "violations": 0, "undecided": 0})
        r["instances"] += 1
        key = (rule, construct)
        if key not in self.violations:
            r["violations"] += 1
            self.violations[key] = {"rule": rule, "construct": construct, "message": message, "file": path, "line": line}

    def bad_ev(self, rule, construct, message, e):
        stack = " > ".join(e.stack)
        self.bad(rule, construct, message + f" [via {stack}]", e.path, e.line)

    def floor(self, rule, n):
        """The rule must have been applied at least n times, or the analysis no longer sees its subject."""
        r = self.rules.get(rule, {"instances": 0, "undecided": 0})
        got = r["instances"] + r["undecided"]
        if got < n:
            raise AnalysisBroken(f"rule {rule} matched {got} constructs, expected at least {n}")

    def theory(self, r):
        return Theory(r.interp)


def read_known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l[8:].split("|")[0].split() if "=" in x)
                out.append((d.get("property"), d.get("rule"), d.get("construct"), l.split("|", 1)[1].strip() if "|" in l else ""))
    return out


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.setrecursionlimit(20000)
    import importlib
    from .claims import CLAIMS
    if prop not in CLAIMS:
        print(f"unknown property {prop}")
        return 2
    broken = None
    lib = ctx = None
    try:
        lib = Lib()
        ctx = Ctx(prop, lib, tier)
        mod = importlib.import_module(f"sa.rules.{prop.lower()}")
        mod.check(ctx)
    except AnalysisBroken as e:
        broken = f"analysis broken: {e}"
    except SyntaxError as e:
        broken = f"cannot parse: {e}"
    except Exception as e:
        traceback.print_exc()
        broken = f"analysis crashed: {type(e).__name__}: {e}"
    known = read_known()
    new, listed = [], []
    if ctx is not None:
        for v in ctx.violations.values():
            hit = [k for k in known if k[0] == prop and k[1] == v["rule"] and k[2] == v["construct"]]
            (listed if hit else new).append((v, hit))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": CLAIMS[prop].get("level", "other"),
        "coverage": {
            "explanation": CLAIMS[prop]["note"],
            "technique": CLAIMS[prop]["technique"],
            "modules_parsed": len(lib.p.modules) if lib else 0,
            "classes": len(lib.p.classes) if lib else 0,
            "functions_in_library": len(lib.p.functions) if lib else 0,
            "functions_interpreted": len(lib.nfun) if lib else 0,
            "interpretations": len(lib.memo) if lib else 0,
            "functions_not_followed": lib.failed[:20] if lib else [],
            "rules": ctx.rules if ctx else {},
            "obligations": sum(r["instances"] for r in ctx.rules.values()) if ctx else 0,
            "discharged": sum(r["instances"] - r["violations"] for r in ctx.rules.values()) if ctx else 0,
            "undecided": ctx.undecided if ctx else [],
            "samples": ctx.samples[:40] if ctx else [],
        },
        "assumptions": ["torch, numpy, pandas, scipy and plotly functions behave as their documentation says; their effect is taken from tables in sa/torchnorm.py and sa/interp.py",
                        "instances whose facts the analysis cannot determine are counted as undecided and not reported"],
        "violations": len(new), "wall_s": round(time.time() - t0, 2),
    }
    if broken:
        ev["coverage"]["broken"] = broken
    evdir = os.environ.get("SA_EVIDENCE", os.path.join(ROOT, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for v, hit in listed:
        print(f"KNOWN-FINDING: property={prop} {v['rule']} {v['construct']}: {hit[0][3]}")
    if new:
        rp = os.path.join(evdir, f"{prop}.violations.json")
        with open(rp, "w") as fh:
            json.dump([v for v, _ in new], fh, indent=1, default=str)
        for v, _ in new[:40]:
            print(f"VIOLATION property={prop} replay={rp}")
            print(f"  rule {v['rule']} at {v['file']}:{v['line']} in {v['construct']}")
            print(f"  {v['message']}")
        return 1
    if broken:
        print(broken)
        return 2
    n = ev["coverage"]["obligations"]
    print(f"{prop}: held on {n} obligations of {len(ctx.rules)} rules in {ev['wall_s']} s ({sum(r['undecided'] for r in ctx.rules.values())} undecided)")
    return 0
