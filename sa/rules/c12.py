"""C12: unknown option values are rejected and every documented one works."""
import ast

from ..terms import T, Term, show, is_const, cval, walk, const, subst, children

UNKNOWN = "no such option"
THETA = ("NN", "ML", "MAP", "EAP")
# the alternatives each option documents; context: presets under which the option matters
OPTIONS = [
    ("impute_missing", "method", ("zero", "mean", "random incorrect", "prior expected"), {}),
    ("impute_missing_internal", "method", ("zero", "mean", "random incorrect"), {}),
    ("MML.fit", "integration_method", ("gauss_hermite", "quasi_mc"), {}),
    ("Evaluator.accuracy", "level", ("all", "item", "respondent"), {}),
    ("Evaluator.approximate_latent_density", "approximation", ("gmm", "qmvn"), {}),
    ("Evaluator.infit_outfit", "level", ("item", "respondent"), {}),
    ("Evaluator.log_likelihood", "reduction", ("sum", "none", "mean"), {}),
    ("Evaluator.log_likelihood", "level", ("all", "item", "respondent"), {"reduction": "sum"}),
    ("Evaluator.log_likelihood", "level", ("all", "item", "respondent"), {"reduction": "mean"}),
    ("Evaluator.residuals", "average_over", ("everything", "items", "respondents", "none"), {}),
    ("Evaluator.sum_score_probabilities", "latent_density_method", ("data", "encoder sampling", "qmvn", "gmm"), {}),
    ("BaseIRTModel.latent_scores", "theta_estimation", THETA, {}),
    ("BaseIRTModel._ml_map_theta_scores", "theta_estimation", ("ML", "MAP"), {}),
    ("MonotoneBSpline.__init__", "separate", ("categories", "items"), {}),
    ("MonotoneNN.__init__", "separate", ("categories", "items"), {}),
    ("MonotonePolynomial.__init__", "separate", ("categories", "items"), {}),
    ("NestedLogit.__init__", "incorrect_response_model", ("nominal", "bspline"), {}),
    ("LinkCommonItems.__init__", "method", ("spline", "neuralnet"), {}),
]
LIKELIHOOD = ("sum", "none")
EXTRA = {"loss_reduction": ("mean",)}
# what tells an alternative apart: something only its own run does
FEATURES = {
    "BaseIRTModel.latent_scores": {"EAP": "_eap_theta_scores", "ML|MAP": "_ml_map_theta_scores", "MAP|EAP": ".log_prob"},
    "BaseIRTModel._ml_map_theta_scores": {"MAP": ".log_prob"},
    "MML.fit": {"gauss_hermite": "gauss_hermite|hermgauss", "quasi_mc": "quasi_mc|SobolEngine"},
    "Evaluator.approximate_latent_density": {"qmvn": "QuantileMVNormal", "gmm": "GaussianMixtureModel|_cv_gaussian_mixture_model"},
    "Evaluator.sum_score_probabilities": {"encoder sampling": "sample_latent_variables", "qmvn": "QuantileMVNormal", "gmm": "GaussianMixtureModel|_cv_gaussian_mixture_model"},
    "Evaluator.log_likelihood": {"mean": "nanmean|.mean"},
    "impute_missing": {"mean": "nanmean", "random incorrect": "randint|rand|choice|multinomial", "prior expected": "expected_scores"},
    "impute_missing_internal": {"mean": "nanmean", "random incorrect": "randint|rand|choice|multinomial"},
    "LinkCommonItems.__init__": {},
}


def table(p):
    for name, par, vals, pre in OPTIONS:
        c, _, m = name.rpartition(".")
        f = p.method(c, m) if c else next((g for q, g in p.functions.items() if q.split(".")[-1] == m and g.cls is None), None)
        yield name, f, f.cls.qual if f is not None and f.cls is not None else None, par, vals, pre
    done = set()
    for k in sorted(p.subclasses.get(p.cls("BaseIRTModel").qual, ())) + [p.cls("BaseIRTModel").qual]:
        f = p.find_method(k, "log_likelihood")
        if f is not None and f.qual not in done:
            done.add(f.qual)
            yield f"{f.cls.name}.log_likelihood", f, k, "loss_reduction", LIKELIHOOD, {}


def has(t, c):
    return any(x is c for x in walk(t))


def payload(e):
    d = e.data
    for x in (d if isinstance(d, tuple) else (d,)):
        yield from flat(x)
    if isinstance(e.extra, tuple):
        for x in e.extra:
            yield from flat(x)


def flat(x):
    if isinstance(x, Term):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from flat(y)


class Run:
    """what one function does for one value of an option"""

    def __init__(self, ctx, f, cls, par, value, pre):
        self.c = const(value)
        P = {par: self.c}
        P.update({k: const(v) for k, v in pre.items()})
        exact = f.name == "__init__" or f.cls is None
        self.r = ctx.lib.run(f, cls=cls, presets=P, key=("c12", par, value, tuple(sorted(pre.items()))), exact=exact)
        self.ok = self.r is not None
        if not self.ok:
            return
        X = T("option")
        memo = {}
        self.uses = False      # the value goes on to a callee
        self.raises = set()
        sig, raw = set(), set()

        def ids(x):
            return x.id if isinstance(x, Term) else tuple(ids(y) for y in x) if isinstance(x, tuple) else x

        def canon(x):
            if isinstance(x, Term):
                return subst(x, {self.c: X}, memo).id
            if isinstance(x, tuple):
                return tuple(canon(y) for y in x)
            return x
        for e in self.r.events:
            if e.kind == "raise":
                self.raises.add((e.path, e.line))
                continue
            if e.kind in ("call", "rcall", "vcall", "setattr", "mutate", "construct", "optstep", "modeffect"):
                sig.add((e.kind, canon(e.data) if isinstance(e.data, (Term, tuple)) else e.data))
                raw.add((e.kind, ids(e.data)))
            if e.kind in ("call", "rcall", "vcall", "construct") and forwards(e, self.c):
                self.uses = True
        for conds, v, node in self.r.rets:
            sig.add(("ret", canon(v) if v is not None else None))
            raw.add(("ret", ids(v) if v is not None else None))
        self.raw = frozenset(raw)
        self.sig = frozenset(sig)
        self.normal = bool(self.r.rets) or self.r.state is not None

    def forwarded(self):
        return self.uses


def forwards(e, c):
    """the option value itself is an argument of a call other than building a message"""
    d = e.data
    if e.kind == "call":
        if not isinstance(d, Term) or d.op not in ("call", "meth"):
            return False
        name = d.args[0]
        if name in ("str", "repr", "print", "format", "isinstance", "len") or "Error" in str(name) or "warn" in str(name) or "logger" in str(name):
            return False
        vals = list(flat(d.args[1:]))
        return any(x is c for x in vals) and (d.op == "call" or d.args[1] is not c)
    return any(x is c for x in flat(d if isinstance(d, tuple) else (d,)))


def check(ctx):
    p = ctx.p
    for name, f, cls, par, vals, pre in table(p):
        if f is None or par not in set(f.posnames) | set(f.kwonly):
            ctx.unknown("rejects-unknown", f"{name}({par}) is not there")
            continue
        what = f"{name}({par}=...)" + (f" with {pre}" if pre else "")
        runs = {v: Run(ctx, f, cls, par, v, pre) for v in vals}
        u = Run(ctx, f, cls, par, UNKNOWN, pre)
        if not u.ok or not all(r.ok for r in runs.values()):
            ctx.unknown("rejects-unknown", f"{what} not followed")
            continue
        line = f.node.lineno
        path = f.module.relpath
        for v, r in runs.items():
            if r.normal:
                ctx.ok("accepts-documented", f"{what}: '{v}' has a path that returns")
            else:
                ctx.bad("accepts-documented", f"{f.qual}({par}={v!r})".replace(" ", "_"), f"every path of {what} raises for the documented value '{v}'", path, line)
        # an unknown value
        private = f.name.startswith("_") and f.name != "__init__"
        fresh = u.raises - set.union(*[r.raises for r in runs.values()])
        if not u.normal or fresh:
            ctx.ok("rejects-unknown", f"{what} raises for a value that is not documented")
        elif private:
            ctx.unknown("rejects-unknown", f"{what} is internal; its callers are judged")
        elif u.forwarded():
            ctx.unknown("rejects-unknown", f"{what} is handed to a callee")
        else:
            same = [v for v, r in runs.items() if r.sig == u.sig]
            how = f"does the same as '{same[0]}'" if same else "is accepted"
            stored = cls is not None and f.name == "__init__"
            if same and len(same) == len(vals) and not stored:
                ctx.unknown("rejects-unknown", f"{what} has no effect")
            else:
                ctx.bad("rejects-unknown", f"{f.qual}({par})", f"a value of {par} that is not documented raises no error and {how}", path, line)
        # each documented value has its own behaviour
        vs = list(vals)
        stored = f.name == "__init__"
        for i, a in enumerate(vs):
            for b in vs[i + 1:]:
                if runs[a].sig != runs[b].sig and runs[a].raw != runs[b].raw:
                    ctx.ok("own-behaviour", f"{what}: '{a}' and '{b}' differ")
                elif runs[a].uses:
                    ctx.unknown("own-behaviour", f"{what}: '{a}' and '{b}' are handed to a callee")
                elif stored and later(ctx, cls, runs[a], runs[b]):
                    ctx.ok("own-behaviour", f"{what}: '{a}' and '{b}' differ in a later method")
                elif stored and not attrs_with(runs[a]):
                    ctx.bad("own-behaviour", f"{f.qual}({par}={a!r},{b!r})".replace(" ", "_"), f"'{a}' and '{b}' do the same", path, line)
                else:
                    ctx.bad("own-behaviour", f"{f.qual}({par}={a!r},{b!r})".replace(" ", "_"), f"the documented values '{a}' and '{b}' of {par} do the same" + (" in the constructor and in every method" if stored else ""), path, line)
        if stored:
            methods(ctx, cls, f, par, runs, u)
        features(ctx, name, f, par, runs)
        d = default(f, par)
        if d is not None:
            if d in vals or any(d == x for x in EXTRA.get(par, ())):
                ctx.ok("default-documented", f"{name}: default '{d}' of {par}")
            else:
                ctx.bad("default-documented", f"{f.qual}({par})", f"the default '{d}' of {par} is none of the documented values {vals}", path, line)
    combos(ctx)
    inner(ctx)
    levels(ctx)
    correct_range(ctx)
    ctx.floor("rejects-unknown", 10)
    ctx.floor("own-behaviour", 20)
    ctx.floor("accepts-documented", 30)


def attrs_with(run):
    """attributes of the object that hold the option"""
    out = set()
    for (o, n), v in (run.r.state.heap.items() if run.r.state is not None else ()):
        if v is run.c and isinstance(o, Term) and o.op == "obj":
            out.add(n)
    return out


def later(ctx, cls, ra, rb):
    """some method behaves differently for two values kept by the constructor"""
    at = attrs_with(ra) & attrs_with(rb)
    if not at:
        return False
    p = ctx.p
    for b in p.mro(cls):
        k = p.classes.get(b)
        for n, g in (k.methods.items() if k else ()):
            if n == "__init__" or g.is_static or g.is_classmethod:
                continue
            s = []
            for r in (ra, rb):
                x = ctx.lib.run_with(g, cls=cls, heap={a: r.c for a in at}, exact=True)
                s.append(signature(x, r.c))
            if s[0] != s[1]:
                return True
    return False


def signature(r, c):
    X = T("option")
    memo = {}

    def canon(x):
        if isinstance(x, Term):
            return subst(x, {c: X}, memo).id
        if isinstance(x, tuple):
            return tuple(canon(y) for y in x)
        return x
    return frozenset([("ret", canon(v) if v is not None else None) for _, v, _ in r.rets]
                     + [(e.kind, canon(e.data)) for e in r.events if e.kind in ("call", "rcall", "vcall", "setattr", "mutate", "construct") and isinstance(e.data, (Term, tuple))])


def methods(ctx, cls, f, par, runs, u):
    """values the constructor keeps select the behaviour of the methods that look at them"""
    p = ctx.p
    vs = list(runs)
    at = set.intersection(*[attrs_with(r) for r in runs.values()])
    if not at:
        return
    done = set()
    for b in p.mro(cls):
        k = p.classes.get(b)
        for n, g in sorted(k.methods.items()) if k else ():
            if n in done or n == "__init__" or g.is_static or g.is_classmethod:
                continue
            done.add(n)
            try:
                sg = {v: signature(ctx.lib.run_with(g, cls=cls, heap={a: r.c for a in at}, exact=True), r.c) for v, r in runs.items()}
            except Exception:
                ctx.unknown("own-behaviour", f"{g.qual} not followed")
                continue
            if len(set(sg.values())) > 1:
                ctx.ok("own-behaviour", f"{g.qual} distinguishes the values kept by {f.qual}({par})")


def default(f, par):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if x.arg == par and isinstance(d, ast.Constant) and isinstance(d.value, str):
            return d.value
    return None


def names(r):
    """names of everything a run calls, constructs or reads"""
    out = set()
    seen = set()
    for e in r.events:
        if e.kind == "raise":
            continue
        for s in e.stack[1:]:
            out.add(s)
        for x in payload(e):
            for y in walk(x, seen):
                if y.op in ("call", "rcall", "vcall", "new"):
                    out.add(str(y.args[0]))
                elif y.op == "meth":
                    out.add("." + str(y.args[0]))
        if e.kind in ("rcall", "vcall", "construct") and isinstance(e.data, tuple):
            out.add(str(e.data[0]))
            out.add(str(e.data[1]) if not isinstance(e.data[1], Term) else "")
    for _, v, _ in r.rets:
        if v is not None:
            for y in walk(v, seen):
                if y.op in ("call", "rcall", "vcall", "new"):
                    out.add(str(y.args[0]))
                elif y.op == "meth":
                    out.add("." + str(y.args[0]))
    return out


def features(ctx, name, f, par, runs):
    if not (set(FEATURES.get(name, {})) and par in ("theta_estimation", "integration_method", "approximation", "latent_density_method", "reduction", "method")):
        return
    ns = {v: names(r.r) for v, r in runs.items()}
    tab = FEATURES[name]

    def shown(v, pats):
        return any(n == q or n.endswith(q) or ("." + q.lstrip(".")) in n for n in ns[v] for q in pats.split("|"))
    for owner, pats in FEATURES[name].items():
        own = [v for v in owner.split("|") if v in ns]
        have = [v for v in ns if shown(v, pats)]
        wrong = [v for v in have if v not in own]
        miss = [v for v in own if v not in have]
        what = f"{name}: only {owner} uses {pats.split('|')[0]}"
        foreign = [v for v in miss if any(shown(v, q) for o, q in tab.items() if v not in o.split("|"))]
        if foreign:
            ctx.bad("means-what-it-says", f"{f.qual}({par}={foreign[0]!r})".replace(" ", "_"), f"'{foreign[0]}' does what is documented for another value of {par}, and not what is documented for itself ({pats.split('|')[0]})", f.module.relpath, f.node.lineno)
        elif not have:
            ctx.unknown("means-what-it-says", what + ": nowhere seen")
        elif miss and not wrong:
            ctx.bad("means-what-it-says", f"{f.qual}({par}={miss[0]!r})".replace(" ", "_"), f"'{miss[0]}' does not do what is documented for it ({pats.split('|')[0]})", f.module.relpath, f.node.lineno)
        elif miss and wrong:
            ctx.bad("means-what-it-says", f"{f.qual}({par}={wrong[0]!r})".replace(" ", "_"), f"'{wrong[0]}' does what is documented for '{owner}' ({pats.split('|')[0]}), and '{miss[0]}' does not", f.module.relpath, f.node.lineno)
        elif wrong or miss:
            ctx.unknown("means-what-it-says", what + f": also {wrong}, not {miss}")
        else:
            ctx.ok("means-what-it-says", what)


def inner(ctx):
    """option values that the library passes to itself"""
    p, lib = ctx.p, ctx.lib
    tab = {}
    for name, f, cls, par, vals, pre in table(p):
        if f is not None:
            tab.setdefault((f.name if f.name != "__init__" else f.cls.qual, par), set()).update(vals)
    for f, r in lib.generic():
        for e in r.events:
            if e.kind not in ("rcall", "vcall", "construct") or not isinstance(e.data, tuple):
                continue
            bound = next((x for x in e.data if isinstance(x, tuple)), ())
            q = str(e.data[0])
            for k in bound:
                if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], Term) and is_const(k[1]) and isinstance(cval(k[1]), str)):
                    continue
                for key in ((q.split(".")[-1], k[0]), (q, k[0]), (str(e.data[1]), k[0])):
                    if key in tab:
                        v = cval(k[1])
                        if v in tab[key] or v in EXTRA.get(k[0], ()):
                            ctx.ok("inner-value", f"{f.qual} calls {key[0]} with {k[0]}='{v}'")
                        else:
                            ctx.bad_ev("inner-value", f"{f.qual}>{key[0]}({k[0]}={v!r})".replace(" ", "_"), f"{key[0]} is called with {k[0]}='{v}', which is none of {sorted(tab[key])}", e)
                        break


AXES = [   # option value -> the axis of the result
    ("accuracy", "level", {"item": "items", "respondent": "respondents", "all": None}, {}),
    ("infit_outfit", "level", {"item": "items", "respondent": "respondents"}, {}),
    ("log_likelihood", "level", {"item": "items", "respondent": "respondents", "all": None}, {"reduction": "sum"}),
    ("log_likelihood", "level", {"item": "items", "respondent": "respondents", "all": None}, {"reduction": "mean"}),
    ("residuals", "average_over", {"items": "respondents", "respondents": "items", "everything": None, "none": "both"}, {}),
]


def levels(ctx):
    """a value per item, a value per respondent or a single value: as the option says"""
    from ..shapes import Shapes
    p, lib = ctx.p, ctx.lib
    op = tuple(q for q, f in p.functions.items() if f.name == "latent_scores")
    M = T("obj", p.cls("BaseIRTModel").qual, "the model", False)
    for m, par, vals, pre in AXES:
        f = p.method("Evaluator", m)
        if f is None or par not in f.posnames + list(f.kwonly):
            ctx.unknown("level-axis", f"Evaluator.{m}({par})")
            continue
        for v, want in vals.items():
            P = {par: const(v)}
            P.update({k: const(x) for k, x in pre.items()})
            try:
                r = lib.run_with(f, presets=P, heap={"model": M, (M, "mc_correct"): const(None)}, opaque=op)
            except Exception:
                ctx.unknown("level-axis", f"Evaluator.{m}({par}='{v}') not followed")
                continue
            S = Shapes(r, issue=lambda *a: None, lib=lib)
            for _, val, node in r.rets:
                for x in (val.args[0] if val.op == "tuple" else [val]):
                    got = kind(S, x)
                    what = f"Evaluator.{m}({par}='{v}') has {want or 'one value'}"
                    if got == "?":
                        ctx.unknown("level-axis", what)
                    elif got == want:
                        ctx.ok("level-axis", what)
                    else:
                        ctx.bad("level-axis", f"{f.qual}({par}={v!r})", f"with {par}='{v}' the result has a value per {got}, not per {want}" if want else f"with {par}='{v}' the result is not a single value", f.module.relpath, node.lineno if node is not None else f.node.lineno)


def kind(S, x):
    """'items', 'respondents', 'both' or None for a single value"""
    from ..c_util import strip_pass
    y = strip_pass(x)
    if y.op == "meth" and y.args[0] in ("mean", "nanmean", "sum", "nansum"):
        kw = dict(y.args[3])
        d = kw.get("dim", y.args[2][0] if y.args[2] else const(None))
        if is_const(d, None):
            return None
    s = S(x)
    if s is None or s.open or any(z is None for z in s.d):
        return "?"
    ks = ["items" if z == ("I",) else "respondents" if z and "I" not in z and "C" not in z else "?" for z in s.d]
    if "?" in ks:
        return "?"
    return ks[0] if len(ks) == 1 else "both" if ks == ["respondents", "items"] else "?"


def correct_range(ctx):
    """the correct response of a multiple choice item is one of its categories"""
    p, lib = ctx.p, ctx.lib
    b = p.cls("BaseIRTModel").qual
    f = p.find_method(b, "__init__")
    if f is None or not {"item_categories", "mc_correct"} <= set(f.posnames):
        ctx.unknown("correct-in-range", "BaseIRTModel.__init__")
        return

    def lst(*xs):
        return T("list", tuple(const(x) for x in xs), "given")
    for cats, cor, good in (((3, 2), (2, 1), True), ((3, 2), (0, 0), True), ((3, 2), (2, 2), False), ((3, 2), (3, 0), False)):
        try:
            r = lib.run_with(f, cls=b, presets={"item_categories": lst(*cats), "mc_correct": lst(*cor)})
        except Exception:
            ctx.unknown("correct-in-range", f"{cats} {cor} not followed")
            continue
        raises = [e for e in r.events if e.kind == "raise"]
        normal = r.state is not None
        what = f"categories {cats} with correct responses {cor}"
        if good and normal and not raises:
            ctx.ok("correct-in-range", what + " are accepted")
        elif not good and not normal:
            ctx.ok("correct-in-range", what + " are rejected")
        elif good and not normal:
            ctx.bad("correct-in-range", f.qual, f"{what} are rejected although every correct response is a category", f.module.relpath, f.node.lineno)
        elif not good and normal and not raises:
            ctx.bad("correct-in-range", f.qual, f"{what} are accepted although a correct response is not a category", f.module.relpath, f.node.lineno)
        else:
            ctx.unknown("correct-in-range", what)


COMBOS = [("BaseIRTModel", "latent_scores", {"standard_errors": True, "theta_estimation": "EAP"}), ("BaseIRTModel", "latent_scores", {"standard_errors": True, "theta_estimation": "MAP"})]


def combos(ctx):
    """combinations of options that are documented not to go together"""
    for c, m, pre in COMBOS:
        f = ctx.p.method(c, m)
        if f is None or not set(pre) <= set(f.posnames) | set(f.kwonly):
            continue
        r = ctx.lib.run(f, presets={k: const(v) for k, v in pre.items()}, key=("c12c", tuple(sorted(map(str, pre.items())))))
        if r is None:
            continue
        what = f"{c}.{m} with {pre}"
        off = ctx.lib.run(f, presets={k: const(v if isinstance(v, str) else False) for k, v in pre.items()}, key=("c12d", tuple(sorted(map(str, pre.items())))))
        fresh = {(e.path, e.line) for e in r.events if e.kind == "raise"} - {(e.path, e.line) for e in off.events if e.kind == "raise"} if off is not None else None
        if not r.rets and r.state is None:
            ctx.ok("rejects-combination", what + " raises")
        elif fresh is None or fresh:
            ctx.unknown("rejects-combination", what)
        else:
            ctx.bad("rejects-combination", f"{f.qual}({','.join(map(str, pre.values()))})", f"{what} raises no error", f.module.relpath, f.node.lineno)
