"""C07: models are evaluated at latent scores of their own scale only."""
from ..abst import Unknown
from ..interp import State
from ..logic import Theory
from ..plots import GRIDS, WORLDS, Shown, judge
from ..terms import T, const, cval, is_const, show, walk

# evaluations of a model and the argument with the latent scores
EVALUATE = {"forward": "theta", "__call__": "theta", "item_probabilities": "theta", "expected_scores": "theta", "probability_gradients": "theta",
            "expected_item_score_gradients": "theta", "information": "theta", "theta_transform_jacobian": "theta", "transform_theta": "theta",
            "log_likelihood": "theta", "sample_test_data": "theta", "latent_mean_se": "theta", "population_difficulty": "theta", "population_discrimination": "theta"}
TO, BACK, SCORES = "transform_theta", "inverse_transform_theta", "latent_scores"
POSITIONS = {"argsort", "searchsorted", "bucketize", "nonzero", "argmin", "argmax", "size", "dim", "numel", "len", "isnan", "isinf", "isfinite", "zeros_like",
             "ones_like", "empty_like", "full_like", "rand_like", "randn_like", "type", "isinstance", "hasattr", "randperm", "arange"}
FACTS = {"shape", "device", "dtype", "ndim", "is_cuda", "indices", "requires_grad"}


def check(ctx):
    plotted(ctx)
    evaluated(ctx)
    reported(ctx)
    ctx.floor("plotted", 30)
    ctx.floor("evaluated", 20)
    ctx.floor("reported", 5)
    ctx.floor("kept", 8)


# --------------------------------------------------------------------------------------------------------------------- figures
def plotted(ctx):
    for w in WORLDS:
        if not w.scale:
            continue
        for s in GRIDS(w):
            j, f = judge(ctx.lib, w, s)
            if f is None:
                continue
            ctx.lib.nfun.add(f.qual)
            who = f"{w.label}: {s.text()}"
            bad = [x for x in j.found if x[0] == "scale"]
            for a, m, x in bad[:1]:
                if x is not None and x.e is not None:
                    ctx.bad_ev("plotted", f.qual, f"{who}: {m}", x.e)
                else:
                    ctx.bad("plotted", f.qual, f"{who}: {m}", f.module.path, f.node.lineno)
            if bad:
                continue
            if j.unknown or not j.n and not j.found:
                ctx.unknown("plotted", f"{who}: {(j.unknown or ['nothing compared'])[0]}")
            else:
                ctx.ok("plotted", who)


# ---------------------------------------------------------------------------------------------------------------- provenance
class Scale:
    """which scale a value is on"""
    def __init__(self, I):
        self.I, self.memo = I, {}

    def transformed(self, t):
        """the transformation the value comes from, None if there is none"""
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self.step(t)
        self.memo[t] = r
        return r

    def any(self, xs):
        for x in xs:
            if hasattr(x, "op"):
                r = self.transformed(x)
                if r is not None:
                    return r
            elif isinstance(x, tuple):
                r = self.any(x)
                if r is not None:
                    return r
        return None

    def step(self, t):
        op = t.op
        if op in ("const", "param", "global", "obj", "new", "leaf", "cmp", "not", "bool"):
            return None
        if op == "phi":
            return self.any(t.args[1:])
        if op in ("vcall", "rcall"):
            n, b = bound(t)
            if n == BACK:
                return None
            if n == TO:
                return t
            if n == SCORES:
                r = b.get("rescale")
                return None if r is not None and not is_const(r, True) else t
            if n == "transform":
                return t
            if n in ("inverse", "__init__") or n in EVALUATE:
                return None
            return None
        if op in ("call", "meth"):
            n = t.args[0].rsplit(".", 1)[-1]
            if n in POSITIONS or n in EVALUATE or n == BACK:
                return None
            if n == TO:
                return t
            return self.any(t.args[1:])
        if op == "index":
            x, i = t.args[0], t.args[1]
            if x.op in ("call", "meth") and x.args[0].rsplit(".", 1)[-1] in ("sort", "topk", "max", "min", "median", "kthvalue", "mode", "unique", "cummax", "cummin") and is_const(i) and cval(i) in (1, -1):
                return None
            return self.transformed(x)
        if op == "attr":
            return None if t.args[1] in FACTS else self.transformed(t.args[0])
        if op in ("elem", "listof"):
            return self.transformed(t.args[0])
        if op == "setitem":
            return self.any((t.args[0], t.args[2]))
        return self.any(t.args)


def bound(t):
    if t.op == "vcall":
        return t.args[1], dict(t.args[3])
    return t.args[0].rsplit(".", 1)[-1], dict(t.args[1])


def functions(ctx):
    """functions that have a model: (function, class of the object or None)"""
    p, lib = ctx.p, ctx.lib
    roots = ("Evaluator", "Plotter")
    for q in sorted(p.classes):
        c = p.classes[q]
        for m in c.methods.values():
            yield m, q
    for q, f in sorted(p.functions.items()):
        if f.cls is None:
            yield f, None


class Stage:
    """a model with a scale and what belongs to it"""
    def __init__(self, ctx):
        p = ctx.p
        self.p, self.lib = p, ctx.lib
        self.base = p.cls("BaseIRTModel").qual
        self.M = T("obj", self.base, "the model", False)
        self.S = T("obj", p.cls("Scale").qual, "scale", False)
        self.alg = T("obj", p.cls("BaseIRTAlgorithm").qual, "its algorithm", False)
        self.theta = T("param", "the scores of the training data", "")
        self.E = T("obj", p.cls("Evaluator").qual, "the evaluator", False)
        names = set(EVALUATE) | {TO, BACK, SCORES, "inverse", "transform", "fit"}
        self.opaque = set()
        for q in [self.base] + sorted(p.subclasses.get(self.base, ())) + [p.cls("Evaluator").qual] + [c for c in p.classes if p.is_subclass(c, p.cls("Scale").qual)]:
            for n, f in p.classes[q].methods.items():
                if n in names:
                    self.opaque.add(f.qual)

    def run(self, f, q, rescale, inverse=True, scored=True, more=None):
        """`inverse`: whether the scale can be inverted; `scored`: whether the scores of the training data are kept"""
        p = self.p
        I = self.lib.interp(frozenset(x for x in self.opaque if x != f.qual))
        st = State()
        h = st.heap
        h[(self.M, "scale")] = T("list", (self.S,))
        h[(self.M, "algorithm")], h[(self.M, "evaluate")] = self.alg, self.E
        h[(self.E, "model")] = self.M
        h[(self.S, "invertible")] = const(inverse)
        h[(self.alg, "training_theta_scores")] = self.theta if scored else const(None)
        so = None
        if q is not None and "staticmethod" not in str(f.decorators):
            so = self.M if p.is_subclass(q, self.base) and q == self.base else T("obj", q, "self", True)
            if p.is_subclass(q, self.base):
                h[(so, "scale")] = T("list", (self.S,))
                h[(so, "algorithm")], h[(so, "evaluate")] = self.alg, self.E
            elif f.name != "__init__":
                h[(so, "model")] = self.M
        pre = {}
        for n in f.posnames + f.kwonly:
            if n == "model":
                pre[n] = self.M
            if n == "rescale":
                pre[n] = const(rescale)
        pre.update(more or {})
        self.lib.nfun.add(f.qual)
        return I.run(f, presets=pre, self_obj=so, state=st)


def relevant(f, p):
    import ast
    names = set(EVALUATE) | {TO, BACK, SCORES}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr in names or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "model":
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("model", "self"):
            return True
    return False


def evaluated(ctx):
    stage = Stage(ctx)
    p = ctx.p
    for f, q in functions(ctx):
        if f.is_abstract or not relevant(f, p):
            continue
        for rescale in (True, False):
            if not rescale and "rescale" not in f.posnames + f.kwonly:
                continue
            who = f.qual + ("" if rescale else " with rescale=False")
            n, seen = 0, set()
            for inverse in (True, False):
                for scored in (True, False):
                    r = stage.run(f, q, rescale, inverse, scored)
                    if r is not None and r.state is not None or r is not None and r.events:
                        n += evaluations(ctx, stage, f, r, who, seen)
            if n and not seen:
                ctx.ok("evaluated", f"{who}: {n} evaluations")
            kept(ctx, stage, f, q, rescale)


def kept(ctx, stage, f, q, rescale):
    """what scales and the evaluator return and store without being asked for transformed scores is on the original scale"""
    p = stage.p
    if q is None or not (p.is_subclass(q, p.cls("Scale").qual) or q == p.cls("Evaluator").qual):
        return
    if f.name in ("transform", "forward", "__call__") or rescale and "rescale" in f.posnames + f.kwonly:
        return
    r = stage.run(f, q, rescale)
    if r is None:
        return
    sc, th = Scale(r.interp), Theory(r.interp)
    found, n = [], 0
    if r.value is not None and r.rets:
        n += 1
        v = r.value
        src = path(sc, th, v, given(stage, v))
        if src is not None:
            found.append(("returns", src, None))
    for e in r.events:
        if e.kind == "setattr" and len(e.stack) == 1:
            n += 1
            src = path(sc, th, e.data[3], list(e.conds) + given(stage, e.data[3]))
            if src is not None:
                found.append((f"stores in {e.data[1]}", src, e))
    for what, src, e in found[:1]:
        m = f"{f.qual} {what} latent scores on the transformed scale ({show(src)[:60]}) where those on the scale of the model are due"
        if e is not None:
            ctx.bad_ev("kept", f.qual, m, e)
        else:
            ctx.bad("kept", f.qual, m, f.module.path, f.node.lineno)
    if n and not found:
        ctx.ok("kept", f"{f.qual}: {n} results")


def evaluations(ctx, stage, f, r, who, seen):
    sc, th = Scale(r.interp), Theory(r.interp)
    n = 0
    for e in r.events:
        if e.kind != "rcall":
            continue
        name, b = e.data[0].rsplit(".", 1)[-1], dict(e.data[2])
        if name not in EVALUATE or not ismodel(stage, e.data[0]):
            continue
        t = b.get(EVALUATE[name])
        if t is None:
            continue
        n += 1
        src = path(sc, th, t, list(e.conds) + given(stage, t))
        if src is not None and name not in seen:
            seen.add(name)
            ctx.bad_ev("evaluated", f"{f.qual}: {name}", f"{who}: {name} is given latent scores on the transformed scale ({show(src)[:60]})", e)
    return n


def ismodel(stage, qual):
    """is the method one of a model or of what evaluates it"""
    f = stage.p.functions.get(qual)
    q = getattr(f.cls, "qual", f.cls) if f is not None else None
    return q is not None and (stage.p.is_subclass(q, stage.base) or q == stage.p.cls("Evaluator").qual)


def given(stage, t):
    """what is known of the conditions in a value: scores are never None"""
    out = []
    for x in walk(t):
        if x.op == "cmp" and x.args[0] == "is" and is_const(x.args[2], None) and (x.args[1] is stage.theta or x.args[1] == stage.theta or x.args[1].op == "vcall"):
            out.append((x, False))
    return out


def path(sc, th, t, conds, depth=0):
    """the transformation a value comes from on a path that can be taken"""
    if sc.transformed(t) is None:
        return None
    phis = [x for x in walk(t) if x.op == "phi"]
    if not phis or depth > 12:
        return sc.transformed(t) if th.consistent(list(conds)) else None
    from ..terms import subst
    x = phis[0]
    for b, pol in ((x.args[1], True), (x.args[2], False)):
        cs = list(conds) + [(x.args[0], pol)]
        if not th.consistent(cs):
            continue
        r = path(sc, th, subst(t, {x: b}), cs, depth + 1)
        if r is not None:
            return r
    return None


# ------------------------------------------------------------------------------------------------------------------ reported
def reported(ctx):
    """scores are reported on the scale that was asked for"""
    stage = Stage(ctx)
    p = ctx.p
    f = p.find_method(stage.base, SCORES)
    for rescale in (True, False):
        r = stage.run(f, stage.base, rescale)
        if r is None or not r.rets:
            ctx.unknown("reported", f"{SCORES}: rescale={rescale}")
            continue
        sc, th = Scale(r.interp), Theory(r.interp)
        bad = False
        todo = [([], r.value)]
        ok = 0
        for conds, v in split(todo, th):
            scores = v.args[0][0] if v.op == "tuple" and v.args[0] else v
            got = sc.transformed(scores) is not None
            if got != rescale:
                bad = True
                if True:
                    ctx.bad("reported", f"{f.qual}: rescale={rescale}", f"{SCORES} with rescale={rescale} and a scale attached returns scores on the {'transformed' if got else 'original'} scale: {show(scores)[:80]}", f.module.path, f.node.lineno)
                else:
                    ctx.unknown("reported", f"{SCORES}: {show(scores)[:80]}")
                    bad = True
            else:
                ok += 1
        if ok and not bad:
            ctx.ok("reported", f"{SCORES} with rescale={rescale}: {ok} results")
    for how in ("ML", "NN"):
        for rescale in (True, False):
            errors(ctx, stage, f, how, rescale)


def errors(ctx, stage, f, how, rescale):
    """standard errors are on the scale of the scores they belong to"""
    who = f"{f.name} by {how} with rescale={rescale}"
    r = stage.run(f, stage.base, rescale, more={"standard_errors": const(True), "theta_estimation": const(how)})
    if r is None or r.value is None:
        ctx.unknown("reported", who)
        return
    th = Theory(r.interp)
    n = 0
    for conds, v in split([([], r.value)], th, 1):
        if v.op != "tuple" or len(v.args[0]) != 2:
            continue
        se = v.args[0][1]
        ways = []
        for x in walk(se):
            if x.op not in ("vcall", "rcall"):
                continue
            name, b = bound(x)
            if name in ("information", "probability_gradients", "expected_item_score_gradients"):
                q = b.get("rescale")
                if q is None or not is_const(q):
                    ctx.unknown("reported", who)
                    return
                if cval(q):
                    ways.append(name)
            elif name == "theta_transform_jacobian":
                ways.append(name)
        n += 1
        if (len(set(ways)) == 1) != rescale:
            m = ("are those of the original scale" if not ways else f"are transformed by {' and '.join(sorted(set(ways)))}") + f" while the scores are {'transformed' if rescale else 'not'}"
            ctx.bad("reported", f"{f.qual}: standard errors, {how}, rescale={rescale}", f"{who} and a scale attached: the standard errors {m}: {show(se)[:80]}", f.module.path, f.node.lineno)
            return
    if n:
        ctx.ok("reported", f"standard errors of {who}: {n} results")
    else:
        ctx.unknown("reported", f"standard errors of {who}")


def split(todo, th, k=0):
    from ..terms import subst
    out = []
    while todo and len(out) < 200:
        cs, v = todo.pop()
        if not th.consistent(cs):
            continue
        x = next((x for x in walk(v) if x.op == "phi"), None) if v.op in ("phi", "tuple") else None
        if v.op == "phi":
            x = v
        elif v.op == "tuple" and len(v.args[0]) > k and v.args[0][k].op == "phi":
            x = v.args[0][k]
        else:
            x = None
        if x is None:
            out.append((cs, v))
            continue
        todo.append((cs + [(x.args[0], True)], subst(v, {x: x.args[1]})))
        todo.append((cs + [(x.args[0], False)], subst(v, {x: x.args[2]})))
    return out

