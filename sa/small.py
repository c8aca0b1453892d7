"""Small numerical functions against their definitions: the linking loss of two models, Gauss-Hermite points, the Newton step of the inter-model vigorish."""
from fractions import Fraction as F

from . import cells as C
from .abst import Unknown, arr
from .cells import Arr, Illshaped
from .stats import World, Abstract, Hooks, lst
from .terms import T, const


class Models(Hooks):
    """response probabilities of two models"""
    cats = {"from": [2, 3, 3], "to": [3, 2, 3]}

    def law(self, who, i):
        out = []
        for j, n in enumerate(self.cats[who]):
            out += [C.atom("prob", who + str(i), j, k) if k < n else 0 for k in range(3)]
        return out

    def h_item_probabilities(self, ev, a):
        o = getattr(ev, "receiver", None)
        who = o.args[1] if o is not None and o.op == "obj" else None
        if who not in self.cats:
            raise Unknown("which model")
        th = arr(next(ev(t) for n, t in a.items() if n in ("theta", "latent_variables")))
        if th.shape[0] != 2 or th.ndim != 2:
            raise Unknown("latent scores")
        want = {"from": 0, "to": 2}[who]
        if [c for c in th.c] != [F(want), F(want + 1)]:
            raise C.Illshaped(f"the model to link {who} is evaluated at the latent scores of the other one")
        return Arr((2, 3, 3), self.law(who, 0) + self.law(who, 1))


def link(ctx, rule):
    """the linking loss is the divergence between the same common item in both models"""
    p = ctx.p
    c = p.cls("LinkCommonItems")
    f = c and p.find_method(c.qual, "_loss_function")
    if f is None:
        return
    w = World("linking", [2, 3, 3], [[0, 0, 0]] * 2, [[F(0)], [F(1)]])
    base = p.cls("BaseIRTModel").qual
    for common in (([2, 0], [0, 1]), ([1], [2]), ([0, 1, 2], [1, 0, 2])):
        A = Abstract(ctx.lib, w, c.qual, Models)
        M = {m: T("obj", base, m, False) for m in ("from", "to")}
        A.fields = {"_model_from": M["from"], "_model_to": M["to"], "_model_from_common_item_indices": lst(common[0]), "_model_to_common_item_indices": lst(common[1])}
        a, b = T("leaf", "theta", (2, 1)), T("leaf", "linked theta", (2, 1))
        A.env[a], A.env[b] = Arr((2, 1), [F(0), F(1)]), Arr((2, 1), [F(2), F(3)])
        pn = [x for x in f.posnames if x != "self"]
        H = Models(w, ctx.lib)
        want = []
        for i in range(2):
            P, Q = H.law("from", i), H.law("to", i)
            for x, y in zip(*common):
                want += [C.mul(P[3 * x + k], C.add(C.log(P[3 * x + k]), C.neg(C.log(Q[3 * y + k])))) for k in range(H.cats["from"][x])]
        want = C.mul(C.total(want), F(1, 2 * len(common[0])))
        value(ctx, rule, A, f, {pn[0]: a, pn[1]: b}, Arr((), [want]), f"linking loss, common items {common[0]} and {common[1]}")


def value(ctx, rule, A, f, presets, want, who, on="", near=1e-5, name=None, pick=None):
    from .rules.c32 import differ
    try:
        r, e = A.run(name or f.name, presets, on)
        got = e(r.value)
        got = arr(pick(got) if pick else got)
        if got.shape != want.shape:
            if got.c and len(got.c) == len(want.c) == 1:
                got = Arr(want.shape, got.c)
            else:
                ctx.bad(rule, f.qual, f"{who}: the result has shape {got.shape} instead of {want.shape}", f.module.path, f.node.lineno)
                return
        ds = [differ(a, b, near) for a, b in zip(got.c, want.c)]
        wrong = [(i, y) for i, y in enumerate(ds) if y]
        if wrong:
            i, y = wrong[0]
            ctx.bad(rule, f.qual, f"{who}: entry {i} is {y[0]} where the definition gives {y[1]}", f.module.path, f.node.lineno)
        elif any(y is None for y in ds):
            ctx.unknown(rule, who)
        else:
            ctx.ok(rule, who)
    except Illshaped as u:
        ctx.bad(rule, f.qual, f"{who}: {u}", f.module.path, f.node.lineno)
    except Unknown as u:
        ctx.unknown(rule, f"{who}: {u}")


def hermite(ctx, rule):
    """Gauss-Hermite points are spread with the Cholesky factor of the covariance and their weights are products"""
    p = ctx.p
    fs = [f for q, f in sorted(p.functions.items()) if f.name == "gauss_hermite" and f.cls is None]
    if len(fs) != 1:
        return
    f = fs[0]
    w = World("quadrature", [2], [[0]], [[F(0)]])
    A = Abstract(ctx.lib, w, p.cls("Evaluator").qual)
    mean, cov = T("leaf", "mean", (2,)), T("leaf", "covariance", (2, 2))
    A.env[mean] = Arr((2,), [F(3), F(-1)])
    A.env[cov] = Arr((2, 2), [F(4), F(2), F(2), F(10)])   # Cholesky factor [[2, 0], [1, 3]]
    x = [-0.5 ** 0.5, 0.5 ** 0.5]
    pts, ws = [], []
    for u in x:
        for v in x:
            u2, v2 = u * 2 ** 0.5, v * 2 ** 0.5
            pts += [F(3) + F(2 * u2).limit_denominator(10 ** 6), F(-1) + F(u2 + 3 * v2).limit_denominator(10 ** 6)]
            ws.append(F(1, 4))
    pre = {f.posnames[0]: const(2), f.posnames[1]: mean, f.posnames[2]: cov}
    value(ctx, rule, A, f, pre, Arr((4, 2), pts), "Gauss-Hermite points of two variables", on="library", pick=lambda g: g[0])
    value(ctx, rule, A, f, pre, Arr((4,), ws), "Gauss-Hermite weights of two variables", on="library", pick=lambda g: g[1])


def vigorish(ctx, rule):
    """the solver of the vigorish takes Newton steps and the vigorish is relative to the first model"""
    p = ctx.p
    g = [f for q, f in sorted(p.functions.items()) if f.name == "_imv_newton_raphson" and f.cls is None]
    w = World("vigorish", [2], [[0]], [[F(0)]])
    if len(g) == 1:
        import math
        f = g[0]
        A = Abstract(ctx.lib, w, p.cls("Evaluator").qual)
        e = T("leaf", "entropies", (2,))
        vals = [F(-1, 2), F(-3, 5)]
        A.env[e] = Arr((2,), vals)
        want = []
        for v in vals:
            x = 0.75
            for _ in range(1):
                x -= (x * math.log(x) + (1 - x) * math.log(1 - x) - float(v)) / (math.log(x) - math.log(1 - x))
                x = min(max(x, 0.5 + 1e-6), 1 - 1e-6)
            want.append(x)
        value(ctx, rule, A, f, {f.posnames[0]: e, "max_iter": const(1)}, Arr((2,), want), "the Newton step of the vigorish", on="library", near=1e-4)


class Scores(Hooks):
    """mean log-likelihoods of two models"""
    def h_log_likelihood(self, ev, a):
        o = getattr(ev, "receiver", None)
        who = o.args[1] if o is not None and o.op == "obj" else None
        if who not in ("first", "second"):
            raise Unknown("which model")
        th = a.get("theta")
        if th is None or th.op != "leaf":
            raise Unknown("latent scores")
        if th.args[0] != f"the latent scores of the {who}":
            raise Illshaped(f"the {who} model is evaluated at {th.args[0]}")
        red = a.get("reduction")
        if red is None or red is not const("mean"):
            raise Unknown("reduction")
        return Arr((), [C.atom("out", "ll", who)])

    def h__imv_newton_raphson(self, ev, a):
        x = arr(ev(a["negative_entropy"]))
        return Arr(x.shape, [C.fn("sigmoid", c) for c in x.c])


def ratio(ctx, rule):
    """the vigorish compares the second model with the first and relates the gain to the first"""
    p = ctx.p
    g = [f for q, f in sorted(p.functions.items()) if f.name == "imv" and f.cls is None]
    n = [f for q, f in sorted(p.functions.items()) if f.name == "_imv_newton_raphson" and f.cls is None]
    ev = p.cls("Evaluator").qual
    ll = p.find_method(ev, "log_likelihood")
    if len(g) != 1 or len(n) != 1 or ll is None:
        return
    f = g[0]
    w = World("vigorish", [2], [[0]], [[F(0)]])
    A = Abstract(ctx.lib, w, ev, Scores)
    base = p.cls("BaseIRTModel").qual
    A.opaque |= {ll.qual, n[0].qual}
    pre = {}
    for m, who in (("model1", "first"), ("model2", "second")):
        o = pre[m] = T("obj", base, who, False)
        A.heap[(o, "evaluate")] = T("obj", ev, who, False)
        th = pre[m + "_theta"] = T("leaf", f"the latent scores of the {who}", (1, 1))
        A.env[th] = Arr((1, 1), [F(0)])
    pre["data"] = A.data
    a, b = [C.fn("sigmoid", C.atom("out", "ll", who)) for who in ("first", "second")]
    value(ctx, rule, A, f, pre, Arr((), [C.div(C.add(b, C.neg(a)), a)]), "the vigorish of the second model over the first", on="library")
