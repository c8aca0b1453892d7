"""C03: missing responses never contribute to a result."""
import ast
import itertools
from fractions import Fraction as F

from .. import bits
from .. import cells as C
from ..abst import Eval, Frame, Instance, MultivariateNormal, Unknown, arr, value
from ..cells import Arr, Illshaped, Poly
from ..models import cases
from ..stats import NAN, Abstract, Hooks, World, points
from ..terms import T, children, const, is_const, walk
from . import c32
from .c32 import compare, differ, label, lst, shown, total, minus

N = NAN
CODES = (("NaN", N), ("-1", -1))
MIXED = (("NaN and -1 in turn", None),)
WORLDS = [w for w in c32.WORLDS if any(w.missing(i, j) for i in range(w.n) for j in range(w.J))]


def coded(data, code):
    """the same responses with one coding of the missing ones"""
    d = arr(data)
    turn = itertools.cycle((N, -1))
    return Arr(d.shape, [(next(turn) if code is None else code) if c != c or c == -1 else c for c in d.c])


def variant(w, code):
    v = World(w.label, w.cats, [[0]], [[0]], w.mc, w.scale)
    v.data, v.theta, v.n, v.J, v.L, v.K = coded(w.data, code), w.theta, w.n, w.J, w.L, w.K
    return v


def check(ctx):
    statistics(ctx)
    library(ctx)
    likelihoods(ctx)
    losses(ctx)
    scores(ctx)
    constructors(ctx)
    dataset(ctx)
    sites(ctx)
    bits.guessing(ctx, "unselected", "missing")
    ctx.floor("codings", 30)
    ctx.floor("likelihood", 30)


# ---------------------------------------------------------------------------------------------------------------- both codings
def cellsof(got):
    """all cells of a result"""
    if isinstance(got, (tuple, list)):
        out = []
        for g in got:
            x = cellsof(g)
            if x is None:
                return None
            out += x
        return out
    if isinstance(got, Frame):
        got = got.x
    if isinstance(got, (str, dict)):
        return None
    if got is None:
        return []
    try:
        return [arr(got)]
    except (Unknown, TypeError):
        return None


def both(ctx, rule, f, who, outs):
    """results for several codings are the same"""
    got = []
    for name, (g, ill, why) in outs:
        if ill:
            ctx.bad(rule, f.qual, f"{who}, missing responses coded {name}: {ill}", f.module.path, f.node.lineno)
            return False
        g = cellsof(g) if g is not None else None
        if g is None:
            ctx.unknown(rule, f"{who}: {why or 'result'}")
            return None
        got.append((name, g))
    (n0, a), rest = got[0], got[1:]
    for n1, b in rest:
        if len(a) != len(b) or any(x.shape != y.shape for x, y in zip(a, b)):
            ctx.bad(rule, f.qual, f"{who}: the result has shape {[x.shape for x in a]} when missing responses are coded {n0} and {[x.shape for x in b]} when they are coded {n1}", f.module.path, f.node.lineno)
            return False
        for x, y in zip(a, b):
            for k, (u, v) in enumerate(zip(x.c, y.c)):
                if u is None and v is None:
                    ctx.unknown(rule, f"{who}: entry {k}")
                    return None
                d = differ(u, v, 1e-6)
                if d is None:
                    ctx.unknown(rule, f"{who}: entry {k}")
                    return None
                if d:
                    ctx.bad(rule, f.qual, f"{who}: entry {k} is {d[0]} when missing responses are coded {n0} and {d[1]} when they are coded {n1}", f.module.path, f.node.lineno)
                    return False
    return True


def outcome(A, S, pre, args=None):
    g, ill = c32.outcome(A, S, pre, args)
    return g, ill, A.why


# statistics in which every term belongs to one response
OWN = {"residuals", "accuracy", "predictions", "infit_outfit", "log_likelihood", "group_fit_log_likelihood", "q3"}


def statistics(ctx):
    for w in WORLDS:
        for S in c32.SPECS:
            if S.args is not c32.DATA_THETA and S.name != "_observed_item_score_proportions" or S.on == "model":
                continue
            for pre in S.options:
                if S.spec(w, **pre) is None:
                    continue
                outs, f = [], None
                for name, code in CODES + MIXED:
                    A = Abstract(ctx.lib, variant(w, code), ctx.lib.p.cls("Evaluator").qual)
                    f = A.find(S.name, S.on)
                    if f is None:
                        break
                    outs.append((name, outcome(A, S, pre)))
                if f is None:
                    continue
                who = f"{w.label}: {label(S, pre)}"
                if both(ctx, "codings", f, who, outs):
                    if S.name in OWN and not untouched(ctx, w, f, who, outs[0][1][0]):
                        continue
                    t = Trial()
                    c32.compare(t, "", f, who, outs[0][1][0], S.spec(variant(w, N), **pre), S.near)
                    if t.text and complete(ctx, w, S, pre):
                        # right for complete data, wrong for the observed part of incomplete data
                        ctx.bad("observed", f.qual, t.text, f.module.path, f.node.lineno)
                    elif t.text or t.open:
                        ctx.unknown("observed", f"{who}: {t.text or t.open}")
                    else:
                        ctx.ok("observed", who)
                    ctx.ok("codings", who)


class Trial:
    """the outcome of a comparison"""
    text = open = ""

    def ok(self, rule, who):
        pass

    def unknown(self, rule, who):
        self.open = self.open or who

    def bad(self, rule, construct, msg, path=None, line=None):
        self.text = self.text or msg


def complete(ctx, w, S, pre):
    """the definition of a statistic is met when no response is missing"""
    v = variant(w, 0)
    A = Abstract(ctx.lib, v, ctx.lib.p.cls("Evaluator").qual)
    f, want = A.find(S.name, S.on), S.spec(v, **pre)
    got = outcome(A, S, pre)[0]
    if got is None or want is None:
        return False
    t = Trial()
    c32.compare(t, "", f, "", got, want, S.near)
    return not t.text and not t.open


def untouched(ctx, w, f, who, got):
    """no cell is computed from the probabilities of a missing response"""
    gone = {}
    for i in range(w.n):
        for j in range(w.J):
            if w.missing(i, j):
                gone[(w.key(w.theta, i), j)] = (i, j)
    for a in cellsof(got):
        for c in a.c:
            if isinstance(c, Poly) and not C.special(c):
                for d in C.deps(c):
                    k = C.Atoms.items[d]
                    if k[0] == "prob" and (k[1], k[2]) in gone:
                        i, j = gone[k[1], k[2]]
                        ctx.bad("codings", f.qual, f"{who}: a result depends on the probabilities of the missing response of respondent {i + 1} to item {j + 1}", f.module.path, f.node.lineno)
                        return False
    return True


D1 = [[2, 1], [N, 0], [1, N], [0, 1], [1, N], [N, 1]]
D3 = [[1, N, 0], [0, 2, N], [N, 1, 1], [1, 2, 1], [0, 0, 2], [N, 1, N]]
D4 = [[N, 3], [2, N], [1, 1], [0, 0]]
LIBRARY = [
    ("sum_score", [{"data": D1}, {"data": D3, "mc_correct": [1, 2, 0]}]),
    ("get_missing_mask", [{"data": D1}]),
    ("one_hot_encode_test_data", [{"data": D1, "item_categories": [3, 2]}, {"data": D3, "item_categories": [2, 3, 3]}]),
    ("get_item_categories", [{"data": D1}, {"data": D3}, {"data": D4}]),
    ("joint_entropy_matrix", [{"data": D3}]),
    ("impute_missing_internal", [{"data": D1, "method": "zero"}, {"data": D3, "method": "mean"}]),
    ("impute_missing", [{"data": D1, "method": "zero"}, {"data": D3, "method": "mean"}]),
]


def call(ctx, w, name, case, on="library"):
    A = Abstract(ctx.lib, w, ctx.lib.p.cls("Evaluator").qual)
    f = A.find(name, on)
    if f is None:
        return None, None
    args = {}
    for k, v in case.items():
        if isinstance(v, Arr) or isinstance(v, list) and v and isinstance(v[0], list):
            t = T("leaf", f"{name} {k}", arr(v).shape)
            A.env[t] = arr(v)
            args[k] = t
        else:
            args[k] = c32.term(v)
    return f, outcome(A, c32.Spec(name, None, on=on, args=lambda A: args), {})


def library(ctx):
    w = c32.WORLDS[0]
    for name, cs in LIBRARY:
        for n, case in enumerate(cs):
            outs, f = [], None
            for cname, code in CODES + MIXED:
                f, o = call(ctx, w, name, {**case, "data": coded(case["data"], code)})
                if f is None:
                    break
                outs.append((cname, o))
            if f is None:
                ctx.unknown("codings", name)
                continue
            who = f"{name}, case {n + 1}"
            if both(ctx, "codings", f, who, outs):
                ctx.ok("codings", who)
                want = WANT.get(name)
                if want is not None:
                    compare(ctx, "observed", f, who, outs[0][1][0], want(**case))


def w_onehot(data, item_categories):
    return [[1 if x == k else 0 for x, n in zip(row, item_categories) for k in range(n)] for row in data]


def w_sum(data, mc_correct=None):
    return [sum(x == c for x, c in zip(row, mc_correct)) if mc_correct else sum(x for x in row if x == x and x != -1) for row in data]


def w_mask(data):
    return [[x != x or x == -1 for x in row] for row in data]


WANT = {"one_hot_encode_test_data": w_onehot, "sum_score": w_sum, "get_missing_mask": w_mask, "get_item_categories": lambda data: c32.s_categories(arr(data))}


# ---------------------------------------------------------------------------------------------------------------- model likelihoods
def patterns(case):
    """responses that visit the categories, with every item missing once"""
    J = len(case.cats)
    rows = [[(i * 2 + j + 1) % case.cats[j] for j in range(J)] for i in range(case.rows)]
    gone = {(0, J - 1), (1, 0)}
    return rows, gone


def likelihoods(ctx):
    for case in cases(ctx.lib):
        f = ctx.lib.p.find_method(case.q, "log_likelihood")
        if case.probs is None or f is None:
            ctx.unknown("likelihood", f"{case.label}: {case.why}")
            continue
        K = case.probs.shape[2]
        rows, gone = patterns(case)
        J = len(case.cats)
        mask = T("leaf", "missing", (case.rows, J))
        ok = True
        want = [C.log(case.probs.c[(i * J + j) * K + rows[i][j]]) for i in range(case.rows) for j in range(J) if (i, j) not in gone]
        for cname, code in CODES + (("0", 0),):
            data = T("leaf", f"responses {cname}", (case.rows, J))
            env = {data: Arr((case.rows, J), [code if (i, j) in gone else rows[i][j] for i in range(case.rows) for j in range(J)]),
                   mask: Arr((case.rows, J), [(i, j) in gone for i in range(case.rows) for j in range(J)])}
            for how in ("sum", "none"):
                if how == "none" and cname == "0":
                    continue
                who = f"{case.label}: log_likelihood with loss_reduction {how}, missing responses coded {cname}"
                try:
                    r, e = case.inst.method("log_likelihood", {"data": data, "output": case.outterm, "missing_mask": mask, "loss_reduction": const(how)}, env=env)
                    if r.value is None:
                        raise Unknown("no value")
                    got = arr(e(r.value))
                except Illshaped as u:
                    ctx.bad("likelihood", f.qual, f"{who}: {u}", f.module.path, f.node.lineno)
                    ok = False
                    break
                except (Unknown, KeyError) as u:
                    ctx.unknown("likelihood", f"{who}: {u}")
                    ok = None
                    break
                v = verdict(how, got, want, len(gone), [(i, j) in gone for i in range(case.rows) for j in range(J)] if case.name != "ModelMix" else None)
                if v is None:
                    ctx.unknown("likelihood", f"{who}: {[C.text(c, 2)[:60] for c in got.c]}")
                    ok = None
                    break
                if v:
                    ctx.bad("likelihood", f.qual, f"{who}: {v}", f.module.path, f.node.lineno)
                    ok = False
                    break
            if not ok:
                break
        if ok:
            ctx.ok("likelihood", case.label)


def verdict(how, got, want, missing, places=None):
    """'' when the likelihood is that of the observed responses, a sentence when it is not, None when this is not decided"""
    if how == "sum":
        if len(got.c) != 1:
            return f"{len(got.c)} values instead of one"
        d = differ(got.c[0], C.total(want), 1e-6)
        return None if d is None else f"{d[0]} where the observed responses give {d[1]}" if d else ""
    if any(c is None for c in got.c):
        return None
    nan = [c for c in got.c if C.special(c) and c != c]
    rest = [c for c in got.c if not (C.special(c) and c != c)]
    if len(got.c) != len(want) + missing:
        return f"{len(got.c)} entries for {len(want) + missing} responses"
    if len(nan) != missing:
        return f"{len(nan)} entries are NaN where {missing} responses are missing"
    if places is not None and len(places) == len(got.c) and [C.special(c) for c in got.c] != places:
        return "the entries that are NaN are not those of the missing responses"
    if any(C.special(c) for c in rest):
        return "an observed response has an infinite log-likelihood"
    n = 0
    for at in points([c for c in rest + want if isinstance(c, Poly)], 24):
        try:
            u, v = sorted(value(c, at) for c in rest), sorted(value(c, at) for c in want)
        except (Unknown, ValueError, ZeroDivisionError, OverflowError):
            continue
        if any(x != x for x in u + v):
            continue
        n += 1
        for x, y in zip(u, v):
            if abs(x - y) > 1e-6 * (1 + abs(y)):
                return f"the entries are {[round(z, 4) for z in u]} where the observed responses give {[round(z, 4) for z in v]}"
        if n > 5:
            return ""
    return None


# ---------------------------------------------------------------------------------------------------------------- losses
class Training(Hooks):
    """an encoder next to the model"""
    def h_forward(self, ev, a):
        if "theta" in a:
            return Hooks.h_forward(self, ev, a)
        return self.w.theta

    def h_repeated(self, ev, a):
        raise Unknown("call")


def observed(w, i, key=None):
    key = key or w.key(w.theta, i)
    return [C.log(w.prob(key, j)[w.x(i, j)]) for j in range(w.J) if not w.missing(i, j)]


def losses(ctx):
    """the training losses are those of the observed responses"""
    lib = ctx.lib
    for w in WORLDS:
        w = variant(w, N)
        mask = T("leaf", "the mask", w.data.shape)
        marr = Arr(w.data.shape, [w.missing(i, j) for i in range(w.n) for j in range(w.J)])
        inp = T("leaf", "the encoder input", w.data.shape)
        per = [C.total(observed(w, i)) for i in range(w.n)]
        mean = C.neg(C.mul(C.total(per), F(1, w.n)))
        for cname, code in CODES:
            v = variant(w, code)
            base = {"batch": "data", "data": "data", "missing_mask": mask, "input_batch": inp}
            for cls, name, fields in (("AE", "_train_batch", {}), ("AE", "_batch_fit_measures", {}), ("VAE", "_batch_fit_measures", {})):
                loss(ctx, v, cls, name, fields, {mask: marr, inp: Arr(w.data.shape, [0] * len(w.data.c))}, mask, inp, mean, cname)
            iwae(ctx, v, mask, marr, cname, per)
            mml(ctx, v, cname)


def algorithm(ctx, w, cls, env):
    c = ctx.lib.p.cls(cls)
    A = Abstract(ctx.lib, w, c.qual)
    A.hooks = Training(w, ctx.lib)
    A.env.update(env)
    enc = T("obj", ctx.lib.p.cls("VariationalEncoder" if cls == "VAE" else "StandardEncoder").qual, "its encoder", False)
    A.opaque |= {m.qual for q, k in ctx.lib.p.classes.items() if ".encoder" in q for n, m in k.methods.items() if n == "forward"}
    A.fields["encoder"] = enc
    return A


def verify(ctx, rule, A, name, args, want, who):
    f = A.find(name)
    if f is None:
        return
    got, ill, why = outcome(A, c32.Spec(name, None, args=lambda A: args), {})
    if ill:
        ctx.bad(rule, f.qual, f"{who}: {ill}", f.module.path, f.node.lineno)
    elif got is None:
        ctx.unknown(rule, f"{who}: {why}")
    else:
        try:
            got = arr(got)
        except (Unknown, TypeError):
            ctx.unknown(rule, f"{who}: result")
            return
        compare(ctx, rule, f, who, got, want, 1e-6)


def loss(ctx, w, cls, name, fields, env, mask, inp, want, cname):
    A = algorithm(ctx, w, cls, env)
    if cls == "VAE":
        A.hooks.h_forward = lambda ev, a: Hooks.h_forward(A.hooks, ev, a) if "theta" in a else (w.theta, w.theta)
    verify(ctx, "loss", A, name, {"model": A.M, "batch": A.data, "data": A.data, "missing_mask": mask, "input_batch": inp}, want, f"{w.label}: loss of {cls}.{name}, missing responses coded {cname}")


def iwae(ctx, w, mask, marr, cname, per):
    """(importance weighted) evidence lower bound with the KL divergence annealed away or not"""
    for k in (1, 2):
        th = Arr((w.n * k, w.L), [c + F(z) for z in range(k) for c in w.theta.c])
        mean, lv = Arr(th.shape, list(w.theta.c) * k), Arr(th.shape, [F(1, 3)] * len(th.c))
        leaf = {n: T("leaf", n, th.shape) for n in ("samples", "mean", "logvar")}
        out = T("leaf", "output", (w.n * k, w.J * w.K))
        keys = [w.key(th, i) for i in range(w.n * k)]
        oarr = Arr((w.n * k, w.J * w.K), [C.atom("out", key, j, x) for key in keys for j in range(w.J) for x in range(w.K)])
        A = algorithm(ctx, w, "VAE", {mask: marr, leaf["samples"]: th, leaf["mean"]: mean, leaf["logvar"]: lv, out: oarr})
        A.fields.update({"anneal": const(False), "iw_samples": const(k), "annealing_factor": const(1.0), "total_iterations": const(3), "annealing_iterations": const(10)})
        lls = [[C.total(observed(w, i, keys[z * w.n + i])) for i in range(w.n)] for z in range(k)]
        bound = []
        import math
        for i in range(w.n):
            if k == 1:
                kl = sum(0.5 * (float(m) ** 2 + math.exp(1 / 3) - 1 - 1 / 3) for m in w.key(w.theta, i))
                bound.append(C.add(lls[0][i], -kl))
            else:
                terms = []
                for z in range(k):
                    kl = 0.0
                    for m, t in zip(w.key(w.theta, i), keys[z * w.n + i]):
                        lq = -0.5 * (float(t) - float(m)) ** 2 / math.exp(1 / 3) - 1 / 6 - 0.5 * math.log(2 * math.pi)
                        lp = -0.5 * float(t) ** 2 - 0.5 * math.log(2 * math.pi)
                        kl += lq - lp
                    terms.append(C.exp(C.add(lls[z][i], -kl)))
                bound.append(C.add(C.log(C.total(terms)), -math.log(k)))
        want = C.neg(C.mul(C.total(bound), F(1, w.n)))
        verify(ctx, "loss", A, "_loss_function", {"model": A.M, "data": A.data, "missing_mask": mask, "logits": out, "theta_samples": leaf["samples"], "mean": leaf["mean"], "logvar": leaf["logvar"]}, want,
               f"{w.label}: loss of VAE with {k} samples, missing responses coded {cname}")


def mml(ctx, w, cname):
    """marginal likelihood over three points of integration"""
    Q = 3
    pts = [[F(q - 1) + F(v, 4) for v in range(w.L)] for q in range(Q)]
    grid = Arr((Q * w.n, w.L), [c for q in range(Q) for i in range(w.n) for c in pts[q]])
    lw = [C.atom("out", "log weight", q) for q in range(Q)]
    lws = Arr((Q * w.n,), [lw[q] for q in range(Q) for i in range(w.n)])
    drep = Arr((Q * w.n, w.J), list(w.data.c) * Q)
    mrep = Arr(drep.shape, [c != c or c == -1 for c in drep.c])
    leaf = {n: T("leaf", n, a.shape) for n, a in (("grid", grid), ("log weights", lws), ("repeated responses", drep), ("repeated mask", mrep))}
    A = algorithm(ctx, w, "MML", dict(zip(leaf.values(), (grid, lws, drep, mrep))))
    A.hooks = Repeated(w, ctx.lib, drep)
    ds = T("obj", ctx.lib.p.cls("PytorchIRTDataset").qual, "the data set", False)
    A.heap[ds, "data"], A.heap[ds, "mask"] = leaf["repeated responses"], leaf["repeated mask"]
    A.fields["optimizer"] = T("obj", "torch.optim.Adam", "its optimiser", False)
    want = []
    for i in range(w.n):
        want.append(C.log(C.total([C.exp(C.add(lw[q], C.total(observed(w, i, tuple(pts[q]))))) for q in range(Q)])))
    verify(ctx, "loss", A, "_train_step", {"model": A.M, "train_data": ds, "latent_grid": leaf["grid"], "log_weights": leaf["log weights"], "number_of_weights": const(Q)}, C.neg(C.total(want)),
           f"{w.label}: loss of MML, missing responses coded {cname}")


class Repeated(Training):
    def __init__(self, world, lib, data):
        Hooks.__init__(self, world, lib)
        self.d = data


# ---------------------------------------------------------------------------------------------------------------- latent scores
def scores(ctx):
    for w in WORLDS:
        for name in ("_initial_theta_from_training_data", "_eap_theta_scores"):
            outs, f = [], None
            for cname, code in CODES:
                A = Abstract(ctx.lib, variant(w, code), ctx.lib.p.cls("Evaluator").qual)
                f = A.find(name, "model")
                if f is None:
                    break
                args = {"data": A.data, "device": const("cpu"), "grid_points": const(2)}
                outs.append((cname, outcome(A, c32.Spec(name, None, on="model", args=lambda A: args), {})))
            if f is None:
                continue
            who = f"{w.label}: {name}"
            if both(ctx, "scores", f, who, outs):
                compare(ctx, "scores", f, who, outs[0][1][0], start(w) if name.startswith("_initial") else posterior(w, 2))


def start(w):
    """the latent scores of the training data under which the observed responses are most likely"""
    out = []
    for i in range(w.n):
        a = C.atom("arg", 1, tuple(C.total([C.log(w.prob(w.key(w.theta, k), j)[w.x(i, j)]) for j in range(w.J) if not w.missing(i, j)]) for k in range(w.n)))
        out += [C.atom("pick", a, tuple(w.key(w.theta, k)[v] for k in range(w.n))) for v in range(w.L)]
    return Arr((w.n, w.L), out)


def posterior(w, points, axes=None, cov=None):
    """posterior means over the grid that covers the latent scores of the training data (or the one given, with its prior covariance)"""
    cols = [[w.key(w.theta, i)[v] for i in range(w.n)] for v in range(w.L)]
    given, axes = axes, []
    for c in cols:
        lo, hi = min(c), max(c)
        d = (hi - lo) / 4
        axes.append([lo - d + (hi - lo + 2 * d) * k / (points - 1) for k in range(points)])
    axes = given or axes
    m = [sum(c) / w.n for c in cols]
    cov = cov or Arr((w.L, w.L), [sum((x - m[p]) * (y - m[q]) for x, y in zip(cols[p], cols[q])) / F(w.n - 1) for p in range(w.L) for q in range(w.L)])
    grid = list(itertools.product(*axes))
    prior = MultivariateNormal(Eval(None, {}), Arr((w.L,), [0] * w.L), cov).d_log_prob(Arr((len(grid), w.L), [c for g in grid for c in g])).c
    out = []
    for i in range(w.n):
        ps = [C.exp(C.add(prior[k], C.total(observed(w, i, tuple(g))))) if any(not w.missing(i, j) for j in range(w.J)) else C.exp(prior[k]) for k, g in enumerate(grid)]
        s = C.inv(C.total(ps))
        out += [C.mul(s, C.total([C.mul(p, g[v]) for p, g in zip(ps, grid)])) for v in range(w.L)]
    return Arr((w.n, w.L), out)


# ---------------------------------------------------------------------------------------------------------------- constructors and the data set
def defaults(f):
    return {n: Abstract.default(None, f, n) for n in f.defaults}


def constructors(ctx):
    """item categories counted from responses are the same for both codings"""
    lib = ctx.lib
    for q in lib.concrete("BaseIRTModel"):
        f = lib.p.find_method(q, "__init__")
        names = f.posnames + f.kwonly
        if "data" not in names or "item_categories" not in names:
            continue
        for n, d in enumerate((D1, D3)):
            outs = []
            for cname, code in CODES:
                data = T("leaf", "responses", arr(d).shape)
                env = {data: coded(d, code)}
                pre = {"latent_variables": const(1), **defaults(f), "data": data}
                if "correct_response_model" in names:
                    continue
                try:
                    inst = Instance(lib, q, pre, env=env)
                    t = inst.heap.get((inst.obj, "item_categories"))
                    if t is None:
                        raise Unknown("no item categories")
                    outs.append((cname, (inst.ev(t), None, None)))
                except Illshaped as u:
                    outs.append((cname, (None, str(u), None)))
                except (Unknown, KeyError) as u:
                    outs.append((cname, (None, None, str(u))))
            if not outs:
                continue
            who = f"item categories of {q.rsplit('.', 1)[-1]} from responses {n + 1}"
            if both(ctx, "categories", f, who, outs):
                got = arr(outs[0][1][0])
                want = c32.s_categories(arr(d))
                compare(ctx, "categories", f, who, got, want)


def dataset(ctx):
    """the mask and the responses of a data set are those of the responses it is given, also when its input is imputed"""
    lib = ctx.lib
    c = lib.p.cls("PytorchIRTDataset")
    if c is None:
        return
    f = lib.p.find_method(c.qual, "__init__")
    for cname, code in CODES + MIXED:
        for d in (D1, D3):
            for how in (None, "zero", "mean"):
                data = T("leaf", "responses", arr(d).shape)
                x = coded(d, code)
                who = f"data set of {x.shape[1]} items with missing responses coded {cname}" + (f" and {how} imputation" if how else "")
                try:
                    inst = Instance(lib, c.qual, {**defaults(f), "data": data, "imputation_method": const(how)}, env={data: x})
                    at = T("leaf", "positions", (2,))
                    r, e = inst.method("__getitem__", {"index": at}, env={data: x, at: Arr((2,), [2, 0])})
                    got = e(r.value)
                    if not isinstance(got, (tuple, list)) or len(got) < 2:
                        raise Unknown("item")
                    xs = c32.rows(x)
                    m = [[c2 != c2 or c2 == -1 for c2 in row] for row in xs]
                    seen = arr(got[0])
                    # responses that the mask leaves out can have any value
                    seen = Arr(seen.shape, [0 if z else y for y, z in zip(seen.c, m[2] + m[0])]) if len(seen.c) == 2 * x.shape[1] else seen
                    compare(ctx, "dataset", f, f"{who}: responses", seen, [[0 if z else y for y, z in zip(xs[k], m[k])] for k in (2, 0)])
                    compare(ctx, "dataset", f, f"{who}: mask", arr(got[1]), [m[2], m[0]])
                except Illshaped as u:
                    ctx.bad("dataset", f.qual, f"{who}: {u}", f.module.path, f.node.lineno)
                except (Unknown, KeyError) as u:
                    ctx.unknown("dataset", f"{who}: {u}")


# ---------------------------------------------------------------------------------------------------------------- call sites
def sites(ctx):
    """likelihoods of responses in the library are computed with their missing mask"""
    lib = ctx.lib
    family = {q for q, f in lib.p.functions.items() if f.name == "log_likelihood" and f.cls is not None and lib.p.is_subclass(f.cls.qual, lib.p.cls("BaseIRTModel").qual)}
    masks = {q for q, f in lib.p.functions.items() if f.name in ("get_missing_mask", "impute_missing_internal", "impute_missing")}
    opaque = tuple(sorted(family | masks))
    for q, f in sorted(lib.p.functions.items()):
        if q in family or not any(isinstance(n, ast.Attribute) and n.attr == "log_likelihood" for n in ast.walk(f.node)):
            continue
        r = lib.run(f, opaque=opaque, key="C03 sites")
        if r is None:
            ctx.unknown("call sites", f.qual)
            continue
        seen = {}
        for e in r.events:
            if e.kind in ("vcall", "rcall") and isinstance(e.data, tuple) and len(e.stack) == 1:
                b = e.data[3] if e.kind == "vcall" else e.data[2]
                name = e.data[1] if e.kind == "vcall" else e.data[0]
                if str(name).rsplit(".", 1)[-1] == "log_likelihood" and "output" in dict(b):
                    seen.setdefault(e.line, []).append(site(dict(b), masks))
        for line, vs in sorted(seen.items()):
            who = f"{f.qual}: likelihood {sorted(seen).index(line) + 1} of {len(seen)}"
            if any(vs):
                ctx.bad("call sites", f.qual, f"{who}: {[v for v in vs if v][0]}", f.module.path, line)
            elif None in vs:
                ctx.unknown("call sites", who)
            else:
                ctx.ok("call sites", who)


FILLED = ("nan_to_num", "multinomial", "randint", "sample", "impute_missing_internal", "impute_missing", "where", "masked_fill", "masked_fill_")


def site(b, masks):
    """'' when the missing mask of a likelihood covers the responses, a sentence when it does not, None when this is not decided"""
    mask, data = b.get("missing_mask"), b.get("data")
    ds = list(walk(data)) if data is not None else []
    filled = any(last(t) in FILLED or t.op == "setitem" for t in ds)
    if mask is None or is_const(mask, None):
        return None if filled else "the likelihood of responses is computed without their missing mask"
    if mask.op == "phi" and any(is_const(x, None) for x in mask.args[1:3]):
        # left out on a condition: one that only asks for responses of one coding lets the other pass
        c = covers([mask.args[0]])
        return "the missing mask of a likelihood is left out when no response is coded " + ("NaN" if c[0] else "-1") if sum(c) == 1 and not filled else None
    nan, minus1 = covers([mask])
    if nan and minus1:
        return ""
    if (nan or minus1) and not filled:
        return "the missing mask of a likelihood leaves out the responses that are coded " + ("-1" if nan else "NaN")
    return None


def covers(ts):
    """(NaN, -1): the codings that a mask or a condition asks for"""
    nan = minus1 = False
    todo, seen = list(ts), set()
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if last(t) == "get_missing_mask" or t.op == "elem" or t.op == "attr" and t.args[1] in ("mask", "missing_mask") or t.op == "param" and "mask" in str(t.args[0]):
            nan = minus1 = True
        elif last(t) == "isnan" or t.op == "cmp" and t.args[0] == "!=" and t.args[1] is t.args[2]:
            nan = True
        elif t.op in ("cmp", "bin") and len(t.args) > 2 and any(is_const(x, -1) or is_const(x, -1.0) or is_const(x, 0) for x in t.args[1:3]):
            minus1 = True
        else:
            todo += children(t)
    return nan, minus1


def last(t):
    if t.op in ("vcall", "rcall", "call", "meth"):
        n = t.args[1] if t.op == "vcall" else t.args[0]
        return str(n).rsplit(".", 1)[-1]
    return ""
