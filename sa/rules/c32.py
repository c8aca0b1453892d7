"""C32: quantities derived from response probabilities are what they are documented to be."""
import math
from fractions import Fraction as F

from .. import cells as C
from ..abst import Frame, Unknown, arr, value
from ..cells import Arr, Illshaped, Poly
from ..stats import NAN, Abstract, World, lst, points
from ..terms import T, const

N = NAN
TH2 = [[F(3, 10), F(1)], [F(-1), F(2)], [F(1, 2), F(-3, 2)], [F(0), F(1, 4)], [F(2), F(0)]]
TH1 = [[F(3, 10)], [F(-1)], [F(1, 2)], [F(0)]]
WORLDS = [
    World("5 respondents, 2 items with missing responses", [3, 2], [[2, 1], [N, 0], [1, -1], [0, 1], [-1, N]], TH2),
    World("4 respondents, 3 items", [2, 4, 3], [[0, 3, 2], [1, 0, 0], [1, 1, 2], [0, 3, 1]], TH1),
    World("5 respondents, 3 items with missing responses", [2, 3, 3], [[1, N, 0], [0, 2, N], [-1, 1, 1], [1, 2, 1], [0, 0, 2]], [[F(k, 3)] for k in (2, -1, 4, 0, -5)], scale=True),
    World("5 respondents, 2 multiple choice items with missing responses", [3, 4], [[1, 2], [N, 0], [2, -1], [0, 2], [1, 3]], TH2, mc=[1, 2], scale=True),
    World("4 respondents, 2 items on a transformed scale", [2, 3], [[0, 2], [1, N], [1, 0], [0, 1]], TH2[:4], scale=True),
]


def check(ctx):
    for w in WORLDS:
        for S in SPECS:
            for pre in S.options:
                one(ctx, w, S, pre)
            if S.on == "" and S.args is DATA_THETA:
                # latent scores and responses that are not given are those of the fitted model
                for lab, args in (("scores left out", lambda A: {"data": A.data}), ("nothing given", lambda A: {})):
                    one(ctx, w, S, S.options[0], args, lab)
    library(ctx)
    outliers(ctx)
    ctx.floor("statistic", 30)


def label(S, pre):
    return f"{S.name}({', '.join(f'{k}={v}' for k, v in pre.items())})"


def term(v):
    return lst(v) if isinstance(v, list) else const(v)


def one(ctx, w, S, pre, args=None, lab=""):
    want = S.spec(w, **pre)
    if want is None:
        return
    A = Abstract(ctx.lib, w, ctx.lib.p.cls("Evaluator").qual)
    f = A.find(S.name, S.on)
    who = f"{w.label}: {label(S, pre)}" + (f", {lab}" if lab else "")
    if f is None:
        return
    got, ill = outcome(A, S, pre, args)
    if got is None:
        if ill:
            ctx.bad("statistic", f.qual, f"{who}: {ill}", f.module.path, f.node.lineno)
        else:
            ctx.unknown("statistic", f"{who}: {A.why}")
        return
    compare(ctx, "statistic", f, who, got, want, S.near)


def outcome(A, S, pre, args=None):
    A.why = None
    try:
        r, e = A.run(S.name, {**(args or S.args)(A), **{k: term(v) for k, v in pre.items()}}, S.on)
        A.result = r
        if r.value is None or r.state is None and not r.rets:
            raise Unknown("no value")
        return e(r.value), None
    except Illshaped as u:
        return None, str(u)
    except Unknown as u:
        A.why = str(u)
        return None, None


def compare(ctx, rule, f, who, got, want, near=1e-6):
    """every cell of the result is the cell of the definition"""
    if isinstance(want, tuple):
        got = list(got) if isinstance(got, tuple) else [got]
        if len(got) < len(want):
            ctx.bad(rule, f.qual, f"{who}: {len(got)} results instead of {len(want)}", f.module.path, f.node.lineno)
            return
        for i, (g, x) in enumerate(zip(got, want)):
            if x is not None:
                compare(ctx, rule, f, f"{who}, result {i + 1}", g, x, near)
        return
    if isinstance(want, dict):
        if not isinstance(got, Frame):
            ctx.unknown(rule, f"{who}: not a table")
            return
        for name, xs in want.items():
            if name not in got.cols:
                ctx.bad(rule, f.qual, f"{who}: the table has no column {name}", f.module.path, f.node.lineno)
            else:
                compare(ctx, rule, f, f"{who}, column {name}", arr(got.column(name)), xs, near)
        return
    if isinstance(got, Frame):
        got = got.x
    try:
        got = arr(got)
    except (Unknown, TypeError):
        ctx.unknown(rule, f"{who}: not a tensor")
        return
    alts = want if isinstance(want, Either) else [want]
    alts = [arr(x) for x in alts]
    if got.shape != alts[0].shape:
        ctx.bad(rule, f.qual, f"{who}: the result has shape {got.shape}, the definition gives {alts[0].shape}", f.module.path, f.node.lineno)
        return
    unknown = None
    for i, g in enumerate(got.c):
        rs = [differ(g, a.c[i], near) for a in alts]
        if any(r is None for r in rs):
            unknown = f"cell {i}: {C.text(g, 2)[:80]}"
        elif all(rs):
            pos = []
            k = i
            for s in reversed(got.shape):
                k, m = divmod(k, s)
                pos.insert(0, m)
            ctx.bad(rule, f.qual, f"{who}: entry {pos} is {rs[0][0]} where the definition gives {rs[0][1]}", f.module.path, f.node.lineno)
            return
    if unknown:
        ctx.unknown(rule, f"{who}: {unknown}")
    else:
        ctx.ok(rule, who)


class Either(list):
    """any of several definitions"""


def shown(c):
    return "NaN" if isinstance(c, float) and c != c else C.text(c, 2)[:60]


def differ(g, x, near):
    """False: equal; (got, want): different; None: not decided"""
    if g is None or x is None:
        return None
    if C.special(g) or C.special(x):
        if C.special(g) and C.special(x):
            return False if g == x or g != g and x != x else (shown(g), shown(x))
        # a value that is 0/0 at no point of the domain is a number
        return (shown(g), shown(x))
    d = C.add(g, C.neg(x))
    if not isinstance(d, Poly):
        return False if abs(d) <= near else (shown(g), shown(x))
    n = 0
    for at in points([g, x], 48):
        try:
            u, v = value(g, at), value(x, at)
        except (Unknown, ValueError, ZeroDivisionError, OverflowError):
            continue
        if u != u or v != v:
            continue
        n += 1
        if n > 24:
            break
        if abs(u - v) > max(near, 1e-9) * (1 + abs(v)):
            return (f"{u:.4g}", f"{v:.4g}")
    return False if n >= 6 else None


# ---------------------------------------------------------------------------------------------------------------- definitions
def DATA_THETA(A):
    return {"data": A.data, "theta": A.theta}


class Spec:
    def __init__(self, name, spec, options=({},), on="", args=None, near=1e-6):
        self.name, self.spec, self.options, self.on, self.near = name, spec, options, on, near
        self.args = args or DATA_THETA


def grid(**kw):
    out = [{}]
    for k, vs in kw.items():
        out = [{**o, k: v} for o in out for v in vs]
    return out


def mean(xs):
    xs = [x for x in xs if not (isinstance(x, float) and x != x)]
    return C.mul(C.total(xs), F(1, len(xs))) if xs else N


def total(xs):
    return C.total([x for x in xs if not (isinstance(x, float) and x != x)])


def minus(a, b):
    return C.add(a, C.neg(b))


def cells(w, f):
    """a value for every observed response, NaN for the others"""
    return [[N if w.missing(i, j) else f(i, j) for j in range(w.J)] for i in range(w.n)]


def over(m, how, f=mean):
    """aggregated over everything, respondents (one value per item) or items (one value per respondent)"""
    if how == "everything":
        return f([c for r in m for c in r])
    if how == "respondents":
        return [f([r[j] for r in m]) for j in range(len(m[0]))]
    if how == "items":
        return [f(r) for r in m]
    return m


def residual(w):
    if w.mc is not None:
        return cells(w, lambda i, j: minus(1, w.P(i, j)[w.x(i, j)]))
    return cells(w, lambda i, j: minus(w.x(i, j), w.E(i, j)))


def residuals(w, average_over="none"):
    return over(residual(w), average_over)


LEVEL = {"all": "everything", "item": "respondents", "respondent": "items"}


def best(ps, k):
    return C.atom("arg", 1, tuple(ps))


def eq(a, b):
    from ..abst import cmp_cell
    return cmp_cell("==", a, b)


def accuracy(w, level="all"):
    return over(cells(w, lambda i, j: eq(best(w.P(i, j), w.cats[j]), w.x(i, j))), LEVEL[level])


def predictions(w):
    out = {k: [] for k in ("precision", "recall", "f1", "w_precision", "w_recall", "w_f1")}
    for j in range(w.J):
        rows = [i for i in range(w.n) if not w.missing(i, j)]
        acc = {k: 0 for k in out}
        for k in range(w.cats[j]):
            pred = {i: eq(best(w.P(i, j), w.cats[j]), k) for i in rows}
            tp = C.total([pred[i] for i in rows if w.x(i, j) == k])
            fp = C.total([pred[i] for i in rows if w.x(i, j) != k])
            fn = C.total([minus(1, pred[i]) for i in rows if w.x(i, j) == k])
            weight = F(sum(w.x(i, j) == k for i in rows), len(rows))
            none = eq(tp, 0)
            some = minus(1, none) if isinstance(none, Poly) else 0 if none else 1
            safe = lambda a, b: C.mul(some, C.div(a, b)) if isinstance(some, Poly) else (0 if some == 0 else C.div(a, b))
            p, r = safe(tp, C.add(tp, fp)), safe(tp, C.add(tp, fn))
            f1 = safe(C.mul(2, tp), C.total([tp, fp, tp, fn]))
            for n, v in (("precision", p), ("recall", r), ("f1", f1)):
                acc[n] = C.add(acc[n], C.mul(v, F(1, w.cats[j])))
                acc["w_" + n] = C.add(acc["w_" + n], C.mul(v, weight))
        for k in out:
            out[k].append(acc[k])
    return out


def infit_outfit(w, level="item"):
    def W(i, j):
        if w.mc is not None:
            return C.mul(w.E(i, j), minus(1, w.E(i, j)))
        return C.total([C.mul(C.power(minus(x, w.E(i, j)), 2), p) for x, p in enumerate(w.P(i, j))])
    sq = cells(w, lambda i, j: C.power(minus(w.O(i, j), w.E(i, j)), 2))
    var = cells(w, W)
    ratio = cells(w, lambda i, j: C.div(sq[i][j], var[i][j]))
    a = over(sq, LEVEL[level], total)
    b = over(var, LEVEL[level], total)
    infit = [C.div(x, y) if not (isinstance(y, int) and y == 0) else N for x, y in zip(a, b)]
    return infit, over(ratio, LEVEL[level])


def log_likelihood(w, reduction="sum", level="all"):
    m = cells(w, w.ll)
    if reduction == "none":
        return m
    return over(m, LEVEL[level], total if reduction == "sum" else mean)


def groups_of(w, latent_variable, groups, moved=False):
    """respondents in the order of a latent variable, in groups of equal size, the larger ones first"""
    at = lambda i: (w.moved(i) if moved else w.key(w.theta, i))[latent_variable - 1]
    order = sorted(range(w.n), key=at)
    size = -(-w.n // groups)
    return [order[s:s + size] for s in range(0, w.n, size)], at


def even(w, groups):
    return -(-w.n // (-(-w.n // groups))) == groups and w.n - (groups - 1) * -(-w.n // groups) >= -(-w.n // groups) - 1


def group_fit_log_likelihood(w, groups=2, latent_variable=1):
    if latent_variable > w.L or not even(w, groups):
        return None
    gs, _ = groups_of(w, latent_variable, groups)
    m = cells(w, w.ll)
    return [mean([total(m[i]) for i in g]) for g in gs]


def group_data(w, gs):
    out = []
    for g in gs:
        rows = []
        for j in range(w.J):
            seen = [w.x(i, j) for i in g if not w.missing(i, j)]
            rows.append([F(seen.count(k), len(seen)) if seen else N for k in range(w.K)])
        out.append(rows)
    return out


def group_model(w, gs):
    return [[[mean([w.P(i, j)[k] for i in g]) for k in range(w.K)] for j in range(w.J)] for g in gs]


def latent_group_probabilities(w, groups=2, latent_variable=1, rescale=True):
    if latent_variable > w.L or not even(w, groups):
        return None
    gs, at = groups_of(w, latent_variable, groups, rescale and w.scale)
    mid = Either([[F(sum(at(i) for i in g)) / len(g) for g in gs], [sorted(at(i) for i in g)[(len(g) - 1) // 2] for g in gs]])
    return group_data(w, gs), group_model(w, gs), mid


def group_fit_residuals(w, groups=2, latent_variable=1, rescale=True, standardize=True):
    if latent_variable > w.L or not even(w, groups):
        return None
    gs, at = groups_of(w, latent_variable, groups, rescale and w.scale)
    d, m = group_data(w, gs), group_model(w, gs)
    out = []
    for g, dg, mg in zip(gs, d, m):
        rows = []
        for j in range(w.J):
            n = sum(not w.missing(i, j) for i in g)
            row = []
            for k in range(w.K):
                if k >= w.cats[j] or n == 0:
                    row.append(N)
                    continue
                r = minus(dg[j][k], mg[j][k])
                if standardize:
                    r = C.div(r, C.fn("sqrt", C.mul(C.mul(mg[j][k], minus(1, mg[j][k])), F(1, n))))
                row.append(r)
            rows.append(row)
        out.append(rows)
    return (out, None)


def entropy(ps, base):
    """with the library's guard against logarithms of 0"""
    return C.mul(C.total([C.mul(p, C.neg(C.log(C.add(p, 1e-10)))) if isinstance(p, Poly) else (-float(p) * math.log(p) if p else 0.0) for p in ps]), 1 / math.log(base))


def mutual_information_difference(w, log_base=2.0):
    J, K = w.J, w.K
    pair = {}
    for i in range(J):
        for j in range(J):
            rows = [r for r in range(w.n) if not w.missing(r, i) and not w.missing(r, j)]
            if len(rows) < 2:
                return None
            xs = [(w.x(r, i), w.x(r, j)) for r in rows]
            pair[i, j] = entropy([F(xs.count(c), len(xs)) for c in sorted(set(xs))], log_base)
    single = {}
    joint = {}
    for i in range(J):
        single[i] = entropy([mean([w.P(r, i)[k] for r in range(w.n)]) for k in range(K)], log_base)
        for j in range(J):
            joint[i, j] = entropy([mean([C.mul(w.P(r, i)[k], w.P(r, j)[l]) for r in range(w.n)]) for k in range(K) for l in range(K)], log_base)
    mid = [[minus(C.add(C.add(pair[i, i], pair[j, j]), C.neg(pair[i, j])), minus(C.add(single[i], single[j]), joint[i, j])) for j in range(J)] for i in range(J)]
    return (mid, [[C.fn("abs", c) for c in r] for r in mid])


def sum_scores(w, key):
    dist = {0: 1}
    for j in range(w.J):
        ps = w.prob(key, j)
        if w.mc is not None:
            ps = [minus(1, ps[w.mc[j]]), ps[w.mc[j]]]
        new = {}
        for s, p in dist.items():
            for x, q in enumerate(ps[:2 if w.mc is not None else w.cats[j]]):
                new[s + x] = C.add(new.get(s + x, 0), C.mul(p, q))
        dist = new
    return [dist[s] for s in sorted(dist)]


def sum_score_probabilities(w, latent_density_method="data"):
    ds = [sum_scores(w, w.key(w.theta, i)) for i in range(w.n)]
    return [mean([d[s] for d in ds]) for s in range(len(ds[0]))]


def q3(w):
    m = residual(w)
    out = []
    for i in range(w.J):
        row = []
        for j in range(w.J):
            rs = [r for r in m if all(not (isinstance(c, float) and c != c) for c in (r[i], r[j]))]
            if i == j:
                row.append(N)
            elif i > j:
                row.append(out[j][i])
            elif len(rs) < 2:
                row.append(0)
            else:
                mi, mj = mean([r[i] for r in rs]), mean([r[j] for r in rs])
                a, b = [minus(r[i], mi) for r in rs], [minus(r[j], mj) for r in rs]
                s = lambda u, v: C.total([C.mul(x, y) for x, y in zip(u, v)])
                row.append(C.div(s(a, b), C.mul(C.fn("sqrt", s(a, a)), C.fn("sqrt", s(b, b)))))
        out.append(row)
    return (out,)


def observed(w):
    rows = []
    for j in range(w.J):
        seen = [w.x(i, j) for i in range(w.n) if not w.missing(i, j)]
        rows.append([F(seen.count(k), len(seen)) for k in range(w.K)])
    return rows


def item_probabilities(w):
    return [[w.P(i, j) for j in range(w.J)] for i in range(w.n)]


def expected_scores(w, return_item_scores=True):
    m = [[w.E(i, j) for j in range(w.J)] for i in range(w.n)]
    return m if return_item_scores else [C.total(r) for r in m]


def information(w, item=True, degrees=None, rescale=True):
    if degrees is not None and len(degrees) != w.L or degrees is not None and w.L == 1:
        return None
    how = "moved" if rescale and w.scale else "plain"
    out = []
    for i in range(w.n):
        key, items = w.key(w.theta, i), []
        for j in range(w.J):
            ps = w.prob(key, j)
            g = [[w.grad(how, key, j, k, v) for v in range(w.L)] for k in range(w.cats[j])]
            m = [[C.total([C.div(C.mul(g[k][a], g[k][b]), ps[k]) for k in range(w.cats[j])]) for b in range(w.L)] for a in range(w.L)]
            if degrees is not None:
                cs = [math.cos(math.radians(d)) for d in degrees]
                m = C.total([C.mul(cs[a] * cs[b], m[a][b]) for a in range(w.L) for b in range(w.L)])
            items.append(m)
        if item:
            out.append(items)
        elif degrees is not None:
            out.append(C.total(items))
        else:
            out.append([[C.total([m[a][b] for m in items]) for b in range(w.L)] for a in range(w.L)])
    return out


def slopes(w, how, key, j):
    """slopes of the expected score of an item"""
    if w.mc is not None:
        return [w.grad(how, key, j, w.mc[j], v) for v in range(w.L)]
    return [C.total([C.mul(x, w.grad(how, key, j, x, v)) for x in range(w.cats[j])]) for v in range(w.L)]


def population_difficulty(w):
    return [mean([minus(1, w.E(i, j) if w.mc is not None else C.mul(w.E(i, j), F(1, w.cats[j] - 1))) for i in range(w.n)]) for j in range(w.J)]


def population_discrimination(w, rescale=True):
    how = "moved" if rescale and w.scale else "plain"
    return [[mean([C.mul(slopes(w, how, w.key(w.theta, i), j)[v], 1 if w.mc is not None else F(1, w.cats[j] - 1)) for i in range(w.n)]) for v in range(w.L)] for j in range(w.J)]


def given(A, *shape):
    t = T("leaf", "gradients", shape)
    A.env[t] = free(*shape, name="g")
    return {"gradients": t, "theta": A.theta}


def rescaled(trail):
    """solutions of (transposed Jacobian) x = (gradient), one for every gradient of a respondent"""
    def f(w):
        g = free(w.n, *trail, w.L, name="g")
        per = math.prod(trail)
        out = []
        for i in range(w.n):
            key = w.key(w.theta, i)
            J = [[C.atom("out", "jacobian", key, u, v) for v in range(w.L)] for u in range(w.L)]
            for z in range(per):
                b = g.c[(i * per + z) * w.L:(i * per + z + 1) * w.L]
                if w.L == 1:
                    out.append(C.div(b[0], J[0][0]))
                else:
                    det = minus(C.mul(J[0][0], J[1][1]), C.mul(J[0][1], J[1][0]))
                    # columns of the transposed Jacobian
                    out.append(C.div(minus(C.mul(b[0], J[1][1]), C.mul(J[1][0], b[1])), det))
                    out.append(C.div(minus(C.mul(J[0][0], b[1]), C.mul(b[0], J[0][1])), det))
        return Arr((w.n, *trail, w.L), out)
    return Spec("_rescale_gradients", f, on="model", args=lambda A: given(A, A.w.n, *trail, A.w.L))


SPECS = [
    Spec("population_difficulty", population_difficulty, on="model"),
    Spec("population_discrimination", population_discrimination, grid(rescale=[True, False]), on="model"),
    rescaled((2,)),
    rescaled((2, 3)),
    Spec("residuals", residuals, grid(average_over=["none", "items", "respondents", "everything"])),
    Spec("accuracy", accuracy, grid(level=["all", "item", "respondent"])),
    Spec("predictions", predictions),
    Spec("infit_outfit", infit_outfit, grid(level=["item", "respondent"])),
    Spec("log_likelihood", log_likelihood, grid(reduction=["sum", "mean", "none"], level=["all", "item", "respondent"])),
    Spec("group_fit_log_likelihood", group_fit_log_likelihood, grid(groups=[1, 2], latent_variable=[1, 2])),
    Spec("latent_group_probabilities", latent_group_probabilities, grid(groups=[1, 2], latent_variable=[1, 2], rescale=[True, False])),
    Spec("group_fit_residuals", group_fit_residuals, grid(groups=[1, 2], latent_variable=[1, 2], rescale=[True, False], standardize=[True, False])),
    Spec("mutual_information_difference", mutual_information_difference, grid(log_base=[2.0, 10.0]), near=1e-5),
    Spec("sum_score_probabilities", sum_score_probabilities),
    Spec("q3", q3),
    Spec("_observed_item_score_proportions", observed, args=lambda A: {"data": A.data}),
    Spec("item_probabilities", item_probabilities, on="model"),
    Spec("expected_scores", expected_scores, grid(return_item_scores=[True, False]), on="model"),
    Spec("information", information, grid(item=[True, False], degrees=[None, [30, 60]], rescale=[True, False]), on="model"),
]


# ---------------------------------------------------------------------------------------------------------------- library functions
def free(*shape, name="v"):
    """a tensor of free cells and the term that stands for it"""
    n = math.prod(shape)
    a = Arr(shape, [C.atom("out", name, k) for k in range(n)])
    return a


def law(*shape, name="v"):
    """free probabilities: the last dimension adds up to 1"""
    out = []
    for r in range(math.prod(shape[:-1])):
        ps = [C.atom("prob", ((name, r),), 0, k) for k in range(shape[-1] - 1)]
        last = 1
        for p in ps:
            last = C.add(last, C.neg(p))
        out += ps + [last]
    return Arr(shape, out)


def rows(a):
    a = arr(a)
    k = a.shape[1]
    return [a.c[i * k:(i + 1) * k] for i in range(a.shape[0])]


def s_sum_score(data, mc_correct=None):
    if mc_correct is None:
        return [C.total([0 if gone(c) else c for c in r]) for r in rows(data)]
    return [sum(c == m for c, m in zip(r, mc_correct)) for r in rows(data)]


def gone(c):
    return not isinstance(c, Poly) and (c != c or c == -1)


def s_mask(data):
    return [[gone(c) for c in r] for r in rows(data)]


def s_one_hot(data, item_categories):
    return [[1 if c == k else 0 for c, n in zip(r, item_categories) for k in range(n)] for r in rows(data)]


def s_categories(data):
    return [max(int(r[j]) for r in rows(data) if not gone(r[j])) + 1 for j in range(arr(data).shape[1])]


def s_entropy(probabilities, log_base=2.0):
    p = arr(probabilities)
    k = p.shape[-1]
    x = [entropy(p.c[i:i + k], log_base) for i in range(0, len(p.c), k)]
    return Arr(p.shape[:-1], x)


def s_joint(data, log_base=2.0):
    rs = rows(data)
    J = len(rs[0])
    out = []
    for i in range(J):
        row = []
        for j in range(J):
            xs = [(r[i], r[j]) for r in rs if not gone(r[i]) and not gone(r[j])]
            row.append(entropy([F(xs.count(c), len(xs)) for c in sorted(set(xs))], log_base))
        out.append(row)
    return out


def s_correlations(x):
    rs = rows(x)
    J = len(rs[0])
    out = []
    for i in range(J):
        row = []
        for j in range(J):
            ok = [r for r in rs if not gone(r[i]) and not gone(r[j])]
            if i == j:
                row.append(1)
            elif len(ok) < 2:
                row.append(0)
            else:
                a, b = [minus(r[i], mean([q[i] for q in ok])) for r in ok], [minus(r[j], mean([q[j] for q in ok])) for r in ok]
                s = lambda u, v: C.total([C.mul(p, q) for p, q in zip(u, v)])
                row.append(C.div(s(a, b), C.fn("sqrt", C.mul(s(a, a), s(b, b)))))
        out.append(row)
    return out


def s_distribution(probabilities, item_categories):
    p = arr(probabilities)
    n, J, K = p.shape
    out = []
    for i in range(n):
        d = {0: 1}
        for j in range(J):
            new = {}
            for s, q in d.items():
                for x in range(item_categories[j]):
                    new[s + x] = C.add(new.get(s + x, 0), C.mul(q, p.c[(i * J + j) * K + x]))
            d = new
        out.append([d[s] for s in sorted(d)])
    return out


def s_incorrect(probabilities, item_responses, mc_correct):
    p = arr(probabilities)
    n, J, K = p.shape
    out = []
    for i in range(n):
        out.append([[C.total([p.c[(i * J + j) * K + x] for x in range(K) if x != mc_correct[j]]), p.c[(i * J + j) * K + mc_correct[j]]] for j in range(J)])
    return out


def s_regression(x, y):
    """least squares with one predictor"""
    xs, ys = [r[0] for r in rows(x)], [r[0] for r in rows(y)]
    n = len(xs)
    sx, sy = C.total(xs), C.total(ys)
    sxx, sxy = C.total([C.mul(a, a) for a in xs]), C.total([C.mul(a, b) for a, b in zip(xs, ys)])
    det = minus(C.mul(n, sxx), C.mul(sx, sx))
    b = C.div(minus(C.mul(n, sxy), C.mul(sx, sy)), det)
    return [[C.mul(minus(sy, C.mul(b, sx)), F(1, n))], [b]]


def s_interp(x_new, x, y):
    """straight lines between neighbouring points, continued at both ends"""
    y = arr(y)
    ps = sorted(zip(x, y.c))
    out = []
    for z in x_new:
        i = max([k for k in range(len(ps) - 1) if ps[k][0] < z], default=0)
        (a, u), (b, v) = ps[i], ps[i + 1]
        t = F(z - a) / F(b - a)
        out.append(C.add(C.mul(1 - t, u), C.mul(t, v)))
    return out


def s_quantiles(tensor):
    """the normal quantile of rank / (n + 1), column by column"""
    from statistics import NormalDist
    a = rows(tensor)
    n = len(a)
    return [[NormalDist().inv_cdf((1 + sum(r[j] < a[i][j] for r in a)) / (n + 1)) for j in range(len(a[0]))] for i in range(n)]


D1 = [[2, 1], [N, 0], [1, -1], [0, 1], [1, N]]
D2 = [[0, 3, 2], [1, 0, 0], [1, 1, 2], [0, 3, 1]]
D3 = [[1, N, 0], [0, 2, N], [-1, 1, 1], [1, 2, 1], [0, 0, 2]]
X1 = [[1, 2, 0], [2, -3, 1], [4, 1, 5]]
LIBRARY = [
    ("sum_score", s_sum_score, [{"data": D1}, {"data": D2}, {"data": D1, "mc_correct": [1, 0]}, {"data": D3, "mc_correct": [0, 2, 1]}, {"data": D3, "mc_correct": [1, 2, 1]}]),
    ("get_missing_mask", s_mask, [{"data": D1}, {"data": D2}]),
    ("one_hot_encode_test_data", s_one_hot, [{"data": D1, "item_categories": [3, 2]}, {"data": D1, "item_categories": [4, 3]}, {"data": D2, "item_categories": [2, 4, 3]}]),
    ("get_item_categories", s_categories, [{"data": D1}, {"data": D2}, {"data": D3}]),
    ("entropy", s_entropy, [{"probabilities": (law, 2, 3)}, {"probabilities": (law, 2, 2, 4), "log_base": 10.0}]),
    ("joint_entropy_matrix", s_joint, [{"data": D2}, {"data": D3}, {"data": D3, "log_base": 3.0}]),
    ("correlation_matrix", s_correlations, [{"x": (free, 4, 2)}, {"x": X1}, {"x": [[1, 2, 0], [N, -3, 1], [4, 1, 5], [2, N, 3], [0, 6, 2]]}, {"x": [[1, N], [2, N], [N, 3], [5, 1]]}]),
    ("conditional_score_distribution", s_distribution, [{"probabilities": (law, 2, 3, 3), "item_categories": [3, 3, 3]}, {"probabilities": (free, 1, 3, 4), "item_categories": [2, 4, 3]}, {"probabilities": (law, 2, 1, 3), "item_categories": [3]}]),
    ("sum_incorrect_probabilities", s_incorrect, [{"probabilities": (law, 2, 3, 3), "item_responses": [3, 3, 3], "mc_correct": [0, 1, 2]}, {"probabilities": (law, 2, 2, 4), "item_responses": [3, 4], "mc_correct": [2, 1]}]),
    ("interp", s_interp, [{"x_new": [F(1, 2), 3, -1, 5, 9], "x": [2, 0, 6, 3], "y": (free, 4)}, {"x_new": [F(5, 2), 1], "x": [1, 2, 4], "y": (free, 3)}, {"x_new": [-3, 7], "x": [4, -1, 1], "y": (free, 3)}, {"x_new": [0, 5, 3], "x": [4, -1, 1], "y": [[2, 7, -3]]}]),
    ("quantile_transform", s_quantiles, [{"tensor": [[1, 5], [4, F(1, 2)], [2, 9], [F(-3), 2]]}]),
    ("linear_regression", s_regression, [{"x": [[1], [2], [4]], "y": (free, 3, 1)}]),
]


def quartiles(xs):
    xs = sorted(xs)
    def at(q):
        p = q * (len(xs) - 1)
        i = int(p)
        return xs[i] + (p - i) * (xs[min(i + 1, len(xs) - 1)] - xs[i])
    return at(F(1, 4)), at(F(3, 4))


def bounds(data, factor):
    out = []
    for j in range(arr(data).shape[1]):
        a, b = quartiles([r[j] for r in rows(data)])
        out.append((a - factor * (b - a), b + factor * (b - a)))
    return out


def outside(x, data, factor, upper, lower):
    bs = bounds(data, factor)
    return [[lower and c < a or upper and c > b for c, (a, b) in zip(r, bs)] for r in rows(x)]


def extremes(data, factor, smallest):
    bs = bounds(data, factor)
    f = min if smallest else max
    return [[f(r[j] for r in rows(data) if a <= r[j] <= b) for j, (a, b) in enumerate(bs)]]


O1 = [[0, 5, -3], [1, 4, 0], [2, 4, 1], [F(3, 2), 4, 2], [40, 5, 1], [1, 6, F(1, 2)], [F(5, 4), -60, -30]]
O2 = [[-50, 4, 0], [F(9, 2), 9, 9], [50, F(13, 2), -9], [0, 5, 1]]


def outliers(ctx):
    """outliers lie further outside the quartiles than the factor times the interquartile range"""
    c = ctx.lib.p.cls("OutlierDetector")
    if c is None:
        return
    for factor in (F(3, 2), 3, 12):
        for up, low in ((True, True), (True, False), (False, True)):
            detector(ctx, c, "identify_outliers", factor, {"upper": up, "lower": low}, {"data": O1}, outside(arr(O1), arr(O1), factor, up, low))
            detector(ctx, c, "is_outlier", factor, {"upper": up, "lower": low}, {"data": O1, "new_observations": O2}, outside(arr(O2), arr(O1), factor, up, low))
        for small in (True, False):
            detector(ctx, c, "smallest_largest_non_outlier", factor, {"smallest": small}, {"data": O1}, extremes(arr(O1), factor, small))


def detector(ctx, c, name, factor, pre, data, want):
    A = Abstract(ctx.lib, WORLDS[0], c.qual)
    A.fields["factor"] = const(float(factor))
    args = {}
    for k, v in data.items():
        t = T("leaf", k, arr(v).shape)
        A.env[t] = arr(v)
        args[k] = t
    f = A.find(name)
    if f is None:
        return
    who = f"{name}({', '.join(f'{k}={v}' for k, v in pre.items())}) with factor {float(factor)}"
    got, ill = outcome(A, Spec(name, None, args=lambda A: args), pre)
    if got is None:
        if ill:
            ctx.bad("outliers", f.qual, f"{who}: {ill}", f.module.path, f.node.lineno)
        else:
            ctx.unknown("outliers", f"{who}: {A.why}")
        return
    compare(ctx, "outliers", f, who, got, want, 1e-5)


def library(ctx):
    from .. import small
    small.vigorish(ctx, "library")
    small.ratio(ctx, "library")
    w = WORLDS[0]
    for name, spec, cases in LIBRARY:
        for n, case in enumerate(cases):
            A = Abstract(ctx.lib, w, ctx.lib.p.cls("Evaluator").qual)
            f = A.find(name, "library")
            if f is None:
                ctx.unknown("library", name)
                continue
            vals, args = {}, {}
            for k, v in case.items():
                if isinstance(v, tuple):
                    v = v[0](*v[1:], name=k)
                elif isinstance(v, list) and v and isinstance(v[0], list):
                    v = arr(v)
                vals[k] = v
                if k == "y" and isinstance(v, Arr) and name == "interp":
                    v = C.reshape(v, (C.size(v.shape),))
                if k in ("x", "x_new") and isinstance(v, list):
                    v = arr(v)
                if isinstance(v, Arr):
                    t = T("leaf", f"{name} {k}", v.shape)
                    A.env[t] = v
                    args[k] = t
                else:
                    args[k] = term(v)
            who = f"{name}, case {n + 1}"
            S = Spec(name, spec, on="library", args=lambda A: args)
            got, ill = outcome(A, S, {})
            if got is None:
                if ill:
                    ctx.bad("library", f.qual, f"{who}: {ill}", f.module.path, f.node.lineno)
                else:
                    ctx.unknown("library", f"{who}: {A.why}")
                continue
            compare(ctx, "library", f, who, got, spec(**vals), 1e-5)
