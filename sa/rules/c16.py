"""C16: cross-validation never validates on data it trained on."""
import random

from .. import cells as C
from ..abst import Eval, Oracle, Sym, Unknown, arr, scalar
from ..cells import Arr
from ..interp import State
from ..stats import Abstract, lst
from ..terms import NONE, T, const, show

FRESH = frozenset({"copy.deepcopy", "copy.copy", "torch.randperm", "numpy.random.permutation"})


class Folds(Eval):
    """data are rows with numbers, random orders are fixed permutations, scores of fitted objects are free"""
    seed = 0

    def renew(self, t, x):
        if x.op == "call" and x.args[0] in ("torch.randperm", "numpy.random.permutation"):
            a, k = self.argvals(x.args[1], x.args[2])
            n = scalar(a[0] if a else k["n"])
            xs = list(range(n))
            random.Random(self.seed * 1000 + t.args[1]).shuffle(xs)
            return arr(xs)
        return super().renew(t, x)

    def c_deepcopy(self, t, a, k):
        return a[0]
    c_copy = c_deepcopy

    def c_DataFrame(self, t, a, k):
        d = k.get("data", a[0] if a else None)
        if isinstance(d, list) and d and all(isinstance(x, dict) for x in d):
            return Records(d)
        return super().c_DataFrame(t, a, k)

    def method(self, t, name, o, args, kw):
        v = self(o)
        if isinstance(v, Records):
            a, k = self.argvals(args, kw)
            if name == "drop" and (k.get("axis") in (1, "columns") or "columns" in k):
                names = k.get("columns", k.get("labels", a[0] if a else None))
                return v.drop(names if isinstance(names, list) else [names])
            if name in ("copy", "reset_index"):
                return v
            raise Unknown(name)
        return super().method(t, name, o, args, kw)

    def c_product(self, t, a, k):
        import itertools
        return list(itertools.product(*[self.iterate(x) for x in a], repeat=k.get("repeat", 1)))

    def t_vcall(self, t, *a):
        return self.hooks(self, t)

    def t_rcall(self, t, *a):
        return self.hooks(self, t)

    def t_inplace(self, t, name, o, args, kw):
        v = self(o)
        if isinstance(v, Records):
            return self.method(t, name, o, args, kw)
        return super().t_inplace(t, name, o, args, kw)


class Records:
    def __init__(self, rows):
        self.rows = rows

    def drop(self, names):
        return Records([{k: v for k, v in r.items() if k not in names} for r in self.rows])


class Unroll(Oracle):
    unroll = True

    def __init__(self, lib, env, seed, hooks=None):
        super().__init__(lib, env)
        self.e = Folds(lib, env)
        self.e.seed, self.e.hooks = seed, hooks


class Setup:
    """one call of a function that splits data, with everything that is fitted in it"""
    def __init__(self, lib, f, cls, presets, env, heap, opaque, seed, score):
        self.lib, self.score = lib, score
        self.serial = {}
        I = lib.interp(frozenset(opaque))
        I.fresh = FRESH
        I.oracle = Unroll(lib, env, seed, self.hook)
        st = State()
        st.heap.update(heap)
        pre = {k: v for k, v in presets.items() if k in f.posnames + f.kwonly}
        for n in f.posnames + f.kwonly:
            if n not in pre and n in f.defaults:
                pre[n] = Abstract.default(I, f, n)
        if f.kwarg and f.kwarg in presets:
            pre[f.kwarg] = presets[f.kwarg]
        lib.nfun.add(f.qual)
        self.I, self.r = I, None
        self.r = I.run(f, presets=pre, self_obj=cls, state=st)
        if self.r is None:
            raise Unknown(f.name)
        self.e = Folds(lib, env)
        self.e.interp, self.e.seed, self.e.hooks = self.r.interp, seed, self.hook
        if self.r.state is not None:
            self.e.heap = self.r.state.heap

    def hook(self, ev, t):
        return self.score(self, ev, t)

    # a tensor of numbered rows
    @staticmethod
    def rows(x):
        x = arr(x)
        return [c // 10 if isinstance(c, int) else None for c in (x.c[::x.shape[1]] if x.ndim == 2 else x.c)]


def table(n, m):
    return Arr((n, m), [10 * i + j for i in range(n) for j in range(m)])


def check(ctx):
    crossval(ctx)
    density(ctx)
    split(ctx)
    ctx.floor("disjoint", 10)


# ------------------------------------------------------------------------------------------------------------ what was fitted and scored
class Run:
    """the fits and scores of one call in their order"""
    def __init__(self, S, fit, score):
        self.S, self.fits, self.scores, self.unknown = S, [], [], []
        for e in S.r.events:
            if e.kind != "rcall" or e.data[0] not in (fit, score):
                continue
            q, recv, bound = e.data
            b = dict(bound)
            if any(c.op == "exc" and pol for c, pol in e.conds):
                continue   # what happens after an error is the subject of a run of its own
            if any(c.op != "exc" and S.e.truth(c) is not pol for c, pol in e.conds):
                if not any(S.e.truth(c) is (not pol) for c, pol in e.conds):
                    self.unknown.append(e)
                continue
            (self.fits if q == fit else self.scores).append((e, recv, b))

    def rows(self, t):
        try:
            xs = Setup.rows(self.S.e(t))
        except (Unknown, C.Illshaped):
            return None
        return None if any(x is None for x in xs) else xs


def source(t):
    """what an object is a copy of"""
    while t.op == "fresh" and t.args[0].op == "call" and t.args[0].args[0].startswith("copy.") and t.args[0].args[1]:
        yield t
        t = t.args[0].args[1][0]
    yield t


def usual(t):
    """the value when no error happens"""
    while t is not None and t.op == "phi" and t.args[0].op == "exc":
        t = t.args[2]
    return t


def untrained(ctx, rule, who, R):
    """no object is fitted that was fitted before, or is a copy of one that was"""
    done = {}
    for e, recv, b in R.fits:
        bad, limit = None, None
        shared = []
        for x in source(recv):
            # a shallow copy has the parameters of what it was copied from
            if x in done and (limit is None or done[x].seq < limit):
                bad = x
                break
            if limit is None:
                shared.append(x)
            if x.op == "fresh" and x.args[0].args[0] != "copy.copy":
                limit = next((y.seq for y in R.S.r.events if y.kind == "fresh" and y.data is x), -1)
        if bad is None:
            ctx.ok(rule, who)
        else:
            ctx.bad_ev(rule, f"{e.path.rsplit('/', 1)[-1]} {who}", "the model of one fold or candidate is one that was already fitted on other folds", e)
        for x in shared:
            done[x] = e


def parts(ctx, who, R, pairs, n):
    """pairs: (score event, training rows, validation rows) of one candidate"""
    seen = []
    for e, train, val in pairs:
        if train is None or val is None:
            ctx.unknown("disjoint", f"{who}: rows")
            continue
        both = sorted(set(train) & set(val))
        if both:
            ctx.bad_ev("disjoint", who, f"respondents {both} are in the training data {sorted(train)} and in the validation data {sorted(val)} of one fold", e)
        elif not train:
            ctx.bad_ev("disjoint", who, "a fold has no training data", e)
        else:
            ctx.ok("disjoint", who)
        seen += val
    if pairs and all(v is not None for _, _, v in pairs):
        if sorted(seen) != list(range(n)):
            twice = sorted({x for x in seen if seen.count(x) > 1})
            out = sorted(set(range(n)) - set(seen))
            ctx.bad_ev("parts", who, f"of {n} respondents, {twice or 'none'} are in several validation parts and {out or 'none'} in none", pairs[-1][0])
        else:
            ctx.ok("parts", who)


# ------------------------------------------------------------------------------------------------------------ cross-validation of fit arguments
GRIDS = [{"learning_rate": [0.1, 0.2], "max_epochs": [3, 5]}, {"max_epochs": [3, 5, 7]}]


def crossval(ctx):
    p = ctx.lib.p
    f = next((g for q, g in sorted(p.functions.items()) if g.name == "cross_validation" and g.cls is None), None)
    base, ev = p.cls("BaseIRTModel").qual, p.cls("Evaluator").qual
    if f is None:
        return
    for n, folds in ((7, 3), (6, 2), (12, 4), (11, 5)):
        for grid in GRIDS:
            for multi in (False, True):
                for seed in (1, 2):
                    who = f"{f.name} of {n} respondents in {folds} folds" + (" with processes" if multi else "")
                    try:
                        one(ctx, f, base, ev, n, folds, grid, multi, seed, who)
                    except Unknown as u:
                        ctx.unknown("disjoint", f"{who}: {u}")


def one(ctx, f, base, ev, n, folds, grid, multi, seed, who):
    p = ctx.lib.p
    M, A, D = T("obj", base, "the model", False), T("obj", p.cls("MML").qual, "the algorithm", True), T("leaf", "the data", (n, 2))
    heap = {(M, a): NONE for a in ("_evaluate", "_plot", "algorithm")}
    g = T("dict", tuple((const(k), lst(v)) for k, v in grid.items()), 0)
    pre = {"model": M, "data": D, "folds": const(folds), "params_grid": g, "device": const("cpu"), "multiprocessing": const(multi)}
    if f.kwarg:
        pre[f.kwarg] = T("dict", ((const("algorithm"), A),), 0)
    fit, score = p.find_method(base, "fit").qual, p.find_method(ev, "log_likelihood").qual

    def atom(S, e, t):
        if t.op == "vcall" and t.args[1] == "log_likelihood":
            return C.atom("free", "score of the model of a fold", key(e, t.args[2], dict(t.args[3])))
        raise Unknown("call " + str(t.args[0]))
    S = Setup(ctx.lib, f, None, pre, {D: table(n, 2)}, heap, {fit, score}, seed, atom)
    R = Run(S, fit, score)
    if R.unknown or not R.fits or not R.scores:
        raise Unknown("fits and scores that are not decided")
    untrained(ctx, "untrained", who, R)
    # the score of a fold is that of the model fitted last before it
    byscore, bycand = {}, {}
    for e, recv, b in R.scores:
        m = usual(S.r.state.heap.get((recv, "model"))) if S.r.state is not None else None
        own = [x for x in R.fits if x[1] is m and x[0].seq < e.seq]
        if m is None or not own:
            if m is not None and not any(x[1] is y for x in R.fits for y in source(m)):
                ctx.bad_ev("untrained", who, "a model is scored that was not fitted", e)
            else:
                ctx.unknown("disjoint", f"{who}: the model that is scored")
            continue
        fe, _, fb = own[-1]
        train = R.rows(fb.get("train_data"))
        # without data of its own a fitted model is scored on what it was trained on
        val = R.rows(b["data"]) if b.get("data") not in (None, NONE) else train
        if fb.get("algorithm") is None or not any(x is A for x in source(usual(fb["algorithm"]))):
            if usual(fb.get("algorithm", NONE)) is NONE:
                ctx.bad_ev("candidates", who, "a fold is fitted without the algorithm that was asked for", fe)
        cand = None
        try:
            kw = S.e(fb["kwargs"]) if "kwargs" in fb else {}
            cand = tuple((k, kw[k]) for k in grid if k in kw)
        except Unknown:
            pass
        bycand.setdefault(cand, []).append((e, train, val))
        byscore[e.seq] = cand
    want = {tuple(zip(grid, x)) for x in __import__("itertools").product(*grid.values())}
    if None in bycand:
        ctx.unknown("candidates", f"{who}: arguments of fit")
    elif set(bycand) != want:
        e = R.fits[-1][0]
        ctx.bad_ev("candidates", who, f"the fitted candidates are {sorted(map(dict, bycand), key=str)} and not the combinations of {grid}", e)
    else:
        ctx.ok("candidates", who)
    for c, pairs in bycand.items():
        parts(ctx, who, R, pairs, n)
    scores(ctx, who, S, R, byscore, want)


def key(e, recv, b):
    return (recv.id, tuple(Setup.rows(e(b["data"]))) if b.get("data") not in (None, NONE) else "training data")


def linear(c, a):
    """coefficient of a free cell in a sum of such"""
    if not isinstance(c, C.Poly):
        return None
    return c.m.get(next(iter(a.m)), 0)


def scores(ctx, who, S, R, byscore, want):
    """every row of the result holds the average score of its own candidate"""
    e = R.scores[-1][0]
    try:
        v = S.e(S.r.value)
    except (Unknown, C.Illshaped) as u:
        ctx.unknown("score", f"{who}: {u}")
        return
    if not isinstance(v, Records):
        ctx.unknown("score", f"{who}: result")
        return
    atoms = {}
    for x, recv, b in R.scores:
        atoms.setdefault(byscore.get(x.seq), []).append((x, recv, b))
    seen, factors = set(), set()
    for r in v.rows:
        cand = next((c for c in want if all(k in r and type(r[k]) is type(z) and r[k] == z for k, z in c)), None)
        if cand is None:
            ctx.bad_ev("score", who, f"a row of the result is for {({k: z for k, z in r.items() if k != 'log_likelihood'})}, which is no candidate", e)
            return
        seen.add(cand)
        s = scalar(r.get("log_likelihood"))
        own = [C.atom("free", "score of the model of a fold", key(S.e, x[1], x[2])) for x in atoms.get(cand, ())]
        if not isinstance(s, C.Poly) or not own:
            ctx.unknown("score", f"{who}: score of a candidate")
            return
        ks = [linear(s, a) for a in own]
        if len(set(ks)) != 1 or ks[0] <= 0 or C.add(s, C.neg(C.mul(C.total(own), ks[0]))) != 0:
            ctx.bad_ev("score", who, f"the score of {dict(cand)} is {C.text(s)} and not the average of the scores of its own {len(own)} folds", e)
            return
        factors.add(ks[0])
        ctx.ok("score", who)
    if seen != want or len(v.rows) != len(want) or len(factors) > 1:
        ctx.bad_ev("score", who, "the result does not hold one row per candidate, averaged alike", e)
    else:
        ctx.ok("score", who)


# ------------------------------------------------------------------------------------------------------------ cross-validation of the latent density
def density(ctx):
    p = ctx.lib.p
    ev, gm = p.cls("Evaluator").qual, p.cls("GaussianMixtureModel").qual
    f = p.find_method(ev, "approximate_latent_density")
    if f is None:
        return
    for n in (10, 7):
        for comps in ([2, 3, 4], [5, 2], [3]):
            for seed in range(4):
                who = f"{f.name} from {n} scores"
                try:
                    fitted(ctx, f, ev, gm, n, comps, seed, who)
                except Unknown as u:
                    ctx.unknown("disjoint", f"{who}: {u}")


def fitted(ctx, f, ev, gm, n, comps, seed, who):
    p = ctx.lib.p
    D, E = T("leaf", "the scores", (n, 1)), T("obj", ev, "self", True)
    fit, forward = p.find_method(gm, "fit").qual, p.find_method(gm, "forward").qual
    rnd = random.Random(f"{n} {comps} {seed}")
    table_ = {}

    def components(S, e, recv):
        h = S.r.state.heap if S.r is not None and S.r.state is not None else {}
        for x in S.r.events if S.r is not None else S.I.events:
            if x.kind == "construct" and x.data[0] is recv:
                v = dict(x.data[1]).get("n_components")
                return scalar(e(v)) if v is not None else None
        v = h.get((recv, "n_components"))
        return scalar(e(v)) if v is not None else None

    def score(S, e, t):
        if t.op in ("vcall", "rcall") and t.args[0 if t.op == "rcall" else 1].endswith("forward"):
            recv = t.args[2]
            b = dict(t.args[3])
            k = components(S, e, recv)
            x = next(iter(b.values()))
            rows = tuple(Setup.rows(e(x)))
            return table_.setdefault((k, rows), rnd.randrange(-90, -10))
        raise Unknown("call " + str(t.args[0]))
    pre = {"theta_scores": D, "approximation": const("gmm"), "cv_n_components": lst(comps)}
    heap = {(E, a): NONE for a in ("latent_density", "_latent_density_theta")}
    S = Setup(ctx.lib, f, E, pre, {D: Arr((n, 1), [10 * i for i in range(n)])}, heap, {fit, forward}, seed, score)
    R = Run(S, fit, forward)
    if R.unknown or not R.fits:
        raise Unknown("fits that are not decided")
    untrained(ctx, "untrained", who, R)
    bycand = {}
    for e, recv, b in R.scores:
        own = [x for x in R.fits if x[1] is recv and x[0].seq < e.seq]
        val = R.rows(next(iter(v for k, v in b.items() if k != "self")))
        if not own:
            ctx.bad_ev("untrained", who, "a density is scored that was not fitted", e)
            continue
        train = R.rows(next(iter(v for k, v in own[-1][2].items() if k != "self")))
        bycand.setdefault(components(S, S.e, recv), []).append((e, train, val))
    for c, pairs in bycand.items():
        if c is None:
            ctx.unknown("candidates", f"{who}: number of components")
            return
        parts(ctx, who, R, pairs, n)
    if len(comps) > 1:
        if set(bycand) != set(comps):
            ctx.bad_ev("candidates", who, f"the candidates are {sorted(bycand)} and not {comps}", R.fits[-1][0])
            return
        ctx.ok("candidates", who)
    # the density that is kept: fitted to all scores, with the best number of components
    kept = usual(S.r.state.heap.get((E, "latent_density"))) if S.r.state is not None else None
    own = [x for x in R.fits if x[1] is kept]
    if kept is None or not own:
        ctx.unknown("chosen", f"{who}: the density that is kept")
        return
    rows = R.rows(next(iter(v for k, v in own[-1][2].items() if k != "self")))
    k = components(S, S.e, kept)
    best = {c: sum(table_[c, tuple(v)] for _, _, v in bycand[c]) for c in comps} if len(comps) > 1 else {comps[0]: 0}
    top = [c for c in best if best[c] == max(best.values())]
    if rows is None or k is None:
        ctx.unknown("chosen", f"{who}: the density that is kept")
    elif sorted(rows) != list(range(n)):
        ctx.bad_ev("chosen", who, f"the density that is kept is fitted to {sorted(rows)} of {n} scores", own[-1][0])
    elif k not in top:
        ctx.bad_ev("chosen", who, f"{k} components are chosen when the average scores are in the order of {best}", own[-1][0])
    else:
        ctx.ok("chosen", who)


# ------------------------------------------------------------------------------------------------------------ one split
def split(ctx):
    p = ctx.lib.p
    f = next((g for q, g in sorted(p.functions.items()) if g.name == "split_data" and g.cls is None), None)
    if f is None:
        return
    for n in (5, 8):
        for ratio in (0.8, 0.5, 0.25):
            for shuffle in (True, False):
                for seed in (1, 2):
                    who = f"{f.name} of {n} respondents"
                    D = T("leaf", "the data", (n, 2))
                    S = Setup(ctx.lib, f, None, {"data": D, "train_ratio": const(ratio), "shuffle": const(shuffle)}, {D: table(n, 2)}, {}, (), seed, nothing)
                    at = dict(path=f.module.path, line=f.node.lineno)
                    try:
                        v = S.e(S.r.value)
                        train, val = [S.rows(x) for x in v]
                        whole = [table(n, 2).c[2 * r:2 * r + 2] for r in train + val] == [c for x in v for c in grouped(x)]
                    except Unknown as u:
                        ctx.unknown("disjoint", f"{who}: {u}")
                        continue
                    if sorted(train + val) != list(range(n)) or not whole:
                        ctx.bad("disjoint", who, f"with a ratio of {ratio} the training part has respondents {sorted(train)} and the other part {sorted(val)}", **at)
                    elif abs(len(train) - n * ratio) >= 1:
                        ctx.bad("parts", who, f"with a ratio of {ratio} the training part has {len(train)} of {n} respondents", **at)
                    else:
                        ctx.ok("disjoint", who)


def grouped(x):
    w = x.shape[1]
    return [x.c[i:i + w] for i in range(0, len(x.c), w)]


def nothing(S, e, t):
    raise Unknown("call " + str(t.args[0]))
