"""C25: log domain and probability domain."""
from ..terms import T, Term, show, is_const, cval, walk, const, intval, numval
from ..domain import Domain, infer_attrs, LOGF, PROBF, ELOG, LRAT
from ..polarity import Polarity, extreme
from ..shapes import Shapes, Sh, axis
from ..c_util import strip_pass
from .. import mixture, small
from .c04 import terms_of, where

REDUCTIONS = {"sum", "nansum", "mean", "nanmean", "logsumexp", "prod", "median", "max", "min", "amax", "amin"}


def check(ctx):
    p, lib = ctx.p, ctx.lib
    ctx.attrs = infer_attrs(lib)
    ops = tuple(sorted(q for q in p.functions if q.split(".")[-1] in LOGF | PROBF))
    for q, f in sorted(p.functions.items()):
        o = tuple(x for x in ops if x.split(".")[-1] != f.name)
        r = lib.run(f, opaque=o)
        if r is not None and r.state is not None:
            domains(ctx, f, r)
            returned(ctx, f, r)
            weights(ctx, f, r)
    models(ctx)
    for f, cls, r, tag in runs(ctx, ops):
        domains(ctx, f, r)
        integrals(ctx, f, r, tag)
    definitions(ctx)
    mixture.check(ctx, "mixture")
    small.hermite(ctx, "quadrature")
    small.link(ctx, "divergence")
    ctx.floor("domain", 50)
    ctx.floor("integral", 3)


class Under:
    """the same obligations under another rule"""
    def __init__(self, ctx, rule):
        self.ctx, self.rule = ctx, rule

    def __getattr__(self, name):
        return getattr(self.ctx, name)

    def ok(self, rule, *a):
        self.ctx.ok(self.rule, *a)

    def unknown(self, rule, *a):
        self.ctx.unknown(self.rule, *a)

    def bad(self, rule, *a):
        self.ctx.bad(self.rule, *a)

    def bad_ev(self, rule, *a):
        self.ctx.bad_ev(self.rule, *a)


def definitions(ctx):
    """integrals over small grids and few draws are, cell by cell, the ones they stand for"""
    from . import c03, c32
    from fractions import Fraction as F
    from ..cells import Arr
    from ..stats import World
    from .. import cells as C
    sub = Under(ctx, "definition")
    worlds = [w for w in c32.WORLDS if not any(w.missing(i, j) for i in range(w.n) for j in range(w.J))]
    worlds.append(World("3 respondents, 2 items, 2 latent variables", [2, 3], [[0, 2], [1, 0], [1, 1]], [[F(1, 2), F(-1)], [F(-3, 4), F(1, 4)], [F(1), F(1, 3)]]))
    worlds.append(World("2 respondents, 1 item", [3], [[2], [1]], [[F(1, 2)], [F(-1)]]))
    for w in worlds:
        for trained in (True, False):
            A = c03.Abstract(ctx.lib, w, ctx.p.cls("Evaluator").qual)
            f = A.find("_eap_theta_scores", "model")
            if f is None:
                continue
            args = {"data": A.data, "grid_points": const(2)}
            n = None
            if not trained:
                n = 4
                args["grid_points"] = const(4)
                cov = Arr((w.L, w.L), [F(2) if a == b else F(1, 2) for a in range(w.L) for b in range(w.L)])
                leaf = T("leaf", "the covariance matrix", cov.shape)
                A.env[leaf] = cov
                for (o, a) in list(A.heap):
                    if a == "training_theta_scores":
                        A.heap[o, a] = const(None)
                        A.heap[o, "covariance_matrix"] = leaf
            got, ill, why = c03.outcome(A, c32.Spec("_eap_theta_scores", None, on="model", args=lambda A: args), {})
            who = f"{w.label}: posterior means over {n or 2} points{'' if trained else ', without training scores'}"
            if ill:
                sub.bad("", f.qual, f"{who}: {ill}", f.module.path, f.node.lineno)
            elif got is None:
                sub.unknown("", f"{who}: {why}")
            else:
                c32.compare(sub, "", f, who, got, c03.posterior(w, 2) if trained else c03.posterior(w, 4, [[F(-3), F(-1), F(1), F(3)]] * w.L, cov))
        mask = T("leaf", "the mask", w.data.shape)
        marr = Arr(w.data.shape, [False] * len(w.data.c))
        c03.iwae(sub, w, mask, marr, "never", [C.total(c03.observed(w, i)) for i in range(w.n)])
        c03.mml(sub, w, "never")
    ctx.floor("definition", 6)


def runs(ctx, ops):
    """functions that bring repeated data and a log-likelihood together, with the number of draws known"""
    p, lib = ctx.p, ctx.lib
    todo = []
    for q, f in sorted(p.functions.items()):
        todo.append((f, None))
    for q in sorted(p.classes):
        f = p.find_method(q, "fit")
        if f is not None and not f.is_abstract:
            todo.append((f, q))
    gh = tuple(q for q in p.functions if q.endswith("gauss_hermite"))
    for f, cls in todo:
        o = tuple(x for x in ops if x.split(".")[-1] != f.name) + gh
        r = lib.run(f, cls=cls, opaque=o)
        if r is None or r.state is None:
            continue
        if not any(x.op in ("vcall", "rcall") and str(x.args[1] if x.op == "vcall" else x.args[0]).split(".")[-1] == "log_likelihood" for t in terms_of(r) for x in walk(t)):
            continue
        base = {}
        # options given as names are fixed one after the other, so that every run has one way of integrating
        variants = [{}]
        from .c12 import names as option_names
        try:
            opts = option_names(ctx, f)
        except Exception:
            opts = {}
        S = Shapes(r, lib=lib)
        nums = set()
        for l in likelihoods(r):
            for lab in points(S, r, l)[0]:
                if isinstance(lab, tuple) and lab[0] == "s" and lab[1].op == "param" and lab[1].args[0] in r.params:
                    nums.add(lab[1].args[0])
        if nums:
            variants = [{n: const(7) for n in nums}]
        for v in variants:
            if not v:
                yield f, cls, r, ""
            else:
                x = lib.run(f, cls=cls, presets=dict(v), opaque=o)
                if x is not None:
                    yield f, cls, x, f" with {', '.join(f'{k}=7' for k in v)}"


def likelihoods(r):
    seen = set()
    out = []
    for t in terms_of(r):
        for x in walk(t, seen):
            if x.op in ("vcall", "rcall") and str(x.args[1] if x.op == "vcall" else x.args[0]).split(".")[-1] == "log_likelihood":
                bt = dict(x.args[3] if x.op == "vcall" else x.args[1])
                if "data" in bt and is_const(bt.get("loss_reduction"), "none"):
                    out.append((x, bt))
    return out


def unrepeated(t):
    t = strip_pass(t)
    while True:
        if t.op == "meth" and t.args[0] in ("repeat", "repeat_interleave", "clone", "contiguous", "expand", "to", "float", "reshape", "tile"):
            t = strip_pass(t.args[1])
        elif t.op == "call" and t.args[0] in ("torch.cat", "torch.repeat_interleave") and t.args[1]:
            s = t.args[1][0]
            if s.op == "bin" and s.args[0] == "*":
                s = s.args[1] if s.args[1].op in ("list", "tuple") else s.args[2]
            if s.op in ("list", "tuple") and len(s.args[0]) == 1:
                t = strip_pass(s.args[0][0])
            elif s.op == "listof":
                t = strip_pass(s.args[0])
            else:
                return t
        else:
            return t


def points(S, r, l):
    """labels of the axis of integration points of one log-likelihood call, and of its respondents"""
    x, bt = l
    d = S(bt["data"])
    b = S.sh(unrepeated(bt["data"]))
    rows = b.get(0)
    if d is None or d.get(0) is None or rows is None:
        return (), ()
    ax = list(d.get(0))
    for z in rows:
        if z in ax:
            ax.remove(z)
        else:
            return (), ()
    return tuple(ax), rows


def domains(ctx, f, r):
    seen = set()

    def issue(kind, t, msg):
        if (kind, t) in seen:
            return
        seen.add((kind, t))
        path, line = where(ctx, f, r, t)
        ctx.bad("domain", f"{f.qual}:{kind}", msg, path, line)
    D = Domain(r, ctx.attrs, issue)
    ws = set()
    n = 0
    for x in terms_of(r):
        for y in walk(x, ws):
            if y.op in ("bin", "meth", "call") and D(y):
                n += 1
    if n:
        ctx.ok("domain", f"{f.qual}: {n} operations on log-probabilities and probabilities", n)
    return D


def returned(ctx, f, r):
    if r.value is None or f.is_abstract:
        return
    if f.name in ("pdf", "item_probabilities", "probabilities_from_output") or f.name in LOGF:
        D = Domain(r, ctx.attrs, links=True)(r.value)
        want = "log" if f.name in LOGF else "prob"
        other = {"log": "prob", "prob": "log"}[want]
        if other in D:
            ctx.bad("returned", f.qual, f"{f.qual} returns a {'probability' if want == 'log' else 'log-probability'}", f.module.relpath, f.node.lineno)
        elif D & (ELOG | LRAT):
            ctx.bad("returned", f.qual, f"{f.qual} returns {'log-probabilities weighted by probabilities' if 'elog' in D else 'a ratio of log-probabilities'}", f.module.relpath, f.node.lineno)
        elif want in D:
            ctx.ok("returned", f"{f.qual} returns a {want}")
        else:
            ctx.unknown("returned", f"{f.qual}: {show(r.value, 3)[:90]}")


def models(ctx):
    """forward, probabilities_from_output and log_likelihood of a model agree on what the output is"""
    p, lib = ctx.p, ctx.lib
    for q in lib.concrete("BaseIRTModel"):
        fw, pr, ll = (p.find_method(q, n) for n in ("forward", "probabilities_from_output", "log_likelihood"))
        if fw is None or pr is None or ll is None:
            continue
        kinds = {}
        for f in (pr, ll):
            o = T("param", "output", f.qual)
            pre = {"missing_mask": const(None)} if f is ll else None
            r = lib.run(f, cls=q, presets=pre)
            if r is None or r.value is None or not r.params:
                continue
            o = r.params.get("output") or list(r.params.values())[1]
            k = treats(r, o)
            if k:
                kinds[f.name] = k
        r = lib.run(fw, cls=q)
        if r is not None and r.value is not None:
            d = Domain(r, ctx.attrs, links=True)(r.value)
            if "prob" in d:
                kinds["forward"] = "probabilities"
        name = q.rsplit(".", 1)[-1]
        ks = set(kinds.values())
        if len(ks) > 1:
            f = ll if kinds.get("log_likelihood") not in (None, kinds.get("probabilities_from_output")) else fw
            ctx.bad("output-kind", q, f"{name}: " + ", ".join(f"{k} takes the output as {v}" if k != "forward" else f"forward returns {v}" for k, v in sorted(kinds.items())), f.module.relpath, f.node.lineno)
        elif len(kinds) >= 2:
            ctx.ok("output-kind", f"{name}: {', '.join(sorted(kinds))} agree on {ks.pop()}")
        else:
            ctx.unknown("output-kind", f"{name}: {kinds}")


def treats(r, o):
    """'logits' or 'probabilities': what is done first with the output"""
    out = set()
    ws = set()
    for x in terms_of(r):
        for y in walk(x, ws):
            if y.op != "meth":
                continue
            n, b = y.args[0], y.args[1]
            if n in ("softmax", "log_softmax", "cross_entropy", "sigmoid") and plainly(b, o):
                out.add("logits")
            elif n in ("log", "log2") and plainly(b, o):
                out.add("probabilities")
    if not out and r.value is not None and plainly(r.value, o):
        out.add("probabilities")
    return out.pop() if len(out) == 1 else None


def plainly(t, o, depth=0):
    """t is the output itself, reshaped, selected or masked"""
    if depth > 30:
        return False
    t = strip_pass(t)
    if t is o:
        return True
    if t.op == "meth" and t.args[0] in ("reshape", "squeeze", "unsqueeze", "flatten", "contiguous", "float", "transpose", "permute", "gather", "index_select", "masked_select", "clamp"):
        return plainly(t.args[1], o, depth + 1)
    if t.op == "index" or t.op == "setitem":
        return plainly(t.args[0], o, depth + 1)
    if t.op == "phi":
        return plainly(t.args[1], o, depth + 1) or plainly(t.args[2], o, depth + 1)
    if t.op == "where":
        return plainly(t.args[1], o, depth + 1) or plainly(t.args[2], o, depth + 1)
    return False


def weights(ctx, f, r):
    """density values used as integration weights are divided by their sum"""
    ws = set()
    use, normal = [], []
    for x in terms_of(r):
        for y in walk(x, ws):
            if y.op == "bin" and y.args[0] == "/" and dens(y.args[1]):
                own = [z for z in walk(y.args[2]) if z.op == "meth" and z.args[0] in ("sum", "nansum") and strip_pass(z.args[1]) is strip_pass(y.args[1])]
                if own:
                    kw = dict(own[0].args[3]).get("dim")
                    if kw is None or is_const(kw, 0):
                        ctx.ok("weights", f"{f.qual}: {show(y, 3)[:80]}")
                    else:
                        path, line = where(ctx, f, r, y)
                        ctx.bad("weights", f.qual, "the integration weights are not divided by their sum over the points", path, line)
                    normal.append(y)
    if r.value is not None and r.value.op == "tuple":
        for v in r.value.args[0]:
            if dens(v):
                ctx.bad("weights", f.qual, "density values are returned as weights without dividing them by their sum", f.module.relpath, f.node.lineno)


def dens(t):
    t = strip_pass(t)
    if t.op == "phi":
        return dens(t.args[1]) or dens(t.args[2])
    return t.op in ("vcall", "rcall", "meth") and (str(t.args[1] if t.op == "vcall" else t.args[0]).split(".")[-1] == "pdf")


def integrals(ctx, f, r, tag):
    lib = ctx.lib
    S = Shapes(r, lib=lib)
    info = []
    for l in likelihoods(r):
        P, rows = points(S, r, l)
        if P:
            info.append((l, P, rows))
    if not info:
        return
    # the grid is a table of points by latent variables, the weights are a list with one entry per point
    seeds = {}
    for l, P, rows in info:
        for z in P:
            if isinstance(z, tuple) and z[0] == "s" and z[1].op == "dim":
                X = z[1].args[0]
                seeds[X] = Sh([(z,), ("D",)])
                if X.op == "index" and X.args[0].op in ("rcall", "vcall"):
                    seeds[T("index", X.args[0], const(1))] = Sh([(z,)])
                elif X.op == "phi":
                    pair(X, z, seeds)
    ws = set()
    allterms = []
    for x in terms_of(r):
        allterms += list(walk(x, ws))
    S = Shapes(r, seeds=seeds, lib=lib)
    Pset = {z for _, P, _ in info for z in P}
    R = {z for _, _, rows in info for z in rows}
    D = Domain(r, ctx.attrs)
    pol = Polarity(r)
    calls = {l[0] for l, _, _ in info}
    own = {l[0]: set(P) for l, P, _ in info}
    used = {}

    def uses(t):
        """t is computed from the log-likelihoods by arithmetic (not as the input of another network)"""
        if t in used:
            return used[t]
        used[t] = False
        o = t.op
        if t in calls:
            res = True
        elif o in ("bin", "un"):
            res = any(uses(x) for x in t.args[1:])
        elif o == "meth":
            res = uses(t.args[1])
        elif o in ("index", "attr", "setitem", "elem"):
            res = isinstance(t.args[0], Term) and uses(t.args[0])
        elif o == "phi" or o == "where":
            res = uses(t.args[1]) or uses(t.args[2])
        elif o == "call" and str(t.args[0]) in ("torch.stack", "torch.cat"):
            res = any(uses(x) for x in t.args[1])
        elif o in ("list", "tuple"):
            res = any(uses(x) for x in t.args[0])
        else:
            res = False
        used[t] = res
        return res
    summed = 0
    for t in allterms:
        k = reduction(t)
        if k is None:
            continue
        name, x, dim = k
        if not uses(x):
            continue
        path = None
        s = S(x)
        d = D(x)
        kind = "log" if d == {"log"} else "prob" if d and d <= {"prob", "avg"} else None
        labs = axes(s, dim)
        label = f"{f.qual}{tag}: {name} over {dim_text(dim)} of {show(x, 2)[:60]}"
        if labs is None or kind is None:
            if name in ("max", "min", "amax", "amin", "median"):
                continue
            ctx.unknown("integral", f"{label} {s}")
            continue
        over_p = [z for z in labs if z in Pset]
        over_r = [z for z in labs if z in R]
        rest = [z for dd in (s.d if s is not None else []) if dd for z in dd]
        msg = None
        if name in ("max", "min", "amax", "amin"):
            # the shift of a log-sum-exp must not differ between the points that are summed
            continue
        if over_p:
            summed += 1
            if len(over_p) < len([z for z in rest if z in Pset]):
                msg = None
            if "I" in rest:
                msg = "the sum over the points is taken before the sum over the items"
            elif name == "logsumexp":
                msg = None if kind == "log" else "log-sum-exp is applied to probabilities"
            elif kind == "log":
                msg = f"the {name} over the integration points is taken over log-probabilities"
            if msg is None and over_r and not is_final(kind, name):
                msg = "the sum runs over the points of all respondents instead of each respondent's own points"
        elif "I" in labs:
            if kind != "log" and name != "prod":
                msg = "probabilities are summed over the items instead of log-probabilities"
            elif name in ("mean", "nanmean"):
                msg = "log-probabilities are averaged over the items instead of added"
            elif kind == "log":
                for _, xs in pol.alts(x):
                    for a in xs:
                        if a.term not in calls and D(a.term) == {"log"} and not uses(a.term) and not a.via:
                            ls = axes(S(a.term), None)
                            if ls is not None and any(z in Pset for z in ls) and "I" not in ls:
                                msg = f"the log-weights {show(a.term, 3)[:60]} are added before the sum over the items and so counted once for each item"
        elif over_r:
            if any(z in Pset for z in rest) and kind == "prob":
                msg = "the sum over the respondents is taken where the points should be summed"
            elif any(z in Pset for z in rest):
                msg = "the respondents are summed before the integration points"
        if msg:
            path, line = where(ctx, f, r, t)
            ctx.bad("integral", f"{f.qual}:{name}", msg + f": {show(t, 3)[:110]}", path, line)
        else:
            ctx.ok("integral", label + f" ({axis(tuple(labs))})")
        if over_p and not msg:
            once(ctx, f, r, t, name, x, calls, pol, S, Pset, tag)
    normalised(ctx, f, r, allterms, uses, S, D, own, R, tag)
    products(ctx, f, r, allterms, uses, S, D, Pset, tag, calls)


def is_final(kind, name):
    return False


def pair(X, z, seeds):
    """grids joined from several functions that return points and weights together"""
    for b in (X.args[1], X.args[2]):
        b = strip_pass(b)
        if b.op == "index" and b.args[0].op in ("rcall", "vcall"):
            seeds[T("index", b.args[0], const(0))] = Sh([(z,), ("D",)])
            seeds[T("index", b.args[0], const(1))] = Sh([(z,)])
        elif b.op == "phi":
            pair(b, z, seeds)


def reduction(t):
    if t.op == "meth" and t.args[0] in REDUCTIONS:
        kw = dict(t.args[3])
        if t.args[0] in ("max", "min") and t.args[2]:
            return None
        return t.args[0], t.args[1], kw.get("dim")
    return None


def dim_text(d):
    return "everything" if d is None or is_const(d, None) else f"dim {show(d, 2)}"


def axes(s, dim):
    """labels of the reduced axes"""
    if s is None:
        return None
    if dim is None or is_const(dim, None):
        if s.open or any(d is None for d in s.d):
            return None
        return [z for d in s.d for z in d]
    ks = [dim] if dim.op not in ("tuple", "list") else list(dim.args[0])
    out = []
    for k in ks:
        k = intval(k)
        if k is None:
            return None
        d = s.get(k)
        if d is None:
            return None
        out += list(d)
    return out


def once(ctx, f, r, t, name, x, calls, pol, S, Pset, tag):
    """what is summed over the points is the exponential of one log-likelihood plus one log-weight"""
    inner = x
    if name != "logsumexp" and not exped(x):
        return
    while inner.op == "meth" and inner.args[0] in ("exp", "to", "double", "float", "reshape", "transpose", "contiguous") or inner.op == "attr" and inner.args[1] in ("T", "mT"):
        inner = inner.args[1] if inner.op == "meth" else inner.args[0]
    for cs, xs in pol.alts(inner):
        xs = [a for a in xs if extreme(a.term) is None]
        ll = [a for a in xs if a.term in calls]
        if len(ll) != 1:
            if len(ll) > 1:
                bad(ctx, f, r, t, "weights-once", "the log-likelihood enters the integrand more than once")
            continue
        if ll[0].coef != 1.0 or ll[0].sign != 1 or ll[0].factors:
            bad(ctx, f, r, t, "weights-once", f"the log-likelihood is scaled before it is exponentiated")
            continue
        if any(v in ("mean", "nanmean") for v in ll[0].via):
            bad(ctx, f, r, t, "weights-once", "the log-likelihood is averaged before it is exponentiated")
            continue
        oth = [a for a in xs if a.term not in calls and not is_const(a.term)]
        cnt = {}
        for a in oth:
            cnt.setdefault(a.term, []).append(a)
        if any(len(v) > 1 for v in cnt.values()):
            w = next(k for k, v in cnt.items() if len(v) > 1)
            bad(ctx, f, r, t, "weights-once", f"the log-weight {show(w, 3)[:80]} enters the integrand {len(cnt[w])} times")
            continue
        own = [a for a in oth if abs(a.coef - 1.0) > 1e-9]
        if own:
            bad(ctx, f, r, t, "weights-once", f"the log-weight {show(own[0].term, 3)[:80]} enters the integrand with the factor {own[0].coef}")
            continue
        if not oth:
            bad(ctx, f, r, t, "weights-once", "the integrand has no log-weights")
            continue
        ctx.ok("weights-once", f"{f.qual}{tag}: one log-likelihood and {len(oth)} log-weight terms")
    if name == "logsumexp" and all(isinstance(z, tuple) and z[0] == "n" or isinstance(z, tuple) and z[0] == "s" and z[1].op in ("param", "attr") for z in Pset):
        # a mean over draws: the logarithm of their number is taken off
        n = {z[1] if z[0] == "n" else z[1] for z in Pset}
        for y in alluses(r, t):
            ok = None
            if y.op == "bin" and y.args[0] == "-" and y.args[1] is t:
                v = y.args[2]
                ok = any(q.op == "meth" and q.args[0] in ("log",) or q.op == "call" and str(q.args[0]).endswith(".log") for q in walk(v)) and any(is_const(q) and cval(q) in n or q in n for q in walk(v))
            elif y.op == "bin" and y.args[0] == "+" and (y.args[1] is t or y.args[2] is t):
                ok = False if any(q.op == "meth" and q.args[0] == "log" for q in walk(y.args[2] if y.args[1] is t else y.args[1])) else None
            if ok is True:
                ctx.ok("draws", f"{f.qual}{tag}: the log of the number of draws is taken off")
            elif ok is False:
                bad(ctx, f, r, y, "draws", "the average over the draws is not the log-sum-exp minus the logarithm of their number")


def exped(x):
    while True:
        if x.op == "meth" and x.args[0] == "exp":
            return True
        if x.op == "meth" and x.args[0] in ("to", "double", "float", "reshape", "transpose", "contiguous"):
            x = x.args[1]
        elif x.op == "attr" and x.args[1] in ("T", "mT"):
            x = x.args[0]
        else:
            return False


def alluses(r, t):
    seen = set()
    for x in terms_of(r):
        for y in walk(x, seen):
            if y.op == "bin" and (y.args[1] is t or y.args[2] is t):
                yield y


def bad(ctx, f, r, t, rule, msg):
    path, line = where(ctx, f, r, t)
    ctx.bad(rule, f.qual, msg, path, line)


def normalised(ctx, f, r, allterms, uses, S, D, own, R, tag):
    """posterior weights: divided by their sum over the points of the same respondent"""
    for t in allterms:
        if t.op == "meth" and t.args[0] in ("softmax", "log_softmax") and uses(t.args[1]):
            labs = axes(S(t.args[1]), dict(t.args[3]).get("dim"))
            per(ctx, f, r, t, labs, own, R, tag)
        elif t.op == "bin" and t.args[0] == "/" and uses(t.args[1]) and uses(t.args[2]) and "prob" in D(t.args[1]):
            den = t.args[2]
            while den.op == "meth" and den.args[0] in ("unsqueeze", "reshape", "expand", "to", "clamp", "repeat_interleave", "repeat"):
                den = den.args[1]
            while den.op == "index":
                den = den.args[0]
            k = reduction(den)
            if k is None or k[0] not in ("sum", "nansum"):
                ctx.unknown("posterior", f"{f.qual}: {show(t, 3)[:80]}")
                continue
            per(ctx, f, r, t, axes(S(k[1]), k[2]), own, R, tag)


def per(ctx, f, r, t, labs, own, R, tag):
    Pset = {z for x in walk(t) for z in own.get(x, ())}
    if labs is None:
        ctx.unknown("posterior", f"{f.qual}{tag}: {show(t, 3)[:80]}")
    elif any(z in R for z in labs):
        bad(ctx, f, r, t, "posterior", "the posterior weights are normalised over respondents")
    elif labs and all(z in Pset for z in labs) and set(labs) == Pset:
        ctx.ok("posterior", f"{f.qual}{tag}: normalised over {axis(tuple(labs))}")
    elif not any(z in Pset for z in labs):
        bad(ctx, f, r, t, "posterior", f"the posterior weights are normalised over {axis(tuple(labs))} instead of the points")
    else:
        ctx.unknown("posterior", f"{f.qual}{tag}: normalised over {axis(tuple(labs))}")


def products(ctx, f, r, allterms, uses, S, D, Pset, tag, calls):
    """posterior expectations use normalised weights"""
    for t in allterms:
        if t.op == "bin" and t.args[0] == "*":
            for w, x in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
                if uses(w) and not uses(x) and D(w) == {"prob"}:
                    if any(y.op == "bin" and y.args[0] == "/" and uses(y.args[1]) and uses(y.args[2]) or y.op == "meth" and y.args[0] == "softmax" for y in walk(w)):
                        ctx.ok("expectation", f"{f.qual}{tag}: weights are normalised")
                    else:
                        later = any(y.op == "bin" and y.args[0] == "/" and any(z is t for z in walk(y.args[1])) for y in allterms)
                        if later:
                            ctx.unknown("expectation", f"{f.qual}{tag}: divided later")
                        else:
                            bad(ctx, f, r, t, "expectation", f"an average over the points uses weights that do not add up to one: {show(w, 3)[:90]}")
