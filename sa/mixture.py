"""The Gaussian mixture: its density, its log-likelihood and one step of the EM algorithm on three points with free weights and means."""
from fractions import Fraction as F

from . import cells as C
from .abst import Unknown, MultivariateNormal, arr
from .cells import Arr, Illshaped
from .stats import World, Abstract
from .terms import T, const, Term


def check(ctx, rule):
    from .rules.c32 import differ
    p = ctx.p
    q = p.cls("GaussianMixtureModel").qual if p.cls("GaussianMixtureModel") else None
    if q is None:
        return
    w = World("mixture", [2], [[0]], [[F(0)]])
    K, n = 2, 3
    for L in (1, 2):
        xs = [F(1), F(-1, 2), F(2), F(1, 4), F(3, 2), F(-1)][:n * L]
        share = C.atom("prob", "share", 0, 0)
        V = {"weights": Arr((K,), [share, C.add(1, C.neg(share))]), "means": Arr((K, L), [C.atom("out", "centre", i) for i in range(K * L)]),
             "covariances": Arr((K, L, L), [F(1), F(2)] if L == 1 else [F(1), F(1, 4), F(1, 4), F(2), F(3), F(-1, 2), F(-1, 2), F(1)])}
        for m in ("forward", "pdf", "fit"):
            f = p.find_method(q, m)
            if f is None:
                continue
            A = Abstract(ctx.lib, w, q)
            pn = [x for x in f.posnames if x != "self"][0]
            data = T("leaf", "points", (n, L))
            A.env[data] = Arr((n, L), xs)
            A.fields = {"n_components": const(K), "n_features": const(L)}
            leaf = {}
            for k, x in V.items():
                leaf[k] = A.fields[k] = T("leaf", "mixture " + k, x.shape)
                A.env[leaf[k]] = x
            who = f"{m}, {L} variable{'s' if L > 1 else ''}"
            try:
                r, e = A.run(m, {pn: data, "iterations": const(1)})
                # densities of the components at the points
                N = [[C.exp(c) for c in MultivariateNormal(e, Arr((L,), V["means"].c[k * L:(k + 1) * L]), Arr((L, L), V["covariances"].c[k * L * L:(k + 1) * L * L])).d_log_prob(A.env[data]).c] for k in range(K)]
                mix = [C.total([C.mul(V["weights"].c[k], N[k][i]) for k in range(K)]) for i in range(n)]
                if m == "forward":
                    parts = [("the log-likelihood", r.value, Arr((), [C.total([C.log(c) for c in mix])]))]
                elif m == "pdf":
                    parts = [("the density", r.value, Arr((n,), mix))]
                else:
                    R = [[C.div(C.mul(V["weights"].c[k], N[k][i]), mix[i]) for i in range(n)] for k in range(K)]
                    tot = [C.total(x) for x in R]
                    mu = [[C.div(C.total([C.mul(R[k][i], xs[i * L + v]) for i in range(n)]), tot[k]) for v in range(L)] for k in range(K)]
                    d = [[[C.add(xs[i * L + v], C.neg(mu[k][v])) for v in range(L)] for i in range(n)] for k in range(K)]
                    S = [C.div(C.total([C.mul(R[k][i], C.mul(d[k][i][a], d[k][i][b])) for i in range(n)]), tot[k]) for k in range(K) for a in range(L) for b in range(L)]
                    want = {"weights": Arr((K,), [C.mul(x, F(1, n)) for x in tot]), "means": Arr((K, L), [c for x in mu for c in x]), "covariances": Arr((K, L, L), S)}
                    parts = []
                    for k, x in want.items():
                        v = r.state.heap.get((leaf[k], "data")) if r.state is not None else None
                        if v is None and r.state is not None:
                            v = next((y for (o, nm), y in r.state.heap.items() if nm == k and o.op == "obj" and o.args[0] == q and y is not leaf[k]), None)
                        parts.append((f"the {k} after one step", v, x))
                for what, v, x in parts:
                    if v is None:
                        ctx.unknown(rule, f"{who}: {what}")
                        continue
                    got = arr(e(v))
                    if got.shape != x.shape:
                        ctx.bad(rule, f.qual, f"{who}: {what} has shape {got.shape} instead of {x.shape}", f.module.path, f.node.lineno)
                        continue
                    ds = [differ(a, b, 1e-5) for a, b in zip(got.c, x.c)]
                    wrong = [(i, y) for i, y in enumerate(ds) if y]
                    if wrong:
                        i, y = wrong[0]
                        ctx.bad(rule, f.qual, f"{who}: {what} is {y[0]} in entry {i} where the mixture with normalised responsibilities per point gives {y[1]}", f.module.path, f.node.lineno)
                    elif any(y is None for y in ds):
                        ctx.unknown(rule, f"{who}: {what}")
                    else:
                        ctx.ok(rule, f"{who}: {what}")
            except Illshaped as u:
                ctx.bad(rule, f.qual, f"{who}: {u}", f.module.path, f.node.lineno)
            except Unknown as u:
                ctx.unknown(rule, f"{who}: {u}")
