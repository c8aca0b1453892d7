"""C14: response probabilities are a distribution over the categories an item has."""
import random

from .. import cells as C, models
from ..abst import value, Unknown

SAMPLES = 60


def where(ctx, case, method):
    f = ctx.p.find_method(case.q, method)
    return f.qual, f.module.path, f.node.lineno


def points(cells, n=SAMPLES, seed=7):
    """fixed values of the basic atoms of some cells"""
    atoms = sorted(set().union(*[C.deps(c) for c in cells])) if cells else []
    rnd = random.Random(seed)
    for i in range(n):
        w = (0.3, 1.0, 3.0)[i % 3]
        yield {a: rnd.uniform(-w, w) for a in atoms}


def witness(cells, f, n=SAMPLES):
    """(values of the atoms, result) where f(numbers of the cells) is true"""
    for at in points(cells, n):
        try:
            v = [value(c, at) for c in cells]
        except (Unknown, ValueError, ZeroDivisionError, OverflowError):
            continue
        if f(v):
            return at, v
    return None


def at_text(at, only=6):
    return ", ".join(f"{C.atom_text(a)}={v:.3g}" for a, v in list(at.items())[:only]) + (" …" if len(at) > only else "")


def check(ctx):
    n = 0
    for case in models.cases(ctx.lib):
        if case.probs is None:
            if case.ill:
                q, path, line = where(ctx, case, "forward")
                ctx.bad("well-shaped", f"{q}", f"{case.label}: {case.why}, so the model has no probabilities", path, line)
            else:
                ctx.unknown("distribution", f"{case.label}: {case.why}")
            continue
        ctx.ok("well-shaped", case.label)
        n += 1
        distribution(ctx, case)
    ctx.floor("distribution", 100)


def distribution(ctx, case):
    q, path, line = where(ctx, case, "probabilities_from_output")
    fq, fpath, fline = where(ctx, case, "forward")
    N, J, K = case.probs.shape if case.probs.ndim == 3 else (0, 0, 0)
    if (N, J) != (case.rows, len(case.cats)):
        ctx.bad("layout", q, f"{case.label}: probabilities have shape {case.probs.shape} for {case.rows} respondents and {len(case.cats)} items", path, line)
        return
    if K < max(case.cats):
        ctx.bad("layout", q, f"{case.label}: {K} probabilities per item but an item has {max(case.cats)} categories", path, line)
        return
    for r in range(N):
        for j in range(J):
            P, k = case.item(r, j), case.cats[j]
            who = f"{case.label} item {j + 1}"
            if any(isinstance(c, float) and c != c for c in P):
                ctx.bad("distribution", fq, f"{who}: the probabilities are NaN", fpath, fline)
                continue
            absent(ctx, case, who, P, k, fq, fpath, fline)
            positive(ctx, case, who, P, k, q, path, line)
            one(ctx, case, who, P, k, q, path, line)
    separate(ctx, case, fq, fpath, fline)


def absent(ctx, case, who, P, k, q, path, line):
    """categories the item does not have"""
    for i, c in enumerate(P[k:], k):
        c = C.reduce(c)
        if c is None:
            ctx.unknown("absent", f"{who}: category {i}")
        elif not isinstance(c, C.Poly) and c == 0:
            ctx.ok("absent", f"{who}: category {i}")
        else:
            w = witness([c], lambda v: abs(v[0]) > 1e-9)
            if w:
                ctx.bad("absent", q, f"{who} has {k} categories but score {i} has probability {w[1][0]:.3g} at {at_text(w[0])}", path, line)
            else:
                ctx.unknown("absent", f"{who}: category {i}")


def positive(ctx, case, who, P, k, q, path, line):
    for i, c in enumerate(P[:k]):
        if c is None:
            ctx.unknown("non-negative", f"{who}: category {i}")
            continue
        if C.bounds(c)[0] >= 0:
            ctx.ok("non-negative", f"{who}: category {i}")
            continue
        w = witness([c], lambda v: v[0] < -1e-6)
        if w:
            ctx.bad("non-negative", f"{q}({'first' if i == 0 else 'last' if i == k - 1 else 'middle'})", f"{who}: the probability of score {i} is {w[1][0]:.3g} at {at_text(w[0])}", path, line)
        else:
            ctx.unknown("non-negative", f"{who}: category {i}: {C.text(c)[:80]}")


def one(ctx, case, who, P, k, q, path, line):
    if any(c is None for c in P):
        ctx.unknown("distribution", who)
        return
    s = C.reduce(C.total(P))
    if s is not None and not isinstance(s, C.Poly):
        if abs(s - 1) < 1e-9:
            ctx.ok("distribution", who)
        else:
            ctx.bad("distribution", q, f"{who}: the probabilities sum to {float(s):g}", path, line)
        return
    w = witness(list(P), lambda v: abs(sum(v) - 1) > 1e-4)
    if w:
        ctx.bad("distribution", q, f"{who}: the probabilities sum to {sum(w[1]):.4g} at {at_text(w[0])}", path, line)
    else:
        ctx.unknown("distribution", f"{who}: the sum does not reduce")


def params(P):
    return {a for c in P for a in C.deps(c) if C.Atoms.items[a][0] == "free"}


def separate(ctx, case, q, path, line):
    """no item is driven by a parameter of another one, and no respondent by the scores of another one"""
    N, J, K = case.probs.shape
    use = [params(case.item(0, j)) for j in range(J)]
    for j in range(J):
        for i in range(j):
            both = use[i] & use[j]
            if not both:
                ctx.ok("separate", f"{case.label} items {i + 1} and {j + 1}")
            else:
                a = min(both)
                ctx.bad("separate", q, f"{case.label}: items {i + 1} and {j + 1} both depend on parameter {C.atom_text(a)}", path, line)
    for r in range(N):
        other = {a for j in range(J) for c in case.item(r, j) for a in C.deps(c) if C.Atoms.items[a][0] == "theta" and C.Atoms.items[a][1] != r}
        if other:
            ctx.bad("rows", q, f"{case.label}: the probabilities of respondent {r + 1} depend on {C.atom_text(min(other))}", path, line)
        else:
            ctx.ok("rows", f"{case.label} respondent {r + 1}")
