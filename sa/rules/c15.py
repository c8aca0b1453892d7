"""C15: an item's probabilities depend on the latent variables it is related to and on no other."""
import random

from .. import cells as C, models
from ..abst import value, Unknown
from .c14 import where, at_text


def check(ctx):
    for case in models.cases(ctx.lib):
        if case.probs is None:
            ctx.unknown("cut-off", f"{case.label}: {case.why}")
            continue
        N, J, K = case.probs.shape if case.probs.ndim == 3 else (0, 0, 0)
        if (N, J) != (case.rows, len(case.cats)):
            ctx.unknown("cut-off", f"{case.label}: shape {case.probs.shape}")
            continue
        for r in range(N):
            for j in range(J):
                for v in range(case.lvs):
                    relation(ctx, case, r, j, v)
    ctx.floor("cut-off", 30)
    ctx.floor("connected", 50)


def relation(ctx, case, r, j, v):
    q, path, line = where(ctx, case, "forward")
    th = C.atom("theta", r, v)
    (a, _), = next(iter(th.m))
    cells = case.item(r, j)
    who = f"{case.label} item {j + 1}, latent variable {v + 1}"
    if any(c is None for c in cells):
        ctx.unknown("cut-off", who)
        return
    related = bool(case.rel[j][v])
    cells = [C.reduce(c) for c in cells]
    dep = [i for i, c in enumerate(cells) if a in C.deps(c)]
    if related:
        if dep:
            ctx.ok("connected", who)
        else:
            ctx.bad("connected", q, f"{who}: the item is related to the latent variable but no probability depends on it", path, line)
        return
    if not dep:
        ctx.ok("cut-off", who)
        return
    w = moves([cells[i] for i in dep], a)
    if w:
        at, x, y, i = w
        ctx.bad("cut-off", q, f"{who}: the item is not related to the latent variable, yet the probability of score {dep[i]} is {x:.4g} or {y:.4g} when only it changes from {at[a]:.3g}, at {at_text(at)}", path, line)
    else:
        ctx.unknown("cut-off", who)


def moves(cells, a, n=24):
    """a point at which a cell changes when only one atom does"""
    atoms = sorted(set().union(*[C.deps(c) for c in cells]))
    rnd = random.Random(11)
    for i in range(n):
        w = (0.5, 1.5)[i % 2]
        at = {x: rnd.uniform(-w, w) for x in atoms}
        for i, c in enumerate(cells):
            try:
                x = value(c, at)
                y = value(c, {**at, a: at[a] + (1.0 if at[a] < 0 else -1.0)})
            except (Unknown, ValueError, ZeroDivisionError, OverflowError):
                continue
            if abs(x - y) > 1e-6:
                return at, x, y, i
    return None
