"""C13: the curves of the monotone models are monotone in every latent variable, for all parameter values."""
import random

from .. import cells as C, models
from ..cells import Poly, INF
from ..abst import value, Unknown
from .c14 import where, at_text

GRID = [-4.0, -2.5, -1.5, -0.8, -0.3, 0.0, 0.3, 0.8, 1.5, 2.5, 4.0]


def check(ctx):
    names = {q.rsplit(".", 1)[-1] for q in ctx.lib.concrete("BaseIRTModel")}
    mono = sorted(n for n in names if n.startswith("Monotone"))
    for case in models.cases(ctx.lib, only=mono, configs=None):
        if case.probs is None:
            ctx.unknown("monotone", f"{case.label}: {case.why}")
            continue
        N, J, K = case.probs.shape if case.probs.ndim == 3 else (0, 0, 0)
        if (N, J) != (case.rows, len(case.cats)):
            ctx.unknown("monotone", f"{case.label}: shape {case.probs.shape}")
            continue
        for j in range(J):
            for v in range(case.lvs):
                curve(ctx, case, j, v)
    ctx.floor("monotone", 60)


def atom_id(c):
    (m, _), = c.m.items()
    return m[0][0]


def log_ratio(p, q):
    """log of p/q"""
    if p is None or q is None:
        return None
    if isinstance(p, Poly) and isinstance(q, Poly) and len(p.m) == 1 and len(q.m) == 1:
        (m, k), = p.m.items()
        (n, l), = q.m.items()
        return C.log(C.norm(Poly({C.mono_mul(m, tuple((a, -e) for a, e in n)): k / l})))
    r = C.reduce(C.div(p, q))
    return C.log(r)


def curve(ctx, case, j, v):
    q, path, line = where(ctx, case, "forward")
    k = case.cats[j]
    P = case.item(0, j)[:k]
    th = atom_id(C.atom("theta", 0, v))
    who = f"{case.label} item {j + 1}, latent variable {v + 1}"
    if any(c is None for c in P):
        ctx.unknown("monotone", who)
        return
    if all(th not in C.deps(c) for c in P):
        ctx.ok("monotone", f"{who}: constant")
        return
    correct = case.options.get("mc_correct")
    signed = bool(case.options.get("negative_latent_variable_item_relationships"))
    if correct is None:
        ds = [log_ratio(P[i + 1], P[i]) for i in range(k - 1)]
    else:
        ds = [log_ratio(P[correct[j]], P[i]) for i in range(k) if i != correct[j]]
    got = set()
    for d in ds:
        got.add(rising(d, th) if d is not None else (None, None))
    got.discard((0, None))
    if len(got) == 1:
        (s, f), = got
        if s is not None and (s > 0 and f is None or f is not None and signed):
            ctx.ok("monotone", who)
            return
    w = falls(case, j, v, th, P, correct, signed)
    if w:
        what = "the expected score" if correct is None else "the probability of the correct response"
        ctx.bad("monotone", q, f"{who}: {what} {w[0]} between {w[1]:g} and {w[2]:g} although the model is monotone for every parameter value; parameters {w[3]}", path, line)
    else:
        ctx.unknown("monotone", f"{who}: {got}")


def rising(d, th):
    """(direction, sign-free factor) of a polynomial as a function of one score"""
    r = C.direction(d, th)
    if r[0] is not None:
        return r
    r = spline_direction(d, th)
    if r[0] is not None:
        return r
    return power_direction(d, th)


# ---------------------------------------------------------------------------------------------------------------- polynomials
def in_powers(d, th):
    """coefficients of the powers of one score, None when the score is also inside a function"""
    out = {}
    for m, k in d.m.items():
        e, rest = 0, []
        for a, x in m:
            if a == th:
                e = x
            elif th in C.atom_deps(a):
                return None
            else:
                rest.append((a, x))
        if e < 0:
            return None
        out.setdefault(e, {})[tuple(rest)] = k
    return {e: Poly(p) for e, p in out.items()}


def power_direction(d, th):
    cs = in_powers(d, th) if isinstance(d, Poly) else None
    if not cs:
        return None, None
    n = max(cs)
    # derivative: coefficient of x^(e-1)
    D = [C.mul(C.norm(cs[e]), e) if e in cs else 0 for e in range(1, n + 1)]
    # groups of terms that share their sign-free factors and functions: derivative = sum of parts
    whole = 0
    x = C.atom("theta", "x", 0)
    for e, c in enumerate(D):
        whole = C.add(whole, C.mul(c, C.power(x, e) if e else 1))
    if not isinstance(whole, Poly):
        return None, None
    m, k, prim = C.content(whole)
    s, free = 1, None
    for a, e in m:
        lo, hi = C.atom_range(a)
        if lo >= 0 or e % 2 == 0:
            continue
        if hi <= 0:
            s = -s
        elif free is None and e == 1:
            free = a
        else:
            return None, None
    s = s if k > 0 else -s
    xa = atom_id(x)
    qs = in_powers(prim, xa)
    if qs is None:
        return None, None
    coefs = [C.norm(qs[e]) if e in qs else 0 for e in range(max(qs) + 1)]
    for sg in (1, -1):
        cf = coefs if sg > 0 else [C.neg(c) for c in coefs]
        if nonnegative(cf):
            return s * sg, free
    return None, None


def nonnegative(cf):
    """whether c0 + c1 x + c2 x^2 + ... is nowhere negative"""
    while cf and not isinstance(cf[-1], Poly) and cf[-1] == 0:
        cf = cf[:-1]
    n = len(cf) - 1
    if n <= 0:
        return not cf or C.bounds(cf[0])[0] >= 0
    if n % 2:
        return False
    if n == 2:
        disc = C.add(C.mul(cf[1], cf[1]), C.neg(C.mul(4, C.mul(cf[0], cf[2]))))
        return C.bounds(cf[0])[0] >= 0 and C.bounds(cf[2])[0] >= 0 and C.bounds(disc)[1] <= 0
    # a factor 1 - 2 a x + (a^2 + t) x^2 for some parameters a and t >= 0
    atoms = sorted({a for c in cf if isinstance(c, Poly) for m in c.m for a, _ in m})
    free = [a for a in atoms if C.Atoms.items[a][0] == "free"]
    pos = [a for a in atoms if C.Atoms.items[a][0] == "fn" and C.atom_range(a)[0] >= 0]
    for a in free:
        A = Poly({((a, 1),): 1})
        for t in pos:
            quad = [1, C.mul(-2, A), C.add(C.mul(A, A), Poly({((t, 1),): 1}))]
            rest = divide(cf, quad)
            if rest is not None:
                return nonnegative(rest)
    return False


def divide(cf, quad):
    """quotient of power series that must end: cf / quad, lowest power first"""
    r = list(cf)
    n = len(cf) - 2
    q = []
    for i in range(n):
        c = r[i]
        if c is None:
            return None
        q.append(c)
        for j, u in enumerate(quad):
            r[i + j] = C.add(r[i + j], C.neg(C.mul(c, u)))
    if all(not isinstance(c, Poly) and c == 0 for c in r[:n] + r[n:]):
        return q
    return None


# ---------------------------------------------------------------------------------------------------------------- splines
def spline_direction(d, th):
    """sums of spline basis functions with coefficients that increase along the basis"""
    if not isinstance(d, Poly):
        return None, None
    fam, rest = {}, {}
    for m, k in d.m.items():
        b = [(a, e) for a, e in m if th in C.atom_deps(a)]
        if not b:
            continue
        if len(b) != 1 or b[0][1] != 1 or C.Atoms.items[b[0][0]][0] != "basis":
            return None, None
        _, x, j, knots, p = C.Atoms.items[b[0][0]]
        key = (x, knots, p)
        mono = tuple((a, e) for a, e in m if a != b[0][0])
        fam.setdefault(key, {}).setdefault(j, {})[mono] = k
    out = set()
    for (x, knots, p), cs in fam.items():
        n = len(knots) - p - 1
        lo, hi = C.bounds(x)
        if any(u > w for u, w in zip(knots, knots[1:])) or len(set(knots[:p + 1])) > 1 or len(set(knots[-p - 1:])) > 1 or lo < knots[0] or hi > knots[-1]:
            return None, None
        xd, f = C.direction(x, th)
        if xd is None or f is not None:
            return None, None
        c = [C.norm(Poly(cs.get(j, {}))) for j in range(n)]
        steps = [C.add(c[j + 1], C.neg(c[j])) for j in range(n - 1)]
        if all(C.bounds(s)[0] >= 0 for s in steps):
            out.add(xd)
        elif all(C.bounds(s)[1] <= 0 for s in steps):
            out.add(-xd)
        else:
            return None, None
    return (out.pop(), None) if len(out) == 1 else (None, None)


# ---------------------------------------------------------------------------------------------------------------- counterexamples
def falls(case, j, v, th, P, correct, signed, n=40):
    atoms = sorted(set().union(*[C.deps(c) for c in P]) - {th})
    rnd = random.Random(5)
    for i in range(n):
        w = (0.5, 1.0, 2.0, 4.0)[i % 4]
        at = {a: rnd.uniform(-w, w) for a in atoms}
        ys = []
        try:
            for x in GRID:
                p = [value(c, {**at, th: x}) for c in P]
                ys.append(p[correct[j]] if correct is not None else sum(s * u for s, u in enumerate(p)))
        except (Unknown, ValueError, ZeroDivisionError, OverflowError):
            continue
        up = [(a, b) for (a, y), (b, z) in zip(zip(GRID, ys), zip(GRID[1:], ys[1:])) if z - y > 1e-6]
        dn = [(a, b) for (a, y), (b, z) in zip(zip(GRID, ys), zip(GRID[1:], ys[1:])) if y - z > 1e-6]
        if dn and not signed:
            return "falls", dn[0][0], dn[0][1], at_text(at, 8)
        if up and dn:
            return f"rises between {up[0][0]:g} and {up[0][1]:g} but falls", dn[0][0], dn[0][1], at_text(at, 8)
    return None
