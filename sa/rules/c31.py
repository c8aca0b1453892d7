"""C31: response probabilities follow the formula of the model, and the parameter table holds the parameters of that formula."""
import re

from .. import cells as C, models
from ..abst import Frame, Unknown, arr, value
from ..cells import Illshaped, Poly
from ..terms import const
from .c13 import log_ratio, spline_direction
from .c14 import at_text, points, where, witness

ONE = [("1 latent variable", [3, 2], 1, [[True], [True]])]


def check(ctx):
    for case in models.cases(ctx.lib, configs=models.CONFIGS + ONE):
        if case.probs is None:
            if not case.ill:
                ctx.unknown("formula", f"{case.label}: {case.why}")
            continue
        N, J, K = case.probs.shape if case.probs.ndim == 3 else (0, 0, 0)
        if (N, J) != (case.rows, len(case.cats)) or K < max(case.cats):
            ctx.unknown("formula", f"{case.label}: shape {case.probs.shape}")
            continue
        f = SPECS.get(case.name)
        if f is None:
            ctx.unknown("formula", f"{case.label}: no specification for this class")
            continue
        f(Model(ctx, case))
        directions(Model(ctx, case))
    ctx.floor("formula", 60)


class Model:
    def __init__(self, ctx, case):
        self.ctx, self.case = ctx, case
        self.J, self.L = len(case.cats), case.lvs
        self.lib = case.lib

    def P(self, j, r=0):
        return self.case.item(r, j)[:self.case.cats[j]]

    def theta(self, r=0):
        return [C.atom("theta", r, v) for v in range(self.L)]

    def equal(self, rule, who, got, want, method="forward", what=""):
        """got and want are the same function of parameters and scores"""
        if got is None or want is None:
            self.ctx.unknown(rule, who)
            return
        d = C.reduce(C.add(got, C.neg(want)))
        if d is None:
            self.ctx.unknown(rule, who)
        elif not isinstance(d, Poly) and (d != d or abs(d) < 1e-9):
            if d != d:
                # both are the same infinity
                (self.ctx.ok if not isinstance(got, Poly) and got == want else self.ctx.unknown)(rule, who)
            else:
                self.ctx.ok(rule, who)
        else:
            w = witness([got, want], lambda v: abs(v[0] - v[1]) > 1e-4 * (1 + abs(v[1])))
            q, path, line = where(self.ctx, self.case, method)
            if w:
                self.ctx.bad(rule, q, f"{who}: {what or 'the value'} is {float(w[1][0]):.4g} but the formula gives {float(w[1][1]):.4g} at {at_text(w[0])}", path, line)
            else:
                self.ctx.unknown(rule, f"{who}: not reduced")

    def claim(self, rule, who, good, text, method="forward"):
        if good is None:
            self.ctx.unknown(rule, who)
        elif good:
            self.ctx.ok(rule, who)
        else:
            q, path, line = where(self.ctx, self.case, method)
            self.ctx.bad(rule, q, f"{who}: {text}", path, line)

    def table(self, irt=False):
        f = self.lib.p.find_method(self.case.q, "item_parameters")
        if f is None:
            return None
        pre = {n: const(irt) for n in f.posnames + f.kwonly if n == "irt_format"}
        if irt and not pre:
            return None
        try:
            r, e = self.case.inst.method("item_parameters", pre)
            if r.value is None or r.state is None:
                raise Unknown("no value")
            v = e(r.value)
            if not isinstance(v, Frame):
                raise Unknown("not a table")
            return v
        except Unknown as u:
            q, path, line = where(self.ctx, self.case, "item_parameters")
            if isinstance(u, Illshaped):
                self.ctx.bad("table", q, f"{self.case.label}: {u}", path, line)
            else:
                self.ctx.unknown("table", f"{self.case.label}: {u}")
            return None

    def columns(self, t, letter, number):
        """columns of one kind in their order; None and a finding when there are not as many as the formula has"""
        cols = [c for c in t.cols if re.fullmatch(letter + r"\d*", str(c))]
        if len(cols) not in (number if isinstance(number, tuple) else (number,)):
            q, path, line = where(self.ctx, self.case, "item_parameters")
            self.ctx.bad("table", f"{q}({letter})", f"{self.case.label}: the table has the columns {t.cols}, which are {len(cols)} of kind {letter}", path, line)
            return None
        return [t.column(c) for c in cols]


def linear(m, a, j, th=None):
    th = th or m.theta()
    return C.total([C.mul(a[v][j], th[v]) for v in range(m.L)])


def own(m, who, entries):
    """every free entry of the table has a parameter of its own"""
    seen = {}
    for name, c in entries:
        ps = frozenset(a for a in C.deps(c) if C.Atoms.items[a][0] == "free") if isinstance(c, Poly) else frozenset()
        if not ps:
            m.claim("free", f"{who}: {name}", False if c is not None else None, f"{name} is fixed at {c} and is not estimated", "item_parameters")
        elif ps in seen:
            m.claim("free", f"{who}: {name}", False, f"{name} and {seen[ps]} are the same parameter", "item_parameters")
        else:
            seen[ps] = name
            m.claim("free", f"{who}: {name}", True, "")


def related(m, j, v):
    return m.case.rel[j][v]


def directions(m):
    """the reported sign of every item and latent variable is the sign of the slope of the item's curve"""
    case = m.case
    f = m.lib.p.find_method(case.q, "item_theta_relationship_directions")
    if f is None or f.qual.rsplit(".", 2)[-2] == "BaseIRTModel" or case.name == "NominalResponse":
        return   # estimated by regression on a sample
    try:
        r, e = case.inst.method("item_theta_relationship_directions", {n: const(None) for n in f.posnames if n == "theta"})
        if r.value is None:
            raise Unknown("no value")
        d = arr(e(r.value))
    except Unknown as u:
        m.ctx.unknown("directions", f"{case.label}: {u}")
        return
    q, path, line = where(m.ctx, case, "item_theta_relationship_directions")
    if d.shape != (m.J, m.L):
        m.ctx.bad("directions", q, f"{case.label}: directions have shape {d.shape} for {m.J} items and {m.L} latent variables", path, line)
        return
    mc = case.options.get("mc_correct")
    for j in range(m.J):
        P, k = m.P(j), case.cats[j]
        for v in range(m.L):
            c, who = d.c[j * m.L + v], f"{case.label} item {j + 1}, latent variable {v + 1}"
            th = next(iter(C.atom("theta", 0, v).m))[0][0]
            if c is None or any(p is None for p in P):
                m.ctx.unknown("directions", who)
                continue
            bad = n = 0
            flat = not any(th in C.deps(p) for p in P if isinstance(p, Poly))   # the curve has no term in the latent variable
            for at in points(P + [c], 8):
                try:
                    s = value(c, at)
                    ys = []
                    for x in (-0.7, 0.1, 0.9):
                        p = [value(u, {**at, th: x}) for u in P]
                        ys.append(p[mc[j]] if mc else sum(i * u for i, u in enumerate(p)))
                except (Unknown, ValueError, ZeroDivisionError, OverflowError):
                    continue
                up = [z - y for y, z in zip(ys, ys[1:])]
                real = 0 if flat else 1 if min(up) > 1e-7 else -1 if max(up) < -1e-7 else None
                if real is None:
                    continue   # saturated at this point
                n += 1
                if s != real:
                    bad = (s, real, at)
                    break
            if bad:
                m.ctx.bad("directions", q, f"{who}: the reported direction is {bad[0]:g} but the expected score {'rises' if bad[1] > 0 else 'falls' if bad[1] < 0 else 'does not change'} at {at_text(bad[2])}", path, line)
            elif n:
                m.ctx.ok("directions", who)
            else:
                m.ctx.unknown("directions", who)


def dichotomous(m, slope, guess):
    case, t = m.case, m.table()
    if t is None:
        return
    a = m.columns(t, "a", m.L) if slope else [[1] * m.J] * m.L
    d, c = m.columns(t, "d", 1), m.columns(t, "c", 1) if guess else [[0] * m.J]
    if a is None or d is None or c is None:
        return
    for j in range(m.J):
        who = f"{case.label} item {j + 1}"
        z = C.add(linear(m, a, j), d[0][j])
        if guess:
            s = C.fn("sigmoid", z)
            m.equal("formula", who, m.P(j)[1], C.add(c[0][j], C.mul(C.add(1, C.neg(c[0][j])), s)), what="the probability of a correct response")
        else:
            m.equal("formula", who, log_ratio(m.P(j)[1], m.P(j)[0]), z, what="the log-odds")
        own(m, who, [(f"a{v + 1}", a[v][j]) for v in range(m.L) if slope and related(m, j, v)] + [("d", d[0][j])] + ([("c", c[0][j])] if guess else []))
    if m.L == 1 and slope:
        t = m.table(True)
        if t is None:
            return
        a, b = m.columns(t, "a", 1), m.columns(t, "b", 1)
        c = m.columns(t, "c", 1) if guess else None
        if a and b:
            for j in range(m.J):
                who = f"{case.label} item {j + 1}, traditional format"
                z = C.mul(a[0][j], C.add(m.theta()[0], C.neg(b[0][j])))
                if guess and c:
                    s = C.fn("sigmoid", z)
                    m.equal("traditional", who, m.P(j)[1], C.add(c[0][j], C.mul(C.add(1, C.neg(c[0][j])), s)), "item_parameters", "the probability of a correct response")
                elif not guess:
                    m.equal("traditional", who, log_ratio(m.P(j)[1], m.P(j)[0]), z, "item_parameters", "the log-odds")


def per_category(m, cols, j):
    """values of the categories 1, 2, ... of one item"""
    K = m.case.probs.shape[2]
    first = 0 if len(cols) == K - 1 else 1
    return [cols[i + first][j] for i in range(m.case.cats[j] - 1)]


def graded(m):
    case, t, K = m.case, m.table(), m.case.probs.shape[2]
    if t is not None:
        a, d = m.columns(t, "a", m.L), m.columns(t, "d", (K - 1, K))
        if a and d:
            for j in range(m.J):
                who = f"{case.label} item {j + 1}"
                ds = per_category(m, d, j)
                for x in range(1, case.cats[j]):
                    m.equal("formula", f"{who} score {x}", C.total(m.P(j)[x:]), C.fn("sigmoid", C.add(linear(m, a, j), ds[x - 1])), what=f"the probability of at least {x}")
                own(m, who, [(f"a{v + 1}", a[v][j]) for v in range(m.L) if related(m, j, v)] + [(f"d{x + 1}", c) for x, c in enumerate(ds)])
    if m.L == 1:
        t = m.table(True)
        if t is not None:
            a, b = m.columns(t, "a", 1), m.columns(t, "b", (K - 1, K))
            if a and b:
                for j in range(m.J):
                    bs = per_category(m, b, j)
                    for x in range(1, case.cats[j]):
                        z = C.mul(a[0][j], C.add(m.theta()[0], C.neg(bs[x - 1])))
                        m.equal("traditional", f"{case.label} item {j + 1} score {x}, traditional format", C.total(m.P(j)[x:]), C.fn("sigmoid", z), "item_parameters", f"the probability of at least {x}")


def partial_credit(m):
    case, t, K = m.case, m.table(), m.case.probs.shape[2]
    if t is not None:
        a, d = m.columns(t, "a", m.L), m.columns(t, "d", (K - 1, K))
        if a and d:
            for j in range(m.J):
                who = f"{case.label} item {j + 1}"
                ds = per_category(m, d, j)
                for x in range(1, case.cats[j]):
                    m.equal("formula", f"{who} score {x}", log_ratio(m.P(j)[x], m.P(j)[0]), C.add(C.mul(x, linear(m, a, j)), ds[x - 1]), what=f"the log-odds of {x} against 0")
                own(m, who, [(f"a{v + 1}", a[v][j]) for v in range(m.L) if related(m, j, v)] + [(f"d{x + 1}", c) for x, c in enumerate(ds)])
    if m.L == 1:
        t = m.table(True)
        if t is not None:
            a, b = m.columns(t, "a", 1), m.columns(t, "b", (K - 1, K))
            if a and b:
                for j in range(m.J):
                    bs = per_category(m, b, j)
                    for x in range(1, case.cats[j]):
                        z = C.mul(a[0][j], C.add(m.theta()[0], C.neg(bs[x - 1])))
                        m.equal("traditional", f"{case.label} item {j + 1} score {x}, traditional format", log_ratio(m.P(j)[x], m.P(j)[x - 1]), z, "item_parameters", f"the log-odds of {x} against {x - 1}")


def nominal(m):
    case, t, K = m.case, m.table(), m.case.probs.shape[2]
    if t is None:
        return
    a, d = m.columns(t, "a", m.L * K), m.columns(t, "d", K)
    if a is None or d is None:
        return
    byname = all(f"a{v + 1}{x + 1}" in t.cols for v in range(m.L) for x in range(K))
    A = [[t.column(f"a{v + 1}{x + 1}") if byname else a[v * K + x] for x in range(K)] for v in range(m.L)]
    for j in range(m.J):
        who, k = f"{case.label} item {j + 1}", case.cats[j]
        for x in range(1, k):
            z = C.total([C.mul(C.add(A[v][x][j], C.neg(A[v][x - 1][j])), m.theta()[v]) for v in range(m.L)])
            m.equal("formula", f"{who} category {x}", log_ratio(m.P(j)[x], m.P(j)[x - 1]), C.add(z, C.add(d[x][j], C.neg(d[x - 1][j]))), what=f"the log-odds of {x} against {x - 1}")
        for v in range(m.L):
            m.equal("sum-zero", f"{who} weights of latent variable {v + 1}", C.total([A[v][x][j] for x in range(K)]), 0, "item_parameters", "the sum of the weights")
        m.equal("sum-zero", f"{who} biases", C.total([d[x][j] for x in range(K)]), 0, "item_parameters", "the sum of the biases")
        own(m, who, [(f"a{v + 1}{x + 1}", A[v][x][j]) for v in range(m.L) for x in range(1, k) if related(m, j, v)] + [(f"d{x + 1}", d[x][j]) for x in range(1, k)])


# ---------------------------------------------------------------------------------------------------------------- models without a table
def thetas(c):
    return {a for a in C.deps(c) if C.Atoms.items[a][0] == "theta"} if isinstance(c, Poly) else set()


def frees(c):
    return {a for a in C.deps(c) if C.Atoms.items[a][0] == "free"} if isinstance(c, Poly) else set()


def split_theta(c):
    """(part with scores, part without) of a polynomial"""
    if not isinstance(c, Poly):
        return 0, c
    with_, rest = {}, {}
    for m, k in c.m.items():
        (with_ if any(any(C.Atoms.items[x][0] == "theta" for x in C.atom_deps(a)) for a, _ in m) else rest)[m] = k
    return C.norm(Poly(with_)), C.norm(Poly(rest))


def monotone(m):
    case = m.case
    sep, mc = case.options.get("separate"), case.options.get("mc_correct")
    for j in range(m.J):
        who, k = f"{case.label} item {j + 1}", case.cats[j]
        P = m.P(j)
        if mc is not None:
            c = mc[j]
            # the correct option adds up the functions of all options
            other = [x for x in range(k) if x != c]
            ds = [(x, log_ratio(P[c], P[x])) for x in other]
        else:
            ds = [(x, log_ratio(P[x], P[x - 1])) for x in range(1, k)]
        if any(d is None for _, d in ds):
            m.ctx.unknown("formula", who)
            continue
        parts = [(x, split_theta(d)) for x, d in ds]
        if mc is None:
            if sep == "items":
                for (x, (f, _)), (_, (g, _)) in zip(parts[1:], parts):
                    m.equal("formula", f"{who} score {x}", f, g, what=f"the part of the log-odds of {x} against {x - 1} that depends on the scores, compared with the one of the previous score,")
            elif sep == "categories":
                for i, (x, (f, _)) in enumerate(parts):
                    others = set().union(*[frees(g) for z, (g, _) in parts if z != x]) if len(parts) > 1 else set()
                    m.claim("free", f"{who} score {x}", bool(frees(f) - others), f"the function of score {x} has no parameter of its own although the model is separate for categories")
        for i, (x, (_, b)) in enumerate(parts):
            # each constant has a parameter that the constants of the other log-odds do not all share
            before = set().union(*[frees(g) for z, (_, g) in parts if z < x]) if i else set()
            m.claim("free", f"{who} bias of score {x}", bool(frees(b) - before), f"the bias of score {x} is not a parameter of its own")
        if mc is not None:
            for x, (f, _) in parts:
                m.claim("formula", f"{who} option {x}", any(thetas(f)), f"the odds of the correct response against option {x} do not depend on the scores")


def surprisal(m):
    case = m.case
    for j in range(m.J):
        who, k = f"{case.label} item {j + 1}", case.cats[j]
        P = m.P(j)
        prev, surps = 1, []
        for x in range(k - 1, 0, -1):
            below = C.reduce(C.total(P[:x]))
            s = log_ratio(prev, below)
            if s is None or below is None:
                m.ctx.unknown("formula", f"{who} score {x}")
                break
            surps.append((x, s))
            prev = below
            lin = isinstance(s, Poly) and all(sum(C.Atoms.items[a][0] == "basis" for a, _ in mm) == 1 and all(C.Atoms.items[a][0] in ("basis", "fn") for a, _ in mm) for mm in s.m)
            if not lin:
                m.ctx.unknown("formula", f"{who} score {x}: {C.text(s)[:60]}")
                continue
            m.ctx.ok("formula", f"{who} score {x}")
            for v in range(m.L):
                th = next(iter(C.atom("theta", 0, v).m))[0][0]
                if th not in C.deps(s):
                    continue
                # the part of one latent variable: coefficients that rise along the basis
                part = C.norm(Poly({mm: kk for mm, kk in s.m.items() if any(th in C.atom_deps(a) for a, _ in mm)}))
                up = spline_direction(part, th)[0]
                m.claim("formula", f"{who} score {x}, latent variable {v + 1}", None if up is None else up > 0, f"the surprisal of staying below {x} falls as the score rises")
        for i, (x, s) in enumerate(surps):
            others = set().union(*[frees(g) for z, g in surps if z != x]) if len(surps) > 1 else set()
            m.claim("free", f"{who} score {x}", not (frees(s) & others) and bool(frees(s)), f"the surprisal function of score {x} shares parameters with another score")


def nested(m):
    case = m.case
    right = case.options.get("mc_correct")
    try:
        part = case.inst.parts[0]
        r, e = part.method("forward", {m.lib.p.find_method(part.q, "forward").posnames[1]: case.theta})
        r2, e2 = part.method("probabilities_from_output", {m.lib.p.find_method(part.q, "probabilities_from_output").posnames[1]: r.value})
        pc = e2(r2.value)
    except (Unknown, AttributeError, IndexError) as u:
        m.ctx.unknown("formula", f"{case.label}: {u}")
        return
    for j in range(m.J):
        who, k, c = f"{case.label} item {j + 1}", case.cats[j], right[j]
        P = m.P(j)
        for r in range(case.rows):
            m.equal("formula", f"{who} correct option, respondent {r + 1}", m.P(j, r)[c], pc.c[(r * m.J + j) * 2 + 1], what="the probability of the correct option")
        other = [x for x in range(k) if x != c]
        rest = C.reduce(C.total([P[x] for x in other]))
        m.equal("formula", f"{who} incorrect options", rest, pc.c[j * 2], what="the total probability of the incorrect options")
        for x, y in zip(other[1:], other):
            f = log_ratio(P[x], P[y])
            who2 = f"{who} options {y} and {x}"
            if f is None:
                m.ctx.unknown("formula", who2)
                continue
            alien = [a for a in frees(f) if str(C.Atoms.items[a][1]).startswith("correct.")]
            m.claim("formula", who2, not alien, f"the odds of two incorrect options depend on {C.atom_text(alien[0]) if alien else ''} of the model for correct responses")
            m.claim("formula", f"{who2} vary", bool(thetas(f)), "the odds of two incorrect options do not depend on the scores")
            m.claim("free", who2, bool(frees(f)), "the odds of two incorrect options have no parameter")


def mix(m):
    case, i = m.case, 0
    for part in case.inst.parts:
        try:
            r, _ = part.method("forward", {m.lib.p.find_method(part.q, "forward").posnames[1]: case.theta})
            r2, e2 = part.method("probabilities_from_output", {m.lib.p.find_method(part.q, "probabilities_from_output").posnames[1]: r.value})
            p = e2(r2.value)
        except Unknown as u:
            m.ctx.unknown("formula", f"{case.label}: {u}")
            return
        _, J, K = p.shape
        for j in range(J):
            for r in range(case.rows):
                for x in range(min(K, case.cats[i + j])):
                    m.equal("formula", f"{case.label} item {i + j + 1} category {x} respondent {r + 1}", m.P(i + j, r)[x], p.c[(r * J + j) * K + x], what="the probability")
        i += J


SPECS = {
    "OneParameterLogistic": lambda m: dichotomous(m, False, False),
    "TwoParameterLogistic": lambda m: dichotomous(m, True, False),
    "ThreeParameterLogistic": lambda m: dichotomous(m, True, True),
    "GradedResponse": graded,
    "GeneralizedPartialCredit": partial_credit,
    "NominalResponse": nominal,
    "NestedLogit": nested,
    "SurprisalSpline": surprisal,
    "MonotoneNN": monotone, "MonotonePolynomial": monotone, "MonotoneBSpline": monotone,
    "ModelMix": mix,
}
