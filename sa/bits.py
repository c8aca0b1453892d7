"""Bit scores of a few respondents with symbolic response probabilities."""
from fractions import Fraction as F

from . import cells as C
from .abst import Unknown, arr, scalar
from .cells import Arr, Poly, Illshaped
from .stats import World, Abstract, Hooks
from .terms import T, const

CASES = [
    # label, item categories, items, directions, start, latent scores
    ("one variable", [3, 2], [0, 1], [1], [F(-2)], [[F(3, 2)], [F(-1)], [F(1, 2)], [F(-5, 2)], [F(-1)]]),
    ("one falling variable", [2, 3], [1], [-1], [F(2)], [[F(1, 2)], [F(-3, 2)], [F(5, 2)], [F(1)]]),
    ("two variables", [3, 2, 2], [0, 2], [1, -1], [F(-2), F(5, 2)], [[F(3, 2), F(1)], [F(-1), F(-3, 2)], [F(1, 4), F(2)], [F(3), F(1, 2)]]),
    ("population", [3, 2, 2], [0, 2], [1, -1], [F(-2), F(5, 2)], [[F(3, 2), F(1)], [F(-1), F(-3, 2)], [F(1, 4), F(2)], [F(3), F(1, 2)]],
     [[F(-1), F(1)], [F(1), F(2)], [F(2), F(-1)], [F(1, 2), F(1, 2)], [F(0), F(-2)]]),
    ("two rising variables", [2, 2], [0, 1], [1, 1], [F(-3), F(-1)], [[F(-1, 2), F(2)], [F(1), F(1, 3)], [F(2), F(-1, 2)]]),
]


def atoms(c, seen):
    """points and items of the probabilities in one cell"""
    if isinstance(c, (tuple, list)):
        if len(c) == 4 and c[0] == "prob":
            seen.add((c[1], c[2]))
            return
        for x in c:
            atoms(x, seen)
    elif isinstance(c, Poly):
        for mono in c.m:
            for i, _ in mono:
                atoms(C.Atoms.items[i], seen)


def entropy(w, key, j):
    ps = w.prob(key, j)[:w.cats[j]]
    return C.neg(C.total([C.mul(p, C.mul(C.log(p), 1 / 0.6931471805599453)) for p in ps]))


def length(w, items, ks):
    """length of the entropy curves through these points in this order"""
    out = 0
    for j in items:
        for a, b in zip(ks, ks[1:]):
            out = C.add(out, C.fn("abs", C.add(entropy(w, b, j), C.neg(entropy(w, a, j)))))
    return out


def check(ctx, rule, methods=("transform", "transform_to_1D"), exact=True, items_only=False):
    from .rules.c32 import differ
    p = ctx.p
    q = p.cls("Bit").qual if p.cls("Bit") else None
    if q is None:
        return
    for label, cats, items, sign, start, theta, *pop in CASES:
        L = len(sign)
        w = World(label, cats, [[0] * len(cats)] * len(theta), theta)
        for m in methods:
            f = p.find_method(q, m)
            if f is None or L == 1 and m != "transform":
                continue
            A = Abstract(ctx.lib, w, q)
            A.fields = {"items": T("list", tuple(const(i) for i in items)), "grid_points": const(3), "_population_theta": const(None)}
            for n, v in ([("_population_theta", Arr((len(pop[0]), L), [x for r in pop[0] for x in r]))] if pop else []) + list((("_invert_scale_multiplier", Arr((1, L), sign)), ("_start_theta", Arr((L,), start)))):
                t = T("leaf", n, v.shape)
                A.fields[n] = t
                A.env[t] = v
            th = f.posnames[1] if f.posnames[:1] == ["self"] else f.posnames[0]
            where = f"{f.qual}"
            try:
                r, e = A.run(m, {th: A.theta})
                got = e(r.value)
            except Illshaped as u:
                ctx.bad(rule, where, f"{label}: {u}", f.module.path, f.node.lineno)
                continue
            except Unknown as u:
                ctx.unknown(rule, f"{m}, {label}: {u}")
                continue
            cols = L if m == "transform" else 1
            if not isinstance(got, Arr) or got.shape != (len(theta), cols):
                ctx.bad(rule, where, f"{label}: the bit scores have shape {getattr(got, 'shape', None)} for {len(theta)} respondents", f.module.path, f.node.lineno)
                continue
            for i, t in enumerate(theta):
                own = [max(a * s, b * s) for a, b, s in zip(t, start, sign)]
                for v in range(cols):
                    c = got.c[i * cols + v]
                    if c is None:
                        ctx.unknown(rule, f"{m}, {label}")
                        continue
                    seen = set()
                    atoms(c, seen)
                    adj = {k: tuple(x * s for x, s in zip(k, sign)) for k, _ in seen}
                    js = {j for _, j in seen}
                    who = f"{label}: respondent {i + 1}" + (f", latent variable {v + 1}" if cols > 1 else "")
                    along = [v] if cols > 1 or L == 1 else range(L)
                    low = [b * s for b, s in zip(start, sign)]
                    still = all(own[a] == low[a] for a in along)
                    msg = None
                    if still:
                        if not (not isinstance(c, Poly) and c == 0):
                            msg = "a respondent at the starting score does not have zero bits"
                    elif js != set(items):
                        msg = f"the bits are those of items {sorted(js)} instead of {sorted(items)} (zero-based)"
                    elif items_only:
                        pass
                    elif any(max(k[a] for k in adj.values()) != own[a] for a in along):
                        msg = "the bits are counted up to " + str([str(max(k[a] for k in adj.values())) for a in along]) + " instead of the respondent's own score " + str([str(own[a]) for a in along])
                    elif any(min(k[a] for k in adj.values()) != low[a] for a in along):
                        msg = "the bits are not counted from the starting score"
                    elif any(len({k[a] for k in adj.values()}) > 1 for a in range(L) if a not in along):
                        msg = "the other latent variables are not held fixed"
                    elif exact:
                        ks = sorted(adj, key=lambda k: sum(adj[k]))
                        d = differ(c, length(w, items, ks), 1e-6)
                        if d is None:
                            ctx.unknown(rule, f"{m}, {who}")
                            continue
                        if d:
                            msg = "the bits are not the length of the item entropy curves up to the respondent's score"
                    if msg:
                        ctx.bad(rule, where, f"{who}: {msg}", f.module.path, f.node.lineno)
                    else:
                        ctx.ok(rule, f"{m}, {who}")


class Guess(Hooks):
    """records the guessed responses that are scored"""
    def __init__(self, w, lib):
        super().__init__(w, lib)
        self.asked, self.scored = [], []

    def h_random_guessing_data(self, ev, a):
        got = {n: ev(v) for n, v in a.items() if n != "size"}
        self.asked.append(got)
        n = len(self.listed(got.get("item_categories")))
        return Arr((3, n), [C.atom("free", "guess", i, k) for i in range(3) for k in range(n)])

    def h_latent_scores(self, ev, a):
        d = arr(ev(a["data"]))
        self.scored.append(d)
        return Arr((d.shape[0], self.w.L), [F(i + v) for i in range(d.shape[0]) for v in range(self.w.L)])

    @staticmethod
    def listed(x):
        return list(x.c) if isinstance(x, Arr) else [scalar(c) for c in x] if isinstance(x, (list, tuple)) else None


def guessing(ctx, rule, what):
    """The starting score of multiple choice models: guessed responses of the chosen items, with their categories and correct responses, all other
    items missing."""
    p = ctx.p
    q = p.cls("Bit").qual if p.cls("Bit") else None
    f = p.find_method(q, "bit_score_starting_theta_mc") if q else None
    g = [x for x in p.functions.values() if x.name == "random_guessing_data" and x.cls is None]
    if f is None or len(g) != 1:
        return
    cats, mc = [2, 3, 4, 5], [1, 2, 0, 3]
    for items in ([0, 2], [1], [3, 1], None):
        w = World("guessing", cats, [[0] * 4] * 2, [[F(0), F(1)]] * 2, mc=mc)
        A = Abstract(ctx.lib, w, q, hooks=Guess)
        A.opaque.add(g[0].qual)
        sel = items if items is not None else [0, 1, 2, 3]
        label = f"items {items}"
        A.fields = {"items": T("list", tuple(const(i) for i in range(4))), "grid_points": const(3)}
        try:
            r, e = A.run(f.name, {"items": const(None) if items is None else T("list", tuple(const(i) for i in items))})
            v = [e.data[3] for e in r.events if e.kind == "setattr" and e.data[1] == "_start_theta"]
            if not v:
                raise Unknown("no starting score")
            A.hooks.asked.clear()
            A.hooks.scored.clear()
            e(v[-1])
            asked, scored = A.hooks.asked, A.hooks.scored
            if not asked or not scored:
                raise Unknown("no guessed responses")
            got = asked[-1]
            d = scored[-1]
            listed = {n: Guess.listed(got.get(n)) for n in ("item_categories", "guessing_probabilities", "mc_correct")}
        except Illshaped as u:
            ctx.bad(rule, f.qual, f"{label}: {u}", f.module.path, f.node.lineno)
            continue
        except (Unknown, TypeError) as u:
            ctx.unknown(rule, f"starting score, {label}: {u}")
            continue
        msg = None
        if what == "items":
            want = {"item_categories": [cats[i] for i in sel], "mc_correct": [mc[i] for i in sel], "guessing_probabilities": [1 / cats[i] for i in sel]}
            for n, x in listed.items():
                if x is None or any(not C.number(c) for c in x):
                    continue
                if len(x) != len(want[n]) or any(abs(float(a) - float(b)) > 1e-9 for a, b in zip(x, want[n])):
                    msg = f"{n} of the guessed responses are {[str(c) for c in x]}, those of the chosen items (zero-based) are {[str(c) for c in want[n]]}"
        else:
            if d.ndim != 2 or d.shape[1] != len(cats):
                msg = f"responses of shape {d.shape} are scored with a model of {len(cats)} items"
            else:
                for i in range(d.shape[0]):
                    for j in range(len(cats)):
                        c = d.c[i * len(cats) + j]
                        if what == "missing" and j not in sel:
                            if C.number(c) and c != -1 and c == c:
                                msg = f"item {j} (zero-based) is not among the chosen ones but scored with the response {c}"
                        elif what == "aligned" and j in sel:
                            if isinstance(c, Poly) and C.add(c, C.neg(C.atom("free", "guess", i, sel.index(j)))) != 0:
                                msg = f"item {j} (zero-based) is scored with the guessed responses of another item or respondent"
        if msg:
            ctx.bad(rule, f.qual, f"{label}: {msg}", f.module.path, f.node.lineno)
        else:
            ctx.ok(rule, f"starting score, {label}")
