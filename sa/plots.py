"""Figures of an abstract model: which numbers are drawn against which, and what the labels say."""
import math
from fractions import Fraction as F

from . import cells as C
from .abst import Frame, Unknown, arr, scalar
from .cells import Arr, Illshaped, Poly
from .stats import Abstract, Hooks, World, canon, lst
from .terms import T, const, cval, is_const, walk

PX = ("plotly.express.line", "plotly.express.scatter", "plotly.express.histogram", "plotly.express.area")
GO = ("plotly.graph_objects.Scatter", "plotly.graph_objects.Surface", "plotly.graph_objects.Scatter3d", "plotly.graph_objects.Contour",
      "plotly.graph_objects.Scattergl", "plotly.graph_objects.Heatmap", "plotly.graph_objects.Histogram", "plotly.graph_objects.Bar")


class PlotWorld(World):
    """a model with a linear scale transformation"""
    def __init__(self, label, cats, data, theta, invertible=True, a=3, b=-2, trained=True, **kw):
        super().__init__(label, cats, data, theta, **kw)
        self.a, self.b, self.invertible, self.trained = F(a), F(b), invertible, trained

    def move(self, t):
        return tuple(self.a + self.b * v + (F(1, 4) * t[(k + 1) % len(t)] if len(t) > 1 else 0) for k, v in enumerate(t))

    def unmove(self, s):
        L = len(s)
        if L == 1:
            return ((s[0] - self.a) / self.b,)
        A = [[F(0)] * L + [F(s[k]) - self.a] for k in range(L)]
        for k in range(L):
            A[k][k] += self.b
            A[k][(k + 1) % L] += F(1, 4)
        for k in range(L):
            p = next(i for i in range(k, L) if A[i][k] != 0)
            A[k], A[p] = A[p], A[k]
            A[k] = [x / A[k][k] for x in A[k]]
            for i in range(L):
                if i != k and A[i][k] != 0:
                    A[i] = [x - A[i][k] * y for x, y in zip(A[i], A[k])]
        return tuple(A[k][L] for k in range(L))


class PlotHooks(Hooks):
    def h_inverse_transform_theta(self, ev, a):
        ks = self.points(self.arg(ev, a, "transformed_theta"))
        if self.w.scale and not self.w.invertible:
            raise Illshaped("the inverse of a scale transformation that has none")
        return Arr((len(ks), self.w.L), [c for k in ks for c in (self.w.unmove(k) if self.w.scale else k)])

    def h_information(self, ev, a):
        w = self.w
        ks = self.points(self.arg(ev, a, "theta"))
        item = scalar(self.arg(ev, a, "item", True))
        degrees = self.arg(ev, a, "degrees")
        how = "moved" if scalar(self.arg(ev, a, "rescale", True)) and w.scale else "plain"
        if degrees is None and w.L > 1:
            raise Unknown("an information matrix")
        each = [[C.atom("out", "information", how, k, j) for j in range(w.J)] for k in ks]
        if item:
            return Arr((len(ks), w.J), [c for r in each for c in r])
        return Arr((len(ks),), [C.total(r) for r in each])


class Series:
    def __init__(self, e, kind, axes, name):
        self.e, self.kind, self.axes, self.name = e, kind, axes, name


class Figure:
    def __init__(self):
        self.series, self.texts, self.unknown = [], {}, []


def draw(A, name, presets):
    """what a method of the plotter draws"""
    r, e = A.run(name, presets)
    fig = Figure()
    fig.r, fig.e = r, e
    raised = [x for x in r.events if x.kind == "raise" and len(x.stack) == 1 and all(e.truth(c) is True if p else e.truth(c) is False for c, p in x.conds)]
    if raised or r.state is None:
        fig.raised = raised[0] if raised else None
        raise Unknown("raises")
    for x in r.events:
        if x.kind != "call" or x.data.op not in ("call", "meth"):
            continue
        d = x.data
        if d.op == "call" and (d.args[0] in PX or d.args[0] in GO):
            if any((e.truth(c) is False) if p else (e.truth(c) is True) for c, p in x.conds):
                continue
            if any(e.truth(c) is None for c, p in x.conds):
                fig.unknown.append("drawn under a condition")
                continue
            series(fig, e, x, d)
        elif d.op == "meth" and str(d.args[0]).startswith("update_"):
            texts(fig, e, "", T("dict", tuple((const(k), v) for k, v in d.args[3] if k is not None)))
    return fig


def histogram(fig, e, x, kw):
    """a contour of a two-dimensional histogram: the samples along each axis"""
    h = next((t for t in walk(kw["z"]) if t.op == "call" and t.args[0] == "numpy.histogram2d"), None)
    if h is None:
        return False
    named = dict(h.args[2])
    samples = [h.args[1][k] if len(h.args[1]) > k else named.get("xy"[k]) for k in (0, 1)]
    at = {}
    for n in ("x", "y"):
        at[n] = {cval(t.args[1]) for t in walk(kw[n]) if t.op == "index" and t.args[0] == h and is_const(t.args[1])} if n in kw else set()
    z, turned = kw["z"], False
    while not (z.op == "index" and z.args[0] == h):
        if z.op == "attr" and z.args[1] == "T" or z.op == "meth" and z.args[0] in ("transpose", "swapaxes") or z.op == "call" and z.args[0] in ("numpy.transpose", "numpy.swapaxes"):
            turned = not turned
        elif not (z.op == "meth" and z.args[0] in ("copy", "astype", "tolist")):
            fig.unknown.append("a histogram")
            return True
        z = next((t for t in z.args if hasattr(t, "op")), None) if z.op != "call" else z.args[1][0]
        if z is None:
            fig.unknown.append("a histogram")
            return True
    if any(len(v) != 1 or not v <= {1, 2} for v in at.values()) or not is_const(z.args[1], 0) or None in samples:
        fig.unknown.append("a histogram")
        return True
    sides = {n: next(iter(v)) - 1 for n, v in at.items()}
    try:
        axes = {n: arr(e(samples[k])) for n, k in sides.items()}
    except Unknown as u:
        if isinstance(u, Illshaped):
            raise
        fig.unknown.append(str(u))
        return True
    S = Series(x, "contour", axes, None)
    # plotly draws the rows of z along y, numpy counts the first sample along the rows
    S.fits = sides["x"] != sides["y"] and turned == (sides["x"] == 0)
    fig.series.append(S)
    return True


def series(fig, e, x, d):
    kw = {k: v for k, v in d.args[2]}
    if d.args[0].endswith(".Contour") and "z" in kw and histogram(fig, e, x, kw):
        return
    frame = None
    if d.args[1]:
        frame = d.args[1][0]
    elif "data_frame" in kw:
        frame = kw.pop("data_frame")
    axes = {}
    try:
        table = e(frame) if frame is not None else None
        for n in ("x", "y", "z"):
            if n not in kw:
                continue
            v = e(kw[n])
            if isinstance(v, str) and isinstance(table, Frame):
                v = Arr((table.x.shape[0],), table.column(v))
            elif v is None:
                continue
            axes[n] = arr(v) if not (isinstance(v, (list, tuple)) and any(c is None for c in v)) else None
    except Unknown as u:
        if isinstance(u, Illshaped):
            raise
        fig.unknown.append(str(u))
        return
    if any(v is None for v in axes.values()):
        return      # an empty entry of the legend
    for n in ("title",):
        if n in kw:
            texts(fig, e, n, kw[n])
    name = None
    if "name" in kw:
        try:
            name = e(kw["name"])
        except Unknown:
            pass
    fig.series.append(Series(x, d.args[0].rsplit(".", 1)[-1], axes, name))


def texts(fig, e, where, t):
    if t.op == "dict":
        for k, v in t.args[0]:
            if is_const(k):
                texts(fig, e, f"{where}.{k.args[1]}".replace("_", ".") if where else str(k.args[1]).replace("_", "."), v)
        return
    if not where.rsplit(".", 1)[-1] in ("title", "text", "name"):
        return
    try:
        v = e(t)
    except Unknown:
        return
    if isinstance(v, str):
        fig.texts[where] = v


def keys(c):
    """points of the latent space, items and other marks in a cell"""
    out = []
    for a in C.deps(c):
        out.append(C.Atoms.items[a])
    return out


# ------------------------------------------------------------------------------------------------------------- what a figure shows
TH2 = [[F(3, 10), F(1)], [F(-1), F(2)], [F(1, 2), F(-3, 2)], [F(0), F(1, 4)]]
TH3 = [[F(3, 10), F(1), F(-2)], [F(-1), F(2), F(1, 3)], [F(1, 2), F(-3, 2), F(5, 4)], [F(0), F(1, 4), F(1)]]
TH1 = [[F(3, 10)], [F(-1)], [F(1, 2)], [F(2)]]
DATA = [[0, 3, 2], [1, 0, 0], [1, 1, 2], [0, 3, 1]]
WORLDS = [
    PlotWorld("no scale, 1 latent variable", [2, 4, 3], DATA, TH1),
    PlotWorld("no scale, 3 latent variables", [2, 4, 3], DATA, TH3),
    PlotWorld("no scale, 2 latent variables, no training scores", [2, 4, 3], DATA, TH2, trained=False),
    PlotWorld("invertible scale, 1 latent variable", [2, 4, 3], DATA, TH1, scale=True, a=1, b=2),
    PlotWorld("reversing scale, 1 latent variable", [2, 4, 3], DATA, TH1, scale=True),
    PlotWorld("invertible scale, 3 latent variables", [2, 4, 3], DATA, TH3, scale=True, a=1, b=2),
    PlotWorld("scale without inverse, 1 latent variable", [2, 4, 3], DATA, TH1, scale=True, invertible=False, a=1, b=2),
    PlotWorld("scale without inverse, 2 latent variables", [2, 4, 3], DATA, TH2, scale=True, invertible=False, a=1, b=2),
    PlotWorld("invertible scale, 2 latent variables, no training scores", [2, 4, 3], DATA, TH2, scale=True, trained=False, a=1, b=2),
]


def abstract(lib, w):
    A = Abstract(lib, w, lib.p.cls("Plotter").qual, PlotHooks)
    S = T("obj", lib.p.cls("Scale").qual, "scale", False)
    A.heap[(A.M, "scale")] = T("list", (S,) if w.scale else ())
    A.heap[(S, "invertible")] = const(w.invertible)
    E = T("obj", lib.p.cls("Evaluator").qual, "the evaluator", True)
    A.heap[(A.M, "evaluate")] = E
    A.heap[(E, "model")] = A.M
    A.heap[(E, "latent_density")] = A.heap[(E, "_latent_density_theta")] = const(None)
    if not w.trained:
        A.heap[(A.heap[(A.M, "algorithm")], "training_theta_scores")] = const(None)
    return A


def term(v):
    if hasattr(v, "op"):
        return v
    if isinstance(v, tuple):
        return T("tuple", tuple(term(x) for x in v))
    return lst(v) if isinstance(v, list) else const(v)


class Shown:
    """one call of a plotting function"""
    def __init__(self, fun, items=None, variable=None, variables=(1,), rescale=True, ranges=(None, None), fixed=None, steps=None, all_items=True, extra=None):
        self.fun, self.items, self.vars, self.rescale, self.ranges, self.fixed = fun, items, variables, rescale, ranges, fixed
        self.steps = steps or (5 if len(variables) == 1 else 3)
        self.extra = extra or {}
        self.all_items = all_items

    def text(self):
        out = [f"latent_variables={self.vars}"]
        if self.items is not None:
            out.append(f"items {self.items}")
        if not self.rescale:
            out.append("rescale=False")
        if self.ranges[0] is not None:
            out.append("theta_range given")
        if self.fixed is not None:
            out.append("fixed_thetas given")
        out += [f"{k}={v if not hasattr(v, 'op') else '…'}" for k, v in self.extra.items() if k not in ("data", "scores_to_plot")]
        if "scores_to_plot" in self.extra:
            out.append("scores_to_plot given")
        return f"{self.fun}({', '.join(out)})"

    def presets(self, A):
        p = {"latent_variables": term(self.vars), "rescale": const(self.rescale), "steps": const(self.steps)}
        for n, r in zip(("theta_range", "second_theta_range"), self.ranges):
            if r is not None:
                p[n] = T("tuple", tuple(const(x) for x in r))
        if self.fixed is not None:
            t = T("leaf", "fixed", (len(self.fixed),))
            A.env[t] = Arr((len(self.fixed),), [F(x) for x in self.fixed])
            p["fixed_thetas"] = t
        for k, v in self.extra.items():
            if k == "scores_to_plot":
                t = T("leaf", "given scores", (len(v), len(v[0])))
                A.env[t] = arr(v)
                p[k] = t
            elif k == "data":
                t = T("leaf", "one respondent", (1, A.w.J))
                A.env[t] = arr(v)
                p[k] = t
            else:
                p[k] = term(v)
        return p


def close(a, b):
    try:
        return abs(float(a) - float(b)) < 1e-4 * max(1, abs(float(b)))
    except (TypeError, ValueError, OverflowError):
        return False


def marks(c):
    """(points, items, kinds of slopes, variables of slopes) a drawn number is made of"""
    ks, js, hows, vs, junk = set(), set(), set(), set(), False
    for a in C.deps(c) if isinstance(c, Poly) else ():
        k = C.Atoms.items[a]
        if k[0] == "prob":
            ks.add(k[1]), js.add(k[2])
        elif k[0] == "out" and k[1] == "information":
            hows.add(k[2]), ks.add(k[3]), js.add(k[4])
        elif k[0] == "out" and k[1] == "slope":
            hows.add(k[2]), ks.add(k[3]), js.add(k[4]), vs.add(k[6])
        elif k[0] == "out" and isinstance(k[1], tuple) and len(k) == 4:
            ks.add(k[1]), js.add(k[2])
        else:
            junk = True
    return ks, js, hows, vs, junk


class Judge:
    """compares the figure with the model: finds (aspect, message) pairs; aspects: scale, number, label"""
    def __init__(self, w, s):
        self.w, self.s = w, s
        self.scored = w.scale and s.rescale
        self.ingrid = self.scored and w.invertible and w.trained     # the grid is laid out on the transformed scale
        self.found, self.unknown, self.n = [], [], 0

    def coord(self, key, u, scored):
        return (self.w.move(key) if scored else key)[u]

    def name(self, key, c, u):
        """how a wrong coordinate came about"""
        w = self.w
        for v in range(w.L):
            if v != u and close(c, self.coord(key, v, self.scored)):
                return "number", f"latent variable {v + 1} instead of {u + 1}"
        if w.scale and close(c, self.coord(key, u, not self.scored)):
            return "scale", f"latent variable {u + 1} on the {'original' if self.scored else 'transformed'} scale"
        if w.scale:
            for v in range(w.L):
                if v != u and close(c, self.coord(key, v, not self.scored)):
                    return "scale", f"latent variable {v + 1} on the other scale"
        return ("scale" if w.scale else "number"), f"{float(c):.4g} instead of {float(self.coord(key, u, self.scored)):.4g}"

    def curve(self, fig, x, dims, values):
        w, s = self.w, self.s
        pts = []
        n = len(values.c)
        if any(len(d.c) != n for d in dims):
            self.found.append(("scale" if w.scale else "number", f"{n} values are drawn at {len(dims[0].c)} points", x))
            return
        for i, c in enumerate(values.c):
            ks, js, hows, vs, junk = marks(c)
            if junk or c is None:
                self.unknown.append("a value that is not understood")
                continue
            if not ks:
                continue
            if len(ks) != 1:
                self.found.append(("scale" if w.scale else "number", "one drawn value mixes several points of the latent space", x))
                return
            key = ks.pop()
            pts.append(key)
            for d, lv in zip(dims, s.vars):
                if not C.number(d.c[i]):
                    self.unknown.append("an axis that is not understood")
                    return
                if not close(d.c[i], self.coord(key, lv - 1, self.scored)):
                    a, m = self.name(key, d.c[i], lv - 1)
                    self.found.append((a, f"the model is evaluated at one point and drawn at another: the axis of latent variable {lv} shows {m}", x))
                    return
            want = {k - 1 for k in s.items} if s.items is not None else None
            if want is not None and not (js <= want and (js == want or not s.all_items)):
                self.found.append(("number", f"shows item{'s' if len(js) > 1 else ''} {', '.join(str(j + 1) for j in sorted(js))} instead of {', '.join(str(j + 1) for j in sorted(want))}", x))
                return
            if hows and hows != {"moved" if self.scored else "plain"}:
                self.found.append(("scale", f"slopes or information on the {'original' if self.scored else 'transformed'} scale are drawn against scores on the other one", x))
                return
            if vs and vs != {s.vars[0] - 1}:
                self.found.append(("number", f"slopes with respect to latent variable {sorted(vs)[0] + 1} instead of {s.vars[0]}", x))
                return
            if s.fun == "item_probabilities" and not s.extra.get("plot_derivative") and x.name and x.name.isdigit() and w.mc is None and len(js) == 1:
                from .rules.c32 import differ
                # curves are named after the score
                ps = w.prob(key, next(iter(js)))
                k = next((k for k, q in enumerate(ps) if differ(c, q, 1e-9) in (False, ())), None)
                if k is not None and k != int(x.name):
                    self.found.append(("label", f"the curve named {x.name} shows the probability of score {k}", x))
                    return
            self.n += 1
        self.layout(fig, x, pts)

    def layout(self, fig, x, pts):
        """where the points are: the requested range of the requested variables, everything else fixed"""
        w, s = self.w, self.s
        if not pts:
            return
        train = [w.key(w.theta, i) for i in range(w.n)] if w.trained else None
        def source(u, scored):
            return [self.coord(k, u, scored) for k in train] if train else None
        grids = {}
        # without training scores the scale the ranges refer to is not documented
        for sc in ([self.ingrid] if w.trained or not self.scored or not w.invertible else [True, False]):
            bad = None
            for u in range(w.L):
                vals = [self.coord(k, u, sc) for k in pts]
                if u + 1 in s.vars:
                    r = s.ranges[s.vars.index(u + 1)] or ((min(source(u, sc)), max(source(u, sc))) if train else (-3, 3))
                    steps = [F(r[0]) + (F(r[1]) - F(r[0])) * F(i, s.steps - 1) for i in range(s.steps)]
                    if not all(any(close(v, t) for t in steps) for v in vals):
                        bad = bad or self.why(u, f"latent variable {u + 1} is drawn from {float(min(vals)):.4g} to {float(max(vals)):.4g}, the range is {float(min(r)):.4g} to {float(max(r)):.4g}", sc)
                    elif sum(any(close(v, t) for v in vals) for t in steps) < s.steps - 1:
                        bad = bad or self.why(u, f"latent variable {u + 1} is drawn at {len(set(vals))} of {s.steps} steps", sc)
                else:
                    rest = [v for v in range(w.L) if v + 1 not in s.vars]
                    if s.fixed is not None:
                        want = F(s.fixed[rest.index(u)])
                    elif train:
                        want = sorted(source(u, sc))[(len(train) - 1) // 2]
                    else:
                        want = F(0)
                    if not all(close(v, want) for v in vals):
                        other = sorted(source(u, not sc))[(len(train) - 1) // 2] if train and w.scale and s.fixed is None else None
                        a = "scale" if other is not None and all(close(v, other) for v in vals) else None
                        bad = bad or (self.why(u, f"latent variable {u + 1} is fixed at {float(vals[0]):.4g} instead of {float(want):.4g}", sc) if a is None else
                                      (a, f"latent variable {u + 1} is fixed at {float(vals[0]):.4g}, a value of the other scale"))
            grids[sc] = bad
        if all(grids.values()):
            a, m = next(iter(grids.values()))
            self.found.append((a, m, x))

    def why(self, u, m, sc):
        return ("scale" if self.w.scale else "number"), m

    def groups(self, x, kind, k):
        """markers of the groups: where they are and what they show"""
        from .rules.c32 import differ, latent_group_probabilities
        w, s = self.w, self.s
        want = latent_group_probabilities(w, s.extra["group_fit_groups"], s.vars[0], s.rescale)
        if want is None:
            self.unknown.append("groups")
            return
        probs, mids = want[0 if kind == "Data" else 1], want[2]
        got, at = x.axes["y"], x.axes["x"]
        if len(got.c) != len(probs) or len(at.c) != len(probs):
            self.unknown.append("groups")
            return
        for g in range(len(probs)):
            if not C.number(at.c[g]):
                self.unknown.append("groups")
                return
            if not any(close(at.c[g], m[g]) for m in mids):
                other = latent_group_probabilities(w, s.extra["group_fit_groups"], s.vars[0], not s.rescale)[2]
                a = "scale" if w.scale and any(close(at.c[g], m[g]) for m in other) else "number"
                self.found.append((a, f"group {g + 1} is drawn at {float(at.c[g]):.4g} instead of {float(mids[0][g]):.4g}" + (", a score on the other scale" if a == "scale" else ""), x))
                return
            d = differ(got.c[g], probs[g][s.items[0] - 1][k], 1e-6)
            if d is None:
                self.unknown.append("groups")
                return
            if d:
                self.found.append(("number", f"the marker of group {g + 1} shows {d[0]} for category {k} of item {s.items[0]} instead of {d[1]}", x))
                return
            self.n += 1

    def scores(self, fig):
        """a distribution of scores"""
        w, s = self.w, self.s
        given = s.extra.get("scores_to_plot")
        def column(v, scored):
            if given is not None:
                return [r[v] for r in given]
            return [self.coord(w.key(w.theta, i), v, scored) for i in range(w.n)]
        for x in fig.series:
            for n, lv in zip("xy", s.vars):
                got = x.axes.get(n)
                if got is None:
                    self.unknown.append("a distribution of another kind")
                    continue
                fits = lambda want: len(got.c) == len(want) and all(C.number(a) and close(a, b) for a, b in zip(got.c, want))
                if fits(column(lv - 1, self.scored)):
                    self.n += 1
                    continue
                if w.scale and given is None and any(fits(column(v, not self.scored)) for v in range(w.L)):
                    self.found.append(("scale", f"the scores drawn are those on the {'original' if self.scored else 'transformed'} scale", x))
                    return
                v = next((v for v in range(w.L) if fits(column(v, self.scored))), None)
                self.found.append(("number", f"the {n} axis shows {'latent variable ' + str(v + 1) if v is not None else 'other scores'} instead of latent variable {lv}", x))
                return
            if x.kind == "contour" and not x.fits:
                self.found.append(("number", "the histogram is drawn with its axes exchanged", x))

    def transformations(self, fig):
        """curves of the scale transformation"""
        import re
        w, s = self.w, self.s
        u = s.extra["input_latent_variable"] - 1
        seen = set()
        for x in fig.series:
            m = re.search(r"(\d+)", x.name or "")
            if m is None or x.axes.get("x") is None or x.axes.get("y") is None:
                self.unknown.append("a curve of another kind")
                continue
            v = int(m.group(1)) - 1
            seen.add(v)
            train = [w.key(w.theta, i) for i in range(w.n)] if w.trained else None
            rest = iter(s.fixed or ())
            base = [None if k == u else F(next(rest)) if s.fixed is not None else sorted(t[k] for t in train)[(len(train) - 1) // 2] if train else F(0) for k in range(w.L)]
            for a, b in zip(x.axes["x"].c, x.axes["y"].c):
                if not (C.number(a) and C.number(b)):
                    self.unknown.append("a curve that is not understood")
                    return
                key = tuple(F(a) if k == u else base[k] for k in range(w.L))
                to = w.move(key)
                if close(b, to[v]) if v < w.L else False:
                    self.n += 1
                    continue
                o = next((k for k in range(w.L) if close(b, to[k])), None)
                self.found.append(("number", f"the curve named {x.name} shows latent variable {o + 1}", x) if o is not None else ("scale", f"the curve named {x.name} passes through ({float(a):.4g}, {float(b):.4g}); the score {float(a):.4g} is transformed to {float(to[v]) if v < w.L else float('nan'):.4g}", x))
                return
        if seen and seen != set(range(w.L)):
            self.found.append(("label", f"the curves are named after latent variables {sorted(k + 1 for k in seen)}", None))

    def labels(self, fig):
        """numbers on the figure are those of the request"""
        import re
        s = self.s
        for where, t in fig.texts.items():
            t2 = t.lower()
            for m in re.finditer(r"latent variable (\d+)", t2):
                axis = "x" if "xaxis" in where else "y" if "yaxis" in where else None
                if axis is None or axis == "y" and len(s.vars) == 1:
                    ok = int(m.group(1)) in s.vars
                else:
                    ok = int(m.group(1)) == s.vars["xy".index(axis)]
                if not ok:
                    self.found.append(("label", f"'{t}' labels the axis of latent variable {s.vars['xy'.index(axis)] if axis in ('x', 'y') and len(s.vars) > 'xy'.index(axis) else s.vars}", None))
                else:
                    self.n += 1
            for m in re.finditer(r"item (\d+)", t2):
                if s.items is not None and int(m.group(1)) not in s.items:
                    self.found.append(("label", f"'{t}' for item {s.items[0]}", None))
                else:
                    self.n += 1


def judge(lib, w, s):
    """(findings, notes of what was not decided, number of values compared, function)"""
    A = abstract(lib, w)
    f = lib.p.find_method(A.cls, s.fun)
    j = Judge(w, s)
    if f is None:
        return j, None
    try:
        fig = draw(A, s.fun, {k: v for k, v in s.presets(A).items() if k in f.posnames + f.kwonly})
    except Illshaped as u:
        j.found.append(("scale" if w.scale else "number", str(u), None))
        return j, f
    except Unknown as u:
        j.unknown.append(str(u))
        return j, f
    j.unknown += fig.unknown
    if s.fun == "latent_score_distribution":
        j.scores(fig)
    elif s.fun == "scale_transformations":
        j.transformations(fig)
    else:
        curves(j, fig, s)
    if not fig.series:
        j.unknown.append("nothing drawn")
    j.labels(fig)
    return j, f


def curves(j, fig, s):
    k = -1
    for x in fig.series:
        if x.name in ("Data", "Model"):
            j.groups(x, x.name, k)
            continue
        k += 1
        v = x.axes.get("z", x.axes.get("y"))
        dims = [x.axes.get("x")] + ([x.axes.get("y")] if "z" in x.axes else [])
        if v is None or any(d is None for d in dims) or len(dims) != len(s.vars):
            j.unknown.append("a curve of another kind")
            continue
        j.curve(fig, x, dims, v)
    if s.fun == "item_probabilities" and not j.unknown and not j.found and k + 1 != j.w.cats[s.items[0] - 1]:
        j.found.append(("number", f"{k + 1} curves for item {s.items[0]} with {j.w.cats[s.items[0] - 1]} categories", None))


def GRIDS(w):
    """calls of the plotting functions on one model"""
    L = w.L
    R = (-1, 3) if not w.scale or not w.invertible else (-1, F(3))
    one = {"data": [[1, 3, 0]]}
    deg = [20] * L if L > 1 else None
    vs = [(v,) for v in range(1, L + 1)] if L < 3 else [(1,), (3,)]
    pairs = [] if L == 1 else [(1, 2), (2, 1)] if L == 2 else [(1, 3), (3, 2)]
    out = []
    for rescale in (True, False) if w.scale else (True,):
        for v in vs + pairs:
            k = dict(variables=v, rescale=rescale)
            rest = [F(1, 2), F(7, 4), F(-3)][:L - len(v)]
            for more in ({}, {"ranges": ((F(-1), F(3)), (F(-2), F(1)))[:len(v)] + ((None,) if len(v) == 1 else ())}) + (({"fixed": rest},) if rest else ()):
                kw = {**k, **more}
                out.append(Shown("item_entropy", items=[2], extra={"item": 2}, **kw))
                out.append(Shown("item_probabilities", items=[3], extra={"item": 3}, **kw))
                out.append(Shown("information", items=[1, 3], extra={"items": [1, 3], "degrees": deg}, **kw))
                out.append(Shown("expected_sum_score", items=[1, 3], extra={"items": [1, 3]}, **kw))
                out.append(Shown("log_likelihood", items=[2, 3], extra={"items": [2, 3], **one}, **kw))
            if len(v) == 1:
                out.append(Shown("item_probabilities", items=[2], extra={"item": 2, "plot_derivative": True}, **k))
            out.append(Shown("latent_score_distribution", **k))
            if not w.scale:
                out.append(Shown("latent_score_distribution", extra={"scores_to_plot": [[F(9), F(8), F(7)][:L], [F(1), F(-2), F(5)][:L]]}, **k))
            if L == 1:
                for g in (1, 2):
                    out.append(Shown("item_probabilities", items=[2], extra={"item": 2, "plot_group_fit": True, "group_fit_groups": g}, **k))
            out.append(Shown("information", items=[1, 2, 3], extra={"degrees": deg}, **k))
            out.append(Shown("expected_sum_score", items=[1, 2, 3], **k))
            out.append(Shown("expected_sum_score", items=[2], extra={"items": [2]}, **k))
            out.append(Shown("log_likelihood", items=[1, 2, 3], extra=one, **k))
    if w.scale:
        for v in range(1, L + 1):
            out.append(Shown("scale_transformations", variables=(v,), extra={"input_latent_variable": v}))
            if L > 1:
                out.append(Shown("scale_transformations", variables=(v,), extra={"input_latent_variable": v}, fixed=[F(1, 2), F(7, 4)][:L - 1]))
    return out
