"""Statistics of a fitted model on small response matrices: probabilities are abstract cells, shapes and missing patterns are concrete.

The model is an abstract object of the base class.  Its response probabilities at latent scores are free cells that add up to one over the
categories of an item; the library's own methods above that level are either interpreted or, where they are the subject of
another obligation, answered with their definition.
"""
import math
import random
from fractions import Fraction

from . import cells as C
from .abst import Eval, Instance, Unknown, arr, scalar, value
from .cells import Arr, Poly, INF
from .terms import T, const, walk

NAN = float("nan")
F = Fraction


def lst(xs):
    return T("list", tuple(lst(x) if isinstance(x, (list, tuple)) else const(x) for x in xs))


def canon(key):
    """a point of the latent space whatever the kind of its numbers"""
    return tuple(c if not C.number(c) else Fraction(c).limit_denominator(10 ** 6) for c in key)


class World:
    """one response matrix with its model"""
    def __init__(self, label, cats, data, theta, mc=None, scale=False, train=None):
        self.label, self.cats, self.mc = label, list(cats), mc
        self.data = arr(data)
        self.theta = arr(theta)
        self.n, self.J = self.data.shape
        self.L, self.K = self.theta.shape[1], max(cats)
        self.scale = scale

    def missing(self, i, j, data=None):
        c = (data or self.data).c[i * self.J + j]
        return c != c or c == -1

    def x(self, i, j):
        return int(self.data.c[i * self.J + j])

    def prob(self, key, j):
        """probabilities of one item at one point of the latent space"""
        k, key = self.cats[j], canon(key)
        ps = [C.atom("prob", key, j, x) for x in range(k - 1)]
        last = 1
        for p in ps:
            last = C.add(last, C.neg(p))
        return ps + [last] + [0] * (self.K - k)

    def P(self, i, j):
        return self.prob(self.key(self.theta, i), j)

    @staticmethod
    def key(theta, i):
        L = theta.shape[1]
        return canon(theta.c[i * L:(i + 1) * L])

    def grad(self, how, key, j, x, v):
        """slope of a probability: the slopes of one item add up to 0"""
        k = self.cats[j]
        if x >= k:
            return 0
        g = [C.atom("out", "slope", how, key, j, y, v) for y in range(k - 1)]
        return g[x] if x < k - 1 else C.neg(C.total(g))

    def score(self, ps, j):
        if self.mc is not None:
            return ps[self.mc[j]]
        return C.total([C.mul(x, p) for x, p in enumerate(ps)])

    def E(self, i, j):
        return self.score(self.P(i, j), j)

    def O(self, i, j):
        return (1 if self.x(i, j) == self.mc[j] else 0) if self.mc is not None else self.x(i, j)

    def ll(self, i, j):
        return C.log(self.P(i, j)[self.x(i, j)])

    def moved(self, i):
        """latent scores of one respondent on the transformed scale"""
        t = self.key(self.theta, i)
        return self.move(t)

    def move(self, t):
        return tuple(F(3) - 2 * v + (F(1, 2) * t[(k + 1) % len(t)] if len(t) > 1 else 0) for k, v in enumerate(t))


class Hooks:
    """definitions of the model's methods"""
    def __init__(self, world, lib):
        self.w, self.lib = world, lib

    def __call__(self, ev, name, args):
        f = getattr(self, "h_" + name, None)
        if f is None:
            raise Unknown(f"call {name}")
        return f(ev, args)

    @staticmethod
    def arg(ev, args, name, default=None):
        t = args.get(name)
        if t is None:
            return default
        return ev(t)

    def points(self, th):
        th = arr(th)
        if th.ndim != 2:
            raise Unknown("latent scores are not a matrix")
        if th.shape[1] != self.w.L:
            raise C.Illshaped(f"latent scores with {th.shape[1]} columns for {self.w.L} latent variables")
        ks = [self.w.key(th, i) for i in range(th.shape[0])]
        if any(c is None for k in ks for c in k):
            raise Unknown("latent scores")
        return ks

    def h_forward(self, ev, a):
        w = self.w
        ks = self.points(self.arg(ev, a, "theta"))
        return Arr((len(ks), w.J * w.K), [C.atom("out", k, j, x) for k in ks for j in range(w.J) for x in range(w.K)])

    def outkeys(self, out):
        out = arr(out)
        w = self.w
        if out.ndim != 2 or out.shape[1] != w.J * w.K:
            raise Unknown("output")
        ks = []
        for i in range(out.shape[0]):
            row = out.c[i * w.J * w.K:(i + 1) * w.J * w.K]
            keys = set()
            for z, c in enumerate(row):
                a = C.Atoms.items[next(iter(c.m))[0][0]] if isinstance(c, Poly) and len(c.m) == 1 and next(iter(c.m)) else None
                if a is None or a[0] != "out" or (a[2], a[3]) != divmod(z, w.K):
                    raise Unknown("output")
                keys.add(a[1])
            if len(keys) != 1:
                raise Unknown("output")
            ks.append(keys.pop())
        return ks

    def table(self, ks):
        w = self.w
        return Arr((len(ks), w.J, w.K), [p for k in ks for j in range(w.J) for p in w.prob(k, j)])

    def h_probabilities_from_output(self, ev, a):
        return self.table(self.outkeys(self.arg(ev, a, "output")))

    def h_item_probabilities(self, ev, a):
        return self.table(self.points(self.arg(ev, a, "theta")))

    def h_expected_scores(self, ev, a):
        w = self.w
        ks = self.points(self.arg(ev, a, "theta"))
        each = scalar(self.arg(ev, a, "return_item_scores", True))
        rows = [[w.score(w.prob(k, j), j) for j in range(w.J)] for k in ks]
        if each:
            return Arr((len(ks), w.J), [c for r in rows for c in r])
        return Arr((len(ks),), [C.total(r) for r in rows])

    def h_log_likelihood(self, ev, a):
        w = self.w
        data, ks = arr(self.arg(ev, a, "data")), self.outkeys(self.arg(ev, a, "output"))
        mask = self.arg(ev, a, "missing_mask")
        how = self.arg(ev, a, "loss_reduction", "sum")
        if data.shape != (len(ks), w.J):
            raise C.Illshaped(f"responses of shape {data.shape} for {len(ks)} outputs of {w.J} items")
        if mask is not None and arr(mask).shape != data.shape:
            raise C.Illshaped("mask of another shape")
        cells = []
        for i, k in enumerate(ks):
            for j in range(w.J):
                z = i * w.J + j
                c = data.c[z]
                if mask is not None and arr(mask).c[z] is None or c is None or isinstance(c, Poly):
                    raise Unknown("responses")
                if mask is not None and arr(mask).c[z] or mask is None and (c != c or c == -1):
                    cells.append(NAN)
                elif c != c or c < 0 or c >= w.cats[j]:
                    cells.append(C.atom("junk", z))   # the response is not one the item has
                else:
                    cells.append(C.log(w.prob(k, j)[int(c)]))
        if how == "none":
            return Arr((len(cells),), cells)
        if how == "sum":
            return Arr((), [C.total([c for c in cells if isinstance(c, Poly) or c == c])])
        raise Unknown("reduction")

    def h_probability_gradients(self, ev, a):
        w = self.w
        ks = self.points(self.arg(ev, a, "theta"))
        how = "moved" if scalar(self.arg(ev, a, "rescale", True)) and w.scale else "plain"
        return Arr((len(ks), w.J, w.K, w.L), [w.grad(how, k, j, x, v) for k in ks for j in range(w.J) for x in range(w.K) for v in range(w.L)])

    def h_expected_item_score_gradients(self, ev, a):
        w = self.w
        ks = self.points(self.arg(ev, a, "theta"))
        how = "moved" if scalar(self.arg(ev, a, "rescale", True)) and w.scale else "plain"
        byscore = scalar(self.arg(ev, a, "rescale_by_item_score", True)) and w.mc is None
        out = []
        for k in ks:
            for j in range(w.J):
                for v in range(w.L):
                    g = w.grad(how, k, j, w.mc[j], v) if w.mc is not None else C.total([C.mul(x, w.grad(how, k, j, x, v)) for x in range(w.cats[j])])
                    out.append(C.mul(g, F(1, w.cats[j] - 1)) if byscore else g)
        return Arr((len(ks), w.J, w.L), out)

    def h_theta_transform_jacobian(self, ev, a):
        w = self.w
        ks = self.points(self.arg(ev, a, "theta"))
        return Arr((len(ks), w.L, w.L), [C.atom("out", "jacobian", k, u, v) for k in ks for u in range(w.L) for v in range(w.L)])

    def h_latent_scores(self, ev, a):
        w = self.w
        d = arr(self.arg(ev, a, "data"))
        if d.shape != w.data.shape or any(not (u == v or u != u and v != v or missing(u) and missing(v)) for u, v in zip(d.c, w.data.c)):
            raise Unknown("scores of other responses")
        if not scalar(self.arg(ev, a, "rescale", True)) or not w.scale:
            return w.theta
        return Arr(w.theta.shape, [c for i in range(w.n) for c in w.moved(i)])

    def h_transform_theta(self, ev, a):
        ks = self.points(self.arg(ev, a, "theta"))
        return Arr((len(ks), self.w.L), [c for k in ks for c in (self.w.move(k) if self.w.scale else k)])


def missing(c):
    return c != c or c == -1


class Abstract:
    """an object with an abstract model in it"""
    def __init__(self, lib, world, cls, hooks=Hooks):
        self.lib, self.w = lib, world
        self.base = lib.p.cls("BaseIRTModel").qual
        self.M = T("obj", self.base, "the model", False)
        self.hooks = hooks(world, lib)
        names = [n[2:] for n in dir(hooks) if n.startswith("h_")]
        self.opaque = set()
        for q in [self.base] + sorted(lib.p.subclasses.get(self.base, ())):
            c = lib.p.classes.get(q)
            if c:
                self.opaque |= {f.qual for n, f in c.methods.items() if n in names}
        w = world
        alg = T("obj", lib.p.cls("BaseIRTAlgorithm").qual, "its algorithm", False)
        self.data, self.theta = T("leaf", "the responses", w.data.shape), T("leaf", "the latent scores", w.theta.shape)
        self.env = {self.data: w.data, self.theta: w.theta}
        M = self.M
        self.heap = {(M, "mc_correct"): const(None) if w.mc is None else lst(w.mc), (M, "items"): const(w.J), (M, "item_categories"): lst(w.cats),
                     (M, "max_item_responses"): const(w.K), (M, "latent_variables"): const(w.L), (M, "algorithm"): alg,
                     (M, "scale"): lst([1]) if w.scale else lst([]), (alg, "train_data"): self.data, (alg, "training_theta_scores"): self.theta}
        self.cls = cls
        self.fields = {}

    def find(self, name, on=""):
        """the function of an obligation: of the object, of the model or of the library"""
        p = self.lib.p
        if on == "model":
            return p.find_method(self.base, name)
        if on == "library":
            fs = [f for q, f in sorted(p.functions.items()) if f.name == name and f.cls is None and q.count(".") == f.module.name.count(".") + 1]
            return fs[0] if len(fs) == 1 else None
        return p.find_method(self.cls, name)

    def run(self, name, presets, on="", data=None, theta=None):
        from .abst import Oracle
        from .interp import State
        f = self.find(name, on)
        if f is None:
            raise Unknown(f"no {name}")
        q = self.cls if not on else None
        I = self.lib.interp(frozenset(x for x in self.opaque if not x.endswith("." + name)) if on == "model" else frozenset(self.opaque))
        I.oracle = Oracle(self.lib, self.env)
        I.oracle.e.hooks = self.hooks
        st = State()
        st.heap.update(self.heap)
        so = self.M if on == "model" else None
        if q:
            so = T("obj", q, "self", True)
            st.heap[(so, "model")] = self.M
            for n in ("latent_density", "_latent_density_theta"):
                st.heap[(so, n)] = const(None)
            for n, v in self.fields.items():
                st.heap[(so, n)] = v
        pre = {k: v for k, v in presets.items() if k in f.posnames + f.kwonly}
        for n in f.posnames + f.kwonly:
            if n not in pre and n in f.defaults:
                pre[n] = self.default(I, f, n)
        self.lib.nfun.add(f.qual)
        r = I.run(f, presets=pre, self_obj=so, state=st)
        if r is None:
            raise Unknown(name)
        e = Eval(self.lib, self.env)
        e.hooks = self.hooks
        e.interp = r.interp
        if r.state is not None:
            e.heap = r.state.heap
        return r, e

    @staticmethod
    def default(I, f, n):
        import ast
        d = f.defaults[n]
        try:
            return lst(ast.literal_eval(d)) if isinstance(ast.literal_eval(d), (list,)) else const(ast.literal_eval(d))
        except (ValueError, SyntaxError):
            return T("default", f.qual, n)


def points(cells, n=24, seed=11):
    """fixed probabilities for the cells"""
    atoms = sorted(set().union(*[C.deps(c) for c in cells if isinstance(c, Poly)]) or ())
    rnd = random.Random(seed)
    rows = {}
    for a in atoms:
        k = C.Atoms.items[a]
        rows.setdefault((k[1], k[2]) if k[0] == "prob" else a, []).append(a)
    for i in range(n):
        at = {}
        for k, xs in rows.items():
            if C.Atoms.items[xs[0]][0] == "prob":
                us = [rnd.uniform(0.05, 1) for _ in range(max(C.Atoms.items[x][3] for x in xs) + 2)]
                s = sum(us)
                for x in xs:
                    at[x] = us[C.Atoms.items[x][3]] / s
            else:
                for x in xs:
                    at[x] = rnd.randrange(C.Atoms.items[x][3]) if C.Atoms.items[x][0] == "rand" else rnd.uniform(-1, 1)
        yield at
