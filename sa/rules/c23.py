"""C23: scoring uses the configuration the model was fitted with."""
import ast

from .. import cells as C
from ..abst import DRAWS, Eval, Illshaped, Oracle, Unknown, arr
from ..interp import State
from ..logic import Theory
from ..stats import lst
from ..terms import NONE, T, const, is_const, show, subst, walk
from .c03 import coded, defaults
from .c21 import alternatives
from .c32 import differ, shown

N = float("nan")
SETS = [
    ("2 items", [3, 2], [1, 0], [[2, 1], [N, 0], [1, N], [0, 1]], [[1, N], [2, 0], [N, N]], [[N, 1]]),
    ("3 items", [2, 4, 3], [0, 2, 2], [[1, N, 0], [0, 3, N], [N, 1, 1], [1, 2, 2]], [[N, 2, 1], [0, N, N]], [[1, N, 2]]),
]
# one-hot coded, imputation method, multiple choice
FITS = [(True, None, False), (True, None, True), (False, "zero", False), (True, "zero", False), (False, "mean", False), (True, "random incorrect", True), (False, "random incorrect", True)]
AGAIN = [((True, None, False), (False, "zero", False)), ((False, "zero", False), (True, None, False)), ((True, "zero", False), (True, None, False)), ((True, "random incorrect", True), (False, "mean", False))]


def fitlabel(c):
    return ("one-hot coded" if c[0] else "raw") + " encoder input, " + (f"imputation {c[1]}" if c[1] else "no imputation") + (", multiple choice" if c[2] else "")


class History:
    """one algorithm object: fits and scorings after each other"""

    def __init__(self, ctx, q, draw=None):
        self.ctx, self.lib, self.p, self.q = ctx, ctx.lib, ctx.p, q
        self.I = self.lib.interp()
        self.env = {} if draw is None else {DRAWS: draw}
        self.st = State()
        self.alg = T("obj", q, "algorithm", True)
        self.n = 0
        init = self.p.find_method(q, "__init__")
        if init is not None:
            r = self.I.run(init, presets=dict(defaults(init)), self_obj=self.alg, state=self.st)
            self.st = r.state

    def leaf(self, data):
        self.n += 1
        t = T("leaf", f"responses{self.n}", data.shape)
        self.env[t] = data
        self.I.oracle = Oracle(self.lib, self.env)
        return t

    def model(self, name, cats, mc):
        m = T("obj", self.p.cls("BaseIRTModel").qual, name, False)
        self.st.heap.update({(m, "item_categories"): lst(cats), (m, "mc_correct"): lst(mc) if mc else NONE, (m, "latent_variables"): const(1), (m, "items"): const(len(cats)),
                             (m, "max_item_responses"): const(max(cats)), (m, "algorithm"): self.alg, (m, "scale"): T("list", (), 0)})
        return m

    def run(self, f, obj, presets):
        """events of one call; the state goes on from there"""
        self.lib.nfun.add(f.qual)
        r = self.I.run(f, presets=presets, self_obj=obj, state=self.st)
        self.raised = r.state is None
        if r.state is not None:
            self.st = r.state
            self.st.conds = ()
            self.st._facts = None
        return r

    def fit(self, model, data, cfg):
        f = self.p.find_method(self.q, "fit")
        pre = {**defaults(f), "model": model, "train_data": self.leaf(data), "device": const("cpu"), "one_hot_encoded": const(cfg[0]), "imputation_method": const(cfg[1]) if cfg[1] else NONE}
        names = set(f.posnames + f.kwonly)
        return self.run(f, self.alg, {k: v for k, v in pre.items() if k in names})

    def inputs(self, r, training):
        """(event, array) of every use of the encoder"""
        ev = Eval(self.lib, self.env)
        ev.interp = self.I
        ev.heap = self.st.heap
        out = []
        for e in r.events:
            if e.kind != "rcall" or not e.data[0].endswith(".forward") or e.data[1] is None or not self.encoder(e.data[1]):
                continue
            x = next(iter(e.data[2].values() if isinstance(e.data[2], dict) else dict(e.data[2]).values()), None)
            if x is None:
                continue
            try:
                x, rows = self.batches(x)
                v = arr(ev(x))
            except Illshaped as u:
                out.append((e, None, str(u)))
            except (Unknown, KeyError, TypeError) as u:
                out.append((e, None, f"?{u}"))
            else:
                out.append((e, v, None))
        return out

    def encoder(self, o):
        t = self.I.typeof(o)
        b = self.p.cls("BaseEncoder")
        return t is not None and b is not None and self.p.is_subclass(t[0], b.qual)

    def batches(self, x):
        """the rows a loader hands out, in place of one batch"""
        hit = {}
        for y in walk(x):
            if y.op == "index" and y.args[0].op == "elem" and is_const(y.args[1]) and y not in hit:
                it = y.args[0].args[0]
                if it.op == "call" and it.args[0].endswith("DataLoader") and it.args[1] and it.args[1][0].op == "new":
                    v = self.item(it.args[1][0], y.args[1].args[1])
                    if v is None:
                        raise Unknown("the data set's items")
                    hit[y] = v
        return (subst(x, hit) if hit else x), bool(hit)

    def item(self, ds, k):
        f = self.p.find_method(ds.args[0], "__getitem__")
        if f is None:
            return None
        i = T("param", "index", f.qual)
        I = self.lib.interp()
        r = I.run(f, presets={f.posnames[1]: i}, self_obj=ds, state=self.st.fork())
        v = r.value
        if v is None or v.op != "tuple" or not 0 <= k < len(v.args[0]):
            return None
        v = v.args[0][k]
        return v.args[0] if v.op == "index" and v.args[1] is i else None


def same(a, b):
    """None: not decided; False: equal; text: different"""
    if a.shape != b.shape:
        return f"it has shape {tuple(a.shape)} instead of {tuple(b.shape)}"
    open_ = None
    for x, y in zip(a.c, b.c):
        p, q = alternatives(x), alternatives(y)
        if p is not None and q is not None and (len(p) > 1 or len(q) > 1):
            if any(not any(u == v for v in q) for u in p) or any(not any(u == v for v in p) for u in q):
                return f"one entry can be {sorted(set(map(str, p)))} instead of {sorted(set(map(str, q)))}"
            continue
        d = differ(x, y, 1e-6)
        if d is None:
            open_ = True
        elif d:
            return f"one entry is {d[0]} instead of {d[1]}"
    return None if open_ else False


def training(ctx, q, cats, mc, data, cfg, draw=None):
    """what the encoder gets in training on these responses, the events, or why not"""
    h = History(ctx, q, draw)
    m = h.model("model", cats, mc if cfg[2] else None)
    r = h.fit(m, data, cfg)
    if h.raised:
        return h, r, "raises"
    return h, r, h.inputs(r, True)


CALLS = [("NN", {"theta_estimation": "NN"}), ("ML", {"theta_estimation": "ML"}), ("NN with standard errors", {"theta_estimation": "NN", "standard_errors": True})]


def entries(h, model, data, one):
    """(name, function, object, arguments) of what scores new responses"""
    p = h.p
    f = p.find_method(p.cls("BaseIRTModel").qual, "latent_scores")
    for name, kw in CALLS:
        yield f"latent_scores, {name}", f, model, {**defaults(f), **{k: const(v) for k, v in kw.items()}, "data": data, "device": const("cpu"), "rescale": const(False)}, data
    g = p.find_method(h.q, "sample_latent_variables")
    if g is not None:
        yield "sample_latent_variables", g, h.alg, {**defaults(g), "model": model, "sample_size": const(1), "input_data": one}, one


def algorithms(ctx):
    return [q for q in ctx.lib.concrete("BaseIRTAlgorithm")]


def encoders(ctx):
    """algorithms whose fit uses an encoder"""
    out = []
    for q in algorithms(ctx):
        f = ctx.p.find_method(q, "fit")
        if f is None or "one_hot_encoded" not in f.posnames + f.kwonly:
            continue
        out.append(q)
    return out


def inputs(ctx):
    for q in encoders(ctx):
        name = q.rsplit(".", 1)[-1]
        for lab, cats, mc, x, y, z in SETS:
            for code in (N, -1):
                X, Y, Z = coded(x, code), coded(y, code), coded(z, code)
                for cfg in FITS:
                    who = f"{name}, {fitlabel(cfg)}, {lab}, missing responses coded {code}"
                    # one-hot coding needs numbers: the same draws in training and scoring
                    for draw in (0, 1) if cfg[0] and cfg[1] and cfg[1].startswith("random") else (None,):
                        score(ctx, q, cats, mc, X, Y, Z, cfg, who + (f", draws {draw}" if draw is not None else ""), None, draw)
        lab, cats, mc, x, y, z = SETS[0]
        other = SETS[1]
        for a, b in AGAIN:
            who = f"{name}, fitted with {fitlabel(a)} and then again with {fitlabel(b)}"
            score(ctx, q, cats, mc, coded(x, N), coded(y, N), coded(z, N), b, who, (other, a))


def score(ctx, q, cats, mc, X, Y, Z, cfg, who, before, draw=None):
    fit = ctx.p.find_method(q, "fit")
    wanted = {}
    for d in (Y, Z):
        h, r, got = training(ctx, q, cats, mc, d, cfg, draw)
        wanted[id(d)] = got
        if d is Y and got != "raises":
            trained(ctx, h, r, got, who, fit)
    h = History(ctx, q, draw)
    if before is not None:
        (_, c0, m0, x0, _, _), a = before
        h.fit(h.model("first model", c0, m0 if a[2] else None), coded(x0, N), a)
    m = h.model("model", cats, mc if cfg[2] else None)
    h.fit(m, X, cfg)
    if h.raised:
        if wanted[id(Y)] == "raises":
            return
        ctx.unknown("input", who)
        return
    one, many = h.leaf(Z), h.leaf(Y)
    state = h.st
    for call, f, obj, pre, d in entries(h, m, many, one):
        data = Y if d is many else Z
        want = wanted[id(data)]
        h.st = state.fork()
        what = f"{who}: {call}"
        if want == "raises":
            continue
        w = first(want)
        r = h.run(f, obj, pre)
        got = h.inputs(r, False)
        h.st = state
        if not got:
            raised = [e for e in r.events if e.kind == "raise" and not e.conds]
            if h.raised and raised and not caught(raised[-1]):
                ctx.bad_ev("input", what, f"raises an error for responses the fit accepts", raised[-1])
            else:
                ctx.unknown("input", f"{what}: no use of the encoder seen")
            continue
        for e, v, why in got:
            if w is None:
                ctx.unknown("input", f"{what}: training input: {want[0][2] if want else 'no use of the encoder seen'}")
            elif v is None and why.startswith("?"):
                ctx.unknown("input", f"{what}: {why[1:]}")
            elif v is None:
                ctx.bad_ev("input", what, why, e)
            else:
                d = same(v, w)
                if d is None:
                    ctx.unknown("input", what)
                elif d:
                    ctx.bad_ev("input", what, f"the encoder does not get what it was trained with: {d}", e)
                else:
                    ctx.ok("input", what)
            if why is None and mode(h, r, e) is False:
                ctx.bad_ev("mode", what, "the encoder is in training mode", e)


def caught(e):
    return any(k[0] == "try" and k[4] for k in e.ctx if len(k) > 4)


def first(got):
    vs = [v for e, v, why in got if v is not None]
    return vs[0] if vs else None


def mode(h, r, e):
    """False when the last switch before the use is to training"""
    last = None
    for x in r.events:
        if x.seq >= e.seq:
            break
        if x.kind == "modeffect" and x.data[1] in ("train", "eval") and h.encoder(x.data[0]):
            last = x
    if last is None:
        return None
    on = last.data[1] == "train" and not (last.data[2] and is_const(last.data[2][0], False))
    return not on


def trained(ctx, h, r, got, who, fit):
    """training and the stored scores of the training data use one input"""
    w = first(got)
    for e, v, why in got:
        what = f"{who}: {e.stack[-1].rsplit('.', 1)[-1] if e.stack else 'fit'} in training"
        if v is None and why.startswith("?"):
            ctx.unknown("trained", f"{what}: {why[1:]}")
        elif v is None:
            ctx.bad_ev("trained", what, why, e)
        else:
            d = same(v, w)
            if d:
                ctx.bad_ev("trained", what, f"the encoder gets different input during one fit: {d}", e)
            elif d is None:
                ctx.unknown("trained", what)
            else:
                ctx.ok("trained", what)
    modes = [x for x in r.events if x.kind == "modeffect" and x.data[1] in ("train", "eval") and h.encoder(x.data[0])]
    if modes:
        x = modes[-1]
        on = x.data[1] == "train" and not (x.data[2] and is_const(x.data[2][0], False))
        if on and all(c.op == "iter" for c, _ in x.conds):
            ctx.bad_ev("mode", who, "the encoder is left in training mode when the fit ends", x)
        else:
            ctx.ok("mode", who)


# ------------------------------------------------------------------------------------------------------- what is remembered
def readers(ctx):
    """public functions of models, evaluators and plotters that get to look at a model's algorithm"""
    p = ctx.p
    base = p.cls("BaseIRTModel").qual
    names = {}
    for q, f in p.functions.items():
        names.setdefault(f.node.name, []).append(f)
    uses = {q: {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)} for q, f in p.functions.items()}
    reach = {q for q in uses if "algorithm" in uses[q]}
    while True:
        called = {p.functions[q].node.name for q in reach if p.functions[q].node.name != "__init__"}
        more = {q for q in uses if q not in reach and uses[q] & called}
        if not more:
            break
        reach |= more
    for q in sorted(reach):
        f = p.functions[q]
        if f.cls is None or f.node.name.startswith("_") or f.node.name in ("fit", "load_model", "save_model", "forward"):
            continue
        if p.is_subclass(f.cls.qual, base) or any(isinstance(n, ast.Attribute) and n.attr == "model" for m in f.cls.methods.values() for n in ast.walk(m.node)):
            if not p.is_subclass(f.cls.qual, p.cls("BaseIRTAlgorithm").qual) and not p.is_subclass(f.cls.qual, p.cls("Scale").qual):
                yield f


def remembered(ctx):
    p = ctx.p
    base = p.cls("BaseIRTModel").qual
    reads = {}
    for q in algorithms(ctx):
        name = q.rsplit(".", 1)[-1]
        fit = p.find_method(q, "fit")
        if fit is None:
            continue
        h = History(ctx, q)
        h.I.oracle = None
        m = T("obj", base, "model", False)
        h.st.heap[m, "algorithm"] = h.alg
        r = h.run(fit, h.alg, {"model": m} if "model" in fit.posnames else {})
        if h.raised:
            ctx.unknown("remembered", f"{name}: fit")
            continue
        state = h.st
        read = reads.setdefault(q, {})
        bare = state.fork()
        for k in [k for k in bare.heap if k[0] is h.alg]:
            bare.heap.pop(k)
        for f in readers(ctx):
            # everything of the algorithm that is looked at
            h.st = bare.fork()
            obj = m if p.is_subclass(f.cls.qual, base) else T("obj", f.cls.qual, "self", False)
            if obj is not m:
                h.st.heap[obj, "model"] = m
            e0 = len(h.I.events)
            h.run(f, obj, {})
            for e in h.I.events[e0:]:
                if e.kind == "attrload" and e.data[0] is h.alg:
                    read.setdefault(e.data[1], e)
            h.st = state.fork()
            st = h.st
            if p.is_subclass(f.cls.qual, base):
                obj = m
            else:
                obj = T("obj", f.cls.qual, "self", False)
                st.heap[obj, "model"] = m
            e0 = len(h.I.events)
            h.run(f, obj, {})
            th = None
            missing = False
            for e in h.I.events[e0:]:
                if e.kind != "attrload" or e.data[0] is not h.alg:
                    continue
                a = e.data[1]
                read.setdefault(a, e)
                if (h.alg, a) in state.heap or p.find_method(q, a) is not None or p.find_class_attr(q, a) is not None:
                    continue
                if a.startswith("__"):
                    continue
                if any(guards(c, h.alg, a) for c, _ in e.conds) or caught(e):
                    continue
                th = th or Theory(h.I)
                if not th.consistent([(c, pol) for c, pol in e.conds if c.op not in ("iter", "exc")]):
                    continue
                missing = True
                ctx.bad_ev("remembered", f"{f.qual}: {a} of {name}", f"{a} is used but {name}.fit does not remember it", e)
            h.st = state
            if not missing:
                ctx.ok("remembered", f"{f.qual} after {name}")
    # set on every way through the fit
    for q in algorithms(ctx):
        name = q.rsplit(".", 1)[-1]
        fit = p.find_method(q, "fit")
        used = set(reads.get(q, ()))
        for n in own(ctx, q):
            used |= n
        h = History(ctx, q)
        h.I.oracle = None
        old = {a: T("param", "old " + a, q) for (o, a) in h.st.heap if o is h.alg}
        for n in ast_names(ctx, q):
            old.setdefault(n, T("param", "old " + n, q))
        for a, t in old.items():
            h.st.heap[h.alg, a] = t
        m = T("obj", base, "model", False)
        r = h.run(fit, h.alg, {"model": m} if "model" in fit.posnames else {})
        if h.raised:
            continue
        # what evaluators and plots use when they are given no responses
        got = h.st.heap.get((h.alg, "train_data"), NONE)
        given = [x for x in walk(got) if x.op == "param" and x.args[0] == "train_data"]
        if "train_data" in reads.get(q, ()) and "train_data" in fit.posnames:
            if given and not keeps(got, old.get("train_data")):
                ctx.ok("every-fit", f"{name}: the responses")
            elif not given:
                e = reads[q]["train_data"]
                ctx.bad_ev("every-fit", f"{name}: train_data", f"after {name}.fit the stored responses are {show(got)[:60]}, not those of the fit; they are used here when no responses are given", e)
        for a, t in sorted(old.items()):
            v = h.st.heap.get((h.alg, a), t)
            if v is t or a not in used:
                continue
            if keeps(v, t):
                e = next((e for e in r.events if e.kind == "setattr" and e.data[0] is h.alg and e.data[1] == a), None)
                cs = [(c, pol) for c, pol in (e.conds if e else ())]
                ctx.bad_ev("every-fit", f"{name}: {a}", f"{a} is only set when {' and '.join(('' if pol else 'not ') + show(c)[:80] for c, pol in cs)[:160]}: after another fit it is still the one of the fit before", e)
            else:
                ctx.ok("every-fit", f"{name}: {a}")


def guards(c, alg, a):
    return any(x.op == "call" and x.args[0] in ("hasattr", "getattr") and x.args[1][:1] == (alg,) and is_const(x.args[1][1], a) for x in walk(c))


def keeps(v, old):
    """is the value of before left as it was on some path"""
    if v is old:
        return True
    if v.op == "phi":
        return keeps(v.args[1], old) or keeps(v.args[2], old)
    return False


def ast_names(ctx, q):
    """attributes the methods of an algorithm set"""
    out = set()
    for b in ctx.p.mro(q):
        c = ctx.p.classes.get(b)
        for m in (c.methods.values() if c else ()):
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    out.add(n.attr)
    return out


def own(ctx, q):
    """attributes that public methods of the algorithm other than fit use"""
    for b in ctx.p.mro(q):
        c = ctx.p.classes.get(b)
        for m in (c.methods.values() if c else ()):
            if m.node.name.startswith("_") or m.node.name == "fit":
                continue
            yield {n.attr for n in ast.walk(m.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == "self"}


def check(ctx):
    inputs(ctx)
    remembered(ctx)
    ctx.floor("input", 10)
    ctx.floor("remembered", 5)
