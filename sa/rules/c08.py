"""C08: saving and loading a model restores all of it."""
import ast

from ..c_util import strip_pass
from ..interp import State
from ..logic import Theory
from ..terms import NONE, T, Term, const, cval, is_const, show, walk

SAVERS = ("torch.save", "pickle.dump", "pickle.dumps", "joblib.dump")
LOADERS = ("torch.load", "pickle.load", "pickle.loads", "joblib.load")
RANDOM = ("rand", "randn", "randint", "randperm", "normal", "multinomial", "bernoulli", "rand_like", "randn_like", "randint_like", "poisson",
          "uniform_", "normal_", "random_", "bernoulli_", "exponential_", "kaiming_uniform_", "kaiming_normal_", "xavier_uniform_", "xavier_normal_", "trunc_normal_", "orthogonal_")
HOLDERS = ("torch.nn.ModuleList", "torch.nn.ModuleDict", "torch.nn.ParameterList", "torch.nn.ParameterDict", "torch.nn.Sequential")


def check(ctx):
    kinds = Kinds(ctx)
    restored(ctx, kinds)
    registered(ctx, kinds)
    pickled(ctx, kinds)
    ctx.floor("restored", 20)
    ctx.floor("registered", 10)
    ctx.floor("pickled", 5)


class Kinds:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.memo = {}

    def ismodule(self, q):
        """is the class a torch module"""
        if q not in self.memo:
            self.memo[q] = False
            c = self.p.classes.get(q)
            if c is None:
                self.memo[q] = q in ("torch.nn.Module",) or q.startswith(("torch.nn.", "torch.nn.modules.")) and q.rsplit(".", 1)[-1][:1].isupper() and q.rsplit(".", 1)[-1] != "Parameter"
            else:
                self.memo[q] = any(self.ismodule(b) for b in self.p.mro(q)[1:]) or any(self.extern(b, c) for b in c.node.bases)
        return self.memo[q]

    def extern(self, b, c):      # a base class outside of the repository
        n = self.p.resolve_expr(b, c.module)
        n = n if isinstance(n, str) else ast.unparse(b)
        return n in ("torch.nn.Module", "nn.Module", "Module")

    def modules(self):
        return sorted(q for q in self.p.classes if self.ismodule(q))

    def isparam(self, t):
        while t.op == "inplace":
            t = t.args[1]
        return t.op == "call" and t.args[0].rsplit(".", 1)[-1] == "Parameter"


# -------------------------------------------------------------------------------------------------------------- the round trip
def constructed(I, p, q, name):
    o = T("obj", q, name, True)
    I.nodepath.append(("object", name))      # what the two constructors create are different objects
    r = I.run(p.find_method(q, "__init__"), presets={}, self_obj=o)
    I.nodepath.pop()
    return o, r


def chain(I, f, obj, pre, st):
    st.conds, st._facts = (), None
    return I.run(f, presets=pre, self_obj=obj, state=st)


def restored(ctx, kinds):
    p, lib = ctx.p, ctx.lib
    base = p.cls("BaseIRTModel").qual
    algs = lib.concrete("BaseIRTAlgorithm")
    for q in lib.concrete("BaseIRTModel"):
        for a in algs:
            trip(ctx, kinds, q, a)


def trip(ctx, kinds, q, a):
    p, lib = ctx.p, ctx.lib
    who = f"{q.rsplit('.', 1)[-1]} fitted with {a.rsplit('.', 1)[-1]}"
    I = lib.interp()
    A, r = constructed(I, p, q, "saved")
    B, r2 = constructed(I, p, q, "loaded")
    if r.state is None or r2.state is None:
        ctx.unknown("restored", f"{who}: constructor")
        return
    for m in ("fit", "add_scale_transformation", "save_model", "load_model"):
        if p.find_method(q, m) is None:
            ctx.unknown("restored", f"{who}: no {m}")
            return
    st = r.state
    st.heap.update(r2.state.heap)
    before = dict(st.heap)
    alg = T("obj", a, "algorithm", True)
    f = p.find_method(q, "fit")
    r = chain(I, f, A, {"algorithm": alg}, st)
    if r.state is None:
        ctx.unknown("restored", f"{who}: fit")
        return
    f = p.find_method(q, "add_scale_transformation")
    r = chain(I, f, A, {f.posnames[1]: T("obj", p.cls("Scale").qual, "scale", False)}, r.state)
    after = dict(r.state.heap)
    save, load = p.find_method(q, "save_model"), p.find_method(q, "load_model")
    lib.nfun |= {save.qual, load.qual, f.qual}
    e0 = len(I.events)
    r = chain(I, save, A, {}, r.state)
    saves = [e for e in I.events[e0:] if e.kind == "call" and e.data.op == "call" and e.data.args[0] in SAVERS and e.data.args[1]]
    if len(saves) != 1 or r.state is None:
        ctx.unknown("restored", f"{who}: {len(saves)} calls that save")
        return
    sv = saves[0]
    if any(c.op != "iter" for c, _ in sv.conds):
        ctx.unknown("restored", f"{who}: saved under a condition")
    saved = sv.data.args[1][0]
    # what reading the file gives
    saved = contents(saved)
    I.given = {n: saved for n in LOADERS}
    e1 = len(I.events)
    r = chain(I, load, B, {}, r.state)
    I.given = {}
    if r.state is None or not r.rets and any(e.kind == "raise" and not e.conds for e in I.events[e1:]):
        ctx.bad("restored", load.qual, f"{who}: the loader always raises on a saved file", load.module.path, load.node.lineno)
        return
    evs = I.events[e1:]
    for e in evs:
        if e.kind == "call" and e.data.op == "call" and e.data.args[0] == "torch.load" and is_const(dict(e.data.args[3] if len(e.data.args) > 3 else e.data.args[2]).get("weights_only", NONE), True):
            if any(v is alg for v in walk(saved)):
                ctx.bad_ev("loadable", load.qual, "only tensors are accepted by this load, the file also holds the fitting algorithm", e)
    # names that are not in the file
    for e in evs:
        if e.kind == "raise":
            continue
        for t in terms(e):
            if t.op == "index" and t.args[0].op == "dict" and is_const(t.args[1]) and all(is_const(k) for k, _ in t.args[0].args[0]) and t.args[0] is saved:
                ctx.bad_ev("restored", f"{load.qual}: {show(t.args[1])}", f"reads {show(t.args[1])}, which {save.qual.rsplit('.', 1)[-1]} does not write", e)
    heap = r.state.heap
    th = Theory(I)
    changed = sorted({n for (o, n), v in after.items() if o is A and moved(th, before.get((A, n), T("attr", A, n)), v) and not kinds.isparam(v)} | {"algorithm", "scale"})
    reg = names(kinds, ctx, q)
    for n in changed:
        if n in reg:
            continue
        want, got = after.get((A, n), NONE), heap.get((B, n), NONE)
        e = next((e for e in reversed(I.events[:e0]) if e.kind in ("setattr", "mutate") and (e.kind != "setattr" or e.data[0] is A and e.data[1] == n)), None)
        w = f"{who}: {n}"
        same, lost = copied(got, want, r.state.heap, after, I.events[e0:])
        for x, ev in lost:
            if read(ctx, x, None):
                ctx.bad_ev("restored", f"{save.qual}: {x}", f"{w}: {x} is left out of the copy that is saved, but used afterwards", ev)
        if alike(got, want, A, B, r.state.heap) or same:
            ctx.ok("restored", w)
        elif n not in ("algorithm", "scale") and optional(ctx, n) and all(is_const(x, None) or x.op == "attr" for _, x in leaves(got)):
            ctx.unknown("restored", f"{w}: may be computed again where it is missing")
        elif reaches(got, want, saved):
            ctx.unknown("restored", f"{w}: loaded as {show(got)[:80]}")
        else:
            cond = f" on some paths" if got.op == "phi" else ""
            ctx.bad("restored", f"{q.rsplit('.', 1)[-1]}.{n}" if n not in ("algorithm", "scale") else f"{load.qual}: {n}",
                    f"{who}: {n} of the fitted model is {show(want)[:70]}, of the loaded one {show(got)[:70]}{cond}", load.module.path, load.node.lineno)
    for (o, n), v in sorted(after.items(), key=lambda x: (show(x[0][0]), x[0][1])):
        if o is alg and moved(th, v, heap.get((o, n), NONE)) and not alike(heap.get((o, n), NONE), v, A, B, heap) and read(ctx, n, None):
            ctx.bad("restored", f"{a.rsplit('.', 1)[-1]}.{n}", f"{who}: {n} of the algorithm is {show(v)[:60]} after the fit, {show(heap.get((o, n), NONE))[:60]} after saving and loading", load.module.path, load.node.lineno)
    # what belongs to the parts of the model
    for (o, n), v in sorted(after.items(), key=lambda x: (show(x[0][0]), x[0][1])):
        if o is A or o is alg or o is B or before.get((o, n)) is v or not part(o, A, before):
            continue
        if kinds.isparam(v) or is_const(v, None):
            continue
        t = I.typeof(o)
        if t is None or not kinds.ismodule(t[0]) or n in names(kinds, ctx, t[0]):
            continue
        ctx.bad("restored", f"{t[0]}.{n}", f"{who}: fitting sets {n} of {show(o)[:60]}, which is not part of the saved state", load.module.path, load.node.lineno)
    # parameters
    loads = [e for e in evs if e.kind == "call" and e.data.op in ("meth", "vcall") and (e.data.args[0] == "load_state_dict" or len(e.data.args) > 1 and e.data.args[1] == "load_state_dict")]
    loads = [e for e in loads if any(x is B for x in walk(e.data))]
    if not loads:
        ctx.bad("state", load.qual, f"{who}: the parameters of the saved model are never put into the loaded one", load.module.path, load.node.lineno)
    for e in loads:
        sd = [x for x in walk(e.data) if x.op == "meth" and x.args[0] in ("state_dict", "parameters", "named_parameters")]
        if any(x.args[0] == "state_dict" and x.args[1] is A for x in sd) and not whole(e.data, A):
            ctx.unknown("state", f"{who}: {show(e.data)[:100]}")
        elif any(x.args[0] == "state_dict" and x.args[1] is A for x in sd):
            if any(not always(c) for c, _ in e.conds):
                ctx.unknown("state", f"{who}: loaded under a condition")
            else:
                ctx.ok("state", who)
        elif sd:
            only = [x for x in sd if x.args[1] is A]
            if only and all(x.args[0] != "state_dict" for x in only):
                ctx.bad_ev("state", save.qual, "only the parameters are saved, not the buffers that belong to the state", sv)
            else:
                ctx.bad_ev("state", load.qual, f"the state that is loaded is that of {show(sd[0].args[1])[:50]}", e)
        else:
            ctx.unknown("state", f"{who}: {show(e.data)[:100]}")


def whole(call, A):
    """is the loaded state the one that was saved, under the same names"""
    args = call.args[2] if call.op == "meth" else tuple(dict(call.args[3]).values())
    for a in args:
        a = plain(a)
        if a.op == "call" and a.args[0] in ("dict", "collections.OrderedDict") and a.args[1]:
            a = plain(a.args[1][0])
        if a.op == "meth" and a.args[0] == "state_dict" and a.args[1] is A:
            return True
        if a.op == "dictof":
            k, v = a.args[0], a.args[1]
            if k.op == "elem" and k.args[0].op == "meth" and k.args[0].args[0] == "keys":
                if any(x.op == "elem" and x.args[0].op == "meth" and x.args[0].args[0] == "values" and x.args[0].args[1] is k.args[0].args[1] and x.args[1:] == k.args[1:] for x in walk(v)):
                    return not any(x.op == "filtered" for x in walk(a))
                return any(x.op == "index" and x.args[1] is k for x in walk(v)) and not any(x.op == "filtered" for x in walk(a))
            if k.op == "index" and k.args[0].op == "elem" and is_const(k.args[1], 0):
                return any(x.op == "index" and x.args[0] is k.args[0] and is_const(x.args[1], 1) for x in walk(v)) and not any(x.op == "filtered" for x in walk(a))
    return False


def moved(th, old, new):
    """is there a path on which the value is another one"""
    if old is new:
        return False
    for c1, a in leaves(old):
        for c2, b in leaves(new):
            if a is not b and th.consistent(c1 + c2):
                return True
    return False


def leaves(t, depth=0):
    if t.op != "phi" or depth > 5:
        return [([], t)]
    return [([(t.args[0], True)] + c, x) for c, x in leaves(t.args[1], depth + 1)] + [([(t.args[0], False)] + c, x) for c, x in leaves(t.args[2], depth + 1)]


def always(c):
    return c.op == "iter"


def contents(t):
    """the saved object as it comes back"""
    return t


def terms(e):
    d = e.data if isinstance(e.data, tuple) else (e.data,)
    for x in d:
        if hasattr(x, "op"):
            yield from walk(x)


def plain(t):
    while True:
        s = strip_pass(t)
        if s.op == "call" and s.args[0] in ("copy.deepcopy", "copy.copy") and s.args[1]:
            s = s.args[1][0]
        if s.op == "meth" and s.args[0] == "copy":
            s = s.args[1]
        if s is t:
            return t
        t = s


def alike(got, want, A, B, heap):
    got, want = plain(got), plain(want)
    if got is want:
        return True
    if want.op == "phi" and got.op == "phi" and got.args[0] is want.args[0]:
        return alike(got.args[1], want.args[1], A, B, heap) and alike(got.args[2], want.args[2], A, B, heap)
    if want.op == "list" and got.op in ("list", "tuple") and len(got.args[0]) == len(want.args[0]):
        return all(alike(g, w, A, B, heap) for g, w in zip(got.args[0], want.args[0]))
    if got.op == "call" and got.args[0] in ("list", "tuple") and len(got.args[1]) == 1:
        return alike(got.args[1][0], want, A, B, heap)
    return False


def copied(got, want, heap, after, events):
    """is the loaded value a copy of the one that was there, and which attributes were changed in or left out of the copy"""
    objs, x = [], got
    while x.op == "call" and x.args[0] in ("copy.copy", "copy.deepcopy") and len(x.args[1]) == 1:
        objs.append(x)
        x = x.args[1][0]
    if not objs or plain(x) is not plain(want):
        return False, []
    lost = []
    for e in events:
        if e.kind == "setattr" and any(e.data[0] is o for o in objs):
            was = after.get((x, e.data[1]))
            if heap.get((e.data[0], e.data[1])) is not was:
                lost.append((e.data[1], e))
        elif e.kind == "delattr" and any(e.data[0] is o for o in objs):
            lost.append((e.data[1], e))
        elif e.kind == "mutate":
            o, how = e.data, e.extra
            own = o.op == "call" and o.args[0] == "vars" and len(o.args[1]) == 1 and any(o.args[1][0] is z for z in objs) \
                or o.op == "attr" and o.args[1] == "__dict__" and any(o.args[0] is z for z in objs)
            if own and how and how[0] in ("pop", "delitem", "setitem") and len(how[1].args) > 2:
                ks = how[1].args[2] if isinstance(how[1].args[2], tuple) else (how[1].args[2],)
                k = ks[0] if ks else None
                if isinstance(k, Term) and is_const(k) and isinstance(cval(k), str):
                    lost.append((cval(k), e))
    return True, lost


def optional(ctx, n):
    """is there a test of whether the attribute is there"""
    for m in ctx.p.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Is, ast.IsNot)) and isinstance(x.comparators[0], ast.Constant) and x.comparators[0].value is None:
                if isinstance(x.left, ast.Attribute) and x.left.attr == n or isinstance(x.left, ast.Call) and any(isinstance(a, ast.Constant) and a.value == n for a in x.left.args):
                    return True
    return False


def reaches(got, want, saved):
    """does the loaded value depend on the one that was saved, in a way not understood"""
    if got.op == "phi":
        return all(reaches(x, want, saved) for x in got.args[1:])
    inner = {x for x in walk(want) if x.op in ("obj", "new", "param")}
    return got.op not in ("const", "list", "dict", "obj", "new", "param") and any(x in inner for x in walk(got))


def part(o, A, before):
    """is the object a part of the model that was there before the fit"""
    if any(x is A for x in walk(o)):
        return True
    return any(k[0] is o for k in before)


def names(kinds, ctx, q):
    """names under which the class registers parameters, buffers and submodules that are saved"""
    key = ("names", q)
    if key not in kinds.memo:
        init = ctx.p.find_method(q, "__init__")
        out = set()
        if init is not None:
            r = ctx.lib.run(init, cls=q, exact=True)
            for e in r.events:
                if e.kind == "register" and e.data[0].op == "obj" and not is_const(e.extra[1].get("persistent", NONE), False):
                    out.add(e.data[1])
                if e.kind == "setattr" and e.data[0].op == "obj" and kinds.isparam(e.data[3]):
                    out.add(e.data[1])
        kinds.memo[key] = out
    return kinds.memo[key]


# ------------------------------------------------------------------------------------------------------------------ registered
def registered(ctx, kinds):
    """what a module draws at random or contains is part of its state"""
    p = ctx.p
    for q in kinds.modules():
        init = p.find_method(q, "__init__")
        if init is None or init.cls is None:
            ctx.ok("registered", q)
            continue
        try:
            r = ctx.lib.run(init, cls=q, exact=True)
        except RecursionError:
            ctx.unknown("registered", q)
            continue
        if r.state is None:
            ctx.unknown("registered", q)
            continue
        me = r.state
        selfs = {e.data[0] for e in r.events if e.kind in ("setattr", "register") and e.data[0].op == "obj"}
        persistent = {}
        for e in r.events:
            if e.kind == "register" and e.extra[0] == "buffer":
                persistent[(e.data[0], e.data[1])] = not is_const(e.extra[1].get("persistent", NONE), False)
            elif e.kind == "register":
                persistent[(e.data[0], e.data[1])] = True
        bad = False
        kept = set()
        for e in r.events:
            if e.kind == "setattr" and e.data[0] in selfs and (module(kinds, r.interp, e.data[3]) or e.data[3].op == "call" and e.data[3].args[0] in HOLDERS):
                kept |= set(walk(e.data[3]))
            if e.kind == "register" and e.extra[0] != "buffer":
                kept |= set(walk(e.data[2]))
        for (o, n), v in me.heap.items():
            if o not in selfs or used(ctx, q, n) is False:
                continue
            ev = next((e for e in r.events if e.kind in ("setattr", "register") and e.data[0] is o and e.data[1] == n), None)
            if ev is None:
                continue
            saved = persistent.get((o, n))
            if saved:
                continue
            for w in branches(v):
                if kinds.isparam(w) or module(kinds, r.interp, w) and saved is None:
                    continue
                rnd = random(w)
                if rnd is not None:
                    ctx.bad_ev("registered", f"{q}: {n}", f"{n} is drawn with {rnd} when the model is constructed and is not part of the saved state", ev)
                    bad = True
                    continue
                inside = held(kinds, r.interp, w)
                if inside is not None and inside not in kept:
                    ctx.bad_ev("registered", f"{q}: {n}", f"{n} holds {show(inside)[:60]} without registering it: its parameters are not part of the saved state", ev)
                    bad = True
        # later changes of what is not saved
        for m in methods(p, q):
            if m.node.name == "__init__":
                continue
            rr = ctx.lib.run(m, cls=q, exact=True)
            for e in rr.events:
                if e.kind == "register" and e.data[0].op == "obj" and e.data[0].args[0] == q and len(e.stack) == 1 and m.node.name not in called(p, q):
                    ctx.bad_ev("registered", f"{q}: {e.data[1]}", f"{m.node.name} adds {e.data[1]} to the state after construction: a freshly constructed model does not have it", e)
                    bad = True
        if not bad:
            ctx.ok("registered", q)


def called(p, q):
    """methods that the constructors call"""
    out, todo = set(), [p.find_method(b, "__init__") for b in p.mro(q) if b in p.classes]
    while todo:
        f = todo.pop()
        if f is None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and n.func.attr not in out:
                out.add(n.func.attr)
                todo.append(p.find_method(q, n.func.attr))
    return out


def methods(p, q):
    for b in p.mro(q):
        c = p.classes.get(b)
        for m in (c.methods.values() if c else ()):
            if p.find_method(q, m.node.name) is m:
                yield m


def used(ctx, q, n):
    for b in ctx.p.mro(q):
        c = ctx.p.classes.get(b)
        if c and any(isinstance(x, ast.Attribute) and x.attr == n and isinstance(x.ctx, ast.Load) for x in ast.walk(c.node)):
            return True
    return any(isinstance(x, ast.Attribute) and x.attr == n and isinstance(x.ctx, ast.Load) for m in ctx.p.modules.values() for x in ast.walk(m.tree))


def branches(t):
    return branches(t.args[1]) + branches(t.args[2]) if t.op == "phi" else [t]


def random(t):
    """name of the generator the value comes from"""
    for x in values(t):
        if x.op == "call" and x.args[0].startswith(("torch.", "numpy.random.", "random.")) and x.args[0].rsplit(".", 1)[-1] in RANDOM:
            return x.args[0]
        if x.op == "inplace" and str(x.args[0]) in RANDOM:
            return x.args[0]
        if x.op == "meth" and x.args[0] in RANDOM and x.args[0].endswith("_"):
            return x.args[0]
    return None


def values(t):
    """terms whose numbers end up in the value"""
    if t.op in ("attr", "new", "obj", "param", "const"):
        return
    yield t
    for a in t.args:
        for x in a if isinstance(a, tuple) else (a,):
            if isinstance(x, tuple):
                x = x[1] if len(x) == 2 else None
            if hasattr(x, "op"):
                yield from values(x)


def module(kinds, I, t):
    if t.op == "call" and kinds.ismodule(t.args[0]):
        return True
    ty = I.typeof(t) if t.op in ("new", "obj", "param") else None
    return ty is not None and kinds.ismodule(ty[0])


def held(kinds, I, t):
    """a module or parameter inside a plain container"""
    if t.op in ("list", "tuple"):
        xs = list(t.args[0])
    elif t.op == "dict":
        xs = [v for _, v in t.args[0]]
    elif t.op == "listof":
        xs = [t.args[0]]
    elif t.op == "listappend":
        xs = list(t.args[1:])
    elif t.op in ("out", "mu") and len(t.args) > 2:
        xs = [x for x in t.args[2:] if hasattr(x, "op")]
    elif t.op == "param":
        ty = annotation(kinds, t)
        return t if ty else None
    else:
        return None
    for x in xs:
        if not hasattr(x, "op"):
            continue
        if kinds.isparam(x) or module(kinds, I, x):
            return x
        y = held(kinds, I, x)
        if y is not None:
            return y
    return None


def annotation(kinds, t):
    """is the parameter annotated as a list of modules"""
    f = kinds.p.functions.get(t.args[1])
    a = f.annotations.get(t.args[0]) if f is not None else None
    if not isinstance(a, ast.Subscript):
        return False
    head = ast.unparse(a.value).rsplit(".", 1)[-1].lower()
    if head not in ("list", "tuple", "dict", "sequence", "iterable"):
        return False
    for n in ast.walk(a.slice):
        if isinstance(n, (ast.Name, ast.Attribute)):
            c = kinds.p.resolve_expr(n, f.module)
            c = getattr(c, "qual", c)
            if isinstance(c, str) and kinds.ismodule(c) or isinstance(n, ast.Name) and any(q.rsplit(".", 1)[-1] == n.id and kinds.ismodule(q) for q in kinds.p.classes):
                return True
    return False


# -------------------------------------------------------------------------------------------------------------------- pickled
def pickled(ctx, kinds):
    """algorithms and scales are saved as whole objects"""
    p = ctx.p
    bases = [p.cls("BaseIRTAlgorithm").qual, p.cls("Scale").qual]
    roots = [q for q in p.classes if any(p.is_subclass(q, b) for b in bases)]
    reach = closure(ctx, roots)
    for q in sorted(reach):
        bad = False
        for m in methods(p, q):
            r = ctx.lib.run(m, cls=q, exact=True)
            for e in r.events:
                if e.kind != "setattr" or e.data[0].op != "obj" or e.data[0].args[0] != q:
                    continue
                v = e.data[3]
                fn = unpicklable(v)
                if fn and not cleared(ctx, q, e.data[1], m):
                    ctx.bad_ev("pickled", f"{q}: {e.data[1]}", f"{e.data[1]} holds {fn}: the object cannot be written to a file", e)
                    bad = True
        for special in ("__getstate__", "__reduce__", "__reduce_ex__", "__setstate__", "__deepcopy__", "state_dict", "load_state_dict", "get_extra_state", "_save_to_state_dict", "_load_from_state_dict"):
            c = p.classes.get(q)
            f = c.methods.get(special) if c else None
            if f is None:
                continue
            lost = dropped(f)
            hit = [n for n in lost if read(ctx, n, f)]
            if hit:
                ctx.bad("pickled", f"{q}.{special}", f"{', '.join(sorted(hit))} is left out of what is saved but used afterwards", f.module.path, f.node.lineno)
                bad = True
            elif not lost:
                ctx.unknown("pickled", f"{q}: {special}")
        if not bad:
            ctx.ok("pickled", q)


def closure(ctx, roots):
    """classes of the repository that objects of these classes hold"""
    p = ctx.p
    out, todo = set(), list(roots)
    while todo:
        q = todo.pop()
        if q in out:
            continue
        out.add(q)
        for m in methods(p, q):
            r = ctx.lib.run(m, cls=q, exact=True)
            for e in r.events:
                if e.kind == "setattr":
                    for x in branches(e.data[3]):
                        if x.op == "new" and x.args[0] in p.classes:
                            todo.append(x.args[0])
    for q in p.classes:
        if any(p.is_subclass(q, b) for b in (p.cls("BaseIRTModel").qual,)):
            out.add(q)
    return out


def unpicklable(v):
    for x in branches(v):
        if x.op in ("lambda", "closure"):
            return "a function defined inside another one"
        if x.op in ("list", "tuple"):
            for y in x.args[0]:
                z = unpicklable(y)
                if z:
                    return z
        if x.op == "dict":
            for _, y in x.args[0]:
                z = unpicklable(y)
                if z:
                    return z
        if x.op == "call" and x.args[0] in ("open", "io.open", "threading.Lock", "threading.RLock", "iter", "sqlite3.connect"):
            return f"the result of {x.args[0]}"
        if x.op in ("genexp", "generator"):
            return "a generator"
    return None


def cleared(ctx, q, n, m):
    """does the method take the attribute away again"""
    r = ctx.lib.run(m, cls=q, exact=True)
    if r.state is None:
        return False
    v = next((v for (o, a), v in r.state.heap.items() if o.op == "obj" and o.args[0] == q and a == n), None)
    return v is not None and not unpicklable(v)


def dropped(f):
    """names a __getstate__ takes out"""
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            out.add(n.args[0].value)
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                    out.add(t.slice.value)
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is None:
            for t in n.targets:
                if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                    out.add(t.slice.value)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.NotIn, ast.NotEq)):
            for x in ast.walk(n.comparators[0]):
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    out.add(x.value)
    return out


def read(ctx, n, own):
    """is the attribute used by something other than a fit"""
    n = n.rsplit(".", 1)[-1]
    for q, f in ctx.p.functions.items():
        if f is own or f.node.name in ("fit", "__init__", "__getstate__", "__setstate__", "_training_loop", "_train_step", "_train_batch", "_impute_missing"):
            continue
        if any(isinstance(x, ast.Attribute) and x.attr == n and isinstance(x.ctx, ast.Load) for x in ast.walk(f.node)):
            return True
    return False
