"""C02: scoring, evaluating and plotting leave the fitted model as it was."""
import ast

from ..alias import Alias
from ..logic import is_abstract
from ..terms import show, is_const, cval, T, walk, contains
from .c26 import is_helper

MODEL_METHODS_CHANGING = {"__init__", "fit", "load_model", "add_scale_transformation", "detach_scale_transformations", "reset_parameters", "precompute_basis", "forward",
                          "set_start_theta", "latent_variables", "plot", "evaluate"}
SWITCHES = {"torch.set_grad_enabled", "torch.set_default_dtype", "torch.set_default_device", "torch.set_default_tensor_type", "torch.set_num_threads", "torch._C._set_grad_enabled",
            "torch.autograd.set_grad_enabled", "torch.autograd.set_detect_anomaly"}


def scope(ctx):
    """Public operations that only use a fitted model."""
    p = ctx.p
    base = {n: p.cls(n).qual for n in ("BaseIRTModel", "BaseIRTAlgorithm", "Scale", "Evaluator", "Plotter", "OutlierDetector")}
    seen = set()

    def wanted(f, q):
        if is_helper(f) or f.name in MODEL_METHODS_CHANGING or f.is_abstract:
            return False
        if f.name.startswith("__"):
            return False
        return True

    for q, c in sorted(p.classes.items()):
        kinds = [n for n, b in base.items() if p.is_subclass(q, b)]
        if not kinds:
            continue
        for b in p.mro(q):
            k = p.classes.get(b)
            if not k:
                continue
            for n, f in sorted(k.methods.items()):
                if n.endswith("@setter") or f.is_static or not wanted(f, q):
                    continue
                if p.find_method(q, n) is not f:
                    continue
                if kinds == ["BaseIRTAlgorithm"] and n not in ("theta_scores", "sample_latent_variables"):
                    continue
                if "Scale" in kinds and n not in ("transform", "inverse", "jacobian", "__call__", "gradients", "forward", "bit_score_distance", "bit_scores_from_theta"):
                    continue
                exact = None if is_abstract(p, q) else q
                if exact is None and b != q:
                    continue
                key = (f.qual, exact)
                if key in seen:
                    continue
                seen.add(key)
                r = ctx.lib.run(f, cls=exact)
                if r is not None:
                    yield f, r


def is_state_object(p, I, o):
    """model, algorithm, scale or a module inside of them (not something made during the operation)"""
    t = I.typeof(o)
    if t is None or root_new(o):
        return False
    q = t[0]
    names = {p.classes[b].name for b in p.mro(q) if b in p.classes}
    return bool(names & {"BaseIRTModel", "BaseIRTAlgorithm", "Scale"}) or p.is_module_class(q)


def configured(p, I, o, name):
    """a private attribute that the constructor gives its value, unlike one that is filled when it is needed"""
    t = I.typeof(o)
    if t is None or name.startswith("__"):
        return False
    found = False
    for b in p.mro(t[0]):
        f = p.classes[b].methods.get("__init__") if b in p.classes else None
        if f is None:
            continue
        for x in ast.walk(f.node):
            ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AnnAssign) and x.value is not None else []
            if any(isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == f.posnames[0] and y.attr == name for y in ts):
                v = x.value
                if isinstance(v, ast.Constant) and v.value is None or isinstance(v, (ast.Dict, ast.List, ast.Set)) and not any(True for _ in ast.iter_child_nodes(v) if not isinstance(_, ast.Load)) \
                        or isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and (v.func.id if isinstance(v.func, ast.Name) else v.func.attr) in ("dict", "list", "set", "OrderedDict", "defaultdict", "WeakKeyDictionary"):
                    return False
                found = True
    return found


def root_new(o):
    while o.op in ("attr", "index", "elem", "mu", "out", "phi"):
        if o.op in ("mu", "out"):
            o = o.args[2]
        elif o.op == "phi":
            return root_new(o.args[1]) and root_new(o.args[2])
        else:
            o = o.args[0]
    return o.op in ("new", "call", "cbarg")


def tids(e, part):
    """ids of the try statements whose given part encloses the event"""
    if part == "body":
        return {x[1] for x in e.ctx if x[0] == "try"}
    if part == "finally":
        return {x[1] for x in e.ctx if x[0] == "finally"}
    return {x[1] for x in e.ctx if x[0] == "handler"}


def restored(events, e, restores):
    """Is the switch of event e undone on the normal and on every error exit?  None when fine, else the exit that lacks it."""
    after = [x for x in restores if x.seq > e.seq]
    if not after:
        return "any exit"
    inbody = tids(e, "body")
    for x in after:
        if tids(x, "finally") & inbody:
            return None
    exc = any(tids(x, "handler") & inbody for x in after)
    normal = any(not (tids(x, "handler")) for x in after)
    if exc and normal:
        return None
    # acquired just before the try statement whose finally releases
    for x in after:
        for t in tids(x, "finally"):
            first = [y.seq for y in events if y.seq > e.seq and any(c[0] == "try" and c[1] == t for c in y.ctx)]
            if first:
                between = [y for y in events if e.seq < y.seq < first[0] and y.kind in ("raise",) and len(y.stack) <= len(e.stack) + 3]
                if not between:
                    return None
    if not normal:
        return "the normal exit"
    return "the error exit"


def requires_grad_events(p, I, A, r):
    """(event, value) for every change of gradient flags of model parameters"""
    for e in r.events:
        if e.kind == "modeffect" and e.data[1] == "requires_grad_" and not root_new(e.data[0]) and is_state_object(p, I, e.data[0]):
            yield e, e.data[2][0] if e.data[2] else T("const", "bool", True)
        elif e.kind == "mutate" and e.extra and e.extra[0] == "requires_grad_" and parameter_of_model(p, I, e.data):
            yield e, e.extra[2] if len(e.extra) > 2 else T("const", "bool", True)
        elif e.kind == "setattr" and e.data[1] == "requires_grad" and parameter_of_model(p, I, e.data[0]):
            yield e, e.data[3]


def blanket(e, v):
    """one flag for all parameters"""
    if e.kind == "modeffect":
        return v.op not in ("kwarg", "param")
    return v.op == "call" and v.args[0] in ("any", "all", "builtins.any", "builtins.all", "bool")


def parameter_of_model(p, I, t):
    """an element of model.parameters() / a parameter attribute"""
    for x in walk(t):
        if x.op == "meth" and x.args[0] in ("parameters", "named_parameters") and not root_new(x.args[1]):
            return True
        if x.op == "meth" and x.args[0] not in ("requires_grad_", "__getitem__", "to"):
            return False
    if t.op == "attr" and is_state_object(p, I, t.args[0]) and I.typeof(t) is None:
        return True
    return False


def check(ctx):
    p = ctx.p
    for f, r in scope(ctx):
        I = r.interp
        A = Alias(ctx.lib, I)
        evs = r.events
        ctx.ok("operation", f"{f.qual}")
        # 1. attributes of the model
        for e in evs:
            if e.kind in ("setattr", "delattr"):
                o, name = e.data[0], e.data[1]
                if name == "requires_grad":
                    continue
                if name in ("data", "grad") and e.kind == "setattr":
                    if name == "data":
                        state_mutation(ctx, p, I, A, f, e, o, "assignment to .data")
                    continue
                if not is_state_object(p, I, o) or name and name.startswith("_") and not configured(p, I, o, name):
                    continue
                if e.kind == "setattr" and e.data[3] is e.data[2]:
                    continue
                ctx.ok("attribute-write", f"{e.stack[-1]}: {show(o)[:40]}.{name}")
                if e.kind == "setattr":
                    orig = T("attr", o, name)
                    if e.data[3] is orig:
                        continue      # the restoring write itself
                    back = [x for x in evs if x.kind == "setattr" and x.data[0] is o and x.data[1] == name and restores_value(x.data[3], orig)]
                    lacking = restored(evs, e, back)
                    if lacking is None:
                        continue
                    ctx.bad_ev("attribute-write", f"{e.stack[-1]}:{name}", f"{f.qual} changes {show(o)[:50]}.{name} and does not restore it on {lacking}", e)
                else:
                    ctx.bad_ev("attribute-write", f"{e.stack[-1]}:{name}", f"{f.qual} deletes {show(o)[:50]}.{name}", e)
            elif e.kind == "mutate":
                how = e.extra[0] if e.extra else ""
                if how == "requires_grad_":
                    continue
                state_mutation(ctx, p, I, A, f, e, e.data, how)
        # 2. gradient flags
        ge = list(requires_grad_events(p, I, A, r))
        for e, v in ge:
            if is_const(v) and tids(e, "finally") == set():
                ctx.ok("grad-flags", f"{e.stack[-1]}: requires_grad_({show(v)})")
                lacking = restored(evs, e, [x for x, w in ge if x is not e and not (is_const(w) and is_const(v) and cval(w) == cval(v))])
                if lacking:
                    ctx.bad_ev("grad-flags", f"{e.stack[-1]}:requires_grad", f"{f.qual} sets the gradient flags of the model and does not restore them on {lacking}", e)
            elif is_const(v):
                ctx.bad_ev("grad-flags", f"{e.stack[-1]}:requires_grad-blanket", f"{f.qual} sets every gradient flag to {show(v)} instead of what it was before", e)
            elif blanket(e, v):
                ctx.bad_ev("grad-flags", f"{e.stack[-1]}:requires_grad-blanket", f"{f.qual} gives every parameter the same gradient flag ({show(v, 3)[:60]}) instead of the one it had before", e)
        # 3. device, 4. training mode
        to = [e for e in evs if e.kind == "modeffect" and e.data[1] in ("to", "cuda", "cpu") and is_state_object(p, I, e.data[0])]
        for e in to:
            if e.data[1] == "cpu" or e.data[2] and is_const(e.data[2][0], "cpu"):
                continue
            if not device_like(e):
                continue
            ctx.ok("device", f"{e.stack[-1]}: {show(e.data[0])[:40]}.{e.data[1]}")
            back = [x for x in to if x.data[0] is e.data[0] and (x.data[1] == "cpu" or x.data[2] and (is_const(x.data[2][0], "cpu") or original_device(x.data[2][0])))]
            lacking = restored(evs, e, back)
            if lacking:
                ctx.bad_ev("device", f"{e.stack[-1]}:to", f"{f.qual} moves {show(e.data[0])[:40]} to another device and does not move it back on {lacking}", e)
        for e in evs:
            if e.kind == "modeffect" and e.data[1] == "train" and is_state_object(p, I, e.data[0]) and not (e.data[2] and is_const(e.data[2][0], False)):
                if e.data[2] and not is_const(e.data[2][0]):
                    continue
                before = [x for x in evs if x.kind == "modeffect" and x.data[1] == "eval" and x.seq < e.seq]
                if not before:
                    ctx.bad_ev("mode", f"{e.stack[-1]}:train", f"{f.qual} puts {show(e.data[0])[:40]} into training mode", e)
            elif e.kind == "call" and e.data.op == "call" and e.data.args[0] in SWITCHES:
                if any(c[0] == "with" and c[1] is e.data for x in evs for c in x.ctx):
                    continue
                back = [x for x in evs if x.kind == "call" and x.data.op == "call" and x.data.args[0] == e.data.args[0] and x.data is not e.data]
                if e in back or tids(e, "finally"):
                    continue
                if any(x.kind == "enter" and x.data is e.data for x in evs):
                    continue
                lacking = restored(evs, e, back)
                if lacking:
                    ctx.bad_ev("global-switch", f"{e.stack[-1]}:{e.data.args[0]}", f"{f.qual} calls {show(e.data)[:60]} and does not undo it on {lacking}", e)
            elif e.kind == "optstep" and e.data[1] == "step":
                for x in walk(e.data[0]):
                    if x.op == "meth" and x.args[0] == "parameters" and is_state_object(p, I, x.args[1]) and "optim" in show(e.data[0]):
                        ctx.bad_ev("optimiser", f"{e.stack[-1]}:step", f"{f.qual} optimises the parameters of {show(x.args[1])[:40]}", e)
            elif e.kind == "modeffect" and e.data[1] in ("load_state_dict", "apply", "double", "half", "float") and is_state_object(p, I, e.data[0]) and not root_new(e.data[0]):
                ctx.bad_ev("attribute-write", f"{e.stack[-1]}:{e.data[1]}", f"{f.qual} calls {show(e.data[0])[:40]}.{e.data[1]}()", e)
            elif e.kind == "rcall" and e.data[0].rsplit(".", 1)[-1] in ("fit", "add_scale_transformation", "detach_scale_transformations", "reset_parameters", "load_model") \
                    and e.data[1] is not None and e.data[1].op != "const" and is_model_like(p, I, e.data[1]):
                ctx.bad_ev("attribute-write", f"{e.stack[-1]}:{e.data[0].rsplit('.', 1)[-1]}", f"{f.qual} calls {show(e.data[1])[:40]}.{e.data[0].rsplit('.', 1)[-1]}()", e)
    ctx.floor("operation", 60)
    ctx.floor("grad-flags", 1)


def is_model_like(p, I, o):
    t = I.typeof(o)
    if t is None or root_new(o):
        return False
    return bool({p.classes[b].name for b in p.mro(t[0]) if b in p.classes} & {"BaseIRTModel", "BaseIRTAlgorithm"})


def restores_value(v, orig):
    return v is orig or (v.op in ("mu", "out") and v.args[2] is orig) or v.op == "phi" and all(restores_value(x, orig) for x in v.args[1:])


def device_like(e):
    a = e.data[2][0] if e.data[2] else None
    if a is None:
        return e.data[1] == "cuda"
    if a.op == "global" and a.args[0].startswith("torch.") and a.args[0].split(".")[-1] in ("float32", "float64", "float", "double", "long"):
        return False
    return True


def original_device(t):
    return any(x.op == "attr" and x.args[1] == "device" for x in walk(t))


def state_mutation(ctx, p, I, A, f, e, target, how):
    for t in A.roots(target):
        if t.op != "attr":
            continue
        o, name = t.args
        if not is_state_object(p, I, o) or name.startswith("_") and not configured(p, I, o, name):
            continue
        ctx.ok("attribute-write", f"{e.stack[-1]}: {how} on {show(t)[:60]}")
        ctx.bad_ev("attribute-write", f"{e.stack[-1]}:{how}:{name}", f"{f.qual} changes {show(t)[:60]} in place ({how})", e)
