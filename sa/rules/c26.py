"""C26: every internal call, attribute and local name resolves on every path."""
import ast
from ..terms import show, is_const, cval, T, walk, NONE, const
from ..interp import UNBOUND, _pattern_match
from ..logic import leaf_paths, is_abstract, Theory

# attributes torch.nn.Module gives every module
MODULE_ATTRS = {"training", "_modules", "_buffers", "_parameters", "__dict__", "__class__"}
MODULE_METHODS = {
    "forward", "register_buffer", "register_parameter", "add_module", "register_module", "get_submodule", "get_parameter", "get_buffer", "apply", "cuda", "cpu",
    "type", "float", "double", "half", "bfloat16", "to", "to_empty", "register_full_backward_hook", "register_backward_hook", "register_forward_hook",
    "register_forward_pre_hook", "state_dict", "load_state_dict", "parameters", "named_parameters", "buffers", "named_buffers", "children", "named_children",
    "modules", "named_modules", "train", "eval", "requires_grad_", "zero_grad", "share_memory", "extra_repr", "compile", "__call__", "xpu", "ipu",
    "register_state_dict_pre_hook", "register_load_state_dict_post_hook", "get_extra_state", "set_extra_state"}
OBJECT_ATTRS = {"__dict__", "__class__", "__name__", "__doc__", "__init__", "__module__"}


def instance_attrs(p, q):
    """Names that instances of the class can have: set on self anywhere in its mro, methods, class attributes, registered buffers."""
    out = set()
    ext = False
    for b in p.mro(q):
        c = p.classes.get(b)
        if c is None:
            if b in ("torch.nn.Module", "torch.nn.modules.module.Module"):
                out |= MODULE_ATTRS | MODULE_METHODS
            elif b in ("abc.ABC", "object"):
                pass
            else:
                ext = True
            continue
        out |= set(c.methods) | set(c.class_attrs)
        for f in c.methods.values():
            sname = f.posnames[0] if f.posnames and not f.is_static else None
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == sname:
                    out.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("register_buffer", "register_parameter", "add_module", "register_module") and n.args:
                    out.add(("pattern", n.args[0]))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1:
                    out.add(("pattern", n.args[1]))
    return out, ext


def has(attrs, name):
    if name in attrs:
        return True
    for a in attrs:
        if isinstance(a, tuple):
            n = a[1]
            if isinstance(n, ast.Constant):
                if n.value == name:
                    return True
            else:
                # a computed name: match its constant parts
                parts = [v.value for v in ast.walk(n) if isinstance(v, ast.Constant) and isinstance(v.value, str)]
                if not parts or all(s in name for s in parts):
                    return True
    return False


def excluded(th, e, extra=()):
    return th.consistent(list(e.conds) + list(extra)) is False


def is_helper(f):
    return f.name.startswith("_") and not (f.name.startswith("__") and f.name.endswith("__"))


def counted_by_caller(it):
    """range over a number that a caller hands in, which may be 0"""
    if it is None or it.op != "call" or it.args[0] != "range":
        return False
    a = it.args[1]
    n = a[0] if len(a) == 1 else a[1] if len(a) == 2 and is_const(a[0], 0) else None
    return n is not None and n.op in ("param", "kwarg")


def tested(e, it, L):
    """only when the loop is known to have made a pass"""
    n = it.args[1][-1]
    return any(x is n or x.op == "out" and x.args[0] == L for c, _ in e.conds for x in walk(c))


def check(ctx):
    p = ctx.p
    cache = {}

    def attrs_of(q):
        if q not in cache:
            cache[q] = instance_attrs(p, q)
        return cache[q]

    inits = {}

    def init_attrs(q):
        """names every instance has once it is constructed"""
        if q not in inits:
            s = set()
            f = p.find_method(q, "__init__")
            r = ctx.lib.run(f, cls=q) if f is not None else None
            if r is not None:
                for e in r.events:
                    if e.kind == "setattr" and e.data[0].op == "obj" or e.kind == "register":
                        s.add(e.data[1])
            for b in p.mro(q):
                k = p.classes.get(b)
                if k:
                    s |= {m for m in k.methods if not m.endswith("@setter")} | set(k.class_attrs)
            if p.is_module_class(q):
                s |= MODULE_ATTRS | MODULE_METHODS
            inits[q] = s
        return inits[q]

    def strict(q, name):
        at, ext = attrs_of(q)
        if ext or name in OBJECT_ATTRS:
            return True
        s = init_attrs(q)
        if name in s:
            return True
        # registered under a computed name during construction
        return any("{}" in n and _pattern_match(n, name) for n in s if isinstance(n, str))

    def judge(f, r, cname=None, calls_only=False):
        th = ctx.theory(r)
        I = r.interp
        for e in r.events:
            if e.kind in ("rcall", "construct"):
                ctx.ok("call-binds", f"{f.qual}: {e.data[0] if e.kind == 'rcall' else e.extra}")
            elif e.kind == "badcall":
                if excluded(th, e):
                    continue
                ctx.bad_ev("call-binds", f"{e.stack[-1]}->{e.data}", f"call of {e.data}: {'; '.join(e.extra)}", e)
            elif e.kind == "undefined":
                ctx.bad_ev("name-defined", f"{e.stack[-1]}:{e.data}", f"name {e.data} is not defined", e)
            elif calls_only:
                continue
            elif e.kind == "unbound":
                t = e.data
                if t.op == "out":
                    # bound by the passes of a loop whose number the caller chooses
                    it = (I.loopinfo.get(t.args[0]) or {}).get("iter")
                    ctx.ok("local-bound", f"{f.qual}: {e.extra} after the loop that binds it")
                    if counted_by_caller(it) and not any(L == t.args[0] for L in e.loops) and not tested(e, it, t.args[0]) and not excluded(th, e):
                        ctx.bad_ev("local-bound", f"{e.stack[-1]}:{e.extra}", f"local variable {e.extra} is unbound when the loop over {show(it, 3)[:60]} makes no pass", e)
                    continue
                paths = leaf_paths(t, lambda x: x is UNBOUND)
                if any(x.op in ("mu", "out") for c, _ in e.conds for x in [c]) :
                    pass
                feas = [c for c, _ in paths if th.consistent(list(e.conds) + list(c)) is True]
                if feas:
                    ctx.bad_ev("local-bound", f"{e.stack[-1]}:{e.extra}", f"local variable {e.extra} may be unbound when {[show(c)[:80] + ('' if v else ' is false') for c, v in (list(feas[0]))[:4]]}", e)
            elif e.kind == "attrload":
                o, name = e.data
                ty = I.typeof(o)
                if not ty:
                    continue
                q, ex = ty
                cands = [q] if ex else [c for c in [q] + sorted(p.subclasses.get(q, ())) if not is_abstract(p, c)]
                missing = []
                for c in cands:
                    if strict(c, name):
                        continue
                    missing.append(c)
                ctx.ok("attribute-exists", f"{f.qual}: {show(o)[:40]}.{name} on {len(cands)} classes")
                if not missing:
                    continue
                # a guard (hasattr / isinstance / type) on the path may exclude the classes that lack it
                bad = [c for c in missing if not guarded(I, e, o, c, name)]
                if bad:
                    ctx.bad_ev("attribute-exists", f"{e.stack[-1]}:{name}", f"{show(o)[:60]}.{name} does not exist on {', '.join(b.rsplit('.', 1)[-1] for b in bad)}", e)
        ctx.ok("local-bound", f.qual)
        ctx.ok("name-defined", f.qual)

    def guarded(I, e, o, c, name):
        """Does the path exclude class c for object o?"""
        def ev(t):
            if t.op == "call" and t.args[0] == "hasattr" and t.args[1][0] is o and is_const(t.args[1][1]):
                n = cval(t.args[1][1])
                if strict(c, n):
                    return True
                at, ext = attrs_of(c)
                if n == name:
                    return False      # the hypothesis: the object lacks it
                return None if ext or has(at, n) else False
            if t.op == "call" and t.args[0] == "isinstance" and t.args[1][0] is o:
                k = t.args[1][1]
                ks = list(k.args[0]) if k.op in ("tuple", "list") else [k]
                if all(x.op == "class" for x in ks):
                    return any(p.is_subclass(c, x.args[0]) for x in ks)
            return None
        if Theory(I, oracle=ev).consistent(list(e.conds)) is not True:
            return True
        for cond, pol in e.conds:
            if any(x.op in ("call",) and x.args[0] in ("getattr", "type") for x in [cond]):
                return True
        if any(x[0] == "try" and x[4] for x in e.ctx):
            return True
        return False

    # helpers are judged where they are used; alone only when nothing uses them
    covered = set()
    late = []
    for f, r in list(ctx.lib.generic()):
        if is_helper(f):
            late.append((f, r, None))
        else:
            judge(f, r)
            for e in r.events:
                covered.update(e.stack)
    for c, f, r in ctx.lib.exact():
        if is_helper(f):
            late.append((f, r, c.qual))
        else:
            judge(f, r, c.qual)
            for e in r.events:
                covered.update(e.stack)
    for f, r, c in late:
        if f.qual not in covered:
            judge(f, r, c)
        else:
            judge(f, r, c, calls_only=True)
    unfitted(ctx)
    ctx.floor("unfitted", 40)
    ctx.floor("call-binds", 200)
    ctx.floor("attribute-exists", 200)


def unfitted(ctx):
    """operations on a model that has parameters but no fitting algorithm: only what stands in for an argument that was left out
    may come from the algorithm"""
    p, lib = ctx.p, ctx.lib
    for cn in ("Evaluator", "Plotter", "OutlierDetector", "BaseIRTModel"):
        c = p.cls(cn)
        own = cn == "BaseIRTModel"
        q = p.cls("TwoParameterLogistic").qual if own else c.qual
        so = T("obj", q, "self", True)
        heap = {"algorithm": NONE} if own else {(T("attr", so, "model"), "algorithm"): NONE}
        for f in sorted(p.functions.values(), key=lambda f: f.qual):
            if f.cls is not c or f.name.startswith("_") or f.name in ("training_history", "fit", "cross_validation"):
                continue
            runs = [None]
            if f.name == "latent_scores":
                runs = [{"theta_estimation": const(m)} for m in ("ML", "EAP", "MAP")]
            for presets in runs:
                r = lib.run_with(f, q, heap, presets, exact=True)
                ctx.ok("unfitted", f"{f.qual} {presets and cval(presets['theta_estimation']) or ''}")
                for e in r.events:
                    if e.kind != "noneattr" or e.data[1] == "sample_latent_variables" or any(x[0] == "try" and x[4] for x in e.ctx):
                        continue
                    if any(left_out(x, v) for x, v in e.conds):
                        continue
                    if ctx.theory(r).consistent(list(e.conds)) is not True:
                        continue
                    ctx.bad_ev("unfitted", f"{e.stack[-1]}:{e.data[1]}", f"{f.qual} reads {e.data[1]} of the algorithm although the model has none and everything it needs is given", e)


def left_out(c, pol):
    """is an argument known to be None"""
    if c.op == "not":
        return left_out(c.args[0], not pol)
    if c.op == "bool":
        return (c.args[0] == "and") == pol and any(left_out(x, pol) for x in c.args[1])
    if c.op == "cmp" and any(is_const(x, None) for x in c.args[1:]):
        o = next(x for x in c.args[1:] if not is_const(x, None)) if not all(is_const(x, None) for x in c.args[1:]) else None
        return pol == (c.args[0] in ("is", "==")) and o is not None and any(x.op in ("param", "kwarg") for x in walk(o))
    return False
