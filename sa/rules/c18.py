"""C18: each optimisation step follows the gradient protocol."""
from ..terms import T, Term, show, is_const, cval, walk, const
from ..opt import optimizers, is_optimizer, is_scheduler, held

GRAD_CUT = {"detach", "item", "tolist", "numpy", "detach_"}
FORWARD = {"forward", "__call__"}


def grad_mode(ctx_stack):
    """True: gradients are recorded, False: switched off"""
    mode = True
    for c in ctx_stack:
        if c[0] == "callback" and c[1] == "step":
            mode = True
            inside = True
            continue
        if c[0] != "with" or not isinstance(c[1], Term):
            continue
        t = c[1]
        deco = t.op == "deco"
        t = t.args[0] if deco else t
        if not isinstance(t, Term):
            t = T("call", str(t), (), ()) if "False" not in str(t) else T("call", str(t).split("(")[0], (const(False),), ())
        n = str(t.args[0]) if t.op in ("call", "global") else ""
        off = on = False
        if n in ("torch.no_grad", "torch.autograd.no_grad"):
            off = True
        elif n == "torch.inference_mode":
            a = t.args[1] if t.op == "call" else ()
            off = not (a and is_const(a[0], False))
        elif n == "torch.enable_grad":
            on = True
        elif n in ("torch.set_grad_enabled", "torch.autograd.grad_mode.set_grad_enabled"):
            a = t.args[1] if t.op == "call" else ()
            off, on = bool(a and is_const(a[0], False)), bool(a and is_const(a[0], True))
        if off and not (deco and any(x[0] == "callback" for x in ctx_stack)):
            mode = False
        if on:
            mode = True
    return mode


def fits(ctx):
    """every function in which an optimiser is made and stepped, with exact receivers where it is a method"""
    p, lib = ctx.p, ctx.lib
    done = set()
    for f, r in lib.generic():
        if any(e.kind == "optstep" and e.data[1] == "step" and e.stack[0] == f.qual for e in r.events):
            yield f, r, None
            if f.cls is not None:
                for q in [f.cls.qual] + sorted(p.subclasses.get(f.cls.qual, ())):
                    if (f.qual, q) in done or p.find_method(q, f.name) is not f:
                        continue
                    done.add((f.qual, q))
                    x = lib.run(f, cls=q)
                    if x is not None:
                        yield f, x, q


def check(ctx):
    for f, r, cls in fits(ctx):
        steps(ctx, f, r)
        modes(ctx, f, r)
    scoring_modes(ctx)
    ctx.floor("order", 6)
    ctx.floor("clears", 6)
    ctx.floor("recorded", 4)


def opt_of(e):
    xs = [o for o in optimizers(e.data[0])]
    return xs


def branch(r, s, extra):
    """the fact separates a branch that joins again (an if around the statement), not an early exit"""
    L = s.loops
    return any(e.seq > s.seq and e.loops[:len(L)] == L and extra not in e.conds for e in r.events)


def nanlike(c):
    """a test for values that are not numbers (not merely a value computed with one)"""
    if c.op == "not" or c.op == "meth" and c.args[0] in ("any", "all", "item", "bool"):
        return nanlike(c.args[0] if c.op == "not" else c.args[1])
    if c.op == "bool":
        return any(nanlike(x) for x in c.args[1])
    if c.op == "phi":
        return any(nanlike(x) for x in c.args)
    if c.op == "cmp" and c.args[0] == "==" and c.args[1] is c.args[2]:
        return True
    if c.op == "call" and c.args[0] in ("torch.any", "torch.all", "bool", "any", "all") and c.args[1]:
        return nanlike(c.args[1][0])
    return c.op == "meth" and c.args[0] in ("isnan", "isfinite", "isinf") or c.op == "call" and str(c.args[0]).split(".")[-1] in ("isnan", "isfinite", "isinf")


def steps(ctx, f, r):
    ev = [e for e in r.events if e.kind in ("optstep", "modeffect")]
    S = [e for e in ev if e.kind == "optstep" and e.data[1] == "step" and not any(is_scheduler(o) for o in opt_of(e)) and not scheduler_name(e)]
    Z = [e for e in ev if e.data[1] == "zero_grad"] + [e for e in r.events if e.kind == "setattr" and isinstance(e.data, tuple) and e.data[1] == "grad"]
    B = [e for e in ev if e.kind == "optstep" and e.data[1] == "backward"]
    for s in S:
        o = s.data[0]
        closure = [e for e in B if ("callback", "step") in e.ctx and e.seq < s.seq and e.loops[:len(s.loops)] == s.loops and not any(x.seq > e.seq and x.seq < s.seq for x in S)]
        name = f"{s.stack[-1]}:{s.line}"
        bs = closure or [e for e in B if e.loops == s.loops and not any(b.seq < e.seq < s.seq for e in () for b in ())]
        before = [b for b in bs if b.seq < s.seq and not any(b.seq < x.seq < s.seq and same(x, s) for x in S)]
        after = [b for b in bs if b.seq > s.seq]
        if not before:
            if after:
                ctx.bad_ev("order", s.stack[-1], "the parameters are updated before the loss of this step is back-propagated", s)
            elif B:
                inner = [b for b in B if b.seq < s.seq and b.loops[:len(s.loops)] == s.loops and len(b.loops) > len(s.loops)]
                outer = [b for b in B if b.seq < s.seq and s.loops[:len(b.loops)] == b.loops]
                if inner:
                    ctx.bad_ev("order", s.stack[-1], "the update is taken outside of the loop that back-propagates, so several losses share one step", s)
                elif outer:
                    ctx.bad_ev("order", s.stack[-1], "the update is repeated for one back-propagated loss", s)
                else:
                    ctx.unknown("order", f"{name}: no backward call in the same loop")
            else:
                ctx.unknown("order", f"{name}: no backward call seen")
            continue
        b = before[-1]
        ctx.ok("order", f"{name}: backward at line {b.line}, then step")
        # the step is taken whenever the loss was back-propagated
        for c in (s.conds if not closure else ()):
            if c not in b.conds and not nanlike(c[0]) and branch(r, s, c):
                ctx.bad_ev("order", s.stack[-1] + ":conditional", f"the update after backward only happens when {show(c[0], 4)[:80]} is {c[1]}", s)
        # gradients cleared
        zs = [z for z in Z if same(z, s) or covers(z, s)]
        inloop = [z for z in zs if z.loops == b.loops and (("callback", "step") in z.ctx) == bool(closure)]
        prev = [x for x in before[:-1]]
        pre = [z for z in inloop if z.seq < b.seq and not any(z.seq < x.seq for x in prev)]
        post = [z for z in inloop if z.seq > s.seq]
        mid = [z for z in inloop if b.seq < z.seq < s.seq]
        if mid and not closure:
            ctx.bad_ev("clears", s.stack[-1], "the gradients are cleared between backward and the step, so the step does nothing", mid[0])
        elif pre and all(c in b.conds for c in pre[-1].conds):
            ctx.ok("clears", f"{name}: cleared at line {pre[-1].line} before backward")
        elif any(all(c in b.conds for c in z.conds) for z in pre):
            ctx.ok("clears", f"{name}: cleared before backward")
        elif pre:
            c = next(c for c in pre[-1].conds if c not in b.conds)
            ctx.bad_ev("clears", s.stack[-1], f"the gradients are only cleared when {show(c[0], 4)[:80]} is {c[1]}, otherwise they add up", pre[-1])
        elif post:
            bad = [c for c in post[-1].conds if c not in s.conds and branch(r, post[-1], c)]
            if bad:
                ctx.bad_ev("clears", s.stack[-1], f"the gradients are only cleared when {show(bad[0][0], 4)[:80]} is {bad[0][1]}, otherwise they add up", post[-1])
            else:
                ctx.ok("clears", f"{name}: cleared after the step at line {post[-1].line}")
        elif zs or Z:
            z = (zs or Z)[0]
            if not zs:
                ctx.bad_ev("clears", s.stack[-1], "the gradients of another optimiser are cleared, those of this one add up", s)
            elif not b.loops:
                ctx.unknown("clears", f"{name}: not in a loop")
            elif prev and any(z.loops == b.loops for z in zs):
                ctx.bad_ev("clears", s.stack[-1], "several losses are back-propagated before one step", s)
            else:
                ctx.bad_ev("clears", s.stack[-1], "the gradients are not cleared in the loop that steps, so they add up over its iterations", s)
        elif b.loops:
            ctx.bad_ev("clears", s.stack[-1], "the gradients are never cleared, so they add up over the iterations", s)
        if prev and pre and not closure:
            ctx.bad_ev("once", s.stack[-1], "more than one back-propagation contributes to one step", s)
        elif prev and all(not any(x.seq < z.seq < b.seq for z in inloop) for x in prev) and not closure:
            if prev[-1].data[0] is b.data[0]:
                ctx.bad_ev("once", s.stack[-1], "the same loss is back-propagated twice for one step", s)
            else:
                ctx.unknown("once", f"{name}: {len(before)} losses")
        else:
            ctx.ok("once", f"{name}: one backward per step")
        loss(ctx, f, r, s, b, name)


def scheduler_name(e):
    o = e.data[0]
    return o.op == "attr" and "sched" in str(o.args[1]) or o.op == "param" and "sched" in str(o.args[0])


def same(z, s):
    a, b = set(optimizers(z.data[0])), set(optimizers(s.data[0]))
    return z.data[0] is s.data[0] or bool(a and b and a & b)


def covers(z, s):
    """module.zero_grad() that covers everything the optimiser holds, or p.grad = None"""
    if z.kind == "setattr":
        return True
    for o in optimizers(s.data[0]):
        hs = list(held(o))
        if hs and all(w == "module" and m is z.data[0] for w, m in hs):
            return True
    return False


def dead_calls(r):
    """calls whose result is always computed with gradients off"""
    d = r.__dict__.get("_dead_calls")
    if d is None:
        off, on = set(), set()
        for e in r.events:
            if e.kind == "call" and isinstance(e.data, Term):
                (on if grad_mode(e.ctx) else off).add(e.data)
            elif e.kind == "rcall":
                q, recv, bt = e.data
                (on if grad_mode(e.ctx) else off).add((q, bt))
        d = r.__dict__["_dead_calls"] = off - on
    return d


def reach(t, r):
    """what a loss depends on: modules called and tensors used, (with gradient, without gradient)"""
    yes, no = set(), set()
    dead = dead_calls(r)

    def go(x, live, seen):
        k = (x, live)
        if k in seen:
            return
        seen.add(k)
        if x.op == "meth" and x.args[0] in GRAD_CUT or x.op == "attr" and x.args[1] == "data":
            live = False
        if x.op == "call" and x.args[0] in ("torch.argmax", "torch.isnan", "torch.no_grad"):
            live = False
        if x in dead and x.op in ("call", "meth") or x.op == "rcall" and (x.args[0], x.args[1]) in dead or x.op == "vcall" and any((f"{c}.{x.args[1]}", x.args[3]) in dead for c in [x.args[0]]):
            live = False
        (yes if live else no).add(x)
        if x.op in ("mu", "out"):
            for cs, st in r.interp.steps.get(x.args[0], {}).get(x.args[1], ()):
                go(st, live, seen)
        if x.op == "phi":
            for y in x.args[1:]:
                go(y, live, seen)
            return
        from ..terms import children
        for y in children(x):
            go(y, live, seen)
    go(t, True, set())
    return yes, no


def loss(ctx, f, r, s, b, name):
    t = b.data[0]
    # recorded
    if not grad_mode(b.ctx):
        ctx.bad_ev("recorded", b.stack[-1], "backward is called while gradients are switched off", b)
    else:
        ctx.ok("recorded", f"{name}: loss computed with gradients on")
    yes, no = reach(t, r)
    hold = [h for o in optimizers(s.data[0]) for h in held(o)]
    I = r.interp
    used = uses(yes, I)
    usedno = uses(no, I)
    parts = {}
    for (o, n), v in (r.state.heap.items() if r.state is not None else ()):
        if isinstance(o, Term) and o.op == "new":
            parts.setdefault(o, []).append(v)

    def owners(x, depth=0):
        """the objects of this run that hold x, directly or through their parts"""
        out = set()
        for o, vs in parts.items():
            if any(v is x or isinstance(v, Term) and any(z is x for z in walk(v)) for v in vs):
                out.add(o)
                if depth < 4:
                    out |= owners(o, depth + 1)
        return out

    def options(v):
        return [y for a in v.args[1:] for y in options(a)] if isinstance(v, Term) and v.op == "phi" else [v]

    def inside(h, xs, depth=0):
        for v in parts.get(h, ()):
            for o in options(v):
                if isinstance(o, Term) and (o in xs and o.op in ("call", "new", "attr", "inplace", "listof", "list", "param") or o.op == "new" and depth < 3 and inside(o, xs, depth + 1)):
                    return True
        return False
    fyes, fno = called({x for x in yes if forwardish(x)}, I, r), called({x for x in no if forwardish(x)}, I, r)
    for what, x in hold:
        if what == "unknown":
            ctx.unknown("holds", f"{name}: {show(x, 3)[:60]}")
            continue
        if what == "module" and x in fno and x not in fyes:
            ctx.bad_ev("holds", s.stack[-1], f"no gradient of the loss reaches {show(x, 3)[:80]}, which the optimiser is meant to train", b)
            continue
        if x in used or any(contains_owner(u, x) for u in used) or inside(x, used):
            ctx.ok("holds", f"{name}: the loss depends on {show(x, 2)[:60]}")
        elif x in usedno or any(contains_owner(u, x) or u.op == "attr" and u.args[1] == "data" and u.args[0] is x for u in usedno) or inside(x, usedno):
            ctx.bad_ev("holds", s.stack[-1], f"no gradient of the loss reaches {show(x, 3)[:80]}, which the optimiser is meant to train", b)
        else:
            ctx.unknown("holds", f"{name}: {show(x, 2)[:60]} not seen in the loss")
    # everything trainable in the loss is held
    mods = [x for w, x in hold if w == "module"]
    leafs = [x for w, x in hold if w == "leaf"]
    if hold and not any(w == "unknown" for w, _ in hold):
        frozen = {e.data[0] for e in r.events if e.kind == "modeffect" and e.data[1] == "requires_grad_" and e.data[2] and is_const(e.data[2][0], False) and e.seq < b.seq}
        for x in sorted(yes, key=lambda y: y.id):
            if x.op == "call" and x.args[0] == "torch.nn.Parameter":
                if any(x is l or any(z is x for z in walk(l)) for l in leafs):
                    ctx.ok("trains", f"{name}: the optimiser holds {show(x, 3)[:60]}")
                elif any(o is m or contains_owner(m, o) for o in owners(x) for m in mods):
                    ctx.ok("trains", f"{name}: {show(x, 3)[:60]} belongs to a module that the optimiser holds")
                elif owners(x):
                    ctx.unknown("trains", f"{name}: {show(x, 3)[:60]} belongs to {show(sorted(owners(x), key=lambda y: y.id)[0], 2)[:40]}")
                else:
                    ctx.bad_ev("trains", s.stack[-1], f"the loss depends on the parameter {show(x, 3)[:80]}, which the optimiser does not hold", s)
        for m in sorted(called(yes, I, r), key=lambda y: y.id):
            if any(m is h or contains_owner(m, h) for h in mods):
                ctx.ok("trains", f"{name}: the optimiser holds the parameters of {show(m, 2)[:60]}")
            elif any(m is z or contains_owner(m, z) for z in frozen):
                ctx.ok("trains", f"{name}: {show(m, 2)[:60]} is kept fixed")
            elif trained_before(f, m):
                ctx.bad_ev("trains", s.stack[-1], f"the loss depends on {show(m, 3)[:80]}, whose parameters the optimiser does not hold", s)
            else:
                ctx.unknown("trains", f"{name}: {show(m, 3)[:60]} is not held")
    # the loss belongs to the current batch
    for L in b.loops:
        info = r.interp.loopinfo.get(L) or {}
        it = info.get("iter")
        ld = loader(it)
        if ld is None:
            continue
        el = [x for x in yes if x.op == "elem" and x.args[1] == L or x.op == "elem" and loader(x.args[0]) is ld and L in x.args]
        if el:
            ctx.ok("current-batch", f"{name}: the loss uses the batch of its loop")
        elif any(x.op in ("mu", "out", "elem") for x in yes):
            ctx.bad_ev("current-batch", s.stack[-1], "the loss does not depend on the batch of the loop it is back-propagated in", b)
        else:
            ctx.unknown("current-batch", name)
    if b.loops:
        stale = [x for x in [t] if x.op in ("mu", "out") and x.args[0] in b.loops]
        if stale:
            ctx.bad_ev("current-batch", s.stack[-1], "the loss that is back-propagated is the one of an earlier iteration", b)


def loader(it):
    """the data loader behind an iteration (through enumerate)"""
    for x in walk(it) if isinstance(it, Term) else ():
        if x.op == "call" and "DataLoader" in str(x.args[0]):
            return x
        if x.op in ("attr", "param") and "loader" in str(x.args[1] if x.op == "attr" else x.args[0]):
            return x
    return None


def contains_owner(m, h):
    """m is a part of the module h"""
    while m.op in ("attr", "index", "elem"):
        if m.op == "attr" and m.args[1] == "data":
            return False
        m = m.args[0]
        if m is h:
            return True
    return False


def uses(xs, I):
    out = set(xs)
    for x in xs:
        if x.op in ("vcall",):
            out.add(x.args[2])
        elif x.op == "rcall":
            out.update(v for k, v in x.args[1] if k == "self")
    return {x for x in out if isinstance(x, Term)}


def forwardish(x):
    return x.op == "vcall" and x.args[1] in FORWARD or x.op == "meth" and x.args[0] in FORWARD


def top_owners(x, r):
    """the outermost module objects made in this run that hold x"""
    if r.state is None:
        return ()
    out, todo, seen = set(), [x], set()
    while todo:
        y = todo.pop()
        up = set()
        for (o, n), v in r.state.heap.items():
            if isinstance(o, Term) and o.op == "new" and isinstance(v, Term) and o is not y and any(z is y for z in walk(v)):
                t = r.interp.typeof(o)
                if t and r.interp.p.is_module_class(t[0]):
                    up.add(o)
        if not up and y is not x:
            out.add(y)
        for o in up:
            if o not in seen:
                seen.add(o)
                todo.append(o)
    return out


def called(xs, I, r=None):
    """modules whose forward (or another method) the value goes through"""
    out = set()
    if r is not None:
        for x in xs:
            if x.op == "meth" and x.args[0] in FORWARD and x.args[1].op in ("call", "inplace") and "nn." in str(x.args[1].args[0]):
                out |= top_owners(x.args[1], r)
    for x in xs:
        m = None
        if x.op == "vcall":
            m = x.args[2]
        elif x.op == "meth" and x.args[0] in FORWARD:
            m = x.args[1]
        if isinstance(m, Term) and m.op in ("param", "new", "attr", "obj"):
            t = I.typeof(m)
            if t and I.p.is_module_class(t[0]):
                out.add(m)
    return out


def trained_before(f, m):
    """the module is one that this kind of fit is meant to train: its model argument, or a network the fit itself makes"""
    return f.name == "fit" and (m.op == "param" and m.args[0] == "model" or m.op == "new")


MODE = ("train", "eval")


def mode_of(e):
    if e.data[1] == "eval":
        return "eval"
    a = e.data[2]
    return "eval" if a and is_const(a[0], False) else "train"


def modes(ctx, f, r):
    """training forwards run in training mode; what a fit hands back is in evaluation mode"""
    M = [e for e in r.events if e.kind == "modeffect" and e.data[1] in MODE]
    B = [e for e in r.events if e.kind == "optstep" and e.data[1] == "backward"]
    if f.name != "fit":
        return
    I = r.interp
    mods = {}
    for b in B:
        yes, _ = reach(b.data[0], r)
        for m in called(yes, I, r):
            mods.setdefault(m, []).append(b)
    for m, bs in mods.items():
        ms = [e for e in M if e.data[0] is m]
        fresh = m.op == "new"
        for b in bs:
            prior = [e for e in ms if e.seq < b.seq]
            name = f"{f.qual}: {show(m, 2)[:50]}"
            if prior and mode_of(prior[-1]) == "eval":
                ctx.bad_ev("train-mode", b.stack[-1], f"{show(m, 2)[:60]} is trained in evaluation mode", prior[-1])
                continue
            # a switch to evaluation later in a loop that comes round again
            bad = None
            for k in range(len(b.loops), 0, -1):
                P = b.loops[:k]
                inl = [e for e in ms if e.loops[:k] == P]
                before = [e for e in inl if e.seq < b.seq]
                later = [e for e in inl if e.seq > b.seq]
                if before:
                    break
                if later and mode_of(later[-1]) == "eval":
                    bad = later[-1]
                    break
            if bad is not None:
                ctx.bad_ev("train-mode", b.stack[-1], f"{show(m, 2)[:60]} is switched to evaluation mode inside the training loop and not back before the next batch", bad)
            elif prior or fresh:
                ctx.ok("train-mode", f"{name} in training mode when the loss is computed")
            elif m.op == "param" and any(mode_of(e) == "eval" for e in ms):
                ctx.bad_ev("train-mode", b.stack[-1], f"{show(m, 2)[:60]} is left in evaluation mode by an earlier fit and not switched back for training", b)
            else:
                ctx.unknown("train-mode", name)
        if any(mode_of(e) == "train" for e in ms) or fresh and ms:
            last = ms[-1]
            if mode_of(last) == "eval" and not last.loops:
                ctx.ok("eval-after", f"{f.qual}: {show(m, 2)[:50]} ends in evaluation mode")
            elif mode_of(last) == "train":
                ctx.bad_ev("eval-after", f"{f.qual}:{show(m, 1)[:40]}".replace(" ", ""), f"{show(m, 2)[:60]} is still in training mode when the fit ends", last)
    # scores stored by the fit come from networks in evaluation mode
    for e in r.events:
        if e.kind == "setattr" and isinstance(e.data, tuple) and e.data[1] == "training_theta_scores" and isinstance(e.data[3], Term):
            yes, no = reach(e.data[3], r)
            for m in called(yes | no, I, r):
                ms = [x for x in M if x.data[0] is m and x.seq < e.seq]
                if not ms:
                    continue
                if mode_of(ms[-1]) == "eval":
                    ctx.ok("eval-scores", f"{f.qual}: stored scores are computed in evaluation mode")
                else:
                    ctx.bad_ev("eval-scores", f"{f.qual}", f"the stored latent scores are computed while {show(m, 2)[:60]} is in training mode", e)


NO_GRAD = [("AE", "theta_scores"), ("AE", "_batch_fit_measures"), ("VAE", "theta_scores"), ("VAE", "sample_latent_variables"), ("VAE", "latent_credible_interval"), ("VAE", "latent_mean_se"),
           ("BaseIRTModel", "latent_scores"), ("BaseIRTModel", "_eap_theta_scores")]


def scoring_modes(ctx):
    """scoring passes compute without gradients and never step"""
    p, lib = ctx.p, ctx.lib
    ev = p.cls("Evaluator") if any(c.name == "Evaluator" for c in p.classes.values()) else None
    todo = [(p.method(c, m)) for c, m in NO_GRAD]
    if ev is not None:
        todo += [f for n, f in sorted(ev.methods.items()) if not n.startswith("_")]
    for f in todo:
        if f is None:
            continue
        r = lib.run(f)
        if r is None:
            continue
        bad = None
        seen = False
        for e in r.events:
            if e.kind == "optstep" and e.data[1] == "step":
                for o in optimizers(e.data[0]):
                    if is_optimizer(o):
                        for w, x in held(o):
                            if w == "module" and r.interp.typeof(x) and not is_new_here(x):
                                ctx.bad_ev("scoring-trains", f.qual, f"{f.qual} updates the parameters of {show(x, 2)[:60]}", e)
            if e.kind == "vcall" and e.data[1] in FORWARD and r.interp.typeof(e.data[2] if len(e.data) > 3 else e.data[1]):
                seen = True
        ctx.ok("scoring-trains", f"{f.qual} updates no parameters")


def is_new_here(x):
    return any(y.op == "new" for y in walk(x))
