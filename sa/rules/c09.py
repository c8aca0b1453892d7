"""C09: when training ends the parameters in use are those of the step with the best recorded loss."""
from ..terms import T, Term, show, is_const, cval, walk, const, numval
from ..opt import optimizers, is_optimizer, is_scheduler, held
from .c18 import branch, nanlike, scheduler_name

FLIP = {"<": "<=", "<=": "<"}


def check(ctx):
    p, lib = ctx.p, ctx.lib
    base = p.cls("BaseIRTAlgorithm")
    for q in sorted(p.subclasses.get(base.qual, ())):
        f = p.find_method(q, "fit")
        if f is None or f.is_abstract:
            continue
        r = lib.run(f, cls=q)
        if r is None or r.state is None:
            continue
        algorithm(ctx, f, r, q)
    ctx.floor("restored", 3)
    ctx.floor("improves", 3)


# ---------------------------------------------------------------- definitions
class Defs:
    def __init__(self, r):
        self.I = r.interp

    def of(self, t, conds=(), inside=frozenset(), depth=0):
        """(conditions, leaf) pairs a value can have, through loops, branches and containers"""
        if depth > 60:
            yield conds, t
            return
        op = t.op
        if op == "phi":
            yield from self.of(t.args[1], conds + ((t.args[0], True),), inside, depth + 1)
            yield from self.of(t.args[2], conds + ((t.args[0], False),), inside, depth + 1)
        elif op in ("mu", "out"):
            L, key, init = t.args
            if L in inside:
                yield conds, t
                return
            yield from self.of(init, conds, inside, depth + 1)
            info = self.I.loopinfo.get(L) or {}
            for cs, v in list(self.I.steps.get(L, {}).get(key, ())) + list((info.get("breaksteps") or {}).get(key, ())):
                yield from self.of(v, conds + tuple(cs), inside | {L}, depth + 1)
        elif op == "index":
            for cs, b in self.of(t.args[0], conds, inside, depth + 1):
                yield from self.item(cs, b, t.args[1], inside, depth)
        elif op == "attr" and t.args[0].op in ("phi", "mu", "out") and self.I.typeof(t.args[0]) is None and t.args[1] != "data":
            for cs, b in self.of(t.args[0], conds, inside, depth + 1):
                yield cs, T("attr", b, t.args[1]) if b.op != "const" else b
        else:
            yield conds, t

    def item(self, cs, b, k, inside, depth):
        if b.op == "dict" and is_const(k):
            for kk, v in b.args[0]:
                if kk is k:
                    yield from self.of(v, cs, inside, depth + 1)
                    return
        if b.op in ("tuple", "list") and is_const(k) and isinstance(cval(k), int) and -len(b.args[0]) <= cval(k) < len(b.args[0]):
            yield from self.of(b.args[0][cval(k)], cs, inside, depth + 1)
            return
        if b.op == "setitem":
            if b.args[1] is k:
                yield from self.of(b.args[2], cs, inside, depth + 1)
            elif is_const(k) and is_const(b.args[1]):
                for c2, b2 in self.of(b.args[0], cs, inside, depth + 1):
                    yield from self.item(c2, b2, k, inside, depth + 1)
            else:
                yield cs, T("index", b, k)
            return
        if is_const(b, None):
            yield cs, b
            return
        yield cs, T("index", b, k)


def flat(conds):
    """conjunction of literals"""
    out = []

    def go(c, p):
        if c.op == "not":
            go(c.args[0], not p)
        elif c.op == "bool" and (c.args[0] == "and") == p:
            for x in c.args[1]:
                go(x, p)
        elif c.op == "cmp" and c.args[0] in FLIP and not p:
            out.append((T("cmp", FLIP[c.args[0]], c.args[2], c.args[1]), True))
        elif c.op == "meth" and c.args[0] in ("item",) or c.op == "call" and c.args[0] == "bool" and c.args[1]:
            go(c.args[1] if c.op == "meth" else c.args[1][0], p)
        else:
            out.append((c, p))
    for c, p in conds:
        go(c, p)
    return out


# ---------------------------------------------------------------- copies
def copied(t, x=None, depth=0):
    """True: an independent copy, False: shares its contents with the parameters (of x), None: unknown"""
    if depth > 12:
        return None
    if t is x:
        return False
    if t.op == "call":
        n = t.args[0]
        if n in ("copy.deepcopy", "torch.clone", "torch.tensor", "numpy.array", "pickle.loads"):
            return True
        if n in ("copy.copy", "dict", "collections.OrderedDict", "torch.nn.Parameter", "torch.as_tensor", "list", "tuple") and t.args[1]:
            return copied(t.args[1][0], x, depth + 1)
        return None
    if t.op == "meth":
        if t.args[0] in ("clone", "tolist"):
            return True
        if t.args[0] == "state_dict":
            return False
        if t.args[0] in ("detach", "cpu", "to", "numpy", "contiguous", "requires_grad_", "float", "copy", "items", "view", "values"):
            if t.args[0] == "copy" and t.args[1].op == "meth" and t.args[1].args[0] == "numpy":
                return True
            return copied(t.args[1], x, depth + 1)
        return None
    if t.op == "attr" and t.args[1] == "data":
        return copied(t.args[0], x, depth + 1)
    if t.op == "dictof":
        return copied(t.args[1], x, depth + 1)
    if t.op == "listof":
        return copied(t.args[0], x, depth + 1)
    if t.op in ("tuple", "list"):
        rs = [copied(y, x, depth + 1) for y in t.args[0] if not is_const(y)]
        return True if rs and all(rs) else False if any(x is False for x in rs) else None
    if t.op in ("elem", "index"):
        return copied(t.args[0], x, depth + 1)
    if t.op in ("param", "new", "obj"):
        return False
    return None


def state_of(t):
    """the modules whose state_dict (or parameters) the value holds"""
    return [x.args[1] for x in walk(t) if x.op == "meth" and x.args[0] in ("state_dict", "parameters", "named_parameters")]


# ---------------------------------------------------------------- the rule
def algorithm(ctx, f, r, q):
    I = r.interp
    D = Defs(r)
    steps = [e for e in r.events if e.kind == "optstep" and e.data[1] == "step" and any(is_optimizer(o) for o in optimizers(e.data[0])) and e.loops]
    backs = [e for e in r.events if e.kind == "optstep" and e.data[1] == "backward" and e.loops]
    if not steps or not backs:
        return
    name = q.rsplit(".", 1)[-1]
    b = backs[-1]
    loss = b.data[0]
    trained = []
    for o in optimizers(steps[-1].data[0]):
        for w, x in held(o):
            if (w, x) not in trained:
                trained.append((w, x))
    lossmemo = {}

    def lossdep(x):
        v = lossmemo.get(x)
        if v is None:
            v = lossmemo[x] = any(z is loss for z in walk(x))
        return v
    keys = set()           # loop variables that hold the best state
    for w, x in trained:
        if w == "unknown":
            ctx.unknown("kept", f"{name}: {show(x, 3)[:60]}")
            continue
        found = restores(r, D, w, x, b, steps)
        if found is None:
            ctx.unknown("restored", f"{name}: how {show(x, 2)[:50]} is put back")
            continue
        label = show(x, 2)[:60]
        if not found:
            ctx.bad_ev("restored", f"{f.qual}:{name}", f"{label} is trained by {name}, but its best state is never put back after the training loop", steps[-1])
            continue
        for e, val in found:
            leaves = list(D.of(val))
            own = []
            for cs, v in leaves:
                if is_const(v) or v.op in ("mu", "unbound") or v.op == "index" and v.args[0].op in ("mu", "unbound"):
                    continue
                if holds_state(v, w, x):
                    own.append((cs, v))
                elif state_of(v):
                    ctx.bad_ev("own-state", f"{f.qual}:{name}", f"{label} gets the stored state of {show(state_of(v)[0], 2)[:50]}", e)
                    own.append((cs, v))
                else:
                    ctx.unknown("restored", f"{name}: {label} may get {show(v, 3)[:60]}")
            if not own:
                if leaves and all(is_const(v) for _, v in leaves):
                    ctx.bad_ev("kept", f"{f.qual}:{name}", f"no state of {label} is ever stored to put back", e)
                else:
                    ctx.unknown("restored", f"{name}: what {label} gets")
                continue
            ctx.ok("restored", f"{name}: {label} at line {e.line}")
            keys |= {(t.args[0], t.args[1]) for t in walk(val) if t.op in ("out", "mu")}
            always(ctx, f, r, D, e, b, name, label, val, lossdep)
            for cs, v in own:
                c = copied(v, x)
                if c is False:
                    ctx.bad_ev("independent", f"{f.qual}:{name}", f"the stored best state of {label} shares its tensors with the parameters, so later steps change it", e)
                elif c:
                    ctx.ok("independent", f"{name}: {label} copied")
                else:
                    ctx.unknown("independent", f"{name}: {show(v, 3)[:60]}")
                improves(ctx, f, r, D, cs, v, e, name, label, lossdep, b)
    names = {k for _, k in keys}
    keys |= {(L, k) for L, ks in I.steps.items() for k in ks if k in names and L in b.loops}
    for L, key in sorted(keys, key=str):
        exits(ctx, f, r, D, L, key, name, b, steps, lossdep)


def holds_state(v, w, x):
    if w == "module":
        return any(m is x for m in state_of(v))
    return any(z is x for z in walk(v))


def restores(r, D, w, x, b, steps):
    """events that put the best state of a trained thing back, with the value it gets"""
    out = []
    last = max(s.seq for s in steps)
    if w == "module":
        for e in r.events:
            if e.kind == "modeffect" and e.data[1] == "load_state_dict" and e.data[0] is x and e.data[2]:
                out.append((e, e.data[2][0]))
        if not out and any(e.kind == "mutate" and e.seq > last and e.extra and e.extra[0] in ("copy_", "data") for e in r.events):
            return None
        return out
    homes = [k for k, v in r.state.heap.items() if isinstance(v, Term) and any(z is x for z in walk(v))]
    homes += [(e.data[0], e.data[1]) for e in r.events if e.kind == "setattr" and isinstance(e.data, tuple) and isinstance(e.data[3], Term) and e.data[3] is x]
    for e in r.events:
        if e.seq < last:
            continue
        if e.kind == "setattr" and isinstance(e.data, tuple) and ((e.data[0], e.data[1]) in homes or e.data[1] == "data") and isinstance(e.data[3], Term):
            for v in sources(e.data[3]):
                out.append((e, v))
        if e.kind == "mutate" and any(z is x for z in walk(e.data)) and e.extra:
            for v in e.extra[1:]:
                if isinstance(v, Term):
                    for y in sources(v):
                        out.append((e, y))
    seen, res = set(), []
    for e, v in out:
        if v not in seen and any(holds_state(l, w, x) and l is not x for _, l in D.of(v)):
            seen.add(v)
            res.append((e, v))
    return res


def sources(t):
    """loop results the value is made from"""
    if t.op == "index" and any(z.op in ("out", "mu") for z in walk(t)):
        yield t
        return
    if t.op in ("out", "mu"):
        yield t
        return
    if t.op == "phi":
        for y in t.args[1:]:
            yield from sources(y)
    elif t.op == "meth":
        yield from sources(t.args[1])
        for y in t.args[2]:
            yield from sources(y)
    elif t.op in ("call",):
        for y in t.args[1]:
            yield from sources(y)
    elif t.op in ("attr", "inplace"):
        yield from sources(t.args[0] if t.op == "attr" else t.args[1])
        if t.op == "inplace":
            for y in t.args[2]:
                yield from sources(y)


def always(ctx, f, r, D, e, b, name, label, val, lossdep):
    """the state is put back however training stopped"""
    mine = {t for t in walk(val) if t.op in ("out", "mu")}
    shared = set(b.conds)
    bad = None
    for c, p in [l for x in e.conds if x not in shared and branch(r, e, x) for l in flat([x])]:
        vs = {t for t in walk(c) if t.op in ("out", "mu")}
        if vs & mine:
            continue
        if c.op == "exhausted" or any(t.op == "exhausted" for t in walk(c)):
            bad = "the training loop was not left early" if p else "the training loop was left early"
            break
        # a value that only changes together with the best state
        if vs and all(bestlike(r, D, t, lossdep) for t in vs):
            continue
        bad = f"{show(c, 4)[:80]} is {p}"
        break
    left = [x for x in r.events if x.kind == "return" and x.seq < e.seq and any(L in b.loops for L in x.loops) and x.stack == e.stack[:len(x.stack)]
            and any(s.kind == "optstep" and s.seq < x.seq for s in r.events)]
    if left:
        ctx.bad_ev("restore-always", f"{f.qual}:{name}", f"training can end here without the best state of {label} being put back", left[0])
        return
    if e.loops and any(L in b.loops for L in e.loops):
        ctx.bad_ev("restore-always", f"{f.qual}:{name}", f"the best state of {label} is put back inside the training loop", e)
    elif bad:
        ctx.bad_ev("restore-always", f"{f.qual}:{name}", f"the best state of {label} is only put back when {bad}", e)
    else:
        ctx.ok("restore-always", f"{name}: {label}")


def bestlike(r, D, t, lossdep):
    """a loop variable that only changes under a condition on the loss (the best loss, its position)"""
    for cs, v in D.of(t):
        if is_const(v) or numval(v) is not None or v.op in ("tuple", "list") and not lossdep(v) or v.op == "mu":
            continue
        if not any(lossdep(c) and c.op == "cmp" for c, _ in flat(cs)):
            return False
    return True


def compare(c, lossdep):
    """(current, best, strict) of a comparison of the loss of this step with a value carried by the loop: current < best"""
    if c.op != "cmp" or c.args[0] not in FLIP:
        return None
    a, d = c.args[1], c.args[2]
    if lossdep(a) and not lossdep(d) and carried(d):
        return a, d, "improves"
    if lossdep(d) and not lossdep(a) and carried(a):
        return d, a, "worsens"
    return None


def carried(t):
    return any(x.op == "mu" for x in walk(t))


def plain(t):
    while t.op in ("index", "attr") or t.op == "meth" and t.args[0] == "item" or t.op == "call" and t.args[0] == "float" and t.args[1]:
        t = t.args[0] if t.op in ("index", "attr") else t.args[1] if t.op == "meth" else t.args[1][0]
    return t


def improves(ctx, f, r, D, cs, v, e, name, label, lossdep, b):
    I = r.interp
    lits = flat(cs)
    rel = [(c, p) for c, p in lits if lossdep(c) and not nanlike(c)]
    where = f"{f.qual}:{name}"
    if not any(x.op in ("iter",) for c, _ in cs for x in [c]) and not carried_conds(cs):
        ctx.ok("improves", f"{name}: {label} as it was before training")
        return
    hit = whole = None
    for c, p in rel:
        k = compare(c, lossdep)
        if k and p:
            hit = (c, k)
            break
        if p and c.op == "bool" and c.args[0] == "or":
            # nothing to compare with yet, or better than the best
            alts = [x for a in c.args[1] for x in (flat([(a, True)]) if a.op != "bool" else [(a, True)])]
            dep = [x for x, q in alts if lossdep(x)]
            if len(dep) == 1 and compare(dep[0], lossdep):
                hit, whole = (dep[0], compare(dep[0], lossdep)), c
                break
    if hit is None:
        parts = [y for c, p in rel if p for y in (c.args[1] if c.op == "bool" and c.args[0] == "or" else (c,)) if lossdep(y)]
        fixed = [c for c in parts if c.op == "cmp" and any(numval(y) is not None for y in c.args[1:])]
        if fixed:
            ctx.bad_ev("best-updated", where, f"the loss is compared with {show(next(y for y in fixed[0].args[1:] if numval(y) is not None), 2)} every time, the best one so far is not kept", e)
        elif not rel:
            ctx.bad_ev("improves", where, f"the state of {label} is stored whatever the loss is", e)
        else:
            ctx.unknown("improves", f"{name}: {show(rel[0][0], 3)[:80]}")
        return
    c, (cur, best, way) = hit
    if way == "worsens":
        ctx.bad_ev("improves", where, f"the state of {label} is stored when the loss is larger than the best one", e)
        return
    if best.op == "phi":
        # infinitely bad as long as there is nothing to compare with
        arms = [x for x in best.args[1:] if numval(x) != float("inf")]
        if len(arms) == 1 and plain(arms[0]).op == "mu":
            best, whole = arms[0], whole or c
    m = plain(best)
    if m.op != "mu":
        if m.op == "bin" and any(plain(x).op == "mu" for x in m.args[1:]):
            ctx.bad_ev("improves", where, f"the state of {label} is stored only when the loss is below {show(best, 3)[:60]}, not whenever it improves", e)
        elif any(x.op == "index" and plain(x).op in ("mu", "listappend") for x in [best]):
            ctx.unknown("improves", f"{name}: compared with {show(best, 3)[:60]}")
        else:
            ctx.unknown("improves", f"{name}: compared with {show(best, 3)[:60]}")
        return
    ctx.ok("improves", f"{name}: {label} stored when {show(c, 3)[:70]}")
    running(ctx, f, r, D, c, cur, best, m, e, name, where, lossdep, v, whole)


def carried_conds(cs):
    return any(c.op == "iter" for c, _ in flat(cs))


def running(ctx, f, r, D, c, cur, best, m, e, name, where, lossdep, v, whole=None):
    """the running best follows the comparison it is used in"""
    I = r.interp
    L, key, init = m.args
    info = I.loopinfo.get(L) or {}

    def project(x):
        """the compared part of a new value of the loop variable"""
        path, t = [], best
        while t is not m:
            path.append(t)
            t = t.args[0] if t.op in ("index", "attr") else t.args[1] if t.op == "meth" else t.args[1][0]
        for s in reversed(path):
            if s.op == "index":
                if x.op in ("tuple", "list") and is_const(s.args[1]) and isinstance(cval(s.args[1]), int) and len(x.args[0]) > cval(s.args[1]) >= -len(x.args[0]):
                    x = x.args[0][cval(s.args[1])]
                elif x.op == "dict":
                    y = [z for kk, z in x.args[0] if kk is s.args[1]]
                    x = y[0] if y else T("index", x, s.args[1])
                elif x.op == "setitem":
                    x = x.args[2] if x.args[1] is s.args[1] else T("index", x.args[0], s.args[1])
                else:
                    x = T("index", x, s.args[1])
        return x
    done = False
    for cs, s in list(I.steps.get(L, {}).get(key, ())) + list((info.get("breaksteps") or {}).get(key, ())):
        for c2, x in D.of(s, tuple(cs), frozenset([L])):
            lits = flat(c2)
            if any(is_opposite(a, c) for a, pp in lits if pp):
                side = False
            elif any((a is c or a is whole) and pp for a, pp in lits):
                side = True
            else:
                side = None
            y = project(x)
            kept = plain(x) is m or plain(y) is m
            if y.op == "call" and y.args[0] in ("min", "torch.min", "torch.minimum", "numpy.minimum", "builtins.min") and any(z is cur for z in walk(y)) and any(z is m for z in walk(y)):
                done = True
                ctx.ok("best-updated", f"{name}: minimum of both")
                continue
            if kept and side is True:
                ctx.bad_ev("best-updated", where, "the running best is not updated when the loss improves on it", e)
                done = True
            elif not kept and side is False:
                ctx.bad_ev("best-updated", where, "the running best is replaced although the loss did not improve on it", e)
                done = True
            elif not kept and side is None and not is_const(y):
                if lossdep(y) or carried(y):
                    ctx.bad_ev("best-updated", where, "the running best is replaced whatever the loss is", e)
                    done = True
            elif not kept and side is True:
                done = True
                if y is cur or unwrap(y) is unwrap(cur):
                    ctx.ok("best-updated", f"{name}: set to the loss that improved")
                elif not lossdep(y):
                    ctx.bad_ev("best-updated", where, f"the running best is set to {show(y, 3)[:60]}, not to the loss that improved on it", e)
                else:
                    ctx.unknown("best-updated", f"{name}: set to {show(y, 3)[:60]}, compared {show(cur, 3)[:60]}")
    if not done:
        ctx.bad_ev("best-updated", where, "the running best is never updated", e)
    # start value
    i = init
    loops = {L}
    while i.op == "mu":
        loops.add(i.args[0])
        i = i.args[2]
    y = project(i) if i.op != "const" else i
    n = numval(y)
    if whole is not None:
        ctx.ok("best-start", f"{name}: not compared with in the first pass")
    elif n is not None and n <= 0:
        ctx.bad_ev("best-start", where, f"the running best starts at {n}, which no loss improves on", e)
    elif n is not None:
        ctx.ok("best-start", f"{name}: {n}")
    # the best lives as long as the stored state
    sl = {t.args[0] for cs, _ in [((), 0)] for t in ()}
    outer = [x for x in e.data and () or ()]
    enclosing = [x for x in stored_loops(r, v) if x not in loops]
    if enclosing and is_const(y) or enclosing and n is not None:
        ctx.bad_ev("best-updated", where, "the running best starts again in every pass of an outer loop while the stored state is kept", e)


def stored_loops(r, v):
    """loops through which a stored state is carried"""
    I = r.interp
    out = set()
    for L, ks in I.steps.items():
        for key, lst in ks.items():
            for cs, s in lst:
                if isinstance(s, Term) and any(z is v for z in walk(s)):
                    # the variable carries the state inside loop L and in the loops its start value comes from
                    for t in walk(s):
                        if t.op == "mu" and t.args[0] == L and t.args[1] == key:
                            while t.op == "mu":
                                out.add(t.args[0])
                                t = t.args[2]
    return out


def unwrap(t):
    while t.op == "meth" and t.args[0] in ("item", "detach", "cpu", "clone") or t.op == "call" and t.args[0] in ("float", "copy.deepcopy") and t.args[1]:
        t = t.args[1] if t.op == "meth" else t.args[1][0]
    return t


def is_opposite(a, c):
    return a.op == "cmp" and c.op == "cmp" and a.args[0] == FLIP.get(c.args[0]) and a.args[1] is c.args[2] and a.args[2] is c.args[1]


def exits(ctx, f, r, D, L, key, name, b, steps, lossdep):
    """a pass of the loop that updated the parameters stores an improvement before it leaves or restarts the loop"""
    I = r.interp
    if L not in b.loops:
        return
    info = I.loopinfo.get(L) or {}
    ends = list(zip(I.steps.get(L, {}).get(key, ()), info.get("stepjumps") or ())) + list(zip((info.get("breaksteps") or {}).get(key, ()), info.get("breakjumps") or ()))

    def stores(v):
        return any(state_of(x) or x.op == "dict" for _, x in D.of(v, (), frozenset([L])) if x.op not in ("mu", "const"))
    if not any(stores(v) for (cs, v), _ in ends):
        return
    for (cs, v), j in ends:
        if stores(v):
            ctx.ok("exits", f"{name}: {key if isinstance(key, str) else key[1]} carries the stored state")
            continue
        if j is None:
            continue
        before = [s for s in steps if s.seq < j[0] and L in s.loops]
        if not before:
            ctx.ok("exits", f"{name}: loop left at line {j[1]} before a step is taken")
            continue
        lits = flat(cs)
        if any(nanlike(c) for c, pp in lits if pp) or any(lossdep(c) and not nanlike(c) for c, _ in lits):
            ctx.unknown("exits", f"{name}: line {j[1]}")
            continue
        ctx.bad("exits", f"{f.qual}:{name}", f"the pass that leaves the loop at line {j[1]} updates the parameters without storing them when its loss is the best", before[-1].path, j[1])
