"""C10: fitting again starts from a clean slate."""
from ..terms import T, Term, show, is_const, cval, walk
from ..c_util import strip_pass
from .c09 import Defs, flat

MOVES = {"to", "cpu", "cuda", "float", "double", "contiguous", "detach", "train", "eval", "requires_grad_", "half"}


def moved(t):
    while t.op == "meth" and t.args[0] in MOVES:
        t = t.args[1]
    return t


def fits(ctx):
    p, lib = ctx.p, ctx.lib
    for q in sorted(p.classes):
        f = p.find_method(q, "fit")
        if f is None or f.is_abstract:
            continue
        r = lib.run(f, cls=q)
        if r is not None and r.state is not None:
            me = next(iter(r.params.values()), None)
            if any(e.kind == "call" and isinstance(e.data, Term) and e.data.op == "call" and e.data.args[0] == "hasattr" and e.data.args[1][:1] == (me,) for e in r.events):
                # whether an attribute is there depends on the calls before: an earlier fit may have left it or not
                I = lib.interp()
                I.any_state = True
                r = I.run(f, self_obj=T("obj", q, "self", True))
            yield f, q, r


def terms(e):
    xs = [e.data] if isinstance(e.data, Term) else [t for t in e.data if isinstance(t, Term)] if isinstance(e.data, tuple) else []
    if e.kind in ("rcall", "vcall") and isinstance(e.data, tuple):
        xs += [v for _, v in e.data[-1] if isinstance(v, Term)] if isinstance(e.data[-1], tuple) else []
    return xs


def check(ctx):
    for f, q, r in fits(ctx):
        slate(ctx, f, q, r)
    ctx.floor("reset", 10)


def persistent(o):
    return o.op in ("obj", "param", "global", "class") or o.op == "attr" and persistent(o.args[0])


def slate(ctx, f, q, r):
    D = Defs(r)
    me = next(iter(r.params.values()), None)
    name = q.rsplit(".", 1)[-1]
    written = {}
    for e in r.events:
        if e.kind == "setattr" and isinstance(e.data, tuple) and isinstance(e.data[0], Term) and e.data[0] is me:
            written.setdefault((e.data[0], e.data[1]), []).append(e)
    for (o, n) in r.state.heap:
        if isinstance(o, Term) and o is me:
            written.setdefault((o, n), [])
    for (o, n), evs in sorted(written.items(), key=lambda x: x[0][1]):
        old = T("attr", o, n)
        # an attribute that is only moved (to a device, to another mode) is not a result of the fit
        if evs and all(isinstance(e.data[3], Term) and moved(e.data[3]) is old for e in evs):
            ctx.ok("reset", f"{name}.{n} is only moved")
            continue
        where = f"{f.qual}:{name}.{n}"
        bad = False
        for e in r.events:
            if e.kind == "setattr" and isinstance(e.data, tuple) and e.data[0] is o and e.data[1] == n:
                v = e.data[3]
                if isinstance(v, Term) and carries(v, o, n, old):
                    ctx.bad_ev("reset", where, f"{name}.{n} continues from the value an earlier fit left", e)
                    bad = True
                    break
                continue
            hit = None
            for t in terms(e):
                if e.kind == "attrload" and t is old:
                    continue
                if carries(t, o, n, old):
                    hit = t
                    break
            if hit is None and any(carries(c, o, n, old) for c, _ in e.conds):
                hit = e.conds[0][0]
            if hit is not None and not quiet(e):
                ctx.bad_ev("reset", where, f"{name}.{n} of an earlier fit is used before this fit has set it", e)
                bad = True
                break
        if bad:
            continue
        v = r.state.heap.get((o, n))
        left = None
        if isinstance(v, Term):
            for cs, l in D.of(v):
                if l is old and not any(c.op in ("iter", "exhausted") for c, _ in flat(cs)):
                    if loopless(v, old):
                        left = cs
                        break
        if left is not None:
            why = " and ".join(f"{show(c, 3)[:60]} is {p}" for c, p in left[-2:])
            ctx.bad("reset", where, f"{name}.{n} keeps the value of an earlier fit when {why or 'always'}", f.module.relpath, f.node.lineno)
        else:
            ctx.ok("reset", f"{name}.{n} is set anew")
    # objects shared by all calls
    for e in r.events:
        if e.kind == "mutate" or e.kind == "setattr" and isinstance(e.data, tuple):
            t = e.data if isinstance(e.data, Term) else e.data[0]
            root = t
            while isinstance(root, Term) and root.op in ("attr", "index", "elem", "setitem", "inplace", "listappend"):
                root = root.args[1] if root.op == "inplace" else root.args[0]
            if isinstance(root, Term) and root.op == "default":
                ctx.bad_ev("shared", f"{f.qual}:{show(root, 2)[:60]}", f"the default argument object {show(root, 2)[:60]} is changed, so the next fit starts from it", e)
            elif isinstance(root, Term) and root.op == "class" and t is not root:
                ctx.bad_ev("shared", f"{f.qual}:{show(root, 2)[:60]}", f"an object shared by all instances is changed by {name}", e)
    ctx.ok("shared", f"{name}: no shared object is changed")


def carries(t, o, n, old):
    """the value before this fit occurs in t (directly or as the start of a loop that carries it)"""
    return any(x is old for x in walk(t))


def loopless(v, old):
    """old is a branch of the final value, not only the start value of a loop"""
    if v is old:
        return True
    if v.op == "phi":
        return loopless(v.args[1], old) or loopless(v.args[2], old)
    return False


def quiet(e):
    """reads that do not influence the fit"""
    return e.kind in ("enter", "exit") or e.kind == "call" and isinstance(e.data, Term) and str(e.data.args[0]).startswith("logging") or \
        e.kind == "call" and isinstance(e.data, Term) and e.data.op == "meth" and e.data.args[0] in ("info", "debug", "warning")
