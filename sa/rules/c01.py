"""C01: data handed in by the caller, stored training data and shared globals are never modified in place."""
from ..alias import Alias
from ..terms import show, is_const, cval, T
from ..opt import optimizers, is_optimizer, held
from .c26 import is_helper

SHUFFLERS = {"numpy.random.shuffle", "random.shuffle", "numpy.copyto", "numpy.put", "numpy.place", "numpy.fill_diagonal", "numpy.putmask"}
GRAD_FLAGS = {"requires_grad_", "requires_grad"}
STORED = {"train_data", "training_theta_scores"}
# assigning these attributes of a tensor or array changes the caller's object
TENSOR_ATTRS = {"requires_grad", "grad", "data", "shape", "columns", "index", "values"}


def is_data_param(I, t):
    """A parameter through which the caller hands over data (not a library object, not the receiver)."""
    if t.op == "kwarg":
        return True
    if t.op != "param":
        return False
    if I.typeof(t) is not None:
        return False
    a = I.cls_params.get(t)
    if a and a[0] == "prim" and a[1] in ("int", "float", "str", "bool"):
        return False
    n = t.args[0]
    return n not in ("fig", "figure", "optimizer", "scheduler", "model", "module", "ctx", "cls")


def entry_points(ctx):
    """Public functions with the receiver generic, and on each concrete class."""
    for f, r in ctx.lib.generic():
        if is_helper(f) or f.module.name.endswith("_internal_utils") or ".torch_modules" in f.module.name:
            continue
        yield f, r
    for c, f, r in ctx.lib.exact():
        if is_helper(f) or f.cls is not None and f.cls.qual == c.qual:
            continue
        yield f, r


def check(ctx):
    for f, r in entry_points(ctx):
        I = r.interp
        A = Alias(ctx.lib, I)
        fitting = f.name in ("fit", "__init__")
        for e in r.events:
            if e.kind == "mutate":
                how = e.extra[0] if e.extra else ""
                flag = how in GRAD_FLAGS
                rs = A.roots(e.data, same=flag)
                judge(ctx, f, r, e, rs, how, fitting)
            elif e.kind == "setattr":
                o, name = e.data[0], e.data[1]
                if name not in TENSOR_ATTRS or I.typeof(o) is not None:
                    continue
                rs = A.roots(o, same=name != "data")
                judge(ctx, f, r, e, rs, f"assignment to .{name}", fitting)
            elif e.kind == "call" and e.data.op == "call" and e.data.args[0] in SHUFFLERS and e.data.args[1]:
                judge(ctx, f, r, e, A.roots(e.data.args[1][0]), e.data.args[0], fitting)
            elif e.kind == "optstep" and e.data[1] == "step":
                for o in optimizers(e.data[0]):
                    if is_optimizer(o):
                        for what, x in held(o):
                            if what == "leaf":
                                judge(ctx, f, r, e, [t for t in A.roots(x) if t.op != "attr"], "optimizer step", fitting)
        ctx.ok("caller-data", f"{f.qual}: parameters {[n for n in f.posnames[:6]]}")
    ctx.floor("caller-data", 100)


def judge(ctx, f, r, e, roots, how, fitting):
    I = r.interp
    ctx.ok("mutation-target", f"{e.stack[-1]}: {how} on {show(e.data[0] if isinstance(e.data, tuple) else e.data)[:80]}")
    for t in roots:
        if is_data_param(I, t):
            name = t.args[1] if t.op == "kwarg" else t.args[0]
            ctx.bad_ev("caller-data", f"{e.stack[-1]}:{how}", f"{f.qual} changes its caller's argument '{name}' in place ({how})", e)
        elif t.op == "attr" and t.args[1] in STORED:
            if fitting and how in ("requires_grad_", "requires_grad", "assignment to .requires_grad"):
                continue
            if f.name == "fit":
                continue
            ctx.bad_ev("stored-data", f"{e.stack[-1]}:{how}", f"{f.qual} changes the stored {t.args[1]} in place ({how})", e)
        elif t.op == "global" and not t.args[0].startswith("irtorch") :
            ctx.bad_ev("globals", f"{e.stack[-1]}:{t.args[0]}", f"{f.qual} changes the shared library object {t.args[0]} in place ({how})", e)
        elif t.op == "default":
            ctx.bad_ev("globals", f"{e.stack[-1]}:{t.args[1]}", f"{f.qual} changes the shared default value of '{t.args[1]}' in place ({how})", e)
