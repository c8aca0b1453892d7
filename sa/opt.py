"""Optimisers in value graphs: what they hold and where they come from."""
from .terms import T, Term, is_const, walk

STEPPERS = ("torch.optim.",)


def is_optimizer(t):
    return t.op == "call" and str(t.args[0]).startswith("torch.optim.") and ".lr_scheduler" not in t.args[0]


def is_scheduler(t):
    return t.op == "call" and ".lr_scheduler" in str(t.args[0])


def optimizers(t, depth=0):
    """constructor terms an optimiser value may be"""
    if depth > 20:
        return
    if is_optimizer(t) or is_scheduler(t):
        yield t
    elif t.op == "phi":
        yield from optimizers(t.args[1], depth + 1)
        yield from optimizers(t.args[2], depth + 1)
    elif t.op in ("mu", "out"):
        yield from optimizers(t.args[2], depth + 1)
    elif t.op in ("inplace",):
        yield from optimizers(t.args[1], depth + 1)


def held(t, depth=0):
    """('module', m) and ('leaf', tensor) entries of the parameter list of an optimiser; ('unknown', t) for the rest"""
    a = t.args[1][0] if t.args[1] else dict(t.args[2]).get("params")
    yield from entries(a)


def entries(a, depth=0):
    if a is None or depth > 20:
        return
    if a.op == "call" and a.args[0] in ("list", "tuple", "iter", "itertools.chain", "set") and a.args[1]:
        for x in a.args[1]:
            yield from entries(x, depth + 1)
    elif a.op == "bin" and a.args[0] == "+":
        yield from entries(a.args[1], depth + 1)
        yield from entries(a.args[2], depth + 1)
    elif a.op in ("list", "tuple"):
        for x in a.args[0]:
            if x.op in ("star", "starred"):
                yield from entries(x.args[0], depth + 1)
            elif x.op == "dict":
                for k, v in x.args[0]:
                    if is_const(k, "params"):
                        yield from entries(v, depth + 1)
            else:
                yield "leaf", x
    elif a.op == "meth" and a.args[0] in ("parameters", "named_parameters"):
        yield "module", a.args[1]
    elif a.op == "rcall" and str(a.args[0]).endswith(".parameters"):
        yield "module", dict(a.args[1]).get("self")
    elif a.op == "listof" and a.args[0].op == "elem":
        yield from entries(a.args[0].args[0], depth + 1)
    elif a.op in ("inplace", "listappend"):
        yield from entries(a.args[1] if a.op == "inplace" else a.args[0], depth + 1)
        if a.op == "inplace" and a.args[0] in ("append",):
            yield "leaf", a.args[2][0]
        elif a.op == "inplace" and a.args[0] in ("extend",):
            yield from entries(a.args[2][0], depth + 1)
        elif a.op == "listappend":
            yield "leaf", a.args[1]
    elif a.op == "phi":
        yield from entries(a.args[1], depth + 1)
        yield from entries(a.args[2], depth + 1)
    else:
        yield "unknown", a
