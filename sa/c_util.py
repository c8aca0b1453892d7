"""Small helpers shared by the domains."""
PASSING = {"clone", "detach", "contiguous", "requires_grad_", "detach_", "float", "double", "long", "int", "to", "cpu", "cuda", "numpy", "bool", "half"}


def strip_pass(t):
    """t without conversions that keep every entry in its place"""
    while True:
        if t.op == "meth" and t.args[0] in PASSING:
            t = t.args[1]
        elif t.op == "inplace" and t.args[0] in ("requires_grad_", "detach_"):
            t = t.args[1]
        elif t.op == "attr" and t.args[1] in ("data",) and t.args[0].op not in ("obj", "new", "param"):
            t = t.args[0]
        elif t.op == "call" and t.args[0] in ("torch.nn.Parameter", "torch.nn.parameter.Parameter", "torch.from_numpy", "copy.deepcopy", "copy.copy") and t.args[1]:
            t = t.args[1][0]
        else:
            return t
