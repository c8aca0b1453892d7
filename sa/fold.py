"""Forward evaluation of a value graph in a small domain, joining over branches and loops."""
from .terms import T, Term, is_const, cval

PASS = {"clone", "detach", "contiguous", "requires_grad_", "detach_", "float", "double", "long", "int", "to", "cpu", "cuda", "reshape", "unsqueeze", "squeeze", "expand",
        "expand_as", "view_as", "flatten", "repeat", "repeat_interleave", "tile", "T", "t", "transpose", "permute", "numpy", "item", "clamp", "clamp_", "sort", "unique",
        "roll", "flip", "gather", "index_select", "median", "max", "min", "mean", "quantile", "masked_select", "select", "narrow", "split", "chunk", "unbind", "tolist",
        "squeeze_", "unsqueeze_", "movedim", "broadcast_to", "nanmedian", "nanmean", "amax", "amin", "type_as", "diag_embed", "nan_to_num", "take_along_dim"}
CONCAT = {"torch.cat", "torch.stack", "torch.hstack", "torch.vstack", "numpy.concatenate", "numpy.stack", "numpy.vstack", "numpy.hstack", "torch.column_stack"}
WRAP = {"torch.from_numpy", "torch.tensor", "torch.as_tensor", "numpy.array", "numpy.asarray", "list", "tuple", "copy.copy", "copy.deepcopy", "torch.atleast_2d"}


class Fold:
    """visit(t) returns a value, or NotImplemented for the default treatment; None is 'no information'."""
    passing = PASS

    def __init__(self, interp):
        self.I = interp
        self.memo = {}
        self.busy = set()

    def join(self, a, b):
        if a is None:
            return b
        if b is None or a == b:
            return a
        return self.clash(a, b)

    def clash(self, a, b):
        return None

    def visit(self, t):
        return NotImplemented

    def __call__(self, t):
        if not isinstance(t, Term):
            return None
        if t in self.memo:
            return self.memo[t]
        if t in self.busy:
            return None
        self.busy.add(t)
        r = self.visit(t)
        if r is NotImplemented:
            r = self.default(t)
        self.busy.discard(t)
        if not self.busy or t.op not in ("mu",):
            self.memo[t] = r
        return r

    def joinall(self, xs):
        r = None
        for x in xs:
            r = self.join(r, self(x))
        return r

    def steps(self, t):
        out = [t.args[2]]
        st = self.I.steps.get(t.args[0], {}).get(t.args[1], ())
        out += [v for _, v in st]
        info = self.I.loopinfo.get(t.args[0])
        if info:
            out += [v for _, v in info["breaksteps"].get(t.args[1], ())]
        return out

    def default(self, t):
        o, a = t.op, t.args
        if o == "meth" and a[0] in self.passing:
            return self(a[1])
        if o == "attr" and a[1] in self.passing | {"values", "data"}:
            return self(a[0])
        if o in ("index", "elem"):
            return self(a[0])
        if o == "setitem":
            return self.joinall([a[0], a[2]])
        if o in ("phi", "where"):
            return self.joinall(a[1:])
        if o in ("mu", "out"):
            return self.joinall(self.steps(t))
        if o == "inplace":
            return self(a[1])
        if o in ("list", "tuple"):
            return self.joinall(a[0])
        if o == "listof":
            return self(a[0])
        if o == "listappend":
            return self.joinall(a[:2])
        if o == "call" and a[0] in CONCAT and a[1]:
            return self(a[1][0])
        if o == "call" and a[0] in WRAP and a[1]:
            return self(a[1][0])
        return self.other(t)

    def other(self, t):
        return None
