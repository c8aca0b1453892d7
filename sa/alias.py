"""Storage and object aliasing of terms: which caller-visible object a value shares its contents with."""
from .terms import T, Term, is_const, cval, NONE
from .interp import VIEW_METHODS, basic_index

SAME_OBJECT = {"to", "float", "double", "long", "int", "bool", "half", "cpu", "cuda", "contiguous", "type", "type_as", "requires_grad_", "retain_grad"}
SHARING_CALLS = {"torch.as_tensor", "torch.from_numpy", "numpy.asarray", "numpy.atleast_1d", "numpy.atleast_2d", "torch.atleast_1d", "torch.atleast_2d", "numpy.ravel", "numpy.reshape", "torch.asarray", "numpy.squeeze"}
ELEMENT_CALLS = {"list", "tuple", "reversed", "sorted", "iter", "next", "enumerate", "zip"}
FRAME_ATTRS = {"T", "data", "mT", "values", "loc", "iloc", "H", "real", "at", "iat"}


class Alias:
    def __init__(self, lib, interp):
        self.lib, self.I = lib, interp
        self.p = lib.p
        self.memo = {}

    def roots(self, t, same=False, depth=0):
        """Roots whose contents (same=False) or identity (same=True) the value may be, by definite sharing steps.

        Roots are terms: param, attr (object state), global, default.  A fresh value has none."""
        k = (t, same)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = frozenset()
        r = frozenset(self._roots(t, same, depth))
        self.memo[k] = r
        return r

    def _roots(self, t, same, depth):
        if depth > 60:
            return
        rec = lambda x: self.roots(x, same, depth + 1)
        op = t.op
        if op in ("param", "global", "default", "cbarg", "obj", "kwarg"):
            yield t
            if op == "kwarg":
                yield from rec(t.args[0])
        elif op == "attr":
            if t.args[1] in FRAME_ATTRS and self.I.typeof(t.args[0]) is None:
                if not same:
                    yield from rec(t.args[0])
            else:
                yield t
        elif op == "phi":
            yield from rec(t.args[1])
            yield from rec(t.args[2])
        elif op in ("mu", "out"):
            yield from rec(t.args[2])
            for conds, s in self.I.steps.get(t.args[0], {}).get(t.args[1], ()):
                if s is not t:
                    yield from rec(s)
        elif op in ("setitem", "inplace"):
            yield from rec(t.args[0] if op == "setitem" else t.args[1])
        elif op in ("viewupd", "listappend"):
            yield from rec(t.args[0])
        elif op == "meth":
            n = t.args[0]
            if n in SAME_OBJECT:
                # dtype or device conversion returns the same tensor when nothing changes
                if n == "to" and any(kk == "copy" and is_const(v, True) for kk, v in t.args[3]):
                    return
                if n == "contiguous" and self.noncontiguous(t.args[1]):
                    return
                yield from rec(t.args[1])
            elif n in VIEW_METHODS and not same:
                yield from rec(t.args[1])
            elif n in ("get", "values", "items", "pop", "__getitem__", "squeeze_", "view_"):
                yield from rec(t.args[1])
        elif op == "index":
            if self.container(t.args[0]):
                # an element of a list or dictionary is the very object
                yield from rec(t.args[0])
            elif not same and basic_index(t.args[1]):
                yield from rec(t.args[0])
        elif op == "elem":
            yield from self.elem_roots(t.args[0], same, depth)
        elif op == "call":
            n = t.args[0]
            if n in SHARING_CALLS and t.args[1]:
                yield from rec(t.args[1][0])
            elif n == "torch.nn.Parameter" and not same and t.args[1]:
                yield from rec(t.args[1][0])
            elif n == "numpy.array" and any(kk == "copy" and is_const(v, False) for kk, v in t.args[2]):
                yield from rec(t.args[1][0])
        elif op in ("rcall", "vcall"):
            yield from self.call_roots(t, same, depth)
        elif op == "enter":
            yield from rec(t.args[0])

    def elem_roots(self, it, same, depth):
        if it.op == "call" and it.args[0] in ELEMENT_CALLS and it.args[1]:
            yield from self.elem_roots(it.args[1][0], same, depth + 1)
        elif it.op in ("list", "tuple"):
            for x in it.args[0]:
                yield from self.roots(x, same, depth + 1)
        elif it.op in ("listof",):
            yield from self.roots(it.args[0], same, depth + 1)
        elif it.op == "phi":
            yield from self.elem_roots(it.args[1], same, depth + 1)
            yield from self.elem_roots(it.args[2], same, depth + 1)
        elif not same or self.container(it):
            yield from self.roots(it, same, depth + 1)

    def container(self, t):
        a = self.I.cls_params.get(t)
        if a and (a[0] == "list" or a[0] == "prim" and a[1] in ("list", "dict", "tuple")):
            return True
        return t.op in ("list", "tuple", "dict", "listof", "listof2", "dictof")

    def noncontiguous(self, t):
        return t.op == "meth" and t.args[0] in ("transpose", "permute", "expand")

    def call_roots(self, t, same, depth):
        """Sharing between arguments and results of calls that stay symbolic."""
        if t.op == "vcall":
            q, name, recv, bt = t.args
            c = recv and self.I.typeof(recv)
            impls = self.p.overriders(c[0], name) if c else []
        else:
            impls, bt = [self.p.functions.get(t.args[0])], t.args[1]
        b = dict(bt)
        for f in impls:
            if f is None or f.is_abstract or depth > 12:
                continue
            r = self.lib.run(f)
            if r is None or r.value is None:
                continue
            sub = Alias(self.lib, r.interp)
            for root in sub.roots(r.value, same):
                if root.op == "param" and root.args[0] in b:
                    yield from self.roots(b[root.args[0]], same, depth + 1)
