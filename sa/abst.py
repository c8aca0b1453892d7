"""Values of terms on a small fixed configuration: shapes and option values are concrete, parameters and latent scores are abstract cells.

The evaluator gives every term of the value graph an abstract value: numbers, strings and containers that the configuration
determines, and tensors of abstract cells (cells.py).  An operation without a transfer function raises Unknown.
"""
import itertools
import math
from fractions import Fraction

from . import cells as C
from .cells import Arr, Illshaped, Poly, Unknown, arr, INF
from .terms import T, Term, const, cval, is_const, show, walk


class Sym:
    """an object without a value (module, class, device)"""
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"<{show(self.t, 2)}>"


class Pair(tuple):
    """(values, indices)"""


DTYPES = {"bool": bool, "int": int, "long": int, "int64": int, "int32": int, "short": int, "int16": int, "int8": int, "uint8": int, "float": float, "float32": float, "float64": float, "double": float, "half": float, "float16": float}


def num(x):
    return isinstance(x, (bool, int, float, Fraction))


def scalar(v):
    if isinstance(v, Arr):
        return v.item()
    return v


# ------------------------------------------------------------------------------------------------------------ cell operations
def indicator(kind, d):
    """truth of d < 0 or d <= 0"""
    lead = d.m[max(d.m, key=lambda m: (len(m), m))]
    if lead > 0:
        return C.atom("ind", kind, d)
    return C.add(1, C.neg(C.atom("ind", "le" if kind == "lt" else "lt", C.neg(d))))


def cmp_cell(op, a, b):
    if a is None or b is None:
        return None
    if op == ">":
        return cmp_cell("<", b, a)
    if op == ">=":
        return cmp_cell("<=", b, a)
    if op == "!=":
        r = cmp_cell("==", a, b)
        return not_cell(r)
    if C.special(a) or C.special(b):
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
            return False
        fa, fb = (0.0 if isinstance(a, Poly) else a), (0.0 if isinstance(b, Poly) else b)
        return {"<": fa < fb, "<=": fa <= fb, "==": fa == fb}[op]
    if num(a) and num(b):
        return {"<": a < b, "<=": a <= b, "==": a == b}[op]
    d = C.add(a, C.neg(b))
    if num(d):
        return {"<": d < 0, "<=": d <= 0, "==": d == 0}[op]
    lo, hi = C.bounds(d)
    if op == "==":
        if lo > 0 or hi < 0:
            return False
        k = d if d.m[max(d.m, key=lambda m: (len(m), m))] > 0 else C.neg(d)
        if isbit(k) and len(k.m) <= 4 and all(v > 0 for v in k.m.values()) and () not in k.m:
            # a sum of indicators is 0 when each of them is
            r = True
            for m in k.m:
                r = and_cell(r, C.add(1, C.neg(C.norm(Poly({m: Fraction(1)})))))
            return r
        return C.atom("ind", "eq", k)
    if op == "<":
        if hi < 0:
            return True
        if lo >= 0:
            return False
        return indicator("lt", d)
    if hi <= 0:
        return True
    if lo > 0:
        return False
    return indicator("le", d)


def not_cell(c):
    if c is None:
        return None
    if isinstance(c, bool):
        return not c
    if isinstance(c, Poly):
        return C.add(1, C.neg(c))
    if isinstance(c, int):
        return ~c
    return None


def truthy(c):
    if c is None or isinstance(c, Poly):
        return c if isinstance(c, Poly) and isbit(c) else None
    return bool(c == c and c != 0) if not (isinstance(c, float) and c != c) else True


def isbit(c):
    """an indicator or its complement or a product of indicators"""
    if isinstance(c, bool):
        return True
    if not isinstance(c, Poly):
        return False
    return all(C.Atoms.items[a][0] == "ind" for m in c.m for a, _ in m)


def and_cell(a, b):
    if a is False or b is False:
        return False
    if a is None or b is None:
        return None
    if isinstance(a, bool) and isinstance(b, bool):
        return a and b
    if isinstance(a, Poly) or isinstance(b, Poly):
        if a is True:
            return b
        if b is True:
            return a
        return C.mul(a, b) if isbit(a) and isbit(b) else None
    return a & b if isinstance(a, int) and isinstance(b, int) else None


def or_cell(a, b):
    if a is True or b is True:
        return True
    if a is None or b is None:
        return None
    if isinstance(a, bool) and isinstance(b, bool):
        return a or b
    if isinstance(a, Poly) or isinstance(b, Poly):
        return not_cell(and_cell(not_cell(a), not_cell(b)))
    return a | b if isinstance(a, int) and isinstance(b, int) else None


def pick(c, a, b):
    c = truthy(c)
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if c is None or a is None or b is None or C.special(a) or C.special(b):
        return None
    return C.add(C.mul(c, a), C.mul(not_cell(c), b))


def same(a, b):
    return a is b or (num(a) and num(b) and type(a) is type(b) and a == b)


def bin_cell(op, a, b):
    if op == "+":
        return C.add(a, b)
    if op == "-":
        return C.add(a, C.neg(b))
    if op == "*":
        return C.mul(a, b)
    if op == "/":
        return C.div(a, b)
    if op == "**":
        if isinstance(b, Poly):
            return C.exp(C.mul(b, C.log(a))) if num(a) and a > 0 else None
        return C.power(a, b)
    if op == "&":
        return and_cell(a, b)
    if op == "|":
        return or_cell(a, b)
    if op == "^":
        return a != b if isinstance(a, bool) and isinstance(b, bool) else None
    if op in ("//", "%") and num(a) and num(b) and b:
        return a // b if op == "//" else a % b
    if op in ("//", "%"):
        return None
    raise Unknown(op)


def extreme(xs, best):
    """largest (best=1) or smallest cell of a row"""
    r = xs[0]
    for x in xs[1:]:
        if x is None or r is None:
            return None
        c = cmp_cell("<", r, x) if best > 0 else cmp_cell("<", x, r)
        if isinstance(c, bool):
            r = x if c else r
        elif same(x, r):
            continue
        elif isinstance(x, Poly) or isinstance(r, Poly):
            c = cmp_cell("<=", r, x) if best > 0 else cmp_cell("<=", x, r)
            if c is True:
                r = x
            else:
                return None
        else:
            return None
    return r


def largest(xs, best):
    """the same, as a new value when it is not determined which cell it is"""
    r = extreme(xs, best)
    if r is None and not any(z is None or C.special(z) for z in xs):
        r = C.atom("max" if best > 0 else "min", tuple(xs))
    return r


def whole(c):
    """a polynomial of values that are integers"""
    return all(k == int(k) and all(e > 0 and (C.Atoms.items[a][0] == "ind" or C.Atoms.items[a][0] == "fn" and C.Atoms.items[a][1] in ("sign", "floor", "ceil", "round", "trunc")) for a, e in m) for m, k in c.m.items())


def place(c):
    """an index, also one that is found by a search"""
    if not isinstance(c, Poly):
        return isinstance(c, int) and not isinstance(c, bool)
    return all(k == int(k) and all(e == 1 and C.Atoms.items[a][0] in ("arg", "rand") for a, e in m) for m, k in c.m.items())


def cast(kind):
    def f(c):
        if c is None:
            return None
        if kind is bool:
            return truthy(c)
        if isinstance(c, Poly):
            return c if kind is float or isbit(c) or whole(c) else None
        if kind is int:
            return -2**31 if C.special(c) else int(c)   # what the conversion of NaN gives: never a response
        if kind is float:
            return int(c) if isinstance(c, bool) else c
        return c
    return f


UNARY = {"sigmoid": "sigmoid", "softplus": "softplus", "tanh": "tanh", "elu": "elu", "relu": "relu", "sqrt": "sqrt", "log1p": "log1p", "abs": "abs", "sign": "sign", "cos": "cos", "sin": "sin", "floor": "floor",
         "ceil": "ceil", "leaky_relu": "leaky_relu", "softsign": "softsign", "logsigmoid": "logsigmoid", "silu": "silu", "gelu": "gelu", "erf": "erf", "atan": "atan", "selu": "selu", "celu": "celu", "logit": "logit", "trunc": "trunc"}
NOOP = {"clone", "detach", "contiguous", "cpu", "cuda", "requires_grad_", "to_dense", "data", "numpy", "detach_", "share_memory_", "pin_memory", "constant", "expand_copy", "alias"}
INITS = {"normal_", "uniform_", "constant_", "zeros_", "ones_", "xavier_uniform_", "xavier_normal_", "kaiming_uniform_", "kaiming_normal_", "trunc_normal_", "orthogonal_", "fill_", "copy_", "zero_"}


class Frame:
    """a table with named columns"""
    def __init__(self, x, cols=None, rows=None):
        self.x, self.cols = x, list(cols) if cols is not None else list(range(x.shape[1]))
        self.rows = list(rows) if rows is not None else list(range(x.shape[0]))

    def column(self, name):
        i = self.cols.index(name)
        return [self.x.c[r * self.x.shape[1] + i] for r in range(self.x.shape[0])]


DRAWS = T("leaf", "draws", ())


class Eval:
    def __init__(self, lib, env=None):
        """env: term -> value"""
        self.lib, self.p = lib, lib.p if lib else None
        self.env = dict(env or {})
        self.memo = {}
        self.loops = {}      # loop -> (iteration, values of the loop's variables)
        self.interp = None   # interpretation the terms come from, for loops
        self.nops = 0
        self.shapes = {}
        self.heap = {}       # attributes set on values, for tables
        self.hooks = None    # definitions of the methods of an abstract object

    # -------------------------------------------------------------------------------------------------- entry
    def __call__(self, t):
        if t in self.env:
            return self.env[t]
        k = t.id
        if k in self.memo:
            r = self.memo[k]
            if isinstance(r, Unknown):
                raise r
            return r
        try:
            r = self.step(t)
        except Unknown as e:
            self.memo[k] = e
            raise
        except RecursionError:
            raise Unknown("depth")
        except (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError, OverflowError) as e:
            u = Unknown(f"{type(e).__name__} in {show(t, 1)[:80]}: {e}")
            self.memo[k] = u
            raise u
        self.memo[k] = r
        self.nops += 1
        return r

    def maybe(self, t):
        try:
            return self(t)
        except Unknown:
            return None

    def truth(self, t):
        """truth of a condition, None when it is not determined"""
        try:
            v = self(t)
        except Unknown:
            return None
        if isinstance(v, Arr):
            if len(v.c) != 1:
                return None
            v = v.c[0]
        if isinstance(v, Sym):
            return None
        if isinstance(v, Poly):
            return None
        if isinstance(v, (bool, int, float, str, list, tuple, dict, range)) or v is None and self.isnone(t):
            return bool(v)
        return None

    def isnone(self, t):
        return is_const(t, None) or t.op in ("phi",)

    # -------------------------------------------------------------------------------------------------- terms
    def step(self, t):
        f = getattr(self, "t_" + t.op, None)
        if f is None:
            raise Unknown(f"term {t.op}")
        return f(t, *t.args)

    def t_const(self, t, ty, v):
        v = cval(t)
        if ty == "ellipsis" or v is Ellipsis:
            return Ellipsis
        return v

    def t_global(self, t, name):
        if name in ("torch.inf", "math.inf", "numpy.inf"):
            return INF
        if name in ("torch.nan", "math.nan", "numpy.nan"):
            return float("nan")
        if name in ("torch.pi", "math.pi", "numpy.pi"):
            return math.pi
        if name == "Ellipsis":
            return Ellipsis
        return Sym(t)

    def t_obj(self, t, *a):
        return Sym(t)
    t_new = t_class = t_func = t_bound = t_closure = t_partial = t_obj

    def t_ellipsis(self, t):
        return Ellipsis

    def t_kwarg(self, t, src, name, default):
        if self.hooks is None:
            raise Unknown("keyword arguments")
        return self(default)   # no further keyword arguments are given

    def t_leaf(self, t, label, shape):
        return Arr(shape, [C.atom("free", label, i) for i in range(C.size(shape))])

    def t_theta(self, t, rows, lvs):
        return Arr((rows, lvs), [C.atom("theta", r, v) for r in range(rows) for v in range(lvs)])

    def t_tuple(self, t, xs):
        return tuple(self.items(xs))

    def t_list(self, t, xs, *tag):
        return list(self.items(xs))

    def t_set(self, t, xs, *tag):
        return list(self.items(xs))

    def items(self, xs):
        for x in xs:
            if x.op == "star":
                yield from self.iterate(self(x.args[0]))
            else:
                yield self(x)

    def t_dict(self, t, kvs, *tag):
        d = {}
        for k, v in kvs:
            if k.op == "starstar":
                d.update(self(v))
            else:
                d[self(k)] = self(v)
        return d

    def t_fresh(self, t, x, tag):
        return self.renew(t, x)

    def renew(self, t, x):
        v = self(x)
        return Sym(t) if isinstance(v, Sym) else v

    def t_slice(self, t, a, b, c):
        return slice(*[self.intornone(x) for x in (a, b, c)])

    def intornone(self, x):
        v = scalar(self(x))
        if v is None and not is_const(x, None):
            raise Unknown("slice bound")
        if v is not None and not isinstance(v, int):
            raise Unknown("slice bound")
        return v

    def t_fstr(self, t, *xs):
        return "".join(str(self(x)) for x in xs)

    def t_star(self, t, x):
        raise Unknown("star")

    def t_not(self, t, a):
        if a.op == "cmp":
            try:
                x = self(a)
            except (Unknown, Illshaped):
                x = None
            if isinstance(x, Arr):      # "!=" of tensors
                return x.map(not_cell)
        v = self.truth(a)
        if v is None:
            x = self(a)
            if a.op == "cmp" and isinstance(x, (Arr, Poly)):   # "!=" of tensors
                return x.map(not_cell) if isinstance(x, Arr) else not_cell(x)
            raise Unknown("condition")
        return not v

    def t_bool(self, t, op, xs):
        last = None
        for x in xs:
            v = self.truth(x)
            if v is None:
                raise Unknown("condition")
            last = self(x)
            if (op == "and") != v:
                return last
        return last

    def t_un(self, t, op, a):
        v = self(a)
        if op == "-":
            return v.map(C.neg) if isinstance(v, Arr) else C.neg(v)
        if op == "~":
            if isinstance(v, Arr):
                return v.map(not_cell)
            return not_cell(v)
        if op == "+":
            return v
        raise Unknown(op)

    def t_bin(self, t, op, a, b):
        x, y = self(a), self(b)
        return self.binop(op, x, y)

    def binop(self, op, x, y):
        if op == "@":
            return C.matmul(arr(x), arr(y))
        if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
            if op == "+" and type(x) is type(y):
                return x + y
            if op == "*" and isinstance(y, int):
                return x * y
            if op == "*" and isinstance(x, int):
                return y * x
            if not (isinstance(x, Arr) or isinstance(y, Arr)):
                raise Unknown(op)
        if isinstance(x, str) or isinstance(y, str):
            if op == "+" and isinstance(x, str) and isinstance(y, str):
                return x + y
            raise Unknown(op)
        if isinstance(x, Sym) or isinstance(y, Sym):
            raise Unknown("object")
        if isinstance(x, Arr) or isinstance(y, Arr):
            return C.zipmap(lambda u, v: bin_cell(op, u, v), x, y)
        if x is None or y is None:
            raise Unknown("None")
        r = bin_cell(op, x, y)
        if isinstance(r, Fraction) and op == "/":
            r = float(r) if r.denominator != 1 else int(r)
        return r

    def t_cmp(self, t, op, a, b):
        if op in ("is", "is not"):
            r = self.ident(a, b)
            return r if op == "is" else not r
        if op in ("in", "not in"):
            x, y = self(a), self(b)
            if isinstance(y, (Arr, Sym)) or isinstance(x, (Arr, Sym)):
                raise Unknown("in")
            r = any(type(x) is type(k) and x == k or num(x) and num(k) and x == k for k in (y if not isinstance(y, str) else [])) if not isinstance(y, str) else (x in y)
            return r if op == "in" else not r
        x, y = self(a), self(b)
        if isinstance(x, Sym) and isinstance(y, Sym):
            if x.t.op == "global" and y.t.op == "global":
                return {"==": x.t is y.t, "!=": x.t is not y.t}[op]
            raise Unknown("objects")
        if isinstance(x, Sym) or isinstance(y, Sym):
            raise Unknown("object")
        if isinstance(x, Arr) or isinstance(y, Arr):
            if x is None or y is None or isinstance(x, (str, list, tuple)) or isinstance(y, (str, list, tuple)):
                raise Unknown("compare")
            return C.zipmap(lambda u, v: cmp_cell(op, u, v), x, y)
        if num(x) and num(y):
            return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        if isinstance(x, Poly) or isinstance(y, Poly):
            return cmp_cell(op, x, y)
        if op in ("==", "!="):
            if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) and any(not (num(k) or isinstance(k, str)) for k in list(x) + list(y)):
                raise Unknown("compare")
            r = type(x) is type(y) and x == y
            return r if op == "==" else not r
        raise Unknown("compare")

    def ident(self, a, b):
        if is_const(a, None):
            a, b = b, a
        x = self(a)
        if is_const(b, None):
            return x is None
        y = self(b)
        if isinstance(x, (bool, int, str)) and isinstance(y, (bool, int, str)):
            return type(x) is type(y) and x == y
        if isinstance(x, Sym) and isinstance(y, Sym):
            return x.t is y.t
        raise Unknown("is")

    def t_phi(self, t, c, a, b):
        if c.op == "exc":
            # no exception happens unless evaluation shows one
            try:
                return self(b)
            except C.Illshaped:
                return self(a)
        v = self.truth(c)
        if v is None:
            x, y = self(a), self(b)
            if x is y or num(x) and num(y) and type(x) is type(y) and x == y:
                return x
            w = scalar(self.maybe(c)) if isinstance(self.maybe(c), (Arr, Poly)) and (isinstance(self.maybe(c), Poly) or len(self.maybe(c).c) == 1) else None
            if isbit(w) and all(isinstance(z, (Arr, Poly)) or num(z) for z in (x, y)):
                # the condition is an indicator of abstract values
                if not isinstance(x, Arr) and not isinstance(y, Arr):
                    return pick(w, x, y)
                s = arr(x).shape if isinstance(x, Arr) else arr(y).shape
                if C.size(arr(x).shape) == C.size(arr(y).shape):
                    return Arr(s, [pick(w, u, z) for u, z in zip(arr(x).c, arr(y).c)])
            if isinstance(x, Arr) and isinstance(y, Arr) and x.shape == y.shape:
                return Arr(x.shape, [(w if isinstance(w, int) else u) if same(u, w) or num(u) and num(w) and u == w and not isinstance(u, bool) and not isinstance(w, bool) else None for u, w in zip(x.c, y.c)])
            raise Unknown(f"condition {show(c, 3)[:100]}")
        return self(a if v else b)

    def t_where(self, t, c, a, b):
        x, y, z = self(c), self(a), self(b)
        if isinstance(x, Sym) or isinstance(y, Sym) or isinstance(z, Sym):
            raise Unknown("where")
        x, y, z = arr(x), arr(y), arr(z)
        s = C.bshape(C.bshape(x.shape, y.shape), z.shape)
        x, y, z = C.broadcast(x, s), C.broadcast(y, s), C.broadcast(z, s)
        return Arr(s, [pick(u, v, w) for u, v, w in zip(x.c, y.c, z.c)])

    # -------------------------------------------------------------------------------------------------- loops
    def t_elem(self, t, it, L):
        if L not in self.loops:
            raise Unknown("element of a loop")
        xs = list(self.iterate(self(it)))
        i = self.loops[L][0]
        if i >= len(xs):
            raise Unknown("loop length")
        return xs[i]

    def t_ridx(self, t, L, lo, hi, st):
        if L not in self.loops:
            raise Unknown("index of a loop")
        return self(lo) + self.loops[L][0] * self(st)

    def iterate(self, v):
        if isinstance(v, (list, tuple, range)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, Arr) and v.ndim:
            return [C.getitem(v, i) for i in range(v.shape[0])]
        if isinstance(v, str):
            return list(v)
        raise Unknown("iteration")

    def t_listof(self, t, body, L, it):
        n = len(self.iterate(self(it)))
        if n > 64:
            raise Unknown("long list")
        out = []
        for i in range(n):
            e = self.sub(L, i, {})
            out.append(e(body))
        return out

    def sub(self, L, i, vals):
        e = Eval(self.lib, self.env)
        e.interp, e.loops = self.interp, {**self.loops, L: (i, vals)}
        e.shapes = self.shapes
        e.heap, e.hooks = self.heap, self.hooks
        return e

    def t_mu(self, t, L, key, init):
        if L in self.loops:
            vals = self.loops[L][1]
            if key in vals:
                v = vals[key]
                if isinstance(v, Unknown):
                    raise v
                return v
            if self.loops[L][0] == 0:
                return self.outer(L)(init)
        raise Unknown("loop value")

    def outer(self, L):
        e = Eval(self.lib, self.env)
        e.interp, e.loops = self.interp, {k: v for k, v in self.loops.items() if k != L}
        e.shapes = self.shapes
        e.heap, e.hooks = self.heap, self.hooks
        return e

    def t_out(self, t, L, key, init):
        I = self.interp
        if I is None or L not in I.steps or L not in I.loopinfo:
            raise Unknown("loop")
        info = I.loopinfo[L]
        if info.get("breaks") or info.get("iter") is None:
            raise Unknown("loop exit")
        n = len(self.iterate(self(info["iter"])))
        if n > 40:
            raise Unknown("long loop")
        steps = I.steps[L]
        vals = {}
        for k in steps:
            m = [x for s in steps.values() for _, v in s for x in walk(v) if x.op == "mu" and x.args[0] == L and x.args[1] == k]
            if m:
                try:
                    vals[k] = self(m[0].args[2])
                except Unknown as e:
                    vals[k] = e
        if key not in vals:
            try:
                vals[key] = self(init)
            except Unknown as e:
                vals[key] = e
        for i in range(n):
            e = self.sub(L, i, vals)
            new = dict(vals)
            for k, alts in steps.items():
                try:
                    live = [(c, v) for c, v in alts if not any(e.truth(x) is (not pol) for x, pol in c)]
                    if len(live) != 1 and any(v is not live[0][1] for _, v in live):
                        raise Unknown("loop paths")
                    new[k] = e(live[0][1])
                except Unknown as u:
                    new[k] = u
            vals = new
        v = vals[key]
        if isinstance(v, Unknown):
            raise v
        return v

    # -------------------------------------------------------------------------------------------------- attributes, indexing
    def t_attr(self, t, o, name):
        v = self(o)
        if isinstance(v, Frame):
            if name == "index":
                return list(v.rows)
            if name == "columns":
                return list(v.cols)
            if name in ("shape", "values"):
                return tuple(v.x.shape) if name == "shape" else v.x
            raise Unknown(f"attribute {name} of a table")
        if isinstance(v, Arr):
            if name == "shape":
                return tuple(v.shape)
            if name in ("T", "mT"):
                return C.permute(v, list(range(v.ndim))[::-1]) if name == "T" else C.permute(v, list(range(v.ndim - 2)) + [v.ndim - 1, v.ndim - 2])
            if name in ("data", "real"):
                return v
            if name == "ndim":
                return v.ndim
            if name in ("values", "indices"):
                raise Unknown(name)
        if isinstance(v, Pair) and name in ("values", "indices"):
            return v[0] if name == "values" else v[1]
        if isinstance(v, Sym) and name in ("device", "dtype"):
            return Sym(t)
        if name in ("device", "dtype", "requires_grad", "training"):
            if name == "dtype" and isinstance(v, Arr) and v.isbool():
                return Sym(T("global", "torch.bool"))
            return Sym(t)
        raise Unknown(f"attribute {name}")

    def t_index(self, t, o, i):
        v, k = self(o), self(i)
        if isinstance(v, Arr):
            return C.getitem(v, self.key(k, True))
        if isinstance(v, (list, tuple, range, str)):
            if isinstance(k, tuple) and len(k) == 1:
                k = k[0]
            k = scalar(k) if not isinstance(k, slice) else k
            if not isinstance(k, (int, slice)):
                raise Unknown("index")
            return v[k]
        if isinstance(v, dict):
            return v[k]
        raise Unknown("index")

    def key(self, k, free=False):
        ks = k if isinstance(k, tuple) else (k,)
        out = []
        for x in ks:
            if isinstance(x, (Sym, str, float, Poly)):
                raise Unknown("index")
            if isinstance(x, (list,)):
                x = arr(x)
            if isinstance(x, Arr) and any(c is None or isinstance(c, Poly) for c in x.c) and not (free and all(place(c) for c in x.c)):
                raise Unknown("index of unknown cells")
            out.append(x)
        return tuple(out)

    def t_setitem(self, t, o, i, val):
        v, k, x = self(o), self(i), self(val)
        if isinstance(v, Frame):
            return self.withcol(v, k, x)
        if isinstance(v, Arr):
            if isinstance(x, Sym):
                raise Unknown("assigned object")
            m = k[0] if isinstance(k, tuple) and len(k) == 1 else k
            if isinstance(m, Arr) and any(isinstance(c, Poly) and isbit(c) for c in m.c) and all(isbit(c) for c in m.c):
                y = arr(x)
                if len(y.c) != 1 or m.shape != v.shape:
                    raise Unknown("masked assignment")
                return Arr(v.shape, [pick(c, y.c[0], z) for c, z in zip(m.c, v.c)])
            return C.setitem(v, self.key(k), x)
        if isinstance(v, list) and isinstance(k, int):
            v = list(v)
            v[k] = x
            return v
        if isinstance(v, dict):
            return {**v, k: x}
        raise Unknown("assignment")

    def withcol(self, v, k, x, at=None):
        k = k[0] if isinstance(k, tuple) and len(k) == 1 else k
        if not isinstance(k, str) or k in v.cols:
            raise Unknown("column")
        y = C.broadcast(arr(x).map(lambda c: c) if arr(x).ndim != 2 else C.reshape(arr(x), (arr(x).shape[0],)), (v.x.shape[0],))
        y = C.unsqueeze(y, 1)
        at = len(v.cols) if at is None else at
        parts = [C.getitem(v.x, (slice(None), slice(0, at))), y, C.getitem(v.x, (slice(None), slice(at, None)))]
        return Frame(C.cat([p for p in parts if p.shape[1]], 1), v.cols[:at] + [k] + v.cols[at:])

    def c_DataFrame(self, t, a, k):
        d = k.get("data", a[0] if a else None)
        cols = k.get("columns")
        if isinstance(d, dict):
            xs = [arr(x) for x in d.values()]
            x, own = C.stack([C.reshape(y, (C.size(y.shape),)) for y in xs], 1), list(d)
        elif isinstance(d, Frame):
            x, own = d.x, d.cols
        else:
            x, own = arr(d), None
            if x.ndim == 1:
                x = C.unsqueeze(x, 1)
        h, g = self.heap.get((t, "columns")), self.heap.get((t, "index"))
        if h is not None or g is not None:
            # the names are set later, and may be computed from the number of columns
            self.env[t] = Frame(x, cols or own)
            try:
                cols = self(h) if h is not None else cols
                rows = self(g) if g is not None else k.get("index")
            finally:
                del self.env[t]
        else:
            rows = k.get("index")
        if rows is not None and len(list(rows)) != x.shape[0]:
            raise C.Illshaped(f"{len(list(rows))} names for {x.shape[0]} rows")
        cols = cols if cols is not None else own
        if cols is not None and len(cols) != x.shape[1]:
            raise C.Illshaped(f"{len(cols)} names for {x.shape[1]} columns")
        return Frame(x, cols, rows)

    def c_concat(self, t, a, k):
        fs = self.iterate(a[0] if a else k["objs"])
        d = k.get("dim", k.get("axis", a[1] if len(a) > 1 else 0))
        if d not in (1, "columns") or not all(isinstance(f, Frame) for f in fs):
            raise Unknown("concat")
        if len({f.x.shape[0] for f in fs}) > 1:
            raise C.Illshaped("tables of different length side by side")
        f = Frame(C.cat([f.x for f in fs], 1), [c for f in fs for c in f.cols])
        h = self.heap.get((t, "columns"))
        return Frame(f.x, self(h)) if h is not None else f

    def t_listappend(self, t, o, x):
        v = self(o)
        if not isinstance(v, list):
            raise Unknown("append")
        return v + [self(x)]

    def t_inplace(self, t, name, o, args, kw):
        v = self(o)
        if isinstance(v, Arr) and name.startswith("init."):
            return v
        if isinstance(v, Arr):
            if o.op in ("leaf",) or self.isparam(o):
                return v
            if name == "zero_":
                return v.map(lambda c: 0)
            if name == "fill_":
                x = scalar(self(args[0]))
                return v.map(lambda c: x)
            if name in INITS:
                raise Unknown(name)
            base = name[:-1]
            return self.method(t, base, o, args, kw)
        if isinstance(v, list):
            if name == "append":
                return v + [self(args[0])]
            if name == "extend":
                return v + self.iterate(self(args[0]))
            if name == "insert":
                v = list(v)
                v.insert(self(args[0]), self(args[1]))
                return v
            if name == "reverse":
                return v[::-1]
        if isinstance(v, dict):
            if name == "pop":
                d = dict(v)
                d.pop(self(args[0]), None)
                return d
            if name == "update":
                d = dict(v)
                for x in args:
                    d.update(self(x))
                d.update({k: self(x) for k, x in kw})
                return d
        raise Unknown(name)

    def isparam(self, o):
        while o.op == "inplace":
            o = o.args[1]
        return o.op == "leaf" or o.op == "call" and o.args[0].endswith("nn.Parameter") or o.op == "phi" and self.isparam(o.args[1])

    # -------------------------------------------------------------------------------------------------- calls
    def argvals(self, args, kw):
        return [x for x in self.items(args)], {k: self(v) for k, v in kw if k not in ("device", "requires_grad", "**", "generator", "memory_format", "layout", "pin_memory")}

    def t_vcall(self, t, q, name, recv, bound):
        if self.hooks is not None:
            self.receiver = recv
            return self.hooks(self, name, dict(bound))
        raise Unknown(f"call {name}")

    def t_rcall(self, t, q, bound):
        if self.hooks is not None and hasattr(self.hooks, "h_" + q.rsplit(".", 1)[-1]):
            return self.hooks(self, q.rsplit(".", 1)[-1], dict(bound))
        raise Unknown(f"call {q}")

    def t_call(self, t, name, args, kw, *tag):
        n = name.rsplit(".", 1)[-1]
        if name.endswith("nn.Parameter") or name.endswith("nn.parameter.Parameter"):
            x = args[0] if args else dict(kw).get("data")
            s = arr(self(x)).shape
            return Arr(s, [C.atom("free", f"p{t.id}", i) for i in range(C.size(s))])
        g = getattr(self, "c_" + n, None)
        if g is None:
            raise Unknown(f"call {name}")
        a, k = self.argvals(args, kw)
        return g(t, a, k)

    def dims(self, a):
        if len(a) == 1 and isinstance(a[0], (list, tuple)):
            a = a[0]
        out = []
        for x in a:
            x = scalar(x)
            if not isinstance(x, int):
                raise Unknown("size")
            out.append(x)
        return tuple(out)

    def fillc(self, a, k, v):
        s = self.dims(a if a else [k["size"]])
        dt = self.dtype(k.get("dtype"))
        v = bool(v) if dt is bool else v
        return Arr(s, [v] * C.size(s))

    def dtype(self, d):
        if d is None:
            return None
        if isinstance(d, Sym) and d.t.op == "global":
            return DTYPES.get(d.t.args[0].rsplit(".", 1)[-1])
        if isinstance(d, Sym) and d.t.op == "class":
            return DTYPES.get(d.t.args[0].rsplit(".", 1)[-1])
        return None

    def c_zeros(self, t, a, k):
        return self.fillc(a, k, 0)

    def c_ones(self, t, a, k):
        return self.fillc(a, k, 1)

    def c_empty(self, t, a, k):
        return self.fillc(a, k, 0).map(lambda c: None)

    def c_randn(self, t, a, k):
        return self.c_empty(t, a, k)
    c_rand = c_randn

    def c_randint(self, t, a, k):
        size = k["size"] if "size" in k else a[-1]
        a = [scalar(z) for z in (a if "size" in k else a[:-1])]
        lo = a[0] if len(a) > 1 else k.get("low", 0)
        hi = a[-1] if a and not (len(a) == 1 and "high" in k) else k.get("high")
        lo = a[0] if len(a) == 1 and "high" in k else lo
        x = self.c_empty(t, [size], {})
        if not (isinstance(lo, int) and isinstance(hi, int)):
            return x
        if hi <= lo:
            raise Illshaped(f"a random integer from {lo} to {hi - 1}")
        if DRAWS in self.env:                     # every draw is the given one, where it can be drawn
            return x.map(lambda c: lo + self.env[DRAWS] % (hi - lo))
        return Arr(x.shape, [C.add(C.atom("rand", t.id, i, hi - lo), lo) if hi - lo > 1 else lo for i in range(len(x.c))])

    def c_randn_like(self, t, a, k):
        return arr(a[0]).map(lambda c: None)
    c_rand_like = c_randn_like

    def c_full(self, t, a, k):
        s = self.dims(a[:1] if a else [k["size"]])
        v = scalar(a[1] if len(a) > 1 else k["fill_value"])
        if self.dtype(k.get("dtype")) is bool:
            v = bool(v)
        return Arr(s, [v] * C.size(s))

    def like(self, a, k, v):
        x = arr(a[0] if a else k["input"])
        if self.dtype(k.get("dtype")) is bool or x.isbool() and k.get("dtype") is None:
            v = bool(v)
        return x.map(lambda c: v)

    def c_zeros_like(self, t, a, k):
        return self.like(a, k, 0)

    def c_ones_like(self, t, a, k):
        return self.like(a, k, 1)

    def c_next(self, t, a, k):
        return Sym(t)

    def c_empty_like(self, t, a, k):
        return arr(a[0]).map(lambda c: None)

    def c_full_like(self, t, a, k):
        v = scalar(a[1] if len(a) > 1 else k["fill_value"])
        return arr(a[0]).map(lambda c: v)

    def c_arange(self, t, a, k):
        xs = [scalar(x) for x in a] or [scalar(k[n]) for n in ("start", "end", "step") if n in k]
        if not all(num(x) for x in xs):
            raise Unknown("arange")
        lo, hi, st = (0, xs[0], 1) if len(xs) == 1 else (xs[0], xs[1], xs[2] if len(xs) > 2 else 1)
        n = max(0, math.ceil((hi - lo) / st))
        return arr([lo + i * st for i in range(n)]) if n else Arr((0,), [])

    def c_linspace(self, t, a, k):
        lo, hi, n = [scalar(x) for x in (list(a) + [k[q] for q in ("start", "end", "steps") if q in k])[:3]]
        w = C.add(hi, C.neg(lo))
        return arr([C.add(lo, C.mul(w, Fraction(i, n - 1))) if n > 1 else lo for i in range(n)])

    def c_eye(self, t, a, k):
        n = scalar(a[0])
        m = scalar(a[1]) if len(a) > 1 else n
        return Arr((n, m), [1 if i == j else 0 for i in range(n) for j in range(m)])

    def c_tensor(self, t, a, k):
        v = a[0] if a else k["data"]
        if isinstance(v, Sym):
            raise Unknown("tensor of an object")
        r = arr(list(v) if isinstance(v, range) else v)
        dt = self.dtype(k.get("dtype"))
        return r.map(cast(dt)) if dt else r
    c_as_tensor = c_asarray = c_array = c_from_numpy = c_tensor

    def c_Tensor(self, t, a, k):
        if a and isinstance(a[0], (list, tuple)):
            return arr(a[0])
        return self.fillc(a, {}, 0).map(lambda c: None)
    c_FloatTensor = c_LongTensor = c_Tensor

    def c_cat(self, t, a, k):
        xs = [arr(x) for x in self.iterate(a[0])]
        d = scalar(a[1] if len(a) > 1 else k.get("dim", 0))
        xs = [x for x in xs if x.shape != (0,) or len(xs) == 1] or xs[:1]
        return C.cat(xs, d)
    c_concatenate = c_cat

    def c_hstack(self, t, a, k):
        xs = [arr(x) for x in self.iterate(a[0])]
        return C.cat(xs, 0 if xs[0].ndim <= 1 else 1)

    def c_vstack(self, t, a, k):
        xs = [arr(x) for x in self.iterate(a[0])]
        return C.cat([C.unsqueeze(x, 0) if x.ndim == 1 else x for x in xs], 0)

    def c_stack(self, t, a, k):
        return C.stack([arr(x) for x in self.iterate(a[0])], scalar(a[1] if len(a) > 1 else k.get("dim", 0)))

    def c_einsum(self, t, a, k):
        xs = a[1:]
        if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
            xs = xs[0]
        return C.einsum(a[0], [arr(x) for x in xs])

    def c_solve(self, t, a, k):
        """linear systems of at most two unknowns by Cramer's rule"""
        A, b = arr(a[0]), arr(a[1])
        n = A.shape[-1]
        if A.ndim != 3 or b.ndim != 3 or A.shape[:2] != b.shape[:2] or b.shape[1] != n or n > 2:
            raise Unknown("solve")
        m, out = b.shape[2], []
        for i in range(A.shape[0]):
            M, r = A.c[i * n * n:(i + 1) * n * n], b.c[i * n * m:(i + 1) * n * m]
            if n == 1:
                out += [C.div(x, M[0]) for x in r]
                continue
            sub = lambda x, y: C.add(x, C.neg(y))
            det = C.inv(sub(C.mul(M[0], M[3]), C.mul(M[1], M[2])))
            out += [C.mul(det, sub(C.mul(r[j], M[3]), C.mul(M[1], r[m + j]))) for j in range(m)]
            out += [C.mul(det, sub(C.mul(M[0], r[m + j]), C.mul(r[j], M[2]))) for j in range(m)]
        return Arr(b.shape, out)

    def c_inverse(self, t, a, k):
        x = arr(a[0])
        n = x.shape[-1]
        if x.ndim != 2 or x.shape[0] != n or n > 2:
            raise Unknown("inverse")
        if n == 1:
            return Arr((1, 1), [C.inv(x.c[0])])
        p, q, r, s = x.c
        det = C.inv(C.add(C.mul(p, s), C.neg(C.mul(q, r))))
        return Arr((2, 2), [C.mul(det, c) for c in (s, C.neg(q), C.neg(r), p)])
    c_inv = c_inverse

    def c_outer(self, t, a, k):
        return C.einsum("i,j->ij", [arr(a[0]), arr(a[1])])

    def c_tensordot(self, t, a, k):
        d = k.get("dim", k.get("dims", a[2] if len(a) > 2 else 2))
        x, y = arr(a[0]), arr(a[1])
        if isinstance(d, int):
            dx, dy = list(range(x.ndim - d, x.ndim)), list(range(d))
        else:
            dx, dy = [[C.axis(z, e) for e in (q if isinstance(q, (list, tuple)) else [q])] for z, q in zip((x, y), d)]
        lx, ly = [chr(97 + i) for i in range(x.ndim)], [chr(65 + i) for i in range(y.ndim)]
        for i, j in zip(dx, dy):
            ly[j] = lx[i]
        out = [c for i, c in enumerate(lx) if i not in dx] + [c for j, c in enumerate(ly) if j not in dy]
        return C.einsum("".join(lx) + "," + "".join(ly) + "->" + "".join(out), [x, y])

    def c_Normal(self, t, a, k):
        z = dict(zip(("loc", "scale"), a))
        z.update(k)
        return Normal(arr(z["loc"]), arr(z["scale"]))

    def c_MultivariateNormal(self, t, a, k):
        z = dict(zip(("loc", "covariance_matrix"), a))
        z.update(k)
        if set(z) - {"loc", "covariance_matrix"}:
            raise Unknown("a distribution")
        return MultivariateNormal(self, arr(z["loc"]), arr(z["covariance_matrix"]))

    def c_KLDivLoss(self, t, a, k):
        return Divergence(a[2] if len(a) > 2 else k.get("reduction", "mean"), k.get("log_target", False))

    def c_kl_div(self, t, a, k):
        z = dict(zip(("input", "target", "size_average", "reduce", "reduction", "log_target"), a))
        z.update(k)
        return Divergence(z.get("reduction", "mean"), z.get("log_target", False)).d___call__(z["input"], z["target"])

    def c_hermgauss(self, t, a, k):
        n = scalar(a[0] if a else k["deg"])
        rule = {1: ((0.0,), (1,)), 2: ((-0.5 ** 0.5, 0.5 ** 0.5), (0.5, 0.5)), 3: ((-1.5 ** 0.5, 0.0, 1.5 ** 0.5), (1 / 6, 2 / 3, 1 / 6))}.get(n)
        if rule is None:
            raise Unknown("quadrature rule")
        return arr(list(rule[0])), arr([w * math.pi ** 0.5 for w in rule[1]])

    def c_cholesky(self, t, a, k):
        x = arr(a[0])
        if len(a) > 1 or k:
            raise Unknown("cholesky options")
        if x.ndim != 2 or x.shape[0] != x.shape[1] or x.shape[0] > 2:
            raise Unknown("cholesky")
        r = C.fn("sqrt", x.c[0])
        if x.shape[0] == 1:
            return Arr((1, 1), [r])
        b = C.div(x.c[2], r)
        return Arr((2, 2), [r, 0, b, C.fn("sqrt", C.add(x.c[3], C.neg(C.mul(b, b))))])

    def c_product(self, t, a, k):
        if "repeat" in k:
            a = list(a) * scalar(k.pop("repeat"))
        if k:
            raise Unknown("product")
        return [tuple(z) for z in itertools.product(*[list(self.iterate(x)) for x in a])]

    def c_cartesian_prod(self, t, a, k):
        xs = [arr(x) for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)]
        if len(xs) == 1:
            return xs[0]
        rows = list(itertools.product(*[x.c for x in xs]))
        return Arr((len(rows), len(xs)), [c for r in rows for c in r])

    def c_maximum(self, t, a, k):
        return C.zipmap(lambda x, y: extreme([x, y], 1), a[0], a[1])

    def c_minimum(self, t, a, k):
        return C.zipmap(lambda x, y: extreme([x, y], -1), a[0], a[1])

    def c_meshgrid(self, t, a, k):
        xs = [arr(x) for x in (a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)]
        s = tuple(len(x.c) for x in xs)
        out = []
        for d, x in enumerate(xs):
            out.append(C.broadcast(C.reshape(x, tuple(s[d] if i == d else 1 for i in range(len(s)))), s))
        if k.get("indexing") == "xy":
            raise Unknown("meshgrid")
        return tuple(out)

    def c_broadcast_to(self, t, a, k):
        return C.broadcast(arr(a[0]), self.dims(a[1:]))

    def c_complex(self, t, a, k):
        raise Unknown("complex")

    # python builtins
    def c_len(self, t, a, k):
        v = a[0]
        if isinstance(v, Arr):
            return v.shape[0]
        if isinstance(v, (list, tuple, dict, str, range)):
            return len(v)
        raise Unknown("len")

    def c_int(self, t, a, k):
        v = scalar(a[0])
        return int(v) if num(v) or isinstance(v, str) else self.fail("int")

    def c_float(self, t, a, k):
        v = scalar(a[0])
        if isinstance(v, str):
            return float(v)
        return v if isinstance(v, Poly) else float(v) if num(v) else self.fail("float")

    def c_bool(self, t, a, k):
        v = scalar(a[0])
        return bool(v) if num(v) else self.fail("bool")

    def c_str(self, t, a, k):
        return str(a[0]) if num(a[0]) or isinstance(a[0], str) else self.fail("str")

    def fail(self, why):
        raise Unknown(why)

    def minmax(self, a, k, best):
        xs = self.iterate(a[0]) if len(a) == 1 else list(a)
        xs = [scalar(x) for x in xs]
        if not xs:
            return k.get("default", self.fail("empty") if "default" not in k else None)
        if not all(num(x) for x in xs):
            raise Unknown("max")
        return max(xs) if best > 0 else min(xs)

    def c_max(self, t, a, k):
        return self.minmax(a, k, 1)

    def c_min(self, t, a, k):
        return self.minmax(a, k, -1)

    def c_sum(self, t, a, k):
        r = a[1] if len(a) > 1 else k.get("start", 0)
        for x in self.iterate(a[0]):
            r = self.binop("+", r, x)
        return r

    def c_prod(self, t, a, k):
        r = 1
        for x in self.iterate(a[0]):
            r = self.binop("*", r, x)
        return r

    def c_abs(self, t, a, k):
        v = a[0]
        return v.map(lambda c: C.fn("abs", c)) if isinstance(v, Arr) else C.fn("abs", v)

    def c_round(self, t, a, k):
        return round(scalar(a[0]))

    def c_range(self, t, a, k):
        xs = [scalar(x) for x in a]
        if not all(isinstance(x, int) for x in xs):
            raise Unknown("range")
        return range(*xs)

    def c_list(self, t, a, k):
        return list(self.iterate(a[0])) if a else []

    def c_tuple(self, t, a, k):
        return tuple(self.iterate(a[0])) if a else ()

    def c_sorted(self, t, a, k):
        xs = [scalar(x) for x in self.iterate(a[0])]
        if not all(num(x) for x in xs) or "key" in k:
            raise Unknown("sorted")
        return sorted(xs, reverse=bool(k.get("reverse", False)))

    def c_reversed(self, t, a, k):
        return list(self.iterate(a[0]))[::-1]

    def c_set(self, t, a, k):
        return sorted({scalar(x) for x in self.iterate(a[0])}) if a else []

    def c_zip(self, t, a, k):
        return [tuple(x) for x in zip(*[self.iterate(x) for x in a])]

    def c_enumerate(self, t, a, k):
        s = a[1] if len(a) > 1 else k.get("start", 0)
        return [(i + s, x) for i, x in enumerate(self.iterate(a[0]))]

    def c_divmod(self, t, a, k):
        return divmod(scalar(a[0]), scalar(a[1]))

    def c_all(self, t, a, k):
        vs = [scalar(x) for x in self.iterate(a[0])] if not isinstance(a[0], Arr) else a[0].c
        return self.everyc(vs)

    def c_any(self, t, a, k):
        vs = [scalar(x) for x in self.iterate(a[0])] if not isinstance(a[0], Arr) else a[0].c
        return self.somec(vs)

    def everyc(self, vs):
        vs = [truthy(v) for v in vs]
        if any(v is False for v in vs):
            return False
        if all(v is True for v in vs):
            return True
        raise Unknown("all")

    def somec(self, vs):
        vs = [truthy(v) for v in vs]
        if any(v is True for v in vs):
            return True
        if all(v is False for v in vs):
            return False
        raise Unknown("any")

    def c_isinstance(self, t, a, k):
        v, c = a
        names = {x.t.args[0].rsplit(".", 1)[-1] for x in (c if isinstance(c, tuple) else (c,)) if isinstance(x, Sym)}
        if isinstance(v, Arr):
            return bool(names & {"Tensor"}) if names & {"Tensor", "list", "int", "tuple", "float", "str"} else self.fail("isinstance")
        for ty, n in ((bool, "bool"), (int, "int"), (float, "float"), (str, "str"), (list, "list"), (tuple, "tuple"), (dict, "dict")):
            if type(v) is ty:
                return n in names or n == "bool" and "int" in names
        if v is None:
            return False
        raise Unknown("isinstance")

    def c_sqrt(self, t, a, k):
        v = a[0]
        return v.map(lambda c: C.fn("sqrt", c)) if isinstance(v, Arr) else C.fn("sqrt", v)

    def c_log(self, t, a, k):
        v = a[0]
        return v.map(C.log) if isinstance(v, Arr) else C.log(v)

    def c_log2(self, t, a, k):
        f = lambda c: C.mul(C.log(c), 1 / math.log(2))
        return a[0].map(f) if isinstance(a[0], Arr) else f(a[0])

    def c_log10(self, t, a, k):
        f = lambda c: C.mul(C.log(c), 1 / math.log(10))
        return a[0].map(f) if isinstance(a[0], Arr) else f(a[0])

    def c_exp(self, t, a, k):
        v = a[0]
        return v.map(C.exp) if isinstance(v, Arr) else C.exp(v)

    def c_ceil(self, t, a, k):
        return math.ceil(a[0]) if num(a[0]) else self.fail("ceil")

    def c_floor(self, t, a, k):
        return math.floor(a[0]) if num(a[0]) else self.fail("floor")

    def c_device(self, t, a, k):
        return Sym(t)

    def c_b_spline_basis(self, t, a, k):
        x, knots, degree = (list(a) + [k[n] for n in ("x", "knots", "degree") if n in k])[:3]
        x, knots = arr(x), arr(knots)
        degree = scalar(degree)
        nb = len(knots.c) - degree - 1
        if x.ndim != 1 or any(not num(c) for c in knots.c):
            raise Unknown("basis")
        key = tuple(float(c) for c in knots.c)
        out = []
        for c in x.c:
            for j in range(nb):
                out.append(None if c is None or not isinstance(c, Poly) else C.atom("basis", c, j, key, degree))
        return Arr((len(x.c), nb), out)

    # -------------------------------------------------------------------------------------------------- methods
    def t_meth(self, t, name, o, args, kw, *tag):
        if o.op == "class" or o.op == "global":
            if name == "apply":
                return self.apply(t, o, args, kw)
        return self.method(t, name, o, args, kw)

    def apply(self, t, o, args, kw):
        """custom autograd function: its forward"""
        q = o.args[0]
        f = self.p.find_method(q, "forward") if q in self.p.classes else None
        if f is None:
            raise Unknown("apply")
        names = [n for n in f.posnames if n not in ("ctx", "self")]
        if not f.is_static or "ctx" in f.posnames:
            raise Unknown("apply")
        r = self.lib.run(f)
        if r is None or r.value is None:
            raise Unknown("apply")
        a, k = self.argvals(args, kw)
        vals = dict(zip(names, a))
        vals.update(k)
        for n in names:
            if n not in vals:
                d = f.defaults.get(n) if hasattr(f, "defaults") and isinstance(f.defaults, dict) else None
                if d is None:
                    raise Unknown("apply")
        # a function of one tensor that works on every cell alone is a function of one value
        tens = [n for n in names if isinstance(vals[n], Arr)]
        if len(tens) == 1 and vals[tens[0]].ndim >= 1:
            v = self.cellwise(q, f, r, tens[0], {n: x for n, x in vals.items() if n != tens[0]}, vals[tens[0]])
            if v is not None:
                return v
        e = Eval(self.lib, {r.params[n]: vals[n] for n in names if n in r.params})
        e.interp = r.interp
        return e(r.value)

    def cellwise(self, q, f, r, x, other, v):
        if not all(num(o) for o in other.values()):
            return None
        name = q.rsplit(".", 1)[-1] + "".join(f"[{k}={o}]" for k, o in sorted(other.items()))
        if name not in C.FN:
            try:
                pw = piecewise(self.lib, r, x, other)
            except Unknown:
                pw = None
            if pw is None:
                return None
            C.FN[name] = (pw["lo"], pw["hi"], pw["dir"])
            C.NUM[name] = pw["f"]
        return v.map(lambda c: C.fn(name, c))

    def method(self, t, name, o, args, kw):
        v = self(o)
        if isinstance(v, Sym):
            if name in ("to", "type"):
                return v
            if name in ("parameters", "buffers"):
                return Sym(t)
            raise Unknown(f"method {name} of an object")
        a, k = self.argvals(args, kw)
        if isinstance(v, (list, tuple, dict, str)) and not isinstance(v, Arr):
            return self.pymethod(name, v, a, k)
        if isinstance(v, Distribution):
            return v.method(name, a, k)
        if isinstance(v, Frame):
            if name in ("copy", "round"):
                return v
            if name == "to_numpy":
                return v.x
            raise Unknown(f"method {name} of a table")
        if name in ("item",) and not isinstance(v, Arr):
            return v
        x = arr(v)
        g = getattr(self, "m_" + name, None)
        if g is not None:
            return g(x, a, k)
        if name in NOOP:
            return x
        if name in UNARY:
            if name == "elu" and (a or "alpha" in k) and (a[0] if a else k["alpha"]) != 1:
                raise Unknown("elu")
            if name == "softplus" and any(z in k and z == "beta" and k[z] != 1 for z in k):
                raise Unknown("softplus")
            return x.map(lambda c: C.fn(UNARY[name], c))
        raise Unknown(f"method {name}")

    def pymethod(self, name, v, a, k):
        if isinstance(v, list):
            if name == "index":
                return v.index(a[0])
            if name == "count":
                return v.count(a[0])
            if name == "copy":
                return list(v)
            if name == "append":
                return None
        if isinstance(v, tuple) and name == "numel":
            return C.size(v)
        if isinstance(v, dict):
            if name == "copy":
                return dict(v)
            if name in ("pop", "get") and a[0] in v:
                return v[a[0]]
            if name in ("pop", "get") and len(a) > 1:
                return a[1]
            if name in ("keys",):
                return list(v)
            if name == "values":
                return list(v.values())
            if name == "items":
                return list(v.items())
            if name == "get":
                return v.get(a[0], a[1] if len(a) > 1 else None)
        if isinstance(v, str) and name in ("lower", "upper", "strip"):
            return getattr(v, name)()
        raise Unknown(f"method {name}")

    def red(self, f, x, a, k):
        d = k.get("dim", a[0] if a else None)
        return C.fold(f, x, d, bool(k.get("keepdim", False)))

    def m_sum(self, x, a, k):
        return self.red(C.total, x, a, k)

    def m_nansum(self, x, a, k):
        return self.red(lambda r: None if any(c is None for c in r) else C.total([c for c in r if c == c]), x, a, k)

    def m_mean(self, x, a, k):
        return self.red(lambda r: C.mul(C.total(r), Fraction(1, len(r))), x, a, k)

    def m_nanmean(self, x, a, k):
        def f(r):
            if any(c is None for c in r):
                return None
            r = [c for c in r if c == c]
            return C.mul(C.total(r), Fraction(1, len(r))) if r else float("nan")
        return self.red(f, x, a, k)

    def m_var(self, x, a, k):
        n = k.get("correction", 1 if k.get("unbiased", True) else 0)

        def f(r):
            if any(c is None for c in r):
                return None
            if len(r) <= n:
                return float("nan")
            m = C.neg(C.mul(C.total(r), Fraction(1, len(r))))
            return C.mul(C.total([C.power(C.add(c, m), 2) for c in r]), Fraction(1, len(r) - n))
        return self.red(f, x, a, k)

    def m_std(self, x, a, k):
        return self.m_var(x, a, k).map(lambda c: C.fn("sqrt", c))

    def m_quantile(self, x, a, k):
        q = arr(a[0] if a else k["q"])
        d = k.get("dim", a[1] if len(a) > 1 else None)
        keep = k.get("keepdim", a[2] if len(a) > 2 else False)
        if k.get("interpolation", "linear") != "linear" or q.ndim > 1 or not all(num(c) for c in q.c):
            raise Unknown("quantile")

        def f(p):
            def g(r):
                if not all(num(c) for c in r):
                    return None
                if any(c != c for c in r):
                    return float("nan")
                r = sorted(r)
                z = p * (len(r) - 1)
                i = int(z)
                return r[i] + (z - i) * (r[min(i + 1, len(r) - 1)] - r[i])
            return g
        outs = []
        for p in q.c:
            v = C.fold(f(p), x, d)
            if keep and d is not None:
                v = C.unsqueeze(v, C.axis(x, scalar(d)))
            outs.append(v)
        return outs[0] if q.ndim == 0 else C.stack([arr(v) for v in outs], 0)

    def m_median(self, x, a, k):
        d = k.get("dim", a[0] if a else None)

        def f(r):
            if not all(num(c) for c in r):
                return None
            return float("nan") if any(c != c for c in r) else sorted(r)[(len(r) - 1) // 2]
        v = C.fold(f, x, d)
        return v if d is None else Pair((v, C.fold(lambda r: None if f(r) is None else next((i for i, c in enumerate(r) if c == f(r)), None), x, d)))

    def m_bincount(self, x, a, k):
        if x.ndim != 1 or not all(isinstance(c, int) for c in x.c):
            raise Unknown("bincount")
        if any(c < 0 for c in x.c):
            raise C.Illshaped("bincount of negative values")
        n = max([int(scalar(k.get("minlength", a[1] if len(a) > 1 else 0)))] + [c + 1 for c in x.c])
        w = k.get("weights", a[0] if a and a[0] is not None else None)
        if w is not None:
            return Arr((n,), [C.total([u for u, c in zip(arr(w).c, x.c) if c == i]) for i in range(n)])
        return Arr((n,), [sum(c == i for c in x.c) for i in range(n)])

    def m_diag(self, x, a, k):
        if x.ndim == 2 and not a and not k:
            return Arr((min(x.shape),), [x.c[i * x.shape[1] + i] for i in range(min(x.shape))])
        if x.ndim == 1 and not a and not k:
            n = x.shape[0]
            return Arr((n, n), [x.c[i] if i == j else 0 for i in range(n) for j in range(n)])
        raise Unknown("diag")

    def m_fill_diagonal(self, x, a, k):
        v = scalar(a[0] if a else k["fill_value"])
        if x.ndim != 2:
            raise Unknown("fill_diagonal")
        n = x.shape[1]
        return Arr(x.shape, [v if i // n == i % n else c for i, c in enumerate(x.c)])

    def m_allclose(self, x, a, k):
        d = C.zipmap(lambda u, v: C.add(u, C.neg(v)), x, arr(a[0]))
        if all(num(c) for c in d.c):
            return all(abs(float(c)) < 1e-5 for c in d.c)
        if any(c is None or C.special(c) for c in d.c):
            raise Unknown("allclose")
        ds = [C.reduce(c) for c in d.c]
        if all(num(c) and abs(float(c)) < 1e-5 for c in ds):
            return True
        raise Unknown("allclose")

    def m_prod(self, x, a, k):
        return self.red(C.product, x, a, k)

    def extr(self, x, a, k, best):
        d = k.get("dim", a[0] if a else None)
        if d is None:
            return Arr((), [largest(x.c, best)])
        if isinstance(d, Arr):
            return C.zipmap(lambda u, w: extreme([u, w], best), x, d)
        v = C.fold(lambda r: largest(r, best), x, d, bool(k.get("keepdim", False)))

        def pos(r):
            e = extreme(r, best)
            if e is None:
                return C.atom("arg", best, tuple(r)) if all(c is not None and not C.special(c) for c in r) else None
            return next((i for i, c in enumerate(r) if same(c, e)), None)
        return Pair((v, C.fold(pos, x, d, bool(k.get("keepdim", False)))))

    def m_max(self, x, a, k):
        return self.extr(x, a, k, 1)

    def m_min(self, x, a, k):
        return self.extr(x, a, k, -1)

    def m_amax(self, x, a, k):
        return self.red(lambda r: largest(r, 1), x, a, k)

    def m_amin(self, x, a, k):
        return self.red(lambda r: largest(r, -1), x, a, k)

    def m_argmax(self, x, a, k):
        d = k.get("dim", a[0] if a else None)
        if d is None:
            x, d = Arr((len(x.c),), x.c), 0
        return self.extr(x, [], {"dim": d, **{q: w for q, w in k.items() if q == "keepdim"}}, 1)[1]

    def m_argmin(self, x, a, k):
        d = k.get("dim", a[0] if a else None)
        if d is None:
            x, d = Arr((len(x.c),), x.c), 0
        return self.extr(x, [], {"dim": d}, -1)[1]

    def m_all(self, x, a, k):
        d = k.get("dim", a[0] if a else None)
        if d is None:
            return Arr((), [self.everyc(x.c)])
        return C.fold(self.everyc, x, d, bool(k.get("keepdim", False)))

    def m_any(self, x, a, k):
        d = k.get("dim", a[0] if a else None)
        if d is None:
            return Arr((), [self.somec(x.c)])
        return C.fold(self.somec, x, d, bool(k.get("keepdim", False)))

    def m_count_nonzero(self, x, a, k):
        return self.red(lambda r: sum(self.known(truthy(c)) for c in r), x, a, k)

    def known(self, c):
        if not isinstance(c, bool):
            raise Unknown("truth")
        return c

    def m_cumsum(self, x, a, k):
        return C.scan(C.add, x, scalar(k.get("dim", a[0] if a else None)))

    def m_cumprod(self, x, a, k):
        return C.scan(C.mul, x, scalar(k.get("dim", a[0] if a else None)))

    def rows(self, f, x, a, k):
        d = C.axis(x, scalar(k.get("dim", a[0] if a else None)))
        s, rs = C.lanes(x, d)
        return C.unlanes(s, [f(r) for r in rs], d, x.ndim)

    def m_softmax(self, x, a, k):
        return self.rows(C.softmax_row, x, a, k)

    def m_log_softmax(self, x, a, k):
        return self.rows(lambda r: [C.log(c) for c in C.softmax_row(r)], x, a, k)

    def m_nll_loss(self, x, a, k, soft=False):
        y = k.get("target", a[0] if a else None)
        if any(n in k for n in ("weight", "label_smoothing")) or len(a) > 1:
            raise Unknown("weighted cross entropy")
        y, ignore = arr(y), k.get("ignore_index", -100)
        ignore = scalar(ignore)
        if len(x.shape) == 1 and len(y.shape) == 0:
            x, y = Arr((1,) + x.shape, x.c), Arr((1,), y.c)
        if len(x.shape) != 2 or len(y.shape) != 1:
            raise Unknown("cross entropy of these shapes")
        if x.shape[0] != y.shape[0]:
            raise Illshaped(f"{y.shape[0]} targets for {x.shape[0]} rows")
        n, out, used = x.shape[1], [], 0
        for i, c in enumerate(y.c):
            if c is None or isinstance(c, Poly):
                raise Unknown("target")
            if c == ignore:
                out.append(0)
                continue
            if c != c or c < 0 or c >= n:
                raise Illshaped(f"target {c} for {n} categories")
            row = x.c[i * n:(i + 1) * n]
            used += 1
            out.append(C.neg(C.log(C.softmax_row(row)[int(c)]) if soft else row[int(c)]))
        how = k.get("reduction", "mean")
        if how == "none":
            return Arr((len(out),), out)
        if how == "sum":
            return Arr((), [C.total(out)])
        if how == "mean":
            return Arr((), [C.mul(C.total(out), Fraction(1, used)) if used else float("nan")])
        raise Illshaped(f"reduction {how}")

    def m_cross_entropy(self, x, a, k):
        return self.m_nll_loss(x, a, k, True)

    def m_logsumexp(self, x, a, k):
        return self.red(lambda r: C.log(C.total([C.exp(c) for c in r])), x, a, k)

    def m_flip(self, x, a, k):
        d = k.get("dims", a[0] if a else None)
        for e in (d if isinstance(d, (list, tuple)) else [d]):
            x = self.rows(lambda r: r[::-1], x, [], {"dim": e})
        return x

    def m_roll(self, x, a, k):
        s, d = k.get("shifts", a[0] if a else None), k.get("dims", k.get("dim", a[1] if len(a) > 1 else None))
        s = scalar(s[0] if isinstance(s, tuple) else s)
        if d is None:
            return Arr(x.shape, x.c[-s:] + x.c[:-s])
        d = d[0] if isinstance(d, tuple) else d
        return self.rows(lambda r: r[-(s % len(r)):] + r[:-(s % len(r))] if s % len(r) else r, x, [], {"dim": d})

    def m_diff(self, x, a, k):
        d = scalar(k.get("dim", -1))
        return self.rows(lambda r: [C.add(v, C.neg(u)) for u, v in zip(r, r[1:])], x, [], {"dim": d})

    def m_deg2rad(self, x, a, k):
        return x.map(lambda c: C.mul(c, math.pi / 180))

    def m_rad2deg(self, x, a, k):
        return x.map(lambda c: C.mul(c, 180 / math.pi))

    def m_exp(self, x, a, k):
        return x.map(C.exp)

    def m_expm1(self, x, a, k):
        return x.map(lambda c: C.add(C.exp(c), -1))

    def m_log(self, x, a, k):
        return x.map(C.log)

    def m_log2(self, x, a, k):
        return self.c_log2(None, [x], {})

    def m_log10(self, x, a, k):
        return self.c_log10(None, [x], {})

    def m_reciprocal(self, x, a, k):
        return x.map(C.inv)

    def m_reshape(self, x, a, k):
        s = a if a else k.get("shape")
        if isinstance(s, (list, tuple)) and len(s) == 1 and isinstance(s[0], (list, tuple)):
            s = s[0]
        return C.reshape(x, [scalar(v) for v in s])
    m_view = m_reshape

    def m_view_as(self, x, a, k):
        return C.reshape(x, a[0].shape)
    m_reshape_as = m_view_as

    def m_flatten(self, x, a, k):
        s, e = k.get("start_dim", a[0] if a else 0), k.get("end_dim", a[1] if len(a) > 1 else -1)
        if not x.ndim:
            return C.reshape(x, (1,))
        s, e = C.axis(x, s), C.axis(x, e)
        return C.reshape(x, x.shape[:s] + (C.size(x.shape[s:e + 1]),) + x.shape[e + 1:])

    def m_ravel(self, x, a, k):
        return C.reshape(x, (-1,))

    def m_unsqueeze(self, x, a, k):
        return C.unsqueeze(x, scalar(k.get("dim", a[0] if a else None)))

    def m_squeeze(self, x, a, k):
        d = k.get("dim", a[0] if a else None)
        if d is None:
            return C.reshape(x, [s for s in x.shape if s != 1])
        ds = {C.axis(x, e) for e in (d if isinstance(d, (list, tuple)) else [d])}
        return C.reshape(x, [s for i, s in enumerate(x.shape) if not (i in ds and s == 1)])

    def m_transpose(self, x, a, k):
        d0, d1 = k.get("dim0", a[0] if a else None), k.get("dim1", a[1] if len(a) > 1 else None)
        d0, d1 = C.axis(x, d0), C.axis(x, d1)
        o = list(range(x.ndim))
        o[d0], o[d1] = d1, d0
        return C.permute(x, o)

    def m_permute(self, x, a, k):
        o = a if a else k.get("dims", k.get("dim"))
        if len(o) == 1 and isinstance(o[0], (list, tuple)):
            o = o[0]
        return C.permute(x, list(o))

    def m_movedim(self, x, a, k):
        s, d = C.axis(x, a[0]), C.axis(x, a[1])
        o = [i for i in range(x.ndim) if i != s]
        o.insert(d, s)
        return C.permute(x, o)

    def m_repeat_interleave(self, x, a, k):
        return C.repeat_interleave(x, k.get("repeats", a[0] if a else None), k.get("dim", a[1] if len(a) > 1 else None))

    def m_repeat(self, x, a, k):
        return C.tile(x, self.dims(a if a else [k["repeats"]]))
    m_tile = m_repeat

    def m_expand(self, x, a, k):
        s = list(self.dims(a if a else [k["size"]]))
        n = len(s)
        src = (1,) * (n - x.ndim) + x.shape
        return C.broadcast(x, [src[i] if v == -1 else v for i, v in enumerate(s)])

    def m_expand_as(self, x, a, k):
        return C.broadcast(x, a[0].shape)

    def m_broadcast_to(self, x, a, k):
        return C.broadcast(x, self.dims(a))

    def m_gather(self, x, a, k):
        return C.gather(x, scalar(k.get("dim", a[0] if a else None)), k.get("index", a[1] if len(a) > 1 else None))

    def m_take_along_dim(self, x, a, k):
        return C.gather(x, scalar(k.get("dim", a[1] if len(a) > 1 else None)), a[0])

    def m_scatter(self, x, a, k):
        src = k.get("src", k.get("value", a[2] if len(a) > 2 else None))
        return C.scatter(x, scalar(k.get("dim", a[0] if a else None)), arr(k.get("index", a[1] if len(a) > 1 else None)), src)

    def m_scatter_add(self, x, a, k):
        return C.scatter(x, scalar(k.get("dim", a[0] if a else None)), arr(k.get("index", a[1] if len(a) > 1 else None)), k.get("src", a[2] if len(a) > 2 else None), plus=True)

    def m_index_select(self, x, a, k):
        d = C.axis(x, scalar(k.get("dim", a[0] if a else None)))
        return C.getitem(x, (slice(None),) * d + (arr(k.get("index", a[1] if len(a) > 1 else None)),))

    def m_index_fill(self, x, a, k):
        d = C.axis(x, scalar(k.get("dim", a[0] if a else None)))
        return C.setitem(x, (slice(None),) * d + (arr(k.get("index", a[1] if len(a) > 1 else None)),), k.get("value", a[2] if len(a) > 2 else None))

    def m_select(self, x, a, k):
        d = C.axis(x, scalar(k.get("dim", a[0] if a else None)))
        return C.getitem(x, (slice(None),) * d + (scalar(k.get("index", a[1] if len(a) > 1 else None)),))

    def m_narrow(self, x, a, k):
        d, s, n = C.axis(x, k.get("dim", a[0] if a else None)), k.get("start", a[1] if len(a) > 1 else None), k.get("length", a[2] if len(a) > 2 else None)
        return C.getitem(x, (slice(None),) * d + (slice(s, s + n),))

    def m_masked_fill(self, x, a, k):
        m, v = k.get("mask", a[0] if a else None), k.get("value", a[1] if len(a) > 1 else None)
        v = scalar(v)
        return C.zipmap(lambda c, u: pick(c, v, u), m, x)

    def m_masked_scatter(self, x, a, k):
        m, src = k.get("mask", a[0] if a else None), arr(k.get("source", a[1] if len(a) > 1 else None))
        m = C.broadcast(arr(m), x.shape)
        if not all(isinstance(c, bool) for c in m.c):
            raise Unknown("mask")
        if sum(m.c) > len(src.c):
            raise C.Illshaped(f"masked_scatter of {len(src.c)} values into {sum(m.c)} places")
        it = iter(src.c)
        return Arr(x.shape, [next(it) if b else c for b, c in zip(m.c, x.c)])

    def m_new_zeros(self, x, a, k):
        return self.fillc(a, dict({"dtype": None}, **k) if not x.isbool() else k, False if x.isbool() and not k.get("dtype") else 0)

    def m_new_ones(self, x, a, k):
        return self.fillc(a, k, True if x.isbool() and not k.get("dtype") else 1)

    def m_new_empty(self, x, a, k):
        return self.fillc(a, k, 0).map(lambda c: None)

    def m_new_full(self, x, a, k):
        return self.c_full(None, a, k)

    def m_new_tensor(self, x, a, k):
        return self.c_tensor(None, a, k)

    def m_addmm(self, x, a, k):
        if k:
            raise Unknown("addmm")
        return C.zipmap(C.add, x, C.matmul(arr(a[0]), arr(a[1])))
    m_baddbmm = m_addmm
    m_addmv = m_addmm

    def m_masked_select(self, x, a, k):
        m = k.get("mask", a[0] if a else None)
        return C.getitem(x, self.key(C.broadcast(m, x.shape)))

    def m_clamp(self, x, a, k):
        lo, hi = k.get("min", a[0] if a else None), k.get("max", a[1] if len(a) > 1 else None)
        for b, s in ((lo, 1), (hi, -1)):
            if isinstance(b, Arr) and len(b.c) > 1:
                x = C.zipmap(lambda u, v: None if u is None or v is None else extreme([u, v], s), x, b)
        lo, hi = [None if isinstance(b, Arr) and len(b.c) > 1 else b for b in (lo, hi)]

        def f(c):
            if c is None:
                return None
            if lo is not None:
                c = extreme([c, scalar(lo)], 1)
            if hi is not None and c is not None:
                c = extreme([c, scalar(hi)], -1)
            return c
        return x.map(f)

    def m_float(self, x, a, k):
        return x.map(cast(float))
    m_double = m_half = m_float

    def m_int(self, x, a, k):
        return x.map(cast(int))
    m_long = m_short = m_int

    def m_inverse(self, x, a, k):
        return self.c_inverse(None, [x], {})

    def m_round(self, x, a, k):
        d = scalar(a[0] if a else k.get("decimals", 0))
        if d and not all(num(c) for c in x.c):
            raise Unknown("round")
        return x.map(lambda c: c if c is None or C.special(c) else (round(c, d) if d else round(c)) if num(c) else C.fn("round", c))

    def m_bool(self, x, a, k):
        return x.map(cast(bool))

    def m_to(self, x, a, k):
        for d in list(a) + list(k.values()):
            dt = self.dtype(d)
            if dt is not None:
                return x.map(cast(dt))
        return x

    def m_type_as(self, x, a, k):
        return x

    def m_item(self, x, a, k):
        return x.item()

    def m_tolist(self, x, a, k):
        if x.ndim == 0:
            return x.item()
        if x.ndim == 1:
            return list(x.c)
        return [self.m_tolist(C.getitem(x, i), a, k) for i in range(x.shape[0])]

    def m_numel(self, x, a, k):
        return len(x.c)
    m_nelement = m_numel

    def m_dim(self, x, a, k):
        return x.ndim
    m_ndimension = m_dim

    def m_size(self, x, a, k):
        d = k.get("dim", a[0] if a else None)
        return tuple(x.shape) if d is None else x.shape[d]

    def m_isnan(self, x, a, k):
        return x.map(lambda c: None if c is None else isinstance(c, float) and c != c)

    def m_isinf(self, x, a, k):
        return x.map(lambda c: None if c is None else isinstance(c, float) and c in (INF, -INF))

    def m_isfinite(self, x, a, k):
        return x.map(lambda c: None if c is None else not C.special(c))

    def m_nan_to_num(self, x, a, k):
        if any(c is None or C.special(c) for c in x.c):
            n = scalar(k.get("nan", a[0] if a else 0))
            if any(isinstance(c, float) and c in (INF, -INF) for c in x.c):
                raise Unknown("nan_to_num")
            return x.map(lambda c: n if isinstance(c, float) and c != c else c)
        return x

    def m_split(self, x, a, k):
        n, d = k.get("split_size", k.get("split_size_or_sections", a[0] if a else None)), C.axis(x, scalar(k.get("dim", 0)))
        if isinstance(n, Arr):
            n = list(n.c)
        if isinstance(n, int):
            n = [min(n, x.shape[d] - i) for i in range(0, x.shape[d], n)]
        out, i = [], 0
        n = [scalar(w) for w in n]
        if all(isinstance(w, int) for w in n) and sum(n) != x.shape[d]:
            raise C.Illshaped(f"splits {x.shape[d]} columns into parts of {n}")
        for w in n:
            out.append(C.getitem(x, (slice(None),) * d + (slice(i, i + w),)))
            i += w
        return tuple(out)

    def c_searchsorted(self, t, a, k):
        s, v = arr(a[0] if a else k["sorted_sequence"]), a[1] if len(a) > 1 else k.get("input", k.get("values"))
        if s.ndim != 1 or any(not num(c) for c in s.c):
            raise Unknown("searchsorted")
        right = bool(scalar(k.get("right", False))) or k.get("side") == "right"
        import bisect

        def f(c):
            if not num(c):
                raise Unknown("searchsorted")
            return (bisect.bisect_right if right else bisect.bisect_left)(list(s.c), c)
        return v.map(f) if isinstance(v, Arr) else f(scalar(v))

    def m_searchsorted(self, x, a, k):
        return self.c_searchsorted(None, [x] + list(a), k)

    def c_bucketize(self, t, a, k):
        return self.c_searchsorted(t, [a[1] if len(a) > 1 else k["boundaries"], a[0] if a else k["input"]], {"right": k.get("right", False)})

    def m_argsort(self, x, a, k):
        return self.m_sort(x, [z for z in a], k)[1]

    def m_tensor_split(self, x, a, k):
        n, d = a[0] if a else k.get("indices_or_sections"), C.axis(x, scalar(k.get("dim", a[1] if len(a) > 1 else 0)))
        if isinstance(n, Arr):
            raise Unknown("tensor_split")
        size = x.shape[d]
        if isinstance(n, (list, tuple)):
            cuts = [0] + [int(scalar(z)) for z in n] + [size]
        else:
            n, cuts = int(n), [0]
            for i in range(n):
                cuts.append(cuts[-1] + size // n + (1 if i < size % n else 0))
        return [C.getitem(x, (slice(None),) * d + (slice(p, q),)) for p, q in zip(cuts, cuts[1:])]

    def m_norm(self, x, a, k):
        if (a and a[0] not in (2, None)) or k.get("p", k.get("ord", 2)) not in (2, None, "fro"):
            raise Unknown("norm")
        v = self.red(lambda r: C.total([C.mul(c, c) for c in r]), x, a[1:], k)
        return v.map(lambda c: C.fn("sqrt", c))

    def m_chunk(self, x, a, k):
        n, d = k.get("chunks", a[0] if a else None), C.axis(x, scalar(k.get("dim", 0)))
        w = -(-x.shape[d] // n)
        return self.m_split(x, [w], {"dim": d})

    def m_unbind(self, x, a, k):
        d = C.axis(x, scalar(k.get("dim", a[0] if a else 0)))
        return tuple(C.getitem(x, (slice(None),) * d + (i,)) for i in range(x.shape[d]))

    def m_pad(self, x, a, k):
        p = k.get("pad", a[0] if a else None)
        v = scalar(k.get("value", a[2] if len(a) > 2 else 0))
        v = 0 if v is None else v
        if k.get("mode", "constant") != "constant":
            raise Unknown("pad")
        p = [scalar(q) for q in p]
        for j in range(0, len(p), 2):
            d = x.ndim - 1 - j // 2
            lo, hi = p[j], p[j + 1]
            if lo < 0 or hi < 0:
                raise Unknown("pad")
            x = self.rows(lambda r: [v] * lo + list(r) + [v] * hi, x, [], {"dim": d})
        return x

    def m_one_hot(self, x, a, k):
        n = k.get("num_classes", a[0] if a else -1)
        if any(not isinstance(c, int) for c in x.c):
            raise Unknown("one_hot")
        if n == -1:
            n = max(x.c) + 1
        return Arr(x.shape + (n,), [int(c == j) for c in x.c for j in range(n)])

    def m_linear(self, x, a, k):
        w = k.get("weight", a[0] if a else None)
        b = k.get("bias", a[1] if len(a) > 1 else None)
        r = C.matmul(x, C.permute(w, [1, 0]))
        return C.zipmap(C.add, r, b) if b is not None else r

    def m_einsum(self, x, a, k):
        raise Unknown("einsum")

    def m_nonzero(self, x, a, k):
        hits = [i for i, c in zip(C.coords(x.shape), x.c) if self.known(truthy(c))]
        if k.get("as_tuple"):
            return tuple(Arr((len(hits),), [h[d] for h in hits]) for d in range(x.ndim))
        return Arr((len(hits), x.ndim), [v for h in hits for v in h])

    def m_outer(self, x, a, k):
        return C.einsum("i,j->ij", [x, arr(a[0])])

    def m_diagonal(self, x, a, k):
        n = min(x.shape)
        return arr([x.c[i * x.shape[1] + i] for i in range(n)])

    def m_tril(self, x, a, k):
        d = a[0] if a else k.get("diagonal", 0)
        return Arr(x.shape, [c if i[-1] - i[-2] <= d else 0 for i, c in zip(C.coords(x.shape), x.c)])

    def m_triu(self, x, a, k):
        d = a[0] if a else k.get("diagonal", 0)
        return Arr(x.shape, [c if i[-1] - i[-2] >= d else 0 for i, c in zip(C.coords(x.shape), x.c)])

    def m_add(self, x, a, k):
        y = a[0]
        if "alpha" in k:
            y = self.binop("*", k["alpha"], y)
        return self.binop("+", x, y)

    def m_sub(self, x, a, k):
        return self.binop("-", x, a[0])

    def m_multiply(self, x, a, k):
        return self.binop("*", x, a[0])

    def m_div(self, x, a, k):
        if k.get("rounding_mode"):
            return self.binop("//", x, a[0])
        return self.binop("/", x, a[0])

    def m_pow(self, x, a, k):
        return self.binop("**", x, a[0])

    def m_lerp(self, x, a, k):
        return self.binop("+", x, self.binop("*", a[1], self.binop("-", a[0], x)))

    def m_sort(self, x, a, k):
        if any(not num(c) for c in x.c):
            raise Unknown("sort")
        d = k.get("dim", a[0] if a else -1)
        return Pair((self.rows(lambda r: sorted(r, reverse=bool(k.get("descending", False))), x, [], {"dim": d}), self.rows(lambda r: sorted(range(len(r)), key=lambda i: r[i], reverse=bool(k.get("descending", False))), x, [], {"dim": d})))

    def m_unique(self, x, a, k):
        if any(not num(c) for c in x.c):
            raise Unknown("unique")
        d = k.get("dim")
        inv = None
        if d is None:
            u = sorted(set(x.c))
            v, n = arr(u), [x.c.count(y) for y in u]
            inv = Arr(x.shape, [u.index(y) for y in x.c])
        else:
            if x.ndim != 2 or d not in (0, -2):
                raise Unknown("unique")
            rows = [tuple(x.c[i * x.shape[1]:(i + 1) * x.shape[1]]) for i in range(x.shape[0])]
            u = sorted(set(rows))
            v, n = Arr((len(u), x.shape[1]), [c for r in u for c in r]), [rows.count(y) for y in u]
            inv = arr([u.index(y) for y in rows])
        out = [v] + ([inv] if k.get("return_inverse") else []) + ([arr(n)] if k.get("return_counts") else [])
        return Pair(tuple(out)) if len(out) > 1 else v

    def m_logical_not(self, x, a, k):
        return x.map(lambda c: not_cell(truthy(c)))


# ------------------------------------------------------------------------------------------------------------ functions of one value by pieces
def piecewise(lib, r, x, other):
    """bounds, direction and value of a function of one cell that is given by pieces between fixed breakpoints"""
    th = C.atom("theta", "x", 0)
    env = {r.params[x]: Arr((1,), [th])}
    env.update({r.params[n]: v for n, v in other.items() if n in r.params})
    e = Eval(lib, env)
    e.interp = r.interp
    c = e(r.value)
    c = arr(c).item()
    if c is None or not isinstance(c, Poly):
        return None
    (tid, _), = list(th.m)[0]
    inds = sorted({a for m in c.m for a, _ in m if C.Atoms.items[a][0] == "ind"})
    cuts = set()
    for a in inds:
        d = C.Atoms.items[a][2]
        lin = d.m.get(((tid, 1),))
        if not lin or any(m not in ((), ((tid, 1),)) for m in d.m):
            return None
        cuts.add(-Fraction(d.m.get((), 0)) / Fraction(lin))
    cuts = sorted(cuts)

    def holds(a, v, eps):
        _, kind, d = C.Atoms.items[a]
        lin = d.m[((tid, 1),)]
        z = lin * v + d.m.get((), 0)
        if z == 0 and eps:
            z = eps * lin
        return z < 0 or kind == "le" and z == 0 or kind == "eq" and z == 0

    def piece(v, eps):
        out = {}
        for m, k in c.m.items():
            keep, on = [], True
            for a, p in m:
                if a in inds:
                    on = on and holds(a, v, eps)
                else:
                    keep.append((a, p))
            if on:
                out[tuple(keep)] = out.get(tuple(keep), 0) + k
        return C.norm(Poly(out))
    mids = [cuts[0] - 1] + [(u + w) / 2 for u, w in zip(cuts, cuts[1:])] + [cuts[-1] + 1] if cuts else [Fraction(0)]
    ds = set()
    for v in mids:
        d, f = C.direction(piece(v, 0), tid)
        if d is None or f is not None:
            ds.add(None)
        elif d:
            ds.add(d)
    steps = []
    for u in cuts:
        l, m, h = (value(piece(u, -1), {tid: float(u)}), value(piece(u, 0), {tid: float(u)}), value(piece(u, 1), {tid: float(u)}))
        steps += [m - l, h - m]
    for s in steps:
        if s > 1e-9:
            ds.add(1)
        if s < -1e-9:
            ds.add(-1)
    direct = 0 if None in ds or len(ds) > 1 else ds.pop() if ds else 0

    def f(v):
        return value(piece(Fraction(v), 0), {tid: float(v)})
    lo = hi = None
    if direct:
        a, b = f(-60), f(60)
        lo, hi = min(a, b) - 1e-9 if abs(a) < 50 else -INF, max(a, b) + 1e-9 if abs(b) < 50 else INF
    return {"lo": lo if direct else -INF, "hi": hi if direct else INF, "dir": direct, "f": f, "pieces": len(mids), "mixed": len(ds - {None}) > 1}


def value(c, at):
    """number of a cell for given values of its basic atoms"""
    if not isinstance(c, Poly):
        return float(c)
    s = 0.0
    for m, k in c.m.items():
        v = float(k)
        # an indicator that is 0 removes its product whatever the other factors are
        for a, e in sorted(m, key=lambda x: C.Atoms.items[x[0]][0] != "ind") if len(m) > 1 else m:
            v *= atom_value(a, at) ** e
            if v == 0 and C.Atoms.items[a][0] == "ind":
                break
        s += v
    return s


def atom_value(a, at):
    if a in at:
        return at[a]
    k = C.Atoms.items[a]
    if k[0] == "exp":
        return math.exp(value(k[1], at))
    if k[0] == "inv":
        return 1 / value(k[1], at)
    if k[0] == "fn":
        f = C.NUM.get(k[1])
        if k[1] == "log":
            return math.log(value(k[2], at))
        if f is None:
            raise Unknown(k[1])
        return float(f(value(k[2], at)))
    if k[0] == "arg":
        vs = [value(c, at) for c in k[2]]
        return float(vs.index(max(vs) if k[1] > 0 else min(vs)))
    if k[0] == "pick":
        i = round(value(k[1], at))
        if not 0 <= i < len(k[2]):
            raise Unknown("index")
        return value(k[2][i], at)
    if k[0] in ("max", "min"):
        return (max if k[0] == "max" else min)(value(c, at) for c in k[1])
    if k[0] == "ind":
        v = value(k[2], at)
        return float(v == 0 if k[1] == "eq" else v < 0 or k[1] == "le" and v == 0)
    if k[0] == "basis":
        return spline(value(k[1], at), k[2], k[3], k[4])
    raise Unknown(k[0])


def spline(x, j, knots, p):
    """value of basis function j of degree p (Cox and de Boor)"""
    if p == 0:
        if knots[j] <= x < knots[j + 1]:
            return 1.0
        return 1.0 if x == knots[-1] and knots[j] < knots[j + 1] == knots[-1] else 0.0
    v = 0.0
    if knots[j + p] > knots[j]:
        v += (x - knots[j]) / (knots[j + p] - knots[j]) * spline(x, j, knots, p - 1)
    if knots[j + p + 1] > knots[j + 1]:
        v += (knots[j + p + 1] - x) / (knots[j + p + 1] - knots[j + 1]) * spline(x, j + 1, knots, p - 1)
    return v


# ------------------------------------------------------------------------------------------------------------ instances of a class
class Oracle:
    """decides loops and conditions of an interpretation on a fixed configuration"""
    unroll = False    # every loop and comprehension is written out

    def __init__(self, lib, env=None):
        self.lib, self.env = lib, env or {}
        self.memo = {}
        self.e = Eval(lib, env)

    def ev(self, I):
        self.e.interp = I
        return self.e

    def items(self, it, I):
        try:
            v = self.ev(I)(it)
        except Unknown:
            return None
        try:
            xs = Eval.iterate(None, v)
        except Unknown:
            return None
        if len(xs) > 24:
            return None
        out = []
        for i, x in enumerate(xs):
            y = lift(x)
            if y is None and self.unroll and isinstance(v, (list, tuple, Arr)):
                y = T("index", it, const(i))
            if y is None:
                return None
            out.append(y)
        return out

    def istensor(self, c, I):
        try:
            return isinstance(self.ev(I)(c), Arr)
        except (Unknown, Illshaped):
            return False

    def truth(self, c, I):
        if c in self.memo:
            return self.memo[c]
        v = self.ev(I).truth(c)
        self.memo[c] = v
        return v


def lift(x):
    """term of a plain value"""
    if x is None or isinstance(x, (bool, int, str)):
        return const(x)
    if isinstance(x, float) and not C.special(x):
        return const(x)
    if isinstance(x, (list, tuple)):
        ys = [lift(y) for y in x]
        return None if any(y is None for y in ys) else T("list" if isinstance(x, list) else "tuple", tuple(ys))
    if isinstance(x, Arr) and all(isinstance(c, (bool, int)) for c in x.c):
        if x.ndim == 0:
            return const(x.c[0])
        if x.ndim == 1:
            return T("call", "torch.tensor", (T("list", tuple(const(c) for c in x.c)),), ())
    return None


class Distribution:
    def method(self, name, a, k):
        g = getattr(self, "d_" + name, None)
        if g is None:
            raise Unknown(f"method {name} of a distribution")
        return g(*a, **k)


class Divergence(Distribution):
    """torch's KLDivLoss: target times the log of the target minus the input"""
    def __init__(self, reduction, log_target):
        if isinstance(log_target, bool) is False or not isinstance(reduction, str):
            raise Unknown("divergence")
        self.reduction, self.log_target = reduction, log_target

    def d___call__(self, input, target):
        x, p = arr(input), arr(target)
        if x.shape != p.shape:
            raise Illshaped(f"divergence of shapes {x.shape} and {p.shape}")
        out = []
        for a, b in zip(x.c, p.c):
            if self.log_target:
                out.append(C.mul(C.exp(b), C.add(b, C.neg(a))))
            else:
                out.append(0 if not isinstance(b, C.Poly) and b == 0 else C.mul(b, C.add(C.log(b), C.neg(a))))
        if self.reduction == "none":
            return Arr(x.shape, out)
        n = {"sum": 1, "batchmean": x.shape[0] if x.ndim else 1, "mean": len(out)}.get(self.reduction)
        if n is None:
            raise Unknown("reduction")
        return Arr((), [C.mul(C.total(out), Fraction(1, n))])


class Normal(Distribution):
    def __init__(self, loc, scale):
        self.loc, self.scale = loc, scale

    def d_log_prob(self, value):
        z = C.zipmap(lambda x, y: C.mul(x, C.inv(y)), C.zipmap(lambda x, y: C.add(x, C.neg(y)), value, self.loc), self.scale)
        s = self.scale.map(lambda c: C.add(C.neg(C.log(c)), -0.5 * math.log(2 * math.pi)))
        return C.zipmap(C.add, z.map(lambda c: C.mul(C.mul(c, c), Fraction(-1, 2))), s)

    def d_cdf(self, value):
        z = C.zipmap(lambda x, y: C.mul(x, C.inv(y)), C.zipmap(lambda x, y: C.add(x, C.neg(y)), value, self.loc), self.scale)
        return z.map(lambda c: 0.5 * (1 + math.erf(float(c) / math.sqrt(2))) if num(c) else None)


    def d_icdf(self, value):
        from statistics import NormalDist
        q = value.map(lambda c: NormalDist().inv_cdf(float(c)) if num(c) and 0 < c < 1 else None)
        return C.zipmap(C.add, C.zipmap(C.mul, q, self.scale), self.loc)


class MultivariateNormal(Distribution):
    def __init__(self, ev, loc, cov):
        if loc.ndim != 1 or cov.ndim != 2:
            raise Unknown("a batch of distributions")
        if cov.shape != (loc.shape[0], loc.shape[0]):
            raise Illshaped(f"{loc.shape[0]} means and covariances of shape {cov.shape}")
        self.loc, self.n = loc, loc.shape[0]
        self.inv = ev.c_inverse(None, [cov], {})
        c = cov.c
        self.det = c[0] if self.n == 1 else C.add(C.mul(c[0], c[3]), C.neg(C.mul(c[1], c[2])))

    def d_log_prob(self, value):
        x = C.zipmap(lambda p, q: C.add(p, C.neg(q)), value, self.loc)
        if not x.ndim or x.shape[-1] != self.n:
            raise Illshaped(f"values of shape {x.shape} for {self.n} variables")
        out, n = [], self.n
        k = C.add(C.mul(C.log(self.det), Fraction(-1, 2)), -0.5 * n * math.log(2 * math.pi))
        for r in range(len(x.c) // n):
            z = x.c[r * n:(r + 1) * n]
            q = C.total([C.mul(C.mul(z[i], z[j]), self.inv.c[i * n + j]) for i in range(n) for j in range(n)])
            out.append(C.add(C.mul(q, Fraction(-1, 2)), k))
        return Arr(x.shape[:-1], out)


class Instance:
    """The attributes of an object of a class for one configuration, parameters replaced by free cells."""
    def __init__(self, lib, q, presets, env=None, name="self", parts=()):
        from .interp import State
        self.lib, self.q, self.name = lib, q, name
        p = lib.p
        init = p.find_method(q, "__init__")
        I = lib.interp()
        I.oracle = Oracle(lib, env)
        self.obj = T("obj", q, name, True)
        names = set(init.posnames + init.kwonly)
        self.parts = list(parts)
        self.presets = {k: v for k, v in presets.items() if k in names}
        st = State()
        for x in parts:
            st.heap.update(x.heap)
        r = I.run(init, presets=self.presets, self_obj=self.obj, state=st)
        lib.nfun.add(init.qual)
        self.init = r
        self.heap, self.leaves, self.skipped = {}, {}, []
        if r is None or r.state is None or any(e.kind == "raise" and certain(e) for e in r.events if len(e.stack) == 1):
            raise Unknown("the constructor rejects the configuration")
        ev = Eval(lib, env)
        ev.interp = r.interp
        self.ev = ev
        for x in parts:
            self.leaves.update({f"{x.name}.{k}": v for k, v in x.leaves.items()})
        for (o, a), v in r.state.heap.items():
            if self.parameter(v):
                try:
                    s = arr(ev(v)).shape
                except Unknown as e:
                    self.skipped.append(f"{a}: {e}")
                    continue
                label = (name + "." if name != "self" else "") + (a if o is self.obj else f"{self.owner(o, r.state.heap)}.{a}")
                leaf = T("leaf", label, tuple(s))
                self.leaves[label] = leaf
                self.heap[(o, a)] = leaf
            else:
                self.heap[(o, a)] = v

    def owner(self, o, heap):
        names = sorted(str(a) for (x, a), v in heap.items() if v is o)
        return names[0] if names else f"m{o.id}"

    def parameter(self, t):
        while t.op == "inplace":
            t = t.args[1]
        if t.op == "phi":
            return self.parameter(t.args[1]) or self.parameter(t.args[2])
        return t.op == "call" and t.args[0].rsplit(".", 1)[-1] == "Parameter"

    def method(self, name, presets=None, env=None, heap=None, opaque=()):
        """(result, evaluator) of one method on this object"""
        from .interp import State
        f = self.lib.p.find_method(self.q, name)
        if f is None:
            raise Unknown(name)
        I = self.lib.interp(frozenset(opaque))
        I.oracle = Oracle(self.lib, env)
        st = State()
        st.heap.update(heap if heap is not None else self.heap)
        self.lib.nfun.add(f.qual)
        r = I.run(f, presets=presets, self_obj=self.obj, state=st)
        if r is None:
            raise Unknown(name)
        e = Eval(self.lib, env)
        e.interp = r.interp
        if r.state is not None:
            e.heap = r.state.heap
        return r, e


def certain(e):
    return not e.conds
