"""Symbolic tensor shapes: every axis is an ordered product of named sizes (outermost first).

repeat and repeat_interleave, cat of copies, reshape and selection keep track of the order in which the entries lie,
so that two tensors of equal size whose entries lie in different orders can be told apart.
"""
from .terms import T, Term, const, show, is_const, cval, walk, intval, numval
from .c_util import strip_pass

ELEM = {"exp", "log", "log1p", "expm1", "sqrt", "abs", "sign", "sigmoid", "tanh", "relu", "isnan", "isinf", "isfinite", "clone", "detach", "contiguous", "float", "double", "long", "int", "bool",
        "to", "cpu", "cuda", "requires_grad_", "detach_", "clamp", "clamp_", "softmax", "log_softmax", "cumsum", "cumprod", "softplus", "elu", "nan_to_num", "round", "floor", "ceil", "logit", "erf",
        "masked_fill_", "log2", "log10", "type_as", "cos", "sin", "deg2rad", "reciprocal", "rsqrt", "half", "numpy", "square", "dropout", "normalize", "log_", "exp_", "logical_not", "leaky_relu", "erfinv", "atan", "neg", "sigmoid_", "softmin", "logsigmoid", "view_as_real", "zero_", "fill_", "masked_fill", "logcumsumexp", "nan_to_num_"}
REDUCE = {"sum", "nansum", "mean", "nanmean", "prod", "logsumexp", "amax", "amin", "argmax", "argmin", "any", "all", "std", "var", "count_nonzero", "norm", "nanmedian", "median", "max", "min", "quantile", "nanquantile", "mode", "aminmax"}
PAIR = {"max", "min", "median", "nanmedian", "mode", "sort", "topk", "kthvalue", "cummax"}
NAMES = {"items": "I", "max_item_responses": "C", "latent_variables": "D", "total_output_dim": "IC"}
ROWPARAM = {"data", "train_data", "response_data", "theta", "theta_scores", "initial_theta_scores", "missing_mask", "mask", "output", "logits", "probabilities", "item_probabilities", "entropies", "start_thetas",
            "test_data", "input_data", "validation_data", "transformed_theta", "observed", "x", "thetas", "latent_scores", "batch"}
MODEL_OPS = {"forward", "item_probabilities", "probabilities_from_output", "log_likelihood", "expected_scores", "transform_theta", "inverse_transform_theta", "transform", "inverse", "log_prob", "theta_scores",
             "latent_scores", "get_missing_mask", "probability_gradients", "expected_item_score_gradients", "information", "theta_transform_jacobian", "jacobian"}


def polarity(m):
    """(positive, mask) with negations stripped"""
    pos = True
    while True:
        m = strip_pass(m)
        if m.op == "un" and m.args[0] == "~" or m.op == "not":
            m = m.args[-1]
        elif m.op == "meth" and m.args[0] == "logical_not":
            m = m.args[1]
        elif m.op == "cmp" and m.args[0] == "==" and (is_const(m.args[2], False) or is_const(m.args[2], 0) and m.args[1].op in ("meth", "un", "cmp") and m.args[1].args[0] in ("isnan", "~", "==")):
            m = m.args[1]
        elif m.op == "meth" and m.args[0] in ("reshape", "flatten", "squeeze") :
            inner = polarity(m.args[1])
            if inner[1] is m.args[1]:
                return pos, m
            return pos == inner[0], T("meth", m.args[0], inner[1], m.args[2], m.args[3])
        else:
            return pos, m
        pos = not pos


def numberlike(t):
    """a plain Python number"""
    if numval(t) is not None:
        return True
    if t.op == "phi":
        return numberlike(t.args[1]) and numberlike(t.args[2])
    if t.op == "call" and t.args[0] in ("min", "max", "float", "int", "len", "round", "math.log", "math.sqrt", "math.exp"):
        return t.args[0] not in ("min", "max") or any(numberlike(x) for x in t.args[1])
    if t.op == "bin" and t.args[0] != "@":
        return numberlike(t.args[1]) and numberlike(t.args[2])
    if t.op == "un":
        return numberlike(t.args[1])
    return t.op == "index" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and intval(t.args[1]) is not None


def apart(m, n):
    """two masks that certainly choose different entries"""
    (p, x), (q, y) = polarity(m), polarity(n)
    if x is y:
        return p != q
    for u, v in ((x, y),):
        while u.op == v.op == "meth" and u.args[0] == v.args[0] and u.args[0] in ("reshape", "flatten"):
            u, v = u.args[1], v.args[1]
        if u.op == v.op == "meth" and u.args[0] == v.args[0] == "isnan" and p == q:
            a, b = strip_pass(u.args[1]), strip_pass(v.args[1])
            return a.op == b.op == "param" and a is not b
    return False


class Sh:
    """dims: list of axes, each a tuple of labels or None; open: further axes unknown"""
    __slots__ = ("d", "open", "base")

    def __init__(self, d, open=False, base=None):
        self.d, self.open, self.base = list(d), open, base

    def get(self, k):
        n = len(self.d)
        if k < 0 and not self.open and -k <= n:
            return self.d[k]
        if 0 <= k < n:
            return self.d[k]
        if 0 <= k and self.open and self.base is not None:
            return (("s", T("dim", self.base, k)),)
        return None

    def full(self):
        return not self.open and all(x is not None for x in self.d)

    def __eq__(self, o):
        return isinstance(o, Sh) and self.d == o.d and self.open == o.open and (not self.open or self.base is o.base)

    def __hash__(self):
        return hash((tuple(self.d), self.open))

    def __repr__(self):
        return "(" + ", ".join(axis(x) for x in self.d) + (", ..." if self.open else "") + ")"


def axis(x):
    if x is None:
        return "?"
    if x == ():
        return "1"
    return "*".join(label(l) for l in x)


def label(l):
    if isinstance(l, str):
        return l
    if l[0] == "n":
        return str(l[1])
    if l[0] == "s":
        return show(l[1], 3)[:60]
    if l[0] in ("sel", "take", "perm"):
        return f"{axis(l[2])}[{show(l[1], 2)[:30]}]"
    return str(l[0])


class Shapes:
    def __init__(self, r, seeds=None, issue=None, lib=None):
        self.r, self.I = r, r.interp
        self.memo, self.busy = {}, set()
        self.seeds = seeds or {}
        self.issue = issue or (lambda kind, t, msg: None)
        self.lib = lib
        self.judged = {}

    # ------------------------------------------------------------------ sizes
    def size(self, t):
        """labels of an integer size term, or None"""
        n = intval(t)
        if n is not None:
            return () if n == 1 else (("n", n),) if n > 1 else None
        o, a = t.op, t.args
        if o == "index" and a[0].op == "attr" and a[0].args[1] == "shape":
            k = intval(a[1])
            if k is not None:
                d = self.dim(a[0].args[0], k)
                return d
        if o == "attr" and a[1] in NAMES:
            recv = a[0]
            if recv.op in ("obj", "attr", "param") or self.I.typeof(recv):
                if recv.op in ("elem", "index"):
                    return ((NAMES[a[1]], recv.id),)
                return tuple(NAMES[a[1]]) if NAMES[a[1]] == "IC" else (NAMES[a[1]],)
        if o == "call" and a[0] == "len" and len(a[1]) == 1:
            x = a[1][0]
            if x.op == "attr" and x.args[1] == "item_categories" or x.op == "param" and x.args[0] == "item_categories":
                return ("I",)
            if self.I.typeof(x) is None or True:
                d = self.dim(x, 0)
                if d is not None:
                    return d
        if o == "call" and a[0] in ("max",) and len(a[1]) == 1:
            x = a[1][0]
            if x.op == "attr" and x.args[1] == "item_categories" or x.op == "param" and x.args[0] == "item_categories":
                return ("C",)
        if o == "meth" and a[0] == "numel":
            s = self(a[1])
            if s is not None and s.full():
                return tuple(l for d in s.d for l in d)
        if o == "bin" and a[0] == "*":
            x, y = self.size(a[1]), self.size(a[2])
            if x is not None and y is not None:
                return x + y
        if o == "call" and a[0] in ("int", "round") and len(a[1]) == 1:
            return self.size(a[1][0])
        if o == "bin" and a[0] in ("//", "/"):
            x, y = self.size(a[1]), self.size(a[2])
            if x is not None and y is not None:
                left = list(x)
                if all(l in left and (left.remove(l) or True) for l in y):
                    return tuple(left)
        if o in ("param", "attr", "call", "phi", "bin", "index", "meth", "mu", "out", "rcall", "vcall", "elem", "global"):
            return (("s", t),)
        return None

    def dim(self, t, k):
        s = self(t)
        if s is None:
            if k < 0:
                return None
            return (("s", T("dim", strip_pass(t), k)),)
        return s.get(k)

    # ------------------------------------------------------------------ shapes
    def __call__(self, t):
        if not isinstance(t, Term):
            return None
        if t in self.memo:
            return self.memo[t]
        if t in self.busy:
            return None
        self.busy.add(t)
        r = self.visit(t)
        self.busy.discard(t)
        self.memo[t] = r
        return r

    def opened(self, t):
        return Sh([], True, strip_pass(t))

    def sh(self, t):
        s = self(t)
        return s if s is not None else self.opened(t)

    def seed(self, t):
        if t in self.seeds:
            return self.seeds[t]
        if t.op == "param":
            n = t.args[0]
            fn = t.args[1] if len(t.args) > 1 else ""
            row = (("s", T("rows", fn)),)
            if n in ("data", "train_data", "response_data", "test_data", "missing_mask", "validation_data"):
                return Sh([row, ("I",)])
            if n in ("theta", "theta_scores", "initial_theta_scores", "start_thetas", "transformed_theta", "thetas"):
                return Sh([row, ("D",)])
            if n in ("output", "logits") and "models" in fn:
                return Sh([row, ("I",), ("C",)])
        if t.op == "attr":
            if t.args[1] == "train_data":
                return Sh([(("s", T("rows", "train")),), ("I",)])
            if t.args[1] == "training_theta_scores":
                return Sh([(("s", T("rows", "train")),), ("D",)])
            if t.args[1] == "correct_mask":
                return Sh([("I",), ("C",)])
        return None

    def visit(self, t):
        s = self.seed(t)
        if s is not None:
            return s
        o, a = t.op, t.args
        num = numval(t)
        if num is not None or is_const(t):
            return Sh([])
        if o == "meth":
            return self.method(t, a[0], a[1], a[2], dict(a[3]))
        if o == "attr":
            if a[1] in ("T", "mT", "H"):
                s = self(a[0])
                if s is not None and not s.open:
                    return Sh(s.d[::-1]) if a[1] == "T" else Sh(s.d[:-2] + s.d[-2:][::-1])
                return None
            if a[1] in ("values", "data", "grad", "real"):
                return self(a[0])
            if a[1] == "indices" and a[0].op == "meth":
                return self.pair(a[0])
            v = self.r.state.heap.get((a[0], a[1])) if self.r.state is not None and a[0].op in ("new", "obj") else None
            if v is not None and v is not t:
                return self(v)
            return None
        if o == "index":
            if a[0].op == "attr" and a[0].args[1] == "shape" and intval(a[1]) is not None:
                return Sh([])
            return self.index(t, a[0], a[1])
        if o == "elem":
            return None
        if o in ("bin", "cmp"):
            if a[0] == "@":
                return self.matmul(t, a[1], a[2])
            return self.broadcast(t, [a[1], a[2]])
        if o == "un":
            return self(a[1])
        if o == "where":
            return self.broadcast(t, [a[0], a[1], a[2]])
        if o == "phi":
            return self.joined(t, a[1:])
        if o in ("mu", "out"):
            init = self(a[2])
            rows = False
            if init is None:
                return None
            for _, v in self.I.steps.get(a[0], {}).get(a[1], ()):
                # the recorded value must keep the shape; unknown steps give up
                if v.op in ("setitem", "inplace", "mu"):
                    continue
                self.memo[t] = init
                s = self(v)
                self.memo.pop(t, None)
                if s is not None and s != init and s.get(0) is not None and s.get(0) == init.get(0):
                    rows = True
                    continue
                if s != init:
                    return None
            return init if not rows else Sh([init.get(0)], True, strip_pass(t))
        if o == "setitem":
            self.assigned(t)
            return self(a[0])
        if o == "inplace":
            return self(a[1])
        if o in ("list", "tuple"):
            return None
        if o in ("vcall", "rcall"):
            return self.vcall(t)
        if o == "call":
            return self.call(t, a[0], a[1], dict(a[2]))
        return None

    def joined(self, t, parts):
        parts = [x for x in parts if not is_const(x, None)]
        given = [x for x in parts if x.op == "param" and x.args[0] in ROWPARAM]
        if given and len(given) < len(parts):
            # a given argument and its default stand for the same respondents
            parts = [x for x in parts if x not in given]
        ss = [self(x) for x in parts]
        if ss and all(x is not None and x == ss[0] for x in ss):
            return ss[0]
        if ss and all(x is not None and not x.open for x in ss) and len({len(x.d) for x in ss}) == 1:
            # the axes on which all agree are known, the others are a size of their own
            return Sh([ds[0] if all(d == ds[0] for d in ds) else (("s", T("dim", strip_pass(t), k)),) for k, ds in enumerate(zip(*[x.d for x in ss]))])
        if ss and all(x is not None for x in ss):
            return self.opened(t)
        return None

    def assigned(self, t):
        """base[idx] = value: the value's entries must be those of the places they go to"""
        base, i, v = t.args[0], t.args[1], t.args[2]
        vs = self(v)
        if vs is None or vs.open or not vs.d or vs.d[0] is None or len(vs.d[0]) == 0:
            return
        if i.op == "slice" and is_const(i.args[0], None) and isinstance(vs.d[0][0], tuple) and vs.d[0][0][0] == "sel":
            b = self(base)
            if b is not None and b.get(0) == vs.d[0][0][2]:
                self.issue("order", t, f"the entries {axis(vs.d[0])} are stored in the first places of {axis(b.get(0))}")
        if i.op != "tuple" and self.maskish(i):
            place = self.index(t, base, i)
            if place is not None and place.get(0) is not None:
                self.compare(t, place.get(0), vs.d[0])

    # ------------------------------------------------------------------ elementwise
    def broadcast(self, t, parts):
        ss = [self(x) for x in parts]
        ss = [Sh([]) if s is None and numberlike(x) else s for s, x in zip(ss, parts)]
        if any(s is None for s in ss):
            known = [s for s in ss if s is not None]
            return None
        if any(s.open for s in ss):
            ds = [s for s in ss if s.open or len(s.d) > 0]
            if len(ds) == 2 and ds[0].d and ds[1].d and ds[0].d[0] is not None and ds[1].d[0] is not None:
                self.compare(t, ds[0].d[0], ds[1].d[0], ds)
            if len(ds) == 2:
                x, y = ds[0].get(0), ds[1].get(0)
                if x is not None and x == y and x != () and all(s.open or len(s.d) > 1 for s in ds):
                    self.agree(t, x)
                    return Sh([x], True, strip_pass(t))
                if x is not None and y is not None and len(x) > 1 and len(x) == len(y) and all(s.open or len(s.d) > 1 for s in ds):
                    self.compare(t, x, y)
            if len(ds) == 1:
                return ds[0]
            return None if not all(s == ds[0] for s in ds) else ds[0]
        n = max(len(s.d) for s in ss)
        out = []
        for k in range(1, n + 1):
            c = ()
            for s in ss:
                if k > len(s.d):
                    continue
                d = s.d[-k]
                if d == ():
                    continue
                if c == ():
                    c = d
                elif d is None or c is None:
                    c = c if d is None else d
                elif c != d:
                    self.compare(t, c, d, ss)
                    c = c if len(c) >= len(d) else d
                else:
                    self.agree(t, c)
            out.append(c)
        return Sh(out[::-1])

    def agree(self, t, d):
        if len(d) > 1 or d and isinstance(d[0], tuple) and d[0][0] in ("sel", "take", "perm"):
            self.issue("agree", t, axis(d))

    def compare(self, t, a, b, shapes=()):
        if a == b:
            return self.agree(t, a)
        if len(a) > 1 and len(a) == len(b) and sorted(map(repr, a)) == sorted(map(repr, b)):
            self.issue("order", t, f"one operand runs over {axis(a)} and the other over {axis(b)}")
        elif len(a) == len(b) == 1 and isinstance(a[0], tuple) and isinstance(b[0], tuple):
            x, y = a[0], b[0]
            if x[0] == y[0] == "sel" and x[2] == y[2] and x[1] is not y[1]:
                if apart(x[1], y[1]):
                    self.issue("selection", t, f"one operand holds the entries {axis(a)} and the other the entries {axis(b)}")
                else:
                    self.issue("unsure", t, f"selections {axis(a)} and {axis(b)}")
            elif x[0] == y[0] == "perm" and x[2] == y[2] and x[1] is not y[1]:
                self.issue("unsure", t, f"orders {axis(a)} and {axis(b)}")
            elif x[0] == "perm" and x[2] == b or y[0] == "perm" and y[2] == a:
                self.issue("order", t, f"one operand is reordered ({axis(a)}) and the other is not ({axis(b)})")
        if len(a) == len(b) == 1 and isinstance(a[0], tuple) and isinstance(b[0], tuple):
            for x, y in ((a[0], b[0]), (b[0], a[0])):
                if x[0] == "batch" and y[0] == "take" and isinstance(y[1], Term) and y[1].op == "slice" and is_const(y[1].args[0], None):
                    self.issue("order", t, f"one operand holds the respondents of the batch and the other the first rows {axis((y,))}")
        elif len(a) == 1 and isinstance(a[0], tuple) and a[0][0] == "perm" and a[0][2] == b or len(b) == 1 and isinstance(b[0], tuple) and b[0][0] == "perm" and b[0][2] == a:
            self.issue("order", t, f"one operand is reordered ({axis(a)}) and the other is not ({axis(b)})")

    def matmul(self, t, x, y):
        s, u = self(x), self(y)
        if s is None or u is None or s.open or u.open:
            return None
        if len(s.d) == 1 and len(u.d) == 1:
            return Sh([])
        if len(u.d) == 1:
            return Sh(s.d[:-1])
        if len(s.d) == 1:
            return Sh(u.d[:-2] + u.d[-1:])
        b = s.d[:-2] if len(s.d) >= len(u.d) else u.d[:-2]
        return Sh(b + [s.d[-2], u.d[-1]])

    # ------------------------------------------------------------------ methods
    def method(self, t, n, x, args, kw):
        if n in ELEM:
            return self(x)
        if n in ("reshape",):
            return self.reshape(t, x, args)
        if n == "flatten" and not args and not kw:
            return self.reshape(t, x, (T("const", "int", -1),))
        if n == "view_as" or n == "reshape_as" or n == "expand_as":
            return self(args[0]) if args else None
        if n in ("unsqueeze",):
            s, k = self(x), intval(kw.get("dim", T("const", "NoneType", None)))
            if s is None or k is None or s.open and k < 0:
                return None
            k = k if k >= 0 else len(s.d) + 1 + k
            if k > len(s.d):
                return None
            return Sh(s.d[:k] + [()] + s.d[k:], s.open, s.base)
        if n == "squeeze":
            s = self(x)
            if s is None or s.open:
                return None
            if "dim" in kw:
                k = intval(kw["dim"])
                if k is None or not -len(s.d) <= k < len(s.d):
                    return None
                return Sh([d for i, d in enumerate(s.d) if i != k % len(s.d)]) if s.d[k] == () else s
            return None
        if n == "repeat_interleave":
            s = self.sh(x)
            k = kw.get("repeats")
            r = self.size(k) if k is not None else None
            d = intval(kw["dim"]) if "dim" in kw else None
            if d is None:
                if "dim" in kw or s.open or len(s.d) != 1:
                    return None
                d = 0
            if d < 0:
                if s.open:
                    return None
                d += len(s.d)
            return self.setdim(s, d, lambda old: None if old is None or r is None else old + r)
        if n in ("repeat", "tile"):
            s = self.sh(x)
            rs = [self.size(z) for z in args]
            if s.open:
                # as many counts as axes unless the tensor gains leading ones
                d = [s.get(k) for k in range(len(rs))]
                return Sh([None if r is None or z is None else r + z for r, z in zip(rs, d)], False)
            extra = len(rs) - len(s.d)
            if extra < 0:
                return None
            d = [()] * extra + s.d
            return Sh([None if r is None or z is None else r + z for r, z in zip(rs, d)])
        if n == "expand":
            s = self(x)
            if s is None or s.open:
                return None
            extra = len(args) - len(s.d)
            if extra < 0:
                return None
            d = [()] * extra + s.d
            return Sh([z if intval(r) == -1 else z if z != () else self.size(r) for r, z in zip(args, d)])
        if n in ("transpose",):
            s = self(x)
            i, j = intval(kw.get("dim0", T("none"))), intval(kw.get("dim1", T("none")))
            if s is None or s.open or i is None or j is None or max(i, j) >= len(s.d):
                return None
            d = list(s.d)
            d[i], d[j] = d[j], d[i]
            return Sh(d)
        if n == "permute":
            s = self(x)
            p = [intval(z) for z in args]
            if s is None or s.open or None in p or len(p) != len(s.d):
                return None
            return Sh([s.d[k] for k in p])
        if n in REDUCE:
            return self.reduce(t, n, x, args, kw)
        if n == "flip":
            s = self(x)
            ks = [kw["dims"]] if "dims" in kw and kw["dims"].op not in ("tuple", "list") else list(kw["dims"].args[0]) if "dims" in kw else list(args)
            ks = [intval(k) for k in ks]
            if s is None or s.open or None in ks or not ks or any(not -len(s.d) <= k < len(s.d) for k in ks):
                return None
            d = list(s.d)
            for k in ks:
                d[k] = None if d[k] is None else (("perm", const("flip"), d[k]),)
            return Sh(d)
        if n in ("sort", "argsort", "topk"):
            s = self(x)
            k = intval(kw.get("dim", const(-1)))
            return s if n == "argsort" and s is not None and not s.open and k is not None else None
        if n == "diag_embed":
            s = self(x)
            return Sh(s.d + s.d[-1:]) if s is not None and not s.open and s.d else None
        if n == "index_select":
            k = intval(kw.get("dim", T("none")))
            s = self(x)
            if s is not None and k is not None and "index" in kw:
                old = s.get(k)
                return self.setdim(s, k if k >= 0 else k + len(s.d), lambda old: None if old is None else self.taken(kw["index"], old))
            return None
        if n in ("cross_entropy", "nll_loss") and "target" in kw:
            a, b = self(x), self(kw["target"])
            if a is not None and b is not None and a.get(0) is not None and b.get(0) is not None:
                self.compare(t, a.get(0), b.get(0))
            red = kw.get("reduction")
            return b if red is not None and is_const(red, "none") else Sh([]) if red is None or is_const(red) else None
        if n == "gather":
            return self(kw["index"]) if "index" in kw else None
        if n == "__call__":
            # a torch.nn module: respondents stay in the first axis
            if x.op == "call" and x.args[0].startswith("torch.nn.") and args:
                s = self.sh(args[0])
                row = s.get(0)
                if row is None:
                    return None
                out = self.size(x.args[1][1]) if x.args[0] == "torch.nn.Linear" and len(x.args[1]) > 1 else None
                if s.open:
                    return Sh([row, out]) if args[0].op == "index" and self.loader(args[0].args[0]) is not None else None
                return Sh(s.d[:-1] + [out]) if len(s.d) > 1 else None
            return None
        if n == "log_prob":
            s = self.sh(args[0] if args else kw["value"]) if args or "value" in kw else None
            if s is None:
                return None
            dist = strip_pass(x)
            if dist.op == "call" and dist.args[0].rsplit(".", 1)[-1] in ("Normal", "Uniform", "Bernoulli"):
                return s
            if not (dist.op == "call" and dist.args[0].rsplit(".", 1)[-1] == "MultivariateNormal"):
                return None
            if s.open:
                return Sh([s.get(0)]) if s.get(0) is not None else None
            return Sh(s.d[:-1]) if len(s.d) == 2 else None
        if n in ("scatter", "scatter_add", "scatter_", "scatter_add_", "index_fill", "index_add"):
            return self(x)
        # a module kept in an attribute
        if x.op in ("obj", "attr", "param") and args and self.I.typeof(x):
            return None
        return None

    def setdim(self, s, k, f):
        d = list(s.d)
        if s.open:
            while len(d) <= k:
                d.append(s.get(len(d)))
        if not 0 <= k < len(d):
            return None
        d[k] = f(d[k])
        return Sh(d, s.open, s.base if s.open else None)

    def reduce(self, t, n, x, args, kw):
        s = self(x)
        if "dim" not in kw:
            if n in ("max", "min") and args:
                return None
            return Sh([])
        if s is None or s.open and (intval(kw["dim"]) is None or intval(kw["dim"]) < 0 or intval(kw["dim"]) >= len(s.d)):
            return None
        ks = [kw["dim"]] if kw["dim"].op not in ("tuple", "list") else list(kw["dim"].args[0])
        ks = [intval(k) for k in ks]
        if None in ks or any(not -len(s.d) <= k < len(s.d) for k in ks):
            return None
        ks = {k % len(s.d) for k in ks}
        keep = "keepdim" in kw and not is_const(kw["keepdim"], False)
        return Sh([() if i in ks else d for i, d in enumerate(s.d) if keep or i not in ks], s.open, s.base)

    def pair(self, x):
        n = x.args[0]
        if n in ("max", "min", "median", "nanmedian", "mode"):
            return self.reduce(x, n, x.args[1], x.args[2], dict(x.args[3]))
        return None

    # ------------------------------------------------------------------ reshape
    def reshape(self, t, x, args):
        s = self.sh(x)
        if len(args) == 1 and args[0].op == "attr" and args[0].args[1] == "shape":
            return self(args[0].args[0])
        if any(a.op == "star" for a in args):
            return None
        want = [-1 if intval(a) == -1 else self.size(a) for a in args]
        if s.open or any(d is None for d in s.d):
            P = []
            for d in s.d:
                if d is None:
                    break
                P += list(d)
            w = want[0] if want else None
            if w not in (-1, None) and w and len(set(map(repr, P))) == len(P) and all(z in P for z in w) and all(isinstance(z, str) or z[0] in ("s", "batch") for z in w) and P[:len(w)] != list(w):
                self.issue("scramble", t, f"the entries lie in the order {axis(tuple(P))}, ..., but they are split with {axis(w)} first")
            return Sh([None if w == -1 else w for w in want])
        L = [l for d in s.d for l in d]
        out = list(want)
        lo, hi = 0, len(L)
        bad = None
        i = 0
        while i < len(want) and want[i] != -1 and want[i] is not None:
            w = list(want[i])
            if L[lo:lo + len(w)] == w:
                lo += len(w)
            else:
                bad = (i, w, L[lo:])
                break
            i += 1
        j = len(want) - 1
        while bad is None and j > i and want[j] != -1 and want[j] is not None:
            w = list(want[j])
            if hi - len(w) >= lo and L[hi - len(w):hi] == w:
                hi -= len(w)
            else:
                bad = (j, w, L[lo:hi])
                break
            j -= 1
        if bad is None:
            if i == len(want):
                if lo < len(L):
                    return Sh([None if w == -1 else w for w in want])
            elif i == j and want[i] == -1:
                out[i] = tuple(L[lo:hi])
                if len(L) > 1:
                    self.issue("reshape", t, f"({axis(tuple(L))}) laid out as {Sh(out)}")
                return Sh(out)
            return Sh([None if w == -1 else w for w in want])
        i, w, rest = bad
        allw = [l for z in want if z not in (-1, None) for l in z]
        if all(isinstance(z, str) or z[0] == "s" for z in w) and w and all(z in L for z in w) and len(set(map(repr, L))) == len(L) and None not in want:
            # the size exists, but at another position: entries of different axes are mixed
            self.issue("scramble", t, f"the entries lie in the order {axis(tuple(L))}, but they are split as ({', '.join('rest' if z == -1 else axis(z) for z in want)})")
        return Sh([None if z == -1 else z for z in want])

    # ------------------------------------------------------------------ selection
    def taken(self, i, old):
        """rows chosen by an index tensor"""
        b = self.batch(i)
        if b is not None:
            return b
        if self.is_perm(i):
            return (("perm", strip_pass(i), old),)
        return (("take", strip_pass(i), old),)

    def is_perm(self, i):
        i = strip_pass(i)
        if i.op == "call" and i.args[0] in ("torch.randperm", "numpy.random.permutation"):
            return True
        if i.op == "meth" and i.args[0] == "argsort":
            return True
        if i.op == "phi":
            return self.is_perm(i.args[1]) and self.is_perm(i.args[2])
        if i.op == "index" and i.args[0].op == "meth" and i.args[0].args[0] == "sort" and is_const(i.args[1], 1):
            return True
        return i.op == "attr" and i.args[1] == "indices" and i.args[0].op == "meth" and i.args[0].args[0] == "sort"

    def loader(self, t):
        """(loop id, data set object) when t is one batch of a data loader"""
        if t.op == "elem" and t.args[0].op == "call" and t.args[0].args[0].endswith("DataLoader"):
            ds = t.args[0].args[1][0] if t.args[0].args[1] else dict(t.args[0].args[2]).get("dataset")
            return t.args[1], ds
        return None

    def batch(self, i):
        i = strip_pass(i)
        if i.op == "index" and self.loader(i.args[0]) is not None:
            L, ds = self.loader(i.args[0])
            g = self.getitem(ds)
            k = intval(i.args[1])
            if g is not None and k is not None and -len(g) <= k < len(g) and g[k] == "index":
                return (("batch", L),)
        return None

    def getitem(self, ds):
        """what __getitem__ of a data set returns: attribute names, 'index' for the position"""
        ty = self.I.typeof(ds)
        if not ty or self.lib is None:
            return None
        f = self.lib.p.find_method(ty[0], "__getitem__")
        r = self.lib.run(f, cls=ty[0]) if f is not None else None
        if r is None or r.value is None or r.value.op != "tuple":
            return None
        ip = r.params[f.posnames[1]]
        out = []
        for v in r.value.args[0]:
            if v is ip:
                out.append("index")
            elif v.op == "index" and v.args[1] is ip and v.args[0].op == "attr":
                out.append(("attr", v.args[0].args[1]))
            else:
                out.append(None)
        return out

    def index(self, t, x, i):
        ld = self.loader(x)
        if ld is not None:
            L, ds = ld
            g = self.getitem(ds)
            k = intval(i)
            if g is None or k is None or not -len(g) <= k < len(g) or g[k] is None:
                return None
            if g[k] == "index":
                return Sh([(("batch", L),)])
            v = self.r.state.heap.get((ds, g[k][1])) if self.r.state is not None else None
            s = self(v) if v is not None else None
            return Sh([(("batch", L),)] + (s.d[1:] if s is not None and not s.open else []), s is None or s.open, strip_pass(t) if s is None or s.open else None)
        if x.op == "meth" and x.args[0] in PAIR and intval(i) in (0, 1) and ("dim" in dict(x.args[3]) or x.args[0] in ("sort", "topk")):
            if x.args[0] == "sort":
                s = self(x.args[1])
                k = intval(dict(x.args[3]).get("dim", T("const", "int", -1)))
                if s is None or k is None or s.open and k < 0:
                    return None
                return self.setdim(s, k % len(s.d) if not s.open else k, lambda old: None if old is None else (("perm", T("index", x, T("const", "int", 1)), old),))
            return self.pair(x)
        if x.op in ("call", "rcall", "vcall", "tuple", "list") and intval(i) is not None:
            if x.op in ("tuple", "list"):
                k = intval(i)
                return self(x.args[0][k]) if -len(x.args[0]) <= k < len(x.args[0]) else None
            return self.component(t, x, intval(i))
        s = self(x)
        if s is None:
            s = self.opened(x)
        items = list(i.args[0]) if i.op == "tuple" else [i]
        if any(z.op == "ellipsis" for z in items):
            if s.open:
                return None
            k = [n for n, z in enumerate(items) if z.op == "ellipsis"][0]
            used = sum(1 for z in items if z.op != "ellipsis" and not is_const(z, None))
            if used > len(s.d):
                return None
            items = items[:k] + [T("slice", T("const", "NoneType", None), T("const", "NoneType", None), T("const", "NoneType", None))] * (len(s.d) - used) + items[k + 1:]
        out, pos = [], 0
        adv = None
        for z in items:
            if is_const(z, None):
                out.append(())
                continue
            old = s.get(pos)
            if old is None and not (pos < len(s.d)):
                return None
            if z.op == "slice":
                full = all(is_const(q, None) for q in z.args)
                out.append(old if full else None if old is None else (("take", z, old),))
            elif intval(z) is not None or self.scalar(z):
                pass
            else:
                zs = self(z)
                if self.maskish(z):
                    n = len(zs.d) if zs is not None and not zs.open else 1
                    olds = [s.get(pos + q) for q in range(n)]
                    if any(q is None for q in olds):
                        out.append(None)
                    else:
                        whole = tuple(l for q in olds for l in q)
                        if zs is not None and not zs.open:
                            for q, w in zip(olds, zs.d):
                                if w is not None and q != w:
                                    self.compare(t, q, w)
                        out.append((("sel", strip_pass(z), whole),))
                    pos += n - 1
                elif adv is None and self.iota(z) is not None:
                    # every position of the axis, in order
                    n = self.iota(z)
                    if old is not None:
                        self.compare(t, old, n)
                    adv = len(out)
                    out.append(old if old == n else n)
                    old = n
                    rest = [q for q in items[items.index(z) + 1:]]
                    for q in rest:
                        qs = self(q)
                        if q.op != "slice" and qs is not None and not qs.open and len(qs.d) == 1 and qs.d[0] is not None and not self.maskish(q):
                            self.compare(t, old, qs.d[0])
                elif zs is not None and not zs.open and len(zs.d) == 1:
                    self.flatindex(t, z, old)
                    if adv is None:
                        adv = len(out)
                        b = self.batch(z)
                        out.append(b if b is not None else (("take", strip_pass(z), old),) if not self.is_perm(z) and old is not None else self.taken(z, old) if old is not None else None)
                        if zs.d[0] is not None and b is None and self.rowsof(z) is not None:
                            out[-1] = self.rowsof(z)
                    # later index vectors share the axis of the first
                else:
                    if adv is None:
                        adv = len(out)
                        out.append(self.taken(z, old) if old is not None and (self.is_perm(z) or self.batch(z)) else (("take", strip_pass(z), old),) if old is not None else None)
            pos += 1
        if s.open:
            return Sh(out, True, strip_pass(t)) if items else None
        return Sh(out + s.d[pos:])

    def iota(self, z):
        """size of an index vector 0, 1, ..., n - 1"""
        z = strip_pass(z)
        if z.op == "call" and z.args[0] == "torch.arange" and (len(z.args[1]) == 1 or len(z.args[1]) == 2 and is_const(z.args[1][0], 0)):
            return self.size(z.args[1][-1]) or None
        return None

    def rowsof(self, z):
        """rows chosen by (a reordering of) the position index of a batch"""
        y = z
        while y.op == "meth" and y.args[0] in ("flip", "clone", "detach", "to", "long"):
            y = y.args[1]
        if y is not z and self.batch(y) is not None:
            s = self(z)
            return s.d[0] if s is not None and not s.open and len(s.d) == 1 else None
        return None

    def scalar(self, z):
        if z.op in ("ridx", "loopvar"):
            return True
        if z.op == "bin" and z.args[0] in "+-":
            return all(self.scalar(q) or intval(q) is not None for q in z.args[1:])
        if z.op == "index" and z.args[0].op == "elem":
            return True
        s = self(z)
        return s is not None and not s.open and s.d == []

    def maskish(self, z):
        z = strip_pass(z)
        if z.op == "cmp":
            return True
        if z.op == "un" and z.args[0] == "~" or z.op == "not":
            return True
        if z.op == "bin" and z.args[0] in ("&", "|", "^"):
            return any(self.maskish(q) for q in z.args[1:])
        if z.op == "meth" and z.args[0] in ("isnan", "isfinite", "isinf", "bool", "any", "all", "logical_not"):
            return True
        if z.op == "meth" and z.args[0] in ("reshape", "flatten", "view", "repeat_interleave", "repeat", "squeeze"):
            return self.maskish(z.args[1])
        if z.op == "param" and "mask" in z.args[0] or z.op == "attr" and "mask" in z.args[1]:
            return True
        if z.op == "call" and z.args[0].endswith("get_missing_mask") or z.op in ("rcall", "vcall") and "missing_mask" in str(z.args[:2]):
            return True
        return False

    def flatindex(self, t, z, old):
        """x[arange(n) * k + j] walks an axis laid out as n blocks of k"""
        if old is None or len(old) < 2:
            return
        z = strip_pass(z)
        if z.op == "bin" and z.args[0] == "+":
            for p, q in ((z.args[1], z.args[2]), (z.args[2], z.args[1])):
                n = self.iota(p)
                if n is not None and q.op == "bin" and q.args[0] == "*" and len(old) == 2 and old[0] != old[1]:
                    for v in q.args[1:]:
                        if self.size(v) == n:
                            # j * n + arange(n) walks an axis laid out as blocks of n
                            if old[1:] == n:
                                self.issue("agree", t, f"block index into {axis(old)}")
                            elif old[:1] == n:
                                self.issue("order", t, f"the axis runs over {axis(old)} but is indexed as blocks of {axis(n)}")
                            return
                if p.op == "bin" and p.args[0] == "*":
                    for u, v in ((p.args[1], p.args[2]), (p.args[2], p.args[1])):
                        u = strip_pass(u)
                        if u.op == "call" and u.args[0] == "torch.arange":
                            n = self.size(u.args[1][-1])
                            k = self.size(v)
                            if n is None or k is None:
                                return
                            if n + k == old:
                                self.issue("agree", t, f"block index into {axis(old)}")
                            elif sorted(map(repr, n + k)) == sorted(map(repr, old)):
                                self.issue("order", t, f"the axis runs over {axis(old)} but is indexed as {axis(n)} blocks of {axis(k)}")
                            elif len(old) == 2 and n == old[1:] or len(old) == 2 and n == old[:1] and k != old[1:] and k in (old[:1],):
                                self.issue("order", t, f"the axis runs over {axis(old)} but is indexed as {axis(n)} blocks of {axis(k)}")

    # ------------------------------------------------------------------ calls
    def component(self, t, x, k):
        if x.op == "call" and x.args[0].endswith("gauss_hermite") or x.op == "rcall" and x.args[0].endswith("gauss_hermite"):
            row = (("s", T("rows", x)),)
            return Sh([row, ("D",)]) if k == 0 else Sh([row])
        return None

    def vcall(self, t):
        if t.op == "vcall":
            name, bt = t.args[1], dict(t.args[3])
        else:
            name, bt = t.args[0].rsplit(".", 1)[-1], dict(t.args[1])
        vals = list(bt.values())
        if name == "forward" and "theta" in bt:
            s = self.sh(bt["theta"])
            return Sh([s.get(0), ("I", "C")])
        if name == "item_probabilities" and "theta" in bt:
            s = self.sh(bt["theta"])
            return Sh([s.get(0), ("I",), ("C",)])
        if name == "probabilities_from_output" and vals:
            s = self.sh(vals[0])
            return Sh([s.get(0), ("I",), ("C",)])
        if name == "log_likelihood" and "data" in bt and "output" in bt:
            return self.likelihood(t, bt)
        if name in ("expected_scores",) and "theta" in bt:
            s = self.sh(bt["theta"])
            return Sh([s.get(0), ("I",)]) if not is_const(bt.get("return_item_scores", T("x")), False) else Sh([s.get(0)])
        if name in ("transform_theta", "inverse_transform_theta", "transform", "inverse", "__call__", "get_missing_mask") and vals:
            return self(vals[0])
        if name in ("theta_scores", "latent_scores") and "data" in bt:
            s = self.sh(bt["data"])
            return Sh([s.get(0), ("D",)])
        if name == "probability_gradients" and "theta" in bt:
            s = self.sh(bt["theta"])
            return Sh([s.get(0), ("I",), ("C",), ("D",)])
        return None

    def likelihood(self, t, bt):
        ds, os_ = self.sh(bt["data"]), self.sh(bt["output"])
        m = bt.get("missing_mask")
        row = ds.get(0)
        for other, what in ((os_, "model output"), (self.sh(m) if m is not None and not is_const(m, None) else None, "missing mask")):
            if other is None:
                continue
            x = other.get(0)
            if row is not None and x is not None:
                self.compare(t, row, x)
        lr = bt.get("loss_reduction")
        if lr is not None and is_const(lr, "none"):
            if not ds.open and all(d is not None for d in ds.d):
                return Sh([tuple(l for d in ds.d for l in d)])
            if row is not None:
                return Sh([row + ("I",)])
            return None
        return Sh([]) if lr is not None and is_const(lr, "sum") else None

    def call(self, t, n, args, kw):
        if n in ("torch.cat", "numpy.concatenate", "torch.concat") and args:
            return self.cat(t, args, kw)
        if n in ("torch.zeros", "torch.ones", "torch.full", "torch.empty", "torch.rand", "torch.randn") and args:
            z = args[0] if args[0].op in ("tuple", "list") else None
            if n == "torch.full" and z is None:
                return None
            sizes = list(z.args[0]) if z is not None else [q for q in args]
            if any(q.op == "star" for q in sizes):
                return None
            return Sh([self.size(q) for q in sizes])
        if n.endswith("_like") and args:
            return self(args[0])
        if n == "torch.arange" and args:
            if len(args) == 1 or len(args) == 2 and is_const(args[0], 0):
                return Sh([self.size(args[-1])])
            return Sh([None])
        if n == "torch.eye" and args:
            return Sh([self.size(args[0])] * 2)
        if n in ("torch.tensor", "torch.as_tensor", "torch.from_numpy", "torch.nn.Parameter", "torch.nn.parameter.Parameter") and args:
            x = args[0]
            if x.op in ("list", "tuple"):
                return None
            if x.op == "attr" and x.args[1] in ("item_categories", "mc_correct"):
                return Sh([("I",)])
            return self(x)
        if n == "torch.linspace":
            k = args[2] if len(args) > 2 else kw.get("steps")
            return Sh([self.size(k)]) if k is not None else None
        if n == "torch.cartesian_prod":
            return Sh([], True, t)
        if n == "torch.stack" and args:
            seq = args[0]
            k = intval(args[1]) if len(args) > 1 else 0
            if seq.op in ("list", "tuple") and seq.args[0] and k is not None:
                ss = [self(x) for x in seq.args[0]]
                if all(s is not None and s == ss[0] and not s.open for s in ss):
                    k = k if k >= 0 else len(ss[0].d) + 1 + k
                    return Sh(ss[0].d[:k] + [(("n", len(ss)),) if len(ss) > 1 else ()] + ss[0].d[k:])
            return None
        if n == "torch.einsum":
            return self.einsum(t, args)
        if n in ("torch.maximum", "torch.minimum"):
            return self.broadcast(t, list(args))
        if n in ("torch.logsumexp",) and args:
            return None
        return None

    def cat(self, t, args, kw):
        seq = args[0]
        k = intval(args[1]) if len(args) > 1 else intval(kw["dim"]) if "dim" in kw else 0
        # [x] * n
        if seq.op == "bin" and seq.args[0] == "*":
            for u, v in ((seq.args[1], seq.args[2]), (seq.args[2], seq.args[1])):
                if u.op in ("list", "tuple") and len(u.args[0]) == 1:
                    s = self.sh(u.args[0][0])
                    r = self.size(v)
                    if k is None or r is None or k < 0 and s.open:
                        return None
                    return self.setdim(s, k if k >= 0 else k + len(s.d), lambda old: None if old is None else r + old)
        if seq.op == "listof":
            return None
        if seq.op in ("list", "tuple") and seq.args[0] and k is not None:
            ss = [self(x) for x in seq.args[0]]
            if any(s is None or s.open for s in ss) or len({len(s.d) for s in ss}) != 1:
                return None
            n = len(ss[0].d)
            if not -n <= k < n:
                return None
            k %= n
            out = []
            for i in range(n):
                if i == k:
                    out.append(None)
                else:
                    ds = [s.d[i] for s in ss]
                    known = [d for d in ds if d is not None]
                    for d in known[1:]:
                        if d != known[0]:
                            self.compare(t, known[0], d)
                    out.append(known[0] if known and all(d == known[0] for d in ds) else None)
            return Sh(out)
        return None

    def einsum(self, t, args):
        if not args or not is_const(args[0]) or "->" not in str(cval(args[0])):
            return None
        eq = cval(args[0]).replace(" ", "")
        ins, out = eq.split("->")
        ins = ins.split(",")
        if len(ins) != len(args) - 1 or any("..." in z for z in ins):
            return None
        m = {}
        for z, x in zip(ins, args[1:]):
            s = self(x)
            if s is None or s.open or len(s.d) != len(z):
                continue
            for c, d in zip(z, s.d):
                if d is None:
                    continue
                if c in m and m[c] != d and m[c] != () and d != ():
                    self.compare(t, m[c], d)
                m.setdefault(c, d)
        return Sh([m.get(c) for c in out])
