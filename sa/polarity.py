"""Which way a value points: signed additive decomposition of objectives into log-probabilities and penalties."""
from .terms import T, Term, is_const, cval, numval, walk, show, intval

# operations that keep the order of their first operand and distribute over its terms, or are increasing in it
KEEP = {"sum", "nansum", "mean", "nanmean", "reshape", "squeeze", "unsqueeze", "to", "cpu", "cuda", "item", "detach", "clone", "float", "double", "flatten", "permute",
        "contiguous", "repeat", "repeat_interleave", "expand", "transpose", "nan_to_num", "numpy", "tolist", "requires_grad_", "cumsum", "median", "nanmedian",
        "logsumexp", "expand_as", "view_as", "reshape_as", "chunk", "split", "unbind", "index_select", "masked_select", "half", "type_as", "values", "flip",
        "long", "int", "square_", "round", "tanh", "sqrt", "log1p", "expm1", "clamp", "retain_grad", "copy", "mean_", "pin_memory", "gather", "tensor_split", "narrow", "select"}
KEEPCALL = {"float", "sum", "torch.stack", "torch.cat", "numpy.mean", "numpy.sum", "numpy.nanmean", "numpy.array", "numpy.asarray", "torch.tensor", "torch.as_tensor", "statistics.mean",
            "list", "tuple", "numpy.nansum", "torch.hstack", "torch.vstack", "numpy.median", "round", "copy.deepcopy", "copy.copy", "math.fsum", "torch.Tensor", "torch.clone",
            "numpy.log1p", "torch.where"}
COST = ("cross_entropy", "nll_loss", "kl_div", "mse_loss", "l1_loss", "binary_cross_entropy", "binary_cross_entropy_with_logits", "gaussian_nll_loss", "poisson_nll_loss", "smooth_l1_loss", "huber_loss")
COSTCLASS = ("KLDivLoss", "CrossEntropyLoss", "NLLLoss", "MSELoss", "L1Loss", "BCELoss", "BCEWithLogitsLoss", "GaussianNLLLoss")
LIMIT = 64


class Atom:
    __slots__ = ("sign", "coef", "factors", "term", "via")

    def __init__(self, sign, coef, factors, term, via=()):
        self.sign, self.coef, self.factors, self.term, self.via = sign, coef, factors, term, via

    def scaled(self, s, c=1.0, f=(), v=()):
        return Atom(self.sign * s, self.coef * c, self.factors + f, self.term, v + self.via)


class Polarity:
    def __init__(self, r=None, opaque_log=False):
        self.r = r
        self.steps = r.interp.steps if r is not None else {}
        self.loglike = opaque_log      # the logarithm of something that is no objective itself counts as a log-probability
        self.memo = {}

    # ---- alternatives: [(conds, [Atom])]
    def alts(self, t, depth=0, seen=()):
        k = (t.id, seen)
        if k in self.memo:
            return self.memo[k]
        out = self._alts(t, depth, seen)
        if len(out) > LIMIT:
            out = [((), [a for _, xs in out for a in xs])]
        self.memo[k] = out
        return out

    def one(self, t):
        return [((), [Atom(1, 1.0, (), t)])]

    def both(self, A, B):
        out = []
        for ca, xa in A:
            for cb, xb in B:
                d = dict(ca)
                if any(k in d and d[k] != v for k, v in cb):
                    continue
                out.append((ca + tuple(x for x in cb if x not in ca), self.cancel(xa + xb)))
        return out or [((), [])]

    def cancel(self, xs):
        """log f(exp(a - m)) + m: the shift by m and its undoing cancel"""
        out = list(xs)
        for a in list(out):
            for b in list(out):
                if a is not b and a in out and b in out and a.term is b.term and a.sign == -b.sign and a.coef == b.coef and a.factors == b.factors and \
                        ("exp" in a.via) != ("exp" in b.via):
                    out.remove(a)
                    out.remove(b)
        return out

    def scale(self, A, s, c=1.0, f=(), v=()):
        return [(cs, [a.scaled(s, c, f, v) for a in xs]) for cs, xs in A]

    def _alts(self, t, depth, seen):
        o, a = t.op, t.args
        if depth > 120:
            return self.one(t)
        go = lambda x: self.alts(x, depth + 1, seen)
        if self.leaf(t) is not None:
            return self.one(t)
        if o == "const" or o == "global":
            return [((), [])]
        if o == "phi":
            out = []
            for b, pol in ((a[1], True), (a[2], False)):
                if nanvalue(b):
                    continue
                for cs, xs in go(b):
                    if any(c is a[0] and p != pol for c, p in cs):
                        continue
                    out.append((((a[0], pol),) + cs, xs))
            return out
        if o == "where":
            return self.merge(go(a[1]), go(a[2]))
        if o == "un" and a[0] == "-":
            return self.scale(go(a[1]), -1)
        if o == "bin":
            if a[0] == "+":
                return self.both(go(a[1]), go(a[2]))
            if a[0] == "-":
                return self.both(go(a[1]), self.scale(go(a[2]), -1))
            if a[0] in ("*", "/", "//"):
                x, y = a[1], a[2]
                if a[0] == "*" and self.polarised(y) and not self.polarised(x):
                    x, y = y, x
                if self.polarised(y):
                    if a[0] == "*" or self.polarised(x):
                        return self.one(t)
                    return self.scale(go(y), -1) if numval(x) is not None and numval(x) > 0 else self.one(t)
                if not self.polarised(x) and a[0] == "*" and numval(x) is not None:
                    x, y = y, x
                n = numval(y)
                if n is not None and n != 0:
                    return self.scale(go(x), 1 if n > 0 else -1, abs(n) if a[0] == "*" else 1 / abs(n))
                if not self.polarised(x) and not additive(x):
                    if additive(y) and a[0] == "*":
                        x, y = y, x
                    else:
                        return self.one(t)
                s = factor_sign(y)
                return self.scale(go(x), s, 1.0, ((a[0], y),)) if s else self.one(t)
            if a[0] == "@":
                return self.one(t)
        if o == "meth":
            n, x = a[0], a[1]
            if n in KEEP:
                return self.scale(go(x), 1, 1.0, (), (n,) if n in ("sum", "nansum", "mean", "nanmean", "logsumexp", "exp", "log") else ())
            if n in ("exp", "log"):
                if self.polarised(x) or n == "log" and x.op == "meth" and x.args[0] in ("sum", "nansum", "mean", "exp", "to", "reshape", "squeeze", "double", "float") and self.polarised(x):
                    return self.scale(go(x), 1, 1.0, (), (n,))
                return self.one(t)
            if n in ("max", "min", "amax", "amin"):
                return self.one(t)
        if o == "index":
            if a[0].op == "meth" and a[0].args[0] in ("max", "min", "sort", "topk", "median"):
                return self.one(t)
            if a[0].op in ("tuple", "list") and intval(a[1]) is not None and -len(a[0].args[0]) <= intval(a[1]) < len(a[0].args[0]):
                return go(a[0].args[0][intval(a[1])])
            if a[0].op in ("vcall", "rcall") and self.leaf(a[0]) is None:
                return self.one(t)
            return go(a[0])
        if o == "call" and a[0] in KEEPCALL and a[1]:
            return go(a[1][0])
        if o == "call" and a[0] in ("min", "max", "torch.maximum", "torch.minimum") and a[1]:
            xs = [go(x) for x in a[1]]
            out = xs[0]
            for x in xs[1:]:
                out = self.merge(out, x)
            return out
        if o in ("list", "tuple"):
            out = [((), [])]
            for x in a[0]:
                out = self.merge(out, go(x))
            return out
        if o in ("listof",):
            return go(a[0])
        if o == "elem":
            return go(a[0]) if a[0].op not in ("call", "param", "attr", "obj") else self.one(t)
        if o == "listappend":
            return self.merge(go(a[0]), go(a[1]))
        if o == "setitem":
            return self.merge(go(a[0]), go(a[2]))
        if o == "inplace":
            if a[0] in ("append", "extend", "insert", "add_", "copy_", "masked_fill_", "index_copy_") and a[2]:
                return self.merge(go(a[1]), go(a[2][-1]))
            return go(a[1])
        if o == "star":
            return go(a[0])
        if o in ("out", "mu"):
            if t.args[0] in seen or (t.args[0], t.args[1]) in seen:
                return [((), [])]
            L, key, init = a
            s2 = seen + ((L, key),)
            st = self.steps.get(L, {}).get(key)
            out = self.alts(init, depth + 1, s2)
            for x in st or ():
                v = x[1] if isinstance(x, tuple) else x
                if isinstance(v, Term):
                    out = self.merge(out, self.alts(v, depth + 1, s2))
            return out
        if o == "attr" and a[1] in ("data", "T", "values", "mT") and extreme(t) is None:
            return go(a[0])
        if o in ("dict",):
            return self.one(t)
        return self.one(t)

    def merge(self, A, B):
        """elements of one collection: every atom belongs to some element"""
        xs = [(c, x) for c, x in A if x] + [(c, x) for c, x in B if x]
        return xs or [((), [])]

    def leaf(self, t):
        """+1: larger is a better fit; -1: larger is worse; None: not an objective on its own"""
        if t.op in ("vcall", "rcall"):
            n = str(t.args[0] if t.op == "rcall" else t.args[1]).split(".")[-1]
            if n in ("log_likelihood", "log_prob", "group_fit_log_likelihood"):
                return 1
            return None
        if t.op == "meth":
            n = t.args[0]
            if n == "log_prob":
                d = t.args[1]
                arg = t.args[2][0] if t.args[2] else dict(t.args[3]).get("value")
                if arg is not None and d.op in ("call", "phi") and any(any(x is p for x in walk(arg)) for p in dist_params(d) if any(y.op == "elem" for y in walk(p))):
                    return -1      # the density of an approximation at a draw from that approximation itself
                return 1
            if n in COST:
                return -1
            if n in ("log_softmax", "logsigmoid"):
                return 1
            if n == "__call__" and t.args[1].op == "call" and str(t.args[1].args[0]).split(".")[-1] in COSTCLASS:
                return -1
            if self.loglike and n == "log" and not t.args[2] and plain(t.args[1]):
                return 1
            return None
        if t.op == "call":
            n = str(t.args[0])
            if n.split(".")[-1] in COST:
                return -1
            if n in ("torch.distributions.kl_divergence", "torch.distributions.kl.kl_divergence"):
                return -1
        return None

    def polarised(self, t):
        return any(self.leaf(x) is not None for x in self.reach(t))

    def reach(self, t):
        """the value and what it is made of (network inputs and masks do not count)"""
        seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            if self.leaf(x) is not None:
                continue
            if x.op == "phi":
                stack += [x.args[1], x.args[2]]
            elif x.op in ("bin",):
                stack += [x.args[1], x.args[2]]
            elif x.op == "un":
                stack.append(x.args[1])
            elif x.op == "where":
                stack += [x.args[1], x.args[2]]
            elif x.op == "meth" and x.args[0] in KEEP | {"exp", "log", "max", "min", "amax", "amin", "softmax", "abs"}:
                stack.append(x.args[1])
            elif x.op in ("index", "elem", "star", "attr"):
                if isinstance(x.args[0], Term):
                    stack.append(x.args[0])
            elif x.op == "call" and (x.args[0] in KEEPCALL or x.args[0] in ("min", "max", "abs", "torch.maximum", "torch.minimum")):
                stack += list(x.args[1])
            elif x.op in ("list", "tuple"):
                stack += list(x.args[0])
            elif x.op == "listof":
                stack.append(x.args[0])
            elif x.op == "listappend":
                stack += [x.args[0], x.args[1]]
            elif x.op == "setitem":
                stack += [x.args[0], x.args[2]]
            elif x.op == "inplace":
                stack.append(x.args[1])
                stack += [y for y in x.args[2] if isinstance(y, Term)]
            elif x.op in ("out", "mu"):
                stack.append(x.args[2])
                for y in self.steps.get(x.args[0], {}).get(x.args[1]) or ():
                    v = y[1] if isinstance(y, tuple) else y
                    if isinstance(v, Term):
                        stack.append(v)

    # ---- judgement of one alternative
    def judge(self, atoms):
        """(direction, groups): +1 utility, -1 loss, 0 mixed, None nothing known"""
        dirs = []
        kl = gaussian_kl(atoms)
        for a in atoms:
            l = self.leaf(a.term)
            if l is not None:
                dirs.append((a.sign * l, a))
            elif a in kl:
                dirs.append((a.sign * kl[a], a))
            else:
                m = extreme(a.term)
                if m is not None and self.polarised(m):
                    for cs, xs in self.alts(m):
                        d, _ = self.judge(xs)
                        if d:
                            dirs.append((a.sign * d, a))
        ds = {d for d, _ in dirs}
        if not ds:
            return None, dirs
        if len(ds) == 1:
            return ds.pop(), dirs
        return 0, dirs


def extreme(t):
    """x of max(x) or min(x)"""
    if t.op == "index" and t.args[0].op == "meth" and t.args[0].args[0] in ("max", "min") and is_const(t.args[1], 0):
        return t.args[0].args[1]
    if t.op == "meth" and t.args[0] in ("amax", "amin", "max", "min"):
        return t.args[1]
    if t.op == "attr" and t.args[1] == "values" and t.args[0].op == "meth" and t.args[0].args[0] in ("max", "min"):
        return t.args[0].args[1]
    return None


def gaussian_kl(atoms):
    """terms m**2, exp(v), v of the closed form divergence from a standard normal: cost, cost, gain"""
    out = {}
    logs = {}
    for a in atoms:
        t = a.term
        if t.op == "meth" and t.args[0] == "exp":
            logs.setdefault(bare(t.args[1]), []).append(a)
    for a in atoms:
        if bare(a.term) in logs:
            out[a] = 1
            for b in logs[bare(a.term)]:
                out[b] = -1
    if out:
        for a in atoms:
            t = a.term
            if t.op == "bin" and (t.args[0] == "**" and is_const(t.args[2]) and cval(t.args[2]) == 2 or t.args[0] == "*" and t.args[1] is t.args[2]):
                out[a] = -1
    return out


def bare(t):
    while t.op == "meth" and t.args[0] in KEEP - {"tanh", "sqrt", "log1p", "expm1"}:
        t = t.args[1]
    return t


def plain(x):
    """an argument of a logarithm that is not itself a sum over sampled points of exponentials"""
    return not any(y.op == "meth" and y.args[0] in ("exp",) for y in [x])


def dist_params(d):
    if d.op == "call":
        yield from d.args[1]
        for _, v in d.args[2]:
            yield v
    elif d.op == "phi":
        yield from dist_params(d.args[1])
        yield from dist_params(d.args[2])


def additive(t):
    return t.op == "bin" and t.args[0] in ("+", "-") or t.op == "un" or t.op == "meth" and t.args[0] in ("sum", "mean", "nansum", "reshape") and additive(t.args[1]) or \
        t.op == "bin" and t.args[0] in ("*", "/") and (additive(t.args[1]) or additive(t.args[2]))


def factor_sign(y):
    """sign of a factor: counts, weights, rates and lengths are positive unless the source negates them"""
    n = numval(y)
    if n is not None:
        return (n > 0) - (n < 0)
    if y.op == "un" and y.args[0] == "-":
        return -factor_sign(y.args[1])
    if y.op == "bin" and y.args[0] in ("*", "/", "//"):
        return factor_sign(y.args[1]) * factor_sign(y.args[2])
    if y.op == "bin" and y.args[0] == "+":
        a, b = factor_sign(y.args[1]), factor_sign(y.args[2])
        return a if a == b else 0
    if y.op == "bin" and y.args[0] == "-":
        return 0
    if y.op == "phi":
        a, b = factor_sign(y.args[1]), factor_sign(y.args[2])
        return a if a == b else 0
    if y.op == "call" and y.args[0] in ("min", "max", "float", "int"):
        s = {factor_sign(x) for x in y.args[1]}
        return s.pop() if len(s) == 1 else 0
    return 1


def nanvalue(t):
    if t.op == "call" and t.args[0] in ("torch.tensor", "torch.as_tensor", "float") and t.args[1]:
        return numval(t) is not None and numval(t) != numval(t) or nanvalue(t.args[1][0])
    n = numval(t)
    return n is not None and n != n
