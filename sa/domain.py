"""Log domain and probability domain of values."""
from .terms import T, Term, is_const, cval, numval, walk, show, intval
from .shapes import numberlike

PASS = {"sum", "nansum", "mean", "nanmean", "reshape", "squeeze", "unsqueeze", "to", "cpu", "cuda", "item", "detach", "clone", "float", "double", "flatten", "permute", "contiguous", "repeat",
        "repeat_interleave", "expand", "transpose", "numpy", "tolist", "cumsum", "max", "min", "amax", "amin", "median", "chunk", "split", "unbind", "index_select", "masked_select",
        "half", "flip", "clamp", "gather", "narrow", "select", "expand_as", "view_as", "sort", "copy", "clamp_min", "clamp_max", "requires_grad_", "tensor_split", "nan_to_num", "retain_grad", "tile"}
PASSCALL = {"float", "sum", "torch.stack", "torch.cat", "numpy.mean", "numpy.sum", "numpy.array", "torch.tensor", "torch.as_tensor", "list", "tuple", "torch.hstack", "torch.vstack", "copy.deepcopy",
            "torch.nn.Parameter", "torch.nn.parameter.Parameter", "torch.maximum", "torch.minimum", "max", "min", "torch.clone"}
LOGF = {"log_likelihood", "log_prob", "group_fit_log_likelihood"}
PROBF = {"pdf", "item_probabilities", "probabilities_from_output", "probabilities"}
EMPTY = frozenset()
LOG, PROB, AVG = frozenset(("log",)), frozenset(("prob",)), frozenset(("avg",))
ELOG, LRAT = frozenset(("elog",)), frozenset(("lrat",))      # a probability times a log-probability; a ratio of log-probabilities


class Domain:
    def __init__(self, r, attrs=None, issue=None, seeds=None, links=False):
        self.r, self.I = r, r.interp
        self.steps = r.interp.steps
        self.memo, self.busy = {}, set()
        self.attrs = attrs or {}
        self.issue = issue or (lambda kind, t, msg: None)
        self.seeds = seeds or {}
        self.links = links          # inverse links (sigmoid) count as probabilities

    def __call__(self, t):
        if not isinstance(t, Term):
            return EMPTY
        if t in self.memo:
            return self.memo[t]
        if t in self.busy:
            return EMPTY
        self.busy.add(t)
        r = self.visit(t)
        self.busy.discard(t)
        self.memo[t] = r
        return r

    def visit(self, t):
        if t in self.seeds:
            return self.seeds[t]
        o, a = t.op, t.args
        if o in ("vcall", "rcall"):
            n = str(a[1] if o == "vcall" else a[0]).split(".")[-1]
            return LOG if n in LOGF else PROB if n in PROBF else EMPTY
        if o == "phi":
            return self(a[1]) | self(a[2])
        if o == "where":
            return self(a[1]) | self(a[2])
        if o == "un":
            x = self(a[1])
            return x if a[0] == "-" and x & (LOG | ELOG | LRAT) else EMPTY
        if o == "bin":
            return self.bin(t, a[0], a[1], a[2])
        if o == "meth":
            return self.meth(t, a[0], a[1], a[2], dict(a[3]))
        if o == "call":
            return self.call(t, str(a[0]), a[1], dict(a[2]))
        if o == "index":
            if a[0].op in ("tuple", "list") and intval(a[1]) is not None and -len(a[0].args[0]) <= intval(a[1]) < len(a[0].args[0]):
                return self(a[0].args[0][intval(a[1])])
            if a[0].op in ("rcall", "call") and str(a[0].args[0]).endswith("gauss_hermite") and intval(a[1]) == 1:
                return PROB
            if a[0].op == "meth" and a[0].args[0] in ("max", "min", "sort", "topk", "median") and not is_const(a[1], 0):
                return EMPTY
            if a[0].op in ("rcall", "vcall"):
                n = str(a[0].args[1] if a[0].op == "vcall" else a[0].args[0]).split(".")[-1]
                if n not in LOGF | PROBF:
                    return EMPTY
            return self(a[0])
        if o == "attr":
            if a[1] in ("data", "T", "mT", "values"):
                return self(a[0])
            tp = self.I.typeof(a[0])
            if tp and (tp[0], a[1]) in self.attrs:
                return self.attrs[(tp[0], a[1])]
            return EMPTY
        if o == "elem":
            return self(a[0])
        if o in ("list", "tuple"):
            out = EMPTY
            for x in a[0]:
                out |= self(x)
            return out
        if o in ("listof", "star"):
            return self(a[0])
        if o == "listappend":
            return self(a[0]) | self(a[1])
        if o == "setitem":
            return self(a[0]) | self(a[2])
        if o == "inplace":
            out = self(a[1])
            if a[0] in ("append", "extend", "add_", "copy_"):
                for x in a[2]:
                    out |= self(x)
            elif a[0] in ("exp_", "log_", "softmax_", "div_", "mul_"):
                return EMPTY
            return out
        if o in ("mu", "out"):
            out = self(a[2])
            for v in self.steps.get(a[0], {}).get(a[1], ()):
                v = v[1] if isinstance(v, tuple) else v
                if isinstance(v, Term):
                    out |= self(v)
            return out
        return EMPTY

    def bin(self, t, op, x, y):
        A, B = self(x), self(y)
        if op in ("+", "-"):
            if "log" in A and "prob" in B or "prob" in A and "log" in B:
                self.issue("mixed", t, f"a log-probability and a probability are {'added' if op == '+' else 'subtracted'}: {show(x, 3)[:70]} and {show(y, 3)[:70]}")
                return EMPTY
            if op == "-":
                if A == PROB and B == PROB:
                    return EMPTY
                if B == PROB and numval(x) is not None or A == PROB and numval(y) is not None:
                    return PROB
                return (A | B) & (LOG | ELOG | LRAT)
            if A == PROB or B == PROB:
                return PROB if A == B or numberlike(x) or numberlike(y) else EMPTY
            if A & AVG or B & AVG:
                return AVG
            return A | B
        if op == "*":
            if "log" in A and "log" in B:
                self.issue("product", t, f"two log-probabilities are multiplied: {show(x, 3)[:70]} and {show(y, 3)[:70]}")
                return EMPTY
            if A == PROB and B == PROB:
                return PROB
            if A == PROB and B == LOG or A == LOG and B == PROB:
                return ELOG
            if A == LOG and not B or B == LOG and not A:
                return LOG
            if A == PROB and not B:
                return PROB if numberlike(y) else AVG
            if B == PROB and not A:
                return PROB if numberlike(x) else AVG
            return EMPTY
        if op in ("/", "//"):
            if A == PROB:
                return PROB if "log" not in B else EMPTY
            if A == LOG and B == LOG:
                return LRAT
            if A == LOG:
                return LOG if not B and (numberlike(y) or y.op == "attr" or y.op == "param" or y.op == "meth" and y.args[0] == "log") else EMPTY
            return A & AVG
        if op == "**":
            return A & PROB
        return EMPTY

    def meth(self, t, n, x, args, kw):
        A = self(x)
        if n == "log_prob":
            return LOG
        if n in ("cdf", "pdf"):
            return PROB
        if n in ("exp", "exp_", "logsumexp", "softmax", "log_softmax") and A and (A == ELOG or A == LRAT):
            self.issue("exp", t, f"{'a log-probability multiplied by a probability' if A == ELOG else 'a ratio of log-probabilities'} is exponentiated: {show(x, 3)[:90]}")
        if n in ("exp", "exp_"):
            if "prob" in A:
                self.issue("exp", t, f"the exponential of a probability is taken: {show(x, 3)[:90]}")
            return PROB if "log" in A else EMPTY
        if n in ("log", "log2", "log10", "log1p"):
            if "log" in A:
                self.issue("log", t, f"the logarithm of a log-probability is taken: {show(x, 3)[:90]}")
            return LOG if "prob" in A else EMPTY
        if n == "logsumexp":
            if "prob" in A:
                self.issue("logsumexp", t, f"log-sum-exp is applied to probabilities: {show(x, 3)[:90]}")
            return LOG if "log" in A else EMPTY
        if n == "softmax":
            if "prob" in A:
                self.issue("softmax", t, f"softmax is applied to probabilities: {show(x, 3)[:90]}")
            return PROB
        if n == "log_softmax":
            if "prob" in A:
                self.issue("softmax", t, f"log-softmax is applied to probabilities: {show(x, 3)[:90]}")
            return LOG
        if n == "sigmoid":
            return PROB if self.links else EMPTY
        if n in ("prod", "cumprod"):
            if "log" in A:
                self.issue("product", t, f"log-probabilities are multiplied: {show(x, 3)[:90]}")
            return A & PROB
        if n == "cross_entropy":
            if "prob" in A or "log" in A and x.op == "meth" and x.args[0] == "log":
                self.issue("cross_entropy", t, f"cross-entropy, which takes logits, is applied to {'probabilities' if 'prob' in A else 'logarithms'}: {show(x, 3)[:90]}") if "prob" in A else None
            return LOG
        if n == "nll_loss":
            if "prob" in A:
                self.issue("nll", t, f"the negative log-likelihood loss is applied to probabilities: {show(x, 3)[:90]}")
            return LOG
        if n == "__call__" and x.op == "call" and str(x.args[0]).endswith("KLDivLoss"):
            if args:
                if "prob" in self(args[0]):
                    self.issue("kl", t, f"the divergence takes log-probabilities as input but gets probabilities: {show(args[0], 3)[:90]}")
                if len(args) > 1 and "log" in self(args[1]) and not is_const(dict(x.args[2]).get("log_target"), True):
                    self.issue("kl", t, f"the divergence takes a target of probabilities but gets log-probabilities: {show(args[1], 3)[:90]}")
            return EMPTY
        if n in PASS:
            return A
        return EMPTY

    def call(self, t, n, args, kw):
        s = n.split(".")[-1]
        if s in ("kl_div",) and args:
            if "prob" in self(args[0]):
                self.issue("kl", t, f"the divergence takes log-probabilities as input but gets probabilities: {show(args[0], 3)[:90]}")
            return EMPTY
        if n in PASSCALL and args:
            out = EMPTY
            for x in args[:1] if n not in ("max", "min", "torch.maximum", "torch.minimum") else args:
                out |= self(x)
            return out
        if s in ("exp", "log", "log2", "log10", "logsumexp", "prod", "softmax") and args and n.split(".")[0] in ("numpy", "math", "scipy"):
            return self.meth(t, s, args[0], args[1:], kw)
        return EMPTY


def infer_attrs(lib):
    """domains of the values that methods store in attributes of their own class"""
    out = {}
    p = lib.p
    for q, c in sorted(p.classes.items()):
        for n, f in sorted(c.methods.items()):
            r = lib.run(f)
            if r is None or r.state is None:
                continue
            D = None
            for e in r.events:
                if e.kind != "setattr" or not isinstance(e.data, tuple) or len(e.data) < 4 or not isinstance(e.data[3], Term):
                    continue
                ob, nm, new = e.data[0], e.data[1], e.data[3]
                if nm == "data" and isinstance(ob, Term) and ob.op == "attr":
                    ob, nm = ob.args[0], ob.args[1]
                tp = r.interp.typeof(ob) if isinstance(ob, Term) else None
                if not tp:
                    continue
                D = D or Domain(r)
                d = D(new) & (LOG | PROB)
                if d:
                    out[(tp[0], nm)] = out.get((tp[0], nm), EMPTY) | d
    return {k: v for k, v in out.items() if len(v) == 1}
