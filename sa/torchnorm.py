"""One spelling for equivalent torch/numpy operations."""
from .terms import T, Term, const, NONE, is_const, cval, intval

INPLACE_LIST = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard",
                "fill"}
# positional parameter names of tensor methods (after the tensor itself)
SIG = {
    "sum": ["dim", "keepdim"], "nansum": ["dim", "keepdim"], "mean": ["dim", "keepdim"], "nanmean": ["dim", "keepdim"],
    "prod": ["dim", "keepdim"], "softmax": ["dim"], "log_softmax": ["dim"], "logsumexp": ["dim", "keepdim"],
    "max": ["dim", "keepdim"], "min": ["dim", "keepdim"], "amax": ["dim", "keepdim"], "amin": ["dim", "keepdim"],
    "argmax": ["dim", "keepdim"], "argmin": ["dim", "keepdim"],
    "cumsum": ["dim"], "cumprod": ["dim"], "unsqueeze": ["dim"], "squeeze": ["dim"], "transpose": ["dim0", "dim1"], "swapaxes": ["dim0", "dim1"],
    "repeat_interleave": ["repeats", "dim"], "clamp": ["min", "max"], "gather": ["dim", "index"], "scatter": ["dim", "index", "src"],
    "scatter_": ["dim", "index", "src"], "scatter_add": ["dim", "index", "src"], "scatter_add_": ["dim", "index", "src"],
    "index_select": ["dim", "index"], "sort": ["dim", "descending"], "argsort": ["dim", "descending"],
    "topk": ["k", "dim"], "flatten": ["start_dim", "end_dim"], "roll": ["shifts", "dims"], "chunk": ["chunks", "dim"],
    "split": ["split_size", "dim"], "tensor_split": ["indices_or_sections", "dim"], "std": ["dim", "unbiased", "keepdim"], "var": ["dim", "unbiased", "keepdim"],
    "median": ["dim", "keepdim"], "nanmedian": ["dim", "keepdim"], "quantile": ["q", "dim", "keepdim"], "any": ["dim", "keepdim"], "all": ["dim", "keepdim"],
    "flip": ["dims"], "masked_fill": ["mask", "value"], "masked_fill_": ["mask", "value"], "masked_select": ["mask"], "diff": ["n", "dim"],
    "narrow": ["dim", "start", "length"], "index_fill_": ["dim", "index", "value"], "index_fill": ["dim", "index", "value"],
    "unbind": ["dim"], "size": ["dim"], "norm": ["p", "dim", "keepdim"], "count_nonzero": ["dim"], "renorm": ["p", "dim", "maxnorm"],
    "multinomial": ["num_samples", "replacement"], "bernoulli": ["p"], "select": ["dim", "index"], "nan_to_num": ["nan", "posinf", "neginf"],
    "backward": ["gradient", "retain_graph", "create_graph"], "cross_entropy": ["target", "weight", "size_average", "ignore_index", "reduce", "reduction"],
    "nll_loss": ["target", "weight", "size_average", "ignore_index", "reduce", "reduction"],
    "linear": ["weight", "bias"], "pad": ["pad", "mode", "value"], "one_hot": ["num_classes"], "elu": ["alpha", "inplace"], "softplus": ["beta", "threshold"],
    "log_prob": ["value"], "step": ["closure"], "glu": ["dim"], "bincount": ["weights", "minlength"], "histc": ["bins", "min", "max"],
}
# torch.f(x, ...) that equals x.f(...)
METHOD_LIKE = set(SIG) - {"size", "step", "backward", "log_prob", "narrow_copy"} | {
    "exp", "log", "log1p", "expm1", "sqrt", "abs", "sign", "sigmoid", "tanh", "relu", "isnan", "isinf", "isfinite", "reshape", "squeeze", "t", "numel",
    "permute", "clone", "detach", "logit", "erf", "erfinv", "floor", "ceil", "round", "square", "rsqrt", "reciprocal", "where_", "diag", "diagonal",
    "tril", "triu", "trace", "inverse", "det", "logdet", "unique", "nonzero", "tile", "expand", "addmm", "mm", "bmm", "mv", "dot", "outer", "allclose", "equal", "lerp",
    "logcumsumexp", "cumulative_trapezoid", "trapz", "trapezoid", "deg2rad", "cos", "sin", "diag_embed", "searchsorted", "bucketize", "corrcoef", "cov",
    "conj", "movedim", "special_logit", "leaky_relu", "nan_to_num", "logical_xor", "sgn", "cummax", "cummin", "selu", "celu", "silu", "gelu", "hardtanh", "logsigmoid", "dropout", "normalize", "softmin", "absolute", "arctan", "atan", "swapdims", "unflatten", "broadcast_to",
}
ALIAS = {"swapaxes": "transpose", "swapdims": "transpose", "absolute": "abs", "special_logit": "logit", "clip": "clamp", "clip_": "clamp_", "mul": "multiply", "arctan": "atan", "inv": "inverse",
         "concat": "cat", "concatenate": "cat", "negative": "neg", "subtract": "sub", "divide": "div", "true_divide": "div", "greater": "gt", "less": "lt",
         "greater_equal": "ge", "less_equal": "le", "not_equal": "ne", "type": "to", "repeat_interleave": "repeat_interleave", "expit": "sigmoid"}
BINF = {"add": "+", "sub": "-", "multiply": "*", "mul": "*", "div": "/", "floor_divide": "//", "pow": "**", "matmul": "@", "mm": "@", "mv": "@", "bmm": "@", "dot": "@",
        "remainder": "%", "logical_and": "&", "logical_or": "|", "bitwise_and": "&", "bitwise_or": "|", "logical_xor": "^", "bitwise_xor": "^", "fmod": "%"}
CMPF = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
PREFIX = ("torch.nn.functional.", "torch.special.", "torch.linalg.", "torch.")
ALLOC = {"torch.zeros", "torch.ones", "torch.empty", "torch.full", "torch.zeros_like", "torch.ones_like", "torch.empty_like", "torch.full_like", "numpy.zeros", "numpy.empty", "numpy.ones", "numpy.full"}


def is_alloc(t):
    if t.op == "call":
        return t.args[0] in ALLOC
    if t.op == "meth":
        return t.args[0] == "clone"
    return False


def short(name):
    for p in PREFIX:
        if name.startswith(p):
            return name[len(p):]
    return None


def kwnorm(kwargs):
    return tuple(sorted(((("dim" if k in ("axis",) else k), v) for k, v in kwargs), key=lambda kv: kv[0]))


def norm_call(name, args, kwargs, interp):
    kw = kwnorm(kwargs)
    if name in ("torch.nn.functional.cross_entropy",):
        s = "cross_entropy"
    else:
        s = short(name)
    if s is not None and "." not in s:
        s = ALIAS.get(s, s)
        kd = dict(kw)
        x = args[0] if args else kd.get("input", kd.get("x"))
        if x is not None and x.op != "star":
            rest = args[1:] if args else ()
            kd2 = tuple((k, v) for k, v in kw if k not in ("input", "x") or args)
            if s in BINF and (len(rest) == 1 or "other" in kd or "exponent" in kd) and not any(k in ("out", "alpha", "rounding_mode") for k, _ in kd2):
                y = rest[0] if rest else kd.get("other", kd.get("exponent"))
                return interp.binop(BINF[s], x, y)
            if s in CMPF and (len(rest) == 1 or "other" in kd):
                return interp.cmp(CMPF[s], x, rest[0] if rest else kd["other"])
            if s in ("neg",):
                return interp.unop("-", x)
            if s in ("logical_not", "bitwise_not"):
                return interp.unop("~", x)
            if s == "square":
                return interp.binop("**", x, const(2))
            if s in ("maximum", "minimum", "fmax", "fmin") and len(rest) == 1:
                return T("call", "torch." + s, (x, rest[0]), ())
            if s in METHOD_LIKE:
                return norm_method(x, s, rest, kd2, interp)
        if s == "where" and len(args) == 1:
            return T("meth", "nonzero", args[0], (), (("as_tuple", const(True)),))
        if s == "where" and not args:
            if all(k in kd for k in ("condition", "input", "other")):
                return where(kd["condition"], kd["input"], kd["other"], interp)
        if s == "where" and len(args) == 3:
            return where(args[0], args[1], args[2], interp)
        if s in ("cat", "stack", "hstack", "vstack"):
            seq = args[0] if args else kd.get("tensors")
            dim = args[1] if len(args) > 1 else kd.get("dim", const(0))
            if seq is not None:
                if s in ("hstack", "vstack"):
                    return T("call", "torch." + s, (seq,), ())
                return T("call", "torch." + s, (seq, dim), ())
        if s == "einsum":
            return T("call", "torch.einsum", args, kw)
        if s == "concat":
            return T("call", "torch.cat", args, kw)
        return T("call", "torch." + s if name.startswith("torch.") and not name.startswith(("torch.nn.", "torch.linalg", "torch.special")) else name, args, kw)
    return T("call", name, args, kw)


def where(c, a, b, interp):
    if c.op == "un" and c.args[0] == "~":
        return T("where", c.args[1], b, a)
    if c.op == "not":
        return T("where", c.args[0], b, a)
    return T("where", c, a, b)


def norm_method(o, name, args, kwargs, interp):
    n = ALIAS.get(name, name)
    kw = list(kwnorm(kwargs))
    kd = dict(kw)
    if n in BINF and len(args) == 1 and not kw and o.op not in ("set",):
        if not (n in ("add",) and o.op in ("set", "list")):
            if interp is not None and interp.typeof(o) is None:
                return interp.binop(BINF[n], o, args[0])
    if n in CMPF and len(args) == 1 and not kw:
        return interp.cmp(CMPF[n], o, args[0])
    if n == "neg" and not args:
        return interp.unop("-", o)
    if n in ("logical_not", "bitwise_not") and not args:
        return interp.unop("~", o)
    if n == "square" and not args:
        return interp.binop("**", o, const(2))
    if n == "masked_fill" and (len(args) == 2 or "value" in kd):
        m = args[0] if args else kd.get("mask")
        v = args[1] if len(args) > 1 else kd.get("value")
        if m is not None:
            return where(m, v, o, interp)
    if n == "where" and len(args) == 2:
        return where(args[0], o, args[1], interp)
    if n == "size" and len(args) == 1:
        return T("index", T("attr", o, "shape"), args[0])
    if n == "size" and "dim" in kd:
        return T("index", T("attr", o, "shape"), kd["dim"])
    if n == "size" and not args and not kw:
        return T("attr", o, "shape")
    if n == "t" and not args:
        return T("attr", o, "T")
    if n == "item" and not args:
        return T("meth", "item", o, (), ())
    if n == "unsqueeze" or n in SIG:
        names = SIG.get(n, [])
        newkw = dict(kw)
        rest = []
        for i, a in enumerate(args):
            if a.op == "star" or i >= len(names):
                rest.append(a)
            else:
                newkw.setdefault(names[i], a)
        # tuple-valued dims given as varargs (flip(0, 1), permute) keep positional extras
        if n == "flip" and len(args) > 1:
            newkw = {"dims": T("tuple", tuple(args))}
            rest = []
        return T("meth", n, o, tuple(rest), tuple(sorted(newkw.items(), key=lambda kv: kv[0])))
    if n in ("view", "reshape", "expand", "permute", "repeat", "tile"):
        a = args
        if len(a) == 1 and a[0].op in ("tuple", "list") and not any(x.op == "star" for x in a[0].args[0]):
            a = tuple(a[0].args[0])
        if n in ("view", "reshape"):
            n = "reshape"
        return T("meth", n, o, tuple(a), tuple(kw))
    return T("meth", n, o, tuple(args), tuple(kw))
