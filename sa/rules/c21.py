"""C21: imputation changes missing entries only and uses valid responses."""
import itertools
from fractions import Fraction as F

from .. import cells as C
from ..abst import Instance, Unknown, arr, value
from ..cells import Arr, Illshaped, Poly
from ..stats import NAN, Abstract, World, lst
from ..terms import T, const
from .c03 import CODES, MIXED, coded, defaults
from .c32 import Spec, differ, outcome, rows, shown, term

N = NAN
# responses of items with these numbers of categories, and the correct options
DATA = [
    ("2 items", [3, 2], [[2, 1], [N, 0], [1, N], [0, 1], [N, N]], [1, 0]),
    ("3 items", [2, 4, 3], [[1, N, 0], [0, 3, N], [N, 1, 1], [1, 2, 2], [N, 0, 2]], [0, 2, 2]),
    ("3 items, one missing response", [3, 3, 2], [[1, 2, 0], [0, 0, 1], [2, 1, N]], [2, 1, 0]),
    ("1 respondent", [3, 2], [[2, N]], [1, 0]),
    ("1 respondent without missing responses", [3, 2], [[2, 1]], [1, 0]),
    ("2 items without missing responses", [3, 2], [[2, 1], [1, 0], [0, 1]], [1, 1]),
]
TH = [[F(1)], [F(0)], [F(-1)], [F(2)], [F(1, 2)]]


def check(ctx):
    for name in ("impute_missing", "impute_missing_internal"):
        for lab, cats, data, mc in DATA:
            for cname, code in CODES + MIXED:
                for how, model, extra in METHODS:
                    one(ctx, name, lab, cats, data, mc, cname, code, how, model, extra)
        for how, model, extra, why in REFUSED:
            refuse(ctx, name, how, model, extra, why)
    dataset(ctx)
    ctx.floor("imputed", 20)


# method, kind of model given, other arguments given
METHODS = [("zero", None, ()), ("mean", None, ()), ("random incorrect", None, ("mc_correct",)), ("random incorrect", None, ("mc_correct", "item_categories")),
           ("random incorrect", "mc", ()), ("random incorrect", "mc", ("mc_correct wrong", "item_categories wrong")), ("prior expected", "scored", ()),
           ("zero", "scored", ()), ("mean", "mc", ())]
REFUSED = [("random incorrect", None, (), "without the correct options"), ("random incorrect", None, ("item_categories",), "without the correct options"),
           ("random incorrect", "scored", ("mc_correct",), "with a model that has no correct options"), ("prior expected", None, (), "without a model"),
           ("prior expected", "mc", (), "with a multiple choice model"), ("no such method", None, (), "that does not exist"), ("random incorrect", "scored", (), "with a model that has no correct options")]


def setup(ctx, name, data, cats, mc, how, model, extra):
    w = World("imputation", cats, data, TH[:data.shape[0]], mc if model == "mc" else None)
    A = Abstract(ctx.lib, w, ctx.lib.p.cls("Evaluator").qual)
    f = A.find(name, "library")
    if f is None:
        return None, None, None
    names = f.posnames + f.kwonly
    if model and "model" not in names:
        return None, None, None
    args = {"data": A.data, "method": const(how)}
    if "model" in names and model:
        args["model"] = A.M
    for e in extra:
        n = e.split()[0]
        v = mc if n == "mc_correct" else cats
        if e.endswith("wrong"):
            v = [0] * len(cats) if n == "mc_correct" else [7] * len(cats)
        args[n] = term(v)
    return A, f, args


def one(ctx, name, lab, cats, data, mc, cname, code, how, model, extra):
    A, f, args = setup(ctx, name, coded(data, code), cats, mc, how, model, extra)
    if f is None or how == "prior expected" and name.endswith("internal"):
        return
    nothing = any(all(r[j] != r[j] for r in data) for j in range(len(cats)))
    if nothing and (how == "mean" or how == "random incorrect" and not model and "item_categories" not in extra):
        return      # nothing to go by in a column without responses
    who = f"{name}, {how}, {lab}, missing responses coded {cname}" + (f", with a {'multiple choice' if model == 'mc' else 'scored'} model" if model else "") + (f", with {', '.join(extra)}" if extra else "")
    got, ill = outcome(A, Spec(name, None, on="library", args=lambda A: args), {})
    if got is None:
        if ill or never(A):
            ctx.bad("imputed", f.qual, f"{who}: {ill or 'every path raises'}", f.module.path, f.node.lineno)
        else:
            ctx.unknown("imputed", f"{who}: {A.why}")
        return
    judge(ctx, f, who, got, data, want(A.w, data, how, cats, mc), "imputed")


def never(A):
    r = getattr(A, "result", None)
    return r is not None and not r.rets and any(e.kind == "raise" and not e.conds for e in r.events)


def want(w, data, how, cats, mc):
    """for every column: the set of values that a missing response can be replaced by"""
    out = []
    for j, k in enumerate(cats):
        seen = [r[j] for r in data if r[j] == r[j]]
        if how == "zero":
            out.append([0])
        elif how == "mean":
            out.append([sum(seen) * F(1, len(seen))] if seen else [None])
        elif how == "prior expected":
            e = w.score(w.prob((F(0),), j), j)
            out.append([C.fn("round", e) if isinstance(e, Poly) else e])
        else:
            out.append([x for x in range(k) if x != mc[j]])
    return out


def alternatives(c):
    """values of a cell over all random integers in it, None when they cannot be listed"""
    if not isinstance(c, Poly):
        return [c]
    ds = sorted(C.deps(c))
    ks = [C.Atoms.items[d] for d in ds]
    if not ds or any(k[0] != "rand" for k in ks) or len(ds) > 2:
        return None
    out = []
    for vs in itertools.product(*[range(k[3]) for k in ks]):
        try:
            out.append(value(c, dict(zip(ds, vs))))
        except (Unknown, ValueError, ZeroDivisionError, OverflowError):
            return None
    return out


def judge(ctx, f, who, got, data, wants, rule):
    try:
        got = arr(got)
    except (Unknown, TypeError):
        ctx.unknown(rule, f"{who}: not a tensor")
        return
    n, J = len(data), len(data[0])
    if got.shape != (n, J):
        ctx.bad(rule, f.qual, f"{who}: the result has shape {got.shape}", f.module.path, f.node.lineno)
        return
    open_ = None
    for i in range(n):
        for j in range(J):
            g, x = got.c[i * J + j], data[i][j]
            if x == x:
                d = differ(g, x, 1e-6)
                if d is None:
                    open_ = f"entry {i}, {j}"
                elif d:
                    ctx.bad(rule, f.qual, f"{who}: the observed response {x} of respondent {i + 1} to item {j + 1} becomes {d[0]}", f.module.path, f.node.lineno)
                    return
                continue
            if wants[j] == [None]:
                continue
            if g is None:
                open_ = f"entry {i}, {j}"
                continue
            if len(wants[j]) == 1 and not (isinstance(g, Poly) and any(C.Atoms.items[a][0] == "rand" for a in C.deps(g))):
                d = differ(g, wants[j][0], 1e-6)
                if d is None:
                    open_ = f"entry {i}, {j}"
                elif d:
                    ctx.bad(rule, f.qual, f"{who}: the missing response of respondent {i + 1} to item {j + 1} becomes {d[0]} instead of {d[1]}", f.module.path, f.node.lineno)
                    return
                continue
            alts = alternatives(g)
            if alts is None:
                open_ = f"entry {i}, {j}"
                continue
            wrong = [a for a in alts if not any(a == v for v in wants[j])]
            if wrong:
                ctx.bad(rule, f.qual, f"{who}: the missing response of respondent {i + 1} to item {j + 1} can become {shown(wrong[0])}, which is not one of {wants[j]}", f.module.path, f.node.lineno)
                return
            left = [v for v in wants[j] if not any(a == v for a in alts)]
            if left:
                ctx.bad(rule, f.qual, f"{who}: the missing response of respondent {i + 1} to item {j + 1} never becomes {left[0]}", f.module.path, f.node.lineno)
                return
    if open_:
        ctx.unknown(rule, f"{who}: {open_}")
    else:
        ctx.ok(rule, who)


def refuse(ctx, name, how, model, extra, why):
    lab, cats, data, mc = DATA[0]
    A, f, args = setup(ctx, name, coded(data, N), cats, mc, how, model, extra)
    if f is None:
        return
    who = f"{name}: method {how} {why}"
    got, ill = outcome(A, Spec(name, None, on="library", args=lambda A: args), {})
    r = getattr(A, "result", None)
    if got is None and r is not None and not r.rets and any(e.kind == "raise" for e in r.events):
        ctx.ok("refused", who + " raises")
    elif got is None and ill:
        # an error of the tensor library is an error as well
        ctx.ok("refused", who + " fails")
    elif got is None:
        ctx.unknown("refused", f"{who}: {A.why}")
    else:
        ctx.bad("refused", f.qual, f"{who} raises no error", f.module.path, f.node.lineno)


def dataset(ctx):
    """the encoder input of a data set is its imputed responses"""
    lib = ctx.lib
    c = lib.p.cls("PytorchIRTDataset")
    if c is None:
        return
    f = lib.p.find_method(c.qual, "__init__")
    for lab, cats, data, mc in DATA:
        for cname, code in CODES + MIXED:
            for how in ("zero", "mean"):
                for hot in (False, True):
                    if hot and how == "mean":
                        continue
                    who = f"input of the data set, {how}, {lab}, missing responses coded {cname}" + (", one-hot encoded" if hot else "")
                    leaf = T("leaf", "responses", arr(data).shape)
                    x = coded(data, code)
                    try:
                        inst = Instance(lib, c.qual, {**defaults(f), "data": leaf, "imputation_method": const(how), "one_hot_encoded": const(hot), "item_categories": lst(cats)}, env={leaf: x})
                        got = arr(inst.ev(inst.heap[inst.obj, "input_data"]))
                    except Illshaped as u:
                        ctx.bad("input", f.qual, f"{who}: {u}", f.module.path, f.node.lineno)
                        continue
                    except (Unknown, KeyError) as u:
                        ctx.unknown("input", f"{who}: {u}")
                        continue
                    ws = want(None, data, how, cats, mc)
                    if hot:
                        flat = [[1 if (v if v == v else ws[j][0]) == k else 0 for j, v in enumerate(r) for k in range(cats[j])] for r in data]
                        judge(ctx, f, who, got, flat, None, "input")
                    else:
                        judge(ctx, f, who, got, data, ws, "input")
