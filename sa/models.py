"""Small configurations of every item response model, with all parameters and latent scores abstract."""
import itertools

from . import cells as C
from .abst import Instance, Eval, Unknown, arr
from .cells import Illshaped
from .terms import T, const, show

CONFIGS = [
    ("2 items", [3, 2], 2, [[True, False], [True, True]]),
    ("3 items", [2, 4, 3], 2, [[False, True], [True, True], [True, False]]),
]
CHOICES = {
    "separate": ["items", "categories"],
    "negative_latent_variable_item_relationships": [True, False],
    "use_bounded_activation": [True, False],
    "incorrect_response_model": ["nominal", "bspline"],
}


def lst(xs):
    return T("list", tuple(lst(x) if isinstance(x, (list, tuple)) else const(x) for x in xs))


def boolean(rows):
    return T("call", "torch.tensor", (lst(rows),), (("dtype", T("global", "torch.bool")),))


class Case:
    """one model on one configuration"""
    def __init__(self, lib, q, label, inst, cats, lvs, rel, options):
        self.lib, self.q, self.label, self.inst, self.cats, self.lvs, self.rel, self.options = lib, q, label, inst, cats, lvs, rel, options
        self.name = q.rsplit(".", 1)[-1]
        self.rows = 2
        self.why, self.ill = None, False
        self.probs = self.out = None
        self.theta = T("theta", self.rows, lvs)
        try:
            r, e = inst.method("forward", {"theta": self.theta} if "theta" in lib.p.find_method(q, "forward").posnames else {lib.p.find_method(q, "forward").posnames[1]: self.theta})
            if r.value is None:
                raise Unknown("forward has no value")
            self.outterm, self.fwd = r.value, r
            self.out = e(r.value)
            f = lib.p.find_method(q, "probabilities_from_output")
            r2, e2 = inst.method("probabilities_from_output", {f.posnames[1]: r.value})
            self.probterm, self.prb = r2.value, r2
            self.probs = e2(r2.value)
        except Unknown as u:
            self.why, self.ill = str(u), isinstance(u, Illshaped)
        except KeyError as u:
            self.why = f"{u}"

    def item(self, r, j):
        """cells of the categories of item j in row r"""
        _, J, K = self.probs.shape
        return self.probs.c[(r * J + j) * K:(r * J + j) * K + K]


def options(lib, q, lvs, cats, rel):
    f = lib.p.find_method(q, "__init__")
    names = [n for n in f.posnames + f.kwonly if n != "self"]
    base = {"data": const(None), "latent_variables": const(lvs), "item_categories": lst(cats), "items": const(len(cats)), "item_theta_relationships": boolean(rel),
            "mc_correct": const(None)}
    opts = {k: v for k, v in base.items() if k in names}
    axes = [[(n, v) for v in CHOICES[n]] for n in names if n in CHOICES]
    if "mc_correct" in names:
        axes.append([("mc_correct", None), ("mc_correct", [1] + [c - 2 for c in cats[1:]])])
    if "hidden_dim" in names:
        axes.append([("hidden_dim", [3]), ("hidden_dim", [6, 3]), ("hidden_dim", [2]), ("hidden_dim", [2, 4])])
    if "degree" in names and "knots" in names:
        axes.append([("degree", (1, [0.0])), ("degree", (2, [-1.0, 1.0]))])
    elif "degree" in names:
        axes.append([("degree", 1), ("degree", 3), ("degree", 5)])
    for combo in itertools.product(*axes):
        d = dict(combo)
        if "hidden_dim" in d and "use_bounded_activation" in d and (len([x for x in d["hidden_dim"] if x % 3 == 0]) == len(d["hidden_dim"])) != d["use_bounded_activation"]:
            continue
        pre = dict(opts)
        for k, v in d.items():
            if k == "degree" and isinstance(v, tuple):
                pre["degree"], pre["knots"] = const(v[0]), lst(v[1])
            else:
                pre[k] = lst(v) if isinstance(v, list) else const(v)
        yield d, pre


def short(d):
    return ", ".join(f"{k}={v}" for k, v in d.items())


def cases(lib, configs=None, only=None, limit=None):
    """every model class on every configuration and combination of its options"""
    for q in lib.concrete("BaseIRTModel"):
        name = q.rsplit(".", 1)[-1]
        if only and name not in only:
            continue
        f = lib.p.find_method(q, "__init__")
        names = f.posnames + f.kwonly
        for cname, cats, lvs, rel in configs or CONFIGS:
            if "item_categories" not in names and "models" not in names:
                cats = [2] * len(cats)
            if "latent_variables" not in names and "models" not in names:
                lvs, rel = 1, [[True]] * len(cats)
            elif "item_theta_relationships" not in names and "models" not in names:
                rel = [[True] * lvs] * len(cats)
            if "models" in names:
                yield from mixes(lib, q, cname, cats, lvs, rel)
                continue
            for d, pre in options(lib, q, lvs, cats, rel):
                parts = []
                if "correct_response_model" in names:
                    try:
                        part = Instance(lib, lib.p.cls("TwoParameterLogistic").qual, {"items": const(len(cats)), "latent_variables": const(lvs), "item_theta_relationships": boolean(rel), "data": const(None)}, name="correct")
                    except Unknown:
                        continue
                    parts.append(part)
                    pre["correct_response_model"] = part.obj
                    if d.get("mc_correct") is None:
                        continue
                label = f"{name}({cname}{', ' + short(d) if d else ''})"
                try:
                    inst = Instance(lib, q, pre, parts=parts)
                except Unknown as e:
                    if "rejects" not in str(e):
                        yield Failed(q, label, str(e))
                    continue
                yield Case(lib, q, label, inst, cats, lvs, rel, d)


class Failed:
    probs, ill = None, False

    def __init__(self, q, label, why):
        self.q, self.label, self.why, self.name = q, label, why, q.rsplit(".", 1)[-1]


def mixes(lib, q, cname, cats, lvs, rel):
    """a mix of a polytomous and a dichotomous model, in both orders"""
    gpc, two = lib.p.cls("GeneralizedPartialCredit").qual, lib.p.cls("TwoParameterLogistic").qual
    k = len(cats)
    for order in (0, 1):
        both = [(cats, rel), ([2, 2], [[True] * lvs, [False] * (lvs - 1) + [True]])]
        try:
            a = Instance(lib, gpc, {"data": const(None), "latent_variables": const(lvs), "item_categories": lst(cats), "item_theta_relationships": boolean(rel), "mc_correct": const(None)}, name="first")
            b = Instance(lib, two, {"data": const(None), "latent_variables": const(lvs), "items": const(2), "item_theta_relationships": boolean(both[1][1])}, name="second")
            ms = [a, b] if not order else [b, a]
            inst = Instance(lib, q, {"models": T("list", tuple(m.obj for m in ms))}, parts=ms)
        except Unknown as e:
            yield Failed(q, f"{q.rsplit('.', 1)[-1]}({cname})", str(e))
            continue
        if order:
            both = both[::-1]
        yield Case(lib, q, f"{q.rsplit('.', 1)[-1]}({cname}, order {order})", inst, both[0][0] + both[1][0], lvs, both[0][1] + both[1][1], {"order": order})
