"""C27: hand-written derivatives are the derivatives of their functions."""
from fractions import Fraction
from ..terms import T, Term, show, is_const, cval, walk, const, intval, numval, subst
from ..algebra import Alg, Q, Unknown, num, explog
from ..logic import leaves
from ..core import AnalysisBroken
from . import c05, c06
from .c05 import strip


class Only:
    """Forward only some rules of another property's check to this one."""

    def __init__(self, ctx, rules, rename=None):
        self.c, self.rules, self.rename = ctx, rules, rename or {}
        self.lib, self.p, self.tier = ctx.lib, ctx.p, ctx.tier

    def ok(self, rule, what, n=1):
        if rule in self.rules:
            self.c.ok(self.rename.get(rule, rule), what, n)

    def unknown(self, rule, what):
        if rule in self.rules:
            self.c.unknown(self.rename.get(rule, rule), what)

    def bad(self, rule, *a, **k):
        if rule in self.rules:
            self.c.bad(self.rename.get(rule, rule), *a, **k)

    def bad_ev(self, rule, *a, **k):
        if rule in self.rules:
            self.c.bad_ev(self.rename.get(rule, rule), *a, **k)

    def floor(self, rule, n):
        pass

    def theory(self, r):
        return self.c.theory(r)


def check(ctx):
    p = ctx.p
    for q, c in sorted(p.classes.items()):
        if any(b.rsplit(".", 1)[-1] == "Function" and "autograd" in b for b in p.mro(q)) or "backward" in c.methods and "forward" in c.methods:
            custom(ctx, q)
    spline_logdet(ctx)
    flow_density(ctx)
    polynomial(ctx)
    c06.check(Only(ctx, ("jacobian", "bit-jacobian", "bit-base", "bit-items"), {"jacobian": "scale-jacobian", "bit-base": "bit-jacobian", "bit-items": "bit-jacobian"}))
    c05.check(Only(ctx, ("gradient-rescaling", "jacobian-chain", "jacobian-point")))
    accumulation(ctx)
    delta(ctx)
    ctx.floor("custom-gradient", 4)
    ctx.floor("spline-log-determinant", 4)


# ---------------------------------------------------------------------------------------------- custom autograd functions
def custom(ctx, q):
    p = ctx.p
    name = p.classes[q].name
    f, b, s = (p.find_method(q, m) for m in ("forward", "backward", "setup_context"))
    if f is None or b is None:
        return
    path, line = b.module.relpath, b.node.lineno
    rf, rb = ctx.lib.run(f), ctx.lib.run(b)
    if rf is None or rb is None or rf.value is None or rb.value is None:
        return
    old_style = s is None
    fparams = [n for n in f.posnames if not (old_style and n == f.posnames[0])]
    inputs = [rf.params[n] for n in fparams]
    # what backward finds in the context
    saved, attrs = None, {}
    src = ctx.lib.run(s) if s is not None else rf
    if src is None:
        return

    def tofwd(t):
        """value of setup_context in terms of the inputs of forward"""
        m = {}
        if s is not None:
            ins = src.params[s.posnames[1]]
            for x in walk(t):
                if x.op == "index" and x.args[0] is ins and isinstance(cval(x.args[1]), int) and cval(x.args[1]) < len(inputs):
                    m[x] = inputs[cval(x.args[1])]
                if x is src.params[s.posnames[2]]:
                    m[x] = rf.value
        return subst(t, m)
    for e in src.events:
        if e.kind == "call" and e.data.op == "meth" and e.data.args[0] == "save_for_backward":
            saved = [tofwd(x) for x in e.data.args[2]]
        if e.kind in ("setattr", "attrstore") and isinstance(e.data, tuple) and isinstance(e.data[0], Term) and e.data[0].op == "param":
            attrs[e.data[1]] = tofwd(e.data[3])
    cparam = rb.params[b.posnames[0]]
    gout = rb.params[b.posnames[1]]

    def back(t):
        """a context read of backward in terms of the inputs of forward"""
        if t.op == "index" and t.args[0].op == "attr" and t.args[0].args[0] is cparam and t.args[0].args[1] == "saved_tensors":
            i = intval(t.args[1])
            if saved is not None and i is not None and -len(saved) <= i < len(saved):
                return saved[i]
        if t.op == "attr" and t.args[0] is cparam and t.args[1] in attrs:
            return attrs[t.args[1]]
        return None
    vals = list(leaves(rb.value))
    for v in vals:
        parts = list(v.args[0]) if v.op == "tuple" else [v]
        if len(parts) != len(inputs):
            ctx.bad("custom-gradient", f"{name}.backward:count", f"backward returns {len(parts)} gradients for {len(inputs)} inputs of forward", path, line)
            continue
        ctx.ok("custom-gradient", f"{name}: one gradient per input")
        for i, g in enumerate(parts):
            if is_const(g, None):
                continue
            basis(ctx, name, rf, g, inputs, i, back, gout, path, line) or elementwise(ctx, name, rf, g, inputs, i, back, gout, path, line)


def linear_in(c, x):
    """threshold k and direction of a comparison x < k, else None"""
    if c.op == "cmp" and c.args[0] in ("<", "<="):
        a, b = c.args[1], c.args[2]
        if a is x and numval(b) is not None:
            return numval(b), True
        if b is x and numval(a) is not None:
            return numval(a), False
        neg = lambda t: t.op == "un" and t.args[0] == "-" and t.args[1] is x
        if neg(a) and numval(b) is not None:
            return -numval(b), False
        if neg(b) and numval(a) is not None:
            return -numval(a), True
    return None


def elementwise(ctx, name, rf, g, inputs, i, back, gout, path, line):
    m = {t: back(t) for t in walk(g) if back(t) is not None}
    x = inputs[i]
    y = rf.value
    g = subst(g, m)
    cuts = {}
    inf = set()
    for t in list(walk(y)) + list(walk(g)):
        if t.op == "cmp":
            li = linear_in(t, x)
            if li is not None:
                cuts[t] = li
            elif any(numval(z) is not None and abs(numval(z)) == float("inf") for z in t.args[1:]):
                inf.add(t)
        if t.op == "meth" and t.args[0] in ("isinf", "isnan"):
            inf.add(t)
        if t.op == "meth" and t.args[0] == "isfinite":
            inf.add(T("not", t))
    ks = sorted({k for k, _ in cuts.values()})
    regions = [(None, None)] if not ks else [(None, ks[0])] + list(zip(ks, ks[1:])) + [(ks[-1], None)]
    done = 0
    for lo, hi in regions:
        mid = hi - 1 if lo is None and hi is not None else lo + 1 if hi is None and lo is not None else (lo + hi) / 2 if lo is not None else 0
        cases = {c: (mid < k) == below for c, (k, below) in cuts.items()}
        for c in inf:
            cases[c.args[0] if c.op == "not" else c] = c.op == "not"
        A = Alg(cases=cases)
        what = f"{name} between {lo if lo is not None else '-inf'} and {hi if hi is not None else 'inf'}"
        try:
            fy, gy = A(y), A(g)
            A.atom(x)
            want = A.diff(fy, x) * A.atom(gout)
        except Unknown as e:
            ctx.unknown("custom-gradient", f"{what}: {e}")
            continue
        if gy.eq(want):
            ctx.ok("custom-gradient", what)
            done += 1
        elif all(t.op == "param" for t in A.free(gy) + A.free(want)):
            ctx.bad("custom-gradient", f"{name}.backward", f"{what}: backward gives {A.show(gy)}, the derivative is {A.show(want)}", path, line)
        else:
            ctx.unknown("custom-gradient", f"{what}: {A.show(gy)[:150]} against {A.show(want)[:150]}")
    return done


def basis(ctx, name, rf, g, inputs, i, back, gout, path, line):
    """Spline bases: the derivative of b_spline_basis(x, ...) is b_spline_basis_derivative(x, ..., order=1)."""
    fw = [t for t in walk(rf.value) if t.op == "call" and t.args[0].endswith("b_spline_basis")]
    ds = [t for t in walk(g) if t.op == "call" and t.args[0].endswith("b_spline_basis_derivative")]
    if not fw or not ds:
        return False
    if strip(rf.value) is not fw[0]:
        ctx.unknown("basis-gradient", f"{name}: forward does more than evaluate the basis")
        return True
    fa = bound(fw[0], ("x", "knots", "degree"))
    for d in ds:
        da = bound(d, ("x", "knots", "degree", "order"))
        order = da.get("order", const(1))
        if intval(order) != 1:
            ctx.bad("basis-gradient", f"{name}.backward:order", f"the derivative of order {show(order)} is used as gradient", path, line)
        else:
            ctx.ok("basis-gradient", f"{name}: first derivative")
        for k in ("x", "knots", "degree"):
            got = None
            if k in da:
                got = subst(da[k], {t: back(t) for t in walk(da[k]) if back(t) is not None})
            if got is None or k not in fa or not all(t.op in ("param", "const", "bin", "un", "meth", "attr") for t in walk(got)):
                ctx.unknown("basis-gradient", f"{name}: argument {k}")
            elif strip(got) is strip(fa[k]):
                ctx.ok("basis-gradient", f"{name}: same {k} in forward and backward")
            else:
                ctx.bad("basis-gradient", f"{name}.backward:{k}", f"the derivative is taken with {k} = {show(got)}, forward uses {show(fa[k])}", path, line)
    for v in leaves(g):
        if is_const(v, None):
            continue
        if not any(x is gout for x in walk(v)):
            ctx.bad("basis-gradient", f"{name}.backward:incoming", "the incoming gradient does not enter the result", path, line)
            continue
        shape(ctx, name, v, gout, path, line)
    return True


def shape(ctx, name, v, gout, path, line):
    """sum over the basis dimension of gradient times derivative, nothing else"""
    sign, summed, t = 1, None, v
    while True:
        t = strip(t)
        if t.op == "un" and t.args[0] == "-":
            sign, t = -sign, t.args[1]
        elif t.op == "meth" and t.args[0] in ("reshape", "unsqueeze", "squeeze", "expand"):
            t = t.args[1]
        elif t.op == "meth" and t.args[0] in ("sum", "nansum", "mean"):
            if summed is not None:
                return ctx.unknown("basis-gradient", name)
            summed = (t.args[0], intval(dict(t.args[3]).get("dim", const(None))))
            t = t.args[1]
        else:
            break
    if pure_derivative(t):
        return ctx.bad("basis-gradient", f"{name}.backward:incoming", "the incoming gradient does not enter the result", path, line)
    if t.op == "phi":
        return [shape(ctx, name, T("un", "-", x) if sign < 0 else x, gout, path, line) if summed is None else
                ctx.unknown("basis-gradient", f"{name}: joined value") for x in t.args[1:]]
    if t.op != "bin" or t.args[0] != "*":
        if t.op == "bin" and t.args[0] in "+-/" and any(x is gout for x in walk(t)):
            ctx.bad("basis-gradient", f"{name}.backward:product", f"the incoming gradient and the derivative are combined by {t.args[0]}", path, line)
        else:
            ctx.unknown("basis-gradient", f"{name}: {show(v)[:200]}")
        return
    fs = [t.args[1], t.args[2]]
    isg = [strip_shape(x) is gout for x in fs]
    isd = [any(z.op == "call" and z.args[0].endswith("b_spline_basis_derivative") for z in walk(x)) and pure_derivative(x) for x in fs]
    if not (isg[0] and isd[1] or isg[1] and isd[0]) or summed is None:
        ctx.unknown("basis-gradient", f"{name}: {show(v)[:200]}")
    elif sign < 0:
        ctx.bad("basis-gradient", f"{name}.backward:sign", "the gradient has the opposite sign of the derivative", path, line)
    elif summed[0] == "mean":
        ctx.bad("basis-gradient", f"{name}.backward:mean", "the contributions of the bases are averaged instead of summed", path, line)
    elif summed[1] is not None and summed[1] != -1:
        ctx.unknown("basis-gradient", f"{name}: summed over dimension {summed[1]}")
    else:
        ctx.ok("basis-gradient", f"{name}: sum over the bases of gradient times derivative")


def strip_shape(t):
    while True:
        u = strip(t)
        if u.op == "meth" and u.args[0] in ("reshape", "unsqueeze", "expand", "squeeze"):
            u = u.args[1]
        if u is t:
            return t
        t = u


def pure_derivative(t):
    for v in leaves(strip_shape(t)):
        v = strip_shape(v)
        if v.op == "phi":
            if not all(pure_derivative(x) for x in v.args[1:]):
                return False
        elif not (v.op == "call" and v.args[0].endswith("b_spline_basis_derivative")):
            return False
    return True


def bound(call, names):
    d = dict(zip(names, call.args[1]))
    d.update({k: v for k, v in call.args[2]})
    return d


# ---------------------------------------------------------------------------------------------- spline log-determinants
def spline_logdet(ctx):
    p = ctx.p
    try:
        q = p.cls("RationalQuadraticSpline").qual
    except Exception:
        return
    f = p.find_method(q, "forward")
    if f is None or "inverse" not in f.posnames:
        return
    X, Y = T("param", "X", "spline"), T("param", "Y", "spline")
    rf = ctx.lib.run_with(f, cls=q, presets={f.posnames[1]: X, "inverse": const(False)}, exact=True)
    rb = ctx.lib.run_with(f, cls=q, presets={f.posnames[1]: Y, "inverse": const(True)}, exact=True)
    res = c06.spline_formulas(rf, rb, X, Y)
    if res is None:
        ctx.unknown("spline-log-determinant", "bounds of the spline interval not recognised")
        return
    path, line = f.module.relpath, f.node.lineno
    for case, A, y, back, want, ld_f, ld_b, dy in res:
        if isinstance(back, str) or ld_f is None:
            if isinstance(back, str):
                ctx.unknown("spline-log-determinant", f"{case}: {back}")
            continue
        for side, ld, target in (("forward", ld_f, dy), ("inverse", ld_b, num(1) / dy)):
            what = f"{side} {case}"
            e = explog(A, ld)
            if e is None:
                if ld.is_zero() and not target.eq(num(1)):
                    ctx.bad("spline-log-determinant", f"RationalQuadraticSpline:{what.replace(' ', '-')}", f"{what}: log-determinant is zero although the derivative is {A.show(target)[:120]}", path, line)
                else:
                    ctx.unknown("spline-log-determinant", f"{what}: {A.show(ld)[:150]}")
                continue
            good = all(t.op in ("knot", "step", "value", "attr", "param", "u", "v") for t in A.free(e) + A.free(target))
            # the magnitude of a derivative that is positive by construction
            if e.eq(target):
                ctx.ok("spline-log-determinant", f"{what}: logarithm of the derivative")
            elif good:
                ctx.bad("spline-log-determinant", f"RationalQuadraticSpline:{what.replace(' ', '-')}",
                        f"{what}: the log-determinant is not the logarithm of the derivative of the {side} transformation", path, line)
            else:
                ctx.unknown("spline-log-determinant", what)


def flow_density(ctx):
    """Change of variables: density of the transformed value plus log-determinant of the same forward call."""
    p = ctx.p
    for q, c in sorted(p.classes.items()):
        f = c.methods.get("log_prob")
        if f is None:
            continue
        r = ctx.lib.run(f, cls=q, opaque=tuple(x.qual for k in p.classes.values() for n, x in k.methods.items() if n == "forward" and k.qual != q))
        if r is None or r.value is None:
            continue
        th = r.params[f.posnames[1]]
        for v in leaves(r.value):
            A = Alg()
            calls = [t for t in walk(v) if t.op in ("rcall", "vcall", "meth") and any(z.op == "index" and z.args[0] is t for z in walk(v)) and t.op != "meth" or c06.module_call(t) is not None]
            dens = [t for t in walk(v) if t.op == "meth" and t.args[0] == "log_prob"]
            if len(dens) != 1:
                continue
            d = dens[0]
            arg = d.args[2][0] if d.args[2] else dict(d.args[3]).get("value")
            arg = strip(arg) if arg is not None else None
            if arg is th and any(t.op == "index" and is_const(t.args[1], 1) for t in walk(v)):
                ctx.bad("flow-density", f.qual, "the base density is evaluated at the value itself instead of its transformation", f.module.relpath, f.node.lineno)
                continue
            if arg is None or arg.op != "index":
                ctx.unknown("flow-density", f"{f.qual}: {show(v)[:150]}")
                continue
            call = arg.args[0]
            ld = T("index", call, const(1))
            try:
                got = A(v)
                want = A.atom(d) + A(ld)
            except Unknown:
                continue
            if got.eq(want):
                ctx.ok("flow-density", f"{f.qual}: base density plus log-determinant")
            elif all(t in (d, ld) for t in A.free(got)):
                ctx.bad("flow-density", f.qual, f"log density is {A.show(got)}, not the base density plus the log-determinant", f.module.relpath, f.node.lineno)
            else:
                ctx.unknown("flow-density", f"{f.qual}: {A.show(got)[:200]}")
            inv = [show(x) for x in walk(call) if is_const(x, True)]
            if any(k == "inverse" and is_const(z, True) for t in [call] for k, z in kwargs_of(t)):
                ctx.bad("flow-density", f.qual + ":direction", "the density uses the inverse transformation", f.module.relpath, f.node.lineno)


def kwargs_of(t):
    if t.op == "meth":
        return t.args[3]
    if t.op == "rcall":
        return t.args[1]
    if t.op == "vcall":
        return t.args[3]
    if t.op == "call":
        return t.args[2]
    return ()


# ---------------------------------------------------------------------------------------------- polynomial antiderivative
def vec(t):
    """core of a vector of consecutive numbers: ('arange', start, stop) for any shape"""
    t = strip_shape(t)
    while t.op == "index" and t.args[1].op in ("tuple", "const"):
        t = strip_shape(t.args[0])
    if t.op == "bin" and t.args[0] in "+-":
        v, k = vec(t.args[1]), numval(t.args[2])
        if v is not None and k is not None and v[0] == "arange" and isinstance(v[1], int):
            s = 1 if t.args[0] == "+" else -1
            return "arange", v[1] + s * k, ("+", v[2], s * k) if not isinstance(v[2], tuple) else None
        return None
    if t.op == "call" and t.args[0] == "torch.arange":
        a = [x for x in t.args[1]]
        if len(a) == 1:
            return "arange", 0, a[0]
        if len(a) == 2 and intval(a[0]) is not None:
            return "arange", intval(a[0]), a[1]
    return None


def vstop(v):
    A = Alg()
    s = v[2]
    if isinstance(s, tuple):
        return A, A(s[1]) + num(s[2])
    return A, A(s)


def polynomial(ctx):
    p = ctx.p
    try:
        q = p.cls("MonotonePolynomialModule").qual
    except Exception:
        return
    c = p.classes[q]
    f = c.methods.get("forward")
    r = ctx.lib.run(f, cls=q) if f is not None else None
    if r is None or r.value is None:
        return
    path, line = f.module.relpath, f.node.lineno
    pw = {}
    for t in walk(r.value):
        if t.op == "bin" and t.args[0] == "**" and vec(t.args[2]) is not None:
            pw[t.args[2]] = vec(t.args[2])
    if not pw:
        ctx.unknown("polynomial-integral", f"{f.qual}: powers")
        return
    power = next(iter(pw.values()))
    divisors(ctx, r, f, power, "forward")
    for m in c.methods.values():
        if m.name in ("forward", "__init__") or m.name not in ("get_polynomial_coefficients",) and "coefficient" not in m.name:
            continue
        rm = ctx.lib.run(m, cls=q)
        if rm is not None and rm.value is not None:
            divisors(ctx, rm, m, power, m.name)


def divisors(ctx, r, f, power, what):
    """The coefficient of x^j is the j-th coefficient of the derivative polynomial divided by j."""
    path, line = f.module.relpath, f.node.lineno
    found = False
    good = False
    looped = False
    start_at = 1
    if power[1] != 1:
        ctx.bad("polynomial-integral", f"{f.qual}:powers", f"the powers start at {power[1]} instead of 1", path, line)
    seen = set()
    terms = list(walk(r.value))
    for lst in r.interp.steps.values():
        for steps in lst.values():
            for _, v in steps:
                terms += list(walk(v, seen))
    for L in r.interp.loopinfo:
        pass
    inloop = set()
    for lst in r.interp.steps.values():
        for steps in lst.values():
            for _, v in steps:
                inloop |= {x.id for x in walk(v)}
    for t in terms:
        if t.op == "bin" and t.args[0] == "/" and any(x.op == "call" and x.args[0] == "torch.einsum" or x.op == "bin" and x.args[0] == "@" or x.op in ("mu", "out") for x in walk(t.args[1])):
            v = vec(t.args[2])
            found = True
            if v is not None and t.id not in inloop:
                A, s = vstop(v)
                B = A(power[2]) if not isinstance(power[2], tuple) else A(power[2][1]) + num(power[2][2])
                if v[1] == power[1] and s.eq(B):
                    good = True
                else:
                    ctx.bad("polynomial-integral", f.qual, f"coefficients are divided by {show(t.args[2])[:80]} but belong to the powers {power[1]}, {power[1] + 1}, ...", path, line)
                    return
            elif t.id in inloop and scalar_step(t.args[2]):
                ctx.bad("polynomial-integral", f.qual, f"all coefficients are divided by {show(t.args[2])} in every step of the recursion instead of each by its power at the end", path, line)
                return
    if good:
        ctx.ok("polynomial-integral", f"{what}: coefficient of power j is divided by j")
    elif not found and what == "forward":
        ctx.bad("polynomial-integral", f.qual, "the coefficients of the derivative are used for the polynomial without dividing by the power", path, line)
    else:
        ctx.unknown("polynomial-integral", what)


def scalar_step(t):
    t = strip(t)
    if t.op == "bin":
        return any(scalar_step(x) for x in t.args[1:]) and all(scalar_step(x) or numval(x) is not None for x in t.args[1:])
    return t.op in ("ridx", "loopvar", "elem")


# ---------------------------------------------------------------------------------------------- gradient accumulation
def accumulation(ctx):
    """A gradient that is read in a loop after backward() belongs to that round only."""
    for f, r in ctx.lib.generic():
        back = [e for e in r.events if e.kind == "call" and e.data.op == "meth" and e.data.args[0] == "backward" and e.loops]
        if not back:
            continue
        isgrad = lambda t: any(x.op == "attr" and x.args[1] == "grad" or x.op == "mu" and isinstance(x.args[1], tuple) and x.args[1][-1] == "grad" for x in walk(t))
        reads = []
        for e in r.events:
            if not e.loops or e.kind not in ("mutate", "setattr"):
                continue
            new = e.extra[1] if e.kind == "mutate" and isinstance(e.extra, tuple) and len(e.extra) > 1 else e.data[3] if e.kind == "setattr" else None
            how = e.extra[0] if e.kind == "mutate" and isinstance(e.extra, tuple) else e.data[1]
            if how in ("zero_", "fill_", "grad", "clip_grad_norm_"):
                continue
            if isinstance(new, Term) and (isgrad(new) and not (isinstance(e.data, Term) and isgrad(e.data))):
                reads.append(e)
        if not reads:
            continue
        L = back[0].loops[-1]
        cleared = any(e.kind == "call" and e.data.op == "meth" and e.data.args[0] in ("zero_", "zero_grad") and L in e.loops for e in r.events) or \
            any(e.kind in ("setattr", "attrstore") and isinstance(e.data, tuple) and e.data[1] == "grad" and L in e.loops for e in r.events) or \
            any(e.kind == "mutate" and L in e.loops and isinstance(e.extra, tuple) and e.extra[0] in ("zero_", "fill_") for e in r.events)
        stores = any(e.loops and L in e.loops for e in reads)
        if stores:
            if cleared:
                ctx.ok("gradient-cleared", f.qual)
            else:
                ctx.bad("gradient-cleared", f.qual, "gradients of earlier rounds are still in .grad when it is read", back[0].path, back[0].line)


# ---------------------------------------------------------------------------------------------- delta method
def delta(ctx):
    """Standard errors on the transformed scale: sqrt(diag(J V J^T))."""
    import ast
    base = ctx.p.cls("BaseIRTModel").qual
    j = ctx.p.find_method(base, "theta_transform_jacobian")
    for q, f in sorted(ctx.p.functions.items()):
        if j is None or f.name == j.name or not any(isinstance(n, ast.Attribute) and n.attr == j.name for n in ast.walk(f.node)):
            continue
        r = ctx.lib.run(f, opaque=(j.qual,))
        for e in (r.events if r is not None else ()):
            if e.kind == "call" and e.data.op == "call" and e.data.args[0] == "torch.einsum" and len(e.data.args[1]) == 4 and is_const(e.data.args[1][0]):
                ops = e.data.args[1][1:]
                js = [c05.jacobian_of(x) for x in ops]
                if js[0] is None or js[2] is None or js[1] is not None:
                    continue
                eq = cval(e.data.args[1][0]).replace(" ", "").replace("...", "")
                if "->" not in eq or eq.count(",") != 2:
                    continue
                ins, out = eq.split("->")
                a, v, b = ins.split(",")
                a, b = [x[-2:][::-1] if j[0] else x[-2:] for x, j in ((a, js[0]), (b, js[2]))]
                v, out = v[-2:], out[-1:] if len(set(out[-2:])) == 1 or len(out) == 1 else out[-1:]
                if a[1] == v[0] and v[1] == b[1] and a[0] == b[0] == out:
                    ctx.ok("delta-method", f"{f.qual}: {cval(e.data.args[1][0])}")
                else:
                    ctx.bad_ev("delta-method", f.qual, f"variances are transformed by {cval(e.data.args[1][0])!r}, which is not the diagonal of J V J^T", e)
