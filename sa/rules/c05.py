"""C05: order of chained scale transformations, of their inverses and of their Jacobians."""
from ..terms import T, show, const, is_const, walk
from ..core import AnalysisBroken

STRIP = {"clone", "detach", "contiguous", "requires_grad_", "to", "float", "cpu"}


def strip(t):
    while True:
        if t.op == "meth" and t.args[0] in STRIP:
            t = t.args[1]
        elif t.op == "inplace" and t.args[0] in ("requires_grad_", "detach_"):
            t = t.args[1]
        else:
            return t


def chain(t, method):
    """Scales applied to reach t, innermost first, and the start value; None when not of that form."""
    t = strip(t)
    out = []
    while t.op == "vcall" and t.args[1] == method:
        recv, bt = t.args[2], [v for k, v in t.args[3]]
        out.append(recv)
        if not bt:
            return None, None
        t = strip(bt[0])
    return list(reversed(out)), t


def factors(t):
    """Factors of a matrix product from left to right (identity matrices left out)."""
    t = strip(t)
    if t.op == "bin" and t.args[0] == "@":
        return factors(t.args[1]) + factors(t.args[2])
    if t.op == "call" and t.args[0] == "torch.einsum":
        a = t.args[1]
        if len(a) == 3 and is_const(a[0]):
            eq = a[0].args[1].replace(" ", "")
            if "->" in eq:
                ins, outp = eq.split("->")
                if ins.count(",") == 1:
                    x, y = ins.split(",")
                    # plain (batched) matrix product in either operand order
                    if len(x) == len(y) == len(outp) and x[:-2] == y[:-2] == outp[:-2] and len(set(x[-2:] + y[-2:])) == 3:
                        if x[-1] == y[-2] and outp[-2:] == x[-2] + y[-1]:
                            return factors(a[1]) + factors(a[2])
                        if y[-1] == x[-2] and outp[-2:] == y[-2] + x[-1]:
                            return factors(a[2]) + factors(a[1])
    x = t
    while x.op == "meth" and x.args[0] in ("repeat", "expand", "unsqueeze", "reshape", "tile") or x.op == "index" and x.args[1].op in ("tuple", "const"):
        x = x.args[1] if x.op == "meth" else x.args[0]
    if x.op == "call" and x.args[0] == "torch.eye" or x.op == "call" and x.args[0] == "torch.diag_embed" and x.args[1][0].op == "call" and x.args[1][0].args[0] == "torch.ones":
        return []
    return [t]


def check(ctx):
    p = ctx.p
    base = p.cls("BaseIRTModel").qual
    scale = p.cls("Scale").qual
    S = [T("obj", scale, f"S{i}", False) for i in (1, 2, 3)]
    names = {s: s.args[1] for s in S}
    show_scales = lambda xs: " then ".join(names.get(x, show(x)) for x in xs) or "nothing"
    opaque = lambda f: f.cls is not None and f.cls.qual == scale and f.name not in ("__call__",)

    for cls in [base] + sorted(p.subclasses[base]):
        for n in range(0, 4):
            lst = T("list", tuple(S[:n]), "scales")
            heap = {"scale": lst}
            # forward
            f = p.find_method(cls, "transform_theta")
            g = p.find_method(cls, "inverse_transform_theta")
            h = p.find_method(cls, "theta_transform_jacobian")
            if f is None or g is None or h is None:
                raise AnalysisBroken("transform_theta, inverse_transform_theta or theta_transform_jacobian vanished")
            if cls != base and all(p.classes[base].methods.get(x.name) is x for x in (f, g, h)):
                break
            r = ctx.lib.run_with(f, cls=cls, heap=heap, opaque=opaque)
            order(ctx, "forward-order", f, r, "transform", S[:n], show_scales)
            r = ctx.lib.run_with(g, cls=cls, heap=heap, opaque=opaque)
            order(ctx, "inverse-order", g, r, "inverse", list(reversed(S[:n])), show_scales)
            r = ctx.lib.run_with(h, cls=cls, heap=heap, opaque=opaque)
            jac(ctx, h, r, S[:n], show_scales)
    # attaching appends at the end
    a = p.find_method(base, "add_scale_transformation")
    if a is not None:
        new = T("obj", scale, "N", False)
        r = ctx.lib.run_with(a, cls=base, heap={"scale": T("list", tuple(S[:2]), "scales")}, presets={a.posnames[1]: new})
        so = r.params[a.posnames[0]]
        v = r.state.heap.get((so, "scale")) if r.state else None
        if v is not None and v.op == "list":
            if list(v.args[0]) == S[:2] + [new]:
                ctx.ok("attach", "a new scale is added behind the existing ones")
            else:
                ctx.bad("attach", a.qual, f"attaching a scale to [S1, S2] gives {[names.get(x, 'new') for x in v.args[0]]}", a.module.relpath, a.node.lineno)
        else:
            ctx.unknown("attach", show(v) if v is not None else "none")
    gradients(ctx, p, base, S)
    # loops over model.scale elsewhere that apply scales themselves
    for f, r in ctx.lib.generic():
        if f.name in ("transform_theta", "inverse_transform_theta", "theta_transform_jacobian"):
            continue
        for e in r.events:
            if e.kind != "rcall" or e.data[1].op != "elem" or e.stack[-1].rsplit(".", 1)[-1] in ("transform_theta", "inverse_transform_theta", "theta_transform_jacobian"):
                continue
            m = e.data[0].rsplit(".", 1)[-1]
            it = e.data[1].args[0]
            rev = False
            while it.op == "call" and it.args[0] in ("reversed", "list", "tuple") or it.op == "index" and it.args[1].op == "slice":
                if it.op == "call":
                    rev ^= it.args[0] == "reversed"
                    it = it.args[1][0]
                else:
                    rev ^= show(it.args[1].args[2]) == "-1"
                    it = it.args[0]
            if it.op == "attr" and it.args[1] == "scale" and m in ("transform", "inverse"):
                if (m == "inverse") != rev:
                    ctx.bad_ev("chain-elsewhere", f"{e.stack[-1]}:{m}", f"{m} is applied over the scales in {'reversed' if rev else 'attached'} order", e)
                else:
                    ctx.ok("chain-elsewhere", f"{f.qual}: {m}")


def order(ctx, rule, f, r, method, want, show_scales):
    if r.value is None:
        ctx.unknown(rule, f.qual)
        return
    got, start = chain(r.value, method)
    what = f"{f.qual} with {len(want)} scales"
    if got is None or start is None or start.op != "param":
        # mentions of a wrong kind of step are definite
        ctx.unknown(rule, f"{what}: {show(r.value)[:160]}")
        wrong = [x for x in walk(r.value) if x.op == "vcall" and x.args[1] in ("transform", "inverse") and x.args[1] != method]
        if wrong:
            ctx.bad(rule, f"{f.qual}:{method}", f"{what}: applies {wrong[0].args[1]} where {method} belongs", f.module.relpath, f.node.lineno)
        return
    if got == want:
        ctx.ok(rule, f"{what}: {show_scales(got)}")
    else:
        ctx.bad(rule, f"{f.qual}", f"{what} applies {method} of {show_scales(got)}; expected {show_scales(want)}", f.module.relpath, f.node.lineno)


def jac(ctx, f, r, scales, show_scales):
    what = f"{f.qual} with {len(scales)} scales"
    if r.value is None:
        ctx.unknown("jacobian-chain", what)
        return
    fs = factors(r.value)
    if not all(x.op == "vcall" and x.args[1] == "jacobian" for x in fs):
        ctx.unknown("jacobian-chain", f"{what}: {show(r.value)[:200]}")
        return
    order_ = [x.args[2] for x in fs]
    want = list(reversed(scales))
    if order_ != want:
        ctx.bad("jacobian-chain", f.qual, f"{what}: factors from left to right are Jacobians of {show_scales(order_)}; expected {show_scales(want)}", f.module.relpath, f.node.lineno)
        return
    for x in fs:
        i = scales.index(x.args[2])
        bt = [v for k, v in x.args[3]]
        got, start = chain(bt[0], "transform") if bt else (None, None)
        if got is None or start is None or start.op != "param":
            ctx.unknown("jacobian-point", f"{what}: {show(x)[:200]}")
        elif got == scales[:i]:
            ctx.ok("jacobian-point", f"{what}: Jacobian of S{i + 1} at the point after {show_scales(got)}")
        else:
            ctx.bad("jacobian-point", f.qual, f"{what}: the Jacobian of S{i + 1} is taken after {show_scales(got)} instead of {show_scales(scales[:i])}", f.module.relpath, f.node.lineno)
    ctx.ok("jacobian-chain", what)


TRANSPOSE = {"transpose", "mT", "T", "permute", "adjoint"}


def jacobian_of(t):
    """(number of transpositions modulo 2, row repetition, inverted) when t is the chain's Jacobian up to these steps, else None"""
    tr, rep, inv = 0, None, False
    while True:
        t = strip(t)
        if t.op == "vcall" and t.args[1] == "theta_transform_jacobian" or t.op == "rcall" and t.args[0].endswith(".theta_transform_jacobian"):
            return tr, rep, inv
        if t.op == "attr" and t.args[1] in ("mT", "T", "mH"):
            tr ^= 1
            t = t.args[0]
        elif t.op == "meth" and t.args[0] in ("transpose", "permute", "adjoint"):
            tr ^= 1
            t = t.args[1]
        elif t.op == "meth" and t.args[0] in ("repeat_interleave", "repeat", "expand", "unsqueeze", "reshape"):
            if t.args[0] in ("repeat_interleave", "repeat"):
                rep = t.args[0]
            t = t.args[1]
        elif t.op == "meth" and t.args[0] in ("inverse", "pinverse", "inv"):
            inv = not inv
            t = t.args[1]
        elif t.op == "call" and t.args[0] in ("torch.linalg.inv", "torch.linalg.pinv", "torch.inverse"):
            inv = not inv
            t = t.args[1][0]
        else:
            return None


def gradients(ctx, p, base, S):
    """Gradients on the transformed scale: g' solves J^T g' = g, with each row's own Jacobian."""
    f = p.find_method(base, "_rescale_gradients")
    if f is None:
        return
    r = ctx.lib.run(f, opaque=(p.find_method(base, "theta_transform_jacobian").qual,))
    if r is None:
        return
    for e in r.events:
        if e.kind == "call" and e.data.op == "call" and e.data.args[0] in ("torch.linalg.solve", "torch.linalg.lstsq"):
            a = e.data.args[1]
            j = jacobian_of(a[0])
            if j is None:
                ctx.unknown("gradient-rescaling", show(e.data)[:150])
            elif j[2]:
                ctx.bad_ev("gradient-rescaling", f"{f.qual}:inverse", "solves with the inverse Jacobian", e)
            elif j[0] != 1:
                ctx.bad_ev("gradient-rescaling", f"{f.qual}:transpose", "solves with the Jacobian itself; the derivative along the transformed scale needs its transpose", e)
            else:
                ctx.ok("gradient-rescaling", "solve(J^T, gradient)")
        elif e.kind == "call" and e.data.op == "call" and e.data.args[0] == "torch.bmm":
            pass
    for t in (walk(r.value) if r.value is not None else ()):
        if t.op == "bin" and t.args[0] == "@":
            l, m = jacobian_of(t.args[1]), jacobian_of(t.args[2])
            for j, left in ((l, True), (m, False)):
                if j is None:
                    continue
                if not j[2]:
                    ctx.bad("gradient-rescaling", f"{f.qual}:forward", "multiplies the gradient with the Jacobian instead of its inverse", f.module.relpath, f.node.lineno)
                elif j[0] != (1 if left else 0):
                    ctx.bad("gradient-rescaling", f"{f.qual}:transpose", "multiplies with the wrong orientation of the inverse Jacobian", f.module.relpath, f.node.lineno)
                else:
                    ctx.ok("gradient-rescaling", "inverse Jacobian applied")
