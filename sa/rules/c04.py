"""C04: respondents, items and latent scores stay aligned."""
from .. import bits, small
from ..terms import T, Term, show, is_const, cval, walk, const, intval
from ..shapes import Shapes, Sh, axis
from ..c_util import strip_pass

TEXT = {"order": "operands of equal size lie in different orders: ", "scramble": "the reshape mixes the axes: ", "selection": "operands hold different entries: "}


def terms_of(r):
    for e in r.events:
        d = e.data
        for x in ([d] if isinstance(d, Term) else [z for z in d if isinstance(z, Term)] if isinstance(d, tuple) else []):
            yield x
        if isinstance(e.extra, tuple):
            for x in e.extra:
                if isinstance(x, Term):
                    yield x
    if r.value is not None:
        yield r.value


def where(ctx, f, r, t):
    """file, line and function of the first event that shows term t"""
    for e in r.events:
        d = e.data
        if any(x is t for x in ([d] if isinstance(d, Term) else d if isinstance(d, tuple) else ())):
            return e.path, e.line
    for e in r.events:
        d = e.data
        for x in ([d] if isinstance(d, Term) else [z for z in d if isinstance(z, Term)] if isinstance(d, tuple) else []):
            for y in walk(x):
                if y is t:
                    return e.path, e.line
    return f.module.path if hasattr(f.module, "path") else "", f.node.lineno


def run_shapes(ctx, f, r, label="", seeds=None, kinds=("order", "scramble", "selection")):
    """every term of an interpretation through the shape domain"""
    seen = set()
    out = []

    def issue(kind, t, msg):
        if (kind, t.id) in seen:
            return
        seen.add((kind, t.id))
        if kind in kinds:
            out.append((kind, t, msg))
        elif kind == "agree":
            ctx.ok("same-order", f"{f.qual}{label}: both operands of {show(t, 2)[:80]} run over {msg}")
        elif kind == "reshape":
            ctx.ok("layout", f"{f.qual}{label}: {msg}")
        elif kind == "unsure":
            ctx.unknown("same-order", f"{f.qual}{label}: {msg}")
    S = Shapes(r, seeds=seeds, issue=issue, lib=ctx.lib)
    ws = set()
    for x in terms_of(r):
        for y in walk(x, ws):
            S(y)
    for kind, t, msg in out:
        path, line = where(ctx, f, r, t)
        rule = {"order": "same-order", "scramble": "layout", "selection": "same-selection"}[kind]
        ctx.bad(rule, f.qual, TEXT[kind] + msg, path, line)
    return S


def check(ctx):
    p, lib = ctx.p, ctx.lib
    for f, r in lib.generic():
        run_shapes(ctx, f, r)
    scored(ctx)
    mml(ctx)
    likelihoods(ctx)
    mixes(ctx)
    datasets(ctx)
    bits.check(ctx, "bit-scores", exact=False)
    bits.guessing(ctx, "bit-scores", "aligned")
    small.link(ctx, "linked")
    ctx.floor("same-order", 40)
    ctx.floor("layout", 20)
    ctx.floor("likelihood-layout", 8)


def scored(ctx):
    """functions that score respondents, with the scores themselves as one value per row of the data"""
    p, lib = ctx.p, ctx.lib
    op = tuple(q for q, f in p.functions.items() if f.name in ("latent_scores",))
    users = set()
    for f, r in lib.generic():
        if f.qual not in op and any(e.kind in ("rcall", "vcall", "enter") and "latent_scores" in str(e.data[:2] if isinstance(e.data, tuple) else e.data) for e in r.events):
            users.add(f.qual)
    for q in sorted(users):
        r = lib.run(p.functions[q], opaque=op)
        if r is None:
            continue
        S = run_shapes(ctx, p.functions[q], r)
        chunks(ctx, p.functions[q], r, S)


def chunks(ctx, f, r, S):
    """tensors cut into the same number of groups hold the same respondents in the same order"""
    groups = {}
    ws = set()
    for x in terms_of(r):
        for y in walk(x, ws):
            if y.op == "meth" and y.args[0] in ("chunk", "tensor_split", "split"):
                kw = dict(y.args[3])
                n = kw.get("chunks") or kw.get("indices_or_sections") or kw.get("split_size")
                s = S(y.args[1])
                if n is not None and (kw.get("dim") is None or is_const(kw["dim"], 0)) and s is not None and s.get(0) is not None:
                    groups.setdefault((y.args[0], n), []).append((y, s.get(0)))
    for k, xs in groups.items():
        for (y, a), (z, b) in zip(xs, xs[1:]):
            if a == b:
                ctx.ok("same-groups", f"{f.qual}: {show(y, 3)[:60]} and {show(z, 3)[:60]} hold {axis(a)}")
                continue
            out = []
            old, S.issue = S.issue, lambda kind, t, msg: out.append((kind, msg))
            S.compare(z, a, b)
            S.issue = old
            path, line = where(ctx, f, r, z)
            for kind, msg in out:
                if kind in ("order", "selection"):
                    ctx.bad("same-groups", f.qual, f"the groups are formed from respondents in different orders: {msg}", path, line)
                    break
            else:
                ctx.unknown("same-groups", f"{f.qual}: {axis(a)} and {axis(b)}")


def datasets(ctx):
    """everything a data set returns for a position belongs to that position"""
    p, lib = ctx.p, ctx.lib
    for q, c in sorted(p.classes.items()):
        f = c.methods.get("__getitem__")
        if f is None or len(f.posnames) < 2:
            continue
        r = lib.run(f, cls=q)
        if r is None or r.value is None:
            continue
        ip = r.params[f.posnames[1]]
        for k, v in enumerate(r.value.args[0] if r.value.op in ("tuple", "list") else [r.value]):
            i = v.args[1] if v.op == "index" and v.args[0].op == "attr" else v
            if i is ip:
                ctx.ok("data-set-position", f"{f.qual}: component {k} is taken at the position")
            elif any(x is ip for x in walk(i)) and i.op == "bin" and i.args[0] in ("+", "-") and (intval(i.args[2]) or intval(i.args[1])):
                ctx.bad("data-set-position", f.qual, f"component {k} is taken at {show(i, 3)} instead of the position asked for", f.module.path, f.node.lineno)
            else:
                ctx.unknown("data-set-position", f"{f.qual}: component {k} {show(v, 3)[:80]}")


def mixes(ctx):
    """a mix of models hands each model its own items, and returns respondent-by-item order"""
    p, lib = ctx.p, ctx.lib
    base = p.cls("BaseIRTModel").qual
    M = [T("obj", base, f"M{i}", False) for i in (1, 2)]
    for q in lib.concrete("BaseIRTModel"):
        if not any("models" in {a for a in ()} or x == "models" for x in init_attrs(p, q)):
            continue
        f = p.find_method(q, "log_likelihood")
        if f is None or f.cls.qual == base:
            continue
        for masked in (True, False):
            mask = T("meth", "bool", T("param", "missing_mask", f.qual), (), ()) if masked else const(None)
            for red in ("none", "sum"):
                r = lib.run_with(f, cls=q, heap={"models": T("list", tuple(M), "models")}, presets={"loss_reduction": const(red), "missing_mask": mask}, exact=True)
                if r is None or r.value is None:
                    ctx.unknown("mix-items", f"{f.qual}: not followed")
                    continue
                mix(ctx, f, r, M, masked, red)


def init_attrs(p, q):
    out = set()
    for b in p.mro(q):
        c = p.classes.get(b)
        g = c.methods.get("__init__") if c else None
        if g is not None:
            import ast
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    out.add(n.attr)
    return out


def mix(ctx, f, r, M, masked, red):
    seen = {}
    for e in r.events:
        if e.kind in ("rcall", "vcall") and isinstance(e.data, tuple) and str(e.data[0]).endswith("log_likelihood") and e.data[1] in M:
            seen[e.data[1]] = (dict(e.data[2]), e)
    if len(seen) != len(M):
        ctx.unknown("mix-items", f"{f.qual}: {len(seen)} of {len(M)} models seen")
        return
    for k, m in enumerate(M):
        bt, e = seen[m]
        for what in ("data", "output", "missing_mask"):
            v = bt.get(what)
            if v is None or is_const(v, None):
                continue
            pos, sizes, src = piece(v)
            name = f"{f.qual}: {what} of model {k + 1} is part {pos} of {src}"
            if pos is None:
                ctx.unknown("mix-items", name)
            elif pos != k:
                ctx.bad("mix-items", f.qual, f"model {k + 1} gets part {pos + 1} of {src}, which belongs to another model's items", e.path, e.line)
            elif sizes is not None and len(sizes) == len(M):
                own = [any(x is mm for x in walk(s)) for mm, s in zip(M, sizes)]
                other = [any(x is mm2 for mm2 in M if mm2 is not mm for x in walk(s)) for mm, s in zip(M, sizes)]
                if all(own) and not any(other):
                    ctx.ok("mix-items", name)
                elif any(other):
                    ctx.bad("mix-items", f.qual, f"the widths of the parts of {src} are not those of the models in their order", e.path, e.line)
                else:
                    ctx.unknown("mix-items", name)
            else:
                ctx.unknown("mix-items", name)
    if red == "none" and r.value.op == "call" and r.value.args[0] in ("torch.cat", "torch.concat"):
        seq = r.value.args[1][0]
        parts = list(seq.args[0]) if seq.op in ("list", "tuple") else []
        if len(parts) == len(M) and all(x.op in ("rcall", "vcall") and "log_likelihood" in str(x.args[:2]) for x in map(strip_pass, parts)):
            ctx.bad("mix-layout", f.qual, "the flat log-likelihoods of the models are put one after the other, so they are not in respondent-by-item order", f.module.path, f.node.lineno)
        else:
            ctx.ok("mix-layout", f"{f.qual}: parts are brought into shape before they are joined")
    elif red == "none":
        ctx.unknown("mix-layout", f"{f.qual}: {show(r.value, 2)[:100]}")


def piece(v):
    """(position, sizes, source) of a part of torch.split(source, sizes, dim=1)"""
    v = strip_pass(v)
    if v.op == "index" and intval(v.args[1]) is not None:
        k, s = intval(v.args[1]), v.args[0]
        if s.op == "meth" and s.args[0] in ("split", "tensor_split"):
            z = dict(s.args[3]).get("split_size")
            return k, list(z.args[0]) if z is not None and z.op in ("list", "tuple") else None, show(s.args[1], 2)
    return None, None, show(v, 3)[:80]


def mml(ctx):
    """marginal maximum likelihood with each way of choosing integration points"""
    lib = ctx.lib
    f = ctx.p.method("MML", "fit")
    if f is None:
        return
    for m in ("quasi_mc", "gauss_hermite"):
        op = tuple(q for q in ctx.p.functions if q.endswith("gauss_hermite") or q.endswith("._quasi_mc"))
        r = lib.run(f, presets={"integration_method": const(m)}, opaque=op)
        if r is None:
            continue
        run_shapes(ctx, f, r, f"[{m}]")


def likelihoods(ctx):
    """one entry per response, respondent by item, from every model's log_likelihood"""
    p, lib = ctx.p, ctx.lib
    done = set()
    for q in lib.concrete("BaseIRTModel"):
        f = p.find_method(q, "log_likelihood")
        if f is None or f.qual in done:
            continue
        done.add(f.qual)
        for masked in (True, False):
            pre = {"loss_reduction": const("none")}
            # a given mask is a tensor, not None
            pre["missing_mask"] = T("meth", "bool", T("param", "missing_mask", f.qual), (), ()) if masked else const(None)
            r = lib.run(f, cls=q, presets=pre)
            if r is None or r.value is None:
                ctx.unknown("likelihood-layout", f"{f.qual}: not followed")
                continue
            d, o = r.params["data"], r.params["output"]
            row = (("s", T("rows", f.qual)),)
            seeds = {d: Sh([row, ("I",)]), o: Sh([row, ("I", "C")])}
            if masked:
                seeds[T("param", "missing_mask", f.qual)] = Sh([row, ("I",)])
            S = run_shapes(ctx, f, r, " (masked)" if masked else "", seeds)
            want = row + ("I",)
            for conds, v, node in r.rets:
                s = S(v)
                name = f"{f.qual} returns {s} for loss_reduction='none'{' with a missing mask' if masked else ''}"
                if s is None or s.open or len(s.d) != 1 or s.d[0] is None:
                    ctx.unknown("likelihood-layout", name)
                elif s.d[0] == want:
                    ctx.ok("likelihood-layout", name)
                elif isinstance(s.d[0][0], tuple) and s.d[0][0][0] == "sel":
                    ctx.bad("likelihood-layout", f.qual, f"{name}: entries are left out, so they no longer belong to their respondents and items", f.module.path, node.lineno if node is not None else f.node.lineno)
                elif sorted(map(repr, s.d[0])) == sorted(map(repr, want)):
                    ctx.bad("likelihood-layout", f.qual, f"{name}: not in respondent-by-item order", f.module.path, node.lineno if node is not None else f.node.lineno)
                else:
                    ctx.unknown("likelihood-layout", name)
