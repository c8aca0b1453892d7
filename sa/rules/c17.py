"""C17: objectives are optimised in the right direction."""
from ..terms import T, Term, show, is_const, cval, walk, const, intval
from ..opt import optimizers, is_scheduler, is_optimizer
from ..polarity import Polarity
from ..logic import is_abstract
from .c09 import flat

WORD = {1: "a value that is better when larger", -1: "a value that is better when smaller"}


def opaque(p):
    return tuple(sorted(q for q in p.functions if q.split(".")[-1] in ("log_likelihood", "item_probabilities", "expected_scores", "group_fit_log_likelihood")))


def check(ctx):
    p, lib = ctx.p, ctx.lib
    ops = opaque(p)
    ctx.open, ctx.closed = {}, set()
    todo = []
    for q, f in sorted(p.functions.items()):
        todo.append((f, None))
    for q in sorted(p.classes):
        f = p.find_method(q, "fit")
        if f is not None and not f.is_abstract:
            todo.append((f, q))
    for f, q in todo:
        o = tuple(x for x in ops if x != f.qual and x.split(".")[-1] != f.name)
        r = lib.run(f, cls=q, opaque=o)
        if r is None or r.state is None:
            continue
        P = Polarity(r)
        objectives(ctx, f, r, P, q)
        comparisons(ctx, f, r, P)
        picks(ctx, f, r, P)
        if q is None:
            named(ctx, f, r, P)
    for k, w in sorted(ctx.open.items()):
        if k not in ctx.closed:
            ctx.unknown(k[0], w)
    values(ctx)
    overrides(ctx, ops)
    map_prior(ctx, ops)
    ctx.floor("objective", 4)
    ctx.floor("value", 4)


def opt_maximises(e):
    for o in optimizers(e):
        kw = dict(o.args[2])
        if is_const(kw.get("maximize"), True):
            return True
    return False


def direction(P, t):
    """directions of all alternatives of a value, with a witness for each"""
    out = {}
    for cs, xs in P.alts(t):
        d, ws = P.judge(xs)
        if d is not None:
            out.setdefault(d, (cs, ws))
    return out


def mixed(ctx, rule, where, e, w, what):
    cs, ws = w
    a = next(a for d, a in ws if d == 1)
    b = next(a for d, a in ws if d == -1)
    ctx.bad_ev(rule, where, f"the terms of {what} point in opposite directions: {brief(a)} against {brief(b)}", e)


def brief(a):
    return ("+" if a.sign > 0 else "-") + show(a.term, 3)[:90]


def objectives(ctx, f, r, P, q):
    steps = [e for e in r.events if e.kind == "optstep" and e.data[1] == "step" and not any(is_scheduler(o) for o in optimizers(e.data[0]))]
    for e in r.events:
        if e.kind == "optstep" and e.data[1] == "backward":
            near = [s for s in steps if s.seq > e.seq]
            flip = any(opt_maximises(s.data[0]) for s in near[:1])
            if not steps:
                continue
            D = direction(P, e.data[0])
            where = f"{e.stack[-1]}"
            if not D:
                ctx.open[("objective", e.path, e.line)] = f"{f.qual}:{e.line} {show(e.data[0], 4)[:120]}"
                continue
            if 0 in D:
                mixed(ctx, "objective", where, e, D[0], "the optimised loss")
                continue
            want = 1 if flip else -1
            if -want in D:
                cs, ws = D[-want]
                ctx.bad_ev("objective", where, f"the optimiser {'maximises' if flip else 'minimises'} {WORD[-want]}: {', '.join(brief(a) for _, a in ws[:3])}", e)
            else:
                ctx.closed.add(("objective", e.path, e.line))
                ctx.ok("objective", f"{f.qual}{' of ' + q.rsplit('.', 1)[-1] if q else ''}:{e.line} " + "; ".join(", ".join(brief(a) for _, a in ws) for _, ws in D.values())[:200])
                weights(ctx, f, P, e, where)
        elif e.kind == "optstep" and e.data[1] == "step" and any(is_scheduler(o) for o in optimizers(e.data[0])) and e.data[2]:
            for o in optimizers(e.data[0]):
                if str(o.args[0]).endswith("ReduceLROnPlateau"):
                    kw = dict(o.args[2])
                    m = o.args[1][1] if len(o.args[1]) > 1 else kw.get("mode", const("min"))
                    want = {"min": -1, "max": 1}.get(cval(m))
                    D = direction(P, e.data[2][0])
                    judge(ctx, "schedule", f"{e.stack[-1]}", e, D, want, f"the learning rate is reduced when this stops {'falling' if want == -1 else 'rising'}")


def weights(ctx, f, P, e, where):
    """parts of the closed form divergence carry one weight, half of that of the log-likelihood"""
    from ..polarity import gaussian_kl
    for cs, xs in P.alts(e.data[0]):
        kl = gaussian_kl(xs)
        cl = {round(a.coef, 9) for a in kl}
        ll = {round(a.coef, 9) for a in xs if P.leaf(a.term) is not None}
        if kl and len(cl) > 1:
            ctx.bad_ev("weight", where, f"the terms of the divergence carry different weights {sorted(cl)}", e)
        elif kl and len(ll) == 1 and abs(2 * next(iter(cl)) - next(iter(ll))) > 1e-6 * next(iter(ll)):
            ctx.bad_ev("weight", where, f"the divergence carries the weight {2 * next(iter(cl))} of the log-likelihood's {next(iter(ll))}", e)
        elif kl:
            ctx.ok("weight", f"{f.qual}: divergence weight")
        elif len(ll) > 1 and not any(a.factors for a in xs):
            ctx.unknown("weight", f"{f.qual}: weights {sorted(ll)}")


def judge(ctx, rule, where, e, D, want, why):
    if not D or want is None:
        ctx.open[(rule, e.path, e.line)] = f"{where}:{e.line}"
    elif 0 in D:
        mixed(ctx, rule, where, e, D[0], "the compared value")
    elif -want in D:
        ctx.bad_ev(rule, where, f"{why}, but it is {WORD[-want]}", e)
    else:
        ctx.closed.add((rule, e.path, e.line))
        ctx.ok(rule, f"{where}:{e.line} {WORD[want]}")


def comparisons(ctx, f, r, P):
    """phi(x < y, x, y): a running best"""
    seen = set()
    roots = []
    for L, st in r.interp.steps.items():
        for k, vs in st.items():
            for v in vs:
                x = v[1] if isinstance(v, tuple) else v
                if isinstance(x, Term):
                    roots.append(x)
    for v in r.state.heap.values():
        if isinstance(v, Term):
            roots.append(v)
    if r.value is not None:
        roots.append(r.value)
    line = f.node.lineno
    W = set()
    for root in roots:
        for t in walk(root, W):
            if t.op == "phi":
                for c, pol in flat(((t.args[0], True),)):
                    k = running(c, pol, t.args[1], t.args[2])
                    if k is None or (t, c) in seen:
                        continue
                    seen.add((t, c))
                    x, want = k
                    verdict(ctx, f, r, P, "best", x, want, "smaller" if want == -1 else "larger", c)
            elif t.op == "call" and t.args[0] in ("min", "max") and len(t.args[1]) == 2 and t not in seen:
                seen.add(t)
                a, b = t.args[1]
                if any(x.op in ("mu", "attr", "index") for x in (a, b)) and (P.polarised(a) or P.polarised(b)):
                    x = a if P.polarised(a) else b
                    want = -1 if t.args[0] == "min" else 1
                    verdict(ctx, f, r, P, "best", x, want, "smaller" if want == -1 else "larger", t)


def verdict(ctx, f, r, P, rule, x, want, word, t):
    D = direction(P, x)
    where = f"{f.qual}:{show(x, 2)[:60]}"
    if not D:
        ctx.open[(rule, f.qual, 0)] = f"{f.qual}: {show(x, 4)[:100]}"
    elif 0 in D or -want in D:
        ctx.bad(rule, where, f"the {word} of two values is kept as the best, but {show(x, 3)[:120]} is {WORD[-want] if -want in D else 'mixed'}", f.module.relpath, getattr(t, 'loc', None) and t.loc[1] if isinstance(getattr(t, 'loc', None), tuple) else f.node.lineno)
    else:
        ctx.closed.add((rule, f.qual, 0))
        ctx.ok(rule, f"{f.qual}: the {word} {show(x, 3)[:80]} is kept")


def running(c, pol, a, b):
    """(x, direction) when the join keeps the smaller (-1) or larger (+1) of x and the value it had"""
    if c.op != "cmp" or c.args[0] not in ("<", "<="):
        return None
    x, y = c.args[1], c.args[2]
    # c holds (pol) on branch a
    if not pol:
        x, y = y, x          # not x < y : y <= x
    # on branch a: x is the smaller
    def is_(v, w):
        if v is w:
            return True
        if v.op == "tuple":
            for i, u in enumerate(v.args[0]):
                if u is w:
                    return True
        if w.op == "index" and w.args[0] is v:
            return True
        return False
    if is_(a, x) and is_(b, y) and not (is_(a, y) and is_(b, x)):
        return x if x.op not in ("mu", "index", "attr") else y, -1
    if is_(a, y) and is_(b, x):
        return y if y.op not in ("mu", "index", "attr") else x, 1
    return None


def picks(ctx, f, r, P):
    """argmax, argmin and friends over objectives"""
    W = set()
    roots = [(e, t) for e in r.events for t in ([e.data] if isinstance(e.data, Term) else [x for x in e.data if isinstance(x, Term)] if isinstance(e.data, tuple) else [])]
    for e, root in roots:
        for t in walk(root, W):
            k = pick(t)
            if k is None:
                continue
            x, want = k
            if not P.polarised(x):
                continue
            D = direction(P, x)
            judge(ctx, "pick", f"{f.qual}", e, D, want, f"the position of the {'largest' if want == 1 else 'smallest'} value is taken")


def pick(t):
    if t.op == "meth" and t.args[0] in ("argmax", "idxmax", "argmin", "idxmin"):
        return t.args[1], 1 if "max" in t.args[0] else -1
    if t.op == "call" and str(t.args[0]).split(".")[-1] in ("argmax", "argmin", "nanargmax", "nanargmin") and t.args[1]:
        return t.args[1][0], 1 if "max" in t.args[0] else -1
    if t.op == "index" and t.args[0].op == "meth" and t.args[0].args[0] in ("max", "min") and is_const(t.args[1], 1):
        return t.args[0].args[1], 1 if t.args[0].args[0] == "max" else -1
    if t.op == "attr" and t.args[1] == "indices" and t.args[0].op == "meth" and t.args[0].args[0] in ("max", "min"):
        return t.args[0].args[1], 1 if t.args[0].args[0] == "max" else -1
    if t.op == "index" and t.args[0].op == "meth" and t.args[0].args[0] == "topk" and is_const(t.args[1], 1):
        d = dict(t.args[0].args[3]).get("largest")
        return t.args[0].args[1], -1 if is_const(d, False) else 1
    return None


def named(ctx, f, r, P):
    """results stored or returned under a name that says which way they point"""
    terms = []
    if r.value is not None:
        terms.append(r.value)
    W = set()
    for root in terms:
        for t in walk(root, W):
            if t.op == "dict" and isinstance(t.args[0], tuple):
                for k, v in t.args[0]:
                    n = cval(k) if is_const(k) else None
                    want = meaning(n)
                    if want and isinstance(v, Term):
                        D = direction(P, v)
                        if D:
                            result(ctx, f, f"{f.qual}:{n}", D, want, f"the entry {n!r}")
    for e in r.events:
        if e.kind == "setattr" and isinstance(e.data, tuple) and isinstance(e.data[1], str) and isinstance(e.data[3], Term) and e.stack[-1] == f.qual:
            want = meaning(e.data[1])
            if want:
                D = direction(P, e.data[3])
                if D:
                    result(ctx, f, f"{f.qual}:{e.data[1]}", D, want, f"the attribute {e.data[1]}")
        if e.kind == "mutate" and isinstance(e.extra, tuple) and e.extra and e.extra[0] in ("append",) and e.stack[-1] == f.qual:
            n = key_of(e.data)
            want = meaning(n)
            if want and isinstance(e.extra[1], Term):
                new = e.extra[1]
                x = new.args[1] if new.op == "listappend" else new
                D = direction(P, x)
                if D:
                    result(ctx, f, f"{f.qual}:{n}", D, want, f"the history {n!r}")


def key_of(t):
    while t.op in ("mu", "out", "listappend", "inplace"):
        t = t.args[2] if t.op in ("mu", "out") else t.args[1] if t.op == "inplace" else t.args[0]
    if t.op == "index" and is_const(t.args[1]):
        return cval(t.args[1])
    if t.op == "attr":
        return t.args[1]
    return None


def meaning(n):
    if not isinstance(n, str):
        return None
    if "neg" in n:
        return None
    if n.endswith("loss") or n.endswith("losses"):
        return -1
    if "log_likelihood" in n or n.endswith("log_prob"):
        return 1
    return None


def result(ctx, f, where, D, want, what):
    if 0 in D or -want in D:
        ctx.bad("named", where, f"{what} is {WORD[-want] if -want in D else 'a mixture of directions'}", f.module.relpath, f.node.lineno)
    else:
        ctx.ok("named", f"{where} is {WORD[want]}")


def values(ctx):
    """log-likelihood and log-density functions return log-probabilities, not their negatives"""
    p, lib = ctx.p, ctx.lib
    for q, f in sorted(p.functions.items()):
        if f.name not in ("log_likelihood", "log_prob", "group_fit_log_likelihood") and not (f.name == "forward" and f.cls is not None and f.cls.name == "GaussianMixtureModel"):
            continue
        if f.is_abstract or f.cls is None or f.cls.name == "Plotter":
            continue
        ops = tuple(x for x in opaque(p) if x.split(".")[-1] == "item_probabilities" or f.cls.name == "Evaluator" and x.split(".")[-1] == "log_likelihood" and x != q)
        if f.name == "log_prob":
            ops += tuple(x for x in p.functions if x.split(".")[-1] == "forward" and x != q)
        r = lib.run(f, opaque=ops)
        if r is None or r.value is None:
            ctx.unknown("value", q)
            continue
        P = Polarity(r, opaque_log=f.name == "log_likelihood")
        D = direction(P, r.value)
        if f.name == "log_prob":
            for cs, xs in P.alts(r.value):
                for a in xs:
                    if P.leaf(a.term) is None:
                        src = [b for b in xs if b.term.op == "meth" and b.term.args[0] == "log_prob"]
                        x = src and (src[0].term.args[2][0] if src[0].term.args[2] else dict(src[0].term.args[3]).get("value"))
                        if x is not None and x and x.op == "index" and a.term.op == "index" and a.term.args[0] is x.args[0] and is_const(x.args[1], 0) and is_const(a.term.args[1], 1):
                            if a.sign * src[0].sign < 0 or a.coef != src[0].coef or a.factors != src[0].factors:
                                ctx.bad("density", q, "the log-determinant of the transformation is not added to the log-density of the transformed value", f.module.relpath, f.node.lineno)
                            else:
                                ctx.ok("density", f"{q}: log-density plus log-determinant")
        if not D:
            ctx.unknown("value", f"{q}: {show(r.value, 4)[:160]}")
            continue
        if 0 in D or -1 in D:
            cs, ws = D.get(-1) or D[0]
            ctx.bad("value", q, f"{q} returns {WORD[-1] if -1 in D else 'terms of opposite directions'}: {', '.join(brief(a) for _, a in ws[:3])}", f.module.relpath, f.node.lineno)
        else:
            ctx.ok("value", f"{q}: {', '.join(brief(a) for _, a in D[1][1][:2])}"[:160])


def overrides(ctx, ops):
    """one method in different algorithms returns values of one direction"""
    p, lib = ctx.p, ctx.lib
    fam = {}
    for q, f in sorted(p.functions.items()):
        if f.cls is None or f.is_abstract or f.name.startswith("__"):
            continue
        r = lib.run(f, opaque=tuple(x for x in ops if x != f.qual and x.split(".")[-1] != f.name))
        if r is None or r.value is None:
            continue
        D = direction(Polarity(r), r.value)
        D.pop(0, None) if len(D) > 1 else None
        if len(D) == 1:
            fam.setdefault(f.name, []).append((f, next(iter(D))))
    for n, xs in sorted(fam.items()):
        for i, (f, d) in enumerate(xs):
            for g, e in xs[:i]:
                if g.cls is not f.cls and (p.is_subclass(f.cls.qual, g.cls.qual) or p.is_subclass(g.cls.qual, f.cls.qual)):
                    if d == -e:
                        ctx.bad("override", f"{f.qual}", f"{f.qual} returns {WORD[d]} where {g.qual} returns {WORD[e]}", f.module.relpath, f.node.lineno)
                    else:
                        ctx.ok("override", f"{f.qual} and {g.qual}")


def map_prior(ctx, ops):
    """MAP adds the log-prior to the log-likelihood, ML does not"""
    p, lib = ctx.p, ctx.lib
    for q, f in sorted(p.functions.items()):
        if not any(a.arg == "theta_estimation" for a in f.node.args.args + f.node.args.kwonlyargs) or f.cls is None or not p.is_subclass(f.cls.qual, p.cls("BaseIRTModel").qual):
            continue
        for v, need in (("MAP", True), ("ML", False)):
            r = lib.run_with(f, presets={"theta_estimation": const(v)}, opaque=ops)
            if r is None or not any(e.kind == "optstep" and e.data[1] == "backward" and e.stack[0] == e.stack[-1].replace(".closure", "") or e.kind == "optstep" and e.data[1] == "backward" for e in r.events):
                continue
            P = Polarity(r)
            for e in r.events:
                if e.kind != "optstep" or e.data[1] != "backward":
                    continue
                for cs, xs in P.alts(e.data[0]):
                    if any(x.op == "const" and cval(x) in ("MAP", "ML") for c, _ in cs for x in walk(c)):
                        ctx.unknown("prior", f"{q}: {v} is not followed to the objective")
                        continue
                    pri = [a for a in xs if a.term.op == "meth" and a.term.args[0] == "log_prob"]
                    lik = [a for a in xs if a.term.op in ("vcall", "rcall") and P.leaf(a.term) == 1]
                    if not lik:
                        ctx.unknown("prior", f"{q}: {v}")
                    elif need and not pri:
                        ctx.bad_ev("prior", f"{q}:{v}", "the MAP objective has no prior term", e)
                    elif not need and pri:
                        ctx.bad_ev("prior", f"{q}:{v}", "the ML objective has a prior term", e)
                    elif need and (pri[0].coef != lik[0].coef or pri[0].factors != lik[0].factors):
                        ctx.bad_ev("prior", f"{q}:{v}", "the log-prior and the log-likelihood carry different weights", e)
                    elif need and any("mean" in a.via for a in pri):
                        ctx.bad_ev("prior", f"{q}:{v}", "the log-prior is averaged over respondents while the log-likelihood is their sum", e)
                    else:
                        ctx.ok("prior", f"{q}: {v}")
