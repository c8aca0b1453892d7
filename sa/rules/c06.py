"""C06: inverse and Jacobian of every scale belong to its own transformation."""
import itertools
from .. import bits
from ..terms import T, Term, show, is_const, cval, walk, const, subst, children
from ..core import AnalysisBroken
from ..algebra import Alg, Q, Unknown, num, psqrt, pmul, explog, valueset, ONE, SKIP
from ..logic import leaves
from ..fold import Fold
from .c05 import strip

TH = T("param", "THETA", "scale")


# ---------------------------------------------------------------------------------------------- attributes set at construction
def init_values(ctx, cls):
    """Attribute name -> term after construction (and the function's parameter annotations for value sets)."""
    f = ctx.p.find_method(cls, "__init__")
    if f is None:
        return {}, None
    r = ctx.lib.run_with(f, cls=cls, exact=True)
    if r.state is None:
        return {}, r
    so = r.params[f.posnames[0]]
    return {n: v for (o, n), v in r.state.heap.items() if o is so}, r


def signed_of(ctx, cls):
    vals, r = init_values(ctx, cls)
    rewritten = set()
    for k in ctx.p.mro(cls):
        c = ctx.p.classes.get(k)
        if c is None:
            continue
        for m in c.methods.values():
            if m.name == "__init__":
                continue
            rm = ctx.lib.run(m, cls=cls)
            for e in (rm.events if rm else ()):
                if e.kind in ("attrstore", "setattr") and isinstance(e.data, tuple) and isinstance(e.data[0], Term) and e.data[0].op == "obj" and e.data[0].args[0] == cls:
                    v = e.data[3]
                    src = v
                    while src.op == "meth" and src.args[0] in SKIP:
                        src = src.args[1]
                    if not (src.op == "attr" and src.args[1] == e.data[1]):
                        rewritten.add(e.data[1])

    def assume(t):
        if t.op == "param":
            fn = ctx.p.functions.get(t.args[1])
            ann = fn.annotations.get(t.args[0]) if fn else None
            import ast
            s = ast.unparse(ann) if ann is not None else ""
            if s in ("list[bool]", "List[bool]", "bool", "torch.BoolTensor"):
                return frozenset([0, 1])
        return None

    def vs(t):
        while t.op == "meth" and t.args[0] in SKIP | {"T", "t"}:
            t = t.args[1]
        if t.op == "attr" and t.args[0].op == "obj" and t.args[1] in vals and t.args[1] not in rewritten:
            return valueset(vals[t.args[1]], assume)
        return None
    return (lambda t: vs(t) == frozenset([-1, 1])), vs, vals


# ---------------------------------------------------------------------------------------------- opaque module calls
def module_call(t):
    """(callee key, inverse flag, argument, result position) of a call of a module stored in an attribute, else None"""
    pos = None
    if t.op == "index" and is_const(t.args[1]) and isinstance(cval(t.args[1]), int):
        pos = cval(t.args[1])
        t = t.args[0]
    if t.op == "meth" and t.args[1].op == "obj" and t.args[2]:
        kw = dict(t.args[3])
        inv = kw.get("inverse", t.args[2][1] if len(t.args[2]) > 1 else None)
        if inv is not None and not (is_const(inv) and isinstance(cval(inv), bool)):
            return None
        return T("attr", t.args[1], t.args[0]), bool(inv is not None and cval(inv)), t.args[2][0], pos
    if t.op == "meth" and t.args[0] in ("inverse", "forward", "__call__") and t.args[1].op == "attr" and t.args[2]:
        return t.args[1], t.args[0] == "inverse", t.args[2][0], pos
    if t.op == "rcall" and t.args[0].endswith((".forward", ".inverse", ".__call__")):
        b = dict(t.args[1])
        recv = b.pop("self", None)
        inv = b.pop("inverse", None)
        if recv is not None and recv.op == "attr" and len(b) == 1 and (inv is None or is_const(inv)):
            return recv, t.args[0].endswith(".inverse") or bool(inv is not None and cval(inv)), list(b.values())[0], pos
    if t.op == "vcall" and t.args[1] in ("forward", "inverse", "__call__") and t.args[2].op == "attr":
        b = dict(t.args[3])
        inv = b.pop("inverse", None)
        b.pop("self", None)
        if len(b) == 1 and (inv is None or is_const(inv)):
            return t.args[2], t.args[1] == "inverse" or bool(inv is not None and cval(inv)), list(b.values())[0], pos
    return None


def hook_calls(extra=None):
    def hook(t, A):
        if extra is not None:
            r = extra(t, A)
            if r is not None:
                return r
        m = module_call(t)
        if m is not None:
            recv, inv, arg, pos = m
            q = A(arg)
            s = A.single(q)
            if inv and s is not None and s[0] == "fn" and s[1] == ("module", recv.args[1]) and s[3] == (False, pos):
                return s[2]
            if not inv and s is not None and s[0] == "fn" and s[1] == ("module", recv.args[1]) and s[3] == (True, pos):
                return s[2]
            return A.fn(("module", recv.args[1]), q, (inv, pos))
        return None
    return hook


def explicit(A, q):
    """All atoms are the argument, attributes of the scale or module calls on such."""
    for t in A.free(q):
        if not (t is TH or t.op == "attr" and t.args[0].op == "obj"):
            return False
    return True


# ---------------------------------------------------------------------------------------------- matrix words
def word(t, vals):
    """theta @ M1 @ M2 ... -> (theta term, [factor]) ; a factor is (attribute, transposed, inverted)"""
    t = strip(t)
    out = []
    while True:
        t = strip(t)
        if t.op == "bin" and t.args[0] == "@":
            f = factor(t.args[2], vals)
            if f is None:
                g = factor(t.args[1], vals)     # M.T @ theta.T and the like
                return None
            out.insert(0, f)
            t = t.args[1]
        elif t.op == "call" and t.args[0] == "torch.einsum" and len(t.args[1]) == 3 and is_const(t.args[1][0]):
            eq = t.args[1][0].args[1].replace(" ", "")
            ins, res = eq.split("->")
            x, y = ins.split(",")
            if len(x) == 2 and len(y) == 2 and len(res) == 2 and x[0] == res[0] and x[1] in y:
                f = factor(t.args[1][2], vals)
                if f is None:
                    return None
                out.insert(0, f if y == x[1] + res[1] else (f[0], not f[1], f[2]))
                t = t.args[1][1]
            else:
                return None
        elif t.op == "meth" and t.args[0] == "linear":
            f = factor(t.args[2][0] if t.args[2] else dict(t.args[3]).get("weight"), vals)
            if f is None or len(t.args[2]) > 1 or "bias" in dict(t.args[3]):
                return None
            out.insert(0, (f[0], not f[1], f[2]))
            t = t.args[1]
        else:
            return t, out


def factor(t, vals, depth=0):
    tr = inv = False
    while t is not None:
        t = strip(t)
        if t.op == "attr" and t.args[1] in ("T", "mT"):
            tr = not tr
            t = t.args[0]
        elif t.op == "meth" and t.args[0] in ("transpose", "permute", "t"):
            tr = not tr
            t = t.args[1]
        elif t.op == "meth" and t.args[0] in ("inverse", "pinverse"):
            inv = not inv
            t = t.args[1]
        elif t.op == "call" and t.args[0] in ("torch.linalg.inv", "torch.linalg.pinv", "torch.inverse"):
            inv = not inv
            t = t.args[1][0]
        elif t.op == "attr" and t.args[0].op == "obj":
            # an attribute that was computed from another one at construction
            v = vals.get(t.args[1])
            if v is not None and depth < 4:
                for n, w in vals.items():
                    if n != t.args[1]:
                        x, a, b = v, False, False
                        while True:
                            x = strip(x)
                            if x is w:
                                if a or b:
                                    return n, tr ^ a, inv ^ b
                                break
                            if x.op == "attr" and x.args[1] in ("T", "mT"):
                                a, x = not a, x.args[0]
                            elif x.op == "meth" and x.args[0] in ("transpose", "permute", "t"):
                                a, x = not a, x.args[1]
                            elif x.op == "meth" and x.args[0] in ("inverse", "pinverse"):
                                b, x = not b, x.args[1]
                            elif x.op == "call" and x.args[0] in ("torch.linalg.inv", "torch.linalg.pinv"):
                                b, x = not b, x.args[1][0]
                            else:
                                break
            return t.args[1], tr, inv
        else:
            return None
    return None


def cancel(fs):
    out = []
    for f in fs:
        if out and out[-1][0] == f[0] and out[-1][1] == f[1] and out[-1][2] != f[2]:
            out.pop()
        else:
            out.append(f)
    return out


# ---------------------------------------------------------------------------------------------- the check
def check(ctx):
    p = ctx.p
    base = p.cls("Scale").qual
    for cls in sorted(p.subclasses[base]):
        scale(ctx, cls)
    spline(ctx)
    for q in sorted(p.classes):
        c = p.classes[q]
        if q not in p.subclasses[base] and "inverse" in c.methods and p.find_method(q, "forward") is not None and not c.name.startswith("Base"):
            flow_like(ctx, q)
    bits.check(ctx, "bit-length")
    bit(ctx)
    if isinstance(ctx.rules, dict) and sum(r["instances"] for r in ctx.rules.values()) < 8:
        raise AnalysisBroken("too few scales understood")


def scale(ctx, cls):
    p, name = ctx.p, cls.rsplit(".", 1)[-1]
    ft, fi, fj = (p.find_method(cls, m) for m in ("transform", "inverse", "jacobian"))
    if ft is None or fi is None or fj is None:
        return
    signed, vs, vals = signed_of(ctx, cls)
    rt = ctx.lib.run_with(ft, cls=cls, presets={ft.posnames[1]: TH}, exact=True)
    ri = ctx.lib.run_with(fi, cls=cls, presets={fi.posnames[1]: TH}, exact=True)
    rj = ctx.lib.run_with(fj, cls=cls, presets={fj.posnames[1]: TH}, exact=True)
    inverse(ctx, name, fi, rt, ri, signed, vs, vals)
    jacobian(ctx, name, fj, rt, rj, signed, vals)


def cases_of(conds):
    out = {}
    for c, pol in conds:
        while c.op == "not":
            c, pol = c.args[0], not pol
        out[c] = pol
        if c.op == "bool" and c.args[0] == ("and" if pol else "or"):
            out.update(cases_of([(x, pol) for x in c.args[1]]))
    # different constants exclude each other
    for c, pol in list(out.items()):
        if pol and c.op == "cmp" and c.args[0] == "==" and is_const(c.args[2]):
            out[("eq", c.args[1])] = c.args[2]
    return out


def splits(terms, cs, limit=6):
    """Case assignments over the conditions of the joined values in terms."""
    conds = []
    for t in terms:
        for x in walk(t):
            if x.op == "phi" and x.args[0] not in conds:
                conds.append(x.args[0])
    conds = [c for c in conds if CaseAlg(cases=cs).case(c) is None][:limit]
    out = []
    for vals in itertools.product((True, False), repeat=len(conds)):
        d = {**cs, **cases_of(list(zip(conds, vals)))}
        # one name cannot equal two constants
        eqs = {}
        if all(eqs.setdefault(c.args[1], c.args[2]) is c.args[2] for c, v in d.items() if isinstance(c, Term) and v is True and c.op == "cmp" and c.args[0] == "==" and is_const(c.args[2])):
            out.append(d)
    return out


class CaseAlg(Alg):
    def case(self, c):
        v = super().case(c)
        if v is None and c.op == "cmp" and c.args[0] == "==" and is_const(c.args[2]):
            k = self.cases.get(("eq", c.args[1]))
            if k is not None:
                return k is c.args[2]
        return v


def inverse(ctx, name, fi, rt, ri, signed, vs, vals):
    path, line = fi.module.relpath, fi.node.lineno
    if ri.value is None or not ri.rets:
        ctx.ok("inverse", f"{name}: inverse raises an error")
        return
    for conds, v, node in ri.rets:
        what = f"{name}.inverse(transform(theta))" + (" when " + " and ".join(show(c) if q else "not " + show(c) for c, q in conds) if conds else "")
        cs = cases_of(conds)
        try:
            # linear maps
            w1, w2 = word(rt.value, vals), word(v, vals)
            if w1 and w2 and w1[1] and w1[0] is TH:
                start, fs = w2
                if start is not TH:
                    ctx.unknown("inverse", what)
                    continue
                rest = cancel(w1[1] + fs)
                if not rest:
                    ctx.ok("inverse", f"{what}: {w1[1]} then {fs}")
                else:
                    ctx.bad("inverse", f"{name}.inverse", f"{what} leaves the matrix factors {rest} (attribute, transposed, inverted) instead of cancelling", path, node.lineno if node else line)
                continue
            A = CaseAlg(cases=cs, signed=signed)
            A.hook = hook_calls()
            fwd = A(rt.value)
            B = A
            B.memo = {}
            inner = hook_calls()
            B.hook = lambda t, a: fwd if t is TH else inner(t, a)
            comp = B(v)
            A.hook = inner
            A.memo = {}
            me = A(TH)
            if comp.eq(me):
                ctx.ok("inverse", f"{what} = theta")
                continue
            plain = A(v)
            if explicit(A, comp) and explicit(A, plain):
                # a multiplier of unknown sign or size is not judged
                unk = [t for t in A.free(comp) if t is not TH and t.op == "attr" and vs(t) is None]
                mult = [t for t in A.free(plain) if t is not TH and t.op == "attr"]
                ctx.bad("inverse", f"{name}.inverse", f"{what} = {A.show(comp)}, which is not theta", path, node.lineno if node else line)
            elif explicit(A, plain) and not any(a[0] == "fn" for a in A.atoms if a[0] == "fn" and any(z is TH for z in A.free(a[2]))) and learned(rt.value, cs):
                ctx.bad("inverse", f"{name}.inverse", f"{what}: transform uses a trained module but the inverse is {A.show(plain)}", path, node.lineno if node else line)
            elif plain.eq(me) and not fwd.eq(me):
                ctx.bad("inverse", f"{name}.inverse", f"{name}.inverse returns its argument although transform changes it", path, node.lineno if node else line)
            else:
                ctx.unknown("inverse", f"{what}: {A.show(comp)[:200]}")
        except Unknown as e:
            try:
                C = CaseAlg(cases=cs, signed=signed)
                plain = C(v)
                if explicit(C, plain) and learned(rt.value, cs):
                    ctx.bad("inverse", f"{name}.inverse", f"{what}: transform uses a trained module but the inverse is {C.show(plain)}", path, node.lineno if node else line)
                    continue
            except Unknown:
                pass
            ctx.unknown("inverse", f"{what}: {e}")


def learned(t, cs):
    """Under the cases cs the value comes from a module stored in an attribute and applied to theta."""
    A = CaseAlg(cases=cs)
    while t.op == "phi" and A.case(t.args[0]) is not None:
        t = t.args[1] if A.case(t.args[0]) else t.args[2]
    if t.op == "bin":
        return learned(t.args[1], cs) or learned(t.args[2], cs)
    if t.op == "phi":
        return learned(t.args[1], cs) or learned(t.args[2], cs)
    return any(module_call(x) is not None and any(z is TH for z in walk(x)) for x in walk(t))


def leaf_of(t):
    """The tensor whose .grad t is, with the way the entries are laid out."""
    ops = []
    while True:
        t = strip(t)
        if t.op == "meth" and t.args[0] in ("diag_embed", "unsqueeze", "reshape", "expand", "repeat"):
            ops.append(t.args[0])
            t = t.args[1]
        elif t.op == "attr" and t.args[1] == "grad":
            return ops, t.args[0], None
        elif t.op == "index" and t.args[0].op == "call" and t.args[0].args[0] == "torch.autograd.grad":
            a = t.args[0].args
            ins = a[1][1] if len(a[1]) > 1 else dict(a[2]).get("inputs")
            if ins is not None and ins.op in ("list", "tuple") and len(ins.args[0]) == 1:
                ins = ins.args[0][0]
            return ops, ins, a[1][0] if a[1] else dict(a[2]).get("outputs")
        else:
            return ops, None, t


def jacobian(ctx, name, fj, rt, rj, signed, vals):
    path, line = fj.module.relpath, fj.node.lineno
    if rj.value is None or not rj.rets:
        ctx.ok("jacobian", f"{name}: jacobian raises an error")
        return
    for conds, v, node in rj.rets:
        ln = node.lineno if node else line
        what = f"{name}.jacobian"
        cs = cases_of(conds)
        try:
            w = word(rt.value, vals)
            if w and w[1] and w[0] is TH:
                # theta @ M: d out_i / d theta_j = M[j, i]
                x = v
                while x.op == "meth" and x.args[0] in ("repeat", "expand", "unsqueeze", "clone", "reshape", "repeat_interleave") or x.op == "index" and x.args[1].op in ("tuple", "const"):
                    x = x.args[1] if x.op == "meth" else x.args[0]
                f = factor(x, vals)
                if f is None or len(w[1]) != 1:
                    ctx.unknown("jacobian", what)
                    continue
                m = w[1][0]
                want = (m[0], not m[1], m[2])
                if f == want:
                    ctx.ok("jacobian", f"{what}: transpose of the matrix used by transform")
                else:
                    ctx.bad("jacobian", what, f"transform multiplies with {m} from the right (attribute, transposed, inverted); the Jacobian must be {want} but is {f}", path, ln)
                continue
            ops, leaf, expr = leaf_of(v)
            A = CaseAlg(cases=cs, signed=signed)
            base = hook_calls()
            A.hook = base
            if leaf is not None:
                if expr is None:
                    for e in rj.events:
                        if e.kind == "call" and e.data.op == "meth" and e.data.args[0] == "backward":
                            expr = e.data.args[1]
                if expr is None:
                    ctx.unknown("jacobian", f"{what}: no backward call")
                    continue
                while expr.op == "meth" and expr.args[0] in ("sum",) or expr.op == "call" and expr.args[0] in ("torch.sum",):
                    expr = expr.args[1] if expr.op == "meth" else expr.args[1][0]
                expr = subst(expr, {leaf: TH})
                if expr is rt.value:
                    ctx.ok("jacobian", f"{what}: automatic derivative of the transformation itself")
                    continue
                bad = []
                for cs2 in splits([rt.value, expr], cs):
                    A = CaseAlg(cases=cs2, signed=signed)
                    A.hook = base
                    fwd, got = A(rt.value), A(expr)
                    if not got.eq(fwd):
                        bad.append((A, fwd, got))
                good = not bad
                if bad:
                    bad.sort(key=lambda x: not (explicit(x[0], x[1]) and explicit(x[0], x[2])))
                    A, fwd, got = bad[0]
                if good:
                    ctx.ok("jacobian", f"{what}: automatic derivative of the transformation itself")
                elif explicit(A, got) and explicit(A, fwd):
                    ctx.bad("jacobian", what, f"differentiates {A.show(got)}; transform computes {A.show(fwd)}", path, ln)
                else:
                    # same module call with a different sign or scale: compare the two formulas up to the opaque part
                    ctx.unknown("jacobian", f"{what}: {A.show(got)[:150]} against {A.show(fwd)[:150]}")
                continue
            # explicit diagonal
            if "diag_embed" in ops:
                inner = expr
                fwd = A(rt.value)
                d = A.diff(fwd, TH)
                got = A(inner)
                if got.eq(d):
                    ctx.ok("jacobian", f"{what}: diagonal {A.show(d)}")
                elif explicit(A, got) and explicit(A, d):
                    ctx.bad("jacobian", what, f"diagonal is {A.show(got)}; the derivative of transform is {A.show(d)}", path, ln)
                else:
                    ctx.unknown("jacobian", what)
                continue
            ctx.unknown("jacobian", f"{what}: {show(v)[:120]}")
        except Unknown as e:
            ctx.unknown("jacobian", f"{what}: {e}")


def flow_like(ctx, q):
    """forward and inverse of a module call the same inner transformation in opposite directions."""
    p = ctx.p
    ff, fi = p.find_method(q, "forward"), p.find_method(q, "inverse")
    if not (len(ff.posnames) > 1 and len(fi.posnames) > 1):
        return
    op = lambda f: f.name == "forward" and (f.cls is None or f.cls.qual != q)
    rf = ctx.lib.run_with(ff, cls=q, presets={ff.posnames[1]: TH}, exact=True, opaque=op)
    ri = ctx.lib.run_with(fi, cls=q, presets={fi.posnames[1]: TH}, exact=True, opaque=op)
    name = q.rsplit(".", 1)[-1]
    if rf.value is None or ri.value is None:
        return
    try:
        A = CaseAlg()
        base = hook_calls()
        A.hook = base
        fwd = A(rf.value)
        A.memo = {}
        A.hook = lambda t, a: fwd if t is TH else base(t, a)
        comp = A(ri.value)
        A.memo = {}
        A.hook = base
        if comp.eq(A(TH)):
            ctx.ok("inverse", f"{name}: inverse(forward(x)) = x")
        elif explicit(A, comp):
            ctx.bad("inverse", f"{name}.inverse", f"inverse(forward(x)) = {A.show(comp)}", fi.module.relpath, fi.node.lineno)
        else:
            ctx.unknown("inverse", name)
    except Unknown as e:
        ctx.unknown("inverse", f"{name}: {e}")


# ---------------------------------------------------------------------------------------------- rational quadratic spline
class SplineAlg(CaseAlg):
    """Formulas of one spline bin: gathered knot arrays become atoms, increasing ones split into start and step."""

    def __init__(self, arrays, cum, **kw):
        super().__init__(**kw)
        self.arrays, self.cum = arrays, cum
        self.roots = {}

    def case(self, c):
        v = super().case(c)
        if v is None and c.op == "meth" and c.args[0] in ("any",):
            if self.case(c.args[1]) is True:
                return True
        return v

    def conv(self, t):
        if self.hook is not None:
            h = self.hook(t, self)
            if h is not None:
                return h if isinstance(h, Q) else self(h)
        if t.op == "index":
            i = t.args[1]
            if self.case(i) is True:
                return self(t.args[0])
            if t.args[0].op == "meth" and t.args[0].args[0] == "gather":
                return self(t.args[0])
        if t.op == "setitem":
            v = self.case(t.args[1])
            if v is not None:
                return self(t.args[2] if v else t.args[0])
        if t.op == "inplace" and t.args[0] == "setitem":
            raise Unknown("in-place")
        if t.op == "meth" and t.args[0] == "gather":
            return self.gathered(t.args[1], 0)
        if t.op == "meth" and t.args[0] == "squeeze":
            return self(t.args[1])
        return super().conv(t)

    def gathered(self, x, s):
        if x in self.arrays:
            if x in self.cum:
                return self.atom(T("knot", x)) + self.atom(T("step", x)) if s else self.atom(T("knot", x))
            return self.atom(T("value", x, s))
        if x.op == "index":
            i = x.args[1]
            sh = slice_shift(i)
            if sh is not None:
                return self.gathered(x.args[0], s + sh)
            if self.case(i) is True:
                return self.gathered(x.args[0], s)
        if x.op == "meth" and x.args[0] == "diff":
            return self.gathered(x.args[1], s + 1) - self.gathered(x.args[1], s)
        if x.op == "bin" and x.args[0] in "+-*/":
            a, b = self.gathered(x.args[1], s), self.gathered(x.args[2], s)
            return {"+": a.__add__, "-": a.__sub__, "*": a.__mul__, "/": a.__truediv__}[x.args[0]](b)
        if x.op == "meth" and x.args[0] in ("clone", "detach"):
            return self.gathered(x.args[1], s)
        if x.op in ("attr", "const"):
            return self(x)
        return self.atom(T("value", x, s))

    def fn(self, name, q, extra=()):
        if name == "sqrt":
            # sqrt(n / d) with an even denominator: bring odd factors into the numerator
            n, f = q.n, {}
            for k, e in q.f.items():
                if e % 2:
                    n = pmul(n, dict(k))
                f[k] = (e + 1) // 2
            r = psqrt(n)
            if r is not None:
                if all(c >= 0 for c in r.values()):
                    return Q(r, f=f)
                if all(c <= 0 for c in r.values()):
                    return Q({m: -c for m, c in r.items()}, f=f)
                raise Unknown("sign of a square root")
        return super().fn(name, q, extra)


def slice_shift(i):
    """0 for [..., :-1], 1 for [..., 1:], else None"""
    if i.op == "tuple" and i.args[0]:
        i = i.args[0][-1]
    if i.op != "slice":
        return None
    lo, hi = i.args[0], i.args[1]
    lo0 = is_const(lo, None) or is_const(lo, 0)
    if lo0 and (is_const(hi, -1) or show(hi) in ("-1", "(-1)")):
        return 0
    if is_const(lo, 1) and is_const(hi, None):
        return 1
    return None


def spline(ctx):
    p = ctx.p
    try:
        q = p.cls("RationalQuadraticSpline").qual
    except Exception:
        return
    f = p.find_method(q, "forward")
    if f is None or "inverse" not in f.posnames:
        return
    X, Y = T("param", "X", "spline"), T("param", "Y", "spline")
    rf = ctx.lib.run_with(f, cls=q, presets={f.posnames[1]: X, "inverse": const(False)}, exact=True)
    rb = ctx.lib.run_with(f, cls=q, presets={f.posnames[1]: Y, "inverse": const(True)}, exact=True)
    res = spline_formulas(rf, rb, X, Y)
    if res is None:
        ctx.unknown("spline-inverse", "bounds of the spline interval not recognised")
        return
    path, line = f.module.relpath, f.node.lineno
    # the bin is looked up among the knots of the side the value comes from
    for r, var, side, attr in ((rf, X, "input", "lower_input_bound"), (rb, Y, "output", "lower_output_bound")):
        for x in walk(r.value):
            if x.op == "cmp" and x.args[0] in ("<", "<="):
                for a, b in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                    knots = [z for z in walk(b) if z.op == "meth" and z.args[0] == "cumsum"]
                    while a.op == "meth" and a.args[0] in ("unsqueeze", "reshape", "contiguous", "expand") or a.op == "index":
                        a = a.args[1] if a.op == "meth" else a.args[0]
                    if a is var and knots:
                        names = {z.args[1] for z in walk(unindexed(b)) if z.op == "attr" and z.args[0].op == "obj"}
                        if attr in names:
                            ctx.ok("spline-bins", f"{side} knots")
                        elif {"lower_input_bound", "lower_output_bound"} & names:
                            ctx.bad("spline-bins", f"RationalQuadraticSpline:{side}", f"values on the {side} side are sorted into bins of the other side", path, line)
    for case, A, y, back, want, ld_f, ld_b, dy in res:
        if isinstance(back, str):
            ctx.unknown("spline-inverse", f"{case}: {back}")
            continue
        good = all(t.op in ("knot", "step", "value", "attr", "param", "u", "v") for t in A.free(back) + A.free(y))
        if back.eq(want):
            ctx.ok("spline-inverse", f"{case}: the inverse formula undoes the forward formula")
        elif good:
            ctx.bad("spline-inverse", f"RationalQuadraticSpline:{case.replace(' ', '-')}", f"{case}: the inverse of the forward value is not the input again", path, line)
        else:
            ctx.unknown("spline-inverse", f"{case}: {A.show(back)[:200]}")


def unindexed(t, memo=None):
    """t with the positions of all selections left out"""
    memo = {} if memo is None else memo
    if t.id not in memo:
        memo[t.id] = t
        go = lambda a: unindexed(a, memo) if isinstance(a, Term) else tuple(go(b) for b in a) if isinstance(a, tuple) else a
        if t.op == "index":
            memo[t.id] = unindexed(t.args[0], memo)
        else:
            memo[t.id] = T(t.op, *(go(a) for a in t.args))
    return memo[t.id]


def has_var(t, X, shape=True):
    """t contains X other than through its shape"""
    return any(x is X for x in walk(t, enter=lambda z: not (z.op == "attr" and z.args[1] == "shape") and not (z.op == "index" and not shape and z.args[1].op != "tuple")))


def thresholds(t, X):
    lo, hi = set(), set()
    for x in walk(t):
        if x.op == "cmp" and x.args[0] in ("<", "<="):
            a, b = x.args[1], x.args[2]
            if a is X:
                lo.add((x, b))
            elif b is X:
                hi.add((x, a))
    return lo, hi


def spline_formulas(rf, rb, X, Y):
    """Per region: the forward value y(x), the inverse applied to it, and the two log-determinants."""
    if rf.value is None or rb.value is None or rf.value.op != "tuple" or rb.value.op != "tuple" or len(rf.value.args[0]) != 2:
        return None
    (yo, yl), (xo, xl) = rf.value.args[0], rb.value.args[0]
    lo_f, hi_f = thresholds(yo, X)
    lo_b, hi_b = thresholds(xo, Y)
    if not all(len(s) == 1 for s in (lo_f, hi_f, lo_b, hi_b)):
        return None
    (lf, lfv), = lo_f
    (hf, hfv), = hi_f
    (lb, lbv), = lo_b
    (hb, hbv), = hi_b
    out = []
    BEL, ABO, SH = T("below"), T("above"), T("shape")
    yo, yl = (subst(z, {lf: BEL, hf: ABO, T("attr", X, "shape"): SH}) for z in (yo, yl))
    xo, xl = (subst(z, {lb: BEL, hb: ABO, T("attr", Y, "shape"): SH}) for z in (xo, xl))
    lf = lb = BEL
    hf = hb = ABO
    arrays, cum = set(), set()
    for t in (yo, yl, xo, xl):
        for x in walk(t):
            if x.op == "index" and slice_shift(x.args[1]) is not None:
                arrays.add(x.args[0])
            if x.op == "bin" and x.args[0] == "-" and all(y.op == "index" and slice_shift(y.args[1]) == k for y, k in ((x.args[1], 1), (x.args[2], 0))) and x.args[1].args[0] is x.args[2].args[0]:
                cum.add(x.args[1].args[0])
            if x.op == "meth" and x.args[0] == "diff":
                arrays.add(x.args[1])
                cum.add(x.args[1])
    # the padded derivative array is only sliced at 1:; its own padding slices are no knots
    # the widths of the inverse run are the same terms as those of the forward run
    for case, cf, cb in (("below the interval", {lf: True, hf: False}, {lb: True, hb: False}),
                         ("above the interval", {lf: False, hf: True}, {lb: False, hb: True}),
                         ("inside the interval", {lf: False, hf: False}, {lb: False, hb: False})):
        A = SplineAlg(arrays, cum, cases={**cf, **cb})
        try:
            inside = case.startswith("inside")
            if inside:
                u, v = A.atom(T("u")), A.atom(T("v"))
                t = u / (u + v)
                xk = [c for c in cum if any(z is lfv for z in walk(c)) and any(z is hfv for z in walk(c))]
                if len(xk) != 1:
                    return None
                xq = A.atom(T("knot", xk[0])) + t * A.atom(T("step", xk[0]))
            else:
                xq = A.atom(X)
            A.hook = lambda z, a: xq if z is X else None
            y = A(yo)
            ld_f = A(yl)
            # threshold of the inverse is the image of the forward threshold
            A.memo = {}
            A.hook = lambda z, a: xq if z is X else y if z is Y else None
            back = A(xo)
            ld_b = A(xl)
            if inside:
                dy = A.diff(y, T("u")) / A.diff(t, T("u")) / A.atom(T("step", xk[0]))
            else:
                dy = A.diff(y, X)
                # boundary goes to boundary
                tv, wv = (lfv, lbv) if case.startswith("below") else (hfv, hbv)
                C = SplineAlg(arrays, cum, cases=cf)
                C.hook = lambda z, a: C(tv) if z is X else None
                if not C(yo).eq(C(wv)):
                    out.append((case + " (limit)", C, C(yo), C(yo), C(wv), None, None, None))
            out.append((case, A, y, back, xq, ld_f, ld_b, dy))
        except Unknown as e:
            out.append((case, A, None, str(e), None, None, None, None))
    return out


# ---------------------------------------------------------------------------------------------- bit scores
def spines(t, stop, limit=4000):
    """Chains of unary steps from t down to terms satisfying stop: lists of terms, outermost first."""
    out = []
    stack = [(t, ())]
    n = 0
    while stack and n < limit:
        n += 1
        x, pre = stack.pop()
        if stop(x):
            out.append((pre, x))
            continue
        if x.op == "meth":
            stack.append((x.args[1], pre + (x,)))
        elif x.op in ("index", "setitem", "attr"):
            stack.append((x.args[0], pre + (x,)))
            if x.op == "setitem":
                stack.append((x.args[2], pre))
        elif x.op == "bin":
            stack.append((x.args[1], pre + (x,)))
            stack.append((x.args[2], pre + (x,)))
        elif x.op in ("where", "phi"):
            stack.append((x.args[1], pre))
            stack.append((x.args[2], pre))
        elif x.op in ("un",):
            stack.append((x.args[1], pre + (x,)))
    return out


def bit(ctx):
    """Bit scores: the Jacobian uses the same items, the same logarithm and the absolute change per item."""
    p = ctx.p
    try:
        q = p.cls("Bit").qual
    except Exception:
        return
    fj = p.find_method(q, "jacobian")
    r = ctx.lib.run(fj, cls=q, opaque=("irtorch.models.base_irt_model.BaseIRTModel.probability_gradients",))
    if r is None or r.value is None:
        return
    path, line = fj.module.relpath, fj.node.lineno
    isprob = lambda t: t.op in ("vcall", "rcall") and ("item_probabilities" in str(t.args[0:2]) or "probability_gradients" in str(t.args[0:2]))
    found = 0
    for v in leaves(r.value):
        for steps, src in spines(v, isprob):
            found += 1
            what = (src.args[1] if src.op == "vcall" else src.args[0].rsplit(".", 1)[-1])
            idx = [s for s in steps if s.op == "index"]
            if any(uses_items(s.args[1]) for s in idx):
                ctx.ok("bit-items", f"Bit.jacobian: {what} restricted to the chosen items")
            else:
                ctx.bad("bit-items", "Bit.jacobian:" + what, f"{what} is used for all items instead of the items of the scale", path, line)
            names = [s.args[0] for s in steps if s.op == "meth"]
            if "abs" not in names:
                ctx.bad("bit-jacobian", "Bit.jacobian:abs", "the change of each item's entropy enters without its absolute value", path, line)
                continue
            k = names.index("abs")
            sums = [i for i, n in enumerate(names) if n in ("sum", "nansum")]
            # outermost first: sum over items, abs, sum over categories
            if not any(i > k for i in sums):
                ctx.bad("bit-jacobian", "Bit.jacobian:abs-before-categories", "the absolute value is taken per category instead of per item", path, line)
            elif not any(i < k for i in sums):
                ctx.bad("bit-jacobian", "Bit.jacobian:abs-after-items", "the absolute value is taken after summing over the items", path, line)
            else:
                ctx.ok("bit-jacobian", "absolute change per item, then sum over items")
    bit_direction(ctx, q)
    # log base: base 2 on both sides
    for m in ("transform", "transform_to_1D", "jacobian"):
        f = p.find_method(q, m)
        if f is None:
            continue
        rr = ctx.lib.run(f, cls=q, opaque=("irtorch._internal_utils.entropy", "irtorch.models.base_irt_model.BaseIRTModel.probability_gradients"))
        for e in rr.events:
            if e.kind == "rcall" and e.data[0].endswith("._internal_utils.entropy"):
                b = dict(e.data[2])
                base = b.get("log_base")
                if base is not None and is_const(base):
                    if cval(base) == 2:
                        ctx.ok("bit-base", f"Bit.{m}")
                    else:
                        ctx.bad_ev("bit-base", f"Bit.{m}", f"bit scores use entropies with logarithm base {cval(base)}", e)
            if e.kind == "call" and e.data.op == "meth" and e.data.args[0] in ("log", "log10", "log2") and e.stack[-1].endswith("Bit." + m) and isprob_in(e.data.args[1], isprob):
                if e.data.args[0] == "log2":
                    ctx.ok("bit-base", f"Bit.{m}")
                elif e.data.args[0] == "log10":
                    ctx.bad_ev("bit-base", f"Bit.{m}", "bit scores need base 2 logarithms", e)
                elif not any(x.op == "bin" and x.args[0] == "/" and contains_log2(x.args[2]) for v in leaves(rr.value or const(0)) for x in walk(v)):
                    ctx.bad_ev("bit-base", f"Bit.{m}", "bit scores need base 2 logarithms", e)


def contains_log2(t):
    return any(x.op == "call" and x.args[0].endswith(("log", "log2")) or x.op == "meth" and x.args[0].startswith("log") for x in walk(t))


def isprob_in(t, isprob):
    return any(isprob(x) for x in walk(t))


def uses_items(i):
    return any(x.op == "attr" and x.args[1] == "items" and x.args[0].op == "obj" for x in walk(i))


class Direction(Fold):
    """Whether latent scores are on the model's own direction (0) or multiplied by the direction multiplier (1)."""
    MIX = "mixed"

    def __init__(self, interp, zero):
        super().__init__(interp)
        self.zero = zero
        self.mixed = []

    def clash(self, a, b):
        return self.MIX

    def visit(self, t):
        if t in self.zero or t.op == "attr" and t.args[0].op == "obj" and t.args[1] in ("_start_theta", "_population_theta"):
            return 0
        if is_mult(t):
            return "m"
        return NotImplemented

    def join(self, a, b):
        if a == "m" or b == "m":
            a, b = (None if x == "m" else x for x in (a, b))
        return super().join(a, b)

    def default(self, t):
        if t.op == "meth" and t.args[0] in ("max", "min", "clamp", "clamp_"):
            kw = dict(t.args[3])
            return self.joinall([t.args[1]] + [x for x in list(t.args[2]) + [kw[k] for k in ("dim", "min", "max") if k in kw]])
        if t.op == "call" and t.args[0] in ("torch.maximum", "torch.minimum"):
            return self.joinall(t.args[1])
        if t.op == "cmp":
            return None
        return super().default(t)

    def other(self, t):
        if t.op == "bin":
            a, b = self(t.args[1]), self(t.args[2])
            if t.args[0] in ("*", "/"):
                if a == "m" or b == "m":
                    x = b if a == "m" else a
                    return None if x == "m" else 1 if x is None else self.MIX if x == self.MIX else 1 - x
                return self.join(a, b)
            if t.args[0] in ("+", "-"):
                return self.join(a, b)
        if t.op == "un" and t.args[0] == "-":
            return self(t.args[1])
        return None


def is_mult(t):
    return t.op == "attr" and t.args[1] == "_invert_scale_multiplier" and t.args[0].op == "obj"


def bit_direction(ctx, q):
    """Bit scores run along the direction in which scores rise: the model is asked at model-side points, and the slope changes sign with the direction."""
    p = ctx.p
    for m in ("transform", "transform_to_1D", "jacobian"):
        f = p.find_method(q, m)
        if f is None:
            continue
        r = ctx.lib.run(f, cls=q, opaque=("irtorch._internal_utils.entropy", "irtorch.models.base_irt_model.BaseIRTModel.probability_gradients", "irtorch.models.base_irt_model.BaseIRTModel.item_probabilities"))
        if r is None:
            continue
        th = r.params.get(f.posnames[1])
        D = Direction(r.interp, {th})
        for e in r.events:
            if e.kind == "vcall" or e.kind == "rcall":
                name = e.data[0] if e.kind == "rcall" else e.data.args[1]
                short = str(name).rsplit(".", 1)[-1]
                if short not in ("item_probabilities", "probability_gradients", "forward", "expected_scores"):
                    continue
                args = dict(e.data[2]) if e.kind == "rcall" else dict(e.data.args[3])
                x = args.get("theta")
            elif e.kind == "call" and e.data.op in ("vcall",) and e.data.args[1] in ("forward", "__call__", "item_probabilities", "probability_gradients"):
                x = dict(e.data.args[3]).get("theta")
                short = e.data.args[1]
            else:
                continue
            if x is None:
                continue
            v = D(x)
            if v == 0:
                ctx.ok("bit-direction", f"Bit.{m}: {short} at model-side points")
            elif v == 1:
                ctx.bad_ev("bit-direction", f"Bit.{m}:{short}", "the model is evaluated at direction-adjusted latent scores", e)
            elif v == Direction.MIX:
                ctx.bad_ev("bit-direction", f"Bit.{m}:{short}:mixed", "direction-adjusted and plain latent scores are combined", e)
            else:
                ctx.unknown("bit-direction", f"Bit.{m}: {show(x)[:120]}")
        if m == "jacobian" and r.value is not None:
            J = Direction(r.interp, set())
            J.visit = lambda t: "m" if is_mult(t) else None if t.op in ("vcall", "rcall") or t is th else NotImplemented
            J.passing = J.passing | {"sum", "nansum", "abs", "log2", "log"}
            v = J(r.value)
            if v == 1:
                ctx.ok("bit-direction", "Bit.jacobian: slope multiplied by the direction")
            elif v in (0, None) and not any(is_mult(x) for x in walk(r.value)):
                ctx.bad("bit-direction", "Bit.jacobian", "the slope does not change sign with the direction of the latent variable", f.module.relpath, f.node.lineno)
            else:
                ctx.unknown("bit-direction", f"Bit.jacobian: {v}")
        # entropies of the chosen items only
        if m != "jacobian":
            ent = [(e, e.data) for e in r.events if e.kind == "rcall" and e.data[0].endswith("._internal_utils.entropy")]
            for e, d in ent:
                b = dict(d[2])
                pr = next(iter(b.values()), None)
                inside = pr is not None and any(x.op == "index" and uses_items(x.args[1]) for x in walk(pr))
                users = [x for e2 in r.events if e2.seq > e.seq and isinstance(e2.data, Term) for x in walk(e2.data)
                         if x.op != "tuple" and any(y.op == "rcall" and y.args[0].endswith("._internal_utils.entropy") for y in children(x))]
                sliced = users and all(x.op == "index" and uses_items(x.args[1]) for x in users)
                if inside or sliced:
                    ctx.ok("bit-items", f"Bit.{m}")
                elif users:
                    ctx.bad_ev("bit-items", f"Bit.{m}", "entropies of items outside of the chosen ones enter the bit scores", e)
                else:
                    ctx.unknown("bit-items", f"Bit.{m}")
