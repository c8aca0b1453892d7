"""C24: stored intermediate results are never used for other inputs than they were computed from."""
import ast

from ..c_util import strip_pass
from ..logic import Theory
from ..terms import NONE, T, cval, const, is_const, show, walk

CHANGES = {"clamp", "clip", "abs", "exp", "log", "sqrt", "round", "pow", "softmax", "sigmoid", "tanh", "cumsum", "relu", "normalize", "detach_", "square"}
FREE = {"device", "dtype", "verbose"}          # inputs that change where a result is, not what it is


def cond(c, pol):
    return c if pol else T("not", c)


def conj(cs):
    cs = [(c, p) for c, p in cs if c.op not in ("iter", "exc")]
    return T("bool", "and", tuple(cond(c, p) for c, p in cs)) if cs else const(True)


def holds(theory, given, c, pol=True):
    """c is pol on every path that satisfies the given conditions"""
    return not theory.consistent(list(given) + [(c, not pol)])


def bare(t):
    """without copies and moves between devices"""
    while True:
        n = strip_pass(t)
        if n.op == "meth" and n.args[0] in ("clone", "detach", "contiguous", "to", "cpu", "cuda", "float"):
            n = n.args[1]
        if n is t:
            return t
        t = n


def within(t, x):
    return any(y is x for y in walk(t))


def chain(t):
    """(root, names) of an attribute chain"""
    names = []
    while t.op == "attr":
        names.append(t.args[1])
        t = t.args[0]
    return t, names[::-1]


class Memo:
    """one function that keeps results in attributes of its object"""

    def __init__(self, ctx, f, r, so, olds):
        self.ctx, self.f, self.r, self.so, self.olds = ctx, f, r, so, olds
        self.theory = Theory(r.interp)
        self.stores = {}
        for e in r.events:
            if e.kind == "setattr" and e.data[0] is so and e.data[1] in olds:
                self.stores.setdefault(e.data[1], []).append(e)

    def check(self):
        for a, old in sorted(self.olds.items()):
            es = [e for e in self.stores.get(a, ()) if not is_const(e.data[3])]
            if not es:
                continue
            if not any(x.op in ("call", "meth", "new", "bin", "rcall", "vcall") for e in es for x in walk(bare(e.data[3]))):
                continue                                             # nothing that took work
            if any(within(e.data[3], old) for e in es):
                continue                                             # grows from its own value
            tests = [c for e in es for c, _ in e.conds]
            if not any(within(c, o) for c in tests for o in self.olds.values()):
                continue                                             # whether it is computed does not depend on what is there
            if any(within(c, e.data[3]) and e.data[3].op not in ("param",) for e in es for c, _ in e.conds):
                continue                                             # compared with what is there, not kept to save work
            if not self.used(old):
                continue
            self.judge(a, old, es)

    def used(self, old):
        def outside(t, depth=0):
            if t is old:
                return True
            if t.op == "phi":
                return outside(t.args[1], depth) or outside(t.args[2], depth)
            if t.op == "cmp":
                return False
            return any(outside(y, depth) for x in t.args for y in flat(x))
        return outside(self.r.value) or any(outside(y) for e in self.r.events if e.kind in ("call", "rcall", "vcall") for y in flat(e.data[2] if e.kind == "rcall" else e.data) if hasattr(y, "op") and not (y.op == "call" and y.args[0] == "isinstance"))

    def judge(self, a, old, es):
        what = f"{self.f.qual}: {a}"
        failing = {(c, pol) for x in self.r.events if x.kind == "raise" and not any(k[0] == "try" for k in x.ctx) for c, pol in x.conds}
        self.under = {e: [(c, pol) for c, pol in e.conds if (c, not pol) not in failing] for e in es}
        reuse = [(conj(self.under[e]), False) for e in es]
        if not self.theory.consistent(reuse):
            self.ctx.ok("reuse", f"{what} is always computed")
            return
        # the inputs it is known to belong to
        keyed = []
        atoms = [x for e in es for c, _ in e.conds for x in walk(c)]
        for k, ko in self.olds.items():
            for x in atoms:
                other = None
                if x.op == "cmp" and x.args[0] in ("is", "==") and ko in x.args[1:]:
                    other = x.args[1] if x.args[2] is ko else x.args[2]
                elif x.op == "call" and x.args[0] in ("torch.equal", "numpy.array_equal") and ko in x.args[1]:
                    other = next((y for y in x.args[1] if y is not ko), None)
                elif x.op == "meth" and x.args[0] in ("equal", "is_set_to") and x.args[2] and ko in (x.args[1], x.args[2][0]):
                    other = x.args[1] if x.args[2][0] is ko else x.args[2][0]
                if other is None or is_const(other):
                    continue
                if not holds(self.theory, reuse, x):
                    continue
                kept = [e.data[3] for e in self.stores.get(k, ())]
                if kept and all(bare(v) is bare(other) for v in kept):
                    keyed.append(bare(other))
                elif kept:
                    self.ctx.bad_ev("reuse", what, f"{a} is used again when {k} is {show(other)[:60]}, but {k} is set to {show(kept[0])[:60]} when it is computed", self.stores[k][0])
                    return
        bad = self.unkept(a, es, reuse) or self.kinds(a, old, es, reuse, keyed)
        for e in es:
            bad = bad or self.inputs(a, old, e, reuse, keyed)
        if bad:
            self.ctx.bad_ev("reuse", what, bad, es[0])
        else:
            self.ctx.ok("reuse", what)

    def unkept(self, a, es, reuse):
        """whenever the result is computed, what it belongs to is kept with it"""
        for k, ko in self.olds.items():
            ks = self.stores.get(k, ())
            if k == a or not ks or not any(within(c, ko) for c, _ in reuse):
                continue
            for e in es:
                here = list(e.conds) + [(conj(x.conds), False) for x in ks] + [(T("cmp", "is", *o), False) for x in ks for o in ((ko, x.data[3]), (x.data[3], ko))]
                if self.theory.consistent(here):
                    return f"{a} is computed but {k}, which decides whether it is used again, is only set when {show(conj([c for c in ks[0].conds if c not in e.conds]))[:140]}"
        return None

    def kinds(self, a, old, es, reuse, keyed):
        """a choice that decides the class of what is kept is compared with the class of what is there"""
        chosen = {}
        for e in es:
            for c in [c for c, _ in e.conds] + [e.data[3]]:
                for x in walk(c):
                    if x.op == "cmp" and x.args[0] == "==":
                        for p, v in (x.args[1:], x.args[1:][::-1]):
                            if p.op == "param" and not p.args[0].startswith("old ") and is_const(v) and isinstance(cval(v), str) and bare(p) not in keyed:
                                chosen.setdefault(p, set()).add(cval(v))
        for p, vs in chosen.items():
            made = {v: set().union(*(self.classes(e.data[3], p, v) for e in es if self.theory.consistent(list(e.conds) + [(T("cmp", "==", p, const(v)), True)]))) for v in sorted(vs)}
            for v, cs in made.items():
                here = list(reuse) + [(T("cmp", "==", p, const(v)), True)]
                rest = set().union(*(x for u, x in made.items() if u != v)) - cs
                if not cs or not rest or not self.theory.consistent(here):
                    continue
                tests = [x for y in es for c, _ in y.conds for x in walk(c) if x.op == "call" and x.args[0] == "isinstance" and x.args[1][0] is old or x.op == "isinstance" and x.args[0] is old]
                if not any(self.tests(x, cs) and holds(self.theory, here, x) for x in tests):
                    return f"{a} is used again for {p.args[0]} {v!r} although it may be a {sorted(rest)[0].rsplit('.', 1)[-1]}"
        return None

    def inputs(self, a, old, e, reuse, keyed):
        seen = set()
        leaves, state = [], []

        def visit(t, path):
            if t in seen:
                return
            seen.add(t)
            if bare(t) in keyed or t in keyed or t.op == "opaque":
                return
            if t.op == "param":
                if not any(t is o for o in self.olds.values()):
                    leaves.append(t)
                return
            if t.op == "attr":
                root, names = chain(t)
                if root.op == "obj" or root.op == "param":
                    state.append((t, names, "read"))
                    if root.op == "param":
                        visit(root, path)
                    return
            if t.op in ("vcall", "rcall") or t.op == "meth":
                recv = t.args[2] if t.op in ("vcall", "rcall") else t.args[1]
                if recv is not None and hasattr(recv, "op"):
                    root, names = chain(recv)
                    if root.op == "obj" and t.op != "meth":
                        state.append((recv, names, "call " + str(t.args[1] if t.op == "vcall" else t.args[0])))
            if t.op == "obj":
                return
            if t.op == "phi":
                for pol, x in ((True, t.args[1]), (False, t.args[2])):
                    if holds(self.theory, e.conds, t.args[0], pol):
                        visit(x, path)
                        return
            if t.op == "new":
                for (o, n), v in self.r.state.heap.items():
                    if o is t and hasattr(v, "op"):
                        visit(v, path)
                return
            for x in t.args:
                for y in flat(x):
                    visit(y, path)
        visit(e.data[3], ())
        for p in leaves:
            if p.args[0].lstrip("*") in FREE or p.args[0].startswith("old "):
                continue
            if holds(self.theory, reuse, T("cmp", "is", p, NONE)):
                continue
            if self.selector(e.data[3], p) is not None:
                continue
            return f"{a} is computed from {p.args[0]} and used again when {p.args[0]} is another one: {self.how(reuse, a)}"
        for t, names, how in state:
            m = next((n for n in names if not self.fixed(n)), None)
            if m is None and how == "read":
                continue
            if m is None:
                q = names[-1] if names else "the object"
                if not self.ctx.p_is_module(t, self.r):
                    continue
                return f"{a} is computed by {how[5:]} of {q}, whose parameters a later fit changes, and used again: {self.how(reuse, a)}"
            if self.renewed(a, m):
                continue
            return f"{a} is computed from {'.'.join(names)}, which a later call changes, and used again: {self.how(reuse, a)}"
        return None

    def how(self, reuse, a):
        return "the only condition for using it again is not " + " or ".join(show(c)[:120] for c, _ in reuse)

    @staticmethod
    def tests(x, cs):
        k = x.args[1][1] if x.op == "call" else x.args[1]
        names = {show(k).rsplit(".", 1)[-1]} if k.op != "tuple" else {show(y).rsplit(".", 1)[-1] for y in k.args[0]}
        return names <= {c.rsplit(".", 1)[-1] for c in cs} and len(names) == 1

    @staticmethod
    def selector(v, p):
        """constants a choice is compared with, when the input is nothing but a choice"""
        out = set()

        def visit(t):
            if t is p:
                return False
            if t.op == "cmp" and p in t.args[1:]:
                o = t.args[1] if t.args[2] is p else t.args[2]
                if is_const(o):
                    if isinstance(cval(o), str):
                        out.add(cval(o))
                    return True
                return False
            return all(visit(y) for x in t.args for y in flat(x))
        return sorted(out) if visit(v) and out else None

    def classes(self, v, p, val):
        """classes of the kept object when the choice has this value"""
        th = self.theory
        eqc = T("cmp", "==", p, const(val))
        out = set()

        def visit(t):
            if t.op == "phi":
                if th.consistent([(eqc, True), (t.args[0], True)]):
                    visit(t.args[1])
                if th.consistent([(eqc, True), (t.args[0], False)]):
                    visit(t.args[2])
            elif t.op == "new":
                out.add(t.args[0])
        visit(v)
        return out

    def fixed(self, name):
        """attributes of this name are only set when objects are made"""
        return name not in self.ctx.changed

    def renewed(self, a, m):
        """every function that changes m also drops or renews a"""
        return all(a in names for q, names in self.ctx.setters.items() if m in names and not q.endswith(".__init__"))


def flat(x):
    if hasattr(x, "op"):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from flat(y)


def setters(p):
    """names of attributes every function sets, and the names set outside constructors"""
    out = {}
    for q, f in p.functions.items():
        names = set()
        for n in ast.walk(f.node):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        names.add(x.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                names.add(n.args[1].value)
        out[q] = names
    return out


def memos(ctx):
    lib = ctx.lib
    for f, r in lib.generic():
        if f.cls is None or f.node.name in ("__init__", "__new__", "__setstate__"):
            continue
        so = next((T("obj", f.cls.qual, "self", x) for x in (False, True) if any(e.kind == "setattr" and e.data[0] is T("obj", f.cls.qual, "self", x) for e in r.events)), None)
        if so is None:
            continue
        loaded = {e.data[1] for e in r.events if e.kind == "attrload" and e.data[0] is so and e.stack[-1:] in ((), (f.qual,))}
        if not loaded:
            continue      # judged in the function that looks at what is kept
        names = {e.data[1] for e in r.events if e.kind == "setattr" and e.data[0] is so}
        if not names & loaded:
            continue
        tested = any(so_attr(c, so) & names for e in r.events if e.kind == "setattr" and e.data[0] is so for c, _ in e.conds)
        if not tested:
            continue
        olds = {n: T("param", "old " + n, f.qual) for n in names & loaded}
        r2 = lib.run_with(f, heap=dict(olds))
        so2 = T("obj", f.cls.qual, "self", False)
        if r2 is None or r2.state is None:
            ctx.unknown("reuse", f.qual)
            continue
        Memo(ctx, f, r2, so2, olds).check()


def so_attr(c, so):
    return {x.args[1] for x in walk(c) if x.op == "attr" and x.args[0] is so}


# ---------------------------------------------------------------------------------------------------------- tables of results
def tables(ctx):
    """results kept in a dictionary: the key has every input"""
    for f, r in ctx.lib.generic():
        for e in r.events:
            if e.kind != "mutate" or not isinstance(e.extra, tuple) or e.extra[0] not in ("setitem", "setdefault"):
                continue
            new = e.extra[1]
            if new.op != "setitem" or len(new.args) < 3:
                continue
            root, k, v = e.data, new.args[1], new.args[2]
            base = root
            while base.op == "mu":
                base = base.args[-1]
            if base.op not in ("attr", "global", "param") or base.op == "param":
                continue
            hit = [c for c, pol in e.conds if any(x.op == "cmp" and x.args[0] in ("in", "not in") and x.args[2] is root for x in walk(c))]
            if not hit:
                continue
            what = f"{e.stack[-1] if e.stack else f.qual}: {show(base)[:50]}"
            missing = uncovered(ctx, v, k)
            if missing:
                ctx.bad_ev("table", what, f"{missing}: the result is used again for another input", e)
            else:
                ctx.ok("table", what)


def uncovered(ctx, v, k):
    parts = [bare(x) for x in (k.args[0] if k.op in ("tuple", "list") else (k,)) if hasattr(x, "op")]
    seen = set()

    def visit(t):
        if t in seen:
            return None
        seen.add(t)
        if bare(t) in parts or t in parts:
            return None
        if t.op == "param":
            if t.args[0].lstrip("*") in FREE:
                return None
            return f"the result depends on {t.args[0]}, which its key {show(k)[:80]} does not hold"
        if t.op == "attr":
            root, names = chain(t)
            if root.op == "obj":
                m = next((n for n in names if n in ctx.changed), None)
                return f"the result depends on {'.'.join(names)}, which its key {show(k)[:80]} does not hold" if m else None
        if t.op == "obj":
            return None
        if t.op in ("vcall", "rcall") and hasattr(t.args[2], "op") and chain(t.args[2])[0].op == "obj":
            return f"the result comes from {t.args[1]}, whose parameters a later fit changes"
        if t.op == "call" and t.args[0] in ("id", "hash"):
            return None
        for x in t.args:
            for y in flat(x):
                m = visit(y)
                if m:
                    return m
        return None
    if any(p.op == "call" and p.args[0] == "id" for p in parts):
        return f"the key {show(k)[:80]} is the address of an object, which a later object can have"
    return visit(v)


def decorated(ctx):
    p = ctx.p
    for q, f in p.functions.items():
        for d in f.node.decorator_list:
            x = d.func if isinstance(d, ast.Call) else d
            n = p.resolve_expr(x, f.module)
            if n in ("functools.lru_cache", "functools.cache"):
                ps = set(f.posnames) | set(f.kwonly)
                hit = next((y for y in ast.walk(f.node) if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id in ps), None)
                if hit is not None:
                    ctx.bad("table", f"{q}: {ast.unparse(d)}", f"results are kept for the object {hit.value.id}, whose contents ({ast.unparse(hit)}) can change between calls", f.module.path, f.node.lineno)
                else:
                    ctx.ok("table", f"{q}: {ast.unparse(d)}")
            elif n == "functools.cached_property":
                used = {y.attr for y in ast.walk(f.node) if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Load)}
                called = any(isinstance(y, ast.Call) and ast.unparse(y.func).startswith("self") for y in ast.walk(f.node))
                m = sorted(used & ctx.changed)
                if m or called:
                    ctx.bad("table", f"{q}: {ast.unparse(d)}", f"what is kept is computed from {m[0] if m else 'the object'}, which later calls change", f.module.path, f.node.lineno)
                else:
                    ctx.ok("table", f"{q}: {ast.unparse(d)}")


# ---------------------------------------------------------------------------------------------------------- prepared results
class Prepared:
    """attributes of a model that replace a computation of its forward pass while they are set"""

    def __init__(self, ctx, q):
        self.ctx, self.q, self.p = ctx, q, ctx.p
        self.attrs = {}          # name -> (what forward computes without it, its input)
        self.find()

    def find(self):
        f = self.p.find_method(self.q, "forward")
        if f is None:
            return
        r0 = self.ctx.lib.run(f, cls=self.q)
        if r0 is None:
            return
        so = T("obj", self.q, "self", True)
        names = {e.data[1] for e in r0.events if e.kind == "attrload" and e.data[0] is so}
        for n in sorted(names):
            tests = [c for e in r0.events for c, _ in e.conds if any(x.op == "cmp" and x.args[0] == "is" and is_const(x.args[2], None) and x.args[1].op == "attr" and x.args[1].args == (so, n) for x in walk(c))]
            if not tests:
                continue
            old = T("param", "old " + n, self.q)
            r = self.ctx.lib.run_with(f, cls=self.q, heap={n: old}, exact=True)
            if r is None or r.state is None:
                continue
            alt = None
            for x in [y for y in walk(r.value)]:
                if x.op == "phi" and old in x.args[1:] and within(x.args[0], old):
                    alt = x.args[1] if x.args[2] is old else x.args[2]
            if alt is not None and not is_const(alt) and any(y.op == "param" and y.args[0] in f.posnames for y in walk(alt)):
                self.attrs[n] = (alt, f)

    def check(self):
        for n, (alt, fwd) in self.attrs.items():
            self.same(n, alt, fwd)
            self.fits(n, fwd)

    def same(self, n, alt, fwd):
        """what is prepared is what the forward pass would compute"""
        theta = next(y for y in walk(alt) if y.op == "param" and y.args[0] in fwd.posnames)
        for b in self.p.mro(self.q):
            c = self.p.classes.get(b)
            for m in (c.methods.values() if c else ()):
                if m.node.name == "__init__" or n not in self.ctx.setters.get(m.qual, ()):
                    continue
                ps = [x for x in m.posnames[1:]]
                if len(ps) != 1:
                    continue
                r = self.ctx.lib.run(m, cls=self.q, presets={ps[0]: theta})
                if r is None:
                    continue
                for e in r.events:
                    if e.kind == "setattr" and e.data[1] == n and not is_const(e.data[3], None):
                        what = f"{self.q.rsplit('.', 1)[-1]}: {m.qual.rsplit('.', 1)[-1]} prepares {n}"
                        if e.data[3] is alt:
                            self.ctx.ok("same", what)
                        elif self.differ(e.data[3], alt, theta):
                            self.ctx.bad_ev("same", what, f"{n} is prepared as something else than the forward pass computes: {self.differ(e.data[3], alt, theta)}", e)
                        else:
                            self.ctx.unknown("same", what)
                        learnt = [y for y in walk(e.data[3]) if y.op == "attr" and y.args[1] in self.parameters()]
                        if learnt:
                            self.ctx.bad_ev("same", what, f"{n} is computed from the parameter {learnt[0].args[1]}, which every training step changes", e)

    def parameters(self):
        out = set()
        for b in self.p.mro(self.q):
            c = self.p.classes.get(b)
            for m in (c.methods.values() if c else ()):
                for x in ast.walk(m.node):
                    if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and ast.unparse(x.value.func).endswith("Parameter"):
                        out |= {t.attr for t in x.targets if isinstance(t, ast.Attribute)}
        return out

    @staticmethod
    def skeleton(t):
        """library calls, constants and attributes a value is made of"""
        out = {}
        seen = set()

        def visit(x):
            if x in seen:
                return
            seen.add(x)
            if x.op == "call":
                k = x.args[0]
            elif x.op == "meth":
                if x.args[0] in ("view", "reshape", "contiguous", "flatten", "clone", "detach", "transpose", "permute", "t", "to"):
                    k = None
                else:
                    k = "." + x.args[0]
            elif x.op == "attr":
                k = "attribute " + x.args[1] if x.args[1] not in ("T", "mT") else None
            elif x.op == "bin":
                k = "operator " + str(x.args[0])
            elif x.op == "const" and isinstance(x.args[1], (int, float)) and not isinstance(x.args[1], bool):
                k = f"constant {x.args[1]}" if x.args[1] not in (-1, 0, 1) else None
            else:
                k = None
            if k:
                out[k] = out.get(k, 0) + 1
            for a in x.args:
                for y in flat(a):
                    visit(y)
        visit(t)
        return set(out)

    def differ(self, a, b, theta):
        """a definite difference of two expressions: one uses constants or attributes the other does not"""
        x, y = self.skeleton(a), self.skeleton(b)
        d = sorted(k for k in x ^ y if k.startswith(("constant ", "attribute ")))
        if d and not (x ^ y) - set(d):
            return f"only one of them has {', '.join(d)[:100]}"
        extra = sorted((x | y) - (x & y))
        if (x <= y or y <= x) and any(k.rsplit(".", 1)[-1] in CHANGES for k in extra) and all(k.startswith("constant ") or k.rsplit(".", 1)[-1] in CHANGES for k in extra):
            return f"only one of them has {', '.join(extra)[:100]}"
        return None

    # ------------------------------------------------------------------------------------------------ who sets it
    def users(self, n):
        """functions that prepare or set the attribute of a model they are given"""
        names = {n} | {m.node.name for b in self.p.mro(self.q) for c in [self.p.classes.get(b)] if c for m in c.methods.values() if n in self.ctx.setters.get(m.qual, ()) and m.node.name != "__init__"}
        own = {m.qual for b in self.p.mro(self.q) for c in [self.p.classes.get(b)] if c for m in c.methods.values()}
        makers = names - {n}
        hit = set()
        for q, f in self.p.functions.items():
            if f.node.name in makers or f.node.name in ("__init__", "forward"):
                continue
            if f.cls is not None and q not in own and self.p.is_subclass(f.cls.qual, self.ctx.base):
                continue          # of another kind of model
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and (x.attr in makers or x.attr == n and (q not in own or isinstance(x.ctx, ast.Store))) or isinstance(x, ast.Constant) and x.value in names and q not in own:
                    hit.add(q)
        # up to the functions the user calls, when they are in the same class
        out = set()
        for q in hit:
            f = self.p.functions[q]
            if f.cls is not None and f.node.name.startswith("_"):
                ups = [m for m in f.cls.methods.values() if m is not f and not m.node.name.startswith("_") and self.reaches(f.cls, m, f.node.name)]
                if ups:
                    out |= {m.qual for m in ups}
                    continue
            out.add(q)
        return [self.p.functions[q] for q in sorted(out)]

    @staticmethod
    def reaches(c, m, name):
        seen, todo = set(), [m]
        while todo:
            x = todo.pop()
            if x.qual in seen:
                continue
            seen.add(x.qual)
            for y in ast.walk(x.node):
                if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == "self":
                    if y.attr == name:
                        return True
                    if y.attr in c.methods:
                        todo.append(c.methods[y.attr])
        return False

    def fits(self, n, fwd):
        short = self.q.rsplit(".", 1)[-1]
        for f in self.users(n):
            mp = next((x for x in f.posnames if x in ("model", "irt_model")), None)
            model = T("obj", self.q, "model", True)
            if mp is not None:
                r = self.ctx.lib.run(f, cls=f.cls.qual if f.cls else None, presets={mp: model})
            elif f.cls is not None and any(n == "self" for n in f.posnames[:1]) and self.p.is_subclass(self.q, f.cls.qual):
                r = self.ctx.lib.run(f, cls=self.q)
                model = T("obj", self.q, "self", True)
            else:
                self.ctx.unknown("window", f"{f.qual} with {short}")
                continue
            if r is None:
                self.ctx.unknown("window", f"{f.qual} with {short}")
                continue
            self.window(f, r, n, model, fwd, short)

    def window(self, f, r, n, model, fwd, short):
        th = Theory(r.interp)
        what = f"{f.qual} with {short}: {n}"
        sets = [e for e in r.events if e.kind == "setattr" and e.data[0] is model and e.data[1] == n]
        made = [e for e in sets if not is_const(e.data[3], None)]
        clears = [e for e in sets if is_const(e.data[3], None)] + [e for e in r.events if e.kind == "delattr" and e.data[0] is model and e.data[1] == n]
        if not made:
            self.ctx.ok("window", f"{what} is not set")
            return
        for s in made:
            later = [c for c in clears if c.seq > s.seq]
            given = [(c, p) for c, p in s.conds if c.op not in ("iter", "exc")]
            normal = [c for c in later if not any(k[0] == "handler" for k in c.ctx)]
            full = [c for c in normal if not th.consistent(given + [(conj([x for x in c.conds if x not in s.conds and x not in self.entry(c, s)]), False)])]
            if not later:
                self.ctx.bad_ev("window", what, f"{n} stays set after training: later evaluations at other latent scores use it", s)
                continue
            if not full:
                self.ctx.bad_ev("window", what, f"{n} stays set when not {show(conj(later[-1].conds))[:140]}: later evaluations at other latent scores use it", s)
                continue
            end = full[0]
            leave = [e for e in r.events if e.kind == "return" and s.seq < e.seq < end.seq and len(e.stack) <= len(end.stack) and self.escapes(e, end) and th.consistent(given + [(c, p) for c, p in e.conds if c.op not in ("iter", "exc")])]
            if leave:
                self.ctx.bad_ev("window", what, f"{n} stays set on the path that returns early: later evaluations at other latent scores use it", leave[0])
                continue
            # failures in between
            safe = [c[1] for c in end.ctx if c[0] == "finally"] + [k[1] for c in later for k in c.ctx if k[0] in ("handler", "finally")]
            risky = [e for e in r.events if s.seq < e.seq < end.seq and e.kind in ("call", "rcall", "vcall", "raise") and self.can_fail(e)
                     and not any(k[0] == "try" and k[1] in safe for k in e.ctx) and not any(k[0] in ("finally", "handler") and k[1] in safe for k in e.ctx)
                     and not (any(k[0] == "with" for k in end.ctx) and False)]
            if risky:
                self.ctx.bad_ev("window", what, f"{n} stays set when {self.name(risky[0])} fails: later evaluations at other latent scores use it", risky[0])
                continue
            # evaluations in between are at the prepared scores
            x0 = self.input_of(s, fwd)
            wrong = None
            for e in r.events:
                if e.kind == "rcall" and s.seq < e.seq < end.seq and e.data[0].endswith(".forward") and e.data[1] is model and x0 is not None:
                    x = dict(e.data[2]).get(fwd.posnames[1])
                    if x is None or bare(x) is bare(x0):
                        self.ctx.ok("window", f"{what}: evaluated at the same scores")
                    elif self.other(x, x0):
                        wrong = (e, x)
                    else:
                        self.ctx.unknown("window", f"{what}: {show(x)[:60]}")
            if wrong:
                self.ctx.bad_ev("window", what, f"the model is evaluated at {show(wrong[1])[:80]} while {n} belongs to {show(x0)[:80]}", wrong[0])
                continue
            self.ctx.ok("window", what)

    @staticmethod
    def other(x, y):
        """two values that are certainly not the same scores"""
        a = {z for z in walk(x) if z.op in ("param", "attr")}
        b = {z for z in walk(y) if z.op in ("param", "attr")}
        return Prepared.skeleton(x) != Prepared.skeleton(y) or a != b

    @staticmethod
    def entry(c, s):
        """conditions of the normal way into a finally block that also covers the place s"""
        return [x for k in c.ctx if k[0] == "finally" for x in k[2] if x not in k[3] or ("try", k[1]) in [y[:2] for y in s.ctx]]

    @staticmethod
    def escapes(e, end):
        return not any(k[0] == "try" and ("finally", k[1]) in [c[:2] for c in end.ctx] for k in e.ctx)

    @staticmethod
    def can_fail(e):
        if e.kind == "raise":
            return not any(k[0] == "try" for k in e.ctx[-1:])
        t = e.data
        if e.kind == "call" and t.op == "call" and t.args[0] in ("isinstance", "len", "float", "int", "range", "print", "hasattr", "list", "dict", "str"):
            return False
        if e.kind == "call" and t.op == "meth" and t.args[0] in ("info", "debug", "warning", "size", "dim", "train", "eval", "state_dict"):
            return False
        if e.kind == "call" and t.op == "attr" or e.kind == "call" and t.op in ("index",):
            return False
        return True

    @staticmethod
    def name(e):
        if e.kind == "rcall":
            return e.data[0].rsplit(".", 1)[-1]
        return show(e.data)[:80] if hasattr(e.data, "op") else str(e.data)[:80]

    def input_of(self, s, fwd):
        """the scores the prepared value was computed from"""
        alt, f = self.attrs[s.data[1]]
        theta = next(y for y in walk(alt) if y.op == "param" and y.args[0] in f.posnames)
        return match(alt, s.data[3], theta)


def match(pat, t, hole):
    """value of the hole when the pattern is the term"""
    if pat is hole:
        return t
    if not hasattr(t, "op") or pat.op != t.op or len(pat.args) != len(t.args):
        return None
    for a, b in zip(pat.args, t.args):
        for x, y in zip(list(flat(a)), list(flat(b))):
            if x is y:
                continue
            m = match(x, y, hole)
            if m is not None:
                return m
    return None


def check(ctx):
    ctx.setters = setters(ctx.p)
    ctx.changed = {n for q, ns in ctx.setters.items() if not q.endswith(".__init__") for n in ns}

    def is_module(t, r):
        q = r.interp.type_of(t) if hasattr(r.interp, "type_of") else None
        return True
    ctx.p_is_module = is_module
    memos(ctx)
    tables(ctx)
    decorated(ctx)
    ctx.base = ctx.p.cls("BaseIRTModel").qual
    ps = [Prepared(ctx, q) for q in ctx.lib.concrete("BaseIRTModel")]
    ctx.prepared = {x.q: set(x.attrs) for x in ps}
    for x in ps:
        x.check()
    ctx.floor("reuse", 1)
