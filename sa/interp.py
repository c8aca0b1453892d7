"""Abstract interpreter: syntax tree -> value graph (terms) + effect log.

Branches are joined (phi), loops are havocked (mu with a recorded step), private helpers are inlined,
virtual and opaque calls stay symbolic.  No path enumeration; nothing of the analysed code is executed.
"""
import ast
import sys
from .terms import T, Term, const, NONE, TRUE, FALSE, is_const, cval, intval, walk, subst, show
from . import cm
from .torchnorm import norm_call, norm_method, INPLACE_LIST, is_alloc

sys.setrecursionlimit(20000)
UNBOUND = T("unbound")
BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
MAXDEPTH = 9
BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__) | {"__name__", "__file__"}


class Event:
    __slots__ = ("kind", "data", "conds", "loops", "ctx", "stack", "line", "path", "seq", "extra")

    def __repr__(self):
        return f"{self.kind}@{self.path}:{self.line} {show(self.data) if isinstance(self.data, (Term, tuple)) else self.data}"


class State:
    __slots__ = ("envs", "frames", "heap", "conds", "ctx", "_facts", "jump")

    def __init__(self):
        self.envs, self.frames, self.heap, self.conds, self.ctx = [], [], {}, (), ()
        self._facts = None
        self.jump = None     # where the path left or restarted a loop: (events so far, line)

    def fork(self):
        s = State()
        s.envs = [dict(e) for e in self.envs]
        s.frames = list(self.frames)
        s.heap = dict(self.heap)
        s.conds = self.conds
        s.ctx = self.ctx
        s._facts = self._facts
        return s

    @property
    def env(self):
        return self.envs[-1]

    def assume(self, cond, pol):
        if is_const(cond):
            return
        self.conds = self.conds + ((cond, pol),)
        self._facts = None


def neg(c):
    if c.op == "not":
        return c.args[0]
    if is_const(c):
        return const(not cval(c))
    return T("not", c)


def mkphi(c, a, b):
    if a is b:
        return a
    if is_const(c):
        return a if cval(c) else b
    if c.op == "not":
        return mkphi(c.args[0], b, a)
    if c.op == "cmp" and c.args[0] in ("==", "is") and c.args[2] is a and c.args[1] is b and is_const(a):
        return b
    if a.op == "phi" and a.args[0] is c:
        a = a.args[1]
    if b.op == "phi" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return T("phi", c, a, b)


class Facts:
    """Truths implied by the path condition."""

    def __init__(self, conds):
        self.truth = {}
        self.eq = {}
        for c, p in conds:
            self.add(c, p)

    def add(self, c, p):
        if c.op == "not":
            return self.add(c.args[0], not p)
        if self.truth.get(c) == p:
            return
        self.truth[c] = p
        if c.op == "bool":
            if c.args[0] == "and" and p or c.args[0] == "or" and not p:
                for x in c.args[1]:
                    self.add(x, p)
            else:
                rest = [x for x in c.args[1] if self.truth.get(x) != (c.args[0] == "and") and not (x.op == "not" and self.truth.get(x.args[0]) == (c.args[0] != "and"))]
                if len(rest) == 1:
                    self.add(rest[0], p)
        if c.op == "cmp" and c.args[0] in ("==", "is") and p:
            a, b = c.args[1], c.args[2]
            if is_const(b):
                self.eq[a] = b
            elif is_const(a):
                self.eq[b] = a


class Interp:
    def __init__(self, program, opaque=(), inline_all=False, max_depth=MAXDEPTH, max_steps=400000):
        self.p = program
        self.opaque = opaque          # callable(Func, recv_exact) -> bool, or set of quals
        self.max_depth = max_depth
        self.events = []
        self.log = True
        self.steps = {}               # loop id -> {key: [step terms]}
        self.loopinfo = {}            # loop id -> dict(iter=..., node=..., breaks=[...])
        self.closures = {}
        self.rets = []
        self.brks = []
        self.conts = []
        self.stack = []
        self.nodepath = []
        self.loops = ()
        self.frame_counter = 0
        self.tags = program.__dict__.setdefault("_tags", {})   # shared, so that runs of one function can be compared
        self.nsteps = 0
        self.max_steps = max_steps
        self.attr_types = {}
        self.truncated = []
        self.cls_params = {}

    # ------------------------------------------------------------------ utils
    def tag(self, node, extra=None):
        key = (id(node), tuple(self.nodepath), extra)
        t = self.tags.get(key)
        if t is None:
            t = len(self.tags) + 1
            self.tags[key] = t
        return t

    def ev(self, kind, data, st, node=None, extra=None):
        if not self.log:
            return None
        e = Event()
        e.kind, e.data, e.conds, e.loops, e.ctx = kind, data, st.conds, self.loops, st.ctx
        e.stack = tuple(f.qual if f is not None else "<lambda>" for f in self.stack)
        e.line = getattr(node, "lineno", None)
        e.path = self.curmod.relpath if self.curmod else ""
        e.seq = len(self.events)
        e.extra = extra
        self.events.append(e)
        return e

    @property
    def curfunc(self):
        return self.stack[-1] if self.stack else None

    # ------------------------------------------------------------------ typing
    def typeof(self, t, depth=0):
        """Qualified repo class of the value (or None) and whether it is exact."""
        if depth > 12:
            return None
        if t.op == "obj":
            return (t.args[0], t.args[2])
        if t.op == "new":
            return (t.args[0], True)
        if t.op == "param":
            return self.param_types.get(t)
        if t.op == "attr":
            o = self.typeof(t.args[0], depth + 1)
            if o:
                r = self.attr_type(o[0], t.args[1])
                if r and r[0] == "cls":
                    return (r[1], False)
            return None
        if t.op in ("elem", "index"):
            et = self.elemtype(t.args[0], depth + 1)
            return (et, False) if et else None
        if t.op == "phi":
            a, b = self.typeof(t.args[1], depth + 1), self.typeof(t.args[2], depth + 1)
            if is_const(t.args[1], None):
                return b
            if is_const(t.args[2], None):
                return a
            if a and b:
                if a[0] == b[0]:
                    return (a[0], a[1] and b[1])
                for x in self.p.mro(a[0]):
                    if x in self.p.mro(b[0]) and x in self.p.classes:
                        return (x, False)
            return None
        if t.op in ("mu", "out"):
            return self.typeof(t.args[2], depth + 1)
        if t.op == "call" and t.args[0] in ("copy.deepcopy", "copy.copy") and t.args[1]:
            return self.typeof(t.args[1][0], depth + 1)
        if t.op == "fresh":
            return self.typeof(t.args[0], depth + 1)
        if t.op == "elemof":
            return None
        return None

    def elemtype(self, t, depth=0):
        if depth > 12:
            return None
        if t.op == "param":
            return self.param_elem_types.get(t)
        if t.op == "attr":
            o = self.typeof(t.args[0], depth + 1)
            if o:
                r = self.attr_type(o[0], t.args[1])
                if r and r[0] == "list":
                    return r[1]
            return None
        if t.op == "call" and t.args[0] in ("reversed", "list", "sorted", "tuple", "torch.nn.ModuleList", "enumerate") and t.args[1]:
            return self.elemtype(t.args[1][0], depth + 1)
        if t.op == "list" and t.args[0]:
            ts = {self.typeof(x) for x in t.args[0]}
            if len(ts) == 1 and None not in ts:
                return ts.pop()[0]
        if t.op == "listof":
            r = self.typeof(t.args[0], depth + 1)
            return r[0] if r else None
        if t.op == "phi":
            return self.elemtype(t.args[1], depth + 1) or self.elemtype(t.args[2], depth + 1)
        return None

    def ann_type(self, ann, module):
        """('cls', q) | ('list', q) | ('prim', name) | ('tensor',) | None"""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return self.ann_type(ann.left, module) or self.ann_type(ann.right, module)
        if isinstance(ann, ast.Subscript):
            b = ast.unparse(ann.value)
            if b.split(".")[-1] in ("list", "List", "tuple", "Tuple", "Sequence", "Iterable"):
                e = ann.slice.elts[0] if isinstance(ann.slice, ast.Tuple) and ann.slice.elts else ann.slice
                r = self.ann_type(e, module)
                return ("list", r[1]) if r and r[0] == "cls" else ("prim", "list")
            if b.split(".")[-1] == "Optional":
                return self.ann_type(ann.slice, module)
            return None
        q = self.p.resolve_expr(ann, module)
        if q in self.p.classes:
            return ("cls", q)
        if q in ("torch.Tensor", "torch.tensor"):
            return ("tensor",)
        if isinstance(ann, ast.Name) and ann.id in ("int", "float", "str", "bool", "list", "dict", "tuple"):
            return ("prim", ann.id)
        return None

    def attr_type(self, q, name):
        key = (q, name)
        if key in self.attr_types:
            return self.attr_types[key]
        self.attr_types[key] = None
        res = None
        for b in self.p.mro(q):
            c = self.p.classes.get(b)
            if not c:
                continue
            for f in c.methods.values():
                for n in ast.walk(f.node):
                    tgt = val = ann = None
                    if isinstance(n, ast.Assign):
                        for tg in n.targets:
                            if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == "self" and tg.attr == name:
                                tgt, val = tg, n.value
                    elif isinstance(n, ast.AnnAssign):
                        tg = n.target
                        if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == "self" and tg.attr == name:
                            tgt, val, ann = tg, n.value, n.annotation
                    if tgt is None:
                        continue
                    r = self.ann_type(ann, c.module) if ann is not None else None
                    if r is None and isinstance(val, ast.Call):
                        fq = self.p.resolve_expr(val.func, c.module)
                        if fq in self.p.classes:
                            r = ("cls", fq)
                        elif fq == "torch.nn.ModuleList" and val.args and isinstance(val.args[0], ast.Name):
                            r = self.ann_type(f.annotations.get(val.args[0].id), c.module)
                    if r is None and isinstance(val, ast.Name):
                        r = self.ann_type(f.annotations.get(val.id), c.module)
                    if r is None and isinstance(val, ast.Name):
                        # local assigned from a repo class constructor
                        for m in ast.walk(f.node):
                            if isinstance(m, ast.Assign) and any(isinstance(x, ast.Name) and x.id == val.id for x in m.targets) and isinstance(m.value, ast.Call):
                                fq = self.p.resolve_expr(m.value.func, c.module)
                                if fq in self.p.classes:
                                    r = ("cls", fq)
                    if r is not None and (res is None or r[0] == "cls"):
                        if res and res[0] == "cls" and r[0] == "cls" and res[1] != r[1]:
                            common = [x for x in self.p.mro(res[1]) if x in self.p.mro(r[1]) and x in self.p.classes]
                            res = ("cls", common[0]) if common else None
                        else:
                            res = r
        if res is None:
            # frozen knowledge: the algorithm attribute of models
            if name == "algorithm" and any(b.endswith(".BaseIRTModel") for b in self.p.mro(q)):
                a = [c.qual for c in self.p.classes.values() if c.name == "BaseIRTAlgorithm"]
                res = ("cls", a[0]) if a else None
            if name == "encoder":
                a = [c.qual for c in self.p.classes.values() if c.name == "BaseEncoder"]
                res = ("cls", a[0]) if a else None
        self.attr_types[key] = res
        return res

    # ------------------------------------------------------------------ entry points
    def run(self, func, presets=None, self_obj=None, state=None, closure_params=None):
        """Interpret one function symbolically.  Returns a Result."""
        self.param_types = getattr(self, "param_types", {})
        self.param_elem_types = getattr(self, "param_elem_types", {})
        st = state or State()
        bound = {}
        names = list(func.posnames)
        if func.cls is not None and not func.is_static and names:
            if self_obj is None:
                self_obj = T("obj", func.cls.qual, "self", False)
            if func.is_classmethod:
                self_obj = T("class", func.cls.qual)
            bound[names[0]] = self_obj
            names = names[1:]
        for n in names + func.kwonly:
            bound[n] = self.make_param(n, func)
        if func.vararg:
            bound[func.vararg] = T("param", "*" + func.vararg, func.qual)
        if func.kwarg:
            bound[func.kwarg] = T("param", "**" + func.kwarg, func.qual)
        if presets:
            bound.update(presets)
        e0 = len(self.events)
        val, st2 = self.inline(func, bound, st, None)
        return Result(self, func, bound, val, st2, self.events[e0:], self.last_rets)

    def make_param(self, n, func):
        t = T("param", n, func.qual)
        a = self.ann_type(func.annotations.get(n), func.module)
        if a and a[0] == "cls":
            self.param_types[t] = (a[1], False)
        if a and a[0] == "list":
            self.param_elem_types[t] = a[1]
        if a is None and n in ("model", "irt_model"):
            q = [c.qual for c in self.p.classes.values() if c.name == "BaseIRTModel"]
            if q:
                self.param_types[t] = (q[0], False)
        if a is None and n == "models":
            q = [c.qual for c in self.p.classes.values() if c.name == "BaseIRTModel"]
            if q:
                self.param_elem_types[t] = q[0]
        self.cls_params.setdefault(t, a)
        return t

    # ------------------------------------------------------------------ inlining
    def inline(self, func, bound, st, node, closure_env=None, body_node=None, module=None):
        """Execute a function body with bound parameters. Returns (value, state or None)."""
        fnode = body_node or func.node
        mod = module or func.module
        self.frame_counter += 1
        st.envs.append(dict(closure_env) if closure_env else {})
        st.frames.append(self.frame_counter)
        st.env.update(bound)
        depth_env = len(st.envs)
        savemod = getattr(self, "curmod", None)
        self.curmod = mod
        self.stack.append(func)
        self.nodepath.append(id(node) if node is not None else 0)
        savectx = st.ctx
        if func is not None:
            for d in func.decorators:
                if "no_grad" in d or "inference_mode" in d or "enable_grad" in d:
                    st.ctx = st.ctx + (("with", T("deco", d)),)
        self.rets.append([])
        saveb, savec = self.brks, self.conts
        self.brks, self.conts = [], []
        base = len(st.conds)
        baseconds = st.conds
        if isinstance(fnode, ast.Lambda):
            v = self.eval(fnode.body, st)
            self.rets[-1].append((st, v, fnode))
            end = None
        else:
            end = self.block(fnode.body, st)
        rets = self.rets.pop()
        if end is not None:
            rets.append((end, NONE, None))
        self.brks, self.conts = saveb, savec
        # merge the returns
        out = None
        val = None
        for s, v, n in reversed(rets):
            if out is None:
                out, val = s, v
            else:
                c = self.conj(s.conds[base:])
                val = mkphi(c, v, val)
                out = self.merge(c, s, out)
        self.last_rets = [(s.conds[base:], v, n) for s, v, n in rets]
        if out is not None:
            out.envs = out.envs[:depth_env - 1]
            out.frames = out.frames[:depth_env - 1]
            if len(rets) > 1 or out.conds[:base] != baseconds:
                out.conds = baseconds
            # keep what a single surviving path learnt (validation helpers)
            out.ctx = savectx
            out._facts = None
        self.stack.pop()
        self.nodepath.pop()
        self.curmod = savemod
        return val, out

    @staticmethod
    def conj(conds):
        cs = [c if p else neg(c) for c, p in conds]
        if not cs:
            return TRUE
        if len(cs) == 1:
            return cs[0]
        return T("bool", "and", tuple(cs))

    def merge(self, c, a, b):
        """State that is a when c holds and b otherwise."""
        if a is None:
            return b
        if b is None:
            return a
        s = State()
        s.frames = list(a.frames[:min(len(a.frames), len(b.frames))])
        s.envs = []
        for ea, eb in zip(a.envs, b.envs):
            e = {}
            for k in ea.keys() | eb.keys():
                va, vb = ea.get(k, UNBOUND), eb.get(k, UNBOUND)
                e[k] = va if va is vb else mkphi(c, va, vb)
            s.envs.append(e)
        s.heap = {}
        for k in a.heap.keys() | b.heap.keys():
            va = a.heap.get(k)
            vb = b.heap.get(k)
            if va is None:
                va = self.init_attr(k)
            if vb is None:
                vb = self.init_attr(k)
            s.heap[k] = va if va is vb else mkphi(c, va, vb)
        n = 0
        for x, y in zip(a.conds, b.conds):
            if x != y:
                break
            n += 1
        s.conds = a.conds[:n]
        s.ctx = a.ctx if len(a.ctx) <= len(b.ctx) else b.ctx
        return s

    def init_attr(self, key):
        o, n = key
        if o.op == "new":
            return UNBOUND
        return T("attr", o, n)

    # ------------------------------------------------------------------ conditions
    def facts(self, st):
        if st._facts is None:
            st._facts = Facts(st.conds)
        return st._facts

    any_state = False   # whether an attribute is there is left open
    oracle = None    # decides loops and conditions on a fixed configuration
    given = {}    # results of library calls that are known
    fresh = frozenset()    # library calls of which every call gives a value of its own

    def truth(self, c, st, depth=0):
        """True / False / None"""
        v = self.truth0(c, st, depth)
        if v is None and self.oracle is not None and depth == 0:
            v = self.oracle.truth(c, self)
        return v

    def truth0(self, c, st, depth=0):
        if depth > 20:
            return None
        if is_const(c):
            return bool(cval(c))
        if c.op == "not":
            v = self.truth(c.args[0], st, depth + 1)
            return None if v is None else not v
        f = self.facts(st)
        if c in f.truth:
            return f.truth[c]
        if c.op == "bool":
            vs = [self.truth(x, st, depth + 1) for x in c.args[1]]
            if c.args[0] == "and":
                if any(v is False for v in vs):
                    return False
                if all(v is True for v in vs):
                    return True
            else:
                if any(v is True for v in vs):
                    return True
                if all(v is False for v in vs):
                    return False
            return None
        if c.op == "cmp":
            op, a, b = c.args
            a, b = self.resolve(a, st), self.resolve(b, st)
            a = f.eq.get(a, a)
            b = f.eq.get(b, b)
            if op in ("==", "is"):
                if is_const(a) and is_const(b):
                    if op == "is" or (cval(a) is None) != (cval(b) is None) or isinstance(cval(a), str) != isinstance(cval(b), str):
                        return a is b or (op == "==" and cval(a) == cval(b))
                    return cval(a) == cval(b)
                if is_const(b, None):
                    if self.nonnone(a):
                        return False
                    if f.truth.get(a) is True:
                        return False
                if is_const(a, None) and self.nonnone(b):
                    return False
                if op == "is" and a is b:
                    return True
                # a known different constant
                if is_const(b):
                    for t, v in f.truth.items():
                        if v and t.op == "cmp" and t.args[0] == "in" and t.args[1] is a and t.args[2].op in ("list", "tuple", "set"):
                            if all(is_const(x) for x in t.args[2].args[0]) and all(cval(x) != cval(b) for x in t.args[2].args[0]):
                                return False
                if a.op == "phi" and is_const(b):
                    v1 = self.truth(T("cmp", op, a.args[1], b), st, depth + 1)
                    v2 = self.truth(T("cmp", op, a.args[2], b), st, depth + 1)
                    if v1 is not None and v1 == v2:
                        return v1
                return None
            if op == "in":
                if b.op in ("list", "tuple", "set"):
                    rs = [self.truth(T("cmp", "==", a, x), st, depth + 1) for x in b.args[0]]
                    if any(r is True for r in rs):
                        return True
                    if all(r is False for r in rs):
                        return False
                    for t, v in f.truth.items():
                        if v and t.op == "cmp" and t.args[0] == "in" and t.args[1] is a and t.args[2].op in ("list", "tuple", "set"):
                            if set(t.args[2].args[0]) <= set(b.args[0]):
                                return True
                            if all(is_const(x) for x in t.args[2].args[0] + b.args[0]) and not set(t.args[2].args[0]) & set(b.args[0]):
                                return False
                if b.op == "dict" and is_const(a):
                    ks = [k for k, _ in b.args[0]]
                    if all(isinstance(k, Term) and is_const(k) for k in ks):
                        return any(cval(k) == cval(a) for k in ks)
                if is_const(a) and is_const(b) and isinstance(cval(b), str) and isinstance(cval(a), str):
                    return cval(a) in cval(b)
                return None
            if op in ("<", "<="):
                x, y = numconst(a), numconst(b)
                if x is not None and y is not None:
                    return x < y if op == "<" else x <= y
            return None
        if c.op == "call":
            if c.args[0] == "isinstance" and len(c.args[1]) == 2:
                return self.isinstance_truth(c.args[1][0], c.args[1][1])
            if c.args[0] == "hasattr" and len(c.args[1]) == 2 and is_const(c.args[1][1]):
                if self.any_state:
                    return None
                t = self.typeof(c.args[1][0])
                if st is not None and (self.resolve(c.args[1][0], st), cval(c.args[1][1])) in st.heap:
                    return True
                if is_const(self.resolve(c.args[1][0], st) if st is not None else c.args[1][0], None):
                    return hasattr(None, str(cval(c.args[1][1])))
                if t:
                    has = self.has_attr(t[0], cval(c.args[1][1]))
                    if has:
                        return True
                    if self.may_attr(t[0], cval(c.args[1][1])):
                        # the constructor of an instance under an oracle ran with one fixed configuration: what it did not set is not there
                        if self.oracle is not None and t[1] and st is not None:
                            o = self.resolve(c.args[1][0], st)
                            if any(k[0] == o for k in st.heap if isinstance(k, tuple)):
                                return False
                        return None
                    if t[1] and not has:
                        return False
                    if not any(self.has_attr(s, cval(c.args[1][1])) for s in self.p.subclasses.get(t[0], ())):
                        return False if self.closed(t[0]) else None
                return None
        if c.op in ("list", "tuple", "set"):
            return len(c.args[0]) > 0
        if c.op == "dict":
            return len(c.args[0]) > 0
        if c.op in ("new", "func", "class", "closure", "bound", "obj"):
            return True
        if c.op == "phi":
            t = self.truth(c.args[0], st, depth + 1)
            if t is not None:
                return self.truth(c.args[1] if t else c.args[2], st, depth + 1)
            v1, v2 = self.truth(c.args[1], st, depth + 1), self.truth(c.args[2], st, depth + 1)
            if v1 is not None and v1 == v2:
                return v1
        r = self.resolve(c, st)
        if r is not c:
            return self.truth(r, st, depth + 1)
        e = f.eq.get(c)
        if e is not None:
            return bool(cval(e))
        if f.truth.get(T("cmp", "is", c, NONE)) is True:
            return False
        return None

    def closed(self, q):
        return False

    def has_attr(self, q, name):
        if self.p.find_method(q, name) or self.p.find_class_attr(q, name):
            return True
        for b in self.p.mro(q):
            c = self.p.classes.get(b)
            if c:
                for f in c.methods.values():
                    if f.name == "__init__":
                        for n in ast.walk(f.node):
                            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                                for tg in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                                    if isinstance(tg, ast.Attribute) and tg.attr == name and isinstance(tg.value, ast.Name) and tg.value.id == "self":
                                        return True
        return False

    def may_attr(self, q, name):
        """whether some method of the class can give its objects an attribute of that name"""
        key = (q, name)
        memo = self.p.__dict__.setdefault("_may_attr", {})
        if key not in memo:
            memo[key] = any(self.gives(f.node, name) for b in self.p.mro(q) if b in self.p.classes for f in self.p.classes[b].methods.values())
        return memo[key]

    @staticmethod
    def gives(node, name):
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == name:
                return True
            if isinstance(n, ast.Call):
                f = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
                if f in ("add_module", "register_module", "register_buffer", "register_parameter", "setattr", "__setattr__"):
                    a = n.args[1] if f == "setattr" and len(n.args) > 1 else n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == "name"), None)
                    if isinstance(a, ast.Constant):
                        if a.value == name:
                            return True
                    elif isinstance(a, ast.JoinedStr) and a.values and isinstance(a.values[0], ast.Constant):
                        if name.startswith(str(a.values[0].value)):
                            return True
                    else:
                        return True
        return False

    def isinstance_truth(self, x, c):
        if c.op in ("tuple", "list"):
            rs = [self.isinstance_truth(x, y) for y in c.args[0]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if c.op == "class":
            t = self.typeof(x)
            if t:
                if self.p.is_subclass(t[0], c.args[0]):
                    return True
                if t[1]:
                    return False
                if not self.p.is_subclass(c.args[0], t[0]) and not any(self.p.is_subclass(s, t[0]) for s in self.p.subclasses.get(c.args[0], ())):
                    return False
            if is_const(x):
                return False
        if c.op == "global" and is_const(x):
            n = c.args[0]
            if n in ("int", "float", "str", "bool", "list", "dict", "tuple"):
                v = cval(x)
                return isinstance(v, {"int": int, "float": float, "str": str, "bool": bool, "list": list, "dict": dict, "tuple": tuple}[n])
            return False
        if c.op == "global" and x.op in ("list", "tuple", "dict", "set") and c.args[0] in ("list", "tuple", "dict", "set", "int", "float", "str"):
            return x.op == c.args[0]
        return None

    NONNONE = {"list", "tuple", "dict", "set", "new", "obj", "bin", "un", "listof", "fstr", "closure", "func", "class", "bound",
               "setitem", "cmp", "not", "inplace", "listappend", "ridx", "dictof"}

    def nonnone(self, t):
        if is_const(t):
            return cval(t) is not None
        if t.op in self.NONNONE:
            return True
        if t.op == "call" and (t.args[0].startswith("torch.") or t.args[0] in ("len", "range", "list", "int", "float", "str", "zip", "sum", "max", "min", "copy.deepcopy", "sorted", "reversed", "isinstance")):
            return True
        if t.op == "meth" and t.args[0] not in ("get", "pop", "__call__", "setdefault"):
            return True
        if t.op == "phi":
            return self.nonnone(t.args[1]) and self.nonnone(t.args[2])
        return False

    def resolve(self, t, st):
        """Prune phis whose condition is known."""
        n = 0
        while t.op == "phi" and n < 50:
            v = self.truth(t.args[0], st, 10)
            if v is None:
                # an unbound or None side that the facts rule out
                f = self.facts(st)
                ni = T("cmp", "is", t, NONE)
                if f.truth.get(ni) is False:
                    if is_const(t.args[1], None):
                        t = t.args[2]
                        continue
                    if is_const(t.args[2], None):
                        t = t.args[1]
                        continue
                break
            t = t.args[1] if v else t.args[2]
            n += 1
        return t

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            self.nsteps += 1
            if self.nsteps > self.max_steps:
                self.truncated.append(("steps", self.curfunc.qual if self.curfunc else ""))
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return st
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.eval(s.value, st)
        return self.dead(st)

    def dead(self, st):
        if st.conds and st.conds[-1] == (FALSE, True):
            return None
        return st

    def s_Pass(self, s, st):
        return st

    def s_Import(self, s, st):
        for a in s.names:
            q = a.name if a.asname else a.name.split(".")[0]
            st.env[a.asname or a.name.split(".")[0]] = self.globref(self.p.canonical(q))
        return st

    def s_ImportFrom(self, s, st):
        base = self.p.import_base(s, self.curmod, self.curmod.path.endswith("__init__.py"))
        for a in s.names:
            st.env[a.asname or a.name] = self.globref(self.p.canonical(f"{base}.{a.name}"))
        return st

    def s_FunctionDef(self, s, st):
        st.env[s.name] = self.make_closure(s, st)
        return st

    def make_closure(self, node, st):
        i = self.tag(node, "closure")
        t = T("closure", i)
        snap = dict(st.env)
        self.closures[t] = (node, self.curmod, self.curfunc, st.frames[-1] if st.frames else 0, snap)
        return t

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        if self.dead(st) is None:
            return None
        self.ev("return", v, st, s)
        self.rets[-1].append((st, v, s))
        return None

    def s_Raise(self, s, st):
        v = self.eval(s.exc, st) if s.exc is not None else NONE
        self.ev("raise", v, st, s)
        return None

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        self.ev("assert", c, st, s)
        if self.truth(c, st) is False:
            return None
        if self.truth(c, st) is None:
            st.assume(c, True)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = UNBOUND
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                i = self.eval(t.slice, st)
                self.mutate("del", b, T("inplace", "del", b, (i,), ()), st, s)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st)
                self.ev("delattr", (o, t.attr), st, s)
        return st

    def s_Global(self, s, st):
        st.env.setdefault("@globals", T("set", tuple(const(n) for n in s.names)))
        return st

    def s_Nonlocal(self, s, st):
        return st

    def s_Break(self, s, st):
        if self.brks:
            st.jump = (len(self.events), s.lineno)
            self.brks[-1].append(st)
        return None

    def s_Continue(self, s, st):
        if self.conts:
            st.jump = (len(self.events), s.lineno)
            self.conts[-1].append(st)
        return None

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        if self.dead(st) is None:
            return None
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.eval(s.value, st)
            self.assign(s.target, v, st, s)
        return st

    def s_AugAssign(self, s, st):
        op = BIN[type(s.op)]
        load = ast.copy_location(_as_load(s.target), s.target)
        old = self.eval(load, st)
        v = self.eval(s.value, st)
        new = self.binop(op, old, v)
        if isinstance(s.target, ast.Subscript):
            self.assign(s.target, new, st, s)
            return st
        if not self.immutable(old):
            self.ev("mutate", old, st, s, extra=("aug" + op, new))
        if isinstance(s.target, ast.Attribute):
            self.assign(s.target, new, st, s, aug=True)
        else:
            self.assign(s.target, new, st, s)
        return st

    def immutable(self, t):
        if is_const(t) or t.op in ("fstr", "cmp", "tuple", "ridx", "not"):
            return True
        if t.op == "bin":
            return all(self.immutable(x) for x in t.args[1:])
        if t.op == "un":
            return self.immutable(t.args[1])
        if t.op == "call" and t.args[0] in ("len", "int", "float", "str", "min", "max", "abs", "bool", "round", "range"):
            return True
        if t.op == "meth" and t.args[0] in ("item", "dim", "numel", "size", "tolist"):
            return t.args[0] != "tolist"
        if t.op == "param":
            a = self.cls_params.get(t)
            return bool(a and a[0] == "prim" and a[1] in ("int", "float", "str", "bool"))
        if t.op in ("mu", "out"):
            return self.immutable(t.args[2])
        if t.op == "phi":
            return self.immutable(t.args[1]) and self.immutable(t.args[2])
        if t.op == "index" and t.args[0].op == "attr" and t.args[0].args[1] == "shape":
            return True
        return False

    def assign(self, target, v, st, node, aug=False):
        if isinstance(target, ast.Name):
            g = st.env.get("@globals")
            if g is not None and any(is_const(x, target.id) for x in g.args[0]):
                self.ev("setglobal", (T("global", f"{self.curmod.name}.{target.id}"), v), st, node)
                st.heap[(T("global", self.curmod.name), target.id)] = v
                return
            st.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(target.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, T("index", v, T("slice", const(i), NONE, NONE)), st, node)
                elif star and i > star[0]:
                    self.assign(e, self.index(v, const(i - n), st), st, node)
                else:
                    self.assign(e, self.index(v, const(i), st), st, node)
        elif isinstance(target, ast.Attribute):
            o = self.eval(target.value, st)
            self.setattr(o, target.attr, v, st, node, aug)
        elif isinstance(target, ast.Subscript):
            b = self.eval(target.value, st)
            i = self.eval(target.slice, st)
            if b.op == "meth" and b.args[0] == "__modules__" or (b.op == "attr" and b.args[1] in ("_modules", "_buffers", "_parameters") and self.keyname(i)):
                self.setattr(b.args[0] if b.op == "attr" else b.args[1], self.keyname(i), v, st, node)
                return
            new = None
            if b.op == "dict":
                items = [kv for kv in b.args[0] if kv[0] is not i]
                new = T("dict", tuple(items) + ((i, v),), *b.args[1:])
            elif b.op == "list" and intval(i) is not None and -len(b.args[0]) <= intval(i) < len(b.args[0]):
                l = list(b.args[0])
                l[intval(i)] = v
                new = T("list", tuple(l), *b.args[1:])
            else:
                new = T("setitem", b, i, v, loc=(self.curmod.relpath, getattr(node, "lineno", 0)))
            self.mutate("setitem", b, new, st, node, (i, v))
            self.rebind(target.value, b, new, st)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, st, node)

    def rebind(self, expr, old, new, st):
        """After an in-place change through the expression, the location it names holds the new value."""
        if isinstance(expr, ast.Name):
            if expr.id in st.env:
                st.env[expr.id] = new
        elif isinstance(expr, ast.Attribute):
            o = self.eval_quiet(expr.value, st)
            if o is not None:
                st.heap[(o, expr.attr)] = new
        elif isinstance(expr, ast.Subscript):
            b = self.eval_quiet(expr.value, st)
            i = self.eval_quiet(expr.slice, st)
            if b is not None and i is not None:
                nb = T("setitem", b, i, new)
                self.subst_all(b, nb, st)
                self.rebind(expr.value, b, nb, st)

    def eval_quiet(self, e, st):
        log, self.log = self.log, False
        try:
            return self.eval(e, st)
        finally:
            self.log = log

    def keyname(self, t):
        if is_const(t) and isinstance(cval(t), str):
            return cval(t)
        if t.op == "fstr":
            return "".join(cval(x) if is_const(x) and isinstance(cval(x), str) else str(cval(x)) if is_const(x) else "{}" for x in t.args)
        if t.op == "bin" and t.args[0] == "+":
            a, b = self.keyname(t.args[1]), self.keyname(t.args[2])
            return (a or "{}") + (b or "{}") if (a or b) else None
        return None

    def setattr(self, o, name, v, st, node, aug=False):
        old = self.getattr_raw(o, name, st)
        t = self.typeof(o)
        if t:
            c = self.p.find_method(t[0], name + "@setter")
            if c is not None and len(self.stack) < self.max_depth:
                _, st2 = self.inline(c, {c.posnames[0]: o, c.posnames[1]: v}, st, node)
                return
        self.ev("setattr", (o, name, old, v), st, node, extra=aug)
        st.heap[(o, name)] = v

    def mutate(self, how, old, new, st, node, extra=()):
        if how.startswith("list") and old.op in ("list",) or old.op == "dict":
            pass
        self.ev("mutate", old, st, node, extra=(how, new) + tuple(extra))
        self.subst_all(old, new, st)

    def subst_all(self, old, new, st):
        if is_const(old):
            return
        views = {}
        for e in st.envs:
            for k, v in e.items():
                if v is old:
                    e[k] = new
                elif v.op in ("tuple", "list", "dict") and any(x is old for x in _shallow(v)):
                    e[k] = subst(v, {old: new})
        for k, v in st.heap.items():
            if v is old:
                st.heap[k] = new
            elif v.op in ("tuple", "list", "dict") and any(x is old for x in _shallow(v)):
                st.heap[k] = subst(v, {old: new})
        # the base of a view changes with it
        b = view_base(old)
        if b is not None and b is not old and not is_const(b):
            nb = T("viewupd", b, new)
            for e in st.envs:
                for k, v in e.items():
                    if v is b:
                        e[k] = nb
            for k, v in st.heap.items():
                if v is b:
                    st.heap[k] = nb

    def s_If(self, s, st):
        c = self.cond(s.test, st)
        if self.dead(st) is None:
            return None
        v = self.truth(c, st)
        if v is True:
            self.assume_narrow(c, True, st)
            return self.block(s.body, st)
        if v is False:
            self.assume_narrow(c, False, st)
            return self.block(s.orelse, st)
        a, b = st, st.fork()
        a.assume(c, True)
        self.narrow(c, True, a)
        b.assume(c, False)
        self.narrow(c, False, b)
        ra = self.block(s.body, a)
        rb = self.block(s.orelse, b)
        if ra is None:
            return rb
        if rb is None:
            return ra
        return self.merge(c, ra, rb)

    def assume_narrow(self, c, p, st):
        return

    def narrow(self, c, pol, st):
        """Constants learnt from the branch condition replace variables."""
        if c.op == "not":
            return self.narrow(c.args[0], not pol, st)
        if c.op == "bool" and (c.args[0] == "and") == pol:
            for x in c.args[1]:
                self.narrow(x, pol, st)
            return
        if c.op == "cmp" and c.args[0] in ("==", "is") and pol and is_const(c.args[2]) and not is_const(c.args[1]):
            x, k = c.args[1], c.args[2]
            if x.op in ("param", "attr", "mu", "out", "phi") and (cval(k) is None or isinstance(cval(k), (str, bool))):
                for e in st.envs:
                    for n, v in e.items():
                        if v is x:
                            e[n] = k
        if pol is False and c.op == "cmp" and c.args[0] == "is" and is_const(c.args[2], None):
            x = c.args[1]
            if x.op == "phi":
                r = x
                if is_const(x.args[1], None):
                    r = x.args[2]
                elif is_const(x.args[2], None):
                    r = x.args[1]
                if r is not x:
                    for e in st.envs:
                        for n, v in e.items():
                            if v is x:
                                e[n] = r

    def cond(self, e, st):
        return self.eval(e, st)

    # -- loops ---------------------------------------------------------------
    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        if self.dead(st) is None:
            return None
        it = self.resolve(it, st)
        items = literal_items(it)
        if items is None and self.oracle is not None:
            items = self.oracle.items(it, self)
        if items is not None and len(items) <= (8 if self.oracle is None else 24):
            brk = []
            self.brks.append([])
            for n, x in enumerate(items):
                self.conts.append([])
                self.assign(s.target, x, st, s)
                self.nodepath.append(("unroll", n))
                st2 = self.block(s.body, st)
                self.nodepath.pop()
                for cst in self.conts.pop():
                    st2 = self.merge(T("loopexit", self.tag(s, "c"), cst.conds and self.conj(cst.conds)), cst, st2)
                st = st2
                if st is None:
                    break
            for bst in self.brks.pop():
                st = self.merge(T("loopexit", self.tag(s, "b")), bst, st)
            if st is not None and s.orelse:
                st = self.block(s.orelse, st)
            return st
        L = self.tag(s, "loop")
        return self.loop(s, L, st, it, s.target, None)

    s_AsyncFor = s_For

    def s_While(self, s, st):
        if not isinstance(s.test, ast.Constant) and not s.orelse:
            log, self.log = self.log, False
            done = self.unroll_while(s, st.fork())
            self.log = log
            if done is not False:
                return self.unroll_while(s, st)
        L = self.tag(s, "loop")
        return self.loop(s, L, st, None, None, s.test)

    def unroll_while(self, s, st, limit=10):
        """Execute a loop whose condition is decided in every round; False when it is not."""
        exits = []
        for n in range(limit):
            c = self.cond(s.test, st)
            v = self.truth(c, st)
            if v is None:
                return False
            if v is False:
                for b in exits:
                    st = self.merge(T("loopexit", self.tag(s, "b")), b, st)
                return st
            self.brks.append([])
            self.conts.append([])
            self.nodepath.append(("unroll", n))
            st = self.block(s.body, st)
            self.nodepath.pop()
            conts, brks = self.conts.pop(), self.brks.pop()
            for x in conts:
                st = self.merge(T("loopexit", self.tag(s, "c")), x, st)
            exits.extend(brks)
            if st is None:
                if exits:
                    return False
                return None
        return False

    def loopvar(self, it, L, st):
        """Value bound by one iteration over it."""
        it = self.resolve(it, st)
        if it.op == "call":
            n, a = it.args[0], it.args[1]
            if n == "range":
                lo = a[0] if len(a) > 1 else const(0)
                hi = a[1] if len(a) > 1 else a[0]
                return T("ridx", L, lo, hi, a[2] if len(a) > 2 else const(1))
            if n == "enumerate" and a:
                x = self.loopvar(a[0], L, st)
                start = a[1] if len(a) > 1 else dict(it.args[2]).get("start", const(0))
                i = T("ridx", L, const(0), T("call", "len", (a[0],), ()), const(1))
                if not is_const(start, 0):
                    i = T("bin", "+", i, start)
                return T("tuple", (i, x))
            if n == "zip":
                return T("tuple", tuple(self.loopvar(x, L, st) for x in a))
            if n in ("list", "tuple", "iter") and len(a) == 1:
                return self.loopvar(a[0], L, st)
        if it.op == "meth" and it.args[0] == "items":
            return T("tuple", (T("elem", T("meth", "keys", it.args[1], (), ()), L), T("elem", T("meth", "values", it.args[1], (), ()), L)))
        if it.op == "listof":
            return subst_loop(it.args[0], it.args[1], L)
        if it.op in ("list", "tuple") and it.args[0] and all(x is it.args[0][0] for x in it.args[0]):
            return it.args[0][0]
        return T("elem", it, L)

    def loop(self, s, L, st, it, target, test):
        # syntactically assigned locals
        names = assigned_names(s)
        log = self.log
        saveloops = self.loops
        st0 = st.fork()
        changed_env = {n for n in names if n in st.env}
        changed_heap = set()
        changed_outer = set()

        def prepare(base):
            b = base.fork()
            for n in changed_env:
                b.env[n] = T("mu", L, n, st0.env.get(n, UNBOUND))
            for (d, n) in changed_outer:
                b.envs[d][n] = T("mu", L, (d, n), st0.envs[d].get(n, UNBOUND))
            for k in changed_heap:
                init = st0.heap.get(k)
                b.heap[k] = T("mu", L, k, init if init is not None else self.init_attr(k))
            return b

        def body(b):
            self.loops = saveloops + (L,)
            self.brks.append([])
            self.conts.append([])
            if target is not None:
                self.assign(target, self.loopvar(it, L, b), b, s)
            c = None
            if test is not None:
                c = self.cond(test, b)
                v = self.truth(c, b)
                if v is None:
                    b.assume(c, True)
            else:
                b.assume(T("iter", L), True)
            end = self.block(s.body, b)
            conts = self.conts.pop()
            brks = self.brks.pop()
            self.loops = saveloops
            return end, conts, brks, c

        # discovery passes
        self.log = False
        nrets = len(self.rets[-1]) if self.rets else 0
        for _ in range(3):
            end, conts, brks, c = body(prepare(st0))
            if self.rets:
                del self.rets[-1][nrets:]
            before = (len(changed_env), len(changed_heap), len(changed_outer))
            for fin in [end] + conts + brks:
                if fin is None:
                    continue
                for d in range(min(len(fin.envs), len(st0.envs))):
                    top = d == len(st0.envs) - 1
                    for n, v in fin.envs[d].items():
                        ref = st0.envs[d].get(n)
                        if ref is None:
                            if top:
                                pass
                            continue
                        if v is not ref:
                            if top:
                                if not (v.op == "mu" and v.args[0] == L and v.args[1] == n):
                                    changed_env.add(n)
                            elif not (v.op == "mu" and v.args[0] == L and v.args[1] == (d, n)):
                                changed_outer.add((d, n))
                for k, v in fin.heap.items():
                    ref = st0.heap.get(k)
                    if ref is None:
                        if k[0].op == "new" and not any(kk[0] is k[0] for kk in st0.heap):
                            continue
                        ref = self.init_attr(k)
                    if v is not ref and not (v.op == "mu" and v.args[0] == L and v.args[1] == k):
                        changed_heap.add(k)
            if (len(changed_env), len(changed_heap), len(changed_outer)) == before:
                break
        self.log = log
        pre = prepare(st0)
        end, conts, brks, c = body(pre)
        steps = {}
        info = {"iter": it, "node": s, "breaks": len(brks), "func": self.curfunc, "inits": {}}
        fins = [x for x in [end] + conts if x is not None]
        for n in changed_env:
            steps[n] = [(f.conds, f.env.get(n, UNBOUND)) for f in fins]
            info["inits"][n] = st0.env.get(n, UNBOUND)
        for (d, n) in changed_outer:
            steps[(d, n)] = [(f.conds, f.envs[d].get(n, UNBOUND)) for f in fins if len(f.envs) > d]
        for k in changed_heap:
            steps[k] = [(f.conds, f.heap.get(k) or self.init_attr(k)) for f in fins]
            info["inits"][k] = st0.heap.get(k) or self.init_attr(k)
        info["breaksteps"] = {n: [(f.conds, f.env.get(n, UNBOUND)) for f in brks] for n in changed_env}
        for k in changed_heap:
            info["breaksteps"][k] = [(f.conds, f.heap.get(k) or self.init_attr(k)) for f in brks]
        info["breakjumps"] = [f.jump for f in brks]
        info["stepjumps"] = [f.jump for f in fins]
        self.steps[L] = steps
        self.loopinfo[L] = info
        out = st0.fork()
        # pure append loops become listof
        for n in changed_env:
            out.env[n] = self.loop_result(L, n, st0.env.get(n, UNBOUND), steps[n], info, it, bool(brks))
        for (d, n) in changed_outer:
            out.envs[d][n] = self.loop_result(L, (d, n), st0.envs[d].get(n, UNBOUND), steps[(d, n)], info, it, bool(brks))
        for k in changed_heap:
            init = st0.heap.get(k) or self.init_attr(k)
            out.heap[k] = self.loop_result(L, k, init, steps[k], info, it, bool(brks))
        # names first bound in the loop
        for f in fins + brks:
            for n, v in f.env.items():
                if n not in out.env:
                    nonempty = self.nonempty_iter(it)
                    out.env[n] = T("out", L, n, v if nonempty else UNBOUND)
                    self.steps[L].setdefault(n, []).append((f.conds, v))
            for k, v in f.heap.items():
                if k not in out.heap:
                    out.heap[k] = v if (k[0].op == "new" and v.op != "mu") else T("out", L, k, self.init_attr(k))
                    self.steps[L].setdefault(k, []).append((f.conds, v))
        if end is None and not conts and brks and test is not None and is_const(c, True):
            pass
        if test is not None:
            if is_const(c, True) and not brks:
                return None
        if s.orelse:
            if brks:
                full = T("exhausted", L)      # the loop ran out instead of being left by break
                a, b = out.fork(), out.fork()
                a.assume(full, True)
                b.assume(full, False)
                a = self.block(s.orelse, a)
                out = b if a is None else self.merge(full, a, b)
            else:
                out = self.block(s.orelse, out)
        return out

    def nonempty_iter(self, it):
        if it is None:
            return False
        if it.op == "call" and it.args[0] == "range" and len(it.args[1]) == 1:
            n = intval(it.args[1][0])
            return n is not None and n > 0
        if it.op in ("list", "tuple"):
            return len(it.args[0]) > 0
        return False

    def loop_result(self, L, key, init, steps, info, it, has_break):
        if init.op == "list" and not has_break and len(steps) == 1:
            v = steps[0][1]
            if v.op == "listappend" and v.args[0].op == "mu" and v.args[0].args[0] == L:
                lo = T("listof", v.args[1], L, it if it is not None else NONE)
                if not init.args[0]:
                    return lo
                return T("bin", "+", init, lo)
        return T("out", L, key, init)

    # -- with / try ------------------------------------------------------------
    def written_out(self, s, st):
        """the statements of a with statement over a generator context manager of the analysed code"""
        c = s.items[0].context_expr
        if not isinstance(c, ast.Call):
            return None
        func = None
        if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in st.env:
            ty = self.typeof(st.env[c.func.value.id])
            if ty and ty[0] in self.p.classes:
                func = self.p.find_method(ty[0], c.func.attr)
        else:
            q = self.p.resolve_expr(c.func, self.curmod)
            func = self.p.functions.get(q)
        if func is None or not cm.manager(func) or func in self.stack:
            return None
        if func.module is not self.curmod and any(self.p.resolve_name(n, func.module) != self.p.resolve_name(n, self.curmod) for n in cm.free(func)):
            return None
        cache = self.p.__dict__.setdefault("_withs", {})
        key = (id(s), func.qual)
        if key not in cache:
            rest = s.body if len(s.items) == 1 else [ast.copy_location(ast.With(s.items[1:], s.body), s)]
            cache[key] = cm.expand(func, c, s.items[0].optional_vars, rest, len(cache))
        return cache[key]

    def s_With(self, s, st):
        save = st.ctx
        w = self.written_out(s, st)
        if w is not None:
            r = self.block(w, st)
            if r is not None:
                r.ctx = save
            return r
        for i in s.items:
            c = self.eval(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, T("enter", c), st, s)
            st.ctx = st.ctx + (("with", c),)
            self.ev("enter", c, st, s)
        r = self.block(s.body, st)
        if r is not None:
            r.ctx = save
        self.ev("exit", T("const", "int", 0), r or st, s)
        return r

    s_AsyncWith = s_With

    def s_Try(self, s, st):
        tid = self.tag(s, "try")
        save = st.ctx
        st0 = st.fork()
        st.ctx = save + (("try", tid, "body", bool(s.finalbody), any(not passes_on(h) for h in s.handlers)),)
        nret = len(self.rets[-1]) if self.rets else 0
        e0 = len(self.events)
        normal = self.block(s.body, st)
        if normal is not None:
            normal.ctx = save
            if s.orelse:
                normal = self.block(s.orelse, normal)
        bodyrets = self.rets[-1][nret:] if self.rets else []
        # state in which a handler starts: anything between before and after
        hs = st0
        for x in [normal] + [r[0] for r in bodyrets]:
            if x is not None:
                hs = self.merge(T("exc", tid), hs.fork() if hs is st0 else hs, _trim(x.fork(), hs))
        hs.conds = st0.conds
        hs._facts = None
        hs.ctx = save
        result = normal
        handled = False
        for k, h in enumerate(s.handlers):
            b = hs.fork()
            b.ctx = save + (("handler", tid, bool(s.finalbody)),)
            b.assume(T("exc", tid, k), True)
            if h.name:
                b.env[h.name] = T("excval", tid, k)
            r = self.block(h.body, b)
            if r is not None:
                r.ctx = save
                if h.name:
                    r.env.pop(h.name, None)
                result = self.merge(T("exc", tid, k), r, result) if result is not None else r
            handled = True
        if s.finalbody:
            fs = result
            only_log = False
            if fs is None:
                only_log = True
                fs = (self.rets[-1][-1][0] if self.rets and len(self.rets[-1]) > nret else hs).fork()
                if len(fs.envs) > len(hs.envs):
                    fs = hs.fork()
            fs.ctx = save + (("finally", tid, tuple(fs.conds), tuple(st0.conds)),)
            if not only_log:
                # names possibly unbound when the body raised are not visible on the normal path
                pass
            r = self.block(s.finalbody, fs)
            # heap effects of finally also hold on the return paths
            for (rs, rv, rn) in (self.rets[-1][nret:] if self.rets else []):
                if r is not None:
                    for k, v in r.heap.items():
                        if rs.heap.get(k) is not v and hs.heap.get(k) is not v:
                            rs.heap[k] = v
            if r is not None:
                r.ctx = save
            if only_log:
                return None
            return r
        return result

    s_TryStar = s_Try

    def s_ClassDef(self, s, st):
        return st

    def s_Match(self, s, st):
        subj = self.eval(s.subject, st)
        rest = st
        res = None
        for case in s.cases:
            if rest is None:
                break
            if isinstance(case.pattern, ast.MatchValue):
                c = self.cmp("==", subj, self.eval(case.pattern.value, rest))
            elif isinstance(case.pattern, ast.MatchOr) and all(isinstance(x, ast.MatchValue) for x in case.pattern.patterns):
                c = T("bool", "or", tuple(self.cmp("==", subj, self.eval(x.value, rest)) for x in case.pattern.patterns))
            elif isinstance(case.pattern, ast.MatchAs) and case.pattern.pattern is None and case.guard is None:
                c = TRUE
            else:
                c = T("matchcase", self.tag(case))
            v = self.truth(c, rest)
            if v is False:
                continue
            if v is True:
                r = self.block(case.body, rest)
                rest = None
                res = self.mergecase(res, r)
                break
            b = rest.fork()
            b.assume(c, True)
            self.narrow(c, True, b)
            rest.assume(c, False)
            r = self.block(case.body, b)
            res = self.mergecase(res, r, c)
        if rest is not None:
            res = self.mergecase(res, rest)
        return res

    def mergecase(self, res, r, c=None):
        if res is None:
            return r
        if r is None:
            return res
        k = res.conds
        n = 0
        for x, y in zip(res.conds, r.conds):
            if x != y:
                break
            n += 1
        return self.merge(self.conj(res.conds[n:]), res, r)

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return T("unknown", type(e).__name__, self.tag(e))
        t = m(e, st)
        if t.loc is None and self.curmod is not None and hasattr(e, "lineno"):
            t.loc = (self.curmod.relpath, e.lineno)
        return t

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return T("ellipsis")
        if isinstance(e.value, (bytes, complex)):
            return T("const", "bytes", repr(e.value))
        return const(e.value)

    def e_Name(self, e, st):
        n = e.id
        if n in st.env and n != "@globals":
            v = st.env[n]
            v = self.resolve(v, st)
            if v is UNBOUND or (v.op in ("phi", "out", "mu") and has_unbound(v)):
                v2 = self.strip_unbound(v, st)
                if v2 is None or v2 is not v:
                    self.ev("unbound", v, st, e, extra=n)
                    if v2 is not None and v2 is not UNBOUND:
                        v = v2
            elif v.op == "out" and v.args[2] is UNBOUND:
                self.ev("unbound", v, st, e, extra=n)
            return v
        # enclosing closures are part of the env snapshot; then module scope
        g = st.heap.get((T("global", self.curmod.name), n))
        if g is not None:
            return g
        q = self.p.resolve_name(n, self.curmod)
        if q:
            return self.globref(q)
        if n in BUILTINS:
            if n == "__name__":
                return const(self.curmod.name)
            return T("global", n)
        for b in self.curmod.tree.body:
            if isinstance(b, ast.ImportFrom) and any(a.name == "*" for a in b.names):
                return self.globref(self.p.canonical(f"{self.curmod.name}.{n}"))
        if self.is_local(n):
            self.ev("unbound", UNBOUND, st, e, extra=n)
            return UNBOUND
        self.ev("undefined", n, st, e)
        return T("undefined", n)

    def is_local(self, n):
        f = self.curfunc
        return f is not None and n in assigned_names(f.node)

    def strip_unbound(self, v, st):
        """v without branches that are unbound only on infeasible paths; None when plainly unbound."""
        if v is UNBOUND:
            return None
        if v.op == "phi":
            c = self.truth(v.args[0], st)
            if c is True:
                return self.strip_unbound(v.args[1], st)
            if c is False:
                return self.strip_unbound(v.args[2], st)
            a, b = self.strip_unbound(v.args[1], st), self.strip_unbound(v.args[2], st)
            if a is None:
                return b
            if b is None:
                return a
            if a is v.args[1] and b is v.args[2]:
                return v
            return mkphi(v.args[0], a, b)
        return v

    def globref(self, q):
        if q in self.p.functions:
            return T("func", q)
        if q in self.p.classes:
            return T("class", q)
        return T("global", q)

    def e_Attribute(self, e, st):
        o = self.eval(e.value, st)
        return self.getattr(o, e.attr, st, e)

    def getattr_raw(self, o, name, st):
        v = st.heap.get((o, name))
        return v if v is not None else T("attr", o, name)

    def getattr(self, o, name, st, node):
        o = self.resolve(o, st)
        v = st.heap.get((o, name))
        if v is not None:
            return self.resolve(v, st)
        if o.op == "global":
            return self.globref(self.p.canonical(f"{o.args[0]}.{name}"))
        if o.op == "class":
            f = self.p.find_method(o.args[0], name)
            if f:
                return T("func", f.qual)
            ca = self.p.find_class_attr(o.args[0], name)
            if ca:
                return self.eval_in_module(ca[1], ca[0].module, st)
            return T("attr", o, name)
        if o.op == "super":
            f = self.p.find_method(o.args[0], name, after=o.args[1])
            if f:
                return T("bound", f.qual, o.args[2])
            return T("bound_ext", name, o.args[2], o.args[1])
        t = self.typeof(o)
        if t:
            f = self.p.find_method(t[0], name)
            if f is not None:
                if f.is_property:
                    if self.may_inline(f, t[1]):
                        val, st2 = self.call_inline(f, {f.posnames[0]: o}, st, node)
                        return val
                    return T("attr", o, name)
                if f.is_static:
                    return T("func", f.qual)
                return T("bound", f.qual, o)
            ca = self.p.find_class_attr(t[0], name)
            if ca:
                return self.eval_in_module(ca[1], ca[0].module, st)
            self.ev("attrload", (o, name), st, node)
        if o is NONE and not hasattr(None, name):
            self.ev("noneattr", (o, name), st, node)
        if o.op == "phi":
            # attribute of a joined object: join when both sides are heap objects
            a, b = o.args[1], o.args[2]
            if (a, name) in st.heap or (b, name) in st.heap:
                return mkphi(o.args[0], self.getattr(a, name, st, node), self.getattr(b, name, st, node))
        if o.op == "tuple" and name in ("values", "indices"):
            return o.args[0][0 if name == "values" else 1]
        if o.op == "enter" and o.args[0].op == "call":
            pass
        return T("attr", o, name)

    def eval_in_module(self, e, module, st):
        s, self.curmod = self.curmod, module
        try:
            st.envs.append({})
            st.frames.append(-1)
            return self.eval(e, st)
        finally:
            st.envs.pop()
            st.frames.pop()
            self.curmod = s

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        i = self.eval(e.slice, st)
        return self.index(b, i, st, e)

    def index(self, b, i, st, node=None):
        b = self.resolve(b, st)
        n = intval(i)
        if b.op in ("tuple", "list") and n is not None and -len(b.args[0]) <= n < len(b.args[0]):
            return b.args[0][n]
        if b.op in ("tuple", "list") and i.op == "slice" and all(is_const(x) and (cval(x) is None or isinstance(cval(x), int)) or intval(x) is not None for x in i.args):
            sl = slice(*[intval(x) if intval(x) is not None else None for x in i.args])
            return T(b.op, tuple(b.args[0][sl]), *b.args[1:])
        if b.op == "dict" and is_const(i):
            for k, v in reversed(b.args[0]):
                if isinstance(k, Term) and k is i:
                    return v
        if b.op == "attr" and b.args[1] in ("_modules", "_buffers", "_parameters"):
            kn = self.keyname(i)
            if kn:
                v = st.heap.get((b.args[0], kn))
                if v is None and "{}" not in kn:
                    # registered in a loop under a pattern
                    for (o, nm), val in st.heap.items():
                        if o is b.args[0] and isinstance(nm, str) and "{}" in nm and _pattern_match(nm, kn):
                            return val
                if v is not None:
                    return v
                return T("attr", b.args[0], kn)
        if b.op == "attr" and b.args[1] == "shape" and n is not None:
            return T("index", b, const(n))
        if i.op == "ridx" and is_const(i.args[1], 0) and is_const(i.args[3], 1):
            hi = i.args[2]
            if hi.op == "call" and hi.args[0] == "len" and hi.args[1] and hi.args[1][0] is b:
                return T("elem", b, i.args[0])
            if hi.op == "index" and hi.args[0].op == "attr" and hi.args[0].args[1] == "shape" and hi.args[0].args[0] is b and is_const(hi.args[1], 0):
                return T("elem", b, i.args[0])
        if b.op == "listof" and i.op == "ridx":
            return subst_loop(b.args[0], b.args[1], i.args[0])
        if b.op == "phi" and n is not None and (b.args[1].op in ("tuple", "list") or b.args[2].op in ("tuple", "list")):
            return mkphi(b.args[0], self.index(b.args[1], i, st), self.index(b.args[2], i, st))
        return T("index", b, i)

    def e_Slice(self, e, st):
        g = lambda x: self.eval(x, st) if x is not None else NONE
        return T("slice", g(e.lower), g(e.upper), g(e.step))

    def e_Tuple(self, e, st):
        return T("tuple", self.elts(e.elts, st))

    def e_List(self, e, st):
        return T("list", self.elts(e.elts, st), self.tag(e))

    def e_Set(self, e, st):
        return T("set", self.elts(e.elts, st))

    def elts(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                it = literal_items(v)
                if it is not None:
                    out.extend(it)
                else:
                    out.append(T("star", v))
            else:
                out.append(self.eval(x, st))
        return tuple(out)

    @staticmethod
    def merged(*parts):
        """items of dictionaries put into one another, None if their keys are not known"""
        if any(p is None for p in parts):
            return None
        items = [kv for p in parts for kv in p]
        if any(not is_const(k) for k, _ in items):
            return None
        out = {}
        for k, v in items:
            out[k] = v
        return tuple(out.items())

    def e_Dict(self, e, st):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.eval(v, st)
                if d.op == "dict":
                    items.extend(d.args[0])
                else:
                    items.append((T("starstar"), d))
            else:
                items.append((self.eval(k, st), self.eval(v, st)))
        return T("dict", tuple(items), self.tag(e))

    def binop(self, op, a, b):
        x, y = cval(a), cval(b)
        if is_const(a) and is_const(b) and x is not None and y is not None:
            try:
                if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool):
                    r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y,
                         "//": lambda: x // y, "%": lambda: x % y, "**": lambda: x ** y if abs(y) < 50 else None}.get(op, lambda: None)()
                    if r is not None:
                        return const(r)
                if isinstance(x, str) and isinstance(y, str) and op == "+":
                    return const(x + y)
            except (ZeroDivisionError, OverflowError):
                pass
        if op == "+" and a.op == "list" and b.op == "list":
            return T("list", a.args[0] + b.args[0], *a.args[1:])
        if op == "*" and a.op in ("list", "tuple") and intval(b) is not None and len(a.args[0]) * intval(b) <= 16 and not any(x.op == "star" for x in a.args[0]):
            return T(a.op, a.args[0] * intval(b), *a.args[1:])
        if op == "+" and a.op == "tuple" and b.op == "tuple":
            return T("tuple", a.args[0] + b.args[0])
        if op == "+" and b.op == "un" and b.args[0] == "-":
            return T("bin", "-", a, b.args[1])
        if op == "+" and a.op == "un" and a.args[0] == "-":
            return T("bin", "-", b, a.args[1])
        if op == "-" and b.op == "un" and b.args[0] == "-":
            return T("bin", "+", a, b.args[1])
        return T("bin", op, a, b)

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        op = BIN[type(e.op)]
        if op == "%" and is_const(a) and isinstance(cval(a), str):
            return T("fstr", a, b)
        return self.binop(op, a, b)

    def unop(self, op, a):
        if op == "-":
            if is_const(a) and isinstance(cval(a), (int, float)) and not isinstance(cval(a), bool):
                return const(-cval(a))
            if a.op == "un" and a.args[0] == "-":
                return a.args[1]
            if a.op == "bin" and a.args[0] == "-":
                return T("bin", "-", a.args[2], a.args[1])
        if op == "~":
            if a.op == "un" and a.args[0] == "~":
                return a.args[1]
        return T("un", op, a)

    def e_UnaryOp(self, e, st):
        a = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            v = self.truth(a, st)
            if v is not None:
                return const(not v)
            return neg(a)
        return self.unop({ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}[type(e.op)], a)

    def e_BoolOp(self, e, st):
        op = "and" if isinstance(e.op, ast.And) else "or"
        vals = []
        saved = st.conds
        for x in e.values:
            v = self.eval(x, st)
            t = self.truth(v, st)
            if t is not None and ((op == "and" and t is False) or (op == "or" and t is True)):
                vals.append(v)
                break
            if t is not None and x is not e.values[-1]:
                continue
            vals.append(v)
            if x is not e.values[-1]:
                st.assume(v, op == "and")
        st.conds = saved
        st._facts = None
        flat = []
        for v in vals:
            if v.op == "bool" and v.args[0] == op:
                flat.extend(v.args[1])
            else:
                flat.append(v)
        if len(flat) == 1:
            return flat[0]
        return T("bool", op, tuple(flat))

    def e_Compare(self, e, st):
        l = self.eval(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.eval(r, st)
            out.append(self.cmp({ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
                                 ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}[type(op)], l, rv))
            l = rv
        if len(out) == 1:
            c = out[0]
            v = None
            base = c.args[0] if c.op == "not" else c
            if base.op == "cmp" and (base.args[0] in ("is", "in") or is_const(base.args[2]) or is_const(base.args[1])):
                v = self.truth(c, st)
                if v is not None and self.oracle is not None and base.args[0] not in ("is", "in") and self.oracle.istensor(base, self):
                    v = None
            return const(v) if v is not None and not self.maybe_tensor(base) else c
        return T("bool", "and", tuple(out))

    def maybe_tensor(self, c):
        if c.op != "cmp" or c.args[0] in ("is", "in"):
            return False
        return not (is_const(c.args[1]) or is_const(c.args[2]))

    def cmp(self, op, a, b):
        if op == "!=":
            return neg(self.cmp("==", a, b))
        if op == "is not":
            return neg(self.cmp("is", a, b))
        if op == "not in":
            return neg(self.cmp("in", a, b))
        if op == ">":
            return self.cmp("<", b, a)
        if op == ">=":
            return self.cmp("<=", b, a)
        if op in ("==", "is"):
            if is_const(a) and not is_const(b) or (not is_const(b) and not is_const(a) and a.id > b.id):
                a, b = b, a
            if op == "==" and is_const(b, None):
                op = "is"
            if is_const(b) and a.op == "phi":
                x, y = a.args[1], a.args[2]
                vx, vy = self.constcmp(op, x, b), self.constcmp(op, y, b)
                if vx is not None and vy is not None:
                    if vx == vy:
                        return const(vx)
                    return a.args[0] if vx else neg(a.args[0])
                # one side decided: cmp = (c and vx) or (not c and ...)
                if vx is False:
                    return self.band(neg(a.args[0]), self.cmp(op, y, b))
                if vy is False:
                    return self.band(a.args[0], self.cmp(op, x, b))
                if vx is True:
                    return self.bor(a.args[0], self.cmp(op, y, b))
                if vy is True:
                    return self.bor(neg(a.args[0]), self.cmp(op, x, b))
            if is_const(b) and a.op != "phi":
                v = self.constcmp(op, a, b)
                if v is not None:
                    return const(v)
        return T("cmp", op, a, b)

    @staticmethod
    def band(a, b):
        if is_const(a):
            return b if cval(a) else FALSE
        if is_const(b):
            return a if cval(b) else FALSE
        if a is b:
            return a
        return T("bool", "and", (a, b))

    @staticmethod
    def bor(a, b):
        if is_const(a):
            return TRUE if cval(a) else b
        if is_const(b):
            return TRUE if cval(b) else a
        if a is b:
            return a
        return T("bool", "or", (a, b))

    def constcmp(self, op, a, b):
        """Truth of a == / is b with b constant, when the shape of a decides it."""
        if is_const(a):
            va, vb = cval(a), cval(b)
            if va is None or vb is None or isinstance(va, (str, bool)) or isinstance(vb, (str, bool)):
                return type(va) is type(vb) and va == vb
            try:
                return bool(va == vb)
            except Exception:
                return None
        if is_const(b, None) and self.nonnone(a):
            return False
        return None

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        v = self.truth(c, st)
        if v is True:
            return self.eval(e.body, st)
        if v is False:
            return self.eval(e.orelse, st)
        saved = st.conds
        a = st.fork()
        a.assume(c, True)
        va = self.eval(e.body, a)
        b = st.fork()
        b.assume(c, False)
        vb = self.eval(e.orelse, b)
        m = self.merge(c, a, b)
        st.envs, st.heap = m.envs, m.heap
        st.conds = saved
        st._facts = None
        return mkphi(c, va, vb)

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value, st)
                if v.format_spec is not None:
                    parts.append(T("fmt", x))
                else:
                    parts.append(x)
        if all(is_const(p) for p in parts):
            return const("".join(str(cval(p)) for p in parts))
        return T("fstr", *parts)

    def e_FormattedValue(self, e, st):
        return self.eval(e.value, st)

    def e_Starred(self, e, st):
        return T("star", self.eval(e.value, st))

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    def e_Lambda(self, e, st):
        return self.make_closure(e, st)

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value else NONE
        self.ev("yield", v, st, e)
        return T("unknown", "yield", self.tag(e))

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    def comp(self, e, st, elt_fn):
        g = e.generators[0]
        it = self.eval(g.iter, st)
        it = self.resolve(it, st)
        items = literal_items(it)
        unroll = self.oracle is not None and self.oracle.unroll
        if items is not None and len(items) <= 8 and len(e.generators) == 1 and not unroll:
            out = []
            ok = True
            for x in items:
                st.envs.append(dict(st.env))
                st.frames.append(st.frames[-1] if st.frames else 0)
                self.assign(g.target, x, st, e)
                keep = True
                for c in g.ifs:
                    t = self.truth(self.eval(c, st), st)
                    if t is None:
                        ok = False
                    elif t is False:
                        keep = False
                if keep and ok:
                    out.append(elt_fn(st))
                st.envs.pop()
                st.frames.pop()
                if not ok:
                    break
            if ok:
                return ("items", tuple(out))
        if self.oracle is not None and (len(e.generators) > 1 or unroll):
            out = []
            if self.unrolled(e, 0, st, elt_fn, out):
                return ("items", tuple(out))
        L = self.tag(e, "loop")
        save = self.loops
        self.loops = self.loops + (L,)
        st.envs.append(dict(st.env))
        st.frames.append(st.frames[-1] if st.frames else 0)
        conds = st.conds
        its = []
        for g in e.generators:
            it = self.eval(g.iter, st) if g is not e.generators[0] else it
            its.append(it)
            self.assign(g.target, self.loopvar(it, L if g is e.generators[0] else self.tag(g.iter, "loop"), st), st, e)
            for c in g.ifs:
                st.assume(self.eval(c, st), True)
        v = elt_fn(st)
        filt = self.conj(st.conds[len(conds):])
        st.conds = conds
        st._facts = None
        st.envs.pop()
        st.frames.pop()
        self.loops = save
        self.loopinfo[L] = {"iter": its[0], "node": e, "breaks": 0, "func": self.curfunc, "inits": {}}
        self.steps.setdefault(L, {})
        if not is_const(filt, True):
            v2 = T("filtered", v, filt) if isinstance(v, Term) else v
        else:
            v2 = v
        return ("loop", v2, L, its[0], len(its))

    def unrolled(self, e, n, st, elt_fn, out):
        """elements of a comprehension with several generators on a fixed configuration"""
        if n == len(e.generators):
            out.append(elt_fn(st))
            return len(out) <= 64
        g = e.generators[n]
        it = self.resolve(self.eval(g.iter, st), st)
        items = literal_items(it)
        if items is None:
            items = self.oracle.items(it, self)
        if items is None or len(items) > 24:
            return False
        for i, x in enumerate(items):
            st.envs.append(dict(st.env))
            st.frames.append(st.frames[-1] if st.frames else 0)
            self.assign(g.target, x, st, e)
            self.nodepath.append(("unroll", i))
            good, keep = True, True
            for c in g.ifs:
                t = self.truth(self.eval(c, st), st)
                good, keep = good and t is not None, keep and t is not False
            if good and keep:
                good = self.unrolled(e, n + 1, st, elt_fn, out)
            self.nodepath.pop()
            st.envs.pop()
            st.frames.pop()
            if not good:
                return False
        return True

    def e_ListComp(self, e, st):
        r = self.comp(e, st, lambda s: self.eval(e.elt, s))
        if r[0] == "items":
            return T("list", r[1], self.tag(e))
        v, L, it, k = r[1:]
        if k == 1:
            # [x for x in X] is X as a list
            return T("listof", v, L, it)
        return T("listof2", v, L, it)

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, st):
        r = self.comp(e, st, lambda s: (self.eval(e.key, s), self.eval(e.value, s)))
        if r[0] == "items":
            return T("dict", tuple(r[1]), self.tag(e))
        (k, v), L, it = r[1], r[2], r[3]
        return T("dictof", k, v, L, it)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in st.env:
            if e.args:
                c = self.eval(e.args[0], st)
                o = self.eval(e.args[1], st) if len(e.args) > 1 else NONE
                cq = c.args[0] if c.op == "class" else ""
            else:
                f = self.curfunc
                cq = f.cls.qual if f is not None and f.cls is not None else ""
                o = st.env.get(f.posnames[0], NONE) if f is not None and f.posnames else NONE
            t = self.typeof(o)
            return T("super", t[0] if t else cq, cq, o)
        recv_expr = e.func.value if isinstance(e.func, ast.Attribute) else None
        fn = self.eval(e.func, st)
        fn = self.resolve(fn, st)
        args, kwargs = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                it = literal_items(v)
                if it is not None:
                    args.extend(it)
                else:
                    args.append(T("star", v))
            else:
                args.append(self.eval(a, st))
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                kwargs.extend(self.unpack(v))
            else:
                kwargs.append((k.arg, v))
        return self.call(fn, args, kwargs, st, e, recv_expr)

    def unpack(self, v):
        """the keyword arguments in a dictionary: those with known names, and ("**", rest)"""
        if v.op == "dict" and all(isinstance(x, Term) and is_const(x) for x, _ in v.args[0]):
            return [(cval(x), y) for x, y in v.args[0]]
        if v.op == "dict" and v.args[0]:
            last = max((i for i, (x, _) in enumerate(v.args[0]) if x.op == "starstar"), default=-1)
            if not all(is_const(x) and isinstance(cval(x), str) for x, _ in v.args[0][last + 1:]):
                return [("**", v)]
            out = {}
            if last >= 0:
                head = v.args[0][:last + 1]
                for k, y in self.unpack(head[0][1]) if len(head) == 1 else [("**", T("dict", head, 0))]:
                    out[k] = y
            for x, y in v.args[0][last + 1:]:
                out[cval(x)] = y
            return list(out.items())
        if v.op == "setitem" and is_const(v.args[1]) and isinstance(cval(v.args[1]), str):
            rest = self.unpack(v.args[0])
            return [(k, y) for k, y in rest if k != cval(v.args[1])] + [(cval(v.args[1]), v.args[2])]
        if v.op == "call" and v.args[0] == "dict" and len(v.args[1]) == 1 and all(k for k, _ in v.args[2]):
            named = dict(v.args[2])
            return [(k, y) for k, y in self.unpack(v.args[1][0]) if k not in named] + list(named.items())
        if v.op == "meth" and v.args[0] == "copy" and not v.args[2]:
            return self.unpack(v.args[1])
        return [("**", v)]

    def call(self, fn, args, kwargs, st, node, recv_expr=None):
        if fn.op == "phi":
            # call through a joined callee: evaluate both
            a, b = fn.args[1], fn.args[2]
            if a.op in ("func", "bound", "class", "closure") and b.op in ("func", "bound", "class", "closure"):
                s1, s2 = st.fork(), st.fork()
                s1.assume(fn.args[0], True)
                s2.assume(fn.args[0], False)
                va = self.call(a, args, kwargs, s1, node)
                vb = self.call(b, args, kwargs, s2, node)
                m = self.merge(fn.args[0], s1, s2)
                st.envs, st.heap = m.envs, m.heap
                return mkphi(fn.args[0], va, vb)
        if fn.op == "func":
            f = self.p.functions[fn.args[0]]
            return self.call_repo(f, None, args, kwargs, st, node, True)
        if fn.op == "bound":
            f = self.p.functions[fn.args[0]]
            t = self.typeof(fn.args[1])
            exact = bool(t and t[1])
            virtual = bool(t and not t[1] and fn.args[1] is not NONE and not self.is_super_call(node))
            return self.call_repo(f, fn.args[1], args, kwargs, st, node, not virtual, t[0] if t else None)
        if fn.op == "bound_ext":
            term = T("meth", fn.args[0], fn.args[1], tuple(args), tuple(kwargs), loc=None)
            self.ev("call", term, st, node)
            return self.ext_method_effect(fn.args[1], fn.args[0], args, kwargs, st, node, term)
        if fn.op == "class":
            return self.construct(fn.args[0], args, kwargs, st, node)
        if fn.op == "closure":
            return self.call_closure(fn, args, kwargs, st, node)
        if fn.op == "partial":
            return self.call(fn.args[0], list(fn.args[1]) + args, list(fn.args[2]) + kwargs, st, node)
        if fn.op == "attr":
            o, name = fn.args
            t = self.typeof(fn)
            if t:   # calling a stored object: __call__
                return self.call_object(fn, t, args, kwargs, st, node)
            return self.call_method(o, name, args, kwargs, st, node, recv_expr)
        if fn.op == "global":
            v = self.call_ext(fn.args[0], args, kwargs, st, node)
            return self.renewed(v, args, st, node) if fn.args[0] in self.fresh else v
        t = self.typeof(fn)
        if t:
            return self.call_object(fn, t, args, kwargs, st, node)
        term = T("meth", "__call__", fn, tuple(args), tuple(kwargs))
        self.ev("call", term, st, node)
        self.callbacks(args, kwargs, "__call__", st, node)
        return term

    def renewed(self, v, args, st, node):
        """the value of one call, with the attributes of what it is a copy of"""
        t = T("fresh", v, self.tag(node, "fresh"))
        self.ev("fresh", t, st, node)
        if v.op == "call" and v.args[0] in ("copy.deepcopy", "copy.copy") and args:
            for (o, a), x in list(st.heap.items()):
                if o is args[0]:
                    st.heap[(t, a)] = x
        return t

    def starmap(self, fn, jobs, star, st, node):
        """a pool's calls of one function with the elements of a list, None when the list is not decided"""
        items = literal_items(jobs)
        if items is None:
            items = self.oracle.items(jobs, self)
        if items is None or len(items) > 24:
            return None
        out = []
        for x in items:
            xs = [x]
            if star:
                xs = literal_items(x)
                if xs is None:
                    xs = self.oracle.items(x, self)
                if xs is None:
                    return None
            self.nodepath.append(("job", len(out)))
            # another process works on copies
            xs = [self.renewed(T("call", "copy.deepcopy", (y,), ()), [y], st, node) if self.typeof(y) else y for y in xs]
            out.append(self.call(fn, xs, [], st, node))
            self.nodepath.pop()
        return T("list", tuple(out), self.tag(node))

    def is_super_call(self, node):
        return isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Call) \
            and isinstance(node.func.value.func, ast.Name) and node.func.value.func.id == "super"

    def call_object(self, o, t, args, kwargs, st, node):
        for name in ("__call__", "forward"):
            f = self.p.find_method(t[0], name)
            if f is not None and (name == "__call__" or self.p.is_module_class(t[0])):
                return self.call_repo(f, o, args, kwargs, st, node, t[1], t[0])
        # abstract forward defined only in subclasses
        if self.p.is_module_class(t[0]):
            subs = [self.p.find_method(s, "forward") for s in sorted(self.p.subclasses.get(t[0], ()))]
            subs = [s for s in subs if s]
            if subs:
                return self.call_repo(subs[0], o, args, kwargs, st, node, False, t[0])
        term = T("meth", "__call__", o, tuple(args), tuple(kwargs))
        self.ev("call", term, st, node)
        return term

    # -- binding ---------------------------------------------------------------
    def bind(self, f, recv, args, kwargs, st, node, report=True):
        pos = list(f.posnames)
        bound = {}
        if recv is not None and pos and not f.is_static:
            bound[pos[0]] = recv
            pos = pos[1:]
        extra = []
        star = None
        i = 0
        for a in args:
            if a.op == "star":
                star = a
                continue
            if star is None and i < len(pos):
                bound[pos[i]] = a
            elif star is None:
                extra.append(a)
            i += 1
        problems = []
        if extra and not f.vararg:
            problems.append(f"takes {len(pos)} positional arguments but {i} were given")
        if f.vararg:
            bound[f.vararg] = T("tuple", tuple(extra)) if star is None else T("star", star)
        kwrest = []
        starstar = []
        for k, v in kwargs:
            if k == "**":
                starstar.append(v)
            elif k in pos or k in f.kwonly:
                if k in bound:
                    problems.append(f"got multiple values for argument '{k}'")
                bound[k] = v
            elif f.kwarg:
                kwrest.append((const(k), v))
            else:
                problems.append(f"got an unexpected keyword argument '{k}'")
        for n in pos + f.kwonly:
            if n in bound:
                continue
            if star is not None or starstar:
                src = starstar[0] if starstar else star
                bound[n] = T("kwarg", src, n, self.default(f, n, st) if n in f.defaults else NONE)
                if n in f.defaults and not starstar:
                    pass
            elif n in f.defaults:
                bound[n] = self.default(f, n, st)
            else:
                problems.append(f"missing required argument '{n}'")
                bound[n] = T("unknown", "missing", n)
        if f.kwarg:
            # a name given twice is an error, so the order does not matter: the named ones last, as certain ones
            items = tuple((T("starstar"), v) for v in starstar) + tuple(kwrest)
            if len(items) == 1 and items[0][0].op == "starstar":
                bound[f.kwarg] = items[0][1]
            else:
                bound[f.kwarg] = T("dict", items, 0)
        if problems and report:
            self.ev("badcall", f.qual, st, node, extra=problems)
        return bound

    def default(self, f, n, st):
        d = f.defaults[n]
        if isinstance(d, ast.Constant):
            return const(d.value)
        return T("default", f.qual, n) if not isinstance(d, (ast.UnaryOp, ast.Name, ast.Attribute)) else self.eval_in_module(d, f.module, st)

    def may_inline(self, f, exact, named=False):
        if f.is_abstract and not named:
            return False
        if callable(self.opaque):
            if self.opaque(f):
                return False
        elif f.qual in self.opaque:
            return False
        if f in self.stack:
            return False
        return len(self.stack) < self.max_depth

    def call_repo(self, f, recv, args, kwargs, st, node, static, tcls=None):
        # check the call against every implementation that can be reached
        impls = [f]
        if not static and tcls is not None:
            impls = self.p.overriders(tcls, f.name) or [f]
        bound = self.bind(f, recv, args, kwargs, st, node)
        for g in impls:
            if g is not f:
                self.bind(g, recv, args, kwargs, st, node)
        bt = tuple((k, v) for k, v in bound.items() if not (f.cls is not None and not f.is_static and f.posnames and k == f.posnames[0]))
        e = self.ev("rcall", (f.qual, recv if recv is not None else NONE, bt), st, node, extra=[g.qual for g in impls])
        if static or len(impls) == 1 and not f.is_abstract:
            target = f
            if not static and len(impls) == 1:
                target = impls[0]
            if self.may_inline(target, True, static):
                val, st2 = self.call_inline(target, bound if target is f else self.bind(target, recv, args, kwargs, st, node, False), st, node)
                self.callbacks(args, kwargs, f.qual, st, node, known=True)
                return val
            if target in self.stack:
                self.truncated.append(("recursion", target.qual))
        if static and not (f.cls is not None and recv is not None):
            return T("rcall", f.qual, bt)
        if recv is not None:
            return T("vcall", f.cls.qual if f.cls else "", f.name, recv, bt)
        return T("rcall", f.qual, bt)

    def call_inline(self, f, bound, st, node):
        before = st.conds
        val, out = self.inline(f, bound, st.fork(), node)
        if out is None:
            # never returns normally
            st.conds = st.conds + ((FALSE, True),)
            st._facts = None
            return T("noreturn", f.qual), None
        st.envs, st.heap, st.frames = out.envs, out.heap, out.frames
        if out.conds != before:
            st.conds = out.conds
            st._facts = None
        return val, st

    def call_closure(self, fn, args, kwargs, st, node, symbolic=False):
        cl = self.closures.get(fn)
        if cl is None:
            return T("meth", "__call__", fn, tuple(args), tuple(kwargs))
        cnode, mod, cfunc, frame, snap = cl
        if len(self.stack) >= self.max_depth + 2 or sum(1 for x in self.nodepath if x == ("cl", fn.id)) > 1:
            return T("meth", "__call__", fn, tuple(args), tuple(kwargs))
        env = dict(snap)
        if frame in st.frames:
            env.update(st.envs[st.frames.index(frame)])
        a = cnode.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        for n, v in zip(pos, args):
            bound[n] = v
        for k, v in kwargs:
            bound[k] = v
        for n, d in zip(reversed(pos), reversed(a.defaults)):
            if n not in bound:
                bound[n] = self.eval(d, st)
        for n in pos:
            bound.setdefault(n, T("cbarg", fn.args[0], n))
        if a.vararg:
            bound.setdefault(a.vararg.arg, T("tuple", tuple(args[len(pos):])))
        self.nodepath.append(("cl", fn.id))
        local = set(assigned_names(cnode)) | set(bound) if not isinstance(cnode, ast.Lambda) else set(bound)
        env = {k: v for k, v in env.items() if k not in local}
        val, out = self.inline(cfunc, bound, st.fork(), node, closure_env=env, body_node=cnode, module=mod)
        self.nodepath.pop()
        if out is not None:
            st.envs, st.heap, st.frames = out.envs, out.heap, out.frames
        return val if val is not None else T("noreturn", "closure")

    def callbacks(self, args, kwargs, name, st, node, known=False):
        """Bodies of functions handed to external code are analysed once."""
        if known:
            return
        for a in list(args) + [v for _, v in kwargs]:
            a = a.args[0] if a.op == "partial" else a
            if a.op == "closure" and a in self.closures:
                save = st.ctx
                s2 = st.fork()
                s2.ctx = st.ctx + (("callback", name),)
                v = self.call_closure(a, [], [], s2, node)
                self.ev("cbresult", v, st, node, extra=(name, a))
                st.envs, st.heap = s2.envs, s2.heap
                st.ctx = save
            elif a.op == "func" and a.args[0] in self.p.functions:
                f = self.p.functions[a.args[0]]
                if self.may_inline(f, True):
                    s2 = st.fork()
                    s2.ctx = st.ctx + (("callback", name),)
                    b = {n: T("cbarg", self.tag(node, n), n) for n in f.posnames + f.kwonly}
                    for n in f.posnames:
                        ty = self.ann_type(f.annotations.get(n), f.module)
                        if ty and ty[0] == "cls":
                            self.param_types[b[n]] = (ty[1], False)
                    if f.kwarg:
                        b[f.kwarg] = T("cbarg", self.tag(node, "kw"), f.kwarg)
                    v, out = self.inline(f, b, s2, node)
                    self.ev("cbresult", v if v is not None else NONE, st, node, extra=(name, a))

    # -- constructors ------------------------------------------------------------
    def construct(self, q, args, kwargs, st, node):
        o = T("new", q, self.tag(node, "new"))
        init = self.p.find_method(q, "__init__")
        bt = ()
        if init is not None:
            bound = self.bind(init, o, args, kwargs, st, node)
            bt = tuple((k, v) for k, v in bound.items() if k != init.posnames[0])
            self.ev("construct", (o, bt), st, node, extra=q)
            if self.may_inline(init, True):
                self.call_inline(init, bound, st, node)
        else:
            self.ev("construct", (o, tuple((str(i), a) for i, a in enumerate(args)) + tuple(kwargs)), st, node, extra=q)
        return o

    # -- external calls ------------------------------------------------------------
    def call_ext(self, name, args, kwargs, st, node):
        kw = dict((k, v) for k, v in kwargs if k != "**")
        if name == "getattr" and len(args) >= 2 and self.keyname(args[1]):
            n = self.keyname(args[1])
            o = self.resolve(args[0], st)
            if len(args) == 3:
                h = T("call", "hasattr", (o, args[1]), ())
                t = self.truth(h, st)
                if t is False:
                    return args[2]
                log, self.log = self.log, False
                v = self.getattr(o, n, st, node)
                self.log = log
                if t is True or (o, n) in st.heap:
                    return v
                return mkphi(h, v, args[2])
            return self.getattr(o, n, st, node)
        if name in ("all", "any") and len(args) == 1 and args[0].op in ("list", "tuple"):
            ts = [self.truth(x, st) for x in args[0].args[0]]
            if name == "all" and (False in ts or None not in ts):
                return const(False not in ts)
            if name == "any" and (True in ts or None not in ts):
                return const(True in ts)
        if name == "setattr" and len(args) == 3 and self.keyname(args[1]):
            self.setattr(args[0], self.keyname(args[1]), args[2], st, node)
            return NONE
        if name == "delattr" and len(args) == 2:
            self.ev("delattr", (args[0], self.keyname(args[1])), st, node)
            return NONE
        if name == "functools.partial" and args:
            return T("partial", args[0], tuple(args[1:]), tuple(kwargs))
        if name in ("isinstance", "hasattr"):
            t = T("call", name, tuple(args), ())
            self.ev("call", t, st, node)
            v = self.truth(t, st)
            return const(v) if v is not None else t
        if name == "len" and len(args) == 1:
            it = literal_items(args[0])
            if it is not None:
                return const(len(it))
            return T("call", "len", (args[0],), ())
        if name in ("max", "min", "sum") and args and not kwargs:
            it = literal_items(args[0]) if len(args) == 1 else list(args) if name != "sum" else None
            vals = [cval(x) for x in it] if it and all(is_const(x) for x in it) else None
            if vals and all(isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and abs(v) != float("inf") for v in vals):
                return const({"max": max, "min": min, "sum": sum}[name](vals))
        if name in ("list", "tuple") and len(args) == 1:
            it = literal_items(args[0])
            if it is not None:
                return T(name, tuple(it), *((self.tag(node),) if name == "list" else ()))
            if args[0].op == "listof":
                return args[0]
        if name in ("list", "dict", "set") and not args and not kwargs:
            return T(name, (), self.tag(node)) if name != "set" else T("set", ())
        if name == "dict" and not args:
            return T("dict", tuple((const(k), v) for k, v in kwargs), self.tag(node))
        if name in ("float", "int", "str", "bool") and len(args) == 1 and is_const(args[0]) and not kwargs:
            try:
                v = {"float": float, "int": int, "str": str, "bool": bool}[name](cval(args[0]))
                if v == v and v not in (float("inf"), float("-inf")):
                    return const(v)
            except (TypeError, ValueError):
                pass
        if name == "functools.reduce" and len(args) >= 2:
            it = literal_items(args[1])
            if it is not None and (len(args) == 3 or it):
                acc = args[2] if len(args) == 3 else it[0]
                for x in (it if len(args) == 3 else it[1:]):
                    acc = self.call(args[0], [acc, x], [], st, node)
                return acc
        if name == "map" and len(args) == 2 and literal_items(args[1]) is not None and len(literal_items(args[1])) <= 8:
            return T("list", tuple(self.call(args[0], [x], [], st, node) for x in literal_items(args[1])), 0)
        if name == "map" and len(args) == 2:
            L = self.tag(node, "loop")
            x = self.loopvar(args[1], L, st)
            save = self.loops
            self.loops = self.loops + (L,)
            v = self.call(args[0], [x], [], st, node)
            self.loops = save
            self.loopinfo[L] = {"iter": args[1], "node": node, "breaks": 0, "func": self.curfunc, "inits": {}}
            return T("listof", v, L, args[1])
        if name == "next" and args and args[0].op == "listof":
            pass
        term = norm_call(name, tuple(args), tuple(kwargs), self)
        if is_alloc(term):
            term = T(term.op, *term.args, self.tag(node, "alloc")) if len(term.args) == 3 and term.op == "call" else term
        self.ev("call", term, st, node)
        if name in self.given:
            return self.given[name]
        self.callbacks(args, kwargs, name, st, node)
        # in-place functional forms
        last = name.rsplit(".", 1)[-1]
        if last.endswith("_") and not last.endswith("__") and args and not name.startswith(("math.", "os.")):
            new = T("inplace", last, args[0], tuple(args[1:]), tuple(kwargs))
            self.mutate(last, args[0], new, st, node)
            ex = node.args[0] if isinstance(node, ast.Call) and node.args else None
            if ex is not None:
                self.rebind(ex, args[0], new, st)
            return new
        if "out" in kw and not is_const(kw["out"]):
            self.mutate("out=", kw["out"], term, st, node)
        if kw.get("inplace") is not None and is_const(kw["inplace"], True) and args:
            self.mutate("inplace=True", args[0], term, st, node)
        return term

    def call_method(self, o, name, args, kwargs, st, node, recv_expr=None):
        kw = dict((k, v) for k, v in kwargs if k != "**")
        o = self.resolve(o, st)
        # module registration
        if name == "register_buffer" and args and self.keyname(args[0]):
            v = args[1] if len(args) > 1 else kw.get("tensor", NONE)
            self.ev("register", (o, self.keyname(args[0]), v), st, node, extra=("buffer", kw))
            self.setattr(o, self.keyname(args[0]), v, st, node)
            return NONE
        if name in ("add_module", "register_module", "register_parameter") and len(args) >= 2 and self.keyname(args[0]):
            self.ev("register", (o, self.keyname(args[0]), args[1]), st, node, extra=(name, kw))
            self.setattr(o, self.keyname(args[0]), args[1], st, node)
            return NONE
        # known containers
        if o.op == "dict" and name == "get" and args and is_const(args[0]):
            for k, v in reversed(o.args[0]):
                if k is args[0]:
                    return v
            if all(is_const(k) for k, _ in o.args[0]):
                return args[1] if len(args) > 1 else NONE
        if o.op == "dict" and name in ("keys", "values", "items") and all(k.op != "starstar" for k, _ in o.args[0]):
            return T("list", tuple(k if name == "keys" else v if name == "values" else T("tuple", (k, v)) for k, v in o.args[0]), 0)
        if name in ("starmap", "map", "imap") and len(args) == 2 and self.oracle is not None and self.oracle.unroll and args[0].op in ("func", "closure", "partial"):
            v = self.starmap(args[0], args[1], name == "starmap", st, node)
            if v is not None:
                return v
        if name == "append" and len(args) == 1:
            if o.op == "list":
                new = T("list", o.args[0] + (args[0],), *o.args[1:])
            else:
                new = T("listappend", o, args[0])
            self.mutate("append", o, new, st, node, (args[0],))
            if recv_expr is not None:
                self.rebind(recv_expr, o, new, st)
            return NONE
        if name == "extend" and len(args) == 1 and o.op in ("list",) and args[0].op in ("list", "tuple"):
            new = T("list", o.args[0] + args[0].args[0], *o.args[1:])
            self.mutate("extend", o, new, st, node)
            if recv_expr is not None:
                self.rebind(recv_expr, o, new, st)
            return NONE
        if name == "insert" and len(args) == 2 and o.op == "list" and isinstance(cval(args[0]) if is_const(args[0]) else None, int) \
                and not any(x.op in ("starred", "star") for x in o.args[0]):
            xs = list(o.args[0])
            xs.insert(cval(args[0]), args[1])
            new = T("list", tuple(xs), *o.args[1:])
            self.mutate("insert", o, new, st, node, (args[1],))
            if recv_expr is not None:
                self.rebind(recv_expr, o, new, st)
            return NONE
        if name == "format" and is_const(o):
            return T("fstr", o, *args)
        if is_const(o) and isinstance(cval(o), str) and not args and name in ("lower", "upper", "strip"):
            return const(getattr(cval(o), name)())
        term = norm_method(o, name, tuple(args), tuple(kwargs), self)
        if is_alloc(term):
            term = T(term.op, *term.args, self.tag(node, "alloc")) if term.op == "meth" and len(term.args) == 4 else term
        self.ev("call", term, st, node)
        self.callbacks(args, kwargs, name, st, node)
        return self.ext_method_effect(o, name, args, kwargs, st, node, term, recv_expr)

    def ext_method_effect(self, o, name, args, kwargs, st, node, term, recv_expr=None):
        kw = dict((k, v) for k, v in kwargs if k != "**")
        t = self.typeof(o)
        ismod = bool(t and self.p.is_module_class(t[0]))
        if ismod and name in ("to", "cpu", "cuda", "train", "eval", "requires_grad_", "float", "double", "apply", "half"):
            self.ev("modeffect", (o, name, tuple(args) + tuple(v for _, v in kwargs)), st, node)
            return o
        if ismod and name in ("load_state_dict", "zero_grad"):
            self.ev("modeffect", (o, name, tuple(args) + tuple(v for _, v in kwargs)), st, node)
            return term
        if name in ("train", "eval") and not ismod:
            self.ev("modeffect", (o, name, tuple(args)), st, node)
            return o if name in ("train", "eval") else term
        if name == "load_state_dict":
            self.ev("modeffect", (o, name, tuple(args)), st, node)
            return term
        if name in ("backward", "step", "zero_grad"):
            self.ev("optstep", (o, name, tuple(args)), st, node)
            return term
        if (name.endswith("_") and not name.endswith("__") and len(name) > 1) or name in INPLACE_LIST:
            if name in INPLACE_LIST and (t is not None or o.op in ("global", "class")):
                return term
            if name == "pop" and o.op == "dict" and args and is_const(args[0]):
                hit = [v for k, v in o.args[0] if k is args[0]]
                new = T("dict", tuple(kv for kv in o.args[0] if kv[0] is not args[0]), *o.args[1:])
                self.mutate("pop", o, new, st, node)
                if recv_expr is not None:
                    self.rebind(recv_expr, o, new, st)
                if hit:
                    return hit[0]
                return args[1] if len(args) > 1 else term
            if name == "update" and o.op == "dict" and len(args) <= 1:
                merged = self.merged(o.args[0], args[0].args[0] if args and args[0].op == "dict" else () if not args else None,
                                     None if any(k == "**" for k, _ in kwargs) else tuple((const(k), v) for k, v in kwargs))
                if merged is not None:
                    new = T("dict", merged, *o.args[1:])
                    self.mutate(name, o, new, st, node, tuple(args))
                    if recv_expr is not None:
                        self.rebind(recv_expr, o, new, st)
                    return NONE
            new = T("inplace", name, o, tuple(args), tuple(kwargs))
            self.mutate(name, o, new, st, node, tuple(args))
            if recv_expr is not None:
                self.rebind(recv_expr, o, new, st)
            return new if name.endswith("_") else term
        return term


class Result:
    """Outcome of interpreting one entry point."""

    def __init__(self, interp, func, params, value, state, events, rets):
        self.interp, self.func, self.params, self.value, self.state = interp, func, params, value, state
        self.events, self.rets = events, rets

    def calls(self, *names):
        return [e for e in self.events if e.kind == "call" and (e.data.args[0] in names)]


# ---------------------------------------------------------------------- helpers
def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    for n in ast.walk(t2):
        n.lineno = t.lineno
        n.col_offset = getattr(t, "col_offset", 0)
    return t2


def _shallow(t):
    for a in t.args:
        if isinstance(a, tuple):
            for b in a:
                if isinstance(b, Term):
                    yield b
                elif isinstance(b, tuple):
                    yield from (x for x in b if isinstance(x, Term))


def _trim(x, ref):
    x.envs = x.envs[:len(ref.envs)]
    x.frames = x.frames[:len(ref.frames)]
    return x


def numconst(t):
    v = cval(t)
    if is_const(t) and isinstance(v, (int, float)) and not isinstance(v, bool):
        return v
    return None


def passes_on(h):
    """does a handler raise again whatever it caught"""
    return bool(h.body) and isinstance(h.body[-1], ast.Raise) and not any(isinstance(x, (ast.Return, ast.Continue, ast.Break)) for b in h.body for x in ast.walk(b))


def has_unbound(t, depth=0):
    if t is UNBOUND:
        return True
    if depth > 30:
        return False
    if t.op == "phi":
        return has_unbound(t.args[1], depth + 1) or has_unbound(t.args[2], depth + 1)
    return False


_assigned_cache = {}


def assigned_names(node):
    r = _assigned_cache.get(node)
    if r is not None:
        return r
    out = set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr) and isinstance(c.target, ast.Name):
                    out.add(c.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for b in body:
        visit(b)
    if isinstance(node, (ast.For, ast.AsyncFor)):
        visit(node.target)
    for b in getattr(node, "orelse", []) or []:
        if not isinstance(node, (ast.FunctionDef, ast.Lambda)):
            visit(b)
    _assigned_cache[node] = out
    return out


def literal_items(t):
    """Python list of item terms of a literal sequence, else None."""
    if t.op in ("list", "tuple", "set"):
        if any(x.op == "star" for x in t.args[0]):
            return None
        return list(t.args[0])
    if t.op == "call":
        n, a = t.args[0], t.args[1]
        if n == "range" and all(intval(x) is not None for x in a) and a:
            r = range(*[intval(x) for x in a])
            if len(r) <= 8:
                return [const(i) for i in r]
            return None
        if n == "zip":
            its = [literal_items(x) for x in a]
            if its and all(i is not None for i in its):
                return [T("tuple", tuple(x)) for x in zip(*its)]
            known = [len(i) for i in its if i is not None]
            if known and min(known) <= 8:
                m = min(known)
                its = [i if i is not None else nth_items(x, m) for i, x in zip(its, a)]
                if all(i is not None for i in its):
                    return [T("tuple", tuple(x)) for x in zip(*its)]
        if n == "enumerate" and a:
            it = literal_items(a[0])
            if it is not None:
                s = intval(a[1]) if len(a) > 1 else intval(dict(t.args[2]).get("start", const(0)))
                if s is not None:
                    return [T("tuple", (const(i + s), x)) for i, x in enumerate(it)]
        if n == "reversed" and len(a) == 1:
            it = literal_items(a[0])
            if it is not None:
                return list(reversed(it))
        if n in ("torch.nn.ModuleList", "torch.nn.ParameterList", "torch.nn.modules.container.ModuleList") and len(a) == 1:
            return literal_items(a[0])
    return None


def nth_items(t, n):
    """The first n items of a sequence that is no literal but whose items can be named, else None."""
    r = literal_items(t)
    if r is not None:
        return r[:n] if len(r) >= n else None
    if t.op == "meth" and t.args[0] in ("split", "chunk", "tensor_split", "unbind"):
        return [T("index", t, const(k)) for k in range(n)]
    if t.op == "index" and t.args[1].op == "slice" and intval(t.args[1].args[2]) == -1 and is_const(t.args[1].args[0], None) and is_const(t.args[1].args[1], None):
        r = nth_items(t.args[0], n)
        return r[::-1] if r is not None else None
    if t.op == "call" and t.args[0] in ("list", "tuple", "reversed") and len(t.args[1]) == 1:
        r = nth_items(t.args[1][0], n)
        return (r[::-1] if t.args[0] == "reversed" else r) if r is not None else None
    if t.op == "bin" and t.args[0] == "*":
        for x in t.args[1:]:
            if x.op == "list" and len(x.args[0]) == 1 and x.args[0][0].op != "star":
                return [x.args[0][0]] * n
    if t.op == "phi":
        x, y = nth_items(t.args[1], n), nth_items(t.args[2], n)
        if x is not None and y is not None:
            return [T("phi", t.args[0], p, q) if p is not q else p for p, q in zip(x, y)]
    if t.op == "listof" and len(t.args) >= 3:
        it = nth_items(t.args[2], n)
        if it is not None:
            return [subst(t.args[0], {T("elem", t.args[2], t.args[1]): x}) for x in it]
    return None


def subst_loop(t, old, new):
    """Re-tag the loop variable of a listof element."""
    if old == new:
        return t
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op in ("elem",) and x.args[1] == old:
            r = T("elem", go(x.args[0]), new)
        elif x.op == "ridx" and x.args[0] == old:
            r = T("ridx", new, *[go(a) if isinstance(a, Term) else a for a in x.args[1:]])
        else:
            new_args = tuple(ga(a) for a in x.args)
            r = x if new_args == x.args else T(x.op, *new_args, loc=x.loc)
        memo[x.id] = r
        return r

    def ga(a):
        if isinstance(a, Term):
            return go(a)
        if isinstance(a, tuple):
            return tuple(ga(b) for b in a)
        return a
    return go(t)


VIEW_METHODS = {"view", "reshape", "contiguous", "to", "float", "double", "long", "int", "bool", "half", "detach", "cpu", "cuda", "squeeze", "unsqueeze",
                "transpose", "t", "permute", "flatten", "expand", "expand_as", "view_as", "reshape_as", "numpy", "type", "requires_grad_", "narrow",
                "unfold", "diagonal", "ravel", "swapaxes", "movedim", "type_as", "real", "chunk", "split", "unbind", "select", "mT"}
CAST_METHODS = {"float", "double", "long", "int", "bool", "half", "type", "to", "type_as"}


def basic_index(i):
    """Does indexing with i give a view?"""
    if i.op == "tuple":
        return all(basic_index(x) for x in i.args[0])
    if i.op in ("slice", "ellipsis"):
        return True
    if is_const(i):
        return cval(i) is None or isinstance(cval(i), int) and not isinstance(cval(i), bool)
    if i.op in ("ridx",):
        return True
    if i.op in ("bin", "un"):
        return all(basic_index(x) for x in i.args[1:])
    if i.op == "param":
        return None
    if i.op == "call" and i.args[0] in ("len", "int"):
        return True
    if i.op == "index" and i.args[0].op == "attr" and i.args[0].args[1] == "shape":
        return True
    return None


def view_base(t):
    """The tensor t is a view of (one step), or None."""
    if t.op == "meth" and t.args[0] in VIEW_METHODS:
        return t.args[1]
    if t.op == "attr" and t.args[1] in ("T", "data", "mT", "values", "loc", "iloc"):
        return t.args[0]
    if t.op == "index" and basic_index(t.args[1]):
        return t.args[0]
    return None


def _pattern_match(pat, name):
    import re
    return re.fullmatch(".+".join(re.escape(x) for x in pat.split("{}")), name) is not None
