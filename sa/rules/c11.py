"""C11: every random choice comes from the generators the seed function seeds."""
import ast

from ..terms import T, cval, is_const, show, walk

SEED = {"random.seed": ("random", "a", 0), "numpy.random.seed": ("numpy", "seed", 0), "torch.manual_seed": ("torch", "seed", 0), "torch.random.manual_seed": ("torch", "seed", 0)}
STATE = {"random.setstate", "numpy.random.set_state", "torch.set_rng_state", "torch.random.set_rng_state", "torch.cuda.set_rng_state", "torch.cuda.set_rng_state_all"}
MORE = {"torch.cuda.manual_seed": 0, "torch.cuda.manual_seed_all": 0, "torch.mps.manual_seed": 0}
# seeds itself from the operating system or the clock
SELF = {"torch.seed", "torch.random.seed", "torch.cuda.seed", "torch.cuda.seed_all", "torch.mps.seed"}
# generators of their own: position and name of the seed
OWN = {"torch.Generator": None, "numpy.random.default_rng": (0, "seed"), "numpy.random.RandomState": (0, "seed"), "numpy.random.Generator": (0, "bit_generator"),
       "random.Random": (0, "x"), "numpy.random.PCG64": (0, "seed"), "numpy.random.MT19937": (0, "seed"), "numpy.random.Philox": (0, "seed"), "numpy.random.SFC64": (0, "seed"),
       "numpy.random.SeedSequence": (0, "entropy"), "scipy.stats.qmc.Sobol": (None, "seed"), "scipy.stats.qmc.Halton": (None, "seed"), "scipy.stats.qmc.LatinHypercube": (None, "seed")}
OS = {"os.urandom", "os.getrandom", "random.SystemRandom", "secrets.randbelow", "secrets.choice", "secrets.randbits", "secrets.SystemRandom"}
CLOCK = {"time.time", "time.time_ns", "time.perf_counter", "time.perf_counter_ns", "time.monotonic", "time.monotonic_ns", "time.process_time", "time.process_time_ns",
         "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.now", "os.getpid", "os.getppid", "uuid.uuid1", "uuid.uuid4", "id", "hash",
         "threading.get_ident", "secrets.token_bytes", "secrets.token_hex", "time.clock_gettime", "os.times"} | OS
DRAWN = {"torch." + x for x in ("rand", "randn", "randint", "randperm", "rand_like", "randn_like", "randint_like", "normal", "bernoulli", "multinomial", "poisson", "binomial", "dropout",
                                 "nn.functional.dropout", "nn.functional.gumbel_softmax", "nn.functional.rrelu", "nn.functional.alpha_dropout", "pca_lowrank", "svd_lowrank", "utils.data.random_split",
                                 "utils.data.RandomSampler", "utils.data.SubsetRandomSampler", "utils.data.WeightedRandomSampler")}
PREFIX = ("numpy.random.", "random.", "torch.nn.init.", "torch.distributions.")
METHODS = {"normal_", "uniform_", "random_", "bernoulli_", "exponential_", "cauchy_", "log_normal_", "geometric_", "sample", "rsample", "sample_n", "rvs", "multinomial", "bernoulli"}
STATIC = {"random.getstate", "numpy.random.get_state", "torch.nn.init.constant_", "torch.nn.init.zeros_", "torch.nn.init.ones_", "torch.nn.init.eye_", "torch.nn.init.calculate_gain", "torch.nn.init.dirac_"}
KEYS = ("generator", "random_state", "seed", "rng")
POOLS = {"starmap", "map", "imap", "imap_unordered", "apply", "apply_async", "map_async", "starmap_async", "submit"}
LIST = {"starmap", "starmap_async"}
SEEDS = {"random": "random", "numpy": "numpy", "torch": "torch"}


PROCESS = {"current_process", "parent_process", "getpid", "getppid", "get_ident", "get_native_id", "current_thread"}


def timed(x, but=()):
    """a clock or the identity of the process"""
    return x.op == "call" and x.args[0] not in but and (x.args[0] in CLOCK or x.args[0].rsplit(".", 1)[-1] in PROCESS and x.args[0].split(".")[0] in ("os", "threading", "multiprocessing", "torch"))


def drawn(n):
    """the call of this name draws from a generator"""
    if n is None or n in STATIC or n in SEED or n in STATE or n in OWN or n in SELF or n in OS:
        return False
    return n in DRAWN or any(n.startswith(p) and "." not in n[len(p):] and n[len(p):][:1].islower() for p in PREFIX[:3])


def name(t):
    return t.args[0] if t.op == "call" else None


def kw(t, k):
    return dict(t.args[2] if t.op == "call" else t.args[3]).get(k)


def arg(t, i, k):
    xs = t.args[1]
    return xs[i] if i is not None and len(xs) > i else kw(t, k)


GET = ("get_rng_state", "getstate", "get_state", "get_rng_state_all")


def saved(t):
    return contains(t, lambda x: x.op == "call" and x.args[0].rsplit(".", 1)[-1] in GET)


def plain(t):
    while t is not None and t.op in ("fresh", "enter"):
        t = t.args[0]
    return t


def values(t):
    """parts of a term without what only counts or measures: a length is no seed"""
    if t.op == "call" and t.args[0] in ("len", "torch.numel") or t.op == "meth" and t.args[0] in ("size", "numel", "dim") or t.op == "attr" and t.args[1] in ("shape", "ndim", "device", "dtype"):
        return
    yield t
    for a in t.args:
        for x in a if isinstance(a, tuple) else (a,):
            for y in x if isinstance(x, tuple) else (x,):
                if hasattr(y, "op"):
                    yield from values(y)


def contains(t, test):
    return any(test(x) for x in walk(t))


class Origin:
    """where the value of a seed comes from: 'drawn' from a global generator, 'given' by the caller, 'clock', 'constant', 'own' generator"""

    def __init__(self, f, ctx):
        self.f, self.ctx = f, ctx

    def __call__(self, t):
        kinds = set()
        for x in values(t):
            if x.op == "call":
                n = x.args[0]
                if n in CLOCK or n in SELF:
                    return "clock"
                if n in OWN:
                    kinds.add("own")
                elif drawn(n) or n in ("torch.initial_seed", "torch.random.initial_seed"):
                    kinds.add("drawn")
            elif x.op == "meth" and x.args[0] in METHODS | {"seed", "initial_seed", "integers", "randint"}:
                kinds.add("drawn")
            elif x.op in ("param", "vararg", "kwarg"):
                kinds.add(self.given(x))
            elif x.op in ("attr", "attr0", "cbarg", "elem", "global", "glob"):
                kinds.add("unknown")
        for k in ("own", "drawn", "given", "unknown", "constant"):
            if k in kinds:
                return k
        return "constant"

    def given(self, x):
        d = self.f.defaults.get(x.args[0])
        if isinstance(d, ast.Constant) and d.value is not None and not isinstance(d.value, (str, bool)):
            return "constant"
        return "given"


def who(e, f):
    return e.stack[-1] if e.stack else f.qual


class Check:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.done = set()
        self.graph()

    # -------------------------------------------------------------------------------------------------- what draws at all
    def graph(self):
        """names a function calls, and whether it draws: an over-approximation by names of methods"""
        self.calls, self.direct, self.byname = {}, set(), {}
        for q, f in self.p.functions.items():
            self.byname.setdefault(f.node.name, set()).add(q)
        for q, f in self.p.functions.items():
            out = set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    d = self.p.resolve_expr(n.func, f.module)
                    if d in self.p.functions:
                        out.add(d)
                    elif d in self.p.classes:
                        m = self.p.find_method(d, "__init__")
                        if m:
                            out.add(m.qual)
                    elif isinstance(n.func, ast.Attribute) and d is None:
                        out |= self.byname.get(n.func.attr, set())
                    if self.draw_node(n, f.module):
                        self.direct.add(q)
            self.calls[q] = out

    def draw_node(self, n, m):
        d = self.p.resolve_expr(n.func, m)
        if d is not None:
            return drawn(d) or d.endswith(".DataLoader") and any(k.arg == "shuffle" and not (isinstance(k.value, ast.Constant) and k.value.value is False) for k in n.keywords)
        return isinstance(n.func, ast.Attribute) and n.func.attr in METHODS

    def draws(self, q):
        seen, todo = set(), [q]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.direct:
                return True
            todo += self.calls.get(x, ())
        return False

    # -------------------------------------------------------------------------------------------------- the seed function
    def setter(self):
        f = next((f for q, f in self.p.functions.items() if f.node.name == "set_seed" and f.cls is None), None)
        if f is None:
            return
        r = self.ctx.lib.run(f)
        if r is None:
            return
        first = f.posnames[0] if f.posnames else None
        last = {}
        for e in r.events:
            if e.kind == "call" and (name(e.data) in SEED or name(e.data) in MORE or name(e.data) in SELF or name(e.data) in STATE):
                n = name(e.data)
                g = SEED[n][0] if n in SEED else "torch" if n.startswith("torch") else n.split(".")[0]
                if n in MORE:
                    continue
                last.setdefault(g, []).append(e)
        for g in SEEDS:
            es = [e for e in last.get(g, ()) if name(e.data) in SEED]
            what = f"{f.qual}: generator of {g}"
            if not es:
                if not last.get(g):
                    self.ctx.bad("seed", what, f"the generator of {g} is not seeded", f.module.path, f.node.lineno)
                else:
                    self.ctx.bad_ev("seed", what, f"the generator of {g} is not given the seed", last[g][-1])
                continue
            always = [e for e in es if not self.conditional(e, r)]
            if not always:
                c = [show(c) if pol else f"not {show(c)}" for c, pol in es[0].conds] or ["the code before it does not fail"]
                # covered when the branches together seed on every path
                if self.covered(es):
                    always = es
                else:
                    self.ctx.bad_ev("seed", what, f"the generator of {g} is only seeded when {', '.join(c)[:160]}", es[0])
                    continue
            e = last[g][-1]
            if name(e.data) not in SEED:
                self.ctx.bad_ev("seed", what, f"the generator of {g} is seeded anew after it was given the seed", e)
                continue
            a = arg(e.data, 0, SEED[name(e.data)][1])
            params = {x.args[0] for x in walk(a) if x.op == "param"} if a is not None else set()
            if first not in params:
                self.ctx.bad_ev("seed", what, f"the generator of {g} is seeded with {show(a) if a is not None else 'nothing'}, not with the seed", e)
            elif contains(a, lambda x: timed(x) or x.op == "call" and (drawn(x.args[0]) or x.args[0] in OWN)):
                self.ctx.bad_ev("seed", what, f"the generator of {g} is seeded with {show(a)}, which the seed does not determine", e)
            else:
                self.ctx.ok("seed", what)
        for e in r.events:
            if e.kind == "setattr" and show(e.data[0]).endswith("backends.cudnn"):
                want = {"deterministic": True, "benchmark": False}.get(e.data[1])
                if want is not None and is_const(e.data[3]):
                    if cval(e.data[3]) is not want:
                        self.ctx.bad_ev("seed", f"{f.qual}: {e.data[1]}", f"torch.backends.cudnn.{e.data[1]} is set to {cval(e.data[3])}: seeded runs differ", e)
                    else:
                        self.ctx.ok("seed", f"{f.qual}: {e.data[1]}")

    @staticmethod
    def conditional(e, r):
        """the event does not happen on every path that returns"""
        if any(c[0] in ("handler",) for c in e.ctx):
            return True
        bad = [(c, pol) for c, pol in e.conds]
        if not bad:
            return False
        # a condition of which the other side raises
        for c, pol in bad:
            if not any(x.kind == "raise" and (c, not pol) in tuple(x.conds) for x in r.events):
                return True
        return False

    @staticmethod
    def covered(es):
        import itertools
        atoms = sorted({c for e in es for c, pol in e.conds}, key=lambda t: t.id)
        if len(atoms) > 6:
            return False
        return all(any(all(dict(zip(atoms, v))[c] == pol for c, pol in e.conds) for e in es) for v in itertools.product((True, False), repeat=len(atoms)))

    # -------------------------------------------------------------------------------------------------- every function
    def function(self, f, r):
        self.f, self.r = f, r
        self.origin = Origin(f, self.ctx)
        in_setter = f.node.name == "set_seed" and f.cls is None
        for e in r.events:
            if e.kind == "call":
                t = plain(e.data)
                if t.op == "call":
                    self.call(e, t, in_setter)
                elif t.op == "meth":
                    self.meth(e, t)
            elif e.kind in ("mutate", "setattr", "setglobal"):
                self.kept(e)

    def stored(self, attr):
        """some function keeps the state of a generator in this attribute"""
        for f in self.p.functions.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(x, ast.Attribute) and x.attr == attr for x in n.targets):
                    if any(isinstance(c, ast.Call) and isinstance(c.func, (ast.Attribute, ast.Name)) and (c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id) in GET for c in ast.walk(n.value)):
                        return True
        return False

    def key(self, rule, e, t):
        k = (rule, e.path, e.line, t.args[0])
        if k in self.done:
            return True
        self.done.add(k)
        return False

    def callback(self, e):
        return any(c[0] == "callback" and c[1] in POOLS for c in e.ctx)

    def call(self, e, t, in_setter):
        n, w = t.args[0], who(e, self.f)
        if n in SELF:
            self.ctx.bad_ev("reseed", f"{w}: {n}", f"{n} seeds the generator from the operating system", e)
        elif n in SEED or n in MORE:
            if in_setter or self.callback(e):
                return
            a = arg(t, 0, SEED[n][1] if n in SEED else "seed")
            self.seeding("reseed", f"{w}: {n}", "the generators of the library are", a, e)
        elif n in STATE:
            a = arg(t, 0, "state" if "numpy" not in n else "state")
            a = arg(t, 0, "new_state") if a is None else a
            if a is not None and saved(a):
                self.ctx.ok("reseed", f"{w}: {n}")
            elif a is not None and a.op in ("attr", "attr0") and self.stored(a.args[1]):
                self.ctx.bad_ev("reseed", f"{w}: {n}", f"the generator is put back to the state {a.args[1]} of an earlier call, whatever the seed set in between", e)
            else:
                self.ctx.unknown("reseed", f"{w}: {n}")
        elif n in OWN:
            if n == "torch.Generator":
                seeds = [x for x in self.r.events if x.kind == "call" and x.data.op == "meth" and plain(x.data.args[1]) is t and x.data.args[0] in ("manual_seed", "seed", "set_state")]
                if not seeds:
                    self.ctx.bad_ev("generator", f"{w}: {n}", "a generator of its own is used that is never given a seed: set_seed has no influence on what is drawn from it", e)
                return
            i, k = OWN[n]
            a = arg(t, i, k)
            if a is not None and a.op == "call" and a.args[0] in OWN:
                return      # judged at the inner one
            self.seeding("generator", f"{w}: {n}", "a generator of its own is", a, e)
        elif n.startswith("scipy.stats.qmc.") and n[16:17].isupper():
            a = kw(t, "seed") if kw(t, "seed") is not None else kw(t, "rng")
            self.seeding("generator", f"{w}: {n}", "a generator of its own is", a, e)
        elif n in OS:
            self.ctx.bad_ev("outside", f"{w}: {n}", f"{n} draws from the operating system", e)
        elif n in ("functools.lru_cache", "functools.cache"):
            pass
        if n in CLOCK and n not in OS:
            if not self.key("outside", e, t):
                self.ctx.ok("outside", f"{w}: {n} is not used as randomness")
        self.clocked(e, t, w)
        if drawn(n) or n.endswith(".DataLoader") or any(kw(t, k) is not None for k in ("generator", "random_state")):
            self.draw(e, t, w, n)

    def meth(self, e, t):
        n, w = t.args[0], who(e, self.f)
        recv = plain(t.args[1])
        if n in ("manual_seed", "seed") and self.own(recv):
            if n == "seed":
                self.ctx.bad_ev("generator", f"{w}: Generator.seed", "a generator of its own is seeded from the operating system", e)
            else:
                a = t.args[2][0] if t.args[2] else kw(t, "seed")
                self.seeding("generator", f"{w}: torch.Generator", "a generator of its own is", a, e)
            return
        if n in METHODS or kw(t, "generator") is not None or kw(t, "random_state") is not None:
            self.draw(e, t, w, n)
        self.clocked(e, t, w, True)

    @staticmethod
    def own(t):
        t = plain(t)
        while t.op == "meth" and t.args[0] == "manual_seed":
            t = plain(t.args[1])
        return t.op == "call" and t.args[0] in OWN

    def seeding(self, rule, what, subject, a, e):
        if a is None or is_const(a, None):
            self.ctx.bad_ev(rule, what, f"{subject} seeded from the operating system: two runs with the same seed differ", e)
            return
        k = self.origin(a)
        if k == "clock":
            self.ctx.bad_ev(rule, what, f"{subject} seeded with {show(a)[:80]}: two runs with the same seed differ", e)
        elif k == "constant":
            self.ctx.bad_ev(rule, what, f"{subject} seeded with {show(a)[:80]}, whatever the seed that was set", e)
        elif k == "own":
            self.ctx.unknown(rule, what)
        elif k == "unknown":
            self.ctx.unknown(rule, what)
        else:
            self.ctx.ok(rule, what)

    def draw(self, e, t, w, n):
        for k in KEYS:
            g = kw(t, k)
            if g is None or is_const(g, None):
                continue
            if k in ("seed", "random_state", "rng") and (is_const(g) or self.origin(g) == "clock") and n not in SEED:
                self.ctx.bad_ev("draw", f"{w}: {n}", f"{k} {show(g)[:60]} is fixed in the code: what is drawn does not follow the seed that was set", e)
                return
            if k == "generator" and not self.own(g):
                if g.op in ("attr", "attr0", "glob", "global", "modattr") or g.op == "const":
                    self.ctx.unknown("draw", f"{w}: {n} with generator {show(g)[:60]}")
                    return
        if not self.key("draw", e, t):
            self.ctx.ok("draw", f"{w}: {n}")

    def clocked(self, e, t, w, method=False):
        """a clock or a number of the process in a computation"""
        n = t.args[0]
        if not method and not (n.startswith(("torch.", "numpy.")) or drawn(n)) or n in SEED or n in OWN or n in MORE:
            return
        for a in (t.args[1] if not method else t.args[2]):
            if contains(a, lambda x: timed(x, ("id", "hash"))) and not (method and n in ("info", "debug", "warning", "error", "format", "append", "write", "put", "join", "replace", "rename")):
                self.ctx.bad_ev("outside", f"{w}: {n}", f"{n} computes with {show(a)[:80]}", e)

    def kept(self, e):
        """what is drawn is not kept beyond the objects it belongs to"""
        o = e.data if e.kind == "mutate" else e.data[0]
        v = e.extra if e.kind == "mutate" else e.data[1] if e.kind == "setglobal" else e.data[3]
        root = o if not isinstance(o, tuple) else o[0]
        while root is not None and root.op in ("index", "attr", "setitem", "inplace"):
            root = root.args[1] if root.op == "inplace" else root.args[0]
        if root is None or root.op not in ("global", "class"):
            return
        vs = v if isinstance(v, tuple) else (v,)
        if any(hasattr(x, "op") and contains(x, lambda y: y.op == "call" and drawn(y.args[0])) for x in vs):
            self.ctx.bad_ev("kept", f"{who(e, self.f)}: {show(o)[:60]}", "what was drawn is kept in a variable of the module: a later call uses it whatever the seed set in between", e)

    # -------------------------------------------------------------------------------------------------- text of the modules
    def modules(self):
        for m in self.p.modules.values():
            n = 0
            for node, where in outside(m.tree):
                for c in ast.walk(node):
                    if isinstance(c, ast.Call):
                        d = self.p.resolve_expr(c.func, m)
                        n += 1
                        if d is None:
                            continue
                        if drawn(d) or d in OWN or d in OS or d in SEED or d in SELF or d in self.p.functions and self.draws(d):
                            self.ctx.bad("import", f"{m.name}: {d}", f"{d} runs once when the module is imported ({where}), before any seed is set", m.path, c.lineno)
            self.ctx.ok("import", m.name)
            for f in [f for f in self.p.functions.values() if f.module is m]:
                for d in f.node.decorator_list:
                    x = d.func if isinstance(d, ast.Call) else d
                    if self.p.resolve_expr(x, m) in ("functools.lru_cache", "functools.cache") and self.draws(f.qual):
                        self.ctx.bad("kept", f"{f.qual}: {ast.unparse(d)}", "what is drawn in this function is kept for later calls, whatever the seed set in between", m.path, f.node.lineno)
                names = {x for n in ast.walk(f.node) if isinstance(n, ast.Global) for x in n.names}
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in n.targets):
                        own = [c for c in ast.walk(n.value) if isinstance(c, ast.Call)]
                        if any(self.draw_node(c, m) or self.p.resolve_expr(c.func, m) in self.p.functions and self.draws(self.p.resolve_expr(c.func, m)) for c in own):
                            self.ctx.bad("kept", f"{f.qual}: {ast.unparse(n.targets[0])}", "what was drawn is kept in a variable of the module: a later call uses it whatever the seed set in between", m.path, n.lineno)

    # -------------------------------------------------------------------------------------------------- worker processes
    def workers(self, f, r):
        for e in r.events:
            if e.kind != "call" or e.data.op not in ("meth", "call"):
                continue
            t = e.data
            if t.op == "meth" and t.args[0] in POOLS and t.args[2]:
                pool = plain(t.args[1])
                if pool.op != "call" or not any(w in pool.args[0] for w in ("Pool", "Executor")):
                    continue
                fn, job, how = t.args[2][0], t.args[2][1:], t.args[0]
            elif t.op == "call" and t.args[0].endswith(".Process") and kw(t, "target") is not None:
                fn, job, how = kw(t, "target"), (kw(t, "args"),), "apply"
            else:
                continue
            q = fn.args[0] if fn.op in ("func", "global", "glob", "fn") and isinstance(fn.args[0], str) else next((x for x in self.p.functions if show(fn) == x), None)
            if q not in self.p.functions:
                self.ctx.unknown("worker", f"{who(e, f)}: {show(fn)[:60]}")
                continue
            if self.key("worker", e, t) or not self.draws(q):
                continue
            self.worker(f, r, e, self.p.functions[q], job, how)

    def worker(self, f, r, e, g, job, how):
        what = f"{who(e, f)}: {g.qual}"
        rg = self.ctx.lib.run(g)
        if rg is None:
            self.ctx.unknown("worker", what)
            return
        seeds = [x for x in rg.events if x.kind == "call" and name(x.data) in ("torch.manual_seed", "torch.random.manual_seed")]
        work = [x for x in rg.events if x.kind in ("call", "rcall", "vcall") and not any("set_seed" in s for s in x.stack[1:]) and self.works(x)]
        if not seeds:
            self.ctx.bad_ev("worker", what, "the worker process draws from generators that set_seed of this process does not reach: it is given no seed", e)
            return
        if work and seeds[0].seq > work[0].seq:
            self.ctx.bad_ev("worker", what, "the worker process is given its seed after it has drawn", seeds[0])
            return
        a = arg(seeds[0].data, 0, "seed")
        ps = [x.args[0] for x in walk(a) if x.op == "param"]
        if not ps:
            k = Origin(g, self.ctx)(a)
            (self.ctx.unknown if k in ("unknown", "given") else lambda ru, w: self.ctx.bad_ev(ru, w, f"the worker process is seeded with {show(a)[:60]}, whatever the seed that was set", seeds[0]))("worker", what)
            return
        if contains(a, timed):
            self.ctx.bad_ev("worker", what, f"the worker process is seeded with {show(a)[:60]}, which the seed that was set does not determine", seeds[0])
            return
        given = None
        if ps[0] in g.posnames:
            i = g.posnames.index(ps[0])
            if how in LIST or how in ("apply", "apply_async", "submit"):
                given = self.item(job, i, how)
        if given is None:
            self.ctx.unknown("worker", what)
            return
        if given == "missing" or is_const(given, None):
            self.ctx.bad_ev("worker", what, f"the worker process is not given {ps[0]}: it draws from generators that set_seed of this process does not reach", e)
            return
        given = self.resolve(given, r)
        k = Origin(f, self.ctx)(given)
        if k in ("clock", "constant"):
            self.ctx.bad_ev("worker", what, f"the worker process is seeded with {show(given)[:80]}, which the seed that was set does not determine", e)
        elif k in ("drawn", "given"):
            self.ctx.ok("worker", what)
        else:
            self.ctx.unknown("worker", what)

    def works(self, x):
        """an event that may draw"""
        if x.kind == "call":
            t = plain(x.data)
            if t.op == "call":
                return drawn(t.args[0])
            return t.op == "meth" and (t.args[0] in METHODS or any(self.draws(q) for q in self.byname.get(t.args[0], ())))
        q = x.data[0] if x.kind == "rcall" else None
        return q is not None and not q.endswith("set_seed") and q in self.direct

    @staticmethod
    def resolve(t, r):
        return t

    def item(self, job, i, how):
        """the value of argument i in the list of jobs"""
        if how in LIST:
            if not job:
                return None
            t = job[0]
            for _ in range(4):
                if t.op == "listof":
                    t = t.args[0]
                elif t.op in ("list",) and t.args:
                    t = t.args[0][0] if isinstance(t.args[0], tuple) and t.args[0] else t
                    break
                elif t.op == "mu" or t.op == "phi":
                    return None
                else:
                    break
            items = parts(t)
        elif how == "submit":
            items = list(job)
        else:
            items = parts(job[0]) if job and job[0] is not None else None
        if items is None:
            return None
        return items[i] if i < len(items) else "missing"


def parts(t):
    if t.op in ("tuple", "list"):
        xs = t.args[0] if len(t.args) and isinstance(t.args[0], tuple) else t.args
        return list(xs)
    return None


def outside(tree):
    """expressions of a module that run when it is imported"""
    def body(ns, where):
        for n in ns:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
                    yield d, f"a default value of {n.name}"
            elif isinstance(n, ast.ClassDef):
                yield from body(n.body, f"class {n.name}")
            elif isinstance(n, ast.If) and "__name__" in ast.unparse(n.test):
                continue
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, ast.expr):
                        yield c, where
                yield from body([c for c in ast.iter_child_nodes(n) if isinstance(c, ast.stmt)], where)
            elif not isinstance(n, (ast.Import, ast.ImportFrom)):
                yield n, where
    yield from body(tree.body, "module")


def check(ctx):
    c = Check(ctx)
    c.setter()
    c.modules()
    for f, r in ctx.lib.generic():
        c.function(f, r)
        c.workers(f, r)
    ctx.floor("seed", 1)
    ctx.floor("draw", 3)
