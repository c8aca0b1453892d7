"""Loading of the analysed package: modules, imports, classes, functions."""
import ast
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "irtorch"


class Func:
    def __init__(self, qual, node, module, cls=None):
        self.qual, self.node, self.module, self.cls = qual, node, module, cls
        self.name = node.name
        self.decorators = []
        for d in node.decorator_list:
            try:
                self.decorators.append(ast.unparse(d))
            except Exception:
                pass
        a = node.args
        self.posnames = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for n, d in zip(reversed(self.posnames), reversed(a.defaults)):
            self.defaults[n] = d
        for n, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[n] = d
        self.annotations = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation is not None}
        self.is_static = "staticmethod" in self.decorators
        self.is_classmethod = "classmethod" in self.decorators
        self.is_property = "property" in self.decorators
        self.is_abstract = any(d.endswith("abstractmethod") for d in self.decorators)

    @property
    def is_public(self):
        return not self.name.startswith("_")

    def __repr__(self):
        return f"<Func {self.qual}>"


class Class:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.name = node.name
        self.bases = []      # qualified names
        self.methods = {}
        self.class_attrs = {}

    def __repr__(self):
        return f"<Class {self.qual}>"


class Module:
    def __init__(self, name, path, tree, source):
        self.name, self.path, self.tree, self.source = name, path, tree, source
        self.imports = {}    # local name -> qualified name
        self.functions = {}
        self.classes = {}
        self.assigns = {}
        self.relpath = os.path.relpath(path, REPO)


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.functions = {}
        self.classes = {}
        pk = os.path.join(self.root, PKG)
        if not os.path.isdir(pk):
            raise AnalysisBroken(f"package {pk} not found")
        for dp, dn, fn in os.walk(pk):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if f.endswith(".py"):
                    self._load(os.path.join(dp, f))
        for m in self.modules.values():
            self._collect(m)
        for c in self.classes.values():
            for b in c.node.bases:
                q = self.resolve_expr(b, c.module)
                if q:
                    c.bases.append(q)
        self._mro = {}
        self.subclasses = {q: set() for q in self.classes}
        for q in self.classes:
            for b in self.mro(q)[1:]:
                if b in self.subclasses:
                    self.subclasses[b].add(q)

    def _load(self, path):
        rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, ".")
        if rel.endswith(".__init__"):
            rel = rel[:-9]
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        self.modules[rel] = Module(rel, path, tree, src)

    def _collect(self, m):
        is_pkg = m.path.endswith("__init__.py")
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.imports.setdefault(a.asname, a.name)
                    else:
                        m.imports.setdefault(a.name.split(".")[0], a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                base = self.import_base(n, m, is_pkg)
                for a in n.names:
                    m.imports.setdefault(a.asname or a.name, f"{base}.{a.name}" if base else a.name)
        self._collect_body(m, m.tree.body)

    @staticmethod
    def import_base(n, m, is_pkg):
        if n.level:
            parts = m.name.split(".")
            keep = len(parts) - n.level + (1 if is_pkg else 0)
            base = ".".join(parts[:keep])
            return base + ("." + n.module if n.module else "")
        return n.module or ""

    def _collect_body(self, m, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(f"{m.name}.{n.name}", n, m)
                m.functions[n.name] = f
                self.functions[f.qual] = f
            elif isinstance(n, ast.ClassDef):
                c = Class(f"{m.name}.{n.name}", n, m)
                m.classes[n.name] = c
                self.classes[c.qual] = c
                for b in n.body:
                    if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        if any(ast.unparse(d).endswith(".setter") for d in b.decorator_list):
                            c.methods[b.name + "@setter"] = Func(f"{c.qual}.{b.name}", b, m, c)
                            continue
                        f = Func(f"{c.qual}.{b.name}", b, m, c)
                        c.methods[b.name] = f
                        self.functions[f.qual] = f
                    elif isinstance(b, ast.Assign):
                        for t in b.targets:
                            if isinstance(t, ast.Name):
                                c.class_attrs[t.id] = b.value
                    elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and b.value is not None:
                        c.class_attrs[b.target.id] = b.value
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.assigns[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                m.assigns[n.target.id] = n.value
            elif isinstance(n, (ast.If, ast.Try)):
                self._collect_body(m, n.body)
                for h in getattr(n, "handlers", []):
                    self._collect_body(m, h.body)
                self._collect_body(m, n.orelse)

    # -- names ---------------------------------------------------------------
    def canonical(self, q, seen=None):
        """Follow re-exports: irtorch.models.BaseIRTModel -> irtorch.models.base_irt_model.BaseIRTModel."""
        seen = seen or set()
        while q not in seen:
            seen.add(q)
            if q in self.functions or q in self.classes or q in self.modules:
                return q
            if "." not in q:
                return q
            mod, name = q.rsplit(".", 1)
            mod = self.canonical(mod, seen) if mod not in self.modules and mod not in self.classes else mod
            if mod in self.modules:
                m = self.modules[mod]
                if name in m.classes:
                    return m.classes[name].qual
                if name in m.functions:
                    return m.functions[name].qual
                if name in m.imports:
                    q = m.imports[name]
                    continue
                # star imports
                for n in m.tree.body:
                    if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
                        base = self.import_base(n, m, m.path.endswith("__init__.py"))
                        bm = self.modules.get(base)
                        if bm and (name in bm.classes or name in bm.functions or name in bm.imports):
                            return self.canonical(f"{base}.{name}", seen)
                return f"{mod}.{name}"
            return q
        return q

    def resolve_name(self, name, m):
        """Qualified name of a module-level name, or None."""
        if name in m.classes:
            return m.classes[name].qual
        if name in m.functions:
            return m.functions[name].qual
        if name in m.imports:
            return self.canonical(m.imports[name])
        if name in m.assigns:
            return f"{m.name}.{name}"
        return None

    def resolve_expr(self, e, m):
        if isinstance(e, ast.Name):
            return self.resolve_name(e.id, m)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value, m)
            return self.canonical(f"{b}.{e.attr}") if b else None
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.resolve_expr(ast.parse(e.value, mode="eval").body, m)
            except SyntaxError:
                return None
        if isinstance(e, ast.Subscript):
            return None
        return None

    def mro(self, q):
        if q in self._mro:
            return self._mro[q]
        c = self.classes.get(q)
        if c is None:
            return [q]
        seqs = [list(self.mro(b)) for b in c.bases] + [list(c.bases)]
        out = [q]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x != h] for s in seqs]
            seqs = [s for s in seqs if s]
        self._mro[q] = out
        return out

    def find_method(self, q, name, after=None):
        mro = self.mro(q)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for b in mro:
            c = self.classes.get(b)
            if c and name in c.methods:
                return c.methods[name]
        return None

    def find_class_attr(self, q, name):
        for b in self.mro(q):
            c = self.classes.get(b)
            if c and name in c.class_attrs:
                return c, c.class_attrs[name]
        return None

    def is_subclass(self, q, base):
        return base in self.mro(q)

    def overriders(self, q, name):
        """Concrete implementations of a method for receivers of class q or a subclass."""
        out = []
        for c in [q] + sorted(self.subclasses.get(q, ())):
            f = self.find_method(c, name)
            if f is not None and f not in out:
                out.append(f)
        return out

    def is_module_class(self, q):
        return any(b in ("torch.nn.Module", "torch.nn.modules.module.Module") for b in self.mro(q))

    def cls(self, name):
        """Class by short name; AnalysisBroken if it vanished."""
        r = [c for c in self.classes.values() if c.name == name]
        if not r:
            raise AnalysisBroken(f"class {name} not found")
        return r[0]

    def func(self, qual):
        f = self.functions.get(qual) or self.functions.get(self.canonical(qual))
        if f is None:
            raise AnalysisBroken(f"function {qual} not found")
        return f

    def method(self, cls, name):
        c = self.cls(cls)
        f = self.find_method(c.qual, name)
        if f is None:
            raise AnalysisBroken(f"method {cls}.{name} not found")
        return f


class AnalysisBroken(Exception):
    """An anchor vanished or the analysis cannot run: error exit, never a silent pass."""
