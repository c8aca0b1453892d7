"""Hash-consed terms: the value graph of the abstract interpreter."""

class Term:
    __slots__ = ("op", "args", "id", "loc", "_h")
    _table = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other


def T(op, *args, loc=None):
    key = (op, args)
    t = Term._table.get(key)
    if t is None:
        t = Term.__new__(Term)
        t.op = op
        t.args = args
        t.loc = loc
        Term._n += 1
        t.id = Term._n
        t._h = hash(("T", t.id))
        Term._table[key] = t
    elif t.loc is None and loc is not None:
        t.loc = loc
    return t


def const(v):
    return T("const", type(v).__name__, v if not isinstance(v, float) or v == v else "nan")


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t, v=...):
    if not isinstance(t, Term) or t.op != "const":
        return False
    if v is ...:
        return True
    return t.args[0] == type(v).__name__ and t.args[1] == v


def cval(t, default=None):
    """Python value of a constant term."""
    if isinstance(t, Term) and t.op == "const":
        if t.args[0] == "float" and t.args[1] == "nan":
            return float("nan")
        return t.args[1]
    return default


def intval(t):
    """int value of a constant (including negated constants), else None"""
    if isinstance(t, Term):
        if t.op == "const" and t.args[0] == "int":
            return t.args[1]
        if t.op == "un" and t.args[0] == "-" and intval(t.args[1]) is not None:
            return -intval(t.args[1])
    return None


def numval(t):
    if isinstance(t, Term):
        if t.op == "const" and t.args[0] in ("int", "float"):
            return cval(t)
        if t.op == "un" and t.args[0] == "-" and numval(t.args[1]) is not None:
            return -numval(t.args[1])
        if t.op == "global" and t.args[0] in ("torch.inf", "math.inf", "numpy.inf"):
            return float("inf")
        if t.op == "global" and t.args[0] in ("torch.nan", "math.nan", "numpy.nan"):
            return float("nan")
        if t.op == "call" and t.args[0] == "float" and t.args[1] and isinstance(cval(t.args[1][0]), str):
            try:
                return float(cval(t.args[1][0]))
            except ValueError:
                return None
    return None


def children(t):
    for a in t.args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            yield from _tuple_children(a)


def _tuple_children(a):
    for b in a:
        if isinstance(b, Term):
            yield b
        elif isinstance(b, tuple):
            yield from _tuple_children(b)


def walk(t, seen=None, enter=None):
    """All sub-terms (each once)."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if enter is not None and not enter(x):
            continue
        stack.extend(children(x))


def contains(t, sub):
    return any(x is sub for x in walk(t))


def subst(t, mapping, memo=None):
    """Replace sub-terms (dict Term -> Term)."""
    memo = {} if memo is None else memo

    def go(x):
        if x in mapping:
            return mapping[x]
        r = memo.get(x.id)
        if r is not None:
            return r
        memo[x.id] = x
        new = tuple(ga(a) for a in x.args)
        r = x if new == x.args else T(x.op, *new, loc=x.loc)
        memo[x.id] = r
        return r

    def ga(a):
        if isinstance(a, Term):
            return go(a)
        if isinstance(a, tuple):
            return tuple(ga(b) for b in a)
        return a
    return go(t)


def show(t, depth=6):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth == 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    o, a = t.op, t.args
    if o == "const":
        return repr(a[1])
    if o == "param":
        return a[0]
    if o == "obj":
        return f"<{a[0].rsplit('.', 1)[-1]}>"
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o in ("global", "func", "class"):
        return a[0]
    if o == "bin":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == "un":
        return f"({a[0]}{s(a[1])})"
    if o == "cmp":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == "index":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "slice":
        return ":".join("" if is_const(x, None) else s(x) for x in a)
    if o in ("tuple", "list"):
        return ("(%s)" if o == "tuple" else "[%s]") % ", ".join(s(x) for x in a)
    if o == "meth":
        ar = [s(x) for x in a[2]] + [f"{k}={s(v)}" for k, v in a[3]]
        return f"{s(a[1])}.{a[0]}({', '.join(ar)})"
    if o == "call":
        ar = [s(x) for x in a[1]] + [f"{k}={s(v)}" for k, v in a[2]]
        return f"{a[0]}({', '.join(ar)})"
    if o in ("vcall", "rcall"):
        if o == "vcall":
            return f"{s(a[2])}.{a[1]}({', '.join(f'{k}={s(v)}' for k, v in a[3])})"
        return f"{a[0]}({', '.join(f'{k}={s(v)}' for k, v in a[1])})"
    if o == "phi":
        return f"φ({s(a[0])} ? {s(a[1])} : {s(a[2])})"
    return f"{o}({', '.join(s(x) for x in a)})"
