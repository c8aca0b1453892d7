"""Propositional consistency of path conditions (guards of one path that exclude each other)."""
from .terms import T, Term, is_const, cval, const, NONE


class Theory:
    """Atoms are conditions; equalities of one term with different constants exclude each other."""

    def __init__(self, interp=None, limit=16, oracle=None):
        self.interp = interp
        self.limit = limit
        self.oracle = oracle     # known truth of some atoms under a hypothesis

    def lower(self, c):
        """condition term -> nested ('and'|'or'|'not'|'atom'|True|False)"""
        if is_const(c):
            return bool(cval(c))
        if self.oracle is not None:
            v = self.oracle(c)
            if v is not None:
                return v
        if c.op == "not":
            return self.negate(self.lower(c.args[0]))
        if c.op == "bool":
            xs = [self.lower(x) for x in c.args[1]]
            return (c.args[0], xs)
        if c.op == "cmp":
            op, a, b = c.args
            if op == "in" and b.op in ("list", "tuple", "set") and all(is_const(x) for x in b.args[0]):
                return ("or", [self.eq(a, x) for x in b.args[0]])
            if op in ("==", "is") and is_const(b):
                return self.eq(a, b)
            return ("atom", c)
        if c.op == "phi":
            x = self.lower(c.args[0])
            return ("or", [("and", [x, self.lower(c.args[1])]), ("and", [self.negate(x), self.lower(c.args[2])])])
        return ("atom", c)

    def eq(self, a, k, depth=0):
        if is_const(a):
            va, vk = cval(a), cval(k)
            return type(va) is type(vk) and va == vk if isinstance(va, (str, bool, type(None))) or isinstance(vk, (str, bool, type(None))) else va == vk
        if a.op == "phi" and depth < 8:
            x = self.lower(a.args[0])
            return ("or", [("and", [x, self.eq(a.args[1], k, depth + 1)]), ("and", [self.negate(x), self.eq(a.args[2], k, depth + 1)])])
        if is_const(k, None) and self.interp is not None and self.interp.nonnone(a):
            return False
        return ("eq", a, k)

    @staticmethod
    def negate(f):
        if isinstance(f, bool):
            return not f
        if f[0] == "not":
            return f[1]
        return ("not", f)

    def atoms(self, f, out):
        if isinstance(f, bool):
            return
        if f[0] == "not":
            return self.atoms(f[1], out)
        if f[0] in ("and", "or"):
            for x in f[1]:
                self.atoms(x, out)
            return
        if f not in out:
            out.append(f)

    def ev(self, f, asg):
        """three-valued"""
        if isinstance(f, bool):
            return f
        if f[0] == "not":
            v = self.ev(f[1], asg)
            return None if v is None else not v
        if f[0] in ("and", "or"):
            res = f[0] == "and"
            unk = False
            for x in f[1]:
                v = self.ev(x, asg)
                if v is None:
                    unk = True
                elif v != (f[0] == "and"):
                    return f[0] != "and"
            return None if unk else res
        return asg.get(f)

    def consistent(self, conds):
        """False only when the conditions exclude each other; None when too large to decide."""
        fs = []
        for c, p in conds:
            f = self.lower(c)
            fs.append(f if p else self.negate(f))
        if any(f is False for f in fs):
            return False
        at = []
        for f in fs:
            self.atoms(f, at)
        if len(at) > self.limit:
            return None
        return self._search(fs, at, 0, {})

    def _search(self, fs, at, i, asg):
        for f in fs:
            if self.ev(f, asg) is False:
                return False
        if i == len(at):
            return self.theory_ok(asg)
        a = at[i]
        for v in (True, False):
            if v and a[0] == "eq" and any(b[0] == "eq" and b[1] is a[1] and b[2] is not a[2] and w for b, w in asg.items()):
                continue
            asg[a] = v
            if self._search(fs, at, i + 1, asg):
                return True
            del asg[a]
        return False

    def theory_ok(self, asg):
        """hasattr facts about one object must hold together in some class of the library"""
        I = self.interp
        if I is None:
            return True
        by = {}
        for a, v in asg.items():
            if a[0] == "atom" and a[1].op == "call" and a[1].args[0] == "hasattr" and is_const(a[1].args[1][1]):
                by.setdefault(a[1].args[1][0], []).append((cval(a[1].args[1][1]), v))
        for o, lst in by.items():
            t = I.typeof(o)
            if not t:
                continue
            cand = [t[0]] + ([] if t[1] else sorted(I.p.subclasses.get(t[0], ())))
            cand = [c for c in cand if not is_abstract(I.p, c)] or cand
            if not any(all(I.has_attr(c, n) == v for n, v in lst) for c in cand):
                return False
        return True


def is_abstract(p, q):
    names = set()
    for b in p.mro(q):
        c = p.classes.get(b)
        if c:
            names |= set(c.methods)
    for n in names:
        f = p.find_method(q, n)
        if f is not None and f.is_abstract:
            return True
    c = p.classes.get(q)
    return c is not None and c.name.startswith("Base")


def leaf_paths(t, want, conds=(), depth=0, out=None):
    """Condition lists under which the joined value t is a leaf satisfying want."""
    out = [] if out is None else out
    if len(out) > 64:
        return out
    if t.op == "phi" and depth < 24:
        leaf_paths(t.args[1], want, conds + ((t.args[0], True),), depth + 1, out)
        leaf_paths(t.args[2], want, conds + ((t.args[0], False),), depth + 1, out)
    elif want(t):
        out.append((conds, t))
    return out


def leaves(t, depth=0):
    if t.op == "phi" and depth < 40:
        yield from leaves(t.args[1], depth + 1)
        yield from leaves(t.args[2], depth + 1)
    else:
        yield t
