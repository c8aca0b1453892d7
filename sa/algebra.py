"""Normal form of elementwise arithmetic: quotients of multivariate polynomials over opaque atoms.

Used to compare two formulas the way a compiler's value numbering would, and to differentiate one by rule.
Shapes and broadcasting are left to the alignment rules; steps that only change shape, dtype or device are skipped.
"""
from fractions import Fraction
from .terms import T, Term, is_const, cval, numval, show, walk

SKIP = {"clone", "detach", "contiguous", "requires_grad_", "detach_", "float", "double", "to", "cpu", "reshape", "unsqueeze", "squeeze", "expand", "expand_as", "view_as",
        "type_as", "numpy", "item", "cuda", "retain_grad", "flatten", "repeat"}
FUNS = {"exp", "log", "sqrt", "sigmoid", "tanh", "softplus", "abs", "sign", "log1p", "expm1", "log2", "log10", "elu", "relu", "sin", "cos"}


class Unknown(Exception):
    pass


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(m, n):
    d = dict(m)
    for k, e in n:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


def pmul(a, b):
    r = {}
    if len(a) * len(b) > 20000:
        raise Unknown("too large")
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    return r


ONE = {(): Fraction(1)}


def pkey(p):
    return tuple(sorted(p.items()))


def pdivide(a, b):
    """Exact quotient of polynomials, or None."""
    if len(b) == 1:
        (m, c), = b.items()
        inv = tuple((k, -e) for k, e in m)
        r = {}
        for n, v in a.items():
            k = mmul(n, inv)
            if any(e < 0 for _, e in k):
                return None
            r[k] = v / c
        return r
    if len(a) < len(b):
        return None
    ids = sorted({k for p in (a, b) for m in p for k, _ in m})
    pos = {k: i for i, k in enumerate(ids)}

    def vec(m):
        v = [0] * len(ids)
        for k, e in m:
            v[pos[k]] = e
        return tuple(v)
    A = {vec(m): c for m, c in a.items()}
    B = {vec(m): c for m, c in b.items()}
    # degrees must allow division
    for i in range(len(ids)):
        if max(v[i] for v in A) < max(v[i] for v in B):
            return None
    lb = max(B)
    cb = B[lb]
    q = {}
    n = 0
    while A:
        n += 1
        if n > 3000:
            return None
        la = max(A)
        d = tuple(x - y for x, y in zip(la, lb))
        if any(x < 0 for x in d):
            return None
        c = A[la] / cb
        q[d] = c
        for v, w in B.items():
            k = tuple(x + y for x, y in zip(v, d))
            z = A.get(k, 0) - c * w
            if z:
                A[k] = z
            else:
                A.pop(k, None)
    return {tuple((k, e) for k, e in zip(ids, v) if e): c for v, c in q.items()}


def content(p):
    """(coefficient, monomial, primitive polynomial)"""
    common = None
    for m in p:
        mm = dict(m)
        common = mm if common is None else {k: min(e, mm[k]) for k, e in common.items() if k in mm}
    mono = tuple(sorted((k, e) for k, e in (common or {}).items() if e > 0))
    inv = tuple((k, -e) for k, e in mono)
    q = {mmul(m, inv): c for m, c in p.items()} if mono else p
    lead = q[max(q)]
    if lead != 1:
        q = {m: c / lead for m, c in q.items()}
    return lead, mono, q


class Q:
    """Numerator polynomial over a factored denominator."""
    __slots__ = ("n", "f", "_d")

    def __init__(self, n, d=None, f=None):
        self._d = None
        self.f = {}
        self.n = n
        if f is not None:
            self.f = f
        elif d is not None and d != ONE:
            lead, mono, prim = content(d)
            if lead != 1:
                self.n = {m: c / lead for m, c in n.items()}
            for k, e in mono:
                self.f[pkey({((k, 1),): Fraction(1)})] = e
            if prim != ONE:
                self.f[pkey(prim)] = 1
        self.simplify()

    @property
    def d(self):
        if self._d is None:
            d = ONE
            for k, e in self.f.items():
                for _ in range(e):
                    d = pmul(d, dict(k))
            self._d = d
        return self._d

    def simplify(self):
        if not self.n:
            self.f = {}
            return
        neg = {}
        for m in self.n:
            for k, e in m:
                if e < 0:
                    neg[k] = min(neg.get(k, 0), e)
        if neg:
            sh = tuple(sorted((k, -e) for k, e in neg.items()))
            self.n = {mmul(m, sh): c for m, c in self.n.items()}
            for k, e in neg.items():
                kk = pkey({((k, 1),): Fraction(1)})
                self.f[kk] = self.f.get(kk, 0) - e
        for k in list(self.f):
            p = dict(k)
            while self.f[k] > 0:
                q = pdivide(self.n, p)
                if q is None:
                    break
                self.n = q
                self.f[k] -= 1
            if self.f[k] == 0:
                del self.f[k]

    def lift(self, f):
        """Numerator over the larger factored denominator f."""
        n = self.n
        for k, e in f.items():
            for _ in range(e - self.f.get(k, 0)):
                n = pmul(n, dict(k))
        return n

    def __add__(self, o):
        f = dict(self.f)
        for k, e in o.f.items():
            f[k] = max(f.get(k, 0), e)
        return Q(padd(self.lift(f), o.lift(f)), f=f)

    def __sub__(self, o):
        return self + o * num(-1)

    def __mul__(self, o):
        f = dict(self.f)
        for k, e in o.f.items():
            f[k] = f.get(k, 0) + e
        # cancel whole factors first
        a, b = self.n, o.n
        for k in list(f):
            p = dict(k)
            for w in (0, 1):
                while f.get(k, 0) > 0:
                    q = pdivide(a if w == 0 else b, p) if len(a if w == 0 else b) else None
                    if q is None:
                        break
                    if w == 0:
                        a = q
                    else:
                        b = q
                    f[k] -= 1
            if f.get(k) == 0:
                del f[k]
        return Q(pmul(a, b), f=f)

    def inv(self):
        if not self.n:
            raise Unknown("division by zero")
        lead, mono, prim = content(self.n)
        n = {(): 1 / lead}
        for k, e in self.f.items():
            for _ in range(e):
                n = pmul(n, dict(k))
        f = {pkey({((k, 1),): Fraction(1)}): e for k, e in mono}
        if prim != ONE:
            f[pkey(prim)] = f.get(pkey(prim), 0) + 1
        return Q(n, f=f)

    def __truediv__(self, o):
        return self * o.inv()

    def __pow__(self, k):
        if k < 0:
            return self.inv() ** -k
        r = num(1)
        for _ in range(k):
            r = r * self
        return r

    def eq(self, o):
        f = dict(self.f)
        for k, e in o.f.items():
            f[k] = max(f.get(k, 0), e)
        return not padd(self.lift(f), o.lift(f), -1)

    def is_zero(self):
        return not self.n

    def const(self):
        if not self.n:
            return Fraction(0)
        if set(self.n) == {()} and not self.f:
            return self.n[()]
        return None


def num(v):
    f = Fraction(v)
    return Q({(): f} if f else {})


class Alg:
    def __init__(self, cases=None, hook=None, signed=None, skip=SKIP):
        self.cases = cases or {}       # condition term -> bool
        self.hook = hook               # term -> Q | term | None, tried first
        self.atoms = []                # id -> ("term", Term) | ("fn", name, Q, extra)
        self.ids = {}
        self.fns = {}                  # name -> [(Q, extra, id)]
        self.signed = signed           # Term -> bool: entries are all +1 or -1
        self.memo = {}
        self.skip = skip

    # ---------------------------------------------------------------- atoms
    def atom(self, t):
        i = self.ids.get(t)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(("term", t))
            self.ids[t] = i
        return Q({((i, 1),): Fraction(1)})

    def fn(self, name, q, extra=()):
        c = q.const()
        if c is not None:
            if name == "exp" and c == 0:
                return num(1)
            if name in ("log", "log2", "log10") and c == 1:
                return num(0)
            if name in ("sqrt",) and c in (0, 1):
                return num(c)
            if name == "abs":
                return num(abs(c))
            if name == "sign":
                return num((c > 0) - (c < 0))
            if name == "expm1" and c == 0:
                return num(0)
        if name == "expm1":
            return self.fn("exp", q) - num(1)
        if name == "log1p":
            return self.fn("log", q + num(1))
        if name == "log2":
            return self.fn("log", q) / self.fn("log", num(2))
        if name == "log10":
            return self.fn("log", q) / self.fn("log", num(10))
        if name == "log":
            # log of a monomial quotient splits
            r = self.log_split(q)
            if r is not None:
                return r
            # log(exp(x)) = x
            a = self.single(q)
            if a is not None and a[0] == "fn" and a[1] == "exp":
                return a[2]
        if name == "exp":
            a = self.single(q)
            if a is not None and a[0] == "fn" and a[1] == "log":
                return a[2]
        for p, e, i in self.fns.setdefault(name, []):
            if e == extra and p.eq(q):
                return Q({((i, 1),): Fraction(1)})
        i = len(self.atoms)
        self.atoms.append(("fn", name, q, extra))
        self.fns[name].append((q, extra, i))
        r = Q({((i, 1),): Fraction(1)})
        return r

    def single(self, q):
        if q.d == ONE and len(q.n) == 1:
            (m, c), = q.n.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return self.atoms[m[0][0]]
        return None

    def log_split(self, q):
        if len(q.n) == 1 and len(q.d) == 1:
            (m, c), = q.n.items()
            (k, d), = q.d.items()
            parts = list(m) + [(a, -e) for a, e in k]
            cc = c / d
            if cc > 0 and (len(parts) + (cc != 1)) > 1 or len(parts) == 1 and parts[0][1] != 1 and cc > 0:
                r = num(0)
                if cc != 1:
                    for v, s in ((cc.numerator, 1), (cc.denominator, -1)):
                        if v != 1:
                            r = r + self.fn("log", num(v)) * num(s)
                for a, e in parts:
                    r = r + self.fn("log", Q({((a, 1),): Fraction(1)})) * num(e)
                return r
        elif len(q.d) == 1 and q.d != ONE or len(q.n) == 1 and q.n != ONE and q.d != ONE:
            return self.fn("log", Q(q.n)) - self.fn("log", Q(q.d))
        elif q.d != ONE:
            return self.fn("log", Q(q.n)) - self.fn("log", Q(q.d))
        return None

    # ---------------------------------------------------------------- conversion
    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.conv(t)
            self.memo[t] = r
        return r

    def case(self, c):
        if c in self.cases:
            return self.cases[c]
        if is_const(c):
            return bool(cval(c))
        if c.op in ("un", "not") and (c.op == "not" or c.args[0] == "~"):
            v = self.case(c.args[-1])
            return None if v is None else not v
        if c.op == "bin" and c.args[0] in ("&", "|") or c.op == "bool":
            xs = c.args[1] if c.op == "bool" else c.args[1:]
            isand = c.args[0] in ("&", "and")
            vs = [self.case(x) for x in xs]
            if isand:
                return False if False in vs else True if all(v is True for v in vs) else None
            return True if True in vs else False if all(v is False for v in vs) else None
        if c.op == "meth" and c.args[0] in ("bool", "float", "int", "long", "to", "clone", "detach"):
            return self.case(c.args[1])
        return None

    def conv(self, t):
        if self.hook is not None:
            h = self.hook(t, self)
            if isinstance(h, Q):
                return h
            if isinstance(h, Term):
                return self(h)
        v = numval(t)
        if v is not None and v == v and abs(v) != float("inf"):
            return num(Fraction(str(v)) if isinstance(v, float) else v)
        if is_const(t) and isinstance(cval(t), bool):
            return num(int(cval(t)))
        c = self.case(t) if t.op in ("cmp", "not", "bool") or t.op == "bin" and t.args[0] in ("&", "|") or t.op == "un" and t.args[0] == "~" else None
        if c is not None:
            return num(int(c))
        o, a = t.op, t.args
        if o == "bin":
            op = a[0]
            if op in ("+", "-", "*", "/"):
                x, y = self(a[1]), self(a[2])
                return x + y if op == "+" else x - y if op == "-" else self.mulred(x * y) if op == "*" else self.mulred(x / y)
            if op == "**":
                k = self(a[2]).const()
                if k is not None:
                    if k.denominator == 1 and abs(k) <= 12:
                        return self.mulred(self(a[1]) ** int(k))
                    if k == Fraction(1, 2):
                        return self.fn("sqrt", self(a[1]))
        if o == "un" and a[0] == "-":
            return self(a[1]) * num(-1)
        if o == "meth":
            n = a[0]
            if n in self.skip:
                return self(a[1])
            if n in FUNS and not a[2]:
                return self.fn(n, self(a[1]), tuple((k, v) for k, v in a[3] if k in ("beta", "alpha")))
            if n == "pow" and len(a[2]) == 1:
                return self(T("bin", "**", a[1], a[2][0]))
            if n == "reciprocal":
                return num(1) / self(a[1])
            if n == "rsqrt":
                return num(1) / self.fn("sqrt", self(a[1]))
        if o == "call":
            n = a[0].rsplit(".", 1)[-1]
            if a[0] in ("float", "int", "torch.tensor", "torch.as_tensor", "numpy.array", "numpy.float32") and a[1]:
                return self(a[1][0])
            if n in FUNS and a[0].split(".")[0] in ("numpy", "math", "torch") and len(a[1]) == 1:
                return self.fn(n, self(a[1][0]))
            if n in ("ones", "ones_like") and a[0].startswith(("torch.", "numpy.")):
                return num(1)
            if n in ("zeros", "zeros_like") and a[0].startswith(("torch.", "numpy.")):
                return num(0)
            if n in ("full", "full_like") and len(a[1]) == 2:
                return self(a[1][1])
        if o == "inplace" and a[0] in ("requires_grad_", "detach_"):
            return self(a[1])
        if o == "where":
            v = self.case(a[0])
            if v is not None:
                return self(a[1] if v else a[2])
            x, y = self(a[1]), self(a[2])
            if x.eq(y):
                return x
        if o == "phi":
            v = self.case(a[0])
            if v is not None:
                return self(a[1] if v else a[2])
            x, y = self(a[1]), self(a[2])
            if x.eq(y):
                return x
        return self.atom(t)

    def mulred(self, q):
        """m*m = 1 for atoms whose entries are +1 or -1."""
        if self.signed is None:
            return q

        def red(p):
            r = {}
            for m, c in p.items():
                k = tuple((i, e % 2) if self.is_signed(i) else (i, e) for i, e in m)
                k = tuple((i, e) for i, e in k if e)
                r[k] = r.get(k, 0) + c
            return {m: c for m, c in r.items() if c}
        n, d = red(q.n), red(q.d)
        # 1/m = m
        if len(d) == 1:
            (m, c), = d.items()
            s = tuple(x for x in m if self.is_signed(x[0]))
            if s:
                n = red({mmul(k, s): v for k, v in n.items()})
                d = red({mmul(m, s): c})
        return Q(n, d)

    def is_signed(self, i):
        a = self.atoms[i]
        return a[0] == "term" and self.signed(a[1])

    # ---------------------------------------------------------------- derivative
    def diff(self, q, t):
        """d q / d t for the atom of term t (quotient rule; other term atoms are constants)."""
        i = self.ids.get(t)
        if i is None:
            return num(0)
        return self._dq(q, i, {})

    def _dq(self, q, i, memo):
        dn, dd = self._dp(q.n, i, memo), self._dp(q.d, i, memo)
        if dd.is_zero():
            return dn / Q(q.d)
        return (dn * Q(q.d) - Q(q.n) * dd) / (Q(q.d) * Q(q.d))

    def _dp(self, p, i, memo):
        r = num(0)
        for m, c in p.items():
            for j, (k, e) in enumerate(m):
                da = self._da(k, i, memo)
                if da.is_zero():
                    continue
                rest = tuple(x for x in m[:j] + m[j + 1:])
                if e != 1:
                    rest = mmul(rest, ((k, e - 1),))
                r = r + Q({rest: c * e}) * da
        return r

    def _da(self, k, i, memo):
        if k == i:
            return num(1)
        if k in memo:
            return memo[k]
        a = self.atoms[k]
        r = num(0)
        if a[0] == "fn":
            d = self._dq(a[2], i, memo)
            if not d.is_zero():
                me = Q({((k, 1),): Fraction(1)})
                n = a[1]
                if n == "exp":
                    f = me
                elif n == "log":
                    f = num(1) / a[2]
                elif n == "sqrt":
                    f = num(Fraction(1, 2)) / me
                elif n == "sigmoid":
                    f = me * (num(1) - me)
                elif n == "tanh":
                    f = num(1) - me * me
                elif n == "softplus" and not a[3]:
                    f = self.fn("sigmoid", a[2])
                elif n == "abs":
                    f = self.fn("sign", a[2])
                elif n == "sign":
                    f = num(0)
                elif n == "sin":
                    f = self.fn("cos", a[2])
                elif n == "cos":
                    f = self.fn("sin", a[2]) * num(-1)
                else:
                    raise Unknown(f"derivative of {n}")
                r = f * d
        elif any(self.ids.get(x) == i for x in walk(a[1])):
            raise Unknown(f"derivative through {show(a[1])[:80]}")
        memo[k] = r
        return r

    def show(self, q):
        def sp(p):
            out = []
            for m, c in sorted(p.items(), key=lambda x: (len(x[0]), x[0])):
                f = [self.sa(k) + (f"^{e}" if e != 1 else "") for k, e in m]
                if c != 1 or not f:
                    f.insert(0, str(c))
                out.append("*".join(f))
            return " + ".join(out) or "0"
        return sp(q.n) if q.d == ONE else f"({sp(q.n)}) / ({sp(q.d)})"

    def sa(self, k):
        a = self.atoms[k]
        return show(a[1], 4) if a[0] == "term" else f"{a[1]}({self.show(a[2])})"

    def free(self, q):
        """Term atoms of q (through functions)."""
        out, todo, seen = [], [q], set()
        while todo:
            x = todo.pop()
            for p in (x.n, x.d):
                for m in p:
                    for k, _ in m:
                        if k in seen:
                            continue
                        seen.add(k)
                        a = self.atoms[k]
                        if a[0] == "term":
                            out.append(a[1])
                        else:
                            todo.append(a[2])
        return out


def psqrt(p):
    """Polynomial r with r*r = p, or None."""
    if not p:
        return {}
    ids = sorted({k for m in p for k, _ in m})

    def key(m):
        d = dict(m)
        return tuple(d.get(i, 0) for i in ids)
    lead = max(p, key=key)
    c = p[lead]
    if c <= 0 or any(e % 2 for _, e in lead):
        return None
    n, d = c.numerator, c.denominator
    rn, rd = int(round(n ** 0.5)), int(round(d ** 0.5))
    if rn * rn != n or rd * rd != d:
        return None
    lm, lc = tuple((k, e // 2) for k, e in lead), Fraction(rn, rd)
    r = {lm: lc}
    for _ in range(400):
        rest = padd(p, pmul(r, r), -1)
        if not rest:
            return r
        m = max(rest, key=key)
        q = mmul(m, tuple((k, -e) for k, e in lm))
        if any(e < 0 for _, e in q) or key(q) >= key(lm):
            return None
        r[q] = rest[m] / (2 * lc)
    return None


def explog(A, q):
    """Product of powers whose logarithm q is (q must be an integer combination of logarithms), else None."""
    if q.d != ONE:
        return None
    r = num(1)
    for m, c in q.n.items():
        if len(m) != 1 or m[0][1] != 1 or c.denominator != 1:
            return None
        a = A.atoms[m[0][0]]
        if a[0] != "fn" or a[1] != "log":
            return None
        r = r * a[2] ** int(c)
    return r


def valueset(t, assume=None, depth=0):
    """Finite set of values the entries of t can take, or None."""
    if depth > 30:
        return None
    rec = lambda x: valueset(x, assume, depth + 1)
    v = numval(t)
    if v is not None:
        return frozenset([v])
    if is_const(t) and isinstance(cval(t), bool):
        return frozenset([int(cval(t))])
    o, a = t.op, t.args
    if assume is not None:
        r = assume(t)
        if r is not None:
            return r
    if o in ("cmp", "not", "bool"):
        return frozenset([0, 1])
    if o == "meth" and a[0] in SKIP | {"int", "long", "float", "bool", "t", "repeat_interleave", "transpose", "diag_embed"}:
        s = rec(a[1])
        if a[0] == "diag_embed":
            return None if s is None else s | {0}
        return s
    if o == "meth" and a[0] == "sign":
        return frozenset([-1, 0, 1])
    if o == "call" and a[0] in ("torch.tensor", "torch.as_tensor", "torch.FloatTensor") and a[1]:
        return rec(a[1][0])
    if o == "call" and a[0] in ("torch.ones", "torch.ones_like"):
        return frozenset([1])
    if o == "call" and a[0] in ("torch.zeros", "torch.zeros_like"):
        return frozenset([0])
    if o == "call" and a[0] in ("torch.full", "torch.full_like") and len(a[1]) > 1:
        return rec(a[1][1])
    if o in ("list", "tuple"):
        r = frozenset()
        for x in a[0]:
            s = rec(x)
            if s is None:
                return None
            r |= s
        return r
    if o == "un" and a[0] == "-":
        s = rec(a[1])
        return None if s is None else frozenset(-x for x in s)
    if o == "un" and a[0] == "~":
        s = rec(a[1])
        return frozenset(1 - x for x in s) if s is not None and s <= {0, 1} else None
    if o == "bin" and a[0] in ("+", "-", "*", "/"):
        x, y = rec(a[1]), rec(a[2])
        if a[0] == "*" and x is not None and y is None and x == {0}:
            return x
        if x is None or y is None or len(x) * len(y) > 64 or a[0] == "/" and 0 in y:
            return None
        f = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "/": lambda p, q: p / q}[a[0]]
        return frozenset(f(p, q) for p in x for q in y)
    if o in ("phi", "where"):
        x, y = rec(a[1]), rec(a[2])
        if x is None or y is None:
            return None
        r = x | y
        c = a[0]
        # where(x == v, y, x): v does not survive
        for ct, br, other in ((c, a[2], y), (T("not", c), a[1], x)):
            if ct.op == "cmp" and ct.args[0] == "==" and ct.args[1] is br and numval(ct.args[2]) is not None:
                keep = rec(br)
                if keep is not None:
                    keep = keep - {numval(ct.args[2])}
                    r = keep | (x if br is a[2] else y)
        return r
    if o == "setitem":
        b, i, v = a[0], a[1], a[2]
        x, y = rec(b), rec(v)
        if x is None or y is None:
            return None
        if i.op == "cmp" and i.args[0] == "==" and i.args[1] is b and numval(i.args[2]) is not None:
            x = x - {numval(i.args[2])}
        return x | y
    if o == "listof":
        return rec(a[0])
    return None
