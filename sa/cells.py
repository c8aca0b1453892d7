"""Tensors whose cells are abstract values.

A cell is a number that the configuration fixes, an infinity, a polynomial over atoms (parameters, latent scores and functions of
polynomials) or None (nothing known).  Polynomials are kept in a normal form, so that equal values have equal representations.
"""
import math
from fractions import Fraction

INF = float("inf")
LIMIT = 1500


class Unknown(Exception):
    """an operation the domain has no transfer function for"""


class Illshaped(Unknown):
    """an operation on tensors whose shapes do not fit together"""


# ---------------------------------------------------------------------------------------------------------------- atoms
class Atoms:
    table, items, bits = {}, [], set()

    @classmethod
    def of(cls, *key):
        i = cls.table.get(key)
        if i is None:
            i = len(cls.items)
            cls.table[key] = i
            cls.items.append(key)
            if key[0] == "ind":
                cls.bits.add(i)
        return i


# functions of one value: (lower bound, upper bound, direction)
FN = {"softplus": (0.0, INF, 1), "elu": (-1.0, INF, 1), "tanh": (-1.0, 1.0, 1), "relu": (0.0, INF, 1), "sigmoid": (0.0, 1.0, 1), "abs": (0.0, INF, 0),
      "leaky_relu": (-INF, INF, 1), "logsigmoid": (-INF, 0.0, 1), "log": (-INF, INF, 1), "sqrt": (0.0, INF, 1), "log1p": (-INF, INF, 1), "softsign": (-1.0, 1.0, 1),
      "silu": (-0.3, INF, 0), "gelu": (-0.2, INF, 0), "cos": (-1.0, 1.0, 0), "sin": (-1.0, 1.0, 0), "sign": (-1.0, 1.0, 1), "atan": (-2.0, 2.0, 1), "erf": (-1.0, 1.0, 1), "selu": (-2.0, INF, 1), "celu": (-1.0, INF, 1)}


class Poly:
    __slots__ = ("m", "h", "_deps", "__weakref__")
    table = {}

    def __new__(cls, m):
        m = {k: v for k, v in m.items() if v}
        key = frozenset(m.items())
        p = cls.table.get(key)
        if p is None:
            p = object.__new__(cls)
            p.m, p.h, p._deps = m, hash(key), None
            cls.table[key] = p
        return p

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return text(self)


def atom(*key):
    return Poly({((Atoms.of(*key), 1),): Fraction(1)})


def poly(c):
    """a finite cell as a polynomial"""
    if isinstance(c, Poly):
        return c
    return Poly({(): Fraction(c)}) if c else Poly({})


def norm(p):
    """constant polynomials are numbers"""
    if not p.m:
        return 0
    if len(p.m) == 1 and () in p.m:
        v = p.m[()]
        return int(v) if v.denominator == 1 else v
    return p


def special(c):
    return isinstance(c, float) and (c != c or c in (INF, -INF))


def number(c):
    return isinstance(c, (bool, int, float, Fraction)) and not special(c)


def text(c, depth=3):
    if c is None:
        return "?"
    if isinstance(c, (bool, int)):
        return str(c)
    if isinstance(c, (float, Fraction)):
        return f"{float(c):g}"
    out = []
    for mono, k in sorted(c.m.items(), key=lambda kv: (len(kv[0]), kv[0]))[:6]:
        s = "*".join(atom_text(a, depth) + (f"^{e}" if e != 1 else "") for a, e in mono)
        out.append((s if k == 1 else f"{float(k):g}" + ("*" + s if s else "")) or f"{float(k):g}")
    return " + ".join(out) + (" + …" if len(c.m) > 6 else "")


def atom_text(a, depth=3):
    k = Atoms.items[a]
    if k[0] == "free":
        return f"{k[1]}[{k[2]}]"
    if k[0] == "theta":
        return f"θ[{k[1]},{k[2] + 1}]"
    if depth <= 0:
        return k[0]
    if k[0] == "fn":
        return f"{k[1]}({text(k[2], depth - 1)})"
    return f"{k[0]}({', '.join(text(x, depth - 1) if isinstance(x, (Poly, int, float, Fraction)) else str(x) for x in k[1:])})"


# ---------------------------------------------------------------------------------------------------------------- arithmetic
def add(a, b):
    if a is None or b is None:
        o = b if a is None else a
        return o if isinstance(o, float) and o != o else None
    if special(a) or special(b):
        if special(a) and special(b):
            return a if a == b else float("nan")
        return a if special(a) else b
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return tidy(a + b)
    p = dict(poly(a).m)
    for k, v in poly(b).m.items():
        p[k] = p.get(k, 0) + v
    return norm(Poly(p))


def tidy(v):
    return v


def neg(a):
    if a is None:
        return None
    if isinstance(a, Poly):
        return Poly({k: -v for k, v in a.m.items()})
    return -a


def mono_mul(x, y):
    d = dict(x)
    for a, e in y:
        d[a] = d.get(a, 0) + e
        if not d[a]:
            del d[a]
        elif a in Atoms.bits:
            d[a] = 1
    return tuple(sorted(d.items()))


def mul(a, b):
    if a is None or b is None:
        o = b if a is None else a
        return o if isinstance(o, float) and o != o else None
    if special(a) or special(b):
        s, o = (a, b) if special(a) else (b, a)
        if s != s:
            return s
        if special(o):
            return s * o
        if number(o):
            return float("nan") if o == 0 else s * (1 if o > 0 else -1)
        g = sign(o)
        return s if g == "+" else -s if g == "-" else None
    if not isinstance(a, Poly) and not isinstance(b, Poly):
        return a * b
    if not isinstance(a, Poly) and not a or not isinstance(b, Poly) and not b:
        return 0
    A, B = poly(a), poly(b)
    if len(A.m) * len(B.m) > LIMIT:
        return None
    p = {}
    for x, c in A.m.items():
        for y, d in B.m.items():
            k = mono_mul(x, y)
            p[k] = p.get(k, 0) + c * d
    return norm(Poly(p))


def power(a, n):
    if a is None or n is None:
        return None
    if number(a) and number(n):
        try:
            v = a ** n
            return v if isinstance(v, (int, float, Fraction)) else None
        except (ZeroDivisionError, OverflowError):
            return INF if a == 0 and n < 0 else None
    if isinstance(n, (int, float, Fraction)) and not special(n) and n == int(n) and not special(a):
        n = int(n)
        if n == 0:
            return 1
        if n < 0:
            return inv(power(a, -n))
        if n > 8:
            return None
        r = a
        for _ in range(n - 1):
            r = mul(r, a)
        return r
    if isinstance(n, (float, Fraction)) and n == 0.5:
        return fn("sqrt", a)
    return None


def content(p):
    """(common monomial with coefficient, primitive part) of a polynomial"""
    ms = list(p.m)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(common):
            e = min(common[a], d.get(a, 0)) if common[a] > 0 else (max(common[a], d.get(a, 0)) if d.get(a, 0) < 0 else 0)
            # the smallest exponent over all monomials, when all have it on the same side
            if e:
                common[a] = e
            else:
                del common[a]
    # negative exponents are cleared as well, so that the primitive part has none
    low = {}
    for m in ms:
        for a, e in m:
            low[a] = min(low.get(a, 0), e) if e < 0 else low.get(a, 0)
    for a, e in low.items():
        if e < 0:
            common[a] = e
    c = tuple(sorted(common.items()))
    lead = min(ms)
    k = p.m[lead]
    invc = tuple((a, -e) for a, e in c)
    return c, k, Poly({mono_mul(m, invc): v / k for m, v in p.m.items()})


def inv(a):
    if a is None:
        return None
    if special(a):
        return 0 if a == a else a
    if number(a):
        return INF if a == 0 else (Fraction(1) / Fraction(a) if not isinstance(a, float) else 1 / a)
    if len(a.m) == 1:
        (m, k), = a.m.items()
        # the reciprocal of a reciprocal atom is the polynomial itself
        out = Poly({tuple((x, -e) for x, e in m): 1 / k})
        return clear(out)
    c, k, prim = content(a)
    rec = atom("inv", prim)
    return mul(Poly({tuple((x, -e) for x, e in c): 1 / k}), rec)


def clear(p):
    """negative powers of reciprocal atoms are powers of the polynomial"""
    if len(p.m) != 1:
        return norm(p)
    (m, k), = p.m.items()
    out = Poly({tuple((a, e) for a, e in m if not (Atoms.items[a][0] == "inv" and e < 0)): k})
    r = norm(out)
    for a, e in m:
        if Atoms.items[a][0] == "inv" and e < 0:
            for _ in range(-e):
                r = mul(r, Atoms.items[a][1])
    return r


def div(a, b):
    return mul(a, inv(b))


def exp(a):
    if a is None:
        return None
    if special(a):
        return INF if a == INF else 0 if a == -INF else a
    if number(a):
        if a == 0:
            return 1
        return Poly({((Atoms.of("exp", poly(1)), int(a)),): Fraction(1)}) if a == int(a) and abs(a) < 50 else atom("exp", poly(a))
    r = {}
    rest = 1
    for m, k in a.m.items():
        if m == ():
            rest = mul(rest, exp(norm(Poly({m: k}))))
        elif k.denominator == 1 and len(m) == 1 and m[0][1] == 1 and Atoms.items[m[0][0]][:2] == ("fn", "log") and abs(k) < 9:
            rest = mul(rest, power(norm(Atoms.items[m[0][0]][2]), int(k)))
        elif k.denominator == 1:
            key = Atoms.of("exp", Poly({m: Fraction(1)}))
            r[key] = r.get(key, 0) + int(k)
        else:
            key = Atoms.of("exp", Poly({m: Fraction(1, k.denominator)}))
            r[key] = r.get(key, 0) + k.numerator
    return mul(Poly({tuple(sorted((x, e) for x, e in r.items() if e)): Fraction(1)}), rest)


def log(a):
    if a is None or special(a):
        return a if a is None or a == INF or a != a else float("nan")
    if number(a):
        return -INF if a == 0 else math.log(a) if a > 0 else float("nan")
    # log of a product of factors that cannot be negative is the sum of their logs
    if len(a.m) == 1:
        (m, k), = a.m.items()
        prim = None
    else:
        m, k, prim = content(a)
    if k > 0 and all(Atoms.items[x][0] == "exp" or atom_range(x)[0] >= 0 for x, _ in m) and (prim is None or m or k != 1) and not (prim is None and len(m) == 1 and m[0][1] == 1 and Atoms.items[m[0][0]][0] not in ("exp", "inv")):
        r = math.log(k) if k != 1 else 0
        for x, e in m:
            it = Atoms.items[x]
            r = add(r, mul(norm(it[1]) if it[0] == "exp" else neg(log(norm(it[1]))) if it[0] == "inv" else fn("log", norm(Poly({((x, 1),): Fraction(1)}))), e))
        return r if prim is None else add(r, fn("log", prim))
    return fn("log", a)


def fn(name, a):
    """a function of one value"""
    if a is None:
        return None
    if special(a):
        if a != a:
            return a
        lo, hi, d = FN.get(name, (-INF, INF, 0))
        if d == 1 and name != "log":
            return hi if a > 0 else (0 if name in ("softplus", "sigmoid", "relu") else lo if lo != -INF else -INF)
        return None
    if number(a):
        v = NUM.get(name)
        if v is None:
            return None
        try:
            return v(a)
        except (ValueError, OverflowError):
            return None
    if name == "sigmoid":
        # sigmoid(-x) is 1 - sigmoid(x)
        if a.m[min(a.m)] < 0:
            return add(1, neg(atom("fn", "sigmoid", neg(a))))
    if name == "tanh" and a.m[min(a.m)] < 0:
        return neg(atom("fn", "tanh", neg(a)))
    return atom("fn", name, a)


NUM = {"sigmoid": lambda x: 1 / (1 + math.exp(-x)), "tanh": math.tanh, "softplus": lambda x: math.log1p(math.exp(x)), "relu": lambda x: max(x, 0), "abs": abs, "sqrt": lambda x: math.sqrt(x),
       "elu": lambda x: x if x > 0 else math.expm1(x), "sign": lambda x: (x > 0) - (x < 0), "log1p": math.log1p, "cos": math.cos, "sin": math.sin, "floor": math.floor, "ceil": math.ceil, "round": round,
       "logit": lambda x: math.log(x / (1 - x)), "trunc": math.trunc}


# ---------------------------------------------------------------------------------------------------------------- facts
def deps(c):
    """ids of the basic atoms a cell is computed from"""
    if not isinstance(c, Poly):
        return frozenset()
    if c._deps is None:
        out = set()
        for m in c.m:
            for a, _ in m:
                out |= atom_deps(a)
        c._deps = frozenset(out)
    return c._deps


def atom_deps(a):
    k = Atoms.items[a]
    if k[0] in ("free", "theta", "prob", "out", "junk", "rand"):
        return {a}
    out = set()
    for x in k[2] if k[0] == "arg" else k[1] if k[0] in ("max", "min") else (k[1],) + k[2] if k[0] == "pick" else k[1:]:
        out |= deps(x) if isinstance(x, Poly) else set()
    return out


def atom_range(a):
    """(lower, upper) bounds of an atom"""
    k = Atoms.items[a]
    if k[0] == "exp":
        lo, hi = bounds(k[1])
        return (1.0 if lo >= 0 else 0.0), (1.0 if hi <= 0 else INF)
    if k[0] == "fn":
        return FN.get(k[1], (-INF, INF, 0))[:2]
    if k[0] in ("basis", "ind", "prob"):
        return 0.0, 1.0
    if k[0] == "arg":
        return 0.0, float(len(k[2]) - 1)
    if k[0] == "rand":
        return 0.0, float(k[3] - 1)
    if k[0] == "pick":
        bs = [bounds(x) for x in k[2]]
        return min(b[0] for b in bs), max(b[1] for b in bs)
    if k[0] in ("max", "min"):
        bs = [bounds(x) for x in k[1]]
        f = max if k[0] == "max" else min
        return f(b[0] for b in bs), f(b[1] for b in bs)
    if k[0] == "inv":
        lo, hi = bounds(k[1])
        if lo > 0 or lo == 0:
            return 0.0, (1 / lo if lo > 0 else INF)
        if hi < 0:
            return -INF, 0.0
    return -INF, INF


def mono_range(m):
    lo, hi = 1.0, 1.0
    for a, e in m:
        l, h = atom_range(a)
        if e < 0:
            if l >= 0:
                l, h = (1 / h if h else INF) if h != INF else 0.0, (1 / l if l else INF)
            else:
                return -INF, INF
            e = -e
        if e % 2 == 0 and l < 0:
            l, h = 0.0, max(abs(l), abs(h)) ** e if INF not in (abs(l), abs(h)) else INF
        elif e > 1:
            l, h = l ** e, h ** e
        c = [times(x, y) for x in (lo, hi) for y in (l, h)]
        lo, hi = min(c), max(c)
    return lo, hi


def times(x, y):
    return 0.0 if x == 0 or y == 0 else x * y


def bounds(c):
    """interval that holds all values of a finite cell"""
    if c is None:
        return -INF, INF
    if not isinstance(c, Poly):
        return c, c
    lo = hi = 0.0
    for m, k in c.m.items():
        l, h = mono_range(m)
        k = float(k)
        l, h = (times(k, l), times(k, h)) if k > 0 else (times(k, h), times(k, l))
        lo, hi = lo + l, hi + h
    if lo < 0 and len(c.m) <= 16:
        v = vertices(c)
        if v is not None:
            lo, hi = max(lo, v[0]), min(hi, v[1])
    if lo < 0 < hi and len(c.m) > 1:
        m, k, prim = content(c)
        if m:
            l, h = mono_range(m)
            u, v = bounds(prim)
            ends = [times(x, y) * float(k) if times(x, y) else 0.0 for x in (l, h) for y in (u, v)]
            lo, hi = max(lo, min(ends)), min(hi, max(ends))
    return lo, hi


def vertices(p):
    """bounds of a polynomial of degree one in each of a few atoms between zero and one"""
    at = set()
    for m in p.m:
        for a, e in m:
            l, h = atom_range(a)
            if e != 1 or l < 0 or h > 1:
                return None
            at.add(a)
    at = sorted(at)
    if len(at) > 8:
        return None
    vals = []
    for s in range(2 ** len(at)):
        on = {a for i, a in enumerate(at) if s >> i & 1}
        vals.append(float(sum(k for m, k in p.m.items() if all(a in on for a, _ in m))))
    return min(vals), max(vals)


def sign(c):
    lo, hi = bounds(c)
    return "+" if lo >= 0 else "-" if hi <= 0 else "?"


def direction(c, th):
    """direction of a cell as a function of one latent score: 0 constant, 1 or -1, or None; free: sign-free factors in front of it"""
    if not isinstance(c, Poly):
        return 0, None
    if th not in deps(c):
        return 0, None
    total, lead = 0, None
    for m, k in c.m.items():
        inner = [(a, e) for a, e in m if th in atom_deps(a)]
        if not inner:
            continue
        outer = [(a, e) for a, e in m if th not in atom_deps(a)]
        s = 1 if k > 0 else -1
        f = None
        for a, e in outer:
            l, h = atom_range(a)
            if l >= 0 or e % 2 == 0:
                continue
            if h <= 0:
                s = -s
                continue
            if f is not None or e != 1:
                return None, None
            f = a
        d = mono_direction(inner, th)
        if d is None:
            return None, None
        if total and (d * s != total or f != lead):
            return None, None
        total, lead = d * s, f
    return total, lead


def mono_direction(inner, th):
    if len(inner) == 1:
        a, e = inner[0]
        d = atom_direction(a, th)
        if d is None:
            return None
        if e == 1:
            return d
        l, h = atom_range(a)
        if e < 0 and l >= 0:
            return -d
        return d if e % 2 == 1 or l >= 0 else None
    ds = set()
    for a, e in inner:
        d = atom_direction(a, th)
        if d is None or atom_range(a)[0] < 0:
            return None
        ds.add(d if e > 0 else -d)
    return ds.pop() if len(ds) == 1 else None


def atom_direction(a, th):
    k = Atoms.items[a]
    if a == th:
        return 1
    if k[0] == "exp":
        d, f = direction(k[1], th)
        return d if f is None else None
    if k[0] == "inv":
        d, f = direction(k[1], th)
        return -d if d is not None and f is None and bounds(k[1])[0] >= 0 else None
    if k[0] == "fn":
        g = FN.get(k[1], (0, 0, 0))[2]
        d, f = direction(k[2], th)
        return g * d if g and d is not None and f is None else None
    return None


def reduce(c):
    """reciprocal atoms are eliminated where they meet the polynomial they divide by"""
    for _ in range(60):
        if not isinstance(c, Poly):
            return c
        hit = None
        for m, k in c.m.items():
            for a, e in m:
                if e > 0 and Atoms.items[a][0] == "inv":
                    S = Atoms.items[a][1]
                    lead = max(S.m, key=lambda x: (sum(abs(e) for _, e in x), x))
                    d = dict(m)
                    if lead and all(d.get(x, 0) * (1 if y > 0 else -1) >= abs(y) for x, y in lead):
                        hit = (m, k, a, S, lead)
                        break
            if hit:
                break
        if not hit:
            return c
        m, k, a, S, lead = hit
        # m = q * lead * inv(S)  ->  q/c * (1 - (S - c*lead) * inv(S))
        q = mono_mul(mono_mul(m, tuple((x, -y) for x, y in lead)), ((a, -1),))
        cl = S.m[lead]
        rest = Poly({x: v for x, v in S.m.items() if x != lead})
        new = mul(Poly({q: k / cl}), add(1, neg(mul(norm(rest), Poly({((a, 1),): Fraction(1)})))))
        if new is None:
            return c
        c = add(add(c, neg(Poly({m: k}))), new)
    return c


# ---------------------------------------------------------------------------------------------------------------- arrays
def size(shape):
    n = 1
    for s in shape:
        n *= s
    return n


class Arr:
    __slots__ = ("shape", "c")

    def __init__(self, shape, c):
        self.shape, self.c = tuple(shape), list(c)
        if len(self.c) != size(self.shape):
            raise Unknown(f"{len(self.c)} cells for {self.shape}")
        if len(self.c) > 60000:
            raise Unknown("too many cells")

    @property
    def ndim(self):
        return len(self.shape)

    def isbool(self):
        return bool(self.c) and all(isinstance(x, bool) for x in self.c)

    def map(self, f):
        return Arr(self.shape, [f(x) for x in self.c])

    def item(self):
        if len(self.c) != 1:
            raise Unknown("item of several cells")
        return self.c[0]

    def __repr__(self):
        return f"Arr{self.shape}"


def arr(v):
    if isinstance(v, Arr):
        return v
    if v is None or isinstance(v, (bool, int, float, Fraction, Poly)):
        return Arr((), [v])
    if isinstance(v, (list, tuple)):
        xs = [arr(x) for x in v]
        if not xs:
            return Arr((0,), [])
        if any(x.shape != xs[0].shape for x in xs):
            raise Unknown("ragged")
        return Arr((len(xs),) + xs[0].shape, [c for x in xs for c in x.c])
    raise Unknown(f"no array: {type(v).__name__}")


def strides(shape):
    out, n = [], 1
    for s in reversed(shape):
        out.append(n)
        n *= s
    return out[::-1]


def coords(shape):
    if not shape:
        yield ()
        return
    idx = [0] * len(shape)
    for _ in range(size(shape)):
        yield tuple(idx)
        for k in range(len(shape) - 1, -1, -1):
            idx[k] += 1
            if idx[k] < shape[k]:
                break
            idx[k] = 0


def bshape(a, b):
    n = max(len(a), len(b))
    a, b = (1,) * (n - len(a)) + tuple(a), (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x != y and 1 not in (x, y):
            raise Illshaped(f"shapes {a} and {b} do not broadcast")
        out.append(y if x == 1 else x)
    return tuple(out)


def broadcast(a, shape):
    shape = tuple(shape)
    if a.shape == shape:
        return a
    n = len(shape)
    src = (1,) * (n - a.ndim) + a.shape
    for s, t in zip(src, shape):
        if s != 1 and s != t:
            raise Illshaped(f"shape {a.shape} does not broadcast to {shape}")
    st = strides(src)
    st = [0 if s == 1 else k for s, k in zip(src, st)]
    return Arr(shape, [a.c[sum(i * k for i, k in zip(x, st))] for x in coords(shape)])


def zipmap(f, a, b):
    a, b = arr(a), arr(b)
    s = bshape(a.shape, b.shape)
    a, b = broadcast(a, s), broadcast(b, s)
    return Arr(s, [f(x, y) for x, y in zip(a.c, b.c)])


def reshape(a, shape):
    shape = list(shape)
    if any(not isinstance(s, int) for s in shape):
        raise Unknown("shape")
    if -1 in shape:
        k = shape.index(-1)
        r = size([s for s in shape if s != -1])
        if not r or len(a.c) % r:
            raise Illshaped(f"reshape of {a.shape} to {tuple(shape)}")
        shape[k] = len(a.c) // r
    return Arr(shape, a.c)


def axis(a, d, extra=0):
    if not isinstance(d, int) or isinstance(d, bool):
        raise Unknown("axis")
    n = a.ndim + extra
    if not -n <= d < max(n, 1):
        raise Unknown(f"axis {d} of {a.shape}")
    return d % n if n else 0


def permute(a, order):
    order = [axis(a, k) for k in order]
    shape = [a.shape[k] for k in order]
    st = strides(a.shape)
    st = [st[k] for k in order]
    return Arr(shape, [a.c[sum(i * k for i, k in zip(x, st))] for x in coords(shape)])


def lanes(a, d):
    """(shape without axis d, list of the cells along d for every other position)"""
    d = axis(a, d)
    order = [k for k in range(a.ndim) if k != d] + [d]
    b = permute(a, order)
    n = a.shape[d]
    return b.shape[:-1], [b.c[i * n:(i + 1) * n] for i in range(size(b.shape[:-1]))]


def unlanes(shape, rows, d, ndim):
    """inverse of lanes"""
    n = len(rows[0]) if rows else 0
    b = Arr(tuple(shape) + (n,), [c for r in rows for c in r])
    order = list(range(ndim - 1))
    order.insert(d, ndim - 1)
    return permute(b, order)


def fold(f, a, d=None, keep=False):
    if d is None:
        r = Arr((), [f(a.c)])
        return reshape(r, (1,) * a.ndim) if keep else r
    if isinstance(d, (list, tuple)):
        for k in sorted((axis(a, x) for x in d), reverse=True):
            a = fold(f, a, k, keep)
        return a
    d = axis(a, d)
    s, rows = lanes(a, d)
    r = Arr(s, [f(x) for x in rows])
    return reshape(r, s[:d] + (1,) + s[d:]) if keep else r


def total(xs):
    r = 0
    for x in xs:
        r = add(r, x)
    return r


def product(xs):
    r = 1
    for x in xs:
        r = mul(r, x)
    return r


def scan(f, a, d, start=None):
    d = axis(a, d)
    s, rows = lanes(a, d)
    out = []
    for r in rows:
        acc, o = None, []
        for i, x in enumerate(r):
            acc = x if i == 0 else f(acc, x)
            o.append(acc)
        out.append(o)
    return unlanes(s, out, d, a.ndim)


def softmax_row(row):
    """exp(x) over the sum of exp over the row"""
    if any(x is None or special(x) and x != -INF for x in row):
        return [None] * len(row)
    live = [x for x in row if not special(x)]
    if not live:
        return [float("nan")] * len(row)
    if len(live) == 1:
        return [0 if special(x) else 1 for x in row]
    es = [0 if special(x) else exp(x) for x in row]
    t = inv(total(es))
    return [0 if special(x) else mul(e, t) for x, e in zip(row, es)]


def cat(xs, d):
    d = axis(xs[0], d)
    order = None
    rows = []
    for x in xs:
        s, r = lanes(x, d)
        if order is None:
            order, rows = s, [list(y) for y in r]
        else:
            if s != order:
                raise Unknown("cat")
            rows = [y + list(z) for y, z in zip(rows, r)]
    return unlanes(order, rows, d, xs[0].ndim)


def stack(xs, d):
    d = axis(xs[0], d, 1)
    return cat([unsqueeze(x, d) for x in xs], d)


def unsqueeze(a, d):
    d = axis(a, d, 1)
    return Arr(a.shape[:d] + (1,) + a.shape[d:], a.c)


def repeat_interleave(a, n, d=None):
    if d is None:
        a, d = Arr((len(a.c),), a.c), 0
    d = axis(a, d)
    s, rows = lanes(a, d)
    if isinstance(n, Arr) and n.ndim == 0:
        n = n.item()
    ns = [n] * a.shape[d] if isinstance(n, int) else [x for x in arr(n).c]
    if len(ns) != a.shape[d]:
        ns = ns * a.shape[d] if len(ns) == 1 else ns
    if any(not isinstance(x, int) for x in ns):
        raise Unknown("repeats")
    return unlanes(s, [[x for x, k in zip(r, ns) for _ in range(k)] for r in rows], d, a.ndim)


def tile(a, reps):
    reps = list(reps)
    a = Arr((1,) * (len(reps) - a.ndim) + a.shape, a.c)
    for d, n in enumerate(reps):
        if n != 1:
            a = cat([a] * n, d)
    return a


def matmul(a, b):
    if a.ndim == 1 and b.ndim == 1:
        return Arr((), [total(mul(x, y) for x, y in zip(a.c, b.c))])
    if a.ndim == 1:
        r = matmul(unsqueeze(a, 0), b)
        return reshape(r, r.shape[:-2] + r.shape[-1:])
    if b.ndim == 1:
        r = matmul(a, unsqueeze(b, 1))
        return reshape(r, r.shape[:-1])
    if a.ndim > 2 or b.ndim > 2:
        lead = bshape(a.shape[:-2], b.shape[:-2])
        a, b = broadcast(a, lead + a.shape[-2:]), broadcast(b, lead + b.shape[-2:])
        n, m = size(a.shape[-2:]), size(b.shape[-2:])
        parts = [matmul(Arr(a.shape[-2:], a.c[i * n:(i + 1) * n]), Arr(b.shape[-2:], b.c[i * m:(i + 1) * m])) for i in range(size(lead))]
        return Arr(lead + parts[0].shape, [c for p in parts for c in p.c])
    (n, k), (k2, m) = a.shape, b.shape
    if k != k2:
        raise Illshaped(f"matrix product of shapes {a.shape} and {b.shape}")
    return Arr((n, m), [total(mul(a.c[i * k + x], b.c[x * m + j]) for x in range(k)) for i in range(n) for j in range(m)])


def einsum(spec, xs):
    spec = spec.replace(" ", "")
    ins, out = (spec.split("->") + [None])[:2]
    ins = ins.split(",")
    if len(ins) != len(xs):
        raise Unknown("einsum")
    nell = max(x.ndim - len(s.replace("...", "")) for s, x in zip(ins, xs))
    ell = "αβγδε"[:nell]
    full = []
    for s, x in zip(ins, xs):
        if "..." in s:
            k = x.ndim - len(s.replace("...", ""))
            s = s.replace("...", ell[nell - k:])
        full.append(s)
    if out is None:
        out = ell + "".join(sorted(c for c in set("".join(ins).replace(".", "")) if sum(s.count(c) for s in ins) == 1))
    else:
        out = out.replace("...", ell)
    dims = {}
    for s, x in zip(full, xs):
        if len(s) != x.ndim:
            raise Unknown("einsum")
        for c, n in zip(s, x.shape):
            if dims.get(c, n) != n and 1 not in (n, dims[c]):
                raise Unknown("einsum")
            dims[c] = max(n, dims.get(c, 1))
    red = [c for c in dims if c not in out]
    st = [dict() for _ in xs]
    for d, s, x in zip(st, full, xs):
        for c, k, n in zip(s, strides(x.shape), x.shape):
            d[c] = d.get(c, 0) + (k if n > 1 else 0)
    oshape = [dims[c] for c in out]
    cells = []
    if size(oshape) * size([dims[c] for c in red]) > 400000:
        raise Unknown("einsum too large")
    rcoords = list(coords([dims[c] for c in red]))
    for o in coords(oshape):
        env = dict(zip(out, o))
        acc = 0
        for rc in rcoords:
            env.update(zip(red, rc))
            v = 1
            for x, d in zip(xs, st):
                v = mul(v, x.c[sum(env[c] * k for c, k in d.items())])
                if v is not None and not isinstance(v, Poly) and v == 0:
                    break
            acc = add(acc, v)
        cells.append(acc)
    return Arr(oshape, cells)


# ---------------------------------------------------------------------------------------------------------------- indexing
def select(shape, idx):
    """(shape, positions) of an index expression"""
    if not isinstance(idx, tuple):
        idx = (idx,)
    used = 0
    for i in idx:
        if i is None or i is Ellipsis:
            continue
        used += 0 if isinstance(i, bool) else i.ndim if isinstance(i, Arr) and i.isbool() else 1
    if any(i is Ellipsis for i in idx):
        k = [j for j, i in enumerate(idx) if i is Ellipsis][0]
        idx = idx[:k] + (slice(None),) * (len(shape) - used) + idx[k + 1:]
    else:
        idx = idx + (slice(None),) * (len(shape) - used)
    # every entry: ("s", list of positions) for slices, ("a", array of positions), ("n",) for new axes
    ent, d = [], 0
    for i in idx:
        if i is None:
            ent.append(("n", None, None))
            continue
        if d >= len(shape) and not (isinstance(i, bool) or isinstance(i, Arr) and i.isbool() and not i.ndim):
            raise Illshaped(f"more indices than the {len(shape)} axes")
        if isinstance(i, list):
            i = arr(i)
        if isinstance(i, bool):
            i = Arr((), [i])
        if isinstance(i, Arr) and i.isbool():
            if i.shape != tuple(shape[d:d + i.ndim]):
                raise Illshaped(f"mask of shape {i.shape} on axes of shape {tuple(shape[d:d + i.ndim])}")
            if not i.ndim:
                ent.append(("a", None, Arr((1 if i.c[0] else 0,), [0] if i.c[0] else [])))
                continue
            hits = [x for x, c in zip(coords(i.shape), i.c) if c]
            for k in range(i.ndim):
                ent.append(("a", d + k, Arr((len(hits),), [h[k] for h in hits])))
            d += i.ndim
            continue
        if isinstance(i, Arr):
            if any(not isinstance(c, int) or isinstance(c, bool) for c in i.c):
                if any(c is None for c in i.c) or not all(isinstance(c, (int, float)) and c == int(c) for c in i.c):
                    raise Unknown("index")
                i = i.map(int)
            ent.append(("a", d, i) if i.ndim else ("i", d, i.item()))
        elif isinstance(i, int):
            ent.append(("i", d, i))
        elif isinstance(i, slice):
            ent.append(("s", d, list(range(*i.indices(shape[d])))))
        elif isinstance(i, range):
            ent.append(("a", d, arr(list(i))))
        else:
            raise Unknown("index")
        d += 1
    ent = [e for e in ent if e[0] != "i"] + [e for e in ent if e[0] == "i"]      # torch selects before it looks at index tensors
    adv = [e for e in ent if e[0] == "a"]
    ash = ()
    for e in adv:
        ash = bshape(ash, e[2].shape)
    pos = [k for k, e in enumerate(ent) if e[0] == "a"]
    adjacent = not pos or pos == list(range(pos[0], pos[-1] + 1))
    st = strides(shape)
    axes, base = [], 0      # axes: (length, list of offsets)
    acells = [0] * size(ash)
    placed = None
    for k, e in enumerate(ent):
        kind, d, v = e
        if kind == "n":
            axes.append([0])
        elif kind == "i":
            if not -shape[d] <= v < shape[d]:
                raise Illshaped(f"index {v} on an axis of length {shape[d]}")
            base += (v % shape[d]) * st[d]
        elif kind == "s":
            axes.append([x * st[d] for x in v])
        else:
            b = broadcast(v, ash)
            for j, x in enumerate(b.c):
                if d is None:
                    continue
                if not -shape[d] <= x < shape[d]:
                    raise Illshaped(f"index {x} on an axis of length {shape[d]}")
                acells[j] += (x % shape[d]) * st[d]
            if placed is None:
                placed = len(axes)
    if adv:
        if not adjacent:
            placed = 0
        pre, post = axes[:placed], axes[placed:]
    else:
        pre, post, ash = axes, [], ()
    oshape = [len(x) for x in pre] + list(ash) + [len(x) for x in post]
    out = []
    for c in coords([len(x) for x in pre] + [len(acells)] + [len(x) for x in post]):
        o = base + acells[c[len(pre)]]
        for x, i in zip(pre, c[:len(pre)]):
            o += x[i]
        for x, i in zip(post, c[len(pre) + 1:]):
            o += x[i]
        out.append(o)
    return tuple(oshape), out


def free_index(i):
    return isinstance(i, Arr) and not i.isbool() and any(isinstance(c, Poly) for c in i.c) and all(c is not None for c in i.c)


def pick(i, cells):
    """the cell at an index that is not a number"""
    if not isinstance(i, Poly):
        if i != i or i != int(i) or not -len(cells) <= i < len(cells):
            raise Unknown("index")
        return cells[int(i)]
    lo, hi = bounds(i)
    if lo < 0 or hi > len(cells) - 1 or any(c is None or special(c) for c in cells):
        return None
    lo, hi = int(math.floor(lo)), int(math.ceil(hi))
    cells = tuple(cells[lo:hi + 1])
    if all(c == cells[0] for c in cells):
        return cells[0]
    return atom("pick", add(i, -lo), cells)


def getitem_free(a, idx, at):
    """one of the indices is a tensor of indices that are not numbers"""
    i, d = idx[at], 0
    for x in idx[:at]:
        d += 0 if x is None else x.ndim if isinstance(x, Arr) and x.isbool() else 1
    n = len(i.c)
    which = list(a.shape)
    which[d] = n
    where = Arr(tuple(which), [x[d] for x in coords(which)])
    pos = Arr(i.shape, list(range(n)))
    out = getitem(where, idx[:at] + (pos,) + idx[at + 1:])
    every = [getitem(a, idx[:at] + (Arr(i.shape, [k] * n),) + idx[at + 1:]) for k in range(a.shape[d])]
    return Arr(out.shape, [pick(i.c[w], [e.c[z] for e in every]) for z, w in enumerate(out.c)])


def getitem(a, idx):
    if free_index(idx) or isinstance(idx, tuple):
        idx = idx if isinstance(idx, tuple) else (idx,)
        if any(free_index(i) for i in idx) and not any(i is Ellipsis for i in idx):
            at = [k for k, i in enumerate(idx) if free_index(i)]
            if len(at) > 1:
                raise Unknown("several indices")
            return getitem_free(a, idx, at[0])
    s, pos = select(a.shape, idx)
    return Arr(s, [a.c[p] for p in pos])


def setitem(a, idx, v):
    s, pos = select(a.shape, idx)
    v = arr(v)
    while v.ndim > len(s) and v.shape[0] == 1:
        v = Arr(v.shape[1:], v.c)
    v = broadcast(v, s)
    c = list(a.c)
    truths = bool(c) and all(isinstance(x, bool) for x in c)     # the tensor keeps its type
    for p, x in zip(pos, v.c):
        c[p] = bool(x) if truths and isinstance(x, (int, float, Fraction)) else x
    return Arr(a.shape, c)


def gather(a, d, index):
    d = axis(a, d)
    st = strides(a.shape)
    if free_index(index):
        return Arr(index.shape, [pick(index.c[n], [a.c[sum((i if k == d else x[k]) * st[k] for k in range(a.ndim))] for i in range(a.shape[d])]) for n, x in enumerate(coords(index.shape))])
    return Arr(index.shape, [a.c[sum((index.c[n] if k == d else x[k]) * st[k] for k in range(a.ndim))] for n, x in enumerate(coords(index.shape))])


def scatter(a, d, index, src, plus=False):
    d = axis(a, d)
    if isinstance(src, Arr) and src.ndim and any(x > y for x, y in zip(index.shape, src.shape)):
        raise Unknown("scatter")
    st = strides(a.shape)
    c = list(a.c)
    for n, x in enumerate(coords(index.shape)):
        i = index.c[n]
        if not isinstance(i, int):
            raise Unknown("scatter index")
        if not 0 <= i < a.shape[d]:
            raise Illshaped(f"index {i} in a dimension of size {a.shape[d]}")
        p = sum((i if k == d else x[k]) * st[k] for k in range(a.ndim))
        v = src.c[sum(y * z for y, z in zip(x, strides(src.shape)))] if isinstance(src, Arr) and src.ndim else arr(src).c[0]
        c[p] = add(c[p], v) if plus else v
    return Arr(a.shape, c)
