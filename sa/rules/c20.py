"""C20: number k means the k-th item or latent variable, and labels show the number the user would type."""
import re
from fractions import Fraction as F

from .. import bits
from ..abst import Frame, Unknown, arr
from ..cells import Illshaped
from ..plots import GRIDS, TH3, WORLDS, abstract, judge, marks
from ..stats import Abstract, World
from ..terms import T
from . import c32

WIDE = [World(f"4 respondents, 3 latent variables{', with a scale' if sc else ''}", [2, 3], [[0, 2], [1, 0], [1, 1], [0, 1]], TH3, scale=sc) for sc in (False, True)]


def check(ctx):
    figures(ctx)
    heatmap(ctx)
    tables(ctx)
    selected(ctx)
    bits.check(ctx, "bit-items", items_only=True)
    bits.guessing(ctx, "bit-items", "items")
    ctx.floor("figures", 30)
    ctx.floor("heatmap", 3)
    ctx.floor("tables", 6)
    ctx.floor("selected", 12)


def figures(ctx):
    """the curves are those of the items and latent variables asked for, and the labels say so"""
    for w in WORLDS:
        for s in GRIDS(w):
            j, f = judge(ctx.lib, w, s)
            if f is None:
                continue
            ctx.lib.nfun.add(f.qual)
            who = f"{w.label}: {s.text()}"
            bad = [x for x in j.found if x[0] in ("number", "label")]
            for a, m, x in bad[:1]:
                if x is not None and x.e is not None:
                    ctx.bad_ev("figures", f"{f.qual}: {a}", f"{who}: {m}", x.e)
                else:
                    ctx.bad("figures", f"{f.qual}: {a}", f"{who}: {m}", f.module.path, f.node.lineno)
            if bad:
                continue
            if j.found:
                continue        # quantities of the two scales are C07's
            if j.unknown or not j.n:
                ctx.unknown("figures", f"{who}: {(j.unknown or ['nothing compared'])[0]}")
            else:
                ctx.ok("figures", who)


def number(x):
    m = re.search(r"(\d+)", str(x))
    return int(m.group(1)) if m else None


def heatmap(ctx):
    """relationships are shown in the row of their item and the column of their latent variable"""
    name = "item_latent_variable_relationships"
    f = ctx.p.find_method(ctx.p.cls("Plotter").qual, name)
    if f is None:
        return
    for w in WORLDS:
        for given in (False, True):
            if not w.trained and not given:
                continue
            A = abstract(ctx.lib, w)
            who = f"{w.label}: {name}" + (" of given relationships" if given else "")
            pre = {}
            if given:
                t = T("leaf", "relationships", (w.J, w.L))
                A.env[t] = arr([[F(10 * (j + 1) + v + 1) for v in range(w.L)] for j in range(w.J)])
                pre["relationships"] = t
            try:
                got = image(A, name, pre)
                if got is None:
                    raise Unknown("no picture")
                z, xs, ys = got
                bad = None
                if z.shape != (len(ys), len(xs)):
                    bad = f"{z.shape[0]} by {z.shape[1]} relationships for {len(ys)} rows and {len(xs)} columns"
                elif sorted(map(str, map(number, ys))) != sorted(str(j + 1) for j in range(w.J)):
                    bad = f"the rows are named {', '.join(map(str, ys))}, the items are 1 to {w.J}"
                elif sorted(map(str, map(number, xs))) != sorted(str(v + 1) for v in range(w.L)):
                    bad = f"the columns are named {', '.join(map(str, xs))}, the latent variables are 1 to {w.L}"
                else:
                    for r in range(len(ys)):
                        for c in range(len(xs)):
                            j, v = number(ys[r]) - 1, number(xs[c]) - 1
                            cell = z.c[r * len(xs) + c]
                            if given:
                                same = cell == 10 * (j + 1) + v + 1
                            else:
                                ks, js, hows, vs, junk = marks(cell)
                                if junk or not js:
                                    raise Unknown("a relationship that is not understood")
                                same = js == {j} and vs == {v}
                            if not same:
                                bad = bad or f"row {ys[r]}, column {xs[c]} does not show the relationship of item {j + 1} with latent variable {v + 1}"
                if bad:
                    ctx.bad("heatmap", f.qual, f"{who}: {bad}", f.module.path, f.node.lineno)
                else:
                    ctx.ok("heatmap", who)
            except Illshaped as u:
                ctx.bad("heatmap", f.qual, f"{who}: {u}", f.module.path, f.node.lineno)
            except Unknown as u:
                ctx.unknown("heatmap", f"{who}: {u}")


def image(A, name, pre):
    r, e = A.run(name, pre)
    for x in r.events:
        if x.kind != "call" or x.data.op != "call" or x.data.args[0] not in ("plotly.express.imshow", "plotly.graph_objects.Heatmap"):
            continue
        kw = dict(x.data.args[2])
        z = e(x.data.args[1][0] if x.data.args[1] else kw.get("img", kw.get("z")))
        xs = e(kw["x"]) if "x" in kw else z.cols if isinstance(z, Frame) else None
        ys = e(kw["y"]) if "y" in kw else z.rows if isinstance(z, Frame) else None
        if xs is None or ys is None:
            raise Unknown("no names")
        return (z.x if isinstance(z, Frame) else arr(z)), list(xs), list(ys)
    return None


def tables(ctx):
    """rows and columns of tables of items are named after the items"""
    for name in ("q3", "mutual_information_difference"):
        S = next((s for s in c32.SPECS if s.name == name), None)
        for w in c32.WORLDS:
            A = Abstract(ctx.lib, w, ctx.p.cls("Evaluator").qual)
            f = A.find(name)
            if f is None or S is None:
                continue
            who = f"{w.label}: {name}"
            got, ill = c32.outcome(A, S, {})
            if ill or got is None:
                ctx.unknown("tables", f"{who}: {ill or A.why}")
                continue
            for x in got if isinstance(got, tuple) else (got,):
                if not isinstance(x, Frame):
                    continue
                want = [j + 1 for j in range(w.J)]
                for side, names in (("columns", x.cols), ("rows", x.rows)):
                    if any(isinstance(n, int) for n in names):
                        ctx.unknown("tables", f"{who}: {side} without names")
                    elif [number(n) for n in names] != want:
                        ctx.bad("tables", f.qual, f"{who}: the {side} are named {', '.join(map(str, names))}, the items are 1 to {w.J}", f.module.path, f.node.lineno)
                    else:
                        ctx.ok("tables", f"{who}, {side}")


def same(got, want, near):
    """True, False or None"""
    if isinstance(want, tuple):
        got = list(got) if isinstance(got, tuple) else [got]
        rs = [same(g, x, near) for g, x in zip(got, want) if x is not None]
        return False if False in rs or len(got) < len(want) else None if None in rs else True
    try:
        got = arr(got)
    except (Unknown, TypeError):
        return None
    out = []
    for a in want if isinstance(want, c32.Either) else [want]:
        a = arr(a)
        if a.shape != got.shape:
            out.append(False)
            continue
        ds = [c32.differ(g, c, near) for g, c in zip(got.c, a.c)]
        out.append(False if any(ds) else None if any(d is None for d in ds) else True)
    return True if True in out else None if None in out else False


def selected(ctx):
    """functions with a numbered latent variable use that one"""
    for S in c32.SPECS:
        if S.on:
            continue
        for w in WIDE:
            A = Abstract(ctx.lib, w, ctx.p.cls("Evaluator").qual)
            f = A.find(S.name)
            if f is None or "latent_variable" not in f.posnames + f.kwonly:
                continue
            for rescale in (True, False) if w.scale and "rescale" in f.posnames + f.kwonly else (None,):
                for v in range(1, w.L + 1):
                    pre = {"groups": 2, "latent_variable": v}
                    if rescale is not None:
                        pre["rescale"] = rescale
                    who = f"{w.label}: {S.name}({', '.join(f'{k}={x}' for k, x in pre.items())})"
                    got, ill = c32.outcome(A, S, pre)
                    if ill:
                        ctx.bad("selected", f.qual, f"{who}: {ill}", f.module.path, f.node.lineno)
                        continue
                    if got is None:
                        ctx.unknown("selected", f"{who}: {A.why}")
                        continue
                    is_v = same(got, S.spec(w, **pre), S.near)
                    if is_v:
                        ctx.ok("selected", who)
                        continue
                    o = next((u for u in range(1, w.L + 1) if u != v and same(got, S.spec(w, **{**pre, "latent_variable": u}), S.near)), None)
                    if o is not None:
                        ctx.bad("selected", f.qual, f"{who}: uses latent variable {o}", f.module.path, f.node.lineno)
                    else:
                        ctx.unknown("selected", f"{who}: the result is that of no latent variable")
