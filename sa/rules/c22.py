"""C22: the data set cache never holds a partial file."""
from ..terms import T, cval, is_const, show, walk

# library functions that create or change a file: argument with its name
WRITERS = {"torch.save": (1, "f"), "numpy.save": (0, "file"), "numpy.savez": (0, "file"), "numpy.savetxt": (0, "fname"), "urllib.request.urlretrieve": (1, "filename"),
           "shutil.copy": (1, "dst"), "shutil.copy2": (1, "dst"), "shutil.copyfile": (1, "dst"), "pandas.to_pickle": (1, "filepath_or_buffer"),
           "shutil.unpack_archive": (1, "extract_dir"), "shutil.copytree": (1, "dst")}
WMETHODS = {"write_bytes", "write_text", "touch"}                                   # of a path
TMETHODS = {"to_pickle", "to_csv", "to_parquet", "to_feather", "to_hdf", "tofile", "extractall"}     # of a table: the first argument is the path
READERS = {"torch.load": (0, "f"), "numpy.load": (0, "file"), "pandas.read_pickle": (0, "filepath_or_buffer"), "pandas.read_csv": (0, "filepath_or_buffer"),
           "pandas.read_parquet": (0, "path"), "pandas.read_feather": (0, "path")}
RMETHODS = {"read_bytes", "read_text"}
MOVES = {"os.replace", "os.rename", "shutil.move"}
OPEN = {"open", "io.open", "gzip.open", "bz2.open", "lzma.open"}
EXISTS = {"os.path.exists", "os.path.isfile", "os.path.lexists"}


def arg(t, i, name):
    xs, kw = t.args[1], dict(t.args[2]) if len(t.args) > 2 else {}
    return xs[i] if i is not None and len(xs) > i else kw.get(name)


def text(t):
    return cval(t) if t is not None and is_const(t) else None


def key(t):
    """name of a file as a tuple of its parts, None when it is not one that is followed"""
    if t is None:
        return None
    if is_const(t):
        v = cval(t)
        return tuple(x for x in v.split("/") if x) if isinstance(v, str) else None
    if t.op == "call":
        n, xs = t.args[0], t.args[1]
        if n in ("os.path.join", "pathlib.Path", "pathlib.PurePath"):
            out = ()
            for x in xs:
                k = key(x)
                if k is None:
                    return None
                out += k
            return out
        if n in ("os.path.expanduser", "str", "os.fspath", "os.path.abspath", "os.path.realpath", "os.path.normpath") and len(xs) == 1:
            return key(xs[0])
        if n in ("os.path.dirname",) and len(xs) == 1:
            k = key(xs[0])
            return k[:-1] if k else None
        if n == "os.path.basename" and len(xs) == 1:
            k = key(xs[0])
            return k[-1:] if k else None
        if n in ("tempfile.mkdtemp", "tempfile.gettempdir", "pathlib.Path.home", "os.getcwd"):
            return place(t) + (f"<{n} {t.id}>",) if n == "tempfile.mkdtemp" else ("~",) if n == "pathlib.Path.home" else (f"<{n}>",)
        return None
    if t.op == "index" and t.args[0].op == "call" and t.args[0].args[0] == "tempfile.mkstemp":
        return place(t.args[0]) + (f"<mkstemp {t.args[0].id}>",)
    if t.op == "enter" and t.args[0].op == "call" and t.args[0].args[0] == "tempfile.TemporaryDirectory":
        return place(t.args[0]) + (f"<TemporaryDirectory {t.args[0].id}>",)
    if t.op == "attr" and t.args[1] == "name":
        f = t.args[0].args[0] if t.args[0].op == "enter" else t.args[0]
        if f.op == "call" and f.args[0] == "tempfile.NamedTemporaryFile":
            return place(f) + (f"<NamedTemporaryFile {f.id}>",)
        if f.op == "call" and f.args[0] == "tempfile.TemporaryDirectory":
            return place(f) + (f"<TemporaryDirectory {f.id}>",)
        k = key(t.args[0])
        return k[-1:] if k else None
    if t.op == "attr" and t.args[1] == "parent":
        k = key(t.args[0])
        return k[:-1] if k else None
    if t.op == "bin" and t.args[0] in ("/", "+"):
        a, b = key(t.args[1]), key(t.args[2])
        if t.args[0] == "/":
            return a + b if a is not None and b is not None else None
        s = text(t.args[2])
        if a and s is not None and not s.startswith("/"):
            return a[:-1] + (a[-1] + s,)
        return a + b if a is not None and b is not None and s is not None else None
    if t.op == "fstr":
        out = None
        for x in t.args:
            s = text(x)
            if out is None:
                out = key(x)
            elif isinstance(s, str):
                more = s.split("/")
                out = out[:-1] + (out[-1] + more[0],) + tuple(z for z in more[1:] if z) if out else None
            else:
                k = key(x)
                # a number of the process or a random word in a name
                out = out[:-1] + (out[-1] + (k[-1] if k else f"<{x.id}>"),) if out else None
            if out is None:
                return None
        return out
    if t.op == "meth" and t.args[0] in ("with_suffix", "with_name", "joinpath", "expanduser", "resolve", "absolute", "as_posix", "__str__"):
        k, xs = key(t.args[1]), t.args[2]
        if k is None:
            return None
        if t.args[0] == "joinpath":
            for x in xs:
                y = key(x)
                if y is None:
                    return None
                k += y
            return k
        if t.args[0] in ("with_suffix", "with_name"):
            s = text(xs[0]) if xs else None
            if s is None:
                return None
            return k[:-1] + (s if t.args[0] == "with_name" else k[-1].rsplit(".", 1)[0] + s,)
        return k
    return None


def place(t):
    """directory a temporary file is made in"""
    d = arg(t, {"tempfile.mkstemp": 2, "tempfile.mkdtemp": 2, "tempfile.TemporaryDirectory": 2, "tempfile.NamedTemporaryFile": 6}.get(t.args[0]), "dir")
    return (key(d) or (f"<dir {d.id}>",)) if d is not None and not is_const(d, None) else ("<temporary directory of the system>",)


def opened(t):
    """(file, mode) of a call that opens a file"""
    if t.op == "call" and t.args[0] in OPEN:
        m = arg(t, 1, "mode")
        return key(arg(t, 0, "file")), text(m) if m is not None else "r"
    if t.op == "call" and t.args[0] == "os.fdopen":
        fd = arg(t, 0, "fd")
        if fd is not None and fd.op == "index":
            m = arg(t, 1, "mode")
            return key(T("index", fd.args[0], fd.args[1])), text(m) if m is not None else "r"
    if t.op == "call" and t.args[0] == "tempfile.NamedTemporaryFile":
        return place(t) + (f"<NamedTemporaryFile {t.id}>",), "w+b"
    if t.op == "meth" and t.args[0] == "open" and key(t.args[1]) is not None:
        m = t.args[2][0] if t.args[2] else dict(t.args[3]).get("mode")
        return key(t.args[1]), text(m) if m is not None else "r"
    return None


class Use:
    def __init__(self, e, kind, path, **k):
        self.e, self.kind, self.path = e, kind, path
        self.__dict__.update(k)


def uses(r):
    """what happens to files, in order"""
    out = []
    for e in r.events:
        if e.kind != "call":
            continue
        t = e.data
        o = opened(t)
        if o is not None and o[0] is not None:
            m = o[1]
            out.append(Use(e, "open" if m is None else "write" if any(c in m for c in "wax+") else "read", o[0], handle=t))
            continue
        if t.op == "call":
            n = t.args[0]
            if n in WRITERS:
                k = key(arg(t, *WRITERS[n]))
                if k is not None:
                    out.append(Use(e, "write", k, tree=n in ("shutil.unpack_archive", "shutil.copytree"), handle=None))
            elif n in READERS:
                k = key(arg(t, *READERS[n]))
                if k is not None:
                    out.append(Use(e, "read", k, handle=t))
            elif n in MOVES:
                s, d = key(arg(t, 0, "src")), key(arg(t, 1, "dst"))
                if d is not None:
                    out.append(Use(e, "move", d, source=s, how=n, handle=None))
        elif t.op == "meth":
            n, recv, xs = t.args[0], t.args[1], t.args[2]
            kr = key(recv)
            if n in WMETHODS and kr is not None:
                out.append(Use(e, "write", kr, handle=None))
            elif n in RMETHODS and kr is not None:
                out.append(Use(e, "read", kr, handle=t))
            elif n in ("replace", "rename") and kr is not None and len(xs) == 1 and key(xs[0]) is not None:
                out.append(Use(e, "move", key(xs[0]), source=kr, how="os." + n, handle=None))
            elif n in TMETHODS and xs and key(xs[0]) is not None:
                out.append(Use(e, "write", key(xs[0]), tree=n == "extractall", handle=None))
    return out


def temporary(k):
    return any(x.startswith("<") for x in k)


def check(ctx):
    n = 0
    for q, f in sorted(ctx.lib.p.functions.items()):
        if not any(w in f.module.source for w in ("pickle", "open(", "cache", "tempfile", "torch.load")) or f.node.name.startswith("<"):
            continue
        if any(q.startswith(o + ".") for o in ctx.lib.p.functions):
            continue
        r = ctx.lib.run(f, cls=f.cls.qual if f.cls else None)
        if r is None:
            continue
        us = uses(r)
        if us:
            n += 1
            one(ctx, f, r, us)
    ctx.floor("final name", 1)


def one(ctx, f, r, us):
    final = {u.path for u in us if u.kind == "read" and not temporary(u.path) and len(u.path) > 1}
    moved = {u.path for u in us if u.kind == "move"}
    made = {u.path for u in us if u.kind == "write"}
    alive(ctx, f, us)
    for p in sorted(final):
        name = "/".join(p)
        if p not in moved and not any(inside(p, u) for u in us if u.kind == "write"):
            continue   # a file the library only reads
        for u in us:
            if u.kind == "write" and inside(p, u):
                ctx.bad_ev("final name", who(u, f), f"{name} is written under the name it is read under: an interruption leaves a partial file that the next call takes for the data", u.e)
            elif u.kind == "write":
                ctx.ok("final name", f"{f.qual}: {name}")
            elif u.kind == "move" and u.path == p:
                move(ctx, f, r, us, u, name)
            elif u.kind == "read" and u.path == p:
                guard(ctx, f, us, u, p, name)
        same(ctx, f, r, us, p, name)


def who(u, f):
    return u.e.stack[-1] if u.e.stack else f.qual


def inside(p, u):
    return u.path == p or getattr(u, "tree", False) and p[:len(u.path)] == u.path


def move(ctx, f, r, us, u, name):
    """the file that gets the final name is finished"""
    w = who(u, f)
    if u.source is None:
        ctx.unknown("finished", f"{w}: source of {name}")
        return
    before = [x for x in us if x.kind == "write" and x.path == u.source and x.e.seq < u.e.seq]
    after = [x for x in us if x.kind == "write" and x.path == u.source and x.e.seq > u.e.seq]
    if u.how in ("shutil.move",) and u.source[:-1] != u.path[:-1]:
        ctx.bad_ev("finished", w, f"{name} is moved from {'/'.join(u.source[:-1])}: between file systems this is a copy, and an interruption leaves a part of it under the final name", u.e)
        return
    if not before and not after:
        ctx.unknown("finished", f"{w}: nothing is known of {'/'.join(u.source)}")
        return
    if after and not before:
        ctx.bad_ev("finished", w, f"{name} gets its name before it is written", u.e)
        return
    for x in before:
        if x.handle is None:
            continue
        if any(k == "with" and v is x.handle for k, v in [c[:2] for c in u.e.ctx]) and not flushed(r, x, u):
            ctx.bad_ev("finished", w, f"{name} gets its name while the file is still open: what is still in memory is not in it when the run is interrupted", u.e)
            return
        if not any(e.kind == "enter" and e.data is x.handle for e in r.events) and not flushed(r, x, u):
            ctx.bad_ev("finished", w, f"{name} gets its name before the file is closed", u.e)
            return
    # a writing that failed is not finished
    cleanup = [c for c in u.e.ctx if c[0] in ("finally", "handler")]
    if any(c[0] in ("finally", "handler") and not any(y[:2] == c[:2] for x in before for y in x.e.ctx) and any(y == ("try", c[1]) for x in before for y in [z[:2] for z in x.e.ctx]) for c in [c[:2] for c in cleanup]):
        ctx.bad_ev("finished", w, f"{name} gets its name also when writing it has failed", u.e)
        return
    if any(c[0] == "try" and any(h == ("try", c[1]) for h in [z[:2] for z in x.e.ctx]) and swallowed(r, c[1], x, u) for x in before for c in [z[:2] for z in x.e.ctx]):
        ctx.bad_ev("finished", w, f"{name} gets its name also when writing it has failed and the error was caught", u.e)
        return
    ctx.ok("finished", f"{w}: {name}")


def swallowed(r, n, x, u):
    """the error of a writing in try statement n is caught, and the move follows after that statement"""
    if any(c[:2] == ("try", n) for c in u.e.ctx):
        return False
    if any(c.op == "exc" and c.args[0] == n and not pol for c, pol in u.e.conds):
        return False
    hs = [e for e in r.events if any(c[:2] == ("handler", n) for c in e.ctx)]
    return not any(e.kind in ("raise", "return") for e in hs)


def flushed(r, x, u):
    return any(e.kind == "call" and e.data.op == "meth" and e.data.args[0] in ("flush", "close") and x.e.seq < e.seq < u.e.seq
               and (e.data.args[1] is x.handle or e.data.args[1] is T("enter", x.handle)) and e.seq > last(r, x, u) for e in r.events)


def last(r, x, u):
    """the last writing to an open file before it is moved"""
    hs = (x.handle, T("enter", x.handle))
    return max([e.seq for e in r.events if e.kind == "call" and e.seq < u.e.seq and e.data.op == "call" and any(a in hs for a in e.data.args[1])
                or e.kind == "call" and e.seq < u.e.seq and e.data.op == "meth" and e.data.args[0] in ("write", "writelines") and e.data.args[1] in hs] or [x.e.seq])


def exists(c):
    if c.op == "call" and c.args[0] in EXISTS:
        return key(c.args[1][0])
    if c.op == "meth" and c.args[0] in ("exists", "is_file") and not c.args[2]:
        return key(c.args[1])
    return None


def guard(ctx, f, us, u, p, name):
    """the file is read when it is known to be there"""
    w = who(u, f)
    gs = [(exists(c), pol) for c, pol in u.e.conds if exists(c) is not None]
    if (p, True) in gs or any(c[0] == "try" for c in u.e.ctx) or any(x.kind == "move" and x.path == p and x.e.seq < u.e.seq for x in us):
        ctx.ok("read", f"{w}: {name}")
    elif (p, False) in gs:
        ctx.bad_ev("read", w, f"{name} is read when it does not exist", u.e)
    elif gs:
        ctx.bad_ev("read", w, f"{name} is read when {', '.join('/'.join(k) for k, pol in gs)} exists, which says nothing of the file", u.e)
    else:
        ctx.unknown("read", f"{w}: {name}")


def alive(ctx, f, us):
    """files in a temporary directory are used while it exists"""
    for u in us:
        for e in ([u.source, u.path] if u.kind == "move" else [u.path]):
            d = next((x for x in e or () if x.startswith("<TemporaryDirectory")), None)
            if d is None:
                continue
            if any(c[0] == "with" and f"<TemporaryDirectory {c[1].id}>" == d for c in u.e.ctx if hasattr(c[1], "id")):
                ctx.ok("alive", f"{who(u, f)}: {e[-1]}")
            elif any(c[0] == "with" and hasattr(c[1], "op") and c[1].op == "call" and c[1].args[0] == "tempfile.TemporaryDirectory" for x in us for c in x.e.ctx if f"<TemporaryDirectory {getattr(c[1], 'id', None)}>" == d):
                ctx.bad_ev("alive", who(u, f), f"{e[-1]} is used after its temporary directory is gone", u.e)


# ------------------------------------------------------------------------------------------------------------ what is in the file
def same(ctx, f, r, us, p, name):
    """what a later call reads is what this call returns"""
    loads = [e.data for e in r.events if e.kind == "call" and e.data.op == "call" and e.data.args[0] in ("pickle.load", "torch.load") and source(e.data) == p]
    dumps = [e for e in r.events if e.kind == "call" and e.data.op == "call" and e.data.args[0] in ("pickle.dump", "torch.save") and target(e.data) in {u.source for u in us if u.kind == "move" and u.path == p} | {p}]
    if len(loads) != 1 or len(dumps) != 1 or r.value is None:
        ctx.unknown("contents", f"{f.qual}: {name}")
        return
    load, dump = loads[0], dumps[0]
    obj = dump.data.args[1][0]
    cond = next((c for c, pol in next(e for e in r.events if e.kind == "call" and e.data is load).conds if exists(c) == p), None)
    outs = list(r.value.args[0]) if r.value.op in ("tuple", "list") else [r.value]
    if cond is None:
        ctx.unknown("contents", f"{f.qual}: {name}")
        return
    for i, o in enumerate(outs):
        a, b = choose(o, cond, True, load, obj), choose(o, cond, False, load, obj)
        if a is b:
            ctx.ok("contents", f"{f.qual}: value {i} from {name}")
        elif obj.op in ("tuple", "list") and a in obj.args[0] and b in obj.args[0]:
            ctx.bad_ev("contents", f.qual, f"value {i} read from {name} is part {list(obj.args[0]).index(a)} of what was written, the value returned without it is part {list(obj.args[0]).index(b)}", dump)
        elif a is obj or any(x is load for x in walk(a)):
            ctx.unknown("contents", f"{f.qual}: value {i}")
        else:
            ctx.unknown("contents", f"{f.qual}: value {i}")


def source(t):
    x = arg(t, 0, "file" if t.args[0] == "pickle.load" else "f")
    h = x.args[0] if x is not None and x.op == "enter" else x
    o = opened(h) if h is not None else None
    return o[0] if o else key(x)


def target(t):
    x = arg(t, 1, "file" if t.args[0] == "pickle.dump" else "f")
    h = x.args[0] if x is not None and x.op == "enter" else x
    o = opened(h) if h is not None else None
    return o[0] if o else key(x)


def choose(t, cond, pol, load, obj):
    """a returned value in one of the two cases, with what was written in the place of what is read"""
    if t.op == "phi" and t.args[0] is cond:
        return choose(t.args[1] if pol else t.args[2], cond, pol, load, obj)
    if t.op == "phi" and t.args[0].op == "exc":
        return choose(t.args[2], cond, pol, load, obj)
    if t is load:
        return obj
    if t.op == "index":
        o = choose(t.args[0], cond, pol, load, obj)
        i = cval(t.args[1])
        if o.op in ("tuple", "list") and isinstance(i, int) and -len(o.args[0]) <= i < len(o.args[0]):
            return o.args[0][i]
        return T("index", o, t.args[1])
    return t
