"""with statements over generator context managers of the analysed code, written out as the statements they run."""
import ast
import builtins
import copy


def manager(func):
    return any(d.rsplit(".", 1)[-1] == "contextmanager" for d in func.decorators)


def free(func):
    """global names a function uses"""
    local = set(func.posnames) | set(func.kwonly) | {n.id for n in ast.walk(func.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    return {n.id for s in func.node.body for n in ast.walk(s) if isinstance(n, ast.Name)} - local - set(dir(builtins))


class Names(ast.NodeTransformer):
    def __init__(self, names, pre):
        self.names, self.pre = names, pre

    def visit_Name(self, n):
        return ast.copy_location(ast.Name(self.pre + n.id, n.ctx), n) if n.id in self.names else n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.name in self.names:
            n.name = self.pre + n.name
        return n


def leaves(stmts):
    """does a block leave by return, break or continue"""
    def visit(n, loop):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            return False
        if isinstance(n, ast.Return) or isinstance(n, (ast.Break, ast.Continue)) and not loop:
            return True
        inner = loop or isinstance(n, (ast.For, ast.While))
        return any(visit(c, inner) for c in ast.iter_child_nodes(n))
    return any(visit(s, False) for s in stmts)


def yields(node):
    out = []

    def visit(n, path):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            out.append((n, path))
        if isinstance(n, (ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)) or isinstance(n, ast.FunctionDef) and path:
            return
        for c in ast.iter_child_nodes(n):
            visit(c, path + [n])
    visit(node, [])
    return out


def after_is_final(path, y):
    """everything a manager runs after its yield is in finally blocks"""
    for up, child in zip(path, path[1:] + [y]):
        for field in ("body", "orelse", "handlers", "finalbody"):
            block = getattr(up, field, None)
            if isinstance(block, list) and child in block:
                rest = block[block.index(child) + 1:]
                if rest and not (isinstance(up, ast.Try) and field == "handlers"):
                    return False
                if isinstance(up, ast.Try) and field == "body" and up.orelse:
                    return False
    return True


def expand(func, call, item, body, number):
    """statements of `with call as item: body`, or None when they cannot be written down"""
    ys = yields(func.node)
    if len(ys) != 1 or isinstance(ys[0][0], ast.YieldFrom) or any(isinstance(n, (ast.Return, ast.Global, ast.Nonlocal, ast.FunctionDef, ast.Lambda)) and n is not func.node for n in ast.walk(func.node)):
        return None
    y, path = ys[0]
    if not isinstance(path[-1], ast.Expr) or any(isinstance(n, (ast.For, ast.While)) for n in path):
        return None
    if leaves(body) and not after_is_final(path, path[-1]) and not after_is_final(path[:-1], path[-1]):
        return None
    if func.vararg or func.kwarg or any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    names = list(func.posnames)
    given = {}
    if func.cls is not None and not func.is_static:
        if not names or not isinstance(call.func, ast.Attribute):
            return None
        given[names.pop(0)] = call.func.value
    for n, a in zip(names, call.args):
        given[n] = a
    if len(call.args) > len(names):
        return None
    for k in call.keywords:
        given[k.arg] = k.value
    for n in func.posnames + func.kwonly:
        if n not in given:
            if n not in func.defaults:
                return None
            given[n] = func.defaults[n]
    pre = f"__with{number}_"
    local = set(given) | {n.id for n in ast.walk(func.node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))} | {n.name for n in ast.walk(func.node) if isinstance(n, ast.ExceptHandler) and n.name}
    ren = Names(local, pre)
    out = [ast.copy_location(ast.Assign([ast.Name(pre + n, ast.Store())], v), call) for n, v in given.items()]
    mark = path[-1]
    todo = [s for s in func.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    memo = {}
    copied = [copy.deepcopy(s, memo) for s in todo]
    inner = memo[id(mark)]

    class Put(ast.NodeTransformer):
        def visit_Expr(self, n):
            if n is not inner:
                return n
            value = n.value.value or ast.copy_location(ast.Constant(None), n)
            enter = [ast.copy_location(ast.Assign([item], value), n)] if item is not None else ([ast.copy_location(ast.Expr(value), n)] if n.value.value else [])
            return [ast.copy_location(ast.Pass(), n)] + enter + list(body)
    # the body must keep its own names: rename first, put the body in afterwards
    renamed = [ren.visit(s) for s in copied]
    for s in renamed:
        r = Put().visit(s)
        out += r if isinstance(r, list) else [r]
    for s in out:
        ast.fix_missing_locations(s)
    return out
