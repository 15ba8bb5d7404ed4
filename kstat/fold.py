"""Normal form of accumulation loops: `acc = []; for x in L: [if c:] acc.append(e)` is read as `acc = [e for x in L if c]`."""
import ast

MUT = ("append", "add", "extend", "insert", "update", "remove", "discard", "pop", "clear", "appendleft", "setdefault", "sort", "reverse")
FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def unnest(body):
    """(conditions, statement) of a loop body that is one guarded statement, or None"""
    conds = []
    while True:
        body = [x for x in body if not isinstance(x, ast.Pass)]
        while len(body) > 1:
            h = body[0]
            if isinstance(h, ast.If) and not h.orelse and len(h.body) == 1 and isinstance(h.body[0], ast.Continue):
                t = h.test
                conds.append(t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else
                             ast.copy_location(ast.UnaryOp(ast.Not(), t), t))
                body = body[1:]
            else:
                return None
        if not body:
            return None
        h = body[0]
        if isinstance(h, ast.If) and not h.orelse:
            conds.append(h.test)
            body = h.body
            continue
        return conds, h


def comp_of(acc, init, loop):
    if not isinstance(loop, ast.For) or loop.orelse:
        return None
    got = unnest(loop.body)
    if got is None:
        return None
    conds, st = got
    gen = ast.comprehension(target=loop.target, iter=loop.iter, ifs=conds, is_async=0)
    c = None
    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
            and isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == acc and len(st.value.args) == 1 and not st.value.keywords \
            and not isinstance(st.value.args[0], ast.Starred):
        if st.value.func.attr == "append" and isinstance(init, ast.List) and not init.elts:
            c = ast.ListComp(st.value.args[0], [gen])
        elif st.value.func.attr == "append" and isinstance(init, ast.Call) and isinstance(init.func, ast.Name) and init.func.id == "list" and not init.args:
            c = ast.ListComp(st.value.args[0], [gen])
        elif st.value.func.attr == "add" and isinstance(init, ast.Call) and isinstance(init.func, ast.Name) and init.func.id == "set" and not init.args:
            c = ast.SetComp(st.value.args[0], [gen])
    elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript) and isinstance(st.targets[0].value, ast.Name) \
            and st.targets[0].value.id == acc and not isinstance(st.targets[0].slice, ast.Slice):
        if isinstance(init, ast.Dict) and not init.keys or isinstance(init, ast.Call) and isinstance(init.func, ast.Name) and init.func.id == "dict" \
                and not init.args and not init.keywords:
            c = ast.DictComp(st.targets[0].slice, st.value, [gen])
    if c is None or acc in names(c):
        return None
    if any(isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)) for x in ast.walk(c)):
        return None
    return ast.copy_location(c, loop)


class Fold(ast.NodeTransformer):
    def __init__(self):
        self.fns = []

    def fn(self, n):
        loads = {}

        def walk(x, bound):
            if isinstance(x, ast.Name):
                if x.id not in bound:
                    loads.setdefault(x.id, []).append(x)
                return
            if isinstance(x, (ast.For, ast.AsyncFor)):
                walk(x.iter, bound)
                b = bound | names(x.target, ast.Store)
                for y in x.body:
                    walk(y, b)
                for y in x.orelse:
                    walk(y, bound)
                return
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                bound = bound | {t for g in x.generators for t in names(g.target, ast.Store)}
            for y in ast.iter_child_nodes(x):
                walk(y, bound)
        for y in n.body:
            walk(y, frozenset())
        muts = {}
        for x in ast.walk(n):
            t = None
            if isinstance(x, ast.Attribute) and x.attr in MUT:
                t = x.value
            elif isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load):
                t = x.value
            elif isinstance(x, ast.AugAssign):
                t = x.target
            if isinstance(t, ast.Name):
                muts.setdefault(t.id, []).append(x)
        loads[None] = muts
        self.fns.append(loads)
        self.generic_visit(n)
        self.fns.pop()
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = fn

    def generic_visit(self, n):
        super().generic_visit(n)
        if self.fns and not isinstance(n, ast.Lambda):
            for f in ("body", "orelse", "finalbody"):
                v = getattr(n, f, None)
                if isinstance(v, list) and len(v) > 1 and isinstance(v[0], ast.stmt):
                    setattr(n, f, self.block(v))
        return n

    def block(self, v):
        out = list(v)
        i = 0
        while i < len(out):
            a = out[i]
            if isinstance(a, ast.AnnAssign) and isinstance(a.target, ast.Name) and a.value is not None:
                acc, init = a.target.id, a.value
            elif isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name):
                acc, init = a.targets[0].id, a.value
            else:
                i += 1
                continue
            j = i + 1
            while j < len(out) and isinstance(out[j], (ast.Assign, ast.AnnAssign, ast.Pass)) and acc not in names(out[j]):
                j += 1
            if j < len(out):
                c = comp_of(acc, init, out[j])
                if c is not None:
                    tn = names(out[j].target, ast.Store)
                    inside = {id(x) for x in ast.walk(out[j])}
                    if all(id(x) in inside for x in self.fns[-1][None].get(acc, ())) and \
                            not any(id(x) not in inside for t in tn for x in self.fns[-1].get(t, ())
                                    if isinstance(x.ctx, ast.Load) and x.lineno >= out[j].lineno):
                        new = ast.copy_location(ast.Assign([ast.Name(acc, ast.Store())], c), out[j])
                        ast.fix_missing_locations(new)
                        out[j] = new
                        del out[i]
                        continue
            i += 1
        return out


def fold(tree):
    return Fold().visit(tree)
