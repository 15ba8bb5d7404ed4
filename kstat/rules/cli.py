"""C01: a command reads the options it declares, and only those"""
import ast

from . import prop
from ..model import AnalysisBroken

ROOT = "src/keri/cli/"
COMMANDS = ROOT + "commands/"


def last(e):
    return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None


def words(e):
    """the constants of a literal, None where it is not one"""
    return e.value if isinstance(e, ast.Constant) else None


class Option:
    def __init__(self, call):
        self.call = call
        self.flags = [words(a) for a in call.args]
        kw = {k.arg: k.value for k in call.keywords}
        self.known = bool(self.flags) and all(isinstance(f, str) for f in self.flags) and None not in kw
        self.required = words(kw["required"]) if "required" in kw else False
        self.acts = words(kw.get("action")) in ("version", "help") if "action" in kw else False
        self.help = " ".join(str(x.value) for x in ast.walk(kw["help"]) if isinstance(x, ast.Constant)) if "help" in kw else ""
        self.dest = None
        if self.known:
            d = words(kw.get("dest")) if "dest" in kw else None
            if d is None:
                longs = [f for f in self.flags if f.startswith("--")]
                d = (longs or self.flags)[0].lstrip("-").replace("-", "_")
            self.dest = d


class Cli:
    def __init__(self, model):
        self.defs = {}
        for mod in model.modules.values():
            if mod.rel.startswith(ROOT):
                for x in ast.walk(mod.tree):
                    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        self.defs.setdefault(x.name, []).append((mod, x))

    def named(self, name, mod):
        """a function by its name: the module's own, else one shared by the commands"""
        at = self.defs.get(name, [])
        return [x for x in at if x[0] is mod] or [x for x in at if not x[0].rel.startswith(COMMANDS)]

    def settled(self, e, mod):
        """a name by what the module makes it"""
        for _ in range(5):
            at = [s.value for s in ast.walk(mod.tree) if isinstance(s, ast.Assign) and isinstance(e, ast.Name) and e.id in [last(t) for t in s.targets]]
            if len(at) != 1:
                break
            e = at[0]
        return e

    def declared(self, node, mod, seen=()):
        """options and defaults declared by the code under node, what it calls with its parser, and the parents it names"""
        opts, names = [], set()
        for x in ast.walk(node):
            if not isinstance(x, ast.Call):
                continue
            if isinstance(x.func, ast.Attribute) and x.func.attr == "add_argument":
                opts.append((Option(x), mod))
            elif isinstance(x.func, ast.Attribute) and x.func.attr == "set_defaults":
                names |= {k.arg for k in x.keywords}
            follow = []
            if last(x.func) == "ArgumentParser":
                for k in x.keywords:
                    if k.arg == "parents":
                        held = self.settled(k.value, mod)
                        if not isinstance(held, (ast.List, ast.Tuple)):
                            raise AnalysisBroken(f"{mod.rel}:{x.lineno} the parents of a parser are made at run time")
                        for p in held.elts:
                            p = self.settled(p, mod)
                            if isinstance(p, ast.Call):
                                follow.append(last(p.func))
            elif any(isinstance(a, ast.Name) and a.id.endswith("parser") for a in list(x.args) + [k.value for k in x.keywords]):
                follow.append(last(x.func))
            elif last(x.func) and "arser" in last(x.func).lower() and last(x.func) in self.defs:
                follow.append(last(x.func))
            elif isinstance(x.func, ast.Attribute) and last(x.func.value) == "Parsery":
                follow.append(x.func.attr)
            for n in follow:
                for m, f in self.named(n, mod):
                    if f not in seen and f is not node:
                        o, d = self.declared(f, m, seen + (f,))
                        opts += [y for y in o if y not in opts]
                        names |= d
        uniq, ids = [], set()
        for o, m in opts:
            if id(o.call) not in ids:
                ids.add(id(o.call))
                uniq.append((o, m))
        return uniq, names


def namespace(x):
    """an expression that is the parsed command line"""
    return last(x) == "args"


def carries(e, names):
    if isinstance(e, ast.Subscript):
        return words(e.slice) == "args"
    if isinstance(e, ast.Call):
        return last(e.func) in ("get", "pop") and bool(e.args) and words(e.args[0]) == "args"
    return last(e) in names


def aliases(tree):
    """every name the parsed command line goes by in a module"""
    fns = {}
    for x in ast.walk(tree):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fns.setdefault(x.name, []).append(x)
        elif isinstance(x, ast.ClassDef):
            fns.setdefault(x.name, []).extend(s for s in x.body if isinstance(s, ast.FunctionDef) and s.name == "__init__")
    names = {"args"}
    while True:
        new = set()
        for x in ast.walk(tree):
            if isinstance(x, ast.Assign) and carries(x.value, names):
                new |= {last(t) for t in x.targets}
            elif isinstance(x, (ast.AnnAssign, ast.NamedExpr)) and x.value is not None and carries(x.value, names):
                new.add(last(x.target))
            elif isinstance(x, ast.Call) and last(x.func) == "set_defaults":
                for k in x.keywords:
                    if k.arg == "handler" and isinstance(k.value, ast.Lambda):
                        new |= {a.arg for a in k.value.args.args[:1]}
                    elif k.arg == "handler" and isinstance(k.value, ast.Name):
                        new |= {f.args.args[0].arg for f in fns.get(k.value.id, ()) if f.args.args}
            elif isinstance(x, ast.Call):
                new |= {k.arg for k in x.keywords if k.arg and carries(k.value, names)}
                for f in fns.get(last(x.func), ()):
                    ps = [a.arg for a in f.args.posonlyargs + f.args.args]
                    ps = ps[1:] if ps[:1] == ["self"] else ps
                    new |= {ps[i] for i, v in enumerate(x.args) if i < len(ps) and carries(v, names)}
        if new <= names:
            return names - {None}
        names |= new


@prop("C01")
def options(ctx):
    R, F, U, H = "C01.declared", "C01.flags", "C01.heard", "C01.handler"
    ctx.rule(R, "what a command reads of its command line is an option it declares", 400)
    ctx.rule(F, "no two options of a command share a flag or a name", 60)
    ctx.rule(U, "what a command lets be given is read by it", 250)
    ctx.rule(H, "a command names a handler that exists and takes the command line", 60)
    cli = Cli(ctx.model)
    many = 0
    for mod in sorted(ctx.model.modules.values(), key=lambda m: m.rel):
        if not mod.rel.startswith(COMMANDS):
            continue
        makes = [x for x in ast.walk(mod.tree) if isinstance(x, ast.Call) and last(x.func) == "ArgumentParser"]
        if not makes:
            continue
        many += 1
        name = mod.rel[len(COMMANDS):-3]
        opts, names = cli.declared(mod.tree, mod)
        sure = all(o.known for o, _ in opts)
        resolve = any(k.arg == "conflict_handler" for x in makes for k in x.keywords)
        flags, dests = {}, set(names)
        for o, m in opts:
            if not o.known:
                continue
            dests.add(o.dest)
            wh = f"{m.rel}:{o.call.lineno} {name}"
            for f in o.flags:
                ctx.need(f not in flags or resolve and len(makes) == 1, F, f"{name}:{f}", wh, f"two options of one command claim {f}: the command, and the whole program, cannot start")
                flags[f] = o
        loads = set()
        shared = [m.tree for m in ctx.model.modules.values() if m.rel.startswith(ROOT + "common/")]
        called = aliases(mod.tree)
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and last(x.value) in called:
                loads.add(x.attr)
            elif isinstance(x, ast.Call) and last(x.func) in ("getattr", "hasattr") and len(x.args) > 1:
                loads.add(words(x.args[1]))
        whole = any(isinstance(x, ast.Call) and last(x.func) in ("vars", "dict") and x.args and namespace(x.args[0]) for x in ast.walk(mod.tree))
        for t in shared:
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and namespace(x.value):
                    loads.add(x.attr)
        for o, m in opts:
            if o.known and m is mod:
                ctx.need(whole or o.acts or o.dest in loads or "unused" in o.help.lower(), U, f"{name} {o.dest}", f"{mod.rel}:{o.call.lineno} {name}", f"the option {o.flags[0]} is accepted and has no effect")
        # reads
        todo = [(mod.tree, False)]
        while todo:
            x, off = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                a = x.args
                if a.vararg and a.vararg.arg == "args":
                    off = True
                elif any(p.arg == "args" for p in a.args + a.kwonlyargs):
                    off = False
            todo += [(y, off) for y in ast.iter_child_nodes(x)]
            if isinstance(x, ast.Call) and last(x.func) == "checkRequiredArgs" and sure:
                for v in list(x.args) + [k.value for k in x.keywords]:
                    ls = [v] if isinstance(v, (ast.List, ast.Tuple)) else [y.value for y in ast.walk(mod.tree) if isinstance(y, ast.Assign) and isinstance(v, ast.Name) and isinstance(y.value, (ast.List, ast.Tuple)) and v.id in [last(t) for t in y.targets]]
                    for n in [words(i) for l in ls for i in l.elts]:
                        ctx.need(not isinstance(n, str) or n in dests, R, f"{name} {n} asked", f"{mod.rel}:{x.lineno} {name}", f"the command insists on {n}, which it does not declare and so cannot be given")
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and namespace(x.value) and not off:
                if not sure:
                    continue
                ctx.need(x.attr in dests, R, f"{name} {x.attr}", f"{mod.rel}:{x.lineno} {name}", f"the command reads {x.attr}, which it does not declare: it ends in an error whenever that is reached")
        # handler
        fns = {s.name: s for s in ast.walk(mod.tree) if isinstance(s, ast.FunctionDef)}
        top = {s.name for s in mod.tree.body if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef))}
        sets = [(x, k.value) for x in ast.walk(mod.tree) if isinstance(x, ast.Call) and last(x.func) == "set_defaults" for k in x.keywords if k.arg == "handler"]
        subs = any(isinstance(x, ast.Call) and last(x.func) == "add_subparsers" for x in ast.walk(mod.tree))
        if mod.rel.endswith("__init__.py"):
            continue    # the name of a family of commands
        if not ctx.need(bool(sets) or subs, H, name, f"{mod.rel}:{makes[0].lineno} {name}", "a command names no handler: it does nothing"):
            continue
        bound = top | {a.asname or a.name for s in ast.walk(mod.tree) if isinstance(s, (ast.Import, ast.ImportFrom)) for a in s.names}
        bound |= {last(t) for s in mod.tree.body if isinstance(s, ast.Assign) for t in s.targets}
        for call, h in sets:
            fn, n = (h.body.func, len(h.body.args) + len(h.body.keywords)) if isinstance(h, ast.Lambda) and isinstance(h.body, ast.Call) else (h, 1)
            if not isinstance(fn, ast.Name):
                continue
            ok = fn.id in bound
            if ok and fn.id in fns and fn.id in top:
                a = fns[fn.id].args
                total = len(a.posonlyargs + a.args)
                ok = bool(a.vararg) or total - len(a.defaults) <= n <= total
            ctx.need(ok, H, f"{name} handler", f"{mod.rel}:{call.lineno} {name}", "the handler a command names is not there, or does not take the command line")
    if many < 60:
        raise AnalysisBroken(f"only {many} commands found")
