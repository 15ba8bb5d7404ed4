"""D01: every kind of record has a store of its own, which opens, and is used by what it offers"""
import ast

from . import prop
from ..model import AnalysisBroken

BASE = ("LMDBer", "WebDBer")
#  how code names an environment -> the environments it can be
REFS = {"db": None, "reger": ("Reger",), "ks": ("Keeper",), "baser": ("Baser", "RegBaser", "WebRegBaser"), "noter": ("Noter", "LMDBer", "Notifier"),
        "hby": ("Habery",), "hab": ("BaseHab", "Hab", "GroupHab", "SignifyHab", "SignifyGroupHab"), "mhab": ("BaseHab", "Hab", "GroupHab", "SignifyHab", "SignifyGroupHab"),
        "ghab": ("GroupHab", "SignifyGroupHab"), "kvy": ("Kevery",), "rvy": ("Revery",), "tvy": ("Tevery",), "exc": ("Exchanger",), "exchanger": ("Exchanger",), "mgr": ("Manager",), "rgy": ("Regery", "Reger"),
        "kever": ("Kever",), "tever": ("Tever",), "verifier": ("Verifier",), "vry": ("Verifier",), "psr": ("Parser",), "registry": ("Registry", "SignifyRegistry"),
        "creder": ("Serder", "SerderACDC", "SerderKERI"), "serder": ("Serder", "SerderACDC", "SerderKERI"), "counselor": ("Counselor",), "registrar": ("Registrar",), "credentialer": ("Credentialer",),
        "receiptor": ("Receiptor",), "witDoer": ("WitnessReceiptor", "Receiptor"), "postman": ("Poster", "StreamPoster"), "notifier": ("Notifier",), "mux": ("Multiplexor",), "org": ("Organizer",), "swain": ("Anchorer",), "witq": ("WitnessInquisitor",)}
#  modules where `db` names a sub-database of the engine itself
ENGINE = ("db/webdbing.py", "db/dbing.py", "db/koming.py", "db/subing.py")


def last(e):
    return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None


class World:
    def __init__(self, model):
        self.m = model
        self.classes = {}
        for mod in model.modules.values():
            if not mod.rel.startswith("src/keri/"):
                continue
            for c in mod.classes.values():
                self.classes.setdefault(c.name, []).append(c)
        self.mem = {}
        self.storekinds = {n for n in self.classes if any(self.isa(c, ("SuberBase", "Komer", "KomerBase", "DupKomer", "IoSetKomer")) for c in self.classes[n])}
        self.envs = {n: cs[0] for n, cs in self.classes.items() if n not in BASE and (any(self.isa(c, ("LMDBer",)) for c in cs) or n == "WebRegBaser")}

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            for b in x.node.bases:
                todo += self.classes.get(last(b), [])[:1]
        return out

    def isa(self, c, names):
        return any(x.name in names for x in self.mro(c))

    def members(self, name):
        """every attribute of a class with what it is: a function, or the assigned expression"""
        if name in self.mem:
            return self.mem[name]
        out = {}
        cls = name if not isinstance(name, str) else next(iter(self.classes.get(name, ())), None)
        for c in self.mro(cls) if cls is not None else ():
            for s in c.node.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    out.setdefault(s.name, s)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            out.setdefault(t.id, s.value)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    out.setdefault(s.target.id, s.value)
            for x in ast.walk(c.node):
                if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        for u in ast.walk(t):
                            if isinstance(u, ast.Attribute) and isinstance(u.ctx, ast.Store) and isinstance(u.value, ast.Name) and u.value.id == "self":
                                out.setdefault(u.attr, x.value)
                elif isinstance(x, ast.Call) and last(x.func) == "setattr" and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == "self" and (name if isinstance(name, str) else name.name) in self.envs:
                    if not (len(x.args) > 1 and isinstance(x.args[1], ast.Constant)):
                        raise AnalysisBroken(f"{c.mod.rel}:{x.lineno} attributes of {name} are named at run time")
                    out.setdefault(x.args[1].value, x.args[2] if len(x.args) > 2 else None)
        self.mem[name] = out
        return out

    def value(self, e, env, c):
        """a constant string, or None"""
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            v = c.mod.consts.get(e.id)
            return self.value(v, {}, c) if v is not None else None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.value(e.left, env, c), self.value(e.right, env, c)
            return a + b if isinstance(a, str) and isinstance(b, str) else None
        if isinstance(e, ast.JoinedStr):
            ps = [self.value(x.value if isinstance(x, ast.FormattedValue) else x, env, c) for x in e.values]
            return "".join(ps) if all(isinstance(x, str) for x in ps) else None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in ("self", "cls", c.name):
            v = self.members(c.name).get(e.attr)
            return self.value(v, env, c) if isinstance(v, ast.AST) and not isinstance(v, ast.FunctionDef) else None
        return None

    def given(self, c, name, f, key, env):
        """what the names in key are, for each way the class comes to f"""
        names = {x.id for x in ast.walk(key) if isinstance(x, ast.Name)} - set(env) if key is not None else set()
        ps = [a.arg for a in f.args.args]
        local, more = {}, set(names)
        while more:
            n = more.pop()
            at = [s for s in ast.walk(f) if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == n]
            if len(at) == 1 and n not in local and n not in ps and sum(isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id == n for y in ast.walk(f)) == 1:
                local[n] = at[0].value
                more |= {x.id for x in ast.walk(at[0].value) if isinstance(x, ast.Name)}
        names |= {x.id for v in local.values() for x in ast.walk(v) if isinstance(x, ast.Name)}

        def settle(e):
            for _ in local:
                for n, v in local.items():
                    if e.get(n) is None:
                        e[n] = self.value(v, e, c)
            return e

        if not names & set(ps):
            return [settle(dict(env))]
        out = []
        for k in self.mro(self.classes[name][0]):
            for x in ast.walk(k.node):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == f.name and last(x.func.value) in ("self", "cls"):
                    d = dict(zip(ps[1:], x.args))
                    d.update({y.arg: y.value for y in x.keywords})
                    e = dict(env)
                    e.update({p: self.value(v, env, k) for p, v in d.items()})
                    out.append(settle(e))
        return out

    def made(self, name, ref=("self",), env=None, seen=()):
        """(subkey, kind, class, call, always) for each store a class opens on an environment it names by ref"""
        out = []
        for c in [y for x in self.classes.get(name, [])[:1] for y in self.mro(x)]:
            if c.name in self.storekinds or c.name in BASE:
                continue
            for f in [s for s in c.node.body if isinstance(s, ast.FunctionDef)]:
                up = {}
                for x in ast.walk(f):
                    for y in ast.iter_child_nodes(x):
                        up[y] = x
                for x in ast.walk(f):
                    if not isinstance(x, ast.Call):
                        continue
                    kind = last(x.func)
                    kw = {k.arg: k.value for k in x.keywords}
                    db = kw.get("db", x.args[0] if x.args else None)
                    if db is None or ast.unparse(db) not in ref:
                        continue
                    if kind in self.storekinds:
                        y, always = x, True
                        while y in up:
                            y = up[y]
                            if isinstance(y, (ast.If, ast.While, ast.For, ast.IfExp, ast.ExceptHandler)):
                                always = False
                        key = kw.get("subkey")
                        for e in self.given(c, name, f, key, env or {}):
                            out.append((self.value(key, e, c) if key is not None else None, kind, c, x, always))
                    elif kind in self.classes and kind not in self.envs and kind not in seen and any("Komer" in ast.unparse(k.node) or "Suber" in ast.unparse(k.node) for k in self.classes[kind]):
                        k = self.classes[kind][0]
                        init = self.members(kind).get("__init__")
                        if not isinstance(init, ast.FunctionDef):
                            continue
                        ps = [a.arg for a in init.args.args][1:]
                        given = dict(zip(ps, x.args))
                        given.update(kw)
                        dn = next((p for p, v in given.items() if v is db), None)
                        b = {p: self.value(v, env or {}, c) for p, v in given.items() if p != dn}
                        held = tuple(f"self.{a}" for a, v in self.members(kind).items() if isinstance(v, ast.Name) and v.id == dn)
                        out += self.made(kind, held + (dn,), b, seen + (kind,))
        return out


def binds(f, call, method=True):
    a = f.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return True
    pos = [x.arg for x in a.posonlyargs + a.args]
    stat = any(ast.unparse(d) == "staticmethod" for d in f.decorator_list)
    pos = pos if stat else pos[1:]
    if len(call.args) > len(pos) and not a.vararg:
        return False
    given = set(pos[:len(call.args)])
    for k in call.keywords:
        if k.arg in given or k.arg not in pos + [x.arg for x in a.kwonlyargs] and not a.kwarg:
            return False
        given.add(k.arg)
    need = (pos[:len(pos) - len(a.defaults)] if a.defaults else pos) + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return all(r in given for r in need)


@prop("D01")
def apart(ctx):
    R = "D01.apart"
    ctx.rule(R, "each store of an environment has a name of its own, is opened whenever the environment is, and all of them fit", 150)
    w = World(ctx.model)
    for anchor in ("Baser", "Keeper", "Reger", "Noter", "Mailboxer", "RegBaser", "WebRegBaser"):
        if anchor not in w.envs:
            raise AnalysisBroken(f"environment vanished: {anchor}")
    for n in sorted(w.envs):
        c = w.envs[n]
        got = w.made(n)
        if n in ("RegBaser", "WebRegBaser"):
            got = got + w.made("RegistryStore", ("self.baser", "baser"), {})
        ctx.need(bool(got), R, f"{n}:stores", f"{c.mod.rel}:{c.node.lineno} {n}", "an environment opens no store")
        keys = {}
        for key, kind, k, call, always in got:
            wh = f"{k.mod.rel}:{call.lineno} {k.name}"
            if key is None:
                raise AnalysisBroken(f"{wh}: the name of a store is made at run time")
            ctx.need(key not in keys, R, f"{n}:{key}", wh, f"two kinds of record are kept under one name {key!r}: each reads, and removes, the other's")
            keys[key] = call
            ctx.need(always, R, f"{n}:{key} always", wh, f"the store {key!r} is not opened whenever its environment is")
        if n == "WebRegBaser":
            continue
        room = w.members(n).get("MaxNamedDBs")
        room = room.value if isinstance(room, ast.Constant) else None
        ctx.need(isinstance(room, int) and len(keys) <= room, R, f"{n}:room", f"{c.mod.rel}:{c.node.lineno} {n}", f"{len(keys)} stores are opened in an environment that has room for {room}: the last cannot be opened")


@prop("D01")
def used(ctx):
    R = "D01.used"
    ctx.rule(R, "every store, or method of an environment, that code names exists and takes what it is given", 900)
    w = World(ctx.model)
    envs = [n for n in w.envs] + [b for b in BASE if b in w.classes]
    storemeth = set()
    for k in w.storekinds:
        storemeth |= set(w.members(k))
    outside = {}
    for mod in ctx.model.modules.values():
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and last(x.value) in REFS:
                outside.setdefault(last(x.value), set()).add(x.attr)
    inherited = {"name", "base", "temp", "path", "env", "opened", "readonly", "headDirPath", "perm", "filed", "extensioned", "close", "reopen", "mode", "fext", "file", "exists", "remake"}
    for mod in ctx.model.modules.values():
        rel = mod.rel
        if not rel.startswith("src/keri/") or rel.endswith(ENGINE):
            continue
        up, scope = {}, {}
        todo = [(mod.tree, "")]
        while todo:
            x, s = todo.pop()
            for y in ast.iter_child_nodes(x):
                up[y] = x
                t = f"{s}.{y.name}".strip(".") if isinstance(y, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) else s
                scope[y] = t
                todo.append((y, t))
        for x in ast.walk(mod.tree):
            own = isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and w.envs.get(scope.get(x, "").split(".")[0])
            if not isinstance(x, ast.Attribute) or isinstance(x.ctx, ast.Store) or last(x.value) not in REFS and not own:
                continue
            ref, bare = last(x.value), isinstance(x.value, ast.Name)
            cand = [own] if own else [c for e in (REFS[ref] or envs) for c in w.classes.get(e, ())]
            wh = f"{rel}:{x.lineno} {scope.get(x, '')}"
            name = f"{scope.get(x, '')} {ast.unparse(x)}"
            at = [e for e in cand if x.attr in w.members(e)]
            if x.attr in inherited or x.attr in outside.get(ref, ()) or bare and x.attr in storemeth or x.attr.startswith("__"):
                continue
            if not ctx.need(bool(at), R, name, wh, f"nothing {ref} can be has {x.attr}: this ends in an error whenever it is reached"):
                continue
            y = up.get(x)
            if isinstance(y, ast.Call) and y.func is x:
                fs = [w.members(e)[x.attr] for e in at]
                ctx.need(any(not isinstance(f, ast.FunctionDef) or binds(f, y) for f in fs), R, f"{name} call", wh, f"{x.attr} is called with arguments it does not take")
            elif isinstance(y, ast.Attribute):
                z, ok, why = up.get(y), False, f"the store {x.attr} has no {y.attr}"
                for e in at:
                    v = w.members(e)[x.attr]
                    kind = last(v.func) if isinstance(v, ast.Call) else None
                    if kind not in w.storekinds:
                        ok = True
                        continue
                    f = w.members(kind).get(y.attr)
                    if f is None:
                        continue
                    if isinstance(z, ast.Call) and z.func is y and isinstance(f, ast.FunctionDef) and not binds(f, z):
                        why = f"{kind}.{y.attr} is called on {x.attr} with arguments it does not take"
                        continue
                    ok = True
                ctx.need(ok, R, f"{name}.{y.attr}", wh, f"{why}: this ends in an error whenever it is reached")
