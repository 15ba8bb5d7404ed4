"""Whole-repository program model built from the syntax tree of the current /repo.

Nothing of /repo is imported or executed; every file is parsed with `ast`.
"""
import ast
import hashlib
import os

from .fold import fold

REPO = os.environ.get("KSTAT_REPO", "/repo")
SRC = "src"


class AnalysisBroken(Exception):
    """An anchor the rules need has vanished, or a source construct is beyond the analysis."""


class Func:
    __slots__ = ("name", "qual", "node", "mod", "cls", "isgen", "isprop", "isstatic", "isclsm", "params",
                 "isasync", "__weakref__")

    def __init__(self, node, mod, cls):
        self.node, self.mod, self.cls = node, mod, cls
        self.name = node.name
        self.qual = (cls.name + "." if cls else "") + node.name
        decs = [ast.unparse(d) for d in node.decorator_list]
        self.isprop = any(d in ("property", "cached_property", "functools.cached_property") for d in decs)
        self.isstatic = "staticmethod" in decs
        self.isclsm = "classmethod" in decs
        self.isasync = isinstance(node, ast.AsyncFunctionDef)
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.isgen = _has_yield(node)

    @property
    def kwonly(self):
        return [x.arg for x in self.node.args.kwonlyargs]

    @property
    def allparams(self):
        return self.params + self.kwonly

    @property
    def haskwargs(self):
        return self.node.args.kwarg is not None

    @property
    def hasvarargs(self):
        return self.node.args.vararg is not None

    def defaults(self):
        a = self.node.args
        pos = a.posonlyargs + a.args
        out = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = d
        return out

    @property
    def where(self):
        return f"{self.mod.rel}:{self.node.lineno} {self.qual}"

    def __repr__(self):
        return f"<Func {self.mod.rel}:{self.qual}>"


def _has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Cls:
    __slots__ = ("name", "node", "mod", "bases", "methods", "setters", "attrs", "_mro", "__weakref__")

    def __init__(self, node, mod):
        self.name, self.node, self.mod = node.name, node, mod
        self.bases = [ast.unparse(b) for b in node.bases]
        self.methods, self.setters, self.attrs = {}, {}, {}
        self._mro = None
        self._collect(node.body)

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decs = [ast.unparse(d) for d in n.decorator_list]
                f = Func(n, self.mod, self)
                if any(d.endswith(".setter") for d in decs):
                    self.setters[n.name] = f
                elif any(d.endswith(".deleter") for d in decs):
                    pass
                else:
                    self.methods[n.name] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(n.value, ast.Name) and n.value.id in self.methods:
                            self.methods[t.id] = self.methods[n.value.id]
                        else:
                            self.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.attrs[n.target.id] = n.value
            elif isinstance(n, (ast.If, ast.Try)):
                self._collect(n.body)

    def __repr__(self):
        return f"<Cls {self.mod.rel}:{self.name}>"


class Module:
    def __init__(self, rel, dotted, text):
        self.rel, self.dotted, self.text = rel, dotted, text
        self.tree = fold(ast.parse(text, rel))
        self.digest = hashlib.sha256(text.encode()).hexdigest()[:12]
        self.funcs, self.classes, self.consts, self.imports = {}, {}, {}, {}
        self.ispkg = rel.endswith("__init__.py")
        self._collect(self.tree.body)

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = Func(n, self, None)
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = Cls(n, self)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.consts[n.target.id] = n.value
            elif isinstance(n, ast.ImportFrom):
                base = self._relbase(n)
                for a in n.names:
                    self.imports[a.asname or a.name] = (base, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (a.name, None)
            elif isinstance(n, ast.If):
                self._collect(n.body)
                self._collect(n.orelse)
            elif isinstance(n, ast.Try):
                self._collect(n.body)
                for h in n.handlers:
                    self._collect(h.body)

    def _relbase(self, n):
        if not n.level:
            return n.module or ""
        parts = self.dotted.split(".")
        if not self.ispkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        if n.module:
            parts = parts + n.module.split(".")
        return ".".join(parts)


class Model:
    def __init__(self, repo=REPO, only=None):
        self.repo = repo
        self.modules = {}      # dotted -> Module
        self.byrel = {}
        roots = [(os.path.join(repo, "src"), ""), (os.path.join(repo, "tools"), "tools")]
        for root, pre in roots:
            for d, dirs, files in os.walk(root):
                dirs[:] = [x for x in sorted(dirs) if x not in ("__pycache__", "node_modules") and
                           not x.endswith(".egg-info")]
                for f in sorted(files):
                    if not f.endswith(".py"):
                        continue
                    if pre == "tools" and f.startswith("test_"):
                        continue
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, repo)
                    if only and not any(rel.startswith(o) for o in only):
                        continue
                    mp = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if mp.endswith(".__init__"):
                        mp = mp[:-9]
                    elif mp == "__init__":
                        mp = ""
                    dotted = (pre + "." if pre else "") + mp
                    with open(p, encoding="utf-8") as fh:
                        text = fh.read()
                    try:
                        m = Module(rel, dotted, text)
                    except SyntaxError as ex:
                        raise AnalysisBroken(f"cannot parse {rel}: {ex}")
                    self.modules[dotted] = m
                    self.byrel[rel] = m
        self.rel_alias = {}

    def overlay(self, rel, text):
        """a model with one file replaced (used only while developing the rules)"""
        m = object.__new__(Model)
        m.repo, m.modules, m.byrel, m.rel_alias = self.repo, dict(self.modules), dict(self.byrel), {}
        old = self.byrel[rel]
        new = Module(rel, old.dotted, text)
        m.modules[old.dotted] = new
        m.byrel[rel] = new
        for mod in m.modules.values():
            for c in mod.classes.values():
                c._mro = None
        return m

    # -- lookups -------------------------------------------------------
    def mod(self, rel):
        m = self.byrel.get(rel) or self.byrel.get("src/keri/" + rel)
        if m is None:
            raise AnalysisBroken(f"module vanished: {rel}")
        return m

    def cls(self, rel, name):
        c = self.mod(rel).classes.get(name)
        if c is None:
            raise AnalysisBroken(f"class vanished: {rel}:{name}")
        return c

    def func(self, rel, qual):
        m = self.mod(rel)
        if "." in qual:
            c, n = qual.split(".", 1)
            k = self.cls(rel, c)
            f = self.method(k, n)
        else:
            f = m.funcs.get(qual)
        if f is None:
            raise AnalysisBroken(f"function vanished: {rel}:{qual}")
        return f

    def resolve(self, mod, name, seen=None):
        """name in module scope -> Func | Cls | Module | ('const', Module, node) | None"""
        seen = seen or set()
        if (mod.dotted, name) in seen:
            return None
        seen.add((mod.dotted, name))
        if name in mod.classes:
            return mod.classes[name]
        if name in mod.funcs:
            return mod.funcs[name]
        if name in mod.consts:
            v = mod.consts[name]
            if isinstance(v, ast.Name) and v.id != name:
                r = self.resolve(mod, v.id, seen)
                if r is not None:
                    return r
            return ("const", mod, v)
        if name in mod.imports:
            base, attr = mod.imports[name]
            if attr is None:
                return self.modules.get(base)
            sub = self.modules.get(f"{base}.{attr}" if base else attr)
            m = self.modules.get(base)
            if m is not None:
                r = self.resolve(m, attr, seen)
                if r is not None:
                    return r
            if sub is not None:
                return sub
            # namespace: repository imports `keri` as package rooted at src/keri
        return None

    def mro(self, c):
        if c._mro is None:
            out = [c]
            for b in c.bases:
                parts = b.split(".")
                r = self.resolve(c.mod, parts[0])
                for p in parts[1:]:
                    if isinstance(r, Module):
                        r = self.resolve(r, p)
                    elif isinstance(r, Cls):
                        r = None
                if isinstance(r, Cls) and r is not c:
                    for k in self.mro(r):
                        if k in out:
                            out.remove(k)
                        out.append(k)
            c._mro = out
        return c._mro

    def method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def subclasses(self, c):
        out = []
        for m in self.modules.values():
            for k in m.classes.values():
                if k is not c and c in self.mro(k):
                    out.append(k)
        return out

    def all_funcs(self, prefix=None):
        for rel, m in sorted(self.byrel.items()):
            if prefix and not rel.startswith(prefix):
                continue
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                seen = set()
                for f in list(c.methods.values()) + list(c.setters.values()):
                    if id(f) not in seen and f.cls is c:
                        seen.add(id(f))
                        yield f

    def exc_is(self, name, base):
        """Is exception class `name` (a bare name) a subclass of `base` (bare name)?"""
        if name == base:
            return True
        if base in ("Exception", "BaseException"):
            return True
        table = self._exc_table()
        seen, todo = set(), [name]
        while todo:
            n = todo.pop()
            if n == base:
                return True
            if n in seen:
                continue
            seen.add(n)
            todo.extend(table.get(n, ()))
        return False

    def _exc_table(self):
        if not hasattr(self, "_exct"):
            t = {"KeyError": ["LookupError"], "IndexError": ["LookupError"], "UnicodeDecodeError": ["UnicodeError"],
                 "UnicodeError": ["ValueError"], "JSONDecodeError": ["ValueError"], "ZeroDivisionError": ["ArithmeticError"],
                 "OverflowError": ["ArithmeticError"], "FileNotFoundError": ["OSError"], "NotImplementedError": ["RuntimeError"],
                 "StopIteration": []}
            for m in self.modules.values():
                for c in m.classes.values():
                    bs = [b.split(".")[-1] for b in c.bases]
                    if c.name.endswith(("Error", "Exception", "Ghost")) or any(
                            b in ("Exception",) or b.endswith("Error") for b in bs):
                        t.setdefault(c.name, bs)
            self._exct = t
        return self._exct
