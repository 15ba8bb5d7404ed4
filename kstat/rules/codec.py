"""Ordinal key codec (web and LMDB stores): fixed-width encoding, exact inverse, separator forwarding."""
import ast

from . import prop
from ..engine import A, C, FALSE, G, NONE, P, T, TRUE, Walker, call_parts, entails, iscon, mk, show, subterms
from ..model import AnalysisBroken

WEB = "src/keri/db/webdbing.py"
DBING = "src/keri/db/dbing.py"
SUBING = "src/keri/db/subing.py"
KOMING = "src/keri/db/koming.py"


def plain(t):
    """strip conversions that keep the text: bytes(), .encode(), .decode(), str() of bytes"""
    while True:
        if t.k == "call" and t.a[0] is G("bytes") and len(t.a[1]) == 1 and not t.a[2]:
            t = t.a[1][0]
        elif t.k == "call" and t.a[0].k == "a" and t.a[0].a[1] in ("encode", "decode", "tobytes") and \
                all(iscon(x) for x in t.a[1]):
            t = t.a[0].a[0]
        elif t.k == "call" and t.a[0] is G("tuple") and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.k == "call" and t.a[0] is G("list") and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            return t


def text(t):
    """constant as text, else None"""
    if iscon(t):
        v = t.a[0]
        if isinstance(v, bytes):
            return v.decode("latin-1")
        if isinstance(v, str):
            return v
    return None


def shape(t):
    """string term -> list of parts: ('s', const text) ('v', term) ('f', spec, term); None when not understood"""
    t = plain(t)
    c = text(t)
    if c is not None:
        return [("s", c)] if c else []
    if t.k == "bin" and t.a[0] in ("%", "Mod"):
        fmt = text(t.a[1])
        if fmt is None:
            return None
        args = list(t.a[2].a[0]) if t.a[2].k == "tup" else [t.a[2]]
        out, i = [], 0
        buf = ""
        while i < len(fmt):
            ch = fmt[i]
            if ch != "%":
                buf += ch
                i += 1
                continue
            j = i + 1
            while j < len(fmt) and fmt[j] not in "sdxXrbi%":
                j += 1
            if j >= len(fmt):
                return None
            spec = fmt[i + 1:j + 1]
            i = j + 1
            if spec == "%":
                buf += "%"
                continue
            if not args:
                return None
            if buf:
                out.append(("s", buf))
                buf = ""
            a = args.pop(0)
            if spec in ("s", "b"):
                sub = shape(a)
                out += sub if sub is not None else [("v", plain(a))]
            else:
                out.append(("f", spec, a))
        if buf:
            out.append(("s", buf))
        return out if not args else None
    if t.k == "bin" and t.a[0] in ("+", "Add"):
        a, b = shape(t.a[1]), shape(t.a[2])
        return None if a is None or b is None else a + b
    if t.k == "call" and t.a[0].k == "a" and t.a[0].a[1] == "join" and len(t.a[1]) == 1:
        sep = t.a[0].a[0]
        seq = t.a[1][0]
        items = None
        if seq.k == "tup":
            items = list(seq.a[0])
        elif seq.k == "new" and seq.a[2]:
            items = list(seq.a[2])
        if items is None:
            return None
        sp = shape(sep)
        sp = sp if sp is not None else [("v", plain(sep))]
        out = []
        for i, x in enumerate(items):
            if i:
                out += sp
            s = shape(x)
            out += s if s is not None else [("v", plain(x))]
        return out
    if t.k == "fstr":
        out = []
        for x in t.a[0]:
            if isinstance(x, T):
                s = shape(x)
                out += s if s is not None else [("v", plain(x))]
        return out
    if t.k == "fmt":
        v, spec = t.a[0], t.a[1] if len(t.a) > 1 else ""
        sp = spec if isinstance(spec, str) else (text(spec) if isinstance(spec, T) else None)
        if sp and sp[:2] in ("f'", 'f"') and "{" not in sp:
            sp = sp[2:-1]
        if sp:
            return [("f", sp, v)]
        s = shape(v)
        return s if s is not None else [("v", plain(v))]
    if t.k == "call" and t.a[0] is G("format") and len(t.a[1]) == 2:
        sp = text(t.a[1][1])
        return [("f", sp, t.a[1][0])] if sp is not None else None
    if t.k == "call" and t.a[0].k == "a" and t.a[0].a[1] in ("zfill", "rjust") and t.a[1] and iscon(t.a[1][0]):
        if t.a[0].a[1] == "rjust" and not (len(t.a[1]) > 1 and text(t.a[1][1]) == "0"):
            return None
        inner = shape(t.a[0].a[0])
        if inner is None:
            inner = hexof(plain(t.a[0].a[0]))
        if inner and len(inner) == 1 and inner[0][0] == "f" and inner[0][1] == "x":
            return [("f", f"0{t.a[1][0].a[0]}x", inner[0][2])]
        return None
    h = hexof(t)
    if h:
        return h
    return [("v", t)]


def hexof(t):
    # hex(n)[2:]
    if t.k == "sub" and t.a[0].k == "call" and t.a[0].a[0] is G("hex") and show(t.a[1]) in ("2:", "slice(2, None, None)", "[2:]"):
        return [("f", "x", t.a[0].a[1][0])]
    return None


def norm(parts):
    out = []
    for p in parts:
        if p[0] == "f":
            out.append(("f", p[1].lstrip() if p[1] in ("032x", "32x") else p[1], p[2]))
        else:
            out.append(p)
    return out


def isconv(t, root):
    return plain(t) is root


@prop("W06")
def w06(ctx):
    """ordinal keys: fixed-width encoding and exact inverse; every operation uses its own separator throughout"""
    R1 = "W06.encode-fixed-width"
    ctx.rule(R1, "an ordinal is written as exactly 32 zero-padded lowercase hex digits after the separator given, so byte order is "
                 "numeric order", 6)
    R2 = "W06.decode-inverse"
    ctx.rule(R2, "decoding splits at the rightmost separator given and reads the tail in base 16: the inverse of encoding, also for "
                 "keys that contain the separator", 6)
    R3 = "W06.separator-forwarded"
    ctx.rule(R3, "an operation given a separator passes that same separator to every codec and store operation it calls", 150)
    R4 = "W06.max-ordinal"
    ctx.rule(R4, "the maximum ordinal is the largest value that fits the 32 digits", 2)
    R5 = "W06.memoryview"
    ctx.rule(R5, "keys read from a cursor (memoryview) are converted before being split or joined", 6)
    R6 = "W06.defaults"
    ctx.rule(R6, "all operations share the same default separator and start at ordinal 0 by default", 100)
    for rel in (WEB, DBING):
        m = ctx.model.mod(rel)
        encs = {"onKey": ("top", "on"), "suffix": ("key", "ion")}
        for name, (pk, pn) in encs.items():
            f = ctx.model.func(rel, name)
            w = ctx.walk(Walker(ctx.model), f)
            n = 0
            for kind, st, v, node in w.exits:
                if kind != "return" or v is None:
                    continue
                n += 1
                sh = shape(v)
                ok = sh is not None and len(sh) == 3 and sh[0] == ("v", P(pk)) and sh[1] == ("v", P("sep")) and \
                    sh[2][0] == "f" and sh[2][1] == "032x" and plain(sh[2][2]) is P(pn)
                if ok:
                    ctx.ok(R1, f"{rel}:{name} path {n}")
                else:
                    ctx.bad(R1, f"{rel}:{name}", f"{rel}:{getattr(node, 'lineno', 0)} {name}",
                            f"key is built as {show(v)[:140]}, not {pk} + separator + 32 lowercase hex digits")
                if name == "suffix":
                    mv(ctx, R5, rel, f, name, st, v, P(pk), node)
            ctx.need(n > 0, R1, f"{rel}:{name} returns", f.where, "never returns a key", construct=f"{rel}:{name}")
        for name, pk in {"splitOnKey": "key", "unsuffix": "iokey"}.items():
            f = ctx.model.func(rel, name)
            w = ctx.walk(Walker(ctx.model), f)
            n = 0
            for kind, st, v, node in w.exits:
                if kind != "return" or v is None:
                    continue
                n += 1
                c = f"{rel}:{name}"
                wh = f"{rel}:{getattr(node, 'lineno', 0)} {name}"
                good, why = inverse(v, P(pk))
                ctx.need(good, R2, f"{c} path {n}", wh, why, construct=c)
                mv(ctx, R5, rel, f, name, st, v, P(pk), node)
            ctx.need(n > 0, R2, f"{rel}:{name} returns", f.where, "never returns", construct=f"{rel}:{name}")
        # maximum ordinal
        val = const_of(ctx, m, "MaxON")
        ctx.need(val == 16 ** 32 - 1, R4, f"{rel}:MaxON", rel, f"maximum ordinal is {val}, not 16**32 - 1")
    seps(ctx, R3)
    defaults(ctx, R6)


def mv(ctx, R, rel, f, name, st, v, root, node):
    """the root parameter is used raw only on paths where it is known not to be a memoryview"""
    raw = uses_raw(v, root)
    t = mk("call", G("isinstance"), (root, G("memoryview")), ())
    if raw:
        known = [p for x, p in st.facts if x is t or (x.k == "call" and x.a[0] is G("isinstance") and root in x.a[1] and
                                                       G("memoryview") in subterms(x))]
        notmv = any(not p for p in known) or any(
            x.k == "call" and x.a[0] is G("isinstance") and root in x.a[1] and p and G("memoryview") not in subterms(x)
            for x, p in st.facts) or any(x.k == "call" and x.a[0] is G("hasattr") and root in x.a[1] and p for x, p in st.facts)
        ctx.need(notmv, R, f"{rel}:{name} raw use", f"{rel}:{getattr(node, 'lineno', 0)} {name}",
                 "the key may be a memoryview here, which cannot be split or joined as text", construct=f"{rel}:{name}")
    else:
        ctx.ok(R, f"{rel}:{name} converted")


def uses_raw(t, root):
    """root occurs outside a bytes()/encode()/tobytes() conversion"""
    if t is root:
        return True
    if t.k == "call" and (t.a[0] is G("bytes") and t.a[1] and t.a[1][0] is root or
                          t.a[0].k == "a" and t.a[0].a[0] is root and t.a[0].a[1] in ("encode", "tobytes")):
        return False
    from ..engine import children
    return any(uses_raw(c, root) for c in children(t))


def inverse(v, root):
    if v.k != "tup" or len(v.a[0]) != 2:
        return False, f"returns {show(v)[:100]}, not (key, ordinal)"
    k, o = v.a[0]
    if not (o.k == "call" and o.a[0] is G("int")):
        return False, f"ordinal {show(o)[:100]} is not read back as an integer"
    args = list(o.a[1]) + [x for n, x in o.a[2] if n == "base"]
    if len(args) != 2 or args[1] is not C(16):
        return False, f"ordinal {show(o)[:120]} is not read in base 16"
    ko, ks = plain(args[0]), plain(k)
    if ko.k != "sub" or ks.k != "sub" or ko.a[0] is not ks.a[0] and plain(ko.a[0]) is not plain(ks.a[0]):
        return False, "branch and ordinal do not come from one split of the key"
    s = plain(ks.a[0])
    if not (s.k == "call" and s.a[0].k == "a"):
        return False, f"{show(s)[:80]} is not a split of the key"
    meth, recv = s.a[0].a[1], plain(s.a[0].a[0])
    if recv is not root:
        return False, f"splits {show(recv)[:60]} instead of the key"
    a = list(s.a[1])
    kw = dict(s.a[2])
    sp = a[0] if a else kw.get("sep", NONE)
    if plain(sp) is not P("sep"):
        return False, f"splits at {show(sp)[:40]} instead of the separator given"
    if meth == "rsplit":
        mx = a[1] if len(a) > 1 else kw.get("maxsplit", NONE)
        if mx is not C(1):
            return False, "does not split off exactly the rightmost part"
        want = ((C(0), C(1)), (C(-2), C(-1)), (C(0), C(-1)))
    elif meth == "rpartition":
        want = ((C(0), C(2)), (C(0), C(-1)))
    else:
        return False, f"{meth} does not split at the rightmost separator"
    if (ks.a[1], ko.a[1]) not in want:
        return False, "branch and ordinal parts are exchanged or mis-indexed"
    return True, ""


def const_of(ctx, m, name, depth=0):
    node = m.consts.get(name) if hasattr(m, "consts") else None
    if node is None:
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                node = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                node = s.value
    if node is not None and isinstance(node, ast.AST):
        return fold(node, lambda n: const_of(ctx, m, n, depth + 1) if depth < 5 else None)
    imp = m.imports.get(name) if hasattr(m, "imports") else None
    for s in ast.walk(m.tree):
        if isinstance(s, ast.ImportFrom):
            for al in s.names:
                if (al.asname or al.name) == name and s.module:
                    for rel, mm in ctx.model.byrel.items():
                        if rel.endswith(s.module.split(".")[-1] + ".py") and depth < 5 and rel.startswith("src/keri"):
                            r = const_of(ctx, mm, al.name, depth + 1)
                            if r is not None:
                                return r
    return None


def fold(n, look):
    """constant folding of simple literal expressions"""
    try:
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            return look(n.id)
        if isinstance(n, ast.BinOp):
            a, b = fold(n.left, look), fold(n.right, look)
            if a is None or b is None:
                return None
            op = type(n.op).__name__
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Pow": lambda: a ** b if abs(b) < 4096 else None,
                    "LShift": lambda: a << b, "FloorDiv": lambda: a // b}.get(op, lambda: None)()
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -fold(n.operand, look)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "int":
            args = [fold(a, look) for a in n.args] + [fold(k.value, look) for k in n.keywords]
            return int(*args) if None not in args else None
    except Exception:
        return None
    return None


CODEC_FNS = {"onKey", "splitOnKey", "suffix", "unsuffix"}


def seps(ctx, R):
    """every call that can take the separator gets the caller's own"""
    m = ctx.model
    sepfuncs = {}        # method name -> defining modules with a sep parameter (DBer classes)
    for rel in (WEB, DBING):
        for k in m.mod(rel).classes.values():
            for n, f in k.methods.items():
                if "sep" in f.allparams:
                    sepfuncs.setdefault(n, set()).add(rel)
    for rel in (WEB, DBING):
        for f in m.all_funcs():
            if f.mod.rel != rel or "sep" not in f.allparams or f.name in ("onKey", "splitKey", "suffix", "unsuffix"):
                continue
            ctx.saw(f)
            w = Walker(m, inline=lambda *_: False) if False else Walker(m, depth=0)
            try:
                w.run(f)
            except AnalysisBroken:
                raise
            n = 0
            for e in w.events:
                if e.kind not in ("call", "enter"):
                    continue
                p = call_parts(e.term)
                if p is None:
                    continue
                fn, args, kw = p
                nm = fn.a[0] if fn.k == "g" else (fn.a[1] if fn.k == "a" else None)
                nm = nm.split(".")[-1] if isinstance(nm, str) else nm
                is_codec = fn.k == "g" and nm in CODEC_FNS
                is_store = fn.k == "a" and fn.a[0] is P("self") and rel in sepfuncs.get(nm, ())
                if not (is_codec or is_store):
                    continue
                n += 1
                got = kw.get("sep")
                if got is None:
                    got = positional(m, rel, nm, args)
                ctx.need(got is not None and plain(got) is P("sep"), R, f"{rel}:{f.qual} -> {nm}", e.where,
                         f"calls {nm} with {'no separator (the default applies)' if got is None else show(got)} instead of its own "
                         f"separator: keys of stores with another separator are mis-split", construct=f"{rel}:{f.qual}->{nm}")
    for rel in (SUBING, KOMING):
        for f in m.all_funcs():
            if f.mod.rel != rel or f.cls is None:
                continue
            calls = [x for x in ast.walk(f.node) if isinstance(x, ast.Call)]
            cand = []
            for c in calls:
                if isinstance(c.func, ast.Attribute) and c.func.attr in sepfuncs and DBING in sepfuncs[c.func.attr] and \
                        isinstance(c.func.value, ast.Attribute) and c.func.value.attr == "db":
                    cand.append(c)
                elif isinstance(c.func, ast.Name) and c.func.id in CODEC_FNS or \
                        isinstance(c.func, ast.Attribute) and c.func.attr in CODEC_FNS and isinstance(c.func.value, ast.Name):
                    cand.append(c)
            if not cand:
                continue
            ctx.saw(f)
            w = Walker(m, depth=0)
            w.run(f)
            ids = {id(c) for c in cand}
            seen = set()
            for e in w.events:
                if e.kind not in ("call", "enter") or id(e.node) not in ids and not (
                        isinstance(e.node, ast.Call) and id(e.node) in ids):
                    continue
                p = call_parts(e.term)
                if p is None:
                    continue
                seen.add(id(e.node))
                nm = e.node.func.attr if isinstance(e.node.func, ast.Attribute) else e.node.func.id
                got = p[2].get("sep")
                ok = got is not None and plain(got) is A(P("self"), "sep")
                ctx.need(ok, R, f"{rel}:{f.qual} -> {nm}", e.where,
                         f"calls {nm} with {'no separator (the default applies)' if got is None else show(got)} instead of the "
                         f"store's own separator", construct=f"{rel}:{f.qual}->{nm}")


def positional(m, rel, nm, args):
    for f in m.all_funcs():
        if f.mod.rel == rel and f.name == nm and "sep" in f.allparams:
            ps = [p for p in f.params if p != "self"]
            if "sep" not in ps:
                return None
            i = ps.index("sep")
            if i < len(args):
                return args[i]
    return None


def defaults(ctx, R):
    for rel in (WEB, DBING):
        for f in ctx.model.all_funcs():
            if f.mod.rel != rel:
                continue
            a = f.node.args
            pos = a.posonlyargs + a.args
            d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
            d.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
            for pn, ok in (("sep", (b".",)), ("on", (0, None)), ("ion", (0,))):
                if pn in d and isinstance(d[pn], ast.Constant):
                    v = d[pn].value
                    ctx.need(any(v == o and type(v) is type(o) for o in ok), R, f"{rel}:{f.qual} {pn}", f"{rel}:{f.node.lineno} {f.qual}",
                             f"default of {pn} is {v!r}", construct=f"{rel}:{f.qual}:{pn}")
