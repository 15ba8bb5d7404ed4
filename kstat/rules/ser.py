"""A message object exists only if its content, digests, version and size agree; a native serialization commits to every field."""
import ast
from . import prop
from ..engine import PHI
from .corelib import *
from .rct import norm, same
from .rpy import reads, prim
from .esc import comps, hist_calls, caught
from .qry import default

SER = "src/keri/core/serdering.py"
SELF = P("self")
SOP = {"_validate", "_compute", "deversify", "versify", "dumps", "loads", "_dumps", "_loads", "pretty", "smell", "sniff", "_inhale", "_exhale", "_verify", "makify", "_makify", "encodeB64"}
SIZED = "('JSON', 'CBOR', 'MGPK')"


def copyof(t, of):
    """t is a copy of (not the same object as) value `of`"""
    n = fname(t)
    if n in ("copy", "deepcopy"):
        a = arg(t, 0, "x")
        return (a if a is not None else recv(t)) is of
    if n in ("dict", "Dict"):
        return arg(t, 0) is of
    return t is not None and t.k in ("dict", "comp") and of in set(subterms(t)) and (t.k == "comp" or "**" in show(t))


def swallowed(x, names=("_verify", "verify", "_inhale", "_exhale", "loads")):
    """a failure of one of the named calls may have been ignored on the way here"""
    return any(h.k == "caught" and h.a[0].k == "exc" and any(n in show(h.a[0]) for n in names) for h in x.hist)


def strset(t, atoms):
    """membership truth table of a set expression over (alls, opts, sad)"""
    A0, O0, S0 = atoms
    n = fname(t)
    if n in ("oset", "set", "frozenset", "list", "tuple", "OrderedSet", "sorted", "keys", "dict", "copy") and not (n in ("oset", "set", "frozenset", "list", "tuple", "OrderedSet", "sorted", "dict") and arg(t, 0) is None):
        return strset(arg(t, 0) if arg(t, 0) is not None else recv(t), atoms)
    if t is A0:
        return lambda a, o, s: a
    if t is O0:
        return lambda a, o, s: o
    if t in S0:
        return lambda a, o, s: s
    op = None
    if t is not None and t.k == "bin":
        op, l, r = t.a[0], t.a[1], t.a[2]
    elif n in ("difference", "intersection", "union"):
        op, l, r = {"difference": "-", "intersection": "&", "union": "|"}[n], recv(t), arg(t, 0)
    if op is not None:
        f, g = strset(l, atoms), strset(r, atoms)
        if f is None or g is None:
            return None
        nm = str(op)
        if nm in ("-", "Sub"):
            return lambda a, o, s: f(a, o, s) and not g(a, o, s)
        if nm in ("&", "BitAnd"):
            return lambda a, o, s: f(a, o, s) and g(a, o, s)
        if nm in ("|", "BitOr"):
            return lambda a, o, s: f(a, o, s) or g(a, o, s)
    if t is not None and t.k == "comp":
        return None
    return None


def sameset(t, want, atoms):
    f = strset(t, atoms)
    if f is None:
        return False
    rows = [(a, o, s) for a in (0, 1) for o in (0, 1) for s in (0, 1) if not (o and not a)]
    return all(bool(f(*r)) == bool(want(*r)) for r in rows)


# ---------------------------------------------------------------- construction
@prop("S01")
def s01_gate(ctx):
    R = "S01.gate"
    ctx.rule(R, "a message object is made only after verification of its content, unless the caller asked not to; what failed to read or verify is refused", 8)
    q = Q(ctx, SER, "Serder.__init__", SOP, limit=400)
    ctx.need(default(ctx, SER, "Serder.__init__", "verify") is TRUE, R, f"{q.qual}:verify by default", q.where(), "messages are not verified unless asked for")
    ctx.need(default(ctx, SER, "Serder.__init__", "makify") is FALSE, R, f"{q.qual}:no makify by default", q.where(), "messages get their digests recomputed unless asked not to")
    n = {"raw": 0, "sad": 0, "make": 0}
    for st, v, nd in q.exits():
        cs = hist_calls(st)
        ver = any(fname(t) in ("_verify",) and recv(t) is SELF for t in cs)
        ctx.need(q.holds(st, "not verify") or ver and not swallowed(st, ("_verify",)), R, f"{q.qual}:verified", q.where(nd), "a message object comes into being without verification of its content")
        if q.holds(st, "raw"):
            n["raw"] += 1
            ok = any(fname(t) == "_inhale" and arg(t, 0, "raw") is P("raw") and arg(t, None, "smellage") is P("smellage") and arg(t, None, "strip") is P("strip") for t in cs)
            ctx.need(ok and not swallowed(st, ("_inhale",)), R, f"{q.qual}:raw", q.where(nd), "the message is not read from the given serialization")
            ctx.need(not any(fname(t) in ("makify", "_exhale") for t in cs), R, f"{q.qual}:raw kept", q.where(nd), "a received serialization is replaced by a computed one")
        else:
            k = "make" if q.holds(st, "makify") else "sad"
            n[k] += 1
            want = "makify" if k == "make" else "_exhale"
            ctx.need(any(fname(t) == want and arg(t, 0, "sad") is P("sad") for t in cs) and not swallowed(st, (want,)), R, f"{q.qual}:{k}", q.where(nd), "the message is not serialized from the given fields")
            if k == "make":
                mk = [t for t in cs if fname(t) == "makify"]
                for nm in ("proto", "pvrsn", "genus", "gvrsn", "kind", "ilk", "saids", "compactify"):
                    ctx.need(any(arg(t, None, nm) is P(nm) for t in mk), R, f"{q.qual}:makify {nm}", q.where(nd), f"the message is made with another {nm} than asked for")
            ctx.need(q.holds(st, "sad || makify"), R, f"{q.qual}:nothing given", q.where(nd), "a message object is made of nothing")
    for k in n:
        ctx.need(n[k] > 0, R, f"{q.qual}:route {k}", q.where(), "one way to construct a message is gone")
    firstsaid = q.term("list(self.Fields[self._proto][self._pvrsn][self.ilk].saids)[0]")
    for st, v, nd in q.exits():
        if not caught(st):
            last = [h for h in st.hist if h.k == "store" and h.a[0] is A(SELF, "_said") and h.a[1] is not NONE]
            ctx.need(bool(last), R, f"{q.qual}:said set", q.where(nd), "a message with a primary said field reports no digest")
    for e in q.w.events:
        if e.kind == "raise" and e.term is not None and fname(e.term) in ("FieldError", "DeserializeError"):
            labs = [t.a[0] for t, p in e.facts if t.k == "in" and t.a[1] in (A(SELF, "_sad"), P("sad"))]
            ctx.need(any(not p and t.k == "in" and t.a[1] in (A(SELF, "_sad"), P("sad")) for t, p in e.facts), R, f"{q.qual}:said missing", q.where(e.node), "a primary said field that is there is taken as missing")
    for e in q.stores("_said"):
        v = e.value
        ctx.need(v is NONE or any(v is q.w.mksub(b, l) for b in (A(SELF, "_sad"), P("sad")) for l in said_labels(q, e, v)), R, f"{q.qual}:said", q.where(e.node), "the digest a message reports is not that in its primary said field")
    # verify() reports what _verify decides
    q = Q(ctx, SER, "Serder.verify", SOP)
    for st, v, nd in q.exits():
        bad = bool(caught(st))
        ran = any(fname(t) == "_verify" and recv(t) is SELF for t in hist_calls(st))
        ctx.need(v is FALSE if bad else v is TRUE and ran, R, f"{q.qual}:verdict", q.where(nd), "the verdict is not that of the verification")
    # classes overriding it start from it
    m = ctx.model
    q = Q(ctx, SER, "SerderKERI._verify", SOP, limit=600)
    for st, v, nd in q.exits():
        ok = any(fname(t) == "_verify" and recv(t) is not SELF and ("super" in show(recv(t)) or recv(t) is G("Serder")) for t in hist_calls(st)) and not swallowed(st, ("_verify",))
        ctx.need(ok, R, f"{q.qual}:content", q.where(nd), "a KERI message is accepted without verification of its content")


def said_labels(q, e, v):
    """terms that stand for the first saidive label, as used in v"""
    if v.k != "sub":
        return []
    l = v.a[1]
    flds = [t for t in subterms(l) if t.k == "a" and t.a[1] == "saids"]
    good = any(fname(z) in ("list", "next", "iter", "tuple") for z in subterms(l)) and all(show(f).startswith("self.Fields[") for f in flds) and bool(flds)
    if good and (l.k != "sub" or l.a[1] is C(0)):
        return [l]
    return []


# ---------------------------------------------------------------- content agrees
@prop("S01")
def s01_whole(ctx):
    R = "S01.agree"
    ctx.rule(R, "verification recomputes the serialization from the fields and compares all of it, with version, kind and size, to what was received", 12)
    for cls in ("Serder", "SerderACDC"):
        q = Q(ctx, SER, cls + "._verify", SOP, limit=3000)
        val = [e for e in q.calls("_validate") if recv(e.term) is SELF]
        ctx.need(bool(val), R, f"{q.qual}:validated", q.where(), "fields are not validated")
        V = q.term("self._validate()")
        seen = 0
        for st, v, nd in q.exits():
            seen += 1
            cs = hist_calls(st)
            comp = [t for t in cs if fname(t) == "_compute" and recv(t) is SELF and arg(t, 0, "sad") is q.w.mksub(V, C(0)) and arg(t, 1, "saids") is q.w.mksub(V, C(1)) and arg(t, 2, "compactify") in (None, FALSE)]
            if not ctx.need(len(comp) == 1 and not swallowed(st, ("_compute", "_validate", "deversify")), R, f"{q.qual}:recomputed", q.where(nd), "the serialization is not recomputed from the validated fields"):
                continue
            K = comp[0]
            env = {"s": q.w.mksub(K, C(0)), "r": q.w.mksub(K, C(1))}
            ctx.need(q.holds(st, "r == self._raw || r == self.raw", env), R, f"{q.qual}:raw", q.where(nd), "a message is accepted whose serialization differs from that of its fields")
            dv = [t for t in cs if fname(t) == "deversify" and arg(t, 0, "vs") is q.w.mksub(env["s"], C("v"))]
            if not ctx.need(bool(dv), R, f"{q.qual}:version string", q.where(nd), "the version string is not read"):
                continue
            e2 = dict(env, d=dv[0])
            for i, a in ((0, "proto"), (1, "pvrsn"), (2, "kind"), (4, "gvrsn")):
                ctx.need(q.holds(st, f"self._{a} == d[{i}] || self._{a} == d.{a} || self.{a} == d[{i}]", e2), R, f"{q.qual}:{a}", q.where(nd), f"a message is accepted whose version string says another {a}")
            ctx.need(q.holds(st, f"self._kind in {SIZED} || self._size == len(r)", e2) and q.holds(st, f"self._kind not in {SIZED} || self._size == len(r) or self._size == d[3] || self._size == len(r) || self._size == d[3]", e2),
                     R, f"{q.qual}:size", q.where(nd), "a message is accepted whose size is not that of its serialization")
        ctx.need(seen > 0, R, f"{q.qual}:accepts", q.where(), "no message is ever accepted")


@prop("S01")
def s01_shape(ctx):
    R = "S01.fields"
    ctx.rule(R, "only messages of a known protocol, version and type with exactly the fields of that type in their order are accepted", 12)
    q = Q(ctx, SER, "Serder._validate", SOP, limit=600)
    F = q.term("self.Fields[self._proto][self._pvrsn][self.ilk]")
    SAD = A(SELF, "_sad")
    atoms = (A(F, "alls"), A(F, "opts"), (SAD, A(SELF, "sad")))
    env = {"F": F}
    sadc = sdc = None

    def forall(st, want, val):
        for t, p in st.facts:
            if t.k == "forall" and p and val(t) and want(t):
                return True
        return False

    def itercore(t):
        while fname(t) in ("enumerate", "zip", "items", "range", "list", "tuple"):
            t = arg(t, 0) if fname(t) != "items" else recv(t)
            if fname(t) == "len":
                t = arg(t, 0)
        return t
    for st, v, nd in q.exits():
        W = q.where(nd)
        for what, spec in (
                ("protocol required by class", "not self.Protocol or self.Protocol == self._proto"),
                ("protocol", "self._proto in self.Fields"),
                ("genus", "self._genus in GenDex"),
                ("genus of protocol", "getattr(GenDex, ProGen.get(self._proto), None) == self._genus"),
                ("genus version", "self._gvrsn is None or not self._gvrsn.major < 2"),
                ("native version", "self._kind != 'CESR' or not (self._pvrsn.major < 2 or (self._gvrsn is not None and self._gvrsn.major < 2))"),
                ("version", "self._pvrsn in self.Fields[self._proto]"),
                ("type", "self.ilk in self.Fields[self._proto][self._pvrsn]"),
                ("version field", "'v' in self._sad || 'v' in self.sad")):
            ctx.need(q.holds(st, spec), R, f"{q.qual}:{what}", W, f"a message is accepted though its {what} is not the required one")
        # no extra fields
        ok = False
        for cl in [frozenset([l]) for l in st.facts] + list(st.clauses):
            lits = list(cl)
            rest = [(t, p) for t, p in lits if not (t is A(F, "strict") and not p)]
            if lits and not rest:
                ok = True
            if len(rest) == 1 and not rest[0][1] and sameset(rest[0][0], lambda a, o, s: s and not a, atoms):
                ok = True
            if len(rest) == 1 and rest[0][1] and fname(rest[0][0]) == "issubset":
                ok = ok or sameset(recv(rest[0][0]), lambda a, o, s: s, atoms) and sameset(arg(rest[0][0], 0), lambda a, o, s: a, atoms)
        ctx.need(ok, R, f"{q.qual}:no extra fields", W, "a message of a strict type is accepted with fields that type does not have")
        # order and presence
        want = lambda a, o, s: a and (s or not o)

        def ordered(t):
            if not sameset(itercore(t.a[0]), want, atoms):
                return False
            b = t.a[1]
            if b.k != "eq":
                return False
            el = [z for z in b.a if z.k not in ("sub",) and "$" in show(z) and not any(s in set(subterms(z)) for s in atoms[2])]
            rd = [z for z in b.a if z.k in ("sub", "elem") or any(s in set(subterms(z)) for s in atoms[2])]
            return len(el) == 1 and len(rd) == 1 and any(sameset(z, lambda a, o, s: s, atoms) for z in subterms(rd[0]))
        ctx.need(forall(st, ordered, lambda t: True), R, f"{q.qual}:order", W, "a message is accepted with a field missing or out of order")
        # alternates exclude each other

        def alternates(t):
            it = itercore(t.a[0])
            b = t.a[1]
            if it is not A(F, "alts"):
                return False
            neg = [z for z in subterms(b) if z.k == "not" and z.a[0].k == "in"]
            return b.k == "or" and len(neg) == 2 and all(sameset(z.a[0].a[1], lambda a, o, s: s and o, atoms) or sameset(z.a[0].a[1], lambda a, o, s: s, atoms) for z in neg) and neg[0].a[0].a[0] is not neg[1].a[0].a[0] \
                or b.k == "not" and b.a[0].k == "and" and sum(1 for z in subterms(b) if z.k == "in") == 2
        ctx.need(forall(st, alternates, lambda t: True), R, f"{q.qual}:alternates", W, "a message is accepted with two fields that exclude each other")
        t = tup(v)
        good = t is not None and len(t) == 2
        if not good:
            sadc = sdc = None
        ctx.need(good and copyof(t[0], SAD) and copyof(t[1], A(F, "saids")), R, f"{q.qual}:copies", W, "what is validated is not a copy of the fields: the message itself, or the table of its type, would be changed")
        if good:
            its = [h.a[0] for h in st.hist if h.k == "looped"]
            ctx.need(any(x is t[1] or fname(x) in ("items", "keys", "list") and (recv(x) is t[1] or arg(x, 0) is t[1]) or x is A(F, "saids") for x in its), R, f"{q.qual}:each said", W, "not every said field is examined")
            sadc, sdc = t
    for e in q.w.events:
        if sdc is None:
            break
        if e.kind != "bodyend" or not (e.term is sdc or e.term is A(F, "saids") or fname(e.term) in ("items", "list", "keys") and sdc in set(subterms(e.term))):
            continue
        L = q.w.elem_of(e.term)
        if fname(e.term) == "items":
            L = q.w.elem_of(sdc) if q.w.elem_of(sdc) in {z for t, p in e.facts for z in subterms(t)} else L
        e3 = {"L": L, "S": sadc, "D": sdc}
        M = A(q.term("Matter(qb64=S[L])", e3), "_code")
        M2 = A(q.term("Matter(qb64=S[L])", e3), "code")
        sets = [(h.a[0], h.a[1]) for h in e.hist if h.k == "setitem"]
        coded = any(t.k == "sub" and t.a[0] is sdc and t.a[1] is L and v in (M, M2) for t, v in sets)
        dummied = any(t.k == "sub" and t.a[0] is sadc and t.a[1] is L and q.w.termof("self.Dummy * len(S[L])", e3) is v for t, v in sets)
        dig = q.holds(e, "D[L] in DigDex", e3) or any(p and t.k == "in" and t.a[1] is G("DigDex") for t, p in e.facts)
        ctx.need(coded or caught(e) and not dig, R, f"{q.qual}:said algorithm", q.where(e.node), "a digest is verified with another algorithm than it names, or a malformed one is accepted")
        ctx.need(dummied if dig else q.holds(e, "L == 'i'", e3), R, f"{q.qual}:said digestive", q.where(e.node), "a said field is accepted that is not a digest of the message")
    ctx.need(any(e.kind == "bodyend" for e in q.w.events), R, f"{q.qual}:saids", q.where(), "said fields are not examined")


@prop("S01")
def s01_refusals(ctx):
    R = "S01.refuse"
    ctx.rule(R, "a message is refused by its field check only for a reason of that check", 6)
    q = Q(ctx, SER, "Serder._validate", SOP, limit=600)
    F = q.term("self.Fields[self._proto][self._pvrsn][self.ilk]")
    SAD = A(SELF, "_sad")
    atoms = (A(F, "alls"), A(F, "opts"), (SAD, A(SELF, "sad")))
    core = lambda x: any(s in set(subterms(x)) for s in atoms[2])

    def extra(st):
        return (A(F, "strict"), True) in st.facts and any(p and sameset(t, lambda a, o, s: s and not a, atoms) or not p and fname(t) == "issubset" for t, p in st.facts)

    def misplaced(st):
        return any(t.k == "eq" and not p and any(core(z) for z in t.a) and any(A(F, "alls") in set(subterms(z)) for z in t.a) and any(z.k in ("sub", "elem") and core(z) for z in subterms(t)) for t, p in st.facts)

    def both(st):
        return sum(1 for t, p in st.facts if p and t.k == "in" and A(F, "alts") in set(subterms(t.a[0])) and core(t.a[1])) >= 2

    def subset(st):
        has = lambda z, a: A(F, a) in set(subterms(z))
        return any(not p and t.k == "lt" and has(t.a[0], "saids") and has(t.a[1], "alls") and not has(t.a[1], "saids") for t, p in st.facts) \
            or any(not p and t.k == "in" and t.a[1] is A(F, "alls") for t, p in st.facts)

    def said(st):
        return any(h.k == "caught" for h in st.hist) or any(not p and t.k == "in" and t.a[1] is G("DigDex") or not p and t.k == "in" and "DigDex" in show(t) for t, p in st.facts) and any(not p and t.k == "eq" and "'i'" in show(t) for t, p in st.facts)
    refuses_only(q, R, ["self.Protocol and self.Protocol != self._proto", "self._proto not in self.Fields", "self._genus not in GenDex", "getattr(GenDex, ProGen.get(self._proto), None) != self._genus",
                        "self._gvrsn is not None and self._gvrsn.major < 2", "self._kind == 'CESR' and (self._pvrsn.major < 2 or (self._gvrsn is not None and self._gvrsn.major < 2))",
                        "self._pvrsn not in self.Fields[self._proto]", "self.ilk not in self.Fields[self._proto][self._pvrsn]", "'v' not in self._sad",
                        extra, misplaced, both, subset, said], "a message is refused", ("ValidationError", "ExtraFieldError", "MissingFieldError", "AlternateFieldError", "ValueError"))
    ctx.need(any(True for _ in q.exits()), R, f"{q.qual}:accepts", q.where(), "no message is ever valid")


@prop("S01")
def s01_compute(ctx):
    R = "S01.digest"
    ctx.rule(R, "each digest field is the digest, by its own algorithm, of the whole serialization with sized version string and dummied digest fields", 10)
    for cls in ("Serder", "SerderACDC"):
        q = Q(ctx, SER, cls + "._compute", SOP | {"Compactor", "Aggor"}, limit=200, fresh=("dumps",))
        SD, SI = P("sad"), P("saids")
        memo = {}
        site = lambda e: f"{e.node.lineno}:{e.node.col_offset}"

        def made(x):
            """events at which a fresh dumps value was computed"""
            if x not in memo:
                hs = {}
                for e in q.w.events:
                    if e.kind == "call" and x.k == "fresh" and e.term is x.a[0] and site(e) == x.a[1]:
                        hs.setdefault((e.hist, e.facts), e)
                memo[x] = list(hs.values())
            return memo[x]

        def dumped(t):
            """the fields a dumps value serializes"""
            return arg(t, 0, "sad") if fname(t) == "dumps" and recv(t) is SELF and norm(arg(t, 1, "kind")) is A(SELF, "_kind") else None

        def isver(v, szof):
            if fname(v) != "versify":
                return False
            for k in ("proto", "pvrsn", "kind", "gvrsn"):
                if arg(v, None, k) is not A(SELF, "_" + k):
                    return False
            z = arg(v, None, "size")
            return fname(z) == "len" and szof(arg(z, 0))
        src = lambda d: d is not None and all(z is SD or copyof(z, SD) for z in comps(d))
        digs = [e for e in q.w.events if e.kind == "setitem" and e.term.k == "sub" and src(e.term.a[0]) and fname(e.value.a[0] if e.value is not None and e.value.k == "a" else e.value) == "Diger"]
        ctx.need(bool(digs), R, f"{q.qual}:digests", q.where(), "digest fields are not computed")
        for e in digs:
            D = e.value.a[0]
            ser, code = arg(D, None, "ser"), arg(D, None, "code")
            lab = e.term.a[1]
            okcode = code is q.w.mksub(SI, lab)
            ctx.need(e.value.a[1] == "qb64" and okcode, R, f"{q.qual}:algorithm", q.where(e.node), "a digest field is not computed with its own algorithm")
            ctx.need(q.holds(e, "c in DigDex", {"c": code}), R, f"{q.qual}:only digests", q.where(e.node), "an identifier field that is no digest is overwritten")
            for z in comps(ser):
                d = dumped(z)
                ctx.need(d is not None and src(d), R, f"{q.qual}:whole", q.where(e.node), "a digest is not computed over the serialization of the fields")
                for m in made(z):
                    if d is None:
                        continue
                    vset = any(h.k == "setitem" and h.a[0].k == "sub" and src(h.a[0].a[0]) and h.a[0].a[1] is C("v") and isver(h.a[1], lambda y: any(dumped(k) is not None and src(dumped(k)) for k in comps(y))) for h in m.hist)
                    ctx.need(vset or q.holds(m, f"self._kind == 'CESR' || self._kind not in {SIZED}"), R, f"{q.qual}:sized", q.where(m.node), "a digest is computed before the version string has its size")
                    ctx.need(not any(h.k == "setitem" and h.a[0].k == "sub" and src(h.a[0].a[0]) and "Diger" in show(h.a[1]) for h in m.hist), R, f"{q.qual}:dummied", q.where(m.node), "a digest is computed over a serialization that already holds digests")
        for e in q.w.events:
            if e.kind == "bodyend" and (e.term is SI or fname(e.term) == "items" and recv(e.term) is SI):
                L = q.w.elem_of(e.term)
                L = q.w.elem_of(SI)
                done = any(h.k == "setitem" and h.a[0].k == "sub" and src(h.a[0].a[0]) and h.a[0].a[1] is L and "Diger" in show(h.a[1]) for h in e.hist)
                ctx.need(done or q.holds(e, "I[L] not in DigDex", {"I": SI, "L": L}), R, f"{q.qual}:every digest", q.where(e.node), "a digest field is left dummied")
        if cls == "SerderACDC":
            done = set()
            for e in q.w.events:
                if e.kind != "setitem" or e.term.k != "sub" or e.term.a[1] is C("v") or e in digs or not src(e.term.a[0]) or "Diger" in show(e.value):
                    continue
                lab = e.term.a[1]
                mk_ = [z for z in subterms(e.value) if fname(z) in ("Compactor", "Aggor")]
                ok = len(mk_) == 1 and e.term.a[0] is not SD and arg(mk_[0], None, "makify") is TRUE and arg(mk_[0], None, "kind") is A(SELF, "_kind")
                if ok:
                    cont = arg(mk_[0], None, "mad") or arg(mk_[0], None, "ael")
                    ok = labelof(cont, e.term.a[0]) is lab and e.value is A(mk_[0], "said" if fname(mk_[0]) == "Compactor" else "agid")
                if ok and lab in (C("a"), C("e"), C("r")):
                    ok = any(fname(h) == "compact" and recv(h) is mk_[0] for h in hist_calls(e))
                ctx.need(ok, R, f"{q.qual}:section compacted", q.where(e.node), "a section is not replaced by the digest of its most compact form (or the message itself is changed)")
                if iscon(lab):
                    done.add(lab.a[0])
            ctx.need(done == {"s", "a", "e", "r", "A"}, R, f"{q.qual}:sections compacted", q.where(), "a section is left out of the most compact form")
        for st, v, nd in q.exits():
            t = tup(v)
            if not ctx.need(t is not None and len(t) == 3, R, f"{q.qual}:result", q.where(nd), "the fields and their serialization are not returned"):
                continue
            ctx.need(any(h.k == "looped" and (h.a[0] is SI or fname(h.a[0]) == "items" and recv(h.a[0]) is SI) for h in st.hist), R, f"{q.qual}:all digests", q.where(nd), "digest fields are left out")
            compact = not q.holds(st, "not compactify")
            for z in comps(t[1]):
                ok = dumped(z) is not None and norm(dumped(z)) is norm(t[0]) or dumped(z) is not None and dumped(z) in comps(t[0])
                ctx.need(ok, R, f"{q.qual}:final", q.where(nd), "the serialization returned is not that of the fields returned")
                ms = made(z)
                ctx.need(all(any(h.k == "looped" and (h.a[0] is SI or fname(h.a[0]) == "items" and recv(h.a[0]) is SI) for h in m.hist) for m in ms) and bool(ms), R, f"{q.qual}:final with digests", q.where(nd),
                         "the serialization returned was made before the digests were in place")
            if not compact or cls == "Serder":
                ctx.need(SD in comps(t[0]), R, f"{q.qual}:same fields", q.where(nd), "other fields than those given are returned")
            if not q.holds(st, f"self._kind != 'CESR' || self._kind in {SIZED}"):
                ok = any(h.k == "setitem" and h.a[0].k == "sub" and (h.a[0].a[0] is t[0] or h.a[0].a[0] in comps(t[0])) and h.a[0].a[1] is C("v") and isver(h.a[1], lambda y: y is t[1] or dumped(y) is not None) for h in st.hist)
                ctx.need(ok, R, f"{q.qual}:native version", q.where(nd), "a native message's version field does not hold its size")


SECTIONS = ("s", "a", "e", "r", "A")


@prop("S01")
def s01_sections(ctx):
    """each section on its own (the loop over the sections touches, for each, only that section)"""
    R = "S01.sections"
    ctx.rule(R, "the digest of an ACDC binds each section by the digest of its most compact form: computed for a compactable message, compared for a section message", 60)
    for l in SECTIONS:
        q = Q(ctx, SER, "SerderACDC._compute", SOP | {"Compactor", "Aggor"}, limit=2000, fresh=("dumps",), pick=(l,))
        s01_section(ctx, q, l, R)


def s01_section(ctx, q, l, R):
    SD = P("sad")
    MAJ, ILK = q.term("self._pvrsn.major"), q.term("self.ilk")
    COMP, PART = (None, "acm", "act", "acg", "ace"), ("sch", "att", "agg", "edg", "rul")
    ALL = [(2, i) for i in COMP + PART + ("rip", "bup", "upd")] + [(1, None), (1, "ace")]
    KIND = A(SELF, "_kind")
    OLD = q.term("self._pvrsn.major < 2")
    digs = set()
    for e in q.w.events:
        if e.kind == "setitem" and e.value is not None and e.value.k == "a" and fname(e.value.a[0]) == "Diger":
            digs |= comps(arg(e.value.a[0], None, "ser"))

    def dumped(t):
        t = t.a[0] if t.k == "fresh" else t
        return arg(t, 0, "sad") if fname(t) == "dumps" and recv(t) is SELF and norm(arg(t, 1, "kind")) is KIND else None
    made = [e for e in q.w.events if e.kind == "call" and fname(e.term) == "dumps" and any(z.k == "fresh" and z.a[0] is e.term and z.a[1] == f"{e.node.lineno}:{e.node.col_offset}" for z in digs)]
    ctx.need(bool(made), R, f"{q.qual}:digested {l}", q.where(), "the serialization that is digested was not found")
    seen = set()
    makes = [e.term for e in q.w.events if e.kind == "call" and fname(e.term) in ("Compactor", "Aggor")]
    last = set(made)
    for e in q.w.events:
        d = dumped(e.term) if e.kind == "call" and fname(e.term) == "dumps" else None
        if d is None or e not in last and (d is SD or any(h.k == "looped" and any(z is P("saids") for z in subterms(h.a[0])) for h in e.hist)):
            continue
        Vs = [q.w.termof(z, {"d": d}) for z in (f"d.get('{l}', None)", f"d.get('{l}')", f"d['{l}']")]
        calls = set(hist_calls(e))
        V = next((t for t in Vs if t in calls or any(t in set(subterms(x)) for x in calls) or any(t in set(subterms(x)) for x, p in e.facts)), Vs[0])
        sets = {h.a[0].a[1]: h.a[1] for h in e.hist if h.k == "setitem" and h.a[0].k == "sub" and h.a[0].a[0] is d and h.a[0].a[1] is not C("v")}
        ks = [t for t in dict.fromkeys(makes) if t in calls and arg(t, None, "makify") is TRUE and arg(t, None, "kind") is KIND]
        if l == "A":
            ks = [t for t in ks if fname(t) == "Aggor" and arg(t, None, "ael") is V]
        elif l == "s":
            ks = [t for t in ks if fname(t) == "Compactor" and arg(t, None, "mad") is V and arg(t, None, "strict") is FALSE and (lambda z: z is not None and z.k == "new" and z.a[2] == ((C("$id"), C("E")),))(arg(t, None, "saids"))]
        else:
            ks = [t for t in ks if fname(t) == "Compactor" and arg(t, None, "mad") is V and any(fname(h) == "compact" and recv(h) is t for h in calls)]
        block = "isinstance(V, NonStringIterable)" if l == "A" else "isinstance(V, Mapping)"
        # a store into the copy makes what was known of its sections stale: those were looked at before it
        blank = C(l) not in sets and (q.holds(e, f"not V || not {block}" + (" || isinstance(V, Mapping)" if l == "A" else ""), {"V": V}))
        at = "agid" if l == "A" else "said"
        lab = "$id" if l == "s" else "d"
        native = q.holds(e, "self._kind == 'CESR'")
        for major, i in ALL:
            if not feasible(e.facts, e.clauses, {MAJ: major, ILK: i, OLD: major == 1}, None):
                continue
            comp, part = major == 2 and i in COMP, major == 2 and i in PART
            K, W = f"{q.qual}:{i} v{major} section {l}", q.where(e.node)
            if not comp:
                ctx.need(not sets, R, K + " kept", W, "the digest of a message that is not compactable is taken over compacted sections")
            vs = [h.a[1] for h in e.hist if h.k == "setitem" and h.a[0].k == "sub" and h.a[0].a[0] is d and h.a[0].a[1] is C("v")]
            if comp and not native and e in last:
                sized = any(fname(v) == "versify" and all(arg(v, None, k) is A(SELF, "_" + k) for k in ("proto", "pvrsn", "kind", "gvrsn")) and fname(arg(v, None, "size")) == "len" and dumped(arg(arg(v, None, "size"), 0)) is d for v in vs)
                ctx.need(sized, R, K + " size", W, "the digest is taken with another size in the version string than that of the most compact form")
            if comp and vs or blank or not (comp or part):
                continue
            if comp:
                ok = any(sets.get(C(l)) is A(k, at) or C(l) not in sets and q.holds(e, f"not k.{at}", {"k": k}) for k in ks)
                ok = ok and d is not SD
            elif l == "A":
                ok = any(q.holds(e, "k.agid", {"k": k}) for k in ks)
            else:
                ok = any(q.holds(e, f"not k.said || k.said == V.get('{lab}') || k.said == V['{lab}']", {"k": k, "V": V}) for k in ks)
            seen.add((i, major))
            ctx.need(ok, R, K, W, "a section is bound by the digest of its message without its own digest being that of its most compact content")
    for i in COMP + PART:
        ctx.need((i, 2) in seen, R, f"{q.qual}:{i} section {l} looked at", q.where(), "a section of an ACDC message is not looked at")
    for e in q.w.events:
        if e.kind == "raise" and e.term is not None and fname(e.term) == "InvalidValueError":
            why = [t for t, p in e.facts if not p and t.k == "eq" and any(z.k == "a" and z.a[1] == "said" and fname(z.a[0]) == "Compactor" for z in t.a)] + [t for t, p in e.facts if not p and t.k == "a" and t.a[1] == "agid"] + [h for h in e.hist if h.k == "caught"]
            ctx.need(bool(why), R, f"{q.qual}:section {l} refused", q.where(e.node), "a section message is refused although its digest agrees")


def labelof(v, d):
    """label at which v was read from dict d"""
    if v is None:
        return None
    if v.k == "sub" and v.a[0] is d:
        return v.a[1]
    if fname(v) == "get" and recv(v) is d:
        return arg(v, 0)
    return None


@prop("S01")
def s01_read(ctx):
    R = "S01.read"
    ctx.rule(R, "a received message is exactly the bytes its version string or counter frames, decoded by the kind it names; too few bytes are a shortage", 10)
    q = Q(ctx, SER, "Serder._inhale", SOP, limit=600)
    RAW = P("raw")

    def prefix(t):
        """n when t is the first n bytes of raw"""
        if fname(t) in ("bytes", "bytearray"):
            return prefix(arg(t, 0))
        if t is not None and t.k == "sub" and t.a[0] is RAW and t.a[1].k in ("slice", "call"):
            s = t.a[1]
            if s.k == "slice" and (s.a[0] in (NONE, None, C(0))) and (s.a[2] if len(s.a) > 2 else NONE) in (NONE, None, C(1)):
                return s.a[1]
        return None
    n, forms, frames = 0, set(), set()
    for st, v, nd in q.exits():
        n += 1
        ld = [t for t in hist_calls(st) if fname(t) == "loads" and recv(t) is SELF]
        if not ctx.need(len(ld) == 1 and not swallowed(st, ("loads",)), R, f"{q.qual}:decoded", q.where(nd), "the message is not decoded"):
            continue
        r, size, kind = arg(ld[0], 0, "raw"), arg(ld[0], 1, "size"), arg(ld[0], 2, "kind")
        W = q.where(nd)
        if not ctx.need(None not in (r, size, kind), R, f"{q.qual}:decoded as framed", W, "the message is decoded without the size and kind it is framed with"):
            continue
        if fname(r) == "encodeB64":
            nb = prefix(arg(r, 0))
            fits = nb is not None and (q.holds(st, "not len(r) < n || n <= len(r)", {"r": RAW, "n": nb}) or taken(q, st, RAW, nb))
            ctx.need(nb is not None and fname(size) == "len" and arg(size, 0) is r, R, f"{q.qual}:binary", W, "a binary domain message is not decoded from its own bytes")
        else:
            nb = prefix(r)
            fits = nb is not None and (q.holds(st, "not len(r) < n || n <= len(r)", {"r": RAW, "n": nb}) or taken(q, st, RAW, nb))
            ctx.need(nb is not None and (nb is size or fname(size) == "len" and arg(size, 0) is r), R, f"{q.qual}:own bytes", W, "a message is decoded from other bytes than those framed for it")
        ctx.need(fits, R, f"{q.qual}:shortage", W, "a message is decoded from fewer bytes than it is framed with")
        # the frame is what the version string or the counter says
        if nb is not None:
            if q.holds(st, "smellage"):
                ctx.need(nb is q.term("smellage[3]") or nb is q.term("smellage.size"), R, f"{q.qual}:frame given", W, "the size given with the message is not used")
            elif "smell(" in show(nb):
                ctx.need(nb.k == "sub" and fname(nb.a[0]) == "smell" and nb.a[1] is C(3) and arg(nb.a[0], 0, "raw") is RAW or nb.k == "a" and nb.a[1] == "size" and fname(nb.a[0]) == "smell", R, f"{q.qual}:frame smelled", W, "the size in the version string is not used")
            else:
                cts = {t for t in subterms(nb) if fname(t) == "Counter"}
                c = next(iter(cts), None)
                dom = "bny" if fname(r) == "encodeB64" else "txt"
                ok = len(cts) == 1 and arg(c, None, "qb2" if dom == "bny" else "qb64b") is RAW
                if ok:
                    cold = q.term("sniff(raw)")
                    ways = [{"K": cold, "c": c}, {"K": q.term("Colds." + dom), "c": c}]
                    src = ["c.byteCount(cold=K) + c.byteSize(cold=K)", "c.byteCount(K) + c.byteSize(K)", "c.byteCount(cold) + c.byteSize(cold)"] + (["c.byteCount() + c.byteSize()", "c.count * 4 + c.fullSize"] if dom == "txt" else ["c.count * 3 + c.fullSize // 4 * 3"])
                    ok = any(nb is q.w.termof(z, {**w, "cold": w["K"]}) for z in src for w in ways)
                ctx.need(bool(ok), R, f"{q.qual}:frame counted", W, "the size in the counter, and of the counter, is not used")
            given = q.holds(st, "smellage")
            form = "given" if given else "smelled" if "smell(" in show(nb) else "bny" if fname(r) == "encodeB64" else "txt"
            forms.add((form, q.holds(st, "strip") and not q.holds(st, "not isinstance(raw, bytearray)")))
            frames.add(nb)
        got = {a: [h.a[1] for h in st.hist if h.k == "store" and h.a[0] is A(SELF, a)] for a in ("_raw", "_sad", "_size", "_kind", "_proto", "_pvrsn", "_gvrsn")}
        ctx.need(any(same(z, r) or norm(z) is norm(r) or fname(z) == "bytes" and arg(z, 0) is r for z in got["_raw"]), R, f"{q.qual}:raw kept", W, "the serialization kept is not the one decoded")
        ctx.need(got["_sad"] == [ld[0]], R, f"{q.qual}:fields kept", W, "the fields kept are not those decoded")
        ctx.need(got["_size"] == [size] and got["_kind"] == [kind], R, f"{q.qual}:size kept", W, "the size and kind kept are not those decoded with")
        ctx.need(q.holds(st, "'v' in S", {"S": ld[0]}), R, f"{q.qual}:version field", W, "a message without version field is accepted")
        if q.holds(st, "smellage"):
            idx = {"_proto": 0, "_pvrsn": 1, "_kind": 2, "_gvrsn": 4}
            ctx.need(all(any(z is q.term(f"smellage[{i}]") or z is q.term(f"smellage.{a[1:]}") for z in got[a]) for a, i in idx.items()), R, f"{q.qual}:version given", W, "the version given with the message is not the one kept")
        elif "smell(" in show(size):
            idx = {"_proto": 0, "_pvrsn": 1, "_kind": 2, "_gvrsn": 4}
            ctx.need(all(any(z.k == "sub" and fname(z.a[0]) == "smell" and z.a[1] is C(i) or z.k == "a" and fname(z.a[0]) == "smell" and z.a[1] == a[1:] for z in got[a]) for a, i in idx.items()), R, f"{q.qual}:version smelled", W, "the version smelled is not the one kept")
        else:
            ctx.need(kind is C("CESR"), R, f"{q.qual}:native", W, "a natively framed message is not decoded as such")
            vs = {z.a[0] for a in ("_proto", "_pvrsn", "_gvrsn") for z in got[a] if z.k == "sub"}
            ctx.need(len(vs) == 1 and all([z.a[1] for z in got[a]] == [C(i)] for i, a in enumerate(("_proto", "_pvrsn", "_gvrsn"))) and "Verser" in show(next(iter(vs))), R, f"{q.qual}:native version", W, "the version kept is not that of the message's version field")
            vr = next((t for z in vs for t in subterms(z) if fname(t) == "Verser"), None)
            ct = next((t for z in subterms(nb) for t in [z] if fname(t) == "Counter"), None) if nb is not None else None
            if vr is not None and ct is not None:
                E = {"s": r, "c": ct}
                fx, mp = q.w.termof("s[c.fullSize:]", E), [q.w.termof(f"s[c.fullSize + {lb}.fullSize:]", E) for lb in ("Labeler(qb64b=s[c.fullSize:])", "Labeler(qb64b=s[c.fullSize:], strip=False)")]
                at = arg(vr, None, "qb64b")
                codes = {w: any(q.holds(st, f"c.code in {T}", E) for T in (f"(MUDex_2_0.{w}BodyGroup, MUDex_2_0.Big{w}BodyGroup)",)) for w in ("Fix", "Map")}
                ctx.need(at is fx and codes["Fix"] or at in mp and codes["Map"], R, f"{q.qual}:native version field", W, "the version of a native message is not read from right after its counter, or after the label of the version where fields are labelled")
                forms.add(("fixed" if at is fx else "mapped", None))
        cut = any(h.k == "del" and h.a[0].k == "sub" and h.a[0].a[0] is RAW and prefix(h.a[0]) is nb for h in st.hist)
        ctx.need(cut if q.holds(st, "strip") and not q.holds(st, "not isinstance(raw, bytearray)") else not any(h.k == "del" for h in st.hist), R, f"{q.qual}:stripped", W, "the bytes taken from the stream are not exactly the message's")
    for e in q.w.events:
        if e.kind == "call" and fname(e.term) in ("smell", "Counter"):
            cold = "msg" if fname(e.term) == "smell" else "bny" if arg(e.term, None, "qb2") is not None else "txt"
            ctx.need(q.holds(e, f"sniff(raw) == Colds.{cold}"), R, f"{q.qual}:form of {cold}", q.where(e.node), "a message is read in another form than the one its first bytes show")
    for f in ("given", "smelled", "bny", "txt"):
        for strip in (True, False):
            ctx.need((f, strip) in forms, R, f"{q.qual}:form {f} read{' from stream' if strip else ''}", q.where(), "a form of serialization can no longer be read")
    for f in ("fixed", "mapped"):
        ctx.need((f, None) in forms, R, f"{q.qual}:native {f}", q.where(), "a form of serialization can no longer be read")
    for e in q.w.events:
        if e.kind == "raise" and e.term is not None and fname(e.term) == "ShortageError":
            ctx.need(any(q.holds(e, "len(r) < n", {"r": RAW, "n": z}) for z in frames), R, f"{q.qual}:no shortage", q.where(e.node), "a message that is all there is taken as short of bytes")
    for fn, names in (("loads", {"JSON": ("loads",), "CBOR": ("loads",), "MGPK": ("loads",), "CESR": ("_loads",)}), ("dumps", {"JSON": ("dumps",), "CBOR": ("dumps",), "MGPK": ("dumps",), "CESR": ("_dumps",)})):
        q = Q(ctx, SER, "Serder." + fn, SOP)
        mods = {"JSON": "json", "CBOR": "cbor", "MGPK": "msgpack"}
        seen = set()
        for st, v, nd in q.exits():
            k = next((k for k in names if q.holds(st, f"kind == '{k}'")), None)
            ctx.need(not caught(st), R, f"{q.qual}:failure", q.where(nd), "a failed conversion is passed over")
            if not ctx.need(k is not None, R, f"{q.qual}:kind", q.where(nd), "an unknown kind of serialization is taken"):
                continue
            seen.add(k)
            core = [t for t in subterms(v) if fname(t) in names[k] and (k == "CESR" and recv(t) is SELF or k != "CESR" and show(recv(t) or G(show(t.a[0]))).split(".")[0] in (mods[k], mods[k] + "2", "cbor2"))]
            if not core and k == "CBOR":
                core = [t for t in subterms(v) if fname(t) in names[k] and recv(t) is not SELF]
            ctx.need(bool(core) and not any(fname(t) in names[k] and m != k and show(t).startswith(mods.get(m, "?") + ".") for t in subterms(v) for m in mods), R, f"{q.qual}:{k}", q.where(nd), "a serialization kind is converted by another's method")
            a = arg(core[0], 0, "raw" if fn == "loads" else "sad") if core else None
            if fn == "loads" and a is not None:
                if k == "CESR":
                    ok = a is P("raw") and arg(core[0], 1, "size") is not None and same_size(q, st, arg(core[0], 1, "size"))
                else:
                    u = unwrap(a)
                    ok = u.k == "sub" and u.a[0] is P("raw") and u.a[1].k == "slice" and u.a[1].a[0] in (NONE, C(0)) and same_size(q, st, u.a[1].a[1])
                ctx.need(ok, R, f"{q.qual}:{k}:size", q.where(nd), "other bytes than the message's are decoded")
            elif a is not None:
                ok = a is P("sad") or q.holds(st, "sad is None || not sad") and norm(a) in (A(SELF, "_sad"), A(SELF, "sad")) or comps(a) <= {P("sad"), A(SELF, "_sad"), A(SELF, "sad")}
                ctx.need(ok, R, f"{q.qual}:{k}:fields", q.where(nd), "other fields than those given are serialized")
                if k == "JSON":
                    ctx.need(arg(core[0], None, "ensure_ascii") is FALSE and [x.a[0] for x in tup(arg(core[0], None, "separators")) or []] == [",", ":"] and arg(core[0], None, "sort_keys") in (None, FALSE), R, f"{q.qual}:JSON:canonical", q.where(nd),
                             "JSON is not serialized in its compact, field-order preserving form")
        ctx.need(seen == set(names), R, f"{q.qual}:kinds", q.where(), "a kind of serialization is no longer converted")


def same_size(q, st, s):
    return s is P("size") or q.holds(st, "size is None") and fname(s) == "len" and arg(s, 0) is P("raw")


def taken(q, st, RAW, nb):
    """the length was checked before the bytes were taken away (which makes the check's fact stale)"""
    for e in q.w.events:
        if e.kind == "del" and e.term.k == "sub" and e.term.a[0] is RAW:
            if not q.holds(e, "not len(r) < n || n <= len(r)", {"r": RAW, "n": nb}) and any(h.k == "del" and h.a[0] is e.term for h in st.hist) and nb in set(subterms(e.term)):
                return False
    return any(h.k == "del" and h.a[0].k == "sub" and h.a[0].a[0] is RAW and nb in set(subterms(h.a[0])) for h in st.hist)


@prop("S01")
def s01_prefix(ctx):
    R = "S01.prefix"
    ctx.rule(R, "the identifier of a message is well formed for its type: self-certifying by digest or by its single key, delegated only by digest", 10)
    q = Q(ctx, SER, "SerderKERI._verify", SOP, limit=600)
    CODE = A(q.term("Matter(qb64=self.pre)"), "_code")
    DC = A(q.term("Matter(qb64=self.delpre)"), "_code")
    env = {"c": CODE, "d": DC}
    n = 0
    noti = lambda x: q.holds(x, "self._pvrsn.major < 2 and self._pvrsn.minor < 1 and self.ilk in ('qry', 'rpy', 'pro', 'bar', 'exn')")
    for st, v, nd in q.exits():
        n += 1
        W = q.where(nd)
        ctx.need(q.holds(st, "list(self.Fields[self._proto][self._pvrsn][self.ilk].alls) == list(self.sad) || list(self.Fields[self._proto][self._pvrsn][self.ilk].alls) == list(self._sad)"), R, f"{q.qual}:fields", W,
                 "a KERI message is accepted with other fields than its type has")
        if not q.holds(st, "self.ilk != 'dip' || self.ilk not in ('dip', 'drt') || self.ilk not in ('icp', 'dip') || self.ilk not in ('icp', 'dip', 'rot', 'drt') || not (self.ilk in 'dip')"):
            ctx.need(q.holds(st, "d in PreDex || self.ilk != 'dip' or d in PreDex || not (self.ilk in 'dip') or d in PreDex", env), R, f"{q.qual}:delegator", W, "a delegated inception is accepted with a malformed delegator")
        if noti(st):
            continue
        ctx.need(q.holds(st, "c in PreDex || c in DigDex", env), R, f"{q.qual}:prefix", W, "a message is accepted with a malformed identifier")
        ctx.need(q.holds(st, "self.ilk not in ('dip', 'drt') || c in DigDex", env), R, f"{q.qual}:delegated", W, "a delegated identifier is accepted that is not a digest of its inception")
        if not q.holds(st, "self.ilk not in ('icp', 'dip') || c not in PreNonDigDex || self.ilk not in ('icp', 'dip') or c not in PreNonDigDex", env):
            for what, s in (("one key", "len(self.keys) == 1"), ("threshold", "self.tholder.sith == '1'"), ("own key", "self.pre == self.keys[0]")):
                ctx.need(q.holds(st, s), R, f"{q.qual}:{what}", W, "a non-digestive identifier is accepted that its single key does not certify")
        if not q.holds(st, "self.ilk not in ('icp', 'dip', 'rot', 'drt') || c not in NonTransDex || self.ilk not in ('icp', 'dip', 'rot', 'drt') or c not in NonTransDex", env):
            for what, s in (("no next keys", "not self.ndigs"), ("no backers", "not self.backs"), ("no anchors", "not self.seals")):
                ctx.need(q.holds(st, s), R, f"{q.qual}:nontransferable {what}", W, "an establishment event of a nontransferable identifier is accepted with what only a transferable one has")
    ctx.need(n > 0, R, f"{q.qual}:accepts", q.where(), "no message is ever accepted")
    q = Q(ctx, SER, "SerderACDC._verify", SOP, limit=3000)
    for st, v, nd in q.exits():
        c = A(q.term("Matter(qb64=self.israid)"), "_code")
        ctx.need(q.holds(st, "self.ilk and self.ilk not in ('acm', 'ace', 'act', 'acg', 'rip') || c in PreDex || not (not self.ilk or self.ilk in ('acm', 'ace', 'act', 'acg', 'rip'))", {"c": c}), R, f"{q.qual}:issuer", q.where(nd),
                 "a credential is accepted with a malformed issuer")
    # said of each disclosed section
    secs = {}
    for st, v, nd in q.exits():
        v2 = q.holds(st, "self._pvrsn.major < 2")
        for t in hist_calls(st):
            if fname(t) in ("Compactor", "Aggor"):
                src = arg(t, None, "mad") or arg(t, None, "ael")
                ctx.need(fname(src) == "deepcopy", R, f"{q.qual}:section copied", q.where(nd), "verification of a section changes it")
    cmpd = [e for e in q.w.events if e.kind == "raise" and any(t.k == "eq" and not p for t, p in e.facts) and any(fname(z) in ("getTail", "get") or "Aggor" in show(z) for t, p in e.facts for z in subterms(t))]
    kinds = {("A" if any("Aggor" in show(t) for t, p in e.facts) else "map") for e in cmpd}
    ctx.need(kinds == {"A", "map"}, R, f"{q.qual}:sections", q.where(), "the digest embedded in a disclosed section is not verified")


ACC = {
    "Serder": {"verstr": "v", "ilk": "t", "stamp": "dt"},
    "SerderKERI": {"pre": "i", "aid": "i", "aider": ("i", "Prefixer"), "sner": ("s", "Number"), "sn": "s", "snh": "s", "seals": "a", "traits": "c", "tholder": ("kt", "Tholder"), "keys": "k", "verfers": ("k", "Verfer"),
                   "ntholder": ("nt", "Tholder"), "ndigs": "n", "ndigers": ("n", "Diger"), "bner": ("bt", "Number"), "bn": "bt", "backs": "b", "berfers": ("b", "Verfer"), "prior": "p", "priorb": "p", "cuts": "br", "adds": "ba",
                   "delpre": "di", "delpreb": "di", "route": "r", "preb": "i"},
    "SerderACDC": {"uuid": "u", "uuidb": "u", "israid": "i", "israidb": "i", "issuer": ("i", "Prefixer"), "schema": "s", "attrib": "a", "aggreg": "A", "edge": "e", "rule": "r"},
}


@prop("S01")
def s01_acc(ctx):
    R = "S01.accessor"
    ctx.rule(R, "what a message object reports of a field is that field of the verified message, and None only when it is absent", 30)
    m = ctx.model
    for cls, tab in ACC.items():
        k = m.mod(SER).classes[cls]
        for name, spec in tab.items():
            lab, wrapn = spec if isinstance(spec, tuple) else (spec, None)
            target = name
            if m.lookup(k, name) is None if hasattr(m, "lookup") else name not in k.methods:
                al = alias(k, name)
                if al is None:
                    ctx.need(False, R, f"{cls}.{name}", f"{SER}:{k.node.lineno} {cls}", "a field can no longer be read")
                    continue
                target = al
            q = Q(ctx, SER, f"{cls}.{target}", SOP)
            some = False
            for st, v, nd in q.exits():
                ls = labels(v, cls, tab)
                if v is NONE:
                    gone = any((t.k == "in" and t.a[0] is C(lab) and not p) or (t.k == "is" and p) or (not p and labels(t, cls, tab)) for t, p in st.facts) or q.holds(st, "self.ilk == 'vcp'")
                    ctx.need(gone, R, f"{cls}.{name}:none", q.where(nd), f"field '{lab}' is reported absent though it is there")
                    continue
                some = True
                w = True if wrapn is None else any(fname(z) == wrapn for z in subterms(v)) or v.k == "comp" and any(fname(z) == wrapn for z, _ in appended(q, v) or [])
                ctx.need(ls == {lab} and w, R, f"{cls}.{name}", q.where(nd), f"what is reported is not field '{lab}'")
            ctx.need(some, R, f"{cls}.{name}:reported", q.where(), f"field '{lab}' is never reported")
    for cls, name, attr in (("Serder", "raw", "_raw"), ("Serder", "genus", "_genus"), ("Serder", "gvrsn", "_gvrsn"), ("Serder", "proto", "_proto"), ("Serder", "pvrsn", "_pvrsn"), ("Serder", "kind", "_kind"), ("Serder", "size", "_size")):
        q = Q(ctx, SER, f"{cls}.{name}", SOP)
        ctx.need(all(v is A(SELF, attr) for st, v, nd in q.exits()), R, f"{cls}.{name}", q.where(), "what is reported is not what was verified")
    q = Q(ctx, SER, "Serder.said", SOP)
    for st, v, nd in q.exits():
        ok = v is A(SELF, "_said") or v.k == "sub" and v.a[0] is A(SELF, "_sad") and v.a[1] is C("d") and any(not p and "saids" in show(t) for t, p in st.facts)
        ctx.need(ok, R, "Serder.said", q.where(nd), "the digest reported is not the verified one")
    q = Q(ctx, SER, "Serder.sad", SOP)
    ctx.need(all(copyof(v, A(SELF, "_sad")) for st, v, nd in q.exits()), R, "Serder.sad", q.where(), "the fields handed out are not a copy of the message's own")
    q = Q(ctx, SER, "SerderKERI.estive", SOP)
    always_equiv(q, R, "establishment", "'t' in self._sad and self._sad['t'] in ('icp', 'rot', 'dip', 'drt')", "whether an event is an establishment event")
    q = Q(ctx, SER, "SerderACDC.regid", SOP)
    for st, v, nd in q.exits():
        ctx.need(labels(v, "SerderACDC", {}) == ({"ri"} if q.holds(st, "self._pvrsn.major == 1") else {"rd"}), R, "SerderACDC.regid", q.where(nd), "the registry reported is not the credential's")


def alias(k, name):
    for s in k.node.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets) and isinstance(s.value, ast.Name):
            return s.value.id
    return None


def labels(v, cls, tab):
    out = set()
    for t in subterms(v):
        if t.k == "sub" and t.a[0] in (A(SELF, "_sad"), A(SELF, "sad")) and iscon(t.a[1]):
            out.add(t.a[1].a[0])
        elif fname(t) == "get" and recv(t) in (A(SELF, "_sad"), A(SELF, "sad")) and iscon(arg(t, 0)):
            out.add(arg(t, 0).a[0])
        elif t.k == "a" and t.a[0] is SELF and t.a[1] in tab:
            s = tab[t.a[1]]
            out.add(s[0] if isinstance(s, tuple) else s)
    return out


# ---------------------------------------------------------------- native serialization
VAL = ("Counter", "Labeler", "Ilker", "Verser", "Sealer", "Matter", "Diger", "Noncer", "Number")


class Dom:
    __slots__ = ("alls", "opts", "alts", "saids", "strict", "node")


def fields_table(ctx, q):
    """{(proto, major, ilk): Dom} of the class table Serder.Fields"""
    c = ctx.model.cls(SER, "Serder")
    node = None
    for s in c.node.body:
        for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value is not None else []):
            if isinstance(t, ast.Name) and t.id == "Fields":
                node = s.value
    if not isinstance(node, ast.Dict):
        raise AnalysisBroken("Serder.Fields: no table found")

    def con(n):
        t = q.w.termof(ast.unparse(n))
        if iscon(t):
            return t.a[0]
        return show(t)

    def keys(n):
        if isinstance(n, ast.Dict):
            return {con(k): (con(v) if not isinstance(v, (ast.Dict, ast.List, ast.Call)) else None) for k, v in zip(n.keys, n.values)}
        if isinstance(n, ast.Call) and ast.unparse(n.func) == "dict" and not n.args:
            return {k.arg: (con(k.value) if not isinstance(k.value, (ast.Dict, ast.List, ast.Call)) else None) for k in n.keywords}
        raise AnalysisBroken(f"Serder.Fields: entry at line {n.lineno} not understood")
    out = {}
    for pk, pv in zip(node.keys, node.values):
        for vk, vv in zip(pv.keys, pv.values):
            for ik, iv in zip(vv.keys, vv.values):
                if not (isinstance(iv, ast.Call) and ast.unparse(iv.func).endswith("FieldDom")):
                    raise AnalysisBroken(f"Serder.Fields: entry at line {iv.lineno} not understood")
                d = Dom()
                d.node = iv
                kw = dict(zip(("alls", "opts", "alts", "saids", "strict"), iv.args))
                kw.update({k.arg: k.value for k in iv.keywords})
                d.alls = keys(kw["alls"]) if "alls" in kw else {}
                d.opts = keys(kw["opts"]) if "opts" in kw else {}
                d.alts = keys(kw["alts"]) if "alts" in kw else {}
                d.saids = keys(kw["saids"]) if "saids" in kw else {}
                d.strict = "strict" not in kw or con(kw["strict"]) is not False
                vs = con(vk)
                out[(con(pk), 2 if "2" in str(vs).split("minor")[0] else 1, con(ik))] = d
    return out


def truth(t, env, dom):
    """truth of a fact given the values of label and ilk (env: term -> value), None when it says nothing about them"""
    if t in env:
        return bool(env[t])
    if t.k == "not":
        x = truth(t.a[0], env, dom)
        return None if x is None else not x
    if t.k == "eq":
        for a, b in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
            if a in env and iscon(b):
                return env[a] == b.a[0]
    if t.k == "is" or t.k == "isnone":
        if t.a[0] in env:
            return env[t.a[0]] is None
    if t.k == "in" and "mapped" in env and t.a[0].k == "a" and t.a[0].a[1] in ("_code", "code") and fname(t.a[0].a[0]) == "Counter" and "BodyGroup" in show(t.a[1]):
        z = show(t.a[1])
        if "FixBodyGroup" in z and "MapBodyGroup" not in z:
            return not env["mapped"]
        if "MapBodyGroup" in z and "FixBodyGroup" not in z:
            return env["mapped"]
    if t.k == "in" and t.a[0] in env and t.a[1].k == "sub" and "Fields" in show(t.a[1]):
        return True
    if t.k == "in" and t.a[0] in env and t.a[1].k in ("set", "tup"):
        m = t.a[1].a[0]
        if all(iscon(x) for x in m):
            return env[t.a[0]] in [x.a[0] for x in m]
    if dom is not None and t.k == "a" and t.a[1] in ("opts", "strict") and "Fields" in show(t.a[0]):
        return bool(dom.opts) if t.a[1] == "opts" else dom.strict
    return None


def feasible(facts, clauses, env, dom):
    for t, p in facts:
        x = truth(t, env, dom)
        if x is not None and x != p:
            return False
    for c in clauses:
        vals = [(truth(t, env, dom), p) for t, p in c]
        if vals and all(x is not None and x != p for x, p in vals):
            return False
    return True


PRIMS = {"Matter", "Diger", "Prefixer", "Verfer", "Noncer", "Saider"}


def canon(q, cls, param):
    """the attribute read back for a constructor parameter, with properties resolved"""
    t = q.w.termof(f"{cls}(x=1).{param}")
    return t.a[1] if t.k == "a" else param


def coded(q, t, V):
    """how value V is encoded: ('text',) or (class, attribute that gives V back) or None"""
    t = unbyte(t)
    if t is V:
        return ("text",)
    if fname(t) == "encode" and recv(t) is V:
        return ("text",)
    if t.k == "a" and t.a[1] in ("qb64b", "qb64", "_qb64b", "_qb64", "limen", "_limen", "_raw", "raw") and t.a[0].k == "call":
        c = t.a[0]
        p = call_parts(c)
        if p is None:
            return None
        mine = [k for k, v in p[2].items() if v is V]
        others = {k: v for k, v in p[2].items() if v is not V and k not in ("strict", "relative", "pathive", "strip", "version")}
        if len(mine) == 1 and not p[1] and not others:
            cls = fname(c)
            if mine[0] in ("qb64", "qb64b"):
                return ("text",) if cls in PRIMS else (cls, mine[0])
            if cls == "Pather" and not (flag(q, p, "relative", "pathive", True, False)):
                return None
            return (cls, canon(q, cls, mine[0])) + ((("strict", show(p[2]["strict"])),) if "strict" in p[2] and p[2]["strict"] is not TRUE else ())
    return None


def flag(q, p, a, b, x, y):
    """effective values of two flags of a Pather"""
    def val(n):
        if n in p[2]:
            return p[2][n].a[0] if iscon(p[2][n]) else None
        d = default(q.ctx, "src/keri/core/coring.py", "Pather.__init__", n)
        return getattr(d, "value", d)
    return val(a) is x and val(b) is y


def unbyte(t):
    while fname(t) in ("bytes", "bytearray") and t.a[0].k != "a" and arg(t, 0) is not None:
        t = arg(t, 0)
    return t


def decoded(q, t):
    """(shape, buffer, strips) of a value read from a buffer"""
    if t.k != "a" or t.a[0].k != "call":
        return None
    c = t.a[0]
    p = call_parts(c)
    if p is None:
        return None
    buf = [v for k, v in p[2].items() if k in ("qb64b", "qb64", "limen", "raw", "qb2")]
    if len(buf) != 1 or p[1]:
        return None
    cls = fname(c)
    sh = ("text",) if t.a[1] in ("qb64", "_qb64") and cls in PRIMS else (cls, t.a[1])
    if "strict" in p[2] and p[2]["strict"] is not TRUE:
        sh = sh + (("strict", show(p[2]["strict"])),)
    return sh, buf[0], p[2].get("strip") is TRUE


def counted(q, t):
    """(counter call, frame) when t is the serialization of a counter of the quadlets of a frame"""
    t = unbyte(t)
    if not (t.k == "a" and t.a[1] in ("qb64b", "_qb64b") and fname(t.a[0]) == "Counter"):
        return None
    c = t.a[0]
    n = arg(c, 1, "count")
    for z in subterms(n) if n is not None else ():
        if fname(z) == "len" and q.w.termof("len(f) // 4", {"f": arg(z, 0)}) is n:
            return c, arg(z, 0)
    return None


def calls_in(hist, *names):
    for h in hist:
        c = h.a[0] if h.k == "fresh" else h
        if c.k == "call" and fname(c) in names:
            yield c


def value_shape(ctx, q, val, e, V, l):
    RF = "S02.frame"
    W = f"{SER}:{e.line} Serder._dumps"
    if l == "v":
        v = unbyte(val)
        if v.k == "a" and v.a[1] in ("qb64b", "_qb64b") and fname(v.a[0]) == "Verser":
            c = v.a[0]
            if arg(c, None, "proto") is A(SELF, "_proto") and arg(c, None, "pvrsn") is A(SELF, "_pvrsn") and arg(c, None, "gvrsn") is A(SELF, "_gvrsn"):
                return ("version",)
        return None
    sh = coded(q, val, V)
    if sh is not None:
        return sh
    got = counted(q, val)
    if got is None:
        return None
    ctr, F = got
    code = show(arg(ctr, 0, "code"))
    ctx.need("GenericListGroup" in code, RF, f"Serder._dumps:{l}:code", W, f"a list is counted as {code}")
    ctx.need(any(recv(c) is val and unbyte(arg(c, 0)) is unbyte(F) for c in calls_in(e.hist, "extend")), RF, f"Serder._dumps:{l}:frame", W, "the elements counted are not the ones that follow the counter")
    ctx.need(any(h.k == "looped" and h.a[0] is V for h in e.hist), RF, f"Serder._dumps:{l}:all", W, "the list serialized is not the whole list of the field")
    E = q.w.elem_of(V)
    ends = [x for x in q.w.events if x.kind == "bodyend" and x.term is V]
    shapes = set()
    for x in q.w.events:
        if x.kind == "call" and fname(x.term) in ("extend", "append") and recv(x.term) is F and E in set(subterms(x.term)) and not any("Counter" in show(z) for z in subterms(arg(x.term, 0))):
            shapes.add(coded(q, arg(x.term, 0), E))
    if shapes and None not in shapes and len(shapes) == 1:
        for x in ends:
            if not feasible_same(x, e):
                continue
            ctx.need(any(recv(c) is F and E in set(subterms(c)) for c in calls_in(x.hist, "extend")) and not x_caught(x), RF, f"Serder._dumps:{l}:element", f"{SER}:{x.line} Serder._dumps", "an element of the list can be left out")
        return ("list", shapes.pop())
    return seals_shape(ctx, q, e, V, E, F, ends, l)


def feasible_same(x, e):
    """the inner iteration can be one of the outer one: no fact of the outer is denied"""
    ex = {(t, not p) for t, p in x.facts if "each(" in show(t)}
    L = {(t, p) for t, p in e.facts}
    return not (ex & L)


def x_caught(x):
    return any(h.k == "caught" for h in x.hist)


def seals_shape(ctx, q, e, V, E, F, ends, l):
    RF = "S02.frame"
    # groups: F.extend(Counter(code, count=len(G)//4).qb64b + G)
    flush = []
    for x in q.w.events:
        if x.kind == "call" and fname(x.term) == "extend" and recv(x.term) is F:
            a = unbyte(arg(x.term, 0))
            cg = None
            if a.k == "bin" and a.a[0] in ("+", "Add"):
                cg = counted(q, a.a[1])
                if cg is not None and unbyte(a.a[2]) is not unbyte(cg[1]):
                    cg = None
            if not ctx.need(cg is not None, RF, f"Serder._dumps:{l}:group", f"{SER}:{x.line} Serder._dumps", "a seal group is counted over other seals than those that follow its counter"):
                continue
            flush.append((x, cg))
    if not flush:
        return None
    SL = [q.w.termof("Sealer(crew=e).qb64b", {"e": E}), q.w.termof("Sealer(crew=e).qb64", {"e": E})]
    CODE = q.w.termof("self.ClanCodes[Sealer(crew=e).name]", {"e": E})
    groups = {unbyte(cg[1]) for x, cg in flush}
    inside = [x for x in ends if any(p and t.k in ("eq", "in") and "'a'" in show(t) for t, p in x.facts)]
    ctx.need(bool(inside), RF, f"Serder._dumps:{l}:each", f"{SER}:{e.line} Serder._dumps", "the seals are not serialized one by one")
    for x in inside:
        W = f"{SER}:{x.line} Serder._dumps"
        ins = [c for c in calls_in(x.hist, "extend") if arg(c, 0) is not None and unbyte(arg(c, 0)) in SL]
        if not ctx.need(len(ins) == 1 and not x_caught(x), RF, f"Serder._dumps:{l}:seal kept", W, "an anchored seal can be left out of the serialization"):
            continue
        g = recv(ins[0])
        env = x.st.env if x.st is not None else {}
        puts = [y for y in q.w.events if y.kind == "call" and (y.term is ins[0] or y.term.k == "fresh" and y.term.a[0] is ins[0])]
        # which written group this is: its frame variable holds g now, its code variable the code it will be written with
        fit = False
        for y, cg in flush:
            fr, co = unbyte(cg[1]), arg(cg[0], 0, "code")
            now = env.get(fr.a[1]) if fr.k == "phi" else fr
            cnow = env.get(co.a[1]) if co is not None and co.k == "phi" else co
            if now is not g or cnow is None:
                continue
            right = cnow is CODE or q.holds(x, "c == k", {"c": cnow, "k": CODE})
            if g is fr and cnow is not co:      # the running group under a new code: it must have been empty
                right = right and bool(puts) and all(q.holds(z, "not g", {"g": g}) or q.holds(z, "c == k", {"c": co, "k": CODE}) for z in puts)
            elif g is not fr and fr.k == "phi":   # a new group: the running one was written, or empty
                done = any(recv(c) is F and fr in set(subterms(arg(c, 0))) for c in calls_in(x.hist, "extend"))
                ctx.need(done or q.holds(x, "not g", {"g": fr}), RF, f"Serder._dumps:{l}:group written", W, "a group of seals is dropped when the next one is begun")
            fit = fit or right
        ctx.need(fit, RF, f"Serder._dumps:{l}:group code", W, "a seal is put in a group that is written with another type of seal, or not at all")
    for y, cg in flush:
        fr, co = unbyte(cg[1]), arg(cg[0], 0, "code")
        ctx.need(q.holds(y, "g", {"g": fr}) or co is not None and q.holds(y, "c", {"c": co}), RF, f"Serder._dumps:{l}:empty group", f"{SER}:{y.line} Serder._dumps", "a group without seals is written")
    # the last group is written
    G_ = [g for g in groups if g.k == "phi"]
    for g in G_:
        done = any(recv(c) is F and g in set(subterms(arg(c, 0))) for c in calls_in(e.hist, "extend"))
        ctx.need(done or q.holds(e, "not g", {"g": g}), RF, f"Serder._dumps:{l}:last group", f"{SER}:{e.line} Serder._dumps", "the last group of seals is not written")
    return ("list", ("Sealer",))


def read_shape(ctx, q, e, l):
    RF = "S02.frame"
    v = e.value
    W = f"{SER}:{e.line} Serder._loads"
    if l == "v":
        ok = fname(v) == "versify" and arg(v, None, "proto") is A(SELF, "_proto") and arg(v, None, "pvrsn") is A(SELF, "_pvrsn") and arg(v, None, "gvrsn") is A(SELF, "_gvrsn") and arg(v, None, "kind") is A(SELF, "_kind")
        return ("version",) if ok else None
    d = decoded(q, v)
    if d is not None:
        ctx.need(d[2], RF, f"Serder._loads:{l}:consumed", W, "what was read is not removed from the message, so the next field is read from the same bytes")
        return d[0]
    apps = [x for x in q.w.events if x.kind == "call" and fname(x.term) == "append" and recv(x.term) is v]
    out = set()
    for x in apps:
        a = arg(x.term, 0)
        W = f"{SER}:{x.line} Serder._loads"
        seal = a.k == "a" and a.a[1] in ("asdict", "_asdict") and fname(a.a[0]) == "Sealer"
        d = decoded(q, A(a.a[0].a[0], "x")) if False else None
        if seal:
            c = a.a[0]
            buf, strips = arg(c, None, "qb64b"), arg(c, None, "strip") is TRUE
            cs = arg(c, None, "cast")
            inner = None
            for z in subterms(cs) if cs is not None else ():
                if z.k == "a" and z.a[1] in ("_code", "code") and fname(z.a[0]) == "Counter":
                    inner = z.a[0]
            ok = inner is not None and any(cs is q.w.termof(s, {"c": inner}) for s in ("Sealer.Casts[Serder.CodeClans[c.code]]", "Sealer.Casts[self.CodeClans[c.code]]"))
            ctx.need(ok, RF, f"Serder._loads:{l}:seal type", W, "a seal is read as another type than its group says")
            sh = ("Sealer",)
            if inner is not None:
                ctx.need(q.holds(x, "c.code in Serder.CodeClans || c.code in self.CodeClans", {"c": inner}), RF, f"Serder._loads:{l}:seal known", W, "a group of unknown seals is read")
                ctx.need(arg(inner, None, "strip") is TRUE, RF, f"Serder._loads:{l}:seal counter", W, "a seal counter is read as a seal")
                fr = arg(inner, None, "qb64b")
                ctx.need(fr is not None, RF, f"Serder._loads:{l}:seal group", W, "a seal counter is read from nothing")
                if fr is None:
                    return None
                src = q.w.phis.get(fr) or q.w.phis.get((fr.a[0], fr.a[1]) if fr is not None and fr.k == "phi" else None)
                b = [cut(q, z, None) for z in (src["init"] if src else ())]
                ctx.need(bool(b) and None not in b, RF, f"Serder._loads:{l}:seal list", W, "seal groups are read from more or less than the list of seals")
                for z in b:
                    if z is not None:
                        listed(ctx, q, e, l, z, W)
                        rest = q.w.termof("b[c.count * 4:]", {"b": z[0], "c": z[1]})
                        ends = [y for y in q.w.events if y.kind == "bodyend" and y.st is not None and any(h.k == "setitem" and h.a[1] is v for h in y.hist)]
                        ctx.need(bool(ends) and all(rest in set(y.st.env.values()) for y in ends), RF, f"Serder._loads:{l}:list consumed", W, "the list of seals is not removed from the message once read")
                rest = q.w.termof("b[c.count * 4:]", {"b": fr, "c": inner})
                ctx.need(bool(src) and bool(src["steps"]) and {z[0] if isinstance(z, tuple) else z for z in src["steps"]} == {rest}, RF, f"Serder._loads:{l}:seal group consumed", W, "a seal group is not removed from the list once read")
                ctx.need(cut(q, buf, inner) is not None, RF, f"Serder._loads:{l}:seal frame", W, "seals are read from more or less than their group")
        else:
            d = decoded(q, a)
            if d is None:
                return None
            sh, buf, strips = d
            base = cut(q, buf, None)
            ctx.need(base is not None, RF, f"Serder._loads:{l}:list frame", W, "list elements are read from more or less than the list")
            if base is not None:
                listed(ctx, q, e, l, base, W)
                rest = q.w.termof("b[c.count * 4:]", {"b": base[0], "c": base[1]})
                ends = [y for y in q.w.events if y.kind == "bodyend" and y.st is not None and any(h.k == "setitem" and h.a[1] is v for h in y.hist)]
                ctx.need(bool(ends) and all(rest in set(y.st.env.values()) for y in ends), RF, f"Serder._loads:{l}:list consumed", W, "a list is not removed from the message once read, so the next field is read from the same bytes")
        ctx.need(strips, RF, f"Serder._loads:{l}:element consumed", W, "an element is read more than once")
        out.add(sh)
    return ("list", out.pop()) if len(out) == 1 else None


def cut(q, buf, ctr):
    """(base, counter) when buf is the part of base that the counter counts"""
    if buf is None:
        return None
    if buf.k == "phi":
        for c in comps(buf):
            if c is not None and c is not buf:
                r = cut(q, c, ctr)
                if r is not None:
                    return r
    for z in subterms(buf):
        if fname(z) == "Counter" and (ctr is None or z is ctr):
            for b in subterms(buf):
                if q.w.termof("b[:c.count * 4]", {"b": b, "c": z}) is buf:
                    return b, z
    return None


LISTS, MAPS = "('GenericListGroup', 'BigGenericListGroup')", "('GenericMapGroup', 'BigGenericMapGroup')"


def listed(ctx, q, e, l, base, W):
    """the counter read is a list counter and is itself removed"""
    b, c = base
    RF = "S02.frame"
    ctx.need(q.holds(e, f"c.name in {LISTS} || c.code in (self.mucodes.GenericListGroup, self.mucodes.BigGenericListGroup)", {"c": c}), RF, f"Serder._loads:{l}:list code", W, "a list is read from a group that is not a list")
    gone = arg(c, None, "strip") is TRUE or any(h.k == "del" and h.a[0] is q.w.termof("b[:c.fullSize]", {"b": b, "c": c}) for h in e.hist)
    ctx.need(gone and arg(c, None, "qb64b") is b, RF, f"Serder._loads:{l}:list counter", W, "the counter of a list is read as its first element")


def told_apart(ctx, q, e, l, K, sh, shapes):
    """where a field can be written in several ways, each is read only on what marks it"""
    if sh is None or len(shapes) < 2:
        return
    W = f"{SER}:{e.line} Serder._loads"
    if sh[0] in ("Mapper", "Aggor", "list"):
        buf = [v for k, v in call_parts(e.value.a[0])[2].items() if k in ("qb64b", "qb64", "raw")] if e.value.k == "a" else []
        want = MAPS if sh[0] == "Mapper" else LISTS
        cs = {z.a[0].a[0] for z in (t for t, p in e.facts if p and t.k == "in") if z.a[0].k == "a" and z.a[0].a[1] in ("_name", "name") and fname(z.a[0].a[0]) == "Counter"}
        cs = {c for c in cs if not buf or arg(c, None, "qb64b") in buf}
        ctx.need(any(q.holds(e, f"c.name in {want}", {"c": c}) for c in cs), "S02.pair", f"Serder._loads:{K}:{sh[0]} told apart", W, "a value is read as a group that its counter does not announce")
    elif sh == ("text",) and any(x[0] in ("Mapper", "Aggor") for x in shapes):
        buf = decoded(q, e.value)[1]
        ctx.need(q.holds(e, "b[0] != ord(b'-') || b[0] != ord('-') || b[0] != 45 || not b.startswith(b'-') || b[:1] != b'-'", {"b": buf}), "S02.pair", f"Serder._loads:{K}:primitive told apart", W, "a group is read as a primitive")
    elif sh[0] == "Noncer" and ("text",) in shapes:
        buf = decoded(q, e.value)[1]
        EMP = q.w.termof("NonceDex.Empty")
        good = any(p and fname(t) == "startswith" and recv(t) is buf and any(z is EMP for z in subterms(arg(t, 0))) for t, p in e.facts)
        ctx.need(good, "S02.pair", f"Serder._loads:{K}:empty told apart", W, "a value is read as empty on another mark than that of the empty value")


def s02_reading(ctx, q, T, handled, MAPPED, other):
    R = "S02.read"
    ctx.rule(R, "a native message is read field by field in its order, from after its counter, version and type to its end, into the field map returned", 30)
    RAW = P("raw")
    sets = [e for e in q.w.events if e.kind == "setitem" and e.term.k == "sub"]
    outs = {v for st, v, nd in q.exits()}
    PROTO = A(SELF, "_proto")
    sads = {e.term.a[0] for e in sets if e.term.a[0] in outs}
    ctx.need(bool(outs) and outs <= sads, R, "Serder._loads:returned", q.where(), "what is returned is not the field map that was read")

    def buffer(b):
        return b is not None and any(b is q.w.termof(s, {"raw": RAW, "size": z}) for s in ("bytearray(raw[:size])", "raw[:size]", "bytearray(raw[0:size])", "bytearray(raw)[:size]") for z in (P("size"), q.w.termof("len(raw)")))

    def readof(h, cls):
        return h.k == "call" and fname(h) == cls and buffer(arg(h, None, "qb64b")) and arg(h, None, "strip") is TRUE
    # order of the head
    for e in q.w.events:
        if e.kind == "call" and fname(e.term) in ("Verser",) and e.term.a[0].k == "g":
            W = f"{SER}:{e.line} Serder._loads"
            ctx.need(readof(e.term, "Verser") and any(readof(h, "Counter") and arg(h, None, "version") is A(SELF, "_gvrsn") for h in e.hist), R, "Serder._loads:version read", W, "the version is not read from right after the body counter")
            lab = any(readof(h, "Labeler") for h in e.hist)
            for mapped in (False, True):
                if feasible(e.facts, e.clauses, {"mapped": mapped}, None):
                    ctx.need(lab is mapped, R, f"Serder._loads:version label:{mapped}", W, "the label of the version is read as the version" if mapped else "the version is read as its label")
    exits = {}
    PEEK = lambda t: t.k == "a" and t.a[1] in ("label", "_label") and fname(t.a[0]) == "Labeler" and arg(t.a[0], None, "strip") in (None, FALSE)

    def envof(x, proto, ik):
        mapped = proto == "ACDC" and ik in MAPPED
        env = {PROTO: proto, "mapped": mapped}
        ts = {z for t, p in x.facts for z in subterms(t)} | {z for c in x.clauses for t, p in c for z in subterms(t)}
        for t in ts:
            if t.k == "a" and fname(t.a[0]) == "Ilker":
                env[t] = ik
            if PEEK(t):
                env[t] = "t" if ik is not None and ik in ("acm", "ace") else "d"
        return env, ts

    def alls(t, ik):
        return t.k == "a" and t.a[1] == "alls" and "Fields" in show(t.a[0])
    for (proto, ik) in sorted(handled, key=str):
        d = T[(proto, 2, ik)]
        mapped = proto == "ACDC" and ik in MAPPED
        got = 0
        for st, v, nd in q.exits():
            env, ts = envof(st, proto, ik)
            if not feasible(st.facts, st.clauses, env, d):
                continue
            if mapped and ("'t'" in "".join(show(h) for h in st.hist if h.k == "setitem")) and ik is None:
                continue
            got += 1
            W = q.where(nd)
            done = any(h.k == "looped" and any(alls(z, ik) for z in subterms(h.a[0])) for h in st.hist) \
                or any(not p and (fname(t) in ("deque", "list") and any(alls(z, ik) for z in subterms(t)) or t.k in ("phi", "fresh") and any(alls(z, ik) for z in subterms(t))) for t, p in st.facts)
            empty = any(not p and (buffer(t) or t.k == "phi" and any(buffer(c) for c in comps(t) if c is not None)) for t, p in st.facts)
            if mapped:
                ctx.need(empty, R, f"Serder._loads:{proto} {ik}:all", W, "reading stops before the end of the message")
            else:
                ctx.need(done or proto == "ACDC" and not empty and broke(q, st), R, f"Serder._loads:{proto} {ik}:all", W, "reading stops before the last field of the type")
        ctx.need(got > 0, R, f"Serder._loads:{proto} {ik}:readable", q.where(), "a message of this type can never be read")
    # the labels read
    seen = {}
    for e in sets:
        X = e.term.a[1]
        W = f"{SER}:{e.line} Serder._loads"
        for (proto, ik) in handled:
            env, ts = envof(e, proto, ik)
            d = T[(proto, 2, ik)]
            mapped = env["mapped"]
            if not iscon(X):
                env[X] = other
                if feasible(e.facts, e.clauses, env, d):
                    ctx.bad(R, f"Serder._loads:{proto} {ik}:unknown field", W, "a field that has no native coding is read")
                env[X] = next(iter(d.alls))
                env.pop(X)
            if not feasible(e.facts, e.clauses, env, d):
                continue
            if iscon(X):
                ctx.need(mapped and X.a[0] in d.alls or X.a[0] in ("v", "t") and mapped, R, f"Serder._loads:{proto} {ik}:{X.a[0]}", W, "a field is set that was not read")
            elif mapped:
                ctx.need(X.k == "a" and X.a[1] in ("label", "_label") and readof(X.a[0], "Labeler") or from_label(X), R, f"Serder._loads:{proto} {ik}:label", W, "the label of a field is not the one read with it")
            else:
                ctx.need(any(alls(z, ik) for z in subterms(X)) and ("each(" in show(X) or "popleft" in show(X) or "next" in show(X)), R, f"Serder._loads:{proto} {ik}:label", W, "fields are not read in the order of the type")
            head = list(e.hist)
            ctx.need(any(readof(h, "Counter") for h in head) and any(readof(h, "Verser") for h in head), R, f"Serder._loads:{proto} {ik}:head", W, "fields are read from the counter or the version of the message") if not (iscon(X) and X.a[0] == "v") else None
            if not mapped:
                ctx.need(any(readof(h, "Ilker") for h in head), R, f"Serder._loads:{proto} {ik}:type", W, "fields are read from the type of the message")
            if iscon(X):
                seen.setdefault((proto, ik), set()).add(X.a[0])
                if X.a[0] == "t":
                    peek = [z for z in ts if PEEK(z)]
                    gone = any(h.k == "del" and peek and h.a[0].k in ("sub", "slice") and fname_of_size(h.a[0]) for h in head) \
                        or any(y.kind == "call" and y.line < e.line and readof(y.term, "Labeler") and y.term in e.hist and any(p and t.k == "eq" and any(PEEK(z) for z in t.a) for t, p in y.facts) for y in q.w.events)
                    ctx.need(gone, R, f"Serder._loads:{proto} {ik}:type label", W, "the label of the type is read as the type")
    for (proto, ik) in handled:
        if proto == "ACDC" and ik in MAPPED:
            ctx.need("v" in seen.get((proto, ik), ()), R, f"Serder._loads:{proto} {ik}:version set", q.where(), "the version read is not in the field map")
            ctx.need(ik is None or "t" in seen.get((proto, ik), ()), R, f"Serder._loads:{proto} {ik}:type set", q.where(), "the type read is not in the field map")
    sizes = (P("size"), q.w.termof("len(raw)", {"raw": RAW}))
    for e in q.w.events:
        if e.kind == "setitem" and e.term.k == "sub" and e.term.a[0] in outs and fname(e.value) == "versify":
            given = {k: arg(e.value, i, k) for i, k in ((None, "proto"), (None, "pvrsn"), (None, "kind"), (None, "size"), (None, "gvrsn"))}
            own = all(given[k] is A(SELF, "_" + k) for k in ("proto", "pvrsn", "kind", "gvrsn")) and given["size"] in sizes
            ctx.need(own, R, "Serder._loads:version value", f"{SER}:{e.line} Serder._loads", f"the version string of the field map is not that of the message read: {show(e.value)[:80]}")
    # refusals: none for what the writer makes
    for kind, st, v, node in q.w.exits:
        if kind != "raise" or v is None:
            continue
        if any(not p and t.k == "in" and t.a[0].k == "a" and fname(t.a[0].a[0]) == "Counter" and "BodyGroup" not in show(t.a[1]) for t, p in st.facts):
            continue
        if any(h.k == "caught" for h in st.hist):
            continue
        labs = {z for t, p in st.facts for z in (t.a if t.k in ("eq", "in") else ()) if hasattr(z, "k") and (z.k == "a" and fname(z.a[0]) == "Labeler" and not PEEK(z) or "each(" in show(z)[:6] or "popleft" in show(z))}
        labs = {z for z in labs if not z.k == "set"}
        for (proto, ik) in handled:
            d = T[(proto, 2, ik)]
            env, ts = envof(st, proto, ik)
            bad = False
            for l in d.alls:
                for z in labs:
                    env[z] = l
                if feasible(st.facts, st.clauses, env, d):
                    if l == "a" and any(not p and t.k == "in" and "dip" in show(t) and "ixn" in show(t) for t, p in st.facts):
                        continue
                    bad = True
            ctx.need(not bad, R, f"Serder._loads:{proto} {ik}:refused", q.where(node), "a message the writer makes is refused by the reader")


def fname_of_size(t):
    return "fullSize" in show(t) and "Labeler(" in show(t)


def from_label(X):
    return X.k == "phi" and any(c is not None and c.k == "a" and fname(c.a[0]) == "Labeler" for c in comps(X))


def broke(q, st):
    """the loop was left on an exhausted queue of labels"""
    return any(e.kind == "break" and any(not p and ("deque" in show(t) and "alls" in show(t)) for t, p in e.facts) for e in q.w.events) \
        and all(any(not p and (("deque" in show(t) and "alls" in show(t)) or "bytearray(raw" in show(t)) for t, p in e.facts) or "alls" not in show_hist(e) for e in q.w.events if e.kind == "break")


def show_hist(e):
    return "".join(show(h) for h in e.hist if h.k == "fresh")


@prop("S02")
def s02_native(ctx):
    R = "S02.pair"
    RF, RE = "S02.frame", "S02.enclose"
    ctx.rule(R, "every field of every natively serialized message type is encoded, exactly once and after its label where labels are given, by a coding that the reader inverts", 60)
    ctx.rule(RF, "lists and seal groups are counted over exactly the elements that follow, and no element is left out", 10)
    ctx.rule(RE, "the body is enclosed as fixed or labelled fields as its type requires, and the reader tells them apart", 6)
    qe = Q(ctx, SER, "Serder._dumps", SOP | {"enclose"}, limit=600, values=VAL)
    qd = Q(ctx, SER, "Serder._loads", SOP | {"enclose"}, limit=600, values=VAL)
    T = {k: d for k, d in fields_table(ctx, qe).items() if k[1] == 2}
    PROTO = A(SELF, "_proto")
    enc = qe.calls("enclose")
    bodies = {arg(e.term, None, "qb64") if arg(e.term, None, "qb64") is not None else arg(e.term, 0) for e in enc}
    if not enc or None in bodies:
        raise AnalysisBroken("Serder._dumps: the enclosing of the body was not found")
    # the types each side handles
    made, read = {}, {}
    MAPPED = (None, "acm", "ace")
    other = "an unknown label"
    for e in qe.w.events:
        if e.kind != "bodyend" or fname(e.term) not in ("items", "keys") and e.term is not P("sad") and e.term is not A(SELF, "sad"):
            continue
        S = recv(e.term) if fname(e.term) in ("items", "keys") else e.term
        if "sad" not in show(S)[-4:]:
            continue
        L = qe.w.elem_of(S)
        V = qe.w.mksub(S, L)
        ilk = qe.w.termof("s.get('t')", {"s": S})
        ext = [h for h in e.hist if h.k == "call" and fname(h) in ("extend", "append") and recv(h) in bodies] + [h.a[0] for h in e.hist if h.k == "fresh" and fname(h.a[0]) == "extend" and recv(h.a[0]) in bodies]
        ext += [h for h in e.hist if h.k == "aug" and h.a[0] in bodies]
        for (proto, _, ik), d in T.items():
            env = {PROTO: proto, ilk: ik}
            env[L] = other
            if feasible(e.facts, e.clauses, env, d):
                ctx.bad(R, f"Serder._dumps:{proto} {ik}:unknown field", f"{SER}:{e.line} Serder._dumps", "a field that has no native coding is left out of the serialization instead of being refused")
            for l in d.alls:
                env[L] = l
                if not feasible(e.facts, e.clauses, env, d):
                    continue
                vals = [arg(h, 0) if h.k == "call" else h.a[1] for h in ext]
                vals = [unbyte(v) if coded(qe, v, V) is not None or coded(qe, v, L) is not None else v for v in vals]
                lab = [v for v in vals if coded(qe, v, L) == ("Labeler", canon(qe, "Labeler", "label"))]
                rest = [v for v in vals if v not in lab]
                made.setdefault((proto, ik, l), []).append((lab, rest, e, L, V))
    for e in qd.w.events:
        if e.kind != "setitem":
            continue
        X = e.term.a[1] if e.term.k == "sub" else None
        if X is None or not ("sad" in show(e.term.a[0]) or "dict@_loads" in show(e.term.a[0])):
            continue
        ilks = [t for t in {z for t, p in e.facts for z in subterms(t)} if t.k == "a" and fname(t.a[0]) == "Ilker"]
        for (proto, _, ik), d in T.items():
            env = {PROTO: proto, "mapped": proto == "ACDC" and ik in MAPPED}
            for t in ilks:
                env[t] = ik
            for l in d.alls:
                if iscon(X):
                    if X.a[0] != l:
                        continue
                else:
                    env[X] = l
                if feasible(e.facts, e.clauses, env, d) and not (l == "t" and e.value is NONE):  # no type was given: the type field is not there
                    read.setdefault((proto, ik, l), []).append(e)
    handled = {(p, i) for p, i, l in made}
    ctx.need({i for p, i in handled if p == "KERI"} >= {"icp", "rot", "ixn", "dip", "drt", "rct", "qry", "rpy", "pro", "bar", "xip", "exn"}, R, "Serder._dumps:KERI types", qe.where(), "a KERI message type can no longer be serialized natively")
    ctx.need({i for p, i in handled if p == "ACDC"} >= {None, "acm", "ace", "act", "acg", "sch", "att", "agg", "edg", "rul", "rip", "bup", "upd"}, R, "Serder._dumps:ACDC types", qe.where(), "an ACDC message type can no longer be serialized natively")
    for (proto, _, ik), d in T.items():
        if (proto, ik) not in handled:
            continue
        mapped = proto == "ACDC" and ik in MAPPED
        for l in d.alls:
            K = f"{proto} {ik} field {l}"
            ms, rs = made.get((proto, ik, l), []), read.get((proto, ik, l), [])
            if not ctx.need(bool(ms), R, f"Serder._dumps:{K}", qe.where(), "the field is not serialized"):
                continue
            if not ctx.need(bool(rs), R, f"Serder._loads:{K}", qd.where(), "the field is not read back"):
                continue
            shapes = {}
            for lab, rest, e, L, V in ms:
                W = f"{SER}:{e.line} Serder._dumps"
                ctx.need(len(lab) == (1 if mapped else 0), R, f"Serder._dumps:{K}:label", W, "the field is serialized without its label" if mapped else "a label is serialized in a body of fixed fields")
                if not ctx.need(len(rest) == 1, R, f"Serder._dumps:{K}:once", W, "the field can be left out of the serialization" if not rest else "the field is serialized more than once"):
                    continue
                sh = value_shape(ctx, qe, rest[0], e, V, l)
                if sh == ("text",) and proto == "KERI" and ik in ("xip", "exn") and l in ("p", "ri", "x"):
                    ctx.need(not feasible(e.facts, e.clauses, {PROTO: proto, L: l, qe.w.termof("s.get('t')", {"s": V.a[0]}): ik, V: ""}, d), R, f"Serder._dumps:{K}:empty", W, "an empty value of an optional field leaves nothing in the serialization, so other fields are read in its place")
                if ctx.need(sh is not None, R, f"Serder._dumps:{K}:coding", W, f"what is serialized is not the value of the field: {show(rest[0])[:80]}"):
                    shapes.setdefault(sh, W)
            back = {}
            for e in rs:
                W = f"{SER}:{e.line} Serder._loads"
                sh = read_shape(ctx, qd, e, l)
                told_apart(ctx, qd, e, l, K, sh, shapes)
                if ctx.need(sh is not None, R, f"Serder._loads:{K}:coding", W, f"the value of the field is not what is read from the message: {show(e.value)[:80]}"):
                    back.setdefault(sh, W)
            for sh, W in shapes.items():
                ctx.need(sh in back, R, f"Serder._dumps:{K}:{sh}", W, f"the field is serialized as {sh} which the reader does not invert (it reads {sorted(map(str, back))})")
            for sh, W in back.items():
                ctx.need(sh in shapes, R, f"Serder._loads:{K}:{sh}", W, f"the field is read as {sh} which the writer never makes (it writes {sorted(map(str, shapes))})")
    s02_reading(ctx, qd, T, handled, MAPPED, other)
    # enclosing
    for e in enc:
        code = arg(e.term, None, "code")
        code = code if code is not None else arg(e.term, 1)
        nm = show(code) if code is not None else "the default group"
        kind = True if nm.endswith("MapBodyGroup") or "MapBody" in nm else False if "FixBody" in nm else None
        for (proto, _, ik), d in T.items():
            if (proto, ik) not in handled:
                continue
            env = {PROTO: proto}
            for S in (P("sad"), A(SELF, "sad"), A(SELF, "_sad")):
                env[qe.w.termof("s.get('t')", {"s": S})] = ik
            if feasible(e.facts, e.clauses, env, d):
                ctx.need(kind is (proto == "ACDC" and ik in MAPPED), RE, f"Serder._dumps:{proto} {ik}", f"{SER}:{e.line} Serder._dumps", f"the body is enclosed as {nm}, which is not how its fields were written")
                read.setdefault(("enclosed", proto, ik), []).append(e)
        ver = arg(e.term, None, "version")
        ctx.need(ver is A(SELF, "_gvrsn"), RE, "Serder._dumps:genus version", f"{SER}:{e.line} Serder._dumps", "the body is enclosed with the codes of another genus version than the message states")
    for p, i in handled:
        ctx.need(bool(read.get(("enclosed", p, i))), RE, f"Serder._dumps:{p} {i}:enclosed", qe.where(), "the body is not enclosed in a group")
    n = 0
    for st, v, nd in qe.exits():
        n += 1
        v = unbyte(v)
        ctx.need(v in {e.term for e in enc} or v.k == "phi" and all(c is None or c in {e.term for e in enc} or c in bodies or fname(c) in ("bytearray",) for c in comps(v)) and bool(comps(v) & {e.term for e in enc}), RE, "Serder._dumps:returned", qe.where(nd), f"what is returned is not the enclosed body: {show(v)[:60]}")
    ctx.need(n > 0, RE, "Serder._dumps:returns", qe.where(), "nothing is serialized")
