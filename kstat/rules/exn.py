"""Peer to peer exchange messages: take effect only when authentic, held whole while signatures are missing, read back verified."""
from . import prop
from .corelib import *
from .kel import KB
from .rct import norm, same, keyparts
from .esc import hist_calls, caught, could_be, only_is, comps
from .rpy import reads, k_is, only, sn_text, is_cued, prim

XR = "src/keri/peer/exchanging.py"
S, SELF = P("serder"), P("self")
XB = KB | {"escrowPSEvent", "logEvent", "processEvent", "resolveVerifiers", "verifySigs", "satisfy", "verify", "handle", "loadParsedNestedSubstreams", "serializeParsedSubstream", "klasify",
           "getTopItemIter", "fetchTsgs", "messagize", "nesting", "processEscrowPartialSigned", "strip", "Pather", "Diger", "Counter"}


def strp(t):
    """without a wrapper that only replaces None or copies"""
    return unwrap(t) if t is not None else None


def given(t, name):
    """the parameter of that name, its elements, or an empty one where none was given"""
    if t is None:
        return False
    if t is P(name) or t.k in ("new", "tup", "list") or t is NONE:
        return True
    if t.k in ("or", "phi", "ite"):
        return any(x is P(name) for x in subterms(t))
    return fname(t) in ("list", "tuple") and arg(t, 0) is P(name)


def resolved(q, x, base):
    """groups of tuples (holder, keys) looked up for a signer event"""
    return reads(x, lambda t: fname(t) == "resolveVerifiers" and recv(t) is not None)


def fields(q, X):
    """readings of the four parts of a signature group: of the element itself, or of the one tuple its list is made of"""
    at = q.w.mksub
    yield [at(X, C(i)) for i in range(4)]
    got = appended(q, X.a[0]) if X.k == "elem" else None
    vs = {v for v, _ in got or []}
    if len(vs) == 1:
        t = tup(next(iter(vs)))
        if t and len(t) == 4:
            yield t


def group_judged(q, x, X, raw, sender=None):
    """the group X is by the sender and verified to the threshold of its cited event's keys"""
    return any(group_judged_(q, x, f, raw, sender) for f in fields(q, X))


def group_judged_(q, x, fs, raw, sender):
    at = q.w.mksub
    pre, num, dig, sig = fs
    for r in resolved(q, x, None):
        if not (arg(r, 0, "pre") is A(pre, "qb64") and arg(r, 1, "sn") in (A(num, "sn"), A(num, "num")) and arg(r, 2, "dig") is A(dig, "qb64")):
            continue
        th, vf = at(r, C(0)), at(r, C(1))
        for f, p in x.facts:
            if p and fname(f) == "satisfy" and norm(recv(f)) is norm(th):
                ix = arg(f, 0, "indices")
                v = ix.a[0] if ix is not None and ix.k == "sub" and ix.a[1] is C(1) else None
                if fname(v) == "verifySigs" and arg(v, 0, "raw") is raw and arg(v, 1, "sigers") is sig and norm(arg(v, 2, "verfers")) is norm(vf):
                    return sender is None or q.holds(x, "s == p", {"s": sender, "p": A(pre, "qb64")})
    return False


def cigar_judged(q, x, I, V, raw):
    return any(p and fname(f) == "verify" and recv(f) is V and arg(f, 0, "sig") is A(I, "raw") and arg(f, 1, "ser") is raw for f, p in x.facts)


def loops(q, name):
    return [b for b in q.w.events if b.kind == "bodyend" and b.term is P(name)]


def ran(x, name):
    return any(h.k == "looped" and h.a[0] is P(name) for h in x.hist)


@prop("X01")
def x01(ctx):
    R1 = "X01.authentic"
    ctx.rule(R1, "an exchange message is saved or acted on only with signatures of its sender that verify, to the threshold of the sender's cited event, or of the sender's own nontransferable key", 8)
    R2 = "X01.content"
    ctx.rule(R2, "a message whose content is a digest is saved or acted on only with attached content of that digest", 2)
    R3 = "X01.behavior"
    ctx.rule(R3, "a message is saved or acted on only when the verification of its route's behavior, if it has one, ran and succeeded", 2)
    R4 = "X01.held"
    ctx.rule(R4, "a message without enough signatures is held whole and its sender's key state asked for", 4)
    q = Q(ctx, XR, "Exchanger.processEvent", XB, limit=4000)
    raw, snd = q.term("serder.raw"), [q.term("serder.ked['i']"), q.term("serder.sad['i']"), q.term("serder.pre")]
    at = q.w.mksub
    who = lambda x, pre: any(q.holds(x, "s == p", {"s": s, "p": pre}) for s in snd)
    for b in loops(q, "tsgs"):
        X = q.w.elem_of(b.term)
        ctx.need(group_judged(q, b, X, raw), R1, f"{q.qual}:group", q.where(b.node), "a signature group counts without reaching the threshold of its cited event's keys over the message")
        ctx.need(who(b, A(at(X, C(0)), "qb64")), R1, f"{q.qual}:group by sender", q.where(b.node), "the signatures of another identifier than the sender count")
    for b in loops(q, "cigars"):
        I = q.w.elem_of(b.term)
        V = A(I, "verfer")
        ctx.need(cigar_judged(q, b, I, V, raw), R1, f"{q.qual}:signature", q.where(b.node), "a signature counts without verifying over the message")
        ctx.need(who(b, A(V, "qb64")), R1, f"{q.qual}:signature by sender", q.where(b.node), "the signature of another identifier than the sender counts")
        ctx.need(q.holds(b, "not v.transferable", {"v": V}), R1, f"{q.qual}:nontransferable", q.where(b.node), "a transferable identifier's initial key counts after it was rotated away")
    ctx.need(bool(loops(q, "tsgs")) and bool(loops(q, "cigars")), R1, f"{q.qual}:kinds", q.where(), "one kind of signature is never judged")
    for e in q.w.events:
        if e.kind == "break" and e.term in (P("tsgs"), P("cigars")):
            ctx.bad(R1, f"{q.qual}:all signatures", q.where(e.node), "later signatures are not judged")
    B = [q.term("self.routes[r]", {"r": r}) for r in (q.term("serder.ked['r']"), q.term("serder.sad['r']"))]
    B += [t for e in q.w.events for t in terms_of(e) if fname(t) == "get" and chain(recv(t))[-1] == "routes" and arg(t, 0) is q.term("serder.ked['r']")]

    def beh(t):
        return t in B or t is not None and t.k in ("ite", "phi", "or") and any(z in B for z in subterms(t)) or t is NONE

    def known(x, y):
        return [f for f, p in x.facts if p and fname(f) == y and recv(f) is not None and beh(recv(f))]

    def nobeh(x):
        if any(m for m in caught(x) if "AttributeError" in m.a[1]):
            return False
        for f, p in x.facts:
            if fname(f) == "hasattr" and not p and beh(arg(f, 0)) and arg(f, 1) is C("verify"):
                return True
            if p and f.k in ("is", "eq") and NONE in f.a and any(beh(z) or fname(z) == "getattr" and beh(arg(z, 0)) and arg(z, 1) is C("verify") for z in f.a):
                return True
            if not p and (beh(f) or fname(f) == "getattr" and beh(arg(f, 0)) and arg(f, 1) is C("verify")):
                return True
            if fname(f) == "callable" and not p:
                return True
            if not p and f.k == "in" and f.a[0] in (q.term("serder.ked['r']"), q.term("serder.sad['r']")) and chain(f.a[1])[-1] == "routes":
                return True
        return False

    def vcall(f):
        """call of the behavior's verification with the message"""
        c = f.a[0] if f.k == "call" else None
        if c is None:
            return False
        named = fname(f) == "verify" and recv(f) is not None and beh(recv(f))
        got = fname(c) == "getattr" and beh(arg(c, 0)) and arg(c, 1) is C("verify")
        return (named or got) and (arg(f, None, "serder") is S or arg(f, 0) is S)

    def authentic(x):
        if q.holds(x, "tsgs"):
            return ran(x, "tsgs")
        return q.holds(x, "cigars") and ran(x, "cigars")
    acts = q.calls("logEvent", "handle")
    ctx.need(bool(q.calls("logEvent")), R1, f"{q.qual}:saved", q.where(), "no message is ever saved")
    ctx.need(bool(q.calls("handle")), R3, f"{q.qual}:handled", q.where(), "no message is ever acted on")
    for e in acts:
        w = q.where(e.node)
        ctx.need(authentic(e), R1, f"{q.qual}:{fname(e.term)} authentic", w, "a message takes effect without signatures")
        good = any(not p and fname(f) == "isinstance" and arg(f, 1) is not None and "str" in show(arg(f, 1)) for f, p in e.facts)
        for f, p in e.facts:
            if p and fname(f) == "verify" and arg(f, None, "ser") is not None or p and fname(f) == "verify" and fname(recv(f)) == "Diger":
                d = recv(f)
                c = arg(f, 0, "ser")
                good = good or fname(d) == "Diger" and norm(prim(d)) is norm(A(S, "seals")) and c is not None and any(z is P("essrs") or z.k == "sub" and z.a[1] is C("essr") for z in subterms(c))
        ctx.need(good, R2, f"{q.qual}:{fname(e.term)} content", w, "a message takes effect with content of another digest than the signed one, or without content")
        ctx.need(any(p and vcall(f) for f, p in e.facts) or nobeh(e), R3, f"{q.qual}:{fname(e.term)} verified", w,
                 "a message takes effect though the verification of its behavior failed or broke off with an error")
    for e in q.calls("handle"):
        ctx.need(beh(recv(e.term)) and (arg(e.term, None, "serder") is S or arg(e.term, 0) is S), R3, f"{q.qual}:own behavior", q.where(e.node), "a message is acted on by another behavior than its route's")
        ctx.need(called_before(e, lambda t: fname(t) == "logEvent"), R3, f"{q.qual}:saved first", q.where(e.node), "a message is acted on without having been saved")
    for e in q.calls("logEvent"):
        t = e.term
        ctx.need(arg(t, 0, "serder") is S and given(arg(t, 1, "pathed"), "ptds") and given(arg(t, 2, "tsgs"), "tsgs") and given(arg(t, 3, "cigars"), "cigars") and given(arg(t, 4, "essrs"), "essrs") and
                 nests_of(q, arg(t, 5, "nests")), R1, f"{q.qual}:saved whole", q.where(e.node), "a message is saved without all that came with it")
    for st, v, nd in q.exits():
        lg = called_before(st, lambda t: fname(t) == "logEvent")
        refused = any(not p and vcall(f) for f, p in st.facts)
        ctx.need(lg or refused, R3, f"{q.qual}:outcome", q.where(nd), "an authentic message is dropped")
        if lg:
            ctx.need(any(is_cued(t, "saved") and asks(q, t, dict(said=q.term("serder.said"))) for t in hist_calls(st)), R3, f"{q.qual}:announced", q.where(nd), "a saved message is not announced")
            ctx.need(any(fname(t) == "handle" and beh(recv(t)) for t in hist_calls(st)) or nobeh(st) or any("AttributeError" in m.a[1] for m in caught(st)) or any(
                fname(f) in ("hasattr", "getattr", "callable") or f.k == "is" and any(fname(z) == "getattr" for z in f.a) for f, p in st.facts), R3, f"{q.qual}:handled", q.where(nd), "a saved message is not acted on")

    def hold(t):
        return fname(t) == "escrowPSEvent" and arg(t, 0, "serder") is S and given(arg(t, 1, "tsgs"), "tsgs") and arg(t, 1, "tsgs") is not None and given(arg(t, 2, "pathed"), "ptds") and nests_of(q, arg(t, 3, "nests")) and \
            given(arg(t, None, "essrs"), "essrs")
    for e in q.calls("escrowPSEvent"):
        ctx.need(hold(e.term), R4, f"{q.qual}:held whole", q.where(e.node), "a message is held without all that came with it")
        ctx.need(not q.holds(e, "tsgs") or arg(e.term, 1, "tsgs") is P("tsgs"), R4, f"{q.qual}:held whole", q.where(e.node), "a message is held without its signatures")
    X = q.w.elem_of(P("tsgs"))
    pre, num = A(at(X, C(0)), "qb64"), at(X, C(1))
    kn = ["p in self.kevers", "p in self.hby.kevers", "p in self.hby.db.kevers"]
    sns = [f"not self{m}.kevers[p].sn < n.{a} || self{m}.kevers[p].sn >= n.{a}" for m in ("", ".hby", ".hby.db") for a in ("sn", "num")]
    env = {"p": pre, "n": num}
    known_ = lambda x: any(q.holds(x, k, env) for k in kn) and any(q.holds(x, s, env) for s in sns)
    unknown = lambda x: any(q.holds(x, f"p not in self{m}.kevers or self{m}.kevers[p].sn < n.{a}", env) for m in ("", ".hby", ".hby.db") for a in ("sn", "num"))
    for e in q.calls("resolveVerifiers"):
        ctx.need(known_(e) or any("Validation" in str(m.a[1]) for m in caught(e)), R4, f"{q.qual}:unknown signer", q.where(e.node), "a message whose signer's event is not known yet is refused instead of held")
    for e in q.calls("escrowPSEvent"):
        few = any(not p and fname(f) == "satisfy" for f, p in e.facts)
        ctx.need(few or unknown(e) or q.holds(e, "not tsgs") and q.holds(e, "not cigars"), R4, f"{q.qual}:held only while waiting", q.where(e.node), "a message is held though its signatures suffice")
    for st, nd in raises_named(q, {"MissingSignatureError"}):
        w = q.where(nd)
        h = [t for t in hist_calls(st) if hold(t)]
        X = q.w.elem_of(P("tsgs"))
        other = any(not p and f.k == "eq" and any(s in f.a for s in snd) for f, p in st.facts)
        badsig = any(not p and fname(f) == "verify" for f, p in st.facts)
        trans = any(p and f.k == "a" and f.a[1] == "transferable" for f, p in st.facts)
        ctx.need(bool(h) or other or badsig or trans, R4, f"{q.qual}:put off", w, "a message still lacking signatures is dropped instead of held")
        if h and q.holds(st, "tsgs") and not holds(st, h[0], False):
            ctx.need(any(is_cued(t, "query") and asks(q, t, dict(r=C("logs"), pre=pre, sn=A(num, "snh"))) for t in hist_calls(st)), R4, f"{q.qual}:asked for", w, "the key state a held message waits for is not asked for")
        if not h and not other and not badsig and not trans:
            continue
    sealed = lambda st: any(p and fname(f) == "isinstance" and "str" in show(arg(f, 1)) for f, p in st.facts)
    for st, nd in raises_named(q, {"ValidationError"}):
        ctx.need(sealed(st) and (any(not p and fname(f) == "verify" for f, p in st.facts) or any(not p and f.k == "in" and C("essr") in f.a for f, p in st.facts) or q.holds(st, "not essrs")), R2,
                 f"{q.qual}:content refused", q.where(nd), "a message is refused for its content although it matches the signed digest, or is not a digest")
    ctx.need(any(nobeh(e) for e in q.calls("logEvent")), R3, f"{q.qual}:no behavior", q.where(), "a message of a route without behavior is refused")
    for e in q.calls("verify", "handle"):
        if arg(e.term, None, "serder") is S:
            x01_material(ctx, R3, q, e)
    x01_store(ctx)
    x01_retry(ctx)
    x01_read(ctx)
    x01_resolve(ctx, R1)


def entries(q, d):
    """named entries of the dictionary d"""
    out = dict(d.a[2]) if fname(d) == "dict" else {}
    if d.k == "new" and len(d.a) > 2 and d.a[0] == "dict":
        out = {k.a[0]: v for k, v in d.a[2] if k.k == "c"}
    for e in q.w.events:
        if e.kind == "setitem" and e.term.k == "sub" and e.term.a[0] is d and e.term.a[1].k == "c":
            out[e.term.a[1].a[0]] = e.value
    return out


def asks(q, t, want):
    """some dictionary within the call t has these entries"""
    for z in subterms(t):
        es = entries(q, z) if z.k in ("call", "new", "dict") else {}
        if es and all(k in es and norm(es[k]) is norm(v) for k, v in want.items()):
            return True
    return False


def x01_material(ctx, R, q, e):
    """the behavior is given what came with the message"""
    w = q.where(e.node)
    n = fname(e.term)
    kw = dict(e.term.a[2])
    got = {k: v for k, v in kw.items() if k != "**"}
    for h in e.hist:
        if h.k == "setitem" and h.a[0].k == "sub" and h.a[0].a[0] is kw.get("**") and h.a[0].a[1].k == "c":
            got[h.a[0].a[1].a[0]] = h.a[1]
    L = got.get("attachments")
    ctx.need(L is not None, R, f"{q.qual}:{n} embedded", w, "a behavior is not given the embedded material of a message")
    el = q.w.elem_of(P("ptds"))
    root = lambda t: fname(t) == "Pather" and ([C("e")] == (tup(arg(t, None, "parts")) or []) or [v for v, _ in appended(q, arg(t, None, "parts")) or []] == [C("e")] or "'e'" in show(arg(t, None, "parts") or P("?")) or arg(t, None, "path") in (C("/e"), C("-e"), C("e")))
    whole = lambda t: fname(t) == "bytearray" and arg(t, 0) is el
    path = lambda t: fname(t) == "Pather" and whole(arg(t, None, "qb64b")) and arg(t, None, "strip") is TRUE
    if L is not None:
        for v, x in appended(q, L) or []:
            if q.holds(x, "ptds is None"):
                continue
            vs = tup(v) or []
            ctx.need(len(vs) == 2 and fname(vs[0]) == "strip" and path(recv(vs[0])) and fname(arg(vs[0], 0, "root")) == "Pather" and whole(vs[1]), R, f"{q.qual}:embedded", q.where(x.node), "embedded material is handed on under another path or incomplete")
            ctx.need(any(p and fname(f) == "startswith" and path(recv(f)) for f, p in x.facts), R, f"{q.qual}:embedded path", q.where(x.node), "material that is not embedded in the message's e block is handed on as such")
        ctx.need(bool(appended(q, L)), R, f"{q.qual}:embedded", w, "a behavior is not given the embedded material of a message")
        for b in q.w.events:
            if b.kind == "bodyend" and b.term is P("ptds"):
                out = any(not p and fname(f) == "startswith" and path(recv(f)) for f, p in b.facts)
                ctx.need(out or any(fname(t) == "append" and recv(t) is L for t in hist_calls(b)), R, f"{q.qual}:each embedded", q.where(b.node), "embedded material is left out")
    E = got.get("essr")
    if q.holds(e, "essrs"):
        ctx.need(E is not None and any(z.k == "a" and z.a[1] == "raw" for z in subterms(E)) and any(z is P("essrs") for z in subterms(E)), R, f"{q.qual}:{n} content", w, "a behavior is not given the content of a message")
    N = [q.term("kwa.get('nests')"), P("nests")]
    rt = [q.term("serder.ked['r']"), q.term("serder.sad['r']")]
    for r_ in rt:
        for m in ("/multisig", "/ipex"):
            if q.holds(e, "r.startswith(m)", {"r": r_, "m": C(m)}) and any(q.holds(e, "n", {"n": z}) for z in N):
                ctx.need(got.get("nests") in N, R, f"{q.qual}:{n} nested", w, "a behavior is not given the nested messages of a message")
                ctx.ok(R, f"{q.qual}:{n} nested {m}")


def nests_of(q, t):
    if t is None:
        return False
    return t is P("nests") or any(z is C("nests") for z in subterms(t)) or t is NONE


def quad4(k, dig, X, at):
    ks = tup(k)
    return bool(ks) and len(ks) == 4 and norm(ks[0]) is norm(dig) and norm(ks[1]) is norm(A(at(X, C(0)), "qb64")) and sn_text(ks[2], at(X, C(1))) and norm(ks[3]) is norm(A(at(X, C(2)), "qb64"))


def sigs_loop(ctx, R, q, dig):
    """every signature of every given group is stored under message, signer and event"""
    at = q.w.mksub
    n = 0
    for b in q.w.events:
        if b.kind != "bodyend":
            continue
        src = b.term
        if src is P("tsgs") or src.k in ("or", "phi", "ite") and any(z is P("tsgs") for z in subterms(src)):
            X = q.w.elem_of(src)
            n += 1
            whole = did(b, "esigs", ("put", "pin"), lambda t: quad4(arg(t, 0, "keys"), dig, X, at) and arg(t, 1, "vals") is at(X, C(3))) or \
                any(h.k == "looped" and h.a[0] is at(X, C(3)) for h in b.hist)
            ctx.need(whole, R, f"{q.qual}:each group", q.where(b.node), "a signature group of a message is not stored")
        elif src.k == "sub" and src.a[1] is C(3) and src.a[0].k == "elem":
            X = src.a[0]
            I = q.w.elem_of(src)
            ctx.need(did(b, "esigs", ("add", "put"), lambda t: quad4(arg(t, 0, "keys"), dig, X, at) and (arg(t, 1, "val") is I or only(q, arg(t, 1, "vals"), I))), R, f"{q.qual}:each signature", q.where(b.node),
                     "a signature of a message is not stored under the message, its signer and the signer's event")
    for e in q.w.events:
        if e.kind == "break":
            ctx.bad(R, f"{q.qual}:all signatures", q.where(e.node), "later signatures of a message are not stored")
    ctx.need(n > 0, R, f"{q.qual}:signatures", q.where(), "a message is stored without its signatures")


def each(q, t, name, conv=()):
    """t is the list of every element of parameter name, as bytes or serialized"""
    got = appended(q, t) if t is not None else None
    c = t
    if c is not None and c.k in ("comp", "listcomp", "gen", "map"):
        return any(z is P(name) for z in subterms(c))
    return got is not None and any(any(z is P(name) for z in subterms(v)) for v, e in got) or t is not None and any(z is P(name) for z in subterms(t))


def x01_store(ctx):
    R = "X01.stored"
    ctx.rule(R, "a message is held and saved whole: body, date, every signature under its signer and event, embedded material and content", 10)
    q = Q(ctx, XR, "Exchanger.escrowPSEvent", {"put", "pin", "add", "serializeParsedSubstream"})
    dig = q.term("serder.said")
    dk = lambda t: k_is(arg(t, 0, "keys"), norm(dig)) or norm(arg(t, 0, "keys")) is norm(dig)
    sigs_loop(ctx, R, q, dig)
    for st, v, nd in q.exits():
        w = q.where(nd)
        put = lambda t: dbop(t, "epse", "put") and dk(t) and arg(t, 1, "val") is S
        ctx.need(any(put(t) for t in hist_calls(st)), R, f"{q.qual}:body", w, "a message is not held")
        ctx.need(put(v), R, f"{q.qual}:result", w, "the result does not say whether the message is newly held")
        ctx.need(did(st, "epsd", ("put",), lambda t: dk(t) and fname(arg(t, 1, "val")) == "Dater"), R, f"{q.qual}:date", w, "a message is held without the date it arrived, or the date is renewed")
        ctx.need(did(st, "epath", ("pin", "put"), lambda t: dk(t) and each(q, arg(t, 1, "vals"), "pathed")), R, f"{q.qual}:embedded", w, "a message is held without its embedded material")
        ctx.need(q.holds(st, "not nests || nests is None") or did(st, "enst", ("pin", "put"), lambda t: dk(t) and each(q, arg(t, 1, "vals"), "nests")), R, f"{q.qual}:nested", w, "a message is held without its nested messages")
        ctx.need(q.holds(st, "not essrs || essrs is None") or did(st, "essrs", ("pin", "put"), lambda t: dk(t) and each(q, arg(t, 1, "vals"), "essrs")) or
                 any(h.k == "looped" and any(z is P("essrs") for z in subterms(h.a[0])) for h in st.hist), R, f"{q.qual}:content", w, "a message is held without its content")
    essr_loop(ctx, R, q, dk)
    q = Q(ctx, XR, "Exchanger.logEvent", {"put", "pin", "add", "serializeParsedSubstream"})
    dig = q.term("serder.said")
    sigs_loop(ctx, R, q, dig)
    for st, v, nd in q.exits():
        w = q.where(nd)
        ctx.need(did(st, "exns", ("put", "pin"), lambda t: dk(t) and arg(t, 1, "val") is S), R, f"{q.qual}:body", w, "a message is not saved")
        ctx.need(did(st, "epath", ("pin", "put"), lambda t: dk(t) and each(q, arg(t, 1, "vals"), "pathed")), R, f"{q.qual}:embedded", w, "a message is saved without its embedded material")
        ctx.need(q.holds(st, "not nests || nests is None") or did(st, "enst", ("pin", "put"), lambda t: dk(t) and each(q, arg(t, 1, "vals"), "nests")), R, f"{q.qual}:nested", w, "a message is saved without its nested messages")
        pd = [q.term("serder.ked['p']"), q.term("serder.sad['p']")]
        ctx.need(any(q.holds(st, "not p", {"p": p}) for p in pd) or did(st, "erpy", ("pin", "put"), lambda t: any(k_is(arg(t, 0, "keys"), norm(p)) for p in pd) and norm(prim(arg(t, 1, "val"))) is norm(dig)), R,
                 f"{q.qual}:reply", w, "a reply is not found from the message it answers")
        for n, s in (("cigars", "ecigs"), ("essrs", "essrs")):
            ctx.need(q.holds(st, f"not {n} || {n} is None") or did(st, s, ("put", "pin"), lambda t: dk(t) and each(q, arg(t, 1, "vals"), n)) or
                     any(h.k == "looped" and any(z is P(n) for z in subterms(h.a[0])) for h in st.hist), R, f"{q.qual}:{n}", w, "a message is saved without its signatures or content")
    for b in q.w.events:
        if b.kind == "bodyend" and any(z is P("cigars") for z in subterms(b.term)) and b.term.k != "sub":
            I = q.w.elem_of(b.term)
            ctx.need(did(b, "ecigs", ("add", "put"), lambda t: dk(t) and (tup(arg(t, 1, "val", "vals")) == [A(I, "verfer"), I] or only_pair(q, arg(t, 1, "vals", "val"), I))), R, f"{q.qual}:each cigar", q.where(b.node),
                     "a signature of a saved message is not saved with its key")
    essr_loop(ctx, R, q, dk)


def only_pair(q, v, I):
    vs = tup(v)
    got = appended(q, v)
    if got and len(got) == 1:
        vs = [got[0][0]]
    return bool(vs) and len(vs) == 1 and tup(vs[0]) == [A(I, "verfer"), I]


def essr_loop(ctx, R, q, dk):
    for b in q.w.events:
        if b.kind == "bodyend" and any(z is P("essrs") for z in subterms(b.term)) and b.term.k != "sub":
            I = q.w.elem_of(b.term)
            ctx.need(did(b, "essrs", ("add", "put"), lambda t: dk(t) and (arg(t, 1, "val") is I or only(q, arg(t, 1, "vals"), I))), R, f"{q.qual}:each content", q.where(b.node), "a part of a message's content is not stored")


def regrouped(ctx, R, q, dig, what):
    """signatures stored for the message are put together again by signer and event: returns a predicate for the list of groups"""
    its = [e for e in q.w.events if e.kind == "iter" and dbop(e.term, "esigs", "getTopItemIter")]
    its = [e for e in its if tup(arg(e.term, 0, "keys")) and norm(tup(arg(e.term, 0, "keys"))[0]) is norm(dig) and tup(arg(e.term, 0, "keys"))[1:] in ([C("")], [C(b"")])]
    fs = [t for e in q.w.events for t in terms_of(e) if fname(t) == "fetchTsgs" and chain(arg(t, 0, "db") or P("?"))[-1] == "esigs"]
    ctx.need(bool(its) or bool(fs), R, f"{q.qual}:all signatures", q.where(), what)
    return its, fs


def x01_retry(ctx):
    R = "X01.retried"
    ctx.rule(R, "each pass retries every held message with all signatures held for it and everything that came with it, within its time limit; it leaves when saved, refused for good or too old", 10)
    W = "MissingSignatureError"
    q = Q(ctx, XR, "Exchanger.processEscrowPartialSigned", XB | {"get", "rem", "trim"}, limit=3000)
    its = [e for e in q.w.events if e.kind == "iter" and dbop(e.term, "epse", "getTopItemIter", "getItemIter") and not arg(e.term, 0, "keys")]
    ctx.need(bool(its), R, f"{q.qual}:every held message", q.where(), "not every held message is retried")
    if not its:
        return
    seq = its[0].term
    el, at = q.w.elem_of(seq), q.w.mksub
    ks, ser = at(el, C(0)), at(el, C(1))
    dig = at(ks, C(0))
    isd = lambda k: k is ks or k_is(k, norm(dig)) or norm(k) is norm(dig)
    sit, fts = regrouped(ctx, R, q, dig, "a held message is retried without the signatures held for it")
    got = lambda t, s: dbop(t, s, "get") and isd(arg(t, 0, "keys"))

    def again(t, x):
        if fname(t) != "processEvent" or arg(t, 0, "serder") is not ser:
            return False
        p, e, n = arg(t, None, "ptds"), arg(t, None, "essrs"), arg(t, None, "nests")
        has = lambda v, s: v is not None and (any(got(z, s) for z in subterms(v)) or any(any(got(z, s) for z in subterms(y)) for y, _ in (appended(q, v) or [])))
        return has(p, "epath") and has(e, "essrs") and n is not None and any(fname(z) == "loadParsedNestedSubstreams" and norm(arg(z, 1, "said")) is norm(dig) for z in subterms(n))
    subs = q.calls("processEvent")
    ctx.need(bool(subs), R, f"{q.qual}:retried", q.where(), "held messages are never judged again")
    age = lambda e, srcs: any(q.holds(e, s, {"d": d, "n": n}) for d in [A(t, "datetime") for t in reads(e, lambda t: got(t, "epsd"))] for n in reads(e, lambda t: fname(t) in ("nowUTC", "now", "utcnow")) for s in srcs)
    lim = "datetime.timedelta(seconds=self.TimeoutPSE)"
    young = [f"n - d <= {lim}", f"n - d < {lim}", f"n <= d + {lim}", "(n - d).total_seconds() <= self.TimeoutPSE"]
    olds = [f"n - d > {lim}", f"n - d >= {lim}", f"n > d + {lim}", "(n - d).total_seconds() > self.TimeoutPSE"]
    for e in subs:
        ctx.need(again(e.term, e), R, f"{q.qual}:retried whole", q.where(e.node), "a held message is retried without everything that came with it")
        ctx.need(age(e, young), R, f"{q.qual}:time limit", q.where(e.node), "a held message is retried beyond its time limit")
        tg = arg(e.term, None, "tsgs")
        ctx.need(tg is not None and (tg in fts or groups_of(q, tg, sit)), R, f"{q.qual}:signatures", q.where(e.node), "a held message is retried without the signatures held for it")
    grouping(ctx, R, q, sit)
    ends = [b for b in q.w.events if b.kind == "bodyend" and b.term is seq]
    rems = {"epse": lambda t: dbop(t, "epse", "rem") and isd(arg(t, 0, "keys")), "epsd": lambda t: dbop(t, "epsd", "rem") and isd(arg(t, 0, "keys"))}
    sv = lambda x: reads(x, lambda t: got(t, "exns"))
    for b in ends:
        ms = caught(b)
        hc = hist_calls(b)
        w = q.where(b.node)
        out = all(any(r(t) for t in hc) for r in rems.values())
        if not ms:
            ctx.need(any(again(t, b) for t in hc), R, f"{q.qual}:judged again", w, "a held message is taken as done without being judged again")
            ctx.need(out, R, f"{q.qual}:leaves when done", w, "a message that is no longer waiting stays held")
        for m_ in ms:
            if could_be(ctx, m_, W, b):
                ctx.need(not any(r(t) for t in hc for r in rems.values()), R, f"{q.qual}:kept while waiting", w, "a message still lacking signatures is removed")
                if not only_is(ctx, m_, W, b):
                    ctx.bad(R, f"{q.qual}:waits only for signatures", w, "a message refused for good stays held")
            else:
                ctx.need(out, R, f"{q.qual}:leaves when refused", w, "a message refused for good stays held")
    ctx.need(any("Exception" in m_.a[1] or "BaseException" in m_.a[1] for b in ends for m_ in caught(b)), R, f"{q.qual}:one failing entry stops no other", q.where(), "an error with one held message ends the pass over the others")
    for e in q.w.events:
        if e.kind == "break" and e.term is seq:
            ctx.bad(R, f"{q.qual}:all retried", q.where(e.node), "a pass can end before the last held message")
        if e.kind == "raise" and not caught(e):
            gone = any(q.holds(e, "x is None || not x", {"x": t}) for t in reads(e, lambda t: got(t, "epsd")))
            ctx.need(gone or age(e, olds), R, f"{q.qual}:refused with a reason", q.where(e.node), "a held message is refused for good though it is not too old")
    for e in q.calls("rem", "trim", "remAll"):
        t = e.term
        st = chain(recv(t))[-1]
        k = arg(t, 0, "keys", "top")
        mine = isd(k) or tup(k) and norm(tup(k)[0]) is norm(dig) and tup(k)[1:] in ([C("")], [C(b"")])
        ctx.need(bool(mine), R, f"{q.qual}:only its own", q.where(e.node), "another message than the one retried is removed")
        ctx.need(bool(caught(e)) or any(again(h, e) for h in hist_calls(e)), R, f"{q.qual}:after its retry", q.where(e.node), "a held message is removed before it was judged again")
        if st in ("epath", "enst", "essrs", "ecigs", "exns") or st == "esigs" and not isd(k):
            ctx.need(any(q.holds(e, "x is None || not x", {"x": z}) for z in sv(e)), R, f"{q.qual}:saved ones stay", q.where(e.node), "what came with a message is removed though the message was saved")


def groups_of(q, tg, sit):
    got = appended(q, tg)
    return bool(got) and bool(sit) and all(any(grouped(v, z, y) for z in subterms(v) if z.k == "phi" for y in subterms(v)) for v, e in got)


def klased(t, O):
    """the signer's prefix, number and digest of the key parts O"""
    if fname(t) != "klasify" or arg(t, 0, "sers") is not O:
        return False
    kl, ar = tup(arg(t, 1, "klases")) or [], tup(arg(t, 2, "args")) or []
    nm = [k.a[1] if k.k == "a" else show(k) for k in kl]
    return len(nm) == 3 and nm[0] == "Prefixer" and nm[1] in ("Seqner", "Number") and nm[2] in ("Saider", "Diger") and ar == [C("qb64"), C("snh"), C("qb64")]


def grouped(t, O, S):
    """the tuple of the key parts O and the signatures S"""
    vs = tup(t)
    if not vs:
        return False
    if len(vs) == 2 and vs[0].k in ("star", "starred"):
        return klased(vs[0].a[0], O) and vs[1] is S
    return len(vs) == 4 and all(x.k == "sub" and x.a[1] is C(n) and klased(x.a[0], O) for n, x in enumerate(vs[:3])) and vs[3] is S


def grouping(ctx, R, q, sit):
    """each stored signature joins the group of its signer and event: runs of equal keys of the ordered store"""
    for it in sit:
        I, at = q.w.elem_of(it.term), q.w.mksub
        sig, key = at(I, C(1)), at(I, C(0))
        ways = set()
        for b in q.w.events:
            if b.kind != "bodyend" or b.term is not it.term:
                continue
            w = q.where(b.node)
            eqs = [(f, p) for f, p in b.facts if f.k == "eq" and any(z.k == "phi" for z in f.a) and any(z.k == "sub" and z.a[0] is key for z in f.a)]
            if not ctx.need(len(eqs) == 1, R, f"{q.qual}:by signer", w, "signatures of different signers or events are put together"):
                continue
            f, p = eqs[0]
            O, K = f.a if f.a[0].k == "phi" else (f.a[1], f.a[0])
            part = show(K)[len(show(key)):]
            ctx.need(part in ("[1::]", "[1:]", "[1:4]", "[1:4:]"), R, f"{q.qual}:by signer", w, "signatures of different signers or events are put together")
            puts = [t for t in hist_calls(b) if fname(t) == "append" and arg(t, 0) is sig]
            if not ctx.need(len(puts) == 1, R, f"{q.qual}:each stored signature", w, "a stored signature is left out"):
                continue
            N = recv(puts[0])
            cur = [n for n, v in b.st.env.items() if v is N]
            adds = [t for t in hist_calls(b) if fname(t) == "append" and t is not puts[0]]
            old = O.a[1]
            if p:
                ways.add("same")
                ctx.need(N.k == "phi" and N.a[1] in cur and not adds and b.st.env.get(old) in (O, K), R, f"{q.qual}:same group", w, "signatures of one signer and event are not kept together")
                continue
            S = [v for f2, p2 in b.facts for v in [f2] if f2.k == "phi" and f2 is not O]
            full = [v for f2, p2 in b.facts for v in [f2] if p2 and f2.k == "phi" and f2 is not O]
            ctx.need(b.st.env.get(old) is K, R, f"{q.qual}:next group", w, "the next group's signer and event are not taken over")
            if N.k == "phi":
                ways.add("first")
                ctx.need(not adds and N.a[1] in cur and not q.holds(b, "s", {"s": N}), R, f"{q.qual}:next group", w, "signatures of different signers or events are put together")
            else:
                ways.add("next")
                ok = N.k == "new" and bool(cur) and len(adds) == 1 and any(grouped(arg(adds[0], 0), O, v) and v.a[1] in cur for v in full)
                ok = ok or N.k == "new" and bool(cur) and not adds and any(q.holds(b, "not s", {"s": v}) and v.a[1] in cur for v in S)
                ctx.need(ok, R, f"{q.qual}:next group", w, "the signatures of a signer and event are dropped when the next ones begin, or given to another")
        for b in q.w.events:
            if b.kind == "break" and b.term is it.term:
                k = show(key)
                fin = any(not p and "< snh + 1" in show(f) and k in show(f) or p and show(f).startswith("snh <") and k in show(f) for f, p in b.facts)
                ctx.need(fin and q.holds(b, "snh is not None"), R, f"{q.qual}:each stored signature", q.where(b.node), "a stored signature is left out")
        ctx.need("same" in ways and "next" in ways, R, f"{q.qual}:each stored signature", q.where(), "stored signatures are left out")
        ends = [(x, nd) for x, v, nd in q.exits()] + [(e, e.node) for e in q.calls("processEvent", "resolveVerifiers")]
        last = False
        for x, nd in ends:
            if not any(h.k == "looped" and h.a[0] is it.term for h in x.hist) or isinstance(nd, type(None)):
                continue
            adds = [t for t in hist_calls(x) if fname(t) == "append" and any(fname(z) == "klasify" for z in subterms(t))]
            phis = [f for f, p in x.facts if p and f.k == "phi" and f.a[0] in {z.a[0] for t in adds for z in subterms(t) if z.k == "phi"}]
            empty = any(not p and f.k == "phi" for f, p in x.facts) or any(all(not p and f.k == "phi" for f, p in c) for c in x.clauses)
            good = any(grouped(arg(t, 0), O, S) for t in adds for O in phis + [z for z in subterms(t) if z.k == "phi"] for S in phis)
            last = last or good
            ctx.need(good or empty and not adds, R, f"{q.qual}:last group", q.where(nd), "the last signer's signatures are left out")
        ctx.need(last, R, f"{q.qual}:last group", q.where(), "the last signer's signatures are left out")


def x01_read(ctx):
    R = "X01.read"
    ctx.rule(R, "a stored message is given out only when found under its digest and all its stored signatures verify, at least one of them", 6)
    q = Q(ctx, XR, "verify", XB | {"get"}, limit=3000)
    raw = q.term("serder.raw")
    sit, fts = regrouped(ctx, R, q, q.term("serder.said"), "a stored message is judged without its signatures")
    grouping(ctx, R, q, sit)
    at = q.w.mksub
    cg = [t for e in q.w.events for t in terms_of(e) if dbop(t, "ecigs", "get") and k_is(arg(t, 0, "keys"), q.term("serder.said"))]
    ctx.need(bool(cg), R, f"{q.qual}:single signatures", q.where(), "a stored message is judged without its signatures")
    judged = set()
    lists = [it.term for it in sit]
    for b in q.w.events:
        if b.kind != "bodyend" or b.term in lists:
            continue
        I = q.w.elem_of(b.term)
        if any(z in cg for z in subterms(b.term)):
            judged.add("single") if single(q, b, at(I, C(0)), at(I, C(1)), raw) else None
        got = appended(q, b.term) or []
        if got and all(any(z in cg for z in subterms(v)) for v, _ in got):
            e = {v for v, _ in got}
            e = next(iter(e)) if len(e) == 1 else None
            ps = [(e.a[0], e)] if e is not None and e.k == "sub" and e.a[1] is C(1) else [(tup(e)[0], tup(e)[1])] if tup(e) and len(tup(e)) == 2 else []
            ps = [(at(a, C(0)) if a.k == "elem" else a, c) for a, c in ps]
            if ctx.need(any(single(q, b, v, c, raw) for v, c in ps), R, f"{q.qual}:each single signature", q.where(b.node), "a stored signature counts without verifying, with its own key, over the message"):
                judged.add("single")
            continue
        if b.term in cg:
            continue
        if group_judged(q, b, I, raw):
            judged.add("group")
        elif any(fname(t) == "resolveVerifiers" for t in hist_calls(b)):
            ctx.bad(R, f"{q.qual}:each group", q.where(b.node), "a stored signature group counts without reaching the threshold of its cited event's keys over the message")
    sites = {z.a[0] for b in q.w.events if b.kind == "bodyend" and b.term in lists for f, p in b.facts if f.k == "eq" for z in f.a if z.k == "phi"}
    for st, nd in raises_named(q, {"MissingSignatureError", "ValidationError"}):
        bad = any(not p and fname(f) in ("satisfy", "verify") for f, p in st.facts)
        keys = [arg(f, 0) if f.k != "in" else f.a[0] for f, p in st.facts if f.k == "in" and chain(f.a[1])[-1:] == ["kevers"] and not p]
        late = any(f.k in ("lt", "le", "gt", "ge") and "kevers" in show(f) and p for f, p in st.facts if f.k == "lt" or f.k == "gt")
        late = late or any(c and all(f.k == "in" and not p or p and "kevers" in show(f) for f, p in c) for c in st.clauses)
        none = any(not p and f.k in ("phi", "new", "hv") and not (f.k == "phi" and f.a[0] in sites) for f, p in st.facts)
        after = any(fname(t) == "satisfy" or fname(t) == "verify" and arg(t, 1, "ser") is raw for t in hist_calls(st))
        ctx.need(bad or bool(keys) or late or none or not after, R, f"{q.qual}:refused with a reason", q.where(nd), "a stored message whose signatures verify is withheld")
    ctx.need(bool(q.exits()), R, f"{q.qual}:given out", q.where(), "a stored message whose signatures verify is withheld")
    for e in q.calls("resolveVerifiers"):
        p_, n_ = arg(e.term, 0, "pre"), arg(e.term, 1, "sn")
        ctx.need(any(q.holds(e, f"p in {b}", {"p": p_}) for b in ("hby.kevers", "hby.db.kevers")) and any(q.holds(e, f"not {b}[p].sn < n || {b}[p].sn >= n", {"p": p_, "n": n_}) for b in ("hby.kevers", "hby.db.kevers")),
                 R, f"{q.qual}:known signer", q.where(e.node), "a stored message is judged by an event of its signer that is not known")
    ctx.need("group" in judged, R, f"{q.qual}:each group", q.where(), "stored signature groups are not judged")
    ctx.need("single" in judged, R, f"{q.qual}:each single signature", q.where(), "a stored signature counts without verifying, with its own key, over the message")
    for st, v, nd in q.exits():
        hc = hist_calls(st)
        done = [h.a[0] for h in st.hist if h.k == "looped"]
        ctx.need(any(d in cg or any(z in cg for v, _ in appended(q, d) or [] for z in subterms(v)) for d in done) and any(d in fts or groups_of(q, d, sit) for d in done), R, f"{q.qual}:all judged", q.where(nd),
                 "a stored message is given out without every stored signature judged")
        flag = lambda f: f.k in ("phi", "new", "hv") or f in cg
        some = any(p and flag(f) for f, p in st.facts) or any(fname(t) == "satisfy" or fname(t) == "verify" and arg(t, 1, "ser") is raw for t in hc) or any(all(p and flag(f) for f, p in c) for c in st.clauses)
        ctx.need(some, R, f"{q.qual}:at least one", q.where(nd), "a stored message without any signature is given out")
        pair = tup(v) or []
        ctx.need(len(pair) == 2 and (pair[0] in fts or groups_of(q, pair[0], sit)), R, f"{q.qual}:result", q.where(nd), "other signatures than those judged are given out")
    for fn in ("cloneMessage", "serializeMessage"):
        q = Q(ctx, XR, fn, XB | {"get"}, limit=1500)
        M = [t for e in q.w.events for t in terms_of(e) if dbop(t, "exns", "get") and k_is(arg(t, 0, "keys"), P("said"))]
        ctx.need(bool(M), R, f"{q.qual}:found", q.where(), "a message is not looked up under its digest")
        if not M:
            continue
        M = M[0]
        for st, v, nd in q.exits():
            if q.holds(st, "m is None || not m", {"m": M}):
                continue
            ok = any(fname(t) == "verify" and any(a is M for a in list(t.a[1]) + [x for k, x in t.a[2]]) for t in hist_calls(st))
            ctx.need(ok and not any("MissingSignature" in str(m.a[1]) or "Exception" in m.a[1] or "ValidationError" in m.a[1] for m in caught(st)), R, f"{q.qual}:verified", q.where(nd),
                     "a stored message is given out without its signatures verified")
            if fn == "cloneMessage":
                ctx.need(at_(q, v, 0) is M, R, f"{q.qual}:the message", q.where(nd), "another message is given out")
            else:
                x01_serialized(ctx, R, q, st, v, nd, M)
        for st, v, nd in q.exits():
            if tup(v) == [NONE, NONE] or v is NONE:
                ctx.need(q.holds(st, "m is None || not m", {"m": M}) and tup(v) is not None, R, f"{q.qual}:missing", q.where(nd), "a stored message is not given out")
        src = stored(q, M, "epath")
        ctx.need(bool(src), R, f"{q.qual}:embedded", q.where(), "a message is given out without its embedded material")
        if fn == "cloneMessage":
            for b in q.w.events:
                if b.kind == "bodyend" and b.term in src:
                    I = q.w.elem_of(b.term)
                    path = lambda t: fname(t) == "Pather" and I in set(subterms(t)) and arg(t, None, "strip") is TRUE
                    out = any(not p and fname(f) == "startswith" and path(recv(f)) for f, p in b.facts)
                    put = any(fname(t) == "nesting" and any(fname(z) == "strip" and path(recv(z)) for z in subterms(arg(t, 0, "paths"))) and fname(arg(t, 2, "val")) == "bytearray" and I in set(subterms(arg(t, 2, "val")))
                              for t in hist_calls(b))
                    ctx.need(out or put, R, f"{q.qual}:each embedded", q.where(b.node), "a message is given out without its embedded material")
                    ctx.need(not put or any(p and fname(f) == "startswith" and path(recv(f)) for f, p in b.facts), R, f"{q.qual}:embedded path", q.where(b.node), "material that is not embedded in the message's e block is given out as such")
    q = Q(ctx, XR, "Exchanger.complete", {"get"})
    M = [t for e in q.w.events for t in terms_of(e) if dbop(t, "exns", "get") and k_is(arg(t, 0, "keys"), P("said"))]
    ctx.need(bool(M), R, f"{q.qual}:found", q.where(), "a message is not looked up under its digest")
    for st, v, nd in q.exits():
        if M and v is TRUE:
            ctx.need(q.holds(st, "m || m is not None", {"m": M[0]}), R, f"{q.qual}:result", q.where(nd), "a message is reported as saved though it is not")
        if M and v is FALSE or v is NONE:
            ctx.need(q.holds(st, "not m || m is None", {"m": M[0]}), R, f"{q.qual}:result", q.where(nd), "a saved message is reported as not saved")
    for e in q.w.events:
        if e.kind == "raise":
            ctx.need(any(q.holds(e, "m.said != s", {"m": m, "s": P("said")}) for m in M), R, f"{q.qual}:result", q.where(e.node), "asking whether a message is saved fails")
    ctx.need({v for st, v, nd in q.exits()} >= {TRUE, FALSE} or any(M and any(z is M[0] for z in subterms(v)) for st, v, nd in q.exits()), R, f"{q.qual}:answers", q.where(), "a message is always reported the same")
    q = Q(ctx, "src/keri/db/dbing.py", "fetchTsgs", {"getTopItemIter", "klasify"}, limit=3000)
    its = [e for e in q.w.events if e.kind == "iter" and fname(e.term) == "getTopItemIter" and tup(arg(e.term, 0, "keys")) and norm(tup(arg(e.term, 0, "keys"))[0]) is norm(q.term("diger.qb64"))]
    ctx.need(bool(its), R, f"{q.qual}:all signatures", q.where(), "stored signatures are left out")
    grouping(ctx, R, q, its[:1])
    for st, v, nd in q.exits():
        ctx.need(groups_of(q, v, its), R, f"{q.qual}:result", q.where(nd), "other groups than those stored are given")


def stored(q, M, s):
    return {t for e in q.w.events for t in terms_of(e) if dbop(t, s, "get") and (k_is(arg(t, 0, "keys"), A(M, "said")) or k_is(arg(t, 0, "keys"), P("said")))}


def x01_serialized(ctx, R, q, st, v, nd, M):
    """a stored message goes out with its body, every signature, its nested messages and its embedded material"""
    w = q.where(nd)
    V = [t for t in hist_calls(st) if fname(t) == "verify"]
    part = lambda t, i: t is not None and any(any(z is at_(q, x, i) for x in V) and not (t.k == "and") for z in ([t] + list(t.a[0] if t.k == "or" else t.a) if t.k in ("or", "ite", "phi") else [t])) or t is NONE and any(q.holds(st, "not x", {"x": at_(q, x, i)}) for x in V)
    nest = stored(q, M, "enst")
    ms = [t for t in hist_calls(st) + [v] if t is not None and fname(t) == "messagize"]
    sigs = lambda t: arg(t, 0, "serder") is M and part(arg(t, None, "tsgs"), 0) and part(arg(t, None, "cigars"), 1)
    if fname(v) == "messagize":
        n = arg(v, None, "nests")
        nin = n is not None and any(z in nest for z in subterms(n)) and n.k != "and" or n is NONE and (any(not p and any(z in nest for z in subterms(f)) for f, p in st.facts))
        ctx.need(sigs(v), R, f"{q.qual}:signatures", w, "a stored message is sent without its signatures")
        ctx.need(bool(nin), R, f"{q.qual}:nested", w, "a stored message is sent without its nested messages")
        ctx.need(any(q.holds(st, "not p", {"p": z}) for z in stored(q, M, "epath")), R, f"{q.qual}:embedded", w, "a stored message is sent without its embedded material")
        ctx.need(arg(v, None, "framed") is P("framed"), R, f"{q.qual}:framed", w, "a stored message is sent framed otherwise than asked for")
        return
    nosig = bool(V) and all(q.holds(st, "not x", {"x": at_(q, V[0], i)}) for i in (0, 1))
    ctx.need(nosig or any(sigs(t) for t in ms), R, f"{q.qual}:signatures", w, "a stored message is sent without its signatures")
    ctx.need(fname(v) == "bytearray" and arg(v, 0) is A(M, "raw"), R, f"{q.qual}:body", w, "a stored message is sent without its body")
    ext = [arg(t, 0) for t in hist_calls(st) if fname(t) == "extend" and recv(t) is v]
    bufs = [t for t in ext if fname(t) != "Counter" and t is not None and t.k in ("new", "call", "a")]
    none = any(not p and f.k == "new" for f, p in st.facts)
    ctx.need(bool([t for t in bufs if t.k == "new"]) or none, R, f"{q.qual}:attachments", w, "a stored message is sent without its attachments")
    for b in [t for t in bufs if t.k == "new"]:
        into = [arg(t, 0) for t in hist_calls(st) if fname(t) == "extend" and recv(t) is b]
        ctx.need(nosig or any(t is not None and t.k == "sub" and t.a[0] in ms and sigs(t.a[0]) and show(t.a[1]).startswith(show(A(M, "size"))) or t is not None and any(z in ms for z in subterms(t)) and "size:" in show(t) for t in into), R,
                 f"{q.qual}:signatures", w, "a stored message is sent without its signatures")
    if any(q.holds(st, "not framed") for _ in (1,)) and not none:
        c = [z for t in ext if t is not None for z in subterms(t) if fname(z) == "Counter"]
        ctx.need(any("AttachmentGroup" in show(arg(z, 0, "code") or P("?")) and show(arg(z, None, "count") or P("?")).endswith("// 4)") for z in c), R, f"{q.qual}:attachment group", w, "the attachments of a stored message are sent without their group count")
    for b in q.w.events:
        if b.kind == "bodyend" and b.term in stored(q, M, "epath"):
            I = q.w.elem_of(b.term)
            into = [arg(t, 0) for t in hist_calls(b) if fname(t) == "extend"]
            cs = [z for t in into for z in subterms(t) if fname(z) == "Counter" and "PathedMaterialCouples" in show(arg(z, 0, "code") or P("?"))]
            cnt = any(arg(z, None, "count") is not None and I in set(subterms(arg(z, None, "count"))) and show(arg(z, None, "count")).endswith("// 4)") for z in cs)
            ctx.need(cnt and any(I in set(subterms(t)) and fname(t) in ("encode", "bytes", "bytearray") or t is I for t in into), R, f"{q.qual}:each embedded", q.where(b.node), "a stored message is sent without its embedded material")


def single(q, x, v, c, raw):
    """the signature verifies with the key stored beside it"""
    own = A(c, "verfer")
    for f, p in x.facts:
        if p and fname(f) == "verify" and arg(f, 0, "sig") is A(c, "raw") and arg(f, 1, "ser") is raw:
            k = recv(f)
            if k is v or norm(k) is norm(v):
                return True
            if k is own or k.k in ("phi", "hv") and chain(k)[-1:] == ["verfer"] or "verfer" in show(k) and show(c) in show(k):
                st = [e for e in q.w.events if e.kind in ("store", "setattr") and e.term.k == "a" and e.term.a[0] is c and e.term.a[1] == "verfer"]
                if st and all(e.value is v for e in st):
                    return True
    return False


def at_(q, v, i):
    return q.w.mksub(v, C(i)) if v is not None else None


def x01_resolve(ctx, R):
    q = Q(ctx, "src/keri/db/basing.py", "Baser.resolveVerifiers", KB | {"get", "getLast", "compare"})
    n = 0
    for st, v, nd in q.exits():
        th, vf = at_(q, v, 0), at_(q, v, 1)
        w = q.where(nd)
        tr = [t for t in terms_of(st) if t.k == "a" and t.a[1] == "transferable" and fname(t.a[0]) == "Prefixer" and arg(t.a[0], None, "qb64", "qb64b") is P("pre")]
        if any(holds(st, t, False) for t in tr):
            vs = tup(vf) or [x for x, e in (appended(q, vf) or [])]
            ctx.need(len(vs) == 1 and fname(vs[0]) == "Verfer" and arg(vs[0], None, "qb64", "qb64b") is P("pre") and fname(th) == "Tholder" and arg(th, None, "sith", "thold") in (C("1"), C(1)), R,
                     f"{q.qual}:nontransferable", w, "a nontransferable identifier's signatures are not judged with its own key")
            continue
        n += 1
        E = th.a[0] if th is not None and th.k == "a" and th.a[1] == "tholder" else None
        good = E is not None and vf is A(E, "verfers") and dbop(E, "evts", "get")
        if good:
            ks = keyparts(arg(E, 0, "keys"))
            dg = [t for k in ks for t in subterms(k) if dbop(t, "kels", "getLast")]
            good = ks and (norm(ks[0]) is P("pre") or prim(ks[0].a[0] if ks[0].k == "a" else ks[0]) is P("pre")) and dg and arg(dg[0], None, "on") is P("sn") and \
                (norm(arg(dg[0], 0, "keys")) is P("pre") or any(z is P("pre") for z in subterms(arg(dg[0], 0, "keys"))))
            good = good and q.holds(st, "d is not None || d", {"d": dg[0]})
            good = good and (q.holds(st, "dig is None || not dig") or any(p and fname(f) == "compare" and recv(f) is E and arg(f, 0, "said") is P("dig") for f, p in st.facts) or
                             any(p and f.k == "eq" and P("dig") in {norm(z) for z in f.a} and (norm(A(E, "said")) in {norm(z) for z in f.a} or norm(dg[0]) in {norm(z) for z in f.a}) for f, p in st.facts))
        ctx.need(bool(good), R, f"{q.qual}:cited event", w, "the keys and threshold given are not those of the accepted event at the number and digest cited")
    ctx.need(n > 0, R, f"{q.qual}:transferable", q.where(), "a transferable identifier's signatures are never judged")
