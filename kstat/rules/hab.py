"""Habitats: own events extend the own log, are signed by the own keys, and the key store keeps step."""
import ast

from . import prop
from .corelib import *
from .kel import KB
from .rct import norm
from .esc import hist_calls, comps, caught
from .ks import text, fold, imgs, ran, of, size, stored, key, ks_op, found, returns, core, fields, eqn, arg
from ..engine import subst

HP = "src/keri/app/habbing.py"
EV = "src/keri/core/eventing.py"
OP = KB | {"nowIso8601", "incept", "delcept", "rotate", "deltate", "interact", "messagize", "sign", "processEvent", "replay", "ingest", "move", "save", "reconfigure", "satisfy",
           "receipt", "query", "exchange", "reply", "parseOne", "fetchLatestContribTo", "fetchPriorDigers", "extractMerfersMigers", "habByName"}
me = P("self")
kev = A(me, "kever")


def on(t):
    """the object a method is called on, by name"""
    r = recv(t) if t is not None else None
    c = chain(r) if r is not None else None
    return c[-1] if c else None


def plain(q, L):
    """a list that may be missing: the list"""
    if L is None:
        return None
    L = fold(L)
    if L.k == "or":
        xs = L.a[0] if isinstance(L.a[0], tuple) else L.a
        xs = [x for x in xs if isinstance(x, T)]
        if len(xs) == 2 and (xs[1].k == "new" or tup(xs[1]) == []):
            return xs[0]
    return L


def made_of(q, L, K, attr):
    """the list of that attribute of every element of K, in order; empty when there is no K"""
    L = fold(L) if L is not None else None
    if L is None:
        return False
    got = imgs(q, L)
    if L.k == "new" and not got and len(L.a) > 2 and not L.a[2]:
        return None
    if tup(L) == []:
        return None
    return bool(got) and all(plain(q, r) is K and text(v) is text(A(E, attr)) for r, E, v in got)


def unguarded(q, x, L, K):
    """K itself is gone through though there may be none"""
    c = q.w.comp_elems.get(L) if L is not None else None
    return bool(c) and any(it is K for it, cl in c[1]) and not q.holds(x, "k is not None", {"k": K}) and not q.holds(x, "k", {"k": K})


def bare(t):
    """a threshold expression: read and written again it is the same"""
    t = fold(t) if t is not None else None
    while t is not None and t.k == "a" and t.a[1] == "sith" and fname(t.a[0]) == "Tholder":
        t = fold(arg(t.a[0], None, "sith"))
    return t


def half(q, st, t, L, least):
    """hex of the majority default: at least so many, else half rounded up of the size of L"""
    ok = False
    if t is C("0") or t is not None and not any(fname(y) == "len" for y in subterms(t)) and all(y.k != "c" or y.a[0] in (0, 0.0) or isinstance(y.a[0], str) and set(y.a[0]) <= set("{:}0x%") for y in subterms(t)):
        return least == 0 and q.holds(st, "not L", {"L": L})
    ns = [y for y in subterms(t) if fname(y) == "len"] if t is not None else []
    if any(not y.a[1] or plain(q, y.a[1][0]) is not L for y in ns):
        return False
    cs = [y.a[1] for y in subterms(t) if fname(y) == "max"]
    if not cs or any(C(least) not in c for c in cs):
        return False
    for y in subterms(t):
        if fname(y) == "ceil" and y.a[1] and y.a[1][0].k == "bin" and y.a[1][0].a[0] == "/" and y.a[1][0].a[2] is C(2):
            ok = True
        if y.k == "bin" and y.a[0] == "//" and y.a[2] is C(2) and y.a[1].k == "bin" and y.a[1].a[0] == "+" and C(1) in y.a[1].a[1:]:
            ok = True
    return ok and "x" in str(show(t))


def threshold(q, st, t, name, alternatives, L, least):
    """the threshold given; else the first alternative there is; else the default for L"""
    t = bare(t)
    if t is None:
        return False
    if t is P(name):
        return q.holds(st, f"{name} is not None")
    if not q.holds(st, f"{name} is None"):
        return False
    for a in alternatives:
        if t is a:
            return q.holds(st, "a is not None", {"a": a})
        if not q.holds(st, "a is None", {"a": a}):
            return False
    return half(q, st, t, L, least)


def covers(q, e, names):
    """the call is made inside a try whose handlers take every exception of these names; the handlers"""
    at = {e.line} | set(getattr(e, "sites", None) or ())
    fs = {q.f.node}
    if e.func is not None:
        fs.add(e.func.node)
    for f in fs:
        for t in ast.walk(f):
            if isinstance(t, ast.Try) and any(t.body[0].lineno <= n <= t.body[-1].end_lineno for n in at):
                for h in t.handlers:
                    ts = [None] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    if any(x is None or ast.unparse(x).split(".")[-1] in names for x in ts):
                        return True
    return False


def swallowed(q, st, also=()):
    """only a lack of signatures is passed over on the way here"""
    return all(set(n.split(".")[-1] for n in c.a[1]) <= {"MissingSignatureError"} | set(also) for c in caught(st))


def framing(q, R, v, nd):
    """the message is framed as asked for"""
    if fname(v) == "messagize":
        for a in ("framed", "nested", "gvrsn", "genusify"):
            q.ctx.need(arg(v, None, a) is P(a), R, f"{q.qual}:{a}", q.where(nd), f"a message goes out {a} otherwise than asked for: what it is put into cannot be read")


def processed(q, R, st, nd, S, G, also=()):
    """the event made and signed is the one that goes through the own validation"""
    ctx, w = q.ctx, q.where(nd)
    framing(q, R, [v for k, s, v, n in q.w.exits if s is st][0], nd)
    ps = [t for t in hist_calls(st) if fname(t) == "processEvent" and on(t) == "kvy"]
    fell = any("MissingSignatureError" in "".join(c.a[1]) for c in caught(st))
    ctx.need(fell or any(arg(t, None, "serder") is S and (arg(t, None, "sigers") is G) for t in ps), R, f"{q.qual}:own", w, "an own event goes out that did not go through the own validation with the signatures it goes out with: the own key state lags behind or differs")
    ctx.need(all(arg(t, None, "serder") is S for t in ps), R, f"{q.qual}:other", w, "another event than the one that goes out is processed")
    ctx.need(swallowed(q, st, also), R, f"{q.qual}:invalid", w, "an own event that is invalid goes out")


def process_calls(q, R, S=None):
    ctx = q.ctx
    es = [e for e in q.calls("processEvent") if on(e.term) == "kvy"]
    ctx.need(bool(es), R, f"{q.qual}:processes", q.where(), "an own event is not processed")
    for e in es:
        w = q.where(e.node)
        ctx.need(covers(q, e, ("MissingSignatureError",)), R, f"{q.qual}:short of signatures", w, "an own event that waits for the signatures of others is given up")
        if S is not None:
            ctx.need(arg(e.term, None, "serder") is S, R, f"{q.qual}:processed", w, "another event than the one given is processed")
    return es


@prop("A02")
def events(ctx):
    R1 = "A02.event"
    ctx.rule(R1, "an own event stands at the next place of the own log, on its last event, with the keys, digests, thresholds and witnesses asked for", 20)
    R2 = "A02.signed"
    ctx.rule(R2, "an own event is signed over its own bytes by the keys it belongs to", 6)
    R3 = "A02.processed"
    ctx.rule(R3, "an own event goes out only after the same event, with the same signatures, went through the own validation; only a lack of signatures is passed over", 8)
    # rotation
    q = Q(ctx, HP, "BaseHab.rotate", OP, limit=8000)
    outs = returns(q)
    ctx.need(bool(outs), R3, f"{q.qual}:rotates", q.where(), "no rotation succeeds")
    V, D = P("verfers"), P("digers")
    nsat = kev and A(kev, "ntholder")
    prior = A(nsat, "sith")
    es = [e for e in q.calls("processEvent")]
    process_calls(q, R3)
    for e in es:
        t = e.term
        w = q.where(e.node)
        S, G = arg(t, None, "serder"), arg(t, None, "sigers")
        dlg = fname(S) == "deltate"
        ctx.need(fname(S) in ("rotate", "deltate") and on(S) != "mgr", R1, f"{q.qual}:event", w, "a rotation is no rotation event")
        ctx.need(dlg and (q.holds(e, "self.kever.delpre is not None") or q.holds(e, "self.kever.delpre")) or not dlg and (q.holds(e, "self.kever.delpre is None") or q.holds(e, "not self.kever.delpre")), R1, f"{q.qual}:delegated", w,
                 "the rotation of a delegated identifier is not a delegated rotation, or that of another is")
        ctx.need(text(arg(S, None, "pre")) in (text(q.term("self.kever.prefixer.qb64")), text(q.term("self.pre"))), R1, f"{q.qual}:identifier", w, "a rotation is of another identifier")
        ctx.need(eqn(q, arg(S, None, "sn"), q.term("self.kever.sner.num"), 1), R1, f"{q.qual}:place", w, "a rotation is not at the next place of the log")
        ctx.need(arg(S, None, "dig") is q.term("self.kever.serder.said"), R1, f"{q.qual}:prior", w, "a rotation does not stand on the last event of the log")
        ctx.need(made_of(q, arg(S, None, "keys"), V, "qb64"), R1, f"{q.qual}:keys", w, "a rotation establishes other keys than those given")
        m = made_of(q, arg(S, None, "ndigs"), D, "qb64")
        ctx.need(not unguarded(q, e, arg(S, None, "ndigs"), D), R1, f"{q.qual}:no digests", w, "a rotation without next keys fails")
        ctx.need(m or m is None and q.holds(e, "not digers"), R1, f"{q.qual}:next digests", w, "a rotation commits to other next keys than those given")
        ctx.need(threshold(q, e, arg(S, None, "isith"), "isith", [prior], V, 1), R1, f"{q.qual}:threshold", w, "a rotation has another signing threshold than the one given, or committed to, or a majority")
        ctx.need(threshold(q, e, arg(S, None, "nsith"), "nsith", [P("isith"), prior], D, 0), R1, f"{q.qual}:next threshold", w, "a rotation commits to another next threshold than the one given, or its own, or a majority")
        td = arg(S, None, "toad")
        keep = q.holds(e, "toad is None and not cuts and not adds")
        ctx.need(td is q.term("self.kever.toader.num") if keep else td is P("toad") and q.holds(e, "not (toad is None and not cuts and not adds)"), R1, f"{q.qual}:witness threshold", w,
                 "a rotation changes the witness threshold unasked, or not as asked")
        for a in ("cuts", "adds", "data", "kind", "version"):
            ctx.need(arg(S, None, a) is P(a), R1, f"{q.qual}:{a}", w, f"a rotation is not made with the {a} given")
        ctx.need(arg(S, None, "wits") is q.term("self.kever.wits"), R1, f"{q.qual}:wits", w, "a rotation changes other witnesses than the present ones")
        ctx.need(fname(G) == "sign" and recv(G) is me and arg(G, 0, "ser") is q.term("s.raw", {"s": S}) and arg(G, 1, "verfers") is V and arg(G, None, "rotated") is TRUE, R2, f"{q.qual}:signatures", w,
                 "a rotation is not signed over its own bytes by the keys it establishes, with their places among the digests committed to")
        sat = [f for f, p in e.facts if p and fname(f) == "satisfy" and recv(f) is nsat]
        good = bool(sat)
        for f in sat:
            got = appended(q, arg(f, 0, "indices"))
            good = good and got is not None and bool(got)
            for v, x in got or ():
                good = good and v.k == "idx" and v.a[0] is A(kev, "ndigers") and exposes(q, x, q.w.elem_of(A(kev, "ndigers")), V)
        ctx.need(good, R1, f"{q.qual}:prior next", w, "a rotation goes ahead whose keys do not meet the threshold committed to: the key store moves on though the log cannot")
    for b in q.w.events:
        if b.kind == "bodyend" and core(b.term) is A(kev, "ndigers"):
            E = q.w.elem_of(A(kev, "ndigers"))
            w = q.where(b.node)
            has = any(fname(h) == "append" and h.a[1] and h.a[1][0].k == "idx" for h in hist_calls(b))
            ctx.need(has or not exposes(q, b, E, V), R1, f"{q.qual}:counted", w, "a committed key that the rotation exposes is not counted")
        if b.kind == "break":
            ctx.bad(R1, f"{q.qual}:all counted", q.where(b.node), "not every committed key is looked for")
    for st, v, nd in outs:
        ctx.need(fname(v) == "messagize", R3, f"{q.qual}:message", q.where(nd), "a rotation does not hand back its message")
        S, G = arg(v, 0, "serder"), arg(v, None, "sigers")
        ctx.need(S is not None and fname(S) in ("rotate", "deltate") and fname(G) == "sign", R3, f"{q.qual}:message", q.where(nd), "a rotation hands back another message than the event and its signatures")
        processed(q, R3, st, nd, S, G)
    for k, st, v, nd in q.w.exits:
        if k == "raise":
            bad = any(not p and fname(f) == "satisfy" for f, p in st.facts)
            ctx.need(bad or any("MissingSignatureError" not in "".join(c.a[1]) for c in caught(st)), R3, f"{q.qual}:refused", q.where(nd), "a rotation is refused that could be made")
    # interaction
    q = Q(ctx, HP, "BaseHab.interact", OP, limit=4000)
    process_calls(q, R3)
    outs = returns(q)
    ctx.need(bool(outs), R3, f"{q.qual}:interacts", q.where(), "no interaction succeeds")
    for st, v, nd in outs:
        w = q.where(nd)
        ctx.need(fname(v) == "messagize", R3, f"{q.qual}:message", w, "an interaction does not hand back its message")
        S, G = arg(v, 0, "serder"), arg(v, None, "sigers")
        ctx.need(fname(S) == "interact" and text(arg(S, None, "pre")) in (text(q.term("self.kever.prefixer.qb64")), text(q.term("self.pre"))), R1, f"{q.qual}:identifier", w, "an interaction is of another identifier")
        ctx.need(eqn(q, arg(S, None, "sn"), q.term("self.kever.sner.num"), 1), R1, f"{q.qual}:place", w, "an interaction is not at the next place of the log")
        ctx.need(arg(S, None, "dig") is q.term("self.kever.serder.said"), R1, f"{q.qual}:prior", w, "an interaction does not stand on the last event of the log")
        for a in ("data", "kind", "version"):
            ctx.need(arg(S, None, a) is P(a), R1, f"{q.qual}:{a}", w, f"an interaction is not made with the {a} given")
        ctx.need(fname(G) == "sign" and recv(G) is me and arg(G, 0, "ser") is q.term("s.raw", {"s": S}) and arg(G, 1, "verfers") in (None, NONE, q.term("self.kever.verfers")), R2, f"{q.qual}:signatures", w, "an interaction is not signed over its own bytes by the present keys")
        processed(q, R3, st, nd, S, G)
    # signing by own keys
    q = Q(ctx, HP, "BaseHab.sign", OP, limit=2000)
    for st, v, nd in returns(q):
        w = q.where(nd)
        good = fname(v) == "sign" and on(v) == "mgr" and arg(v, 0, "ser") is P("ser") and all(arg(v, None, a) is P(a) for a in ("indexed", "indices", "ondices"))
        ctx.need(good, R2, f"{q.qual}:as asked", w, "something else is signed, or otherwise, than asked for")
        ks = arg(v, None, "verfers")
        ctx.need(ks is P("verfers") and q.holds(st, "verfers is not None") or ks is q.term("self.kever.verfers") and q.holds(st, "verfers is None"), R2, f"{q.qual}:keys", w, "other keys sign than those asked for, or the present ones")
    # inception event
    q = Q(ctx, HP, "BaseHab.incept", OP, limit=8000)
    outs = returns(q)
    ctx.need(bool(outs), R1, f"{q.qual}:incepts", q.where(), "no inception event is made")
    for st, S, nd in outs:
        w = q.where(nd)
        dlg = fname(S) == "delcept"
        ctx.need(dlg and (q.holds(st, "delpre") or q.holds(st, "delpre is not None")) and arg(S, None, "delpre") is P("delpre") or fname(S) == "incept" and (q.holds(st, "not delpre") or q.holds(st, "delpre is None")), R1, f"{q.qual}:delegated", w,
                 "the inception of an identifier with a delegator is not a delegated inception by it, or that of another is")
        ctx.need(made_of(q, arg(S, None, "keys"), V, "qb64"), R1, f"{q.qual}:keys", w, "an inception establishes other keys than those given")
        m = made_of(q, arg(S, None, "ndigs"), D, "qb64")
        ctx.need(not unguarded(q, st, arg(S, None, "ndigs"), D), R1, f"{q.qual}:no digests", w, "an inception without next keys fails")
        ctx.need(m or m is None and q.holds(st, "not digers"), R1, f"{q.qual}:next digests", w, "an inception commits to other next keys than those given")
        ctx.need(threshold(q, st, arg(S, None, "isith"), "isith", [], V, 1), R1, f"{q.qual}:threshold", w, "an inception has another signing threshold than the one given, or a majority")
        nt = bare(arg(S, None, "nsith"))
        ctx.need(threshold(q, st, nt, "nsith", [], D, 0), R1, f"{q.qual}:next threshold", w, "an inception commits to another next threshold than the one given, or a majority")
        for a in ("toad", "wits", "data", "code", "kind", "version"):
            ctx.need(arg(S, None, a) is P(a), R1, f"{q.qual}:{a}", w, f"an inception is not made with the {a} given")
        cf = arg(S, None, "cnfg")
        got = None
        if cf is not None:
            ap = [h.a[1][0] for h in hist_calls(st) if fname(h) == "append" and recv(h) is cf]
            base = list(tup(cf) or ()) if cf.k != "new" else [x for x in (cf.a[2] if len(cf.a) > 2 and cf.a[2] else ()) if isinstance(x, T)]
            got = set(base + ap)
        want = {}
        for a, n in (("estOnly", "EstOnly"), ("DnD", "DoNotDelegate")):
            want[q.term(f"TraitDex.{n}")] = True if q.holds(st, a) else False if q.holds(st, f"not {a}") else None
        ctx.need(got is not None and all(x in want for x in got) and all(h is not None and (x in got) == h for x, h in want.items()), R1, f"{q.qual}:traits", w, "an inception does not declare the traits asked for, or others")


def exposes(q, x, E, V):
    """the key committed to by digest E is among the keys V"""
    for f, p in x.facts:
        if not p or f.k != "in":
            continue
        a, L = f.a[0], f.a[1]
        if text(a) is not text(A(E, "qb64")):
            continue
        got = imgs(q, L)
        if got and all(r is V and text_digest(v, e, E) for r, e, v in got):
            return True
    return False


def text_digest(v, e, E):
    """digest of key e by the code of E, in text"""
    if v is None or v.k != "a" or v.a[1] not in ("qb64", "qb64b") or fname(v.a[0]) != "Diger":
        return False
    d = v.a[0]
    return text(arg(d, None, "ser")) is text(A(e, "qb64")) and arg(d, None, "code") is A(E, "code")


@prop("A02")
def step(ctx):
    R2 = "A02.signed"
    ctx.rule(R2, "an own event is signed over its own bytes by the keys it belongs to", 6)
    R3 = "A02.processed"
    ctx.rule(R3, "an own event goes out only after the same event, with the same signatures, went through the own validation; only a lack of signatures is passed over", 8)
    R4 = "A02.step"
    ctx.rule(R4, "the key store moves on only with the log: keys come from it, a failed rotation sets it back, and old keys are erased only after a valid one", 15)
    R5 = "A02.registered"
    ctx.rule(R5, "a habitat is recorded under its own identifier and name before its inception is processed, and no other's record or name is taken", 10)
    # inception
    q = Q(ctx, HP, "Hab.incept", OP, limit=8000)
    es = process_calls(q, R3)
    for e in es:
        w = q.where(e.node)
        S, G = arg(e.term, None, "serder"), arg(e.term, None, "sigers")
        ctx.need(fname(S) == "incept" and on(S) != "mgr", R3, f"{q.qual}:event", w, "an identifier's first event is no inception")
        V, D = arg(S, None, "verfers"), arg(S, None, "digers")
        pair = {x.a[0] for x in (V, D) if x is not None and x.k == "idx"} if False else None
        src = [b for b in (base_of(q, V, 0),) if b is not None and base_of(q, D, 1) is b]
        b = src[0] if src else None
        ing = b is not None and fname(b) == "replay"
        ctx.need(b is not None and on(b) == "mgr" and fname(b) in ("incept", "replay"), R4, f"{q.qual}:keys", w, "an inception establishes other keys than the key store made for it")
        tr = q.holds(e, "transferable")
        nt = q.holds(e, "not transferable")
        ctx.need(tr or nt, R4, f"{q.qual}:transferable", w, "whether an identifier may rotate is not asked")
        if b is not None and not ing:
            for a in ("icount", "icode", "transferable", "dcode", "algo", "salt", "tier"):
                ctx.need(arg(b, None, a) is P(a), R4, f"{q.qual}:{a}", w, f"the keys of an inception are not made with the {a} given")
            ctx.need(arg(b, None, "temp") is A(me, "temp") and stem(q, e, arg(b, None, "stem")), R4, f"{q.qual}:stretched", w, "the keys of an inception are stretched otherwise than those of the habitat, or not for its name: they cannot be created again")
            nc = arg(b, None, "ncount")
            ok = nc is C(0) if nt else nc is P("ncount") and q.holds(e, "ncount is not None") or nc is P("icount") and q.holds(e, "ncount is None")
            ctx.need(ok, R4, f"{q.qual}:next count", w, "an inception commits to another number of next keys than asked for, or to some though it can never rotate")
            ctx.need(q.holds(e, "not secrecies"), R4, f"{q.qual}:secrecies", w, "the keys given for an inception are not used")
        elif ing:
            g = [t for t in hist_calls(e) if fname(t) == "ingest" and on(t) == "mgr"]
            good = any(arg(t, 0, "secrecies") is P("secrecies") and arg(t, None, "iridx") is P("iridx") and arg(t, None, "transferable") is P("transferable") and text(arg(b, None, "pre")) is text(q.w.mksub(t, C(0))) for t in g)
            nc = [arg(t, None, "ncount") for t in g]
            ctx.need(all(z is C(0) if nt else z is P("ncount") and q.holds(e, "ncount is not None") or z is P("icount") and q.holds(e, "ncount is None") for z in nc), R4, f"{q.qual}:next count", w, "an inception commits to another number of next keys than asked for, or to some though it can never rotate")
            ctx.need(all(arg(t, None, "temp") is A(me, "temp") and stem(q, e, arg(t, None, "stem")) for t in g) and q.holds(e, "secrecies"), R4, f"{q.qual}:stretched", w, "the keys of an inception are stretched otherwise than those of the habitat, or not for its name: they cannot be created again")
            ctx.need(good and arg(b, None, "advance") is FALSE, R4, f"{q.qual}:given keys", w, "an inception of given keys establishes others")
        if nt:
            ctx.need(bare(arg(S, None, "nsith")) is C("0") and arg(S, None, "code") is q.term("MtrDex.Ed25519N"), R4, f"{q.qual}:never rotates", w, "an identifier that can never rotate commits to next keys, or has a prefix as if it could")
        else:
            ns = arg(S, None, "nsith")
            ctx.need((ns is P("nsith") and q.holds(e, "nsith is not None") or ns is P("isith") and q.holds(e, "nsith is None")) and arg(S, None, "code") is P("code"), R4, f"{q.qual}:next threshold", w, "an inception commits to another next threshold than asked for, or has another prefix")
        for a in ("isith", "toad", "wits", "estOnly", "DnD", "delpre", "data", "kind", "version"):
            ctx.need(arg(S, None, a) is P(a), R4, f"{q.qual}:{a}", w, f"an inception is not made with the {a} given")
        pre = own(q, e, S)
        ctx.need(pre is not None, R5, f"{q.qual}:prefix", w, "a habitat takes another identifier than that of its inception")
        mv = [t for t in hist_calls(e) if fname(t) == "move" and on(t) == "mgr"]
        ctx.need(any(text(arg(t, 0, "old")) is text(q.term("v[0].qb64", {"v": V})) and ispre(q, arg(t, 1, "new"), S) for t in mv), R4, f"{q.qual}:moved", w, "the keys of an inception are not found by the identifier it makes: it can never rotate")
        ctx.need(fname(G) == "sign" and recv(G) is me and arg(G, 0, "ser") is q.term("s.raw", {"s": S}) and arg(G, 1, "verfers") is V, R2, f"{q.qual}:signatures", w, "an inception is not signed over its own bytes by its own keys")
        ctx.need(not q.holds(e, "hidden") or not any(fname(t) == "save" for t in hist_calls(e)) and not listed(q, e, S), R5, f"{q.qual}:hidden", w, "a hidden habitat is recorded")
        ctx.need(q.holds(e, "hidden") or recorded(q, e, S) and listed(q, e, S), R5, f"{q.qual}:before", w, "an own inception is processed before it is known as own")
        ctx.need(q.holds(e, "self.ks.opened and self.db.opened and self.cf.opened"), R5, f"{q.qual}:open", w, "a habitat is made of resources that are not open")
    for k, st, v, nd in q.w.exits:
        if k == "raise":
            ctx.need(q.holds(st, "not (self.ks.opened and self.db.opened and self.cf.opened)") or any("MissingSignatureError" not in "".join(c.a[1]) for c in caught(st)), R5, f"{q.qual}:refused", q.where(nd), "an inception is refused that could be made")
            continue
        ctx.need(stored(st, me, "inited")[-1:] == [TRUE], R5, f"{q.qual}:inited", q.where(nd), "a habitat made is not marked so")
        ctx.need(swallowed(q, st), R3, f"{q.qual}:invalid", q.where(nd), "a habitat comes of an inception that is invalid")
    # rotation of keys
    q = Q(ctx, HP, "Hab.rotate", OP, limit=8000)
    outs = returns(q)
    ctx.need(bool(outs), R4, f"{q.qual}:rotates", q.where(), "no rotation succeeds")

    def before(x):
        return [t for t in hist_calls(x) if ks_op(t, "sits", "get") and key(t) is text(q.term("self.pre"))]
    for e in q.w.events:
        if e.kind != "call":
            continue
        t, w = e.term, q.where(e.node)
        if on(t) == "mgr" and fname(t) in ("replay", "rotate"):
            ctx.need(bool(before(e)), R4, f"{q.qual}:known", w, "the key store moves on before what it was is known")
            ctx.need(arg(t, None, "pre") is q.term("self.pre"), R4, f"{q.qual}:own keys", w, "the keys of another identifier move on")
            ctx.need(arg(t, None, "erase") is FALSE, R4, f"{q.qual}:erased early", w, "private keys are erased before the rotation is known to be valid")
            if fname(t) == "replay":
                ctx.need(arg(t, None, "advance") in (None, TRUE), R4, f"{q.qual}:advance", w, "the next keys are used and stay next")
                ctx.need(covers(q, e, ("IndexError",)), R4, f"{q.qual}:no more", w, "a rotation fails when there is no further key set to replay")
            else:
                ctx.need(arg(t, None, "temp") is A(me, "temp"), R4, f"{q.qual}:stretched", w, "the keys of a rotation are stretched otherwise than those before")
                nc = arg(t, None, "ncount")
                ok = nc is P("ncount") and q.holds(e, "ncount is not None") or nc is q.term("len(self.kever.ndigers)") and q.holds(e, "ncount is None")
                ctx.need(ok, R4, f"{q.qual}:next count", w, "a rotation commits to another number of next keys than asked for")
                ctx.need(any("IndexError" in "".join(c.a[1]) for c in caught(e)), R4, f"{q.qual}:replay first", w, "new next keys are made though there are some to replay")
            ctx.need(not any(on(z) == "mgr" and fname(z) in ("replay", "rotate") for z in hist_calls(e)), R4, f"{q.qual}:twice", w, "the key store moves on twice for one rotation")
        if ks_op(t, "sits", "get"):
            ctx.need(not any(on(z) == "mgr" and fname(z) in ("replay", "rotate") for z in hist_calls(e)), R4, f"{q.qual}:known before", w, "what the key store was is read after it moved on")
        if fname(t) == "rotate" and on(t) != "mgr":
            b = base_of(q, arg(t, None, "verfers"), 0)
            ctx.need(b is not None and base_of(q, arg(t, None, "digers"), 1) is b and on(b) == "mgr" and fname(b) in ("replay", "rotate"), R4, f"{q.qual}:keys", w, "a rotation establishes other keys than the key store moved on to")
            for a in ("isith", "nsith", "toad", "cuts", "adds", "data"):
                ctx.need(arg(t, None, a) is P(a), R4, f"{q.qual}:{a}", w, f"a rotation is not made with the {a} given")
            ctx.need(P("kwa") in [x for k, x in t.a[2]], R4, f"{q.qual}:rest", w, "a rotation is not made with the rest given")
            ctx.need(covers(q, e, ("Exception", "BaseException")), R4, f"{q.qual}:set back", w, "a rotation that fails leaves the key store ahead of the log")
        if ks_op(t, "pris", "rem"):
            ok = any(fname(z) == "rotate" and on(z) != "mgr" for z in hist_calls(e)) and not any("Exception" in c.a[1] for c in caught(e))
            ctx.need(ok, R4, f"{q.qual}:erased after", w, "private keys are erased though the rotation is not known to be valid")
            ctx.need(any(key(t) is text(q.w.elem_of(q.term("b.old.pubs", {"b": b}))) for b in before(e)), R4, f"{q.qual}:old only", w, "other private keys are erased than those two key sets old")
        if ks_op(t, "sits", "pin", "put"):
            ctx.need(any("Exception" in c.a[1] or "BaseException" in c.a[1] for c in caught(e)) and any(arg(t, None, "val") is b for b in before(e)) and key(t) is text(q.term("self.pre")), R4, f"{q.qual}:set back", w, "the record of the key store is changed otherwise than back to what it was")
    for k, st, v, nd in q.w.exits:
        w = q.where(nd)
        bs = before(st)
        if k == "raise":
            if not any(c.a[1] and set(c.a[1]) & {"Exception", "BaseException"} for c in caught(st)):
                ctx.bad(R4, f"{q.qual}:refused", w, "a rotation is refused that could be made")
                continue
            ctx.need(any(ks_op(t, "sits", "pin") and any(arg(t, 1, "val") is b for b in bs) and key(t) is text(q.term("self.pre")) for t in hist_calls(st)), R4, f"{q.qual}:set back", w, "a rotation that fails leaves the key store ahead of the log")
            if not any(on(t) == "mgr" and fname(t) == "rotate" for t in hist_calls(st)):
                ctx.need(not any(ks_op(t, "pubs", "rem") for t in hist_calls(st)), R4, f"{q.qual}:taken away", w, "a rotation that fails takes away a key set it did not make")
            else:
                ok = any(ks_op(t, "pubs", "rem") and any(fname(arg(t, 0, "keys")) == "riKey" and text(arg(arg(t, 0, "keys"), 0, "pre")) is text(q.term("self.pre")) and eqn(q, arg(arg(t, 0, "keys"), 1, "ri"), q.term("b.nxt.ridx", {"b": b}), 1) for b in bs) for t in hist_calls(st))
                ctx.need(ok, R4, f"{q.qual}:left behind", w, "a rotation that fails leaves its next key set behind: every further try replays that one, whatever number of next keys it asks for")
            continue
        ctx.need(fname(v) == "rotate" and on(v) != "mgr", R4, f"{q.qual}:message", w, "a rotation does not hand back its message")
        ctx.need(not any(set(c.a[1]) & {"Exception", "BaseException"} for c in caught(st)), R4, f"{q.qual}:failure", w, "a rotation that fails is taken as made")
        for b in bs:
            L = q.term("b.old.pubs", {"b": b})
            done = any(h.k == "looped" and core(h.a[0]) is L for h in st.hist) and all(any(ks_op(z, "pris", "rem") for z in hist_calls(x)) for x in q.w.events if x.kind == "bodyend" and core(x.term) is L)
            ctx.need(done or q.holds(st, "not L", {"L": L}), R4, f"{q.qual}:erases", w, "private keys two key sets old are kept")
    # groups
    q = Q(ctx, HP, "GroupHab.incept", OP, limit=8000)
    for e in process_calls(q, R3):
        w = q.where(e.node)
        S, G = arg(e.term, None, "serder"), arg(e.term, None, "sigers")
        ctx.need(fname(S) == "incept" and arg(S, None, "verfers") is P("merfers") and arg(S, None, "digers") is P("migers"), R4, f"{q.qual}:keys", w, "a group inception establishes other keys than its members'")
        for a in ("isith", "toad", "wits", "estOnly", "DnD", "delpre", "data", "kind", "version"):
            ctx.need(arg(S, None, a) is P(a), R4, f"{q.qual}:{a}", w, f"an inception is not made with the {a} given")
        ctx.need(q.holds(e, "self.ks.opened and self.db.opened and self.cf.opened"), R5, f"{q.qual}:open", w, "a habitat is made of resources that are not open")
        ctx.need(q.holds(e, "transferable") or q.holds(e, "not transferable"), R4, f"{q.qual}:transferable", w, "whether an identifier may rotate is not asked")
        ns, cd = arg(S, None, "nsith"), arg(S, None, "code")
        ok = bare(ns) is C("0") and cd is q.term("MtrDex.Ed25519N") if q.holds(e, "not transferable") else cd is P("code") and (ns is P("nsith") and q.holds(e, "nsith is not None") or ns is P("isith") and q.holds(e, "nsith is None"))
        ctx.need(ok, R4, f"{q.qual}:next threshold", w, "a group inception commits to another next threshold than asked for, or has another prefix")
        ctx.need(fname(G) == "sign" and recv(G) is me and arg(G, 0, "ser") is q.term("s.raw", {"s": S}) and arg(G, 1, "verfers") is P("merfers") and arg(G, None, "rotated") in (None, FALSE), R2, f"{q.qual}:signatures", w, "a group inception is not signed over its own bytes for its own keys")
        ctx.need(own(q, e, S) is not None and recorded(q, e, S, group=True) and listed(q, e, S), R5, f"{q.qual}:before", w, "an own group's inception is processed before it is known as own, with its members")
    for k, st, v, nd in q.w.exits:
        if k != "raise":
            ctx.need(swallowed(q, st), R3, f"{q.qual}:invalid", q.where(nd), "a group habitat comes of an inception that is invalid")
            ctx.need(stored(st, me, "inited")[-1:] == [TRUE], R5, f"{q.qual}:inited", q.where(nd), "a habitat made is not marked so")
    for qual, keep in (("GroupHab.rotate", True), ("SignifyGroupHab.rotate", False)):
        q = Q(ctx, HP, qual, OP, limit=4000)
        if keep:
            process_calls(q, R3, P("serder"))
        for k, st, v, nd in q.w.exits:
            if k == "raise":
                rec = [t for t in hist_calls(st) if fname(t) == "get" and on(t) == "habs"]
                ctx.need(any(q.holds(st, "r is None", {"r": r}) for r in rec) or keep and any("MissingSignatureError" not in "".join(c.a[1]) for c in caught(st)), R5, f"{q.qual}:refused", q.where(nd), "a group rotation is refused that could be made")
                continue
            w = q.where(nd)
            if keep and q.holds(st, "serder is None"):
                ctx.need(fname(v) == "rotate" and not stored(st, me, "smids") and P("kwa") in [x for kk, x in v.a[2]] and all(arg(v, None, a) is P(a) for a in ("framed", "nested", "gvrsn", "genusify")), R4, f"{q.qual}:local", w, "a group rotation of its own making is made otherwise")
                continue
            ctx.need(not keep or q.holds(st, "serder is not None"), R4, f"{q.qual}:given", w, "whether a rotation is given is not asked")
            rec = [t for t in hist_calls(st) if fname(t) == "get" and on(t) == "habs"]
            ctx.need(any(q.holds(st, "r is not None", {"r": r}) and key(r) is text(q.term("self.pre")) for r in rec), R5, f"{q.qual}:record", w, "a group without a record rotates")
            for a in ("smids", "rmids"):
                ctx.need(P(a) in stored(st, me, a) and any(P(a) in stored(st, r, a) for r in rec), R5, f"{q.qual}:{a}", w, f"a group that rotated keeps its former {a}")
            ctx.need(any(fname(t) == "pin" and on(t) == "habs" and arg(t, 1, "val") in rec and key(t) is text(q.term("self.pre")) for t in hist_calls(st)), R5, f"{q.qual}:kept", w, "the members of a group that rotated are forgotten when it is loaded again")
            if keep:
                S, G = arg(v, 0, "serder"), arg(v, None, "sigers")
                ctx.need(fname(v) == "messagize" and S is P("serder") and fname(G) == "sign" and recv(G) is me and arg(G, 0, "ser") is q.term("serder.raw") and arg(G, 1, "verfers") is q.term("serder.verfers") and arg(G, None, "rotated") is TRUE, R2, f"{q.qual}:signatures", w,
                         "a group rotation is not signed over its own bytes for its new keys and the digests committed to")
                processed(q, R3, st, nd, S, G)
            else:
                ctx.need(any(fname(t) == "rotate" and arg(t, None, "serder") is P("serder") and arg(t, None, "sigers") is P("sigers") and P("kwa") in [x for kk, x in t.a[2]] for t in hist_calls(st)), R3, f"{q.qual}:rotates", w, "a group rotation is not made")
        for e in q.stores("smids") if hasattr(q, "stores") else ():
            if e.term is A(me, "smids"):
                ctx.need(any(fname(t) in ("processEvent", "rotate") for t in hist_calls(e)) or any("MissingSignatureError" in "".join(c.a[1]) for c in caught(e)), R5, f"{q.qual}:after", q.where(e.node), "a group's members change though its rotation may be invalid")
    # member of a group signs
    q = Q(ctx, HP, "GroupHab.sign", OP, limit=4000)
    outs = returns(q)
    ctx.need(bool(outs), R2, f"{q.qual}:signs", q.where(), "no member of a group can sign")
    mh = A(me, "mhab")
    for st, v, nd in outs:
        w = q.where(nd)
        ctx.need(fname(v) == "sign" and recv(v) is mh and arg(v, 0, "ser") is P("ser") and arg(v, None, "indexed") is P("indexed"), R2, f"{q.qual}:member", w, "a group is signed for by another than its local member, or something else is signed")
        got = [f for f in hist_calls(st) if fname(f) == "fetchLatestContribTo" and recv(f) is q.term("self.mhab.kever")]
        r = got[0] if got else None
        vs = arg(r, 0, "verfers") if r is not None else None
        ctx.need(vs is P("verfers") and q.holds(st, "verfers is not None") or vs is q.term("self.kever.verfers") and q.holds(st, "verfers is None"), R2, f"{q.qual}:keys", w, "the place of the member's key is looked for among other keys than the group's")
        ctx.need(r is not None and q.holds(st, "r is not None", {"r": r}), R2, f"{q.qual}:contributes", w, "who contributes no key to a group signs for it")
        if r is None:
            continue
        sn, csi, mer = (q.w.mksub(r, C(i)) for i in range(3))
        ctx.need(single(arg(v, 1, "verfers")) is mer and single(arg(v, None, "indices")) is csi, R2, f"{q.qual}:place", w, "a member signs for a group with another key than it contributed, or at another's place")
        o = single(arg(v, None, "ondices"))
        ds = [t for t in hist_calls(st) if fname(t) == "fetchPriorDigers" and recv(t) is q.term("self.mhab.kever")]
        fell = any("ValueError" in c.a[1] for c in caught(st))
        for c in comps(o) if o is not None else [None]:
            if c is NONE:
                ok = q.holds(st, "not rotated") or fell or any(q.holds(st, "not d", {"d": d}) for d in ds)
                ctx.need(ok, R2, f"{q.qual}:not prior", w, "a member's signature is not counted towards the threshold its group committed to")
                continue
            ok = q.holds(st, "rotated") and fname(c) == "index"
            d = [d for d in ds if ok and text(c.a[1][0]) is text(q.term("d[0].qb64", {"d": d})) and eqn(q, arg(d, None, "sn"), sn, -1) and q.holds(st, "d", {"d": d})]
            ctx.need(ok and bool(d) and made_of(q, recv(c), q.term("self.kever.ndigers"), "qb64") is True, R2, f"{q.qual}:prior place", w, "a member signs at another place among the digests its group committed to than that of its own next key")
    for k, st, v, nd in q.w.exits:
        if k == "raise":
            ctx.need(any(q.holds(st, "r is None", {"r": r}) for r in hist_calls(st) if fname(r) == "fetchLatestContribTo"), R2, f"{q.qual}:refused", q.where(nd), "a member that contributes a key to its group may not sign for it")
    for e in q.w.events:
        if e.kind == "call" and fname(e.term) == "index":
            ctx.need(covers(q, e, ("ValueError", "Exception")), R2, f"{q.qual}:new member", q.where(e.node), "a member whose key is new to a group cannot sign its rotation")
    # remote signers
    q = Q(ctx, HP, "SignifyHab.processEvent", OP, limit=1000)
    for e in [x for x in q.calls("processEvent") if on(x.term) == "kvy"]:
        ctx.need(arg(e.term, None, "serder") is P("serder") and arg(e.term, None, "sigers") is P("sigers"), R3, f"{q.qual}:given", q.where(e.node), "another event than the one given is processed")
    for k, st, v, nd in q.w.exits:
        ctx.need(k == "raise" or not caught(st) and any(fname(t) == "processEvent" for t in hist_calls(st)), R3, f"{q.qual}:invalid", q.where(nd), "an own event that is invalid is passed over")
    q = Q(ctx, HP, "SignifyGroupHab.processEvent", OP, limit=1000)
    process_calls(q, R3, P("serder"))
    for k, st, v, nd in q.w.exits:
        if k != "raise":
            ctx.need(swallowed(q, st), R3, f"{q.qual}:invalid", q.where(nd), "a group event that is invalid is passed over")
            ctx.need(bool(caught(st)) or any(fname(t) == "processEvent" and arg(t, None, "sigers") is P("sigers") for t in hist_calls(st)), R3, f"{q.qual}:given", q.where(nd), "an event is not processed with the signatures given")
    for qual in ("SignifyHab.rotate", "SignifyHab.interact", "SignifyHab.incept"):
        q = Q(ctx, HP, qual, OP, limit=2000)
        n = 0
        for k, st, v, nd in q.w.exits:
            if k == "raise":
                ctx.need(q.holds(st, "not serder"), R3, f"{q.qual}:refused", q.where(nd), "an own event is refused")
                continue
            n += 1
            ctx.need(any(fname(t) == "processEvent" and recv(t) is me and arg(t, 0, "serder") is P("serder") and arg(t, 1, "sigers") is P("sigers") for t in hist_calls(st)), R3, f"{q.qual}:processed", q.where(nd), "an own event goes out that is not processed")
            framing(q, R3, v, nd)
            ctx.need(fname(v) == "messagize" and arg(v, 0, "serder") is P("serder") and all(arg(v, None, a) is P(a) for a in ("sigers", "tsgs", "lsgs", "wigers", "cigars", "rsgs", "bonds") if a in q.f.params), R3, f"{q.qual}:message", q.where(nd), "another event goes out than the one processed")
            if qual.endswith("incept"):
                ctx.need(own(q, st, P("serder")) is not None and recorded(q, st, P("serder"), sid=True) and listed(q, st, P("serder")), R5, f"{q.qual}:recorded", q.where(nd), "a habitat is not recorded under its identifier and name")
        ctx.need(n > 0, R3, f"{q.qual}:made", q.where(), "no own event is made")
    q = Q(ctx, HP, "SignifyGroupHab.incept", OP, limit=2000)
    for k, st, v, nd in q.w.exits:
        if k == "raise":
            continue
        ctx.need(own(q, st, P("serder")) is not None and recorded(q, st, P("serder"), sid=True, group=True) and listed(q, st, P("serder")), R5, f"{q.qual}:recorded", q.where(nd), "a group habitat is not recorded under its identifier and name, with its members")
        ctx.need(any(fname(t) == "processEvent" and recv(t) is me and arg(t, 0, "serder") is P("serder") and arg(t, 1, "sigers") is P("sigers") for t in hist_calls(st)), R3, f"{q.qual}:processed", q.where(nd), "a group's inception is not processed")


def stem(q, x, t):
    """the keys are those of this habitat's name"""
    return any(z is A(me, "name") for z in subterms(t)) and (q.holds(x, "self.ns is None") or any(z is A(me, "ns") for z in subterms(t))) if t is not None else False


def base_of(q, t, i):
    """t is item i of that pair"""
    if t is None:
        return None
    if t.k in ("sub", "item") and len(t.a) >= 2 and t.a[1] is C(i):
        return t.a[0]
    for b in subterms(t):
        if b is not t and q.w.mksub(b, C(i)) is t:
            return b
    return None


def single(t):
    x = tup(t) if t is not None else None
    if x is not None and len(x) == 1:
        return x[0]
    if t is not None and t.k == "new" and len(t.a) > 2 and t.a[2] and len(t.a[2]) == 1:
        return t.a[2][0]
    return None


def ispre(q, t, S):
    """the identifier of the inception"""
    return t is not None and text(t) in (text(q.term('s.ked["i"]', {"s": S})), text(q.term("s.pre", {"s": S})), text(q.term('s.sad["i"]', {"s": S})))


def own(q, x, S):
    """the habitat took the identifier of its inception"""
    vs = stored(x, me, "pre")
    return vs[-1] if vs and all(ispre(q, v, S) for v in vs) else None


def named(q, x, S, t):
    return ispre(q, t, S) or t is A(me, "pre") and own(q, x, S) is not None


def recorded(q, x, S, group=False, sid=False):
    """a record of the habitat, with what it is, was saved"""
    for t in hist_calls(x):
        if fname(t) != "save" or recv(t) is not me:
            continue
        r = arg(t, 0, "habord")
        if fname(r) != "HabitatRecord" or not named(q, x, S, arg(r, None, "hid")) or arg(r, None, "name") is not A(me, "name") or arg(r, None, "domain") is not A(me, "ns"):
            continue
        if group != (arg(r, None, "mid") is q.term("self.mhab.pre")) or group and not (arg(r, None, "smids") is A(me, "smids") and arg(r, None, "rmids") is A(me, "rmids")):
            continue
        if sid != (arg(r, None, "sid") is not None and named(q, x, S, arg(r, None, "sid"))):
            continue
        if not group and any(arg(r, None, a) is not None for a in ("mid", "smids", "rmids")):
            continue
        return True
    return False


def listed(q, x, S):
    return any(fname(t) == "add" and on(t) == "prefixes" and named(q, x, S, t.a[1][0]) for t in hist_calls(x) if t.a[1])


@prop("A02")
def attested(ctx):
    R2 = "A02.signed"
    ctx.rule(R2, "an own event is signed over its own bytes by the keys it belongs to", 6)
    R5 = "A02.registered"
    ctx.rule(R5, "a habitat is recorded under its own identifier and name before its inception is processed, and no other's record or name is taken", 10)
    R6 = "A02.attested"
    ctx.rule(R6, "an endorsement or receipt is signed over the bytes attested by the present keys, and names the establishment event of those keys", 8)
    for qual, what in (("BaseHab.endorse", "serder"), ("BaseHab.receipt", None)):
        q = Q(ctx, HP, qual, OP, limit=4000)
        outs = returns(q)
        ctx.need(bool(outs), R6, f"{q.qual}:attests", q.where(), "nothing is attested")
        tr = "self.kever.prefixer.transferable"
        for st, v, nd in outs:
            w = q.where(nd)
            ctx.need(fname(v) == "messagize", R6, f"{q.qual}:message", w, "an attestation does not hand back its message")
            framing(q, R6, v, nd)
            S = arg(v, 0, "serder")
            if what:
                ctx.need(arg(v, None, "nests") is P("nests"), R6, f"{q.qual}:nests", w, "what an endorsed message carries along is left out")
                ctx.need(S is P("serder"), R6, f"{q.qual}:of", w, "another message goes out than the one endorsed")
            else:
                ked = q.term("serder.ked")
                good = fname(S) == "receipt" and text(arg(S, None, "pre")) in (text(q.term('serder.ked["i"]')), text(q.term("serder.pre"))) and text(arg(S, None, "said")) in (text(q.term("serder.said")),) \
                    and arg(S, None, "sn") in (q.term('int(serder.ked["s"], 16)'), q.term("serder.sn"))
                ctx.need(good, R6, f"{q.qual}:of", w, "a receipt names another event than the one signed")
                ctx.need(any(fname(t) == "parseOne" and any(z is v for z in subterms(t)) for t in hist_calls(st)), R6, f"{q.qual}:kept", w, "an own receipt is not kept")
            lsgs, tsgs, cigs = arg(v, None, "lsgs"), arg(v, None, "tsgs"), arg(v, None, "cigars")
            given = [x for x in (lsgs, tsgs, cigs, arg(v, None, "sigers"), arg(v, None, "wigers")) if x is not None and x is not NONE]
            ctx.need(len(given) == 1, R6, f"{q.qual}:once", w, "an attestation carries no signature group, or several")

            def signed(G, indexed):
                ix = arg(G, None, "indexed")
                return fname(G) == "sign" and recv(G) is me and arg(G, 0, "ser") is q.term("serder.raw") and arg(G, 1, "verfers") in (None, NONE, q.term("self.kever.verfers")) and (ix in (None, TRUE) if indexed else ix is FALSE)
            if q.holds(st, f"not {tr}"):
                ctx.need(cigs is not None and signed(cigs, False), R6, f"{q.qual}:signature", w, "an attestation of an identifier that cannot rotate is not its signature over the bytes attested")
                continue
            ctx.need(q.holds(st, tr), R6, f"{q.qual}:kind", w, "whether the attester may rotate is not asked")
            me_pre = (text(q.term("self.kever.prefixer.qb64")), text(q.term("self.pre")), text(q.term("self.kever.prefixer")))

            def prefix(x):
                return x is q.term("self.kever.prefixer") or fname(x) == "Prefixer" and text(arg(x, None, "qb64")) in me_pre
            g = tup(single(lsgs or tsgs)) if single(lsgs or tsgs) is not None else None
            if lsgs is not None:
                ctx.need(what is not None and q.holds(st, "last") and g is not None and len(g) == 2 and prefix(g[0]) and signed(g[1], True), R6, f"{q.qual}:group", w, "an endorsement is not by the own present keys over the bytes endorsed")
                continue
            ok = g is not None and len(g) == 4 and prefix(g[0]) and signed(g[3], True) and (what is None or q.holds(st, "not last"))
            ok = ok and fname(g[1]) == "Number" and (arg(g[1], None, "sn") or arg(g[1], None, "num")) is q.term("self.kever.lastEst.s") and fname(g[2]) == "Diger" and text(arg(g[2], None, "qb64")) is text(q.term("self.kever.lastEst.d"))
            ctx.need(ok, R6, f"{q.qual}:group", w, "an attestation is not by the own present keys over the bytes attested, or names another establishment event than theirs: it cannot be verified")
    q = Q(ctx, HP, "BaseHab.witness", OP, limit=4000)
    outs = returns(q)
    ctx.need(bool(outs), R6, f"{q.qual}:attests", q.where(), "nothing is witnessed")
    for st, v, nd in outs:
        w = q.where(nd)
        S, G = arg(v, 0, "serder"), arg(v, None, "wigers")
        framing(q, R6, v, nd)
        good = fname(v) == "messagize" and fname(S) == "receipt" and text(arg(S, None, "pre")) in (text(q.term('serder.ked["i"]')), text(q.term("serder.pre"))) and text(arg(S, None, "said")) is text(q.term("serder.said")) and arg(S, None, "sn") in (q.term('int(serder.ked["s"], 16)'), q.term("serder.sn"))
        ctx.need(good, R6, f"{q.qual}:of", w, "a witness receipt names another event than the one signed")
        ctx.need(fname(G) == "sign" and arg(G, 0, "ser") is q.term("serder.raw") and single(arg(G, None, "pubs") or arg(G, None, "verfers")) is q.term("self.pre"), R6, f"{q.qual}:signature", w, "a witness receipt is not signed by the witness's own key over the bytes of the event")
        i = single(arg(G, None, "indices"))
        ctx.need(fname(i) == "index" and recv(i) is q.term("self.kevers[serder.pre].wits") and i.a[1] == (q.term("self.pre"),), R6, f"{q.qual}:place", w, "a witness signs at another place than its own in the witness list")
        ctx.need(q.holds(st, "not self.kever.prefixer.transferable") and q.holds(st, "serder.pre in self.kevers"), R6, f"{q.qual}:may", w, "an identifier that may rotate signs as witness, or one witnesses for an unknown identifier")
        ctx.need(any(fname(t) == "parseOne" and any(z is v for z in subterms(t)) for t in hist_calls(st)), R6, f"{q.qual}:kept", w, "an own witness receipt is not kept")
    refuses_only(q, R6, ["self.kever.prefixer.transferable", "serder.pre not in self.kevers", "self.pre not in self.kevers[serder.pre].wits"], "what may be witnessed is refused")
    # names
    q = Q(ctx, HP, "BaseHab.save", OP - {"save"}, limit=1000)
    n = 0
    nm = None
    for e in q.w.events:
        if e.kind != "call" or fname(e.term) not in ("pin", "put") or on(e.term) not in ("habs", "names"):
            continue
        w = q.where(e.node)
        ctx.need(any(p and f.k == "is" and NONE in f.a and any(fname(z) == "get" and on(z) == "names" and name_key(q, e, arg(z, 0, "keys")) for z in f.a) for f, p in e.facts), R5, f"{q.qual}:taken", w, "a habitat is recorded though its name is another's")
        if on(e.term) == "names":
            ctx.need(name_key(q, e, arg(e.term, 0, "keys")) and arg(e.term, 1, "val") is A(me, "pre"), R5, f"{q.qual}:name", w, "a habitat is not found by its name")
        else:
            ctx.need(text(arg(e.term, 0, "keys")) is text(A(me, "pre")) and arg(e.term, 1, "val") is P("habord"), R5, f"{q.qual}:record", w, "a habitat's record is not found by its identifier")
    for k, st, v, nd in q.w.exits:
        done = {on(t) for t in hist_calls(st) if fname(t) in ("pin", "put")}
        if k == "raise":
            ctx.need(any(not p and f.k == "is" and NONE in f.a and any(fname(z) == "get" and on(z) == "names" for z in f.a) for f, p in st.facts), R5, f"{q.qual}:refused", q.where(nd), "a habitat whose name is free is refused")
            ctx.need(not done, R5, f"{q.qual}:nothing", q.where(nd), "a habitat whose name is taken leaves a record behind")
        else:
            n += 1
            ctx.need(done >= {"habs", "names"}, R5, f"{q.qual}:both", q.where(nd), "a habitat is recorded without its name or its record")
    ctx.need(n > 0, R5, f"{q.qual}:saves", q.where(), "no habitat is recorded")
    q = Q(ctx, HP, "Habery.habByName", OP - {"habByName"}, limit=1000)
    for st, v, nd in returns(q):
        if v is NONE:
            ok = any(f.k == "is" and p and NONE in f.a for f, p in st.facts) or any(f.k == "in" and not p for f, p in st.facts)
            ctx.need(ok, R5, f"{q.qual}:found", q.where(nd), "a habitat is not found by its name")
            continue
        g = [z for z in subterms(v) if fname(z) == "get" and on(z) == "names"]
        ctx.need(len(g) == 1 and name_key(q, st, arg(g[0], 0, "keys"), P("ns"), P("name")) and v is q.term("self.habs[p]", {"p": g[0]}), R5, f"{q.qual}:named", q.where(nd), "another habitat than the one of that name is found")
    # removal
    q = Q(ctx, HP, "Habery.deleteHab", OP, limit=2000)
    for st, v, nd in returns(q):
        w = q.where(nd)
        h = [f for f in hist_calls(st) if fname(f) == "habByName"]
        h = h[0] if h else None
        ctx.need(h is not None and arg(h, 0, "name") is P("name") and arg(h, None, "ns") is P("ns"), R5, f"{q.qual}:which", w, "another habitat than the one named is removed")
        if h is None:
            continue
        pre = q.term("h.pre", {"h": h})
        rems = [f for f, p in st.facts if p and fname(f) == "rem"]
        both = any(on(f) == "habs" and text(arg(f, 0, "keys")) is text(pre) for f in rems) and any(on(f) == "names" and name_key(q, st, arg(f, 0, "keys"), P("ns"), P("name")) for f in rems)
        ctx.need(v is TRUE or q.holds(st, "not h", {"h": h}) or any(not p and fname(f) == "rem" for f, p in st.facts), R5, f"{q.qual}:removes", w, "a habitat there is is not removed")
        ctx.need(v in (TRUE, FALSE) and (v is TRUE) == both, R5, f"{q.qual}:gone", w, "a habitat said to be removed is still recorded, or the other way round")
        if v is TRUE:
            ctx.need(any(fname(t) == "remove" and on(t) == "prefixes" and t.a[1] == (pre,) for t in hist_calls(st)), R5, f"{q.qual}:no longer own", w, "a removed habitat's identifier is still taken as own")
            ctx.need(any(x.k == "del" and x.a[0] is q.term("self.habs[p]", {"p": pre}) for x in st.hist) or any(fname(t) == "pop" and on(t) == "habs" and t.a[1][:1] == (pre,) for t in hist_calls(st)), R5, f"{q.qual}:forgotten", w, "a removed habitat is still there")
    # groups are made of members with one key each
    q = Q(ctx, HP, "Habery.extractMerfersMigers", OP - {"extractMerfersMigers"}, limit=4000)
    outs = returns(q)
    ctx.need(bool(outs), R5, f"{q.qual}:extracts", q.where(), "no group can be made")
    for st, v, nd in outs:
        w = q.where(nd)
        pr = tup(v)
        ctx.need(pr is not None and len(pr) == 2, R5, f"{q.qual}:pair", w, "not the keys and next digests of the members")
        if pr is None or len(pr) != 2:
            continue
        ks = imgs(q, pr[0])
        ok = bool(ks) and all(r is P("smids") and x is q.term("self.kevers[m].verfers[0]", {"m": E}) for r, E, x in ks)
        ctx.need(ok, R5, f"{q.qual}:keys", w, "a group's keys are not those of its signing members, one each in order")
        ms = appended(q, pr[1])
        R = P("rmids")
        for x, e in ms or ():
            els = [z for z in subterms(x) if z.k == "elem"]
            E = els[0] if els else None
            src = E.a[0] if E is not None else None
            own_ = src is R and (q.holds(e, "rmids is not None")) or src is not None and (src is P("smids") or fname(src) in ("list", "tuple") and src.a[1] == (P("smids"),)) and q.holds(e, "rmids is None")
            ctx.need(E is not None and own_ and x is q.term("self.kevers[m].ndigers[0]", {"m": E}), R5, f"{q.qual}:next", w, "a group commits to other next keys than those of its rotating members, in order")
        ctx.need(bool(ms), R5, f"{q.qual}:next", w, "a group commits to other next keys than those of its rotating members, in order")
    for b in q.w.events:
        if b.kind == "break":
            ctx.bad(R5, f"{q.qual}:every member", q.where(b.node), "not every member of a group is in it")
        if b.kind != "bodyend":
            continue
        E = q.w.elem_of(core(b.term))
        K = {"m": E}
        if any(fname(h) == "append" and h.a[1] and h.a[1][0] is q.term("self.kevers[m].verfers[0]", K) for h in hist_calls(b)):
            ctx.need(q.holds(b, "not (len(self.kevers[m].verfers) > 1)", K), R5, f"{q.qual}:one key", q.where(b.node), "a member with several keys is in a group with one of them")
        else:
            ctx.need(q.holds(b, "not (len(self.kevers[m].ndigers) > 1)", K), R5, f"{q.qual}:one next", q.where(b.node), "a member with several next keys is in a group with one of them")
            has = any(fname(h) == "append" and h.a[1] and h.a[1][0] is q.term("self.kevers[m].ndigers[0]", K) for h in hist_calls(b))
            ctx.need(has or q.holds(b, "not self.kevers[m].ndigers", K), R5, f"{q.qual}:every next", q.where(b.node), "a rotating member's next key is left out of its group")
    for qual, cls, sid in (("Habery.makeGroupHab", "GroupHab", False), ("Habery.joinGroupHab", "GroupHab", False), ("Habery.makeSignifyGroupHab", "SignifyGroupHab", True), ("Habery.joinSignifyGroupHab", "SignifyGroupHab", True)):
        q = Q(ctx, HP, qual, OP | {"GroupHab", "SignifyGroupHab"}, limit=4000)
        ctx.need(bool(returns(q)), R5, f"{q.qual}:makes", q.where(), "no group habitat is made")
        for st, v, nd in returns(q):
            w = q.where(nd)
            nm = P("group") if "group" in q.f.params else P("name")
            ok = fname(v) == cls and all(arg(v, None, a) is P(a) for a in ("mhab", "smids", "rmids")) and arg(v, None, "name") is nm and arg(v, None, "ns") in (P("ns"),) and injected(v)
            ctx.need(ok, R5, f"{q.qual}:group", w, "a group habitat has other members, member or name than given")
            ctx.need(any(h.k == "setitem" and h.a[0] is q.term("self.habs[x.pre]", {"x": v}) and h.a[1] is v or h.k == "setitem" and h.a[1] is v for h in st.hist), R5, f"{q.qual}:listed", w, "a group habitat is not found afterwards")
            if qual.startswith("Habery.join"):
                r = [arg(t, 0, "habord") for t in hist_calls(st) if fname(t) == "save" and recv(t) is v]
                hid = (A(v, "pre"), P("pre"))
                ok = any(fname(x) == "HabitatRecord" and arg(x, None, "hid") in hid and arg(x, None, "mid") is q.term("mhab.pre") and arg(x, None, "name") in (A(v, "name"), nm) and arg(x, None, "domain") in (P("ns"), A(v, "ns")) and all(arg(x, None, a) in (P(a), A(v, a)) for a in ("smids", "rmids"))
                         and (arg(x, None, "sid") in hid if sid else arg(x, None, "sid") in (None, NONE)) for x in r)
                ctx.need(ok, R5, f"{q.qual}:recorded", w, "a group joined is not recorded with its member and members: loaded again it is something else")
                ctx.need(stored(st, v, "pre")[-1:] == [P("pre")] and any(fname(t) == "add" and on(t) == "prefixes" and t.a[1][0] in hid for t in hist_calls(st)), R5, f"{q.qual}:own", w, "a group joined is not taken as own")
            else:
                ctx.need(any(fname(t) == "incept" and recv(t) is v and P("kwa") in [x for kk, x in t.a[2]] for t in hist_calls(st)), R5, f"{q.qual}:incepted", w, "a group habitat is made without inception")
                if not sid:
                    X = [t for t in hist_calls(st) if fname(t) == "extractMerfersMigers" and arg(t, 0, "smids") is P("smids") and arg(t, 1, "rmids") is P("rmids")]
                    got = {h.a[0].a[1].a[0]: h.a[1] for h in st.hist if h.k == "setitem" and h.a[0].k == "sub" and h.a[0].a[0] is P("kwa") and h.a[0].a[1].k == "c"}
                    kw = {kk: x for t in hist_calls(st) if fname(t) == "incept" and recv(t) is v for kk, x in t.a[2]}
                    got = dict(got, **{kk: x for kk, x in kw.items() if kk in ("merfers", "migers")})
                    ok = any(got.get("merfers") is q.w.mksub(t, C(0)) and got.get("migers") is q.w.mksub(t, C(1)) for t in X)
                    ctx.need(ok, R5, f"{q.qual}:keys", w, "a group is incepted with other keys than its members'")
            if not (sid and "make" in qual):
                ctx.need(q.holds(st, "mhab.pre in smids or mhab.pre in rmids"), R5, f"{q.qual}:member", w, "a group is made by who is no member of it")
                ctx.need(known(q, st, "smids") and (q.holds(st, "rmids is None") or known(q, st, "rmids")), R5, f"{q.qual}:members", w, "a group is made with members whose key state is not known")
        for k, st, v, nd in q.w.exits:
            if k == "raise":
                ok = q.holds(st, "mhab.pre not in smids and mhab.pre not in rmids") or any(q.holds(st, "m not in self.kevers", {"m": q.w.elem_of(P(a))}) for a in ("smids", "rmids"))
                ctx.need(ok, R5, f"{q.qual}:refused", q.where(nd), "a group is refused to a member of it, though all members' key states are known")
    # loading
    q = Q(ctx, HP, "Habery.loadHabs", OP | {"GroupHab", "SignifyGroupHab", "SignifyHab", "Hab"}, limit=4000)
    n = 0
    for b in q.w.events:
        if b.kind == "bodyend" and fname(core(b.term)) == "getTopItemIter":
            n += 1
            w = q.where(b.node)
            r = q.w.mksub(q.w.elem_of(core(b.term)), C(1))
            K = {"r": r}
            hs = [t for t in hist_calls(b) if fname(t) in ("GroupHab", "SignifyGroupHab", "SignifyHab", "Hab")]
            ctx.need(len(hs) == 1, R5, f"{q.qual}:one", w, "a recorded habitat is not loaded")
            if len(hs) != 1:
                continue
            h = hs[0]
            mid, sid = q.holds(b, "r.mid", K), q.holds(b, "r.sid", K)
            nomid, nosid = q.holds(b, "not r.mid", K), q.holds(b, "not r.sid", K)
            want = "GroupHab" if mid and nosid else "SignifyHab" if sid and nomid else "SignifyGroupHab" if mid and sid else "Hab" if nomid and nosid else None
            ctx.need(want is not None, R5, f"{q.qual}:known kind", w, "a recorded habitat is loaded without asking what kind it is")
            if want is None:
                continue
            ctx.need(fname(h) == want, R5, f"{q.qual}:kind", w, "a recorded habitat is loaded as another kind")
            ctx.need(arg(h, None, "name") is q.term("r.name", K) and arg(h, None, "pre") in (q.term("r.hid", K), q.term("r.sid", K) if want == "SignifyHab" else None), R5, f"{q.qual}:same", w, "a recorded habitat is loaded under another identifier or name")
            if "Group" in want:
                ctx.need(arg(h, None, "smids") is q.term("r.smids", K) and arg(h, None, "rmids") is q.term("r.rmids", K), R5, f"{q.qual}:members", w, "a recorded group is loaded with other members")
                ctx.need(any(fname(t) == "append" and t.a[1] == (r,) for t in hist_calls(b)), R5, f"{q.qual}:member", w, "a recorded group is loaded without its local member")
            ctx.need(injected(h), R5, f"{q.qual}:parts", w, "a recorded habitat is loaded with other resources than its own")
            ctx.need(stored(b, h, "inited")[-1:] == [TRUE], R5, f"{q.qual}:inited", w, "a loaded habitat is not marked as made")
            ctx.need(any(x.k == "setitem" and x.a[1] is h for x in b.hist), R5, f"{q.qual}:listed", w, "a recorded habitat is not found after loading")
            ctx.need(mid or q.holds(b, "h.accepted", {"h": h}), R5, f"{q.qual}:accepted", w, "a habitat is loaded whose inception is not in its log")
        if b.kind == "bodyend" and fname(core(b.term)) != "getTopItemIter":
            E = q.w.elem_of(core(b.term))
            ok = any(x.k == "store" and x.a[0].a[1] == "mhab" for x in b.hist)
            ctx.need(ok, R5, f"{q.qual}:member", q.where(b.node), "a recorded group is loaded without its local member")
    for k, st, v, nd in q.w.exits:
        if k == "raise":
            ok = any(q.holds(st, "not h.accepted and not r.mid", {"h": h, "r": q.w.mksub(q.w.elem_of(it), C(1))}) for h in hist_calls(st) if fname(h) in ("GroupHab", "SignifyGroupHab", "SignifyHab", "Hab") for it in {core(b.term) for b in q.w.events if b.kind == "bodyend" and fname(core(b.term)) == "getTopItemIter"})
            ctx.need(ok, R5, f"{q.qual}:refused", q.where(nd), "a recorded habitat stops all from being loaded though its inception is in its log, or it is a group's that is not yet")
    ctx.need(n > 0, R5, f"{q.qual}:loads", q.where(), "no recorded habitat is loaded")
    # the member's own log
    q = Q(ctx, EV, "Kever.fetchLatestContribTo", OP - {"fetchLatestContribTo"}, limit=2000)
    contrib(ctx, q, R2)
    q = Q(ctx, EV, "Kever.fetchPriorDigers", OP - {"fetchPriorDigers"}, limit=2000)
    priors(ctx, q, R2)


def injected(h):
    """a habitat works on the resources of its habery"""
    return all(arg(h, None, a) is A(me, a) for a in ("ks", "db", "cf", "mgr", "rtr", "rvy", "kvy", "psr"))


def known(q, st, name):
    """every one of the list has a key state: the loop over it refuses those without"""
    L = P(name)
    bs = [b for b in q.w.events if b.kind == "bodyend" and core(b.term) is L]
    good = bool(bs) and any(h.k == "looped" and core(h.a[0]) is L for h in st.hist) and all(q.holds(b, "m in self.kevers", {"m": q.w.elem_of(L)}) for b in bs)
    return good or any(p and fname(f) == "all" for f, p in st.facts)


def name_key(q, x, t, ns=None, name=None):
    """(namespace or "", name)"""
    ns, name = ns or A(me, "ns"), name or A(me, "name")
    k = tup(t) if t is not None else None
    if k is None or len(k) != 2 or k[1] is not name:
        return False
    return all(c is ns and q.holds(x, "n is not None", {"n": ns}) or c is C("") and q.holds(x, "n is None", {"n": ns}) or c.k == "or" and ns in (c.a[0] if isinstance(c.a[0], tuple) else c.a) for c in comps(k[0]))


def kelwalk(ctx, q, R, e_sn):
    """the events gone through: those of the own log, latest first from sn"""
    its = {core(b.term) for b in q.w.events if b.kind == "bodyend"}
    ctx.need(bool(its), R, f"{q.qual}:walks", q.where(), "the own log is not gone through")
    for t in its:
        good = fname(t) == "getBackIter" and on(t) == "kels" and text(arg(t, 0, "keys")) in (text(q.term("self.prefixer.qb64")), text(q.term("self.prefixer.qb64b"))) and all(c in e_sn for c in comps(arg(t, 1, "on")))
        ctx.need(good, R, f"{q.qual}:latest first", q.where(), "the own log is not gone through from the event asked for backwards")
    return its


def event_of(q, E):
    return [e.term for e in q.calls("get") if on(e.term) == "evts" and any(z is E for z in subterms(e.term))]


def contrib(ctx, q, R):
    its = kelwalk(ctx, q, R, (P("sn"), q.term("self.lastEst.s")))
    n = 0
    for st, v, nd in returns(q):
        w = q.where(nd)
        if v is NONE:
            continue
        n += 1
        r = tup(v)
        good = r is not None and len(r) == 3
        if good:
            i = r[1]
            S = [t for it in its for t in event_of(q, q.w.elem_of(it))]
            good = fname(i) == "index" and any(r[2] is q.term("s.verfers[0]", {"s": s}) and text(i.a[1][0]) is text(q.term("s.verfers[0].qb64", {"s": s})) and r[0] in (q.term("s.sn", {"s": s}), q.term("s.sner.num", {"s": s})) and q.holds(st, "s.estive", {"s": s}) for s in S)
            good = good and made_of(q, recv(i), P("verfers"), "qb64") is True
        ctx.need(good, R, f"{q.qual}:contributed", w, "not the latest own establishment event whose first key is among the keys given, with its place among them")
    ctx.need(n > 0, R, f"{q.qual}:found", q.where(), "a contributed key is never found")
    for b in q.w.events:
        if b.kind == "break":
            ctx.bad(R, f"{q.qual}:earlier", q.where(b.node), "an earlier contributed key is not looked for")
        if b.kind == "bodyend":
            S = event_of(q, q.w.elem_of(core(b.term)))
            ok = any(q.holds(b, "s is None or not s.estive", {"s": s}) for s in S) or any("ValueError" in c.a[1] for c in caught(b))
            ctx.need(ok, R, f"{q.qual}:latest", q.where(b.node), "an own establishment event whose first key is among the keys given is passed over")


def priors(ctx, q, R):
    its = kelwalk(ctx, q, R, (P("sn"), q.term("self.lastEst.s - 1")))
    n = 0
    for st, v, nd in returns(q):
        w = q.where(nd)
        if v is NONE:
            ok = q.holds(st, "sn is not None and sn < 0") or q.holds(st, "self.lastEst.s - 1 < 0") or any(h.k == "looped" for h in st.hist)
            ctx.need(ok, R, f"{q.qual}:none", w, "prior next digests there are are not found")
            continue
        n += 1
        S = [t for it in its for t in event_of(q, q.w.elem_of(it))]
        ctx.need(any(v is q.term("s.ndigers", {"s": s}) and q.holds(st, "s.estive", {"s": s}) for s in S), R, f"{q.qual}:digests", w, "other digests are taken than those of the latest establishment event before the one given")
    ctx.need(n > 0, R, f"{q.qual}:found", q.where(), "prior next digests are never found")
    for b in q.w.events:
        if b.kind == "break":
            ctx.bad(R, f"{q.qual}:earlier", q.where(b.node), "an earlier establishment event is not looked for")
        if b.kind == "bodyend":
            S = event_of(q, q.w.elem_of(core(b.term)))
            ctx.need(any(q.holds(b, "s is None or not s.estive", {"s": s}) for s in S), R, f"{q.qual}:latest", q.where(b.node), "an own establishment event is passed over")
