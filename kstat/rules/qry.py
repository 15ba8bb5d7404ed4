"""Queries are answered only from accepted, witnessed state; replay hands out each logged event with all its attachments, in first seen order."""
import ast
from . import prop
from .corelib import *
from .kel import KB
from .kev import S
from .rct import norm, same, keyparts
from .rpy import k_is, reads, prim, own_ok
from .esc import comps, hist_calls, caught

BAS = "src/keri/db/basing.py"
QB = KB | {"escrowQueryNotFoundEvent", "clonePreIter", "fullyWitnessed", "fetchAllSealingEventByEventSeal", "fetchLastSealingEventByEventSeal", "findAnchoringSealEvent", "reply", "state"}
SEAL = ("fetchAllSealingEventByEventSeal", "fetchLastSealingEventByEventSeal", "findAnchoringSealEvent")


def cue(t):
    """kind of a pushed cue and its parts"""
    if fname(t) not in ("push", "append") or recv(t) is None or chain(recv(t))[-1] != "cues":
        return None
    d = arg(t, 0, "attrs", "val", "item")
    if fname(d) == "dict":
        p = call_parts(d)[2]
    elif d is not None and d.k == "dict":
        p = {k.a[0]: v for k, v in d.a[0] if iscon(k)}
    else:
        p = {}
        for z in (d.a if d is not None else ()):
            if isinstance(z, tuple):
                for kv in z:
                    if isinstance(kv, T) and kv.k == "tup" and len(kv.a[0]) == 2 and iscon(kv.a[0][0]):
                        p[kv.a[0][0].a[0]] = kv.a[0][1]
    k = p.get("kin")
    return (k.a[0], p) if k is not None and iscon(k) else None


@prop("K12")
def k12(ctx):
    R1 = "K12.answer"
    ctx.rule(R1, "an answer is given only about an accepted identifier whose state meets what the query asks and the witness threshold, and goes to the requester", 8)
    R2 = "K12.held"
    ctx.rule(R2, "a query that cannot be answered yet is held whole and reported, and only then", 4)
    q = Q(ctx, EV, "Kevery.processQuery", QB, limit=1500)
    PRE, SRC = q.term("serder.ked['q']['i']"), q.term("serder.ked['q']['src']")
    QY, RO = q.term("serder.ked['q']"), q.term("serder.ked['r']")
    env = {"pre": PRE, "y": QY, "r": RO}
    KV = q.term("self.kevers[pre]", env)

    def requester(e, d):
        alts = comps(d)
        return bool(alts) and all(z is norm(A(P("source"), "qb64")) or z is norm(q.term("cigars[0].verfer.qb64")) and q.holds(e, "source is None") for z in alts)

    def held(x):
        for t in hist_calls(x):
            if fname(t) == "escrowQueryNotFoundEvent" and arg(t, 1, "serder") is S and arg(t, 2, "sigers") is P("sigers") and arg(t, 3, "cigars") is P("cigars"):
                p = arg(t, 0, "prefixer")
                if p is P("source") or fname(p) == "Prefixer" and same(prim(p), q.term("cigars[0].verfer.qb64")) and q.holds(x, "source is None"):
                    return True
        return False

    def lacks(x):
        """why the query cannot be answered yet"""
        if q.holds(x, "pre not in self.kevers", env):
            return True
        r = None
        for k in ("logs", "ksn", "mbx"):
            if q.holds(x, f"r == '{k}'", env):
                r = k
        if r == "logs":
            an = q.w.mksub(QY, C("a"))
            for t in reads(x, lambda t: fname(t) in SEAL):
                if q.holds(x, "not t || t is None", {"t": t}) and q.holds(x, "a", {"a": an}):
                    return True
            for sn in sns(x):
                ws = reads(x, lambda t: fname(t) == "fullyWitnessed")
                e2 = {"k": KV, "s": sn}
                if q.holds(x, "k.sner.num < s || k.sn < s", e2) or any(q.holds(x, "not w", {"w": w}) for w in ws):
                    return True
                if any(q.holds(x, "k.sner.num < s or not w || k.sn < s or not w", dict(e2, w=w)) for w in ws):
                    return True
        if r == "ksn":
            return any(q.holds(x, "len(w) < k.toader.num || len(w) < k.toad", {"w": w, "k": KV}) for w in wigs(x))
        return False

    def sns(x):
        return [q.term("int(y['s'], 16)", env)]

    def wigs(x):
        return reads(x, lambda t: dbop(t, "wigs", "get") and k_is(arg(t, 0, "keys"), PRE, q.w.termof("k.serder.said", {"k": KV})))
    seen, dests = set(), {}
    for e in q.w.events:
        if e.kind != "call":
            continue
        c = cue(e.term)
        if c is None:
            continue
        kin, p = c
        seen.add(kin)
        if kin == "invalid":
            ctx.need(q.holds(e, "r != 'logs' and r != 'ksn' and r != 'mbx'", env), R1, f"{q.qual}:supported", q.where(e.node), "a supported query is refused")
            continue
        ctx.need(q.holds(e, "pre in self.kevers", env), R1, f"{q.qual}:{kin}:known", q.where(e.node), "an answer is given about an identifier without accepted state")
        ctx.need("dest" not in p and kin == "stream" or requester(e, p.get("dest", P("?"))), R1, f"{q.qual}:{kin}:requester", q.where(e.node), "an answer is not sent to the requester")
        dests.setdefault(kin, set()).update(comps(p["dest"]) if "dest" in p else ())
        if kin == "stream":
            ctx.need(q.holds(e, "r == 'mbx'", env) and p.get("serder") is S and p.get("pre") is PRE and p.get("src") is SRC and p.get("topics") is q.w.mksub(QY, C("topics")), R1, f"{q.qual}:{kin}", q.where(e.node),
                     "a mailbox query is answered for another identifier or topics than asked")
        elif kin == "replay":
            ctx.need(q.holds(e, "r == 'logs'", env) and p.get("pre") is PRE and p.get("src") is SRC, R1, f"{q.qual}:{kin}", q.where(e.node), "the log handed out is not the one asked for")
            an = q.w.mksub(QY, C("a"))
            w = reads(e, lambda t: fname(t) in SEAL and arg(t, 0, "pre") is PRE and arg(t, 1, "seal") is an)
            asked = q.holds(e, "'a' not in y", env) or q.holds(e, "not a", {"a": an}) or any(q.holds(e, "t || t is not None", {"t": t}) for t in w)
            ctx.need(asked, R1, f"{q.qual}:{kin}:anchor", q.where(e.node), "a log is handed out though the anchor asked for is not in it")
            sn = sns(e)[0]
            ws = reads(e, lambda t: fname(t) == "fullyWitnessed" and arg(t, 0, "serder") is A(KV, "serder"))
            ctx.need(q.holds(e, "'s' not in y", env) or q.holds(e, "a", {"a": an}) or any(q.holds(e, "w", {"w": x}) for x in ws) and q.holds(e, "s <= k.sner.num || s <= k.sn", {"s": sn, "k": KV}),
                     R1, f"{q.qual}:{kin}:sequence number", q.where(e.node), "a log is handed out that does not reach the sequence number asked for, fully witnessed")
            ms = appended(q, p.get("msgs"))
            fn = None
            kinds = set()
            for v, ev in ms or []:
                it = v.a[0] if v.k == "elem" else None
                if fname(it) == "clonePreIter":
                    f = arg(it, 1, "fn")
                    if f is None:
                        f = default(ctx, BAS, "Baser.clonePreIter", "fn")
                    if norm(arg(it, 0, "pre")) is PRE:
                        kinds.add("own")
                        want = q.term("int(y['fn'], 16)", env)
                        ctx.need(f is want or f is C(0) and q.holds(ev, "'fn' not in y", env), R1, f"{q.qual}:{kin}:from", q.where(e.node), "the log is not handed out from where it was asked")
                    elif norm(arg(it, 0, "pre")) is A(KV, "delpre"):
                        kinds.add("delegator")
                        ctx.need(f is C(0), R1, f"{q.qual}:{kin}:delegator", q.where(e.node), "the delegator's log is handed out in part")
                    else:
                        kinds.add("?")
                else:
                    kinds.add("?")
            ctx.need(kinds == {"own", "delegator"}, R1, f"{q.qual}:{kin}:log", q.where(e.node), "what is handed out is not the identifier's log and its delegator's")
        elif kin == "reply":
            ctx.need(q.holds(e, "r == 'ksn'", env), R1, f"{q.qual}:{kin}", q.where(e.node), "a key state is handed out for another query")
            ctx.need(any(q.holds(e, "k.toader.num <= len(w) || k.toad <= len(w)", {"w": w, "k": KV}) for w in wigs(e)), R1, f"{q.qual}:{kin}:witnessed", q.where(e.node),
                     "a key state is handed out without the witness threshold met")
            r = p.get("serder")
            good = fname(r) == "reply"
            d = arg(r, None, "data") if good else None
            good = good and d is not None and any(fname(z) == "state" and recv(z) is KV for z in subterms(d)) and arg(r, None, "route") is not None and SRC in set(subterms(arg(r, None, "route"))) and "/ksn/" in show(arg(r, None, "route"))
            ctx.need(bool(good), R1, f"{q.qual}:{kin}:state", q.where(e.node), "what is handed out is not the identifier's present key state")
        else:
            ctx.bad(R1, f"{q.qual}:{kin}", q.where(e.node), "an unknown answer is given")
    for kin in ("replay", "reply"):
        ctx.need(kin not in seen or len(dests[kin]) > 1, R1, f"{q.qual}:{kin}:nontransferable requester", q.where(), "a requester known only by its nontransferable signature gets no answer")
    ctx.need(seen >= {"replay", "reply", "stream"}, R1, f"{q.qual}:answers", q.where(), "one kind of query is never answered")
    for st, v, nd in q.exits():
        got = {c[0] for c in map(cue, hist_calls(st)) if c}
        empty = any(not p and t.k in ("new", "phi", "hv") for t, p in st.facts)
        ctx.need(bool(got & {"replay", "reply", "stream"}) or empty, R1, f"{q.qual}:answered", q.where(nd), "a query ends normally without an answer")
        if q.holds(st, "k.delpre", {"k": KV}) and "replay" in got:
            ctx.need(any(h.k == "looped" and fname(h.a[0]) == "clonePreIter" and norm(arg(h.a[0], 0, "pre")) is A(KV, "delpre") for h in st.hist), R1, f"{q.qual}:replay:delegator", q.where(nd),
                     "a delegated identifier's log is handed out without its delegator's")
    for st, nd in raises_named(q, {"QueryNotFoundError"}):
        ctx.need(held(st), R2, f"{q.qual}:held", q.where(nd), "a query that cannot be answered yet is not held with its requester and signatures")
        ctx.need(lacks(st), R2, f"{q.qual}:only when missing", q.where(nd), "a query is put off though what it asks for is there")
    for st, nd in raises_named(q, {"ValidationError"}):
        ctx.need(q.holds(st, "r != 'logs' and r != 'ksn' and r != 'mbx'", env), R2, f"{q.qual}:refused only when unsupported", q.where(nd), "a supported query is refused")
    # held whole
    q = Q(ctx, EV, "Kevery.escrowQueryNotFoundEvent", QB)
    PX = P("prefixer")
    own = lambda k: k_is(k, A(PX, "qb64"), A(S, "said")) or fname(k) == "dgKey" and same(arg(k, 0, "pre"), A(PX, "qb64")) and same(arg(k, 1, "dig"), A(S, "said"))
    for st, v, nd in q.exits():
        for s, val in (("dtss", lambda t: fname(t) == "Dater"), ("sigs", lambda t: t is P("sigers")), ("evts", lambda t: t is S), ("qnfs", lambda t: same(t, A(S, "said")))):
            ok = did(st, s, ("put", "pin", "add"), lambda t: own(arg(t, 0, "keys")) and arg(t, 1, "val", "vals") is not None and val(arg(t, 1, "val", "vals")))
            ctx.need(ok or s == "sigs" and q.holds(st, "not sigers || sigers is None"), R2, f"{q.qual}:{s}", q.where(nd), "a held query lacks a part")
        ctx.need(q.holds(st, "cigars is None || not cigars") or any(h.k == "looped" and h.a[0] in (P("cigars"),) for h in st.hist), R2, f"{q.qual}:cigars", q.where(nd), "a held query lacks its requester's signature")
    for b in q.w.events:
        if b.kind == "bodyend" and b.term is P("cigars"):
            c = q.w.elem_of(b.term)
            ctx.need(did(b, "rcts", ("add", "put"), lambda t: own(arg(t, 0, "keys")) and tup(arg(t, 1, "val")) == [A(c, "verfer"), c]), R2, f"{q.qual}:cigars", q.where(b.node), "a held query lacks its requester's signature")
    for e in q.w.events:
        if e.kind == "iter" and e.term is P("cigars"):
            ctx.need(q.holds(e, "cigars is not None || cigars"), R2, f"{q.qual}:no cigars", q.where(e.node), "a query without nontransferable signatures fails instead of being held")
    # witnessed
    R3 = "K12.witnessed"
    ctx.rule(R3, "an event counts as fully witnessed, and as the anchor of a seal, only when its log holds it so", 4)
    q = Q(ctx, BAS, "Baser.fullyWitnessed", ())
    always_equiv(q, R3, "threshold", "len(self.wigs.get(keys=(serder.preb, serder.saidb))) >= self.kevers[serder.pre].toader.num", "whether an event is fully witnessed")
    for fn, it in (("fetchAllSealingEventByEventSeal", "getEvtPreIter"), ("fetchLastSealingEventByEventSeal", "getEvtLastPreIter"), ("fetchLastSealingEventBySeal", "getEvtLastPreIter")):
        q = Q(ctx, BAS, "Baser." + fn, QB | {"getEvtPreIter", "getEvtLastPreIter"}, limit=400)
        n = 0
        ctx.need(default(ctx, BAS, "Baser." + fn, "sn") is C(0), R3, f"{q.qual}:from the start", q.where(), "unless asked otherwise, a log is not searched from its start")
        for st, v, nd in q.exits():
            if v is NONE:
                done = any(h.k == "looped" and fname(h.a[0]) == it for h in st.hist)
                ctx.need(done or fn != "fetchLastSealingEventBySeal" and any(not p and t.k == "eq" and "_fields" in show(t) for t, p in st.facts), R3, f"{q.qual}:searched", q.where(nd),
                         "no anchor is reported before all events were searched")
                continue
            n += 1
            src = v.a[0] if v.k == "elem" else None
            ctx.need(fname(src) == it and arg(src, 0, "pre") is P("pre") and arg(src, 1, "sn") is P("sn"), R3, f"{q.qual}:own log", q.where(nd), "the anchor reported is not in the identifier's accepted log")
            ctx.need(any(p and fname(t) == "fullyWitnessed" and arg(t, 0, "serder") is v for t, p in st.facts), R3, f"{q.qual}:fully witnessed", q.where(nd), "an anchor short of its witness threshold is reported")
            ok = any(p and t.k == "eq" and sealpair(t.a[0], t.a[1], v) for t, p in st.facts)
            ctx.need(ok, R3, f"{q.qual}:same seal", q.where(nd), "an event that does not anchor the given seal is reported")
        for e in q.w.events:
            if e.kind != "call" or len(e.term.a[1]) or [n for n, _ in e.term.a[2]] != ["**"]:
                continue
            f, x = e.term.a[0], e.term.a[2][0][1]
            fits = any(p and t.k == "eq" and all(any(y in set(subterms(z)) for z in t.a if isinstance(z, T)) for y in (A(f, "_fields"), x)) for t, p in e.facts)
            ctx.need(fits or x in set(subterms(f)), R3, f"{q.qual}:other seals", q.where(e.node), "a seal of another kind makes the search fail instead of being passed over")
        ctx.need(n > 0, R3, f"{q.qual}:found", q.where(), "an anchor is never found")
        for e in q.w.events:
            if e.kind == "break":
                ctx.bad(R3, f"{q.qual}:searched", q.where(e.node), "the search for an anchor can end early")


@prop("K13")
def k13(ctx):
    R1 = "K13.whole"
    ctx.rule(R1, "a replayed event carries every signature, receipt and seal logged with it, its first seen number and date", 9)
    R2 = "K13.order"
    ctx.rule(R2, "a log is replayed from the number asked, in first seen order, leaving out only events whose parts are missing", 6)
    q = Q(ctx, BAS, "Baser.cloneEvtMsg", KB | {"messagize"}, limit=600)
    PRE, DIG, FN = P("pre"), P("dig"), P("fn")
    own = lambda k: k_is(k, PRE, DIG)
    get = lambda t, s: t is not None and dbop(unwrap(t, ("list", "tuple")), s, "get") and own(arg(unwrap(t, ("list", "tuple")), 0, "keys"))
    ms = q.calls("messagize")
    ctx.need(bool(ms), R1, f"{q.qual}:made", q.where(), "no message is made")
    for e in ms:
        t = e.term
        for k, s, what in (("serder", "evts", "event"), ("sigers", "sigs", "signatures"), ("wigers", "wigs", "witness signatures")):
            ctx.need(get(arg(t, None, k), s), R1, f"{q.qual}:{k}", q.where(e.node), f"an event is replayed without its {what}")
        for x, what in ((arg(t, None, "serder"), "event"), (unwrap(arg(t, None, "sigers"), ("list", "tuple")), "signatures")):
            ctx.need(q.holds(e, "x || x is not None", {"x": x}), R1, f"{q.qual}:{what} there", q.where(e.node), f"an event whose {what} are missing is replayed without")
        g = arg(t, None, "gvrsn")
        ctx.need(g is P("version") and q.holds(e, "version is not None || version") or g is P("gvrsn") and q.holds(e, "version is None || not version"), R1, f"{q.qual}:version", q.where(e.node),
                 "an event is not replayed in the version asked for")
        cs = appended(q, arg(t, None, "cigars")) if arg(t, None, "cigars") is not None else None
        ctx.need(bool(cs) and all(is_rct(q, v, ev, own) for v, ev in cs), R1, f"{q.qual}:cigars", q.where(e.node), "an event is replayed without its nontransferable receipts, or with them under another receipter")
        rs = appended(q, arg(t, None, "rsgs")) if arg(t, None, "rsgs") is not None else None
        ctx.need(bool(rs) and all(is_rsg(q, v) for v, ev in rs), R1, f"{q.qual}:rsgs", q.where(e.node), "an event is replayed without its transferable receipts, or with them under another receipter or event")
        bs = appended(q, arg(t, None, "bonds")) if arg(t, None, "bonds") is not None else None
        fs = list({v for v, ev in bs or [] if fname(v) == "FirstSeen"})
        ss = [(v, ev) for v, ev in bs or [] if fname(v) == "SealSource"]
        ctx.need(all(q.holds(e, "x || x is not None", {"x": arg(f, None, "dt")}) for f in fs), R1, f"{q.qual}:date there", q.where(e.node), "an event whose first seen date is missing is replayed without")
        ctx.need(len(fs) == 1 and get(arg(fs[0], None, "dt"), "dtss") and number_of(arg(fs[0], None, "f")) is FN, R1, f"{q.qual}:first seen", q.where(e.node), "an event is replayed without its first seen number and date")
        ctx.need(bool(ss) and all(is_src(q, v, get) for v, ev in ss), R1, f"{q.qual}:seal source", q.where(e.node), "a delegated event is replayed without the seal of its delegator's event")
    for st, v, nd in q.exits():
        ctx.need(fname(v) == "messagize", R1, f"{q.qual}:made", q.where(nd), "what is returned is not the message made")
        src = reads(st, lambda t: dbop(t, "rcts", "get", "getIter") and own(arg(t, 0, "keys")))
        ctx.need(bool(src) and all(q.holds(st, "not x", {"x": s}) or any(h.k == "looped" and h.a[0] is s for h in st.hist) for s in src), R1, f"{q.qual}:cigars", q.where(nd), "receipts are left out")
        ctx.need(any(h.k == "looped" and dbop(h.a[0], "vrcs", "getTopItemIter") and own(arg(h.a[0], 0, "keys")) for h in st.hist), R1, f"{q.qual}:rsgs", q.where(nd), "transferable receipts are left out")
        a = reads(st, lambda t: dbop(t, "aess", "get") and own(arg(t, 0, "keys")))
        ctx.need(bool(a), R1, f"{q.qual}:seal source", q.where(nd), "the delegation seal is left out")
        for x in a:
            ctx.need(q.holds(st, "not x || x is None", {"x": x}) or any(fname(z) == "SealSource" for h in hist_calls(st) for z in subterms(h)), R1, f"{q.qual}:seal source", q.where(nd), "the delegation seal is left out")
    for st, nd in raises_named(q, {"MissingEntryError"}):
        ctx.need(any(q.holds(st, "not x || x is None", {"x": t}) for t in reads(st, lambda t: any(dbop(t, s, "get") and own(arg(t, 0, "keys")) for s in ("evts", "sigs", "dtss")))), R1, f"{q.qual}:refused with a reason",
                 q.where(nd), "an event all whose parts are logged is not replayed")
    lp = [b for b in q.w.events if b.kind == "bodyend" and dbop(b.term, "vrcs", "getTopItemIter")]
    for b in lp:
        I = q.w.elem_of(b.term)
        sg = q.w.mksub(I, C(1))
        ok = any((fname(h) in ("append", "add") and arg(h, 0) is sg) for h in hist_calls(b)) or any(h.k in ("setitem",) and any(x is sg or x.k in ("new", "list") and sg in set(subterms(x)) | {v for v, _ in appended(q, x) or []}
                                                                                                for x in h.a if isinstance(x, T)) for h in b.hist)
        ctx.need(ok, R1, f"{q.qual}:rsgs kept", q.where(b.node), "a transferable receipt signature is left out")
    for e in q.w.events:
        if e.kind == "setitem" and e.term.k == "sub" and (e.value.k == "new" or fname(e.value) in ("list", "set")):
            ctx.need(q.holds(e, "k not in d || not d.get(k) || d.get(k) is None", {"k": e.term.a[1], "d": e.term.a[0]}), R1, f"{q.qual}:rsgs kept", q.where(e.node), "of several signatures of one transferable receipt only the last is replayed")
        if e.kind == "call" and fname(e.term) in ("append", "add") and recv(e.term).k == "sub" and recv(e.term).a[0].k == "new" and recv(e.term).a[0].a[0] != "defaultdict":
            c = recv(e.term)
            ctx.need(q.holds(e, "k in d", {"k": c.a[1], "d": c.a[0]}) or any(h.k == "setitem" and h.a[0] is c for h in e.hist), R1, f"{q.qual}:rsgs kept", q.where(e.node), "the signatures of a transferable receipt are collected where nothing was made to hold them")
    for fn, key, on in (("clonePreIter", lambda k: same(k, PRE), lambda o: o is FN), ("cloneAllPreIter", lambda k: k in (None, C(b""), C("")), lambda o: o in (None, C(0)))):
        dfl = default(ctx, BAS, "Baser." + fn, "fn") if fn == "clonePreIter" else C(0)
        ctx.need(dfl is C(0), R2, f"{fn}:from the start", f"{BAS}", "unless asked otherwise, a log is not replayed from its start")
        q = Q(ctx, BAS, "Baser." + fn, KB | {"cloneEvtMsg", "messagize"}, limit=200)
        ys = [e for e in q.w.events if e.kind == "yield"]
        ctx.need(bool(ys), R2, f"{q.qual}:yields", q.where(), "nothing is replayed")
        its = {b.term for b in q.w.events if b.kind in ("bodyend", "iter")}
        it = [t for t in its if dbop(t, "fels", "getAllItemIter", "getTopItemIter")]
        ctx.need(len(it) == 1 and key(arg(it[0], 0, "keys")) and on(arg(it[0], None, "on")), R2, f"{q.qual}:from", q.where(), "the log replayed is another, or does not start where asked")
        if len(it) != 1:
            continue
        I = q.w.elem_of(it[0])
        at = lambda *i: q.w.mksub(at(*i[:-1]), C(i[-1])) if i else I
        for e in ys:
            v = e.value if e.value is not None else e.term
            v = v if fname(v) == "cloneEvtMsg" else e.term
            p = norm(arg(v, 0, "pre")) if fname(v) == "cloneEvtMsg" else None
            g = arg(v, None, "gvrsn")
            ctx.need(g is P("version") and q.holds(e, "version is not None || version") or g is P("gvrsn") and q.holds(e, "version is None || not version") or fname(v) != "cloneEvtMsg", R2, f"{q.qual}:version", q.where(e.node),
                     "a log is not replayed in the version asked for")
            good = p is not None and (p is PRE and fn == "clonePreIter" or all(z is norm(at(0, 0)) for z in comps(arg(v, 0, "pre")))) and arg(v, 1, "fn") is at(1) and arg(v, 2, "dig") is at(2)
            ctx.need(good, R2, f"{q.qual}:each", q.where(e.node), "another event than the one first seen at that number is replayed")
        for st, v, nd in q.exits():
            ctx.need(any(h.k == "looped" and h.a[0] is it[0] for h in st.hist), R2, f"{q.qual}:to the end", q.where(nd), "a replay ends before the last event of the log")
        for b in q.w.events:
            if b.kind == "bodyend" and b.term is it[0]:
                ok = any(h.k == "yield" or h.k == "fresh" and h.a[0].k == "yield" for h in b.hist) or any(e.kind == "yield" and e.hist <= b.hist for e in ys) and not caught(b)
                ms_ = caught(b)
                ctx.need(ok or bool(ms_) and all(set(m.a[1]) <= {"MissingEntryError", "SerializeError"} for m in ms_), R2, f"{q.qual}:none left out", q.where(b.node), "an event all whose parts are logged is left out of a replay")
            if b.kind == "break":
                ctx.bad(R2, f"{q.qual}:none left out", q.where(b.node), "a replay ends early")
    q = Q(ctx, BAS, "Baser.cloneDelegation", KB | {"clonePreIter", "cloneDelegation"}, limit=200)
    ys = [e for e in q.w.events if e.kind == "yield"]
    K = P("kever")
    deep, flat = [], []
    for e in q.w.events:
        if e.kind == "call" and fname(e.term) == "cloneDelegation":
            deep.append(e)
        if e.kind == "call" and fname(e.term) == "clonePreIter":
            flat.append(e)
    ctx.need(bool(deep) and all(arg(e.term, 0, "kever") is q.term("self.kevers[kever.delpre]") for e in deep), R2, f"{q.qual}:delegator's own delegators first", q.where(), "the delegators of a delegator are not replayed")
    ctx.need(bool(flat) and all(same(arg(e.term, 0, "pre"), A(K, "delpre")) and arg(e.term, 1, "fn") in (None, C(0)) for e in flat), R2, f"{q.qual}:delegator", q.where(), "the delegator's log is not replayed from its start")
    for e in deep + flat:
        ctx.need(q.holds(e, "kever.delpre in self.kevers") and q.holds(e, "kever.delegated"), R2, f"{q.qual}:known", q.where(e.node), "replaying the delegator of an identifier whose delegator is not known, or that has none, fails")
        t = e.term
        got = any(y.kind == "yield" and (y.value is t or y.term is t or y.term is q.w.elem_of(t) or y.value is q.w.elem_of(t)) for y in ys)
        ctx.need(got, R2, f"{q.qual}:handed out", q.where(e.node), "a delegator's log is read but not replayed")
    for e in flat:
        ctx.need(called_before(e, lambda t: fname(t) == "cloneDelegation"), R2, f"{q.qual}:root first", q.where(e.node), "a delegator's log is replayed before the logs it depends on")
    for st, v, nd in q.exits():
        ctx.need(q.holds(st, "not (kever.delegated and kever.delpre in self.kevers)") or called_before(st, lambda t: fname(t) == "clonePreIter"), R2, f"{q.qual}:replayed", q.where(nd), "a known delegator's log is not replayed")


def sealpair(a, b, v):
    """the given seal against one of v's seals, both in the same form"""
    if a.k == "call" and b.k == "call" and a.a[0] is b.a[0] and not a.a[1] and not b.a[1] and [n for n, _ in a.a[2]] == [n for n, _ in b.a[2]] == ["**"]:
        a, b = a.a[2][0][1], b.a[2][0][1]
    if b is P("seal"):
        a, b = b, a
    if a is not P("seal") or b.k != "elem":
        return False
    it = b.a[0]
    if it.k == "or":
        it = it.a[0] if isinstance(it.a[0], T) else it.a[0][0]
    return it is A(v, "seals")


def default(ctx, rel, qual, p):
    d = ctx.model.func(rel, qual).defaults().get(p)
    return C(d.value) if isinstance(d, ast.Constant) else None


def is_rct(q, v, ev, own):
    if v.k != "sub" or v.a[1] is not C(1) or v.a[0].k != "elem" or not dbop(v.a[0].a[0], "rcts", "get", "getIter") or not own(arg(v.a[0].a[0], 0, "keys")):
        return False
    return any(h.k == "store" and h.a[0] is A(v, "verfer") and any(z is q.w.mksub(v.a[0], C(0)) for z in subterms(h.a[1])) for h in ev.hist)


def number_of(t):
    return arg(t, None, "num", "sn", "snh", "numh") if fname(t) in ("Number", "Seqner") else t


def is_rsg(q, v):
    vs = tup(v)
    if not vs or len(vs) != 4:
        return False
    p, n, d, s = vs
    a = [prim(p), number_of(n), prim(d)]
    if fname(p) != "Prefixer" or fname(d) not in ("Diger", "Saider") or fname(n) not in ("Number", "Seqner"):
        return False
    tri = None
    for i, x in enumerate(a):
        if x is None or x.k != "sub" or x.a[1] is not C(i) or tri is not None and x.a[0] is not tri:
            return False
        tri = x.a[0]
    sig_of = s.k == "sub" and tri.k == "sub" and s.a[0] is tri.a[0] and (tri.a[1], s.a[1]) == (C(0), C(1)) or s.k == "sub" and s.a[1] is tri or fname(s) == "get"
    return bool(sig_of)


def is_src(q, v, get):
    s, d = arg(v, None, "s"), arg(v, None, "d")
    return s is not None and d is not None and s.k == "sub" and d.k == "sub" and get(s.a[0], "aess") and s.a[0] is d.a[0] and (s.a[1], d.a[1]) == (C(0), C(1))
