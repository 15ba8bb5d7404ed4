"""Escrows, replies and queries of registry and credential logs."""
from . import prop
from .corelib import *
from .rct import norm, same, keyparts
from .esc import Entry, escrow_loop, hist_calls, caught, could_be, comps, is_one, only_is
from .tel import VE, TB, S, is_f, eq_known
from .rpy import reads, k_is, only, sn_text, dated, same_or_list, prim, is_cued

SELF = P("self")
BR = "src/keri/db/escrowing.py"
VB = TB | {"current", "clonePreIter", "registries", "processQuery", "cloneTvt"}
REGK = {"registry": ("processReplyRegistryTxnState", "RegStateRecord"), "credential": ("processReplyCredentialTxnState", "VcStateRecord")}


def coupled(q, t):
    """(number, digest) of the anchor given with the event"""
    g = tup(t) if t is not None else None
    if g is None or len(g) != 2:
        return False
    n, d = g
    okn = n is P("seqner") or fname(n) == "Number" and norm(arg(n, None, "num", "numh")) in (q.term("seqner.sn"), q.term("seqner.num"), q.term("seqner.snh"))
    okd = d is P("saider") or fname(d) in ("Diger", "Saider") and norm(arg(d, None, "qb64", "qb64b")) is q.term("saider.qb64")
    return okn and okd


@prop("V02")
def v02_hold(ctx):
    R = "V02.held"
    ctx.rule(R, "a registry event that waits is held whole: body, anchor, backer signatures, and its place by identifier, number and digest", 12)
    for qual, store in (("Tevery.escrowOOEvent", "oots"), ("Tever.escrowALEvent", "taes"), ("Tever.escrowPWEvent", "twes")):
        q = Q(ctx, VE, qual, VB - {qual.split(".")[1], "dgKey"})
        key = lambda t: len(keyparts(arg(t, 0, "keys"))) == 2 and is_f(keyparts(arg(t, 0, "keys"))[0], "i") and is_f(keyparts(arg(t, 0, "keys"))[1], "d")
        n = 0
        for st, v, nd in q.exits():
            n += 1
            w = q.where(nd)
            ctx.need(did(st, "tvts", ("put", "pin"), lambda t: key(t) and norm(arg(t, 1, "val")) is q.term("serder.raw")), R, f"{q.qual}:body", w, "an event is held without its body")
            noanchor = store == "taes" and q.holds(st, "not seqner or not saider or seqner is None or saider is None")
            ctx.need(noanchor or did(st, "ancs", ("put", "pin"), lambda t: key(t) and coupled(q, arg(t, 1, "val"))), R, f"{q.qual}:anchor", w, "an event is held without its anchor")
            ctx.need(q.holds(st, "not bigers || bigers is None") or did(st, "tibs", ("put", "pin"), lambda t: key(t) and norm(arg(t, 1, "vals")) is P("bigers")), R, f"{q.qual}:backer signatures", w, "an event is held without its backer signatures")
            ctx.need(did(st, store, ("put", "add", "append"), lambda t: is_f(arg(t, 0, "keys"), "i") and on_sn(q, arg(t, None, "on")) and dig1(q, arg(t, None, "vals", "val"))), R, f"{q.qual}:entry", w, "an event is not held, or under another identifier, number or digest")
        ctx.need(n > 0, R, f"{q.qual}:exits", q.where(), "no event is ever held")


def on_sn(q, t):
    return t is not None and (t in (q.term("serder.sn"),) or norm(t) is q.term("serder.sn"))


def dig1(q, t):
    if t is None:
        return False
    if is_f(t, "d"):
        return True
    g = tup(t)
    if g is None:
        a = appended(q, t)
        g = [x for x, e in a] if a is not None else None
    return bool(g) and len(g) == 1 and is_f(g[0], "d")


PASS = (("processEscrowOutOfOrders", "oots", "OutOfOrderError"), ("processEscrowAnchorless", "taes", "MissingAnchorError"))


@prop("V02")
def v02_retry(ctx):
    RT = "V02.retried"
    ctx.rule(RT, "each pass retries every held registry event with everything held with it, and every kind of held notice", 10)
    RL = "V02.leaves"
    ctx.rule(RL, "a held registry event leaves its escrow exactly when its retry succeeds or it is refused for good, and no other leaves with it", 10)
    for fn, store, W in PASS:
        q = Q(ctx, VE, f"Tevery.{fn}", VB, limit=2500)
        E, ends = escrow_loop(ctx, q, store, True, RT)
        if E is None:
            continue
        dig = {norm(E.val)}

        def whole(t, x):
            if fname(t) != "processEvent":
                return False
            s = arg(t, 0, "serder")
            if fname(s) != "SerderKERI":
                return False
            r = arg(s, None, "raw")
            if r is None or not E.from_store(norm(r), "tvts", dig) and not (norm(r).k == "call" and fname(norm(r)) == "encode" and E.from_store(recv(norm(r)), "tvts", dig)):
                return False
            b = arg(t, None, "wigers")
            bs = {z for z in comps(b)} if b is not None else set()
            okb = bool(bs) and all(E.from_store(z, "tibs", dig) or z is NONE and any(not p and E.from_store(f, "tibs", dig) for f, p in x.facts) or
                                   z.k == "or" and any(E.from_store(y, "tibs", dig) for y in z.a[0]) for z in bs) and any(z is not NONE or any(not p and E.from_store(f, "tibs", dig) for f, p in x.facts) for z in bs)
            n, d = arg(t, None, "seqner"), arg(t, None, "saider")
            def part(z, i):
                return z is not None and z.k == "sub" and z.a[1] is C(i) and E.from_store(z.a[0], "ancs", dig)
            okn = part(n, 0) or fname(n) in ("Seqner", "Number") and any(part(y, 0) for y in subterms(arg(n, None, "sn", "num", "snh", "numh")))
            okd = part(d, 1) or fname(d) in ("Diger", "Saider") and any(part(y, 1) for y in subterms(arg(d, None, "qb64", "qb64b")))
            return okb and okn and okd

        def done(x):
            return any(whole(t, x) for t in hist_calls(x))
        ctx.need(bool(q.exits()), RT, f"{q.qual}:ends", q.where(), "a pass over what is held never ends")
        sub = q.calls("processEvent")
        ctx.need(bool(sub), RT, f"{q.qual}:resubmitted", q.where(), "held events are never judged again")
        for e in sub:
            ctx.need(whole(e.term, e), RT, f"{q.qual}:resubmitted whole", q.where(e.node), "a held event is judged again without everything held with it")
        marks = [(b, caught(b)) for b in ends]
        ctx.need(any("Exception" in m_.a[1] or "BaseException" in m_.a[1] for b, ms in marks for m_ in ms), RT, f"{q.qual}:one failing entry stops no other", q.where(), "an error with one held event ends the pass over the others")
        for b, ms in marks:
            w = q.where(b.node)
            rem = [t for t in hist_calls(b) if dbop(t, store, "rem", "remAll", "trim")]
            if not ms:
                ctx.need(done(b), RT, f"{q.qual}:retried whole", w, "a held event is taken as done without being judged again")
                ctx.need(any(E.removes(t) for t in rem), RL, f"{q.qual}:removed when done", w, "an accepted event stays held")
            for m_ in ms:
                wait = could_be(ctx, m_, W, b)
                if wait:
                    ctx.need(not rem, RL, f"{q.qual}:kept while waiting", w, "an event still missing what it waits for is removed")
                else:
                    ctx.need(any(E.removes(t) for t in rem), RL, f"{q.qual}:removed when refused", w, "an event refused for good stays held")
                if wait and not only_is(ctx, m_, W, b):
                    ctx.bad(RL, f"{q.qual}:waits only for what is missing", w, "an event refused for another reason stays held")
        for e in q.w.events:
            if e.kind == "break" and e.term is E.seq:
                ctx.bad(RT, f"{q.qual}:all retried", q.where(e.node), "a pass can end before the last held event")
            if e.kind == "call" and recv(e.term) is not None and chain(recv(e.term))[-1] == store and fname(e.term) in ("rem", "remAll", "trim"):
                ctx.need(E.removes(e.term), RL, f"{q.qual}:only this entry", q.where(e.node), "another held event than the one retried is removed")
                ctx.need(done(e) or bool(caught(e)), RL, f"{q.qual}:after its retry", q.where(e.node), "a held event is removed before it was judged again")
            if e.kind == "raise" and not caught(e):
                gone = any((p and f.k == "is" and NONE in f.a and any(E.from_store(z, s, dig) for z in f.a for s in ("tvts", "ancs"))) or (not p and any(E.from_store(f, s, dig) for s in ("tvts", "ancs"))) for f, p in e.facts)
                nm = exc_name(e.value) if e.value is not None else None
                ctx.need(gone, RL, f"{q.qual}:refused with a reason", q.where(e.node), "a held event is refused though no part of it is missing")
    q = Q(ctx, VE, "Tevery.processEscrows", VB | {p[0] for p in PASS})
    for st, v, nd in q.exits():
        if caught(st):
            continue
        w = q.where(nd)
        for fn, store, W in PASS:
            ctx.need(any(fname(h) == fn and recv(h) is SELF for h in hist_calls(st)), RT, f"{q.qual}:{fn}", w, "a pass leaves out one of the escrows")
        for typ, proc, ex in NOTICES:
            ok = any(fname(h) == "processEscrowState" and chain(recv(h))[-1] == "txnsb" and arg(h, 0, "typ") is C(typ) and arg(h, 1, "processReply") is A(SELF, proc) and
                     nameof(arg(h, 2, "extype")) == ex for h in hist_calls(st))
            ctx.need(ok, RT, f"{q.qual}:{typ}", w, "a pass leaves out a kind of held notices, or retries it as another kind")


NOTICES = (("credential-mre", "processReplyCredentialTxnState", "MissingRegistryError"), ("credential-mae", "processReplyCredentialTxnState", "MissingAnchorError"),
           ("credential-ooo", "processReplyCredentialTxnState", "OutOfOrderTxnStateError"), ("registry-mae", "processReplyRegistryTxnState", "MissingAnchorError"),
           ("registry-ooo", "processReplyRegistryTxnState", "OutOfOrderTxnStateError"))


def nameof(t):
    return t.a[0] if t is not None and t.k == "g" else t.a[1] if t is not None and t.k == "a" else None


@prop("V02")
def v02_broker(ctx):
    R = "V02.notice-held"
    ctx.rule(R, "a state notice that waits is held whole: message, date, every signature, under its kind, subject and source", 4)
    D, S_ = P("diger"), P("serder")
    dk = lambda t: k_is(arg(t, 0, "keys"), A(D, "qb64"))
    q = Q(ctx, BR, "Broker.escrowStateNotice", {"put", "pin", "add"})
    for st, v, nd in q.exits():
        w = q.where(nd)
        ctx.need(did(st, "serderdb", ("put", "pin"), lambda t: dk(t) and arg(t, 1, "val") is S_), R, f"{q.qual}:message", w, "a notice is held without its message")
        ctx.need(did(st, "daterdb", ("put", "pin"), lambda t: dk(t) and arg(t, 1, "val") is P("dater")), R, f"{q.qual}:date", w, "a notice is held without its date")
        own = lambda t: k_is(arg(t, 0, "keys"), P("typ"), P("pre"), P("aid")) and (only(q, arg(t, None, "vals"), D) or arg(t, 1, "val") is D)
        ctx.need(did(st, "escrowdb", ("put", "add"), own), R, f"{q.qual}:entry", w, "a notice is held under another kind, subject or source")
        ctx.need(fname(v) in ("put", "add") and own(v), R, f"{q.qual}:result", w, "the result does not say whether the notice is newly held")
        for n in ("tsgs", "cigars"):
            ctx.need(q.holds(st, f"not {n} || {n} is None") or any(h.k == "looped" and h.a[0] is P(n) for h in st.hist), R, f"{q.qual}:{n}", w, "a notice is held without its signatures")
    for e in q.w.events:
        if e.kind == "bodyend":
            I = q.w.elem_of(e.term)
            at = q.w.mksub
            if e.term is P("tsgs"):
                ctx.need(did(e, "tigerdb", ("put", "add", "pin"), lambda t: quad_(arg(t, 0, "keys"), at, I) and arg(t, 1, "vals") is at(I, C(3))), R, f"{q.qual}:each group", q.where(e.node),
                         "a signature group of a held notice is not held, or under another event")
            elif e.term is P("cigars"):
                ctx.need(did(e, "cigardb", ("put", "add", "pin"), lambda t: dk(t) and couple_(q, arg(t, 1, "vals", "val"), I)), R, f"{q.qual}:each signature", q.where(e.node), "a signature of a held notice is not held")
        if e.kind == "iter" and e.term in (P("tsgs"), P("cigars")):
            ctx.need(q.holds(e, "x is not None || x", {"x": e.term}), R, f"{q.qual}:none given", q.where(e.node), "a notice with only one kind of signature fails instead of being held")
        if e.kind == "break":
            ctx.bad(R, f"{q.qual}:all signatures", q.where(e.node), "later signatures are not held")
    R2 = "V02.notice-filed"
    ctx.rule(R2, "an adopted state notice is filed with its date and message under its subject and source, replacing the one before", 3)
    q = Q(ctx, BR, "Broker.updateReply", {"put", "pin", "add"})
    sub = [q.term("serder.sad['a']['i']"), q.term("serder.ked['a']['i']")]
    for st, v, nd in q.exits():
        w = q.where(nd)
        ctx.need(did(st, "serderdb", ("put", "pin"), lambda t: dk(t) and arg(t, 1, "val") is S_), R2, f"{q.qual}:message", w, "an adopted notice is filed without its message")
        ctx.need(did(st, "daterdb", ("put", "pin"), lambda t: dk(t) and arg(t, 1, "val") is P("dater")), R2, f"{q.qual}:date", w, "an adopted notice is filed without its date")
        ctx.need(did(st, "saiderdb", ("pin",), lambda t: any(k_is(arg(t, 0, "keys"), norm(s), P("aid")) for s in sub) and arg(t, 1, "val") is D), R2, f"{q.qual}:index", w,
                 "an adopted notice does not replace the one before from the same source about the same subject")
    q = Q(ctx, BR, "Broker.current", {"get"})
    for st, v, nd in q.exits():
        ctx.need(dbop(v, "saiderdb", "get") and arg(v, 0, "keys") is P("keys"), R2, f"{q.qual}:lookup", q.where(nd), "the adopted notice is not looked up where it is filed")
    q = Q(ctx, BR, "Broker.removeState", {"rem", "trim"})
    for st, v, nd in q.exits():
        w = q.where(nd)
        none = q.holds(st, "not diger || diger is None")
        for s in ("cigardb", "serderdb", "daterdb"):
            ctx.need(none or did(st, s, ("rem",), dk), R2, f"{q.qual}:{s}", w, "a removed notice leaves artifacts behind")
        ctx.need(none or did(st, "tigerdb", ("trim",), lambda t: branch_(arg(t, 0, "keys", "top"))), R2, f"{q.qual}:tigerdb", w, "a removed notice's signatures stay, or others are removed")
    for e in q.calls("rem", "trim", "remAll"):
        k = arg(e.term, 0, "keys", "top")
        ctx.need(k_is(k, A(D, "qb64")) or branch_(k), R2, f"{q.qual}:only its own", q.where(e.node), "artifacts of another notice are removed")
    v02_pass(ctx)


def branch_(k):
    ks = tup(k)
    return bool(ks) and len(ks) == 2 and same(ks[0], A(P("diger"), "qb64")) and ks[1] in (C(""), C(b""))


def quad_(k, at, I):
    ks = tup(k)
    return bool(ks) and len(ks) == 4 and same(ks[0], A(P("diger"), "qb64")) and same(ks[1], A(at(I, C(0)), "qb64")) and sn_text(ks[2], at(I, C(1))) and same(ks[3], A(at(I, C(2)), "qb64"))


def couple_(q, v, I):
    got = appended(q, v)
    vs = tup(got[0][0]) if got and len(got) == 1 else tup(v)
    if vs and len(vs) == 1 and tup(vs[0]):
        vs = tup(vs[0])
    return vs == [A(I, "verfer"), I]


def v02_pass(ctx):
    R = "V02.notice-retried"
    ctx.rule(R, "each held notice of the kind is retried with its date and all its signatures, within its time limit, and leaves when adopted, refused for good or too old", 6)
    q = Q(ctx, BR, "Broker.processEscrowState", {"getTopItemIter", "fetchTsgs", "get", "rem", "removeState", "processReply", "nowUTC"}, limit=800)
    its = [e for e in q.w.events if e.kind == "iter" and dbop(e.term, "escrowdb", "getTopItemIter", "getItemIter")]
    its = [e for e in its if tup(arg(e.term, 0, "keys")) and tup(arg(e.term, 0, "keys"))[0] is P("typ") and tup(arg(e.term, 0, "keys"))[1:] in ([C("")], [C(b"")]) or
           arg(e.term, None, "topive") is TRUE and tup(arg(e.term, 0, "keys")) == [P("typ")]]
    ctx.need(bool(its), R, f"{q.qual}:every held notice", q.where(), "not every held notice of the kind is retried")
    if not its:
        return
    seq = its[0].term
    el, at = q.w.elem_of(seq), q.w.mksub
    ks, dg = at(el, C(0)), at(el, C(1))
    typ, pre, aid = [at(ks, C(i)) for i in range(3)]
    dk = lambda t: k_is(arg(t, 0, "keys"), A(dg, "qb64"))
    kp = lambda t: t is ks or k_is(t, typ, pre, aid) or k_is(t, P("typ"), pre, aid)
    rem = lambda t: dbop(t, "escrowdb", "rem") and kp(arg(t, 0, "keys")) and arg(t, 1, "val") is dg
    S_ = lambda t: dbop(t, "serderdb", "get") and dk(t)
    tg = lambda t: fname(t) == "fetchTsgs" and chain(arg(t, 0, "db") or P("?"))[-1] == "tigerdb" and arg(t, 1, "diger") is dg and arg(t, 2, "snh") in (None, NONE)

    def again(t, x):
        if t.k != "call" or t.a[0] is not P("processReply"):
            return False
        s, r = arg(t, None, "serder"), arg(t, None, "route")
        c = arg(t, None, "cigars")
        cs = appended(q, c) if c is not None else None
        okc = cs is not None
        for v, e in cs or ():
            okc = okc and v.k == "sub" and v.a[1] is C(1) and v.a[0].k == "elem" and dbop(v.a[0].a[0], "cigardb", "get") and dk(v.a[0].a[0])
        okc = okc and (bool(cs) or q.holds(x, "not c || c is None", {"c": one(x, "cigardb", dk)}))
        return S_(s) and arg(t, None, "diger") is dg and r is not None and r.k == "sub" and r.a[1] is C("r") and r.a[0] in (A(s, "ked"), A(s, "sad")) and tg(arg(t, None, "tsgs") or NONE) and okc and arg(t, None, "aid") is aid
    # the signatures' verification keys are given back
    for e in q.w.events:
        if e.kind == "bodyend" and dbop(e.term, "cigardb", "get"):
            I = q.w.elem_of(e.term)
            put = [x for x in q.w.events if x.kind in ("store", "setattr") and x.term is not None and x.term.k == "a" and x.term.a[1] == "verfer" and x.term.a[0] is at(I, C(1))]
            ctx.need(any(x.value is at(I, C(0)) for x in put) , R, f"{q.qual}:signature keys", q.where(e.node), "a held signature is retried without its key")
        if e.kind == "break":
            ctx.bad(R, f"{q.qual}:all retried", q.where(e.node), "a pass can end before the last held notice")
    for e in q.w.events:
        if e.kind == "call" and e.term.a[0] is P("processReply"):
            ctx.need(again(e.term, e), R, f"{q.qual}:retried whole", q.where(e.node), "a held notice is retried without its route, source or all its signatures")
            ctx.need(age(q, e, dk, True), R, f"{q.qual}:time limit", q.where(e.node), "a held notice is retried beyond its time limit")
    ends = [b for b in q.w.events if b.kind == "bodyend" and b.term is seq]
    for b in ends:
        ms = caught(b)
        hc = hist_calls(b)
        w = q.where(b.node)
        out = any(rem(t) for t in hc)
        if not ms:
            ctx.need(any(again(t, b) for t in hc), R, f"{q.qual}:retried", w, "a held notice is taken as done without being judged again")
            ctx.need(out, R, f"{q.qual}:leaves when adopted", w, "an adopted notice stays held")
            continue
        wait = [m for m in ms if any("extype" in str(n) for n in m.a[1])]
        prior = [m for m in ms if any("extype" in str(n) for n in (m.a[2] if len(m.a) > 2 else ()))]
        if wait and len(ms) == 1:
            ctx.need(not out, R, f"{q.qual}:kept while waiting", w, "a notice still missing what it waits for is removed")
        else:
            ctx.need(out, R, f"{q.qual}:leaves when refused", w, "a notice refused for good stays held")
    alls = [m for b in ends for m in caught(b)]
    ctx.need(any("Exception" in m.a[1] or "BaseException" in m.a[1] for m in alls), R, f"{q.qual}:one failing entry stops no other", q.where(), "an error with one held notice ends the pass over the others")
    ctx.need(any(any("extype" in str(n) for n in m.a[1]) for m in alls), R, f"{q.qual}:kept while waiting", q.where(), "a notice still missing what it waits for is removed")
    for e in q.calls("rem", "removeState", "trim", "remAll"):
        ms = caught(e)
        ctx.need(rem(e.term) or fname(e.term) == "removeState" and arg(e.term, 0, "diger") is dg and bool(ms), R, f"{q.qual}:only this entry", q.where(e.node), "another notice is removed, or an adopted notice's artifacts are")
        ctx.need(bool(ms) or any(again(h, e) for h in hist_calls(e)), R, f"{q.qual}:after its retry", q.where(e.node), "a held notice is removed before it was judged again")
    for e in q.w.events:
        if e.kind == "raise" and not caught(e):
            d, s, c = (one(e, n, dk) for n in ("daterdb", "serderdb", "cigardb"))
            g = reads(e, tg)
            gone = g and q.holds(e, "not (d and s and (g or c)) || not d || not s || not g", {"d": d, "s": s, "c": c, "g": g[0]})
            ctx.need(bool(gone) or age(q, e, dk, False), R, f"{q.qual}:refused with a reason", q.where(e.node), "a held notice is refused for good though nothing of it is missing and it is not too old")


def one(x, store, dk):
    got = reads(x, lambda t: dbop(t, store, "get") and dk(t))
    return got[0] if got else P("?")


def age(q, e, dk, young):
    ds = [A(t, "datetime") for t in reads(e, lambda t: dbop(t, "daterdb", "get") and dk(t))]
    nows = reads(e, lambda t: fname(t) in ("nowUTC", "now", "utcnow"))
    lim = "datetime.timedelta(seconds=self.timeout)"
    srcs = [f"n - d <= {lim}", f"n - d < {lim}", f"n <= d + {lim}", "(n - d).total_seconds() <= self.timeout"] if young else \
        [f"n - d > {lim}", f"n - d >= {lim}", f"n > d + {lim}", "(n - d).total_seconds() > self.timeout"]
    return any(q.holds(e, s, {"d": d, "n": n}) for d in ds for n in nows for s in srcs)


HANDLED = {"registry-mae": "MissingAnchorError", "registry-ooo": "OutOfOrderTxnStateError", "credential-mre": "MissingRegistryError", "credential-mae": "MissingAnchorError", "credential-ooo": "OutOfOrderTxnStateError"}


@prop("V02")
def v02_notice(ctx):
    R = "V02.notice"
    ctx.rule(R, "a state notice is adopted only when its verified signer is the issuer, a backer or witness, or an own watcher, and the accepted event at its number is the one it names", 12)
    RW = "V02.notice-waits"
    ctx.rule(RW, "a state notice whose issuer, registry or event is not known yet is held, asked for and reported as waiting for just that", 8)
    RF = "V02.notice-newer"
    ctx.rule(RF, "an adopted state notice is replaced only by a later one", 1)
    OP = TB | {"current", "escrowStateNotice", "updateReply", "acceptReply"}
    for which, (fn, rec) in REGK.items():
        q = Q(ctx, VE, "Tevery." + fn, OP, limit=1500)
        D, at = q.term("serder.ked['a']"), q.w.mksub
        AIDK = at(P("kwargs"), C("aid"))
        ks = [t for e in q.w.events for t in terms_of(e) if fname(t) == rec]
        ks = [t for t in ks if any(k == "**" and v is D for k, v in t.a[2]) or arg(t, 0) is D]
        ctx.need(bool(ks), R, f"{q.qual}:record", q.where(), "the notice is not read from the reply's data")
        if not ks:
            continue
        K = ks[0]
        reg = which == "registry"
        tv = q.term("self.tevers[K.ri]", {"K": K})
        env = {"K": K, "aid": AIDK, "tv": tv}
        sub = A(K, "i")
        num = q.term("int(K.s, 16)", env)
        pre = A(K, "ii") if reg else A(tv, "pre")
        env["pre"] = pre
        known = ("pre in self.kevers",) if reg else ("pre in self.kevers", "K.ri in self.tevers")
        def isacc(t, x):
            return fname(t) == "acceptReply" and arg(t, None, "serder") is S and arg(t, None, "saider") is P("diger") and arg(t, None, "aid") is AIDK and arg(t, None, "route") is P("route") and \
                same_or_list(arg(t, None, "cigars"), "cigars", q, x) and same_or_list(arg(t, None, "tsgs"), "tsgs", q, x)
        acc = lambda x: [t for t in terms_of(x) if isacc(t, x)]
        at_sn = lambda x: reads(x, lambda t: dbop(t, "tels", "get") and same(arg(t, 0, "keys"), sub) and arg(t, None, "on") is num)

        def nobak(x, p):
            if reg:
                return any(f.k == "in" and f.a[1] is A(K, "c") and z is p for f, z in x.facts)
            return any(f is A(tv, "noBackers") and z is p for f, z in x.facts)

        def watch(t):
            return t.k in ("phi", "hv", "new") or any(z.k == "a" and z.a[1] == "watchers" for z in subterms(t))

        def sources(x, t):
            """backers or witnesses as the registry says, or own watchers"""
            if t is q.term("self.kevers[pre].wits", env):
                return nobak(x, True)
            if t is (A(K, "b") if reg else A(tv, "baks")):
                return nobak(x, False)
            return watch(t)

        def trusted_(x):
            lit = lambda f: f is q.term("self.lax") or f.k == "eq" and set(f.a) == {AIDK, pre} or f.k == "in" and f.a[0] is AIDK and sources(x, f.a[1])
            return any(p and lit(f) for f, p in x.facts) or any(all(p and lit(f) for f, p in c) for c in x.clauses)
        for e in q.calls("acceptReply"):
            ctx.need(isacc(e.term, e), R, f"{q.qual}:signer", q.where(e.node), "a notice is checked without its signatures, or against another identifier than its source")
            o = arg(e.term, None, "osaider")
            ctx.need(o is not None and fname(o) == "current" and k_is(arg(o, 0, "keys"), sub, AIDK), RF, f"{q.qual}:one before", q.where(e.node), "a notice is not compared with the one adopted before from its source")
        ups = q.calls("updateReply")
        ctx.need(bool(ups), R, f"{q.qual}:adopted", q.where(), "no notice is ever adopted")
        for e in ups:
            w = q.where(e.node)
            t = e.term
            ctx.need(any(holds(e, z) for z in acc(e)), R, f"{q.qual}:signature", w, "a notice is adopted without a verified signature of its source")
            ctx.need(trusted_(e), R, f"{q.qual}:source", w, "a notice is adopted from a source that is neither the issuer, its backers or witnesses, nor an own watcher")
            ctx.need(all(q.holds(e, k, env) for k in known), R, f"{q.qual}:known issuer", w, "a notice is adopted though its issuer or registry is not known")
            evs = at_sn(e)
            ctx.need(any(q.holds(e, "l is not None || l", {"l": l}) for l in evs), R, f"{q.qual}:known event", w, "a notice is adopted though the event at its number is not known")
            good = False
            for f, p in e.facts:
                if p and f.k == "eq":
                    for a, b in (f.a, f.a[::-1]):
                        if norm(a) is norm(A(K, "d")) or prim(a.a[0]) is A(K, "d") and a.k == "a":
                            src = set(subterms(b))
                            l_ = [l for l in evs if l in src]
                            good = good or bool(l_) and (b.k == "a" and b.a[1] in ("said", "saidb") and any(dbop(z, "tvts", "get") and keyparts(arg(z, 0, "keys")) and keyparts(arg(z, 0, "keys"))[0] is sub and norm(keyparts(arg(z, 0, "keys"))[-1]) is norm(l_[0]) for z in src) or norm(b) is norm(l_[0]))
            ctx.need(good, R, f"{q.qual}:event named", w, "a notice is adopted though the accepted event at its number is another one")
            if reg:
                ctx.need(q.holds(e, "K.i not in self.tevers", env) or q.holds(e, "int(K.s, 16) >= self.tevers[K.i].sn", env) or q.holds(e, "self.tevers[K.i].sn <= int(K.s, 16)", env), R, f"{q.qual}:not stale", w,
                         "a notice older than the known registry state is adopted")
            else:
                ctx.need(q.holds(e, "'s' not in K.ra or int(K.ra['s'], 16) <= tv.sn", env) or q.holds(e, "'s' not in K.ra", env) or q.holds(e, "int(K.ra['s'], 16) <= tv.sn", env), R, f"{q.qual}:registry state", w,
                         "a notice is adopted though the registry's state it relies on is not known")
            ctx.need(arg(t, 0, "aid") is AIDK and arg(t, 1, "serder") is S and dated(arg(t, 3, "dater"), S), R, f"{q.qual}:as signed", w, "another notice, source or date than the signed one is filed")
            ctx.need(arg(t, 2, "diger") is P("diger") or same(prim(arg(t, 2, "diger")), A(S, "said")), RF, f"{q.qual}:filed under its digest", w,
                     "the adopted notice is filed under another digest than its own: the next one is not compared with its date")
        for st, v, nd in q.exits():
            ctx.need(called_before(st, lambda t: fname(t) == "updateReply"), R, f"{q.qual}:adopted", q.where(nd), "a notice that passes every check is not adopted")
            ctx.need(any(is_cued(t, "txnStateSaved") and any(z is K for z in subterms(t)) for t in hist_calls(st)), R, f"{q.qual}:announced", q.where(nd), "an adopted notice is not announced")
        wt = [e for e in q.w.events if e.kind in ("aug", "call") and e.term is not None and any(
            z.k == "a" and z.a[1] == "watchers" for x in (e.term, e.value) if isinstance(x, T) for z in subterms(x)) and (e.kind == "aug" or fname(e.term) in ("update", "add", "extend", "union"))]
        ctx.need(bool(wt), R, f"{q.qual}:own watchers", q.where(), "the controller's own watchers are not trusted")
        # waiting
        why = {"mre": lambda x: not reg and q.holds(x, "K.ri not in self.tevers || 's' in K.ra and tv.sn < int(K.ra['s'], 16) || K.ri not in self.tevers or tv.sn < int(K.ra['s'], 16) || K.ri not in self.tevers or tv.sn < 0", env),
               "mae": lambda x: q.holds(x, "pre not in self.kevers", env),
               "ooo": lambda x: any(q.holds(x, "l is None || not l", {"l": l}) for l in at_sn(x)) and any(holds(x, z) for z in acc(x))}

        def hold(t, x, suffix=None):
            typ = arg(t, None, "typ")
            if fname(t) != "escrowStateNotice" or typ is None or not iscon(typ) or not str(typ.a[0]).startswith(which):
                return False
            sfx = typ.a[0].split("-")[-1]
            return typ.a[0] in HANDLED and (suffix is None or sfx == suffix) and why[sfx](x) and arg(t, None, "pre") is sub and arg(t, None, "aid") is AIDK and arg(t, None, "serder") is S and \
                arg(t, None, "diger") is P("diger") and dated(arg(t, None, "dater"), S) and same_or_list(arg(t, None, "cigars"), "cigars", q, x) and same_or_list(arg(t, None, "tsgs"), "tsgs", q, x)
        es = q.calls("escrowStateNotice")
        want = {k for k in HANDLED if k.startswith(which)}
        got = set()
        for e in es:
            ok = hold(e.term, e)
            ctx.need(ok, RW, f"{q.qual}:held whole", q.where(e.node), "a notice is held without all that came with it, as another kind, or though nothing is missing")
            if ok:
                got.add(arg(e.term, None, "typ").a[0])
        ctx.need(got == want, RW, f"{q.qual}:kinds", q.where(), "a notice waiting for something is not held")
        for kind in want:
            sfx = kind.split("-")[-1]
            rs = raises_named(q, {HANDLED[kind]})
            ctx.need(bool(rs), RW, f"{q.qual}:{kind} reported", q.where(), "a waiting notice is not reported as waiting for what it waits for: its retry drops it")
            for st, nd in rs:
                h = [t for t in hist_calls(st) if hold(t, st, sfx)]
                ctx.need(bool(h), RW, f"{q.qual}:{kind}", q.where(nd), "a notice is reported as waiting without being held")
                if h and not holds(st, h[0], False):
                    c = [t for t in hist_calls(st) if is_cued(t, "query") or is_cued(t, "telquery")]
                    wantq = {"mre": [C("telquery"), A(K, "ri")], "mae": [C("query"), pre], "ooo": [C("telquery"), sub] + ([] if reg else [A(K, "ri")])}[sfx]
                    ctx.need(any(all(z in set(subterms(t)) for z in wantq) for t in c), RW, f"{q.qual}:{kind} asked for", q.where(nd), "what a held notice waits for is not asked for")
        for st, nd in raises_named(q, {"UnverifiedReplyError"}):
            ctx.need(any(holds(st, z, False) for z in acc(st)), R, f"{q.qual}:put off only when not accepted", q.where(nd), "an accepted notice is reported as unverified")
        for st, nd in raises_named(q, {"UntrustedKeyStateSource"}):
            ctx.need(q.holds(st, "not self.lax and aid != pre", env) and sum(1 for f, p in st.facts if not p and f.k == "in" and f.a[0] is AIDK and sources(st, f.a[1])) >= 2, R, f"{q.qual}:refused only when untrusted",
                     q.where(nd), "a notice of the issuer, a backer or witness, or an own watcher is refused as untrusted")
        differs = lambda st: any(not p and f.k == "eq" and (norm(A(K, "d")) in {norm(z) for z in f.a} or any(A(K, "d") in set(subterms(z)) for z in f.a)) for f, p in st.facts)
        older = ["K.i in self.tevers and int(K.s, 16) < self.tevers[K.i].sn"] if reg else [lambda st: any(q.holds(st, "n < x.sn", {"n": num, "x": z}) for z in reads(st, lambda t: fname(t) == "SerderKERI"))]
        refuses_only(q, R, ["not route.startswith('/tsn')", differs] + older, "a notice that its handler supports is refused", ("ValidationError",), env)


@prop("V02")
def v02_routes(ctx):
    R = "V02.routes"
    ctx.rule(R, "registry and credential state notices and queries reach their handlers", 2)
    q = Q(ctx, VE, "Tevery.registerReplyRoutes", TB | {"addRoute"})
    got = {}
    for e in q.calls("addRoute"):
        tpl, sfx = arg(e.term, 0, "routeTemplate"), arg(e.term, 2, "suffix")
        if iscon(tpl) and sfx is not None and iscon(sfx):
            got[tpl.a[0]] = (sfx.a[0], e, arg(e.term, 1, "resource") is SELF)
    for k, v in (("/tsn/registry/{aid}", "RegistryTxnState"), ("/tsn/credential/{aid}", "CredentialTxnState")):
        ctx.need(k in got and got[k][0] == v and got[k][2], R, f"{q.qual}:{k}", q.where(got[k][1].node if k in got else None), "a notice route is not registered with its handler")
    R = "V02.query"
    ctx.rule(R, "a query for a registry or credential log is answered with that whole log, and a state query with the current state", 4)
    q = Q(ctx, VE, "Tevery.processQuery", TB | {"clonePreIter", "state", "vcState"}, limit=600)
    Y, at = q.term("serder.ked['q']"), q.w.mksub
    ri, vi = at(Y, C("ri")), at(Y, C("i"))
    for e in q.calls("clonePreIter"):
        ctx.need(arg(e.term, 0, "pre") in (ri, vi) and arg(e.term, 1, "fn") in (None, C(0)), R, f"{q.qual}:log asked for", q.where(e.node), "another log than the one asked for is sent, or only part of it")
    for e in q.w.events:
        if e.kind == "bodyend" and fname(e.term) == "clonePreIter":
            I = q.w.elem_of(e.term)
            ctx.need(any(fname(h) in ("append", "extend") and arg(h, 0) is I for h in hist_calls(e)), R, f"{q.qual}:whole log", q.where(e.node), "an event of the log asked for is not sent")
        if e.kind == "break":
            ctx.bad(R, f"{q.qual}:whole log", q.where(e.node), "an event of the log asked for is not sent")
    n = n2 = 0
    for st, v, nd in q.exits():
        w = q.where(nd)
        hc = hist_calls(st)
        ctx.need(q.holds(st, "serder.ked['r'] == 'tels' or serder.ked['r'] == 'tsn'"), R, f"{q.qual}:unsupported", w, "an unsupported query is taken as answered")
        if q.holds(st, "serder.ked['r'] == 'tels'"):
            n += 1
            ctx.need(any(fname(t) == "clonePreIter" and arg(t, 0, "pre") is ri for t in hc), R, f"{q.qual}:registry log", w, "a query for a log is not answered with the registry's log")
            ctx.need(q.holds(st, "not x || x is None", {"x": vi}) or any(fname(t) == "clonePreIter" and arg(t, 0, "pre") is vi for t in hc), R, f"{q.qual}:credential log", w,
                     "a query for a credential's log is not answered with it")
            out = {recv(t) for t in hc if fname(t) in ("append", "extend") and recv(t) is not None and recv(t).k in ("new", "phi", "hv")} | {
                h.a[0] for b in q.w.events if b.kind == "bodyend" and fname(b.term) == "clonePreIter" for z in hist_calls(b) if fname(z) in ("append", "extend") for h in [mk("w", recv(z))]}
            cue = [t for t in hc if is_cued(t, "replay") and any(z in out for z in subterms(t)) and any(z.k == "a" and z.a[1] == "qb64" and "source" in show(z) or "verfer" in show(z) for z in subterms(t))]
            ctx.need(bool(cue) or any(not p and f.k in ("new", "phi", "hv") for f, p in st.facts), R, f"{q.qual}:answered", w, "a query for a log that is held is not answered")
        elif q.holds(st, "serder.ked['r'] == 'tsn'") and q.holds(st, "x in self.tevers", {"x": ri}):
            tv = q.term("self.tevers[x]", {"x": ri})
            data = lambda r, m: any(is_cued(t, "reply") and C(r) in set(subterms(t)) and any(fname(z) == m and recv(z) is tv for z in subterms(t)) for t in hc)
            n2 += 1
            ctx.need(data("/tsn/registry", "state"), R, f"{q.qual}:registry state", w, "a state query is not answered with the registry's state")
            vs = reads(st, lambda t: fname(t) == "vcState" and recv(t) is tv and arg(t, 0, "vci") is vi)
            ctx.need(data("/tsn/credential", "vcState") or q.holds(st, "not x || x is None", {"x": vi}) or any(q.holds(st, "not x || x is None", {"x": z}) for z in vs), R, f"{q.qual}:credential state", w,
                     "a state query is not answered with the credential's state")
    ctx.need(n and n2, R, f"{q.qual}:kinds", q.where(), "one kind of query is not answered")
    refuses_only(q, R, ["serder.ked['r'] != 'tels' and serder.ked['r'] != 'tsn'"], "a supported query is refused")
