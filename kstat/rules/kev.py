"""Kevery: routing of arriving events, holding, receipts."""
from . import prop
from .corelib import *
from .kel import maybe, KB, ICP, ROT, before
from .kel2 import OWN, MEM, is_elem, pos
from .kel3 import kept_flag, esr_rules, stored_with, from_param

S = P("serder")
KEVER = "self.kevers[serder.pre]"
UNKNOWN = "serder.pre not in self.kevers"
SAME = ("self.kevers[serder.pre]", "self.db.kevers[serder.pre]")


def src_flag(q, e, got):
    """got has the truth of: the given source, or the default source of this processor when none is given"""
    want = "local or local is None and self.local"
    if got is None:
        return False
    if got is TRUE:
        return q.holds(e, want)
    if got is FALSE or got is NONE:
        return q.holds(e, f"not ({want})")
    if got is P("local"):
        return q.holds(e, "local is not None")
    if got is q.term("self.local"):
        return q.holds(e, "local is None")
    return equivalent(e, got, q.term(want))


def sigers_of(q, got, e):
    """got is the signatures given, or none of them when none were given"""
    if got is None or got is P("sigers"):
        return got is not None
    empty = got.k == "new" and not (len(got.a) > 2 and got.a[2]) or got.k in ("list", "tup") and not got.a[0]
    return empty and (q.holds(e, "sigers is None") or q.holds(e, "not sigers"))


def is_cue(t, kin, what=None):
    """t pushes a cue of this kind about the event"""
    if fname(t) not in ("push", "append") or recv(t) is None or recv(t).k != "a" or recv(t).a[1] != "cues":
        return False
    d = t.a[1][0] if t.a[1] else arg(t, 0, "attrs", "item", "e")
    p = call_parts(d) if d is not None else None
    kw = dict(p[2]) if p is not None else {}
    if d is not None and d.k == "dict":
        kw = {(k.a[0] if k.k == "c" else None): v for k, v in d.a[0]} if d.a and isinstance(d.a[0], tuple) else {}
    return kw.get("kin") is C(kin) and kw.get("serder") is (what or S)


def pushed(st, kin, what=None):
    """a cue of this kind about the event was pushed on every path to here"""
    return called_before(st, lambda t: is_cue(t, kin, what))


@prop("K08")
def k08(ctx):
    R1 = "K08.accept"
    ctx.rule(R1, "an event becomes part of an identifier's state only through full validation: as the inception of an unknown identifier, or as an "
                 "update in order or superseding, with everything that arrived with it", 20)
    R2 = "K08.repeat"
    ctx.rule(R2, "an event at an already taken place changes nothing unless it is the accepted event itself, and then only verified signatures are added", 6)
    R3 = "K08.hold"
    ctx.rule(R3, "an out of order event is held whole and reported so; a different event at a taken place is held as likely duplicitous and reported so", 6)
    R4 = "K08.outcome"
    ctx.rule(R4, "every arriving event ends accepted, recognised as a repeat, or refused with an error", 4)
    R5 = "K08.response"
    ctx.rule(R5, "an accepted event is answered by the cue its processing mode calls for", 4)
    q = Q(ctx, EV, "Kevery.processEvent", KB | {"Kever", "update"}, limit=2000)
    kev = [q.term(x) for x in SAME]
    news, ups = q.calls("Kever"), [e for e in q.calls("update") if recv(e.term) in kev]
    others = [e for e in q.calls("update") if recv(e.term) not in kev and recv(e.term) is not None and recv(e.term).k != "new"]

    def args(inst, events, extra):
        for e in events:
            for k, ok in (("serder", lambda t: t is S), ("sigers", lambda t, e=e: sigers_of(q, t, e)), ("wigers", lambda t: t is P("wigers")), ("delsner", lambda t: t is P("delsner")),
                          ("delsger", lambda t: t is P("delsger")), ("eager", lambda t: t is P("eager")), ("check", lambda t: t is q.term("self.check")),
                          ("local", lambda t, e=e: src_flag(q, e, t))) + extra:
                ctx.need(ok(arg(e.term, None, k)), R1, f"{q.qual}:{inst}:{k}", q.where(e.node), f"an arriving event is judged with {k} "
                         f"{show(arg(e.term, None, k))[:60] if arg(e.term, None, k) is not None else 'missing'}")
            for k in ("firner", "dater"):
                got = arg(e.term, None, k)
                ctx.need(got is P(k) and q.holds(e, "self.cloned") or got in (NONE, None) and q.holds(e, "not self.cloned"), R1, f"{q.qual}:{inst}:{k}", q.where(e.node),
                         f"replay data ({k}) is used outside a cloned replay, or dropped in one")
    require(q, R1, "inception", news, [("unknown identifier", UNKNOWN), ("inception event", ICP)], "a new identifier's state")
    args("inception", news, (("db", lambda t: t is q.term("self.db")), ("cues", lambda t: t is q.term("self.cues"))))
    require(q, R1, "update", ups, [
        ("known identifier", "serder.pre in self.kevers"), ("in order or superseding", lambda e: any(q.holds(
            e, "serder.sn == k.sner.num + 1 or serder.ilk == Ilks.rot and k.lastEst.s < serder.sn and serder.sn <= k.sner.num + 1 or "
               "serder.ilk == Ilks.drt and k.lastEst.s <= serder.sn and serder.sn <= k.sner.num + 1", {"k": k}) for k in kev))], "an update of an identifier's state")
    args("update", ups, ())
    ctx.need(not others, R1, f"{q.qual}:own state updated", q.where(others[0].node if others else None), "the state of another identifier is updated")
    # both kinds of superseding and the next event do reach the update
    for lab, src in (("next event", "serder.sn == k.sner.num + 1 and serder.ilk == Ilks.ixn"), ("next rotation", "serder.sn == k.sner.num + 1 and serder.ilk == Ilks.rot"), ("recovery rotation", "serder.ilk == Ilks.rot and k.lastEst.s < serder.sn and serder.sn <= k.sner.num"),
                     ("superseding delegated rotation", "serder.ilk == Ilks.drt and k.lastEst.s <= serder.sn and serder.sn <= k.sner.num")):
        ctx.need(any(maybe(e, q.term(src, {"k": recv(e.term)})) for e in ups), R1, f"{q.qual}:update reached by {lab}", q.where(), f"a {lab} never reaches the update of its identifier's state")
    # registration
    regs = [e for e in q.w.events if e.kind == "setitem" and e.term.a[0] in (q.term("self.kevers"), q.term("self.db.kevers"))]
    require(q, R1, "registered", regs, [("under its own identifier", lambda e: unwrap(e.term.a[1]) in (q.term("serder.pre"),)),
                                       ("only after validation", lambda e: e.value is not None and fname(e.value) == "Kever" and called_before(e, lambda t: fname(t) == "Kever"))],
            "a new identifier's state")
    # repeats
    logs = q.calls("logEvent")

    def est(e):
        return [t for t in terms_of(e) if fname(t) == "fetchEstEvent" and q.holds(e, "x.said == serder.said", {"x": t}) and q.holds(e, ICP)] + \
               [t for t in terms_of(e) if fname(t) == "getLast" and dbop(t, "kels", "getLast") and q.holds(e, "x == serder.said", {"x": t})
                and is_pre(arg(t, 0, "keys"), S) and is_sn(arg(t, 1, "on"), S)]

    def vsigs(e, k, ver):
        got = arg(e.term, None, k)
        if got is None:
            return False
        for t in subterms(got):
            if fname(t) == "verifySigs":
                raw, vf = arg(t, 0, "raw"), arg(t, 2, "verfers")
                ok = raw is q.term("serder.raw") and got is q.w.mksub(t, C(0)) and ver(e, vf)
                src = arg(t, 1, "sigers")
                return ok and (sigers_of(q, src, e) if k == "sigers" else src is P("wigers"))
        return False

    def estkeys(e, vf):
        return vf is not None and vf.k == "a" and vf.a[1] == "verfers" and fname(vf.a[0]) == "fetchEstEvent" and is_pre(arg(vf.a[0], 0, "pre"), S) and is_sn(arg(vf.a[0], 1, "sn"), S)

    def witkeys(e, vf):
        if vf is None:
            return False
        if vf.k == "a" and vf.a[1] == "berfers" and fname(vf.a[0]) == "fetchEstEvent":
            return q.holds(e, ICP) and is_pre(arg(vf.a[0], 0, "pre"), S) and is_sn(arg(vf.a[0], 1, "sn"), S)
        got = appended(q, vf)
        if not got:
            return False
        fw = [t for x, ev in got for t in subterms(x) if fname(t) == "fetchWitnessState"]
        fw += [t for x, ev in got for s in subterms(x) for y, e2 in (appended(q, s) or []) for t in subterms(y) if fname(t) == "fetchWitnessState"]
        fw += [t for t in subterms(vf) if fname(t) == "fetchWitnessState"]
        for x, ev in got:
            for s in subterms(x):
                if s.k == "elem":
                    for y, e2 in (appended(q, s.a[0]) or []):
                        fw += [t for t in subterms(y) if fname(t) == "fetchWitnessState"]
        return bool(fw) and all(is_pre(arg(t, 0, "pre"), S) and is_sn(arg(t, 1, "sn"), S) for t in fw) and all(
            fname(x) == "Verfer" and arg(x, None, "qb64") is not None and any(s.k == "elem" for s in subterms(arg(x, None, "qb64"))) for x, ev in got)
    require(q, R2, "repeat logged", logs, [
        ("only the accepted event itself", lambda e: bool(est(e))), ("known identifier", "serder.pre in self.kevers"),
        ("in its own identifier's log", lambda e: recv(e.term) in kev and arg(e.term, 0, "serder") is S),
        ("only verified signatures", lambda e: vsigs(e, "sigers", estkeys)), ("only verified witness signatures", lambda e: vsigs(e, "wigers", witkeys)),
        ("never as first seen", lambda e: arg(e.term, None, "first") in (None, FALSE)),
        ("with its own source", lambda e: src_flag(q, e, arg(e.term, None, "local")))], "a repeated event")
    for lab, src in (("inception", ICP), ("later event", f"not ({ICP})")):
        ctx.need(any(maybe(e, q.term(src)) for e in logs), R2, f"{q.qual}:late signatures of {lab}", q.where(), "signatures arriving late with a repeated event are never added")
    # holding and refusing
    oo, ld = q.calls("escrowOOEvent"), q.calls("escrowLDEvent")
    later = lambda e: any(q.holds(e, "serder.sn > k.sner.num + 1", {"k": k}) for k in kev)
    require(q, R3, "out of order held", oo, [
        ("when early", lambda e: q.holds(e, f"{UNKNOWN} and not ({ICP})") or later(e) and q.holds(e, f"not ({ICP})")),
        ("whole", lambda e: arg(e.term, 0, "serder") is S and sigers_of(q, arg(e.term, 1, "sigers"), e) and all(arg(e.term, None, k) is P(k) for k in ("delsner", "delsger", "wigers"))),
        ("with its own source", lambda e: src_flag(q, e, arg(e.term, None, "local")))], "an out of order event")
    require(q, R3, "likely duplicitous held", ld, [
        ("at a place already reached", lambda e: q.holds(e, ICP) or any(q.holds(e, "serder.sn <= k.sner.num + 1", {"k": k}) for k in kev)),
        ("a different event at a taken place", lambda e: any(q.holds(e, "x.said != serder.said", {"x": t}) for t in terms_of(e) if fname(t) == "fetchEstEvent") and q.holds(e, ICP) or
         any(q.holds(e, "x != serder.said", {"x": t}) for t in terms_of(e) if dbop(t, "kels", "getLast"))),
        ("whole", lambda e: arg(e.term, 0, "serder") is S and sigers_of(q, arg(e.term, 1, "sigers"), e)),
        ("with its own source", lambda e: src_flag(q, e, arg(e.term, None, "local")))], "a likely duplicitous event")
    for st, n in raises_named(q, {"OutOfOrderError"}):
        ctx.need(before("escrowOOEvent")(st), R3, f"{q.qual}:out of order only after holding", q.where(n), "an out of order event is refused without being held")
    for st, n in raises_named(q, {"LikelyDuplicitousError"}):
        ctx.need(before("escrowLDEvent")(st), R3, f"{q.qual}:duplicitous only after holding", q.where(n), "a likely duplicitous event is refused without being held")
    ctx.need(bool(raises_named(q, {"OutOfOrderError"})) and bool(raises_named(q, {"LikelyDuplicitousError"})), R3, f"{q.qual}:reported", q.where(),
             "an out of order or duplicitous event is not reported")
    for e in q.calls("push"):
        for kin, src in (("receipt", "self.direct or self.lax or serder.pre not in self.prefixes"), ("notice", "not self.direct and not self.lax and serder.pre in self.prefixes")):
            if is_cue(e.term, kin):
                ctx.need(q.holds(e, src), R5, f"{q.qual}:{kin} only when due", q.where(e.node), f"a {kin} is cued for an event whose processing mode does not call for it")
        if is_cue(e.term, "witness"):
            ctx.need(q.holds(e, "self.local") and any(holds(e, t) for t in terms_of(e) if fname(t) == "locallyWitnessed"), R5, f"{q.qual}:witness only when due", q.where(e.node),
                     "witnessing is cued though the event's identifier is not locally witnessed")
    # outcomes
    isnew = lambda t: fname(t) == "Kever"
    isup = lambda t: fname(t) == "update" and recv(t) in kev
    for st, v, node in q.exits():
        acc_new, acc_up = called_before(st, isnew), called_before(st, isup)
        reg = any(h.k == "setitem" and h.a[0].k == "sub" and h.a[0].a[0] in (q.term("self.kevers"), q.term("self.db.kevers")) for h in st.hist)
        ctx.need(acc_up or acc_new or bool(est(st)), R4, f"{q.qual}:ends", q.where(node), "an event that is neither accepted nor a repeat of an accepted one ends without error")
        ctx.need(not acc_new or reg or called_before(st, lambda t: fname(t) in ("update", "setdefault") and recv(t) in (q.term("self.kevers"), q.term("self.db.kevers"))), R4,
                 f"{q.qual}:registered", q.where(node), "an accepted inception's state is not registered")
        if not (acc_new or acc_up) and est(st):
            vs = [t for t in terms_of(st) if fname(t) == "verifySigs"]
            logged = called_before(st, lambda t: fname(t) == "logEvent" and recv(t) in kev)
            got = {k: [q.w.mksub(t, C(0)) for t in vs if (arg(t, 1, "sigers") is P("wigers")) == (k == "w")] for k in "sw"}
            ctx.need(logged or all(any(holds(st, NOTT(t)) for t in got[k]) for k in "sw"), R2, f"{q.qual}:late signatures added", q.where(node),
                     "verified signatures arriving late with a repeated event are not added")
        if acc_new or acc_up:
            own = "self.direct or self.lax or serder.pre not in self.prefixes"
            ctx.need(pushed(st, "receipt") if q.holds(st, own) else pushed(st, "notice") if q.holds(st, f"not ({own})") else pushed(st, "receipt") or pushed(st, "notice"), R5,
                     f"{q.qual}:receipted", q.where(node), "an accepted event of another controller is not cued for a receipt (or notice)")
            wk = [t for t in terms_of(st) if fname(t) == "locallyWitnessed"]
            w = pushed(st, "witness")
            ctx.need(w or q.holds(st, "not self.local") or any(holds(st, NOTT(t)) for t in wk), R5, f"{q.qual}:witnessed", q.where(node),
                     "an accepted event that is locally witnessed is not cued for witnessing")



@prop("K08")
def k08_held(ctx):
    R = "K08.held"
    ctx.rule(R, "an event that arrived early, misfit or likely duplicitous is held with its date, source, signatures and seal, under its own identifier and sequence number", 12)
    for nm, store, opts, seal in (("escrowMFEvent", "misfits", ("sigers", "wigers"), ("number", "diger")), ("escrowOOEvent", "ooes", ("sigers", "wigers"), ("delsner", "delsger")),
                                  ("escrowLDEvent", "ldes", ("sigers",), None)):
        q = Q(ctx, EV, f"Kevery.{nm}", KB - {nm}, limit=1000)
        what = f"event held in {store}"
        stored_with(q, R, what, tuple((o, {"sigers": "sigs", "wigers": "wigs"}[o]) for o in opts))
        esr_rules(q, R, what)
        for st, v, node in q.exits():
            ctx.need(did(st, store, ("add", "append"), lambda t: is_onkey(arg(t, 0, "keys"), S, arg(t, None, "on")) and is_said(arg(t, 2 if "on" in call_parts(t)[2] else 1, "val"), S)),
                     R, f"{q.qual}:added to {store}", q.where(node), f"the event is not added to the escrow {store} under its own identifier and sequence number")
            if seal:
                a, b = seal
                ctx.need(did(st, "udes", ("put", "pin"), lambda t: is_dgkey(arg(t, 0, "keys"), S) and tup(arg(t, 1, "val")) == [P(a), P(b)]) or
                         q.holds(st, f"not {a} or not {b}"), R, f"{q.qual}:seal stored", q.where(node), f"{what}: the given delegation seal is not kept")
        oth = [e for e in q.calls("add", "append") if chain(recv(e.term))[-2:-1] == ("db",) and chain(recv(e.term))[-1] not in (store, "sigs", "wigs", "cues")]
        ctx.need(not oth, R, f"{q.qual}:only its escrow", q.where(oth[0].node if oth else None), "the event is also put into another escrow or log")
