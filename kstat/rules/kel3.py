"""Kever: protection of locally controlled identifiers, first-seen log, escrow of incomplete events."""
from . import prop
from .corelib import *
from .kel import maybe, KB, ICP, ROT, before
from .kel2 import OWN, MEM, is_elem

S = P("serder")


@prop("K06")
def k06(ctx):
    R1 = "K06.remote-misfit"
    ctx.rule(R1, "an event from a non-local source for an identifier that is locally owned, witnessed or delegated is never validated, "
                 "only held aside", 4)
    R2 = "K06.member-signatures"
    ctx.rule(R2, "signatures attributed to a local group member are taken only from a local source", 2)
    R3 = "K06.predicates"
    ctx.rule(R3, "what counts as locally owned, member, witnessed or delegated follows the habitat's own lists", 6)
    R4 = "K06.source-kept"
    ctx.rule(R4, "whether an event came from a local source is handed unchanged to the check", 2)
    q = Q(ctx, EV, "Kever.valSigsWigsDel", KB)
    for st, v, node in q.exits():
        tt = tup(v)
        dp = tt[2] if tt and len(tt) == 5 else NONE
        ctx.need(any(q.holds(st, f"local or not ({OWN} or self.locallyWitnessed(wits=wits) or self.locallyDelegated(pre={d}))", {"x": dp}) for d in (
            ["x"] + ([] if dp is not NONE else ["None"]))), R1, "Kever.valSigsWigsDel:local source", q.where(node),
            "a remote event of a locally owned, witnessed or delegated identifier is validated")
    for st, n in raises_named(q, {"MisfitEventSourceError"}):
        ctx.need(q.holds(st, "not local"), R1, "Kever.valSigsWigsDel:only remote refused", q.where(n), "an event from a local source is refused as misfit")
        ctx.need(q.holds(st, f"{OWN} or self.locallyWitnessed(wits=wits)") or any(p and fname(t) == "locallyDelegated" for t, p in st.facts) or
                 any(any(fname(t) == "locallyDelegated" and p for t, p in c) for c in st.clauses),
                 R1, "Kever.valSigsWigsDel:only local identifiers refused", q.where(n), "an event of an identifier that is not locally controlled is refused as misfit")
        ctx.need(before("escrowMFEvent", lambda t: arg(t, 0, "serder") is S)(st), R1, "Kever.valSigsWigsDel:misfit held aside", q.where(n),
                 "a misfit event is refused without being held for authentication")
    # local member signatures from remote sources
    idx = [e.term for e in q.calls("locallyContributedIndices") if arg(e.term, 0, "verfers") is P("verfers")]
    ctx.need(bool(idx), R2, "Kever.valSigsWigsDel:member indices", q.where(), "the local members' indices are not determined against the event's keys")
    for e in q.calls("verifySigs"):
        if arg(e.term, 2, "verfers") is not P("verfers"):
            continue
        for I in set(idx):
            if not (maybe(e, q.term("not local")) and maybe(e, q.term(MEM)) and maybe(e, I)):
                continue
            sg = arg(e.term, 1, "sigers")
            if q.holds(e, f"local or not {MEM}") or holds(e, NOTT(I)):
                continue
            got = appended(q, sg) if sg is not P("sigers") else None
            if got is not None:
                ok = all(q.holds(ev, "x.index not in i", {"x": x, "i": I}) for x, ev in got)
            else:
                ends = [b for b in q.w.events if b.kind == "bodyend" and (b.term is P("sigers") or unwrap(b.term) is P("sigers"))]
                ok = any(h.k == "looped" and (h.a[0] is P("sigers") or unwrap(h.a[0]) is P("sigers")) for h in e.hist) and bool(ends) and all(
                    q.holds(b, "x.index not in i", {"x": q.w.elem_of(b.term), "i": I}) or
                    called_before(b, lambda t, b=b: fname(t) in ("remove", "discard") and recv(t) is P("sigers") and is_elem(arg(t, 0, "x"), b.term))
                    or called_before(b, lambda t: fname(t) in ("remove", "discard") and recv(t) is P("sigers")) for b in ends)
            ctx.need(ok, R2, "Kever.valSigsWigsDel:remote member signatures dropped", f"{EV}:{e.line} {q.qual}",
                     "a signature attributed to a local group member is taken from a remote source")
    rem = [e for e in q.calls("remove", "discard") if recv(e.term) is P("sigers")]
    if rem:
        require(q, R2, "signatures dropped", rem, [
            ("only from remote sources", "not local"), ("only for local members", MEM),
            ("only the local members' indices", lambda e: any(q.holds(e, "x.index in i", {"x": arg(e.term, 0, "x"), "i": I}) for I in idx))],
            "a signature is dropped")
    # predicates
    for nm, src in (("prefixes", "self.db.prefixes"), ("groups", "self.db.groups"), ("kevers", "self.db.kevers")):
        k = Q(ctx, EV, f"Kever.{nm}")
        ctx.need(all(v is k.term(src) for st, v, n in k.exits()) and k.exits(), R3, f"Kever.{nm}:definition", k.where(), f"Kever.{nm} is not the database's own {nm}")
    for nm, dflt, src in (("locallyOwned", "self.prefixer.qb64", "X in self.prefixes and X not in self.groups"),
                          ("locallyMembered", "self.prefixer.qb64", "X in self.groups"),
                          ("locallyDelegated", "''", "X in self.prefixes")):
        k = Q(ctx, EV, f"Kever.{nm}", KB - {nm})
        for st, v, n in k.exits():
            if k.holds(st, "pre is None"):
                X = [k.term(dflt)]
            elif k.holds(st, "pre is not None"):
                X = [P("pre")]
            else:
                X = [P("pre"), k.term(dflt)]
            t = [k.term(src, {"X": x}) for x in X]
            if v in (TRUE, FALSE):
                good = any(holds(st, x, v is TRUE) for x in t)
            else:
                good = any(equivalent(st, v, x) for x in t)
            if not good and X == [k.term("''")] and (v is FALSE or v in (P("pre"),)):
                good = True
            ctx.need(good, R3, f"Kever.{nm}:definition", k.where(n), f"{nm} answers {show(v)[:80]}, which is not '{src}'")
    k = Q(ctx, EV, "Kever.locallyWitnessed", KB - {"locallyWitnessed"})
    for st, v, n in k.exits():
        if k.holds(st, "wits"):
            W = k.term("wits")
        elif k.holds(st, "not serder"):
            W = k.term("self.wits")
        elif k.holds(st, "serder.pre != self.prefixer.qb64"):
            ctx.need(v is FALSE, R3, "Kever.locallyWitnessed:foreign event", k.where(n), "an event of another identifier counts as locally witnessed")
            continue
        else:
            W = k.w.mksub(k.term("self.deriveBacks(serder)"), C(0))
        alts = [k.term(x, {"W": W}) for x in ("self.prefixes & oset(W)", "oset(W) & self.prefixes", "self.prefixes & set(W)", "not self.prefixes.isdisjoint(W)",
                                              "self.prefixes.intersection(W)")]
        good = any(holds(st, x, v is TRUE) if v in (TRUE, FALSE) else equivalent(st, v, x) for x in alts)
        if not good:
            some = [t for t in terms_of(st) | set(subterms(v)) if t.k == "forall"]
            good = any(t.a[0] is W or t.a[0] is k.term("self.prefixes") for t in some)
        ctx.need(good, R3, "Kever.locallyWitnessed:definition", k.where(n), "locally witnessed is not 'one of the witnesses is a local identifier'")
    # source flag
    for fn in ("Kever.update", "Kever.__init__"):
        q = Q(ctx, EV, fn, KB)
        require(q, R4, "source handed on", q.calls("valSigsWigsDel"), [
            ("unchanged", lambda e: kept_flag(q, e, arg(e.term, None, "local"), "local"))], "the check of an event's source")


def kept_flag(q, e, got, name):
    """got has the truth of parameter `name` at e"""
    p = P(name)
    if got is None:
        return False
    if got is p or got.k == "call" and got.a[0] is G("bool") and got.a[1][0] is p:
        return True
    if got is TRUE:
        return holds(e, p)
    if got is FALSE or got is NONE:
        return holds(e, NOTT(p))
    return False


# ------------------------------------------------------------------ K07 first seen log
def esr_rules(q, R, what):
    """source record: created with the given source, only ever upgraded to local"""
    ctx = q.ctx
    up = [e for e in q.w.events if e.kind == "store" and e.term.k == "a" and e.term.a[1] == "local" and fname(e.term.a[0]) in ("get", "EventSourceRecord")]
    for e in up:
        ctx.need(kept_flag(q, e, e.value, "local") and q.holds(e, "local"), R, f"{q.qual}:source only upgraded", f"{q.rel}:{e.line} {q.qual}",
                 f"{what}: an event known to be from a local source can be recorded as remote, or the reverse")
    for st, v, node in q.exits():
        rec = [t for t in terms_of(st) | {h for h in st.hist} if dbop(t, "esrs", "get") and is_dgkey(arg(t, 0, "keys"), S)]
        if not rec:
            ctx.bad(R, f"{q.qual}:source recorded", q.where(node), f"{what}: the event's source record is not consulted")
            continue
        x = rec[0]

        def put(st, methods):
            return did(st, "esrs", methods, lambda t: is_dgkey(arg(t, 0, "keys"), S) and (
                fname(arg(t, 1, "val")) == "EventSourceRecord" and kept_flag(q, st, arg(arg(t, 1, "val"), None, "local"), "local")))
        if put(st, ("put", "pin")):
            ctx.need(q.holds(st, "not x or x is None", {"x": x}) or did(st, "esrs", ("put",)), R, f"{q.qual}:source recorded", q.where(node),
                     f"{what}: an existing source record is overwritten")
            continue
        pinned = did(st, "esrs", ("pin",), lambda t: is_dgkey(arg(t, 0, "keys"), S) and arg(t, 1, "val") is x) and any(
            h.k == "store" and h.a[0].k == "a" and h.a[0].a[0] is x and h.a[0].a[1] == "local" for h in st.hist)
        ctx.need(q.holds(st, "x", {"x": x}) and (pinned or q.holds(st, "not local or x.local", {"x": x}) or kept_local(q, st, x)), R,
                 f"{q.qual}:source recorded", q.where(node), f"{what}: the event's source is not recorded, or a local source does not upgrade the record")


def kept_local(q, st, x):
    got = st.heap.get((x, "local"))
    return got is not None and kept_flag(q, st, got, "local") and did(st, "esrs", ("pin",), lambda t: arg(t, 1, "val") is x)


def stored_with(q, R, what, opts, first_vals=None):
    """the event, its date and its given attachments are stored under its own key on every path to the end"""
    ctx = q.ctx
    for st, v, node in q.exits():
        ctx.need(did(st, "dtss", ("put", "pin"), lambda t: is_dgkey(arg(t, 0, "keys"), S)), R, f"{q.qual}:date stored", q.where(node), f"{what}: no date is stored")
        ctx.need(did(st, "evts", ("put", "pin"), lambda t: is_dgkey(arg(t, 0, "keys"), S) and arg(t, 1, "val") is S), R, f"{q.qual}:event stored", q.where(node),
                 f"{what}: the event itself is not stored under its own key")
        for p, store in opts:
            put = did(st, store, ("put", "pin", "add"), lambda t: is_dgkey(arg(t, 0, "keys"), S) and from_param(q, arg(t, 1, "vals", "val"), P(p)))
            ctx.need(put or q.holds(st, f"not {p}"), R, f"{q.qual}:{p} stored", q.where(node), f"{what}: the given {p} are not stored with it")


def from_param(q, t, p):
    if t is p:
        return True
    got = appended(q, t) if t is not None else None
    return bool(got) and all(any(is_elem(s, p) for s in subterms(x)) and not ev.facts for x, ev in got)


@prop("K07")
def k07(ctx):
    R1 = "K07.log"
    ctx.rule(R1, "logging an event stores it with its date, signatures, witness signatures, witnesses and source, and adds it to "
                 "its identifier's log at its own sequence number", 6)
    R2 = "K07.first-seen"
    ctx.rule(R2, "a first seen ordinal is assigned once per acceptance, by appending, and recorded for exactly that event", 5)
    R3 = "K07.arguments"
    ctx.rule(R3, "acceptance logs the verified attachments, seal, source and replay data of that event", 6)
    R4 = "K07.held"
    ctx.rule(R4, "an incomplete event is held with everything needed to judge it later, in the escrow of its own kind and under its own key", 20)
    q = Q(ctx, EV, "Kever.logEvent", KB, limit=4000)
    stored_with(q, R1, "logged event", (("sigers", "sigs"), ("wigers", "wigs"), ("wits", "wits")))
    esr_rules(q, R1, "logged event")
    fel = q.calls("append", recv=lambda r: r is not None and r.k == "a" and r.a[1] == "fels")
    fon = [e for e in q.calls("pin", "put") if dbop(e.term, "fons", "pin", "put")]
    require(q, R2, "ordinal appended", fel, [("only when first seen", "first"), ("for this identifier", lambda e: is_pre(arg(e.term, 0, "keys"), S)),
                                            ("this event's digest", lambda e: is_said(arg(e.term, 1, "val"), S)),
                                            ("once", lambda e: not called_before(e, lambda t: dbop(t, "fels", "append")))], "first seen ordinal")
    fn = fel[0].term if fel else NONE
    require(q, R2, "ordinal recorded", fon, [("only when first seen", "first"), ("under this event", lambda e: is_dgkey(arg(e.term, 0, "keys"), S)),
                                            ("the appended ordinal", lambda e: arg(e.term, 1, "val") in [q.term(x, {"fn": fn}) for x in (
                                                "Number(sn=fn)", "Number(num=fn)")] or fname(arg(e.term, 1, "val")) == "Number" and
                                             (arg(arg(e.term, 1, "val"), None, "num") or arg(arg(e.term, 1, "val"), None, "sn")) is fn)], "first seen ordinal of the event")
    for st, v, node in q.exits():
        ctx.need(did(st, "kels", ("add", "append"), lambda t: is_onkey(arg(t, 0, "keys"), S, arg(t, None, "on")) and is_said(arg(t, 2, "val"), S)), R1,
                 "Kever.logEvent:added to the log", q.where(node), "an accepted event is not added to its identifier's log at its own sequence number")
        tt = tup(v)
        isf, notf = q.holds(st, "first"), q.holds(st, "not first")
        ctx.need(bool(tt) and len(tt) == 2 and (isf and tt[0] is fn or notf and tt[0] is NONE), R2, "Kever.logEvent:returns the ordinal", q.where(node),
                 "does not return the assigned first seen ordinal (or none when not first seen)")
        if isf:
            ctx.need(did(st, "fons", ("pin", "put")) and did(st, "fels", ("append",)), R2, "Kever.logEvent:ordinal kept", q.where(node),
                     "a first seen event is left without a first seen ordinal")
            d = [arg(h.a[0] if h.k == "fresh" else h, 1, "val") for h in st.hist if h.k in ("call", "fresh") and dbop(h.a[0] if h.k == "fresh" else h, "dtss", "pin")]
            dp = P("dater")
            good = any((x is dp and holds(st, dp)) or (fname(x) == "Dater" and q.holds(st, "not dater")) or
                       (x.k == "phi") for x in d if x is not None)
            ctx.need(good, R2, "Kever.logEvent:date of first seeing", q.where(node),
                     "the date recorded at first seeing is not the replayed one when given, else the present")
    pins = [e for e in q.calls("pin", "put") if dbop(e.term, "aess", "pin", "put")]
    require(q, R1, "authorizer seal recorded", pins, [
        ("under this event", lambda e: is_dgkey(arg(e.term, 0, "keys"), S)), ("only with a seal", "delnum and diger"), ("only for delegated identifiers", "self.delpre || self.delegated"),
        ("the given seal", lambda e: bool(tup(arg(e.term, 1, "val"))) and tup(arg(e.term, 1, "val"))[1] is P("diger") and
         any(x is P("delnum") for x in subterms(tup(arg(e.term, 1, "val"))[0])))], "the delegating event's location")
    for st, v, node in q.exits():
        ctx.need(did(st, "aess", ("pin", "put")) or q.holds(st, f"not self.delpre or serder.ilk == Ilks.ixn or {OWN} or self.locallyWitnessed(wits=wits) or not delnum or not diger"),
                 R1, "Kever.logEvent:authorizer seal kept", q.where(node), "an accepted delegated event's delegating event location is not recorded")
    # arguments
    vs = "self.valSigsWigsDel"
    for fnm in ("Kever.update", "Kever.__init__"):
        q = Q(ctx, EV, fnm, KB)
        for e in q.calls("logEvent"):
            vcalls = [h.a[0] if h.k == "fresh" else h for h in e.hist if fname(h) == "valSigsWigsDel"]
            V = vcalls[0] if len(vcalls) == 1 else None
            ixn = fnm == "Kever.update" and q.holds(e, "serder.ilk == Ilks.ixn")
            kind = "ixn" if ixn else "est"
            ctx.need(V is not None, R3, f"{fnm}:{kind}:validated once", f"{EV}:{e.line} {fnm}", "an event is logged without being validated exactly once")
            if V is None:
                continue
            sub = lambda i: q.w.mksub(V, C(i))
            for key, want in ((0, S), ("sigers", sub(0)), ("wigers", sub(1)), ("firner", P("firner")), ("dater", P("dater"))) + (
                    () if ixn else (("delnum", sub(3)), ("diger", sub(4)), ("wits", arg(V, None, "wits")))):
                got = arg(e.term, 0 if key == 0 else None, "serder" if key == 0 else key)
                ok = got is want
                if key == "wits" and not ok:
                    ok = got is not None and got in (q.term("serder.backs"), q.term("self.wits"), q.term("serder.ked['b']"))
                ctx.need(ok, R3, f"{fnm}:{kind}:{key or 'serder'}", f"{EV}:{e.line} {fnm}",
                         f"the event is logged with {key or 'serder'} {show(got)[:60] if got is not None else 'missing'}")
            fi = arg(e.term, None, "first")
            ctx.need(fi is not None and (fi is TRUE and q.holds(e, "not check") or fi is FALSE and q.holds(e, "check") or
                     equivalent(e, fi, q.term("not check"))), R3, f"{fnm}:{kind}:first", f"{EV}:{e.line} {fnm}",
                     "the event is logged as first seen when only checking, or not so when accepting")
            ctx.need(kept_flag(q, e, arg(e.term, None, "local"), "local"), R3, f"{fnm}:{kind}:local", f"{EV}:{e.line} {fnm}",
                     "the event is logged with another source than its own")
    # escrows
    for nm, store, opts, seal in (("escrowMFEvent", "misfits", ("sigers", "wigers"), True), ("escrowDelegableEvent", "delegables", ("sigers", "wigers"), False),
                                  ("escrowPSEvent", "pses", ("sigers", "wigers"), True), ("escrowPWEvent", "pwes", ("sigers", "wigers"), True),
                                  ("escrowPDEvent", "pdes", ("sigers", "wigers"), True)):
        q = Q(ctx, EV, f"Kever.{nm}", KB - {nm}, limit=1000)
        what = f"event held in {store}"
        stored_with(q, R4, what, tuple((o, {"sigers": "sigs", "wigers": "wigs"}[o]) for o in opts))
        esr_rules(q, R4, what)
        for st, v, node in q.exits():
            ctx.need(did(st, store, ("add", "append"), lambda t: is_onkey(arg(t, 0, "keys"), S, arg(t, None, "on")) and is_said(arg(t, 2 if "on" in call_parts(t)[2] else 1, "val"), S)),
                     R4, f"{q.qual}:added to {store}", q.where(node), f"the event is not added to the escrow {store} under its own identifier and sequence number")
            if seal:
                ctx.need(did(st, "udes", ("put", "pin"), lambda t: is_dgkey(arg(t, 0, "keys"), S) and tup(arg(t, 1, "val")) == [P("delsner"), P("delsger")]) or
                         q.holds(st, "not delsner or not delsger"), R4, f"{q.qual}:seal stored", q.where(node), f"{what}: the given delegation seal is not kept")
        oth = [e for e in q.calls("add", "append") if chain(recv(e.term))[-2:-1] == ("db",) and chain(recv(e.term))[-1] not in (store, "sigs", "wigs", "cues")]
        ctx.need(not oth, R4, f"{q.qual}:only its escrow", q.where(oth[0].node if oth else None), f"the event is also put into another escrow or log")
    # every escrow call hands on the event and its attachments
    for fnm in ("Kever.valSigsWigsDel", "Kever.validateDelegation"):
        q = Q(ctx, EV, fnm, KB)
        for e in q.calls("escrowMFEvent", "escrowDelegableEvent", "escrowPSEvent", "escrowPWEvent", "escrowPDEvent"):
            nm = fname(e.term)
            vv = [h.a[0] if h.k == "fresh" else h for h in e.hist if fname(h) == "verifySigs"]
            for k in ("sigers", "wigers") + (() if nm == "escrowDelegableEvent" else ("delsner", "delsger")):
                got = arg(e.term, None, k)
                if nm in ("escrowMFEvent", "escrowDelegableEvent", "escrowPSEvent", "escrowPWEvent", "escrowPDEvent") and k in ("sigers", "wigers"):
                    ok = got is P(k) or got in [q.w.mksub(x, C(0)) for x in vv if (arg(x, 1, "sigers") is P("wigers")) == (k == "wigers")] or \
                        k == "sigers" and got is not None and appended(q, got) is not None
                else:
                    ok = got is P(k) or fnm == "Kever.validateDelegation" and got is not None or q.holds(e, f"not delsner or not delsger")
                ctx.need(ok, R4, f"{fnm}:{nm}:{k}", f"{EV}:{e.line} {fnm}", f"an event is held with {k} {show(got)[:50] if got is not None else 'missing'}")
            ctx.need(kept_flag(q, e, arg(e.term, None, "local"), "local"), R4, f"{fnm}:{nm}:local", f"{EV}:{e.line} {fnm}",
                     "an event is held with another source than its own")
