"""Key event log acceptance: Kever state machine."""
from . import prop
from .corelib import *

CORING = "src/keri/core/coring.py"
KB = {"rotate", "valSigsWigsDel", "logEvent", "state", "deriveBacks", "exposeds", "validateDelegation", "incept", "config",
      "reload", "escrowMFEvent", "escrowPSEvent", "escrowPWEvent", "escrowDelegableEvent", "escrowPDEvent", "escrowLDEvent",
      "escrowOOEvent", "verifySigs", "locallyOwned", "locallyWitnessed", "locallyDelegated", "locallyMembered",
      "locallyContributedIndices", "fetchDelegatingEvent", "fetchEstEvent", "fetchWitnessState", "dgKey", "snKey", "onKey"}
ICP = "serder.ilk in (Ilks.icp, Ilks.dip)"
ROT = "serder.ilk in (Ilks.rot, Ilks.drt)"
PRIOR = ("serder.prior", "serder.ked['p']", "serder.sad['p']")


def is_call(t, name, **kw):
    return fname(t) == name and all(arg(t, None, k) is v for k, v in kw.items())


def before(name, pred=lambda t: True):
    return lambda e: called_before(e, lambda t: fname(t) == name and pred(t))


def chained_to_state(q, x):
    return any(q.holds(x, f"self.serder.compare(said={p}) || self.serder.said == {p}") for p in PRIOR)


def chained_to_stored(q, x):
    """positive compare of the prior digest with the event stored in this log at the preceding sequence number"""
    pres = (q.term("serder.pre"), q.term("self.prefixer.qb64"), q.term("serder.preb"))
    for t, p in x.facts:
        if p and fname(t) == "compare" and arg(t, 0, "said") in [q.term(z) for z in PRIOR]:
            r = recv(t)
            if fname(r) != "get" or chain(recv(r))[-1] != "evts":
                continue
            ks = tup(arg(r, 0, "keys"))
            if not ks or len(ks) != 2 or unwrap(ks[0]) not in pres:
                continue
            d = unwrap(ks[1])
            if fname(d) == "getLast" and chain(recv(d))[-1] == "kels" and arg(d, 1, "on") in (
                    q.term("serder.sner.num - 1"), q.term("serder.sn - 1")) and unwrap(arg(d, 0, "keys")) in pres:
                return q.holds(x, "x is not None", {"x": d}) and q.holds(x, "x is not None", {"x": r})
    return False


@prop("K01")
def k01(ctx):
    """accepted events extend the log in order and are chained by digest"""
    R1 = "K01.update-guards"
    ctx.rule(R1, "Kever.update logs an event only for its own, still transferable identifier, of a known type, and only after "
                 "the type's sequence and chaining checks", 8)
    R2 = "K01.rotate-ordering"
    ctx.rule(R2, "Kever.rotate returns only for the next sequence number chained to the last event, or for a recovery that the "
                 "superseding rules allow, chained to the stored event before it", 5)
    R3 = "K01.inception"
    ctx.rule(R3, "a log starts only with an inception event of sequence number zero", 3)
    R4 = "K01.state-after-accept"
    ctx.rule(R4, "key state is replaced only after the event was validated and logged, by that event's own fields", 12)
    R5 = "K01.no-unjustified-refusal"
    ctx.rule(R5, "inception, rotation and update refuse an event only where an established fact makes it invalid", 15)
    q = Q(ctx, EV, "Kever.update", KB)
    log = q.calls("logEvent")
    rot = lambda e: q.holds(e, ROT)
    ixn = lambda e: q.holds(e, "serder.ilk == Ilks.ixn")
    require(q, R1, "accept", log, [
        ("transferable", "self.transferable"),
        ("own prefix", "serder.pre == self.prefixer.qb64"),
        ("known type", lambda e: rot(e) or ixn(e)),
        ("non-delegated rotation of a delegated identifier refused",
         lambda e: ixn(e) or q.holds(e, "not self.delegated or serder.ilk == Ilks.drt")),
        ("signatures checked", before("valSigsWigsDel", lambda t: arg(t, 0, "serder") is P("serder"))),
        ("rotation checked", lambda e: not rot(e) or before("rotate", lambda t: arg(t, 0, "serder") is P("serder"))(e)),
        ("interaction in sequence", lambda e: not ixn(e) or q.holds(e, "serder.sner.num == self.sner.num + 1 || serder.sn == self.sn + 1")),
        ("interaction chained", lambda e: not ixn(e) or chained_to_state(q, e)),
        ("establishment only", lambda e: not ixn(e) or q.holds(e, "not self.estOnly")),
        ("logged event is the checked one", lambda e: arg(e.term, 0, "serder") is P("serder")),
    ], "event accepted into the key event log", 2)
    ctx.need(any(ixn(e) for e in log) and any(rot(e) for e in log), R1, "Kever.update:both types accepted", q.where(),
             "rotation or interaction events are never accepted")
    require_exit(q, R1, "return", [("logged", lambda st, v: before("logEvent")(st))], "update of an event")
    # state replacement
    want = {"sner": ("serder.sner",), "serder": ("serder",), "ilk": ("serder.ilk",)}
    wrot = {"verfers": ("serder.verfers",), "ndigers": ("serder.ndigers",), "ntholder": ("serder.ntholder",)}
    tup_of = {"tholder": 0, "toader": 1, "wits": 2, "cuts": 3, "adds": 4}
    for st, v, node in q.exits():
        isrot, isixn = q.holds(st, ROT), q.holds(st, "serder.ilk == Ilks.ixn")
        kind = "rotation" if isrot else "interaction" if isixn else "other"
        for a, srcs in list(want.items()) + (list(wrot.items()) if isrot else []):
            got = st.heap.get((P("self"), a))
            ctx.need(got is not None and got in [q.term(s) for s in srcs], R4, f"Kever.update:{kind}:{a}", q.where(node),
                     f"after an accepted {kind} the key state's {a} is {show(got)[:80] if got is not None else 'unchanged'}, not the event's")
        if isrot:
            r = q.term("self.rotate(serder)")
            for a, i in tup_of.items():
                got = st.heap.get((P("self"), a))
                ctx.need(got is q.w.mksub(r, C(i)), R4, f"Kever.update:rotation:{a}", q.where(node),
                         f"after an accepted rotation the key state's {a} is {show(got)[:80] if got is not None else 'unchanged'}, not what the rotation check derived")
            le = st.heap.get((P("self"), "lastEst"))
            ctx.need(le is not None and fname(le) == "LastEstLoc" and arg(le, 0, "s") in (q.term("serder.sner.num"), q.term("serder.sn"))
                     and arg(le, 1, "d") is q.term("serder.said"), R4, "Kever.update:rotation:lastEst", q.where(node),
                     "after an accepted rotation the last establishment event is not recorded as that rotation")
        if isixn:
            for a in list(wrot) + list(tup_of) + ["lastEst"]:
                ctx.need((P("self"), a) not in st.heap, R4, f"Kever.update:interaction:{a} kept", q.where(node),
                         f"an interaction event changes the key state's {a}")
    for a in list(want) + list(wrot) + list(tup_of) + ["lastEst", "fner", "dater"]:
        ev = q.stores(a)
        if ev:
            require(q, R4, f"{a} replaced", ev, [("after the event was logged", before("logEvent"))], f"key state {a} replaced")
    pins = [e for e in q.calls("pin") if chain(recv(e.term))[-1] == "states"]
    require(q, R4, "state saved", pins, [("after the event was logged", before("logEvent")), ("this identifier's record", lambda e: unwrap(
        arg(e.term, 0, "keys")) in (q.term("self.prefixer.qb64"), q.term("serder.pre")) and fname(arg(e.term, 1, "val")) == "state")],
        "saved key state", 2)
    seen = q.term("self.logEvent(serder)")
    for st, v, node in q.exits():
        fns = [t for t, p in st.facts if t.k == "is" and t.a[1] is NONE and fname(t.a[0].a[0] if t.a[0].k == "sub" else t.a[0]) == "logEvent" and not p]
        if fns:
            ctx.need(before("pin", lambda t: chain(recv(t))[-1] == "states")(st), R4, "Kever.update:state saved when first seen", q.where(node),
                     "an event given a first seen number leaves the saved key state unchanged")
    # rotate
    q = Q(ctx, EV, "Kever.rotate", KB)
    NEXT = "serder.sner.num == self.sner.num + 1"
    REC = "serder.sner.num <= self.sner.num"
    require_exit(q, R2, "return", [
        ("not ahead of the log", "serder.sner.num <= self.sner.num + 1"),
        ("in sequence or recovery", f"{NEXT} || {REC}"),
        ("next event chained to last", lambda st, v: q.holds(st, REC) or chained_to_state(q, st)),
        ("recovery chained to stored prior", lambda st, v: q.holds(st, NEXT) or chained_to_stored(q, st)),
        ("recovery after the last establishment", lambda st, v: q.holds(st, NEXT) or q.holds(
            st, "serder.ilk != Ilks.rot or serder.sner.num > self.lastEst.s")),
        ("delegated recovery not before the last establishment", lambda st, v: q.holds(st, NEXT) or q.holds(
            st, "serder.ilk != Ilks.drt or serder.sner.num >= self.lastEst.s")),
        ("recovery of interaction events only", lambda st, v: q.holds(st, NEXT) or q.holds(
            st, "serder.ilk != Ilks.rot or self.ilk == Ilks.ixn")),
    ], "rotation accepted", floor=1)
    ctx.need(any(q.holds(st, NEXT) for st, v, n in q.exits()) and any(q.holds(st, REC) for st, v, n in q.exits()), R2,
             "Kever.rotate:next and recovery reachable", q.where(), "ordinary or recovery rotations are never accepted")

    def stored_missing(st):
        return any(t.k == "is" and t.a[1] is NONE and p and any(fname(x) in ("getLast", "get") for x in (t.a[0], unwrap(t.a[0])))
                   for t, p in st.facts) or any(not p and fname(t) in ("getLast", "get") for t, p in st.facts)

    def stored_mismatch(st):
        return any(not p and fname(t) == "compare" and fname(recv(t)) == "get" for t, p in st.facts)
    refuses_only(q, R5, [
        "serder.sner.num > self.sner.num + 1",
        "serder.sner.num <= self.sner.num and (serder.ilk == Ilks.rot and serder.sner.num <= self.lastEst.s or "
        "serder.ilk == Ilks.drt and serder.sner.num < self.lastEst.s)",
        "serder.sner.num <= self.sner.num and serder.ilk == Ilks.rot and self.ilk != Ilks.ixn",
        lambda st: q.holds(st, REC) and (stored_missing(st) or stored_mismatch(st)),
        lambda st: q.holds(st, NEXT) and any(q.holds(st, f"not self.serder.compare(said={p}) || self.serder.said != {p}") for p in PRIOR),
        "not self.ndigers", "len(serder.keys) < serder.tholder.size || len(serder.verfers) < serder.tholder.size",
        "self.deriveBacks(serder)[0] and (serder.bner.num < 1 or serder.bner.num > len(self.deriveBacks(serder)[0]))",
        "not self.deriveBacks(serder)[0] and serder.bner.num != 0",
    ], "a rotation is refused")
    # inception
    q = Q(ctx, EV, "Kever.incept", KB)
    NT = "not self.prefixer.transferable"
    refuses_only(q, R5, [
        "serder.sner.positive || serder.sner.num != 0", "len(serder.verfers) < serder.tholder.size || len(serder.keys) < serder.tholder.size",
        lambda st: holds(st, NOTT(q.w.termof("self.prefixer.transferable", None, st))) and any(q.holds(st, x) for x in (
            "serder.ndigs", "serder.ndigers", "serder.ked['n']", "serder.ked['b']", "serder.backs", "serder.ked['a']", "serder.seals")),
        "len(oset(serder.ked['b'])) != len(serder.ked['b']) || len(oset(serder.backs)) != len(serder.backs) || "
        "len(set(serder.ked['b'])) != len(serder.ked['b']) || len(set(serder.backs)) != len(serder.backs)",
        lambda st: any(q.holds(st, f"{w} and ({n}.num < 1 or {n}.num > len({w}))") or q.holds(st, f"not {w} and {n}.num != 0")
                       for w in ("serder.ked['b']", "serder.backs") for n in ("Number(num=serder.ked['bt'])", "serder.bner")),
    ], "an inception is refused")
    q = Q(ctx, EV, "Kever.update", KB)
    refuses_only(q, R5, [
        "not self.transferable", "serder.pre != self.prefixer.qb64", "self.delegated and serder.ilk == Ilks.rot || serder.ilk == Ilks.rot and self.delpre",
        "serder.ilk == Ilks.ixn and self.estOnly", "serder.ilk == Ilks.ixn and serder.sner.num != self.sner.num + 1",
        lambda st: q.holds(st, "serder.ilk == Ilks.ixn") and any(q.holds(st, f"not self.serder.compare(said={p}) || self.serder.said != {p}") for p in PRIOR),
        "serder.ilk not in (Ilks.rot, Ilks.drt) and serder.ilk != Ilks.ixn"], "an update is refused")
    # inception
    q = Q(ctx, EV, "Kever.incept", KB)
    require_exit(q, R3, "return", [("sequence number zero", "not serder.sner.positive || serder.sner.num == 0 || serder.sn == 0")],
                 "inception accepted")
    q = Q(ctx, EV, "Kever.__init__", KB)
    require(q, R3, "accept", q.calls("logEvent"), [
        ("inception type", ICP),
        ("inception checked", before("incept", lambda t: arg(t, 0, "serder") is P("serder"))),
        ("configuration applied", before("config", lambda t: arg(t, 0, "serder") is P("serder"))),
        ("signatures checked", before("valSigsWigsDel", lambda t: arg(t, 0, "serder") is P("serder"))),
        ("logged event is the checked one", lambda e: arg(e.term, 0, "serder") is P("serder")),
    ], "inception accepted")
    require_exit(q, R3, "construct", [("from a state record or a logged inception", lambda st, v: before("reload")(st) or before("logEvent")(st))],
                 "key state object")
    q = Q(ctx, EV, "Kever.incept", KB)
    want = {"sner": ("serder.sner",), "serder": ("serder",), "verfers": ("serder.verfers",), "tholder": ("serder.tholder",),
            "ndigers": ("serder.ndigers",), "ntholder": ("serder.ntholder",)}
    for st, v, node in q.exits():
        for a, srcs in want.items():
            got = st.heap.get((P("self"), a))
            ctx.need(got is not None and got in [q.term(s) for s in srcs], R4, f"Kever.incept:{a}", q.where(node),
                     f"after inception the key state's {a} is {show(got)[:80] if got is not None else 'unset'}")
        pr = st.heap.get((P("self"), "prefixer"))
        ctx.need(pr is not None and fname(pr) == "Prefixer" and arg(pr, None, "qb64", "qb64b") in (q.term("serder.pre"), q.term("serder.preb")),
                 R4, "Kever.incept:prefixer", q.where(node), "after inception the identifier prefix is not the event's")
    q = Q(ctx, EV, "Kever.config", KB)
    for st, v, node in q.exits():
        for a, trait in (("estOnly", "EstOnly"), ("doNotDelegate", "DoNotDelegate")):
            got = st.heap.get((P("self"), a))
            t = q.term(f"TraitDex.{trait} in serder.traits")
            good = got is not None and (got is TRUE or not closure_true(st, t) and got is not None)
            ctx.need(good, R4, f"Kever.config:{trait}", q.where(node),
                     f"an inception declaring {trait} can leave the identifier's {a} off")


def maybe(x, t):
    """t is possible at x"""
    return closure(x.facts, x.clauses, [lit(t)]) is not None


def closure_true(st, t):
    """t may still be true at st (its truth is not refuted)"""
    return closure(st.facts, st.clauses, [lit(t)]) is not None


# ------------------------------------------------------------------ K02 signing threshold
@prop("K02")
def k02(ctx):
    """no acceptance without verified signatures that satisfy the threshold, each key counted once"""
    R1 = "K02.verified-only"
    ctx.rule(R1, "verifySigs keeps a signature only if it verifies over the given bytes with the key its own index selects, and "
                 "lists each index at most once", 4)
    R2 = "K02.threshold-gate"
    ctx.rule(R2, "valSigsWigsDel returns only if the indices verified over the event's bytes satisfy the given threshold", 5)
    R3 = "K02.right-keys"
    ctx.rule(R3, "every acceptance path checks against the keys and threshold that control that event", 8)
    R4 = "K02.satisfy"
    ctx.rule(R4, "a threshold is satisfied only by enough distinct key indices", 5)
    q = Q(ctx, EV, "verifySigs")
    vs = q.calls("verify")
    raw = P("raw")

    def verf_ok(e):
        t = e.term
        s = arg(t, 0, "sig")
        if arg(t, 1, "ser") is not raw or s is None or s.k != "a" or s.a[1] not in ("raw", "_raw"):
            return False
        S, r = s.a[0], recv(t)
        return by_index(q, r, S)
    require(q, R1, "verify", vs, [("over the signed bytes with the key selected by the signature's index", verf_ok)],
            "signature verification")
    subs = [e for e in q.w.events if e.kind == "subscript" and e.term.k == "sub" and e.term.a[0] is P("verfers")]
    rets = q.exits()
    for st, v, node in rets:
        tt = tup(v)
        ctx.need(tt is not None and len(tt) == 2, R1, "verifySigs:result", q.where(node), "does not return (signatures, indices)")
        if not tt or len(tt) != 2:
            continue
        S, I = appended(q, tt[0]), appended(q, tt[1])
        isset = tt[1].k == "new" and tt[1].a[0] in ("oset", "set")

        def verified(x, ev):
            return guarded_by_call(ev.facts, "verify", lambda t: arg(t, 0, "sig") is not None and arg(t, 0, "sig").k == "a" and
                                   arg(t, 0, "sig").a[0] is x and arg(t, 1, "ser") is raw)
        ctx.need(bool(S) and all(verified(x, ev) for x, ev in S), R1, "verifySigs:kept signatures verified", q.where(node),
                 "a returned signature has not been verified")
        ctx.need(bool(I) and all(x.k == "a" and x.a[1] in ("index", "_index") and verified(x.a[0], ev) for x, ev in I), R1,
                 "verifySigs:returned indices verified", q.where(node), "a returned index is not that of a verified signature")
        uniq = bool(I) and (isset or all(any(t.k == "in" and t.a[0] is x and t.a[1] is tt[1] and not p for t, p in ev.facts) for x, ev in I))
        ctx.need(uniq, R1, "verifySigs:indices distinct", q.where(node),
                 "the same key index can be returned more than once, so one key can count several times toward a threshold")
    for e in q.w.events:
        if e.kind == "store" and e.term.k == "a" and e.term.a[1] == "verfer" and e.value is not None and e.value.k == "sub":
            ctx.need(q.holds(e, "i < len(verfers)", {"i": e.value.a[1]}), R1, "verifySigs:index in range", f"{EV}:{e.line} verifySigs",
                     "a signature index beyond the key list is not skipped: the whole message is rejected with an index error")
    # gate
    q = Q(ctx, EV, "Kever.valSigsWigsDel", KB)
    vt = []
    for e in q.calls("verifySigs"):
        if arg(e.term, 2, "verfers") is P("verfers") and arg(e.term, 0, "raw") is q.term("serder.raw") and \
                arg(e.term, 1, "sigers") is not P("wigers"):
            vt.append(e.term)
    ctx.need(bool(vt), R2, "Kever.valSigsWigsDel:verifies", q.where(), "signatures over the event's bytes are not verified with the given keys")

    def idx(st):
        for v in vt:
            for t, p in st.facts:
                if p and fname(t) == "satisfy" and recv(t) is P("tholder") and arg(t, 0, "indices") is q.w.mksub(v, C(1)):
                    return v
        return None
    require_exit(q, R2, "return", [
        ("threshold satisfied by the verified indices", lambda st, v: idx(st) is not None),
        ("at least one verified signature", lambda st, v: idx(st) is not None and q.holds(st, "x", {"x": q.w.mksub(idx(st), C(1))})),
        ("enough keys for the threshold", "len(verfers) >= tholder.size"),
        ("returns the verified signatures", lambda st, v: idx(st) is not None and tup(v) and tup(v)[0] is q.w.mksub(idx(st), C(0))),
    ], "event validated")
    q = Q(ctx, EV, "Kever.valSigsWigsDel", KB)
    for e in q.calls("escrowPSEvent"):
        ctx.need(arg(e.term, 0, "serder") is P("serder"), R2, "Kever.valSigsWigsDel:partial escrow", q.where(e.node),
                 "the partially signed event is not what is escrowed")
    for st, n in raises_named(q, {"MissingSignatureError"}):
        ctx.need(before("escrowPSEvent")(st), R2, "Kever.valSigsWigsDel:escrowed before refusal", q.where(n),
                 "an event lacking signatures is refused without being escrowed for later completion")
    # callers
    q = Q(ctx, EV, "Kever.update", KB)
    rot = lambda e: q.holds(e, ROT)
    r = q.term("self.rotate(serder)")
    require(q, R3, "signature check", q.calls("valSigsWigsDel"), [
        ("rotation: the new keys", lambda e: not rot(e) or arg(e.term, None, "verfers") is q.term("serder.verfers")),
        ("rotation: the new threshold", lambda e: not rot(e) or arg(e.term, None, "tholder") is q.w.mksub(r, C(0))),
        ("interaction: the current keys", lambda e: rot(e) or arg(e.term, None, "verfers") is q.term("self.verfers")),
        ("interaction: the current threshold", lambda e: rot(e) or arg(e.term, None, "tholder") is q.term("self.tholder")),
        ("the attached signatures", lambda e: arg(e.term, None, "sigers") is P("sigers")),
        ("before state changes", lambda e: not any(h.k == "store" and h.a[0].k == "a" and h.a[0].a[0] is P("self") and
                                                   h.a[0].a[1] in ("verfers", "tholder", "ndigers", "ntholder", "sner", "serder", "wits", "toader")
                                                   for h in e.hist)),
    ], "signature check of an event", 2)
    q = Q(ctx, EV, "Kever.rotate", KB)
    require_exit(q, R3, "return", [
        ("returns the event's threshold", lambda st, v: bool(tup(v)) and tup(v)[0] is q.term("serder.tholder")),
        ("enough keys for the threshold", "len(serder.keys) >= serder.tholder.size || len(serder.verfers) >= serder.tholder.size"),
    ], "rotation accepted")
    q = Q(ctx, EV, "Kever.__init__", KB)
    require(q, R3, "signature check", q.calls("valSigsWigsDel"), [
        ("inception: its own keys", lambda e: arg(e.term, None, "verfers") in (q.term("serder.verfers"), q.term("self.verfers"))),
        ("inception: its own threshold", lambda e: arg(e.term, None, "tholder") in (q.term("serder.tholder"), q.term("self.tholder"))),
        ("the attached signatures", lambda e: arg(e.term, None, "sigers") is P("sigers")),
    ], "signature check of an inception")
    q = Q(ctx, EV, "Kever.incept", KB)
    require_exit(q, R3, "return", [("enough keys for the threshold", "len(serder.verfers) >= serder.tholder.size")], "inception accepted")
    # threshold
    q = Q(ctx, CORING, "Tholder._satisfy_numeric")
    ind = P("indices")

    def distinct_count(t):
        return t.k == "call" and t.a[0] is G("len") and len(t.a[1]) == 1 and fname(t.a[1][0]) in ("set", "frozenset", "oset") and \
            t.a[1][0].a[1][0] is ind
    for st, v, node in q.exits():
        if v is FALSE or v is NONE:
            ctx.ok(R4, f"Tholder._satisfy_numeric:not satisfied")
            continue
        x = st if v is TRUE else with_fact(st, v)
        good = x is not None and any(
            q.holds(x, "n >= self.thold || n >= self.num", {"n": n}) for n in cands(x, distinct_count)) and q.holds(x, "self.thold > 0 || self.num > 0")
        ctx.need(good, R4, "Tholder._satisfy_numeric:enough distinct indices", q.where(node),
                 "reports the threshold satisfied without that many distinct key indices")
    thr = q.term("self.thold")
    ctx.need(any(v not in (FALSE, NONE) and with_fact(st, v) is not None and any(
        maybe(with_fact(st, v), q.w.termof("n == self.thold", {"n": n})) and maybe(with_fact(st, v), q.w.termof("self.thold == 1"))
        for n in cands(with_fact(st, v), distinct_count)) for st, v, node in q.exits()), R4, "Tholder._satisfy_numeric:exactly enough suffices",
        q.where(), "exactly as many distinct indices as the threshold are not enough")
    q = Q(ctx, CORING, "Tholder._satisfy_weighted")
    n = 0
    for st, v, node in q.exits():
        if v is FALSE or v is NONE:
            continue
        n += 1
        ctx.need(v is TRUE and q.holds(st, "indices"), R4, "Tholder._satisfy_weighted:needs an index", q.where(node),
                 "reports a weighted threshold satisfied with no index at all")
    ctx.need(n > 0, R4, "Tholder._satisfy_weighted:satisfiable", q.where(), "a weighted threshold can never be satisfied")
    weighted(ctx, q, R4)
    q = Q(ctx, EV, "validateSigs", KB)
    vt = [e.term for e in q.calls("verifySigs") if arg(e.term, 0, "raw") is q.term("serder.raw") and arg(e.term, 1, "sigers") is P("sigers")
          and arg(e.term, 2, "verfers") is P("verfers")]

    def good(st, v):
        tt = tup(v)
        if not tt or len(tt) != 2:
            return False
        return any(tt[0] is q.w.mksub(x, C(0)) and fname(tt[1]) == "satisfy" and recv(tt[1]) is P("tholder") and
                   arg(tt[1], 0, "indices") is q.w.mksub(x, C(1)) and q.holds(st, "i", {"i": q.w.mksub(x, C(1))}) for x in vt)
    require_exit(q, R2, "return", [("reports the threshold over verified indices", good), ("enough keys for the threshold",
                 "len(verfers) >= tholder.size")], "message signatures validated")


def with_fact(st, v):
    return st.assume(lit(v))


def cands(x, pred):
    out = set()
    for t, p in x.facts:
        for s in subterms(t):
            if pred(s):
                out.add(s)
    for c in x.clauses:
        for t, p in c:
            for s in subterms(t):
                if pred(s):
                    out.add(s)
    return out


def by_index(q, r, S):
    """r is the element of the key list `verfers` selected by S.index (directly or through S.verfer)"""
    if r is None:
        return False
    if r.k == "sub" and r.a[0] is P("verfers") and r.a[1].k == "a" and r.a[1].a[1] in ("index", "_index") and r.a[1].a[0] is S:
        return True
    if r.k == "a" and r.a[1] == "verfer" and r.a[0] is S:
        sts = [e for e in q.w.events if e.kind == "store" and e.term.k == "a" and e.term.a[1] == "verfer"]
        return bool(sts) and all(e.value is not None and e.value.k == "sub" and e.value.a[0] is P("verfers") and
                                 e.value.a[1].k == "a" and e.value.a[1].a[1] in ("index", "_index") and
                                 e.value.a[1].a[0] is e.term.a[0] for e in sts)
    return False


def weighted(ctx, q, R):
    """every clause whose weight sum stays below one refuses; a weight is added only under its own satisfied index"""
    w = q.w
    th = {q.term("self.thold"), q.term("self._thold")}
    ends = [e for e in w.events if e.kind == "bodyend" and e.term in th]
    ctx.need(bool(ends), R, "Tholder._satisfy_weighted:visits clauses", q.where(), "the clauses of the threshold are not visited")
    for st, v, node in q.exits():
        if v is TRUE:
            ctx.need(any(h.k == "looped" and h.a[0] in th for h in st.hist), R, "Tholder._satisfy_weighted:all clauses", q.where(node),
                     "reports the threshold satisfied before every clause has been checked")
    sats, idxphi, accs, kinds = set(), set(), set(), set()
    clauses = {mk("elem", t) for t in th}
    wkeys = {mk("elem", c) for c in clauses}
    wgrp = {w.mksub(x, C(0)) for x in wkeys}
    wnest = {mk("elem", w.mksub(x, C(1))) for x in wkeys}

    def reaches_one(x):
        """a sum known to be at least one -> its accumulator"""
        return [t.a[0] for t, p in x if t.k == "lt" and not p and t is mklt(t.a[0], C(1))[0]]

    def okstep(ph, val, facts, depth=0):
        if val is ph:
            return True
        parts = val.a[1:] if val.k == "bin" and val.a[0] in ("Add", "+") else None
        if not parts:
            return False
        if not any(x is ph for x in subterms(val)):
            return False
        # the added weight is admitted by a satisfied index, or by a nested group that itself reaches one
        X = [x for x in parts if not any(y is ph for y in subterms(x))]
        X = X[0] if len(X) == 1 else None
        for t, p in facts:
            if p and t.k == "sub" and t.a[1].k in ("phi", "lin", "c", "elem", "a", "sub"):
                sats.add(t.a[0])
                idxphi.add(t.a[1])
                if X in wkeys:
                    kinds.add("key")
                elif X in wnest:
                    kinds.add("nested")
                else:
                    return False
                return True
        if depth < 2:
            for acc in reaches_one(facts):
                if acc is not ph and accum(acc, depth + 1):
                    if X not in wgrp:
                        return False
                    kinds.add("group")
                    return True
        return False

    def accum(ph, depth=0):
        d = w.phis.get(ph)
        if d is None:
            return False
        accs.add(ph)
        return d["init"] <= {C(0)} and bool(d["steps"]) and all(okstep(ph, v, f, depth) for v, f in d["steps"])
    for e in ends:
        ctx.need(any(accum(a) for a in reaches_one(e.facts)), R, "Tholder._satisfy_weighted:clause reaches one", f"{CORING}:{e.line} {q.qual}",
                 "a clause is accepted without the weights of its satisfied indices summing to at least one")
    for k, what in (("key", "a single key's weight"), ("nested", "a weight inside a group"), ("group", "a satisfied group's weight")):
        ctx.need(k in kinds, R, f"Tholder._satisfy_weighted:counts {k}", q.where(), f"{what} never counts toward its sum")
    # exactness of the accumulation: a satisfied position's weight always counts, positions start at zero and advance by one
    roots = {r for r in accs}
    for acc in list(roots):
        for v, f in w.phis[acc]["steps"]:
            live = [t for t, p in f if p and t.k == "sub" and t.a[0] in sats and t.a[1] in idxphi]
            grp = [t for t, p in f if not p and t.k == "lt" and t.a[0] in accs and t.a[0] is not acc]
            inner = any(h is not acc and h in roots for h in subterms(v))
            if (live and not grp or grp and not live) and not inner:
                ctx.need(v is not acc, R, "Tholder._satisfy_weighted:satisfied weight counts", q.where(),
                         "the weight of a satisfied key is left out of its clause's sum")
    marks = [e for e in w.events if e.kind == "setitem" and e.term.k == "sub" and e.term.a[0] in sats]
    for s in sats:
        base = s.a[1] if s.k == "bin" else s
        if base.k == "new" and len(base.a) > 2 and base.a[2]:
            ctx.need(all(x is FALSE for x in base.a[2]), R, "Tholder._satisfy_weighted:positions start unsatisfied", q.where(),
                     "key positions start out as satisfied")
            ctx.need(any(e.value is TRUE for e in marks), R, "Tholder._satisfy_weighted:indices mark positions", q.where(),
                     "the verified indices do not mark their key positions as satisfied")
    for ph in idxphi:
        d = w.phis.get(ph)
        if d is None:
            continue
        for v, f in d["steps"]:
            b, k = unlin(v)
            ctx.need(b is ph and k == 1 or b in w.phis and b is not ph and k == 0, R, "Tholder._satisfy_weighted:position advances by one", q.where(),
                     "the key position does not advance by exactly one per weight")
        ctx.need(all(x in w.phis or x is C(0) for x in d["init"]), R, "Tholder._satisfy_weighted:position starts at zero", q.where(),
                 "the first weight is not matched with the first key")
        for x in list(d["init"]):
            if x in w.phis and x not in idxphi:
                todo, seen = [x], set()
                while todo:
                    y = todo.pop()
                    if y in seen:
                        continue
                    seen.add(y)
                    for z in w.phis[y]["init"]:
                        if z in w.phis:
                            todo.append(z)
                        else:
                            ctx.need(z is C(0), R, "Tholder._satisfy_weighted:position starts at zero", q.where(),
                                     "the first weight is not matched with the first key")
    for e in w.events:
        if e.kind == "setitem" and e.term.k == "sub" and e.term.a[0] in sats:
            ctx.need(e.value is FALSE or any(x is P("indices") for x in subterms(e.term.a[1])), R,
                     "Tholder._satisfy_weighted:satisfied positions", f"{CORING}:{e.line} {q.qual}",
                     "a key position is marked satisfied that is not one of the verified indices")
    for ph in idxphi:
        d = w.phis.get(ph)
        if d:
            ctx.need(all(v is not ph for v, f in d["steps"]), R, "Tholder._satisfy_weighted:position advances", q.where(),
                     "the key position is not advanced past a weight, so weights and keys fall out of step")
