"""Kever acceptance: pre-rotation, witnessing, delegation, protection of locally controlled identifiers."""
from . import prop
from .corelib import *
from .kel import maybe, KB, ICP, ROT, CORING, before, is_call

OWN = "self.locallyOwned()"
MEM = "self.locallyMembered()"


def pos(x, pred):
    """terms known true at x"""
    return [t for t, p in x.facts if p and pred(t)]


def neg(x, pred):
    return [t for t, p in x.facts if not p and pred(t)]


def satisfied(x, holder, indices):
    """holder.satisfy(<indices>) is known true"""
    return any(recv(t) is holder and indices(arg(t, 0, "indices")) for t in pos(x, lambda t: fname(t) == "satisfy"))


def assigned_only(q, R, inst, st, node, attr, ok, msg):
    got = st.heap.get((P("self"), attr))
    q.ctx.need(got is not None and ok(got), R, inst, q.where(node), msg + f" ({show(got)[:80] if got is not None else 'unset'})")


# ------------------------------------------------------------------ K03 pre-rotation
@prop("K03")
def k03(ctx):
    R1 = "K03.rotation-gate"
    ctx.rule(R1, "a rotation is validated only if verified signatures by keys committed to in the previous establishment event "
                 "satisfy the previously committed next threshold", 2)
    R2 = "K03.exposed-only"
    ctx.rule(R2, "an index counts as exposed only if the signing key's digest equals the committed digest at that index", 3)
    R3 = "K03.non-transferable"
    ctx.rule(R3, "an identifier without next-key commitments never accepts another event; a non-transferable one starts without "
                 "next keys, witnesses or anchored data", 6)
    q = Q(ctx, EV, "Kever.valSigsWigsDel", KB)
    ver = q.term("verifySigs(raw=serder.raw, sigers=sigers, verfers=verfers)")
    vts = {e.term for e in q.calls("verifySigs") if arg(e.term, 2, "verfers") is P("verfers") and arg(e.term, 0, "raw") is q.term("serder.raw")}
    vsig = {q.w.mksub(v, C(0)) for v in vts}

    def exposed(t):
        return fname(t) == "exposeds" and recv(t) is P("self") and arg(t, 0, "sigers") in vsig
    require_exit(q, R1, "return", [
        ("prior next threshold satisfied by exposed verified signatures",
         lambda st, v: not maybe(st, q.term(ROT)) or satisfied(st, q.term("self.ntholder"), exposed))], "event validated")
    q.ctx.need(any(maybe(st, q.term(ROT)) for st, v, n in q.exits()), R1, "Kever.valSigsWigsDel:rotations accepted", q.where(),
               "no rotation can be validated")
    q = Q(ctx, EV, "Kever.exposeds", KB)
    for st, v, node in q.exits():
        L = appended(q, v)
        ctx.need(L is not None and len(L) > 0, R2, "Kever.exposeds:lists indices", q.where(node), "exposed indices are not collected")
        for x, ev in L or ():
            S = x.a[0] if x.k == "a" and x.a[1] == "ondex" else None
            ctx.need(S is not None and is_elem(S, P("sigers")), R2, "Kever.exposeds:prior index of a signature", q.where(node),
                     f"collects {show(x)[:60]}, not the prior-list index of a given signature")
            if S is None:
                continue
            D = q.w.mksub(q.term("self.ndigers"), mk("a", S, "ondex"))
            env = {"S": S, "D": D}
            ctx.need(q.holds(ev, "Diger(ser=S.verfer.qb64b, code=D.code).qb64 == D.qb64 || D.compare(S.verfer.qb64b) || "
                             "D.verify(S.verfer.qb64b) || D.verify(ser=S.verfer.qb64b) || Diger(ser=S.verfer.qb64b, code=D.code).qb64b == D.qb64b "
                             "|| D.compare(ser=S.verfer.qb64b)", env), R2,
                     "Kever.exposeds:digest matches", q.where(node),
                     "an index is counted as exposed without the signing key matching the digest committed at that index")
    q = Q(ctx, EV, "Kever.rotate", KB)
    require_exit(q, R3, "return", [("committed next keys exist", "self.ndigers")], "rotation accepted")
    q = Q(ctx, EV, "Kever.transferable")
    ctx.need(not bad_value(q, "self.ndigers and self.prefixer.transferable"), R3, "Kever.transferable:definition", q.where(),
             "an identifier counts as transferable without next keys or a transferable prefix (or the reverse)")
    q = Q(ctx, EV, "Kever.incept", KB)
    for lab, srcs in (("next digests", ("serder.ndigs", "serder.ndigers", "serder.ked['n']", "serder.sad['n']")),
                      ("witnesses", ("serder.ked['b']", "serder.backs", "serder.sad['b']")),
                      ("data", ("serder.ked['a']", "serder.seals", "serder.sad['a']"))):
        alts = " || ".join(f"self.prefixer.transferable or not {x}" for x in srcs)
        require_exit(q, R3, "return", [(f"non-transferable without {lab}", lambda st, v, alts=alts: holds_with_heap(q, st, alts))], "inception accepted")
    q = Q(ctx, EV, "Kever.update", KB)
    require(q, R3, "signature check", q.calls("valSigsWigsDel"), [("still transferable", "self.transferable")], "event considered")


def maybe(x, t):
    """t is possible at x"""
    return closure(x.facts, x.clauses, [lit(t)]) is not None


def bad_value(q, src):
    t = q.term(src)
    for st, v, node in q.exits():
        if not equivalent(st, v, t):
            return node
    return None


def holds_with_heap(q, st, alts):
    """alternatives evaluated with the state's attribute values (attributes assigned on this path)"""
    for alt in alts.split("||"):
        if holds(st, q.w.termof(alt.strip(), None, st)) or holds(st, q.term(alt.strip())):
            return True
    return False


def is_elem(S, L):
    """S is an element of list L (iterated, or subscripted), possibly of a copy"""
    if S.k in ("elem", "sub"):
        b = S.a[0]
        return b is L or (b.k == "call" and b.a[0].k == "g" and b.a[0].a[0] in ("list", "tuple", "set", "oset", "sorted", "reversed")
                          and len(b.a[1]) == 1 and b.a[1][0] is L)
    return False


# ------------------------------------------------------------------ K04 witness threshold
SETS = ("oset", "set", "frozenset", "OrderedSet")


def asset(t):
    """list behind a set conversion"""
    if t.k == "call" and t.a[0].k in ("g", "a") and len(t.a[1]) == 1 and (t.a[0].a[0] if t.a[0].k == "g" else t.a[0].a[1]) in SETS:
        return t.a[1][0]
    if t.k == "fresh":
        return asset(t.a[0])
    return None


def setop(t):
    """(op, left list, right list) of an operation between two sets; method forms normalised"""
    names = {"BitAnd": "&", "BitOr": "|", "Sub": "-", "&": "&", "|": "|", "-": "-", "intersection": "&", "union": "|", "difference": "-"}
    if t.k == "bin" and t.a[0] in names:
        return names[t.a[0]], t.a[1], t.a[2]
    if t.k == "call" and t.a[0].k == "a" and t.a[0].a[1] in names and len(t.a[1]) == 1:
        return names[t.a[0].a[1]], t.a[0].a[0], t.a[1][0]
    return None


@prop("K04")
def k04(ctx):
    R1 = "K04.receipt-gate"
    ctx.rule(R1, "an event with witnesses is validated by a controller that is not exempt only with at least threshold-many "
                 "distinct verified witness signatures over the event", 3)
    R2 = "K04.threshold-limits"
    ctx.rule(R2, "a witness threshold is zero without witnesses and between one and the number of witnesses otherwise", 4)
    R3 = "K04.backer-change"
    ctx.rule(R3, "a rotation's witnesses are the current ones less the cuts plus the adds, with cuts and adds duplicate free, "
                 "disjoint, cuts among and adds outside the current witnesses", 8)
    R4 = "K04.right-witnesses"
    ctx.rule(R4, "each event is checked against the witnesses and threshold in force for it", 4)
    q = Q(ctx, EV, "Kever.valSigsWigsDel", KB)
    w = q.w
    W = P("wits")

    def wverfs(L):
        got = appended(q, L)
        return bool(got) and all(fname(x) == "Verfer" and is_elem(arg(x, None, "qb64"), W) for x, ev in got if arg(x, None, "qb64") is not None) and \
            all(fname(x) == "Verfer" and arg(x, None, "qb64") is not None and not ev.facts for x, ev in got)
    wv = {e.term for e in q.calls("verifySigs") if arg(e.term, 0, "raw") is q.term("serder.raw") and arg(e.term, 1, "sigers") is P("wigers")
          and arg(e.term, 2, "verfers") is not None and wverfs(arg(e.term, 2, "verfers"))}
    ctx.need(bool(wv), R1, "Kever.valSigsWigsDel:verifies witness signatures", q.where(),
             "witness signatures over the event are not verified with the witnesses' own keys")
    exempt = f"{OWN} or {MEM} or self.locallyWitnessed(wits=wits)"

    def enough(st, v):
        if q.holds(st, "not wits"):
            return True
        if q.holds(st, exempt):
            return True
        return any(q.holds(st, "len(n) >= toader.num", {"n": w.mksub(x, C(1))}) for x in wv)
    require_exit(q, R1, "return", [
        ("threshold many verified witness signatures", enough),
        ("returns the verified witness signatures", lambda st, v: bool(tup(v)) and len(tup(v)) > 1 and tup(v)[1] in {w.mksub(x, C(0)) for x in wv}),
    ], "event validated")
    ctx.need(any(maybe(st, q.term("wits")) and maybe(st, NOTT(q.term(OWN))) and any(
        maybe(st, q.term("len(n) == toader.num", {"n": w.mksub(x, C(1))})) for x in wv) for st, v, n in q.exits()), R1,
        "Kever.valSigsWigsDel:exactly enough suffices", q.where(), "exactly threshold-many witness signatures are not enough")
    for st, n in raises_named(q, {"MissingWitnessSignatureError"}):
        ctx.need(before("escrowPWEvent", lambda t: arg(t, 0, "serder") is P("serder"))(st), R1, "Kever.valSigsWigsDel:escrowed before refusal", q.where(n),
                 "an event lacking witness signatures is refused without being escrowed for later completion")
        ctx.need(any(q.holds(st, "len(n) < toader.num", {"n": w.mksub(x, C(1))}) for x in wv), R1,
                 "Kever.valSigsWigsDel:refused only when lacking", q.where(n), "an event is refused for lack of witness signatures without that being established")
    require_exit(q, R2, "return", [
        ("no witnesses, no threshold", "wits or toader.num == 0"),
        ("at most all witnesses", f"not wits or {exempt} or toader.num <= len(wits)"),
        ("at least one witness", f"not wits or {exempt} or toader.num >= 1"),
    ], "event validated")
    # threshold limits at inception and rotation
    q = Q(ctx, EV, "Kever.incept", KB)
    for st, v, node in q.exits():
        wi, to = st.heap.get((P("self"), "wits")), st.heap.get((P("self"), "toader"))
        ctx.need(wi is not None and wi in [q.term(s) for s in ("serder.ked['b']", "serder.backs", "serder.sad['b']")] and to is not None and to in [
            q.term(s) for s in ("Number(num=serder.ked['bt'])", "serder.bner", "Number(num=serder.sad['bt'])", "Number(numh=serder.ked['bt'])")],
            R4, "Kever.incept:witnesses and threshold", q.where(node), "the witnesses or threshold kept at inception are not the event's")
        if wi is None or to is None:
            continue
        env = {"w": wi, "n": to}
        for lab, src in LIMITS:
            ctx.need(q.holds(st, src, env), R2, f"Kever.incept:{lab}", q.where(node), f"an inception is accepted although '{lab}' is not established")
        ctx.need(any(q.holds(st, f"len({s}(w)) == len(w) || len(w) == len({s}(w))", env) for s in SETS[:2]), R3, "Kever.incept:witnesses distinct",
                 q.where(node), "an inception is accepted with duplicate witnesses")
        for a in ("cuts", "adds"):
            got = st.heap.get((P("self"), a))
            ctx.need(got is not None and (got.k in ("new", "tup", "list") and not (got.a[2] if got.k == "new" else got.a[0])), R4, f"Kever.incept:{a} empty",
                     q.where(node), f"after an inception the {a} are not empty")
    q = Q(ctx, EV, "Kever.rotate", KB)
    D = q.term("self.deriveBacks(serder)")
    for st, v, node in q.exits():
        tt = tup(v)
        if not tt or len(tt) != 5:
            ctx.bad(R4, "Kever.rotate:result", q.where(node), "does not return (threshold, witness threshold, witnesses, cuts, adds)")
            continue
        ctx.need(all(tt[2 + i] is q.w.mksub(D, C(i)) for i in range(3)), R4, "Kever.rotate:witnesses derived", q.where(node),
                 "the witnesses, cuts and adds are not the ones derived from the event")
        ctx.need(tt[1] in [q.term(s) for s in ("serder.bner", "Number(num=serder.ked['bt'])", "Number(num=serder.bn)")], R4, "Kever.rotate:witness threshold", q.where(node),
                 "the witness threshold is not the event's")
        env = {"w": tt[2], "n": tt[1]}
        for lab, src in LIMITS:
            ctx.need(q.holds(st, src, env), R2, f"Kever.rotate:{lab}", q.where(node), f"a rotation is accepted although '{lab}' is not established")
    # derivation of the witness set
    q = Q(ctx, EV, "Kever.deriveBacks", KB - {"deriveBacks"})
    mine, cuts, adds = q.term("self.wits"), q.term("serder.cuts"), q.term("serder.adds")
    kept = changed = 0
    for st, v, node in q.exits():
        tt = tup(v)
        if not tt or len(tt) != 3:
            ctx.bad(R3, "Kever.deriveBacks:result", q.where(node), "does not return (witnesses, cuts, adds)")
            continue
        if tt[0] is mine:
            kept += 1
            norot = "serder.ilk not in (Ilks.rot, Ilks.drt)"
            old = " || ".join(f"{norot} or {l} >= {n}" for l in ("self.lastEst.s",) for n in ("serder.sn", "serder.sner.num"))
            inst = "Kever.deriveBacks:rotation at the last establishment keeps current witnesses" if q.holds(st, old) else \
                "Kever.deriveBacks:unchanged only for non-rotations"
            ctx.need(q.holds(st, norot), R3, inst, q.where(node), "a rotation's cuts and adds are ignored and the current witnesses kept")
            continue
        changed += 1
        ctx.need(backs_ok(q, tt[0], mine, cuts, adds), R3, "Kever.deriveBacks:set algebra", q.where(node),
                 f"the new witnesses {show(tt[0])[:90]} are not the current ones less the cuts plus the adds")
        ctx.need(tt[1] is cuts and tt[2] is adds, R3, "Kever.deriveBacks:cuts and adds", q.where(node), "cuts and adds returned are not the event's")
        env = {"W": mine, "X": cuts, "A": adds}
        for lab, pats in BACKS:
            ctx.need(any(q.holds(st, p, env) for s in SETS[:2] for p in (pats.replace("oset", s),)), R3, f"Kever.deriveBacks:{lab}", q.where(node),
                     f"a witness change is accepted although '{lab}' has not been established")
    ctx.need(changed > 0, R3, "Kever.deriveBacks:changes possible", q.where(), "witnesses can never change")
    refuses_only(q, R3, [p for s in SETS[:2] for _, ps in BACKS for p in negs(ps.replace("oset", s))] + [
        lambda st: any(t.k == "eq" and not p and any(fname(z) == "len" for z in t.a) for t, p in st.facts)],
        "a witness change is refused", env={"W": mine, "X": cuts, "A": adds})
    # which witnesses apply to which event
    q = Q(ctx, EV, "Kever.update", KB)
    r = q.term("self.rotate(serder)")
    rot = lambda e: q.holds(e, ROT)
    require(q, R4, "witness check", q.calls("valSigsWigsDel"), [
        ("rotation: the new witnesses", lambda e: not rot(e) or arg(e.term, None, "wits") is q.w.mksub(r, C(2))),
        ("rotation: the new witness threshold", lambda e: not rot(e) or arg(e.term, None, "toader") is q.w.mksub(r, C(1))),
        ("interaction: the current witnesses", lambda e: rot(e) or arg(e.term, None, "wits") is q.term("self.wits")),
        ("interaction: the current witness threshold", lambda e: rot(e) or arg(e.term, None, "toader") is q.term("self.toader")),
        ("the attached witness signatures", lambda e: arg(e.term, None, "wigers") is P("wigers")),
    ], "witness check of an event", 2)
    q = Q(ctx, EV, "Kever.__init__", KB)
    require(q, R4, "witness check", q.calls("valSigsWigsDel"), [
        ("inception: its own witnesses", lambda e: arg(e.term, None, "wits") in (q.term("self.wits"), q.term("serder.backs"))),
        ("inception: its own witness threshold", lambda e: arg(e.term, None, "toader") in (q.term("self.toader"), q.term("serder.bner"))),
        ("the attached witness signatures", lambda e: arg(e.term, None, "wigers") is P("wigers")),
    ], "witness check of an inception")


LIMITS = (("no witnesses, no threshold", "w or n.num == 0"), ("at least one", "not w or n.num >= 1"), ("at most all", "not w or n.num <= len(w)"))
BACKS = (
    ("cuts distinct", "len(oset(X)) == len(X)"),
    ("adds distinct", "len(oset(A)) == len(A)"),
    ("cuts among the witnesses", "(oset(W) & oset(X)) == oset(X) || oset(X) <= oset(W) || oset(X).issubset(oset(W)) || not oset(X) - oset(W) || oset(X).issubset(W)"),
    ("cuts and adds disjoint", "not oset(X) & oset(A) || oset(X).isdisjoint(oset(A)) || not oset(A) & oset(X) || oset(A).isdisjoint(oset(X)) || oset(X).isdisjoint(A)"),
    ("adds outside the witnesses", "not oset(W) & oset(A) || oset(W).isdisjoint(oset(A)) || not oset(A) & oset(W) || oset(A).isdisjoint(oset(W)) || oset(W).isdisjoint(A)"),
)


def negs(ps):
    return [f"not ({p.strip()})" for p in ps.split("||")]


def backs_ok(q, t, W, X, A):
    L = t
    while L.k == "call" and L.a[0].k == "g" and L.a[0].a[0] in ("list", "tuple") and len(L.a[1]) == 1:
        L = L.a[1][0]
    if L.k == "fresh":
        L = L.a[0]

    def isw(x):
        return x is W or asset(x) is W

    def isx(x, y):
        return x is y or asset(x) is y
    s = setop(L)
    if s and s[0] == "|" and isx(s[2], A):
        d = setop(s[1])
        return bool(d and d[0] == "-" and isw(d[1]) and isx(d[2], X))
    if L.k == "bin" and L.a[0] in ("Add", "+"):        # list form: kept + adds
        got = appended(q, L.a[1])
        return L.a[2] is A and bool(got) and all(is_elem(x, W) and any(
            tt.k == "in" and tt.a[0] is x and not p and isx(tt.a[1], X) for tt, p in ev.facts) for x, ev in got)
    got = appended(q, L)
    if got:
        a = [g for g in got if is_elem(g[0], W) and any(tt.k == "in" and tt.a[0] is g[0] and not p and isx(tt.a[1], X) for tt, p in g[1].facts)]
        b = [g for g in got if is_elem(g[0], A)]
        return bool(a) and bool(b) and len(a) + len(b) == len(got)
    return False


# ------------------------------------------------------------------ K05 delegation
def is_stored_event(t, pre):
    """db.evts.get(keys=(pre, <digest of the last event at some sn in pre's log>))"""
    if t is None or fname(t) != "get" or "evts" not in chain(recv(t)):
        return None
    ks = tup(arg(t, 0, "keys"))
    if not ks or len(ks) != 2 or unwrap(ks[0]) is not pre:
        return None
    d = unwrap(ks[1])
    if fname(d) == "getLast" and "kels" in chain(recv(d)) and unwrap(arg(d, 0, "keys")) is pre:
        return arg(d, 1, "on")
    return None


def is_sealing(t, q, pre):
    """db.fetchLastSealingEventByEventSeal(pre, seal=<event seal of serder>)"""
    if fname(t) != "fetchLastSealingEventByEventSeal" or arg(t, 0, "pre") is not pre:
        return False
    s = arg(t, 1, "seal")
    want = {"i": ("serder.pre",), "s": ("serder.snh", "serder.sner.numh"), "d": ("serder.said",)}
    return s is not None and all(seal_field(s, k) in [q.term(x) for x in v] for k, v in want.items())


def seal_field(s, k):
    if s.k == "call" and s.a[0].k == "a" and s.a[0].a[1] == "_asdict":
        s = s.a[0].a[0]
    if s.k == "dict":
        for kk, vv in (s.a[0] if isinstance(s.a[0], tuple) else ()):
            if iscon(kk) and kk.a[0] == k:
                return vv
        return None
    return arg(s, {"i": 0, "s": 1, "d": 2}[k], k)


@prop("K05")
def k05(ctx):
    R1 = "K05.delegation-gate"
    ctx.rule(R1, "every validated event goes through the delegation check against the delegator named by its own log, and keeps its seal", 4)
    R2 = "K05.seal"
    ctx.rule(R2, "a delegated event is validated by a controller that is not exempt only with the delegator's log known, delegation "
                 "allowed, and the delegator's own logged event anchoring exactly this event", 4)
    R3 = "K05.approval"
    ctx.rule(R3, "a locally controlled delegator's approval is required explicitly", 2)
    R4 = "K05.superseding"
    ctx.rule(R4, "a delegated rotation supersedes a delegated rotation only when its delegation is later in the delegator's log", 3)
    q = Q(ctx, EV, "Kever.valSigsWigsDel", KB)
    dip, drt = q.term("serder.ilk == Ilks.dip"), q.term("serder.ilk == Ilks.drt")
    vd = {e.term for e in q.calls("validateDelegation") if arg(e.term, 0, "serder") is P("serder") and recv(e.term) is P("self")}
    ctx.need(bool(vd), R1, "Kever.valSigsWigsDel:delegation checked", q.where(), "the delegation of an event is never checked")
    for st, v, node in q.exits():
        tt = tup(v)
        if not tt or len(tt) != 5:
            ctx.bad(R1, "Kever.valSigsWigsDel:result", q.where(node), "does not return (sigers, wigers, delegator, seal number, seal digest)")
            continue
        dp = tt[2]
        isdip, isdrt = holds(st, dip), holds(st, drt)
        kind = "dip" if isdip else "drt" if isdrt else "other"
        want = {"dip": (q.term("serder.delpre"),), "drt": (q.term("self.delpre"),), "other": (NONE,)}[kind]
        if kind == "other":
            ctx.need(not maybe(st, dip) and not maybe(st, drt), R1, "Kever.valSigsWigsDel:type known", q.where(node),
                     "an event is validated without its delegation type being determined")
        ctx.need(dp in want, R1, f"Kever.valSigsWigsDel:{kind} delegator", q.where(node), f"for {kind} events the delegator is taken to be {show(dp)[:60]}")
        if isdip:
            ctx.need(holds(st, dp), R1, "Kever.valSigsWigsDel:dip names a delegator", q.where(node), "a delegated inception without a delegator is accepted")
        calls = [c for c in vd if any((h.a[0] if h.k == "fresh" else h) is c for h in st.hist)]
        good = any(arg(c, 4, "delpre") is dp and tt[3] is q.w.mksub(c, C(0)) and tt[4] is q.w.mksub(c, C(1)) and arg(c, 3, "wits") is P("wits")
                   and arg(c, None, "delsner") is P("delsner") and arg(c, None, "delsger") is P("delsger") for c in calls)
        ctx.need(good, R1, f"Kever.valSigsWigsDel:{kind} checked with its delegator", q.where(node),
                 "the event is validated without the delegation check of this event, delegator, witnesses and given seal")
        dl = q.term("self.locallyDelegated(pre=x) and not self.locallyOwned()", {"x": dp})
        if kind != "other":
            ctx.need(holds(st, q.term("not x or delsner is not None and delsger is not None", {"x": dl})) or
                     holds(st, q.term("not self.locallyDelegated(x) or self.locallyOwned() or delsner is not None and delsger is not None", {"x": dp})),
                     R3, f"Kever.valSigsWigsDel:{kind} approval", q.where(node),
                     "an event delegated by a locally controlled identifier is accepted without that identifier's approval seal")
    for st, n in raises_named(q, {"MissingDelegableApprovalError"}):
        ctx.need(before("escrowDelegableEvent", lambda t: arg(t, 0, "serder") is P("serder"))(st), R3, "Kever.valSigsWigsDel:escrowed for approval", q.where(n),
                 "an event awaiting approval is refused without being escrowed for it")
    # validateDelegation
    q = Q(ctx, EV, "Kever.validateDelegation", KB)
    w = q.w
    DP = P("delpre")
    exempt = f"{OWN} or {MEM} or self.locallyWitnessed(wits=wits)"
    n = nsup = 0
    how = set()
    EARLY = ("serder.ilk == Ilks.dip or serder.sner.num == self.sner.num + 1 or "
             "serder.sner.num == self.sner.num and self.ilk == Ilks.ixn and serder.ilk == Ilks.drt")
    for st, v, node in q.exits():
        tt = tup(v)
        if not tt or len(tt) != 2:
            ctx.bad(R2, "Kever.validateDelegation:result", q.where(node), "does not return (seal number, seal digest)")
            continue
        if q.holds(st, "delsner is not None and delsger is not None and (not delsner or not delsger)"):
            continue      # Number and Diger instances are always true
        if tt[0] is NONE:
            ctx.need(q.holds(st, f"not delpre or {exempt}"), R2, "Kever.validateDelegation:exempt only", q.where(node),
                     "an event is exempted from delegation although it has a delegator and this controller is none of its own, member or witness")
            continue
        n += 1
        ctx.need(q.holds(st, "delpre in self.kevers || delpre in self.db.kevers || self.kevers.get(delpre)"), R2, "Kever.validateDelegation:delegator known", q.where(node),
                 "accepted without the delegator's log")
        ctx.need(q.holds(st, "not self.kevers[delpre].doNotDelegate || not self.db.kevers[delpre].doNotDelegate || not self.kevers.get(delpre).doNotDelegate"), R2,
                 "Kever.validateDelegation:delegator allows delegation", q.where(node), "accepted although the delegator does not allow delegation")
        found = None
        for s2 in witnesses(q, st):
            for x in terms_of(s2):
                if is_sealing(x, q, DP) and (holds(s2, x) or q.holds(s2, "x is not None", {"x": x})):
                    if tt[0] in [q.term(z, {"x": x}) for z in ("Number(num=x.sn)", "Number(numh=x.snh)", "x.sner", "Number(num=x.sner.num)")] and \
                            tt[1] in [q.term(z, {"x": x}) for z in ("Diger(qb64=x.said)", "Diger(qb64b=x.saidb)")] and q.holds(s2, "eager"):
                        found = x
                        how.add("sought")
                on = is_stored_event(x, DP)
                if on is not None and any(y is P("delsner") for y in subterms(on)):
                    for E in terms_of(s2):
                        if E.k == "elem" and E.a[0].k == "a" and E.a[0].a[1] in ("seals",) and E.a[0].a[0] is x:
                            for S in (q.term("SealEvent(**E)", {"E": E}), E):
                                f = (lambda k: f"S.{k}") if S is not E else (lambda k: f"S['{k}']")
                                if q.holds(s2, f"{f('i')} == serder.pre", {"S": S}) and \
                                        q.holds(s2, f"{f('s')} == serder.snh || {f('s')} == serder.sner.numh", {"S": S}) and \
                                        q.holds(s2, f"serder.compare(said={f('d')}) || {f('d')} == serder.said", {"S": S}):
                                    if tt[0] in [q.term(z, {"x": x}) for z in ("Number(numh=x.snh)", "Number(num=x.sn)", "x.sner", "Number(num=x.sner.num)")] and \
                                            tt[1] in [q.term(z, {"x": x}) for z in ("Diger(qb64=x.said)", "Diger(qb64b=x.saidb)")]:
                                        found = x
                                        how.add("given")
        ctx.need(found is not None, R2, "Kever.validateDelegation:anchored by the delegator", q.where(node),
                 "accepted without a seal of exactly this event (identifier, sequence number, digest) found in the delegator's own logged event, or returns another seal")
        if q.holds(st, EARLY):
            ctx.ok(R4, "Kever.validateDelegation:not superseding a rotation")
            continue
        nsup += 1
        ok = False
        heads = {p for p, d in w.phis.items() if found is not None and found in d["init"]}
        olds = {p for p, d in w.phis.items() if any(fname(i) == "fetchDelegatingEvent" and arg(i, 1, "serder") is q.term("self.serder") and
                                                    arg(i, None, "original") in (TRUE, None) for i in d["init"])}
        def link(p, orig):
            d = w.phis[p]
            return all(i is p or fname(i) == "fetchDelegatingEvent" and arg(i, 0, "delpre") is DP and arg(i, 1, "serder") is p and
                       (arg(i, None, "original") or TRUE) is orig for i, f in d["steps"])
        heads = {p for p in heads if link(p, FALSE)} | ({found} if found is not None else set())
        olds = {p for p in olds if link(p, TRUE)} | {x for x in terms_of(st) if fname(x) == "fetchDelegatingEvent" and arg(x, 1, "serder") is q.term("self.serder")}
        for a in heads:
            for b in olds:
                env = {"a": a, "b": b}
                if q.holds(st, "a.sn > b.sn or a.ilk in (Ilks.rot, Ilks.drt) and b.ilk == Ilks.ixn || "
                               "a.sn > b.sn or a.ilk == Ilks.drt and b.ilk == Ilks.ixn || a.sner.num > b.sner.num", env):
                    ok = True
                    if maybe(st, q.term("a.sn > b.sn", env)):
                        how.add("later")
                    if maybe(st, q.term("a.sn <= b.sn and a.ilk == Ilks.drt", env)) and maybe(st, q.term("a.sn <= b.sn and a.ilk == Ilks.rot", env)):
                        how.add("rotation over interaction")
                if q.holds(st, "a.said == b.said || a.compare(said=b.said) || a.saidb == b.saidb", env):
                    idx = [x for x in terms_of(st) if fname(x) == "index"]
                    N = [x for x in idx if about_seals(q, x, a)]
                    O = [x for x in idx if about_seals(q, x, b)]
                    if any(x is not y and q.holds(st, "x > y", {"x": x, "y": y}) and seal_of(q, x, "serder") and not seal_of(q, y, "serder", strict=True)
                           for x in N for y in O):
                        ok = True
                        how.add("later seal")
        ctx.need(ok, R4, "Kever.validateDelegation:later delegation", q.where(node),
                 "a delegated rotation supersedes another without its delegation being established as later than the superseded one's")
    ctx.need(n > 0, R2, "Kever.validateDelegation:delegation possible", q.where(), "no delegated event can be validated")
    refuses_only(q, R2, [
        "self.kevers[delpre].doNotDelegate || self.db.kevers[delpre].doNotDelegate || self.kevers.get(delpre).doNotDelegate",
        lambda st: any(is_stored_event(x, DP) is not None and (q.holds(st, "x is None || not x", {"x": x})) for x in terms_of(st)),
        lambda st: any(q.holds(st, "x <= y", {"x": x, "y": y}) for x in terms_of(st) for y in terms_of(st)
                       if x is not y and fname(x) == "index" and fname(y) == "index" and seal_of(q, x, "serder") and not seal_of(q, y, "serder", strict=True)),
    ], "a delegated event is refused")
    refuses_only(q, R2, [
        "self.kevers is None or delpre not in self.kevers || self.kevers.get(delpre) is None || delpre not in self.db.kevers",
        "(delsner is None or delsger is None) and not eager",
        lambda st: any((is_sealing(x, q, DP) or fname(x) == "fetchDelegatingEvent" or fname(x) == "getLast") and
                       q.holds(st, "x is None || not x", {"x": x}) for x in terms_of(st)),
        lambda st: any(h.k == "looped" and h.a[0].k == "a" and h.a[0].a[1] == "seals" for h in st.hist) or any(
            t.k == "forall" and p and t.a[0].k == "a" and t.a[0].a[1] == "seals" for t, p in st.facts),
    ], "a delegated event is held back as not yet delegated", names=("MissingDelegationError",))
    for kind, st, v, node in w.exits:
        if kind == "raise" and v is not None and exc_name(v) in ("MissingDelegationError", "ValidationError"):
            ctx.need(q.holds(st, f"delpre and not ({exempt})"), R2, "Kever.validateDelegation:exempt never refused", q.where(node),
                     "an event of a locally owned, member or witnessed identifier, or one without a delegator, is refused for its delegation")
    for k, what in (("sought", "found by searching the delegator's log"), ("given", "found at the given location in the delegator's log")):
        ctx.need(k in how, R2, f"Kever.validateDelegation:{k} seal accepted", q.where(), f"a delegation {what} is never accepted")
    for k in ("later", "rotation over interaction", "later seal"):
        ctx.need(k in how, R4, f"Kever.validateDelegation:supersedes by {k}", q.where(), f"a delegated rotation never supersedes by the rule '{k}'")
    require(q, R4, "superseding search", q.calls("fetchDelegatingEvent"), [
        ("only for rotations over rotations", f"not ({EARLY})")], "the superseded delegation is looked up")
    for st, nd in raises_named(q, {"MissingDelegationError"}):
        ctx.need(before("escrowPDEvent", lambda t: arg(t, 0, "serder") is P("serder"))(st), R2, "Kever.validateDelegation:escrowed before refusal", q.where(nd),
                 "an event whose delegation is not yet established is refused without being escrowed for it")


def about_seals(q, x, ev):
    """x = <list built from ev.seals>.index(...)"""
    L = recv(x)
    got = q.w.comp_elems.get(L) if L is not None else None
    if got is not None:
        return any(it.k == "a" and it.a[1] == "seals" and it.a[0] is ev for it, cl in got[1])
    return any(s.k == "a" and s.a[1] == "seals" and s.a[0] is ev for s in subterms(L))


def seal_of(q, x, name, strict=False):
    """the index looked up is that of a seal of the event `name` or of the event heading its delegation chain"""
    s = arg(x, 0, "value")
    if s is None:
        return False
    i, d = arg(s, 0, "i"), arg(s, 2, "d")
    if i is None or i.k != "a":
        return False
    b = i.a[0]
    if b is P(name):
        return True
    if strict:
        return False
    ph = q.w.phis.get(b)
    return ph is not None and P(name) in ph["init"]
