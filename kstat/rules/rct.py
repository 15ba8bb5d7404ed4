"""Receipts: verified before stored, held whole when their event or receipter is not known yet."""
from . import prop
from .corelib import *
from .kel import KB, before, maybe
from .kel2 import is_elem
from .kev import src_flag, S

RB = KB | {"escrowUWReceipt", "escrowUReceipt", "escrowTRGroups", "escrowTReceipts", "escrowTransReceiptGroup", "_processEscrowFindUnver", "escrowQueryNotFoundEvent"}
B = {"qb64b": "qb64", "saidb": "said", "preb": "pre"}


def norm(t):
    """content of an identifier, digest or ordinal whatever its wrapping (bytes or text, primitive or its text)"""
    while t is not None:
        u = unwrap(t)
        if u.k == "a" and u.a[1] in ("qb64", "qb64b") and u.a[0].k == "call" and fname(u.a[0]) in ("Diger", "Saider", "Prefixer", "Verfer", "Siger", "Cigar"):
            got = arg(u.a[0], None, "qb64", "qb64b")
            if got is not None:
                t = got
                continue
        if u.k == "a" and u.a[1] in B:
            u = A(u.a[0], B[u.a[1]])
            t = u
            continue
        if u.k == "a" and u.a[1] in ("sn", "num") and u.a[0].k == "call" and fname(u.a[0]) in ("Number", "Seqner"):
            got = arg(u.a[0], None, "num", "sn")
            if got is not None:
                t = got
                continue
        if u.k == "sub" and u.a[0].k == "a" and u.a[0].a[1] == "ked" and u.a[1] in (C("d"), C("i")):
            u = A(u.a[0].a[0], "said" if u.a[1] is C("d") else "pre")
        if u.k == "a" and u.a[1] == "num":
            u = A(u.a[0], "sn")
        return u
    return None


def same(a, b):
    return a is not None and b is not None and norm(a) is norm(b)


def keyparts(t, n=None):
    ks = tup(t) if t is not None else None
    if ks is None and fname(t) == "dgKey":
        ks = [arg(t, 0, "pre"), arg(t, 1, "dig")]
    return [norm(k) for k in ks] if ks else []


def verified(e, sig):
    """(verifier, text) pairs under which this signature is known to verify here"""
    out = []
    for t, p in e.facts:
        if p and fname(t) == "verify" and recv(t) is not None:
            s, r = arg(t, 0, "sig"), arg(t, 1, "ser")
            if s is not None and r is not None and (s is A(sig, "raw") or ctor_part(s) is ctor_part(A(sig, "raw"))):
                out.append((ctor_part(recv(t)), r))
    return out


def ctor_part(t):
    """attribute of a freshly constructed signature: what it was constructed with"""
    if t.k == "a" and t.a[0].k == "call" and fname(t.a[0]) in ("Siger", "Cigar"):
        return arg(t.a[0], None, t.a[1].lstrip("_")) or t
    return t


def eqfacts(q, e, x):
    """identifiers known equal to event x's said"""
    out = [A(x, "said")]
    for t, p in e.facts:
        if p and fname(t) == "compare" and recv(t) is x:
            out.append(norm(arg(t, 0, "said")))
        if p and t.k == "eq":
            a, b = norm(t.a[0]), norm(t.a[1])
            if a is A(x, "said"):
                out.append(b)
            if b is A(x, "said"):
                out.append(a)
    return out


def from_db(E):
    """(pre, digest) under which event E was read"""
    if dbop(E, "evts", "get"):
        ks = keyparts(arg(E.a[0] if E.k == "fresh" else E, 0, "keys"))
        return ks if len(ks) == 2 else None
    return None


def last_at(d, pre, sn, firner=None):
    """digest d is the last accepted one of pre at sn"""
    if not dbop(d, "kels", "getLast"):
        return firner is not None and dbop(d, "fels", "get") and same(arg(d, 0, "keys"), pre) and same(arg(d, None, "on"), firner)
    return same(arg(d, 0, "keys"), pre) and same(arg(d, None, "on"), sn)


def witness_list(q, e, W, pre, sn):
    got = appended(q, W)
    if got is None:
        return False
    return bool(got) and all(norm(x).k == "a" and norm(x).a[1] == "qb64" and norm(x).a[0].k == "elem" and fname(norm(x).a[0].a[0]) == "fetchWitnessState" and
                             same(arg(norm(x).a[0].a[0], 0, "pre"), pre) and same(arg(norm(x).a[0].a[0], 1, "sn"), sn) for x, ev in got)


def stored_receipts(q, R, accepted, pre, sn, own=True, wits=None, nontrans=True):
    """every receipt signature stored verifies over the receipted event; accepted(e, E) -> identifiers under which it may be filed, or None"""
    ctx = q.ctx
    wits = wits or (lambda e, W, E: witness_list(q, e, W, pre, sn))

    def judged(e, sig):
        for V, raw in verified(e, sig):
            if raw.k == "a" and raw.a[1] == "raw":
                ids = accepted(e, raw.a[0])
                if ids:
                    yield V, raw.a[0], ids

    def keyed(e, ids):
        ks = keyparts(arg(e.term, 0, "keys"))
        return len(ks) >= 2 and ks[0] is norm(pre) and ks[1] in ids

    def mine(e, rid):
        return not own or q.holds(e, "self.lax or r not in self.prefixes", {"r": rid}) or src_flag(q, e, TRUE) and q.holds(e, "p not in self.prefixes", {"p": pre})
    n = 0
    wg, rc, vr = [[e for e in q.calls("add", "put", "pin") if chain(recv(e.term))[-1] == s] for s in ("wigs", "rcts", "vrcs")]
    for e in wg:
        v = arg(e.term, 1, "val")
        n += 1
        good = False
        if fname(v) == "Siger":
            raw, ix, vf = (arg(v, None, k) for k in ("raw", "index", "verfer"))
            sig = raw.a[0] if raw is not None and raw.k == "a" and raw.a[1] == "raw" else None
            if ix is not None and ix.k == "call" and fname(ix) == "index" and sig is not None:
                W, rp = recv(ix), arg(ix, 0, "value")
                good = any(vf is V and same(rp, A(V, "qb64")) and q.holds(e, "r in W", {"r": rp, "W": W}) and wits(e, W, E) and keyed(e, ids) and mine(e, A(V, "qb64"))
                           for V, E, ids in judged(e, sig))
        elif v is not None:
            for V, E, ids in judged(e, v):
                k = arg(V, None, "qb64", "qb64b") if fname(V) == "Verfer" else None
                if k is not None and k.k == "sub" and k.a[1] is A(v, "index") and wits(e, k.a[0], E) and q.holds(e, "x.index < len(W)", {"x": v, "W": k.a[0]}):
                    good = good or keyed(e, ids) and mine(e, A(V, "qb64"))
        ctx.need(good, R, f"{q.qual}:witness receipt", q.where(e.node), "a witness receipt signature is stored that was not verified over the receipted event with the key of the "
                 "witness its index names in that event's witness list")
    for e in rc:
        v = tup(arg(e.term, 1, "val"))
        n += 1
        good = bool(v) and len(v) == 2 and any(v[0] is V and keyed(e, ids) and mine(e, A(V, "qb64")) and (not nontrans or q.holds(e, "not v.transferable", {"v": V}))
                                              for V, E, ids in judged(e, v[1]))
        ctx.need(good, R, f"{q.qual}:nontransferable receipt", q.where(e.node), "a nontransferable receipt is stored that was not verified over the receipted event with its receipter's key")
    for e in vr:
        v = arg(e.term, 1, "val")
        ks = keyparts(arg(e.term, 0, "keys"))
        n += 1
        good = False
        for V, E, ids in judged(e, v):
            if V.k != "sub" or V.a[1] is not A(v, "index") or V.a[0].k != "a" or V.a[0].a[1] != "verfers":
                continue
            sE = V.a[0].a[0]
            at = from_db(sE)
            if at is None or len(ks) != 5 or not keyed(e, ids):
                continue
            rid, d = at
            num = ks[3].a[0] if ks[3].k == "a" and ks[3].a[1] in ("onkey", "huge", "snh", "qb64") else None
            good = good or ks[2] is rid and last_at(d, rid, A(num, "sn") if num is not None else None) and ks[4] in eqfacts(q, e, sE) and \
                q.holds(e, "x.index < len(v)", {"x": v, "v": V.a[0]}) and (not own or q.holds(e, "self.lax or r not in self.prefixes || self.lax or r.qb64 not in self.prefixes", {
                    "r": arg_pre(rid)}) or src_flag(q, e, TRUE) and q.holds(e, "p not in self.prefixes", {"p": pre}))
        ctx.need(good, R, f"{q.qual}:transferable receipt", q.where(e.node), "a transferable receipt signature is stored that was not verified over the receipted event with the key its index "
                 "names in the receipter's cited, accepted establishment event, or is filed under another event or receipter")
    return len(wg), len(rc), len(vr)


def arg_pre(rid):
    return rid


def kept_receipts(q, R, lists, verdict):
    """a receipt signature that verifies is stored: no iteration over the given ones ends otherwise without a reason"""
    ctx = q.ctx
    for p, stores, reasons in lists:
        ends = [b for b in q.w.events if b.kind == "bodyend" and (b.term is p if isinstance(p, T) else p(b.term))]
        ctx.need(bool(ends), R, f"{q.qual}:{show(p)[:20] if isinstance(p, T) else 'groups'} each judged", q.where(), "given receipt signatures are not each judged")
        for b in ends:
            x = q.w.elem_of(b.term)
            done = any(did(b, s, ("add", "put")) for s in stores)
            why = any(not pol and fname(t) == "verify" and arg(t, 0, "sig") is A(x, "raw") for t, pol in b.facts)
            V = b.st.heap.get((x, "verfer"), A(x, "verfer"))
            why = why or any(q.holds(b, r, {"x": x, "V": V}) for r in reasons)
            ctx.need(done or why, R, f"{q.qual}:{show(b.term)[:30]} kept", q.where(b.node), "a receipt signature that verifies is not stored")


OWNR = "not self.lax and V.qb64 in self.prefixes and (serder.pre in self.prefixes or not (local or local is None and self.local))"


@prop("K09")
def k09(ctx):
    R1 = "K09.verified"
    ctx.rule(R1, "a receipt signature is stored only after verifying over the accepted event it receipts, with the key of the receipter it is filed under, "
                 "and under that event", 14)
    R2 = "K09.kept"
    ctx.rule(R2, "a receipt signature that verifies is stored", 6)
    R3 = "K09.held"
    ctx.rule(R3, "receipts whose event or receipter is not known yet are held whole before processing ends", 10)
    # receipt messages
    q = Q(ctx, EV, "Kevery.processReceipt", RB, limit=1500)
    PRE, SN = A(S, "pre"), A(S, "sn")

    def acc_db(e, E):
        at = from_db(E)
        if at is None or at[0] is not norm(PRE) or not last_at(at[1], PRE, SN):
            return None
        if not any(x is A(S, "said") for x in eqfacts(q, e, E)):
            return None
        return {at[1]} | set(eqfacts(q, e, E))
    n = stored_receipts(q, R1, acc_db, PRE, SN)
    ctx.need(all(n), R1, f"{q.qual}:kinds", q.where(), "one kind of receipt is never stored")
    grp = lambda name: lambda t: t.k == "sub" and t.a[0].k == "elem" and t.a[0].a[0] is P(name)
    kept_receipts(q, R2, [(P("cigars"), ("wigs", "rcts"), ["V.transferable", OWNR]),
                          (P("wigers"), ("wigs",), WREAS),
                          (grp("tsgs"), ("vrcs",), []), (grp("rsgs"), ("vrcs",), [])], None)
    # receipted event unknown
    unk = [(st, nd) for st, nd in raises_named(q, {"UnverifiedReceiptError"})]
    ctx.need(bool(unk), R3, f"{q.qual}:unknown event reported", q.where(), "a receipt of an unknown event is not reported")
    for st, nd in unk:
        for p, esc, k in (("cigars", "escrowUReceipt", "cigars"), ("tsgs", "escrowTRGroups", "tsgs"), ("rsgs", "escrowTRGroups", "tsgs"), ("wigers", "escrowUWReceipt", "wigers")):
            ctx.need(q.holds(st, f"not {p}") or called_before(st, lambda t: fname(t) == esc and arg(t, 0, "serder") is S and any(
                arg(t, i, k) is P(p) for i in (1,)) and (esc == "escrowTRGroups" or same(arg(t, 2, "said"), A(S, "said")))), R3, f"{q.qual}:{p} held", q.where(nd),
                f"a receipt of an unknown event ends without its {p} being held")
        ctx.need(any(dbop(t, "kels", "getLast") and q.holds(st, "x is None", {"x": t}) for t in terms_of(st)), R3, f"{q.qual}:unknown only", q.where(nd),
                 "a receipt of a known event is put off")
    for qq in (q,):
        receipter_unknown(qq, R3, "escrowTReceipts", "number", "saider", "prefixer")
    # attached to an event
    qc = Q(ctx, EV, "Kevery.processAttachedReceiptCouples", RB, limit=800)

    def acc_here(qx):
        def acc(e, E):
            if E is not S:
                return None
            ids = [x for x in eqfacts(qx, e, S) if last_at(x, PRE, SN, A(P("firner"), "sn"))]
            return set(ids) | {A(S, "said")} if ids else None
        return acc
    n = stored_receipts(qc, R1, acc_here(qc), PRE, SN)
    ctx.need(n[0] and n[1], R1, f"{qc.qual}:kinds", qc.where(), "one kind of receipt is never stored")
    kept_receipts(qc, R2, [(P("cigars"), ("wigs", "rcts"), ["V.transferable", OWNR])], None)
    unk = raises_named(qc, {"UnverifiedReceiptError"})
    ctx.need(bool(unk), R3, f"{qc.qual}:unknown event reported", qc.where(), "a receipt of an unknown event is not reported")
    for st, nd in unk:
        ctx.need(called_before(st, lambda t: fname(t) == "escrowUReceipt" and arg(t, 0, "serder") is S and arg(t, 1, "cigars") is P("cigars") and same(arg(t, 2, "said"), A(S, "said"))), R3,
                 f"{qc.qual}:cigars held", qc.where(nd), "receipts attached to a not yet accepted event are not held")
    for st, v, nd in qc.exits():
        ctx.need(any(h.k == "looped" and h.a[0] is P("cigars") for h in st.hist), R2, f"{qc.qual}:all judged", qc.where(nd), "given receipts are ignored")
    qt = Q(ctx, EV, "Kevery.processAttachedReceiptSigGroups", RB, limit=800)
    n = stored_receipts(qt, R1, acc_here(qt), PRE, SN)
    ctx.need(n[2], R1, f"{qt.qual}:kinds", qt.where(), "transferable receipts are never stored")
    kept_receipts(qt, R2, [(grp("rsgs"), ("vrcs",), [])], None)
    receipter_unknown(qt, R3, "escrowTransReceiptGroup", "snumber", "diger", "sprefixer", nm="rsgs")
    k09_held(ctx)
    ctx.rule("K09.unescrow", "a held receipt is stored only after verifying over the then known event it receipts, with the key of its receipter", 8)
    k09_unescrow(ctx)


WREAS = ["x.index >= len([w.qb64 for w in self.fetchWitnessState(serder.pre, serder.sn)])", "V.transferable", OWNR]


def receipter_unknown(q, R, esc, num, dig, pre, nm=None):
    ctx = q.ctx
    unk = raises_named(q, {"UnverifiedTransferableReceiptError"})
    ctx.need(bool(unk), R, f"{q.qual}:unknown receipter reported", q.where(), "a receipt by an unknown receipter is not reported")
    for st, nd in unk:
        def ok(t):
            if fname(t) != esc or arg(t, 0, "serder") is not S:
                return False
            a = [arg(t, i + 1, k) for i, k in enumerate((pre, num, dig, "sigers"))]
            return all(x is not None and x.k == "sub" and x.a[0].k == "elem" and x.a[0] is a[0].a[0] and x.a[1] is C(i) for i, x in enumerate(a))
        ctx.need(called_before(st, ok), R, f"{q.qual}:unknown receipter held", q.where(nd), "a receipt group by a receipter not known yet ends without being held whole")


def sn_of(q, t, sn):
    """t is a key component holding sequence number sn"""
    if t is None:
        return False
    t = unwrap(t)
    return same(t, sn) or t.k == "a" and t.a[1] in ("qb64", "qb64b", "snh", "onkey", "huge", "numh") and sn_of(q, t.a[0] if t.a[0].k == "call" and fname(t.a[0]) in (
        "Number", "Seqner") and t.a[1].startswith("qb64") else A(t.a[0], "sn"), sn) or t.k == "call" and fname(t) in ("Number", "Seqner") and same(A(t, "sn"), sn)


def under_sn(q, e, t):
    """an escrow write keyed by the receipted event's identifier and sequence number"""
    k, on = arg(t, 0, "keys"), arg(t, None, "on")
    if k is None:
        return False
    if on is not None:
        return same(k, A(S, "pre")) and same(on, A(S, "sn"))
    if is_onkey(k, S):
        return True
    ks = tup(k)
    return bool(ks) and len(ks) == 2 and same(ks[0], A(S, "pre")) and sn_of(q, ks[1], A(S, "sn"))


def k09_held(ctx):
    R3, R4 = "K09.held", "K09.unescrow"
    SAID = P("said")
    for fn, loops, store, want, skip in (
            ("escrowUWReceipt", (P("wigers"),), "uwes", lambda x, g: (SAID, A(x, "qb64")), None),
            ("escrowUReceipt", (P("cigars"),), "ures", lambda x, g: (SAID, A(A(x, "verfer"), "qb64"), x), "x.verfer.transferable"),
            ("escrowTRGroups", None, "vres", lambda x, g: (A(S, "said"), g(0), A(g(1), "sn"), A(g(2), "qb64"), x), None),
            ("escrowTReceipts", (P("sigers"),), "vres", lambda x, g: (A(S, "said"), P("prefixer"), A(P("number"), "sn"), A(P("saider"), "qb64"), x), None),
            ("escrowTransReceiptGroup", (P("sigers"),), "vres", lambda x, g: (A(S, "said"), P("sprefixer"), A(P("snumber"), "sn"), A(P("diger"), "qb64"), x), None)):
        q = Q(ctx, EV, f"Kevery.{fn}", KB - {fn}, limit=600)
        group = loops is None
        seq = (lambda t: t.k == "sub" and t.a[0].k == "elem" and t.a[0].a[0] is P("tsgs") and t.a[1] is C(3)) if group else (lambda t: t is loops[0])
        ends = [b for b in q.w.events if b.kind == "bodyend" and seq(b.term)]
        ctx.need(bool(ends), R3, f"{q.qual}:each held", q.where(), "given receipts are not each held")

        def puts(st, x, seqt):
            g = (lambda i: q.w.mksub(seqt.a[0], C(i))) if group else None
            w = want(x, g)

            def ok(t):
                v = tup(arg(t, 2, "val")) or []
                return under_sn(q, st, t) and len(v) == len(w) and all(norm(wrapped(a)) is norm(b) for a, b in zip(v, w))
            return did(st, store, ("add", "put"), ok)
        for b in ends:
            x = q.w.elem_of(b.term)
            ctx.need(puts(b, x, b.term) or skip and q.holds(b, skip, {"x": x}), R3, f"{q.qual}:held whole", q.where(b.node),
                     "a receipt put off is held without its receipter, signature or receipted event, or under another event")
        for st, v, nd in q.exits():
            if group:
                ctx.need(any(h.k == "looped" and h.a[0] is P("tsgs") for h in st.hist), R3, f"{q.qual}:all groups", q.where(nd), "receipt groups are not held")
                continue
            ctx.need(any(h.k == "looped" and h.a[0] is loops[0] for h in st.hist), R3, f"{q.qual}:all held", q.where(nd), "receipts are not held")
        dated = lambda st: did(st, "dtss", ("put", "pin"), lambda t: (is_dgkey(arg(t, 0, "keys"), S) or keyparts(arg(t, 0, "keys")) == [A(S, "pre"), SAID]) and
                               fname(arg(t, 1, "val")) == "Dater")
        for st in ([b for b in q.w.events if b.kind == "bodyend" and b.term is P("tsgs")] if group else [st for st, v, nd in q.exits()]):
            ctx.need(dated(st), R3, f"{q.qual}:dated", q.where(), "a receipt put off is held without its time")


def wrapped(t):
    """the content a stored primitive is made of"""
    if t.k == "call" and fname(t) in ("Diger", "Saider", "Prefixer", "Verfer"):
        return arg(t, None, "qb64", "qb64b") or t
    if t.k == "call" and fname(t) in ("Number", "Seqner"):
        return arg(t, 0, "num", "sn", "qb64") or t
    return t



def sn_from(t, k):
    """t is the sequence number held in key component k"""
    if t is None:
        return False
    if t.k == "a" and t.a[1] in ("sn", "num", "snh") and fname(t.a[0]) in ("Seqner", "Number"):
        return same(arg(t.a[0], None, "qb64", "qb64b"), k)
    return fname(t) == "int" and same(arg(t, 0), k) and arg(t, 1, "base") is C(16)


IC, RO = "(Ilks.icp, Ilks.dip)", "(Ilks.rot, Ilks.drt)"


def k09_unescrow(ctx):
    R = "K09.unescrow"
    for fn, store, kinds in (("processEscrowUnverNonTrans", "ures", (0, 1)), ("processEscrowUnverTrans", "vres", (2,))):
        q = Q(ctx, EV, f"Kevery.{fn}", RB, limit=1500)
        seqs = {b.term for b in q.w.events if b.kind == "bodyend" and dbop(b.term, store, "getTopItemIter")}
        ctx.need(len(seqs) == 1, R, f"{q.qual}:reads its escrow", q.where(), "does not go through the receipts held")
        if len(seqs) != 1:
            continue
        I = q.w.elem_of(seqs.pop())
        K = q.w.mksub(I, C(0))
        PRE, K1 = q.w.mksub(K, C(0)), q.w.mksub(K, C(1))

        def acc(e, E):
            at = from_db(E)
            if at is None or not same(at[0], PRE) or not dbop(at[1], "kels", "getLast"):
                return None
            if not same(arg(at[1], 0, "keys"), PRE) or not sn_from(arg(at[1], None, "on"), K1):
                return None
            return {at[1]} | set(eqfacts(q, e, E))

        def wits(e, W, E):
            got = appended(q, W) or []
            return bool(got) and all(norm(x).k == "a" and norm(x).a[1] == "qb64" and norm(x).a[0].k == "elem" and fname(norm(x).a[0].a[0]) == "fetchWitnessState" and
                                     same(arg(norm(x).a[0].a[0], 0, "pre"), PRE) and sn_from(arg(norm(x).a[0].a[0], 1, "sn"), K1) for x, ev in got)
        n = stored_receipts(q, R, acc, PRE, None, own=False, wits=wits, nontrans=False)
        ctx.need(all(n[i] for i in kinds), R, f"{q.qual}:kinds", q.where(), "one kind of held receipt is never stored")
    q = Q(ctx, EV, "Kevery._processEscrowFindUnver", KB - {"_processEscrowFindUnver"}, limit=800)
    PRE = P("pre")

    def acc(e, E):
        at = from_db(E)
        if at is None or not same(at[0], PRE) or at[1].k != "elem" or not dbop(at[1].a[0], "pwes", "getIter", "get"):
            return None
        src = at[1].a[0]
        if not same(arg(src, 0, "keys"), PRE) or not same(arg(src, None, "on"), P("sn")):
            return None
        return {at[1]} | set(eqfacts(q, e, E)) if any(p and t.k == "eq" and {norm(t.a[0]), norm(t.a[1])} <= {at[1], A(E, "said"), P("rsaider"), A(P("rsaider"), "qb64")}
                                                      and any(P("rsaider") in set(subterms(x)) for x in t.a) for t, p in e.facts) else None

    def wits(e, W, E):
        v = {"E": E, "W": W}
        own = [q.w.mksub(A(E, "ked"), C("b")), A(E, "backs")]
        kw = [q.term(f"self.{kv}kevers[E.pre].wits", v) for kv in ("", "db.")] + [q.term("self.kevers[pre].wits", v)]
        if W in own:
            return q.holds(e, f"E.ked['t'] in {IC} || E.ilk in {IC}", v)
        if W in kw:
            return q.holds(e, f"E.ked['t'] not in {IC} and E.ked['t'] not in {RO} || E.ilk not in {IC} and E.ilk not in {RO}", v)
        ok = False
        for k in kw:
            v["k"] = k
            for c, a in (("E.ked['br']", "E.ked['ba']"), ("E.cuts", "E.adds")):
                ok = ok or W is q.term(f"list((oset(k) - oset({c})) | oset({a}))", v)
        return ok and q.holds(e, f"E.ked['t'] in {RO} || E.ilk in {RO}", v)
    n = stored_receipts(q, R, acc, PRE, P("sn"), own=False, wits=wits)
    ctx.need(n[0], R, f"{q.qual}:kinds", q.where(), "held witness receipts are never stored")
    for st, v, nd in q.exits():
        ctx.need(q.holds(st, "x", {"x": v}) and did(st, "wigs", ("add", "put")) or q.holds(st, "not x", {"x": v}) and not did(st, "wigs", ("add", "put")), R,
                 f"{q.qual}:tells", q.where(nd), "reports a held receipt as found without storing it, or the reverse")
