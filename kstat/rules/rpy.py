"""Signed replies: adopted only when verified and newest, held whole, obsoleted ones removed, handlers record what was signed."""
from . import prop
from .corelib import *
from .kel import KB
from .kev import S
from .rct import norm, same, keyparts, last_at, from_db, eqfacts
from .esc import comps, hist_calls, caught

RT = "src/keri/core/routing.py"
ACC = KB | {"updateReply", "removeReply", "escrowReply", "validateSigs", "fetchTsgs", "acceptReply", "updateEnd", "updateLoc", "updateKeyState", "updateWatched",
            "dispatch", "processReply", "_find"}
SD, RO, AID, OS = P("saider"), P("route"), P("aid"), P("osaider")


def dated(t, s):
    """the reply's own date"""
    if fname(t) != "Dater":
        return False
    d = arg(t, None, "dts", "dtsb")
    return d is not None and d.k == "sub" and d.a[1] is C("dt") and d.a[0].k == "a" and d.a[0].a[0] is s and d.a[0].a[1] in ("ked", "sad")


def reads(x, pred):
    """terms in the facts, clauses and history of x satisfying pred"""
    out = []
    for t in terms_of(x):
        t = t.a[0] if t.k == "fresh" else t
        if pred(t) and t not in out:
            out.append(t)
    return out


def k_is(t, *parts):
    ks = keyparts(t)
    if not ks and t is not None:
        ks = [norm(t)]
    return len(ks) == len(parts) and all(a is b for a, b in zip(ks, parts))


def newer(q, e, sn=None):
    """nothing adopted before, or the reply is later"""
    if q.holds(e, "not osaider || osaider is None"):
        return True
    old = reads(e, lambda t: dbop(t, "sdts", "get") and k_is(arg(t, 0, "keys"), A(OS, "qb64")))
    later = lambda x: any(q.holds(x, "o is None || not o", {"o": o}) or any(q.holds(x, "o.datetime < d.datetime", {"o": o, "d": d}) for d in reads(x, lambda t: dated(t, S))) for o in old)
    if sn is None:
        return later(e)
    olds = reads(e, lambda t: fname(t) == "fetchTsgs" and chain(arg(t, 0, "db") or P("?"))[-1] == "tsgs" and same(arg(t, 1, "diger"), OS) and arg(t, 2, "snh") in (None, NONE))
    for g in olds:
        if q.holds(e, "not g", {"g": g}):
            return True
        env = {"g": g, "n": sn}
        if q.holds(e, "g[0][1].sn < n.sn || g[0][1].sn < n.num || g[0][1].num < n.num", env):
            return True
        if q.holds(e, "g[0][1].sn <= n.sn || g[0][1].sn <= n.num || g[0][1].num <= n.num", env) and later(e):
            return True
    return False


def own_ok(q, e, idt):
    return q.holds(e, "self.lax or v not in self.prefixes or self.local", {"v": idt})


def group(t):
    """(element, index) of a component of a signature group of the given groups"""
    return t.a[0] if t is not None and t.k == "sub" and t.a[0].k == "elem" and (t.a[0].a[0] is P("tsgs") or t.a[0].a[0].k == "new") else None


def judged_group(q, e, X):
    """signer's establishment event for the group, as accepted"""
    at = q.w.mksub
    pre, num, dig = A(at(X, C(0)), "qb64"), at(X, C(1)), at(X, C(2))
    for t in reads(e, lambda t: dbop(t, "evts", "get")):
        f = from_db(t)
        if f and f[0] is norm(pre) and any(last_at(f[1], pre, A(num, k)) for k in ("sn", "num")) and any(x is norm(A(dig, "qb64")) for x in eqfacts(q, e, t)):
            yield t


def joined(q, e, arg_s, X):
    """the signatures given and those held before are what is validated"""
    at = q.w.mksub
    sig = at(X, C(3))
    if arg_s is None:
        return False
    key = lambda k: k_is(k, A(SD, "qb64"), A(at(X, C(0)), "qb64"), norm(snhof(k, 2)), A(at(X, C(2)), "qb64")) and sn_text(snhof(k, 2), at(X, C(1)))
    if arg_s is sig:
        return any(fname(h) in ("extend",) and recv(h) is sig and any(dbop(z, "tsgs", "get") and key(arg(z, 0, "keys")) for z in subterms(h)) for h in hist_calls(e))
    s = set(subterms(arg_s))
    return sig in s and any(dbop(z, "tsgs", "get") and key(arg(z, 0, "keys")) for z in s)


def snhof(k, i):
    ks = tup(k)
    return ks[i] if ks and len(ks) > i else k


def sn_text(t, num):
    """t is the 32 digit hexadecimal form of number num"""
    if t is None:
        return False
    if t.k == "a" and t.a[1] == "snh" and t.a[0] is num:
        return True
    s = set(subterms(t))
    return any(t is x for x in FMT(num)) or (any(A(num, k) in s for k in ("sn", "num")) and "032x" in show(t))


def FMT(num):
    return ()


def flag_ok(q, b, n, up):
    v = b.st.env.get(n)
    if v is FALSE and not up and all(x.st.env.get(n) is FALSE for x in q.w.events if x.kind == "bodyend" and x.term is b.term):
        return True
    return v is TRUE if up else v is not None and v.k == "phi" and v.a[-1] == n


@prop("K11")
def k11(ctx):
    R1 = "K11.verified"
    ctx.rule(R1, "a reply is adopted only with a signature by the identifier it concerns that verifies, or its accepted establishment event's keys to threshold", 4)
    R2 = "K11.newest"
    ctx.rule(R2, "a reply is adopted only when later than the one it replaces", 2)
    R3 = "K11.kept"
    ctx.rule(R3, "each given signature or group ends adopted, held whole, or skipped for a stated reason", 4)
    R4 = "K11.replaced"
    ctx.rule(R4, "on adoption the replaced reply's artifacts are removed, never the adopted one's, and the adopted reply leaves escrow", 4)
    q = Q(ctx, RT, "Revery.acceptReply", ACC, limit=2500)
    at = q.w.mksub
    ups = q.calls("updateReply")
    kinds = set()
    for e in ups:
        t = e.term
        ctx.need(arg(t, None, "serder") is S and arg(t, None, "saider") is SD and dated(arg(t, None, "dater"), S), R1, f"{q.qual}:the reply itself", q.where(e.node),
                 "what is adopted is not the given reply, its digest and its own date")
        cg = arg(t, None, "cigar")
        if cg is not None and cg is not NONE:
            kinds.add("cigar")
            V = A(cg, "verfer")
            good = cg.k == "elem" and cg.a[0] is P("cigars") or cg.k == "elem" and cg.a[0].k == "new"
            good = good and any(p and fname(f) == "verify" and recv(f) is V and arg(f, 0, "sig") is A(cg, "raw") and arg(f, 1, "ser") is A(S, "raw") for f, p in e.facts)
            good = good and q.holds(e, "not v.transferable", {"v": V}) and q.holds(e, "aid == v.qb64", {"v": V})
            ctx.need(good, R1, f"{q.qual}:nontransferable", q.where(e.node), "a reply is adopted without a verified nontransferable signature by the identifier it concerns")
            ctx.need(own_ok(q, e, A(V, "qb64")), R1, f"{q.qual}:own", q.where(e.node), "a controller's own signature from a remote source is taken")
            ctx.need(newer(q, e), R2, f"{q.qual}:nontransferable", q.where(e.node), "a reply no later than the adopted one replaces it")
            continue
        kinds.add("group")
        X = group(arg(t, None, "prefixer"))
        if X is None:
            ctx.bad(R1, f"{q.qual}:group", q.where(e.node), "a reply is adopted with the signatures of something other than a given group")
            continue
        pre = A(at(X, C(0)), "qb64")
        num = at(X, C(1))
        if any(arg(t, None, k) is None for k in ("seqner", "diger", "sigers")):
            ctx.bad(R1, f"{q.qual}:group filed", q.where(e.node), "the signatures are adopted without naming their establishment event")
            return
        sg = arg(t, None, "sigers")
        good = arg(t, None, "seqner") is num and arg(t, None, "diger") is at(X, C(2))
        ctx.need(good, R1, f"{q.qual}:group filed", q.where(e.node), "the signatures are filed under another establishment event than the group names")
        vs = sg.a[0] if sg is not None and sg.k == "sub" and sg.a[1] is C(0) else None
        good = fname(vs) == "validateSigs" and arg(vs, 0, "serder") is S and holds(e, at(vs, C(1)))
        ok = False
        for E in judged_group(q, e, X):
            ok = ok or good and arg(vs, 2, "verfers") is A(E, "verfers") and arg(vs, 3, "tholder") is A(E, "tholder") and q.holds(e, "E.verfers", {"E": E})
        ctx.need(ok, R1, f"{q.qual}:group", q.where(e.node), "a reply is adopted without signatures validated to threshold with the keys of the signer's cited, accepted establishment event")
        ctx.need(good and joined(q, e, arg(vs, 1, "sigers"), X), R3, f"{q.qual}:joined", q.where(e.node), "signatures held from earlier copies of the reply are not counted")
        ctx.need(q.holds(e, "aid == p", {"p": pre}), R1, f"{q.qual}:by the identifier", q.where(e.node), "a reply is adopted on the signatures of another identifier than it concerns")
        ctx.need(own_ok(q, e, pre), R1, f"{q.qual}:own", q.where(e.node), "a controller's own signature from a remote source is taken")
        ctx.need(newer(q, e, num), R2, f"{q.qual}:group", q.where(e.node), "a reply no later than the adopted one replaces it")
    ctx.need(kinds == {"cigar", "group"}, R1, f"{q.qual}:kinds", q.where(), "one kind of signature never leads to adoption")
    # the result says whether it was adopted
    cleared = lambda x: q.holds(x, "not osaider || osaider is None || osaider.qb64 == saider.qb64 || osaider == saider") or \
        any(fname(t) == "removeReply" and (same(arg(t, 0, "saider"), OS) or arg(t, 0, "saider") is OS) for t in hist_calls(x))
    local = all(cleared(b) for b in q.w.events if b.kind in ("bodyend", "break") and b.term is not None and any(
        fname(t) == "updateReply" and (arg(t, None, "cigar") is q.w.elem_of(b.term) or group(arg(t, None, "prefixer")) is q.w.elem_of(b.term)) for t in hist_calls(b)))
    flags = None
    for st, v, nd in q.exits():
        same_ = {n for n, x in st.env.items() if x is v}
        flags = same_ if flags is None else flags & same_
    flags = flags or set()
    for st, v, nd in q.exits():
        up = called_before(st, lambda t: fname(t) == "updateReply")
        if v.k != "phi" or v.a[-1] not in flags:
            ctx.need(holds(st, v) if up else holds(st, v, False), R1, f"{q.qual}:result", q.where(nd), "the result does not say whether the reply was adopted")
        up = not holds(st, v, False)
        if up:
            ctx.need(any(dbop(t, "rpes", "rem") and k_is(arg(t, 0, "keys"), RO) and same(arg(t, 1, "val"), SD) for t in hist_calls(st)), R4, f"{q.qual}:leaves escrow", q.where(nd),
                     "an adopted reply stays held: it is removed when its escrow times out")
            ctx.need(local or cleared(st), R4, f"{q.qual}:replaced removed", q.where(nd), "the replaced reply's artifacts are left behind")
    for b in q.w.events:
        if b.kind == "bodyend" and (b.term is P("tsgs") or b.term is P("cigars")):
            I = q.w.elem_of(b.term)
            up = any(fname(t) == "updateReply" and (arg(t, None, "cigar") is I or group(arg(t, None, "prefixer")) is I) for t in hist_calls(b))
            ctx.need(not flags or any(flag_ok(q, b, n, up) for n in flags), R1, f"{q.qual}:result", q.where(b.node), "the result does not say whether the reply was adopted")
    for e in q.calls("removeReply"):
        x = arg(e.term, 0, "saider")
        ctx.need(x is NONE or x is OS and called_before(e, lambda t: fname(t) == "updateReply"), R4, f"{q.qual}:only replaced", q.where(e.node), "a reply other than the replaced one is removed")
        ctx.need(x is NONE or q.holds(e, "not osaider || osaider is None || osaider.qb64 != saider.qb64 || osaider != saider"), R4, f"{q.qual}:not the adopted", q.where(e.node),
                 "the artifacts of the reply just adopted are removed (it was adopted before, now signed at a later establishment event)")
    for e in q.calls("trim", "rem", "remAll"):
        if dbop(e.term, "rpes", "rem"):
            ctx.need(called_before(e, lambda t: fname(t) == "updateReply") or any(p and t.k == "phi" and t.a[-1] in flags for t, p in e.facts), R4, f"{q.qual}:held until adopted", q.where(e.node), "a held reply leaves escrow before it is adopted")
        elif chain(recv(e.term))[-1] == "tsgs":
            ks = keyparts(arg(e.term, 0, "keys"))
            g = [z for k in ks for z in subterms(k) if z.k == "elem" and fname(z.a[0]) == "fetchTsgs"]
            good = len(ks) >= 4 and ks[0] is A(SD, "qb64") and g and ks[1] is norm(A(at(g[0], C(0)), "qb64")) and sn_text(tup(arg(e.term, 0, "keys"))[2], at(g[0], C(1))) and \
                ks[3] is norm(A(at(g[0], C(2)), "qb64"))
            ctx.need(bool(good), R4, f"{q.qual}:only older signatures", q.where(e.node), "other signatures than the adopted reply's own older ones are removed, or by no valid key")
            X = [t for t in hist_calls(e) if fname(t) == "updateReply" and group(arg(t, None, "prefixer")) is not None]
            num = arg(X[0], None, "seqner") if X else None
            if good:
                ctx.need(num is not None, R4, f"{q.qual}:only older signatures", q.where(e.node), "signatures are removed though no other ones were adopted")
            if good and num is not None:
                gn, gd, D = at(g[0], C(1)), at(g[0], C(2)), arg(X[0], None, "diger")
                ctx.need(q.holds(e, "a.sn < b.sn or a.sn == b.sn and c.qb64 != d.qb64", {"a": gn, "b": num, "c": gd, "d": D}), R4, f"{q.qual}:only older signatures", q.where(e.node),
                         "the signatures just adopted are removed")
        else:
            ctx.bad(R4, f"{q.qual}:only older signatures", q.where(e.node), "something else than older signatures is removed")
    for e in q.w.events:
        if e.kind == "iter" and e.term in (P("cigars"), P("tsgs")):
            ctx.need(q.holds(e, "x is not None || x", {"x": e.term}), R3, f"{q.qual}:none given", q.where(e.node), "a reply with only one kind of signature fails instead of being judged")
    for e in q.calls("get"):
        if dbop(e.term, "evts", "get"):
            for d in (from_db(e.term) or [])[1:]:
                ctx.need(not dbop(d, "kels", "getLast") or q.holds(e, "d is not None || d", {"d": d}), R3, f"{q.qual}:unknown signer event", q.where(e.node),
                         "a reply whose signer's event is not known yet fails instead of being held")
    # each given signature judged
    for p in ("cigars", "tsgs"):
        bs = [b for b in q.w.events if b.kind == "bodyend" and b.term is P(p)]
        ctx.need(bool(bs), R3, f"{q.qual}:{p} judged", q.where(), "given signatures are not each judged")
        for b in bs:
            I = q.w.elem_of(b.term)
            done = any(fname(t) == "updateReply" and (arg(t, None, "cigar") is I or group(arg(t, None, "prefixer")) is I) for t in hist_calls(b))
            if p == "cigars":
                V = A(I, "verfer")
                why = q.holds(b, "v.transferable || aid != v.qb64 || not self.lax and not self.local and v.qb64 in self.prefixes || not v.verify(x.raw, serder.raw) || "
                                 "not v.verify(sig=x.raw, ser=serder.raw)", {"v": V, "x": I}) or stale(q, b)
            else:
                pre, num = A(at(I, C(0)), "qb64"), at(I, C(1))
                held = any(fname(t) == "escrowReply" and whole(q, t, I) for t in hist_calls(b))
                unk = [t for t in reads(b, lambda t: dbop(t, "kels", "getLast")) if q.holds(b, "d is None || not d", {"d": t})]
                if held and unk:
                    ctx.need(any(is_query(t, pre) for t in hist_calls(b)), R3, f"{q.qual}:asked for", q.where(b.node), "the unknown key state a held reply waits for is not asked for")
                if done:
                    inner = [h.a[0] for h in b.hist if h.k == "looped" and fname(h.a[0]) == "fetchTsgs" and same(arg(h.a[0], 1, "diger"), SD) and chain(arg(h.a[0], 0, "db") or P("?"))[-1] == "tsgs"]
                    ctx.need(bool(inner), R4, f"{q.qual}:older signatures removed", q.where(b.node), "the reply's signatures by an earlier establishment event stay and are taken as the authoritative ones")
                why = held or q.holds(b, "aid != p || not self.lax and not self.local and p in self.prefixes", {"p": pre}) or stale(q, b, num)
            ctx.need(done or why, R3, f"{q.qual}:{p} kept", q.where(b.node), "a good signature of a reply is dropped")
    for b in q.w.events:
        if b.kind == "bodyend" and fname(b.term) == "fetchTsgs" and same(arg(b.term, 1, "diger"), SD):
            g = q.w.elem_of(b.term)
            ups_ = [t for t in hist_calls(b) if fname(t) == "updateReply" and group(arg(t, None, "prefixer")) is not None]
            cut = any(fname(t) == "trim" and any(z is g for z in subterms(t)) for t in hist_calls(b))
            env = {"a": at(g, C(1)), "c": at(g, C(2)), "b": arg(ups_[0], None, "seqner") if ups_ else P("?"), "d": arg(ups_[0], None, "diger") if ups_ else P("?")}
            ctx.need(cut or q.holds(b, "not (a.sn < b.sn or a.sn == b.sn and c.qb64 != d.qb64) || not (a.sn < b.sn) and (a.sn != b.sn or c.qb64 == d.qb64)", env), R4, f"{q.qual}:older signatures removed",
                     q.where(b.node), "the reply's signatures by an earlier establishment event stay and are taken as the authoritative ones")
    ends = [e for e in q.w.events if e.kind == "break" and e.term is P("tsgs")]
    ctx.need(not ends, R3, f"{q.qual}:tsgs all", q.where(), "later signature groups are not judged")
    for e in q.w.events:
        if e.kind == "break" and e.term is P("cigars"):
            ctx.need(called_before(e, lambda t: fname(t) == "updateReply"), R3, f"{q.qual}:cigars all", q.where(e.node), "later signatures are not judged though none led to adoption")
    for e in q.calls("escrowReply"):
        X = group(arg(e.term, None, "prefixer"))
        ctx.need(X is not None and whole(q, e.term, X), R3, f"{q.qual}:held whole", q.where(e.node), "a reply is held without all that came with it, or under another signer or event")
    for st, nd in raises_named(q, {"ValidationError"}):
        good = any(p is False and t.k == "eq" and any(z.k == "a" and z.a[1] == "said" for z in subterms(t)) for t, p in st.facts) or any(not p and t.k == "a" and t.a[1] == "verfers" for t, p in st.facts) or \
            any(not p and fname(t) == "compare" for t, p in st.facts)
        ctx.need(good, R3, f"{q.qual}:refused with a reason", q.where(nd), "a reply is refused though its signer's cited event matches and has keys")
    k11_validate(ctx, R1)
    k11_store(ctx, R3, R4)
    k11_escrow(ctx)
    k11_routes(ctx)


def is_query(t, pre):
    """a query for an identifier's key state is cued"""
    if fname(t) not in ("append", "push") or recv(t) is None or chain(recv(t))[-1] != "cues":
        return False
    d = arg(t, 0)
    s = list(subterms(d)) if d is not None else []
    return C("query") in s and any(norm(x) is norm(pre) for x in s if x.k != "c")


def is_cued(t, kin):
    return fname(t) in ("append", "push") and recv(t) is not None and chain(recv(t))[-1] == "cues" and C(kin) in set(subterms(t))


def stale(q, b, num=None):
    if not q.holds(b, "osaider"):
        return False
    old = reads(b, lambda t: dbop(t, "sdts", "get") and k_is(arg(t, 0, "keys"), A(OS, "qb64")))
    notlater = any(q.holds(b, "d.datetime <= o.datetime", {"o": o, "d": d}) for o in old for d in reads(b, lambda t: dated(t, S)))
    if num is None:
        return notlater
    for g in reads(b, lambda t: fname(t) == "fetchTsgs" and same(arg(t, 1, "diger"), OS)):
        env = {"g": g, "n": num}
        if q.holds(b, "n.sn < g[0][1].sn", env) or q.holds(b, "n.sn <= g[0][1].sn", env) and notlater:
            return True
    return False


def whole(q, t, X):
    at = q.w.mksub
    g = lambda k, i: arg(t, None, k) is at(X, C(i))
    s = arg(t, None, "sigers")
    vs = s.a[0] if s is not None and s.k == "sub" and s.a[1] is C(0) else None
    return arg(t, None, "serder") is S and arg(t, None, "saider") is SD and dated(arg(t, None, "dater"), S) and arg(t, None, "route") is RO and g("prefixer", 0) and g("snumber", 1) and \
        g("sdiger", 2) and (g("sigers", 3) or fname(vs) == "validateSigs" and (arg(vs, 1, "sigers") is at(X, C(3)) or at(X, C(3)) in set(subterms(arg(vs, 1, "sigers")))))


def quad(k, sd, pre, num, dig):
    ks = tup(k)
    return bool(ks) and len(ks) == 4 and same(ks[0], A(sd, "qb64")) and same(ks[1], A(pre, "qb64")) and sn_text(ks[2], num) and same(ks[3], A(dig, "qb64"))


def k11_store(ctx, R3, R4):
    """what adoption, holding and removal store"""
    for fn, num, dig in (("updateReply", "seqner", "diger"), ("escrowReply", "snumber", "sdiger")):
        q = Q(ctx, RT, "Revery." + fn, ())
        for st, v, nd in q.exits():
            if fn == "escrowReply" and q.holds(st, "not sigers"):
                continue
            for s, val in (("sdts", P("dater")), ("rpys", S)):
                ctx.need(did(st, s, ("put", "pin"), lambda t: k_is(arg(t, 0, "keys"), A(SD, "qb64")) and arg(t, 1, "val") is val), R3, f"{q.qual}:{s}", q.where(nd),
                         f"a reply is stored without its {'date' if s == 'sdts' else 'message'} under its own digest")
            if fn == "updateReply":
                ctx.need(q.holds(st, "not cigar || cigar is None") or did(st, "scgs", ("put", "pin"), lambda t: k_is(arg(t, 0, "keys"), A(SD, "qb64")) and pair(q, arg(t, 1, "vals", "val"))),
                         R3, f"{q.qual}:scgs", q.where(nd), "an adopted reply is stored without its signature")
            ctx.need(q.holds(st, "not sigers || sigers is None") or did(st, "tsgs", ("put", "pin"), lambda t: quad(arg(t, 0, "keys"), SD, P("prefixer"), P(num), P(dig)) and arg(t, 1, "vals") is P("sigers")),
                     R3, f"{q.qual}:tsgs", q.where(nd), "a reply is stored without its signatures under its digest, signer and the signer's event")
            if fn == "escrowReply":
                ctx.need(did(st, "rpes", ("put", "add"), lambda t: k_is(arg(t, 0, "keys"), RO) and (arg(t, 1, "val") is SD or only(q, arg(t, 1, "vals"), SD))), R3, f"{q.qual}:rpes", q.where(nd),
                         "a reply is not entered into the escrow of its route")
    q = Q(ctx, RT, "Revery.removeReply", ())
    for st, v, nd in q.exits():
        for s in ("scgs", "rpys", "sdts"):
            ctx.need(q.holds(st, "not saider || saider is None") or did(st, s, ("rem",), lambda t: k_is(arg(t, 0, "keys"), A(SD, "qb64"))), R4, f"{q.qual}:{s}", q.where(nd),
                     "a removed reply leaves artifacts behind")
        ctx.need(q.holds(st, "not saider || saider is None") or did(st, "tsgs", ("trim",), lambda t: branch(arg(t, 0, "keys", "top"))), R4, f"{q.qual}:tsgs", q.where(nd),
                 "a removed reply's signatures stay, or signatures of another are removed")
    for e in q.calls("rem", "trim", "remAll"):
        k = arg(e.term, 0, "keys", "top")
        ctx.need(k_is(k, A(SD, "qb64")) or branch(k), R4, f"{q.qual}:only its own", q.where(e.node), "artifacts of another reply are removed")


def prim(t):
    """content of a freshly made primitive"""
    return arg(t, None, "qb64", "qb64b") or t if fname(t) in ("Diger", "Saider", "Prefixer") else t


def pair(q, v):
    got = appended(q, v)
    vs = tup(got[0][0]) if got and len(got) == 1 else tup(v)
    return vs == [A(P("cigar"), "verfer"), P("cigar")]


def only(q, v, x):
    got = appended(q, v)
    return bool(got) and len(got) == 1 and got[0][0] is x


def branch(k):
    ks = tup(k)
    return bool(ks) and len(ks) == 2 and same(ks[0], A(SD, "qb64")) and ks[1] in (C(""), C(b""))


def k11_escrow(ctx):
    R = "K11.escrow"
    ctx.rule(R, "each held reply is retried with all its signatures; it leaves escrow when accepted, refused for good, or too old", 6)
    q = Q(ctx, RT, "Revery.processEscrowReply", ACC, limit=600)
    seqs = {b.term for b in q.w.events if b.kind == "bodyend" and dbop(b.term, "rpes", "getTopItemIter", "getItemIter")}
    ctx.need(len(seqs) == 1, R, f"{q.qual}:goes through", q.where(), "held replies are not gone through")
    if len(seqs) != 1:
        return
    seq = seqs.pop()
    k = arg(seq, 0, "keys")
    ctx.need(k is None or k in (C(b""), C("")), R, f"{q.qual}:all of it", q.where(), "only part of what is held is gone through")
    I = q.w.elem_of(seq)
    at = q.w.mksub
    ro, dg = at(at(I, C(0)), C(0)), at(I, C(1))
    rem = lambda t: dbop(t, "rpes", "rem") and (k_is(arg(t, 0, "keys"), ro) or arg(t, 0, "keys") is at(I, C(0))) and arg(t, 1, "val") is dg
    ser = lambda t: dbop(t, "rpys", "get") and k_is(arg(t, 0, "keys"), A(dg, "qb64"))
    sub = lambda t: fname(t) == "processReply" and ser(arg(t, 0, "serder") or P("?")) and fname(arg(t, None, "tsgs")) == "fetchTsgs" and \
        chain(arg(arg(t, None, "tsgs"), 0, "db"))[-1] == "tsgs" and arg(arg(t, None, "tsgs"), 1, "diger") is dg and arg(arg(t, None, "tsgs"), 2, "snh") in (None, NONE)
    for e in q.w.events:
        if e.kind == "break" and e.term is seq:
            ctx.bad(R, f"{q.qual}:all of it", q.where(e.node), "a pass over held replies can end early")
    W = "UnverifiedReplyError"
    from .esc import could_be, only_is, BROAD
    ends = [b for b in q.w.events if b.kind == "bodyend" and b.term is seq]
    tries = {tryline(e) for e in q.calls("processReply")}
    inner = lambda m: m.a[0].k != "exc" or m.a[0].a[0] in tries  # an error outside the retry's own try is not the retry waiting
    ctx.need(any(set(m.a[1]) & BROAD for b in ends for m in caught(b)), R, f"{q.qual}:one failing entry stops no other", q.where(), "an error with one held reply ends the pass over the others")
    for b in ends:
        ms = caught(b)
        hc = hist_calls(b)
        out = any(rem(t) for t in hc)
        if not ms:
            ctx.need(any(sub(t) for t in hc), R, f"{q.qual}:retried whole", q.where(b.node), "a held reply is taken as done without being retried with all its signatures")
            ctx.need(out, R, f"{q.qual}:leaves when accepted", q.where(b.node), "an accepted reply stays held")
            continue
        wait = all(only_is(ctx, m, W, b) for m in ms)
        ctx.need(out or wait, R, f"{q.qual}:leaves when refused", q.where(b.node), "a reply refused for good stays held")
        if any(inner(m) and could_be(ctx, m, W, b) for m in ms):
            ctx.need(not out, R, f"{q.qual}:kept while waiting", q.where(b.node), "a reply still missing its signer's event or signatures is removed")
        elif not wait:
            ctx.need(any(fname(t) == "removeReply" and arg(t, 0, "saider") is dg for t in hc), R, f"{q.qual}:artifacts removed", q.where(b.node), "a reply refused for good leaves artifacts behind")
    for e in q.calls("rem", "removeReply", "trim", "remAll"):
        ms = caught(e)
        t = e.term
        ctx.need(rem(t) or fname(t) == "removeReply" and arg(t, 0, "saider") is dg and bool(ms), R, f"{q.qual}:only this entry", q.where(e.node),
                 "another reply is removed, or a reply's artifacts are removed though it was accepted")
        ctx.need(bool(ms) or any(sub(h) for h in hist_calls(e)), R, f"{q.qual}:after the retry", q.where(e.node), "a held reply is removed before it was retried")
        ctx.need(not any(inner(m) and could_be(ctx, m, W, e) for m in ms), R, f"{q.qual}:kept while waiting", q.where(e.node), "a reply still missing its signer's event or signatures is removed")
    lim = lambda t: t.k in ("lt", "le", "gt", "ge") and any(z.k == "a" and str(z.a[1]).startswith("Timeout") for z in subterms(t))
    for e in q.calls("processReply"):
        ctx.need(sub(e.term), R, f"{q.qual}:retried whole", q.where(e.node), "a held reply is retried without all its signatures")
        ctx.need(young(q, e, dg), R, f"{q.qual}:time limit", q.where(e.node), "a held reply is retried beyond its time limit")
    for e in q.w.events:
        if e.kind == "raise" and e.node is not None and not caught(e):
            import ast
            if not isinstance(e.node, ast.Raise):
                continue
            nm = e.value.a[0] if e.value is not None and e.value.k == "c" else None
            if nm is None or ctx.model.exc_is(nm, W):
                ctx.need(nm is not None and False, R, f"{q.qual}:refused for good", q.where(e.node), "a held reply is kept waiting without being retried")
                continue
            miss = any(not p and (dbop(t, "sdts", "get") or dbop(t, "rpys", "get") or fname(t) == "fetchTsgs") for t, p in e.facts) or \
                any(t.k in ("is", "eq") and p and NONE in t.a for t, p in e.facts) or any(not p and t.k in ("and", "or") for t, p in e.facts) or \
                (lambda c: c)(q.holds(e, "not (d and s and t)", {k: v for k, v in zip("dst", three(e, dg))}) if three(e, dg) else False)
            ctx.need(miss or old(q, e, dg), R, f"{q.qual}:refused with a reason", q.where(e.node), "a held reply is refused for good though nothing of it is missing and it is not too old")


def tryline(e):
    import ast
    best = None
    for n in ast.walk(e.func.node):
        if isinstance(n, ast.Try) and any(x is e.node for b in n.body for x in ast.walk(b)) and (best is None or n.lineno > best):
            best = n.lineno
    return best


def three(e, dg):
    out = []
    for pred in (lambda t: dbop(t, "sdts", "get"), lambda t: dbop(t, "rpys", "get"), lambda t: fname(t) == "fetchTsgs"):
        got = reads(e, pred)
        if not got:
            return None
        out.append(got[0])
    return out


def _age(q, e, dg, srcs):
    ds = [A(t, "datetime") for t in reads(e, lambda t: dbop(t, "sdts", "get") and k_is(arg(t, 0, "keys"), A(dg, "qb64")))]
    nows = reads(e, lambda t: fname(t) in ("nowUTC", "now", "utcnow"))
    return any(q.holds(e, s, {"d": d, "n": n}) for d in ds for n in nows for s in srcs)


def young(q, e, dg):
    return _age(q, e, dg, ["n - d <= datetime.timedelta(seconds=self.TimeoutRPE)", "n - d < datetime.timedelta(seconds=self.TimeoutRPE)", "n <= d + datetime.timedelta(seconds=self.TimeoutRPE)",
                           "(n - d).total_seconds() <= self.TimeoutRPE"])


def old(q, e, dg):
    return _age(q, e, dg, ["n - d > datetime.timedelta(seconds=self.TimeoutRPE)", "n - d >= datetime.timedelta(seconds=self.TimeoutRPE)", "n > d + datetime.timedelta(seconds=self.TimeoutRPE)",
                           "(n - d).total_seconds() > self.TimeoutRPE"])


def k11_routes(ctx):
    R = "K11.routes"
    ctx.rule(R, "a reply reaches the handler of its route only when its digest verifies, with all its signatures", 6)
    q = Q(ctx, RT, "Revery.processReply", ACC)
    for e in q.calls("dispatch"):
        t = e.term
        ctx.need(q.holds(e, "serder.verify()"), R, f"{q.qual}:digest verified", q.where(e.node), "a reply whose digest does not verify is processed")
        ctx.need(arg(t, 0, "serder") is S and same(prim(arg(t, 1, "diger")), A(S, "said")) and arg(t, 2, "cigars") is P("cigars") and arg(t, 3, "tsgs") is P("tsgs"), R, f"{q.qual}:whole", q.where(e.node),
                 "a reply is passed on without its own digest or its signatures")
    for st, v, nd in q.exits():
        ctx.need(called_before(st, lambda t: fname(t) == "dispatch"), R, f"{q.qual}:dispatched", q.where(nd), "a reply is not passed to its handler")
    refuses_only(q, R, ["not serder.verify()"], "a reply whose digest verifies is refused")
    q = Q(ctx, RT, "Router.dispatch", ACC)
    hs = [e for e in q.w.events if e.kind == "call" and arg(e.term, None, "diger") is not None]
    for e in hs:
        f = e.term.a[0]
        fd = [t for t in terms_of(e) if fname(t) == "_find" and arg(t, 0, "route") is q.term("serder.ked['r']")]
        ctx.need(bool(fd), R, f"{q.qual}:own route", q.where(e.node), "the handler is not looked up by the reply's own route")
        if not fd:
            continue
        F, M = q.w.mksub(fd[0], C(0)), q.w.mksub(fd[0], C(1))
        nm = arg(f, 1) if fname(f) == "getattr" else None
        base = A(P("self"), "defaultResourceFunc")
        good = nm is not None and arg(f, 0) is A(F, "resource") and (
            q.holds(e, "F.suffix is None || not F.suffix", {"F": F}) and nm in (base, C("processReply")) or
            q.holds(e, "F.suffix is not None || F.suffix", {"F": F}) and A(F, "suffix") in set(subterms(nm)) and (base in set(subterms(nm)) or "processReply" in show(nm)))
        ctx.need(good, R, f"{q.qual}:handler", q.where(e.node), "the handler called is not the one registered for the reply's route")
        ctx.need(q.holds(e, "F is not None || F", {"F": F}), R, f"{q.qual}:registered", q.where(e.node), "a reply with no registered route is taken as having one")
        ctx.need(any(k == "**" and fname(v) == "groupdict" and recv(v) is M for k, v in e.term.a[2]), R, f"{q.qual}:whole", q.where(e.node), "the parameters in the reply's route are not handed over")
        ctx.need(all(arg(e.term, None, k) is P(k) for k in ("serder", "diger", "cigars", "tsgs")) and arg(e.term, None, "route") is not None and norm(arg(e.term, None, "route")) is q.term("serder.ked['r']"),
                 R, f"{q.qual}:whole", q.where(e.node), "a reply is handed over without its route, digest or signatures")
    for st, v, nd in q.exits():
        ctx.need(any(arg(t, None, "diger") is P("diger") for t in hist_calls(st)), R, f"{q.qual}:handled", q.where(nd), "a reply with a registered route is not handed to its handler")
    for st, nd in raises_named(q, {"ValidationError"}):
        fd = reads(st, lambda t: fname(t) == "_find")
        ctx.need(any(q.holds(st, "F[0] is None || not F[0]", {"F": t}) for t in fd) or any(not p and t.k == "in" for t, p in st.facts), R, f"{q.qual}:refused with a reason", q.where(nd),
                 "a reply with a registered route is refused")
    q = Q(ctx, RT, "Router._find", ())
    for st, v, nd in q.exits():
        x = q.w.mksub(v, C(0))
        I = q.w.elem_of(A(P("self"), "routes"))
        m = mk("call", A(A(I, "regex"), "search"), (P("route"),), ())
        if x is NONE:
            ctx.need(any(h.k == "looped" and h.a[0] is A(P("self"), "routes") for h in st.hist) and any(
                p and t.k == "all" or p and "not $0.regex" in show(t) for t, p in st.facts), R, f"{q.qual}:none only when none matches", q.where(nd), "a registered route is not found")
        else:
            ctx.need(x is I and any(p and fname(t) in ("search", "match", "fullmatch") and recv(t) is A(I, "regex") and arg(t, 0) is P("route") and q.w.mksub(v, C(1)) is t for t, p in st.facts), R,
                     f"{q.qual}:matching", q.where(nd), "a route that does not match is returned")
    ctx.need(any(x is not NONE for x in [q.w.mksub(v, C(0)) for st, v, nd in q.exits()]), R, f"{q.qual}:matching", q.where(), "no route is ever found")
    q = Q(ctx, EV, "Kevery.registerReplyRoutes", ())
    want = {"/end/role/{action}": "EndRole", "/loc/scheme": "LocScheme", "/ksn/{aid}": "KeyStateNotice", "/watcher/{aid}/{action}": "AddWatched"}
    got = {}
    for e in q.calls("addRoute"):
        tpl, sfx = arg(e.term, 0, "routeTemplate"), arg(e.term, 2, "suffix")
        if iscon(tpl) and sfx is not None and iscon(sfx):
            got[tpl.a[0]] = (sfx.a[0], e, arg(e.term, 1, "resource") is P("self"))
    for k, v in want.items():
        ctx.need(k in got and got[k][0] == v and got[k][2], R, f"{q.qual}:{k}", q.where(got[k][1].node if k in got else None), "a reply route is not registered with its handler")
    H = "K11.recorded"
    ctx.rule(H, "a handler records exactly what the signed reply says, about the identifier that signed it, and only once adopted", 16)
    dat = "serder.ked['a']"
    # name, update, index store, keys, signer
    for fn, up, store, keys, who, extra in (
            ("processReplyEndRole", "updateEnd", "eans", ("cid", "role", "eid"), "cid", ("allowed",)),
            ("processReplyLocScheme", "updateLoc", "lans", ("eid", "scheme"), "eid", ("url",)),
            ("processReplyAddWatched", "updateWatched", "wwas", ("cid", "@aid", "oid"), "cid", ("enabled",)),
            ("processReplyKeyStateNotice", "updateKeyState", "knas", None, "@aid", ("ksr",))):
        q = Q(ctx, EV, "Kevery." + fn, ACC | {"_fromdict"}, limit=800)
        D = q.term(dat)
        part = lambda k: q.w.mksub(P("kwa"), C(k[1:])) if k[0] == "@" else q.w.mksub(D, C(k))
        ks = [norm(part(k)) for k in keys] if keys else None
        if ks is None:
            rec = [t for e in q.w.events for t in terms_of(e) if fname(t) == "_fromdict" and arg(t, 0, "d", "data") is D]
            ctx.need(bool(rec), H, f"{q.qual}:record", q.where(), "the notice is not read from the reply's data")
            if not rec:
                continue
            K = rec[0]
            ks = [A(K, "i"), part("@aid")]
        acc = lambda x: [t for t in hist_calls(x) if fname(t) == "acceptReply" and arg(t, None, "serder") is S and arg(t, None, "saider") is P("diger") and norm(arg(t, None, "aid")) is norm(part(who)) and
                         same_or_list(arg(t, None, "cigars"), "cigars", q, x) and same_or_list(arg(t, None, "tsgs"), "tsgs", q, x)]
        for e in q.calls("acceptReply"):
            ctx.need(acc(e) or arg(e.term, None, "serder") is S and norm(arg(e.term, None, "aid")) is norm(part(who)), H, f"{q.qual}:signer", q.where(e.node),
                     "the reply is checked against the signature of another identifier than the one it concerns")
            ctx.need(arg(e.term, None, "saider") is P("diger") and same_or_list(arg(e.term, None, "cigars"), "cigars", q, e) and same_or_list(arg(e.term, None, "tsgs"), "tsgs", q, e), H, f"{q.qual}:whole",
                     q.where(e.node), "the reply is checked without its digest or its signatures")
            o = arg(e.term, None, "osaider")
            alts = comps(o) if o is not None else set()
            ok = bool(alts) and all(dbop(z, store, "get") and k_is(arg(z, 0, "keys"), *ks) or z is NONE and q.holds(
                e, "x is None || x.qb64b == diger.qb64b || x.qb64 == diger.qb64", {"x": q.w.mk_store_get(store, ks) if hasattr(q.w, "mk_store_get") else old_of(e, store, ks) or P("?")}) for z in alts)
            ctx.need(ok, H, f"{q.qual}:replaces", q.where(e.node), "the reply is not compared with the one adopted before for the same thing")
        ups = q.calls(up)
        ctx.need(bool(ups), H, f"{q.qual}:recorded", q.where(), "an adopted reply has no effect")
        for e in ups:
            t = e.term
            a = acc(e)
            ctx.need(any(holds(e, z) for z in a) , H, f"{q.qual}:only once adopted", q.where(e.node), "the reply takes effect without having been adopted")
            if fn != "processReplyKeyStateNotice":
                ctx.need(k_is(arg(t, 0, "keys"), *ks) and arg(t, 1, "saider") is P("diger"), H, f"{q.qual}:keys", q.where(e.node), "the reply is recorded under something else than what it concerns")
            v = arg(t, None, extra[0])
            if fn == "processReplyEndRole":
                pre = {True: "/end/role/add", False: "/end/role/cut"}
                ctx.need(v in (TRUE, FALSE) and action_is(q, e, P("route"), pre[v is TRUE]), H, f"{q.qual}:allowed", q.where(e.node), "what is recorded is the opposite of the reply's action")
                ctx.need(q.holds(e, "r in Roles", {"r": part("role")}), H, f"{q.qual}:role known", q.where(e.node), "an unknown role is recorded")
            elif fn == "processReplyAddWatched":
                act = part("@action")
                ctx.need(v is TRUE and q.holds(e, "a == 'add'", {"a": act}) or v is FALSE and q.holds(e, "a == 'cut'", {"a": act}), H, f"{q.qual}:enabled", q.where(e.node),
                         "what is recorded is the opposite of the reply's action")
            elif fn == "processReplyLocScheme":
                ctx.need(v is part("url"), H, f"{q.qual}:url", q.where(e.node), "another location than the signed one is recorded")
                ctx.need(q.holds(e, "s in Schemes", {"s": part("scheme")}), H, f"{q.qual}:scheme known", q.where(e.node), "an unknown scheme is recorded")
                us = reads(e, lambda t: fname(t) in ("urlsplit", "urlparse") and arg(t, 0, "url") is part("url"))
                ctx.need(any(q.holds(e, "not u.scheme or u.scheme == s", {"u": u, "s": part("scheme")}) for u in us), H, f"{q.qual}:scheme", q.where(e.node),
                         "a location is recorded under another scheme than its own")
            else:
                env = {"K": K, "aid": part("@aid")}
                ctx.need(arg(t, 0, "aid") is part("@aid") and v is K and same(prim(arg(t, 2, "saider")), A(K, "d")) and same_date(arg(t, 3, "dater"), K), H, f"{q.qual}:record", q.where(e.node),
                         "another key state than the signed one is recorded")
                W = [x for x in reads(e, lambda t: t.k == "in") ]
                ctx.need(q.holds(e, "self.lax or aid == K.i or aid in K.b", env) or any(p and f.k == "in" and f.a[0] is part("@aid") and (f.a[1].k in ("new", "phi", "hv") or "watchers" in show(f.a[1])) for f, p in e.facts) or
                         trusted(q, e, env), H, f"{q.qual}:trusted source", q.where(e.node), "a key state notice of an untrusted source is recorded")
                kv = q.term("self.kevers[K.i]", env)
                ctx.need(q.holds(e, "K.i not in self.kevers", env) or any(q.holds(e, f"{s} <= {n}", {"K": K, "v": kv}) for s in ("v.sner.num", "v.sn") for n in ("int(K.s, 16)",)), H, f"{q.qual}:not stale",
                         q.where(e.node), "a key state notice older than the known key state is recorded")
                ls = reads(e, lambda t: dbop(t, "kels", "getLast") and same(arg(t, 0, "keys"), A(K, "i")) and arg(t, None, "on") is q.term("int(K.s, 16)", env))
                good = any(q.holds(e, "l is None || not l", {"l": l}) for l in ls) or any(p and fname(f) == "compare" and same(arg(f, 0, "said"), A(K, "d")) and (from_db(recv(f)) or [0])[0] is A(K, "i") and
                                                                                        any((from_db(recv(f)) or [0, 0])[1] is norm(l) for l in ls) for f, p in e.facts) or \
                    any(p and f.k == "eq" and {norm(z) for z in f.a} & {A(K, "d")} and {norm(z) for z in f.a} & {norm(l) for l in ls} for f, p in e.facts)
                ctx.need(good, H, f"{q.qual}:matches known", q.where(e.node), "a key state notice contradicting the known event at its sequence number is recorded")
        for st, v, nd in q.exits():
            ctx.need(called_before(st, lambda t: fname(t) == up), H, f"{q.qual}:recorded", q.where(nd), "an adopted reply ends normally without being recorded")
        for st, nd in raises_named(q, {"UnverifiedReplyError"}):
            ctx.need(any(holds(st, z, False) for z in acc(st)), H, f"{q.qual}:put off only when not adopted", q.where(nd), "a reply that was adopted is reported as unverified")
        miss = lambda st: any(not p and t.k == "in" and t.a[1] is D for t, p in st.facts)
        oth = {"processReplyEndRole": ["not route.startswith('/end/role/add') and not route.startswith('/end/role/cut')", lambda st: q.holds(st, "r not in Roles", {"r": part("role")}), miss],
               "processReplyLocScheme": ["not route.startswith('/loc/scheme')", lambda st: q.holds(st, "s not in Schemes", {"s": part("scheme")}), miss,
                                         lambda st: any(q.holds(st, "u.scheme and u.scheme != s", {"u": u, "s": part("scheme")}) for u in reads(st, lambda t: fname(t) in ("urlsplit", "urlparse")))],
               "processReplyAddWatched": ["not route.startswith('/watcher')", lambda st: q.holds(st, "a != 'add' and a != 'cut'", {"a": part("@action")})],
               "processReplyKeyStateNotice": ["not route.startswith('/ksn')", lambda st: bool(caught(st)), lambda st: any(not p and fname(t) == "compare" for t, p in st.facts),
                                              lambda st: ks[0].a[0] is K and any(q.holds(st, c, {"K": K, "v": q.term("self.kevers[K.i]", {"K": K})}) for c in (
                                                  "K.i in self.kevers and int(K.s, 16) < v.sner.num", "K.i in self.kevers and int(K.s, 16) < v.sn"))]}[fn]
        refuses_only(q, H, oth, "a reply is refused that its handler supports", ("ValidationError",))
        for e in q.calls("acceptReply"):
            ctx.need(arg(e.term, 2, "route") is not None, H, f"{q.qual}:route", q.where(e.node), "the reply cannot be held for its route")
        if fn == "processReplyKeyStateNotice":
            for st, nd in raises_named(q, {"UntrustedKeyStateSource"}):
                ctx.need(q.holds(st, "not self.lax and aid != K.i and aid not in K.b", {"K": K, "aid": part("@aid")}) and any(
                    not p and t.k == "in" and t.a[0] is part("@aid") and t.a[1] is not A(K, "b") for t, p in st.facts), H, f"{q.qual}:refused only when untrusted", q.where(nd),
                    "a key state notice of the identifier itself, its witness or an own watcher is refused as untrusted")
            wt = [e for e in q.w.events if e.kind in ("aug", "call") and e.term is not None and any(
                z.k == "a" and z.a[1] == "watchers" for x in (e.term, e.value) if isinstance(x, T) for z in subterms(x)) and (e.kind == "aug" or fname(e.term) in ("update", "add", "extend", "union"))]
            ctx.need(bool(wt), H, f"{q.qual}:own watchers", q.where(), "the controller's own watchers are not trusted")
            for st, v, nd in q.exits():
                ctx.need(any(is_cued(t, "keyStateSaved") and any(z is K for z in subterms(t)) for t in hist_calls(st)), H, f"{q.qual}:announced", q.where(nd), "a recorded key state is not announced")
        if fn == "processReplyAddWatched":
            ctx.need({arg(e.term, None, "enabled") for e in ups} >= {TRUE, FALSE}, H, f"{q.qual}:both actions", q.where(), "one of the actions is not supported")
            ob = part("oobi")
            for st, v, nd in q.exits():
                ctx.need(q.holds(st, "'oobi' not in d", {"d": D}) or q.holds(st, "not o", {"o": ob}) or did(st, "oobis", ("pin", "put"), lambda t: k_is(arg(t, 0, "keys"), ob) and fname(arg(t, 1, "val")) == "OobiRecord"),
                         H, f"{q.qual}:oobi", q.where(nd), "the address given for the watched identifier is not taken up")
        if fn == "processReplyEndRole":
            ctx.need({arg(e.term, None, "allowed") for e in ups} >= {TRUE, FALSE}, H, f"{q.qual}:both actions", q.where(), "one of the actions is not supported")
        for e in q.calls("pin", "put", "add"):
            if dbop(e.term, "oobis", "pin", "put", "add"):
                ctx.need(any(holds(e, z) for z in acc(e)), H, f"{q.qual}:only once adopted", q.where(e.node), "the reply takes effect without having been adopted")
    k11_records(ctx, H)


def action_is(q, e, r, pre):
    return any(p and fname(t) == "startswith" and recv(t) is r and arg(t, 0) is C(pre) for t, p in e.facts) or any(p and t.k == "eq" and r in t.a and C(pre) in t.a for t, p in e.facts) or \
        q.holds(e, f"action == '{pre.rsplit('/', 1)[-1]}' || kwa['action'] == '{pre.rsplit('/', 1)[-1]}' || kwargs['action'] == '{pre.rsplit('/', 1)[-1]}'")


def same_or_list(t, name, q, e):
    if t is P(name):
        return True
    return t is not None and t.k in ("new", "list", "tup") and q.holds(e, f"{name} is None || not {name}")


def old_of(e, store, ks):
    got = reads(e, lambda t: dbop(t, store, "get") and k_is(arg(t, 0, "keys"), *ks))
    return got[0] if got else None


def same_date(t, K):
    return fname(t) == "Dater" and arg(t, None, "dts", "dtsb") is A(K, "dt")


def trusted(q, e, env):
    for c in e.clauses:
        if all(p and (t is q.term("self.lax") or t.k == "eq" and {env["aid"], A(env["K"], "i")} == set(t.a) or t.k == "in" and t.a[0] is env["aid"]) for t, p in c):
            return True
    return False


def k11_records(ctx, H):
    for fn, idx, rec, klass, fields in (("updateEnd", "eans", "ends", "EndpointRecord", {"allowed": "allowed"}), ("updateLoc", "lans", "locs", "LocationRecord", {"url": "url"}),
                                        ("updateWatched", "wwas", "obvs", "ObservedRecord", {"enabled": "enabled"})):
        q = Q(ctx, EV, "Kevery." + fn, ())
        K = P("keys")
        for st, v, nd in q.exits():
            ctx.need(did(st, idx, ("pin",), lambda t: arg(t, 0, "keys") is K and arg(t, 1, "val") is SD), H, f"{q.qual}:{idx}", q.where(nd), "the adopted reply's digest is not recorded for later comparison")

            def good(t):
                if arg(t, 0, "keys") is not K:
                    return False
                r = arg(t, 1, "val")
                f, p = next(iter(fields.items()))
                if fname(r) == klass:
                    return arg(r, None, f) is P(p) and any(q.holds(st, "not x || x is None", {"x": g}) for g in reads(st, lambda t: dbop(t, rec, "get") and arg(t, 0, "keys") is K))
                return dbop(r, rec, "get") and arg(r, 0, "keys") is K and any(h.k == "store" and h.a[0] is A(r, f) and h.a[1] is P(p) for h in st.hist)
            ctx.need(did(st, rec, ("pin",), good), H, f"{q.qual}:{rec}", q.where(nd), "the record is not set to what the reply says, or another part of it is lost")
    q = Q(ctx, EV, "Kevery.updateKeyState", ())
    for st, v, nd in q.exits():
        ctx.need(did(st, "ksns", ("pin",), lambda t: k_is(arg(t, 0, "keys"), A(SD, "qb64")) and arg(t, 1, "val") is P("ksr")), H, f"{q.qual}:ksns", q.where(nd), "the notified key state is not recorded")
        ctx.need(did(st, "kdts", ("put", "pin"), lambda t: k_is(arg(t, 0, "keys"), A(SD, "qb64")) and arg(t, 1, "val") is P("dater")), H, f"{q.qual}:kdts", q.where(nd), "the notified key state's date is not recorded")
        ctx.need(did(st, "knas", ("pin",), lambda t: k_is(arg(t, 0, "keys"), A(P("ksr"), "i"), AID) and arg(t, 1, "val") is SD), H, f"{q.qual}:knas", q.where(nd),
                 "the notified key state is not recorded for its identifier and source")


def k11_validate(ctx, R):
    q = Q(ctx, EV, "validateSigs", KB | {"verifySigs", "satisfy"})
    for st, v, nd in q.exits():
        vs = [t for t in terms_of(st) | set(subterms(v)) if fname(t) == "verifySigs"]
        good = False
        for t in vs:
            t = t.a[0] if t.k == "fresh" else t
            sat = q.w.mksub(t, C(1))
            x0, x1 = q.w.mksub(v, C(0)), q.w.mksub(v, C(1))
            good = good or arg(t, 0, "raw") is A(S, "raw") and arg(t, 1, "sigers") is P("sigers") and arg(t, 2, "verfers") is P("verfers") and x0 is q.w.mksub(t, C(0)) and \
                fname(x1) == "satisfy" and recv(x1) is P("tholder") and arg(x1, 0, "indices") is sat
        ctx.need(good, R, f"{q.qual}:to threshold", q.where(nd), "signatures are found valid without the verified indices satisfying the threshold, or unverified ones are returned")
