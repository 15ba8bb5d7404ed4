"""Replay protection of messages: accepted once, in time, and only when authenticated by the sender."""
from . import prop
from .corelib import *
from .kel import KB
from .rct import norm, same
from .esc import hist_calls, caught
from .rpy import reads

KR = "src/keri/core/kraming.py"
M = P("msg")
OP = KB | {"_normalizeSenderSeals", "_normalizeSenderTlsgs", "_hasSeals", "_hasSigs", "_validateSenderSeal", "_verifyAttachedSigs", "_storeNonAuthAttachments", "_rehydrateKwaFromEscrow",
           "_fetchCacheType", "_isNewerMdt", "satisfy", "getTopItemIter", "fromIso8601", "nowIso8601", "nowUTC", "timestamp", "toIso8601"}
PARTS = {"trqs": "kramTRQS", "tsgs": "kramTSGS", "ssts": "kramSSTS", "frcs": "kramFRCS", "tdcs": "kramTDCS", "ptds": "kramPTDS", "bsqs": "kramBSQS", "bsss": "kramBSSS", "tmqs": "kramTMQS"}


# ---- arithmetic of times
def clock(t):
    """what a number of seconds is the time of: the present, or the text it was read from"""
    if fname(t) != "timestamp":
        return None
    r = recv(t)
    if fname(r) in ("nowUTC",):
        return C("now")
    if fname(r) == "fromIso8601":
        s = arg(r, 0, "dts")
        return C("now") if fname(s) in ("nowIso8601",) else norm(s)
    return None


def lin(t, k=1.0):
    """linear form of a number: {atom: coefficient}, constant"""
    if t.k == "c" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
        return {}, k * t.a[0]
    if t.k == "lin":
        d, c = lin(t.a[0], k)
        return d, c + k * t.a[1]
    if t.k == "bin" and t.a[0] in ("+", "-"):
        d, c = lin(t.a[1], k)
        e, f = lin(t.a[2], k if t.a[0] == "+" else -k)
        d = dict(d)
        for x, v in e.items():
            d[x] = d.get(x, 0) + v
        return {x: v for x, v in d.items() if v}, c + f
    if t.k == "bin" and t.a[0] in ("*", "/"):
        a, b = t.a[1], t.a[2]
        if b.k == "c" and isinstance(b.a[0], (int, float)) and b.a[0]:
            return lin(a, k * b.a[0] if t.a[0] == "*" else k / b.a[0])
        if t.a[0] == "*" and a.k == "c" and isinstance(a.a[0], (int, float)):
            return lin(b, k * a.a[0])
    if t.k == "call" and t.a[0].k == "g" and t.a[0].a[0] in ("int", "float", "round") and len(t.a[1]) == 1:
        return lin(t.a[1][0], k)
    if t.k == "call" and t.a[0].k == "a" and t.a[0].a[1] == "timestamp":
        c = clock(t)
        if c is not None:
            return {c: k}, 0
    return {t: k}, 0


def le(t, p):
    """upper bounds a literal states: [(form, bound)] for form <= bound"""
    if t.k != "lt":
        return []
    a, b, k = t.a
    if not p:
        a, b, k = b, a, 1 - k
    d, c = lin(mk("bin", "-", a, b))
    out = [(d, k - 1 - c)]
    for x, v in list(d.items()):  # larger than the largest of several
        if v > 0 and fname(x) == "max" and len(x.a[1]) > 1 or v < 0 and fname(x) == "min" and len(x.a[1]) > 1:
            for y in x.a[1]:
                e = {z: w for z, w in d.items() if z is not x}
                g, h = lin(y, v)
                for z, w in g.items():
                    e[z] = e.get(z, 0) + w
                out.append(({z: w for z, w in e.items() if w}, k - 1 - c - h))
    return out


def bounds(x):
    return [b for t, p in x.facts for b in le(t, p)]


def atmost(bs, want, slack=0):
    """some known bound says the form `want` is at most zero"""
    return any(c <= slack + 1e-9 and d == want for d, c in bs)


def beyond(lits, wants):
    """each literal states that one of the forms is above zero"""
    return all(any(c <= 0 and {a: -v for a, v in d.items()} == w for d, c in le(*l) for w in wants) for l in lits)


def outside(x, wants):
    """one of the forms is above zero here"""
    return any(beyond([l], wants) for l in x.facts) or any(beyond(c, wants) for c in x.clauses)


def sources(q, L, seen=()):
    """lists whose elements a list of signatures, or of their indices, is made of; None if unknown"""
    if L is None or L in seen:
        return None
    if L.k == "bin" and L.a[0] == "+":
        a, b = sources(q, L.a[1], seen), sources(q, L.a[2], seen)
        return a | b if a is not None and b is not None else None
    if L.k == "or":
        got = [sources(q, z, seen) for z in L.a[0]]
        return set().union(*got) if None not in got else None
    if L.k == "call" and L.a[0].k == "g" and L.a[0].a[0] in ("list", "tuple", "sorted", "set") and len(L.a[1]) == 1:
        return sources(q, L.a[1][0], seen)
    if L.k == "fresh":
        return sources(q, L.a[0], seen)
    if L in getattr(q, "nothing", {}):
        return {q.nothing[L]}
    if L.k in ("new", "comp", "list", "tup"):
        got = appended(q, L)
        if got is None and L.k == "new":  # filled from other lists
            got = []
            for e in q.w.events:
                if e.kind == "call" and e.term.a[0].k == "a" and e.term.a[0].a[0] is L:
                    n = e.term.a[0].a[1]
                    if n in ("append", "add"):
                        got.append((e.term.a[1][0], e))
                    elif n in ("extend", "update"):
                        v = e.term.a[1][0]
                        got.append((mk("elem", v), e) if v.k != "comp" else (q.w.comp_elems[v][0], e))
        if got is None:
            return None
        out = set()
        for v, _ in got:
            if v.k == "a" and v.a[1] == "index":
                v = v.a[0]
            if v.k != "elem":
                return None
            s = sources(q, v.a[0], seen + (L,))
            if s is None:
                return None
            out |= s
        return out
    return {norm(L)}


class K:
    """how the acceptance of a message sees the sender, the caches and what is held"""

    def __init__(self, q):
        self.q = q
        t = q.term
        self.pre, self.said, self.stamp = t("msg.pre"), t("msg.said"), t("msg.stamp")
        self.stamps = {self.stamp, t("msg.ked['dt']"), t("msg.ked.get('dt')"), t("msg.ked.get('dt', None)"), t("msg.sad['dt']")}

    def kever(self, t):
        if t is None:
            return False
        if fname(t) == "get" and chain(recv(t))[-1] == "kevers":
            return arg(t, 0, "key", "keys") is self.pre
        return t.k == "sub" and chain(t.a[0])[-1] == "kevers" and t.a[1] is self.pre

    def now(self, t):
        return t

    def verify(self, t):
        return fname(t) == "_verifyAttachedSigs" and arg(t, None, "msg") is M and arg(t, None, "senderId") is self.pre and self.kever(arg(t, None, "kever"))

    def verdict(self, x):
        """verifications of the attached signatures known to have found a valid one"""
        out = []
        for f, p in x.facts:
            if p and (f.k == "a" and f.a[1] == "verified" and self.verify(f.a[0]) or f.k == "sub" and f.a[1] is C(0) and self.verify(f.a[0])):
                out.append(f.a[0])
        return out

    def unverified(self, x):
        return any(not p and (f.k == "a" and f.a[1] == "verified" and self.verify(f.a[0]) or f.k == "sub" and f.a[1] is C(0) and self.verify(f.a[0])) for f, p in x.facts)

    def sigs(self, v):
        return {A(v, "sigers"), self.q.w.mksub(v, C(1))}

    def seal(self, x, pol=True):
        return any(p is pol and fname(f) == "_validateSenderSeal" and arg(f, 0, "msg") is M and arg(f, 1, "senderId") is self.pre for f, p in x.facts)

    def single(self, x, pol=True):
        for f, p in x.facts:
            if f.k == "eq" and p is pol and C(1) in f.a:
                o = f.a[0] if f.a[1] is C(1) else f.a[1]
                if fname(o) == "len" and o.a[1][0].k == "a" and o.a[1][0].a[1] == "verfers" and self.kever(o.a[1][0].a[0]):
                    return True
        return False

    def keys(self, x):
        """exchange this message is one of (None: of none), its cache key and the key of what is held"""
        q = self.q
        v2 = q.holds(x, "msg.pvrsn >= Vrsn_2_0 || not msg.pvrsn < Vrsn_2_0")
        # last known use of a cache tells which one applies
        return v2

    def caches(self, x):
        """[(store, key parts, cached?)] of cache lookups decided here"""
        out = []
        for f, p in x.facts:
            g, pol = (f, p) if f.k != "is" else (next((z for z in f.a if z is not NONE), None), not p)
            if f.k == "is" and NONE not in f.a:
                continue
            if fname(g) == "get" and chain(recv(g))[-1] in ("kramMSGC", "kramTMSC"):
                k = tup(arg(g, 0, "keys", "key"))
                if k:
                    out.append((chain(recv(g))[-1], tuple(k), pol))
        return out

    def exchange(self, x):
        """identifiers of the exchange this message says it is of"""
        q = self.q
        for t in ("msg.ked.get('x', None)", "msg.ked.get('x')", "msg.ked['x']", "msg.sad.get('x', None)", "msg.sad['x']"):
            yield q.term(t)

    def cached(self, x, pol):
        """(store, key) found (or not) in the cache this message belongs to, on its kind's terms"""
        q = self.q
        xip = q.holds(x, "msg.ilk == 'xip'")
        exn = q.holds(x, "msg.ilk == 'exn'")
        noexn = q.holds(x, "msg.ilk != 'exn'")
        for s, k, p in self.caches(x):
            if p is not pol:
                continue
            if s == "kramTMSC" and len(k) == 3 and k[0] is self.pre and k[2] is self.said:
                if xip and k[1] is self.said or exn and k[1] in set(self.exchange(x)):
                    return s, k
            if s == "kramMSGC" and len(k) == 2 and k[0] is self.pre and k[1] is self.said:
                if xip and not q.holds(x, "not i", {"i": self.said}):
                    continue
                if not xip and not noexn and not (exn and (any(q.holds(x, "not i", {"i": i}) for i in self.exchange(x)) or q.holds(x, "msg.pvrsn < Vrsn_2_0 || not msg.pvrsn >= Vrsn_2_0"))):
                    continue
                return s, k
        return None

    def held(self, x, db="kramPMKS"):
        """lookups of what is held of this message"""
        return {norm(t) for t in list(hist_calls(x)) + reads(x, lambda t: True) if fname(t) == "get" and chain(recv(t))[-1] == db and self.pkey(arg(t, 0, "keys", "key"))}

    def pkey(self, k):
        k = tup(k)
        return bool(k) and len(k) == 2 and k[0] is self.pre and k[1] is self.said

    def none(self, x, t):
        return self.q.holds(x, "t is None || not t", {"t": t})

    def satisfied(self, x, pol):
        """source lists of the index lists known to reach (or not) the sender's threshold"""
        out = []
        for f, p in x.facts:
            if p is pol and fname(f) == "satisfy" and recv(f).k == "a" and recv(f).a[1] == "tholder" and self.kever(recv(f).a[0]):
                s = sources(self.q, arg(f, 0, "indices"))
                if s is not None:
                    out.append(s)
        return out

    def ctype(self, t):
        return fname(t) == "_fetchCacheType" and arg(t, 0, "msgType") is self.q.term("msg.ilk") and arg(t, 1, "route") is self.q.term("msg.route")

    def fields(self, x):
        """cache type consulted"""
        for t in list(hist_calls(x)) + reads(x, lambda t: True):
            if self.ctype(t):
                return t
        return None

    def same_state(self, x):
        """nothing is held under another key state: none is recorded, or the recorded one is the sender's"""
        for g in self.held(x, "kramPMSK"):
            if self.none(x, g):
                return True
            at = self.q.w.mksub
            n = s = False
            for f, p in x.facts:
                if f.k == "eq" and p:
                    for a, b in (f.a, f.a[::-1]):
                        if a.k == "a" and a.a[0] is at(g, C(0)) and a.a[1] in ("num", "sn") and self.estsn(b):
                            n = True
                        if norm(a) is norm(A(at(g, C(1)), "qb64")) and self.estsaid(b):
                            s = True
            if n and s:
                return True
        return False

    def changed(self, x):
        for g in self.held(x, "kramPMSK"):
            at = self.q.w.mksub
            for f, p in x.facts:
                if f.k == "eq" and not p:
                    for a, b in (f.a, f.a[::-1]):
                        if a.k == "a" and a.a[0] is at(g, C(0)) and self.estsn(b) or norm(a) is norm(A(at(g, C(1)), "qb64")) and self.estsaid(b):
                            return True
            for c in x.clauses:
                if c and all(f.k == "eq" and not p and any(z is at(g, C(i)) for i in (0, 1) for y in f.a for z in subterms(y)) for f, p in c):
                    return True
        return False

    def estsn(self, b):
        """ordinal of the sender's key state"""
        if b.k != "a":
            return False
        if b.a[1] in ("num", "sn") and b.a[0].k == "a" and b.a[0].a[1] == "sner":
            return self.kever(b.a[0].a[0])
        if b.a[1] == "sn":
            return self.kever(b.a[0])
        return b.a[1] == "s" and b.a[0].k == "a" and b.a[0].a[1] == "lastEst" and self.kever(b.a[0].a[0])

    def estsaid(self, b):
        b = norm(b)
        if b.k != "a":
            return False
        if b.a[1] in ("said", "saidb") and b.a[0].k == "a" and b.a[0].a[1] == "serder":
            return self.kever(b.a[0].a[0])
        return b.a[1] == "d" and b.a[0].k == "a" and b.a[0].a[1] == "lastEst" and self.kever(b.a[0].a[0])


def rec(t):
    """fields of a cache record"""
    p = call_parts(t)
    if p is None or fname(t) not in ("MsgCacheRecord", "TxnMsgCacheRecord"):
        return {}
    names = ("mdt", "d", "ml", "pml", "xl", "pxl") if fname(t) == "MsgCacheRecord" else ("mdt", "xdt", "d", "ml", "pml", "xl", "pxl")
    out = dict(zip(names, p[1]))
    out.update(p[2])
    return out


@prop("X02")
def x02(ctx):
    R1 = "X02.authentic"
    ctx.rule(R1, "a message is accepted only with a seal of it in the sender's key event log, a verified signature of the sender's single key, or verified signatures to the sender's current threshold", 4)
    R2 = "X02.once"
    ctx.rule(R2, "a message is accepted once: only when not in its cache, which then records it, or when it was waiting for signatures and its threshold had not been reached", 4)
    R3 = "X02.timely"
    ctx.rule(R3, "a message not seen before is accepted or held only within the time window of its kind of authentication, and of its exchange", 4)
    R4 = "X02.held"
    ctx.rule(R4, "a message with signatures short of the threshold is held: message, verified signatures, key state, other material; it is refused if the key state changed", 4)
    R5 = "X02.refused"
    ctx.rule(R5, "a message is refused only because it was seen before, is out of time, or is not authentic", 6)
    q = Q(ctx, KR, "Kramer.kramit", OP, limit=6000, snaps=("kramPMKS",))
    k = K(q)
    at = q.w.mksub
    MD = norm(k.stamp)
    q.nothing = {}  # empty lists standing for nothing held
    for e in q.w.events:
        if e.kind == "call" and fname(e.term) == "satisfy":
            for g in k.held(e):
                if k.none(e, g):
                    q.nothing.update({z: g for z in subterms(e.term) if z.k == "new" and not appended(q, z)})
    seen = set()
    for st, v, nd in q.exits():
        w = q.where(nd)
        multi = k.single(st, False)
        V = k.verdict(st)
        old, new = k.cached(st, True), k.cached(st, False)
        ct = k.fields(st)
        if v is M:
            # -- authentic
            good = k.seal(st) or k.single(st) and bool(V)
            hs = k.held(st)
            for s in k.satisfied(st, True):
                own = set().union(*[k.sigs(z) for z in V]) if V else set()
                if s and s <= own | hs and (not (s & hs) or k.same_state(st)):
                    good = True
            ctx.need(good, R1, f"{q.qual}:accepted", w, "a message is accepted without a valid seal of the sender, a verified signature of its single key, or signatures to its threshold")
            # -- once
            if new is not None:
                pins = [t for t in hist_calls(st) if fname(t) == "pin" and chain(recv(t))[-1] == new[0]]
                ctx.need(any(tuple(tup(arg(t, 0, "keys", "key")) or ()) == new[1] for t in pins), R2, f"{q.qual}:recorded", w, "an accepted message is not recorded in its cache")
            else:
                ctx.need(old is not None, R2, f"{q.qual}:looked up", w, "a message is accepted without having been looked for in the cache of its sender (and exchange)")
                waiting = any(q.holds(st, "t is not None || t", {"t": g}) for g in k.held(st, "kramPMKM")) or any(p and fname(f) == "_isNewerMdt" for f, p in st.facts)
                either = any(len(c) == 2 and any(fname(f) == "_isNewerMdt" and p for f, p in c) for c in st.clauses)
                ctx.need(waiting or either, R2, f"{q.qual}:waiting", w, "a message already recorded is accepted although it is not waiting for signatures")
                short = any(s <= hs and (s or True) and all(h in s or k.none(st, h) for h in hs) for s in k.satisfied(st, False))
                ctx.need(short and bool(hs), R2, f"{q.qual}:not yet accepted", w, "a message is accepted again although the signatures held for it had already reached the threshold")
        elif v is not NONE:
            ctx.bad(R5, f"{q.qual}:result", w, f"neither the message nor nothing is handed back: {show(v)[:60]}")
        # -- timely: whatever recorded a new message
        for t in hist_calls(st):
            if fname(t) != "pin" or chain(recv(t))[-1] not in ("kramMSGC", "kramTMSC"):
                continue
            r = rec(arg(t, 1, "val", "data"))
            long = multi and not k.seal(st)
            c = lambda n: A(ct, n) if ct is not None else None
            if ct is None:
                ctx.bad(R3, f"{q.qual}:lags", w, "a message is recorded without the time limits of its kind")
                continue
            bs = bounds(st)
            ml = c("ll") if long else c("sl")
            ctx.need(atmost(bs, {C("now"): 1000.0, MD: -1000.0, c("d"): -1.0, ml: -1.0}), R3, f"{q.qual}:not too old", w, "a message older than its time window is accepted or held")
            ctx.need(atmost(bs, {MD: 1000.0, C("now"): -1000.0, c("d"): -1.0}), R3, f"{q.qual}:not too new", w, "a message dated later than the allowed drift is accepted or held")
            ok = r.get("mdt") in k.stamps and r.get("d") is c("d") and r.get("ml") is ml and r.get("pml") is (c("pll") if long else c("psl")) and r.get("xl") is c("xl") and r.get("pxl") is c("pxl")
            ctx.need(ok, R3, f"{q.qual}:record", w, "the record of a message does not hold its date and the time limits it was judged by")
            if chain(recv(t))[-1] == "kramTMSC":
                xd = r.get("xdt")
                if q.holds(st, "msg.ilk == 'xip'"):
                    good = xd in k.stamps
                else:
                    good = False
                    if xd is not None and xd.k == "a" and xd.a[1] == "xdt":
                        for z in subterms(xd):
                            if fname(z) == "getTopItemIter" and chain(recv(z))[-1] == "kramTMSC":
                                ks = tup(arg(z, 0, "keys", "key"))
                                good = good or bool(ks) and ks[0] is k.pre and ks[1] in set(k.exchange(st)) and any(q.holds(st, "not n is None || n", {"n": y}) for y in subterms(xd) if fname(y) == "next")
                ctx.need(good, R3, f"{q.qual}:exchange date", w, "the date of an exchange is not that of its first message from the same sender")
                if good:
                    X = norm(xd)
                    ctx.need(atmost(bs, {X: 1000.0, MD: -1000.0}) or X is MD, R3, f"{q.qual}:in exchange", w, "a message dated before its exchange began is accepted or held")
                    ctx.need(atmost(bs, {MD: 1000.0, X: -1000.0, c("xl"): -1.0}), R3, f"{q.qual}:exchange open", w, "a message dated after its exchange ended is accepted or held")
            # -- not accepted: held
            if v is NONE and not k.unverified(st):
                x02_pending(ctx, R4, q, k, st, w, V, False)
        if v is NONE:
            x02_refused(ctx, R5, R4, q, k, st, w, V, old, new, ct, MD)
    for e in q.w.events:  # what was held is read before it is added to, so it is what was held before
        if e.kind == "call" and fname(e.term) == "get" and chain(recv(e.term))[-1] == "kramPMKS":
            again = any(fname(t) in ("add", "put", "pin", "rem") and chain(recv(t))[-1] == "kramPMKS" for t in hist_calls(e))
            ctx.need(not again, R2, f"{q.qual}:held before", q.where(e.node), "the signatures held before this message are read after those of this message are added")
    for kind, st, v, nd in q.w.exits:
        if kind != "raise" or v is None:
            continue
        n = exc_name(v)
        if n == "MissingAuthAttachmentError":
            ok = all(any(not p and fname(f) == z and arg(f, 0, "senderId") is k.pre for f, p in st.facts) for z in ("_hasSeals", "_hasSigs"))
            ctx.need(ok, R5, f"{q.qual}:no authentication", q.where(nd), "a message is refused for lack of authentication although some may be attached")
        elif n == "MissingSenderKeyStateError":
            kv = [z for z in reads(st, lambda z: k.kever(z)) if q.holds(st, "z is None || not z", {"z": z})] or q.holds(st, "not p in self.db.kevers", {"p": k.pre})
            ctx.need(bool(kv), R5, f"{q.qual}:unknown sender", q.where(nd), "a message is refused for lack of the sender's key state although there is one")
            ctx.need(cued(k, st), R5, f"{q.qual}:asked for", q.where(nd), "the sender's missing key state is not asked for")
        if n in ("MissingAuthAttachmentError", "MissingSenderKeyStateError", "KramError"):
            wrote = [t for t in hist_calls(st) if fname(t) in ("pin", "put", "add") and any(z.startswith("kram") for z in chain(recv(t)))]
            ctx.need(not wrote, R2, f"{q.qual}:refused unrecorded", q.where(nd), "a message refused with an error is recorded as seen")
    ctx.need(any(v is M for _, v, _ in q.exits()), R5, f"{q.qual}:some accepted", q.where(), "no message is ever accepted")
    x02_auth(ctx, R1, R5)
    x02_parts(ctx, R4)
    x02_prune(ctx, R2)
    x02_gate(ctx, R2, R5)
    x02_config(ctx, R3)


def cued(k, st):
    for t in hist_calls(st):
        if fname(t) in ("append", "push", "appendleft") and chain(recv(t))[-1] == "cues":
            d = arg(t, 0, "val", "item", "x")
            txt = {z.a[0] for z in subterms(d) if z.k == "c"} if d is not None else set()
            for z in (d.a if d is not None else ()):
                if isinstance(z, tuple):
                    for kv in z:
                        for y in (kv if isinstance(kv, tuple) else (kv,)):
                            if isinstance(y, T):
                                txt |= {u.a[0] for u in subterms(y) if u.k == "c"}
                                if any(u is k.pre for u in subterms(y)):
                                    txt.add("<pre>")
            if "keystate" in txt and "<pre>" in txt | ({"<pre>"} if d is not None and any(u is k.pre for u in subterms(d)) else set()):
                return True
    return False


def x02_pending(ctx, R, q, k, st, w, V, cached):
    """everything of a message short of signatures is kept"""
    calls = list(hist_calls(st))
    put = lambda db, val: any(fname(t) in ("put", "pin") and chain(recv(t))[-1] == db and k.pkey(arg(t, 0, "keys", "key")) and val(arg(t, 1, "val", "data")) for t in calls)
    hs = k.held(st)
    # signatures: every verified one is added
    own = set().union(*[k.sigs(v) for v in V]) if V else set()
    good = False
    for h in st.hist:
        if h.k == "looped":
            src = sources(q, h.a[0])
            if src is not None and src and src <= own and not_dropped(q, h.a[0], hs, own):
                E = q.w.elem_of(h.a[0])
                ends = [b for b in q.w.events if b.kind == "bodyend" and b.term is h.a[0]]
                if ends and all(any(fname(t) == "add" and chain(recv(t))[-1] == "kramPMKS" and k.pkey(arg(t, 0, "keys", "key")) and each_of(arg(t, 1, "val"), E, own) for t in hist_calls(b)) for b in ends):
                    good = True
    for t in calls:
        if fname(t) in ("put", "pin") and chain(recv(t))[-1] == "kramPMKS" and k.pkey(arg(t, 0, "keys", "key")):
            src = sources(q, arg(t, 1, "vals", "val"))
            good = good or fname(t) == "put" and src is not None and bool(src & own) and src <= own | hs
            good = good or src is not None and bool(src & own) and bool(src & hs)
    none = nothing_new(q, k, st, own)
    ctx.need(good or none, R, f"{q.qual}:signatures held", w, "a verified signature of a message short of its threshold is not kept")
    if none:
        return
    m = put("kramPMKM", lambda v: v is M) or any(q.holds(st, "t is not None || t", {"t": g}) for g in k.held(st, "kramPMKM"))
    ctx.need(m, R, f"{q.qual}:message held", w, "a message short of its threshold is not kept with its signatures")

    def state(v):
        t = tup(v)
        return bool(t) and len(t) == 2 and state_num(k, t[0]) and state_dig(k, t[1])
    s = put("kramPMSK", state) or any(q.holds(st, "t is not None || t", {"t": g}) for g in k.held(st, "kramPMSK"))
    ctx.need(s, R, f"{q.qual}:key state held", w, "the key state under which signatures of a held message were verified is not kept")
    o = any(fname(t) == "_storeNonAuthAttachments" and k.pkey(arg(t, 0, "key")) and arg(t, 1, "senderId") is k.pre for t in calls)
    ctx.need(o, R, f"{q.qual}:material held", w, "what came with a message short of its threshold is not kept")


def each_of(v, E, own):
    return v is E or v is not None and v.k == "elem" and norm(v.a[0]) in {norm(z) for z in own}


def not_dropped(q, L, hs, own):
    """a selection of verified signatures leaves out only those held already"""
    if L.k != "comp":
        return True
    got = q.w.comp_elems.get(L)
    for it, cl in got[1] if got else ():
        for f, p in cl:
            if f.k != "in" or p or f.a[0].k != "a" or f.a[0].a[1] not in ("index", "qb64"):
                return False
            s = sources(q, f.a[1])
            if s is None or not s <= hs:
                return False
    return got is not None


def state_num(k, t):
    return t.k == "a" and t.a[1] == "sner" and k.kever(t.a[0]) or fname(t) in ("Number", "Seqner", "Huge") and any(k.estsn(z) for z in subterms(t))


def state_dig(k, t):
    return fname(t) in ("Diger", "Saider") and arg(t, None, "qb64", "qb64b") is not None and k.estsaid(arg(t, None, "qb64", "qb64b"))


def nothing_new(q, k, st, own):
    """no verified signature is one not held before"""
    for f, p in st.facts:
        if not p and f.k == "comp":
            s = sources(q, f)
            if s and s <= own:
                return True
    return False


def x02_refused(ctx, R5, R4, q, k, st, w, V, old, new, ct, MD):
    ok = lambda s, env=None: q.holds(st, s, env)
    hs = k.held(st)
    if ok("not t || t is None", {"t": k.stamp}):
        return ctx.ok(R5, f"{q.qual}:undated")
    if old is not None:
        newer = any(not p and fname(f) == "_isNewerMdt" for f, p in st.facts)
        nopart = any(k.none(st, g) for g in k.held(st, "kramPMKM"))
        if newer and nopart:
            return ctx.ok(R5, f"{q.qual}:seen")
        if k.seal(st) or any(p and fname(f) == "_hasSeals" for f, p in st.facts) and any(not p and fname(f) == "_hasSigs" for f, p in st.facts):
            return ctx.ok(R5, f"{q.qual}:seen")
        if k.single(st) or k.changed(st):
            return ctx.ok(R5, f"{q.qual}:seen")
        if any(s <= hs for s in k.satisfied(st, True)):
            return ctx.ok(R5, f"{q.qual}:seen")
    if k.unverified(st):
        return ctx.ok(R5, f"{q.qual}:unverified")
    if V and k.single(st, False):
        own = set().union(*[k.sigs(z) for z in V])
        full = any(s & own and all(h in s or k.none(st, h) for h in hs) for s in k.satisfied(st, False))
        # some held signature decides already, or no threshold is known, or no signature at all
        noth = any(ok("not t || t is None", {"t": z}) for z in reads(st, lambda z: z.k == "a" and z.a[1] == "tholder" and k.kever(z.a[0])))
        empty = any(not p and sources(q, f) is not None and sources(q, f) & own for f, p in st.facts if f.k in ("bin", "new", "comp"))
        ctx.need(full or noth or empty, R5, f"{q.qual}:short of threshold", w, "a message whose held and attached signatures reach the threshold is refused")
        return x02_pending(ctx, R4, q, k, st, w, V, old is not None)
    if ct is not None:
        c = lambda n: A(ct, n)
        out = []
        for ml in (c("sl"), c("ll")):
            out.append({C("now"): 1000.0, MD: -1000.0, c("d"): -1.0, ml: -1.0})
        out.append({MD: 1000.0, C("now"): -1000.0, c("d"): -1.0})
        if outside(st, out):
            return ctx.ok(R5, f"{q.qual}:out of time")
        for X in {z for d, _ in bounds(st) for z in d if z is not C("now") and z is not MD} | {z for cl in st.clauses for l in cl for d, _ in le(*l) for z in d}:
            if outside(st, [{X: 1000.0, MD: -1000.0}, {MD: 1000.0, X: -1000.0, c("xl"): -1.0}]) and (X in {norm(s) for s in k.stamps} or X.k == "a" and X.a[1] == "xdt"):
                return ctx.ok(R5, f"{q.qual}:out of exchange")
        for z in [z for z in terms_of(st) if fname(z) == "next"]:
            if ok("z is None || not z", {"z": z}) and any(fname(y) == "getTopItemIter" and chain(recv(y))[-1] == "kramTMSC" and (tup(arg(y, 0, "keys")) or [None])[0] is k.pre for y in subterms(z)):
                return ctx.ok(R5, f"{q.qual}:no exchange")
        if k.seal(st, False):
            return ctx.ok(R5, f"{q.qual}:no seal")
        if any("MissingSenderKeyStateError" in m.a[1] for m in caught(st)):
            return ctx.need(cued(k, st), R5, f"{q.qual}:asked for", w, "the sender's missing sealing event is not asked for")
    fs = "; ".join(("" if p else "not ") + show(t)[:60] for t, p in sorted(st.facts, key=lambda l: l[0].sid)[-5:])
    ctx.bad(R5, f"{q.qual}:refused", w, f"a message is refused for no reason established (known here: {fs})")


def x02_auth(ctx, R1, R5):
    S = P("senderId")
    # -- a seal
    q = Q(ctx, KR, "Kramer._validateSenderSeal", OP, limit=2000)
    at = q.w.mksub
    some = False
    last = lambda t: fname(t) in ("getLast",) and chain(recv(t))[-1] == "kels" and norm(arg(t, 0, "keys")) is S and arg(t, 1, "on") is not None
    for st, v, nd in q.exits():
        w = q.where(nd)
        sd = [t for t in hist_calls(st) if last(t)]
        ev = [t for t in hist_calls(st) if fname(t) == "get" and chain(recv(t))[-1] == "evts"]
        if v is TRUE or v is C(True):
            some = True
            good = False
            for E in ev:
                ks = tup(arg(E, 0, "keys")) or []
                if len(ks) != 2 or norm(ks[0]) is not S:
                    continue
                D = norm(ks[1])
                cited = [t for t in sd if norm(t) is D] or [t for t in sd for f, p in st.facts if f.k == "eq" and p and {norm(z) for z in f.a} == {norm(t), D}]
                seal = False
                for f, p in st.facts:
                    if f.k == "eq" and p and A(P("msg"), "said") in f.a:
                        o = f.a[0] if f.a[1] is A(P("msg"), "said") else f.a[1]
                        b = recv(o) if fname(o) == "get" else (o.a[0] if o.k == "sub" else None)
                        key = arg(o, 0) if fname(o) == "get" else (o.a[1] if o.k == "sub" else None)
                        if key is C("d") and b is not None and b.k == "elem" and any(z is A(E, "seals") for z in subterms(b)):
                            seal = True
                if cited and seal:
                    # the event cited is the one found
                    for t in cited:
                        for f, p in st.facts:
                            if f.k == "eq" and p and any(norm(z) is norm(t) for z in f.a):
                                good = True
            ctx.need(good, R1, f"{q.qual}:sealed", w, "a seal counts although no seal of the message was found in the cited event of the sender's log")
        elif v is FALSE or v is C(False):
            none = not sd
            differs = any(f.k == "eq" and not p and any(norm(z) is norm(t) for z in f.a for t in sd) for f, p in st.facts)
            scanned = any(h.k == "looped" and any(z is A(E, "seals") for z in subterms(h.a[0]) for E in ev) for h in st.hist)
            empty = any(not p and f.k == "new" or not p and f.k == "list" for f, p in st.facts)
            ctx.need(differs or scanned or (none and empty), R5, f"{q.qual}:not sealed", w, "a seal is refused before its cited event was searched")
        else:
            ctx.bad(R1, f"{q.qual}:verdict", w, "a seal counts or not by something other than its search")
    ctx.need(some, R5, f"{q.qual}:some sealed", q.where(), "no seal ever counts")
    for n in ("sscs", "ssts"):
        ends = [b for b in q.w.events if b.kind == "bodyend" and any(z is C(n) for z in subterms(b.term))]
        comp = any(z.k == "comp" and any(y is C(n) for it, _ in (q.w.comp_elems.get(z) or (0, ()))[1] for y in subterms(it)) for e in q.w.events if e.term is not None for z in subterms(e.term))
        ctx.need(bool(ends) or comp or any(z is C(n) for e in q.calls("extend") for z in subterms(e.term)), R5, f"{q.qual}:{n}", q.where(), f"seals attached as {n} are not considered")
        for b in ends:
            E = q.w.elem_of(b.term)
            took = any(fname(t) in ("append", "add", "insert") and all(any(z is at(E, C(i)) for z in subterms(t)) or any(z is E for z in t.a[1]) for i in ((0, 1) if n == "sscs" else (1, 2))) for t in hist_calls(b))
            other = n == "ssts" and q.holds(b, "p.qb64 != s", {"p": at(E, C(0)), "s": S})
            ctx.need(took or other, R5, f"{q.qual}:{n} taken", q.where(b.node), "a seal of the sender attached to a message is left out")
    for kind, st, v, nd in q.w.exits:
        if kind == "raise" and v is not None and exc_name(v) == "MissingSenderKeyStateError":
            miss = [t for t in reads(st, lambda t: True) + list(hist_calls(st)) if last(t) or fname(t) == "get" and chain(recv(t))[-1] == "evts"]
            ctx.need(any(q.holds(st, "t is None || not t", {"t": t}) for t in miss), R5, f"{q.qual}:missing", q.where(nd), "the sealing event is said to be missing although it is there")
    # -- signatures
    q = Q(ctx, KR, "Kramer._verifyAttachedSigs", OP - {"_verifyAttachedSigs"} | {"_scrubSameSenderPriorEventTsgs", "_scrubFailedVerification", "_normalizeCurrentSenderTsgs", "verifySigs"}, limit=4000)
    at = q.w.mksub
    RAW = A(P("msg"), "raw")
    for st, v, nd in q.exits():
        w = q.where(nd)
        ok = arg(v, 0, "verified") if fname(v) == "SigVerifyResult" else None
        sg = arg(v, 1, "sigers") if ok is not None else None
        if ok is None:
            ctx.bad(R1, f"{q.qual}:result", w, "what was verified is not handed back")
            continue
        vs = [t for t in hist_calls(st) if fname(t) == "verifySigs"]
        good = [t for t in vs if arg(t, 0, "raw") is RAW and arg(t, 2, "verfers") is A(P("kever"), "verfers")]
        own = [at(t, C(0)) for t in good]
        if ok is FALSE or ok is C(False):
            ctx.need(any(q.holds(st, "not o", {"o": o}) for o in own), R5, f"{q.qual}:none verified", w, "attached signatures are said not to verify although some did")
            for t in good:
                src = arg(t, 1, "sigers")
                ctx.need(any(h.k == "looped" and sigers_of(h.a[0]) for h in st.hist) or any(sigers_of(z) for z in subterms(src)), R5, f"{q.qual}:all tried", w, "signatures attached are not verified")
        elif ok is TRUE or ok is C(True):
            cig = False
            for f, p in st.facts:
                if p and fname(f) == "verify" and recv(f).k == "a" and recv(f).a[1] == "verfer":
                    I, V = recv(f).a[0], recv(f)
                    cig = cig or arg(f, 0, "sig") is A(I, "raw") and arg(f, 1, "ser") is RAW and q.holds(st, "not v.transferable", {"v": V}) and q.holds(st, "s == v.qb64", {"s": S, "v": V})
            sig = any(sg is o and q.holds(st, "o", {"o": o}) for o in own)
            none = cig and q.holds(st, "not o", {"o": sg}) or sg is not None and appended(q, sg) == []
            ctx.need(sig or cig and none, R1, f"{q.qual}:verified", w, "a signature counts without verifying over the message with the sender's current keys, or its own nontransferable key")
        else:
            ctx.need(any(sg is o and equivalent(st, ok, o) for o in own), R1, f"{q.qual}:verified", w, "a signature counts without verifying over the message with the sender's current keys")
        if not (ok is TRUE or ok is C(True)) or own:
            for L, what in (("sigers", "signature"), ("cigars", "single signature")):
                ends = [h.a[0] for h in st.hist if h.k == "looped" and any(z is C(L) for z in subterms(h.a[0])) and not any(z is C("lsgs") or z is C("tsgs") for z in subterms(h.a[0]))]
                whole = L == "sigers" and any(sigers_of(z) for t in good for z in subterms(arg(t, 1, "sigers")))
                ctx.need(bool(ends) or whole, R5, f"{q.qual}:every {what}", w, f"an attached {what} is not tried")
    ctx.need(any(fname(v) == "SigVerifyResult" and arg(v, 0, "verified") is not FALSE for _, v, _ in q.exits()), R5, f"{q.qual}:some verify", q.where(), "no signature ever counts")
    cigs = False
    for b in q.w.events:
        if b.kind != "bodyend" or any(z is C("lsgs") or z is C("tsgs") for z in subterms(b.term)):
            continue
        E = q.w.elem_of(b.term)
        if any(z is C("sigers") for z in subterms(b.term)):
            took = any(fname(t) in ("append", "add", "setdefault") and any(norm(z) is norm(E) or norm(z) is norm(A(E, "qb64")) for z in t.a[1]) for t in hist_calls(b))
            took = took or any(f.k == "in" and p and any(z is E for z in subterms(f.a[0])) for f, p in b.facts)
            ctx.need(took, R5, f"{q.qual}:taken", q.where(b.node), "an attached signature is left out of those verified")
        elif any(z is C("cigars") for z in subterms(b.term)):
            V = A(E, "verfer")
            out = q.holds(b, "v.transferable || s != v.qb64", {"v": V, "s": S}) or any(not p and fname(f) == "verify" and recv(f) is V for f, p in b.facts)
            ctx.need(out, R5, f"{q.qual}:single taken", q.where(b.node), "a sender's single signature is left out though it may verify")
    for st, v, nd in q.exits():
        cigs = cigs or arg(v, 0, "verified") in (TRUE, C(True)) and any(p and fname(f) == "verify" for f, p in st.facts)
    ctx.need(cigs, R5, f"{q.qual}:single counts", q.where(), "the single signature of a nontransferable sender never counts")
    # signatures of other key states are not pooled with current ones
    q = Q(ctx, KR, "Kramer._normalizeCurrentSenderTsgs", OP, limit=2000)
    n = 0
    for e in q.calls("extend", "append", "update"):
        if not any(z is C("sigers") for z in subterms(recv(e.term))):
            continue
        n += 1
        v = arg(e.term, 0)
        g = v.a[0] if v is not None and v.k == "sub" else (v.a[0].a[0] if v is not None and v.k == "elem" and v.a[0].k == "sub" else None)
        ctx.need(g is not None and q.holds(e, "p.qb64 == s", {"p": q.w.mksub(g, C(0)), "s": S}) , R1, f"{q.qual}:by sender", q.where(e.node), "signatures of another identifier are pooled with the sender's")
    ctx.need(n > 0, R5, f"{q.qual}:pooled", q.where(), "a sender's signature group is never considered")
    # -- what is attached is noticed
    for qual, names in (("Kramer._hasSigs", ("sigers", "cigars", "lsgs", "tsgs")), ("Kramer._hasSeals", ("sscs", "ssts"))):
        q = Q(ctx, KR, qual, OP - {qual.split(".")[1]}, limit=2000)
        for st, v, nd in q.exits():
            if v is TRUE or v is C(True):
                continue
            for n in names:
                seen = any(h.k == "looped" and any(z is C(n) for z in subterms(h.a[0])) for h in st.hist)
                seen = seen or any(not p and any(z is C(n) for z in subterms(f)) for f, p in st.facts)
                seen = seen or v is not None and v not in (FALSE, C(False)) and any(z is C(n) for z in subterms(v))
                ctx.need(seen, R5, f"{q.qual}:{n}", q.where(nd), f"authentication attached as {n} is overlooked")
        ctx.need(any(v is TRUE or v is C(True) or v not in (FALSE, C(False)) for _, v, _ in q.exits()), R5, f"{q.qual}:noticed", q.where(), "authentication attached is never noticed")


def sigers_of(t):
    return any(z is C("sigers") for z in subterms(t))


def x02_parts(ctx, R):
    KEY, S = P("key"), P("senderId")
    # -- stored, each kind in its own store
    q = Q(ctx, KR, "Kramer._storeNonAuthAttachments", OP - {"_storeNonAuthAttachments"}, limit=2000)
    at = q.w.mksub
    of = lambda t, n: t is not None and (fname(t) == "get" and arg(t, 0) is C(n) and recv(t) is P("kwa") or t.k == "sub" and t.a[0] is P("kwa") and t.a[1] is C(n) or t.k == "or" and any(of(z, n) for z in t.a[0]))
    for n, db in PARTS.items():
        ends = [b for b in q.w.events if b.kind == "bodyend" and of(b.term, n)]
        inner = [b for b in q.w.events if b.kind == "bodyend" and b.term.k == "sub" and b.term.a[0].k == "elem" and of(b.term.a[0].a[0], n)]
        direct = [e for e in q.calls("put") if chain(recv(e.term))[-1] == db and any(of(z, n) for z in subterms(arg(e.term, 1, "vals", "val") or NONE))]
        ok = bool(ends) or bool(direct)
        for b in ends:
            E = q.w.elem_of(b.term)
            if n in ("tsgs", "ssts") and q.holds(b, "p.qb64 == s", {"p": at(E, C(0)), "s": S}):
                continue
            if n == "tsgs":
                ok = ok and any(h.k == "looped" and h.a[0] is at(E, C(3)) for h in b.hist)
                continue
            ok = ok and any(fname(t) in ("add",) and chain(recv(t))[-1] == db and arg(t, 0, "keys", "key") is KEY and whole_item(at, arg(t, 1, "val"), E, 3 if n == "ssts" else None) for t in hist_calls(b))
        if n == "tsgs":
            ok = ok and bool(inner)
            for b in inner:
                G = b.term.a[0]
                I = q.w.elem_of(b.term)
                def quad(v):
                    t = tup(v)
                    return bool(t) and len(t) == 4 and all(t[i] is at(G, C(i)) for i in range(3)) and t[3] is I
                ok = ok and any(fname(t) == "add" and chain(recv(t))[-1] == db and arg(t, 0, "keys", "key") is KEY and quad(arg(t, 1, "val")) for t in hist_calls(b))
        ctx.need(ok, R, f"{q.qual}:{n}", q.where(), f"{n} that came with a held message are not kept under it")
    for e in q.calls("add", "put", "pin"):
        d = chain(recv(e.term))[-1]
        if not d.startswith("kram"):
            continue
        ns = [n for n, x in PARTS.items() if x == d]
        ctx.need(bool(ns) and arg(e.term, 0, "keys", "key") is KEY and any(of(z, ns[0]) for z in subterms(arg(e.term, 1, "val", "vals") or NONE)), R, f"{q.qual}:{d}", q.where(e.node), f"{d} is given material of another kind or of another message")
    # -- handed back whole
    q = Q(ctx, KR, "Kramer._rehydrateKwaFromEscrow", OP - {"_rehydrateKwaFromEscrow"} | {"_dedupeAttachmentItems"}, limit=4000)
    PK = P("partialKey")
    sets = {}
    for e in q.w.events:
        if e.kind in ("store", "setitem") and e.term.k == "sub" and e.term.a[0] is P("kwa") and iscon(e.term.a[1]):
            sets.setdefault(e.term.a[1].a[0], []).append(e)
    for n, db in list(PARTS.items()) + [("sigers", "kramPMKS")]:
        read = [e for e in q.w.events if e.kind == "call" and fname(e.term) in ("get", "getIter") and chain(recv(e.term))[-1] == db and arg(e.term, 0, "keys", "key") is PK]
        ctx.need(bool(read) and n in sets, R, f"{q.qual}:{n}", q.where(), f"{n} held for a message are not handed on with it")
        if n == "tsgs":
            continue
        for e in sets.get(n, []):
            v = e.value
            kept = lambda z: fname(z) in ("get", "getIter") and recv(z) is not None and chain(recv(z))[-1] == db and arg(z, 0, "keys", "key") is PK
            none = any(not p and kept(f) or p and f.k == "is" and NONE in f.a and any(kept(z) for z in f.a) for f, p in e.facts)
            ctx.need(none or v is not None and any(kept(z) for z in subterms(v)), R, f"{q.qual}:{n} from", q.where(e.node), f"{n} handed on are not those held")
            ctx.need(n == "sigers" or v is not None and any(of(z, n) for z in subterms(v)), R, f"{q.qual}:{n} new", q.where(e.node), f"{n} of the message that completes the signatures are not handed on")
    for e in q.calls("pop"):
        if recv(e.term) is not P("kwa"):
            continue
        n = arg(e.term, 0)
        ok = any(not p and (fname(f) == "get" and recv(f) is P("kwa") and arg(f, 0) is n or f.k == "sub" and f.a[0] is P("kwa") and f.a[1] is n) for f, p in e.facts)
        ok = ok or n is C("tsgs") and any(not p and f.k in ("new", "phi", "comp", "call") for f, p in e.facts)
        ctx.need(ok or not (iscon(n) and n.a[0] in PARTS or n.k == "elem"), R, f"{q.qual}:dropped", q.where(e.node), "material held for a message is dropped when it is accepted")
    def held_sig(b):
        """the signature of one held or new item, with the parts naming its group"""
        E, t = q.w.elem_of(b.term), b.term
        if fname(t) in ("get", "getIter", "list") and any(fname(z) in ("get", "getIter") and chain(recv(z))[-1] == "kramTSGS" for z in subterms(t)):
            return at(E, C(3)), [at(E, C(i)) for i in range(3)]
        if t.k == "sub" and t.a[1] is C(3) and t.a[0].k == "elem" and of(t.a[0].a[0], "tsgs"):
            return E, [at(t.a[0], C(i)) for i in range(3)]
        return None
    at = q.w.mksub
    kinds = set()
    for b in q.w.events:
        got = held_sig(b) if b.kind == "bodyend" else None
        if got is None:
            continue
        g, ids = got
        kinds.add(g.k)
        took = any(fname(t) in ("append", "add", "setdefault", "insert") and any(any(z is g for z in subterms(y)) for y in t.a[1]) for t in hist_calls(b)) or any(h.k == "setitem" and any(z is g for y in h.a if isinstance(y, T) for z in subterms(y)) for h in b.hist)
        there = any(p and g_in(f, g) for f, p in b.facts) or any(not p and f.k == "forall" and f.a[2] is False and any(z is g for z in subterms(f.a[1])) for f, p in b.facts)
        ctx.need(took or there, R, f"{q.qual}:signature", q.where(b.node), "a signature held for a message, or of the one that completes it, is lost when it is accepted")
    for e in q.w.events:  # groups are told apart by signer and event
        if e.kind == "setitem" and e.term.k == "sub" and e.term.a[0].k == "new" and e.term.a[0] is not P("kwa"):
            ks = {norm(z) for z in tup(e.term.a[1]) or [e.term.a[1]]}
            if any(z.k == "elem" for y in ks for z in subterms(y)):
                named = [{z.a[0] for y in ks for z in subterms(y) if z.k == "sub" and z.a[1] is C(i)} for i in range(3)]
                ctx.need(bool(named[0] & named[1] & named[2]), R, f"{q.qual}:grouped", q.where(e.node), "signatures held under different signers or events are put together")
    # -- removed with their message
    q = Q(ctx, KR, "Kramer._remNonAuthAttachments", OP, limit=200)
    for st, v, nd in q.exits():
        for n, db in PARTS.items():
            ctx.need(any(fname(t) == "rem" and chain(recv(t))[-1] == db and arg(t, 0, "keys", "key") is KEY for t in hist_calls(st)), R, f"{q.qual}:{n}", q.where(nd), f"{n} of a message forgotten stay behind, to be handed on with it when it comes again")


def g_in(f, g):
    """f states that g is already in some list"""
    if f.k == "in":
        return any(z is g for z in subterms(f.a[0]))
    if f.k in ("call", "comp"):
        return any(z is g for z in subterms(f))
    return False


def whole_item(at, v, E, n):
    if v is E:
        return True
    t = tup(v) if v is not None else None
    return bool(t) and n is not None and len(t) == n and all(t[i] is at(E, C(i)) for i in range(n))


def x02_prune(ctx, R):
    NOW = P("rdt_ms")
    for qual, store in (("Kramer._pruneMessages", "kramMSGC"), ("Kramer._pruneExchanges", "kramTMSC")):
        q = Q(ctx, KR, qual, OP - {"_storeNonAuthAttachments"} | {"_remNonAuthAttachments"}, limit=2000)
        at = q.w.mksub
        its = [b for b in q.w.events if b.kind == "bodyend"]
        ctx.need(bool(its), R, f"{qual}:pass", q.where(), "cache entries are never pruned")
        for b in its:
            E = q.w.elem_of(b.term)
            key, rc = at(E, C(0)), at(E, C(1))
            got = any(fname(t) == "getTopItemIter" and chain(recv(t))[-1] == store and not arg(t, 0, "keys") for t in subterms(b.term))
            ctx.need(got, R, f"{qual}:all", q.where(b.node), "not every cache entry is considered for pruning")
            ids = [at(key, C(i)) for i in range(3 if store == "kramTMSC" else 2)]
            gone = [t for t in hist_calls(b) if fname(t) == "rem" and chain(recv(t))[-1] == store]
            MD, XD = norm(A(rc, "mdt")), norm(A(rc, "xdt"))
            c = lambda n: A(rc, n)
            late = [{NOW: 1.0, MD: -1000.0, c("d"): -1.0, c("pml"): -1.0}] if store == "kramMSGC" else [{NOW: 1.0, XD: -1000.0, c("pxl"): -1.0}, {NOW: 1.0, MD: -1000.0, c("d"): -1.0, c("ml"): -1.0}]
            early = {MD if store == "kramMSGC" else XD: 1000.0, NOW: -1.0, c("d"): -1.0}
            partial = [(n, t) for t in hist_calls(b) for n in ("kramPMKM", "kramPMKS", "kramPMSK") if fname(t) == "rem" and chain(recv(t))[-1] == n]
            pk = (ids[0], ids[-1])
            is_pk = lambda t: tup(arg(t, 0, "keys", "key")) == list(pk)
            for t in gone:
                ctx.need(tup(arg(t, 0, "keys", "key")) == ids, R, f"{qual}:entry", q.where(b.node), "another cache entry is removed")

            def lit_early(l):
                return beyond([l], [early])

            def lit_late(l):
                return all(any(d == {a: -v for a, v in w.items()} and k <= 0 for d, k in le(*l)) for w in late)
            # removed only when the message can no longer be accepted
            if gone or partial:
                ok = any(lit_early(l) for l in b.facts) or late_all(b.facts, late) or any(all(lit_early(l) or lit_late(l) for l in cl) for cl in b.clauses)
                ctx.need(ok, R, f"{qual}:window", q.where(b.node), "the record of a message is forgotten while the message could still be accepted: it could be replayed")
                ctx.need(bool(gone), R, f"{qual}:forgotten", q.where(b.node), "what is held of a message is forgotten but not its record")
                for n in ("kramPMKM", "kramPMKS", "kramPMSK"):
                    ctx.need(any(m == n and is_pk(t) for m, t in partial), R, f"{qual}:{n}", q.where(b.node), "signatures held for a forgotten message stay behind: they would count when it comes again")
                ctx.need(any(fname(t) == "_remNonAuthAttachments" and is_pk(t) for t in hist_calls(b)), R, f"{qual}:material", q.where(b.node), "material held for a forgotten message stays behind")
            else:  # kept only while it matters
                ok = any(d.get(NOW) == 1.0 and set(d) <= {NOW, MD, XD, c("d"), c("pml"), c("ml"), c("pxl")} or d.get(NOW) == 1.0 and any(fname(z) == "max" for z in d) for d, _ in bounds(b))
                ctx.need(ok, R, f"{qual}:kept", q.where(b.node), "a cache entry is kept for ever")
    q = Q(ctx, KR, "Pruner.do", {"_pruneMessages", "_pruneExchanges", "nowUTC", "timestamp", "wind"}, limit=400)
    for n in ("_pruneMessages", "_pruneExchanges"):
        ev = [e for e in q.calls(n)]
        ctx.need(bool(ev), R, f"{q.qual}:{n}", q.where(), "the pruning pass leaves out a cache")
        for e in ev:
            d, k = lin(arg(e.term, 0, "rdt_ms"))
            ctx.need(d == {C("now"): 1000.0} and k == 0, R, f"{q.qual}:{n} now", q.where(e.node), "cache entries are pruned by another time than the present")


def late_all(facts, late):
    return all(any(d == {a: -v for a, v in w.items()} and k <= 0 for l in facts for d, k in le(*l)) for w in late)


def x02_gate(ctx, R2, R5):
    q = Q(ctx, KR, "Kramer.intake", OP | {"kramit", "denial"}, limit=400)
    S = P("serder")
    for st, v, nd in q.exits():
        w = q.where(nd)
        if fname(v) == "kramit":
            kw = arg(v, 1, "kwa")
            ctx.need(arg(v, 0, "msg") is S and kw is not None and (kw is P("kwa") or kw.k == "new" and q.holds(st, "kwa is None")), R2, f"{q.qual}:judged", w, "another message or other attachments than given are judged")
            continue
        off = q.holds(st, "not self._enabled || not self.enabled")
        den = any(p and fname(f) == "startswith" and recv(f) is not None and fname(recv(f)) == "denial" and arg(recv(f), 0, "serder") is S and arg(f, 0) is not None and arg(f, 0).k == "elem" and chain(arg(f, 0).a[0])[-1] in ("_denials", "denials") for f, p in st.facts)
        den = den or any(p and fname(f) == "startswith" and fname(recv(f)) == "denial" and any(chain(z)[-1] in ("_denials", "denials") for z in subterms(arg(f, 0)) if z.k == "a") for f, p in st.facts)
        den = den or any(f.k == "forall" and not p and any(fname(z) == "startswith" for z in subterms(f.a[1])) and chain(f.a[0])[-1] in ("_denials", "denials") for f, p in st.facts)
        ctx.need(v is S and (off or den), R2, f"{q.qual}:passed over", w, "a message is let through unjudged although replay protection is on and its kind is not exempt")
    ctx.need(any(fname(v) == "kramit" for _, v, _ in q.exits()), R2, f"{q.qual}:judging", q.where(), "no message is ever judged")
    # -- every message goes through it
    q = Q(ctx, EV, "Kevery.processMsg", KB | {"intake", "reconcileConfig", "processQuery", "processReply", "processEvent", "processXip", "processPro", "processBar"}, limit=3000, snaps=("kwa",), fresh=("intake",))
    SR = [e for e in q.w.events if e.kind == "call" and fname(e.term) in ("processQuery", "processReply", "processEvent", "processXip", "processPro", "processBar")]
    kinds = {"processQuery": "qry", "processReply": "rpy", "processEvent": "exn", "processXip": "xip", "processPro": "pro", "processBar": "bar"}
    ctx.need({fname(e.term) for e in SR} == set(kinds), R5, f"{q.qual}:kinds", q.where(), "one kind of message is never processed")
    for e in SR:
        m = arg(e.term, 0, "serder")
        w = q.where(e.node)
        ctx.need(m is not None and q.holds(e, f"m.ilk == '{kinds[fname(e.term)]}'", {"m": m}), R5, f"{q.qual}:{fname(e.term)}", w, "a message is processed as one of another kind")
        judged = False
        for t in [z for z in terms_of(e) if fname(z) == "intake"]:
            judged = judged or chain(recv(t))[-1] == "kramer" and arg(t, 0, "serder") is m and arg(t, 1, "kwa") is not None and q.holds(e, "t is not None || t", {"t": t})
        off = q.holds(e, "not self.kramer || self.kramer is None")
        ctx.need(judged or off, R2, f"{q.qual}:{fname(e.term)} judged", w, "a message is processed although replay protection refused it or never saw it")
        who = {"m": m}
        ctx.need(q.holds(e, "m.pre is None || not m.pre in self.denyList", who), R2, f"{q.qual}:{fname(e.term)} denied", w, "a message of a denied sender is processed")
        ctx.need(q.holds(e, "m.pre is None || not self.allowList || m.pre in self.allowList || not self.allowList or m.pre in self.allowList", who), R2, f"{q.qual}:{fname(e.term)} allowed", w, "a message of a sender not allowed is processed")


def x02_config(ctx, R):
    q = Q(ctx, KR, "Kramer._parseValidateCtyp", OP, limit=800)
    for st, v, nd in q.exits():
        r = {"r": v}
        for a, b, what in (("0", "r.d", "drift"), ("1", "r.sl", "short lag"), ("r.sl", "r.ll", "long lag"), ("r.ll", "r.xl", "exchange lag"), ("r.sl", "r.psl", "short prune lag"), ("r.ll", "r.pll", "long prune lag"), ("r.xl", "r.pxl", "exchange prune lag")):
            ctx.need(fname(v) == "CacheTypeRecord" and q.holds(st, f"{a} <= {b}", r), R, f"{q.qual}:{what}", q.where(nd), f"time limits are taken whose {what} would let a message be accepted again after its record is pruned, or none be accepted")
    q = Q(ctx, KR, "Kramer._populateCtyp", OP | {"_parseValidateCtyp"}, limit=400)
    ev = [e for e in q.calls("pin", "put") if chain(recv(e.term))[-1] == "kramCTYP"]
    ctx.need(bool(ev), R, f"{q.qual}:limits", q.where(), "configured time limits are never set")
    for e in ev:
        v = arg(e.term, 1, "val", "data")
        k = arg(e.term, 0, "keys", "key")
        ctx.need(any(fname(z) == "_parseValidateCtyp" for z in subterms(v)) or v is not None and "_parseValidateCtyp" in show(v), R, f"{q.qual}:validated", q.where(e.node), "time limits are set without validation")
    # -- most specific limits
    q = Q(ctx, KR, "Kramer._fetchCacheType", OP - {"_fetchCacheType"}, limit=1200)
    for st, v, nd in q.exits():
        ctx.need(v is not None and any(chain(z)[-1] == "kramCTYP" for z in subterms(v) if z.k == "a") or v is not None and v.k == "phi", R, f"{q.qual}:limits", q.where(nd), "the time limits of a message are not configured ones")
