"""Escrow reprocessing: held events, receipts and queries are retried whole and leave exactly when done."""
from . import prop
from ..engine import PHI
from .corelib import *
from .kel import KB
from .rct import norm, keyparts, same, sn_from, RB

BROAD = {"Exception", "BaseException"}


def comps(t, seen=()):
    """what a possibly merged value can be, ignoring text/bytes conversions"""
    if t is None:
        return set()
    n = norm(t)
    if n.k == "phi" and n in PHI and n not in seen:
        out = set()
        for a in PHI[n]:
            if a is not None and not (a.k == "phi" and str(a.a[0])[:1] == "L"):  # left from an earlier entry: the reads before it is set cannot fail
                out |= comps(a, seen + (n,))
        return out or {n}
    if n.k == "tup":
        return {n}
    return {n}


def is_one(t, allowed):
    got = comps(t)
    return bool(got) and got <= set(allowed)


class Entry:
    """one held entry of an escrow as its reprocessing loop sees it"""

    def __init__(self, q, store, seq, on):
        self.q, self.store, self.seq, self.on = q, store, seq, on
        I = self.I = q.w.elem_of(seq)
        sub = lambda *ix: q.w.mksub(sub(*ix[:-1]), C(ix[-1])) if ix else I
        self.sub = sub
        if on:
            self.pre, self.key2, self.val, self.keys = {sub(0, 0)}, {sub(1)}, sub(2), {sub(0)}
        else:
            self.pre, self.key2, self.val, self.keys = {sub(0, 0)}, {sub(0, 1)}, sub(1), {sub(0)}

    def is_pre(self, t):
        ks = tup(t) if t is not None else None
        return is_one(t, self.pre | self.keys) or bool(ks) and len(ks) == 1 and is_one(ks[0], self.pre)

    def is_key2(self, t):
        if is_one(t, self.key2):
            return True
        ns = comps(t)
        n = ns.pop() if len(ns) == 1 else None
        k = next(iter(self.key2))
        if n is not None and n.k == "a" and n.a[1] in ("qb64", "huge") and fname(n.a[0]) in ("Number", "Seqner"):
            inner, code = arg(n.a[0], 0, "num", "sn"), arg(n.a[0], None, "code")
            got = comps(inner)
            if got and all(sn_from(x, k) for x in got) and (n.a[1] == "huge" or fname(n.a[0]) == "Seqner" or code is not None and code.k == "a" and code.a[1] == "Huge" or code is C("0A")):
                return True
        return False

    def is_keys(self, t):
        if t is None:
            return False
        if is_one(t, self.keys):
            return True
        ks = tup(t)
        if ks is not None:
            return len(ks) == 2 and is_one(ks[0], self.pre) and self.is_key2(ks[1])
        if fname(t) in ("snKey", "onKey"):
            k2 = next(iter(self.key2))
            ks = comps(arg(t, 1, "sn", "on"))
            return is_one(arg(t, 0, "pre", "top"), self.pre) and bool(ks) and all(sn_from(k, k2) or k is k2 for k in ks)
        return False

    def is_val(self, t):
        if is_one(t, {norm(self.val)}):
            return True
        ks = tup(t) if t is not None else None
        return bool(ks) and all(is_one(k, {norm(self.q.w.mksub(self.val, C(i)))}) for i, k in enumerate(ks)) and len(ks) == self.arity

    arity = 0

    def removes(self, t):
        if not dbop(t, self.store, "rem"):
            return False
        k, on = arg(t, 0, "keys"), arg(t, None, "on")
        if self.on:
            if on is not None:
                return self.is_pre(k) and is_one(on, self.key2) and self.is_val(arg(t, None, "val"))
            return False
        return self.is_keys(k) and self.is_val(arg(t, 1, "val"))

    def at(self, t, dig):
        """database key of the held event"""
        if t is not None and t.k == "phi":
            return t in PHI and all(self.at(x, dig) for x in comps(t)) and bool(comps(t) - {t})
        ks = tup(t) if t is not None else None
        if ks is None and fname(t) == "dgKey":
            ks = [arg(t, 0, "pre"), arg(t, 1, "dig")]
        return bool(ks) and len(ks) == 2 and is_one(ks[0], self.pre) and is_one(ks[1], dig)

    def from_store(self, t, store, dig):
        t = unwrap(t, ("list", "tuple")) if t is not None else None
        return t is not None and dbop(t, store, "get", "getIter") and self.at(arg(t, 0, "keys"), dig)


def caught(x):
    return [h for h in x.hist if h.k == "caught"]


def could_be(ctx, mark, name, x):
    """an exception of class name may have brought control into this handler"""
    t, names, prior = mark.a
    if any(ctx.model.exc_is(name, p) for p in prior):
        return False
    if not any(ctx.model.exc_is(name, n) or ctx.model.exc_is(n, name) and t.k not in ("exc", "call") for n in names):
        return False
    for f, pol in x.facts:
        if f.k == "call" and fname(f) == "isinstance" and f.a[1] and f.a[1][0] is t:
            cls = f.a[1][1]
            ns = [c.a[0] if c.k == "g" else c.a[1] if c.k == "a" else "" for c in (tup(cls) or [cls])]
            hit = any(ctx.model.exc_is(name, n) for n in ns)
            if hit != pol:
                return False
    return True


def only_is(ctx, mark, name, x):
    t, names, prior = mark.a
    if all(ctx.model.exc_is(n, name) for n in names):
        return True
    return any(pol and f.k == "call" and fname(f) == "isinstance" and f.a[1] and f.a[1][0] is t and f.a[1][1].k in ("g", "a") and
               ctx.model.exc_is(f.a[1][1].a[-1] if f.a[1][1].k == "a" else f.a[1][1].a[0], name) for f, pol in x.facts)


def escrow_loop(ctx, q, store, on, R):
    seqs = {b.term for b in q.w.events if b.kind == "bodyend" and dbop(b.term, store, "getAllItemIter", "getTopItemIter", "getItemIter", "getFullItemIter", "getIter")}
    ctx.need(len(seqs) == 1, R, f"{q.qual}:goes through its escrow", q.where(), "does not go through what is held")
    if len(seqs) != 1:
        return None, []
    seq = seqs.pop()
    E = Entry(q, store, seq, on)
    k = arg(seq, 0, "keys", "top")
    start = k is None or k in (C(b""), C("")) or k.k in ("tup", "list") and not k.a[0]
    if not start:  # a paging loop starting from the empty key
        start = k.k in ("hv", "phi", "loop") or "#" in show(k)
    ctx.need(start, R, f"{q.qual}:all of it", q.where(), "only part of what is held is gone through")
    if on:  # keys of an ordinal store come as tuples: a branch for other keys is dead
        q.w.events[:] = [e for e in q.w.events if not any(not p and fname(t) == "isinstance" and t.a[1] and t.a[1][0] is E.sub(0) for t, p in e.facts)]
    return E, [b for b in q.w.events if b.kind == "bodyend" and b.term is seq]


def leaves(ctx, q, E, ends, W, done, RL, RT, missing):
    """an entry is removed when its retry succeeds or fails for good, kept while what it waits for is missing"""
    ctx.need(bool(q.exits()), RT, f"{q.qual}:ends", q.where(), "a pass over what is held never ends")
    marks = [(b, caught(b)) for b in ends]
    ctx.need(any(any(set(mk_.a[1]) & BROAD for mk_ in ms) for b, ms in marks), RT, f"{q.qual}:one failing entry stops no other", q.where(),
             "an unexpected error with one held entry ends the pass over the others")
    for e in q.w.events:
        if e.kind == "break" and e.term is E.seq:
            ctx.bad(RT, f"{q.qual}:all retried", q.where(e.node), "a pass over what is held can end early")
    for b, ms in marks:
        if not ms:
            ctx.need(done(b), RT, f"{q.qual}:retried whole", q.where(b.node), "a held entry is taken as done without being retried with everything held with it")
            ctx.need(any(E.removes(t) for t in hist_calls(b)), RL, f"{q.qual}:removed when done", q.where(b.node), "an entry whose retry succeeded stays held")
            continue
        for m_ in ms:
            w = any(could_be(ctx, m_, x, b) for x in W)
            rem = any(dbop(t, E.store, "rem", "remAll", "trim") for t in hist_calls(b))
            if w:
                ctx.need(not rem, RL, f"{q.qual}:kept while waiting", q.where(b.node), "an entry still missing what it waits for is removed")
            if not any(only_is(ctx, m_, x, b) for x in W):
                if w and not rem:
                    ctx.bad(RL, f"{q.qual}:removed when refused", q.where(b.node), "an entry refused for good stays held")
                elif not w:
                    ctx.need(any(E.removes(t) for t in hist_calls(b)), RL, f"{q.qual}:removed when refused", q.where(b.node), "an entry refused for good stays held")
    for e in q.w.events:
        if e.kind != "call" or chain(recv(e.term))[-1] != E.store:
            continue
        if fname(e.term) in ("rem", "remAll", "trim"):
            ctx.need(E.removes(e.term), RL, f"{q.qual}:only this entry", q.where(e.node), "another held entry than the one retried is removed")
            ms = caught(e)
            ctx.need(bool(ms) or done(e), RL, f"{q.qual}:removed after the retry", q.where(e.node), "a held entry is removed before it was retried")
            ctx.need(not any(could_be(ctx, m_, x, e) for m_ in ms for x in W), RL, f"{q.qual}:kept while waiting", q.where(e.node),
                     "an entry still missing what it waits for is removed")
    # reasons inside one try
    for e in q.w.events:
        if e.kind != "raise" or not any(e.node is r for r in ast_raises(q)):
            continue
        nm = (e.value.a[0] if e.value is not None and e.value.k == "c" else None)
        if nm is None or caught(e):
            continue
        wait = any(ctx.model.exc_is(nm, x) for x in W)
        miss = missing(e)
        ctx.need(not (wait and done(e)), RL, f"{q.qual}:removed when done", q.where(e.node), "an entry whose retry succeeded stays held")
        if not wait:
            ctx.need(reason(q, e, E), RL, f"{q.qual}:refused with a reason", q.where(e.node), "a held entry is refused for good without a part of it missing, "
                     "its time limit exceeded or its signature shown bad")
        ctx.need(wait == miss or miss and wait, RL, f"{q.qual}:{'waits only for what is missing' if wait else 'refused only for good'}", q.where(e.node),
                 "an entry is kept waiting though nothing it waits for is missing" if wait else "an entry still missing what it waits for is refused for good")


def ast_raises(q):
    import ast
    return [n for n in ast.walk(q.f.node) if isinstance(n, ast.Raise)]


def hist_calls(x):
    return [h.a[0] if h.k == "fresh" else h for h in x.hist if h.k in ("call", "fresh")]


def fresh_enough(q, e, E, dig):
    """the entry's time limit has been checked: not older than it"""
    for t, p in e.facts:
        if t.k not in ("lt", "le", "gt", "ge"):
            continue
        s = set(subterms(t))
        ds = [x for x in s if x.k == "a" and x.a[1] in ("datetime", "datetimes", "dts") and E.from_store(x.a[0], "dtss", dig)]
        lim = [x for x in s if x.k == "a" and str(x.a[1]).startswith("Timeout")]
        now = [x for x in s if fname(x) in ("nowUTC", "now", "utcnow")]
        if ds and lim and now:
            v = {"d": ds[0], "n": now[0], "L": lim[0]}
            for src in ("n - d <= datetime.timedelta(seconds=L)", "n <= d + datetime.timedelta(seconds=L)", "n - datetime.timedelta(seconds=L) <= d",
                        "n - d < datetime.timedelta(seconds=L)", "(n - d).total_seconds() <= L"):
                if q.holds(e, src, v):
                    return True
    return False


def reason(q, e, E):
    for t, p in e.facts:
        if p and t.k in ("is", "eq") and NONE in t.a and any(is_read(z) for z in t.a) or not p and (is_read(t) or fname(t) in ("verify", "compare")):
            return True
        if not p and t.k == "eq" and any(z.k == "a" and z.a[1] in ("said", "saidb") for x in t.a for z in subterms(x)):
            return True
        if t.k in ("lt", "le", "gt", "ge"):
            s = set(subterms(t))
            if any(z.k == "a" and z.a[1] == "index" for z in s) and any(fname(z) == "len" for z in s) and not any(fname(z) in ("nowUTC",) for z in s):
                i = next(z for z in s if z.k == "a" and z.a[1] == "index")
                n = next(z for z in s if fname(z) == "len")
                if q.holds(e, "i >= n", {"i": i, "n": n}):
                    return True
            ds = [x for x in s if x.k == "a" and x.a[1] in ("datetime", "datetimes", "dts") and dbop(x.a[0], "dtss", "get")]
            lim = [x for x in s if x.k == "a" and str(x.a[1]).startswith("Timeout")]
            now = [x for x in s if fname(x) in ("nowUTC", "now", "utcnow")]
            if ds and lim and now and any(q.holds(e, c, {"d": ds[0], "n": now[0], "L": lim[0]}) for c in (
                    "n - d > datetime.timedelta(seconds=L)", "n - d >= datetime.timedelta(seconds=L)", "n > d + datetime.timedelta(seconds=L)",
                    "n - datetime.timedelta(seconds=L) > d", "(n - d).total_seconds() > L")):
                return True
        if not p and t.k == "a" and t.a[1] == "verfers" or p and t.k == "eq" and C(0) in t.a and any(fname(z) == "len" for z in t.a):
            return True
        if not p and t.k == "new":
            return True
    return any(not p and any(is_read(z) for z in subterms(t)) and t.k in ("or", "and") for t, p in e.facts)


def is_read(t):
    t = unwrap(t, ("list", "tuple"))
    return t is not None and any(dbop(t, s, "get", "getIter", "getLast") for s in ("esrs", "dtss", "evts", "sigs", "kels", "rcts"))


EVENTS = (("processEscrowOutOfOrders", "ooes", ("OutOfOrderError",), "udes", True),
          ("processEscrowPartialSigs", "pses", ("MissingSignatureError",), "udes", True),
          ("processEscrowPartialWigs", "pwes", ("MissingWitnessSignatureError",), "udes", True),
          ("processEscrowPartialDels", "pdes", ("MissingDelegationError",), "udes", True),
          ("processEscrowDuplicitous", "ldes", ("LikelyDuplicitousError",), None, True),
          ("processEscrowDelegables", "delegables", ("MissingDelegableApprovalError",), "aess", False))
OP = RB | {"processEvent", "processQuery", "processReceipt", "processAttachedReceiptCouples"}


def k10_events(ctx, RT, RL):
    for fn, store, W, seal, on in EVENTS:
        q = Q(ctx, EV, f"Kevery.{fn}", OP - {fn}, limit=2500)
        E, ends = escrow_loop(ctx, q, store, on, RT)
        if E is None:
            continue
        dig = {norm(E.val)}

        def whole(t, x):
            if fname(t) != "processEvent":
                return False
            if not E.from_store(arg(t, None, "serder"), "evts", dig) or not E.from_store(arg(t, None, "sigers"), "sigs", dig):
                return False
            loc = arg(t, None, "local")
            if loc is None or loc.k != "a" or loc.a[1] != "local" or not E.from_store(loc.a[0], "esrs", dig):
                return False
            if store == "pdes" and not (arg(t, None, "eager") is not None and q.holds(x, "e", {"e": arg(t, None, "eager")})):
                return False
            if seal is None:
                return True
            if not E.from_store(arg(t, None, "wigers"), "wigs", dig):
                return False
            n, s = arg(t, None, "delsner"), arg(t, None, "delsger")
            if n is not None and s is not None and n.k == "sub" and s.k == "sub" and n.a[0] is s.a[0] and n.a[1] is C(0) and s.a[1] is C(1):
                return E.from_store(n.a[0], seal, dig)
            none = n in (None, NONE) and s in (None, NONE)
            return none and any(not p and E.from_store(f, seal, dig) or p and f.k in ("is", "eq") and NONE in f.a and any(E.from_store(z, seal, dig) for z in f.a)
                                for f, p in x.facts)

        def done(x):
            return any(whole(t, x) for t in hist_calls(x))

        def missing(x):
            return seal == "aess" and any(p and f.k in ("is", "eq") and NONE in f.a and any(E.from_store(z, seal, dig) for z in f.a) or
                                          not p and E.from_store(f, seal, dig) for f, p in x.facts)
        leaves(ctx, q, E, ends, W, done, RL, RT, missing)
        for e in q.w.events:
            if e.kind == "call" and dbop(e.term, "udes", "rem", "pin"):
                ms = caught(e)
                ctx.need(E.at(arg(e.term, 0, "keys"), dig) and (bool(ms) or done(e)) and not any(could_be(ctx, m_, x, e) for m_ in ms for x in W), RL,
                         f"{q.qual}:delegation seal kept", q.where(e.node), "the delegation seal held with an event is dropped while the event waits")
        sub = q.calls("processEvent")
        ctx.need(bool(sub), RT, f"{q.qual}:resubmitted", q.where(), "held events are never resubmitted")
        for e in sub:
            ctx.need(whole(e.term, e), RT, f"{q.qual}:resubmitted whole", q.where(e.node), "a held event is resubmitted without everything held with it or its source")
            ctx.need(fresh_enough(q, e, E, dig), RL, f"{q.qual}:time limit", q.where(e.node), "a held event is retried beyond its time limit")


def said_is(t, d):
    """t is a digest primitive, or text, of digest d"""
    return t is not None and (is_one(t, {norm(d)}) or fname(t) in ("Diger", "Saider") and is_one(arg(t, None, "qb64", "qb64b"), {norm(d)}))


def k10_receipts(ctx, RT, RL):
    for fn, store, W, on, arity in (("processEscrowUnverWitness", "uwes", "UnverifiedWitnessReceiptError", True, 2),
                                    ("processEscrowUnverNonTrans", "ures", "UnverifiedReceiptError", False, 3),
                                    ("processEscrowUnverTrans", "vres", "UnverifiedTransferableReceiptError", False, 5)):
        q = Q(ctx, EV, f"Kevery.{fn}", OP - {fn}, limit=2500)
        E, ends = escrow_loop(ctx, q, store, on, RT)
        if E is None:
            continue
        E.arity = arity
        v = lambda i: q.w.mksub(E.val, C(i))
        dig = {norm(v(0)), norm(A(v(0), "qb64"))}
        k2 = next(iter(E.key2))

        def found(t, x):
            if fname(t) != "_processEscrowFindUnver" or not E.is_pre(arg(t, 0, "pre")) or not said_is(arg(t, 2, "rsaider"), v(0)):
                return False
            sn = arg(t, 1, "sn")
            if not (is_one(sn, E.key2) if on else sn_from(sn, k2)):
                return False
            if store == "uwes":
                w = arg(t, None, "wiger")
                return fname(w) == "Siger" and is_one(arg(w, None, "qb64", "qb64b"), {norm(v(1))})
            return is_one(arg(t, None, "cigar"), {v(2)}) and q.holds(x, "t", {"t": t}) is not None

        def done(x):
            for t in hist_calls(x):
                if found(t, x) and q.holds(x, "t", {"t": t}):
                    return True
                if store != "uwes" and dbop(t, "vrcs" if store == "vres" else "wigs", "add", "put") or store == "ures" and dbop(t, "rcts", "add", "put"):
                    val = arg(t, 1, "val")
                    sig = v(arity - 1)
                    if val is not None and any(z is sig or z is A(sig, "raw") for z in subterms(val)):
                        return True
            return False

        def missing(x):
            if any(found(t, x) and not q.holds(x, "not t", {"t": t}) for t in hist_calls(x)):
                return False
            for f, p in x.facts:
                if p and f.k in ("is", "eq") and NONE in f.a and any(dbop(z, "kels", "getLast") for z in f.a):
                    return True
                if not p and fname(f) == "_processEscrowFindUnver" and store == "uwes":
                    return True
            return any(q.holds(x, "e.pre not in self.kevers", {"e": z.a[0]}) for f, p in x.facts for z in subterms(f)
                       if z.k == "a" and z.a[1] == "pre" and dbop(z.a[0], "evts", "get"))
        leaves(ctx, q, E, ends, (W,), done, RL, RT, missing)
        steps = q.calls("_processEscrowFindUnver") + [e for e in q.calls("verify")]
        ctx.need(bool(steps), RT, f"{q.qual}:judged", q.where(), "held receipts are never judged again")
        for e in steps:
            if fname(e.term) == "verify":
                ctx.need(all(q.holds(e, "x is not None", {"x": z}) for z in subterms(e.term) if dbop(z, "kels", "getLast")), RL, f"{q.qual}:missing event waited for",
                         q.where(e.node), "a receipt of an event, or by a receipter, not known yet is refused for good")
                ctx.need(any(z is v(1) for z in subterms(recv(e.term))), RT, f"{q.qual}:judged by its receipter", q.where(e.node),
                         "a held receipt is not judged with the key of the receipter held with it")
            else:
                ctx.need(found(e.term, e), RT, f"{q.qual}:judged whole", q.where(e.node), "a held receipt is looked up without its own event, receipter or signature")
            ctx.need(fresh_enough(q, e, E, dig), RL, f"{q.qual}:time limit", q.where(e.node), "a held receipt is retried beyond its time limit")


def k10_queries(ctx, RT, RL):
    q = Q(ctx, EV, "Kevery.processQueryNotFound", OP - {"processQueryNotFound"}, limit=2500)
    E, ends = escrow_loop(ctx, q, "qnfs", False, RT)
    if E is None:
        return
    dig = {norm(E.val)}

    def whole(t, x):
        if fname(t) != "processQuery" or not E.from_store(arg(t, 0, "serder"), "evts", dig) or not E.from_store(arg(t, None, "sigers"), "sigs", dig):
            return False
        src = arg(t, None, "source")
        got = appended(q, arg(t, None, "cigars")) if arg(t, None, "cigars") is not None else None
        return fname(src) == "Prefixer" and is_one(arg(src, None, "qb64", "qb64b"), E.pre) and bool(got) and all(
            any(z.k == "elem" and E.from_store(z.a[0], "rcts", dig) for z in subterms(g)) and not ev.facts - x.facts and
            any(h.k == "store" and h.a[0] is A(g, "verfer") and g.k == "sub" and any(z is q.w.mksub(g.a[0], C(0)) for z in subterms(h.a[1])) for h in ev.hist) for g, ev in got)

    def done(x):
        return any(whole(t, x) for t in hist_calls(x))
    leaves(ctx, q, E, ends, ("QueryNotFoundError",), done, RL, RT, lambda x: False)
    for e in q.w.events:
        if e.kind == "raise" and not caught(e):
            nosig, nocig = any(E.from_store(t, "sigs", dig) and not p for t, p in e.facts), any(t.k == "new" and not p for t, p in e.facts)
            ctx.need(nosig == nocig, RL, f"{q.qual}:refused with a reason", q.where(e.node), "a held query with signatures of either kind is refused for lack of the other")
    sub = q.calls("processQuery")
    ctx.need(bool(sub), RT, f"{q.qual}:resubmitted", q.where(), "held queries are never answered")
    for e in sub:
        ctx.need(whole(e.term, e), RT, f"{q.qual}:resubmitted whole", q.where(e.node), "a held query is resubmitted without its requester or signatures")
        ctx.need(fresh_enough(q, e, E, dig), RL, f"{q.qual}:time limit", q.where(e.node), "a held query is retried beyond its time limit")


PASSES = tuple(x[0] for x in EVENTS[:5]) + ("processEscrowUnverWitness", "processEscrowUnverNonTrans", "processEscrowUnverTrans", "processQueryNotFound")


def k10_pass(ctx, RT):
    q = Q(ctx, EV, "Kevery.processEscrows", OP | set(PASSES))
    for st, v, nd in q.exits():
        for p in PASSES:
            ctx.need(called_before(st, lambda t: fname(t) == p and recv(t) is P("self")) and not caught(st), RT, f"{q.qual}:{p}", q.where(nd),
                     "a pass over the escrows ends normally without going through one of them")


@prop("K10")
def k10(ctx):
    RT = "K10.retried"
    ctx.rule(RT, "each pass retries every held event, receipt and query with everything held with it", 20)
    RL = "K10.leaves"
    ctx.rule(RL, "an entry leaves its escrow exactly when its retry succeeds, is refused for good or has exceeded its time limit", 30)
    k10_events(ctx, RT, RL)
    k10_receipts(ctx, RT, RL)
    k10_queries(ctx, RT, RL)
    k10_pass(ctx, RT)
