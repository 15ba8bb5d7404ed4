"""Rules over src/keri/db/webdbing.py (browser-backed key/value store)."""
import ast

from . import prop
from ..engine import (A, C, FALSE, FactPat, G, NONE, P, Pat, State, T, TRUE, Walker, call_parts, children, entails,
                      fact_matches, iscon, lit, mk, mkeq, mkin, show, subterms, unlin)
from ..model import AnalysisBroken

MOD = "src/keri/db/webdbing.py"
CODEC = {"onKey", "splitOnKey", "splitKey", "suffix", "unsuffix", "isNonStringIterable"}
ITEMS_MUT = {"pop", "popitem", "clear", "update", "setdefault"}


def is_items(t):
    return t.k == "a" and t.a[1] == "items"


def items_owner(t):
    return t.a[0]


def mutation_of(ev):
    """owner term of the store whose records this event mutates, else None"""
    if ev.kind in ("setitem", "del") and ev.term.k == "sub" and is_items(ev.term.a[0]):
        return items_owner(ev.term.a[0])
    if ev.kind == "call" and ev.term.k == "call" and ev.term.a[0].k == "a" and ev.term.a[0].a[1] in ITEMS_MUT and \
            is_items(ev.term.a[0].a[0]):
        return items_owner(ev.term.a[0].a[0])
    if ev.kind == "store" and ev.term.k == "a" and ev.term.a[1] == "items":
        return ev.term.a[0]
    return None


def methods(ctx):
    k = ctx.model.cls(MOD, "WebDBer")
    return k, {n: f for n, f in k.methods.items()}


def walk(ctx, f, *, on_event=None, await_raises=False, opaque=CODEC, **kw):
    w = Walker(ctx.model, opaque=opaque, on_event=on_event, **kw)
    w.await_raises = await_raises
    return ctx.walk(w, f)


def public(ms):
    """entry points: everything a caller of the store can invoke"""
    return {n: f for n, f in ms.items() if not n.startswith("_") and not f.isprop}


def with_parent(node):
    for p in ast.walk(node):
        for c in ast.iter_child_nodes(p):
            yield c, p


def direct_mutation(x, up):
    """x is an `.items` attribute used as a mutated mapping (not the dict method `.items()`)"""
    if isinstance(up, ast.Subscript) and up.value is x and isinstance(up.ctx, (ast.Store, ast.Del)):
        return True
    return isinstance(up, ast.Attribute) and up.value is x and up.attr in ITEMS_MUT


def store_like(o):
    """terms denoting a sub-database object: drawn from a `_stores` table, or a parameter/attribute named as one"""
    return any(t.k == "a" and t.a[1] in ("_stores", "sdb", "db") for t in subterms(o)) or \
        (o.k == "p" and o.a[0] in ("db", "sdb", "subdb", "store"))


# ------------------------------------------------------------------ W01 durability marking
@prop("W01")
def w01(ctx):
    """every mutation of a store is marked for the next flush; flush writes and syncs everything marked"""
    R1 = "W01.dirty-after-mutation"
    ctx.rule(R1, "on every exit of every public operation, a store whose records were changed has been marked dirty after "
                 "the change", 25)
    k, ms = methods(ctx)
    entries = dict(public(ms))
    entries["version.setter"] = k.setters.get("version")
    for n, f in k.mod.classes.get("WebEnv").methods.items() if "WebEnv" in k.mod.classes else ():
        if not n.startswith("__"):
            entries["WebEnv." + n] = f
    for name, f in sorted(entries.items()):
        if f is None or name in ("flush", "open"):
            continue
        muts = []

        def on_event(w, st, ev):
            o = mutation_of(ev)
            if o is not None:
                muts.append(ev)
                st.ts = st.ts | {("pend", o, ev.line)}
            elif ev.kind == "store" and ev.term.k == "a" and ev.term.a[1] == "dirty":
                if ev.value is TRUE:
                    st.ts = frozenset(x for x in st.ts if not (x[0] == "pend" and x[1] is ev.term.a[0]))
                elif ev.value is not None:
                    st.ts = st.ts | {("cleared", ev.term.a[0], ev.line)}
        w = walk(ctx, f, on_event=on_event)
        bad = set()
        for kind, st, v, node in w.exits:
            for x in st.ts:
                if x[0] == "pend":
                    bad.add((x[1], x[2], kind))
                elif x[0] == "cleared":
                    ctx.bad(R1, f"{name}:clears-dirty", f"{MOD}:{x[2]} {f.qual}",
                            "an operation other than flush clears the dirty mark: its store's pending changes are never flushed")
        for ev in w.events:
            if ev.kind == "yield":
                for x in ev.ts:
                    if x[0] == "pend":
                        bad.add((x[1], x[2], "yield"))
        if bad:
            o, line, kind = sorted(bad, key=lambda z: (z[1], z[2]))[0]
            ctx.bad(R1, f"WebDBer.{name}", f"{MOD}:{line} {f.qual}",
                    f"records of {show(o)} are changed here but a path to its {kind} exit never sets {show(o)}.dirty: the "
                    f"change is lost at the next flush/reload")
        elif muts:
            ctx.ok(R1, f"{name}: {len(muts)} mutation events, {len(w.exits)} exits")
        else:
            ctx.ok(R1, f"{name}: read-only")
    # code elsewhere that changes a store's records directly carries the same obligation
    R2 = "W01.outside-writers-mark-dirty"
    ctx.rule(R2, "code outside the store module that changes a store's records directly also marks that store dirty", 1)
    n = 0
    for fn in ctx.model.all_funcs():
        rel = fn.mod.rel
        if rel == MOD or not any(isinstance(x, ast.Attribute) and x.attr == "items" and direct_mutation(x, up)
                                 for x, up in with_parent(fn.node)):
            continue
        n += 1

        def on_event(w, st, ev):
            o = mutation_of(ev)
            if o is not None and store_like(o):
                st.ts = st.ts | {("pend", o, ev.line)}
            elif ev.kind == "store" and ev.term.k == "a" and ev.term.a[1] == "dirty" and ev.value is TRUE:
                st.ts = frozenset(x for x in st.ts if x[1] is not ev.term.a[0])
        w = walk(ctx, fn, on_event=on_event)
        left = sorted({(show(x[1]), x[2]) for _, st, _, _ in w.exits for x in st.ts} |
                      {(show(x[1]), x[2]) for e in w.events if e.kind in ("await", "yield") for x in e.ts})
        ctx.need(not left, R2, f"{rel}:{fn.qual}", f"{rel}:{left[0][1] if left else 0} {fn.qual}",
                 f"records of {left[0][0] if left else ''} are changed without marking the store dirty")
    ctx.ok(R2, f"{n} functions outside the module change records directly")
    flush_rules(ctx, k, ms)


def flush_rules(ctx, k, ms):
    R = "W01.flush-writes-all-marked"
    ctx.rule(R, "flush visits every store; each one marked dirty has records and metadata serialised into its handle and the "
                "handle synced; only unmarked stores are skipped; clear on open likewise", 5)
    f = ms.get("flush")
    if f is None:
        raise AnalysisBroken("WebDBer.flush vanished")
    w = walk(ctx, f, opaque={"_serialize_records", "_serialize_meta"})
    where = f.where
    el = None
    iters = [e for e in w.events if e.kind == "iter"]
    ok_iter = [e for e in iters if show(e.term) in ("self._stores.values()", "self._stores.items()", "self._stores",
                                                    "list(self._stores.values())", "tuple(self._stores.values())",
                                                    "list(self._stores.items())")]
    elem = mk("sub", A(P("self"), "_stores"), mk("elem", A(P("self"), "_stores")))
    alt = {elem, mk("elem", mk("call", G("list"), (mk("call", A(A(P("self"), "_stores"), "values"), (), ()),), ()))}
    # comprehension-filtered iteration: [s for s in stores if s.dirty]
    ctx.need(bool(iters), R, "flush iterates the open stores", where, "flush no longer iterates the stores")
    sets = [e for e in w.events if e.kind == "setitem" and e.term.k == "sub" and e.term.a[0].k == "a" and
            e.term.a[0].a[1] == "handle"]
    rec = [e for e in sets if e.value is not None and e.value.k == "call" and e.value.a[0] is G("_serialize_records")]
    meta = [e for e in sets if e.value is not None and e.value.k == "call" and e.value.a[0] is G("_serialize_meta")]
    syncs = [e for e in w.events if e.kind == "await"]
    ctx.need(bool(rec), R, "records serialised", where, "flush never writes the serialised records into the storage handle")
    ctx.need(bool(meta), R, "metadata serialised", where, "flush never writes the store metadata into the storage handle")
    ctx.need(bool(syncs), R, "handle synced", where, "flush never awaits the handle's sync: nothing reaches durable storage")
    for e in rec:
        s = e.term.a[0].a[0]
        ctx.need(s in subterms(mk("tup", (elem,))) or s is elem or any(s is x for x in alt), R, "store iterated is over all stores",
                 e.where, f"flush iterates {show(s)} instead of every open store")
        args = call_parts(e.value)
        a0 = (list(args[1]) + list(args[2].values()))[0]
        ctx.need(a0 is A(s, "items"), R, "records of the same store", e.where,
                 f"flush serialises {show(a0)} into the handle of {show(s)}")
        ctx.need(e.term.a[1] in (C("__records__"), G("_RECORDS_KEY")), R, "records key", e.where,
                 "records written under a key that open does not read")
    for e in meta:
        s = e.term.a[0].a[0]
        ctx.need(e.term.a[1] in (C("__meta__"), G("_META_KEY")), R, "meta key", e.where,
                 "metadata written under a key that open does not read")
        args = call_parts(e.value)
        a0 = (list(args[1]) + list(args[2].values()))[0]
        good = a0.k == "new" and a0.a[0] == "dict" and any(kk is C("dupsort") and vv is A(s, "dupsort") for kk, vv in a0.a[2])
        ctx.need(good, R, "metadata content", e.where, f"metadata written for {show(s)} does not carry its dupsort flag")
    for e in syncs:
        p = call_parts(e.term)
        good = p is not None and p[0].k == "a" and p[0].a[1] == "sync" and p[0].a[0].k == "a" and p[0].a[0].a[1] == "handle"
        if not good:
            continue
        s = p[0].a[0].a[0]
        hw = {t for t in e.hist if t.k == "setitem" and t.a[0].k == "sub" and t.a[0].a[0] is A(s, "handle")}
        ctx.need(any(t.a[0].a[1] in (C("__records__"), G("_RECORDS_KEY")) for t in hw) and
                 any(t.a[0].a[1] in (C("__meta__"), G("_META_KEY")) for t in hw), R, "written before sync", e.where,
                 "sync is awaited on a path where records or metadata have not been written to the handle yet")
    # every iteration path either syncs the store or the store is known clean
    ends = [e for e in w.events if e.kind in ("bodyend", "break")]
    for e in ends:
        synced = any(t.k == "call" and t.a[0].k == "a" and t.a[0].a[1] == "sync" for t in e.hist)
        clean = any(t.k == "a" and t.a[1] == "dirty" and not p for t, p in e.facts)
        if e.kind == "break":
            ctx.bad(R, "flush:break", e.where, "flush stops before visiting the remaining stores")
        else:
            ctx.need(synced or clean, R, "iteration persists or is clean", e.where,
                     "an iteration of flush ends without syncing a store that may be dirty")
    for kind, st, v, node in w.exits:
        if kind == "return" and not any(e.kind == "iter" for e in iters):
            ctx.bad(R, "flush:return", where, "flush returns before visiting the stores")
    for e in w.events:
        if e.kind == "return" and e.stack == (f.qual,):
            # a return inside the loop would skip stores
            inloop = any(isinstance(x, (ast.For, ast.While, ast.AsyncFor)) and e.node in ast.walk(x) for x in ast.walk(f.node))
            ctx.need(not inloop, R, "no early return", e.where, "flush returns from inside its store loop")


# ------------------------------------------------------------------ W02 flush vs concurrent writes and failures
@prop("W02")
def w02(ctx):
    R = "W02.no-lost-update-across-await"
    ctx.rule(R, "the dirty mark is never cleared after the suspension point that follows the snapshot, so a write made while "
                "sync is pending stays marked; and when the sync fails or is cancelled the mark is restored", 2)
    k, ms = methods(ctx)
    n = 0
    for name, f in sorted(ms.items()):
        if not f.isasync:
            continue

        def on_event(w, st, ev):
            if ev.kind == "setitem" and ev.value is not None and ev.value.k == "call" and \
                    ev.value.a[0] is G("_serialize_records"):
                s = ev.term.a[0].a[0]
                st.ts = frozenset(x for x in st.ts if x[1] is not s) | {("snap", s)}
            elif ev.kind == "await":
                new = set()
                for x in st.ts:
                    if x[0] == "snap":
                        new.add(("awaited", x[1]))
                        new.add(x)
                    else:
                        new.add(x)
                st.ts = frozenset(new)
            elif ev.kind == "store" and ev.term.k == "a" and ev.term.a[1] == "dirty":
                s = ev.term.a[0]
                if ev.value is FALSE:
                    if ("awaited", s) in st.ts:
                        st.ts = st.ts | {("LOST", s, ev.line)}
                    st.ts = st.ts | {("clean", s)}
                elif ev.value is TRUE:
                    st.ts = frozenset(x for x in st.ts if not (x[0] == "clean" and x[1] is s))
                else:
                    st.ts = st.ts | {("LOST", s, ev.line)} if ("awaited", s) in st.ts else st.ts
        w = walk(ctx, f, on_event=on_event, await_raises=True, opaque={"_serialize_records", "_serialize_meta"})
        aw = [e for e in w.events if e.kind == "await"]
        if not any(e.kind == "setitem" and e.value is not None and e.value.k == "call" and
                   e.value.a[0] is G("_serialize_records") for e in w.events):
            continue
        n += 1
        lost = set()
        fail = set()
        for kind, st, v, node in w.exits:
            for x in st.ts:
                if x[0] == "LOST":
                    lost.add((x[2], show(x[1])))
                if x[0] == "clean" and kind == "raise" and ("awaited", x[1]) in st.ts and isinstance(node, ast.Await):
                    fail.add((getattr(node, "lineno", 0), show(x[1]), show(v)))
        if lost:
            ln, s = sorted(lost)[0]
            ctx.bad(R, f"{name}:clear-after-await", f"{MOD}:{ln} {f.qual}",
                    f"{s}.dirty is cleared after awaiting the sync that follows the snapshot: a write made during the await is "
                    f"unmarked without being persisted")
        else:
            ctx.ok(R, f"{name}: dirty never cleared after the await following the snapshot")
        if fail:
            ln, s, v = sorted(fail)[0]
            ctx.bad(R, f"{name}:failure-leaves-clean", f"{MOD}:{ln} {f.qual}",
                    f"when the awaited sync ends with {v}, {s} stays unmarked although nothing was persisted")
        else:
            ctx.ok(R, f"{name}: failed or cancelled sync leaves the store marked")
    if not n:
        ctx.bad(R, "flush:no-snapshot", f"{MOD}", "no asynchronous method snapshots the records any more")


# ------------------------------------------------------------------ shared: branch decode
def elems_in(t):
    return {x for x in subterms(t) if x.k == "elem"}


def scan_src(it):
    """iterable term -> ('irange', kwargs) | ('all',) | None"""
    while it.k == "call" and it.a[0].k == "g" and it.a[0].a[0] in ("list", "tuple", "iter") and len(it.a[1]) == 1:
        it = it.a[1][0]
    if it.k == "call" and it.a[0].k == "a" and it.a[0].a[1] == "irange" and is_items(it.a[0].a[0]):
        kw = dict(it.a[2])
        for i, v in enumerate(it.a[1]):
            kw[("minimum", "maximum", "inclusive", "reverse")[i]] = v
        return ("irange", kw)
    if is_items(it):
        return ("irange", {})
    if it.k == "call" and it.a[0].k == "a" and it.a[0].a[1] in ("items", "keys", "values") and is_items(it.a[0].a[0]):
        return ("irange", {})
    if it.k == "call" and it.a[0] is G("reversed") and len(it.a[1]) == 1:
        r = scan_src(it.a[1][0])
        if r:
            kw = dict(r[1])
            kw["reverse"] = TRUE
            return ("irange", kw)
    return None


def decode_terms(e, sep):
    """terms for the parts of stored key e at the three key layouts"""
    def cl(fn, pname, x):
        return mk("call", G(fn), (), tuple(sorted([(pname, x)] + ([("sep", sep)] if sep is not None else []))))
    un = cl("unsuffix", "iokey", e)
    sp = cl("splitOnKey", "key", e)
    ub = mk("sub", un, C(0))
    su = cl("splitOnKey", "key", ub)
    return {"io.key": ub, "io.ion": mk("sub", un, C(1)), "on.key": mk("sub", sp, C(0)), "on.on": mk("sub", sp, C(1)),
            "onio.key": mk("sub", su, C(0)), "onio.on": mk("sub", su, C(1))}


def kcall(fn, **kw):
    return mk("call", G(fn), (), tuple(sorted(kw.items())))


SEP = P("sep")
KEY, ON, ION, TOP, VAL = P("key"), P("on"), P("ion"), P("top"), P("val")


def ONKEY(k, on):
    return kcall("onKey", top=k, on=on, sep=SEP)


def SUF(k, ion):
    return kcall("suffix", key=k, ion=ion, sep=SEP)


MAXON = G("MaxON")

# name -> (layout, branch key, allowed scan bounds (forward: minimum / back: maximum), effect, reverse)
SCANS = {
    "remOnAll": ("on", KEY, [ONKEY(KEY, ON)], "del"),
    "cntOnAll": ("on", KEY, [ONKEY(KEY, ON)], "count"),
    "getOnAllItemIter": ("on", KEY, [ONKEY(KEY, ON)], "yield3"),
    "putIoSetVals": ("io", KEY, [SUF(KEY, C(0))], "collect"),
    "addIoSetVal": ("io", KEY, [SUF(KEY, C(0))], "collect"),
    "pinIoSetVals": ("io", KEY, [SUF(KEY, C(0))], "del"),
    "getIoSetItemIter": ("io", KEY, [SUF(KEY, ION)], "yield2"),
    "getIoSetLastItem": ("io", KEY, [SUF(KEY, C(0))], "last2"),
    "remIoSet": ("io", KEY, [SUF(KEY, C(0))], "del"),
    "remIoSetVal": ("io", KEY, [SUF(KEY, C(0))], "delval"),
    "cntIoSet": ("io", KEY, [SUF(KEY, ION)], "count"),
    "putOnIoSetVals": ("io", ONKEY(KEY, ON), [SUF(ONKEY(KEY, ON), C(0))], "collect"),
    "addOnIoSetVal": ("io", ONKEY(KEY, ON), [SUF(ONKEY(KEY, ON), C(0))], "collect"),
    "pinOnIoSetVals": ("io", ONKEY(KEY, ON), [SUF(ONKEY(KEY, ON), C(0))], "del"),
    "getOnIoSetItemIter": ("io", ONKEY(KEY, ON), [SUF(ONKEY(KEY, ON), ION)], "yield3io"),
    "getOnIoSetLastItem": ("io", ONKEY(KEY, ON), [SUF(ONKEY(KEY, ON), C(0))], "last3io"),
    "remOnIoSetVal": ("io", ONKEY(KEY, ON), [SUF(ONKEY(KEY, ON), C(0))], "delval"),
    "cntOnIoSet": ("io", ONKEY(KEY, ON), [SUF(ONKEY(KEY, ON), ION)], "count"),
    "remOnAllIoSet": ("onio", KEY, [ONKEY(KEY, ON), SUF(ONKEY(KEY, ON), C(0))], "del"),
    "cntOnAllIoSet": ("onio", KEY, [ONKEY(KEY, ON), SUF(ONKEY(KEY, ON), C(0))], "count"),
    "getOnAllIoSetItemIter": ("onio", KEY, [ONKEY(KEY, ON), SUF(ONKEY(KEY, ON), C(0))], "yield3"),
    "getOnAllIoSetLastItemIter": ("onio", KEY, [ONKEY(KEY, ON), SUF(ONKEY(KEY, ON), C(0))], "last3g"),
    "getOnAllIoSetItemBackIter": ("onio", KEY, [SUF(ONKEY(KEY, ON), MAXON), SUF(ONKEY(KEY, MAXON), MAXON)], "yield3"),
    "getOnAllIoSetLastItemBackIter": ("onio", KEY, [SUF(ONKEY(KEY, ON), MAXON), SUF(ONKEY(KEY, MAXON), MAXON)], "last3g"),
}
# methods where an empty key (or top) means the whole store
WHOLE = {"remOnAll": "del", "cntOnAll": "count", "getOnAllItemIter": "yield3on", "remOnAllIoSet": "del",
         "cntOnAllIoSet": "count", "getOnAllIoSetItemIter": "yield3onio", "getOnAllIoSetItemBackIter": "yield3onio",
         "getOnAllIoSetLastItemIter": "last", "getOnAllIoSetLastItemBackIter": "last", "getIoSetLastItemIterAll": "last"}
TOPS = {"getTopItemIter": ("raw", "yield"), "remTop": ("raw", "del"), "cntTop": ("raw", "count"),
        "getOnTopItemIter": ("on", "yield"), "getTopIoSetItemIter": ("io", "yield"), "getOnTopIoSetItemIter": ("onio", "yield")}
BACK = {"getOnAllIoSetItemBackIter", "getOnAllIoSetLastItemBackIter"}


def consumed(ev, e, pre_hist):
    """did this loop iteration act on element e?  (append/add/delete/yield/count/last assignment)"""
    for t in ev.hist:
        if t.k == "call" and t.a[0].k == "a" and t.a[0].a[1] in ("append", "add") and any(e in subterms(a) for a in t.a[1]):
            return True
        if t.k == "del" and e in subterms(t):
            return True
        if t.k == "yielded" and e in subterms(t):
            return True
    return False


def env_consumes(ev, e, walker):
    out = []
    for n, v in ev.st.env.items():
        if v.k == "lin" and v.a[1] == 1 and v.a[0].k == "phi":
            out.append((n, "count"))
        elif v is not e and any(x.k == "sub" and is_items(x.a[0]) and x.a[1] is e for x in subterms(v)):
            out.append((n, "last"))
    for fr in ev.st.stack:
        for n, v in fr.items():
            if v.k == "lin" and v.a[1] == 1 and v.a[0].k == "phi":
                out.append((n, "count"))
    return out


def branch_fact(ev, layout, bk, e, seps=(SEP,)):
    """+1 the facts say element e belongs to branch bk, -1 they say it does not, 0 unknown"""
    for s in seps:
        d = decode_terms(e, s)
        t, p = mkeq(bk, d[layout + ".key"])
        r = entails(ev.facts, t, p)
        if r is not None:
            return 1 if r else -1
    return 0


@prop("W04")
def w04(ctx):
    """range operations touch exactly the entries of the requested branch"""
    R1 = "W04.scan-bound"
    R2 = "W04.branch-guard"
    R3 = "W04.no-skip"
    R4 = "W04.item-shape"
    ctx.rule(R1, "each range scan starts (or ends, when reversed) at the encoded bound of the requested branch and ordinal", 24)
    ctx.rule(R2, "every yield / deletion / count / collection inside a scan is dominated by equality of the entry's decoded "
                 "branch with the requested one (or by the prefix test)", 24)
    ctx.rule(R3, "an entry is passed over or ends the scan only when it is outside the requested branch", 24)
    ctx.rule(R4, "what is yielded/returned is the decoded branch, ordinal and the value stored at the scanned key", 10)
    k, ms = methods(ctx)
    for name, (layout, bk, bounds, effect) in sorted(SCANS.items()):
        f = ms.get(name)
        if f is None:
            raise AnalysisBroken(f"WebDBer.{name} vanished")
        w = walk_y(ctx, f)
        check_scan(ctx, w, f, name, layout, bk, bounds, effect, name in BACK, (R1, R2, R3, R4))
    for name, (layout, effect) in sorted(TOPS.items()):
        f = ms.get(name)
        if f is None:
            raise AnalysisBroken(f"WebDBer.{name} vanished")
        w = walk_y(ctx, f)
        check_top(ctx, w, f, name, layout, effect, (R1, R2, R3, R4))
    for name, effect in sorted(WHOLE.items()):
        f = ms.get(name)
        w = walk_y(ctx, f, facts=[(KEY, False)])
        check_whole(ctx, w, f, name, effect, (R1, R2, R3, R4))


def walk_y(ctx, f, facts=()):
    def on_event(w, st, ev):
        if ev.kind == "yield":
            st.hist = st.hist | {mk("yielded", ev.term)}
    w = Walker(ctx.model, opaque=CODEC, on_event=on_event)
    w.run(f, facts=facts)
    ctx.saw(*w.analysed)
    return w


def src_events(w):
    return [e for e in w.events if e.kind == "iter" and scan_src(e.term) is not None]


def check_scan(ctx, w, f, name, layout, bk, bounds, effect, back, rules):
    R1, R2, R3, R4 = rules
    q = f"WebDBer.{name}"
    seen = False
    elem_bounds = {}
    for e in src_events(w):
        kw = scan_src(e.term)[1]
        wholescan = entails(e.facts, KEY, True) is False
        if wholescan:
            continue
        seen = True
        mn, mx = kw.get("minimum", NONE), kw.get("maximum", NONE)
        rev = kw.get("reverse", FALSE)
        inc = kw.get("inclusive")
        good = True
        if back:
            good = rev is TRUE and mn in (NONE,) + tuple(bounds) and any(mx is b for b in bounds)
            if good and mx is SUF(ONKEY(KEY, MAXON), MAXON):
                good = entails(e.facts, mk("is", ON, NONE), True) is True
            if good and mx is SUF(ONKEY(KEY, ON), MAXON):
                good = True
        else:
            good = rev is not TRUE and any(mn is b for b in bounds) and mx is NONE
            if not good and rev is not TRUE and any(mn is b for b in bounds):
                # an upper bound is fine when it is the end of the branch
                good = mx in (SUF(bk, MAXON), ONKEY(bk, MAXON), SUF(ONKEY(KEY, MAXON), MAXON))
        if inc is not None and show(inc) != "(True, True)":
            good = False
        ctx.need(good, R1, f"{q}: {show(e.term)[:110]}", e.where,
                 f"scan range {show(e.term)} is not the encoded range of the requested branch "
                 f"(expected {'maximum' if back else 'minimum'} {' or '.join(show(b) for b in bounds)})", construct=q)
    if not seen:
        ctx.bad(R1, q, f.where, "no scan over the store's records for the requested branch remains")
        return
    its = {e.term for e in src_events(w) if entails(e.facts, KEY, True) is not False}
    els = {w.elem_of(t) for t in its}
    els = {x.a[0][0] if x.k == "tup" else x for x in els}
    acted = 0
    for ev in w.events:
        if ev.kind in ("bodyend", "break", "return", "yield", "del", "call", "setitem"):
            for e in els:
                if ev.kind in ("bodyend", "break") and scan_elem(w, ev.term) is not e:
                    continue
                if ev.kind == "yield" and e not in subterms(ev.term):
                    continue
                if ev.kind == "del" and not (ev.term.k == "sub" and ev.term.a[1] is e):
                    continue
                if ev.kind == "setitem":
                    continue
                if ev.kind == "call":
                    if not (ev.term.k == "call" and ev.term.a[0].k == "a" and ev.term.a[0].a[1] in ("append", "add") and
                            any(e in subterms(a) for a in ev.term.a[1])):
                        continue
                if ev.kind == "return":
                    continue
                bf = branch_fact(ev, layout, bk, e)
                if ev.kind in ("yield", "del", "call"):
                    acted += 1
                    ok = bf == 1
                    extra = True
                    if effect == "delval" and ev.kind == "del":
                        t, p = mkeq(mk("sub", A(P("db"), "items"), e), VAL)
                        extra = entails(ev.facts, t, p) is True or entails(ev.facts, mk("is", VAL, NONE), True) is True
                    ctx.need(ok and extra, R2, f"{q}: {ev.kind}@{show(ev.term)[:60]}", ev.where,
                             f"acts on an entry without establishing that its branch equals {show(bk)}"
                             + ("" if extra else " and its value equals val"), construct=q)
                elif ev.kind == "bodyend":
                    cons = consumed(ev, e, None)
                    ec = env_consumes(ev, e, w)
                    did = cons or bool(ec)
                    if did:
                        acted += 1
                        if ec:
                            ctx.need(bf == 1, R2, f"{q}: per-entry update", ev.where,
                                     f"counts/keeps an entry without establishing that its branch equals {show(bk)}", construct=q)
                        if effect.startswith("last") and not ec and not cons:
                            pass
                    else:
                        okskip = bf == -1
                        if back and not okskip:
                            d = decode_terms(e, SEP)
                            lim = [ON, MAXON]
                            okskip = any(entails(ev.facts, *mklt_(x, d["onio.on"])) is True for x in lim)
                        if effect == "delval" and not okskip:
                            t, p = mkeq(mk("sub", A(P("db"), "items"), e), VAL)
                            okskip = entails(ev.facts, t, p) is False
                        if effect in ("last3g",) and not okskip:
                            # keep-first grouping (descending scan): entry of the group already held
                            okskip = same_group(ev, e, w)
                        ctx.need(okskip, R3, f"{q}: skip", ev.where,
                                 "an entry that may belong to the requested branch is passed over", construct=q)
                elif ev.kind == "break":
                    if "#exc" in ev.st.env:
                        bf = -1      # the entry's key has no ordinal part, so it is in no branch
                    ctx.need(bf == -1, R3, f"{q}: stop", ev.where,
                             "the scan stops at an entry that may belong to the requested branch", construct=q)
    # comprehension based collection
    for t, (val, gens) in w.comp_elems.items():
        for it, cl in gens:
            if it in its:
                e = scan_elem(w, it)
                fs = frozenset(cl)
                bf = 0
                d = decode_terms(e, SEP)
                tt, p = mkeq(bk, d[layout + ".key"])
                r = entails(fs, tt, p)
                acted += 1
                ctx.need(r is True, R2, f"{q}: comprehension", f.where, "collects entries of other branches", construct=q)
                ctx.need(len([l for l in cl if e in subterms(l[0])]) <= 1 or effect == "delval", R3, f"{q}: comprehension filter",
                         f.where, "the collection drops entries of the requested branch", construct=q)
    ctx.need(acted > 0, R2, f"{q}: acts", f.where, "scan no longer acts on the entries it visits", construct=q)
    shapes(ctx, w, f, name, layout, bk, effect, els, R4)


def mklt_(a, b):
    from ..engine import mklt
    return mklt(a, b)


def same_group(ev, e, w):
    """facts equate the entry's group (ordinal) with the one currently held (a loop-carried variable)"""
    d = decode_terms(e, SEP)
    for t, p in ev.facts:
        if t.k == "eq" and p:
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if x.k == "phi" and y in (d["onio.on"], d["onio.key"], d["io.key"]):
                    return True
    return False


def scan_elem(w, it):
    if it is None or not isinstance(it, T):
        return None
    x = w.elem_of(it)
    return x.a[0][0] if x.k == "tup" else x


def phi_values(w, t, depth=0):
    """non-phi values a loop-carried term can hold"""
    if t.k != "phi" or depth > 4:
        return {t}
    out = set()
    d = w.phis.get(t)
    if d is None:
        return {t}
    for v in set(d["init"]) | {v for v, _ in d["steps"]}:
        if v is t:
            continue
        out |= phi_values(w, v, depth + 1)
    return out


def shapes(ctx, w, f, name, layout, bk, effect, els, R):
    q = f"WebDBer.{name}"
    ys = [ev for ev in w.events if ev.kind == "yield" and entails(ev.facts, KEY, True) is not False]
    db = P("db")

    def val(e):
        return {mk("sub", A(db, "items"), e), mk("call", A(A(db, "items"), "get"), (e,), ())}

    def good3(t, e, lay):
        d = decode_terms(e, SEP)
        keys = {d[lay + ".key"]} | ({bk} if bk is KEY else set())
        return t.k == "tup" and len(t.a[0]) == 3 and t.a[0][0] in keys and t.a[0][1] is d[lay + ".on"] and t.a[0][2] in val(e)

    def good2(t, e):
        d = decode_terms(e, SEP)
        return t.k == "tup" and len(t.a[0]) == 2 and t.a[0][0] in (d["io.key"], bk) and t.a[0][1] in val(e)

    def split_io(t, e):
        """(key, on, val) where key/on are split from the io key"""
        d = decode_terms(e, SEP)
        okk = {d["onio.key"], KEY}
        oko = {d["onio.on"], ON}
        # splitting the requested onkey gives the same parts
        so = mk("call", G("splitOnKey"), (), tuple(sorted([("key", bk), ("sep", SEP)])))
        okk.add(mk("sub", so, C(0)))
        oko.add(mk("sub", so, C(1)))
        return t.k == "tup" and len(t.a[0]) == 3 and t.a[0][0] in okk and t.a[0][1] in oko and t.a[0][2] in val(e)
    if effect in ("yield3", "yield2", "yield3io"):
        if not ys:
            ctx.bad(R, q, f.where, "nothing is yielded any more")
        for ev in ys:
            ok = False
            for e in els:
                if effect == "yield3" and good3(ev.term, e, layout) or effect == "yield2" and good2(ev.term, e) or \
                        effect == "yield3io" and split_io(ev.term, e):
                    ok = True
            ctx.need(ok, R, f"{q}: yield", ev.where, f"yields {show(ev.term)[:200]} instead of the decoded entry", construct=q)
    elif effect in ("last2", "last3io"):
        rets = [ev for ev in w.events if ev.kind == "return" and ev.stack == (f.qual,)]
        falls = [x for x in w.exits if x[0] == "fall"]
        n = 0
        for ev in rets:
            vals = phi_values(w, ev.term) if ev.term.k == "phi" else {ev.term}
            for t in vals:
                if t in (C(()), mk("tup", ())) or t is NONE:
                    continue
                # terms built from a phi: substitute
                opts = expand(w, t, ev)
                for o in opts:
                    if o.k == "tup" and not o.a[0]:
                        continue
                    n += 1
                    ok = any(good2(o, e) if effect == "last2" else split_io(o, e) for e in els)
                    ctx.need(ok, R, f"{q}: return", ev.where, f"returns {show(o)[:200]} instead of the last entry", construct=q)
        ctx.need(n > 0, R, f"{q}: returns last", f.where, "never returns an entry", construct=q)
    elif effect == "last3g":
        n = 0
        for ev in ys:
            for o in expand(w, ev.term, ev):
                if o is NONE or (o.k == "tup" and any(x is NONE for x in o.a[0])):
                    continue
                n += 1
                ok = any(good3(o, e, layout) for e in els)
                ctx.need(ok, R, f"{q}: yield", ev.where, f"yields {show(o)[:200]} instead of a decoded entry", construct=q)
        ctx.need(n > 0, R, f"{q}: yields", f.where, "never yields an entry", construct=q)
        grouping(ctx, w, f, q, els, ys, R)


def expand(w, t, ev=None):
    """expand loop-carried variables (consistently by loop step) inside t"""
    out = expand_(w, t)
    if ev is not None:
        held = {x for x in subterms(t) if x.k == "phi" and (entails(ev.facts, x, True) is True or
                                                            entails(ev.facts, mk("is", x, NONE), True) is False)}
        if held:
            out = {o for o in out if not any(x.k == "sub" and (x.a[0] is NONE or x.a[0] is mk("tup", ()))
                                             for x in subterms(o))}
    return out


def expand_(w, t):
    phis = sorted({x for x in subterms(t) if x.k == "phi" and x in w.phis}, key=lambda x: x.sid)
    if not phis:
        return {t}
    out = set()
    from ..engine import subst
    if len(phis) == 1:
        for v in phi_values(w, phis[0]):
            if v.k == "phi" and v is phis[0]:
                continue
            r = subst(t, {phis[0]: v})
            out.add(resub(r))
        return out
    # several phis of one loop: pair the steps by identical facts
    steps = {}
    for p in phis:
        for v, fs in w.phis[p]["steps"]:
            steps.setdefault(fs, {})[p] = v
    for fs, m in steps.items():
        if all(p in m for p in phis) and not all(m[p] is p for p in phis):
            if any(m[p] is p for p in phis):
                out.add(mk("tup", (C("mixed"), t)))
                continue
            out.add(resub(subst(t, m)))
    return out


def resub(t):
    """re-normalise subscripts of tuples after substitution"""
    if t.k == "sub" and t.a[0].k == "tup" and iscon(t.a[1]) and isinstance(t.a[1].a[0], int):
        i = t.a[1].a[0]
        if -len(t.a[0].a[0]) <= i < len(t.a[0].a[0]):
            return resub(t.a[0].a[0][i])
    if t.k == "tup":
        return mk("tup", tuple(resub(x) for x in t.a[0]))
    if t.k == "sub":
        return mk("sub", resub(t.a[0]), t.a[1]) if resub(t.a[0]) is not t.a[0] else t
    if t.k == "call":
        a = tuple(resub(x) for x in t.a[1])
        kw = tuple((n, resub(v)) for n, v in t.a[2])
        return mk("call", t.a[0], a, kw)
    return t


def grouping(ctx, w, f, q, els, ys, R):
    """each change of group emits the entry held; the last group is emitted after the scan"""
    inloop = [ev for ev in ys if any(same_or_diff(ev, e) == -1 for e in els)]
    ctx.need(bool(inloop), R, f"{q}: emit on group change", f.where,
             "no entry is emitted when the scan moves on to the next ordinal/branch", construct=q)
    after = [ev for ev in ys if not any(any(e in subterms(t) for t, p in ev.facts) for e in els)]
    ctx.need(bool(after), R, f"{q}: emit final group", f.where, "the last group's entry is never emitted", construct=q)
    for ev in w.events:
        if ev.kind == "bodyend" and entails(ev.facts, KEY, True) is not False:
            e = scan_elem(w, ev.term)
            if e not in els:
                continue
            sd = same_or_diff(ev, e)
            if sd == -1:
                held_none = any(t.k == "is" and t.a[0].k == "phi" and p for t, p in ev.facts) or \
                    any(t.k == "phi" and not p for t, p in ev.facts)
                emitted = any(t.k == "yielded" for t in ev.hist)
                ctx.need(emitted or held_none, R, f"{q}: group change emits", ev.where,
                         "the scan moves to another group without emitting the entry held for the previous one", construct=q)
                held = any(v is not e and any(x.k == "sub" and x.a[1] is e for x in subterms(v)) for v in ev.st.env.values())
                ctx.need(held, R, f"{q}: group change re-arms", ev.where,
                         "the scan moves to another group without taking its entry as the one held", construct=q)


def same_or_diff(ev, e):
    d = decode_terms(e, SEP)
    for t, p in ev.facts:
        if t.k == "eq":
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if x.k == "phi" and y in (d["onio.on"], d["onio.key"], d["io.key"]):
                    return 1 if p else -1
    return 0


def check_top(ctx, w, f, name, layout, effect, rules):
    R1, R2, R3, R4 = rules
    q = f"WebDBer.{name}"
    its = {}
    for e in src_events(w):
        its.setdefault(e.term, []).append(e)
    if not its:
        ctx.bad(R1, q, f.where, "no scan over the store's records remains")
    acted = 0
    for it, evs in its.items():
        kw = scan_src(it)[1]
        e = scan_elem(w, it)
        e0 = e
        if e.k == "sub":
            e0 = e.a[1]
        empty = all(entails(x.facts, TOP, True) is False for x in evs)
        mn, mx = kw.get("minimum", NONE), kw.get("maximum", NONE)
        good = mx is NONE and kw.get("reverse", FALSE) is not TRUE and kw.get("inclusive") is None and \
            (mn is TOP or mn in (NONE, C(b"")))
        ctx.need(good, R1, f"{q}: {show(it)[:80]}", evs[0].where, f"prefix scan range {show(it)} is not from the prefix up", construct=q)
        pref = mk("call", A(e0, "startswith"), (TOP,), ())
        prefk = [t for ev in w.events for t, p in ev.facts if t.k == "call" and t.a[0] is A(e0, "startswith")]
        prefs = {pref} | {t for t in prefk if TOP in (list(t.a[1]) + [v for _, v in t.a[2]])}

        def st_(ev):
            if empty or entails(ev.facts, TOP, True) is False:
                return 1
            for p in prefs:
                r = entails(ev.facts, p, True)
                if r is not None:
                    return 1 if r else -1
            return 0
        for ev in w.events:
            if ev.kind in ("bodyend", "break"):
                if scan_elem(w, ev.term) is not e:
                    continue
                did = consumed(ev, e0, None) or env_consumes(ev, e0, w)
                s = st_(ev)
                if ev.kind == "break":
                    ctx.need(s == -1, R3, f"{q}: stop", ev.where, "the prefix scan stops at an entry that may match", construct=q)
                elif did:
                    acted += 1
                    if s != 1:
                        ctx.bad(R2, q, ev.where, "counts or keeps an entry without the prefix test")
                    else:
                        ctx.ok(R2, f"{q}: per-entry")
                else:
                    ctx.need(s == -1, R3, f"{q}: skip", ev.where, "an entry that may match the prefix is passed over", construct=q)
            elif ev.kind == "yield" and e0 in subterms(ev.term) or ev.kind == "del" and ev.term.a[1] is e0 or \
                    (ev.kind == "call" and ev.term.a[0].k == "a" and ev.term.a[0].a[1] in ("append", "add") and
                     any(e0 in subterms(a) for a in ev.term.a[1])):
                acted += 1
                ctx.need(st_(ev) == 1, R2, f"{q}: {ev.kind}", ev.where, "acts on an entry without the prefix test", construct=q)
                if ev.kind == "yield":
                    d = decode_terms(e0, SEP)
                    v = {mk("sub", A(P("db"), "items"), e0)}
                    t = ev.term
                    if layout == "raw":
                        ok = t.k == "tup" and len(t.a[0]) == 2 and t.a[0][0] is e0 and t.a[0][1] in v
                    elif layout == "io":
                        ok = t.k == "tup" and len(t.a[0]) == 2 and t.a[0][0] is d["io.key"] and t.a[0][1] in v
                    else:
                        ok = t.k == "tup" and len(t.a[0]) == 3 and t.a[0][0] is d[layout + ".key"] and \
                            t.a[0][1] is d[layout + ".on"] and t.a[0][2] in v
                    ctx.need(ok, R4, f"{q}: yield", ev.where, f"yields {show(t)[:160]} instead of the decoded entry", construct=q)
    for t, (val, gens) in w.comp_elems.items():
        for it, cl in gens:
            if it in its:
                acted += 1
                e = scan_elem(w, it)
                prefs2 = [l for l in cl if l[0].k == "call" and l[0].a[0].k == "a" and l[0].a[0].a[1] == "startswith"]
                ctx.need(bool(prefs2) and all(l[1] for l in prefs2) and len(cl) == 1, R2, f"{q}: comprehension", f.where,
                         "prefix collection filter is not exactly the prefix test", construct=q)
    # whole-store shortcuts
    for ev in w.events:
        if ev.kind == "call" and ev.term.a[0].k == "a" and ev.term.a[0].a[1] == "clear" and is_items(ev.term.a[0].a[0]):
            acted += 1
            ctx.need(entails(ev.facts, TOP, True) is False, R2, f"{q}: clear", ev.where,
                     "clears the whole store for a non-empty prefix", construct=q)
        if effect == "count" and ev.kind == "return" and ev.stack == (f.qual,):
            if ev.term.k == "call" and ev.term.a[0] is G("len"):
                ctx.need(entails(ev.facts, TOP, True) is False, R2, f"{q}: len", ev.where,
                         "returns the whole-store size for a non-empty prefix", construct=q)
            elif iscon(ev.term) and ev.term.a[0] != 0:
                ctx.bad(R2, q, ev.where, "returns a constant count")
    ctx.need(acted > 0, R2, f"{q}: acts", f.where, "scan no longer acts on the entries it visits", construct=q)
    if effect == "count":
        count_shape(ctx, w, f, q, R4)


def count_shape(ctx, w, f, q, R):
    for ev in w.events:
        if ev.kind == "return" and ev.stack == (f.qual,) and ev.term.k == "phi":
            d = w.phis.get(ev.term)
            if d is None:
                continue
            ok = d["init"] == {C(0)} and all(v is ev.term or (v.k == "lin" and v.a[0] is ev.term and v.a[1] == 1)
                                             for v, _ in d["steps"])
            ctx.need(ok, R, f"{q}: counts by one from zero", ev.where, "count does not start at 0 or does not advance by 1", construct=q)
        elif ev.kind == "return" and ev.stack == (f.qual,) and ev.term.k == "lin" and ev.term.a[0].k == "phi":
            ctx.bad(R, q, ev.where, "returns a count that is off by a constant")


def check_whole(ctx, w, f, name, effect, rules):
    """empty key: the whole store, nothing passed over"""
    R1, R2, R3, R4 = rules
    q = f"WebDBer.{name}"
    inst = f"{q}(key empty)"
    its = {}
    for e in src_events(w):
        its.setdefault(e.term, []).append(e)
    whole_ops = [ev for ev in w.events if ev.kind == "call" and ev.term.a[0].k == "a" and ev.term.a[0].a[1] == "clear" and
                 is_items(ev.term.a[0].a[0])]
    lens = [ev for ev in w.events if ev.kind == "return" and ev.term.k == "call" and ev.term.a[0] is G("len") and
            ev.term.a[1] and is_items(ev.term.a[1][0])]
    if effect == "del" and whole_ops or effect == "count" and lens:
        ctx.ok(R2, f"{inst}: whole store")
        return
    if not its:
        ctx.bad(R1, inst, f.where, "an empty key no longer covers the whole store")
        return
    for it, evs in its.items():
        kw = scan_src(it)[1]
        mn, mx = kw.get("minimum", NONE), kw.get("maximum", NONE)
        first = mn.k == "fresh" or (mn.k == "call" and mn.a[0] is G("next"))
        ctx.need(mx is NONE and (mn in (NONE, C(b"")) or first or (iscon(mn) and not mn.a[0]) or mn is KEY or mn is TOP), R1,
                 f"{inst}: {show(it)[:80]}", evs[0].where, f"an empty key scans only {show(it)}", construct=inst)
        ctx.need((kw.get("reverse", FALSE) is TRUE) == (name in BACK), R1, f"{inst}: direction", evs[0].where,
                 "scan direction is wrong", construct=inst)
        e = scan_elem(w, it)
        e0 = e.a[1] if e.k == "sub" else e
        for ev in w.events:
            if ev.kind == "bodyend" and scan_elem(w, ev.term) is e:
                did = consumed(ev, e0, None) or env_consumes(ev, e0, w)
                if effect == "last" and not did:
                    did = any(same_or_diff(ev, x) == 1 for x in (e0,))
                ctx.need(bool(did), R3, f"{inst}: skip", ev.where, "an entry of the store is passed over", construct=inst)
            elif ev.kind == "break" and scan_elem(w, ev.term) is e:
                handler = "#exc" in ev.st.env
                ctx.need(handler, R3, f"{inst}: stop", ev.where, "a whole-store scan stops early", construct=inst)
    els = {(x.a[1] if x.k == "sub" else x) for x in (scan_elem(w, it) for it in its)}
    ys = [ev for ev in w.events if ev.kind == "yield"]
    if effect.startswith("yield3") or effect == "last":
        lay = {"yield3on": "on"}.get(effect, "onio")
        if name == "getIoSetLastItemIterAll":
            lay = "io"
        n = 0
        for ev in ys:
            for o in expand(w, ev.term, ev):
                o = resub(o)
                if o is NONE or (o.k == "c" and o is NONE) or o.k == "phi":
                    continue
                if o.k == "tup" and any(x is NONE for x in o.a[0]):
                    continue
                n += 1
                ok = False
                for e in els:
                    d = decode_terms(e, SEP)
                    v = mk("sub", A(P("db"), "items"), e)
                    if lay == "io":
                        exp = (d["io.key"], v)
                    else:
                        exp = (d[lay + ".key"], d[lay + ".on"], v)
                    if o is mk("tup", exp):
                        ok = True
                ctx.need(ok, R4, f"{inst}: yield", ev.where, f"yields {show(o)[:160]} instead of the decoded entry", construct=inst)
        ctx.need(n > 0, R4, f"{inst}: yields", f.where, "nothing is yielded for an empty key", construct=inst)
    if effect == "last":
        emit = [ev for ev in ys if any(same_or_diff(ev, e) == -1 for e in els)]
        after = [ev for ev in ys if not any(any(e in subterms(t) for t, p in ev.facts) for e in els)]
        ctx.need(bool(emit) and bool(after), R4, f"{inst}: groups", f.where,
                 "not every group of a whole-store scan emits its last entry", construct=inst)
        for ev in w.events:
            if ev.kind == "bodyend":
                e = scan_elem(w, ev.term)
                e = e.a[1] if e.k == "sub" else e
                if e in els and same_or_diff(ev, e) == -1:
                    held_none = any(t.k == "is" and t.a[0].k == "phi" and p for t, p in ev.facts) or \
                        any(t.k == "phi" and not p for t, p in ev.facts)
                    ctx.need(any(t.k == "yielded" for t in ev.hist) or held_none, R4, f"{inst}: group change emits", ev.where,
                             "a group change does not emit the entry held", construct=inst)
