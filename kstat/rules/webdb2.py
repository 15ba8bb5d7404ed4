"""More rules over src/keri/db/webdbing.py: single-entry and set contracts, ordinal allocation, key codec, persistence."""
import ast

from . import prop
from .webdb import (CODEC, KEY, MOD, ON, ONKEY, SEP, SUF, VAL, decode_terms, is_items, kcall, methods, mutation_of, scan_elem,
                    scan_src, src_events, walk, MAXON)
from ..engine import (A, C, FALSE, G, NONE, P, T, TRUE, Walker, call_parts, closure, entails, iscon, lit, mk, mkeq, mkin, mkis,
                      mklt, show, subterms, unlin)
from ..model import AnalysisBroken

ITEMS = A(P("db"), "items")
VALS = P("vals")


def strip_list(t):
    while t.k == "call" and t.a[0].k == "g" and t.a[0].a[0] in ("list", "tuple", "iter") and len(t.a[1]) == 1:
        t = t.a[1][0]
    return t


def get1(ms, name):
    f = ms.get(name)
    if f is None:
        raise AnalysisBroken(f"WebDBer.{name} vanished")
    return f


def mut_walk(ctx, f, opaque=CODEC):
    """walk with ts marks ('mut', key term, 'set'|'del', line) for every record mutation on the path"""
    def on_event(w, st, ev):
        if mutation_of(ev) is None:
            return
        k, what = mut_key(ev)
        st.ts = st.ts | {("mut", k, what, ev.line)}
    return walk(ctx, f, on_event=on_event, opaque=opaque)


def mut_key(ev):
    if ev.kind == "setitem":
        return ev.term.a[1], "set"
    if ev.kind == "del":
        return ev.term.a[1], "del"
    if ev.kind == "call":
        m = ev.term.a[0].a[1]
        if m == "pop" and ev.term.a[1]:
            return ev.term.a[1][0], "del"
        if m == "setdefault" and ev.term.a[1]:
            return ev.term.a[1][0], "put"
        return None, m
    return None, "replace"


def muts(st):
    return [x for x in st.ts if x[0] == "mut"]


def truth(w, st, v):
    """+1 truthy, -1 falsy, 0 unknown"""
    if iscon(v):
        return 1 if v.a[0] else -1
    l = lit(v)
    r = entails(st.facts, l[0], l[1])
    return 0 if r is None else (1 if r else -1)


def guarded(st, val=True, K=None):
    """path on which the request itself is refused: empty key / no value"""
    lits = {(KEY, False)}
    if K is not None:
        lits.add((K, False))
    if val:
        lits |= {(mk("is", VAL, NONE), True), (VAL, False), (VALS, False), (mk("is", VALS, NONE), True)}
    if any(entails(st.facts, t, p) is True for t, p in lits):
        return True
    return any(all(l in lits for l in c) for c in st.clauses)


def absent(st, k):
    t, p = mkin(k, ITEMS)
    r = entails(st.facts, t, p)
    if r is not None:
        return not r
    for g in (mk("call", A(ITEMS, "get"), (k,), ()), mk("call", A(ITEMS, "get"), (k, NONE), ())):
        r = entails(st.facts, mk("is", g, NONE), True)
        if r is not None:
            return r
    return None


# ------------------------------------------------------------------ W03
@prop("W03")
def w03(ctx):
    """single-entry and set operations: exact key, no overwrite on put, truthful result, no duplicate set members"""
    k, ms = methods(ctx)
    R1 = "W03.single-entry"
    ctx.rule(R1, "put/set/get/remove of one entry touch exactly the encoded key requested with the value given; put never "
                 "overwrites; reads return the value stored at that key", 8)
    R2 = "W03.truthful-result"
    ctx.rule(R2, "an operation that reports success has changed the store on that path, one that reports failure has not", 10)
    R3 = "W03.set-members"
    ctx.rule(R3, "a value is added to an ordered set only when no scanned member of that set equals it; pin removes the whole "
                 "previous set first; members keep the order given", 6)
    writes = {"putVal": (KEY, True), "setVal": (KEY, False), "putOnVal": (ONKEY(KEY, ON), True),
              "pinOnVal": (ONKEY(KEY, ON), False)}
    for name, (K, noover) in sorted(writes.items()):
        f = get1(ms, name)
        w = mut_walk(ctx, f)
        q = f"WebDBer.{name}"
        sets = [e for e in w.events if mutation_of(e) is not None]
        ctx.need(bool(sets), R1, f"{q}: writes", f.where, "no longer writes the entry", construct=q)
        for e in sets:
            k_, what = mut_key(e)
            v = e.value if e.kind == "setitem" else (e.term.a[1][1] if what == "put" and len(e.term.a[1]) > 1 else None)
            ctx.need(k_ is K, R1, f"{q}: key", e.where, f"writes at {show(k_) if k_ is not None else what} instead of {show(K)}", construct=q)
            ctx.need(v is VAL, R1, f"{q}: value", e.where, f"writes {show(v) if v is not None else '?'} instead of the given value", construct=q)
            if noover and what != "put":
                ctx.need(absent(e, K) is True, R1, f"{q}: no overwrite", e.where,
                         "put writes without knowing that no entry exists at the key (it would overwrite)", construct=q)
        for kind, st, v, node in w.exits:
            if kind == "raise":
                ctx.need(not muts(st), R2, f"{q}: raise", f.where, "raises after changing the store", construct=q)
                continue
            tv = truth(w, st, v if v is not None else NONE)
            line = getattr(node, "lineno", f.node.lineno)
            if tv == 1:
                ctx.need(bool(muts(st)), R2, f"{q}: True", f"{MOD}:{line} {q}", "reports success without writing the entry", construct=q)
            elif tv == -1:
                ok = not muts(st) and (guarded(st, K=K) or (noover and absent(st, K) is False))
                ctx.need(ok, R2, f"{q}: False", f"{MOD}:{line} {q}",
                         "reports failure although the entry was written, or without a reason (occupied key, empty key, no value)", construct=q)
            else:
                ctx.bad(R2, q, f"{MOD}:{line} {q}", f"result {show(v)} is not tied to whether the entry was written")
    for name, K in {"remVal": KEY, "remOn": ONKEY(KEY, ON)}.items():
        f = get1(ms, name)
        w = mut_walk(ctx, f)
        q = f"WebDBer.{name}"
        ds = [e for e in w.events if mutation_of(e) is not None]
        ctx.need(bool(ds), R1, f"{q}: removes", f.where, "no longer removes the entry", construct=q)
        for e in ds:
            k_, what = mut_key(e)
            ctx.need(k_ is K and what == "del", R1, f"{q}: key", e.where, f"{what} at {show(k_) if k_ is not None else '?'} instead of removing {show(K)}", construct=q)
        for kind, st, v, node in w.exits:
            if kind == "raise":
                continue
            tv = truth(w, st, v if v is not None else NONE)
            pops = v is not None and any(t.k == "call" and t.a[0] is A(ITEMS, "pop") for t in subterms(v))
            line = getattr(node, "lineno", f.node.lineno)
            if tv == 1:
                ctx.need(bool(muts(st)), R2, f"{q}: True", f"{MOD}:{line} {q}", "reports removal without removing", construct=q)
            elif tv == -1:
                popped = [x for x in muts(st)]
                ok = (not popped or absent(st, K) is True or any(
                    t.k == "call" and t.a[0] is A(ITEMS, "pop") for t, _ in st.facts for t in subterms(t))) and \
                    (guarded(st, False, K) or absent(st, K) is True or bool(popped))
                ctx.need(ok, R2, f"{q}: False", f"{MOD}:{line} {q}", "reports that nothing was removed without the key being absent",
                         construct=q)
            else:
                ctx.need(pops, R2, f"{q}: value", f"{MOD}:{line} {q}", f"result {show(v)} is not tied to the removal", construct=q)
    gets = {"getVal": KEY, "getOnVal": ONKEY(KEY, ON), "getOnItem": ONKEY(KEY, ON)}
    for name, K in gets.items():
        f = get1(ms, name)
        w = mut_walk(ctx, f)
        q = f"WebDBer.{name}"
        got = {mk("call", A(ITEMS, "get"), (K,), ()), mk("call", A(ITEMS, "get"), (K, NONE), ()), mk("sub", ITEMS, K)}
        n = 0
        for kind, st, v, node in w.exits:
            if kind == "raise":
                continue
            line = getattr(node, "lineno", f.node.lineno)
            v = v if v is not None else NONE
            if v is NONE or iscon(v):
                ok = v is NONE and (guarded(st, False, K) or absent(st, K) is True)
                ctx.need(ok, R1, f"{q}: None", f"{MOD}:{line} {q}", "returns nothing on a path where the entry may exist", construct=q)
                continue
            n += 1
            if name == "getOnItem":
                ok = v.k == "tup" and len(v.a[0]) == 3 and v.a[0][0] is KEY and v.a[0][1] is ON and v.a[0][2] in got
                ok = ok and absent(st, K) is False
            else:
                ok = v in got
            ctx.need(ok, R1, f"{q}: value", f"{MOD}:{line} {q}", f"returns {show(v)[:120]} instead of what is stored at {show(K)}", construct=q)
        ctx.need(n > 0, R1, f"{q}: reads", f.where, "never returns a stored value", construct=q)
    # ---- sets
    adds = {"addIoSetVal": KEY, "addOnIoSetVal": ONKEY(KEY, ON), "putIoSetVals": KEY, "putOnIoSetVals": ONKEY(KEY, ON),
            "pinIoSetVals": KEY, "pinOnIoSetVals": ONKEY(KEY, ON), "appendOnIoSetVals": None}
    for name, BR in sorted(adds.items()):
        f = get1(ms, name)
        w = mut_walk(ctx, f)
        q = f"WebDBer.{name}"
        sets = [e for e in w.events if mutation_of(e) is not None and mut_key(e)[1] != "del"]
        ctx.need(bool(sets), R3, f"{q}: writes", f.where, "no longer writes the set members", construct=q)
        for e in sets:
            k_, what = mut_key(e)
            v = e.value if e.kind == "setitem" else None
            src = None
            if v is VAL and name.startswith("add"):
                src = "val"
            elif v is not None and v.k == "elem":
                base, dedup, ordered = member_source(w, v.a[0])
                if base is VALS and ordered:
                    src = "vals" if dedup else "raw"
            elif v is not None and v.k == "sub" and v.a[1].k == "idx":
                base, dedup, ordered = member_source(w, v.a[0])
                if base is VALS and ordered:
                    src = "vals" if dedup else "raw"
            ctx.need(src is not None, R3, f"{q}: member", e.where,
                     f"stores {show(v)[:100] if v is not None else what}, which is not the next given value in order", construct=q)
            if name.startswith(("add", "put")) and src:
                ctx.need(not_member(w, e, v, BR), R3, f"{q}: not already a member", e.where,
                         "adds a value without knowing that no member of the set equals it", construct=q)
            if name.startswith(("put", "pin")) and src:
                ctx.need(src == "vals" or self_dedup(w, e, v), R3, f"{q}: given values deduplicated", e.where,
                         "the given values are stored without removing duplicates among them", construct=q)
            if name.startswith("pin") and src:
                ctx.need(removed_before(w, e, BR), R3, f"{q}: previous set removed", e.where,
                         "the new set is written without first removing every member of the previous one", construct=q)
        for kind, st, v, node in w.exits:
            if kind == "raise" or name.startswith("append"):
                continue
            line = getattr(node, "lineno", f.node.lineno)
            tv = truth(w, st, v if v is not None else NONE)
            wrote = [x for x in muts(st) if x[2] == "set"]
            if tv == -1:
                ctx.need(not muts(st), R2, f"{q}: False", f"{MOD}:{line} {q}", "reports failure after changing the store", construct=q)
            elif tv == 1:
                ctx.need(bool(wrote) or bool([e for e in sets]), R2, f"{q}: True", f"{MOD}:{line} {q}",
                         "reports success without writing", construct=q)
            else:
                flag = v.k == "phi" and v in w.phis and w.phis[v]["init"] == {FALSE} and \
                    all(x in (v, TRUE) for x, _ in w.phis[v]["steps"])
                ctx.need(flag or v.k == "call" and v.a[0] is G("bool"), R2, f"{q}: flag", f"{MOD}:{line} {q}",
                         f"result {show(v)[:80]} is not tied to whether values were written", construct=q)
    # removals over sets: result flags
    for name in ("remIoSet", "remIoSetVal", "remOnIoSetVal", "remOnAll", "remOnAllIoSet", "remTop"):
        f = get1(ms, name)
        w = mut_walk(ctx, f)
        q = f"WebDBer.{name}"
        for kind, st, v, node in w.exits:
            if kind == "raise":
                continue
            line = getattr(node, "lineno", f.node.lineno)
            v = v if v is not None else NONE
            tv = truth(w, st, v)
            ms_ = muts(st)
            if tv == -1:
                ctx.need(not ms_ or zero_iter(st), R2, f"{q}: False", f"{MOD}:{line} {q}",
                         "reports that nothing was removed after removing entries", construct=q)
            elif tv == 1:
                ctx.need(bool(ms_) or loop_nonempty(w, st), R2, f"{q}: True", f"{MOD}:{line} {q}", "reports removal on a path that removes nothing", construct=q)
            elif v.k == "phi" and v in w.phis:
                d = w.phis[v]
                ok = d["init"] <= {FALSE} and all(x is v or x is TRUE for x, _ in d["steps"])
                ctx.need(ok, R2, f"{q}: flag", f"{MOD}:{line} {q}", "removal flag is not False initially and True after a removal", construct=q)
            else:
                ctx.need(v.k == "call" and v.a[0] is G("bool") or v.k in ("lt", "not", "eq"), R2, f"{q}: value", f"{MOD}:{line} {q}",
                         f"result {show(v)[:80]} is not tied to the removal", construct=q)


def zero_iter(st):
    return False


def loop_nonempty(w, st):
    return any(t.k in ("new", "comp", "fresh", "call") and p for t, p in st.facts)


def member_source(w, it, depth=0):
    """iterable -> (base iterable, deduplicated?, order preserved?)"""
    dedup, ordered = False, True
    for _ in range(8):
        if it.k == "call" and it.a[0].k == "g" and len(it.a[1]) == 1:
            fn = it.a[0].a[0]
            if fn in ("oset", "OrderedSet"):
                dedup = True
            elif fn in ("set", "frozenset"):
                dedup, ordered = True, False
            elif fn in ("reversed", "sorted"):
                ordered = False
            elif fn not in ("list", "tuple", "iter", "enumerate"):
                return it, dedup, ordered
            it = it.a[1][0]
            continue
        if it.k == "call" and it.a[0].k == "a" and it.a[0].a[0] is G("dict") and it.a[0].a[1] == "fromkeys" and it.a[1]:
            dedup = True
            it = it.a[1][0]
            continue
        if it.k == "new" and it.a[0] in ("oset", "OrderedSet") and it.a[2]:
            dedup = True
            it = it.a[2][0]
            continue
        kn = w.elem_known(it)
        if kn is not None and kn[0].k == "elem":
            it = kn[0].a[0]
            continue
        break
    return it, dedup, ordered


def scan_value_terms(w):
    """items[e] for every element e of a scan over the records"""
    out = {}
    for e in src_events(w):
        el = scan_elem(w, e.term)
        k = el.a[1] if el.k == "sub" else el
        out[mk("sub", ITEMS, k)] = e.term
    return out


def not_member(w, ev, v, BR):
    """the facts at ev say v equals no member of the scanned set"""
    sv = scan_value_terms(w)
    for t, p in ev.facts:
        if t.k == "in" and t.a[0] is v and not p and holds_members(w, t.a[1], sv):
            return True
        if t.k == "forall":
            body, pol = t.a[1], t.a[2]
            if p and body.k == "eq" and not pol and v in body.a:
                other = body.a[1] if body.a[0] is v else body.a[0]
                if other.k == "sub" and is_items(other.a[0]):
                    return True
    for c in ev.clauses:
        if any(t.k == "in" and t.a[0] is v and not p and holds_members(w, t.a[1], sv) for t, p in c) and all(
                t.k == "in" and t.a[0] is v and not p for t, p in c):
            return True
    return False


def holds_members(w, coll, sv):
    """collection term holds the value of every scanned entry"""
    coll = strip_list(coll)
    acc = w.accs.get(coll)
    if acc:
        vals = {x for x, _ in acc if x is not None}
        if vals & set(sv):
            return True
    kn = w.elem_known(coll)
    if kn is not None and (kn[0] in sv):
        return True
    for x in (x for x, _ in (acc or []) if x is not None):
        if x in sv:
            return True
    if coll.k == "call" and coll.a[0].k == "g" and coll.a[0].a[0] in ("set", "frozenset", "oset", "OrderedSet") and coll.a[1]:
        return holds_members(w, coll.a[1][0], sv)
    if coll.k == "comp":
        got = getattr(w, "comp_elems", {}).get(coll)
        return got is not None and got[0] in sv
    return False


def self_dedup(w, ev, v):
    """every stored value is also added to the collection it was tested against"""
    for t, p in ev.facts:
        if t.k == "in" and t.a[0] is v and not p:
            acc = w.accs.get(strip_list(t.a[1])) or []
            if any(x is v for x, _ in acc):
                return True
    return False


def removed_before(w, ev, BR):
    """a removal of the whole branch BR was executed before ev on the path"""
    for e in w.events:
        if e is ev:
            break
        if e.kind == "enter" and e.term.k == "call" and e.term.a[0].k == "a" and e.term.a[0].a[1] in ("remIoSet",):
            kw = call_parts(e.term)[2]
            if kw.get("key") is BR and kw.get("db", P("db")) is P("db"):
                return True
        if e.kind == "del" and e.term.k == "sub" and is_items(e.term.a[0]):
            kk = e.term.a[1]
            if BR is not None and any(entails(e.facts, *mkeq(BR, decode_terms(kk, s)["io.key"])) for s in (SEP,)):
                return True
    return False


# ------------------------------------------------------------------ W05
@prop("W05")
def w05(ctx):
    """ordinals: new members after the last one, appends at one past the last ordinal, never past the maximum"""
    R1 = "W05.next-insertion-ordinal"
    ctx.rule(R1, "the hidden insertion ordinal of a new member is one past the highest found in the scan of its set (0 when the "
                 "set is empty or was just removed), so members stay in insertion order and none is overwritten", 6)
    R2 = "W05.next-append-ordinal"
    ctx.rule(R2, "append writes at last ordinal + 1 when the entry just below the branch's upper bound belongs to the branch, else "
                 "at 0; the bound is the maximum ordinal of that branch; going past the maximum raises; the ordinal written is "
                 "the ordinal returned", 4)
    k, ms = methods(ctx)
    adds = {"addIoSetVal": KEY, "addOnIoSetVal": ONKEY(KEY, ON), "putIoSetVals": KEY, "putOnIoSetVals": ONKEY(KEY, ON),
            "pinIoSetVals": KEY, "pinOnIoSetVals": ONKEY(KEY, ON)}
    for name, BR in sorted(adds.items()):
        f = get1(ms, name)
        w = mut_walk(ctx, f)
        q = f"WebDBer.{name}"
        sets = [e for e in w.events if mutation_of(e) is not None and mut_key(e)[1] != "del"]
        ctx.need(bool(sets), R1, f"{q}: writes", f.where, "no longer writes the set members", construct=q)
        for e in sets:
            k_, _ = mut_key(e)
            p = call_parts(k_) if k_ is not None else None
            if p is None or p[0] is not G("suffix"):
                ctx.bad(R1, q, e.where, f"member key {show(k_) if k_ is not None else '?'} is not the set key suffixed with an ordinal")
                continue
            kw = p[2]
            ctx.need(kw.get("key") is BR and kw.get("sep") is SEP, R1, f"{q}: key", e.where,
                     f"member key built from {show(kw.get('key', NONE))} instead of {show(BR)}", construct=q)
            why = next_ion(w, e, kw.get("ion", NONE), BR, name)
            ctx.need(why is None, R1, f"{q}: ordinal", e.where, why or "", construct=q)
    for name in ("appendOnVal", "appendOnIoSetVals"):
        f = get1(ms, name)
        w = mut_walk(ctx, f)
        q = f"WebDBer.{name}"
        sets = [e for e in w.events if mutation_of(e) is not None]
        ctx.need(bool(sets), R2, f"{q}: writes", f.where, "no longer writes the appended entry", construct=q)
        ons = set()
        for e in sets:
            k_, _ = mut_key(e)
            p = call_parts(k_) if k_ is not None else None
            if name == "appendOnIoSetVals":
                if p is None or p[0] is not G("suffix"):
                    ctx.bad(R2, q, e.where, "appended member key is not an ordinal key suffixed with an insertion ordinal")
                    continue
                ion = p[2].get("ion", NONE)
                b, o = unlin(ion)
                okion = b is not None and b.k == "idx" and o == 0 or counts_up(w, ion)
                ctx.need(okion and p[2].get("sep") is SEP, R2, f"{q}: insertion ordinal", e.where,
                         f"insertion ordinal {show(ion)} does not count the given values from 0", construct=q)
                p = call_parts(p[2].get("key", NONE))
            if p is None or p[0] is not G("onKey"):
                ctx.bad(R2, q, e.where, "appended entry key is not the branch key with an ordinal")
                continue
            kw = p[2]
            ctx.need(kw.get("top") is KEY and kw.get("sep") is SEP, R2, f"{q}: branch", e.where, "appended under another branch or separator", construct=q)
            on = kw.get("on", NONE)
            ons.add(on)
            kt = mk("call", p[0], (), tuple(sorted(kw.items())))
            at = [x for x in w.events if x.kind == "call" and x.term is kt] or [e]
            for x in at:
                why = next_on(w, x, on, "onio" if name == "appendOnIoSetVals" else "on")
                ctx.need(why is None, R2, f"{q}: ordinal", x.where, why or "", construct=q)
        for kind, st, v, node in w.exits:
            if kind == "raise":
                continue
            line = getattr(node, "lineno", f.node.lineno)
            v = v if v is not None else NONE
            keys = {x[1] for x in muts(st) if x[1] is not None}
            tops = {o for o in ons if any(o in subterms(kk) for kk in keys)} or ons
            ctx.need(v in tops, R2, f"{q}: returns the ordinal written", f"{MOD}:{line} {q}", f"returns {show(v)[:100]}, not the ordinal written", construct=q)


def counts_up(w, t):
    if t.k != "phi" or t not in w.phis:
        return False
    d = w.phis[t]
    return d["init"] == {C(0)} and all(unlin(v) == (t, 1) for v, _ in d["steps"])


def add_parts(t):
    """flatten a sum into (list of non-constant addends, constant)"""
    if t.k == "lin":
        ps, c = add_parts(t.a[0])
        return ps, c + t.a[1]
    if t.k == "bin" and t.a[0] in ("+", "Add"):
        a, ca = add_parts(t.a[1])
        b, cb = add_parts(t.a[2])
        return a + b, ca + cb
    if iscon(t) and isinstance(t.a[0], int):
        return [], t.a[0]
    return [t], 0


def scan_keys(w):
    out = []
    for e in src_events(w):
        el = scan_elem(w, e.term)
        out.append(el.a[1] if el.k == "sub" else el)
    return out


def next_ion(w, ev, ion, BR, name):
    parts, c = add_parts(ion)
    idx = [p for p in parts if p.k == "idx"]
    parts = [p for p in parts if p.k != "idx"]
    if len(idx) > 1:
        return f"insertion ordinal {show(ion)} counts twice"
    # counting phi of the writing loop (ion += 1 after each write)
    if len(parts) == 1 and parts[0].k == "phi" and parts[0] in w.phis and not idx:
        d = w.phis[parts[0]]
        if all(unlin(v) == (parts[0], 1) or v is parts[0] for v, _ in d["steps"]) and any(
                unlin(v) == (parts[0], 1) for v, _ in d["steps"]):
            if len(d["init"]) != 1:
                return f"insertion ordinal starts from several values"
            return next_ion0(w, ev, *add_tuple(next(iter(d["init"])), c), name=name)
    return next_ion0(w, ev, parts, c, name=name)


def add_tuple(t, c):
    p, k = add_parts(t)
    return p, c + k


def next_ion0(w, ev, parts, c, name):
    if not parts:
        if name.startswith("pin"):
            return None if c == 0 else f"first member of a pinned set gets insertion ordinal {c}"
        # empty set: requires that no entry of the branch was seen
        return None if c == 0 and empty_scan(w, ev) else "insertion ordinal is a constant although the set may hold members"
    if len(parts) != 1:
        return "insertion ordinal is not derived from the highest one in the set"
    p = parts[0]
    ions = {decode_terms(k, SEP)["io.ion"] for k in scan_keys(w)}
    if p in ions:      # straight from a scanned entry (last one)
        return None if c == 1 else f"insertion ordinal is the last one {c:+d}"
    if p.k == "call" and p.a[0] is G("max"):
        args = list(p.a[1])
        kw = dict(p.a[2])
        if len(args) == 1 and kw.get("default") is C(-1) and c == 1:
            return None
        return "insertion ordinal is not one past the maximum of the set"
    if p.k == "phi" and p in w.phis:
        d = w.phis[p]
        for i in d["init"]:
            if i is NONE:
                continue
            if not (iscon(i) and isinstance(i.a[0], int) and i.a[0] + c == 0):
                return f"the first member would get insertion ordinal {show(i)} + {c}, not 0"
        for v, fs in d["steps"]:
            if v is p:
                ok = any(entails(fs, *mklt(p, x)) is False for x in ions) or not any(
                    any(x in subterms(t) for k in scan_keys(w) for x in (k,)) for t, _ in fs)
                # unchanged only when the scanned ordinal is not larger
                if not ok and any(x in subterms(t) for t, pl in fs for x in ions):
                    return "the running maximum can stay below a scanned ordinal"
                continue
            vp, vc = add_parts(v)
            if len(vp) == 1 and vp[0] in ions:
                if vc + c != 1:
                    return f"the next insertion ordinal is the scanned one {vc + c:+d}, not +1"
                continue
            if len(vp) == 1 and vp[0].k == "call" and vp[0].a[0] is G("max") and set(vp[0].a[1]) & ions and vc + c == 1 and \
                    p in vp[0].a[1]:
                continue
            if len(vp) == 1 and vp[0].k == "call" and vp[0].a[0] is G("max") and vc == 0 and p in vp[0].a[1]:
                ok = False
                for a in vp[0].a[1]:
                    ap, ac = add_parts(a)
                    if len(ap) == 1 and ap[0] in ions and ac + c == 1:
                        ok = True
                if ok:
                    continue
            return f"the running value becomes {show(v)[:80]} instead of a scanned insertion ordinal"
        return None
    return f"insertion ordinal {show(p)[:100]} is not derived from the highest one in the set"


def empty_scan(w, ev):
    for t, p in ev.facts:
        if t.k in ("new", "comp", "phi") and not p:
            return True
        if t.k == "is" and t.a[1] is NONE and p and t.a[0].k in ("phi", "call", "fresh"):
            return True
    return False


def pred_terms(w, layout):
    """terms for the last stored key at or below the upper bound of the branch"""
    ub = ONKEY(KEY, MAXON)
    bounds = [ub] if layout == "on" else [SUF(ub, MAXON)]
    if layout == "onio":
        pass
    out = set()
    for e in w.events:
        for t in subterms(e.term) | set().union(*[subterms(x) for x, _ in e.facts]) if e.kind in ("setitem", "call") else ():
            p = is_pred(w, t, bounds)
            if p:
                out.add(t)
    return out


def is_pred(w, t, bounds):
    if t.k == "sub" and t.a[1] is C(0):      # peekitem(idx-1)[0]
        p = call_parts(t.a[0])
        if p and p[0] is A(ITEMS, "peekitem") and p[1]:
            b, o = unlin(p[1][0])
            return o == -1 and is_bisect(b, bounds)
    if t.k == "sub":
        seq = t.a[0]
        b, o = unlin(t.a[1])
        if o == -1 and b is not None and is_bisect(b, bounds):
            if seq.k == "call" and seq.a[0] is A(ITEMS, "keys") or seq.k == "call" and seq.a[0] is G("list") and seq.a[1] and seq.a[1][0] in (
                    ITEMS, mk("call", A(ITEMS, "keys"), (), ())):
                return True
    x = t.a[0] if t.k == "fresh" else t
    if x.k == "call" and x.a[0] is G("next") and x.a[1]:
        it = x.a[1][0]
        s = scan_src(it)
        if s:
            kw = s[1]
            return kw.get("maximum") in bounds and kw.get("reverse") is TRUE and kw.get("minimum", NONE) in lower_ok()
    if x.k == "elem":
        s = scan_src(x.a[0])
        if s:
            kw = s[1]
            return kw.get("maximum") in bounds and kw.get("reverse") is TRUE and kw.get("minimum", NONE) in lower_ok()
    return False


def lower_ok():
    z = ONKEY(KEY, C(0))
    return {NONE, C(b""), z, SUF(z, C(0))}


def is_bisect(b, bounds):
    p = call_parts(b) if b is not None else None
    if not p or p[0].k != "a" or p[0].a[0] is not ITEMS:
        return False
    return p[0].a[1] in ("bisect_right", "bisect") and list(p[1]) and p[1][0] in bounds


def next_on(w, ev, on, layout):
    preds = pred_terms(w, layout)
    if not preds:
        return "the ordinal is not derived from the last entry at or below the branch's upper bound"
    b, o = unlin(on)
    for t in preds:
        d = decode_terms(t, SEP)
        pk, pn = d[layout + ".key"], d[layout + ".on"]
        same = entails(ev.facts, *mkeq(KEY, pk))
        if b is pn:
            if o != 1:
                return f"appends at the last ordinal {o:+d} instead of +1"
            if same is not True:
                return "continues from an entry that is not known to belong to the branch"
            # upper limit
            le = entails(ev.facts, *mklt(pn, MAXON))
            ne = entails(ev.facts, *mkeq(pn, MAXON))
            if le is not True and ne is not False:
                return "may run past the maximum ordinal instead of raising"
            return None
        if on is C(0):
            none = entails(ev.facts, mk("is", t, NONE), True) is True
            emp = any(t2.k == "call" and is_bisect(t2, [ONKEY(KEY, MAXON), SUF(ONKEY(KEY, MAXON), MAXON)]) and not p for t2, p in ev.facts) or \
                any(t2.k == "eq" and p and C(0) in t2.a and any(x.k == "call" and is_bisect(x, [ONKEY(KEY, MAXON), SUF(ONKEY(KEY, MAXON), MAXON)]) for x in t2.a)
                    for t2, p in ev.facts)
            falsy = entails(ev.facts, t, True) is False
            if same is False or none or emp or falsy:
                return None
            if any(x.k == "call" and is_bisect(x, [ONKEY(KEY, MAXON), SUF(ONKEY(KEY, MAXON), MAXON)]) for t2, _ in ev.facts for x in subterms(t2)):
                continue
    if on is C(0):
        return "restarts at ordinal 0 although an entry of the branch may exist"
    return f"ordinal {show(on)[:80]} is neither 0 nor one past the last"
