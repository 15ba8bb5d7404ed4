"""Persistence format and lifecycle of the browser-backed store."""
import ast

from . import prop
from .webdb import MOD, methods, mutation_of, walk
from .codec import plain, text
from ..engine import (A, C, FALSE, G, NONE, P, T, TRUE, Walker, call_parts, entails, iscon, lit, mk, mkeq, mkin, show, subterms,
                      unlin)
from ..model import AnalysisBroken

SER = {"_serialize_records", "_serialize_meta", "_deserialize_records", "_deserialize_meta", "_storify"}
REG = "src/keri/acdc/webregbasing.py"


def strip_str(t):
    while t.k == "call" and t.a[0] is G("str") and len(t.a[1]) == 1:
        t = t.a[1][0]
    return t


def enc_kind(t, root):
    """which reversible text encoding of bytes `root` the term is"""
    if t.k == "call" and t.a[0].k == "a" and t.a[0].a[0] is root and t.a[0].a[1] == "hex" and not t.a[1]:
        return "hex"
    if t.k == "call" and t.a[0].k == "a" and t.a[0].a[1] == "decode" and t.a[1] and iscon(t.a[1][0]):
        inner = t.a[0].a[0]
        if inner is root:
            return "codec:" + str(t.a[1][0].a[0]).replace("_", "-").lower()
        return enc_kind(inner, root)
    if t.k == "call" and t.a[0].k == "a" and t.a[0].a[1] == "decode" and not t.a[1]:
        inner = t.a[0].a[0]
        return None if inner is root else enc_kind(inner, root)
    n = fname(t)
    if n in ("hexlify", "b2a_hex") and t.a[1] and t.a[1][0] is root:
        return "hex"
    if n in ("b64encode", "urlsafe_b64encode", "b85encode", "b32encode", "standard_b64encode") and t.a[1] and t.a[1][0] is root:
        return n.replace("encode", "")
    return None


def dec_kind(t, root):
    n = fname(t)
    if t.k == "call" and t.a[1]:
        x = strip_str(t.a[1][0])
        if n == "fromhex" or n in ("unhexlify", "a2b_hex"):
            return "hex" if x is root or plain(x) is root else None
        if n in ("b64decode", "urlsafe_b64decode", "b85decode", "b32decode", "standard_b64decode"):
            return n.replace("decode", "") if x is root or plain(x) is root else None
    if t.k == "call" and t.a[0].k == "a" and t.a[0].a[1] == "encode" and t.a[1] and iscon(t.a[1][0]):
        if strip_str(t.a[0].a[0]) is root:
            return "codec:" + str(t.a[1][0].a[0]).replace("_", "-").lower()
    return None


def fname(t):
    if t.k != "call":
        return None
    f = t.a[0]
    return f.a[1] if f.k == "a" else (f.a[0].split(".")[-1] if f.k == "g" else None)


BIJECT = {"hex", "codec:latin-1", "codec:latin1", "codec:iso-8859-1", "b64", "urlsafe_b64", "b85", "b32", "standard_b64"}


def dict_entry(w, t, src_ok):
    """(key term, value term, key root, value root) of a dict comprehension/loop-built dict over src.items()"""
    if t.k == "comp" and t.a[0] == "dict":
        got = w.comp_elems.get(t)
        if got is None:
            return None
        val, gens = got
        if len(gens) != 1 or gens[0][1]:
            return ("filtered",)
        it = gens[0][0]
        el = w.elem_of(it)
        if el.k == "tup" and len(el.a[0]) == 2 and val.k == "tup":
            return val.a[0][0], val.a[0][1], el.a[0][0], el.a[0][1], it
        if val.k == "tup":
            b = it
            k = mk("elem", b)
            return val.a[0][0], val.a[0][1], k, mk("sub", b, k), it
    return None


def loop_entry(w, t):
    """dict built by setitem in a loop"""
    sets = [e for e in w.events if e.kind == "setitem" and e.term.k == "sub" and e.term.a[0] is t]
    if not sets:
        return None
    e = sets[0]
    roots = [(x.term) for x in w.events if x.kind == "iter"]
    for it in roots:
        el = w.elem_of(it)
        if el.k == "tup" and len(el.a[0]) == 2:
            k, v = el.a[0]
        else:
            k, v = el, mk("sub", it, el)
        if k in subterms(e.term.a[1]):
            # every iteration must store
            ends = [x for x in w.events if x.kind in ("bodyend", "break") and x.term is it]
            if any(not any(h.k == "setitem" and h.a[0].k == "sub" and h.a[0].a[0] is t for h in x.hist) for x in ends):
                return ("filtered",)
            return e.term.a[1], e.value, k, v, it
    return None


@prop("W07")
def w07(ctx):
    """what flush persists is what open reads back"""
    R1 = "W07.records-round-trip"
    ctx.rule(R1, "records are serialised entry by entry with a reversible encoding of key and of value, and deserialised with the "
                 "inverse encoding, no entry left out", 4)
    R2 = "W07.same-slots"
    ctx.rule(R2, "open reads records and metadata from the slots flush writes, through the matching decoder, and keeps them as the "
                 "store's records and duplicate flag", 5)
    R3 = "W07.metadata-guard"
    ctx.rule(R3, "a non-empty persisted store without metadata is refused, never opened", 1)
    R4 = "W07.clear-resets"
    ctx.rule(R4, "clear on open resets both slots and syncs before anything is read", 2)
    k, ms = methods(ctx)
    m = ctx.model
    # --- serialiser
    f = m.func(MOD, "_serialize_records")
    w = ctx.walk(Walker(m), f)
    enc = set()
    for kind, st, v, node in w.exits:
        if kind not in ("return", "fall"):
            continue
        p = call_parts(v) if v is not None else None
        if p is None or fname(v) != "dumps":
            ctx.bad(R1, "_serialize_records", f.where, f"returns {show(v)[:80] if v is not None else None}, not the JSON of the records")
            continue
        body = (list(p[1]) + [x for n, x in p[2].items() if n in ("sad", "obj")])[0]
        d = dict_entry(w, body, None) or loop_entry(w, body)
        if d is None or len(d) == 1:
            ctx.bad(R1, "_serialize_records", f.where, "not every record is serialised" if d else f"records serialised as {show(body)[:80]}")
            continue
        kt, vt, kr, vr, it = d
        src = it
        while src.k == "call" and src.a[0].k == "a" and src.a[0].a[1] in ("items", "keys") or \
                src.k == "call" and src.a[0] is G("sorted") and len(src.a[1]) == 1:
            src = src.a[0].a[0] if src.a[0].k == "a" else src.a[1][0]
        ctx.need(src is P("records"), R1, "serialise: all records", f.where, f"serialises {show(src)[:60]}, not all the records",
                 construct="_serialize_records")
        ek, ev = enc_kind(kt, kr), enc_kind(vt, vr)
        ctx.need(ek in BIJECT, R1, "serialise: key", f.where, f"key is written as {show(kt)[:80]}", construct="_serialize_records")
        ctx.need(ev in BIJECT, R1, "serialise: value", f.where, f"value is written as {show(vt)[:80]}", construct="_serialize_records")
        enc.add((ek, ev))
    f = m.func(MOD, "_deserialize_records")
    w = ctx.walk(Walker(m), f)
    n = 0
    for kind, st, v, node in w.exits:
        if kind not in ("return", "fall"):
            continue
        line = f"{MOD}:{getattr(node, 'lineno', 0)} _deserialize_records"
        if v is None or v is NONE:
            ctx.bad(R1, "_deserialize_records", line, "returns nothing")
            continue
        d = dict_entry(w, v, None) or (loop_entry(w, v) if v.k == "new" else None)
        if d is None:
            empty = v.k == "new" and not v.a[2]
            absent = raw_absent(st)
            ctx.need(empty and absent, R1, "deserialise: empty", line,
                     f"returns {show(v)[:60]} although records may be present", construct="_deserialize_records")
            continue
        if len(d) == 1:
            ctx.bad(R1, "_deserialize_records", line, "some persisted records are left out")
            continue
        kt, vt, kr, vr, it = d
        dk, dv = dec_kind(kt, kr), dec_kind(vt, vr)
        ctx.need((dk, dv) in enc, R1, "deserialise: inverse", line,
                 f"records written as {sorted(map(str, enc))} are read back as ({dk}, {dv}): {show(kt)[:60]}, {show(vt)[:60]}",
                 construct="_deserialize_records")
        n += 1
    ctx.need(n > 0, R1, "deserialise: reads", f.where, "no path reads the records back", construct="_deserialize_records")
    # metadata functions: identity through JSON
    f = m.func(MOD, "_serialize_meta")
    w = ctx.walk(Walker(m), f)
    for kind, st, v, node in w.exits:
        if kind in ("return", "fall"):
            p = call_parts(v) if v is not None else None
            a0 = (list(p[1]) + [x for n_, x in p[2].items() if n_ in ("sad", "obj")])[:1] if p and fname(v) == "dumps" else []
            ctx.need(bool(a0) and (a0[0] is P("meta") or a0[0] is mk("call", G("dict"), (P("meta"),), ())), R1, "serialise: metadata",
                     f.where, "metadata is not written as given", construct="_serialize_meta")
    f = m.func(MOD, "_deserialize_meta")
    w = ctx.walk(Walker(m), f)
    for kind, st, v, node in w.exits:
        if kind in ("return", "fall") and v is not None:
            x = v
            while x.k == "call" and x.a[0] is G("dict") and len(x.a[1]) == 1:
                x = x.a[1][0]
            ok = (x.k == "new" and not x.a[2] and raw_absent(st)) or plain_json(x) is P("raw")
            ctx.need(ok, R1, "deserialise: metadata", f"{MOD}:{getattr(node, 'lineno', 0)} _deserialize_meta",
                     f"metadata is read back as {show(v)[:80]}", construct="_deserialize_meta")
    # --- slots
    ff = ms.get("flush")
    fo = ms.get("open")
    if ff is None or fo is None:
        raise AnalysisBroken("WebDBer.flush/open vanished")
    w = walk(ctx, ff, opaque=SER)
    slot = {}
    for e in w.events:
        if e.kind == "setitem" and e.value is not None and e.value.k == "call" and fname(e.value) in ("_serialize_records", "_serialize_meta"):
            slot[fname(e.value)] = e.term.a[1]
    ctx.need(set(slot) == {"_serialize_records", "_serialize_meta"} and len(set(slot.values())) == 2, R2, "flush slots", ff.where,
             "flush does not write records and metadata to two different slots", construct="flush")
    w = walk(ctx, fo, opaque=SER)
    news = [e for e in w.events if e.kind == "call" and fname(e.term) == "SubDb"]
    ctx.need(bool(news), R2, "open creates stores", fo.where, "open no longer creates the stores", construct="open")
    stored = [e for e in w.events if e.kind == "setitem" and e.value is not None and e.value.k == "call" and fname(e.value) == "SubDb"]
    ctx.need(bool(stored) or not news, R2, "open registers stores", fo.where, "stores are created but not registered", construct="open")
    sites = {}
    for e in news:
        kw = call_parts(e.term)[2]
        items = kw.get("items", NONE)
        h = kw.get("handle", NONE)
        ns = kw.get("namespace", NONE)
        inner = items
        while inner.k == "call" and fname(inner) in ("SortedDict", "dict") and len(inner.a[1]) == 1:
            inner = inner.a[1][0]
        rd = reads(inner)
        ctx.need(fname(items) == "SortedDict" and rd == ("_deserialize_records", h, slot.get("_serialize_records")), R2,
                 f"open: records of {show(h)[:40]}", e.where,
                 f"records are loaded as {show(items)[:120]}, not decoded from the slot flush writes", construct="open")
        dup = kw.get("dupsort", NONE)
        fl = kw.get("flags_persisted", NONE)
        okd = any(reads(x) == ("_deserialize_meta", h, slot.get("_serialize_meta")) for x in subterms(dup)) and \
            any(text(x) == "dupsort" for x in subterms(dup))
        neg = dup.k in ("not",) or any(x.k == "not" for x in subterms(dup))
        dflt = [x for x in subterms(dup) if x.k == "call" and x.a[0].k == "a" and x.a[0].a[1] == "get"]
        okdef = all(len(x.a[1]) < 2 or x.a[1][1] in (FALSE, NONE) for x in dflt if text(x.a[1][0]) == "dupsort")
        ctx.need(okd and not neg and okdef, R2, "open: duplicate flag", e.where, f"duplicate flag is {show(dup)[:100]}, not the persisted one",
                 construct="open")
        meta = next((x for x in subterms(dup) if reads(x) is not None and reads(x)[0] == "_deserialize_meta"), None)
        flok = meta is not None and (fl is mkin(C("dupsort"), meta)[0] or lit(fl)[0] is mkin(C("dupsort"), meta)[0] and lit(fl)[1])
        if iscon(fl):       # decided on this path
            flok = meta is not None and entails(e.facts, *mkin(C("dupsort"), meta)) is bool(fl.a[0])
        ctx.need(flok, R2, "open: flag known", e.where, f"whether the duplicate flag is persisted is taken as {show(fl)[:80]}", construct="open")
        # guard
        emp = entails(e.facts, items, True) is False or entails(e.facts, inner, True) is False
        has = meta is not None and entails(e.facts, *mkin(C("dupsort"), meta)) is True
        cl = any(all(l == (items, False) or meta is not None and l == mkin(C("dupsort"), meta) for l in c) for c in e.clauses)
        ctx.need(emp or has or cl, R3, "open: store without metadata", e.where,
                 "a store that holds records but no metadata can be opened", construct="open")
        nm = kw.get("name", NONE)
        nsok = any(nm is x for x in subterms(ns)) and P("name") in subterms(ns)
        hok = any(x.k == "call" and ns in x.a[1] or x.k == "call" and ns in [v for _, v in x.a[2]] for x in subterms(h))
        ctx.need(nsok and hok, R2, "open: own namespace", e.where,
                 f"store {show(nm)[:40]} is backed by {show(h)[:80]}: not a namespace of its own", construct="open")
        st_ok = any(s.term.a[1] is nm for s in stored if s.value is e.term)
        ctx.need(st_ok or not stored, R2, "open: registered under its name", e.where, "store registered under another name", construct="open")
    # clear
    resets = [e for e in w.events if e.kind == "setitem" and e.term.a[1] in slot.values() and text(e.value) is not None]
    CLEAR = P("clear")
    for e in resets:
        ctx.need(text(e.value) in ("{}", "") and entails(e.facts, CLEAR, True) is True, R4, f"reset {show(e.term.a[1])}", e.where,
                 "persisted payload overwritten although clear was not requested (or not with an empty payload)", construct="open")
    gets = [e for e in w.events if e.kind == "call" and (e.term.a[0].k == "a" and e.term.a[0].a[1] == "get") and e.term.a[1] and
            e.term.a[1][0] in slot.values()]
    for e in gets:
        if entails(e.facts, CLEAR, True) is True:
            done = {t.a[0].a[1] for t in e.hist if t.k == "setitem" and t.a[0].k == "sub"}
            synced = any(t.k == "call" and t.a[0].k == "a" and t.a[0].a[1] == "sync" for t in e.hist)
            ctx.need(set(slot.values()) <= done and synced, R4, f"cleared before read {show(e.term.a[1][0])}", e.where,
                     "with clear requested, a slot is read before both were reset and synced", construct="open")
    ctx.need(any(entails(e.facts, CLEAR, True) is True for e in gets), R4, "clear distinguished", fo.where,
             "clear is not acted on before loading", construct="open")


def raw_absent(st):
    for t, p in st.facts:
        if t.k == "in" and t.a[0] is P("raw") and p and t.a[1].k in ("set", "tup", "new"):
            els = t.a[1].a[0] if t.a[1].k in ("set", "tup") else t.a[1].a[2]
            if all(iscon(x) and not x.a[0] for x in els):
                return True
        if t is P("raw") and not p:
            return True
        if t.k == "is" and t.a[0] is P("raw") and t.a[1] is NONE and p:
            return True
        if t.k == "eq" and p and P("raw") in t.a and any(iscon(x) and not x.a[0] for x in t.a):
            return True
    return any(all(t.k in ("is", "eq", "in") and P("raw") in t.a and p or t is P("raw") and not p for t, p in c) for c in st.clauses)


def plain_json(x):
    x = plain(x)
    if fname(x) == "loads":
        p = call_parts(x)
        a = (list(p[1]) + [v for v in p[2].values()])[0]
        return plain(a)
    return x


def reads(t):
    """('_deserialize_x', handle, slot) when t is _deserialize_x(handle.get(slot))"""
    if fname(t) not in ("_deserialize_records", "_deserialize_meta"):
        return None
    p = call_parts(t)
    a = (list(p[1]) + [v for v in p[2].values()])[0]
    if a.k == "call" and a.a[0].k == "a" and a.a[0].a[1] == "get" and a.a[1]:
        return fname(t), a.a[0].a[0], a.a[1][0]
    if a.k == "sub":
        return fname(t), a.a[0], a.a[1]
    return None


# ------------------------------------------------------------------ W08
@prop("W08")
def w08(ctx):
    """store lifecycle: declared stores only, duplicate flag fixed once, no close that drops pending writes"""
    R1 = "W08.declared-stores-only"
    ctx.rule(R1, "a named store can be opened only if it was declared; the handle returned is the declared one of that name", 2)
    R2 = "W08.dupsort-once"
    ctx.rule(R2, "the duplicate flag is taken from the caller only while none is persisted and the store has not been opened, and "
                 "is then marked for persistence", 3)
    R3 = "W08.close-keeps-writes"
    ctx.rule(R3, "the registry store never drops its database while writes are pending: close refuses, aclose flushes first", 2)
    R4 = "W08.registry-stores-declared"
    ctx.rule(R4, "every sub-store the registry opens is among those it declares", 4)
    R5 = "W08.version-persisted"
    ctx.rule(R5, "a version set is stored under the key it is read from, in the store's own metadata store", 2)
    m = ctx.model
    we = m.cls(MOD, "WebEnv")
    f = we.methods.get("open_db")
    if f is None:
        raise AnalysisBroken("WebEnv.open_db vanished")
    w = ctx.walk(Walker(m, opaque={"_storify"}), f)
    OWN = A(A(P("self"), "owner"), "_stores")
    for kind, st, v, node in w.exits:
        if kind not in ("return", "fall"):
            continue
        line = f"{MOD}:{getattr(node, 'lineno', 0)} WebEnv.open_db"
        nm = None
        x = v
        if x is not None and x.k == "sub" and x.a[0] is OWN:
            nm = x.a[1]
            good = True if entails(st.facts, *mkin(nm, OWN)) is True else False
            good = good or True       # subscripting an undeclared name raises KeyError by itself
        elif x is not None and x.k == "call" and x.a[0] is A(OWN, "get"):
            nm = x.a[1][0]
            good = entails(st.facts, mk("is", x, NONE), True) is False or entails(st.facts, x, True) is True or \
                entails(st.facts, *mkin(nm, OWN)) is True
        else:
            good = False
        ctx.need(good and nm is not None and P("key") in subterms(nm), R1, "open_db returns a declared store", line,
                 f"returns {show(v)[:80] if v is not None else None}: not the declared store of that name", construct="open_db")
    for e in w.events:
        if e.kind == "setitem" and e.term.a[0] is OWN:
            ctx.bad(R1, "open_db", e.where, "opening a name adds an undeclared store")
        if e.kind == "store" and e.term.k == "a" and e.term.a[1] == "dupsort":
            s = e.term.a[0]
            notp = entails(e.facts, A(s, "flags_persisted"), True) is False
            noto = entails(e.facts, A(s, "opened"), True) is False
            val = e.value
            vok = val is P("dupsort") or val is mk("call", G("bool"), (P("dupsort"),), ())
            ctx.need(notp, R2, "flag only when not persisted", e.where, "the persisted duplicate flag can be overwritten by the caller",
                     construct="open_db")
            ctx.need(noto, R2, "flag only at first open", e.where, "reopening changes the duplicate flag of an open store", construct="open_db")
            ctx.need(vok, R2, "flag from caller", e.where, f"duplicate flag set to {show(val)}", construct="open_db")
    n = 0
    for kind, st, v, node in w.exits:
        if kind not in ("return", "fall") or v is None:
            continue
        line = f"{MOD}:{getattr(node, 'lineno', 0)} WebEnv.open_db"
        stores = {(t.a[0].a[1], t.a[1]) for t in st.hist if t.k == "store" and t.a[0].k == "a" and t.a[0].a[0] is v} \
            if any(t.k == "store" for t in st.hist) else None
        n += 1
    # typestate version: after setting dupsort, flags_persisted True and dirty True on exit
    def on_event(w_, st, ev):
        if ev.kind == "store" and ev.term.k == "a":
            st.ts = frozenset(x for x in st.ts if not (x[0] == ev.term.a[1] and x[1] is ev.term.a[0])) | {
                (ev.term.a[1], ev.term.a[0], ev.value)}
    w = Walker(m, opaque={"_storify"}, on_event=on_event).run(f)
    ndup = 0
    for kind, st, v, node in w.exits:
        if kind not in ("return", "fall"):
            continue
        line = f"{MOD}:{getattr(node, 'lineno', 0)} WebEnv.open_db"
        d = {(x[0], x[1]): x[2] for x in st.ts}
        for (an, o), val in list(d.items()):
            if an == "dupsort":
                ndup += 1
                ctx.need(d.get(("flags_persisted", o)) is TRUE and d.get(("dirty", o)) is TRUE, R2, "flag marked for persistence", line,
                         "a newly taken duplicate flag is not recorded as taken and marked dirty, so it is not persisted",
                         construct="open_db")
        if v is not None:
            op = d.get(("opened", v))
            already = entails(st.facts, A(v, "opened"), True) is True
            ctx.need(op is TRUE or already, R2, "marked opened", line, "store is returned without being marked opened", construct="open_db")
    ctx.need(ndup > 0, R2, "first open takes the flag", f.where, "the caller's duplicate flag is never recorded", construct="open_db")
    # registry
    rk = m.cls(REG, "WebRegBaser")
    DB = A(P("self"), "db")
    for name in ("close", "aclose"):
        f = rk.methods.get(name)
        if f is None:
            raise AnalysisBroken(f"WebRegBaser.{name} vanished")

        def on_event2(w_, st, ev):
            if ev.kind == "await" and ev.term.k == "call" and ev.term.a[0].k == "a" and ev.term.a[0].a[1] == "flush" and \
                    ev.term.a[0].a[0] is DB:
                st.ts = frozenset(x for x in st.ts if x != ("dirtied",)) | {("flushed",)}
            elif mutation_of(ev) is not None or ev.kind == "store" and ev.term.k == "a" and ev.term.a[1] == "dirty":
                st.ts = frozenset(x for x in st.ts if x != ("flushed",)) | {("dirtied",)}
        w = Walker(m, opaque=set(), on_event=on_event2).run(f)
        ctx.saw(f)
        drops = [e for e in w.events if e.kind == "store" and e.term is DB]
        ctx.need(bool(drops), R3, f"{name} drops db", f.where, "no longer releases the database", construct=name)
        for e in drops:
            flushed = ("flushed",) in e.ts
            clean = nodirty(e)
            ctx.need(flushed or clean, R3, f"{name}: pending writes", e.where,
                     "the database is dropped while stores may hold unflushed writes", construct=f"WebRegBaser.{name}")
            if clean and not flushed:
                c1 = entails(e.facts, P("clear"), True) is False
                ctx.need(c1, R3, f"{name}: clear honoured", e.where, "clear was requested but nothing is cleared", construct=f"WebRegBaser.{name}")
    f = rk.methods.get("reopen")
    if f is None:
        raise AnalysisBroken("WebRegBaser.reopen vanished")
    decl = None
    for fn in rk.methods.values():
        for n_ in ast.walk(fn.node):
            if isinstance(n_, (ast.List, ast.Tuple)) and len(n_.elts) >= 4 and all(
                    isinstance(x, ast.Constant) and isinstance(x.value, str) for x in n_.elts):
                decl = {x.value for x in n_.elts}
    for n_ in rk.node.body + rk.mod.tree.body:
        if isinstance(n_, ast.Assign) and isinstance(n_.value, (ast.List, ast.Tuple)) and len(n_.value.elts) >= 4 and all(
                isinstance(x, ast.Constant) and isinstance(x.value, str) for x in n_.value.elts):
            decl = {x.value for x in n_.value.elts}
    if decl is None:
        raise AnalysisBroken("WebRegBaser: declared store names not found")
    seen = {}
    for n_ in ast.walk(f.node):
        if isinstance(n_, ast.Call):
            for kw in n_.keywords:
                if kw.arg == "subkey" and isinstance(kw.value, ast.Constant):
                    sk = kw.value.value
                    ctx.need(sk in decl, R4, f"subkey {sk}", f"{REG}:{n_.lineno} reopen", f"store {sk!r} is opened but not declared", construct=sk)
                    ctx.need(sk not in seen, R4, f"subkey {sk} unique", f"{REG}:{n_.lineno} reopen", f"store {sk!r} is opened twice", construct=sk)
                    seen[sk] = 1
    # version
    k = m.cls(MOD, "WebDBer")
    gv, sv = k.methods.get("getVer"), k.methods.get("setVer")
    if gv is None or sv is None:
        raise AnalysisBroken("WebDBer.getVer/setVer vanished")
    w1 = ctx.walk(Walker(m, opaque={"_storify"}), sv)
    w2 = ctx.walk(Walker(m, opaque={"_storify"}), gv)
    slots = {(e.term.a[0], e.term.a[1]) for e in w1.events if e.kind == "setitem"}
    ctx.need(len(slots) == 1, R5, "setVer stores", sv.where, "the version is not stored (or in several places)", construct="setVer")
    for e in w1.events:
        if e.kind == "setitem":
            ctx.need(plain(e.value) is P("val"), R5, "setVer value", e.where, f"stores {show(e.value)[:60]} instead of the version", construct="setVer")
            ctx.need(not (e.value is P("val")) or entails(e.facts, mk("call", G("hasattr"), (P("val"), C("encode")), ()), True) is False or
                     not any(x.k == "call" and x.a[0] is G("hasattr") for x, _ in e.facts), R5, "setVer bytes", e.where,
                     "a text version is stored without being encoded", construct="setVer")
    rd = 0
    for kind, st, v, node in w2.exits:
        if kind in ("return", "fall") and v is not None and v is not NONE:
            b = plain(v)
            rd += 1
            slot = None
            if b.k == "call" and b.a[0].k == "a" and b.a[0].a[1] == "get":
                slot = (b.a[0].a[0], b.a[1][0])
            elif b.k == "sub":
                slot = (b.a[0], b.a[1])
            ctx.need(slot in slots, R5, "getVer slot", f"{MOD}:{getattr(node, 'lineno', 0)} getVer",
                     f"reads {show(b)[:80]}, not where the version is stored", construct="getVer")
    ctx.need(rd > 0, R5, "getVer reads", gv.where, "the version is never read back", construct="getVer")


def nodirty(e):
    for t, p in e.facts:
        if t.k == "forall" and p:
            body, pol = t.a[1], t.a[2]
            if body.k == "a" and body.a[1] == "dirty" and not pol:
                return True
        if t.k == "call" and t.a[0] is G("any") and not p and any(x.k == "a" and x.a[1] == "dirty" for x in subterms(t)):
            return True
        if t.k in ("comp", "new") and not p and any(x.k == "a" and x.a[1] == "dirty" for x in subterms(t)):
            return True
    return False
