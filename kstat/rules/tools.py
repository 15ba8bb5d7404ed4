"""The two tools that keep the specification's worked examples in step with the code: drift check and tagger."""
import ast
import re

from . import prop
from ..engine import (A, C, FALSE, G, NONE, P, T, TRUE, Walker, call_parts, entails, iscon, lit, mk, mkeq, mkin, mkis, mklt, show,
                      subterms)
from ..model import AnalysisBroken

CHK = "tools/check_spec_examples.py"
TAG = "tools/tag_spec_examples.py"


def LIT(l, pol=True):
    """literal from either a boolean term or a normalised (atom, polarity)"""
    if isinstance(l, tuple):
        return l[0], l[1] == pol
    return lit(l, pol)


def fname(t):
    if t is None or t.k != "call":
        return None
    f = t.a[0]
    return f.a[1] if f.k == "a" else (f.a[0].split(".")[-1].split(":")[-1] if f.k == "g" else None)


def base_of(t):
    """strip order-only wrappers"""
    while True:
        if t.k == "call" and fname(t) in ("sorted", "list", "tuple", "iter", "reversed", "frozenset", "set") and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.k == "call" and t.a[0].k == "a" and t.a[0].a[1] in ("keys", "items") and not t.a[1]:
            t = t.a[0].a[0]
        else:
            return t


def setop(t):
    """('-'|'&'|'|', X, Y) over the key sets, or None"""
    t = base_of(t)
    if t.k == "bin" and t.a[0] in ("-", "&", "|"):
        return t.a[0], base_of(t.a[1]), base_of(t.a[2])
    if t.k == "call" and t.a[0].k == "a" and len(t.a[1]) == 1:
        op = {"difference": "-", "intersection": "&", "union": "|"}.get(t.a[0].a[1])
        if op:
            return op, base_of(t.a[0].a[0]), base_of(t.a[1][0])
    return None


def comp_filter(w, t):
    """(base, element, lits) of a one-generator comprehension that keeps its element"""
    t = base_of(t)
    if t.k != "comp":
        return None
    got = w.comp_elems.get(t)
    if not got or len(got[1]) != 1:
        return None
    val, gens = got
    return gens[0][0], val, gens[0][1]


def keyset_kind(w, t, E, Aa):
    """which part of keys(E), keys(A) a loop over t ranges over"""
    so = setop(t)
    if so:
        op, x, y = so
        if op == "-":
            return "E-A" if (x, y) == (E, Aa) else "A-E" if (x, y) == (Aa, E) else None
        if op == "&" and {x, y} == {E, Aa}:
            return "E&A"
        if op == "|" and {x, y} == {E, Aa}:
            return "E|A"
        return None
    b = base_of(t)
    if b is E:
        return "E"
    if b is Aa:
        return "A"
    return None


def key_elem(w, t):
    el = w.elem_of(t)
    if el.k == "tup" and len(el.a[0]) == 2:
        return el.a[0][0]
    return el


def loops(w):
    """iteration sites: term -> (bodyend events, break/exit-inside events)"""
    out = {}
    for e in w.events:
        if e.kind == "iter":
            out.setdefault(e.term, ([], []))
        elif e.kind == "bodyend" and e.term in out:
            out[e.term][0].append(e)
        elif e.kind == "break" and e.term in out:
            out[e.term][1].append(e)
    return out


def value_of(t, d):
    """t is element of mapping d under some key: returns the key"""
    if t.k == "sub" and t.a[0] is d:
        return t.a[1]
    if t.k == "call" and t.a[0].k == "a" and t.a[0].a[1] in ("get", "__getitem__") and t.a[0].a[0] is d and t.a[1]:
        return t.a[1][0]
    return None


def bound(t, name, names):
    """arguments of a call to `name` as dict, or None"""
    if fname(t) != name:
        return None
    p = call_parts(t)
    d = dict(zip(names, p[1]))
    d.update(p[2])
    return d


@prop("T01")
def t01(ctx):
    """the drift check says 'in sync' only when it is"""
    m = ctx.model
    R1 = "T01.value-diff-complete"
    ctx.rule(R1, "two values are reported equal only if their types agree and they are equal: dictionaries compared key by key in "
                 "both directions, lists by length and element by element, everything else by equality", 6)
    R2 = "T01.compare-both-sides"
    ctx.rule(R2, "the verdict is 'ok' only when no block is missing, none is extra and no block differs, each compared as a whole", 3)
    R3 = "T01.blocks-all-accounted"
    ctx.rule(R3, "every tagged block found is either recorded under its name or reported as an error, and never replaces an earlier "
                 "one", 3)
    R4 = "T01.exit-code"
    ctx.rule(R4, "exit code 0 only when the comparison is ok and no block failed to parse; unreadable input exits non-zero", 2)
    R5 = "T01.block-pattern"
    ctx.rule(R5, "the block pattern finds json and python fences behind a marker, whatever the case and blank lines, and each body "
                 "ends at its own closing fence", 8)

    # ---- R1
    f = m.func(CHK, "_diff_paths")
    w = ctx.walk(Walker(m), f)
    E, Aa = P("expected"), P("actual")
    lp = loops(w)
    YIELD = lambda h: h.k == "yield"
    cover = {}          # kind -> loop term that covers it

    def rec(h, key=None):
        """yield from self on the pair at the same key"""
        if h.k == "looped" and h.a[0] in lp:
            ends, brks = lp[h.a[0]]
            el = w.elem_of(h.a[0])
            if brks or not ends or not all(any(x.k == "yield" and x.a[0] is el for x in e.hist) for e in ends):
                return False
        elif h.k != "yield":
            return False
        for u in (h.a if h.k == "yield" else h.a[:1]):
            for c in ([u] + list(subterms(u)) if isinstance(u, T) else []):
                b = bound(c, "_diff_paths", ("expected", "actual", "path"))
                if b and "expected" in b and "actual" in b:
                    ke, ka = value_of(b["expected"], E), value_of(b["actual"], Aa)
                    if ke is not None and ke is ka:
                        return True
                    # zip / enumerate(zip) of both
                    if b["expected"].k == "sub" or b["actual"].k in ("sub", "each", "elem"):
                        pe, pa = b["expected"], b["actual"]
                        if pe.k == pa.k == "sub" and pe.a[0] is pa.a[0] and iscon(pe.a[1]) and iscon(pa.a[1]) and \
                                (pe.a[1].a[0], pa.a[1].a[0]) == (0, 1) and zipped(pe.a[0]):
                            return True
                    if zip_elem(b["expected"], E) and zip_elem(b["actual"], Aa):
                        return True
        return False

    def zipped(t):
        return any(fname(x) == "zip" and tuple(x.a[1]) == (E, Aa) for x in subterms(t))

    def zip_elem(t, d):
        return t.k in ("each", "elem") and t.a[0] is d

    for it, (ends, brks) in lp.items():
        kd = keyset_kind(w, it, E, Aa)
        k = key_elem(w, it)
        if brks or not ends:
            continue
        for part in ("E-A", "A-E", "E&A"):
            if kd is None:
                continue
            inside = {"E-A": ("E-A", "E", "E|A"), "A-E": ("A-E", "A", "E|A"), "E&A": ("E&A", "E", "A", "E|A")}[part]
            if kd not in inside:
                continue
            good = True
            for e in ends:
                ine, ina = entails(e.facts, *mkin(k, E)), entails(e.facts, *mkin(k, Aa))
                if kd in ("E", "E&A", "E-A"):
                    ine = True
                if kd in ("A", "E&A", "A-E"):
                    ina = True
                if kd == "E-A":
                    ina = False
                if kd == "A-E":
                    ine = False
                here = {"E-A": ine is not False and ina is not True, "A-E": ina is not False and ine is not True,
                        "E&A": ine is not False and ina is not False}[part]
                if not here:
                    continue
                if part == "E&A":
                    good &= any(rec(h) for h in e.hist)
                else:
                    good &= any(YIELD(h) and k in subterms(h.a[0]) for h in e.hist)
            if good:
                cover.setdefault(part, []).append(it)
        if kd is None and fname(it) != "_diff_paths" and all(any(rec(h) for h in e.hist) for e in ends):
            cover.setdefault("list", []).append(it)
    isd, isl = call_isinstance(E, "dict"), call_isinstance(E, "list")
    isda, isla = call_isinstance(Aa, "dict"), call_isinstance(Aa, "list")
    nexit = 0
    for kind, st, v, node in w.exits:
        if kind not in ("return", "fall"):
            continue
        nexit += 1
        where = f"{CHK}:{getattr(node, 'lineno', 0)} _diff_paths"
        ent = lambda t, p=True: entails(st.facts, *LIT(t, p))
        yields = any(YIELD(h) for h in st.hist)
        dict_ = ent(isd) is True or ent(isda) is True
        list_ = ent(isl) is True or ent(isla) is True
        done = {h.a[0] for h in st.hist if h.k == "looped"}
        if dict_:
            for part, what in (("E-A", "keys missing from the specification"), ("A-E", "keys unexpected in the specification"),
                               ("E&A", "values under common keys")):
                ctx.need(any(it in done for it in cover.get(part, ())), R1, f"dict {part}", where,
                         f"two dictionaries can compare equal without reporting {what}", construct=f"_diff_paths|{part}")
            ctx.need(same_type(ent, E, Aa, "dict"), R1, "dict: both dictionaries", where,
                     "dictionary comparison reached when the other value may not be a dictionary", construct="_diff_paths|types")
        elif list_:
            same_len = ent(mkeq(mk("call", G("len"), (E,), ()), mk("call", G("len"), (Aa,), ())))
            ctx.need(same_len is True or yields, R1, "list length", where,
                     "lists of different length can compare equal", construct="_diff_paths|list length")
            ctx.need(any(it in done for it in cover.get("list", ())), R1, "list elements", where,
                     "list elements are not all compared", construct="_diff_paths|list elements")
        elif yields:
            ctx.ok(R1, "reported")
        else:
            ctx.need(ent(mkeq(E, Aa)) is True, R1, "scalar", where,
                     "values can be passed over without being equal and without a report", construct="_diff_paths|scalar")
    # nothing equal is reported
    num = mk("tup", (G("int"), G("float")))
    isn = [call_isinstance2(x, num) for x in (E, Aa)] + [call_isinstance2(x, mk("tup", (G("float"), G("int")))) for x in (E, Aa)]
    for e in w.events:
        if e.kind != "yield" or rec(mk("yield", e.term, e.value if e.value is not None else NONE)):
            continue
        le, la = mk("call", G("len"), (E,), ()), mk("call", G("len"), (Aa,), ())
        differs = entails(e.facts, *mkeq(E, Aa)) is False or entails(e.facts, *mkeq(le, la)) is False
        ta, tb = mk("call", G("type"), (E,), ()), mk("call", G("type"), (Aa,), ())
        tdiff = entails(e.facts, *mkis(ta, tb)) is False or entails(e.facts, *mkeq(ta, tb)) is False
        differs = differs or tdiff and any(entails(e.facts, x) is False for x in isn)
        for it in lp:
            k = key_elem(w, it)
            if k in subterms(e.term) and (keyset_kind(w, it, E, Aa) in ("E-A", "A-E") or
                                          entails(e.facts, *mkin(k, E)) is False or entails(e.facts, *mkin(k, Aa)) is False):
                differs = True
        ctx.need(differs, R1, "only differences", e.where, "a difference can be reported for equal values",
                 construct="_diff_paths|false difference")
    # loops over list positions must range over the shorter length (or zip)
    for it in cover.get("list", ()):
        b = base_of(it)
        okr = zipped(b)
        for x in subterms(b):
            if fname(x) == "range":
                stop = x.a[1][-1] if len(x.a[1]) <= 2 else None
                start = x.a[1][0] if len(x.a[1]) == 2 else C(0)
                le, la = mk("call", G("len"), (E,), ()), mk("call", G("len"), (Aa,), ())
                okr |= start is C(0) and stop is not None and (stop in (le, la) or fname(stop) == "min" and set(stop.a[1]) == {le, la})
        ctx.need(okr, R1, "list range", f.where, f"list elements are compared over {show(b)[:80]}, not over every common position",
                 construct="_diff_paths|list elements")
    if not nexit:
        raise AnalysisBroken("_diff_paths has no normal exit")

    # ---- R2
    f = m.func(CHK, "compare")
    w = ctx.walk(Walker(m, opaque={"_diff_paths"}), f)
    M, S = P(f.params[0]), P(f.params[1])
    lp = loops(w)
    for kind, st, v, node in w.exits:
        if kind not in ("return", "fall"):
            continue
        where = f"{CHK}:{getattr(node, 'lineno', 0)} compare"
        if v is None or v.k != "tup" or len(v.a[0]) != 2:
            ctx.bad(R2, "compare", where, f"returns {show(v)[:60] if v is not None else None}, not (ok, report)")
            continue
        okt = v.a[0][0]
        if okt is FALSE:
            ctx.ok(R2, "not ok")
            continue
        st2 = st.assume(lit(okt, True)) if okt is not TRUE else st
        if st2 is None:
            continue
        falsy = {t for t, p in st2.facts if not p} | {x for t, p in st2.facts for x in [len_zero(t, p)] if x is not None}
        marks = falsy
        for part, what in (("E-A", "a manifest block missing from the specification"), ("A-E", "an extra block in the specification")):
            direct = any(keyset_kind(w, t, M, S) == part or filt_kind(w, t, M, S) == part for t in falsy) or \
                any(same_keys(t, p, M, S) for t, p in st2.facts)
            if not direct:
                for it, (ends, brks) in lp.items():
                    kd = keyset_kind(w, it, M, S)
                    if kd in ({"E-A": ("E-A", "E", "E|A"), "A-E": ("A-E", "A", "E|A")}[part]) and not brks and ends:
                        k = key_elem(w, it)
                        rel = [e for e in ends if not (kd in ("E", "E|A") and part == "E-A" and entails(e.facts, *mkin(k, S)) is True or
                                                       kd in ("A", "E|A") and part == "A-E" and entails(e.facts, *mkin(k, M)) is True)]
                        if rel and all(marks_any(e.hist, e, marks, w) for e in rel):
                            direct = True
            ctx.need(direct, R2, part, where, f"the verdict can be ok with {what}", construct=f"compare|{part}")
        got = False
        for it, (ends, brks) in lp.items():
            kd = keyset_kind(w, it, M, S)
            if kd not in ("E&A", "E", "A", "E|A") or brks or not ends:
                continue
            k = key_elem(w, it)
            good = True
            for e in ends:
                if kd != "E&A" and (entails(e.facts, *mkin(k, S)) is False or entails(e.facts, *mkin(k, M)) is False):
                    continue
                nodiff = any(not p and is_diff(t, M, S, k) for t, p in e.facts) or \
                    entails(e.facts, *mkeq(mk("sub", M, k), mk("sub", S, k))) is True
                if nodiff:
                    continue
                good &= marks_any(e.hist, e, marks, w) and not any(False for _ in ())
            anyd = any(any(is_diff(t, M, S, k) for t, p in e.facts) or
                       entails(e.facts, *mkeq(mk("sub", M, k), mk("sub", S, k))) is not None for e in ends)
            got |= good and anyd
        # generator / comprehension style: ok requires an empty collection of differing names
        for t in falsy:
            cf = comp_filter(w, t)
            if cf and keyset_kind(w, cf[0], M, S) in ("E&A",) and any(p and any(is_diff(x, M, S, None) for x in subterms(tt))
                                                                      for tt, p in cf[2]):
                got = True
        ctx.need(got, R2, "mismatch", where, "the verdict can be ok while a block present on both sides differs",
                 construct="compare|mismatch")

    # every cause is named in the report
    reps = {v.a[0][1] for kind, st, v, node in w.exits if kind in ("return", "fall") and v is not None and v.k == "tup" and len(v.a[0]) == 2}
    for part, what in (("E-A", "missing"), ("A-E", "extra"), ("E&A", "differing")):
        good = False
        for it, (ends, brks) in lp.items():
            kd = keyset_kind(w, it, M, S) or filt_kind(w, it, M, S)
            if kd not in {"E-A": ("E-A", "E", "E|A"), "A-E": ("A-E", "A", "E|A"), "E&A": ("E&A", "E", "A", "E|A")}[part] or brks or not ends:
                continue
            k = key_elem(w, it)
            rel = []
            for e in ends:
                ine = True if kd in ("E-A", "E&A", "E") else False if kd == "A-E" else entails(e.facts, *mkin(k, M))
                ina = True if kd in ("A-E", "E&A", "A") else False if kd == "E-A" else entails(e.facts, *mkin(k, S))
                if part == "E-A" and (ine is False or ina is True) or part == "A-E" and (ina is False or ine is True):
                    continue
                if part == "E&A" and (ine is False or ina is False or any(not p and is_diff(t, M, S, k) for t, p in e.facts) or
                                      entails(e.facts, *mkeq(mk("sub", M, k), mk("sub", S, k))) is True):
                    continue
                rel.append(e)
            if rel and all(any(h.k == "call" and h.a[0].k == "a" and h.a[0].a[1] in ("append", "extend", "insert") and
                               (h.a[0].a[0] in reps or any(same_var(h.a[0].a[0], r) for r in reps) or h.a[0].a[0].k == "phi") and
                               h.a[1] and k in subterms(h.a[1][-1]) for h in e.hist) for e in rel):
                good = True
        for r in reps:      # report extended by a comprehension over the names
            pass
        for e in w.events:
            if e.kind == "call" and e.term.a[0].k == "a" and e.term.a[0].a[1] == "extend" and e.term.a[0].a[0] in reps and e.term.a[1]:
                for c in subterms(e.term.a[1][0]):
                    cf = w.comp_elems.get(c) if c.k == "comp" else None
                    if cf and len(cf[1]) == 1 and not cf[1][0][1] and (keyset_kind(w, cf[1][0][0], M, S) or
                                                                    filt_kind(w, cf[1][0][0], M, S)) == part:
                        good = True
        ctx.need(good, R2, f"report {part}", f.where, f"a {what} block is not named in the report", construct=f"compare|report {part}")

    # ---- R3
    f = m.func(CHK, "parse_spec_blocks")
    w = ctx.walk(Walker(m, opaque={"_load_block_body"}), f)
    res = errs = None
    for kind, st, v, node in w.exits:
        if kind in ("return", "fall") and v is not None and v.k == "tup" and len(v.a[0]) == 2:
            res, errs = v.a[0]
    if res is None:
        raise AnalysisBroken("parse_spec_blocks no longer returns (blocks, errors)")
    lp = [(it, x) for it, x in loops(w).items() if any(fname(s) in ("finditer", "findall") for s in subterms(it))]
    ctx.need(len(lp) == 1, R3, "scan", f.where, "tagged blocks are not found by one scan of the whole text", construct="parse_spec_blocks")
    for it, (ends, brks) in lp:
        src = [s for s in subterms(it) if fname(s) in ("finditer", "findall")][0]
        pt = call_parts(src)
        ctx.need(P(f.params[0]) in list(pt[1]) + list(pt[2].values()) and len(pt[1]) + len(pt[2]) <= 2, R3, "whole text", f.where,
                 "the scan does not cover the whole text", construct="parse_spec_blocks|scan")
        ctx.need(not brks, R3, "no early stop", f.where, "the scan can stop before the last block", construct="parse_spec_blocks|scan")
        el = w.elem_of(it)
        for e in ends:
            stored = [h for h in e.hist if h.k == "setitem" and h.a[0].a[0] is res]
            errd = any(h.k == "call" and h.a[0].k == "a" and h.a[0].a[0] is errs and h.a[0].a[1] in ("append", "extend", "insert")
                       for h in e.hist)
            errd = errd or any(h.k == "call" and h.a[0].k == "a" and h.a[0].a[1] == "append" and "errors" in show(h.a[0].a[0])
                               and h.a[0].a[0] is not res for h in e.hist if h.a[0].k == "a" and h.a[0].a[0].k == "phi")
            ctx.need(bool(stored) or errd, R3, "accounted", e.where, "a tagged block is neither recorded nor reported",
                     construct="parse_spec_blocks|dropped")
        for e in w.events:
            if e.kind == "setitem" and e.term.k == "sub" and e.term.a[0] is res:
                key = e.term.a[1]
                ctx.need(entails(e.facts, *LIT(mkin(key, res), False)) is True, R3, "no replace", e.where,
                         "a block name seen before is overwritten instead of being reported as a duplicate",
                         construct="parse_spec_blocks|duplicate")
                ctx.need(group_of(strip_calls(key), el) == "name", R3, "named", e.where,
                         f"a block is recorded under {show(key)[:60]}, not under the marker's name", construct="parse_spec_blocks|name")
                b = bound(e.value, "_load_block_body", ("lang", "body"))
                ctx.need(b is not None and group_of(b.get("lang"), el) == "lang" and group_of(b.get("body"), el) == "body", R3, "value",
                         e.where, f"a block's value is {show(e.value)[:80]}, not its parsed body", construct="parse_spec_blocks|value")
    # body parser: json fences by the JSON parser, python fences by literal evaluation; failures become ValueError
    f = m.func(CHK, "_load_block_body")
    w = ctx.walk(Walker(m), f)
    for kind, st, v, node in w.exits:
        if kind not in ("return", "fall"):
            continue
        where = f"{CHK}:{getattr(node, 'lineno', 0)} _load_block_body"
        n = fname(v)
        body = v is not None and v.k == "call" and P("body") in (list(v.a[1]) + [x for _, x in v.a[2]])
        ctx.need(n in ("loads", "literal_eval") and body, R3, "parser", where,
                 f"a block body is read as {show(v)[:60] if v is not None else None}", construct="_load_block_body|parser")
        low = mk("call", A(P("lang"), "lower"), (), ())
        if n == "loads":
            ctx.need(any(entails(st.facts, *LIT(mkeq(low, C("json")))) is True for _ in (0,)) or
                     entails(st.facts, *LIT(mkeq(low, C("python")), False)) is True, R3, "json fence", where,
                     "a body is parsed as JSON though its fence may be another language", construct="_load_block_body|lang")
        if n == "literal_eval":
            ctx.need(entails(st.facts, *LIT(mkeq(low, C("json")), False)) is True or
                     entails(st.facts, *LIT(mkeq(low, C("python")))) is True, R3, "python fence", where,
                     "a json fence is parsed as a Python literal", construct="_load_block_body|lang")

    # ---- R4
    f = m.func(CHK, "main")
    w = ctx.walk(Walker(m, opaque={"parse_spec_blocks", "compare", "_diff_paths"}), f)
    seen0 = False
    for kind, st, v, node in w.exits:
        if kind not in ("return", "fall"):
            continue
        where = f"{CHK}:{getattr(node, 'lineno', 0)} main"
        vals = [(v, st)]
        if v is not None and not iscon(v):
            t_, f_ = st.assume(lit(v, True)), st.assume(lit(v, False))
            vals = [(C(0), f_)] if f_ is not None else []
        for vv, s2 in vals:
            if vv is not None and vv is not NONE and vv.a[0] not in (0, False):
                ctx.ok(R4, "non-zero")
                continue
            seen0 = True
            cm = [x for t, p in s2.facts if p for x in [t] if t.k == "sub" and t.a[1] is C(0) and fname(t.a[0]) == "compare"]
            pe = [t for t, p in s2.facts if not p and t.k == "sub" and t.a[1] is C(1) and fname(t.a[0]) == "parse_spec_blocks"]
            ctx.need(bool(cm), R4, "ok", where, "exits 0 without a passing comparison", construct="main|comparison")
            ctx.need(bool(pe), R4, "no parse errors", where, "exits 0 although a tagged block failed to parse",
                     construct="main|parse errors")
            for t in cm:
                b = bound(t.a[0], "compare", ("manifest", "spec_blocks"))
                mt, sb = b.get("manifest"), b.get("spec_blocks")
                ctx.need(entails(s2.facts, *lit(call_isinstance(mt, "dict"))) is True if mt is not None else False, R4, "manifest kind",
                         where, "exits 0 though the manifest may not be an object of named blocks", construct="main|manifest kind")
                ctx.need(fname(mt) == "load" and sb is not None and sb.k == "sub" and sb.a[1] is C(0) and
                         fname(sb.a[0]) == "parse_spec_blocks", R4, "compared inputs", where,
                         f"compares {show(mt)[:40]} with {show(sb)[:40]}, not the manifest with the specification's blocks",
                         construct="main|inputs")
    ctx.need(seen0, R4, "can pass", f.where, "never exits 0", construct="main|exit")
    # the exit code of main is the exit code of the program
    tree = m.mod(CHK).tree
    good = False
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            nm = ast.unparse(n.func)
            if nm in ("sys.exit", "exit", "SystemExit") and n.args and any(isinstance(x, ast.Call) and ast.unparse(x.func) == "main"
                                                                         for x in ast.walk(n.args[0])):
                good = True
    if not good:        # via a variable
        names = {t.id for n in ast.walk(tree) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call)
                 and ast.unparse(n.value.func) == "main" for t in n.targets if isinstance(t, ast.Name)}
        good = any(isinstance(n, ast.Call) and ast.unparse(n.func) in ("sys.exit", "exit", "SystemExit") and n.args
                   and isinstance(n.args[0], ast.Name) and n.args[0].id in names for n in ast.walk(tree))
    ctx.need(good, R4, "process exit", f"{CHK} module", "the process does not exit with main's result", construct="module|exit")

    # ---- R5: the constant pattern, folded over the forms a marker and fence can take
    pat = const_regex(m.mod(CHK), "_BLOCK_RE", "parse_spec_blocks")
    body = '{"a": 1}'
    cases = []
    for lang in ("json", "python", "JSON", "Python"):
        for gap in ("\n", "\n\n", "  \n \n", "\r\n"):
            cases.append((f"<!-- example: blk -->{gap}```{lang}\n{body}\n```\n", [("blk", lang, body)]))
    cases += [(f"<!--example:blk-->\n```json\n{body}\n```", [("blk", "json", body)]),
              (f"<!--  EXAMPLE:   blk   -->\n``` json \n{body}\n  ```", [("blk", "json", body)]),
              (f"<!-- example: a -->\n```json\n1\n```\nx\n<!-- example: b -->\n```json\n2\n```\n", [("a", "json", "1"), ("b", "json", "2")]),
              (f"<!-- example: a b-c_1 -->\r\n```json\r\n1\r\n```", [("a b-c_1", "json", "1")]),
              ("<!-- example: a -->\n```json\n1\n2\n\n3\n```", [("a", "json", "1\n2\n\n3")]),
              ("<!-- example: a -->\ntext\n```json\n1\n```", []),
              ("<!-- example: a -->\n```yaml\n1\n```", []),
              ("```json\n1\n```", [])]
    for txt, want in cases:
        got = [(x.group("name").strip(), x.group("lang"), x.group("body").rstrip("\r")) for x in pat.finditer(txt)]
        ctx.need(got == want, R5, f"form {txt[:30]!r}", f"{CHK} _BLOCK_RE", f"pattern reads {txt!r} as {got}, expected {want}",
                 construct="_BLOCK_RE|form")


def call_isinstance(t, ty):
    return mk("call", G("isinstance"), (t, G(ty)), ())


def call_isinstance2(t, tys):
    return mk("call", G("isinstance"), (t, tys), ())


def same_type(ent, E, Aa, ty):
    ta, tb = mk("call", G("type"), (E,), ()), mk("call", G("type"), (Aa,), ())
    if ent(mkis(ta, tb)) is True or ent(mkeq(ta, tb)) is True:
        return True
    if ent(call_isinstance(E, ty)) is True and ent(call_isinstance(Aa, ty)) is True:
        return True
    # both numeric and a dict at once cannot be
    num = [x for x in ("int", "float")]
    for t in (E, Aa):
        if ent(mk("call", G("isinstance"), (t, mk("tup", (G("int"), G("float")))), ())) is True:
            return True
        if any(ent(call_isinstance(t, x)) is True for x in num):
            return True
    return False


def len_zero(t, p):
    if t.k == "call":
        return None
    for x in subterms(t):
        if x.k == "call" and x.a[0] is G("len") and len(x.a[1]) == 1:
            if (t, p) == mkeq(x, C(0)):
                return x.a[1][0]
    return None


def filt_kind(w, t, M, S):
    cf = comp_filter(w, t)
    if not cf:
        return None
    base, val, lits = cf
    kd = keyset_kind(w, base, M, S)
    k = val
    if kd == "E" and len(lits) == 1 and lits[0] == LIT(mkin(k, S), False):
        return "E-A"
    if kd == "A" and len(lits) == 1 and lits[0] == LIT(mkin(k, M), False):
        return "A-E"
    return None


def same_keys(t, p, M, S):
    if not p or t.k != "cmp":
        return False
    a = [base_of(x) for x in t.a[1:] if isinstance(x, T)]
    return t.a[0] == "==" and set(a) == {M, S}


def is_diff(t, M, S, k):
    for x in subterms(t):
        b = bound(x, "_diff_paths", ("expected", "actual", "path"))
        if b and "expected" in b and "actual" in b:
            ke, ka = value_of(b["expected"], M), value_of(b["actual"], S)
            if ke is not None and ke is ka and (k is None or ke is k):
                # nothing in between may drop differences
                y = t
                while y is not x:
                    if y.k == "call" and fname(y) in ("list", "tuple", "any", "bool", "sorted", "len") and len(y.a[1]) == 1:
                        y = y.a[1][0]
                    else:
                        return False
                return True
    return False


def marks_any(hist, e, marks, w):
    """the iteration made one of the falsy-when-ok values truthy"""
    for h in hist:
        if h.k == "aug":
            nv = h.a[1]
            if any(same_var(mk_, h.a[0]) for mk_ in marks):
                return True
        if h.k == "call" and h.a[0].k == "a" and h.a[0].a[1] in ("append", "add", "extend", "insert"):
            if any(mk_ is h.a[0].a[0] or same_var(mk_, h.a[0].a[0]) for mk_ in marks):
                return True
    # flag or counter variables made truthy
    for mk_ in marks:
        if mk_.k == "phi":
            v = e.st.env.get(mk_.a[1])
            if v is not None and iscon(v) and v.a[0]:
                return True
            if v is not None and v.k == "lin" and v.a[1] > 0 and same_var(v.a[0], mk_):
                return True
    # negative flag: `ok` itself is required truthy, body sets it False
    for t, p in ():
        pass
    return False


def same_var(a, b):
    return a.k == "phi" and b.k == "phi" and a.a[1] == b.a[1]


def group_of(t, el):
    if t is None:
        return None
    if t.k == "call" and t.a[0].k == "a" and t.a[0].a[1] == "group" and t.a[0].a[0] is el and len(t.a[1]) == 1 and iscon(t.a[1][0]):
        return t.a[1][0].a[0]
    if t.k == "sub" and t.a[0] is el and iscon(t.a[1]):
        return t.a[1].a[0]
    return None


def strip_calls(t):
    while t.k == "call" and t.a[0].k == "a" and t.a[0].a[1] in ("strip", "rstrip", "lstrip") and not t.a[1]:
        t = t.a[0].a[0]
    return t


def const_regex(mod, name, used_in=None):
    """re.compile(...) assigned to `name`, folded from constant arguments"""
    env = {}
    for n in mod.tree.body:
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    env[t.id] = n.value

    def fold(x, depth=0):
        if depth > 20:
            raise AnalysisBroken(f"{name} is no longer a constant pattern")
        if isinstance(x, ast.Constant):
            return x.value
        if isinstance(x, ast.Name) and x.id in env:
            return fold(env[x.id], depth + 1)
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "re" and hasattr(re, x.attr):
            return getattr(re, x.attr)
        if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.BitOr)):
            a, b = fold(x.left, depth + 1), fold(x.right, depth + 1)
            return a + b if isinstance(x.op, ast.Add) else a | b
        if isinstance(x, ast.JoinedStr):
            return "".join(str(fold(v.value if isinstance(v, ast.FormattedValue) else v, depth + 1)) for v in x.values)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "join" and len(x.args) == 1 and \
                isinstance(x.args[0], (ast.List, ast.Tuple)):
            return fold(x.func.value, depth + 1).join(fold(v, depth + 1) for v in x.args[0].elts)
        raise AnalysisBroken(f"{name} is no longer a constant pattern")
    v = env.get(name)
    if isinstance(v, ast.Call) and ast.unparse(v.func) in ("re.compile", "compile"):
        kw = {k.arg: k.value for k in v.keywords}
        pat = fold(v.args[0] if v.args else kw["pattern"])
        fx = v.args[1] if len(v.args) > 1 else kw.get("flags")
        return re.compile(pat, fold(fx) if fx is not None else 0)
    raise AnalysisBroken(f"pattern {name} not found in {mod.rel}")


@prop("T02")
def t02(ctx):
    """the tagger only ever inserts the right markers"""
    m = ctx.model
    R1 = "T02.marker-guarded"
    ctx.rule(R1, "a marker is planned only for a fence whose parsed dictionary equals exactly one manifest block, that carries no marker "
                 "yet, and whose block was not tagged before", 5)
    R2 = "T02.only-inserts"
    ctx.rule(R2, "the text changes only by whole marker lines inserted directly above their fence, applied bottom-up so no planned "
                 "position moves", 4)
    R3 = "T02.dry-run"
    ctx.rule(R3, "nothing is written in a dry run or when there is nothing to tag, and what is written is the tagged text, to the "
                 "specification file", 2)
    R4 = "T02.fences"
    ctx.rule(R4, "fences are scanned in order from the first line to the last, each body being the lines between an opening fence and "
                 "the next closing fence", 4)
    R5 = "T02.marker-recognised"
    ctx.rule(R5, "an existing marker above a fence, with any blank lines between, is recognised, and the marker inserted is one that is "
                 "recognised", 4)
    f = m.func(TAG, "tag")
    w = ctx.walk(Walker(m, opaque={"find_blocks", "already_tagged", "_parse_body"}), f)
    MAN, TEXT = P(f.params[0]), P(f.params[1])
    split = mk("call", A(TEXT, "split"), (C("\n"),), ())
    outs = [(st, v, node) for kind, st, v, node in w.exits if kind in ("return", "fall")]
    lists = {split}
    ins = [e for e in w.events if e.kind == "call" and e.term.a[0].k == "a" and e.term.a[0].a[0] in lists
           and e.term.a[0].a[1] not in ("copy", "index", "count")]
    plan = None
    for e in ins:
        meth = e.term.a[0].a[1]
        if not ctx.need(meth == "insert" and len(e.term.a[1]) == 2, R2, "insert only", e.where,
                        f"the specification's lines are changed by {meth}", construct="tag|mutation"):
            continue
        at, txt = e.term.a[1]
        # innermost enclosing loop, and the order it runs in
        src = enclosing(w, e)
        ok_desc = False
        if src is not None:
            plan, order = order_of(w, src)
            ok_desc = order == "desc"
        ctx.need(ok_desc, R2, "bottom-up", e.where, "markers are inserted at planned positions without working bottom-up: earlier "
                 "insertions shift the later ones", construct="tag|order")
        fs = txt
        ctx.need(marker_text(fs), R2, "marker line", e.where, f"inserts {show(fs)[:80]}, not a marker line", construct="tag|marker")
        if plan is not None and plan.k == "new":
            el = w.elem_of(src)
            want = [x for x in w.events if x.kind == "call" and x.term.a[0].k == "a" and x.term.a[0].a[0] is plan
                    and x.term.a[0].a[1] == "append"]
            for x in want:
                tup = x.term.a[1][0]
                ctx.need(tup.k == "tup" and len(tup.a[0]) == 2, R2, "planned pair", x.where, "plans something other than (line, name)",
                         construct="tag|plan")
    ctx.need(bool(ins), R2, "inserts", f.where, "planned markers are never inserted", construct="tag|none")
    for st, v, node in outs:
        where = f"{TAG}:{getattr(node, 'lineno', 0)} tag"
        body = v.a[0][0] if v is not None and v.k == "tup" and v.a[0] else None
        okb = body is TEXT or body is not None and body.k == "call" and body.a[0].k == "a" and body.a[0].a[1] == "join" and \
            body.a[0].a[0] is C("\n") and len(body.a[1]) == 1 and body.a[1][0] in lists
        ctx.need(okb, R2, "text returned", where, f"returns {show(body)[:80] if body is not None else None}, not the tagged lines",
                 construct="tag|result")
    # planned inserts: guards
    apps = [e for e in w.events if e.kind == "call" and e.term.a[0].k == "a" and plan is not None and e.term.a[0].a[0] is plan
            and e.term.a[0].a[1] in ("append", "insert", "add")]
    ctx.need(bool(apps), R1, "plan", f.where, "no marker is ever planned", construct="tag|plan")
    usedsets = set()
    for e in apps:
        tup = e.term.a[1][-1]
        if tup.k != "tup" or len(tup.a[0]) != 2:
            continue
        at, name = tup.a[0]
        blk = at.a[0] if at.k == "sub" and at.a[1] is C(0) else None
        okp = blk is not None and any(fname(y) == "find_blocks" for y in subterms(blk))
        ctx.need(okp, R1, "fence line", e.where, f"plans a marker at {show(at)[:60]}, not at the fence's opening line",
                 construct="tag|position")
        if not okp:
            continue
        vals = [x for t, p in e.facts for x in subterms(t) if fname(x) == "_parse_body"]
        vals += [x for x in subterms(name) if fname(x) == "_parse_body"]
        vals = list(dict.fromkeys(vals))
        good = [x for x in vals if (lambda b: b.get("lang") is mk("sub", blk, C(2)) and b.get("body") is mk("sub", blk, C(3)))(
            bound(x, "_parse_body", ("lang", "body")))]
        ctx.need(bool(good), R1, "parsed value", e.where, "the fence's own body is not what is matched", construct="tag|value")
        if not good:
            continue
        val = good[0]
        isd = e.holds(call_isinstance(val, "dict"))
        # matches: comprehension over manifest entries with val == value
        mts = [t for t in subterms(name) if t.k == "comp"] + [t for f_, p in e.facts for t in subterms(f_) if t.k == "comp"]
        okm = False
        for c in dict.fromkeys(mts):
            got = w.comp_elems.get(c)
            if not got or len(got[1]) != 1:
                continue
            elem, gens = got
            lits = gens[0][1]
            eqs = [t for t, p in lits if any(mkeq(val, s) == (t, p) for s in subterms(t))]
            ln = mk("call", G("len"), (c,), ())
            one = entails(e.facts, *LIT(mkeq(ln, C(1)))) is True or \
                ((e.holds(c) or entails(e.facts, *LIT(mklt(C(0), ln))) is True) and entails(e.facts, *LIT(mklt(C(1), ln), False)) is True)
            if eqs:
                ctx.need(one, R1, "exactly one match", e.where, "a marker can be planned when several (or no) manifest blocks match",
                         construct="tag|ambiguous")
                dsrc = gens[0][0]
                isd = isd or any(p and any(x is call_isinstance(y, "dict") for x in [t] for y in subterms(t)) for t, p in lits)
                ctx.need(name is mk("sub", c, C(0)) or name.k in ("elem", "each") and name.a[0] is c or
                         name is mk("sub", c, C(-1)), R1, "matching name", e.where,
                         f"the marker names {show(name)[:60]}, not the matching block", construct="tag|name")
                # every manifest block (dictionary) is a candidate
                root = dsrc
                cf = w.comp_elems.get(dsrc)
                extra = False
                while cf and len(cf[1]) == 1:
                    root = cf[1][0][0]
                    for t, p in cf[1][0][1]:
                        extra |= not (p and t.k == "call" and t.a[0] is G("isinstance"))
                    cf = w.comp_elems.get(root)
                ctx.need(base_of(root) is MAN and not extra, R1, "all candidates", e.where,
                         "matches are not looked for among all manifest blocks", construct="tag|candidates")
                okm = True
                break
        if not okm:
            # loop-built matches: list appended under an equality
            ls = [t for t in subterms(name) if t.k == "new"]
            for l in ls:
                ap = [x for x in w.events if x.kind == "call" and x.term.a[0].k == "a" and x.term.a[0].a[0] is l
                      and x.term.a[0].a[1] == "append"]
                if ap and all(any(any(mkeq(val, s) == (t, p) for s in subterms(t)) for t, p in x.facts) for x in ap):
                    ln = mk("call", G("len"), (l,), ())
                    one = entails(e.facts, *LIT(mkeq(ln, C(1)))) is True or \
                        ((e.holds(l) or entails(e.facts, *LIT(mklt(C(0), ln))) is True) and
                         entails(e.facts, *LIT(mklt(C(1), ln), False)) is True)
                    ctx.need(one, R1, "exactly one match", e.where, "a marker can be planned when several (or no) manifest blocks match",
                             construct="tag|ambiguous")
                    okm = True
            ctx.need(okm, R1, "value equality", e.where, "the planned name is not one whose manifest block equals the fence's value",
                     construct="tag|match")
        ctx.need(isd, R1, "dictionary", e.where, "a fence whose value is not a dictionary can be tagged", construct="tag|dict")
        at_ = [t for t, p in e.facts if not p and fname(t) == "already_tagged"]
        ctx.need(any((lambda b: b.get("open_idx") is at and b.get("lines") in lists)(bound(t, "already_tagged", ("lines", "open_idx")))
                     for t in at_), R1, "not tagged yet", e.where, "a fence that already carries a marker can be tagged again",
                 construct="tag|idempotent")
        adds = [x for x in w.events if x.kind == "call" and x.term.a[0].k == "a" and x.term.a[0].a[1] in ("add", "append")
                and x.term.a[1] and x.term.a[1][0] is name]
        conts = {x.term.a[0].a[0] for x in adds}
        okc = any(all(entails(x.facts, *LIT(mkin(name, c), False)) is True for x in adds if x.term.a[0].a[0] is c) for c in conts)
        ctx.need(okc, R1, "tagged once", e.where, "one manifest block can be tagged on several fences", construct="tag|used")
    # every fence considered
    for it, (ends, brks) in loops(w).items():
        if any(fname(y) == "find_blocks" for y in subterms(it)) and base_of(it).k == "call" and fname(base_of(it)) == "find_blocks":
            ctx.need(not brks, R1, "all fences", f.where, "the scan can stop before the last fence", construct="tag|scan")
            for e in ends:
                names = {x.a[1] for h in e.hist if h.k == "call" and h.a[0].k == "a" and h.a[0].a[0] is plan and h.a[1]
                         for x in [h.a[1][-1]] if x.k == "tup" and len(x.a[0]) == 2 for x in [mk("pair", x.a[0][0], x.a[0][1])]}
                rets = [v.a[0] for _, v, _ in outs if v is not None and v.k == "tup" and len(v.a[0]) == 3]
                if names:
                    for nm in names:
                        ctx.need(any(h.k == "call" and h.a[0].k == "a" and h.a[0].a[1] in ("append", "add") and h.a[1] and
                                     h.a[1][0] is nm and any(h.a[0].a[0] is r[1] for r in rets) for h in e.hist), R1, "listed", e.where,
                                 "a marker is planned but its block is not listed as tagged", construct="tag|listed")
                    continue
                silent = not any(fname(x) == "_parse_body" for t, p in e.facts for x in subterms(t))
                for t, p in e.facts:
                    if not p and t.k == "call" and t.a[0] is G("isinstance"):
                        silent = True
                    if not p and (t.k in ("comp", "new")):
                        silent = True
                    if p and fname(t) == "already_tagged":
                        silent = True
                ctx.need(silent or any(h.k == "call" and h.a[0].k == "a" and h.a[0].a[1] == "append" and
                                       any(h.a[0].a[0] is r[2] for r in rets) for h in e.hist), R1, "skips reported", e.where,
                         "a matching fence is skipped without a warning", construct="tag|skipped silently")
    # ---- R3
    f = m.func(TAG, "main")
    w = ctx.walk(Walker(m, opaque={"tag", "find_blocks", "already_tagged", "_parse_body"}), f)
    writes = [e for e in w.events if e.kind == "call" and fname(e.term) == "open" and len(e.term.a[1]) + len(e.term.a[2]) >= 2 and
              any(iscon(x) and isinstance(x.a[0], str) and x.a[0][:1] in ("w", "a", "x", "r") and ("w" in x.a[0] or "a" in x.a[0] or "+" in x.a[0])
                  for x in list(e.term.a[1][1:]) + [v for k, v in e.term.a[2] if k == "mode"])]
    writes += [e for e in w.events if e.kind == "call" and fname(e.term) in ("write_text", "write_bytes")]
    ctx.need(bool(writes), R3, "writes", f.where, "the tagged text is never written", construct="main|write")
    for e in writes:
        dry = [t for t, p in e.facts if not p and t.k == "a" and t.a[1] == "dry_run"]
        ctx.need(bool(dry), R3, "not dry", e.where, "the specification can be written in a dry run", construct="main|dry-run")
        tg = [t for t, p in e.facts if not p and t.k == "sub" and t.a[1] is C(1) and fname(t.a[0]) == "tag"]
        ctx.need(not tg, R3, "when tagged", e.where, "the specification is written only when nothing was tagged", construct="main|tagged")
        path = e.term.a[1][0] if e.term.a[0].k == "g" else e.term.a[0].a[0]
        ctx.need(any(x.k == "a" and x.a[1] == "spec" for x in subterms(path)), R3, "spec file", e.where,
                 f"writes to {show(path)[:60]}", construct="main|file")
    for e in w.events:
        if e.kind == "call" and e.term.a[0].k == "a" and e.term.a[0].a[1] in ("write", "write_text", "writelines"):
            if any(fname(x) == "open" for x in subterms(e.term.a[0])) or e.term.a[0].a[1] == "write_text":
                v = e.term.a[1][0]
                ctx.need(v.k == "sub" and v.a[1] is C(0) and fname(v.a[0]) == "tag", R3, "tagged text", e.where,
                         f"writes {show(v)[:60]}, not the tagged text", construct="main|text")
                if v.k == "sub" and fname(v.a[0]) == "tag":
                    b = bound(v.a[0], "tag", ("manifest", "text"))
                    ctx.need(fname(b.get("manifest")) == "load" and "read" in show(b.get("text")), R3, "inputs", e.where,
                             "tags something other than the specification read against the manifest read", construct="main|inputs")
    ctx.need(any(e.kind == "call" and e.term.a[0].k == "a" and e.term.a[0].a[1] in ("write", "write_text", "writelines") for e in w.events)
             or not writes, R3, "content written", f.where, "the specification is truncated and nothing written", construct="main|content")
    # ---- R4
    f = m.func(TAG, "find_blocks")
    w = ctx.walk(Walker(m), f)
    L = P(f.params[0])
    ys = [e for e in w.events if e.kind == "yield"]
    ctx.need(bool(ys), R4, "yields", f.where, "no fence is ever found", construct="find_blocks|none")
    for e in ys:
        t = e.term
        if t.k != "tup" or len(t.a[0]) != 4:
            ctx.bad(R4, "find_blocks|shape", e.where, f"yields {show(t)[:60]}")
            continue
        i, j, lang, body = t.a[0]
        op = [x for x, p in e.facts if p and fname(x) in ("match", "fullmatch") and x.a[1] and x.a[1][0] is mk("sub", L, i)]
        ctx.need(bool(op), R4, "opening", e.where, "a block is reported at a line that is not an opening fence", construct="find_blocks|open")
        cl = [x for x, p in e.facts if p and fname(x) in ("match", "fullmatch") and x.a[1] and x.a[1][0] is mk("sub", L, j)]
        if j.k == "phi":
            ctx.need(bool(cl), R4, "closing", e.where, "a block is reported without reaching its closing fence", construct="find_blocks|close")
        ctx.need(any(lang.k == "call" and fname(lang) == "group" and lang.a[0].a[0] is o and lang.a[1] and
                     (lang.a[1][0] is C(1) or isinstance(lang.a[1][0].a[0], str)) for o in op), R4, "language", e.where,
                 f"the language is {show(lang)[:60]}", construct="find_blocks|lang")
        want = mk("sub", L, mk("slice", mk("lin", i, 1) if False else NONE, NONE, NONE))
        sl = [x for x in subterms(body) if x.k == "sub" and x.a[0] is L and x.a[1].k == "slice"]
        okb = body.k == "call" and fname(body) == "join" and body.a[0].a[0] is C("\n") and len(sl) == 1 and \
            plus_one(sl[0].a[1].a[0], i) and sl[0].a[1].a[1] is j
        ctx.need(okb, R4, "body", e.where, f"the body is {show(body)[:80]}, not the lines between the fences", construct="find_blocks|body")
    if any(e.term.k == "tup" and len(e.term.a[0]) == 4 and e.term.a[0][0].k == "phi" for e in ys):
        i, j = [e.term.a[0][:2] for e in ys if e.term.k == "tup"][0]
        pi, pj = w.phis.get(i), w.phis.get(j)
        if pi:
            ctx.need(pi["init"] <= {C(0)} and bool(pi["init"]), R4, "from the first line", f.where,
                     "the scan does not start at the first line", construct="find_blocks|start")
            for v, facts in pi["steps"]:
                okv = plus_one(v, i) or plus_one(v, j) or v is j
                ctx.need(okv, R4, "step", f.where, f"the scan steps to {show(v)[:60]}: lines can be skipped", construct="find_blocks|step")
        if pj:
            ctx.need(all(plus_one(x, i) for x in pj["init"]), R4, "body start", f.where, "the closing fence is not searched from the line after "
                     "the opening fence", construct="find_blocks|start")
            for v, facts in pj["steps"]:
                ctx.need(plus_one(v, j), R4, "body step", f.where, f"the search for the closing fence steps to {show(v)[:60]}",
                         construct="find_blocks|step")
    for e in w.events:
        if e.kind == "subscript" and e.term.k == "sub" and e.term.a[0] is L and e.term.a[1].k == "phi":
            ctx.need(entails(e.facts, *mklt(e.term.a[1], mk("call", G("len"), (L,), ()))) is True, R4, "in range", e.where,
                     "a line beyond the last can be read", construct="find_blocks|range")
    scans = {e.term.a[0][0] for e in ys if e.term.k == "tup" and e.term.a[0] and e.term.a[0][0].k == "phi"}
    for kind, st, v, node in w.exits:
        if kind in ("return", "fall"):
            for i in scans:
                ctx.need(entails(st.facts, *mklt(i, mk("call", G("len"), (L,), ()))) is False, R4, "to the last line", f.where,
                         "the scan can stop before the last line", construct="find_blocks|end")
    opn, cls = const_regex(m.mod(TAG), "_OPEN_RE"), const_regex(m.mod(TAG), "_CLOSE_RE")
    for s, o, c in (("```json", 1, 0), ("  ```python  ", 1, 0), ("``` JSON", 1, 0), ("```", 0, 1), ("  ``` ", 0, 1), ("```yaml", 0, 0),
                    ("x ```", 0, 0), ("```json x", 0, 0), ("````", 0, 0)):
        ctx.need(bool(opn.match(s)) == bool(o) and bool(cls.match(s)) == bool(c), R4, f"fence {s!r}", f"{TAG} patterns",
                 f"{s!r} is read as opening={bool(opn.match(s))} closing={bool(cls.match(s))}", construct="patterns|fence")
        if o and opn.match(s):
            ctx.need(opn.match(s).group(1).lower() in ("json", "python"), R4, "language", f"{TAG} patterns", "language not captured",
                     construct="patterns|lang")
    f = m.func(TAG, "_parse_body")
    w = ctx.walk(Walker(m), f)
    low = mk("call", A(P("lang"), "lower"), (), ())
    for kind, st, v, node in w.exits:
        if kind in ("return", "fall"):
            n = fname(v)
            isj = entails(st.facts, *LIT(mkeq(low, C("json"))))
            isp = entails(st.facts, *LIT(mkeq(low, C("python"))))
            ctx.need((n == "loads" and (isj is True or isp is False)) or (n == "literal_eval" and (isj is False or isp is True)), R4,
                     "parser", f.where, f"a body is parsed by {n} under the wrong language", construct="_parse_body")
    # ---- R5
    mk_re = const_regex(m.mod(TAG), "_MARKER_RE")
    for s, want in (("<!-- example: blk -->", 1), ("  <!--example:blk-->  ", 1), ("<!-- example: a b -->", 1), ("<!-- other: x -->", 0),
                    ("text <!-- example: blk -->", 0)):
        ctx.need(bool(mk_re.match(s)) == bool(want), R5, f"marker {s!r}", f"{TAG} _MARKER_RE", f"{s!r} recognised={bool(mk_re.match(s))}",
                 construct="_MARKER_RE|form")
    f = m.func(TAG, "already_tagged")
    w = ctx.walk(Walker(m), f)
    L, O = P(f.params[0]), P(f.params[1])
    true_exit = False
    for kind, st, v, node in w.exits:
        if kind not in ("return", "fall"):
            continue
        where = f"{TAG}:{getattr(node, 'lineno', 0)} already_tagged"
        s2 = st.assume(lit(v, True)) if v is not None and not iscon(v) else (st if v is not None and v.a[0] else None)
        if s2 is not None:
            ms = [t for t, p in s2.facts if p and fname(t) in ("match", "fullmatch")]
            true_exit |= bool(ms)
            ctx.need(bool(ms), R5, "marker seen", where, "a fence can be taken as tagged without a marker above it",
                     construct="already_tagged|false positive")
            for t in ms:
                ln = t.a[1][0] if t.a[1] else None
                okl = ln is not None and ln.k == "sub" and ln.a[0] is L
                if okl and ln.a[1].k == "phi":
                    okl = entails(s2.facts, *mklt(ln.a[1], C(0))) is False
                ctx.need(okl, R5, "line above", where, f"looks for the marker in {show(ln)[:60]}", construct="already_tagged|line")
        s3 = st.assume(lit(v, False)) if v is not None and not iscon(v) else (st if v is not None and not v.a[0] else None)
        if s3 is not None:
            # untagged: reached the top, or the first non-blank line above is not a marker
            ms = [t for t, p in s3.facts if not p and fname(t) in ("match", "fullmatch") and t.a[1]]
            ks = [x for x in w.phis if any(minus_one(y, O) for y in w.phis[x]["init"])]
            top = any(entails(s3.facts, *mklt(k, C(0))) is True for k in ks)
            looped = any(h.k == "looped" for h in s3.hist)
            seen = False
            for t in ms:
                ln = t.a[1][0]
                blank = entails(s3.facts, *mkeq(mk("call", A(ln, "strip"), (), ()), C("")))
                notop = ln.k == "sub" and entails(s3.facts, *mklt(C(0), ln.a[1])) is False
                seen |= blank is False or notop or entails(s3.facts, *lit(mk("call", A(ln, "strip"), (), ()))) is True
            ctx.need(top or seen or looped, R5, "no marker", where, "a fence can be taken as untagged without looking at the line above",
                     construct="already_tagged|false negative")
    ctx.need(true_exit, R5, "can be tagged", f.where, "no fence is ever taken as already tagged", construct="already_tagged|never")
    for ph, d in w.phis.items():
        if any(x is mk("bin", "-", O, C(1)) or minus_one(x, O) for x in d["init"]):
            for v, facts in d["steps"]:
                ctx.need(minus_one(v, ph), R5, "step up", f.where, f"the search for a marker steps to {show(v)[:60]}",
                         construct="already_tagged|step")
                blank = any(any(fname(x) == "strip" for x in subterms(t)) and mkeq(x2(t), C("")) == (t, p) for t, p in facts) or \
                    any(not p and fname(t) == "strip" for t, p in facts)
                ctx.need(blank, R5, "only blank lines skipped", f.where, "the search for a marker passes over lines that are not blank",
                         construct="already_tagged|skip")
        elif d["init"] and any(O in subterms(x) or x is O for x in d["init"] if isinstance(x, T)):
            ctx.bad(R5, "already_tagged|start", f.where, f"the search for a marker starts at {', '.join(show(x) for x in d['init'])}")


def enclosing(w, e):
    """term of the innermost for-loop open at event e"""
    i = w.events.index(e)
    out = None
    for j in range(i):
        x = w.events[j]
        if x.kind == "iter" and any(y.kind in ("bodyend", "break") and y.term is x.term for y in w.events[i:]):
            out = x.term
    return out


def order_of(w, t):
    """(list iterated, 'asc'|'desc'|None): the list is filled in ascending order; sorts and reversals followed"""
    flips = []
    while True:
        n = fname(t) if t.k == "call" and t.a[0].k == "g" else None
        if n == "sorted" and t.a[1]:
            p = call_parts(t)
            if "key" in p[2] and not first_key(p[2]["key"]):
                flips.append(None)
            else:
                rv = p[2].get("reverse")
                flips.append("=desc" if rv is TRUE else "=asc" if rv is None or rv is FALSE else None)
            t = p[1][0]
        elif n == "reversed" and len(t.a[1]) == 1:
            flips.append("flip")
            t = t.a[1][0]
        elif n in ("list", "tuple", "iter") and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.k == "sub" and t.a[1].k == "slice" and t.a[1].a[0] is NONE and t.a[1].a[1] is NONE and t.a[1].a[2] is C(-1):
            flips.append("flip")
            t = t.a[0]
        elif t.k == "sub" and t.a[1].k == "slice":
            return t, None
        else:
            break
    order = "asc"
    for e in w.events:
        if e.kind == "call" and e.term.a[0].k == "a" and e.term.a[0].a[0] is t:
            if e.term.a[0].a[1] == "sort":
                p = call_parts(e.term)
                order = None if "key" in p[2] and not first_key(p[2]["key"]) else "desc" if p[2].get("reverse") is TRUE else "asc"
            elif e.term.a[0].a[1] == "reverse":
                order = {"asc": "desc", "desc": "asc"}.get(order)
            elif e.term.a[0].a[1] == "insert" and e.term.a[1] and e.term.a[1][0] is C(0):
                order = "desc"
            elif e.term.a[0].a[1] == "appendleft":
                order = "desc"
    for fl in reversed(flips):
        order = fl[1:] if fl and fl[0] == "=" else {"asc": "desc", "desc": "asc"}.get(order) if fl == "flip" else None
    return t, order


def x2(t):
    for x in subterms(t):
        if fname(x) == "strip":
            return x
    return t


def plus_one(t, i):
    from ..engine import unlin
    b, k = unlin(t)
    return b is i and k == 1


def minus_one(t, i):
    from ..engine import unlin
    b, k = unlin(t)
    return b is i and k == -1


def first_key(k):
    s = show(k)
    return "[0]" in s or "itemgetter(0)" in s


def marker_text(t):
    s = show(t)
    return t.k in ("fstr", "bin", "call") and "<!-- example: " in s and "-->" in s
