"""Streams: every message reaches its handler with exactly the attachments that came with it."""
import ast

from . import prop
from .corelib import *
from .esc import hist_calls, caught
from .hab import on, covers
from .ks import text, of, arg
from ..check import AnalysisBroken
from ..engine import PHI

PAR = "src/keri/core/parsing.py"
CNT = "src/keri/core/counting.py"
EX = ("_extractor", "extract")
OP = {"_extractor", "extract", "byteCount", "byteSize", "sniff", "exception", "error", "isEnabledFor", "info", "debug", "trace", "pretty", "msgParsator", "groupParsator", "msgProcess",
      "reap", "b64ToVer", "countToB64", "encodeB64", "processEvent", "processMsg", "processQuery", "processReply", "processReceipt", "processACDC", "processAttachedReceiptCouples",
      "processAttachedReceiptSigGroups", "allParsator", "onceParsator"}
#        code                       list     elements
SPEC = {"ControllerIdxSigs": ("sigers", ("Siger",)), "WitnessIdxSigs": ("wigers", ("Siger",)),
        "NonTransReceiptCouples": ("cigars", "cigar"),
        "TransReceiptIdxSigGroups": ("rsgs", ("Prefixer", "Number", "Diger", "*")), "TransIdxSigGroups": ("tsgs", ("Prefixer", "Number", "Diger", "*")),
        "TransLastIdxSigGroups": ("lsgs", ("Prefixer", "*")), "FirstSeenReplayCouples": ("frcs", ("Number", "Dater")),
        "SealSourceCouples": ("sscs", ("Number", "Diger")), "SealSourceTriples": ("ssts", ("Prefixer", "Number", "Diger")),
        "TypedDigestSealCouples": ("tdcs", ("Verser", "Diger")), "BlindedStateQuadruples": ("bsqs", ("Diger", "Noncer", "Noncer", "Labeler")),
        "BoundStateSextuples": ("bsss", ("Diger", "Noncer", "Noncer", "Labeler", "Number", "Noncer")),
        "TypedMediaQuadruples": ("tmqs", ("Diger", "Noncer", "Labeler", "Texter")),
        "PathedMaterialCouples": ("ptds", None), "ESSRPayloadGroup": ("essrs", ("Texter",))}
ONLY2 = {"TypedDigestSealCouples", "BlindedStateQuadruples", "BoundStateSextuples", "TypedMediaQuadruples"}
SIZED1 = {"TransReceiptIdxSigGroups", "PathedMaterialCouples"}  # counted in quadlets already in version 1
BIG1 = {"PathedMaterialCouples", "ESSRPayloadGroup"}


def strip(t):
    while t is not None and t.k == "fresh":
        t = t.a[0]
    return t


def klas(t):
    """class of an element taken off the stream"""
    c = strip(t)
    if c is not None and c.k == "call" and fname(c) in EX:
        k = arg(c, 1, "klas")
        return k.a[0].split(".")[-1] if k is not None and k.k == "g" else None
    return None


def front(s, n):
    return mk("sub", s, mk("slice", NONE, n, NONE))


def same(a, b):
    return a is not None and b is not None and text(a) is text(b)


def inside(q, L, e):
    """the list is made anew in every turn of the loop the event is in"""
    site = str(L.a[1]) if len(L.a) > 1 else ""
    ps = site.replace("@", ":").split(":")
    ns = [int(x) for x in ps if x.isdigit()]
    if q.f.node.name not in site or not ns:
        return True
    for n in ast.walk(q.f.node):
        if isinstance(n, (ast.While, ast.For)) and n.lineno <= e.line <= n.end_lineno:
            return any(n.body[0].lineno <= x <= n.end_lineno for x in ns[:1])
    return True


def alts(v):
    """the values merged into one"""
    todo, out, done = [v], set(), set()
    while todo:
        x = todo.pop()
        if x in done:
            continue
        done.add(x)
        if x is not None and x.k == "phi" and PHI.get(x):
            todo += list(PHI[x])
        elif x is not None and x.k == "ite":
            todo += list(x.a[1:])
        else:
            out.add(x)
    return out


def assigned(st, b, attr):
    """b.attr was assigned on every path here"""
    todo, done = [st.heap.get((b, attr))], set()
    while todo:
        v = todo.pop()
        if v is None:
            return False
        if v not in done:
            done.add(v)
            todo += list(PHI.get(v, ()))
    return True


def table(ctx, R):
    """{(version, code name): method name} as the class body assigns it"""
    m = ctx.model.mod(PAR)
    cls = next((n for n in m.tree.body if isinstance(n, ast.ClassDef) and n.name == "Parser"), None)
    if cls is None:
        raise AnalysisBroken("Parser is gone")
    out = {}
    consts = {}
    for s in cls.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript):
            t = s.targets[0]
            path = []
            while isinstance(t, ast.Subscript):
                path.append(t.slice)
                t = t.value
            path.reverse()
            if isinstance(t, ast.Name) and len(path) == 3 and isinstance(path[0], ast.Constant) and isinstance(s.value, ast.Constant):
                k = path[2]
                n = k.attr if isinstance(k, ast.Attribute) else k.value if isinstance(k, ast.Constant) else None
                out[(path[0].value, n)] = (s.value.value, s.lineno)
    if not out:
        raise AnalysisBroken("the table of extraction methods is not assigned in the class body of Parser")
    return out


@prop("P01")
def groups(ctx):
    R = "P01.groups"
    ctx.rule(R, "every attachment group is read under its own code: as many elements as it counts, each of its class, in order, into its own list", 25)
    tab = table(ctx, R)
    want = {}
    for n in SPEC:
        for v in (1, 2):
            if v == 1 and n in ONLY2:
                continue
            want[(v, n)] = n
            if v == 2 or n in BIG1:
                want[(v, "Big" + n)] = n
    by = {}
    for key, n in want.items():
        got = tab.get(key)
        if ctx.need(got is not None, R, f"Parser.Methods:{key[0]}.{key[1]}", f"{PAR}:Parser.Methods", f"no method extracts {key[1]} in version {key[0]}: messages carrying it are refused"):
            by.setdefault((got[0], n, key[0]), key)
    for key in tab:
        if key not in want:
            raise AnalysisBroken(f"extraction of {key} is not specified")
    for (meth, n, v) in by:
        group(ctx, R, meth, n, v)


def group(ctx, R, meth, n, ver):
    try:
        q = Q(ctx, PAR, f"Parser.{meth}", OP, limit=4000, fresh=EX, snaps=("_",))
    except KeyError:
        raise AnalysisBroken(f"Parser.{meth} is gone")
    field, spec = SPEC[n]
    me, exts, ims, ctr, cold = P("self"), P("exts"), P("ims"), P("ctr"), P("cold")
    tag = f"{q.qual}:{n}{ver}"
    size = mk("call", A(ctr, "byteCount"), (), (("cold", cold),))
    own = A(exts, field)
    # where it goes
    lists = set()
    for e in q.w.events:
        t = e.term
        if e.kind == "call" and fname(t) in ("extend", "append", "insert") and t.a[0].k == "a" and t.a[0].a[0].k == "a" and t.a[0].a[0].a[0] is exts:
            ctx.need(t.a[0].a[0] is own, R, f"{tag}:into", q.where(e.node), f"elements of {n} end up in exts.{t.a[0].a[0].a[1]} instead of exts.{field}")
            if fname(t) == "extend":
                lists.add(t.a[1][0])
            elif n != "PathedMaterialCouples":
                lists.add(own)
        if e.kind in ("store", "aug") and t.k == "a" and t.a[0] is exts:
            ctx.need(t is own, R, f"{tag}:into", q.where(e.node), f"elements of {n} end up in exts.{t.a[1]} instead of exts.{field}")
            if e.kind == "store" and any("KeyError" in c.a[1] or "AttributeError" in c.a[1] for c in caught(e)):
                lists.add(e.value)
            elif e.kind == "aug":
                lists.add(e.value if e.value is not None else own)
            elif e.kind == "store":
                plus = e.value.k == "bin" and own in subterms(e.value) if e.value is not None else False
                ctx.need(plus, R, f"{tag}:keeps", q.where(e.node), f"a second group of {n} on a message replaces the first: what came with it is lost")
                if plus:
                    lists |= {x for x in subterms(e.value) if x.k == "new"}
    outs = [(st, nd) for k, st, vv, nd in q.w.exits if k in ("fall", "return")]
    ctx.need(bool(outs), R, f"{tag}:extracts", q.where(), f"no group of {n} is ever extracted")
    sized = ver == 2 or n in SIZED1
    src = None
    for st, nd in outs:
        put = any(h.k == "call" and fname(h) in ("extend", "append") and h.a[0].k == "a" and h.a[0].a[0] is own for h in st.hist) \
            or any(h.k in ("store", "aug") and h.a[0] is own for h in st.hist) or any(h.k == "looped" for h in st.hist) and own in lists
        ctx.need(put, R, f"{tag}:kept", q.where(nd), f"a group of {n} is read off the stream and dropped: the message goes on without what was attached to it")
    # how much of the stream
    xs = {}
    for e in q.w.events:
        if e.kind == "call" and fname(e.term) in EX:
            xs.setdefault(e.term, []).append(e)
    if sized:
        src = None
        dels = [e for e in q.w.events if e.kind == "del" and e.term.k == "sub" and e.term.a[0] is ims]
        for e in dels:
            sl = e.term.a[1]
            ok = same(e.term, front(ims, size))
            ctx.need(ok, R, f"{tag}:stripped", q.where(e.node), f"a group of {n} takes another number of bytes off the stream than it counts: everything after it is misread")
            ctx.need(q.holds(e, "not len(ims) < n", {"n": size}), R, f"{tag}:complete", q.where(e.node), f"a group of {n} is taken off the stream before all of it is there: its tail is read as the next message")
            src = e.term
        for st, nd in outs:
            ctx.need(any(h.k == "del" and h.a[0].k == "sub" and h.a[0].a[0] is ims for h in st.hist), R, f"{tag}:consumed", q.where(nd), f"a group of {n} stays in the stream once read")
        for k, st, vv, nd in q.w.exits:
            if k == "raise" and vv is not None and exc_name(vv) == "ShortageError":
                ins = {t for ev in q.w.events for t in terms_of(ev) if t.k == "fresh" and klas(t) == "Counter"}
                ctx.need(q.holds(st, "len(ims) < n", {"n": size}) or src is not None and any(q.holds(st, "len(g) < n", {"g": src, "n": mk("call", A(c, "byteCount"), (), (("cold", cold),))}) for c in ins),
                         R, f"{tag}:shortage", q.where(nd), f"a complete group of {n} is refused as too short")
        ab = [st for k, st, vv, nd in q.w.exits if k == "raise" and vv is not None and exc_name(vv) == "ShortageError" and q.holds(st, "len(ims) < n and abort", {"n": size})]
        ctx.need(bool(ab), R, f"{tag}:abort", q.where(), f"a group of {n} cut short inside an enclosing group is waited for without end: the parser never goes on")
        if src is None:
            return
    else:
        src = ims
    if spec is None:
        for L in lists:
            items = tup(L) or [x for x, e in (appended(q, L) or [])]
            ctx.need(items is not None and len(items) == 1 and same(items[0], src), R, f"{tag}:raw", q.where(), f"something else than the bytes of the group is kept for {n}")
        ctx.need(bool(lists) or any(fname(e.term) == "append" for e in q.calls("append")), R, f"{tag}:raw", q.where(), f"nothing is kept for {n}")
        return
    # the elements
    loop = None
    lists = {L for L in lists if L is not None}
    if not ctx.need(len(lists) == 1, R, f"{tag}:list", q.where(), f"the elements of {n} are not gathered in one list"):
        return
    L = next(iter(lists))
    if L is own:
        adds = [(e.term.a[1][0], e) for e in q.calls("append") if e.term.a[0].a[0] is own]
    else:
        adds = appended(q, L)
    if not ctx.need(bool(adds), R, f"{tag}:elements", q.where(), f"no element of {n} is kept"):
        return
    inner = spec != "cigar" and "*" in spec
    for val, e in adds:
        if spec == "cigar":
            order = []
            st = [h for h in e.hist if h.k == "store" and h.a[0] is A(val, "verfer")] + [h for h in e.hist if h.k == "store" and h.a[0].k == "a" and h.a[0].a[0] is val]
            okc = klas(val) == "Cigar" and bool(st) and klas(st[0].a[1]) == "Verfer"
            if not ctx.need(okc, R, f"{tag}:element", q.where(e.node), "an unindexed signature is kept without the key that came before it"):
                continue
            order = [st[0].a[1], val]
            items = []
        else:
            items = tup(val) if len(spec) > 1 else [val]
            if items is None and val.k == "call" and val.a[0].k == "g":
                items = [x for x in val.a[1]] + [x for _, x in val.a[2]]
            ks = tuple("*" if s == "*" else klas(x) for x, s in zip(items or [], spec))
            if not ctx.need(items is not None and len(items) == len(spec) and ks == spec, R, f"{tag}:element", q.where(e.node), f"an element of {n} is read as {ks}, not as {spec}: another thing is taken for it"):
                continue
            order = [x for x, s in zip(items, spec) if s != "*"]
        ctx.need(len({id(x) for x in order}) == len(order), R, f"{tag}:distinct", q.where(e.node), f"one part of an element of {n} is used twice and another is lost")
        ictr = None
        if inner:
            star = items[-1]
            got = appended(q, star) if star.k == "new" else None
            if not ctx.need(bool(got), R, f"{tag}:signatures", q.where(e.node), f"the signatures of a group of {n} are lost"):
                continue
            ctx.need(inside(q, star, e), R, f"{tag}:own signatures", q.where(e.node), f"the signatures of one group of {n} are added to those of the group before it: signatures count for a source that did not make them")
            cs = [t for t in (h for h in e.hist if h.k == "call" and fname(h) in EX) if klas(t) == "Counter"]
            ctrs = [x for x in {t for ev in q.w.events for t in terms_of(ev)} if x.k == "fresh" and klas(x) == "Counter"]
            if not ctx.need(len(ctrs) == 1, R, f"{tag}:counter", q.where(e.node), f"the signatures of a group of {n} are not counted by one counter"):
                continue
            ictr = ctrs[0]
            order = order + [ictr]
            code = C({1: "-A", 2: "-K"}[ver])
            for sv, se in got:
                ctx.need(klas(sv) == "Siger", R, f"{tag}:siger", q.where(se.node), f"a signature of a group of {n} is read as {klas(sv)}")
                at = [se] if ver == 1 else [d for d in q.w.events if d.kind == "del" and same(d.term, front(src, mk("call", A(ictr, "byteCount"), (), (("cold", cold),))))]
                ctx.need(bool(at) and all(q.holds(d, "c.code == k", {"c": ictr, "k": code}) for d in at), R, f"{tag}:code", q.where(se.node), f"what follows the source of {n} is read as indexed signatures without its code saying so")
            isz = mk("call", A(ictr, "byteCount"), (), (("cold", cold),))
            if ver == 1:
                rng = mk("call", G("range"), (A(ictr, "count"),), ())
                ctx.need(all(same(arg(strip(sv), 0, "ims"), src) for sv, se in got), R, f"{tag}:from", q.where(e.node), f"the signatures of {n} are read from elsewhere than the group")
                ctx.need(any(h.k == "looped" and same(h.a[0], rng) for h in e.hist), R, f"{tag}:count", q.where(e.node), f"another number of signatures is read for {n} than its counter says")
            else:
                srcs = {arg(strip(sv), 0, "ims") for sv, se in got}
                ctx.need(all(s is not None and same(s, front(src, isz)) for s in srcs), R, f"{tag}:count", q.where(e.node), f"the signatures of {n} are not read from exactly the bytes their counter covers")
                for d in q.w.events:
                    if d.kind == "del" and any(same(d.term, s) for s in srcs):
                        ctx.need(q.holds(d, "not len(g) < n", {"g": src, "n": isz}), R, f"{tag}:inner complete", q.where(d.node), f"fewer signatures of {n} than its counter says are taken for all of them")
                ctx.need(all(any(h.k == "del" and same(h.a[0], s) for h in e.hist) for s in srcs), R, f"{tag}:count", q.where(e.node), f"the signatures of {n} stay in the group once read")
                ctx.need(any(h for h in e.hist) and all(not p for t, p in e.facts if any(t is s for s in srcs)) and any(t in srcs and not p for t, p in e.facts), R, f"{tag}:all", q.where(e.node), f"signatures of {n} are left unread")
        # order on the stream
        for a, b in zip(order, order[1:]):
            evs = [x for x in xs.get(strip(b), []) if b.k != "fresh" or x.line == int(b.a[1].split(":")[0])]
            ctx.need(bool(evs) and all(any(h is strip(a) or h is a for h in x.hist) for x in evs), R, f"{tag}:order", q.where(e.node), f"the parts of an element of {n} are read in another order than they stand in the stream")
        for x in order:
            ctx.need(same(arg(strip(x), 0, "ims"), src), R, f"{tag}:source", q.where(e.node), f"a part of {n} is read from elsewhere than the group's own bytes")
        # nothing else is read in between
        mine = len(order) + (1 if inner else 0)
        ctx.need(sum(len({x.line * 1000 + x.node.col_offset for x in es}) for t, es in xs.items()) == mine, R, f"{tag}:only", q.where(e.node), f"more is read off the stream for an element of {n} than it consists of")
    for t, es in xs.items():
        for x in es:
            ctx.need(arg(t, 2, "cold") is cold, R, f"{tag}:domain", q.where(x.node), f"part of {n} is read as if in the other of text and binary")
            if fname(t) == "_extractor":
                ctx.need(arg(t, None, "abort") is P("abort") and arg(t, None, "strip") in (None, TRUE), R, f"{tag}:wait", q.where(x.node), f"part of {n} is waited for although nothing more will come, or left in the stream")
    for e in q.w.events:
        if e.kind == "whileend" and not any(klas(h) for h in e.st.hist if h.k == "call"):
            ctx.need(any(h.k == "yield" for h in e.st.hist), R, f"{tag}:yields", q.where(e.node), f"while a group of {n} is incomplete nothing else runs: what it waits for never comes")
    # every turn keeps its element, for all that is counted
    vals = [val for val, e in adds]
    ends = [e for e in q.w.events if e.kind in ("bodyend", "whileend") and any(klas(h) and klas(h) != "Siger" or (not inner and klas(h)) for h in e.st.hist if h.k == "call")]
    tgt = L
    for e in ends:
        isin = inner and any(h.k == "call" and fname(h) == "append" and h.a[0].a[0] in [tup(v)[-1] for v in vals if tup(v)] for h in e.st.hist) and not any(h.k == "looped" or True and h.k == "call" and fname(h) == "append" and h.a[0].a[0] is tgt for h in e.st.hist)
        keeps = any(h.k == "call" and fname(h) == "append" and h.a[0].k == "a" and h.a[0].a[0] is tgt for h in e.st.hist)
        ctx.need(keeps or isin, R, f"{tag}:each", q.where(e.node), f"an element of {n} is read and not kept")
    brk = [e for e in q.w.events if e.kind == "break"]
    ctx.need(not brk, R, f"{tag}:whole", q.where(brk[0].node if brk else None), f"reading a group of {n} stops before its end")
    for st, nd in outs:
        if sized:
            ctx.need(any(same(t, src) and not p for t, p in st.facts), R, f"{tag}:whole", q.where(nd), f"part of a group of {n} is left unread")
        else:
            rng = mk("call", G("range"), (A(ctr, "count"),), ())
            ctx.need(any(h.k == "looped" and same(h.a[0], rng) for h in st.hist), R, f"{tag}:whole", q.where(nd), f"another number of elements of {n} is read than counted")


EVT = ("icp", "rot", "ixn", "dip", "drt")
REG = ("vcp", "vrt", "iss", "rev", "bis", "brv")
PRO = ("qry", "rpy", "exn", "xip", "pro", "bar")


def ilk(*names):
    return " or ".join(f"exts['serder'].ilk == '{n}'" for n in names)


def is_ilk(q, x, names):
    """the message is of one of these kinds"""
    return q.holds(x, "exts['serder'].ilk in " + repr(tuple(names))) or q.holds(x, ilk(*names)) or any(q.holds(x, "exts['serder'].ilk == " + repr(n)) for n in names)


def kwargs(t):
    """the ** argument of a call"""
    p = call_parts(t)
    return p[2].get("**") if p is not None else None


def items(x, base):
    """{key: value} set on the mapping before"""
    return [(h.a[0].a[1], h.a[1]) for h in x.hist if h.k == "setitem" and h.a[0].a[0] is base]


@prop("P01")
def dispatch(ctx):
    R = "P01.dispatch"
    ctx.rule(R, "a message goes to the handler of its kind, whole, with all its attachments and nothing made up; it is refused only when what its kind needs is missing", 25)
    q = Q(ctx, PAR, "Parser.msgProcess", OP, limit=8000)
    exts = P("exts")
    it = lambda k: mk("sub", exts, C(k))
    has = lambda k: f"exts['{k}']"
    WANT = {  # (handler, method): (ilks, attachments it cannot do without, extra)
        ("kvy", "processEvent"): (EVT, "exts['sigers']"),
        ("kvy", "processAttachedReceiptCouples"): (EVT, "exts['cigars']"),
        ("kvy", "processAttachedReceiptSigGroups"): (EVT, "exts['rsgs']"),
        ("kvy", "processReceipt"): (("rct",), "exts['cigars'] or exts['wigers'] or exts['tsgs'] or exts['rsgs']"),
        ("rvy", "processReply"): (("rpy",), "exts['cigars'] or exts['tsgs']"),
        ("kvy", "processQuery"): (("qry",), None), ("tvy", "processQuery"): (("qry",), None),
        ("exc", "processEvent"): (("exn",), "exts['cigars'] or exts['tsgs']"),
        ("tvy", "processEvent"): (REG, None), ("vry", "processACDC"): (None, None), ("kvy", "processMsg"): (PRO, None)}
    seen = set()
    PROT = "kvy is not None and not exts['serder'].pvrsn.major < 2 and exts['serder'].ilk in " + repr(PRO)
    for e in q.w.events:
        t = e.term
        if e.kind != "call" or t.a[0].k != "a" or not str(fname(t)).startswith("process"):
            continue
        who = t.a[0].a[0]
        key = (who.a[0] if who.k == "p" else show(who), fname(t))
        if not ctx.need(key in WANT, R, f"msgProcess:{key[0]}.{key[1]}", q.where(e.node), f"a message is handed to {key[0]}.{key[1]}"):
            continue
        seen.add(key)
        ilks, att = WANT[key]
        tag = f"msgProcess:{key[0]}.{key[1]}"
        if ilks is None:
            ctx.need(q.holds(e, "isinstance(exts['serder'], SerderACDC) and exts['serder'].ilk is None"), R, f"{tag}:kind", q.where(e.node), "something else than a credential is taken for one")
        else:
            ctx.need(q.holds(e, "isinstance(exts['serder'], SerderKERI)") and is_ilk(q, e, ilks), R, f"{tag}:kind", q.where(e.node), f"a message of another kind is handed to {key[0]}.{key[1]}")
        if att:
            ctx.need(q.holds(e, att), R, f"{tag}:signed", q.where(e.node), f"{key[1]} is reached without the signatures it judges by")
        kw = kwargs(t)
        if key[1] == "processMsg":
            ctx.need(q.holds(e, PROT), R, f"{tag}:kind", q.where(e.node), "a message of a version without replay protection is put through it: it is refused for want of what it never carries")
            d = arg(t, 0, "kwa")
            ctx.need(d is not None and fname(d) == "dict" and d.a[1] and d.a[1][0] is exts, R, f"{tag}:whole", q.where(e.node), "a protected message is handed on without all that came with it")
            got = dict(items(e, d)) if d is not None else {}
            for n in ("rvy", "exc", "tvy"):
                ctx.need(got.get(C(n)) is P(n), R, f"{tag}:{n}", q.where(e.node), f"a protected message does not carry the {n} that must take it")
            ctx.need(set(got) <= {C("rvy"), C("exc"), C("tvy")}, R, f"{tag}:made up", q.where(e.node), "what came with a protected message is replaced")
            continue
        ctx.need(kw is exts and not t.a[1] and len(t.a[2]) == 1, R, f"{tag}:whole", q.where(e.node), f"a message reaches {key[1]} without all that came with it")
        ctx.need(q.holds(e, "not (" + PROT + ")") or key[1] in ("processAttachedReceiptCouples", "processAttachedReceiptSigGroups") or not set(ilks or ()) & set(PRO), R, f"{tag}:protected", q.where(e.node), "a message that must go through replay protection reaches its handler around it")
        # what is set on top of what was extracted
        if key[0] == "kvy" and "Event" in key[1] or key[1].startswith("processAttached"):
            sets = items(e, exts)
            last = lambda k, i: mk("sub", mk("sub", it(k), C(-1)), C(i))
            allowed = {"firner": last("frcs", 0), "dater": last("frcs", 1), "delsger": last("sscs", 1)}
            for k, v in sets:
                n = k.a[0] if k.k == "c" else None
                if n in allowed:
                    g = has("frcs" if n != "delsger" else "sscs")
                    ok = v is allowed[n] and q.holds(e, g) or v is NONE and q.holds(e, f"not {g}")
                elif n == "delsner":
                    ok = v is NONE and q.holds(e, f"not {has('sscs')} || x is None", {"x": last("sscs", 0)}) or fname(v) == "Number" and text(arg(v, None, "num")) is text(A(last("sscs", 0), "sn")) and q.holds(e, has("sscs"))
                else:
                    ok = False
                ctx.need(ok, R, f"{tag}:{n}", q.where(e.node), f"an event is judged with another {n} than came with it")
            for n in ("firner", "dater", "delsner", "delsger"):
                ctx.need(any(k is C(n) for k, v in sets), R, f"{tag}:{n} given", q.where(e.node), f"an event is handed on without its {n}")
            if key[1] != "processEvent":
                ctx.need(any(h.k == "call" and fname(h) == "processEvent" and recv(h) is P("kvy") for h in e.hist), R, f"{tag}:after", q.where(e.node), "receipts attached to an event are judged before the event itself")
        elif key[1] == "processQuery":
            last = mk("sub", it("lsgs"), C(-1))
            got = {}
            for k, v in items(e, exts):
                got.setdefault(k.a[0] if k.k == "c" else None, []).append(v)
            src, sg = got.get("source", []), got.get("sigers", [])
            a = len(src) == 1 and src[0] is mk("sub", last, C(0)) and len(sg) == 1 and sg[0] is mk("sub", last, C(1)) and q.holds(e, has("lsgs"))
            b = len(src) == 1 and src[0] is NONE and len(sg) == 1 and (tup(sg[0]) == [] or sg[0].k == "new" and not sg[0].a[2]) and q.holds(e, "not exts['lsgs']") and q.holds(e, "exts['cigars'] or exts['source']")
            a = a and q.holds(e, "x or exts['cigars'] or exts['source']", {"x": src[0]})
            ctx.need(a or b, R, f"{tag}:source", q.where(e.node), "a query is judged as of another source, or by other signatures, than came with it")
            ctx.need(set(got) <= {"source", "sigers"}, R, f"{tag}:made up", q.where(e.node), "what came with a query is replaced")
            rt = {"kvy": ("logs", "ksn", "mbx"), "tvy": ("tels", "tsn")}[key[0]]
            ctx.need(q.holds(e, " or ".join(f"exts['serder'].ked['r'] == '{x}'" for x in rt)), R, f"{tag}:route", q.where(e.node), f"a query of another route is answered by {key[0]}")
        elif key in (("tvy", "processEvent"), ("vry", "processACDC")):
            lst, names = ("sscs", ("seqner", "saider")) if key[0] == "tvy" else ("ssts", ("prefixer", "seqner", "saider"))
            last = mk("sub", it(lst), C(-1))
            sets = dict(items(e, exts))
            for i, n in enumerate(names):
                v = sets.get(C(n))
                ctx.need(v is mk("sub", last, C(i)) and q.holds(e, has(lst)) or v is NONE and q.holds(e, f"not {has(lst)}"), R, f"{tag}:{n}", q.where(e.node), f"{key[1]} is given another {n} of the anchoring event than came with the message")
            ctx.need(set(sets) <= {C(n) for n in names}, R, f"{tag}:made up", q.where(e.node), "what came with a message is replaced")
        else:
            ctx.need(not items(e, exts), R, f"{tag}:made up", q.where(e.node), "what came with a message is replaced")
    for key in WANT:
        ctx.need(key in seen, R, f"msgProcess:{key[0]}.{key[1]}:reached", q.where(), f"no message is ever handed to {key[0]}.{key[1]}")
    # every message that is not refused was handed on
    def did_(st, who, m):
        return any(h.k == "call" and fname(h) == m and recv(h) is P(who) for h in st.hist)
    for k, st, v, nd in q.w.exits:
        if k not in ("return", "fall"):
            continue
        if q.holds(st, PROT) and q.holds(st, "isinstance(exts['serder'], SerderKERI)"):
            ok = did_(st, "kvy", "processMsg")
        elif did_(st, "kvy", "processEvent"):
            ok = (did_(st, "kvy", "processAttachedReceiptCouples") or q.holds(st, "not exts['cigars']")) and (did_(st, "kvy", "processAttachedReceiptSigGroups") or q.holds(st, "not exts['rsgs']"))
        else:
            ok = any(did_(st, *key) for key in WANT if not key[1].startswith("processAttached")) or any("QueryNotFoundError" in " ".join(c.a[1]) for c in caught(st))
        ctx.need(ok, R, "msgProcess:handled", q.where(nd), "a message, or receipts attached to it, is passed over in silence")
    known = EVT + ("rct", "rpy", "qry", "exn") + REG
    att = lambda st: any(any(n.split(".")[-1] in ("AttributeError",) for n in c.a[1]) for c in caught(st))
    refuses_only(q, R, [att,
                        lambda st: q.holds(st, "not exts['sigers']") and is_ilk(q, st, EVT),
                        lambda st: q.holds(st, "not exts['cigars'] and not exts['wigers'] and not exts['tsgs'] and not exts['rsgs']") and is_ilk(q, st, ("rct",)),
                        lambda st: q.holds(st, "not exts['cigars'] and not exts['tsgs']") and is_ilk(q, st, ("rpy", "exn")),
                        lambda st: is_ilk(q, st, ("qry",)) and (q.holds(st, "not exts['cigars']") and (q.holds(st, "not exts['lsgs'] || not exts['source'] || not x", {"x": mk("sub", mk("sub", it("lsgs"), C(-1)), C(0))}))),
                        lambda st: is_ilk(q, st, ("qry",)) and q.holds(st, " and ".join(f"exts['serder'].ked['r'] != '{x}'" for x in ("logs", "ksn", "mbx", "tels", "tsn"))),
                        lambda st: q.holds(st, "isinstance(exts['serder'], SerderKERI)") and q.holds(st, " and ".join(f"exts['serder'].ilk != '{n}'" for n in known)),
                        lambda st: q.holds(st, "isinstance(exts['serder'], SerderACDC) and exts['serder'].ilk is not None"),
                        lambda st: q.holds(st, "not isinstance(exts['serder'], SerderKERI) and not isinstance(exts['serder'], SerderACDC)")],
                 "a message is refused", names=("ValidationError", "ValueError", "ExtractionError"))


@prop("P01")
def streams(ctx):
    R = "P01.stream"
    ctx.rule(R, "each message is parsed afresh, carries the origin it was parsed under, and an error costs no more than the part of the stream that cannot be delimited", 25)
    me = P("self")
    # the drivers
    for name in ("allParsator", "parsator"):
        q = Q(ctx, PAR, f"Parser.{name}", OP, limit=8000, fresh=("groupParsator",))
        driver(ctx, R, q, "groupParsator", ("kvy", "tvy", "exc", "rvy", "vry"), ("version", "processive"))
        for e in q.w.events:
            if e.kind == "whileend":
                cs = caught(e.st)
                names = {n.split(".")[-1] for c in cs for n in c.a[1]}
                flush = any(h.k == "del" and h.a[0].k == "sub" and h.a[0].a[1].k == "slice" and set(h.a[0].a[1].a) == {NONE} for h in e.st.hist) or any(h.k == "call" and fname(h) == "clear" for h in e.st.hist)
                if "ExtractionError" in names and "Exception" not in names:
                    ctx.need(flush, R, f"{q.qual}:flushed", q.where(e.node), "after bytes that cannot be read the parser starts on the same bytes again, without end")
                elif names:
                    ctx.need(not flush, R, f"{q.qual}:kept", q.where(e.node), "an error inside a part already taken off the stream loses every message after it")
                else:
                    ctx.need(not flush, R, f"{q.qual}:kept", q.where(e.node), "messages after a good one are thrown away")
        for e in q.calls("groupParsator"):
            for x in ("SizedGroupError", "ExtractionError", "Exception"):
                ctx.need(covers(q, e, {x}), R, f"{q.qual}:survives {x}", q.where(e.node), f"an error ({x}) in one message stops the parser: messages after it are never read")
        if name == "allParsator":
            for st, vv, nd in q.exits():
                ctx.need(any(t.k != "eq" and not p for t, p in st.facts), R, f"{q.qual}:all", q.where(nd), "the parser stops before the end of the stream")
        else:
            ctx.need(not q.exits(), R, f"{q.qual}:endless", q.where(), "the stream parser ends: messages that arrive later are never read")
    q = Q(ctx, PAR, "Parser.onceParsator", OP, limit=8000, fresh=("msgParsator",))
    driver(ctx, R, q, "msgParsator", (), ("version",), process=True)
    for n, inner, own in (("parse", "allParsator", ("framed", "piped", "kvy", "tvy", "exc", "rvy", "vry", "ims", "version", "processive")), ("parseOne", "onceParsator", ("kvy", "tvy", "exc", "rvy", "vry", "ims", "version", "processive"))):
        q = Q(ctx, PAR, f"Parser.{n}", OP, limit=4000)
        cs = q.calls(inner)
        ctx.need(bool(cs), R, f"{q.qual}:runs", q.where(), "nothing is parsed")
        for e in cs:
            for a in own:
                ctx.need(arg(e.term, None, a) is P(a), R, f"{q.qual}:{a}", q.where(e.node), f"a stream is parsed with another {a} than asked for")
            local(ctx, R, q, e)
    # one group of the stream
    q = Q(ctx, PAR, "Parser.groupParsator", OP, limit=8000, fresh=EX + ("msgParsator", "asdict"))
    for e in q.w.events:
        if e.kind == "call" and fname(e.term) in ("_extractor", "extract", "sniff", "msgParsator", "b64ToVer"):
            ctx.need(covers(q, e, {"Exception", "BaseException"}), R, f"{q.qual}:typed {fname(e.term)}", q.where(e.node),
                     "bytes that cannot be read raise an error the callers do not take for unreadable: nothing is taken off the stream and the parser reads the same bytes for ever")
    ms = q.calls("msgParsator")
    ctx.need(bool(ms), R, f"{q.qual}:reads", q.where(), "no message is read from the stream")
    for e in ms:
        local(ctx, R, q, e)
        ctx.need(covers(q, e, {"SizedGroupError"}), R, f"{q.qual}:sized", q.where(e.node), "an error inside a group already taken off the stream is passed on as one of the whole stream: every message after it is lost")
    roots = {x for e in ms for x in (arg(e.term, None, "ims"),) if x is not None}
    for x in list(roots):
        if x.k == "phi":
            roots |= {P("ims"), A(me, "ims")}
    for k, st, v, nd in q.w.exits:
        if k != "raise":
            piped = (P("piped"), True) in st.facts
            ctx.need(piped or any(t in roots and not p for t, p in st.facts), R, f"{q.qual}:all", q.where(nd), "the parser leaves a group before its end, as after a message that was refused: messages after it are lost")
    nest(ctx, R, q, ms)
    cuts(ctx, R, q)
    looks(ctx, R, q)
    enclosed(ctx, R, q, ms)
    pr = q.calls("msgProcess")
    ctx.need(bool(pr), R, f"{q.qual}:processes", q.where(), "messages are read and never handled")
    for e in pr:
        processes(ctx, R, q, e)
        ctx.need(covers(q, e, {"Exception"}), R, f"{q.qual}:survives", q.where(e.node), "a message that is refused stops the stream: messages after it are never read")
    for k, st, v, nd in q.w.exits:
        if k == "raise" and v is not None:
            nm = exc_name(v)
            ctx.need(nm is None or ctx.model.exc_is(nm, "ExtractionError"), R, f"{q.qual}:raises", q.where(nd), f"an error in the stream comes out as {nm}, which no caller takes for unreadable bytes: they read the same bytes for ever")


def nest(ctx, R, q, ms):
    """what is enclosed is complete, what follows the enclosing group is as complete as it was before"""
    for e in ms:
        f, s = arg(e.term, None, "framed"), arg(e.term, None, "ims")
        ok = f is not None and any(x is P("framed") or x.k == "phi" for x in subterms(f))
        ctx.need(ok, R, f"{q.qual}:framed", q.where(e.node), "a message is taken for complete, or for incomplete, whatever was asked")
    phis = {(f.a[1], s.a[1]) for e in ms for f, s in ((arg(e.term, None, "framed"), arg(e.term, None, "ims")),) if f is not None and f.k == "phi" and s is not None and s.k == "phi"}
    for fn, sn in phis:
        for e in q.w.events:
            if e.kind != "whileend":
                continue
            sv, fv = strip(e.st.env.get(sn)), strip(e.st.env.get(fn))
            if sv is None or sv.k != "sub" or fname(strip(sv.a[0])) != "pop":
                continue
            pop, i = sv.a
            own = fv is not None and fv.k == "sub" and fv.a[0] is pop and fv.a[1] is not i
            ctx.need(own, R, f"{q.qual}:unnested", q.where(e.node), "what follows an enclosed group is taken as complete as the group: a message of which only a part has arrived is thrown away")
            vs = strip(e.st.heap.get((P("self"), "version")))
            back = vs is not None and vs.k == "sub" and vs.a[0] is pop and vs.a[1] not in (i, fv.a[1] if own else i)
            ctx.need(back, R, f"{q.qual}:version", q.where(e.node), "what follows an enclosed group is read under the group's version and not its own")
            for p in q.calls("append") if own else ():
                if recv(strip(p.term)) is recv(strip(pop)):
                    it = p.term.a[1][0]
                    j = fv.a[1]
                    el = it.a[0] if it.k in ("tup", "list") else ()
                    g = lambda c: el[c.a[0]] if c.k == "c" and isinstance(c.a[0], int) and c.a[0] < len(el) else None
                    ctx.need(g(i) is not None and g(j) is not None and g(j).k == "phi" and g(j).a[1] == fn and g(i).k == "phi" and g(i).a[1] == sn
                         and (not back or g(vs.a[1]) is not None and "self.version" in show(g(vs.a[1]))), R, f"{q.qual}:nested", q.where(p.node),
                             "on the way into an enclosed group the rest of the stream is not kept, or not whether it is complete")


def looks(ctx, R, q):
    """a counter is looked at in the domain its stream is in, whole, and left in place"""
    for e in q.calls("_extractor"):
        t = e.term
        x, c, ab = arg(t, None, "ims"), arg(t, None, "cold"), arg(t, None, "abort")
        ctx.need(x is not None, R, f"{q.qual}:look at", q.where(e.node), "a counter is read from another stream than the one parsed")
        ctx.need(c is not None and fname(strip(c)) == "sniff", R, f"{q.qual}:look cold", q.where(e.node), "a counter is read without looking in which domain the stream is")
        ctx.need(ab is not None and ab is not FALSE, R, f"{q.qual}:look abort", q.where(e.node), "a counter cut short in a stream that is complete is waited for without end")
        if x is not None and x.k == "phi" and c is not None and fname(strip(c)) == "sniff":
            ctx.need(arg(strip(c), 0, "ims") is x and q.holds(e, "c != 'msg'", {"c": c}), R, f"{q.qual}:look msg", q.where(e.node), "a message is read as a counter")
        k = arg(t, None, "klas")
        ctx.need(k is not None and k.k == "g", R, f"{q.qual}:look only", q.where(e.node), "what stands at the front of the stream is read as something else")
        if k is not None and k.k == "g" and k.a[0].split(".")[-1] == "Counter":
            ctx.need(arg(t, None, "strip") is FALSE, R, f"{q.qual}:look only", q.where(e.node), "a counter that is only looked at is taken off the stream")


def enclosed(ctx, R, q, ms):
    """groups that enclose messages: in, out, and what an error in one costs"""
    me, tag = P("self"), q.qual
    codes = [A(me, "sucodes"), A(me, "_sucodes")]
    isgen = lambda e, c: any(q.holds(e, "c.code in (m.GenericGroup, m.BigGenericGroup)", {"c": c, "m": m}) for m in codes)
    cut = lambda h: h.k == "del" and h.a[0].k == "sub" and h.a[0].a[1].k == "slice" and h.a[0].a[1].a[1] is not NONE and [k for k, _, _ in parts(h.a[0].a[1].a[1]) or ()] == ["byteCount"]
    popped = lambda h: h.k == "call" and fname(h) == "pop"
    roots = {x for e in ms for x in (arg(e.term, None, "ims"),) if x is not None and x.k == "phi"}
    flags = {x for e in ms for x in (arg(e.term, None, "framed"),) if x is not None and x.k == "phi"}
    for e in q.w.events:
        if e.kind == "del" and e.term.k == "sub" and e.term.a[1].k == "slice" and e.term.a[0].k == "phi" and e.term.a[1].a[1] is not NONE:
            for k, c, _ in parts(e.term.a[1].a[1]) or ():
                ctx.need(k == "byteCount" or isgen(e, c), R, f"{tag}:enclosing", q.where(e.node), "something that does not enclose messages is opened as if it did")
        elif e.kind == "del" and e.term.k == "sub" and e.term.a[1].k == "slice" and e.term.a[1].a[1] is not NONE and e.term.a[0].k == "sub":
            for k, c, _ in parts(e.term.a[1].a[1]) or ():
                ctx.need(any(q.holds(e, "c.code == m.KERIACDCGenusVersion", {"c": c, "m": A(me, m)}) for m in ("codes", "_codes")), R, f"{tag}:inner version", q.where(e.node), "something else than a version is taken off the front of a group")
    sized = {(e.term.a[0], e.term.a[1].a[1]) for e in q.w.events if e.kind == "del" and cut(mk("del", e.term))}
    for e in q.w.events:
        if e.kind == "yield" and e.term in (None, NONE):
            ctx.need(any(q.holds(e, "len(x) < n and not f", {"x": x, "n": n, "f": f}) for x, n in sized for f in flags | {P("framed")}), R, f"{tag}:waits", q.where(e.node), "a group that is there, or can never be, is waited for without end")
        elif e.kind == "whileend":
            go = any(h.k in ("yield", "caught") or cut(h) or popped(h) or h.k == "call" and fname(h) in ("msgParsator", "msgProcess") for h in e.st.hist) or any(x.k == "fresh" and fname(strip(x)) == "msgParsator" for h in e.st.hist for x in (h,))
            ctx.need(go, R, f"{tag}:goes on", q.where(e.node), "the parser spins without giving the stream a chance to grow")
    ctx.need(any(e.kind == "store" and e.term is A(me, "version") and e.value is P("version") for e in q.w.events), R, f"{tag}:under", q.where(), "the stream is read under another version than asked for")
    opened, outs, names = 0, 0, set()
    for e in q.w.events:
        if e.kind != "whileend":
            continue
        st = e.st
        c = [h for h in st.hist if cut(h)]
        ver = st.heap.get((me, "version"))
        if any(popped(h) for h in st.hist):
            for s in roots:
                v = strip(st.env.get(s.a[1]))
                if v is None:
                    continue
                if v.k == "sub" and popped(strip(v.a[0])):
                    outs += 1
                    ctx.need(any(t in roots and not p for t, p in st.facts), R, f"{tag}:out", q.where(e.node), "a group is left before its end: the messages left in it are lost")
                else:
                    vs = strip(ver)
                    ok = vs is not None and vs.k == "sub" and popped(strip(vs.a[0])) or any(not p and t.k == "sub" and popped(strip(t.a[0])) for t, p in st.facts)
                    ctx.need(ok, R, f"{tag}:restored", q.where(e.node), "after an error in an enclosing group the rest of the stream is read under the group's version")
            continue
        if not c:
            continue
        X, n = next((h.a[0].a[0], h.a[0].a[1].a[1]) for h in c)
        names |= {k for k, v in st.env.items() if v is n}
        inside_ = front(X, n)
        for s in roots:
            ctx.need(same(strip(st.env.get(s.a[1])), inside_), R, f"{tag}:opened", q.where(e.node), "an enclosing group is opened and what it encloses is not read")
        for f in flags:
            ctx.need(st.env.get(f.a[1]) is TRUE, R, f"{tag}:whole", q.where(e.node), "what an enclosing group holds is not taken for complete: a part that is missing in it is waited for without end")
        kept = any(h.k == "call" and fname(h) == "append" for h in st.hist)
        ctx.need(kept, R, f"{tag}:kept", q.where(e.node), "the stream after an enclosing group is forgotten")
        opened += 1
        inner = [t for h in st.hist for t in (strip(h),) if t.k == "call" and fname(t) == "_extractor" and same(arg(t, None, "ims"), inside_)]
        ctx.need(bool(inner), R, f"{tag}:inner version", q.where(e.node), "the version a group states for what it encloses is not read")
        conv = ver is not None and fname(strip(ver)) == "b64ToVer"
        called = any(t.k == "call" and fname(t) == "b64ToVer" for h in st.hist for t in (strip(h),))
        ctx.need(called == conv, R, f"{tag}:inner version", q.where(e.node), "what a group encloses is read under another version than it states")
        if conv:
            b = strip(ver).a[1][0] if strip(ver).a[1] else dict(strip(ver).a[2]).get("b64")
            ic = recv(b) if b is not None and fname(b) == "countToB64" else None
            ok = ic is not None and arg(b, 0, "l") is C(3) and peeked(ic) is not None and same(peeked(ic)[0], inside_)
            ctx.need(ok, R, f"{tag}:inner version", q.where(e.node), "what a group encloses is read under another version than it states")
            own = any(h.k == "del" and h.a[0].k == "sub" and same(h.a[0].a[0], inside_) for h in st.hist)
            ctx.need(own, R, f"{tag}:inner counter", q.where(e.node), "a version counter is read and left in the stream, to be read again as a message")
    ctx.need(opened > 0, R, f"{tag}:opens", q.where(), "messages enclosed in a group are never read")
    ctx.need(outs > 0, R, f"{tag}:out", q.where(), "what follows an enclosing group is never read")
    for e in q.calls("append"):
        if fname(strip(e.term.a[1][0])) == "msgParsator":
            continue
        said = {p for t, p in e.facts if t.k == "eq" and any(x.k == "a" and x.a[1] == "KERIACDCGenusVersion" for x in t.a)}
        conv = any(t.k == "call" and fname(t) == "b64ToVer" for h in e.hist for t in (strip(h),))
        ctx.need(said == {conv} or conv and not said, R, f"{tag}:inner version", q.where(e.node), "what a group encloses is read under another version than it states")
    pops = q.calls("pop")
    for e in pops:
        ctx.need(q.holds(e, "s", {"s": recv(strip(e.term))}), R, f"{tag}:out", q.where(e.node), "the end of the stream is an error: the last message is told to be unreadable")
    stacks = {recv(strip(x.term)) for x in pops}
    lists = {recv(e.term) for e in q.calls("append") if fname(strip(e.term.a[1][0])) == "msgParsator"}
    ctx.need(bool(lists), R, f"{tag}:given", q.where(), "messages read without handling them are not given back")
    ends = 0
    for k, st, v, nd in q.w.exits:
        if k == "raise":
            nm = exc_name(v) if v is not None else None
            told = {p for t, p in st.facts if t.k in ("eq", "none", "is") and (t.k == "none" or NONE in t.a) and any(x.k == "phi" and x.a[1] in names or fname(x) == "byteCount" for x in t.a)}
            if nm == "SizedGroupError":
                ctx.need(not names or False in told or any(cut(h) for h in st.hist), R, f"{tag}:sized", q.where(nd), "an error outside any group is told as one inside: the parser reads the same bytes for ever")
            elif nm == "ExtractionError":
                ctx.need(not names or True in told, R, f"{tag}:sized", q.where(nd), "an error inside a group already taken off the stream is told as one of the whole stream: every message after it is lost")
        elif (P("piped"), True) not in st.facts:
            ends += 1
            if (P("processive"), True) not in st.facts:
                ctx.need(v in lists, R, f"{tag}:given", q.where(nd), "messages read without handling them are not given back")
            ctx.need(any(not p and t in stacks for t, p in st.facts), R, f"{tag}:all", q.where(nd), "the parser stops inside an enclosing group: what follows it is lost")
    ctx.need(ends > 0, R, f"{tag}:ends", q.where(), "a stream that was read to its end is read on without end")
    for e in q.calls("append"):
        if fname(strip(e.term.a[1][0])) == "msgParsator":
            ctx.need(q.holds(e, "not processive"), R, f"{tag}:given", q.where(e.node), "messages are given back unhandled")
    for e in q.calls("msgProcess"):
        ctx.need(q.holds(e, "processive"), R, f"{tag}:asked", q.where(e.node), "a message is handled in a stream that was only to be read")
    for e in ms:
        x = arg(e.term, None, "ims")
        sn = [t for f, p in e.facts for t in subterms(f) if t.k == "call" and fname(t) == "sniff" and arg(t, 0, "ims") is x]
        seen = [t for h in e.hist for t in (strip(h),) if t.k == "call" and fname(t) == "_extractor" and arg(t, None, "ims") is x]
        ctx.need(bool(seen) or any(q.holds(e, "s == 'msg'", {"s": t}) for t in sn), R, f"{tag}:looked", q.where(e.node), "a group that encloses messages is read as a message")
        v = arg(e.term, None, "version")
        ctx.need(v is not None and "version" in show(v), R, f"{tag}:under", q.where(e.node), "a message is read under another version than its stream's")
        gen = [h for h in e.hist if cut(h)]
        ctx.need(not gen, R, f"{tag}:looked", q.where(e.node), "a group that encloses messages is opened and read as a message")
    init = {y for s in roots for y in q.w.phis.get(s, {"init": ()})["init"]}
    ctx.need(not init or {P("ims"), A(me, "ims")} <= init | {y for s in roots for z in init if z.k == "phi" for y in q.w.phis.get(z, {"init": ()})["init"]}, R, f"{tag}:stream", q.where(), "another stream than the one given is parsed")


def local(ctx, R, q, e):
    """the origin asked for, else the parser's own, else remote"""
    ctx.need(origin(q, e, arg(e.term, None, "local")), R, f"{q.qual}:origin", q.where(e.node), "a message from elsewhere is handled as if it were the controller's own, or the reverse")


def origin(q, e, v):
    if v is TRUE:
        return q.holds(e, "local || local is None and self.local")
    if v is FALSE:
        return q.holds(e, "not local and local is not None || local is None and not self.local")
    if v is None:
        return False
    if v is P("local"):
        return True
    return any(x is P("local") for x in subterms(v))


def processes(ctx, R, q, e):
    ex = arg(e.term, None, "exts")
    src = strip(ex)
    got = src is not None and src.k == "call" and fname(src) == "asdict" and src.a[1] and fname(strip(src.a[1][0])) == "msgParsator"
    ctx.need(got, R, f"{q.qual}:whole", q.where(e.node), "another message than the one just read, or without its attachments, is handled")
    for a in ("kvy", "tvy", "exc", "rvy", "vry"):
        v = arg(e.term, None, a)
        ctx.need(v is not None and alts(v) <= {P(a), A(P("self"), a)}, R, f"{q.qual}:{a}", q.where(e.node), f"a message is handled with another {a} than the stream's")


def driver(ctx, R, q, inner, handlers, plain_, process=False):
    cs = q.calls(inner)
    ctx.need(bool(cs), R, f"{q.qual}:reads", q.where(), "nothing is read from the stream")
    for e in cs:
        for a in handlers + ("framed", "piped"):
            v = arg(e.term, None, a)
            ctx.need(v is P(a) and not q.holds(e, f"{a} is None") or v is A(P("self"), a) and q.holds(e, f"{a} is None") or v is not None and v.k == "phi" and alts(v) == {P(a), A(P("self"), a)}, R, f"{q.qual}:{a}", q.where(e.node), f"a stream is parsed with another {a} than asked for")
        for a in plain_:
            ctx.need(arg(e.term, None, a) is P(a), R, f"{q.qual}:{a}", q.where(e.node), f"a stream is parsed with another {a} than asked for")
        local(ctx, R, q, e)
    if process:
        pr = q.calls("msgProcess")
        ctx.need(bool(pr), R, f"{q.qual}:processes", q.where(), "messages are read and never handled")
        for e in pr:
            processes(ctx, R, q, e)


def peeked(c):
    """(stream, cold) of a counter looked at but left in place"""
    s = strip(c)
    if klas(c) != "Counter" or arg(s, None, "strip") is not FALSE:
        return None
    return arg(s, 0, "ims"), arg(s, 2, "cold")


def parts(n):
    """the counter measures a length is the sum of"""
    m = n
    if m.k == "bin" and m.a[0] == "+":
        a, b = parts(m.a[1]), parts(m.a[2])
        return a + b if a and b else None
    if m.k == "call" and m.a[0].k == "a" and m.a[0].a[1] in ("byteSize", "byteCount"):
        return [(m.a[0].a[1], m.a[0].a[0], arg(m, 0, "cold"))]
    return None


def cuts(ctx, R, q):
    """only what a counter at the front delimits is taken off a stream"""
    tag = q.qual
    fr = {x for e in q.calls("_extractor") for x in (arg(e.term, None, "abort"),) if x is not None and x.k != "c"} | {P("framed")}
    for e in q.w.events:
        if e.kind != "del" or e.term.k != "sub" or e.term.a[1].k != "slice":
            continue
        X, sl = e.term.a
        ok = sl.a[0] is NONE and sl.a[2] is NONE and sl.a[1] is not NONE
        ps = parts(sl.a[1]) if ok else None
        line = e.line
        ctx.need(ok and bool(ps), R, f"{tag}:cut {line if not ok else ''}".strip(), q.where(e.node), "something is taken off the stream that no counter delimits: what follows is misread")
        if not ps:
            continue
        cs = {c for _, c, _ in ps}
        pk = peeked(next(iter(cs))) if len(cs) == 1 else None
        kinds = sorted(k for k, _, _ in ps)
        good = pk is not None and len(set(kinds)) == len(kinds) and pk[0] is X and all(cold is pk[1] for _, _, cold in ps)
        ctx.need(good, R, f"{tag}:measured", q.where(e.node), "a part taken off the stream is measured by another counter, or in the other domain, than stands at its front: what follows is misread")
        if "byteCount" in kinds:
            ctx.need(any(q.holds(e, "not len(x) < n or f", {"x": X, "n": sl.a[1], "f": f}) for f in fr),
                     R, f"{tag}:complete", q.where(e.node), "a group is cut out before all of it has arrived")
            if kinds == ["byteCount"]:
                c = next(iter(cs))
                own = front(X, mk("call", A(c, "byteSize"), (), (("cold", pk[1]),))) if pk else None
                ctx.need(any(h.k == "del" and same(h.a[0], own) for h in e.hist), R, f"{tag}:counter first", q.where(e.node), "a group is cut out with its own counter in it and its tail left behind")


@prop("P01")
def message(ctx):
    R = "P01.message"
    ctx.rule(R, "a message and its attachments are cut out of the stream exactly where their counters say, into a container of their own, under the origin asked for", 25)
    q = Q(ctx, PAR, "Parser.msgParsator", OP, limit=2000, fresh=EX + ("msgParsator",), snaps=("_",))
    me = P("self")
    tag = q.qual
    made = {e.term for e in q.w.events if e.kind == "call" and e.term.a[0].k == "g" and e.term.a[0].a[0].split(".")[-1] == "MsgParseDom"}
    if not ctx.need(len(made) == 1, R, f"{tag}:fresh", q.where(), "a message's attachments are not gathered in a container of its own: they reach another message"):
        return
    dom = next(iter(made))
    for st, v, nd in q.exits():
        if v is NONE or v is None:
            ctx.need(q.holds(st, "piped"), R, f"{tag}:result", q.where(nd), "a message read from the stream is dropped")
            continue
        ctx.need(v is dom, R, f"{tag}:result", q.where(nd), "another message than the one just read is returned")
        ctx.need(assigned(st, dom, "serder"), R, f"{tag}:body", q.where(nd), "attachments without a message are returned")
        ctx.need(assigned(st, dom, "local"), R, f"{tag}:origin kept", q.where(nd), "a message does not carry the origin it was read under: it is taken for the controller's own")
    lo, so = P("local"), A(me, "local")
    for e in q.w.events:
        if e.kind == "store" and e.term is A(dom, "local"):
            v = e.value
            ok = v is TRUE and q.holds(e, "local || self.local") and not q.holds(e, "not local and local is not None") or v is FALSE and q.holds(e, "not local || not self.local") or v is lo
            ctx.need(ok, R, f"{tag}:origin", q.where(e.node), "a message is taken to come from elsewhere than it does")
        elif e.kind == "store" and e.term is A(dom, "serder"):
            v = e.value
            ctx.need(fname(v) == "reap", R, f"{tag}:serder", q.where(e.node), "what is taken for the message is not what the message reader made of the stream")
        elif e.kind == "store" and e.term.k == "a" and e.term.a[0] is dom:
            ctx.need(False, R, f"{tag}:{e.term.a[1]}", q.where(e.node), f"a message is given {e.term.a[1]} that no group in the stream holds")
    ctx.need(any(e.kind == "store" and e.term is A(dom, "serder") for e in q.w.events), R, f"{tag}:serder", q.where(), "no message is read")

    cuts(ctx, R, q)
    # attachments
    gets = [e for e in q.w.events if e.kind == "call" and e.term.a[0].k == "call" and fname(e.term.a[0]) == "getattr"]
    ctx.need(bool(gets), R, f"{tag}:attachments", q.where(), "no attachment is ever read")
    for e in gets:
        g = e.term.a[0]
        c = arg(e.term, None, "ctr")
        pk = peeked(c) if c is not None else None
        name = g.a[1][1] if len(g.a[1]) > 1 else None
        okn = name is not None and name.k == "sub" and chain(name.a[0]) is not None and chain(name.a[0])[-1] in ("methods", "_methods") and c is not None and name.a[1] is A(c, "name")
        ctx.need(okn, R, f"{tag}:by code", q.where(e.node), "an attachment group is read by the method of another code")
        ctx.need(arg(e.term, None, "exts") is dom, R, f"{tag}:into", q.where(e.node), "an attachment is put to another message than it came with")
        if pk:
            ctx.need(arg(e.term, None, "ims") is pk[0] and arg(e.term, None, "cold") is pk[1], R, f"{tag}:from", q.where(e.node), "an attachment group is read from another place, or in the other domain, than its counter")
            own = front(pk[0], mk("call", A(c, "byteSize"), (), (("cold", pk[1]),)))
            ctx.need(any(h.k == "del" and same(h.a[0], own) for h in e.hist), R, f"{tag}:counter taken", q.where(e.node), "an attachment group is read with its own counter taken for its first element")
        else:
            ctx.need(False, R, f"{tag}:from", q.where(e.node), "an attachment group is read without its counter")
    for e in q.calls("msgParsator"):
        v = arg(e.term, None, "local")
        ctx.need(v is not None and (v is lo or v is TRUE and q.holds(e, "local || self.local") or v is FALSE and q.holds(e, "not local || not self.local")), R, f"{tag}:nested origin", q.where(e.node), "a nested message is taken to come from elsewhere than the message it is nested in")
    puts = [e for e in q.w.events if e.kind == "call" and fname(e.term) == "append" and e.term.a[0].a[0] is A(dom, "nests")]
    ctx.need(bool(puts) and all(fname(strip(e.term.a[1][0])) == "msgParsator" for e in puts), R, f"{tag}:nested", q.where(), "nested messages are lost")
    # how an error is told
    def isgroup(h):
        if h.k != "del" or h.a[0].k != "sub" or h.a[0].a[1].k != "slice":
            return False
        ps = parts(h.a[0].a[1].a[1])
        return bool(ps) and [k for k, _, _ in ps] == ["byteCount"]
    for k, st, v, nd in q.w.exits:
        if k != "raise" or v is None:
            continue
        nm = exc_name(v)
        if nm == "SizedGroupError":
            ctx.need(any(isgroup(h) for h in st.hist) or any(h.k == "caught" for h in st.hist), R, f"{tag}:sized", q.where(nd), "an error outside any sized group is told as one inside: the parser goes on in the middle of what it could not read")
    serds = [e for e in q.w.events if e.kind == "call" and fname(e.term) == "reap"]
    for e in serds:
        ctx.need(text(arg(e.term, None, "genus")) in (text(A(me, "genus")), text(A(me, "_genus"))), R, f"{tag}:genus", q.where(e.node), "a message is read under another code table than the stream's")
        c = arg(e.term, None, "ctr")
        if c is not None and c is not NONE:
            pk = peeked(c)
            s = arg(e.term, 0, "ims")
            while s is not None and s.k == "call" and fname(s) in ("encodeB64", "bytearray", "bytes"):
                s = s.a[1][0] if s.a[1] else s.a[2][0][1]
            ok = pk is not None and s is not None and s.k == "sub" and s.a[0] is pk[0] and s.a[1].k == "slice" and s.a[1].a[0] is NONE
            ps = parts(s.a[1].a[1]) if ok else None
            ctx.need(ok and ps is not None and sorted(k for k, _, _ in ps) == ["byteCount", "byteSize"] and {x for _, x, _ in ps} == {c}, R, f"{tag}:native", q.where(e.node), "a native message is read from other bytes than its counter covers")
            fx = arg(e.term, None, "fixed")
            ctx.need(fx in (TRUE, FALSE), R, f"{tag}:fixed", q.where(e.node), "a native message is read without saying which kind")
            if fx in (TRUE, FALSE):
                fixcodes = "c.code in (m.FixBodyGroup, m.BigFixBodyGroup)" if fx is TRUE else "c.code in (m.MapBodyGroup, m.BigMapBodyGroup)"
                ctx.need(any(q.holds(e, fixcodes, {"c": c, "m": A(me, a)}) for a in ("mucodes", "_mucodes")), R, f"{tag}:fixed", q.where(e.node), "a native message of fixed fields is read as a field map, or the reverse")
