"""Keystore: each key set follows the one before it, is kept as long as it is needed, and stays secret."""
import ast
import string

from . import prop
from .corelib import *
from .kel import KB
from .rct import norm
from .esc import hist_calls, comps
from .kram import lin
from ..engine import subst
from . import corelib


def arg(t, pos, *names):
    return corelib.arg(t, pos, *names) if t is not None else None


KP = "src/keri/app/keeping.py"
SB = "src/keri/db/subing.py"
OP = KB | {"nowIso8601", "create", "make", "riKey", "encrypt", "decrypt", "verifySeed"}
REC = ("PubLot", "PreSit", "PubSet", "PrePrm")


def text(t):
    """a key in text or in bytes is the same key"""
    t = norm(t) if t is not None else None
    while t is not None and t.k == "a" and t.a[1] == "qb64b":
        t = norm(A(t.a[0], "qb64"))
    if t is not None and t.k == "tup" and len(t.a[0]) == 1:
        return text(t.a[0][0])
    return t


def fold(t):
    """read an attribute of a record just made"""
    if t is not None and t.k == "a":
        b = fold(t.a[0])
        if fname(b) in REC and arg(b, None, t.a[1]) is not None:
            return fold(arg(b, None, t.a[1]))
        return A(b, t.a[1])
    return t


def imgs(q, L, n=0):
    """[(sequence, its element, value)]: L has exactly one value for each of the sequence, in order; None if not known to"""
    L = fold(L)
    if L is None or n > 6:
        return None
    if fname(L) in ("list", "tuple") and L.a[0].k == "g" and len(L.a[1]) == 1:
        return imgs(q, L.a[1][0], n + 1)
    if L.k == "comp" and q.w.comp_elems.get(L):
        val, gens = q.w.comp_elems[L]
        if len(gens) != 1 or gens[0][1]:
            return None
        it = gens[0][0]
        if fname(it) == "enumerate":
            it = it.a[1][0]
        base = imgs(q, it, n + 1)
        if base is None:
            return None
        return [(r, E, fold(subst(val, {q.w.elem_of(it): v}))) for r, E, v in base]
    if L.k == "new":
        out, loops = [], [b for b in q.w.events if b.kind == "bodyend"]
        got = appended(q, L)
        if not got:
            return None
        for v, e in got:
            mine = [b for b in loops if b.node is not None and any(z is q.w.elem_of(core(b.term)) for z in subterms(v))]
            at = {e.line} | set(getattr(e, "sites", None) or ())
            def inside(b):
                return b.node is not None and any(b.node.lineno <= n <= b.node.end_lineno for n in at)
            own = [b for b in mine if inside(b)] or mine or [b for b in loops if inside(b)]
            seqs = {core(b.term): b.node for b in own}
            # the innermost loop around the appending
            if not seqs:
                return None
            r, nd = max(seqs.items(), key=lambda x: x[1].lineno)
            for b in own:
                if core(b.term) is r and b.node is nd and not any(fname(h) == "append" and recv(h) is L for h in hist_calls(b)):
                    return None
            if any(x.kind == "break" and x.node is not None and nd.lineno <= x.line <= nd.end_lineno for x in q.w.events):
                return None
            base = imgs(q, r, n + 1)
            if base is None:
                return None
            for r2, E, w in base:
                x = (r2, E, fold(subst(v, {q.w.elem_of(r): w})))
                if x not in out:
                    out.append(x)
        return out
    if L.k in ("phi",):
        cs = [imgs(q, c, n + 1) for c in comps(L) if c is not L]
        if not cs or any(c is None for c in cs):
            return None
        return [x for c in cs for x in c]
    return [(L, q.w.elem_of(L), q.w.elem_of(L))]


def ran(st, got):
    """the images whose sequence was gone through on the way here"""
    if got is None:
        return None
    r = [g for g in got if any(h.k == "looped" and fold(core(h.a[0])) is fold(g[0]) for h in st.hist)]
    return r or got


def core(it):
    if fname(it) == "enumerate" and it.a[1]:
        return it.a[1][0]
    return it


def of(q, L, K, path, wrap=None):
    """every value of L is, in order, the one of K's elements along path"""
    got = imgs(q, L)
    if not got:
        return False
    for r, E, v in got:
        if fold(r) is not K:
            return False
        if wrap is not None:
            v = wrap(v)
            if v is None:
                return False
        w = E
        for p in path:
            w = A(w, p)
        if text(v) is not text(w):
            return False
    return True


def size(q, X, n=0):
    """number of items"""
    X = fold(X)
    if X is None or n > 6:
        return X
    if X.k == "comp" and q.w.comp_elems.get(X):
        gens = q.w.comp_elems[X][1]
        if len(gens) == 1 and not gens[0][1]:
            it = gens[0][0]
            if fname(it) == "range" and len(it.a[1]) == 1:
                return it.a[1][0]
            return size(q, it, n + 1)
    if fname(X) == "create" and arg(X, 0, "codes") is not None:
        return size(q, arg(X, 0, "codes"), n + 1)
    if X.k == "new":
        got = imgs(q, X)
        if got and len({r for r, _, _ in got}) == 1 and got[0][0] is not X:
            return size(q, got[0][0], n + 1)
    if X.k == "bin" and X.a[0] == "*":
        for a, b in ((X.a[1], X.a[2]), (X.a[2], X.a[1])):
            if tup(a) is not None and len(tup(a)) == 1:
                return b
    return mk("call", G("len"), (X,), ())


def num(q, t):
    """linear form, with lengths in one spelling"""
    d, c = lin(fold(t))
    out = {}
    for x, k in d.items():
        x = fold(x)
        if fname(x) == "len" and x.a[1]:
            x = size(q, x.a[1][0])
            d2, c2 = lin(x)
            c += k * c2
            for y, m in d2.items():
                out[y] = out.get(y, 0) + k * m
            continue
        out[x] = out.get(x, 0) + k
    return frozenset((x, k) for x, k in out.items() if k), c


def eqn(q, t, *sum_):
    """t is the sum of the given terms and numbers"""
    if t is None or any(s is None for s in sum_):
        return False
    tot, c = {}, 0
    for s in sum_:
        if isinstance(s, (int, float)):
            c += s
            continue
        d, k = num(q, s)
        c += k
        for x, m in d:
            tot[x] = tot.get(x, 0) + m
    return num(q, t) == (frozenset((x, k) for x, k in tot.items() if k), c)


def params(q, K):
    """(algo, salt, stem, tier) the creator of keys was made with"""
    m = recv(K)
    if fname(m) != "make" or fname(recv(m)) != "Creatory":
        return None
    return arg(recv(m), 0, "algo"), arg(m, None, "salt"), arg(m, None, "stem"), arg(m, None, "tier")


def of_codes(q, e, K, name, code, count):
    """the codes asked for, or when there are none count times code"""
    L = arg(K, 0, "codes")
    if L is P(name):
        return q.holds(e, name)
    if not q.holds(e, "not " + name):
        return False
    if L is not None and L.k == "comp" and q.w.comp_elems.get(L):
        val, gens = q.w.comp_elems[L]
        return val is P(code) and len(gens) == 1 and not gens[0][1] and size(q, L) is P(count)
    if L is not None and L.k == "bin" and L.a[0] == "*":
        return size(q, L) is P(count) and any(tup(x) == [P(code)] for x in L.a[1:])
    return False


def ks_op(t, store, *methods):
    return fname(t) in methods and chain(recv(t))[-1] == store if t is not None and recv(t) is not None else False


def found(st, store, *methods, **kw):
    out = []
    for t in hist_calls(st):
        if ks_op(t, store, *methods):
            out.append(t)
    return out


def stored(st, base, attr):
    """value stored last known in a record's attribute"""
    return [h.a[1] for h in st.hist if h.k == "store" and h.a[0] is A(base, attr)]


def key(t):
    return text(arg(t, 0, "keys"))


def is_lot(q, t, K):
    t = fold(t)
    return fname(t) == "PubLot" and of(q, arg(t, None, "pubs"), K, ("verfer", "qb64")) and eqn(q, arg(t, None, "ridx"), arg(K, None, "ridx")) and eqn(q, arg(t, None, "kidx"), arg(K, None, "kidx"))


def is_diger(v):
    return arg(v, None, "ser") if fname(v) == "Diger" and arg(v, None, "code") is P("dcode") else None


def ri(q, t, pre, n):
    """place of a key set: identifier and number of its establishment event"""
    t = arg(t, 0, "keys")
    return fname(t) == "riKey" and text(arg(t, 0, "pre")) is text(pre) and eqn(q, arg(t, 1, "ri"), *(n if isinstance(n, tuple) else (n,)))


def pubs_put(q, st, pre, n, same):
    return any(ri(q, t, pre, n) and fname(arg(t, 1, "val")) == "PubSet" and same(arg(arg(t, 1, "val"), None, "pubs")) for t in found(st, "pubs", "put", "pin"))


def keeps(q, b, seq):
    """this round through the keys stores the private key under its public key, encrypted"""
    E = q.w.elem_of(seq)
    if seq.k == "comp" and q.w.comp_elems.get(seq):
        E = q.w.comp_elems[seq][0]
    return any(key(t) in (text(A(A(E, "verfer"), "qb64")), text(q.term("e.verfer.qb64b", {"e": E}))) and arg(t, 1, "val") is E for t in found(b, "pris", "put", "pin"))


def all_kept(q, x, seq):
    """every private key of the sequence was stored before"""
    if not any(h.k == "looped" and core(h.a[0]) is seq for h in x.hist):
        return False
    bs = [b for b in q.w.events if b.kind == "bodyend" and core(b.term) is seq]
    groups = {}
    for b in bs:
        groups.setdefault(b.node, []).append(b)
    return any(all(keeps(q, b, seq) for b in g) and not any(e.kind == "break" and e.node is not None and nd is not None and nd.lineno <= e.line <= nd.end_lineno for e in q.w.events) for nd, g in groups.items())


def made(x):
    return [t for t in hist_calls(x) if fname(t) == "create"]


def put_true(q, x, store, pre, val):
    return any(p and ks_op(f, store, "put") and key(f) is text(pre) and val(arg(f, 1, "val")) for f, p in x.facts)


def returns(q):
    return [(st, v, nd) for k, st, v, nd in q.w.exits if k == "return"]


@prop("A01")
def sequence(ctx):
    R1 = "A01.sequence"
    ctx.rule(R1, "the keys of an identifier are created in one sequence: each set at the place after the set before it, with the identifier's own parameters", 20)
    R2 = "A01.recorded"
    ctx.rule(R2, "the record of an identifier names the keys returned: rotation and replay make the next keys current, the current ones old, and the created or stored following ones next", 20)
    R3 = "A01.kept"
    ctx.rule(R3, "private keys are stored before the record that names them, and erased only once they are two key sets old", 10)
    R4 = "A01.own"
    ctx.rule(R4, "an identifier's record is never written over by an inception or a move of another", 8)
    # inception
    q = Q(ctx, KP, "Manager.incept", OP, limit=6000)
    out = returns(q)
    ctx.need(bool(out), R2, f"{q.qual}:incepts", q.where(), "no inception succeeds")
    cs = q.calls("create")
    for e in cs:
        K, w = e.term, q.where(e.node)
        first = [t for t in made(e) if t is not K]
        pr = params(q, K)
        ctx.need(text(arg(K, None, "pidx")) is q.term("self.pidx") and arg(K, None, "transferable") is P("transferable") and arg(K, None, "temp") is P("temp"), R1, f"{q.qual}:parameters", w,
                 "keys are created with other parameters than those given")
        if not first:
            ctx.need(eqn(q, arg(K, None, "ridx"), 0) and eqn(q, arg(K, None, "kidx"), 0) and of_codes(q, e, K, "icodes", "icode", "icount"), R1, f"{q.qual}:first keys", w, "the first keys are not the first of their sequence")
        else:
            F = first[0]
            ctx.need(recv(F) is recv(K) or params(q, F) == pr, R1, f"{q.qual}:same creator", w, "next keys are created with other parameters than the first")
            ctx.need(eqn(q, arg(K, None, "ridx"), 1) and of_codes(q, e, K, "ncodes", "ncode", "ncount"), R1, f"{q.qual}:next keys", w, "the next keys are not those of the first rotation")
            ctx.need(eqn(q, arg(K, None, "kidx"), size(q, arg(F, 0, "codes"))), R1, f"{q.qual}:next place", w, "the next keys are not created at the places after the first ones: they could be the same keys")
            ctx.need(arg(K, 1, "count") is C(0) or q.holds(e, "ncodes"), R1, f"{q.qual}:no keys", w, "keys are created though none are asked for")
        if pr is not None:
            for n, t in zip(("algo", "salt", "stem", "tier"), pr):
                root = q.term(f"self.{n}") if n != "stem" else None
                good = t is not None and set(comps(t)) <= {P(n), root}
                if root is not None and t is root:
                    good = good and q.holds(e, f"rooted and {n} is None")
                elif root is not None and t is P(n):
                    good = good and q.holds(e, f"not (rooted and {n} is None)")
                ctx.need(good, R1, f"{q.qual}:creator {n}", w, f"keys are not created with the {n} given, or the root one")
        ctx.need(pr is not None, R1, f"{q.qual}:creator", w, "keys are not created by the creator of the algorithm given")
    ctx.need(len(cs) >= 2, R1, f"{q.qual}:both", q.where(), "an inception does not create both first and next keys")
    for st, v, nd in out:
        w = q.where(nd)
        ks = made(st)
        k0 = [t for t in ks if eqn(q, arg(t, None, "ridx"), 0)]
        k1 = [t for t in ks if eqn(q, arg(t, None, "ridx"), 1)]
        if not (len(k0) == 1 and len(k1) == 1 and v is not None and len(tup(v) or ()) == 2):
            ctx.bad(R2, f"{q.qual}:returned", w, "an inception does not return its first and next keys")
            continue
        k0, k1 = k0[0], k1[0]
        vs, ds = tup(v)
        ctx.need(of(q, vs, k0, ("verfer",)), R2, f"{q.qual}:returned keys", w, "an inception returns other keys than it created")
        ctx.need(of(q, ds, k1, ("verfer", "qb64"), is_diger), R2, f"{q.qual}:returned digests", w, "an inception returns digests of other keys than the next ones it created, or by another code")
        pres = [key(t) for t in found(st, "sits", "put", "pin")]
        pre = pres[0] if pres else None
        ctx.need(pre is not None and pre is text(A(q.w.mksub(vs, C(0)), "qb64")), R2, f"{q.qual}:under its first key", w, "an identifier is recorded under another key than its first")
        isit = lambda t: fname(t) == "PreSit" and is_lot(q, arg(t, None, "new"), k0) and is_lot(q, arg(t, None, "nxt"), k1)
        cr = recv(k0)
        pr = params(q, k0)

        def isprm(t):
            if pr is None or fname(t) != "PrePrm" or text(arg(t, None, "pidx")) is not q.term("self.pidx") or arg(t, None, "algo") is not pr[0]:
                return False
            if arg(t, None, "stem") is not A(cr, "stem") or arg(t, None, "tier") is not A(cr, "tier"):
                return False
            s = stored(st, t, "salt") or [x for x in (arg(t, None, "salt"),) if x is not None]
            return any(safe_salt(q, st, x, A(cr, "salt")) for x in s) or not s and q.holds(st, "not s", {"s": A(cr, "salt")})
        ctx.need(pre is not None and put_true(q, st, "sits", pre, isit), R2, f"{q.qual}:situation", w, "the keys created are not recorded as the identifier's current and next, or an existing record is written over")
        ctx.need(pre is not None and put_true(q, st, "prms", pre, isprm), R2, f"{q.qual}:parameters", w, "the parameters keys were created with are not recorded, or an existing record is written over")
        ctx.need(pre is not None and put_true(q, st, "pres", pre, lambda t: fname(t) == "Prefixer" and text(arg(t, None, "qb64")) is pre), R4, f"{q.qual}:new identifier", w, "an identifier already held is incepted again")
        ctx.need(any(eqn(q, t, q.term("self.pidx"), 1) for t in stored(st, P("self"), "pidx")), R1, f"{q.qual}:pidx", w, "two identifiers' keys are created at the same prefix index")
        ctx.need(all_kept(q, st, k0) and all_kept(q, st, k1), R3, f"{q.qual}:private keys", w, "the private key of a key created is not kept")
        for n, k in ((0, k0), (1, k1)):
            ctx.need(pre is not None and pubs_put(q, st, pre, n, lambda L: of(q, L, k, ("verfer", "qb64"))), R2, f"{q.qual}:replay {n}", w, "a key set is not recorded for replay under its own place")
    for e in q.w.events:
        if e.kind == "call" and any(ks_op(e.term, s, "pin") for s in ("pres", "prms", "sits")):
            ctx.bad(R4, f"{q.qual}:written over", q.where(e.node), "an inception may write over an existing identifier's record")
    # rotation and replay
    for name in ("rotate", "replay"):
        q = Q(ctx, KP, f"Manager.{name}", OP, limit=6000)
        PS = {t for e in q.w.events if e.kind == "call" for t in (e.term,) if ks_op(t, "sits", "get") and key(t) is P("pre")}
        PP = {t for e in q.w.events if e.kind == "call" for t in (e.term,) if ks_op(t, "prms", "get") and key(t) is P("pre")}
        if len(PS) != 1 or len(PP) != 1:
            ctx.bad(R1, f"{q.qual}:read", q.where(), "the identifier's own record is not read")
            continue
        ps, pp = PS.pop(), PP.pop()
        old, new, nxt = A(ps, "old"), A(ps, "new"), A(ps, "nxt")
        place = (A(nxt, "kidx"), size(q, A(nxt, "pubs")))
        for e in q.calls("create"):
            K, w = e.term, q.where(e.node)
            pr = params(q, K)
            ctx.need(arg(K, None, "pidx") is A(pp, "pidx") and arg(K, None, "transferable") is P("transferable") and arg(K, None, "temp") is P("temp"), R1, f"{q.qual}:parameters", w,
                     "keys are created with another prefix index than the identifier's, or other parameters than given")
            ctx.need(eqn(q, arg(K, None, "ridx"), A(nxt, "ridx"), 1), R1, f"{q.qual}:rotation index", w, "the following keys are not those of the following rotation")
            ctx.need(eqn(q, arg(K, None, "kidx"), *place), R1, f"{q.qual}:key index", w, "the following keys are not created at the places after the next ones: they could be the same keys")
            ctx.need(of_codes(q, e, K, "ncodes", "ncode", "ncount"), R1, f"{q.qual}:codes", w, "other keys than those asked for are created")
            ctx.need(arg(K, 1, "count") is C(0) or q.holds(e, "ncodes"), R1, f"{q.qual}:no keys", w, "keys are created though none are asked for")
            ctx.need(pr is not None and pr[0] is A(pp, "algo") and pr[2] is A(pp, "stem") and pr[3] is A(pp, "tier"), R1, f"{q.qual}:creator", w, "keys are created with other parameters than the identifier's")
            ctx.need(pr is not None and plain_salt(q, e, pr[1], A(pp, "salt")), R1, f"{q.qual}:creator salt", w, "keys are created with another salt than the identifier's")
        outs = returns(q)
        ctx.need(bool(outs), R2, f"{q.qual}:rotates", q.where(), "no rotation succeeds")
        adv = lambda x: name == "rotate" or q.holds(x, "advance")
        fol = lambda t: ks_op(t, "pubs", "get") and ri(q, t, P("pre"), (A(nxt, "ridx"), 1))

        def shifted(x):
            return new in stored(x, ps, "old") and nxt in stored(x, ps, "new") and any(isnext(x, t) for t in stored(x, ps, "nxt"))

        def isnext(x, t):
            if name == "rotate":
                return any(is_lot(q, t, k) for k in made(x))
            t = fold(t)
            P_ = arg(t, None, "pubs")
            return fname(t) == "PubLot" and P_ is not None and P_.k == "a" and P_.a[1] == "pubs" and fol(P_.a[0]) and eqn(q, arg(t, None, "ridx"), A(nxt, "ridx"), 1) and eqn(q, arg(t, None, "kidx"), *place)
        for st, v, nd in outs:
            w = q.where(nd)
            a = adv(st)
            if name == "rotate":
                ctx.need(q.holds(st, "x", {"x": A(nxt, "pubs")}), R2, f"{q.qual}:committed", w, "an identifier without next keys is rotated")
            cur = A(nxt if a else new, "pubs")
            if v is None or len(tup(v) or ()) != 2:
                ctx.bad(R2, f"{q.qual}:returned", w, "a rotation does not return its keys and next digests")
                continue
            vs, ds = tup(v)
            got = ran(st, imgs(q, vs))

            def mine(r, E, x):
                s = x.a[0] if x is not None and x.k == "a" and x.a[1] == "verfer" else None
                return fold(r) is cur and ks_op(s, "pris", "get") and key(s) is text(E)
            ctx.need(bool(got) and all(mine(*g) for g in got), R2, f"{q.qual}:returned keys", w, "a rotation returns other keys than those committed to as next, or not one for each")
            if name == "rotate":
                ctx.need(any(of(q, ds, k, ("verfer", "qb64"), is_diger) for k in made(st)), R2, f"{q.qual}:returned digests", w, "a rotation returns digests of other keys than the following ones, or by another code")
            else:
                N = [x for x in stored(st, ps, "nxt")] if a else [nxt]
                ctx.need(any(of(q, ds, fold(A(n, "pubs")), (), is_diger) for n in N), R2, f"{q.qual}:returned digests", w, "a replay returns digests of other keys than the following ones, or by another code")
            pins = [t for t in found(st, "sits", "pin") if key(t) is P("pre") and arg(t, 1, "val") is ps]
            if a:
                ctx.need(shifted(st) and bool(pins), R2, f"{q.qual}:recorded", w, "a rotation's keys are not recorded as current, the former as old, the following as next")
            else:
                ctx.need(not any(h.k == "store" for h in st.hist) and not found(st, "sits", "pin"), R2, f"{q.qual}:in place", w, "looking at the current keys advances to others")
            if name == "rotate":
                ctx.need(any(pubs_put(q, st, P("pre"), (A(nxt, "ridx"), 1), lambda L: of(q, L, k, ("verfer", "qb64"))) for k in made(st)), R2, f"{q.qual}:replay", w, "a key set is not recorded for replay under its own place")
        for e in q.w.events:
            if e.kind != "call":
                continue
            if ks_op(e.term, "sits", "pin", "put"):
                w = q.where(e.node)
                ctx.need(key(e.term) is P("pre") and arg(e.term, 1, "val") is ps and shifted(e), R2, f"{q.qual}:recorded whole", w, "a record is stored in which not all key sets have moved on")
                if name == "rotate":
                    ctx.need(any(all_kept(q, e, k) for k in made(e)), R3, f"{q.qual}:private keys first", w, "the record names next keys whose private keys are not stored yet: stopped there, the identifier can never be rotated")
            if ks_op(e.term, "pris", "rem"):
                w = q.where(e.node)
                ctx.need(key(e.term) is text(q.w.elem_of(A(old, "pubs"))), R3, f"{q.qual}:erased", w, "private keys still current, or still to be used, are erased")
                ctx.need(q.holds(e, "erase") and adv(e), R3, f"{q.qual}:erased on demand", w, "private keys are erased though they are to be kept")
                ctx.need(bool(found(e, "sits", "pin")), R3, f"{q.qual}:erased last", w, "private keys are erased before the rotation is recorded")
        for k, st, v, nd in q.w.exits:
            if k == "return" and adv(st):
                er = any(h.k == "looped" and h.a[0] is A(old, "pubs") for h in st.hist)
                ctx.need(er or q.holds(st, "not erase"), R3, f"{q.qual}:stale", q.where(nd), "stale private keys are kept though they are to be erased")
        for b in q.w.events:
            if b.kind == "bodyend" and b.term is A(old, "pubs"):
                ctx.need(bool(found(b, "pris", "rem")), R3, f"{q.qual}:stale", q.where(b.node), "a stale private key is kept though it is to be erased")
        refusals(q, R2)
        if name == "replay":
            for st, nd in raises_named(q, {"IndexError"}):
                ctx.need(any(not p and (fol(f) or f.k == "is" and False) or p and f.k == "is" and any(fol(z) for z in f.a) or not p and f.k == "a" and fol(f.a[0]) for f, p in st.facts), R2, f"{q.qual}:end", q.where(nd),
                         "a replay is refused as at its end though following keys are stored")
    # move
    refusals(Q(ctx, KP, "Manager.incept", OP, limit=6000), R2)
    q = Q(ctx, KP, "Manager.move", OP, limit=4000)
    O, N = P("old"), P("new")
    for k, st, v, nd in q.w.exits:
        if k == "raise" or q.holds(st, "old == new"):
            continue
        w = q.where(nd)
        for s in ("prms", "sits"):
            g = [t for t in found(st, s, "get") if key(t) is O]
            good = put_true(q, st, s, N, lambda t: t in g)
            ctx.need(good, R4, f"{q.qual}:{s}", w, f"an identifier's {s} are not moved whole to its new name, or another's are written over")
            ctx.need(any(key(t) is O for t in found(st, s, "rem")), R4, f"{q.qual}:{s} old", w, f"an identifier's {s} stay under the old name too")
        ctx.need(any(p and f.k == "is" and any(ks_op(z, "pres", "get") and key(z) is N for z in f.a) and NONE in f.a for f, p in st.facts), R4, f"{q.qual}:free name", w, "an identifier takes the name of another")
        ctx.need(any(ks_op(t, "pres", "put") and key(t) is N for t in hist_calls(st)), R4, f"{q.qual}:name", w, "the new name is not taken: another move to it would be let through")
        ctx.need(any(ks_op(t, "pres", "pin") and key(t) is O and text(arg(arg(t, 1, "val"), None, "qb64")) is N for t in hist_calls(st)), R4, f"{q.qual}:old name", w, "the old name does not tell the new one")
    refusals(q, R4)
    for e in q.w.events:
        if e.kind == "call" and any(ks_op(e.term, s, "rem") for s in ("prms", "sits")):
            s = chain(recv(e.term))[-1]
            ctx.need(key(e.term) is O and put_true(q, e, s, N, lambda t: True), R4, f"{q.qual}:{s} moved first", q.where(e.node), f"an identifier's {s} are removed under the old name before they are stored under the new one")
    for e in q.w.events:
        if e.kind == "call" and ks_op(e.term, "pubs", "get"):
            n = arg(arg(e.term, 0, "keys"), 1, "ri")
            ctx.need(counts(q, n), R4, f"{q.qual}:every set", q.where(e.node), "not all key sets recorded for replay are moved, from that of inception on")
        if e.kind == "call" and ks_op(e.term, "pres", "put", "pin"):
            ctx.need(text(arg(arg(e.term, 1, "val"), None, "qb64")) is N, R4, f"{q.qual}:named", q.where(e.node), "a name tells another identifier than the new one")
    moved = [e for e in q.w.events if e.kind == "call" and ks_op(e.term, "pubs", "put")]
    for e in moved:
        k, v = arg(e.term, 0, "keys"), arg(e.term, 1, "val")
        vs = comps(v) | ({v} if v is not None else set())
        good = fname(k) == "riKey" and text(arg(k, 0, "pre")) is N and any(ks_op(x, "pubs", "get") and fname(arg(x, 0, "keys")) == "riKey" and text(arg(arg(x, 0, "keys"), 0, "pre")) is O and
                                                                             arg(arg(x, 0, "keys"), 1, "ri") is arg(k, 1, "ri") for x in vs)
        ctx.need(good, R4, f"{q.qual}:replay", q.where(e.node), "key sets recorded for replay are not moved to the same place under the new name")
    ctx.need(bool(moved), R4, f"{q.qual}:replay moved", q.where(), "key sets recorded for replay are not moved")


def counts(q, n, start=(0,), step=1):
    """a number counting up from start by step"""
    if fname(n) == "next" and n.a[1]:
        n = n.a[1][0]
    if n is None:
        return False
    if n.k == "idx" or n.k == "elem" and fname(n.a[0]) in ("count", "range"):
        return True
    got = q.w.phis.get(n)
    return bool(got) and all(x.k == "c" and x.a[0] in start for x in got["init"]) and bool(got["steps"]) and all(lin(x) == ({n: 1.0}, step) for x, _ in got["steps"])


def refusals(q, R):
    """refuses only what is not there, already there, or could not be stored"""
    for k, st, v, nd in q.w.exits:
        if k != "raise":
            continue
        good = False
        for f, p in st.facts:
            if f.k == "is" and NONE in f.a:
                z = [x for x in f.a if x is not NONE][0]
                st_ = chain(recv(z))[-1] if recv(z) is not None else None
                if fname(z) == "get" and st_ in ("pres", "prms", "sits", "pris", "pubs"):
                    # an existing thing under the new name, a missing one under the old
                    new = key(z) is P("new")
                    good = good or (p != new)
            if not p and (fname(f) in ("put", "pin") and chain(recv(f))[-1] in ("pres", "prms", "sits", "pubs") or ks_op(f, "pubs", "get")):
                good = True
            if not p and f.k == "a" and f.a[1] == "pubs":
                good = True
        for c in ("self.aeid and not self.decrypter", "not icodes and icount < 1", "not ncodes and ncount < 0"):
            names = [n for n in ("icount", "ncount") if n in c]
            if all(n in q.f.params for n in names):
                good = good or q.holds(st, c)
        q.ctx.need(good, R, f"{q.qual}:refused", q.where(nd), "what could be done is refused")


def safe_salt(q, st, t, plain):
    """the salt as it may be stored: encrypted, or as is when there is no encrypter"""
    encs = [A(P("self"), "encrypter")] + stored(st, P("self"), "encrypter")
    for c in comps(t):
        if c.k == "a" and c.a[1] in ("qb64", "qb64b") and fname(c.a[0]) == "encrypt":
            x = c.a[0]
            if recv(x) not in encs or arg(x, None, "ser") is not None and arg(x, None, "code") is not C("1AAH") or not (text(arg(x, None, "ser")) is text(plain) or same_salt(arg(x, None, "prim"), plain)):
                return False
        elif text(c) is text(plain) or same_salt(c.a[0] if c.k == "a" and c.a[1] in ("qb64", "qb64b") else None, plain):
            if c is t and not any(q.holds(st, "not x or not s", {"x": e, "s": plain}) for e in encs):
                return False
        elif c.k == "ite":
            return False
        else:
            return False
    return True


def same_salt(t, plain):
    if t is None:
        return False
    return fname(t) == "Salter" and text(arg(t, None, "qb64")) is text(plain)


def plain_salt(q, x, t, kept):
    """the salt as kept, decrypted when the keystore is encrypted"""
    if t is None:
        return False
    for c in comps(t):
        if c is kept:
            if not q.holds(x, "not s", {"s": kept}) and c is t:
                return False
            continue
        b = c.a[0] if c.k == "a" and c.a[1] in ("qb64", "qb64b") else None
        if fname(b) == "decrypt" and recv(b) is A(P("self"), "decrypter") and arg(b, None, "qb64") is kept:
            continue
        if fname(b) == "Salter" and arg(b, None, "qb64") is kept and (c is not t or q.holds(x, "not self.aeid") or q.holds(x, "not self.decrypter")):
            continue
        return False
    return True


def verified(x, enc, seed):
    return any(p and fname(f) == "verifySeed" and recv(f) is enc and text(arg(f, 0, "seed")) is text(seed) for f, p in x.facts)


@prop("A01")
def secret(ctx):
    R5 = "A01.secret"
    ctx.rule(R5, "private keys and salts are stored encrypted whenever the keystore has an encrypter, and changed over to another only by who holds the seed of the present one", 20)
    R6 = "A01.sign"
    ctx.rule(R6, "signing gives one signature for each key named, by its own private key, at the index asked for", 4)
    R1, R2, R3 = "A01.sequence", "A01.recorded", "A01.kept"
    me = P("self")
    # every use of a private key store
    for f in ctx.model.all_funcs():
        for c in ast.walk(f.node):
            if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Attribute) and c.func.value.attr == "pris"):
                continue
            n = c.func.attr
            want = {"put": "encrypter", "pin": "encrypter", "get": "decrypter", "getTopItemIter": "decrypter"}.get(n)
            if want is None:
                continue
            kw = [k.value for k in c.keywords if k.arg == want] + ([c.args[2]] if want == "encrypter" and len(c.args) > 2 else []) + ([c.args[1]] if want == "decrypter" and len(c.args) > 1 else [])
            star = any(k.arg is None for k in c.keywords)
            good = star or bool(kw) and not (isinstance(kw[0], ast.Constant) and not kw[0].value)
            ctx.need(good, R5, f"{f.qual}:pris.{n}", f"{f.mod.rel}:{c.lineno} {f.qual}", "a private key is stored in the clear in an encrypted keystore" if want == "encrypter" else "an encrypted private key is read as if it were in the clear")
    for name in ("incept", "rotate", "replay", "ingest", "sign", "decrypt", "updateAeid"):
        q = Q(ctx, KP, f"Manager.{name}", OP, limit=6000)
        for e in q.w.events:
            if e.kind == "call" and ks_op(e.term, "pris", "put", "pin"):
                got = arg(e.term, 2, "encrypter")
                encs = {A(me, "encrypter")} | set(stored(e, me, "encrypter"))
                if name == "updateAeid":
                    encs = set(stored(e, me, "encrypter")) or encs
                ctx.need(got in encs or got is None and any(q.holds(e, "not x", {"x": x}) for x in encs), R5, f"{q.qual}:keys encrypted", q.where(e.node), "a private key is not stored encrypted by the keystore's encrypter")
            if e.kind == "call" and ks_op(e.term, "pris", "get", "getTopItemIter"):
                got = arg(e.term, 1, "decrypter")
                ctx.need(got is A(me, "decrypter"), R5, f"{q.qual}:keys decrypted", q.where(e.node), "a private key is not read with the keystore's decrypter")
    # the store encrypts what it is told to
    for m in ("put", "pin"):
        q = Q(ctx, SB, f"CryptSignerSuber.{m}", {"encrypt", "putVal", "setVal", "_tokey"})
        evs = q.calls("putVal", "setVal")
        ctx.need(bool(evs), R5, f"{q.qual}:stores", q.where(), "nothing is stored")
        for e in evs:
            v = arg(e.term, 2, "val")
            b = v.a[0] if v is not None and v.k == "a" and v.a[1] in ("qb64b", "qb64") else unwrap(v)
            good = fname(b) == "encrypt" and recv(b) is P("encrypter") and arg(b, None, "prim") is P("val") or b is P("val") and q.holds(e, "not encrypter")
            ctx.need(good, R5, f"{q.qual}:encrypted", q.where(e.node), "a private key is stored in the clear though an encrypter is given")
    for m in ("get", "getTopItemIter"):
        q = Q(ctx, SB, f"CryptSignerSuber.{m}", {"decrypt", "getVal", "getTopItemIter", "_tokey", "_tokeys"})
        outs = [(x, x.value if x.kind == "yield" else None, x.node) for x in q.w.events if x.kind == "yield"] if m == "getTopItemIter" else returns(q)
        n = 0
        for x, v, nd in outs:
            if m == "getTopItemIter":
                v = x.term if v is None else v
                v = (tup(v) or [None, v])[-1]
            if v is None or v is NONE:
                continue
            n += 1
            enc = fname(v) == "decrypt" and recv(v) is P("decrypter")
            ctx.need(enc or q.holds(x, "not decrypter"), R5, f"{q.qual}:decrypted", q.where(nd), "a private key is read without the decrypter given")
            tr = arg(v, None, "transferable")
            ctx.need(tr is not None and tr.k == "a" and tr.a[1] == "transferable" and fname(tr.a[0]) == "Verfer", R5, f"{q.qual}:transferable", q.where(nd), "a private key is read with another transferability than its public key's")
        ctx.need(n > 0, R5, f"{q.qual}:reads", q.where(), "no private key is read")
    # change of aeid
    q = Q(ctx, KP, "Manager.updateAeid", OP, limit=6000)
    enc, dec, seed = A(me, "encrypter"), A(me, "decrypter"), A(me, "_seed")

    def allowed(x):
        return q.holds(x, "not self.aeid") or verified(x, enc, seed) or verified(x, enc, A(me, "seed"))
    for e in q.w.events:
        w = q.where(e.node)
        if e.kind == "store" and e.term in (enc, A(me, "salt"), dec, seed) or e.kind == "call" and any(ks_op(e.term, s, "pin", "put", "rem") for s in ("gbls", "prms", "pris")):
            ctx.need(allowed(e), R5, f"{q.qual}:authorized", w, "a keystore's encryption is changed by who does not hold its present seed")
        if e.kind == "store" and e.term is enc:
            v = e.value
            good = v is NONE and q.holds(e, "not aeid") or fname(v) == "Encrypter" and arg(v, None, "verkey") is P("aeid") and verified(e, v, P("seed")) and q.holds(e, "aeid")
            ctx.need(good, R5, f"{q.qual}:encrypter", w, "a keystore is encrypted for an aeid whose seed is not at hand, or left unencrypted: its keys could not be read again")
        if e.kind == "store" and e.term is dec:
            v = e.value
            good = v is NONE and q.holds(e, "not aeid") or fname(v) == "Decrypter" and arg(v, None, "seed") is P("seed") and q.holds(e, "aeid")
            ctx.need(good, R5, f"{q.qual}:decrypter", w, "a keystore is read with another seed than its aeid's")
        if e.kind == "store" and e.term is A(me, "salt"):
            ctx.need(bool(stored(e, me, "encrypter")) and not stored(e, me, "decrypter"), R5, f"{q.qual}:root salt", w, "the root salt is not read with the former key and stored with the new one")
        if e.kind == "call" and ks_op(e.term, "prms", "pin", "put"):
            d = arg(e.term, 1, "val")
            X = [b.term for b in q.w.events if b.kind == "bodyend" and ks_op(b.term, "prms", "getTopItemIter")]
            good = any(d is q.w.mksub(q.w.elem_of(t), C(1)) and arg(e.term, 0, "keys") is q.w.mksub(q.w.elem_of(t), C(0)) for t in X) and recoded(q, e, d, stored(e, d, "salt"))
            ctx.need(good, R5, f"{q.qual}:salts", w, "an identifier's salt is not read with the former key and stored with the new one")
        if e.kind == "call" and ks_op(e.term, "pris", "pin", "put"):
            X = [b.term for b in q.w.events if b.kind == "bodyend" and ks_op(b.term, "pris", "getTopItemIter")]
            good = any(arg(e.term, 1, "val") is q.w.mksub(q.w.elem_of(t), C(1)) and arg(e.term, 0, "keys") is q.w.mksub(q.w.elem_of(t), C(0)) for t in X)
            ctx.need(good and fname(e.term) == "pin", R5, f"{q.qual}:keys", w, "a private key is not stored again under its own public key")
        if e.kind == "bodyend" and ks_op(e.term, "prms", "getTopItemIter"):
            d = q.w.mksub(q.w.elem_of(e.term), C(1))
            ctx.need(bool(found(e, "prms", "pin")) or q.holds(e, "not s", {"s": A(d, "salt")}), R5, f"{q.qual}:every salt", w, "an identifier's salt stays as it was")
            ctx.need(not arg(e.term, 0, "keys"), R5, f"{q.qual}:every salt", w, "an identifier's salt stays as it was")
        if e.kind == "bodyend" and ks_op(e.term, "pris", "getTopItemIter"):
            ctx.need(bool(found(e, "pris", "pin")) and not arg(e.term, 0, "keys"), R5, f"{q.qual}:every key", w, "a private key stays as it was")
        if e.kind == "break":
            ctx.bad(R5, f"{q.qual}:every secret", w, "some secrets stay as they were")
    n = 0
    for k, st, v, nd in q.w.exits:
        w = q.where(nd)
        if k == "raise":
            last = q.holds(st, "self.aeid") and (q.holds(st, "not self.seed") or any(not p and fname(f) == "verifySeed" and recv(f) is enc for f, p in st.facts))
            new = q.holds(st, "aeid") and (q.holds(st, "not seed") or any(not p and fname(f) == "verifySeed" and fname(recv(f)) == "Encrypter" for f, p in st.facts))
            ctx.need(last or new, R5, f"{q.qual}:refused", w, "a change of aeid is refused to who holds the seeds")
            continue
        n += 1
        ctx.need(bool(stored(st, me, "encrypter")) and bool(stored(st, me, "decrypter")), R5, f"{q.qual}:both", w, "encrypter and decrypter of a keystore do not change together")
        ctx.need(bool(stored(st, me, "salt")) or q.holds(st, "self.salt is None"), R5, f"{q.qual}:root salt", w, "the root salt stays as it was")
        none = all(q.holds(st, "not x", {"x": x}) or x is NONE for x in stored(st, me, "encrypter")) and q.holds(st, "not self.decrypter")
        for s in ("prms", "pris"):
            ctx.need(none or any(h.k == "looped" and ks_op(h.a[0], s, "getTopItemIter") for h in st.hist), R5, f"{q.qual}:all {s}", w, "secrets stay as they were")
        ctx.need(any(ks_op(t, "gbls", "pin") and arg(t, 0, "keys") is C("aeid") and (arg(t, 1, "val") is P("aeid") and q.holds(st, "aeid") or arg(t, 1, "val") is C("") and q.holds(st, "not aeid")) for t in hist_calls(st)), R5, f"{q.qual}:aeid", w,
                 "a keystore does not record the aeid its secrets are encrypted for")
        ctx.need(P("seed") in stored(st, me, "_seed"), R5, f"{q.qual}:seed", w, "a keystore's seed is not that of its aeid: a further change would be refused")
    ctx.need(n > 0, R5, f"{q.qual}:changes", q.where(), "an aeid can never be changed")
    # opening
    q = Q(ctx, KP, "Manager.setup", OP | {"updateAeid", "Salter", "Encrypter", "Decrypter"}, limit=6000)
    n = 0
    for k, st, v, nd in q.w.exits:
        w = q.where(nd)
        if k == "raise":
            bad = any(not p and f.k == "eq" and any(fname(y) == "Salter" and arg(y, None, "qb64") is P("salt") for x in f.a for y in subterms(x)) and any(x is P("salt") for x in f.a) for f, p in st.facts)
            last = q.holds(st, "self.aeid") and (q.holds(st, "not self.seed") or any(not p and fname(f) == "verifySeed" for f, p in st.facts))
            ctx.need(q.holds(st, "not self.ks.opened") or bad or last, R5, f"{q.qual}:refused", w, "a keystore does not open for who holds its seed")
            continue
        ctx.need(q.holds(st, "self.ks.opened"), R5, f"{q.qual}:closed", w, "a keystore that is not open is set up")
        ctx.need(stored(st, me, "inited")[-1:] == [TRUE], R5, f"{q.qual}:inited", w, "a keystore set up is not marked so: it is set up anew")
        given = q.holds(st, "salt is not None")
        ctx.need(not given or any(p and f.k == "eq" and any(x is P("salt") for x in f.a) and any(x.k == "a" and x.a[1] == "qb64" and fname(x.a[0]) == "Salter" and arg(x.a[0], None, "qb64") is P("salt") for x in f.a) for f, p in st.facts), R5, f"{q.qual}:salt", w,
                 "a salt is taken on that is none: keys could not be created from it later")
        for a, d in (("pidx", C(0)), ("algo", q.term("Algos.salty")), ("salt", None), ("tier", q.term("Tiers.low"))):
            if not q.holds(st, f"self.{a} is None"):
                ctx.need(q.holds(st, f"self.{a} is not None"), R1, f"{q.qual}:{a} known", w, f"whether the keystore has its {a} is not asked")
                continue
            vs = [z for x in stored(st, me, a) for z in comps(x)]
            if q.holds(st, f"{a} is not None"):
                good = bool(vs) and all(z is P(a) for z in vs)
            elif q.holds(st, f"{a} is None"):
                good = bool(vs) and all(z is d if d is not None else z.k == "a" and z.a[1] == "qb64" and fname(z.a[0]) == "Salter" and not z.a[0].a[1] and not z.a[0].a[2] for z in vs)
            else:
                good = bool(vs) and all(z is P(a) or d is not None and z is d or d is None and z.k == "a" and fname(z.a[0]) == "Salter" for z in vs)
            ctx.need(good, R1, f"{q.qual}:first {a}", w, f"a new keystore does not take on the {a} given, or its default")
        n += 1
        up = [t for t in hist_calls(st) if fname(t) == "updateAeid"]
        if q.holds(st, "not self.aeid"):
            ctx.need(any(arg(t, 0, "aeid") is P("aeid") or arg(t, 0, "aeid") is C("") and q.holds(st, "aeid is None") for t in up) and all(arg(t, 1, "seed") in (A(me, "seed"), seed) for t in up), R5, f"{q.qual}:first aeid", w,
                     "a keystore without an aeid does not take on the one given")
        else:
            es = stored(st, me, "encrypter")
            ds = stored(st, me, "decrypter")
            good = any(fname(x) == "Encrypter" and arg(x, None, "verkey") is A(me, "aeid") and (verified(st, x, seed) or verified(st, x, A(me, "seed"))) for x in es)
            ctx.need(good, R5, f"{q.qual}:opened", w, "an encrypted keystore opens without the seed of its aeid")
            ctx.need(any(fname(x) == "Decrypter" and arg(x, None, "seed") in (seed, A(me, "seed")) for x in ds), R5, f"{q.qual}:decrypter", w, "an encrypted keystore is opened without a decrypter of its seed")
        for a in ("pidx", "algo", "salt", "tier"):
            ctx.need(not stored(st, me, a) or q.holds(st, f"self.{a} is None"), R1, f"{q.qual}:{a}", w, f"opening a keystore sets back its {a}: keys already used would be created again")
    ctx.need(n > 0, R5, f"{q.qual}:opens", q.where(), "no keystore opens")
    # signing
    q = Q(ctx, KP, "Manager.sign", OP | {"sign"}, limit=6000)
    outs = returns(q)
    ctx.need(bool(outs), R6, f"{q.qual}:signs", q.where(), "nothing is ever signed")
    for st, v, nd in outs:
        w = q.where(nd)
        got = ran(st, imgs(q, v))
        seq = P("pubs") if q.holds(st, "pubs") else P("verfers")
        ctx.need(bool(got) and all(r is seq for r, E, x in got), R6, f"{q.qual}:one each", w, "not one signature for each key named")
        for x, e in appended(q, v) or ():
            wx = q.where(getattr(e, "node", None) or nd)
            ctx.need(fname(x) == "sign" and arg(x, 0, "ser") is P("ser"), R6, f"{q.qual}:of the serialization", wx, "something else than the serialization given is signed")
            i, o, only = arg(x, 1, "index"), arg(x, 3, "ondex"), arg(x, 2, "only")
            if q.holds(st, "not indexed"):
                ctx.need(i is None or i is NONE, R6, f"{q.qual}:unindexed", wx, "an index is given though none is asked for")
                continue
            J = [y for y in subterms(x) if y.k == "idx"]
            S = recv(x)
            J = mk("idx", S.a[0]) if S is not None and S.k == "elem" else (J[0] if J else None)
            ii, oo = q.w.mksub(P("indices"), J) if J is not None else None, q.w.mksub(P("ondices"), J) if J is not None else None
            gi = i is not None and (i is ii and q.holds(e, "indices") and lens(q, e, "indices") or i is J and q.holds(e, "not indices"))
            ctx.need(gi, R6, f"{q.qual}:index", wx, "a signature is given another index than asked for its key")
            if q.holds(e, "indices") and i is not None:
                ctx.need(q.holds(e, "isinstance(i, int) and i >= 0", {"i": i}), R6, f"{q.qual}:whole index", wx, "a signature is given an index that is no whole number")
            if q.holds(e, "ondices") and o is not None:
                ctx.need(q.holds(e, "o is None || isinstance(o, int) and not isinstance(o, bool) and o >= 0", {"o": o}), R6, f"{q.qual}:whole other index", wx, "a signature is given a prior next index that is no whole number")
            if q.holds(e, "ondices"):
                ctx.need(o is oo and lens(q, e, "ondices"), R6, f"{q.qual}:other index", wx, "a signature is given another prior next index than asked for its key")
            else:
                ctx.need(q.holds(e, "not ondices") and o is i, R6, f"{q.qual}:other index", wx, "a signature is given another prior next index than its index")
            none = o is NONE or o is not None and q.holds(e, "o is None", {"o": o})
            some = o is not None and q.holds(e, "o is not None", {"o": o}) or o is i
            ctx.need(only is TRUE and none or only in (FALSE, None) and some or only is not None and only.k == "is", R6, f"{q.qual}:kind", wx, "a signature is coded for both key lists though it has no prior next index, or for current only though it has one")
        for r, E, x in got or ():
            s = recv(x)
            ctx.need(ks_op(s, "pris", "get") and key(s) in (text(E), text(A(E, "qb64"))) and (key(s) is text(E)) == (r is P("pubs")), R6, f"{q.qual}:own key", w, "a signature is made by another key than the one named")
    # ingestion
    q = Q(ctx, KP, "Manager.ingest", OP, limit=6000)
    n = 0
    for e in q.w.events:
        if e.kind != "call":
            continue
        w = q.where(e.node)
        if ks_op(e.term, "pubs", "put", "pin"):
            k, v = arg(e.term, 0, "keys"), arg(e.term, 1, "val")
            got = imgs(q, arg(v, None, "pubs"))
            ctx.need(bool(got) and all(fname(x) in ("qb64",) or text(x).k == "a" and text(x).a[1] == "qb64" for r, E, x in got), R2, f"{q.qual}:public keys", w, "other keys than the ingested ones are recorded for replay")
            ctx.need(any(all_kept(q, e, z) for z in looped_signers(q, e)), R3, f"{q.qual}:private keys", w, "the private key of an ingested key set is not kept")
            ctx.need(counts(q, arg(k, 1, "ri")), R1, f"{q.qual}:rotation index", w, "ingested key sets are not recorded one after the other")
            n += 1
        if fname(e.term) == "PubLot" and arg(e.term, None, "pubs") is not None:
            t = e.term
            ctx.need(any(eqn(q, arg(arg(p, 0, "keys"), 1, "ri"), arg(t, None, "ridx")) and fold(arg(arg(p, 1, "val"), None, "pubs")) is fold(arg(t, None, "pubs")) for p in found(e, "pubs", "put", "pin")), R2, f"{q.qual}:lot", w,
                     "the record of an ingested identifier names another key set than the one recorded for replay at its place")
            ctx.need(places(q, arg(t, None, "kidx")), R1, f"{q.qual}:key index", w, "the place of a key set is not after all those before it")
        if fname(e.term) == "create":
            t = e.term
            ctx.need(places(q, arg(t, None, "kidx")) and counts(q, arg(t, None, "ridx")) and text(arg(t, None, "pidx")) is q.term("self.pidx"), R1, f"{q.qual}:next keys", w, "next keys are not created at the place after the ingested ones")
        if fname(e.term) == "PrePrm":
            t = e.term
            cr = arg(t, None, "stem").a[0] if arg(t, None, "stem") is not None and arg(t, None, "stem").k == "a" else None
            s = arg(t, None, "salt")
            ctx.need(cr is not None and fname(cr) == "make" and s is not None and safe_salt(q, e, s, A(cr, "salt")), R5, f"{q.qual}:salt", w, "an ingested identifier's salt is stored in the clear in an encrypted keystore")
            ctx.need(text(arg(t, None, "pidx")) is q.term("self.pidx") and cr is not None and arg(t, None, "tier") is A(cr, "tier") and arg(t, None, "algo") is arg(recv(cr), 0, "algo"), R1, f"{q.qual}:parameters", w, "an ingested identifier's parameters are not those its next keys are created with")
        if ks_op(e.term, "pres", "pin") or ks_op(e.term, "prms", "pin"):
            ctx.bad("A01.own", f"{q.qual}:written over", w, "an ingestion may write over an existing identifier's record")
    ctx.need(n > 0, R2, f"{q.qual}:recorded", q.where(), "ingested key sets are not recorded for replay")


def looped_signers(q, e):
    out = []
    for h in e.hist:
        if h.k == "looped":
            out.append(core(h.a[0]))
    return out


def places(q, n):
    """counts up by the size of each key set"""
    got = q.w.phis.get(n)
    if not got or not got["steps"] or any(x is not C(0) for x in got["init"]):
        return False
    for x, _ in got["steps"]:
        d, c = lin(x)
        rest = {y: m for y, m in d.items() if y is not n}
        if d.get(n) != 1 or c or len(rest) != 1 or list(rest.values()) != [1] or fname(list(rest)[0]) != "len":
            return False
        L = list(rest)[0].a[1][0]
        if not any(fname(y) in ("popleft", "pop") or y.k == "elem" for y in subterms(L)):
            return False
    return True


def recoded(q, e, d, vals):
    """salt of a parameter record: read with the former key, written with the new"""
    enc = (stored(e, P("self"), "encrypter") or [None])[0]
    old = A(d, "salt")
    if not vals or enc is None:
        return False
    for v in vals:
        b = v.a[0] if v.k == "a" and v.a[1] in ("qb64", "qb64b") else None
        if enc is not NONE and not q.holds(e, "not x", {"x": enc}):
            if fname(b) != "encrypt" or recv(b) is not enc:
                return False
            b = arg(b, None, "prim")
        elif fname(b) == "encrypt":
            return False
        if q.holds(e, "self.decrypter"):
            if not (fname(b) == "decrypt" and recv(b) is A(P("self"), "decrypter") and arg(b, None, "qb64") is old):
                return False
        elif not (fname(b) == "Salter" and arg(b, None, "qb64") is old):
            return False
    return True


def lens(q, e, name):
    """the list has as many items as there are signers"""
    return any(p and f.k == "eq" and any(fname(z) == "len" and z.a[1][0] is P(name) for z in f.a) for f, p in e.facts)


def fields(t):
    """a text put together: [text or (value, format)]"""
    if t is None:
        return None
    if t.k == "fstr":
        out = []
        for x in t.a[0]:
            if x.k == "c":
                out.append(str(x.a[0]))
            elif x.k == "fmt":
                out.append((x.a[0], str(x.a[1]).strip("f'\"")))
            else:
                out.append((x, ""))
        return flat(out)
    if fname(t) == "format" and recv(t) is not None and recv(t).k == "c" and not dict(t.a[2]):
        out, n = [], 0
        for lit, name, spec, _ in string.Formatter().parse(recv(t).a[0]):
            if lit:
                out.append(lit)
            if name is None:
                continue
            i = int(name) if name else n
            n += 1
            if i >= len(t.a[1]):
                return None
            out.append((t.a[1][i], spec or ""))
        return flat(out)
    if fname(t) in ("hex", "str") and t.a[0].k == "g":
        return [(t.a[1][0], "x" if fname(t) == "hex" else "")]
    if t.k == "bin" and t.a[0] == "+":
        a, b = fields(t.a[1]), fields(t.a[2])
        return a + b if a is not None and b is not None else None
    if t.k == "bin" and t.a[0] == "%" and t.a[1].k == "c":
        vs = tup(t.a[2]) or [t.a[2]]
        out, rest = [], str(t.a[1].a[0])
        for v in vs:
            i = rest.find("%")
            if i < 0:
                return None
            out += ([rest[:i]] if i else []) + [(v, rest[i + 1:i + 2])]
            rest = rest[i + 2:]
        return flat(out + ([rest] if rest else []))
    if fname(t) == "join" and recv(t) is not None and recv(t).k == "c":
        vs = tup(t.a[1][0]) if t.a[1] else None
        if vs is None:
            return None
        out = []
        for i, v in enumerate(vs):
            out += ([recv(t).a[0]] if i and recv(t).a[0] else []) + (fields(v) or [])
        return out
    if t.k == "c":
        return [str(t.a[0])]
    return [(t, "")]


def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, tuple) and x[1] == "" and x[0].k in ("fstr",) or isinstance(x, tuple) and fname(x[0]) in ("format", "join", "hex"):
            out += fields(x[0]) or [x]
        else:
            out.append(x)
    return out


@prop("A01")
def derived(ctx):
    R7 = "A01.derived"
    ctx.rule(R7, "each place of each key sequence derives a key of its own, and always the same one", 4)
    q = Q(ctx, KP, "SaltyCreator.create", OP - {"create"} | {"signer"}, limit=4000)
    stem = q.term("self.stem")
    evs = q.calls("signer")
    ctx.need(bool(evs), R7, f"{q.qual}:derives", q.where(), "no key is derived")
    for e in evs:
        t, w = e.term, q.where(e.node)
        ctx.need(recv(t) in (q.term("self.salter"), q.term("self._salter")), R7, f"{q.qual}:salt", w, "a key is derived from another salt than the creator's")
        ctx.need(arg(t, None, "transferable") is P("transferable") and arg(t, None, "temp") is P("temp"), R7, f"{q.qual}:asked", w, "a key is derived with other parameters than those asked for")
        ctx.need(arg(t, None, "tier") in (q.term("self.tier"), q.term("self.salter.tier")), R7, f"{q.qual}:tier", w, "a key is derived with another tier than the creator's")
        fs = fields(arg(t, None, "path"))
        vals = [f for f in fs or () if isinstance(f, tuple)]
        J = [b.term for b in q.w.events if b.kind == "bodyend"]
        ks = [mk("bin", "+", P("kidx"), mk("idx", core(j))) for j in J]
        ok = len(vals) == 3
        if ok:
            a, b, c = (v[0] for v in vals)
            ok = (a is stem or a is P("pidx")) and b is P("ridx") and any(eqn(q, c, P("kidx"), mk("idx", core(j))) for j in J)
            ok = ok and (a is not stem or q.holds(e, "s", {"s": stem})) and (a is stem or q.holds(e, "not s", {"s": stem}))
        ctx.need(ok, R7, f"{q.qual}:place", w, "a key is not derived from its own place (stem or prefix index, rotation index, key index): two keys are the same, or cannot be derived again")
        if ok:
            at = [i for i, f in enumerate(fs) if isinstance(f, tuple)]
            sep = all(any(isinstance(x, str) and any(z not in "0123456789abcdefABCDEF" for z in x) for x in fs[i + 1:j]) for i, j in zip(at, at[1:]))
            wide = all(v[1][:1] == "0" and len(v[1]) > 1 for v in vals[1:])
            ctx.need(sep or wide, R7, f"{q.qual}:places apart", w, "the parts of a key's place are run together: prefix index 1 with rotation and key index 11 (hex) reads the same as prefix index 111 with 1 and 1, so two identifiers have the same key, and erasing the one's erases the other's")
    for st, v, nd in returns(q):
        got = ran(st, imgs(q, v))
        good = bool(got) and all(r is P("codes") or r.k == "comp" or fname(r) == "range" for r, E, x in got)
        for x, e in appended(q, v) or ():
            good = good and fname(x) == "signer"
            c = arg(x, None, "code")
            good = good and (c is P("code") and q.holds(e, "not codes") or c is not None and c.k == "elem" and c.a[0] is P("codes"))
        ctx.need(good, R7, f"{q.qual}:one each", q.where(nd), "not one key is returned for each asked for, of its code")
    q = Q(ctx, KP, "RandyCreator.create", OP - {"create"} | {"Signer"}, limit=4000)
    for st, v, nd in returns(q):
        got = ran(st, imgs(q, v))
        good = bool(got) and all(r is P("codes") or r.k == "comp" or fname(r) == "range" for r, E, x in got)
        for x, e in appended(q, v) or ():
            good = good and fname(x) == "Signer" and arg(x, None, "raw") is None and arg(x, None, "transferable") is P("transferable")
            c = arg(x, None, "code")
            good = good and (c is P("code") and q.holds(e, "not codes") or c is not None and c.k == "elem" and c.a[0] is P("codes"))
        ctx.need(good, R7, f"{q.qual}:one each", q.where(nd), "not one key is returned for each asked for, of its code, or it is not random")
