"""Shared machinery of the rules over the library core: guard obligations on events and exits."""
import ast

from ..engine import (A, C, FALSE, G, NONE, P, T, TRUE, State, Walker, call_parts, children, closure, entails, iscon, lit, mk, mkeq, subst,
                      mkin, mkis, mklt, show, subterms, unlin)
from ..model import AnalysisBroken, Cls, Func

EV = "src/keri/core/eventing.py"
_cache = {}


class Q:
    """one walked entry function"""

    def __init__(self, ctx, rel, qual, opaque=(), types=None, **kw):
        self.ctx, self.rel, self.qual = ctx, rel, qual
        m = ctx.model
        self.f = m.func(rel, qual)
        types = dict(types or {})
        tt = {}
        for n, spec in types.items():
            r, c = spec
            k = m.mod(r).classes.get(c)
            if k is not None:
                tt[P(n)] = k
        key = (id(m), rel, qual, tuple(sorted(opaque)), tuple(sorted(types.items())), tuple(sorted(kw.items())))
        w = _cache.get(key)
        if w is None:
            kw.setdefault("limit", 160)
            w = Walker(m, opaque=set(opaque), types=tt, props=True, **kw)
            w.run(self.f)
            _cache[key] = w
        self.w = w
        ctx.saw(*w.analysed)
        ctx.merges += w.merges

    # ---- event selection
    def calls(self, *names, recv=None):
        """call events of a method/function with one of the names (last component)"""
        out = []
        for e in self.w.events:
            if e.kind == "call" and fname(e.term) in names:
                if recv is not None and not recv(e.term.a[0].a[0] if e.term.a[0].k == "a" else None):
                    continue
                out.append(e)
        return out

    def stores(self, attr, base="self"):
        b = P(base) if isinstance(base, str) else base
        return [e for e in self.w.events if e.kind == "store" and e.term.k == "a" and e.term.a[1] == attr and e.term.a[0] is b]

    def exits(self):
        """non-raising exits: (state, value, node)"""
        return [(st, v, n) for k, st, v, n in self.w.exits if k in ("return", "fall")]

    def term(self, src, env=None):
        return self.w.termof(src, env)

    def holds(self, x, src, env=None):
        """some alternative of 'A || B' is entailed at event or state x"""
        if env and any(v is None for v in env.values()):
            return False
        for alt in src.split("||"):
            t = self.term(alt.strip(), env)
            if holds(x, t):
                return True
        return False

    def where(self, node=None):
        return f"{self.rel}:{getattr(node, 'lineno', self.f.node.lineno)} {self.qual}"


def refute(facts, clauses, new, depth=3):
    """facts, clauses and new literals are contradictory (unit propagation with bounded case splits)"""
    r = closure(facts, clauses, new)
    if r is None:
        return True
    if depth == 0:
        return False
    fs, cl = r
    splits = [tuple(c) for c in cl]
    for t, p in fs:
        if t.k == "in" and p and t.a[1].k in ("set", "tup", "list") and t.a[1].a and isinstance(t.a[1].a[0], (tuple, frozenset)) \
                and 0 < len(t.a[1].a[0]) <= 4:
            alts = tuple(mkeq(t.a[0], x) for x in t.a[1].a[0])
            if not any(a in fs for a in alts):
                splits.append(alts)
    splits.sort(key=lambda c: (len(c), sorted(t.sid for t, p in c)))
    for c in splits[:8]:
        if len(c) <= 4 and all(refute(fs, cl - {frozenset(c)}, [l], depth - 1) for l in c):
            return True
    return False


def holds(x, t, pol=True):
    """facts and clauses at event/state x entail boolean term t: adding its negation is contradictory"""
    a, p = lit(t, pol)
    if a is TRUE:
        return p
    if entails(x.facts, a, p) is True:
        return True
    if closure(x.facts, x.clauses, [(a, not p)]) is None:
        return True
    if a.k == "lt" and (a.a[2], p) in ((0, True), (1, False)):  # neither equal nor on the other side
        y = mk("lt", a.a[0], a.a[1], 1 - a.a[2])
        if any(f.k == "eq" and not pol and set(f.a) == set(a.a[:2]) for f, pol in x.facts) and entails(x.facts, y, p) is True:
            return True
    return refute(x.facts, x.clauses, [(a, not p)], 2)


def fname(t):
    if t is None:
        return None
    if t.k == "fresh":
        t = t.a[0]
    if t.k != "call":
        return None
    f = t.a[0]
    return f.a[1] if f.k == "a" else (f.a[0].split(".")[-1] if f.k == "g" else None)


def recv(t):
    """receiver term of a method-call term"""
    if t.k == "fresh":
        t = t.a[0]
    return t.a[0].a[0] if t.k == "call" and t.a[0].k == "a" else None


def chain(t):
    """dotted attribute names of a term, outermost last: self.db.kels -> ('self','db','kels')"""
    out = []
    while t is not None and t.k == "a":
        out.append(t.a[1])
        t = t.a[0]
    out.append(t.a[0] if t is not None and t.k in ("p", "g") else "?")
    return tuple(reversed(out))


def arg(t, pos, *names):
    """argument of a call term, by position or keyword"""
    p = call_parts(t)
    if p is None:
        return None
    for n in names:
        if n in p[2]:
            return p[2][n]
    if pos is not None and pos < len(p[1]):
        return p[1][pos]
    return None


def tup(t):
    """items of a tuple/list literal term"""
    if t is not None and t.k in ("tup", "list"):
        return list(t.a[0]) if isinstance(t.a[0], tuple) else None
    return None


def unwrap(t, names=("bytes", "str", "list", "tuple", "set")):
    """strip conversions that keep the value's content"""
    while t is not None:
        if t.k == "call" and t.a[0].k == "g" and t.a[0].a[0] in names and (len(t.a[1]) == 1 or len(t.a[1]) == 2 and iscon(t.a[1][1]) and t.a[1][1].a[0] in ("utf-8", "utf8", "ascii")):
            t = t.a[1][0]
        elif t.k == "call" and t.a[0].k == "a" and t.a[0].a[1] in ("encode", "decode"):
            t = t.a[0].a[0]
        else:
            return t
    return t


def require(q, R, inst, events, conds, what, floor=1, env=None):
    """every event is dominated by every condition; conds: list of (label, src or callable(event)->bool)"""
    ctx = q.ctx
    if len(events) < floor:
        ctx.bad(R, f"{q.qual}:{inst}", q.where(), f"{what}: the required step is missing (found {len(events)}, need {floor})")
        return False
    okall = True
    for label, c in conds:
        bad = None
        for e in events:
            good = c(e) if callable(c) else q.holds(e, c, env)
            if not good:
                bad = e
                break
        if bad is None:
            ctx.ok(R, f"{q.qual}:{inst}:{label}")
        else:
            okall = False
            ctx.bad(R, f"{q.qual}:{inst}:{label}", f"{q.rel}:{bad.line} {bad.func.qual}",
                    f"{what}: reached on a path where '{label}' has not been established")
    return okall


def require_exit(q, R, inst, conds, what, sel=None, floor=1, env=None):
    """every non-raising exit (optionally selected by value) is dominated by the conditions"""
    ctx = q.ctx
    ex = [(st, v, n) for st, v, n in q.exits() if sel is None or sel(v, st)]
    if len(ex) < floor:
        ctx.bad(R, f"{q.qual}:{inst}", q.where(), f"{what}: no such exit is reachable")
        return False
    okall = True
    for label, c in conds:
        bad = None
        for st, v, n in ex:
            good = c(st, v) if callable(c) else q.holds(st, c, env)
            if not good:
                bad = n
                break
        if bad is None:
            ctx.ok(R, f"{q.qual}:{inst}:{label}")
        else:
            okall = False
            ctx.bad(R, f"{q.qual}:{inst}:{label}", q.where(bad), f"{what}: exits normally on a path where '{label}' has not been established")
    return okall


def hist_has(h, pred):
    return any(pred(x) for x in h)


def called_before(ev_or_st, pred):
    """a call satisfying pred(term) happened on every path to here"""
    return any(x.k in ("call", "fresh") and pred(x) for x in ev_or_st.hist)


def raises_named(q, names):
    """raise events of the given exception class names"""
    return [(st, n) for k, st, v, n in q.w.exits if k == "raise" and v is not None and exc_name(v) in names]


def exc_name(v):
    if v is None:
        return None
    if v.k == "call" and v.a[0].k in ("g", "a"):
        return (v.a[0].a[0] if v.a[0].k == "g" else v.a[0].a[1]).split(".")[-1]
    if v.k == "g":
        return v.a[0].split(".")[-1]
    return None


def appended(q, L):
    """elements of a list built in the walked code: [(value term, event-like with facts/clauses/where)] or None if unknown"""
    class Cond:
        def __init__(self, facts, line):
            self.facts, self.clauses, self.line, self.hist = frozenset(facts), frozenset(), line, frozenset()
            self.func = q.f
    if L is None:
        return None
    if L.k == "new":
        out = []
        for e in q.w.events:
            if e.kind == "call" and e.term.a[0].k == "a" and e.term.a[0].a[0] is L:
                n = e.term.a[0].a[1]
                if n in ("append", "add", "appendleft"):
                    out.append((e.term.a[1][0], e))
                elif n in ("extend", "update", "insert", "put"):
                    return None
        if L.k == "new" and len(L.a) > 2 and L.a[2]:
            for x in L.a[2]:
                if isinstance(x, T):
                    out.append((x, Cond((), 0)))
        return out
    if L.k == "comp":
        got = q.w.comp_elems.get(L)
        if got is None:
            return None
        val, gens = got
        facts = {l for it, cl in gens for l in cl}
        return [(val, Cond(facts, q.f.node.lineno))]
    if L.k in ("tup", "list"):
        return [(x, Cond((), q.f.node.lineno)) for x in L.a[0]]
    if L.k == "call" and L.a[0].k == "g" and L.a[0].a[0] in ("list", "tuple", "oset", "set", "sorted") and len(L.a[1]) == 1:
        return appended(q, L.a[1][0])
    return None


def equivalent(x, v, t):
    """value v and boolean term t have the same truth at state x"""
    def imp(a, b):
        a1 = lit(a)
        st = closure(x.facts, x.clauses, [a1])
        if st is None:
            return True
        fs, cl = st
        b1 = lit(b)
        if b1[0] is TRUE:
            return b1[1]
        if entails(fs, *b1) is True:
            return True
        return closure(fs, cl, [(b1[0], not b1[1])]) is None
    nv, nt = mk("not", v) if v.k != "not" else v.a[0], mk("not", t) if t.k != "not" else t.a[0]
    return imp(v, t) and imp(nv, nt)


def ANDT(*ts):
    return mk("and", tuple(ts))


def ORT(*ts):
    return mk("or", tuple(ts))


def NOTT(t):
    return t.a[0] if t.k == "not" else mk("not", t)


def always_equiv(q, R, inst, src, what, env=None):
    """a predicate's truth is exactly the specification on every exit"""
    t = q.term(src, env)
    bad = None
    n = 0
    for st, v, node in q.exits():
        n += 1
        if not equivalent(st, v, t):
            bad = (v, node)
    q.ctx.need(bad is None and n > 0, R, f"{q.qual}:{inst}", q.where(bad[1] if bad else None),
               f"{what}: returns {show(bad[0])[:100] if bad else 'nothing'}, which is not equivalent to {src}")


def guarded_by_call(facts, name, pred=lambda t: True):
    """positive fact that is a call of `name` satisfying pred"""
    return any(p and fname(t) == name and pred(t) for t, p in facts)


def refuses_only(q, R, reasons, what, names=("ValidationError", "ValueError"), env=None):
    """every explicit refusal is justified: at each raise one of the reasons (spec string or callable(state)) holds"""
    ctx = q.ctx
    n = 0
    seen = set()
    for kind, st, v, node in q.w.exits:
        if kind != "raise" or v is None or exc_name(v) not in names:
            continue
        n += 1
        good = any(r(st) if callable(r) else q.holds(st, r, env) for r in reasons)
        if good:
            ctx.ok(R, f"{q.qual}:refusal at {node.lineno if node is not None else '?'}")
        elif (node.lineno if node is not None else 0) not in seen:
            seen.add(node.lineno if node is not None else 0)
            fs = "; ".join(("" if p else "not ") + show(t)[:60] for t, p in sorted(st.facts, key=lambda l: l[0].sid)[:6])
            ctx.bad(R, f"{q.qual}:unjustified refusal:{exc_name(v)}", q.where(node), f"{what} although nothing established makes it invalid (known here: {fs})")
    return n


def scans_all(q, R, inst, st, v, node, L, what):
    """the exit is reached only after every element of L was visited (or the value is a comprehension over L)"""
    def same(x):
        return x is L or (x.k == "call" and x.a[0].k == "g" and x.a[0].a[0] in ("list", "tuple", "set", "oset", "sorted", "reversed", "enumerate")
                          and x.a[1] and x.a[1][0] is L)
    good = any(h.k == "looped" and same(h.a[0]) for h in st.hist)
    if not good and v is not None:
        for s in subterms(v):
            if s.k == "comp":
                got = q.w.comp_elems.get(s)
                good = good or got is None or any(same(it) for it, cl in got[1])
    q.ctx.need(good, R, inst, q.where(node), what)


def callargs(q, R, inst, events, spec, what, env=None):
    """argument forwarding: spec {(pos, name, ...): 'A || B' or callable(term)}"""
    for e in events:
        for key, want in spec.items():
            pos = key[0] if isinstance(key[0], int) else None
            names = [k for k in key if isinstance(k, str)]
            got = arg(e.term, pos, *names)
            if callable(want):
                good = bool(want(got))
            else:
                alts = [q.term(s.strip(), env) for s in want.split("||")]
                good = got is not None and (got in alts or unwrap(got) in alts)
            q.ctx.need(good, R, f"{q.qual}:{inst}:{names[0] if names else pos}", f"{q.rel}:{e.line} {e.func.qual}",
                       f"{what}: {names[0] if names else pos} is {show(got)[:70] if got is not None else 'not given'}")


def witnesses(q, st):
    """states obtained by naming the elements that facts 'some element of L satisfies ...' speak about (st itself first)"""
    out = [st]
    cur = st
    for t, p in sorted(st.facts, key=lambda l: l[0].sid):
        if t.k == "forall" and not p and isinstance(st, State):
            E = q.w.elem_of(t.a[0])
            a2 = subst(t.a[1], {mk("bv", 0): E})
            n = cur.assume(lit(a2, not t.a[2]))
            if n is not None:
                cur = n
                out.append(cur)
    return out


def terms_of(st):
    """all terms in the state's facts and clauses"""
    seen = set()
    for t, p in st.facts:
        seen.update(subterms(t))
    for c in st.clauses:
        for t, p in c:
            seen.update(subterms(t))
    return seen


def attr_in(t, base, names):
    return t is not None and t.k == "a" and t.a[0] is base and t.a[1] in names


def is_dgkey(t, S):
    """database key of event S: dgKey(pre, said) or (pre, said), bytes or str"""
    if t is None:
        return False
    ks = tup(t)
    if ks is None and fname(t) == "dgKey":
        ks = [arg(t, 0, "pre"), arg(t, 1, "dig")]
    return bool(ks) and len(ks) == 2 and is_pre(ks[0], S) and is_said(ks[1], S)


def is_pre(t, S):
    return t is not None and attr_in(unwrap(t), S, ("pre", "preb"))


def is_said(t, S):
    t = unwrap(t) if t is not None else None
    return attr_in(t, S, ("said", "saidb")) or (t is not None and t.k == "a" and t.a[1] in ("qb64", "qb64b") and attr_in(t.a[0], S, ("diger", "saider")))


def is_sn(t, S):
    return t is not None and (attr_in(t, S, ("sn",)) or t.k == "a" and t.a[1] in ("num", "sn") and attr_in(t.a[0], S, ("sner",)))


def is_snh(t, S):
    t = unwrap(t) if t is not None else None
    return t is not None and (attr_in(t, S, ("snh",)) or t.k == "a" and t.a[1] in ("numh", "snh") and attr_in(t.a[0], S, ("sner",)))


def is_onkey(t, S, on=None):
    """key at (pre, sn) of event S: keys=pre & on=sn, snKey(pre, sn), onKey(pre, sn) or (pre, snh)"""
    if t is None:
        return False
    if on is not None:
        ks = tup(t)
        return (is_pre(t, S) or ks and len(ks) == 1 and is_pre(ks[0], S)) and is_sn(on, S)
    if fname(t) in ("snKey", "onKey"):
        return is_pre(arg(t, 0, "pre", "top"), S) and is_sn(arg(t, 1, "sn", "on"), S)
    ks = tup(t)
    return bool(ks) and len(ks) == 2 and is_pre(ks[0], S) and is_snh(ks[1], S)


def dbop(t, store, *methods):
    """t is a call self.db.<store>.<method>(...)"""
    if fname(t) not in methods:
        return False
    r = recv(t)
    return r is not None and r.k == "a" and r.a[1] == store


def did(st, store, methods, pred=lambda t: True):
    """a matching database operation happened on every path to here"""
    for h in st.hist:
        if h.k in ("call", "fresh"):
            t = h.a[0] if h.k == "fresh" else h
            if dbop(t, store, *methods) and pred(t):
                return True
    return False
