"""Value-numbering, guard-fact dataflow over Python function bodies (no code is run).

Walks a function (helpers of the same module/class inlined) and produces *events* -- calls, stores,
deletes, raises, returns, yields, awaits -- each with
  * the value term of what happened (temporaries and aliases resolved away),
  * the must-facts (branch conditions with polarity) that dominate it,
  * the must-history (events that happened on every path to it),
  * a may-typestate supplied by the rule.
"""
import ast
import itertools
import builtins
from .model import Func, Cls, Module, AnalysisBroken

# ------------------------------------------------------------------ terms
_tab = {}


class T:
    __slots__ = ("k", "a", "_s", "_d", "_subs", "sid")

    def __repr__(self):
        return show(self)


_ctr = [0]


def mk(k, *a):
    key = (k,) + tuple((type(x).__name__, x) if k == "c" else x for x in a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k, t.a, t._s, t._subs = k, a, None, None
        d = 0
        for x in a:
            if isinstance(x, T):
                d = max(d, x._d)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        d = max(d, y._d)
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, T):
                                d = max(d, z._d)
        t._d = d + 1
        _ctr[0] += 1
        t.sid = _ctr[0]
        _tab[key] = t
    return t


def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z


def subterms(t):
    if t._subs is None:
        s = {t}
        for c in children(t):
            s |= subterms(c)
        t._subs = frozenset(s)
    return t._subs


def mentions(t, u):
    return u in subterms(t)


def subst(t, m, memo=None):
    """Replace subterms by mapping m {T: T}."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if not any(k in subterms(t) for k in m):
        memo[t] = t
        return t

    def go(x):
        if isinstance(x, T):
            return subst(x, m, memo)
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    r = mk(t.k, *[go(x) for x in t.a])
    memo[t] = r
    return r


def C(v):
    return mk("c", v)


NONE, TRUE, FALSE = C(None), C(True), C(False)


def P(n):
    return mk("p", n)


def G(n):
    return mk("g", n)


def A(b, n):
    return mk("a", b, n)


def iscon(t):
    return t.k == "c"


def show(t):
    if t._s is not None:
        return t._s
    k, a = t.k, t.a
    if k in ("p", "g"):
        s = a[0]
    elif k == "c":
        s = repr(a[0])
    elif k == "a":
        s = f"{show(a[0])}.{a[1]}"
    elif k == "call":
        parts = [show(x) for x in a[1]] + [f"{n}={show(v)}" for n, v in a[2]]
        s = f"{show(a[0])}({', '.join(parts)})"
    elif k == "sub":
        s = f"{show(a[0])}[{show(a[1])}]"
    elif k == "slice":
        s = ":".join("" if x is NONE else show(x) for x in a)
    elif k == "bin":
        s = f"({show(a[1])} {a[0]} {show(a[2])})"
    elif k == "lin":
        s = f"({show(a[0])} {'+' if a[1] >= 0 else '-'} {abs(a[1])})"
    elif k == "un":
        s = f"{a[0]}{show(a[1])}"
    elif k == "eq":
        s = f"{show(a[0])} == {show(a[1])}"
    elif k == "lt":
        off = "" if not a[2] else f" + {a[2]}" if a[2] > 0 else f" - {-a[2]}"
        s = f"{show(a[0])} < {show(a[1])}{off}"
    elif k in ("is", "in"):
        s = f"{show(a[0])} {k} {show(a[1])}"
    elif k == "not":
        s = f"not ({show(a[0])})"
    elif k in ("and", "or"):
        s = "(" + f" {k} ".join(show(x) for x in a[0]) + ")"
    elif k == "tup":
        s = "(" + ", ".join(show(x) for x in a[0]) + ")"
    elif k == "set":
        s = "{" + ", ".join(show(x) for x in a[0]) + "}"
    elif k == "new":
        s = f"<{a[0]}@{a[1]}>"
    elif k == "elem":
        s = f"each({show(a[0])})"
    elif k == "idx":
        s = f"index_in({show(a[0])})"
    elif k == "bv":
        s = f"${a[0]}"
    elif k == "forall":
        s = f"all $ in {show(a[0])}: {'' if a[2] else 'not '}{show(a[1])}"
    elif k == "comp":
        s = f"{a[0]}[{show(a[1])} for {a[2]}]"
    elif k == "phi":
        s = f"{a[1]}#{a[0]}"
    elif k == "fstr":
        s = "f'" + "".join(x.a[0] if x.k == "c" and isinstance(x.a[0], str) else "{" + show(x) + "}" for x in a[0]) + "'"
    elif k == "star":
        s = "*" + show(a[0])
    else:
        s = f"<{k}:{','.join(show(x) if isinstance(x, T) else str(x) for x in a)}>"
    t._s = s
    return s


def mklin(b, k):
    if b.k == "lin":
        b, k = b.a[0], b.a[1] + k
    if b.k == "c" and isinstance(b.a[0], int) and not isinstance(b.a[0], bool):
        return C(b.a[0] + k)
    return b if k == 0 else mk("lin", b, k)


def unlin(t):
    if t.k == "lin":
        return t.a[0], t.a[1]
    return t, 0


def _isnum(t):
    return t.k == "c" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)


def _order(a, b):
    # deterministic commutative order: constants last, then text
    ka = (a.k == "c", show(a))
    kb = (b.k == "c", show(b))
    return (a, b) if ka <= kb else (b, a)


def is_len(t):
    return t.k == "call" and t.a[0] is G("len") and len(t.a[1]) == 1


def mkeq(a, b):
    """-> (atom, pol)"""
    a1, ka = unlin(a)
    b1, kb = unlin(b)
    if ka or kb:
        if _isnum(b1):
            a, b = a1, C(b1.a[0] + kb - ka)
        elif _isnum(a1):
            a, b = b1, C(a1.a[0] + ka - kb)
        else:
            k = kb - ka   # a1 == b1 + k
            x, y = _order(a1, b1)
            if x is not a1:
                k = -k
            a, b = x, mklin(y, k)
            return mk("eq", a, b), True
    if a is b:
        return TRUE, True
    if iscon(a) and iscon(b):
        try:
            return (TRUE, a.a[0] == b.a[0])
        except Exception:
            pass
    for x, y in ((a, b), (b, a)):
        if is_len(x) and _isnum(y) and y.a[0] == 0:
            return x.a[1][0], False
        if y is NONE:
            return mk("is", x, NONE), True
    x, y = _order(a, b)
    return mk("eq", x, y), True


def mklt(a, b, k=0):
    """a < b + k"""
    a1, ka = unlin(a)
    b1, kb = unlin(b)
    k = k + kb - ka
    a, b = a1, b1
    if _isnum(a) and _isnum(b):
        return TRUE, a.a[0] < b.a[0] + k
    if _isnum(a) and isinstance(a.a[0], int):
        k -= a.a[0]
        a = C(0)
    if _isnum(b) and isinstance(b.a[0], int):
        k += b.a[0]
        b = C(0)
    # len(x) normalisation
    if a is C(0) and is_len(b) and k == 0:          # 0 < len(x)
        return b.a[1][0], True
    if is_len(a) and b is C(0) and k == 1:          # len(x) < 1
        return a.a[1][0], False
    # canonical orientation: text order
    x, y = _order(a, b)
    if x is a:
        return mk("lt", a, b, k), True
    # a < b+k  <=> not (b+k <= a) <=> not (b < a + 1 - k)
    return mk("lt", b, a, 1 - k), False


def mkis(a, b):
    if iscon(a) and iscon(b):
        return TRUE, a is b
    if b.k != "c" and a.k == "c":
        a, b = b, a
    if b is NONE and a.k in ("new", "tup", "set", "fstr", "comp", "lam"):
        return TRUE, False
    if b is NONE and a.k == "call" and a.a[0].k == "g" and a.a[0].a[0] in ("int", "len", "str", "bytes", "bytearray", "list", "tuple", "dict", "set", "float", "bool"):
        return TRUE, False
    return mk("is", a, b), True


def mkin(a, b):
    if b.k in ("tup", "set"):
        els = tuple(sorted(set(b.a[0]), key=show))
        if len(els) == 1:
            return mkeq(a, els[0])
        b = mk("set", els)
        if iscon(a) and all(iscon(e) for e in els):
            return TRUE, a in els
    elif b.k == "new" and b.a[2] is not None and b.a[0] in ("list", "set"):
        els = tuple(sorted(set(b.a[2]), key=show))
        if len(els) == 1:
            return mkeq(a, els[0])
        if els:
            b = mk("set", els)
    elif b.k == "call" and b.a[0].k == "a" and b.a[0].a[1] == "keys" and not b.a[1] and not b.a[2]:
        b = b.a[0].a[0]
    return mk("in", a, b), True


def mknot(t):
    if t.k == "not":
        return t.a[0]
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    return mk("not", t)


def const_truth(t):
    if t.k == "c":
        return bool(t.a[0])
    if t.k == "tup":
        return bool(t.a[0])
    if t.k in ("lam",):
        return True
    if t.k == "fstr":
        return None
    return None


def lit(t, pol=True):
    """normalise a boolean term to literal (atom, pol)"""
    while t.k == "not":
        t, pol = t.a[0], not pol
    if t.k == "call" and t.a[0] is G("bool") and len(t.a[1]) == 1:
        return lit(t.a[1][0], pol)
    if is_len(t):
        return lit(t.a[1][0], pol)
    if t.k == "forall":
        pass
    if t.k == "c":
        return (TRUE, bool(t.a[0]) == pol)
    return (t, pol)


# ------------------------------------------------------------------ facts
def closure(facts, clauses, new):
    """Add literals `new` with simple consequences + unit propagation. None if contradictory."""
    fs = set(facts)
    todo = list(new)
    cl = set(clauses)
    while todo:
        l = todo.pop()
        if isinstance(l, frozenset):
            if len(l) == 1:
                todo.append(next(iter(l)))
            else:
                cl.add(l)
                l2 = reduce_clause(fs, l)
                if l2 is True:
                    cl.discard(l)
                elif l2 is not l:
                    cl.discard(l)
                    if not l2:
                        return None
                    todo.append(l2)
            continue
        t, p = l
        if t is TRUE:
            if not p:
                return None
            continue
        if t.k == "and" and p or t.k == "or" and not p:
            for x in t.a[0]:
                todo.append(lit(x, p))
            continue
        if t.k == "and" and not p or t.k == "or" and p:
            todo.append(frozenset(lit(x, p) for x in t.a[0]))
            continue
        e = entails(fs, t, p)
        if e is True:
            fs.add(l)
            continue
        if e is False:
            return None
        fs.add(l)
        for c in list(cl):
            c2 = reduce_clause(fs, c)
            if c2 is True:
                cl.discard(c)
            elif c2 is not c:
                cl.discard(c)
                if not c2:
                    return None
                todo.append(c2)
    return frozenset(fs), frozenset(cl)


def reduce_clause(fs, c):
    out, changed = set(), False
    for (t, p) in c:
        e = entails(fs, t, p)
        if e is True:
            return True
        if e is False:
            changed = True
            continue
        out.add((t, p))
    return frozenset(out) if changed else c


def entails(fs, t, p=True):
    """True if facts entail (t,p); False if they entail (t, not p); None unknown."""
    if t is TRUE:
        return p
    if (t, p) in fs:
        return True
    if (t, not p) in fs:
        return False
    k = t.k
    ct = const_truth(t)
    if ct is not None:
        return ct == p
    if k == "not":
        e = entails(fs, t.a[0], not p)
        return e
    if k in ("and", "or"):
        es = [entails(fs, *lit(x)) for x in t.a[0]]
        if k == "and":
            v = True if all(e is True for e in es) else False if any(e is False for e in es) else None
        else:
            v = True if any(e is True for e in es) else False if all(e is False for e in es) else None
        return None if v is None else v == p
    v = None
    if k == "is" and t.a[1] is NONE:
        x = t.a[0]
        if (x, True) in fs:
            v = False
        elif x.k in ("new", "tup", "set", "fstr", "comp", "lam"):
            v = False
        elif x.k == "c":
            v = x is NONE
        else:
            for (f, fp) in fs:
                if fp and f.k == "eq" and x in f.a and any(iscon(y) for y in f.a):
                    v = False
                    break
                if fp and f.k == "is" and f.a[0] is x and f.a[1] is not NONE:
                    v = False
                    break
                if fp and f.k == "call" and f.a[0] is G("isinstance") and f.a[1] and f.a[1][0] is x:
                    v = False
                    break
                if fp and f.k == "in" and f.a[0] is x and f.a[1].k == "set" and NONE not in f.a[1].a[0]:
                    v = False
                    break
    elif k == "call" and t.a[0] is G("isinstance") and len(t.a[1]) == 2 and t.a[1][0].k == "new" and t.a[1][0].a[0] in ("list", "dict", "set"):
        cs = t.a[1][1].a[0] if t.a[1][1].k == "tup" else (t.a[1][1],)
        if all(c.k == "g" and c.a[0] in ("list", "dict", "set", "tuple", "str", "bytes", "bytearray", "int", "float", "bool") for c in cs):
            v = any(c.a[0] == t.a[1][0].a[0] for c in cs)
    elif k == "eq":
        x, y = t.a
        if iscon(y):
            for (f, fp) in fs:
                if f.k == "eq" and fp and f.a[0] is x and iscon(f.a[1]):
                    v = f.a[1] is y
                    break
                if f.k == "in" and f.a[0] is x and f.a[1].k == "set":
                    els = f.a[1].a[0]
                    if all(iscon(e) for e in els):
                        if fp and y not in els:
                            v = False
                            break
                        if not fp and y in els:
                            v = False
                            break
                if f.k == "is" and fp and f.a[0] is x and f.a[1] is NONE:
                    v = False
                    break
                if f is x and isinstance(y.a[0], (str, bytes, int)) and bool(y.a[0]) != fp:
                    v = False
                    break
        if v is None and any(f.k == "lt" for f, _ in fs):
            es = []
            for l in (mklt(x, y), mklt(y, x)):
                r = None
                if l[0].k == "lt":
                    r = entails(fs, *l)
                es.append(r)
            if True in es:
                v = False
            elif es == [False, False]:
                v = True
    elif k == "in" and t.a[1].k == "set":
        x, els = t.a[0], t.a[1].a[0]
        for (f, fp) in fs:
            if f.k == "eq" and fp and x in f.a:
                o = f.a[0] if f.a[1] is x else f.a[1]
                if o in els:
                    v = True
                    break
                if iscon(o) and all(iscon(e) for e in els):
                    v = False
                    break
            if f.k == "in" and f.a[0] is x and f.a[1].k == "set":
                e2 = set(f.a[1].a[0])
                if fp and e2 <= set(els):
                    v = True
                    break
                if fp and all(iscon(e) for e in e2 | set(els)) and not (e2 & set(els)):
                    v = False
                    break
                if not fp and set(els) <= e2:
                    v = False
                    break
        if v is None:
            if all((mkeq(x, e)[0], False) in fs for e in els):
                v = False
    elif k == "lt":
        a, b, off = t.a
        for (f, fp) in fs:
            if f.k == "lt" and f.a[0] is a and f.a[1] is b:
                if fp and f.a[2] <= off:
                    v = True
                    break
                if not fp and f.a[2] >= off:
                    v = False
                    break
            elif f.k == "lt" and f.a[0] is b and f.a[1] is a:
                # b < a + f2  ; t: a < b + off ; not t: b <= a - off  i.e. b < a - off + 1
                if fp and f.a[2] <= 1 - off:
                    v = False
                    break
                if not fp and f.a[2] >= 1 - off:
                    v = True
                    break
            elif f.k == "eq" and fp:
                x, y = f.a
                y1, ky = unlin(y)
                if x is a and y1 is b:      # a == b + ky
                    v = ky < off
                    break
                if x is b and y1 is a:      # b == a + ky -> a == b - ky
                    v = -ky < off
                    break
    else:
        # truthiness of x
        if (mk("is", t, NONE), True) in fs:
            v = False
        else:
            for (f, fp) in fs:
                if fp and f.k == "eq" and t in f.a:
                    o = f.a[0] if f.a[1] is t else f.a[1]
                    ct = const_truth(o)
                    if ct is not None:
                        v = ct
                        break
    return None if v is None else v == p


# ------------------------------------------------------------------ state
class State:
    __slots__ = ("env", "stack", "heap", "facts", "clauses", "hist", "ts", "rest")

    def __init__(self, env, stack=(), heap=None, facts=frozenset(), clauses=frozenset(), hist=frozenset(), ts=frozenset()):
        self.env, self.stack, self.heap = env, stack, heap or {}
        self.facts, self.clauses, self.hist, self.ts = facts, clauses, hist, ts
        self.rest = None

    def copy(self):
        s = State(dict(self.env), self.stack, dict(self.heap), self.facts, self.clauses, self.hist, self.ts)
        s.rest = self.rest
        return s

    def key(self):
        return (frozenset(self.env.items()), tuple(id(e) if False else frozenset(e.items()) for e in self.stack),
                frozenset(self.heap.items()), self.facts, self.clauses, self.hist, self.ts)

    def assume(self, *lits):
        r = closure(self.facts, self.clauses, lits)
        if r is None:
            return None
        s = self.copy()
        s.facts, s.clauses = r
        return s

    def kill(self, term, key=None):
        """term was mutated in place (under that key only, if given): forget facts about it"""
        dep = depends if key is None else lambda t, b: depends(t, b) and touched(t, b, key)
        fs = frozenset(f for f in self.facts if not dep(f[0], term))
        if len(fs) != len(self.facts):
            self.facts = fs
        cl = frozenset(c for c in self.clauses if not any(dep(l[0], term) for l in c))
        self.clauses = cl


def touched(t, b, key):
    """t reads b elsewhere than under another key"""
    if t is b:
        return True
    if t.k == "sub" and t.a[0] is b and isinstance(t.a[1], T) and t.a[1].k == "c" and isinstance(t.a[1].a[0], str) and t.a[1] is not key:
        return False
    return any(touched(c, b, key) for c in children(t))


SNAPS = set()  # stores read once: what a read handed back stays as it was although the store is written later
VALUES = set()  # constructors whose objects keep nothing of their arguments: changing an argument later does not change them


def depends(t, term):
    """a fact about t is void once the object `term` was changed"""
    if term not in subterms(t):
        return False
    if not VALUES and not SNAPS:
        return True
    if t is term:
        return True
    if SNAPS and t.k == "fresh":  # taken out of the object before
        return False
    if SNAPS and t.k == "call" and t.a[0].k == "a" and t.a[0].a[0] is term and t.a[0].a[1] == "get" and term.k == "a" and term.a[1] in SNAPS:
        return False
    if t.k == "call" and t.a[0].k == "g" and t.a[0].a[0] in VALUES:
        return False
    return any(depends(c, term) for c in children(t))


PHI = {}  # merged value -> the values it merges (None: not assigned on some path)


def phi(site, n, *alts):
    t = mk("phi", site, n)
    got = PHI.setdefault(t, set())
    for x in alts:
        if x is not t:
            got.add(x)
    return t


def merge(states, site):
    """join: intersect facts/history, union typestate, phi differing values"""
    if len(states) == 1:
        return states[0]
    a = states[0].copy()
    for b in states[1:]:
        da, db = a.facts - b.facts, b.facts - a.facts
        a.facts = a.facts & b.facts
        a.clauses = a.clauses & b.clauses
        if 0 < len(da) <= 2 and 0 < len(db) <= 2:   # one of the two ways was taken
            a.clauses = a.clauses | frozenset(frozenset((x, y)) for x in da for y in db if not (x[0] is y[0] and x[1] != y[1]))
        a.hist = a.hist & b.hist
        a.ts = a.ts | b.ts
        for n in list(a.env):
            if n not in b.env:
                a.env[n] = phi(site, n, a.env[n], None)
            elif a.env[n] is not b.env[n]:
                a.env[n] = phi(site, n, a.env[n], b.env[n])
        for n in b.env:
            if n not in a.env:
                a.env[n] = phi(site, n, b.env[n], None)
        for h in set(a.heap) | set(b.heap):
            if a.heap.get(h) is not b.heap.get(h):
                a.heap[h] = phi(site, f"{show(h[0])}.{h[1]}", a.heap.get(h), b.heap.get(h))
        if a.stack != b.stack:
            ns = []
            for ea, eb in zip(a.stack, b.stack):
                if ea is eb:
                    ns.append(ea)
                else:
                    e = {}
                    for n in set(ea) | set(eb):
                        e[n] = ea[n] if n in ea and n in eb and ea[n] is eb[n] else phi(site, n, ea.get(n), eb.get(n))
                    ns.append(e)
            a.stack = tuple(ns)
    return a


class Event:
    __slots__ = ("kind", "term", "value", "node", "func", "facts", "clauses", "hist", "ts", "stack", "st", "outer", "sites")

    def __init__(self, kind, term, value, node, func, st, stack):
        self.kind, self.term, self.value, self.node, self.func = kind, term, value, node, func
        self.facts, self.clauses, self.hist, self.ts, self.stack = st.facts, st.clauses, st.hist, st.ts, stack

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    @property
    def where(self):
        return f"{self.func.mod.rel}:{self.line} {self.func.qual}"

    def holds(self, t, p=True):
        e = entails(self.facts, *lit(t, p))
        return e is True

    def __repr__(self):
        return f"<{self.kind} {show(self.term)} @{self.line}>"


MUTATORS = {"append", "add", "extend", "insert", "update", "pop", "popitem", "remove", "clear", "discard", "appendleft",
            "popleft", "push", "setdefault", "sort", "reverse", "put", "pin"}
LISTMUT = {"append", "add", "extend", "insert", "update", "pop", "popitem", "remove", "clear", "discard", "appendleft",
           "popleft", "setdefault", "sort", "reverse"}

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@"}


def same_content(t):
    """value whose content a text/bytes conversion carries over"""
    while t is not None and t.k == "call":
        if t.a[0].k == "a" and t.a[0].a[1] in ("encode", "decode"):
            t = t.a[0].a[0]
        elif t.a[0].k == "g" and t.a[0].a[0] in ("bytes", "str") and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            break
    return t


def quiet(s):
    """statement that does not raise by itself (text encoding, plain copies, type tests)"""
    def still(e):
        return isinstance(e, (ast.Constant, ast.Name)) or isinstance(e, ast.Tuple) and all(map(still, e.elts)) or isinstance(e, ast.Call) and (
            isinstance(e.func, ast.Attribute) and e.func.attr == "encode" and still(e.func.value) or
            isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "hasattr") and all(map(still, e.args)))
    if isinstance(s, (ast.Pass, ast.Continue, ast.Break)):
        return True
    if isinstance(s, ast.Assign):
        return all(isinstance(t, ast.Name) for t in s.targets) and still(s.value)
    return isinstance(s, ast.If) and still(s.test)


LEAN = {}


def lean(f):
    """statements of a function without the ones that do nothing; `x = e; return x` is read as `return e`"""
    got = LEAN.get(f.node)
    if got is not None:
        return got
    loads = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Store):
            loads[n.id] = loads.get(n.id, 0) + 1
    out = []
    for x in f.node.body:
        if isinstance(x, ast.Pass) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
            continue
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and all(isinstance(t, ast.Name) and t.id not in loads for t in x.targets):
            continue
        out.append(x)
    if len(out) == 2 and isinstance(out[0], ast.Assign) and len(out[0].targets) == 1 and isinstance(out[0].targets[0], ast.Name) and isinstance(out[1], ast.Return) \
            and isinstance(out[1].value, ast.Name) and out[1].value.id == out[0].targets[0].id and loads.get(out[1].value.id) == 1:
        out = [ast.copy_location(ast.Return(out[0].value), out[1])]
    LEAN[f.node] = out
    return out


def trivial(f):
    """one-statement helper: does not count towards the inlining depth"""
    b = lean(f)
    return len(b) == 1 and isinstance(b[0], (ast.Return, ast.Expr))


class Frame:
    def __init__(self, func, cls, inlined=False, yieldcb=None):
        self.func, self.cls, self.inlined, self.yieldcb, self.via = func, cls, inlined, yieldcb, None
        self.returns = []      # (state, value, node)
        self.loops = []
        self.site = ()


class Loop:
    def __init__(self, term=None, iswhile=False):
        self.breaks, self.conts, self.term, self.iswhile = [], [], term, iswhile


class Walker:
    """analyse one entry function"""

    LIMIT = 24

    def __init__(self, model, *, opaque=(), inline=None, depth=4, limit=None, types=None, on_event=None, track=True,
                 inline_mods=None, props=False, fresh=(), values=(), pick=(), snaps=()):
        self.m = model
        self.pick = frozenset(pick)  # of a loop over given constants that include these: only these iterations (for loops whose iterations do not touch each other)
        self.freshcalls = frozenset(fresh)
        self.values = frozenset(values)
        self.snaps = frozenset(snaps)
        self.opaque = set(opaque)
        self.inline_pred = inline
        self.depth = depth
        self.limit = limit or self.LIMIT
        self.types = dict(types or {})
        self.on_event = on_event
        self.events = []
        self.exits = []
        self.frames = []
        self.raisers = []
        self.tryctx = []
        self.merges = 0
        self.analysed = set()
        self.locals_funcs = {}
        self.genmap = {}
        self.accs = {}
        self.phis = {}
        self.await_raises = False
        self.comp_elems = {}
        self.steps = 0
        self.inline_mods = inline_mods
        self.props = props
        self.muted = False

    # -- driver --------------------------------------------------------
    def run(self, func, cls=None, args=None, facts=()):
        VALUES.clear()
        VALUES.update(self.values)
        SNAPS.clear()
        SNAPS.update(self.snaps)
        cls = cls or func.cls
        self.entry = func
        env = {}
        a = func.node.args
        for i, x in enumerate(a.posonlyargs + a.args + a.kwonlyargs):
            env[x.arg] = P(x.arg)
            c = self.ann_type(x.annotation, func.mod)
            if c is not None:
                self.types.setdefault(P(x.arg), c)
        if a.vararg:
            env[a.vararg.arg] = P(a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = P(a.kwarg.arg)
        if args:
            env.update(args)
        if cls is not None and func.params and not func.isstatic:
            self.types[env[func.params[0]]] = cls
        st = State(env)
        if facts:
            st = st.assume(*facts)
        fr = Frame(func, cls)
        self.frames.append(fr)
        self.raisers.append([])
        self.analysed.add(func)
        out = self.exec(func.node.body, [st])
        for s in out:
            self.exits.append(("fall", s, NONE, func.node))
        for s, v, n in fr.returns:
            self.exits.append(("return", s, v, n))
        for s, name, v, n in self.raisers.pop():
            self.exits.append(("raise", s, v, n))
        self.frames.pop()
        return self

    def normal_exits(self):
        return [e for e in self.exits if e[0] != "raise"]

    def ann_type(self, ann, mod):
        if ann is None:
            return None
        try:
            s = ann.value if isinstance(ann, ast.Constant) else ast.unparse(ann)
        except Exception:
            return None
        if isinstance(s, str) and s.isidentifier():
            r = self.m.resolve(mod, s)
            if isinstance(r, Cls):
                return r
        return None

    # -- helpers -------------------------------------------------------
    @property
    def fr(self):
        return self.frames[-1]

    def emit(self, kind, st, term, node, value=None):
        ev = Event(kind, term, value, node, self.fr.func, st, tuple(f.func.qual for f in self.frames))
        ev.sites = tuple(f.via.lineno for f in self.frames if f.via is not None)  # the calls on the way here
        if self.muted:
            return ev
        self.events.append(ev)
        if self.on_event:
            self.on_event(self, st, ev)
        if kind in ("call", "store", "del", "setitem", "yield", "aug"):
            st.hist = st.hist | {term if kind == "call" else mk(kind, term, value if value is not None else NONE)}
        return ev

    def cap(self, states, node):
        if len(states) <= 1:
            return states
        seen, out = {}, []
        for s in states:
            k = s.key()
            if k not in seen:
                seen[k] = s
                out.append(s)
        if len(out) > 1:
            # merge states equal in everything but history / typestate-free parts
            groups = {}
            for s in out:
                groups.setdefault((frozenset(s.env.items()), s.stack and tuple(frozenset(e.items()) for e in s.stack),
                                   frozenset(s.heap.items()), s.facts, s.clauses, s.ts, frozenset(h for h in s.hist if h.k == "caught")), []).append(s)
            if len(groups) < len(out):
                out = [merge(g, f"{getattr(node, 'lineno', 0)}") for g in groups.values()]
        if len(out) > self.limit:
            self.merges += 1
            # merge states that agree on typestate first
            groups = {}
            for s in out:
                groups.setdefault((s.ts, frozenset(h for h in s.hist if h.k == "caught")), []).append(s)
            out2 = []
            for g in groups.values():
                n = max(1, self.limit // max(1, len(groups)))
                while len(g) > n:
                    best = self.closest(g)
                    i, j = best
                    b = g.pop(j)
                    g[i] = merge([g[i], b], f"{getattr(node, 'lineno', 0)}")
                out2.extend(g)
            out = out2
        return out

    def closest(self, g):
        best, bs = (0, 1), -10 ** 9
        n = min(len(g), 12)
        for i in range(n):
            for j in range(i + 1, n):
                a, b = g[i], g[j]
                sc = len(a.facts & b.facts) * 2 - len(a.facts ^ b.facts)
                for k in a.env:
                    if a.env[k] is not b.env.get(k):
                        sc -= 2
                if sc > bs:
                    bs, best = sc, (i, j)
        return best

    # -- statements ----------------------------------------------------
    def exec(self, stmts, states):
        for s in stmts:
            if not states:
                return []
            self.steps += 1
            if self.steps > 400000:
                raise AnalysisBroken(f"analysis budget exceeded in {self.entry.where}")
            m = getattr(self, "x_" + type(s).__name__, None)
            if m is None:
                raise AnalysisBroken(f"unsupported statement {type(s).__name__} at {self.fr.func.mod.rel}:{s.lineno}")
            out = []
            for st in states:
                if self.tryctx and not quiet(s):
                    self.tryctx[-1].append(st.copy())
                out.extend(m(s, st))
            states = self.cap(out, s)
        return states

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [st]
        return [x for x, _ in self.ev(s.value, st)]

    def x_Pass(self, s, st):
        return [st]

    def x_Import(self, s, st):
        for a in s.names:
            st.env[(a.asname or a.name).split(".")[0]] = G((a.asname or a.name).split(".")[0])
        return [st]

    def x_ImportFrom(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name] = G(a.name)
            base = self.fr.func.mod._relbase(s)
            mm = self.m.modules.get(base)
            r = self.m.resolve(mm, a.name) if mm else None
            if r is not None:
                self.locals_funcs[G(a.name)] = r
        return [st]

    def x_Global(self, s, st):
        return [st]

    x_Nonlocal = x_Global

    def x_Assert(self, s, st):
        t, f = self.branch(s.test, st)
        for x in f:
            self.do_raise(x, "AssertionError", G("AssertionError"), s)
        return t

    def x_FunctionDef(self, s, st):
        f = Func(s, self.fr.func.mod, None)
        t = mk("lam", f"{self.fr.func.mod.rel}:{s.lineno}:{s.name}")
        self.locals_funcs[t] = ("closure", f, dict(st.env))
        st.env[s.name] = t
        return [st]

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s, st):
        st.env[s.name] = mk("unk", f"class{s.lineno}")
        return [st]

    def x_Assign(self, s, st):
        out = []
        for x, v in self.ev(s.value, st):
            for t in s.targets:
                x = self.assign(t, v, x, s)
            out.append(x)
        return out

    def x_AnnAssign(self, s, st):
        if s.value is None:
            return [st]
        return [self.assign(s.target, v, x, s) for x, v in self.ev(s.value, st)]

    def x_AugAssign(self, s, st):
        load = ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s.target)
        for n in ast.walk(load):
            ast.copy_location(n, s.target)
        out = []
        for x, old in self.ev(load, st):
            for y, v in self.ev(s.value, x):
                nv = self.binop(BINOPS[type(s.op)], old, v)
                if isinstance(s.op, (ast.Add, ast.BitOr)) and old.k == "new":
                    # in-place extension of a container
                    self.emit("call", y, mk("call", A(old, "extend"), (v,), ()), s)
                    y.kill(old)
                    continue_val = old
                    if isinstance(s.target, ast.Name):
                        y.env[s.target.id] = continue_val
                        out.append(y)
                        continue
                self.emit("aug", y, old, s, nv)
                out.append(self.assign(s.target, nv, y, s))
        return out

    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    st = self.assign(e.value, mk("unk", f"star{node.lineno}"), st, node)
                    continue
                idx = i if not star or i < star[0] else i - n
                st = self.assign(e, self.mksub(v, C(idx)), st, node)
        elif isinstance(t, ast.Attribute):
            for x, b in self.ev(t.value, st):
                st = x
                self.emit("store", st, A(b, t.attr), node, v)
                st.heap[(b, t.attr)] = v
                break
        elif isinstance(t, ast.Subscript):
            for x, b in self.ev(t.value, st):
                for y, i in self.ev(t.slice, x):
                    st = y
                    self.emit("setitem", st, mk("sub", b, i), node, v)
                    st.kill(b, i if i.k == "c" and isinstance(i.a[0], str) else None)
                    break
                break
        elif isinstance(t, ast.Starred):
            st = self.assign(t.value, mk("unk", f"star{node.lineno}"), st, node)
        else:
            raise AnalysisBroken(f"assign target {type(t).__name__}")
        return st

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                x, b = self.ev(t.value, st)[0]
                y, i = self.ev(t.slice, x)[0]
                st = y
                self.emit("del", st, mk("sub", b, i), s)
                st.kill(b)
            elif isinstance(t, ast.Attribute):
                x, b = self.ev(t.value, st)[0]
                st = x
                self.emit("del", st, A(b, t.attr), s)
            elif isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return [st]

    def x_Return(self, s, st):
        if s.value is None:
            self.emit("return", st, NONE, s)
            self.fr.returns.append((st, NONE, s))
            return []
        for x, v in self.ev(s.value, st):
            self.emit("return", x, v, s)
            self.fr.returns.append((x, v, s))
        return []

    def x_Raise(self, s, st):
        if s.exc is None:
            cur = st.env.get("#exc")
            self.do_raise(st, "Exception" if cur is None else self.excname(cur), cur or G("reraise"), s)
            return []
        for x, v in self.ev(s.exc, st):
            self.do_raise(x, self.excname(v), v, s)
        return []

    def excname(self, v):
        if v.k == "call":
            v = v.a[0]
        if v.k in ("g", "p"):
            return v.a[0]
        if v.k == "a":
            return v.a[1]
        if v.k == "exc":
            return v.a[1]
        return "Exception"

    def do_raise(self, st, name, term, node):
        self.emit("raise", st, term, node, C(name))
        self.raisers[-1].append((st, name, term, node))

    def x_Break(self, s, st):
        lp = self.fr.loops[-1]
        if lp.term is not None:
            self.emit("break", st, lp.term, s).st = st
        lp.breaks.append(st)
        return []

    def x_Continue(self, s, st):
        lp = self.fr.loops[-1]
        lp.conts.append(st)
        return []

    def bodyend(self, lp, states, s):
        for x in states:
            self.emit("bodyend", x, lp.term, s).st = x

    def note_phis(self, site, names, init, conts):
        for n in names:
            ph = mk("phi", site, n)
            d = self.phis.setdefault(ph, {"init": set(), "steps": set()})
            if n in init:
                d["init"].add(init[n])
            for c in conts:
                v = c.env.get(n)
                if v is not None:
                    d["steps"].add((v, c.facts))

    def x_If(self, s, st):
        t, f = self.branch(s.test, st)
        out = self.exec(s.body, self.cap(t, s)) if t else []
        out2 = (self.exec(s.orelse, self.cap(f, s)) if s.orelse else f) if f else []
        return out + out2

    def x_Match(self, s, st):
        out = []
        for x, subj in self.ev(s.subject, st):
            rest = [x]
            for c in s.cases:
                nxt, hit = [], []
                for y in rest:
                    t, f = self.pat_branch(c.pattern, subj, y)
                    if c.guard is not None:
                        t2 = []
                        for z in t:
                            a, b = self.branch(c.guard, z)
                            t2 += a
                            f = f + b
                        t = t2
                    hit += t
                    nxt += f
                if hit:
                    out += self.exec(c.body, self.cap(hit, s))
                rest = self.cap(nxt, s)
            out += rest
        return out

    def pat_branch(self, p, subj, st):
        if isinstance(p, ast.MatchValue):
            x, v = self.ev(p.value, st)[0]
            a, pol = mkeq(subj, v)
            return self.split(x, a, pol)
        if isinstance(p, ast.MatchSingleton):
            a, pol = mkis(subj, C(p.value))
            return self.split(st, a, pol)
        if isinstance(p, ast.MatchOr):
            vals = []
            for q in p.patterns:
                if isinstance(q, ast.MatchValue):
                    vals.append(self.ev(q.value, st)[0][1])
                else:
                    return [st.copy()], [st.copy()]
            a, pol = mkin(subj, mk("tup", tuple(vals)))
            return self.split(st, a, pol)
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            y = st.copy()
            if p.name:
                y.env[p.name] = subj
            return [y], []
        if isinstance(p, ast.MatchAs):
            t, f = self.pat_branch(p.pattern, subj, st)
            for y in t:
                y.env[p.name] = subj
            return t, f
        if isinstance(p, ast.MatchClass):
            c = self.ev(p.cls, st)[0][1]
            return self.split(st, mk("call", G("isinstance"), (subj, c), ()), True)
        return [st.copy()], [st.copy()]

    def split(self, st, atom, pol):
        t = st.assume((atom, pol))
        f = st.assume((atom, not pol))
        return ([t] if t else []), ([f] if f else [])

    # -- loops ---------------------------------------------------------
    def assigned(self, nodes, st):
        names, attrs, muts = set(), [], set()
        for root in nodes:
            for n in ast.walk(root):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    attrs.append(n)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in LISTMUT \
                        and isinstance(n.func.value, (ast.Name, ast.Attribute)):
                    muts.add(ast.unparse(n.func.value))
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                        isinstance(n.value, (ast.Name, ast.Attribute)):
                    muts.add(ast.unparse(n.value))
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    names.add(n.name)
        if names:
            names -= self.recoded(nodes, names)
        return names, attrs, muts

    def recoded(self, nodes, names):
        """names only ever reassigned to another encoding of their own content (x = x.decode() if x is bytes)"""
        good, every = {}, {}
        for root in nodes:
            for n in ast.walk(root):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in names:
                    every[n.id] = every.get(n.id, 0) + 1
                if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.Call) and isinstance(n.test.func, ast.Name) and n.test.func.id in ("isinstance", "hasattr") \
                        and len(n.body) == 1 and isinstance(n.body[0], ast.Assign) and len(n.body[0].targets) == 1 and isinstance(n.body[0].targets[0], ast.Name):
                    x, v = n.body[0].targets[0].id, n.body[0].value
                    while isinstance(v, ast.Call):
                        if isinstance(v.func, ast.Attribute) and v.func.attr in ("encode", "decode"):
                            v = v.func.value
                        elif isinstance(v.func, ast.Name) and v.func.id in ("bytes", "str") and v.args:
                            v = v.args[0]
                        else:
                            break
                    if isinstance(v, ast.Name) and v.id == x and isinstance(n.test.args[0], ast.Name) and n.test.args[0].id == x:
                        good[x] = good.get(x, 0) + 1
        return {x for x, k in good.items() if k == every.get(x)}

    def havoc(self, nodes, st, site):
        names, attrs, muts = self.assigned(nodes, st)
        for n in names:
            if n in st.env and st.env[n].k == "new":
                st.kill(st.env[n])
            st.env[n] = mk("phi", site, n) if n in st.env else mk("phi", site, n)
        for a in attrs:
            try:
                b = self.peek(a.value, st)
            except Exception:
                b = None
            if b is not None:
                st.heap[(b, a.attr)] = mk("phi", site, f"{show(b)}.{a.attr}")
        for m in muts:
            try:
                b = self.peek(ast.parse(m, mode="eval").body, st)
            except Exception:
                b = None
            if b is not None:
                st.kill(b)
        return names

    def peek(self, e, st):
        """pure lookup of names/attribute chains"""
        if isinstance(e, ast.Name):
            return self.lookup(e.id, st)
        if isinstance(e, ast.Attribute):
            return self.getattr_(self.peek(e.value, st), e.attr, st)
        return None

    def x_For(self, s, st):
        out = []
        for x, it in self.ev_iter(s.iter, st):
            out += self.loop_over(s, it, x)
        return out

    x_AsyncFor = x_For

    def ev_iter(self, e, st):
        """evaluate the iterable; calls to inlinable generators stay symbolic ('genc')"""
        if isinstance(e, ast.Call):
            r = self.callee(e, st)
            if r is not None and r[0].isgen:
                f, selfterm, cls, closure_ = r
                if self.should_inline(f, closure_):
                    res = []
                    for y, (args, kws) in self.ev_args(e, st):
                        b = self.bind(f, selfterm, args, kws, y, closure_)
                        if b is None:
                            return self.ev(e, st)
                        res.append((y, ("gen", f, cls, b, e)))
                    return res
        if isinstance(e, ast.Name) and self.genmap:
            return [(y, self.genmap.get(t, t)) for y, t in self.ev(e, st)]
        return self.ev(e, st)

    def loop_over(self, s, it, st):
        site = f"L{s.lineno}"
        if isinstance(it, tuple) and it[0] == "gen":
            return self.loop_gen(s, it, st, site)
        if it.k == "tup" and len(it.a[0]) <= 6 and not any(x.k == "star" for x in it.a[0]):
            # loop over a literal tuple: unroll (the finite domain is explicit)
            cur, brks = [st], []
            for el in [x for x in it.a[0] if x.k == "c" and x.a[0] in self.pick] or it.a[0]:
                lp = Loop()
                self.fr.loops.append(lp)
                nxt = []
                for y in cur:
                    y = self.assign(s.target, el, y.copy(), s)
                    nxt += self.exec(s.body, [y])
                self.fr.loops.pop()
                brks += lp.breaks
                cur = self.cap(nxt + lp.conts, s)
            if s.orelse and cur:
                cur = self.exec(s.orelse, cur)
            return cur + brks
        pre = st
        init = dict(st.env)
        h = st.copy()
        names = self.havoc([s.target] + s.body, h, site)
        cand = {n for n in names if n in init} - self.target_names(s.target)
        if cand:
            names = names - self.uncarried(s, cand, h, site, it)
            for n in cand - names:
                h.env[n] = init[n]
        el = self.elem_of(it)
        hb = h.copy()
        kn = self.elem_known(it, hb)
        if kn is not None and not (it.k == "call" and it.a[0].k == "g" and it.a[0].a[0] == "enumerate"):
            el = kn[0]
            hb = hb.assume(*kn[1]) or hb
        elif kn is not None and el.k == "tup":
            el = mk("tup", (el.a[0][0], kn[0]))
            hb = hb.assume(*kn[1]) or hb
        self.emit("iter", hb, it, s)
        hb = self.assign(s.target, el, hb, s)
        lp = Loop(it)
        self.fr.loops.append(lp)
        out = self.exec(s.body, [hb])
        self.fr.loops.pop()
        conts = out + lp.conts
        self.bodyend(lp, conts, s)
        self.note_phis(site, names, init, conts)
        done = mk("looped", it)
        if any(self.shrinks(x, it) for c in conts for x in c.hist - pre.hist):
            done = mk("skipped", it)        # removing from what is being iterated skips elements
        pre = pre.copy()
        pre.hist = pre.hist | {done}
        h.hist = h.hist | {done}
        exits = self.loop_exit(pre, h, conts, names, it, site, init, s)
        if s.orelse:
            exits = self.exec(s.orelse, exits)
        return exits + lp.breaks

    @staticmethod
    def shrinks(x, it):
        """x is a call that removes from (or inserts into) the iterated collection itself"""
        if x.k == "fresh":
            x = x.a[0]
        return x.k == "call" and x.a[0].k == "a" and x.a[0].a[0] is it and x.a[0].a[1] in (
            "remove", "pop", "discard", "clear", "insert", "popleft", "appendleft", "popitem", "sort", "reverse")

    @staticmethod
    def target_names(t):
        return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}

    def uncarried(self, s, cand, h, site, it):
        """names assigned in the loop body only on paths that leave the loop: their value at every loop head is the initial one"""
        ev, fr = len(self.events), self.fr
        saved = (self.muted, self.merges, len(self.raisers[-1]) if self.raisers else 0, len(fr.returns),
                 {k: list(v) for k, v in self.accs.items()}, dict(self.genmap), {k: {"init": set(v["init"]), "steps": set(v["steps"])} for k, v in self.phis.items()},
                 [len(x) for x in self.tryctx], len(fr.loops))
        self.muted = True
        try:
            lp = Loop(it, it is None)
            fr.loops.append(lp)
            if it is None:
                t, _ = self.branch(s.test, h.copy())
                out = self.exec(s.body, t) if t else []
            else:
                hb = self.assign(s.target, self.elem_of(it), h.copy(), s)
                out = self.exec(s.body, [hb])
            conts = out + lp.conts
        finally:
            del fr.loops[saved[8]:]
            self.muted, self.merges = saved[0], saved[1]
            if self.raisers:
                del self.raisers[-1][saved[2]:]
            del fr.returns[saved[3]:]
            self.accs, self.genmap, self.phis = saved[4], saved[5], saved[6]
            for x, n in zip(self.tryctx, saved[7]):
                del x[n:]
            del self.events[ev:]
        return {n for n in cand if all(same_content(c.env.get(n)) is mk("phi", site, n) for c in conts)}

    def loop_exit(self, pre, h, conts, names, it, site, init, s, cond=None):
        """state(s) after normal exhaustion"""
        base = h.copy()
        base.facts, base.clauses = pre.facts, pre.clauses
        for c in conts:
            base.ts = base.ts | c.ts
            for hk, hv in c.heap.items():
                if base.heap.get(hk) is not hv:
                    base.heap[hk] = mk("phi", site, f"{show(hk[0])}.{hk[1]}")
        # facts about containers mutated in the loop are dropped
        names2, attrs, muts = self.assigned(s.body, base)
        for m in muts:
            try:
                b = self.peek(ast.parse(m, mode="eval").body, pre)
            except Exception:
                b = None
            if b is not None:
                base.kill(b)
        if it is None:
            return [base]
        flags = []
        for n in names:
            iv = init.get(n)
            if iv is None or iv.k != "c":
                continue
            ph = mk("phi", site, n)
            vals = {c.env.get(n) for c in conts}
            vals.discard(ph)
            if vals and all(v is not None and v.k == "c" and v is not iv for v in vals) and len(vals) == 1:
                flags.append((n, iv, next(iter(vals)), ph))
        res = []

        def generalise(cs, b):
            if not cs:
                return b
            common = None
            el = self.elem_of(it)
            ev = self.elem_base(it)
            for c in cs:
                fs = {f for f in c.facts if any(x in subterms(f[0]) for x in ev)}
                common = fs if common is None else common & fs
            lits = []
            for (t, p) in common or ():
                lits.append((self.mkforall(it, t, p), True))
            # clause forms: known to hold at the end of every iteration, whichever way it went
            cand = {q for c in cs for q in c.clauses if any(any(x in subterms(l[0]) for x in ev) for l in q)}
            if 2 <= len(cs) <= 3:
                own = [[f for f in c.facts if f not in common and any(x in subterms(f[0]) for x in ev)] for c in cs]
                if all(0 < len(o) <= 3 for o in own):
                    cand |= {q for q in (frozenset(z) for z in itertools.product(*own)) if len(q) > 1 and not any((l[0], not l[1]) in q for l in q)}
            ccl = [q for q in cand if all(q in c.clauses or any(l in c.facts for l in q) for c in cs) and not any(l in (common or ()) for l in q)]
            for q in ccl or ():
                t = mk("or", tuple(sorted((l[0] if l[1] else mknot(l[0]) for l in q), key=show)))
                lits.append((self.mkforall(it, t, True), True))
            if lits:
                b2 = b.assume(*lits)
                return b2 or b
            return b
        if flags:
            n, iv, av, ph = flags[0]
            unchanged = [c for c in conts if c.env.get(n) is ph]
            b1 = base.copy()
            b1.env[n] = iv
            b1.hist = pre.hist
            b1.ts = pre.ts
            for c in unchanged:
                b1.ts = b1.ts | c.ts
            b1 = generalise(unchanged, b1) if unchanged else b1
            if not unchanged:
                # every iteration assigns: initial value only when there were no iterations
                pass
            res.append(b1)
            b2 = base.copy()
            b2.env[n] = av
            changed = [c for c in conts if c.env.get(n) is av]
            if changed:  # the flag was set in some iteration, after the calls every such path makes
                hh = frozenset.intersection(*[frozenset(c.hist) for c in changed])
                b2.hist = b2.hist | {x for x in hh if x.k in ("call", "fresh")}
            res.append(b2)
        else:
            res.append(generalise(conts, base))
        return res

    def loop_gen(self, s, g, st, site):
        _, f, cls, benv, callnode = g
        h = st.copy()
        names = self.havoc([s.target] + s.body, h, site)
        lp = Loop()
        outer = self.fr

        def cb(y, v, node):
            gen_env = y.env
            y = y.copy()
            y.env = dict(y.stack[-1])
            y.stack = y.stack[:-1]
            gframe = self.frames.pop()
            assert self.frames[-1] is outer
            outer.loops.append(lp)
            n0 = len(lp.conts)
            y = self.assign(s.target, v, y, s)
            res = self.exec(s.body, [y])
            res = res + lp.conts[n0:]
            del lp.conts[n0:]
            lp.seen.extend(res)
            outer.loops.pop()
            self.frames.append(gframe)
            back = []
            for r in res:
                r = r.copy()
                r.stack = r.stack + (r.env,)
                r.env = dict(gen_env)
                back.append(r)
            return back
        init = dict(st.env)
        seen = []
        lp.seen = seen
        res = self.enter(f, cls, benv, h, callnode, yieldcb=cb)
        self.note_phis(site, names, init, seen)
        exits = [x for x, _ in res]
        if s.orelse:
            exits = self.exec(s.orelse, exits)
        return self.cap(exits, s) + lp.breaks

    def elem_of(self, it):
        """term for an arbitrary element of iterable it"""
        if it.k == "call" and it.a[0].k == "g":
            fn, args = it.a[0].a[0], it.a[1]
            if fn == "enumerate" and args and not it.a[2] and len(args) == 1:
                return mk("tup", (mk("idx", args[0]), self.elem_of(args[0])))
            if fn == "zip" and not it.a[2]:
                return mk("tup", tuple(self.elem_of(x) for x in args))
            if fn in ("list", "tuple", "sorted", "reversed", "iter") and len(args) == 1:
                return self.elem_of(args[0])
            if fn == "range" and len(args) == 1 and is_len(args[0]):
                return mk("idx", args[0].a[1][0])
        if it.k == "call" and it.a[0].k == "a" and it.a[0].a[1] == "items" and not it.a[1] and not it.a[2]:
            b = it.a[0].a[0]
            k = mk("elem", b)
            return mk("tup", (k, mk("sub", b, k)))
        if it.k == "call" and it.a[0].k == "a" and it.a[0].a[1] == "keys" and not it.a[1] and not it.a[2]:
            return mk("elem", it.a[0].a[0])
        if it.k == "call" and it.a[0].k == "a" and it.a[0].a[1] == "values" and not it.a[1] and not it.a[2]:
            b = it.a[0].a[0]
            return mk("sub", b, mk("elem", b))
        return mk("elem", it)

    def elem_known(self, it, st=None):
        """(value term, facts) of an arbitrary element when `it` was built by a comprehension or by appends"""
        it = self.iter_core(it)
        if it.k == "comp" and it.a[0] in ("list", "gen", "set"):
            got = getattr(self, "comp_elems", {}).get(it)
            if got is not None:
                val, gens = got
                return val, [l for _, cl in gens for l in cl]
        if it.k == "call" and it.a[0].k in ("g", "a") and (it.a[0].a[0] if it.a[0].k == "g" else it.a[0].a[1]) in \
                ("takewhile", "filter") and len(it.a[1]) == 2 and it.a[1][0] in self.locals_funcs:
            clo = self.locals_funcs[it.a[1][0]]
            src = it.a[1][1]
            kn = self.elem_known(src, st)
            el, fs = kn if kn is not None else (self.elem_of(src), [])
            if isinstance(clo, tuple) and clo[1].params and st is not None:
                x = st.copy()
                b = self.bind(clo[1], None, [el], [], x, clo[2])
                if b is not None:
                    got = self.enter(clo[1], None, b, x, clo[1].node)
                    if len(got) == 1:
                        return el, list(fs) + [lit(got[0][1])]
        if it.k == "new" and it.a[0] in ("list", "set", "oset", "OrderedSet", "deque") and not it.a[2]:
            acc = self.accs.get(it)
            if acc and None not in acc:
                vals = {v for v, _ in acc}
                if len(vals) == 1:
                    v = next(iter(vals))
                    el = {x for x in subterms(v) if x.k == "elem"}
                    common = None
                    for _, fs in acc:
                        common = fs if common is None else common & fs
                    return v, [l for l in common if any(x in subterms(l[0]) for x in el)]
        return None

    def elem_base(self, it):
        e = self.elem_of(it)
        if e.k == "tup":
            return set(x for y in e.a[0] for x in self._bases(y))
        return set(self._bases(e))

    def _bases(self, e):
        if e.k == "tup":
            for y in e.a[0]:
                yield from self._bases(y)
        elif e.k == "sub" and e.a[1].k == "elem":
            yield e.a[1]
        else:
            yield e

    def mkforall(self, it, t, p):
        m = {}
        for i, b in enumerate(sorted(self.elem_base(it), key=show)):
            m[b] = mk("bv", i)
        return mk("forall", self.iter_core(it), subst(t, m), p)

    def iter_core(self, it):
        while it.k == "call" and it.a[0].k == "g" and it.a[0].a[0] in ("list", "tuple", "sorted", "reversed", "iter",
                                                                        "enumerate", "set") and len(it.a[1]) == 1:
            it = it.a[1][0]
        return it

    def x_While(self, s, st):
        site = f"W{s.lineno}"
        pre = st
        h = st.copy()
        names = self.havoc([s.test] + s.body, h, site)
        cand = {n for n in names if n in pre.env}
        if cand:
            names = names - self.uncarried(s, cand, h, site, None)
            for n in cand - names:
                h.env[n] = pre.env[n]
        lp = Loop(None, True)
        self.fr.loops.append(lp)
        t, f = self.branch(s.test, h.copy())
        out = self.exec(s.body, t) if t else []
        self.fr.loops.pop()
        conts = out + lp.conts
        if lp.term is not None:
            self.bodyend(lp, conts, s)
        else:
            for x in conts:
                self.emit("whileend", x, C(site), s).st = x
        self.note_phis(site, names, dict(pre.env), conts)
        for x in f:
            for c in conts:
                x.ts = x.ts | c.ts
        # the zero-iteration exit keeps the initial values
        exits = f
        if s.orelse and exits:
            exits = self.exec(s.orelse, exits)
        return exits + lp.breaks

    # -- try / with ----------------------------------------------------
    def x_Try(self, s, st):
        entry = st.copy()
        if s.finalbody:
            return self.try_finally(s, st)
        return self.try_core(s, st)

    def try_core(self, s, st):
        if not s.handlers:
            return self.exec(s.body, [st])
        self.raisers.append([])
        self.tryctx.append([])
        out = self.exec(s.body, [st])
        implicit = [self.unwound(x, len(st.stack)) for x in self.tryctx.pop()]
        raised = self.raisers.pop()
        if s.orelse and out:
            out = self.exec(s.orelse, out)
        pend = raised
        res = list(out)
        imp = merge([x for x in implicit], f"T{s.lineno}") if implicit else None
        if imp is not None and len(implicit) > 1:
            imp = imp.copy()
        prior = ()
        for hd in s.handlers:
            names = self.handler_names(hd)
            nxt, mine = [], []
            for (x, name, term, node) in pend:
                if names is None or any(self.m.exc_is(name, n) for n in names):
                    mine.append((x, term))
                else:
                    nxt.append((x, name, term, node))
                    if any(self.m.exc_is(n, name) for n in names) and not (term.k == "call" and name in self.m._exc_table()):
                        mine.append((x, term))
            pend = nxt
            hs = []
            if imp is not None:
                y = imp.copy()
                t = mk("exc", f"{s.lineno}", names[0] if names else "Exception")
                if hd.name:
                    y.env[hd.name] = t
                y.env["#exc"] = t
                y.hist = y.hist | {mk("caught", t, names and tuple(names) or ("BaseException",), prior)}
                hs.append(y)
            for (x, term) in mine:
                y = x.copy()
                y.hist = y.hist | {mk("caught", term, (self.excname(term),), prior)}
                if hd.name:
                    y.env[hd.name] = term
                y.env["#exc"] = term
                hs.append(y)
            for y in hs:
                self.emit("handler", y, mk("tup", tuple(G(n) for n in (names or ["BaseException"]))), hd)
            if hs:
                o = self.exec(hd.body, self.cap(hs, hd))
                for y in o:
                    y.env.pop("#exc", None)
                    if hd.name:
                        y.env.pop(hd.name, None)
                res += o
            prior += names and tuple(names) or ("BaseException",)
        self.raisers[-1].extend(pend)
        return res

    @staticmethod
    def unwound(x, dep):
        """state as the frame at this depth sees it after an exception left the calls above it"""
        if len(x.stack) > dep:
            x = x.copy()
            x.env = dict(x.stack[dep])
            x.stack = x.stack[:dep]
        return x

    def handler_names(self, hd):
        if hd.type is None:
            return None
        ts = hd.type.elts if isinstance(hd.type, ast.Tuple) else [hd.type]
        return [ast.unparse(t).split(".")[-1] for t in ts]

    def try_finally(self, s, st):
        fr = self.fr
        nret = len(fr.returns)
        loops = fr.loops
        marks = [(len(l.breaks), len(l.conts)) for l in loops]
        self.raisers.append([])
        out = self.try_core(s, st)
        raised = self.raisers.pop()
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        lb = []
        for l, (nb, nc) in zip(loops, marks):
            lb.append((l, l.breaks[nb:], l.conts[nc:]))
            del l.breaks[nb:]
            del l.conts[nc:]
        res = self.exec(s.finalbody, out) if out else []
        for (x, v, n) in rets:
            for y in self.exec(s.finalbody, [x.copy()]):
                fr.returns.append((y, v, n))
        for (x, nm, t, n) in raised:
            for y in self.exec(s.finalbody, [x.copy()]):
                self.raisers[-1].append((y, nm, t, n))
        for l, bs, cs in lb:
            for b in bs:
                l.breaks += self.exec(s.finalbody, [b.copy()])
            for c in cs:
                l.conts += self.exec(s.finalbody, [c.copy()])
        return res

    x_TryStar = x_Try

    def x_With(self, s, st):
        sts = [st]
        for item in s.items:
            nxt = []
            for x in sts:
                for y, v in self.ev(item.context_expr, x):
                    self.emit("with", y, v, s)
                    if item.optional_vars is not None:
                        y = self.assign(item.optional_vars, v, y, s)
                    nxt.append(y)
            sts = nxt
        return self.exec(s.body, sts)

    x_AsyncWith = x_With

    # -- conditions ----------------------------------------------------
    def branch(self, e, st):
        """-> (true states, false states)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.branch(e.operand, st)
            return f, t
        if isinstance(e, ast.BoolOp):
            if self.pure(e):
                out_t, out_f = [], []
                for x, v in self.ev(e, st):
                    t, f = self.split(x, *lit(v))
                    out_t += t
                    out_f += f
                return out_t, out_f
            isand = isinstance(e.op, ast.And)
            cur, other = [st], []
            for v in e.values:
                nxt = []
                for x in cur:
                    t, f = self.branch(v, x)
                    if isand:
                        nxt += t
                        other += f
                    else:
                        nxt += f
                        other += t
                cur = nxt
            return (cur, other) if isand else (other, cur)
        if isinstance(e, ast.Compare) and len(e.ops) > 1 and self.pure(e):
            pass
        if isinstance(e, ast.IfExp):
            t, f = self.branch(e.test, st)
            ot, of = [], []
            for x in t:
                a, b = self.branch(e.body, x)
                ot += a
                of += b
            for x in f:
                a, b = self.branch(e.orelse, x)
                ot += a
                of += b
            return ot, of
        ot, of = [], []
        for x, v in self.ev(e, st):
            t, f = self.split(x, *lit(v))
            ot += t
            of += f
        return ot, of

    def pure(self, e):
        """no walrus, no calls that would be inlined (they need their own states)"""
        for n in ast.walk(e):
            if isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)):
                return False
            if isinstance(n, ast.Call):
                r = self.callee(n, None)
                if r is not None and self.should_inline(r[0], r[3]):
                    return False
                # `x and x.foo()`: keep guard facts on the call event
                return False
            if isinstance(n, ast.IfExp):
                return False
        return True

    # -- expressions ---------------------------------------------------
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken(f"unsupported expression {type(e).__name__} at {self.fr.func.mod.rel}:{e.lineno}")
        return m(e, st)

    def evs(self, es, st):
        """evaluate a list of exprs in order -> [(state, [terms])]"""
        cur = [(st, [])]
        for e in es:
            nxt = []
            for x, vs in cur:
                if isinstance(e, ast.Starred):
                    for y, v in self.ev(e.value, x):
                        nxt.append((y, vs + [mk("star", v)]))
                else:
                    for y, v in self.ev(e, x):
                        nxt.append((y, vs + [v]))
            cur = nxt
        return cur

    def e_Constant(self, e, st):
        try:
            return [(st, C(e.value))]
        except TypeError:
            return [(st, mk("unk", repr(e.value)))]

    def lookup(self, name, st):
        if st is not None and name in st.env:
            return st.env[name]
        return self.global_(name)

    def global_(self, name):
        mod = self.fr.func.mod
        if name in mod.consts:
            r = self.m.resolve(mod, name)
            if isinstance(r, tuple) and isinstance(r[2], (ast.Constant,)):
                try:
                    return C(r[2].value)
                except TypeError:
                    pass
            if isinstance(r, (Func, Cls)):
                return G(r.name)
        return G(name)

    def e_Name(self, e, st):
        return [(st, self.lookup(e.id, st))]

    def getattr_(self, b, n, st):
        if st is not None and (b, n) in st.heap:
            return st.heap[(b, n)]
        if b.k == "g" or b.k == "a" and b.a[0].k == "g":
            v = self.const_attr(b, n)
            if v is not None:
                return v
        return A(b, n)

    def const_attr(self, b, n):
        """value of a field of a module-level constant table: a named tuple built with keywords or a codex dataclass"""
        m = self.m
        r = None
        if b.k == "g":
            r = m.resolve(self.fr.func.mod, b.a[0]) if "." not in str(b.a[0]) else None
        else:
            mm = m.resolve(self.fr.func.mod, b.a[0].a[0])
            if isinstance(mm, Module):
                r = m.resolve(mm, b.a[1])
        if not (isinstance(r, tuple) and r[0] == "const" and isinstance(r[2], ast.Call)):
            return None
        call = r[2]
        for k in call.keywords:
            if k.arg == n and isinstance(k.value, ast.Constant) and isinstance(k.value.value, (str, int, bytes)):
                return C(k.value.value)
        if not call.args and not call.keywords and isinstance(call.func, ast.Name):
            c = m.resolve(r[1], call.func.id)
            if isinstance(c, Cls):
                for k in m.mro(c):
                    for x in k.node.body:
                        if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.target.id == n and \
                                isinstance(x.value, ast.Constant) and isinstance(x.value.value, (str, int, bytes)):
                            return C(x.value.value)
        return None

    def e_Attribute(self, e, st):
        out = []
        for x, b in self.ev(e.value, st):
            c = self.types.get(b)
            if c is not None:
                f = self.m.method(c, e.attr)
                if f is not None and f.isprop and self.inline_pred is not None and self.should_inline(f, None) \
                        and (b, e.attr) not in x.heap and f.name in getattr(self, "inline_props", ()):
                    out += self.enter(f, c, {f.params[0]: b}, x, e)
                    continue
                if self.props and f is not None and f.isprop and (b, e.attr) not in x.heap:
                    t = self.trivial_prop(f, b, x)
                    if t is not None:
                        out.append((x, t))
                        continue
            out.append((x, self.getattr_(b, e.attr, x)))
        return out

    def trivial_prop(self, f, b, st):
        """value of a property whose getter only returns an attribute chain of self"""
        body = lean(f)
        if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
            return None
        chain, v = [], body[0].value
        while isinstance(v, ast.Attribute):
            chain.append(v.attr)
            v = v.value
        if not chain or not isinstance(v, ast.Name) or not f.params or v.id != f.params[0]:
            return None
        t = b
        for n in reversed(chain):
            c = self.types.get(t)
            g = self.m.method(c, n) if c is not None else None
            t2 = self.trivial_prop(g, t, st) if g is not None and g.isprop and g is not f and (t, n) not in st.heap else None
            t = t2 if t2 is not None else self.getattr_(t, n, st)
        return t

    def termof(self, src, env=None, st=None):
        """term of a Python expression over the entry function's parameters (plus env), normalised as the walked code is"""
        e = ast.parse(src, mode="eval").body
        base = {}
        a = self.entry.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            base[x.arg] = P(x.arg)
        base.update(env or {})
        s0 = State(base)
        if st is not None:
            s0.heap = dict(st.heap)
        self.frames.append(Frame(self.entry, self.entry.cls))
        self.raisers.append([])
        muted, self.muted = self.muted, True
        op = self.inline_pred
        self.inline_pred = lambda f, w: False
        try:
            def sev(x):
                if isinstance(x, ast.BoolOp):
                    return mk("and" if isinstance(x.op, ast.And) else "or", tuple(sev(y) for y in x.values))
                if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
                    t = sev(x.operand)
                    return t.a[0] if t.k == "not" else mk("not", t)
                if isinstance(x, ast.Compare) and len(x.ops) > 1:
                    parts, left = [], x.left
                    for op_, r in zip(x.ops, x.comparators):
                        parts.append(sev(ast.Compare(left, [op_], [r])))
                        left = r
                    return mk("and", tuple(parts))
                got = {t for _, t in self.ev(x, s0.copy())}
                if len(got) != 1:
                    raise AnalysisBroken(f"ambiguous specification term {src}")
                return got.pop()
            out = sev(e)
        finally:
            self.muted = muted
            self.inline_pred = op
            self.frames.pop()
            self.raisers.pop()
        return out

    def e_Subscript(self, e, st):
        out = []
        for x, b in self.ev(e.value, st):
            for y, i in self.ev(e.slice, x):
                self.emit("subscript", y, mk("sub", b, i), e)
                out.append((y, self.mksub(b, i)))
        return out

    def mksub(self, b, i):
        if b.k == "tup" and iscon(i) and isinstance(i.a[0], int) and -len(b.a[0]) <= i.a[0] < len(b.a[0]) \
                and not any(x.k == "star" for x in b.a[0]):
            return b.a[0][i.a[0]]
        if i.k == "idx" and i.a[0] is b:
            return mk("elem", b)
        return mk("sub", b, i)

    def e_Slice(self, e, st):
        out = [(st, [])]
        for p in (e.lower, e.upper, e.step):
            nxt = []
            for x, vs in out:
                if p is None:
                    nxt.append((x, vs + [NONE]))
                else:
                    for y, v in self.ev(p, x):
                        nxt.append((y, vs + [v]))
            out = nxt
        return [(x, mk("slice", *vs)) for x, vs in out]

    def binop(self, op, a, b):
        if op in "+-" and _isnum(b) and isinstance(b.a[0], int):
            return mklin(a, b.a[0] if op == "+" else -b.a[0])
        if op == "+" and _isnum(a) and isinstance(a.a[0], int):
            return mklin(b, a.a[0])
        if iscon(a) and iscon(b):
            try:
                va, vb = a.a[0], b.a[0]
                if op == "**" and isinstance(vb, int) and vb > 128:
                    raise ValueError
                r = {"+": lambda: va + vb, "-": lambda: va - vb, "*": lambda: va * vb, "//": lambda: va // vb,
                     "%": lambda: va % vb, "**": lambda: va ** vb, "<<": lambda: va << vb if vb < 256 else None,
                     "|": lambda: va | vb, "&": lambda: va & vb, "^": lambda: va ^ vb, ">>": lambda: va >> vb,
                     "/": lambda: va / vb}[op]()
                if r is not None and not (isinstance(r, (str, bytes)) and len(r) > 4096):
                    return C(r)
            except Exception:
                pass
        return mk("bin", op, a, b)

    def e_BinOp(self, e, st):
        return [(x, self.binop(BINOPS[type(e.op)], a, b)) for x, (a, b) in self.evs([e.left, e.right], st)]

    def e_UnaryOp(self, e, st):
        out = []
        if isinstance(e.op, ast.Not):
            for x, v in self.ev(e.operand, st):
                a, p = lit(v)
                out.append((x, self.littermv(a, not p)))
            return out
        for x, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.USub):
                if _isnum(v):
                    out.append((x, C(-v.a[0])))
                else:
                    out.append((x, mk("un", "-", v)))
            else:
                out.append((x, mk("un", {ast.UAdd: "+", ast.Invert: "~"}[type(e.op)], v)))
        return out

    def littermv(self, a, p):
        if a is TRUE:
            return C(p)
        return a if p else mknot(a)

    def e_BoolOp(self, e, st):
        """value of and/or; operands after the first are evaluated under the guard"""
        isand = isinstance(e.op, ast.And)
        if self.pure(e):
            return [(x, self.mkbool(isand, vs)) for x, vs in self.evs(e.values, st)]
        # evaluate operands in order with guard facts, but keep a single value term
        vals = []
        out = []
        cur = [(st, [])]
        for i, v in enumerate(e.values):
            nxt = []
            for x, vs in cur:
                for y, t in self.ev(v, x):
                    if i == len(e.values) - 1:
                        out.append((y, t))
                        continue
                    tt, ff = self.split(y, *lit(t))
                    go, stop = (tt, ff) if isand else (ff, tt)
                    for z in go:
                        nxt.append((z, vs + [t]))
                    for z in stop:
                        out.append((z, t))
            cur = nxt
        return out

    def mkbool(self, isand, vs):
        k = "and" if isand else "or"
        flat = []
        for v in vs:
            if v.k == k:
                flat.extend(v.a[0])
            else:
                flat.append(v)
        res = []
        for v in flat:
            ct = const_truth(v)
            if ct is not None and ct == isand and v is not flat[-1]:
                continue
            if v not in res:
                res.append(v)
            if ct is not None and ct != isand:
                break
        if len(res) == 1:
            return res[0]
        return mk(k, tuple(res))

    def e_Compare(self, e, st):
        out = []
        for x, vs in self.evs([e.left] + e.comparators, st):
            ts = []
            for i, op in enumerate(e.ops):
                ts.append(self.cmp(op, vs[i], vs[i + 1]))
            out.append((x, ts[0] if len(ts) == 1 else self.mkbool(True, ts)))
        return out

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            t, p = mkeq(a, b)
            p = p if isinstance(op, ast.Eq) else not p
        elif isinstance(op, ast.Lt):
            t, p = mklt(a, b)
        elif isinstance(op, ast.GtE):
            t, p = mklt(a, b)
            p = not p
        elif isinstance(op, ast.Gt):
            t, p = mklt(b, a)
        elif isinstance(op, ast.LtE):
            t, p = mklt(b, a)
            p = not p
        elif isinstance(op, (ast.Is, ast.IsNot)):
            t, p = mkis(a, b)
            p = p if isinstance(op, ast.Is) else not p
        else:
            t, p = mkin(a, b)
            p = p if isinstance(op, ast.In) else not p
        return self.littermv(t, p)

    def e_IfExp(self, e, st):
        t, f = self.branch(e.test, st)
        out = []
        for x in t:
            out += self.ev(e.body, x)
        for x in f:
            out += self.ev(e.orelse, x)
        return out

    def e_NamedExpr(self, e, st):
        out = []
        for x, v in self.ev(e.value, st):
            x = self.assign(e.target, v, x, e)
            out.append((x, v))
        return out

    def e_Tuple(self, e, st):
        return [(x, mk("tup", tuple(vs))) for x, vs in self.evs(e.elts, st)]

    def e_List(self, e, st):
        return [(x, mk("new", "list", self.sitename(e), tuple(vs))) for x, vs in self.evs(e.elts, st)]

    def e_Set(self, e, st):
        return [(x, mk("new", "set", self.sitename(e), tuple(vs))) for x, vs in self.evs(e.elts, st)]

    def sitename(self, e):
        return f"{self.fr.func.name}:{e.lineno}:{e.col_offset}"

    def e_Dict(self, e, st):
        out = []
        keys = [k for k in e.keys]
        cur = [(st, [])]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for x, acc in cur:
                if k is None:
                    for y, vv in self.ev(v, x):
                        nxt.append((y, acc + [(mk("star", vv), vv)]))
                else:
                    for y, kk in self.ev(k, x):
                        for z, vv in self.ev(v, y):
                            nxt.append((z, acc + [(kk, vv)]))
            cur = nxt
        return [(x, mk("new", "dict", self.sitename(e), tuple(acc))) for x, acc in cur]

    def e_JoinedStr(self, e, st):
        cur = [(st, [])]
        for v in e.values:
            nxt = []
            for x, acc in cur:
                if isinstance(v, ast.Constant):
                    nxt.append((x, acc + [C(v.value)]))
                else:
                    for y, t in self.ev(v.value, x):
                        if v.format_spec is not None:
                            t = mk("fmt", t, ast.unparse(v.format_spec))
                        nxt.append((y, acc + [t]))
            cur = nxt
        return [(x, mk("fstr", tuple(acc))) for x, acc in cur]

    def e_Lambda(self, e, st):
        t = mk("lam", f"{self.fr.func.mod.rel}:{e.lineno}:{e.col_offset}")
        fn = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e)],
                             decorator_list=[], returns=None, type_comment=None)
        ast.copy_location(fn, e)
        f = Func(fn, self.fr.func.mod, None)
        self.locals_funcs[t] = ("closure", f, dict(st.env))
        return [(st, t)]

    def e_Starred(self, e, st):
        return [(x, mk("star", v)) for x, v in self.ev(e.value, st)]

    def e_Await(self, e, st):
        out = []
        for x, v in self.ev(e.value, st):
            self.emit("await", x, v, e)
            if self.await_raises:
                for nm in ("OSError", "CancelledError"):
                    self.do_raise(x.copy(), nm, G(nm), e)
            out.append((x, v))
        return out

    def e_Yield(self, e, st):
        out = []
        if e.value is None:
            vals = [(st, NONE)]
        else:
            vals = self.ev(e.value, st)
        for x, v in vals:
            if self.fr.yieldcb is not None:
                for y in self.fr.yieldcb(x, v, e):
                    out.append((y, mk("unk", f"sent{e.lineno}")))
            else:
                self.emit("yield", x, v, e)
                out.append((x, mk("unk", f"sent{e.lineno}")))
        return out

    def e_YieldFrom(self, e, st):
        out = []
        for x, it in self.ev_iter(e.value, st):
            if isinstance(it, tuple) and it[0] == "gen":
                _, f, cls, benv, callnode = it
                outer = self.fr

                def cb(y, v, node, outer=outer):
                    if outer.yieldcb is not None:
                        genv = y.env
                        y = y.copy()
                        y.env = y.stack[-1]
                        y.stack = y.stack[:-1]
                        gf = self.frames.pop()
                        rs = outer.yieldcb(y, v, node)
                        self.frames.append(gf)
                        back = []
                        for r in rs:
                            r = r.copy()
                            r.stack = r.stack + (r.env,)
                            r.env = dict(genv)
                            back.append(r)
                        return back
                    self.emit("yield", y, v, node)
                    return [y]
                for y, v in self.enter(f, cls, benv, x, callnode, yieldcb=cb):
                    out.append((y, v))
            else:
                el = self.elem_of(it)
                if self.fr.yieldcb is not None:
                    for y in self.fr.yieldcb(x, el, e):
                        out.append((y, NONE))
                else:
                    self.emit("yield", x, el, e, it)
                    out.append((x, it if it.k in ("call", "fresh") else NONE))  # what the generator returns
        return out

    def comp(self, e, st, kind, elts):
        """comprehension: conditions become facts for the element expression"""
        if len(e.generators) == 1:
            g0 = e.generators[0]
            _, it0 = self.ev_iter(g0.iter, st.copy())[0]
            if isinstance(it0, tuple):
                return self.comp_as_loop(e, st, kind, elts)
        y = st.copy()
        gens = []
        bases = []
        iters = []
        states = [y]
        # evaluate sequentially on a single state (merged)
        for g in e.generators:
            nxt = []
            x, it = self.ev_iter(g.iter, states[0])[0]
            if isinstance(it, tuple):
                # inlinable generator: stay symbolic
                x, it = self.ev_call_opaque(g.iter, states[0])
            x = x.copy()
            self.emit("iter", x, it, e)
            x = self.assign(g.target, self.elem_of(it), x, e)
            bases += sorted(self.elem_base(it), key=show)
            conds = []
            cur = [x]
            for c in g.ifs:
                n2 = []
                for z in cur:
                    t, f = self.branch(c, z)
                    n2 += t
                cur = self.cap(n2, e)
            if not cur:
                x2 = x
                cond_lits = ((TRUE, False),)
                cur = [x]
            states = cur
            # condition literals common to all states
            base_f = x.facts
            common = None
            for z in cur:
                d = z.facts - base_f
                common = d if common is None else common & d
            gens.append((it, tuple(sorted(((t, p) for t, p in common), key=lambda l: show(l[0]) + str(l[1])))))
            states = [merge(cur, f"C{e.lineno}")] if len(cur) > 1 else cur
        vals = []
        z = states[0]
        for el in elts:
            z, v = self.ev(el, z)[0]
            vals.append(v)
        m = {b: mk("bv", i) for i, b in enumerate(bases)}
        val = mk("tup", tuple(vals)) if len(vals) > 1 else vals[0]
        gterm = tuple((it, tuple((subst(t, m), p) for t, p in cl)) for it, cl in gens)
        t = mk("comp", kind, subst(val, m), _FrozenGens(gterm))
        t_elem = val
        self.comp_elems[t] = (val, gens)
        st2 = st
        st2.hist = st.hist
        return [(st2, t)]

    def comp_as_loop(self, e, st, kind, elts):
        """comprehension over an inlinable generator: the equivalent accumulating loop"""
        g = e.generators[0]
        acc = f"#acc{e.lineno}_{e.col_offset}"
        elt = elts[0] if len(elts) == 1 else ast.copy_location(ast.Tuple(elts=list(elts), ctx=ast.Load()), e)
        body = ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=acc, ctx=ast.Load()), attr="append", ctx=ast.Load()),
                                       args=[elt], keywords=[]))
        for c in reversed(g.ifs):
            body = ast.If(test=c, body=[body], orelse=[])
        loop = ast.For(target=g.target, iter=g.iter, body=[body], orelse=[], type_comment=None)
        for n in ast.walk(loop):
            if not hasattr(n, "lineno"):
                ast.copy_location(n, e)
        x = st.copy()
        t = mk("new", "list", self.sitename(e) + ":comp", ())
        x.env[acc] = t
        out = []
        for z in self.exec([loop], [x]):
            z.env.pop(acc, None)
            out.append((z, t))
        return out

    def ev_call_opaque(self, e, st):
        x, (args, kws) = self.ev_args(e, st)[0]
        fn = self.ev(e.func, x)[0][1]
        t = mk("call", fn, tuple(args), tuple(sorted(kws)))
        return x, t

    def e_ListComp(self, e, st):
        return self.comp(e, st, "list", [e.elt])

    def e_SetComp(self, e, st):
        return self.comp(e, st, "set", [e.elt])

    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, "gen", [e.elt])

    def e_DictComp(self, e, st):
        return self.comp(e, st, "dict", [e.key, e.value])

    # -- calls ---------------------------------------------------------
    def callee(self, e, st):
        """resolve an ast.Call to (Func, selfterm, cls, closure_env) or None"""
        fn = e.func
        if isinstance(fn, ast.Name):
            t = self.lookup(fn.id, st) if st is not None else None
            if t is not None and t in self.locals_funcs:
                r = self.locals_funcs[t]
                if isinstance(r, tuple) and r[0] == "closure":
                    return (r[1], None, None, r[2])
                if isinstance(r, Func):
                    return (r, None, None, None)
                return None
            if st is not None and fn.id in st.env and t.k != "g":
                if t.k == "a":
                    return self.resolve_attr(t.a[0], t.a[1])
                return None
            r = self.m.resolve(self.fr.func.mod, fn.id)
            if isinstance(r, Func):
                return (r, None, None, None)
            return None
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                cls = self.fr.func.cls
                dyn = self.fr.cls or cls
                if cls is None:
                    return None
                mro = self.m.mro(dyn)
                if cls in mro:
                    for k in mro[mro.index(cls) + 1:]:
                        if fn.attr in k.methods:
                            selft = st.env.get(self.fr.func.params[0]) if st is not None and self.fr.func.params else None
                            return (k.methods[fn.attr], selft, dyn, None)
                return None
            if st is None:
                # syntactic approximation used by pure()
                if isinstance(fn.value, ast.Name) and self.fr.cls and self.fr.func.params and \
                        fn.value.id == self.fr.func.params[0]:
                    f = self.m.method(self.fr.cls, fn.attr)
                    if f:
                        return (f, None, self.fr.cls, None)
                return None
            b = self.peek_any(fn.value, st)
            if b is None:
                return None
            return self.resolve_attr(b, fn.attr)
        return None

    def peek_any(self, e, st):
        if isinstance(e, ast.Name):
            return self.lookup(e.id, st)
        if isinstance(e, ast.Attribute):
            b = self.peek_any(e.value, st)
            return None if b is None else self.getattr_(b, e.attr, st)
        return None

    def resolve_attr(self, b, attr):
        c = self.types.get(b)
        if c is None and b.k == "g":
            r = self.m.resolve(self.fr.func.mod, b.a[0])
            if isinstance(r, Cls):
                f = self.m.method(r, attr)
                if f is not None:
                    return (f, b if f.isclsm else None, r, None)
            elif isinstance(r, Module):
                f = self.m.resolve(r, attr)
                if isinstance(f, Func):
                    return (f, None, None, None)
            return None
        if c is None:
            return None
        f = self.m.method(c, attr)
        if f is None or f.isprop:
            return None
        return (f, None if f.isstatic else b, c, None)

    def should_inline(self, f, closure_env):
        if closure_env is not None:
            return sum(1 for x in self.frames if x.func.node is f.node) == 0
        if f.name in self.opaque or f.qual in self.opaque:
            return False
        if 1 + sum(1 for x in self.frames[1:] if not trivial(x.func)) > self.depth or len(self.frames) > self.depth + 6:
            return False
        if any(x.func is f for x in self.frames):
            return False
        if self.inline_pred is not None:
            return self.inline_pred(f, self)
        return f.mod is self.entry.mod

    def ev_args(self, e, st):
        cur = [(st, [])]
        out = []
        for x, args in self.evs(e.args, st):
            cur = [(x, [])]
            for kw in e.keywords:
                nxt = []
                for y, acc in cur:
                    for z, v in self.ev(kw.value, y):
                        nxt.append((z, acc + [(kw.arg if kw.arg else "**", v)]))
                cur = nxt
            for y, kws in cur:
                out.append((y, (args, kws)))
        return out

    def bind(self, f, selfterm, args, kws, st, closure_env):
        """bind to param env or None when it cannot be bound statically"""
        env = dict(closure_env) if closure_env is not None else {}
        params = list(f.params)
        a = f.node.args
        if selfterm is not None and params and not f.isstatic:
            env[params.pop(0)] = selfterm
        if any(x.k == "star" for x in args) or any(n == "**" for n, _ in kws):
            return None
        extra = []
        for i, v in enumerate(args):
            if i < len(params):
                env[params[i]] = v
            else:
                extra.append(v)
        bound = set(params[:len(args)])
        kwextra = []
        names = set(params) | set(f.kwonly)
        for n, v in kws:
            if n in names:
                if n in bound:
                    return None
                env[n] = v
                bound.add(n)
            else:
                kwextra.append((C(n), v))
        if extra and not a.vararg or kwextra and not a.kwarg:
            return None
        if a.vararg:
            env[a.vararg.arg] = mk("tup", tuple(extra))
        if a.kwarg:
            env[a.kwarg.arg] = mk("new", "dict", f"kw:{f.name}", tuple(kwextra))
        dfl = f.defaults()
        for n in names - bound:
            if n in dfl:
                d = dfl[n]
                try:
                    env[n] = C(ast.literal_eval(d)) if isinstance(d, (ast.Constant, ast.UnaryOp)) else \
                        mk("dflt", f.qual, n, ast.unparse(d)) if not isinstance(d, (ast.Tuple, ast.Name, ast.Attribute)) \
                        else (mk("tup", ()) if isinstance(d, ast.Tuple) and not d.elts else G(ast.unparse(d)))
                except Exception:
                    env[n] = mk("dflt", f.qual, n, ast.unparse(d))
            else:
                return None
        return env

    def normcall(self, fn, r, args, kws):
        """canonical call term: positional args named when the callee signature is known"""
        params = None
        if r is not None:
            f, selft = r[0], r[1]
            params = list(f.params)
            if (selft is not None or (f.cls is not None and not f.isstatic)) and params and r[3] is None:
                params = params[1:]
        else:
            params = self.global_sig(fn)
        if params and args and not any(x.k == "star" for x in args):
            npos = min(len(args), len(params))
            named = [(params[i], args[i]) for i in range(npos)]
            rest = args[npos:]
            have = {n for n, _ in kws}
            if not (have & {n for n, _ in named}) and not rest:
                return mk("call", fn, (), tuple(sorted(named + list(kws), key=lambda z: z[0])))
        return mk("call", fn, tuple(args), tuple(sorted(kws, key=lambda z: (z[0], z[1].sid))))

    def global_sig(self, fn):
        """signature by class name or by method name when all repo definitions agree"""
        tab = self.m.__dict__.setdefault("_sigtab", None)
        if tab is None:
            tab = {}
            for f in self.m.all_funcs():
                if f.cls is not None and not f.isprop:
                    p = tuple(f.params[0 if f.isstatic else 1:])
                    tab.setdefault(f.name, set()).add(p)
            self.m._sigtab = tab
        if fn.k == "g":
            r = self.m.resolve(self.fr.func.mod, fn.a[0])
            if isinstance(r, Cls):
                ini = self.m.method(r, "__init__")
                if ini is not None:
                    return ini.params[1:]
            return None
        if fn.k == "a" and fn.a[1] in tab and fn.a[1] not in dir(list) + dir(dict) + dir(set) + dir(bytes):
            sigs = tab[fn.a[1]]
            if len(sigs) == 1:
                return list(next(iter(sigs)))
            # common prefix
            pre = []
            for col in zip(*sigs):
                if len(set(col)) == 1:
                    pre.append(col[0])
                else:
                    break
            return pre
        return None

    def e_Call(self, e, st):
        r = self.callee(e, st)
        out = []
        # evaluate callee base first
        if isinstance(e.func, ast.Attribute):
            if isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
                bases = [(st, A(G("super()"), e.func.attr))]
            else:
                bases = [(x, self.getattr_(b, e.func.attr, x)) for x, b in self.ev(e.func.value, st)]
        else:
            bases = self.ev(e.func, st)
        for x, fn in bases:
            # a bound method held in a local: recv known via term
            for y, (args, kws) in self.ev_args(e, x):
                if r is None and fn.k == "a":
                    r2 = self.resolve_attr(fn.a[0], fn.a[1])
                else:
                    r2 = r
                out += self.do_call(e, fn, r2, args, kws, y)
        return out

    def do_call(self, e, fn, r, args, kws, y):
        if r is not None and not r[0].isgen and self.should_inline(r[0], r[3]) and not r[0].isprop:
            f, selft, cls, clo = r
            if f.isclsm and selft is None:
                selft = G(f.cls.name)
            b = self.bind(f, selft, args, kws, y, clo)
            if b is not None:
                self.emit("enter", y, self.normcall(fn, r, args, kws), e)
                return self.enter(f, cls, b, y, e)
        # special forms
        if fn is G("all") or fn is G("any"):
            if len(args) == 1 and args[0].k == "comp" and args[0].a[0] in ("gen", "list"):
                c = args[0]
                gens = c.a[2].g
                if len(gens) == 1:
                    it, conds = gens[0]
                    a, p = lit(c.a[1])
                    isall = fn is G("all")
                    body_p = p if isall else not p
                    if conds:
                        neg = [self.littermv(t, not q) for t, q in conds]
                        body = self.mkbool(False, neg + [self.littermv(a, body_p)])
                        a2, p2 = body, True
                    else:
                        a2, p2 = a, body_p
                    t = mk("forall", self.iter_core(it), a2, p2)
                    return [(y, t if isall else mknot(t))]
        if fn is G("isinstance") and len(args) == 2:
            t = mk("call", fn, tuple(args), ())
            self.emit("call", y, t, e)
            return [(y, t)]
        if fn.k == "a" and fn.a[1] == "format" and False:
            pass
        t = self.normcall(fn, r, args, kws)
        if r is not None and r[0].isgen and self.should_inline(r[0], r[3]):
            f, selft, cls, clo = r
            b = self.bind(f, selft, args, kws, y, clo)
            if b is not None:
                self.genmap[t] = ("gen", f, cls, b, e)
        if fn is G("int") and len(args) == 1 and not kws and _isnum(args[0]):
            return [(y, args[0])]
        self.emit("call", y, t, e)
        if self.tryctx and not (fn.k == "a" and fn.a[1] == "encode"):
            self.tryctx[-1].append(y.copy())
        if fn.k == "g":
            rr = self.m.resolve(self.fr.func.mod, fn.a[0])
            if isinstance(rr, Cls):
                self.types.setdefault(t, rr)
        if fn.k == "a" and fn.a[1] in LISTMUT:
            if fn.a[0].k == "new":
                acc = self.accs.setdefault(fn.a[0], [])
                if fn.a[1] in ("append", "add") and len(args) == 1:
                    acc.append((args[0], y.facts))
                elif fn.a[1] not in ("pop", "remove", "discard", "clear", "sort", "reverse", "popleft"):
                    acc.append(None)
            y.kill(fn.a[0])
        if fn is G("next") and args and self.fr.loops and self.fr.loops[-1].iswhile:
            core = self.iter_core(args[0])
            if self.fr.loops[-1].term is None:
                self.fr.loops[-1].term = core
            return [(y, self.elem_of(core))]
        if fn is G("next") or (fn.k == "a" and (fn.a[1] in ("pop", "popleft", "read", "readline", "popitem") or fn.a[1] in self.freshcalls)):
            t = mk("fresh", t, f"{e.lineno}:{e.col_offset}")
        if fn in (G("list"), G("set"), G("dict"), G("bytearray"), G("deque"), G("oset"), G("OrderedSet")) and not args and not kws:
            return [(y, mk("new", fn.a[0], self.sitename(e), ()))]
        return [(y, t)]

    def enter(self, f, cls, env, st, node, yieldcb=None):
        """inline f; returns [(state, value)] in the caller frame"""
        self.analysed.add(f)
        y = st.copy()
        y.stack = y.stack + (y.env,)
        y.env = dict(env)
        fr = Frame(f, cls if cls is not None else f.cls, True, yieldcb)
        fr.via = node if hasattr(node, "lineno") else None
        if f.cls is not None and f.params and not f.isstatic and f.params[0] in env and cls is not None:
            self.types.setdefault(env[f.params[0]], cls)
        self.frames.append(fr)
        nr = len(self.raisers[-1])
        outs = self.exec(f.node.body, [y])
        self.frames.pop()
        res = []
        for z in outs:
            fr.returns.append((z, NONE, f.node))
        # raised states: restore caller env
        lst = self.raisers[-1]
        dep = len(st.stack)
        for i in range(nr, len(lst)):
            x, nm, t, n = lst[i]
            if len(x.stack) > dep:
                x = x.copy()
                x.env = dict(x.stack[dep])
                x.stack = x.stack[:dep]
                lst[i] = (x, nm, t, n)
        for z, v, n in fr.returns:
            z = z.copy()
            z.env = dict(z.stack[-1])
            z.stack = z.stack[:-1]
            res.append((z, v))
        return self.cap_pairs(res, node)

    def cap_pairs(self, res, node):
        if len(res) <= 1:
            return res
        groups = {}
        for s, v in res:
            groups.setdefault(v, []).append(s)
        out = []
        for v, g in groups.items():
            for s in self.cap(g, node):
                out.append((s, v))
        if len(out) > self.limit:
            out2 = []
            for v, g in groups.items():
                out2.append((merge(g, f"{getattr(node, 'lineno', 0)}"), v))
            out = out2
        return out


class _FrozenGens:
    """generators of a comprehension term: ((iter, ((cond,pol),..)),..)"""
    __slots__ = ("g",)
    _t = {}

    def __new__(cls, g):
        o = cls._t.get(g)
        if o is None:
            o = object.__new__(cls)
            o.g = g
            cls._t[g] = o
        return o

    def __str__(self):
        return "; ".join(f"$ in {show(i)}" + "".join(f" if {'' if p else 'not '}{show(t)}" for t, p in c) for i, c in self.g)


def comp_children(t):
    for it, conds in t.a[2].g:
        yield it
        for c, _ in conds:
            yield c


_old_children = children


def children(t):  # noqa: F811
    yield from _old_children(t)
    if t.k == "comp":
        yield from comp_children(t)


# ------------------------------------------------------------------ patterns
class Pat:
    """Structural pattern over terms, written as a Python expression.

    `_` matches anything; `_x` (underscore+name) binds consistently; plain names match a parameter or a global
    of that name; string/number constants match themselves; `ANY(p, q)` alternatives; `HAS(p)` any term with a
    subterm matching p; `EACH(p)` an element of an iterable matching p; calls match when the listed keyword
    arguments match (extra keyword arguments allowed if `...` is among the positional patterns).
    """

    def __init__(self, s, names=None):
        self.src = s
        self.e = ast.parse(s, mode="eval").body
        self.names = names or {}

    def __repr__(self):
        return self.src

    def match(self, t, b=None):
        b = {} if b is None else b
        return b if self._m(self.e, t, b) else None

    def _m(self, e, t, b):
        if isinstance(e, ast.Name):
            n = e.id
            if n == "_":
                return True
            if n in self.names:
                v = self.names[n]
                if isinstance(v, Pat):
                    return v._m(v.e, t, b)
                if callable(v) and not isinstance(v, T):
                    return v(t)
                return v is t
            if n.startswith("_"):
                if n in b:
                    return b[n] is t
                b[n] = t
                return True
            return t.k in ("p", "g") and t.a[0] == n
        if isinstance(e, ast.Constant):
            return t.k == "c" and type(t.a[0]) is type(e.value) and t.a[0] == e.value
        if isinstance(e, ast.Attribute):
            if t.k != "a":
                return False
            if e.attr != "_" and t.a[1] != e.attr:
                return False
            return self._m(e.value, t.a[0], b)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "ANY":
                for x in e.args:
                    b2 = dict(b)
                    if self._m(x, t, b2):
                        b.update(b2)
                        return True
                return False
            if isinstance(e.func, ast.Name) and e.func.id == "HAS":
                for u in sorted(subterms(t), key=lambda u: u.sid):
                    b2 = dict(b)
                    if self._m(e.args[0], u, b2):
                        b.update(b2)
                        return True
                return False
            if isinstance(e.func, ast.Name) and e.func.id == "EACH":
                return t.k == "elem" and self._m(e.args[0], t.a[0], b)
            if isinstance(e.func, ast.Name) and e.func.id == "ALLIN":   # ALLIN(iter, body, pol)
                if t.k != "forall" or not self._m(e.args[0], t.a[0], b):
                    return False
                pol = True if len(e.args) < 3 else e.args[2].value
                return t.a[2] == pol and self._m(e.args[1], t.a[1], b)
            if isinstance(e.func, ast.Name) and e.func.id == "BV":
                return t.k == "bv" and t.a[0] == (e.args[0].value if e.args else 0)
            if t.k != "call" or not self._m(e.func, t.a[0], b):
                return False
            args = [x for x in e.args]
            lax = any(isinstance(x, ast.Constant) and x.value is ... for x in args)
            args = [x for x in args if not (isinstance(x, ast.Constant) and x.value is ...)]
            tk = dict(t.a[2])
            tpos = list(t.a[1])
            if len(args) > len(tpos):
                # positional pattern may be named in term
                return False
            if not lax and len(args) < len(tpos):
                return False
            for x, y in zip(args, tpos):
                if not self._m(x, y, b):
                    return False
            for kw in e.keywords:
                if kw.arg not in tk or not self._m(kw.value, tk[kw.arg], b):
                    return False
            if not lax and set(tk) - {kw.arg for kw in e.keywords}:
                return False
            return True
        if isinstance(e, ast.Subscript):
            return t.k == "sub" and self._m(e.value, t.a[0], b) and self._m(e.slice, t.a[1], b)
        if isinstance(e, ast.Tuple):
            return t.k == "tup" and len(t.a[0]) == len(e.elts) and all(self._m(x, y, b) for x, y in zip(e.elts, t.a[0]))
        if isinstance(e, ast.BinOp):
            op = BINOPS[type(e.op)]
            if isinstance(e.right, ast.Constant) and isinstance(e.right.value, int) and op in "+-":
                k = e.right.value if op == "+" else -e.right.value
                return t.k == "lin" and t.a[1] == k and self._m(e.left, t.a[0], b)
            return t.k == "bin" and t.a[0] == op and self._m(e.left, t.a[1], b) and self._m(e.right, t.a[2], b)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            return t.k == "c" and t.a[0] == -e.operand.value
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            # used inside ALLIN bodies
            op = e.ops[0]
            if isinstance(op, ast.In):
                return t.k == "in" and self._m(e.left, t.a[0], b) and self._m(e.comparators[0], t.a[1], b)
            if isinstance(op, ast.Eq):
                return t.k == "eq" and any(self._try(((e.left, x), (e.comparators[0], y)), b)
                                           for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])))
            if isinstance(op, ast.Is):
                return t.k == "is" and self._m(e.left, t.a[0], b) and self._m(e.comparators[0], t.a[1], b)
        raise AnalysisBroken(f"pattern not supported: {self.src}")

    def _try(self, pairs, b):
        b2 = dict(b)
        for e, t in pairs:
            if not self._m(e, t, b2):
                return False
        b.update(b2)
        return True


class FactPat:
    """pattern over one fact literal, e.g. 'x.sn == y.sn + 1', 'not a.b(...)', 'x in y', 'x is not None', 'a < b'"""

    def __init__(self, s, names=None):
        self.src = s
        e = ast.parse(s, mode="eval").body
        self.pol = True
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            self.pol = not self.pol
            e = e.operand
        self.e = e
        self.p = Pat("_", names)
        self.names = names

    def __repr__(self):
        return self.src

    def _variants(self):
        e = self.e
        if isinstance(e, ast.Compare):
            op, l, r = e.ops[0], e.left, e.comparators[0]
            if isinstance(op, (ast.Eq, ast.NotEq)):
                return [("eq", l, r, self.pol == isinstance(op, ast.Eq))]
            if isinstance(op, (ast.Is, ast.IsNot)):
                return [("is", l, r, self.pol == isinstance(op, ast.Is))]
            if isinstance(op, (ast.In, ast.NotIn)):
                return [("in", l, r, self.pol == isinstance(op, ast.In))]
            if isinstance(op, ast.Lt):
                return [("lt", l, r, 0, self.pol)]
            if isinstance(op, ast.GtE):
                return [("lt", l, r, 0, not self.pol)]
            if isinstance(op, ast.Gt):
                return [("lt", r, l, 0, self.pol)]
            if isinstance(op, ast.LtE):
                return [("lt", r, l, 0, not self.pol)]
        return [("truth", e, self.pol)]

    @staticmethod
    def _linpat(e):
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)) and isinstance(e.right, ast.Constant) \
                and isinstance(e.right.value, int):
            return e.left, e.right.value if isinstance(e.op, ast.Add) else -e.right.value
        if isinstance(e, ast.Constant) and isinstance(e.value, int) and not isinstance(e.value, bool):
            return None, e.value
        return e, 0

    def match(self, l, b=None):
        """l = (term, pol) -> binding or None"""
        t, p = l
        b0 = {} if b is None else b
        for v in self._variants():
            k = v[0]
            if k == "truth":
                b = dict(b0)
                if p == v[2] and self.p._m(v[1], t, b):
                    return b
                if isinstance(v[1], ast.BoolOp):
                    continue
            elif k == "eq":
                if t.k == "eq" and p == v[3]:
                    le, lk = self._linpat(v[1])
                    re_, rk = self._linpat(v[2])
                    for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                        b = dict(b0)
                        if self.p._m(v[1], x, b) and self.p._m(v[2], y, b):
                            return b
                    # offset form
                    y1, ky = unlin(t.a[1])
                    x1 = t.a[0]
                    if le is not None and re_ is not None and (lk or rk or ky):
                        # pattern: L + lk == R + rk ; term: x1 == y1 + ky
                        for (pl, pr, off) in ((le, re_, rk - lk), (re_, le, lk - rk)):
                            b = dict(b0)
                            if ky == off and self.p._m(pl, x1, b) and self.p._m(pr, y1, b):
                                return b
                # x == 0 for lens: normalised to truth
                if t.k == "is" and t.a[1] is NONE and isinstance(v[2], ast.Constant) and v[2].value is None and p == v[3]:
                    b = dict(b0)
                    if self.p._m(v[1], t.a[0], b):
                        return b
            elif k == "is":
                if t.k == "is" and p == v[3]:
                    b = dict(b0)
                    if self.p._m(v[1], t.a[0], b) and self.p._m(v[2], t.a[1], b):
                        return b
                if isinstance(v[2], ast.Constant) and v[2].value is None and v[3] is False and p:
                    # truthiness implies not None
                    b = dict(b0)
                    if t.k not in ("eq", "lt", "is", "in") and self.p._m(v[1], t, b):
                        return b
            elif k == "in":
                if t.k == "in" and p == v[3]:
                    b = dict(b0)
                    if self.p._m(v[1], t.a[0], b) and self.p._m(v[2], t.a[1], b):
                        return b
            elif k == "lt":
                if t.k == "lt":
                    le, lk = self._linpat(v[1])
                    re_, rk = self._linpat(v[2])
                    off, pol = v[3] + rk - lk, v[4]
                    # pattern: L < R + off  (pol)
                    cand = [(t.a[0], t.a[1], t.a[2], p)]
                    cand.append((t.a[1], t.a[0], 1 - t.a[2], not p))
                    for (x, y, k2, pp) in cand:
                        if pp != pol:
                            continue
                        # for positive: x<y+k2 entails L<R+off if k2<=off ; negative: x>=y+k2 entails if k2>=off
                        if pol and k2 > off or not pol and k2 < off:
                            continue
                        b = dict(b0)
                        okl = (x is C(0)) if le is None else self.p._m(le, x, b)
                        okr = okl and ((y is C(0)) if re_ is None else self.p._m(re_, y, b))
                        if okl and okr:
                            return b
                    if t.k == "lt":
                        pass
                if t.k == "eq" and p:
                    # equality entails (non-strict) order
                    le, lk = self._linpat(v[1])
                    re_, rk = self._linpat(v[2])
                    off, pol = v[3] + rk - lk, v[4]
                    for x, y, ky in ((t.a[0],) + unlin(t.a[1]), ):
                        for (xx, yy, kk) in ((x, y, ky), (y, x, -ky)):   # xx == yy + kk
                            if (kk < off) != pol:
                                continue
                            b = dict(b0)
                            if le is not None and re_ is not None and self.p._m(le, xx, b) and self.p._m(re_, yy, b):
                                return b
        return None


def fact_matches(ev, fp, b=None):
    """does some fact of the event match the pattern -> binding or None"""
    for l in sorted(ev.facts, key=lambda l: l[0].sid):
        r = fp.match(l, b)
        if r is not None:
            return r
    return None


def call_parts(t):
    """(fn, args, kwargs dict) of a call term; looks through 'fresh'"""
    if t.k == "fresh":
        t = t.a[0]
    if t.k != "call":
        return None
    return t.a[0], t.a[1], dict(t.a[2])
