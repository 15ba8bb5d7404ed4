"""Registry and credential event logs: acceptance, state, escrow, replies."""
from . import prop
from .corelib import *
from .kel import before
from .rct import norm, same, keyparts, eqfacts
from .esc import hist_calls, comps

VE = "src/keri/vdr/eventing.py"
TB = {"rotate", "issue", "revoke", "logEvent", "valAnchorBigs", "verifyAnchor", "escrowALEvent", "escrowPWEvent", "escrowOOEvent", "getBackerState", "registryKey",
      "vcSn", "vcState", "update", "Tever", "verifySigs", "dgKey", "snKey", "state", "acceptReply", "escrowStateNotice", "updateReply", "processEvent",
      "processReplyRegistryTxnState", "processReplyCredentialTxnState", "processEscrowState"}
S = P("serder")
SELF = P("self")
PFX = ("self.prefixer.qb64",)
ALIAS = {"t": ("ilk",), "i": ("pre",), "d": ("said",), "s": ("snh",), "p": ("prior",), "v": ()}


def is_f(t, k, E=S):
    """t is field k of event E"""
    t = norm(t) if t is not None else None
    if t is None:
        return False
    if t.k == "sub":
        return t.a[1] is C(k) and t.a[0].k == "a" and t.a[0].a[0] is E and t.a[0].a[1] in ("ked", "sad")
    if fname(t) == "get" and t.a[1] and t.a[1][0] is C(k) and recv(t).k == "a" and recv(t).a[0] is E and recv(t).a[1] in ("ked", "sad"):
        return True
    return t.k == "a" and t.a[0] is E and t.a[1] in ALIAS.get(k, ())


def F(k):
    """spec alternatives of field k of the event"""
    return [f"serder.ked['{k}']", f"serder.sad['{k}']"] + [f"serder.{x}" for x in ALIAS.get(k, ())]


def ilk(q, x, *names):
    """the event is known to be of one of these types"""
    s = ", ".join(f"'{n}'" for n in names)
    return q.holds(x, " || ".join(f"{f} in ({s},)" for f in F("t")))


def not_ilk(q, x, *names):
    s = ", ".join(f"'{n}'" for n in names)
    return q.holds(x, " || ".join(f"{f} not in ({s},)" for f in F("t"))) or \
        all(q.holds(x, " || ".join(f"{f} != '{n}'" for f in F("t"))) or any(not p and t.k == "in" and is_f(t.a[0], "t") and q.holds(x, "n in z", {"n": C(n), "z": t.a[1]}) for t, p in x.facts) for n in names)


def eq_known(x, A_, B_):
    """an equality between a term satisfying A_ and one satisfying B_ is established"""
    for t, p in x.facts:
        if p and t.k == "eq":
            a, b = t.a
            if A_(a) and B_(b) or A_(b) and B_(a):
                return True
    return False


def sn_term(t):
    """t is the event's sequence number"""
    t0 = t
    if t is None:
        return False
    n = norm(t)
    if n.k == "a" and n.a[0] is S and n.a[1] in ("sn",):
        return True
    if n.k == "a" and n.a[1] == "sn" and n.a[0] is A(S, "sner"):
        return True
    if t0.k == "a" and t0.a[1] in ("sn", "num"):
        b = t0.a[0]
        if fname(b) == "validate":
            b = recv(b)
        if fname(b) in ("Number", "Seqner"):
            h = arg(b, None, "numh", "snh")
            return h is not None and is_f(h, "s")
    if t0.k == "call" and t0.a[0].k == "g" and t0.a[0].a[0] == "int":
        return len(t0.a[1]) == 2 and is_f(t0.a[1][0], "s") and t0.a[1][1] is C(16)
    return False


def sn_terms(x):
    return [t for t in terms_of(x) if sn_term(t)]


def checked_sn(q, x, inceptive):
    """zero is known of the sequence number of exactly the types that begin a log"""
    for t in list(terms_of(x)) + hist_calls(x):
        if fname(t) == "validate" and fname(recv(t)) in ("Number", "Seqner") and is_f(arg(recv(t), None, "numh", "snh"), "s"):
            a = arg(t, 0, "inceptive")
            if a is None:
                continue
            if a is TRUE and ilk(q, x, *inceptive) or a is FALSE and not_ilk(q, x, *inceptive):
                return True
            for f in F("t"):
                s = ", ".join(f"'{n}'" for n in inceptive)
                if equivalent(x, a, q.term(f"{f} in ({s},)")):
                    return True
    for n in sn_terms(x):
        if ilk(q, x, *inceptive) and q.holds(x, "n == 0", {"n": n}) or not_ilk(q, x, *inceptive) and q.holds(x, "n > 0", {"n": n}):
            return True
    return False


def same_args(q, R, inst, events, names, what, extra=None):
    for e in events:
        for n in names:
            alias = {"bigers": ("bigers", "wigers"), "saider": ("saider", "diger")}.get(n, (n,))
            got = arg(e.term, None, *alias)
            want = (extra or {}).get(n)
            ok = want(got, e) if want is not None else got is not None and got is P(n)
            q.ctx.need(ok, R, f"{q.qual}:{inst}:{n}", f"{q.rel}:{e.line}", f"{what}: {n} is {show(got)[:70] if got is not None else 'not given'}")


def is_regk(t):
    return fname(t) == "registryKey" and arg(t, 0, "serder") is S


def tever_of(t):
    """t is the registry state kept under the event's registry"""
    return t is not None and t.k == "sub" and chain(t.a[0])[-1] == "tevers" and is_regk(t.a[1]) or \
        fname(t) == "get" and recv(t) is not None and chain(recv(t))[-1] == "tevers" and is_regk(arg(t, 0, "k"))


def known_reg(x, yes=True):
    return any(p == yes and t.k == "in" and is_regk(t.a[0]) and chain(t.a[1])[-1] == "tevers" for t, p in x.facts)


def next_sn(q, x, T):
    """the sequence number is the next one of what the event belongs to"""
    env = {"T": T}
    vc = [t for t in terms_of(x) if fname(t) == "vcSn" and recv(t) is T and is_f(arg(t, 0, "vci"), "i")]
    for n in sn_terms(x):
        env["n"] = n
        if ilk(q, x, "vrt"):
            if q.holds(x, "n == T.sn + 1", env):
                return True
        elif not_ilk(q, x, "vrt"):
            for v in vc:
                env["v"] = v
                if q.holds(x, "v is None", env) and q.holds(x, "n == 0", env) or q.holds(x, "v is not None", env) and q.holds(x, "n == v + 1", env):
                    return True
    return False


def relation(q, x, T, op):
    """n op next expected number"""
    def rel(n, v, env):
        return q.holds(x, f"n {op} {v}", env) or op == "<" and q.holds(x, f"n <= {v}", env) and q.holds(x, f"n != {v}", env)
    vc = [t for t in terms_of(x) if fname(t) == "vcSn" and is_f(arg(t, 0, "vci"), "i")]
    for n in sn_terms(x):
        env = {"T": T, "n": n}
        if rel(n, "T.sn + 1", env) and ilk(q, x, "vrt"):
            return True
        for v in vc:
            env["v"] = v
            if q.holds(x, "v is None", env) and rel(n, "0", env) or q.holds(x, "v is not None", env) and rel(n, "v + 1", env):
                return True
    return False


def tever_in(x):
    out = [t for t in terms_of(x) if tever_of(t)]
    return out or [None]


INC = ("vcp", "iss", "bis")


@prop("V01")
def v01(ctx):
    R1 = "V01.route"
    ctx.rule(R1, "an event changes only the registry it names: as the inception of an unknown registry, or as the next event of the known registry or of "
                 "the credential, judged with everything that arrived with it", 20)
    R2 = "V01.outcome"
    ctx.rule(R2, "every arriving event ends accepted, held or refused with an error, and is refused only where an established fact makes it invalid", 6)
    q = Q(ctx, VE, "Tevery.processEvent", TB, limit=2000)
    ups = [e for e in q.calls("update") if not (recv(e.term) is not None and recv(e.term).k == "new")]
    require(q, R1, "update", ups, [
        ("the event's own registry", lambda e: tever_of(recv(e.term))), ("known registry", lambda e: known_reg(e)),
        ("not an inception", lambda e: not_ilk(q, e, "vcp")), ("next in order", lambda e: next_sn(q, e, recv(e.term))),
        ("number fits the type", lambda e: checked_sn(q, e, INC)),
        ("from where this processor takes it", "self.lax || self.local and r in self.reger.registries || not self.local and r not in self.reger.registries"),
    ], "event given to a registry", 2, {"r": regk_term(q)})
    same_args(q, R1, "update", ups, ("serder", "seqner", "saider", "bigers"), "event given to a registry", {"bigers": lambda t, e: t is P("wigers")})
    for name in ("vrt", "other"):
        ctx.need(any(ilk(q, e, "vrt") == (name == "vrt") for e in ups), R1, f"{q.qual}:update:{name}", q.where(), "registry or credential events are never accepted")
    news = q.calls("Tever")
    require(q, R1, "new registry", news, [("inception", lambda e: ilk(q, e, "vcp")), ("unknown registry", lambda e: known_reg(e, False)),
                                          ("number fits the type", lambda e: checked_sn(q, e, INC)),
                                          ("from where this processor takes it", "self.lax || self.local and r in self.reger.registries || not self.local and r not in self.reger.registries")],
            "registry created", 1, {"r": regk_term(q)})
    same_args(q, R1, "new registry", news, ("serder", "seqner", "saider", "bigers", "reger", "db", "local"), "registry created",
              {"bigers": lambda t, e: t is P("wigers"), "reger": lambda t, e: t is q.term("self.reger"), "db": lambda t, e: t is q.term("self.db"),
               "local": lambda t, e: t is q.term("self.local")})
    for e in q.w.events:
        if e.kind == "setitem" and e.term is not None and e.term.k == "sub" and chain(e.term.a[0])[-1] == "tevers":
            ctx.need(is_regk(e.term.a[1]) and fname(e.value) == "Tever", R1, f"{q.qual}:kept under its own key", q.where(e.node), "registry state is kept under another registry's key")
    for st, v, node in q.exits():
        up = any(fname(t) == "update" and tever_of(recv(t)) for t in hist_calls(st))
        new = any(fname(t) == "Tever" for t in hist_calls(st))
        kept = any(h.k == "setitem" and h.a[0].k == "sub" and is_regk(h.a[0].a[1]) and fname(h.a[1]) == "Tever" for h in st.hist)
        ctx.need(up or new, R2, f"{q.qual}:silently dropped", q.where(node), "an arriving event ends neither accepted nor refused")
        if new:
            ctx.need(kept, R2, f"{q.qual}:new registry kept", q.where(node), "the state of an accepted registry is not kept")
    refuses_only(q, R2, [
        lambda x: any(h.k == "caught" for h in x.hist),
        lambda x: q.holds(x, "not self.lax and self.local and r not in self.reger.registries", {"r": regk_term(q)}),
        lambda x: q.holds(x, "not self.lax and not self.local and r in self.reger.registries", {"r": regk_term(q)}),
        lambda x: known_reg(x) and ilk(q, x, "vcp"),
        lambda x: known_reg(x, False) and not_ilk(q, x, "vcp"),
        lambda x: known_reg(x) and any(relation(q, x, T, o) for T in tever_in(x) for o in ("<", ">")),
    ], "an event is refused", ("ValidationError", "ValueError", "LikelyDuplicitousError", "OutOfOrderError"))
    q = Q(ctx, VE, "Tever.vcSn", TB)
    cnt = [e.term for e in q.calls("cntAll") if chain(recv(e.term))[-1] == "tels" and same(arg(e.term, 0, "keys"), P("vci"))]
    ctx.need(bool(cnt), R1, f"{q.qual}:counted", q.where(), "the credential's accepted events are not counted")
    for st, v, node in q.exits():
        if not cnt:
            continue
        env = {"c": cnt[0]}
        ctx.need(v is NONE and q.holds(st, "c == 0 || not c", env) or v is q.term("c - 1", env) and q.holds(st, "c != 0 || c", env) or
                 v is not None and v.k == "ite" and equivalent(st, v, q.term("None if c == 0 else c - 1", env)), R1, f"{q.qual}:last number", q.where(node), "the number of the last event is not that of the credential's log")
    q = Q(ctx, VE, "Tevery.registryKey", TB)
    for names, ok in ((("vcp", "vrt"), lambda v: is_f(v, "i")), (("iss", "rev"), lambda v: is_f(v, "ri")),
                      (("bis", "brv"), lambda v: v is not None and v.k == "sub" and v.a[1] is C("i") and is_f(v.a[0], "ra"))):
        got = [(st, v, n) for st, v, n in q.exits() if ilk(q, st, *names)]
        ctx.need(bool(got), R1, f"{q.qual}:{names[0]}", q.where(), f"events of type {names[0]} name no registry")
        for st, v, n in got:
            ctx.need(ok(v), R1, f"{q.qual}:{names[0]}", q.where(n), f"the registry of {names} events is taken from {show(v)[:60]}")
    for st, v, n in q.exits():
        ctx.need(any(ilk(q, st, *x) for x in (("vcp", "vrt"), ("iss", "rev"), ("bis", "brv"))), R1, f"{q.qual}:known types only", q.where(n), "an event of unknown type names a registry")


def regk_term(q):
    for e in q.calls("registryKey"):
        if is_regk(e.term):
            return e.term
    return P("?")


def reg_own(q, x, pred):
    """a term satisfying pred is known equal to this registry's own identifier"""
    own = {q.term("self.prefixer.qb64"), q.term("self.regk")}
    return eq_known(x, pred, lambda t: norm(t) in own or t in own)


def stored_at(t, vci_ok, dig_ok):
    """event term E was built from the stored event at (vci, dig); returns the read"""
    if fname(t) != "SerderKERI":
        return None
    r = arg(t, None, "raw")
    r = norm(r) if r is not None else None
    if not dbop(r, "tvts", "get"):
        return None
    ks = keyparts(arg(r, 0, "keys"))
    return r if len(ks) == 2 and vci_ok(ks[0]) and dig_ok(ks[1]) else None


def prior_of(q, x):
    """events of the credential's log at the place before this one, as read here"""
    SN = P("sn")

    def dig_ok(d):
        return dbop(d, "tels", "get") and is_f(arg(d, 0, "keys"), "i") and arg(d, 1, "on") is q.term("sn - 1") or \
            dbop(d, "tels", "getLast") and is_f(arg(d, 0, "keys"), "i") and arg(d, None, "on") is q.term("sn - 1")
    return [t for t in list(terms_of(x)) + hist_calls(x) if stored_at(t, lambda k: is_f(k, "i"), dig_ok) is not None]


def chained(x, E):
    """the event names E's digest as its prior"""
    return any(p and fname(t) == "compare" and recv(t) is E and is_f(arg(t, 0, "said"), "p") for t, p in x.facts) or \
        eq_known(x, lambda a: is_f(a, "p"), lambda b: is_f(b, "d", E))


def anchored(q, x):
    return any(p and fname(t) == "verifyAnchor" and all(arg(t, None, n) is P(n) for n in ("serder", "seqner", "saider")) for t, p in x.facts)


def backed(q, x, toad, baks):
    """the backer signatures given were judged against these backers and threshold: the call"""
    for t in hist_calls(x):
        if fname(t) == "valAnchorBigs" and all(arg(t, None, n) is P(n) for n in ("serder", "seqner", "saider", "bigers")) and \
                toad(arg(t, None, "toad")) and baks(arg(t, None, "baks")):
            return t
    return None


def part(q, t, name, i):
    """item i of what self.<name>(about this event) returned"""
    return t is not None and t.k == "sub" and t.a[1] is C(i) and fname(t.a[0]) == name and recv(t.a[0]) is SELF


@prop("V01")
def v01_accept(ctx):
    R1 = "V01.accept"
    ctx.rule(R1, "an event is logged only after its own checks: its type fits the registry's backing, it names this registry, it is chained to the prior event of "
                 "this registry's log, its controller anchored it, and its backers signed it", 25)
    R2 = "V01.state"
    ctx.rule(R2, "registry state is replaced only by an accepted event's own fields, and the saved state with it", 14)
    R3 = "V01.refuse"
    ctx.rule(R3, "registry and credential events are refused only where an established fact makes them invalid", 12)
    noback = lambda q, e: q.holds(e, "not (self.noBackers is False) || self.noBackers || self.noBackers is True")
    back = lambda q, e: q.holds(e, "not (self.noBackers is True) || not self.noBackers || self.noBackers is False")
    # credential events
    for qual, plain, withb in (("Tever.issue", "iss", "bis"), ("Tever.revoke", "rev", "brv")):
        q = Q(ctx, VE, qual, TB)
        logs = q.calls("logEvent")
        simple = [e for e in logs if ilk(q, e, plain)]
        other = [e for e in logs if not ilk(q, e, plain)]
        gb = lambda i: lambda t: part(q, t, "getBackerState", i) and norm(arg(t.a[0], 0, "ked")) in (q.term("serder.ked"), q.term("serder.sad"))
        own = lambda e: reg_own(q, e, lambda t: is_f(t, "ri") or is_regk(t))
        if plain == "iss":
            require(q, R1, "issue", simple, [("backerless registry", lambda e: noback(q, e)), ("names this registry", own), ("anchored", lambda e: anchored(q, e))], "credential issued", 1)
        else:
            require(q, R1, "revoke", simple, [("backerless registry", lambda e: noback(q, e)), ("anchored", lambda e: anchored(q, e))], "credential revoked", 1)
            require(q, R1, "revocation", logs, [
                ("chained to the event before it", lambda e: any(chained(e, E) for E in prior_of(q, e))),
                ("of this registry", lambda e: any(chained(e, E) and reg_own(q, e, lambda t, E=E: fname(t) == "registryKey" and arg(t, 0, "serder") is E) for E in prior_of(q, e))),
            ], "credential revoked", 2)
            for st, v, n in q.exits():
                ctx.need(any(fname(t) in ("push", "append") and chain(recv(t))[-1] == "cues" for t in hist_calls(st)), R1, f"{q.qual}:told", q.where(n), "a revocation is not announced")
        require(q, R1, "with backers", other, [("backer registry", lambda e: back(q, e)), ("known type", lambda e: ilk(q, e, withb)),
                                               ("anchored and backed", lambda e: backed(q, e, gb(0), gb(1)) is not None)], "credential event accepted", 1)
        for e in other:
            b = arg(e.term, None, "bigers")
            ctx.need(b is not None and b is backed(q, e, gb(0), gb(1)), R1, f"{q.qual}:verified backer signatures kept", q.where(e.node), "the backer signatures stored are not the verified ones")
        same_args(q, R1, "logged", logs, ("pre", "sn", "serder", "seqner", "saider"), "credential event logged", {"pre": lambda t, e: is_f(t, "i")})
        require_exit(q, R1, "return", [("logged", lambda st, v: before("logEvent")(st))], "credential event handled")
        refuses_only(q, R3, [
            "self.noBackers is False and serder.ked['t'] in ('iss', 'rev') || not self.noBackers and serder.ked['t'] in ('iss', 'rev')",
            "self.noBackers is True and serder.ked['t'] in ('bis', 'brv') || self.noBackers and serder.ked['t'] in ('bis', 'brv')",
            lambda x, q=q: any(not p and t.k == "eq" and (is_f(t.a[0], "ri") or is_f(t.a[1], "ri")) for t, p in x.facts),
            lambda x, q=q, plain=plain, withb=withb: not_ilk(q, x, plain, withb),
            lambda x, q=q: any(p and t.k == "is" and t.a[1] is NONE and dbop(t.a[0], "tvts", "get") or not p and dbop(t, "tvts", "get") or p and t.k == "is" and t.a[1] is NONE and dbop(t.a[0], "tels", "get") for t, p in x.facts),
            lambda x, q=q: any(not p and fname(t) == "compare" and recv(t) in prior_of(q, x) for t, p in x.facts) or any(
                not p and t.k == "eq" and (is_f(t.a[0], "p") or is_f(t.a[1], "p")) for t, p in x.facts),
            lambda x, q=q: any(not p and t.k == "eq" and any(fname(s) == "registryKey" for s in t.a) for t, p in x.facts),
            lambda x, q=q: any(not p and fname(t) == "verifyAnchor" for t, p in x.facts),
        ], "a credential event is refused", ("ValidationError", "ValueError", "MissingAnchorError"))
        require(q, R3, "held for its anchor", [e for e in q.calls("escrowALEvent")], [
            ("whole", lambda e: all(arg(e.term, None, n) is P(n) for n in ("serder", "seqner", "saider")))], "unanchored event held", 1)
        for st, n in raises_named(q, ("MissingAnchorError",)):
            ctx.need(before("escrowALEvent")(st), R3, f"{q.qual}:held", q.where(n), "an event without its anchor is refused without being held")
    # registry events
    q = Q(ctx, VE, "Tever.update", TB, limit=1500)
    rot = lambda i: lambda t: part(q, t, "rotate", i) and arg(t.a[0], 0, "serder") is S and sn_term(arg(t.a[0], 1, "sn"))
    logs = q.calls("logEvent")
    require(q, R1, "rotation", logs, [
        ("a rotation", lambda e: ilk(q, e, "vrt")), ("backer registry", lambda e: back(q, e)),
        ("checked, anchored and backed by the resulting backers", lambda e: backed(q, e, rot(0), rot(1)) is not None),
        ("number fits the type", lambda e: checked_sn(q, e, ("iss", "bis"))),
        ("logged in this registry", lambda e: norm(arg(e.term, None, "pre")) is q.term("self.prefixer.qb64") or is_f(arg(e.term, None, "pre"), "i")),
        ("with its backers", lambda e: arg(e.term, None, "baks") is not None and rot(1)(arg(e.term, None, "baks"))),
        ("with the verified backer signatures", lambda e: arg(e.term, None, "bigers") is backed(q, e, rot(0), rot(1))),
    ], "registry rotation logged", 1)
    same_args(q, R1, "rotation", logs, ("sn", "serder", "seqner", "saider"), "registry rotation logged", {"sn": lambda t, e: sn_term(t)})
    for name, types in (("issue", ("iss", "bis")), ("revoke", ("rev", "brv"))):
        evs = q.calls(name)
        require(q, R1, name, evs, [("type", lambda e, types=types: ilk(q, e, *types)), ("number fits the type", lambda e: checked_sn(q, e, ("iss", "bis")))], f"credential event handled as {name}", 1)
        same_args(q, R1, name, evs, ("serder", "seqner", "saider", "sn", "bigers"), f"credential event given to {name}", {"sn": lambda t, e: sn_term(t)})
    OLD = {"sn", "serder", "toad", "baks", "ilk"}
    want = {"sn": sn_term, "serder": lambda t: t is S, "toad": rot(0), "baks": rot(1), "ilk": lambda t: is_f(t, "t")}
    for st, v, node in q.exits():
        if ilk(q, st, "vrt"):
            ctx.need(before("logEvent")(st), R1, f"{q.qual}:rotation logged", q.where(node), "a registry rotation ends without being logged")
            for a, ok in want.items():
                got = st.heap.get((SELF, a))
                ctx.need(got is not None and ok(got), R2, f"{q.qual}:{a}", q.where(node), f"after an accepted rotation the registry's {a} is {show(got)[:60] if got is not None else 'unchanged'}")
            ctx.need(any(dbop(t, "states", "pin") and norm(arg(t, 0, "keys")) in (q.term("self.prefixer.qb64"), q.term("self.regk")) or
                         t.k == "call" and fname(t) == "pin" and chain(recv(t))[-1] == "states" for t in hist_calls(st)) or
                     any(h.k == "setitem" and chain(h.a[0].a[0])[-1] == "tevers" for h in st.hist if h.a[0].k == "sub"),
                     R2, f"{q.qual}:saved", q.where(node), "an accepted rotation is not written to the saved registry state: a restart undoes it")
        else:
            ctx.need(before("issue")(st) or before("revoke")(st), R1, f"{q.qual}:handled", q.where(node), "a credential event is neither issued nor revoked")
            for a in OLD:
                ctx.need((SELF, a) not in st.heap, R2, f"{q.qual}:{a} kept", q.where(node), f"a credential event changes the registry's {a}")
    for e in q.calls("pin"):
        if chain(recv(e.term))[-1] == "states":
            val = arg(e.term, 1, "val")
            ctx.need(norm(arg(e.term, 0, "keys")) in (q.term("self.prefixer.qb64"), q.term("self.regk")) and fname(val) == "state", R2, f"{q.qual}:saved state", q.where(e.node),
                     "the saved registry state is not this registry's")
            ctx.need(all(any(h.k == "store" and h.a[0] is A(SELF, a) for h in e.hist) for a in want), R2, f"{q.qual}:saved after the change", q.where(e.node),
                     "the registry state is saved before the rotation is applied to it")
    for a in want:
        for e in q.stores(a):
            ctx.need(backed(q, e, rot(0), rot(1)) is not None, R2, f"{q.qual}:{a} only when accepted", q.where(e.node), f"the registry's {a} is replaced before the event was accepted")
    refuses_only(q, R3, [lambda x: ilk(q, x, "vrt") and q.holds(x, "self.noBackers || self.noBackers is True"), lambda x: not_ilk(q, x, "vrt", "iss", "bis", "rev", "brv")], "a registry event is refused")
    q = Q(ctx, VE, "Tever.__init__", TB | {"incept", "config", "reload"}, limit=1500)
    st_attr = lambda a: lambda t: t is A(SELF, a)
    logs = q.calls("logEvent")
    require(q, R1, "inception", logs, [
        ("an inception", lambda e: ilk(q, e, "vcp")), ("checked", before("incept", lambda t: arg(t, 0, "serder") is S)), ("configured", before("config", lambda t: arg(t, 0, "serder") is S)),
        ("anchored and backed by its backers", lambda e: backed(q, e, st_attr("toad"), st_attr("baks")) is not None),
        ("logged in this registry", lambda e: norm(arg(e.term, None, "pre")) is q.term("self.prefixer.qb64") or is_f(arg(e.term, None, "pre"), "i")),
        ("at the start", lambda e: arg(e.term, None, "sn") in (C(0), q.term("self.sn"))),
        ("with its backers", lambda e: st_attr("baks")(arg(e.term, None, "baks"))),
        ("with the verified backer signatures", lambda e: arg(e.term, None, "bigers") is backed(q, e, st_attr("toad"), st_attr("baks"))),
    ], "registry inception logged", 1)
    same_args(q, R1, "inception", logs, ("serder", "seqner", "saider"), "registry inception logged")
    for e in q.calls("valAnchorBigs"):
        ctx.need(before("incept")(e) and before("config")(e), R1, f"{q.qual}:judged by its own fields", q.where(e.node), "the inception is judged before its own backers and threshold are known")
    for st, v, node in q.exits():
        new = before("logEvent")(st)
        old = any(fname(t) == "reload" and arg(t, 0, "rsr") is P("rsr") for t in hist_calls(st))
        ctx.need(new or old, R1, f"{q.qual}:accepted", q.where(node), "a registry's state exists without an accepted inception")
        if new:
            got = st.heap.get((SELF, "regk"))
            ctx.need(got is not None and norm(got) is q.term("self.prefixer.qb64"), R2, f"{q.qual}:regk", q.where(node), "a registry's identifier is not that of its inception")
            got = st.heap.get((SELF, "ilk"))
            ctx.need(got is not None and is_f(got, "t"), R2, f"{q.qual}:ilk", q.where(node), "a registry's last event type is not that of its inception")
        got = st.heap.get((SELF, "local"))
        ctx.need(got is not None and equivalent(st, got, P("local")) or got is TRUE and q.holds(st, "local") or got is FALSE and q.holds(st, "not local") or got is P("local"),
                 R2, f"{q.qual}:local", q.where(node), "a registry does not remember whether it is its controller's own")


@prop("V01")
def v01_checks(ctx):
    R1 = "V01.anchor"
    ctx.rule(R1, "an event counts as anchored only by the accepted event of the registry controller's log at the given place, with the given digest, that seals exactly "
                 "this event", 4)
    R2 = "V01.backers"
    ctx.rule(R2, "an event is accepted only when anchored and, with backers, signed by enough of them, counted over verified signatures of distinct backers", 10)
    R3 = "V01.rotation"
    ctx.rule(R3, "a registry rotation is next in order, chained, and changes backers and threshold only consistently; an inception starts at zero with a satisfiable threshold", 20)
    q = Q(ctx, VE, "Tever.verifyAnchor", TB)

    def sealing(E):
        if not dbop(E, "evts", "get"):
            return False
        ks = keyparts(arg(E, 0, "keys"))
        return len(ks) == 2 and ks[0] is q.term("self.pre") and dbop(ks[1], "kels", "getLast") and norm(arg(ks[1], 0, "keys")) is q.term("self.pre") and \
            norm(arg(ks[1], None, "on")) in (q.term("seqner.sn"), q.term("seqner.num"))

    def seal_list(L, E):
        return is_f(L, "a", E) or L is A(E, "seals")

    def good(st, v):
        for x in witnesses(q, st):
            for E in [t for t in terms_of(x) if sealing(t)]:
                if not eq_known(x, lambda a: is_f(a, "d", E), lambda b: norm(b) in (q.term("saider.qb64"),)) and not any(
                        p and fname(t) == "compare" and recv(t) is E and norm(arg(t, 0, "said")) is q.term("saider.qb64") for t, p in x.facts):
                    continue
                seals = {t.a[0] for t in terms_of(x) if t.k == "sub" and t.a[1] in (C("i"), C("s"), C("d"))} | {recv(t) for t in terms_of(x) if fname(t) == "get"}
                for z in seals:
                    z0 = z
                    if z is None or not any(s is not None and (z.k == "sub" and seal_list(z.a[0], E) or z is q.w.elem_of(s)) for s in (A(E, "seals"), q.w.mksub(A(E, "ked"), C("a")), q.w.mksub(A(E, "sad"), C("a")))):
                        continue
                    item = lambda t, k, z0=z0: t.k == "sub" and t.a[0] is z0 and t.a[1] is C(k) or fname(t) == "get" and recv(t) is z0 and t.a[1][0] is C(k)
                    if all(eq_known(x, lambda a, k=k: item(a, k), lambda b, k=k: is_f(b, k)) for k in ("i", "s", "d")):
                        return True
        return False
    ctx.need(any(v is TRUE or v is not FALSE and v is not NONE for st, v, n in q.exits()), R1, f"{q.qual}:possible", q.where(), "no event is ever anchored")
    for st, v, node in q.exits():
        if v is FALSE or v is NONE:
            neg = [t for t, p in st.facts if not p] + [t.a[0] for t, p in st.facts if p and t.k == "is" and t.a[1] is NONE]
            E = [t for t in terms_of(st) if dbop(t, "evts", "get")]
            why = q.holds(st, "seqner is None || saider is None || seqner is None or saider is None || not seqner || not saider || not seqner or not saider") or \
                any(dbop(norm(t), "kels", "getLast") or dbop(t, "evts", "get") for t in neg) or \
                any(t.k == "eq" and any(is_f(z, "d", e) for z in t.a for e in E) or fname(t) == "compare" and recv(t) in E for t in neg) or \
                any(seal_list(t, e) or not seal_list(t, e) and t.k in ("eq", "lt") and any(seal_list(z, e) for z in subterms(t)) for t in neg for e in E) or \
                any(any(not p and t.k == "eq" for t, p in c) for c in st.clauses) or any(t.k == "eq" and any(is_f(z, k) for z in t.a for k in ("i", "s", "d")) for t in neg) or \
                any(t.k == "forall" for t, p in st.facts)
            ctx.need(why, R1, f"{q.qual}:negative", q.where(node), "an event is taken as not anchored although nothing established contradicts its anchor")
            continue
        s2 = st if v is TRUE else st.assume(lit(v, True)) if v is not None else None
        ctx.need(s2 is None or good(s2, v), R1, f"{q.qual}:anchored", q.where(node), "an event is taken as anchored by something other than its controller's accepted event sealing it at the given place")
    q = Q(ctx, VE, "Tever.valAnchorBigs", TB)

    def sigs(x):
        return [t for t in list(terms_of(x)) + hist_calls(x) if fname(t) == "verifySigs" and arg(t, 0, "raw") is q.term("serder.raw") and arg(t, 1, "sigers") is P("bigers")
                and verfers_of(q, arg(t, 2, "verfers"), P("baks"))]

    def enough(st):
        if q.holds(st, "not baks or self.regk and (self.local or self.regk in baks) || not len(baks)"):
            return True
        for g in sigs(st):
            env = {"n": q.w.mksub(g, C(1)), "m": q.w.mksub(g, C(0))}
            for t in ("toad", "int(toad, 16)"):
                if q.holds(st, f"len(n) >= {t} || len(m) >= {t}", env) and (t == "toad" and not q.holds(st, "isinstance(toad, str)") or t != "toad"):
                    return True
        return False
    require_exit(q, R2, "return", [
        ("anchored", lambda st, v: anchored(q, st)), ("enough backers signed, unless its controller's own", lambda st, v: enough(st)),
        ("only verified signatures", lambda st, v: v is not None and v.k == "sub" and v.a[1] is C(0) and v.a[0] in sigs(st)),
    ], "event taken as anchored and backed")
    for nm, esc in (("MissingAnchorError", "escrowALEvent"), ("MissingWitnessSignatureError", "escrowPWEvent")):
        got = raises_named(q, (nm,))
        ctx.need(bool(got), R2, f"{q.qual}:{nm}", q.where(), f"an event is never held by {esc}")
        for st, n in got:
            ctx.need(before(esc, lambda t: all(arg(t, None, x) is P(x) for x in ("serder", "seqner", "saider")))(st), R2, f"{q.qual}:{esc}", q.where(n), "a waiting event is refused without being held")
    for e in q.calls("escrowALEvent") + q.calls("escrowPWEvent"):
        b = arg(e.term, None, "bigers")
        ctx.need(b is P("bigers") or b is not None and b.k == "sub" and b.a[1] is C(0) and b.a[0] in sigs(e), R2, f"{q.qual}:held with its signatures", q.where(e.node), "a waiting event is held without its backer signatures")
    refuses_only(q, R2, [
        lambda x: any(not p and fname(t) == "verifyAnchor" for t, p in x.facts),
        "toad < 0 || int(toad, 16) < 0 || len(baks) < toad || len(baks) < int(toad, 16)",
        lambda x: any(q.holds(x, "len(n) < toad || len(n) < int(toad, 16) || len(m) < toad || len(m) < int(toad, 16)", {"n": q.w.mksub(g, C(1)), "m": q.w.mksub(g, C(0))}) for g in sigs(x)),
    ], "an anchored event is refused", ("ValidationError", "ValueError", "MissingAnchorError", "MissingWitnessSignatureError"))
    q = Q(ctx, VE, "Tever.getBackerState", TB)
    ra = lambda t, k: t is not None and (t.k == "sub" and t.a[1] is C(k) and t.a[0].k == "sub" and t.a[0].a[1] is C("ra") and t.a[0].a[0] is P("ked"))
    at = lambda t: len(keyparts(t)) == 2 and (ra(keyparts(t)[0], "i") or keyparts(t)[0] in (q.term("self.prefixer.qb64"), q.term("self.regk"))) and ra(keyparts(t)[1], "d")

    def evt(E):
        r = norm(arg(E, None, "raw")) if fname(E) == "SerderKERI" and arg(E, None, "raw") is not None else None
        return r is not None and dbop(r, "tvts", "get") and at(arg(r, 0, "keys"))

    def baks(t):
        t = unwrap(t)
        for s in subterms(t):
            if dbop(s, "baks", "get", "getIter") and at(arg(s, 0, "keys")):
                return t is s or t.k == "comp"
        return False
    require_exit(q, R2, "backers named by the event", [
        ("of this registry", lambda st, v: eq_known(st, lambda a: ra(a, "i"), lambda b: norm(b) in (q.term("self.prefixer.qb64"), q.term("self.regk")))),
        ("threshold of the named registry event", lambda st, v: tup(v) is not None and len(tup(v)) == 2 and threshold_of(tup(v)[0], evt)),
        ("backers of the named registry event", lambda st, v: tup(v) is not None and len(tup(v)) == 2 and baks(tup(v)[1])),
    ], "backers of a credential event")
    refuses_only(q, R2, [lambda x: any(not p and t.k == "eq" and (ra(t.a[0], "i") or ra(t.a[1], "i")) for t, p in x.facts),
                         lambda x: any((p and t.k == "is" and t.a[1] is NONE and dbop(t.a[0], "tvts", "get")) or not p and dbop(t, "tvts", "get") for t, p in x.facts)], "a credential event is refused")


def threshold_of(t, evt):
    t = unwrap(t)
    if t.k == "call" and t.a[0].k == "g" and t.a[0].a[0] == "int" and len(t.a[1]) == 2 and t.a[1][1] is C(16):
        t = t.a[1][0]
    return t.k == "sub" and t.a[1] is C("bt") and t.a[0].k == "a" and t.a[0].a[1] in ("ked", "sad") and evt(t.a[0].a[0])


def verfers_of(q, t, L):
    """one verifier per element of L, in order"""
    if t is None:
        return False
    s = show(t)
    if t.k == "comp":
        got = q.w.comp_elems.get(t)
        return got is not None and len(got[1]) == 1 and got[1][0][0] is L and not got[1][0][1] and "Verfer(qb64=$0)" in s.replace("qb64b=", "qb64=")
    ap = appended(q, t)
    return ap is not None and len(ap) == 1 and fname(ap[0][0]) == "Verfer" and norm(arg(ap[0][0], None, "qb64", "qb64b")) is q.w.elem_of(L)


@prop("V01")
def v01_rotation(ctx):
    R3, R4 = "V01.rotation", "V01.refuse"
    for qual in ("Tever.rotate", "Tever.incept"):
        q = Q(ctx, VE, qual, TB)
        rot = qual == "Tever.rotate"
        for st, v, node in q.exits():
            where = q.where(node)
            if rot:
                vs = tup(v)
                ctx.need(vs is not None and len(vs) == 4, R3, f"{q.qual}:result", where, "a checked rotation does not yield threshold, backers, cuts and adds")
                if not vs or len(vs) != 4:
                    continue
                toad, baks, cuts, adds = vs
                ctx.need(eq_known(st, lambda a: is_f(a, "i"), lambda b: norm(b) in (q.term("self.prefixer.qb64"), q.term("self.regk"))), R3, f"{q.qual}:this registry", where, "another registry's rotation is accepted")
                ctx.need(q.holds(st, "sn == self.sn + 1"), R3, f"{q.qual}:next", where, "a rotation out of order is accepted")
                ctx.need(chained(st, A(SELF, "serder")), R3, f"{q.qual}:chained", where, "a rotation not chained to the last event is accepted")
                ctx.need(is_f(cuts, "br") and is_f(adds, "ba"), R3, f"{q.qual}:cuts and adds", where, "the cuts and adds are not the event's")
                env = {"B": A(SELF, "baks"), "X": cuts, "Y": adds}
                ctx.need(set_fact(st, cuts), R3, f"{q.qual}:cuts distinct", where, "repeated cuts are accepted")
                ctx.need(set_fact(st, adds), R3, f"{q.qual}:adds distinct", where, "repeated adds are accepted")
                ctx.need(q.holds(st, "(oset(B) & oset(X)) == oset(X) || not (oset(X) - oset(B)) || oset(X) <= oset(B) || set(X) <= set(B) || oset(X).issubset(oset(B)) || oset(X).issubset(B)", env), R3, f"{q.qual}:cuts are backers", where, "a cut of no backer is accepted")
                ctx.need(disjoint(q, st, cuts, adds), R3, f"{q.qual}:cuts not added", where, "a backer both cut and added is accepted")
                ctx.need(disjoint(q, st, A(SELF, "baks"), adds), R3, f"{q.qual}:adds are new", where, "adding a present backer is accepted")
                b = unwrap(baks)
                ctx.need(b in [q.term(z, env) for z in ("(oset(B) - oset(X)) | oset(Y)",)] or list_of(q, baks, env), R3, f"{q.qual}:resulting backers", where, f"the resulting backers are {show(baks)[:80]}")
            else:
                h = lambda a: st.heap.get((SELF, a))
                toad, baks = h("toad"), h("baks")
                ctx.need(h("pre") is not None and is_f(h("pre"), "ii"), R3, f"{q.qual}:controller", where, "the registry's controller is not the one its inception names")
                ctx.need(h("prefixer") is not None and fname(h("prefixer")) == "Prefixer" and is_f(arg(h("prefixer"), None, "qb64", "qb64b"), "i"), R3, f"{q.qual}:identifier", where, "the registry's identifier is not its inception's")
                ctx.need(h("serder") is S, R3, f"{q.qual}:event", where, "the registry's last event is not its inception")
                ctx.need(h("sn") is not None and (h("sn") is C(0) or sn_term(h("sn"))) and (zero_checked(st) or q.holds(st, "n == 0", {"n": h("sn")})), R3, f"{q.qual}:starts at zero", where, "a registry begins at another number than zero")
                ctx.need(baks is not None and is_f(unwrap(baks), "b"), R3, f"{q.qual}:backers", where, "the registry's backers are not those its inception names")
                ctx.need(baks is not None and set_fact(st, unwrap(baks)), R3, f"{q.qual}:distinct backers", where, "repeated backers are accepted")
                if toad is None or baks is None:
                    ctx.bad(R3, f"{q.qual}:threshold", where, "the registry's threshold or backers are not set")
                    continue
            ctx.need(unwrap(toad).k == "call" and len(toad.a[1]) == 2 and is_f(toad.a[1][0], "bt") and toad.a[1][1] is C(16) or norm(toad).k == "a" and fname(norm(toad).a[0]) == "Number", R3, f"{q.qual}:threshold",
                     where, f"the threshold is {show(toad)[:60]}, not the event's")
            env = {"T": toad, "W": baks, "U": unwrap(baks)}
            ctx.need(q.holds(st, "W and T >= 1 and T <= len(W) || not W and T == 0 || len(W) and T >= 1 and T <= len(W) || not len(W) and T == 0 || U and T >= 1 and T <= len(U) || not U and T == 0", env), R3, f"{q.qual}:satisfiable threshold", where, "a threshold that its backers cannot meet, or of zero over backers, is accepted")
        refuses_only(q, R4, [
            lambda x: any(not p and t.k == "eq" and (is_f(t.a[0], "i") or is_f(t.a[1], "i") or is_f(t.a[0], "p") or is_f(t.a[1], "p")) for t, p in x.facts),
            "sn != self.sn + 1",
            lambda x: any(not p and fname(t) == "compare" and recv(t) is A(SELF, "serder") for t, p in x.facts),
            lambda x, q=q: any(not p and t.k == "eq" and any(fname(z) == "len" or z.k == "call" and z.a[0].k == "g" and z.a[0].a[0] == "len" or z.k in ("bin", "add", "sub2") or "len(" in show(z) for z in t.a) for t, p in x.facts),
            lambda x: any(not p and t.k == "eq" and "oset" in show(t) for t, p in x.facts),
            lambda x: any(p and "oset" in show(t) and " & " in show(t) and t.k != "eq" for t, p in x.facts),
            lambda x, q=q: any(bt_bad(q, x, t) for t in terms_of(x) if t.k == "call" and t.a[0].k == "g" and t.a[0].a[0] == "int" and is_f(t.a[1][0], "bt")),
        ], "a registry event is refused")


def zero_checked(x):
    """its number was checked to be that of an inception"""
    return any(fname(t) == "validate" and arg(t, 0, "inceptive") is TRUE and fname(recv(t)) == "Number" and is_f(arg(recv(t), None, "numh"), "s") for t in hist_calls(x))


def set_fact(x, L):
    """L is known to have no repeated element"""
    def ln(t, z):
        return t.k == "call" and t.a[0].k == "g" and t.a[0].a[0] == "len" and z(t.a[1][0])
    isL = lambda t: t is L
    isS = lambda t: t.k == "call" and t.a[0].k == "g" and t.a[0].a[0] in ("set", "oset", "frozenset") and t.a[1] and t.a[1][0] is L or fname(t) in ("set", "oset") and t.a[1] and t.a[1][0] is L
    return eq_known(x, lambda a: ln(a, isL), lambda b: ln(b, isS))


def disjoint(q, x, a, b):
    env = {"A": a, "B": b}
    return q.holds(x, "not (oset(A) & oset(B)) || not (oset(B) & oset(A)) || not (set(A) & set(B)) || not (set(B) & set(A)) || oset(A).isdisjoint(oset(B)) || oset(A).isdisjoint(B) || oset(B).isdisjoint(A) || set(A).isdisjoint(B) || set(B).isdisjoint(A)", env)


def list_of(q, t, env):
    return t in [q.term(z, env) for z in ("list((oset(B) - oset(X)) | oset(Y))", "list((oset(B) | oset(Y)) - oset(X))", "[b for b in B if b not in X] + Y", "[b for b in B if b not in X] + list(Y)")]


def bt_bad(q, x, T):
    return any(q.holds(x, "W and T < 1 || W and T > len(W) || not W and T != 0 || T < 1 || T > len(W)", {"T": T, "W": W})
               for W in [t for t in terms_of(x) if is_f(t, "b") or "oset" in show(t)[:30]] + [A(SELF, "baks")])


@prop("V01")
def v01_log(ctx):
    R1 = "V01.log"
    ctx.rule(R1, "an accepted event is recorded whole: its body, its anchor, its place in its log, its verified backer signatures and its backers", 8)
    R2 = "V01.report"
    ctx.rule(R2, "the reported state of a credential is that of the last event of its log in this registry, and none for a credential of another registry", 10)
    R3 = "V01.restart"
    ctx.rule(R3, "registry state read back from the saved state is the state that was saved", 12)
    q = Q(ctx, VE, "Tever.logEvent", TB - {"dgKey"})
    pre = lambda t: norm(t) is P("pre") or tup(t) is not None and len(tup(t)) == 1 and norm(tup(t)[0]) is P("pre")
    key = lambda t: len(keyparts(t)) == 2 and norm(keyparts(t)[0]) is P("pre") and is_f(keyparts(t)[1], "d")
    n_ = lambda t: norm(t) in (q.term("seqner.sn"),) or norm(t) is P("seqner") or fname(t) == "Number" and norm(arg(t, None, "num", "numh")) in (q.term("seqner.sn"),)
    d_ = lambda t: norm(t) in (q.term("saider.qb64"), P("saider")) or fname(t) in ("Diger", "Saider") and norm(arg(t, None, "qb64", "qb64b")) is q.term("saider.qb64")
    two = lambda t: tup(t) is not None and len(tup(t)) == 2 and n_(tup(t)[0]) and d_(tup(t)[1])
    for st, v, node in q.exits():
        w = q.where(node)
        ctx.need(did(st, "tvts", ("put", "pin"), lambda t: key(arg(t, 0, "keys")) and norm(arg(t, 1, "val")) in (q.term("serder.raw"),)), R1, f"{q.qual}:body", w, "an accepted event's body is not stored")
        ctx.need(did(st, "ancs", ("pin",), lambda t: key(arg(t, 0, "keys")) and two(arg(t, 1, "val"))) or
                 did(st, "ancs", ("put", "add"), lambda t: key(arg(t, 0, "keys")) and two(arg(t, 1, "val"))) and did(st, "ancs", ("rem",), lambda t: key(arg(t, 0, "keys"))),
                 R1, f"{q.qual}:anchor", w, "an accepted event's verified anchor is not stored, or does not replace an unverified one held with it before")
        ctx.need(did(st, "tels", ("put", "pin", "append"), lambda t: pre(arg(t, 0, "keys")) and arg(t, None, "on") is P("sn") and is_f(arg(t, None, "val"), "d")), R1, f"{q.qual}:place", w, "an accepted event gets no place in its log")
        if q.holds(st, "bigers"):
            ctx.need(did(st, "tibs", ("put", "pin"), lambda t: key(arg(t, 0, "keys")) and arg(t, 1, "vals") is P("bigers")), R1, f"{q.qual}:backer signatures", w, "an accepted event's verified backer signatures are not stored")
        else:
            ctx.need(q.holds(st, "not bigers || bigers is None") or did(st, "tibs", ("put", "pin"), lambda t: key(arg(t, 0, "keys")) and arg(t, 1, "vals") is P("bigers")), R1, f"{q.qual}:backer signatures", w, "an accepted event's verified backer signatures are not stored")
        full = lambda t: key(arg(t, 0, "keys")) and all_of(q, arg(t, 1, "vals"), P("baks"))
        ctx.need(q.holds(st, "not baks || baks is None") or did(st, "baks", ("put", "pin"), full), R1, f"{q.qual}:backers", w, "a registry event's backers are not stored")
    for e in q.w.events:
        if e.kind != "call" or recv(e.term) is None or chain(recv(e.term))[-1] not in ("tvts", "ancs", "tels", "tibs", "baks"):
            continue
        nm, store = fname(e.term), chain(recv(e.term))[-1]
        if nm in ("put", "pin", "append", "add"):
            ctx.need((pre if store == "tels" else key)(arg(e.term, 0, "keys")), R1, f"{q.qual}:{store} of this event", q.where(e.node), "something is stored under another event's key")
            if store == "tels":
                ctx.need(nm != "pin", R1, f"{q.qual}:place first taken", q.where(e.node), "an accepted event takes the place of another")
        elif nm in ("rem", "trim", "remAll"):
            ctx.need(store == "baks" and key(arg(e.term, 0, "keys")) or store == "tibs" and key(arg(e.term, 0, "keys")), R1, f"{q.qual}:nothing removed", q.where(e.node), "logging an event removes part of a log")
    # reported credential state
    q = Q(ctx, VE, "Tever.vcState", TB - {"dgKey"} | {"vcstate"}, limit=600)
    logs = lambda t: dbop(t, "tels", "getAllItemIter", "getAllIter", "getAll", "getIter", "get") and norm(arg(t, 0, "keys")) is P("vci")

    def digs(L):
        """the digests of the credential's log in order"""
        return L is not None and (L.k == "comp" and any(logs(s) for s in subterms(L)) and show(L).startswith(("list[$0[2]", "list[$0 ")) and (got := q.w.comp_elems.get(L)) is not None and
                                  len(got[1]) == 1 and not got[1][0][1] or dbop(L, "tels", "getAllIter", "getAll") and logs(L) or
                                  L.k == "new" and (ap := appended(q, L)) is not None and len(ap) == 1 and not ap[0][1].facts - frozenset(()) and any(logs(s) for s in subterms(ap[0][0])))

    def last(t):
        t = norm(t)
        if t is None:
            return False
        return t.k == "sub" and t.a[1] is C(-1) and digs(unwrap(t.a[0])) or dbop(t, "tels", "getLast") and norm(arg(t, 0, "keys")) is P("vci")

    def lastevt(E):
        return stored_at(E, lambda k: k is P("vci"), last) is not None
    for st, v, node in q.exits():
        w = q.where(node)
        Es = [t for t in list(terms_of(st)) + hist_calls(st) if lastevt(t)]
        if v is NONE:
            other = any(not p and t.k == "eq" and any(fname(z) == "registryKey" and arg(z, 0, "serder") in Es for z in t.a) for t, p in st.facts)
            none = any(not p and (digs(unwrap(t)) or t.k == "eq") and not any(fname(z) == "registryKey" for z in subterms(t)) for t, p in st.facts) or any(
                p and (t.k == "is" and t.a[1] is NONE or t.k == "eq" and any(z is C(0) for z in t.a)) for t, p in st.facts)
            ctx.need(other or none, R2, f"{q.qual}:none only without events here", w, "a credential of this registry has no state")
            continue
        f = lambda k, *n: arg(v, None, k, *n)
        ctx.need(any(eq_known(st, lambda a, E=E: fname(a) == "registryKey" and arg(a, 0, "serder") is E, lambda b: norm(b) in (q.term("self.prefixer.qb64"), q.term("self.regk"))) for E in Es), R2,
                 f"{q.qual}:of this registry", w, "the state of another registry's credential is reported as of this one")
        ctx.need(fname(v) == "vcstate" and norm(f("vcpre")) is P("vci"), R2, f"{q.qual}:credential", w, "the reported state names another credential")
        if fname(v) != "vcstate":
            continue
        ctx.need(last(f("said")), R2, f"{q.qual}:last event", w, "the reported digest is not that of the credential's last event")
        ctx.need(norm(f("ri")) in (q.term("self.prefixer.qb64"), q.term("self.regk")), R2, f"{q.qual}:registry", w, "the reported state names another registry")
        n = norm(f("sn"))
        ctx.need(n is not None and any(n is q.term(z, {"D": t}) for t in subterms(n) if digs(t)  for z in ("len(D) - 1",)) or n is not None and (fname(n) == "vcSn" or n.k == "a" and n.a[1] == "sn" and n.a[0] in Es), R2,
                 f"{q.qual}:number", w, "the reported number is not that of the last event")
        ctx.need(any(norm(f("dts")) is norm(q.w.mksub(A(E, a), C("dt"))) for E in Es for a in ("ked", "sad")), R2, f"{q.qual}:date", w, "the reported date is not that of the last event")
        et = f("eilk", "et")
        iss = et in (C("iss"), C("bis"))
        one = any(q.holds(st, "len(D) == 1", {"D": t}) for t in terms_of(st) if digs(t))
        more = any(q.holds(st, "len(D) != 1 || len(D) > 1", {"D": t}) for t in terms_of(st) if digs(t))
        ctx.need(et is not None and (any(is_f(et, "t", E) for E in Es) or et.k == "c" and (one if iss else more)), R2, f"{q.qual}:issued or revoked", w, "a credential is reported issued or revoked against its log")
        if et is not None and et.k == "c":
            nb = q.holds(st, "self.noBackers")
            ctx.need(et.a[0] in (("iss", "rev") if nb else ("bis", "brv")), R2, f"{q.qual}:type", w, "the reported type does not fit the registry")
        a = f("a")
        ctx.need(anchor_of(q, a, st, lambda k: len(k) == 2 and k[0] is P("vci") and last(k[1])), R2, f"{q.qual}:anchor", w, "the reported anchor is not that of the last event")
    v01_restart(ctx, R3)


def all_of(q, t, L):
    """t is a list of every element of L, converted or not"""
    if t is None:
        return False
    t = unwrap(t)
    if t is L:
        return True
    got = q.w.comp_elems.get(t) if t.k == "comp" else None
    return got is not None and len(got[1]) == 1 and got[1][0][0] is L and not got[1][0][1]


def anchor_of(q, a, st, ok):
    if a is None or a.k not in ("new", "call"):
        return False
    reads = [t for t in subterms(a) if dbop(t, "ancs", "get")] if a.k == "call" else []
    if a.k == "new" and a.a[0] == "dict":
        d = {k.a[0]: v for k, v in a.a[2] if k.k == "c"}
    else:
        p = call_parts(a)
        d = dict(p[2]) if p is not None else {}
    if set(d) != {"s", "d"}:
        return False
    r = [t for v in d.values() for t in subterms(v) if dbop(t, "ancs", "get")]
    if not r or any(not ok(keyparts(arg(t, 0, "keys"))) for t in r):
        return False
    s, g = norm(d["s"]), norm(d["d"])
    pos = lambda t, i: any(z.k == "sub" and z.a[1] is C(i) and z.a[0] in r for z in subterms(t))
    return pos(s, 0) and not pos(s, 1) and pos(g, 1) and not pos(g, 0)


def v01_restart(ctx, R):
    q = Q(ctx, VE, "state", TB - {"state"}, limit=400)
    SRC = {"i": "ri", "d": "said", "ii": "pre", "et": "eilk", "b": "wits"}
    hexed = lambda t, p: t is not None and p in subterms(t) and t is not p
    for st, v, node in q.exits():
        w = q.where(node)
        ctx.need(fname(v) == "RegStateRecord", R, f"{q.qual}:record", w, "registry state is saved as something else than its record")
        for k, p in SRC.items():
            got = arg(v, None, k)
            ok = got is not None and (norm(got) is P(p) or p == "wits" and (unwrap(got) is P(p) or q.holds(st, "wits is None || not wits")))
            ctx.need(ok, R, f"{q.qual}:{k}", w, f"the saved {k} is {show(got)[:60] if got is not None else 'missing'}")
        for k, p in (("s", "sn"), ("bt", "toad")):
            got = arg(v, None, k)
            ctx.need(got is not None and (P(p) in subterms(got) or p == "toad" and q.holds(st, "toad is None")) and ":x" in show(got) + ":x" * (fname(got) in ("hex",)), R, f"{q.qual}:{k}", w,
                     f"the saved {k} is not the given number in hex")
        got = arg(v, None, "c")
        ctx.need(got is not None and (got is P("cnfg") or q.holds(st, "cnfg is None")), R, f"{q.qual}:c", w, "the saved configuration is not the given one")
    q = Q(ctx, VE, "Tever.state", TB)
    for st, v, node in q.exits():
        w = q.where(node)
        for k, a in (("pre", ("self.pre",)), ("said", ("self.serder.said",)), ("sn", ("self.sn",)), ("ri", ("self.regk", "self.prefixer.qb64")), ("eilk", ("self.ilk",)), ("toad", ("self.toad",)), ("wits", ("self.baks",))):
            got = arg(v, None, k)
            ctx.need(fname(v) == "state" and got is not None and norm(got) in [q.term(x) for x in a], R, f"{q.qual}:{k}", w, f"the saved state's {k} is {show(got)[:60] if got is not None else 'missing'}")
        c = arg(v, None, "cnfg")
        ap = appended(q, c) if c is not None else None
        nb = ap is not None and any(t is C("NB") and q.holds(e, "self.noBackers") for t, e in ap)
        ctx.need(nb and all(t is not C("NB") or q.holds(e, "self.noBackers") for t, e in ap), R, f"{q.qual}:no backers", w, "the saved state does not say whether the registry has backers")
    q = Q(ctx, VE, "Tever.reload", TB, limit=400)
    rec = lambda t, k: t is not None and (norm(t) is A(P("rsr"), k) or norm(t).k == "sub" and norm(t).a[1] is C(k) and fname(norm(t).a[0]) in ("asdict", "_asdict") and (P("rsr") in norm(t).a[0].a[1] or recv(norm(t).a[0]) is P("rsr")))
    num = lambda t, k: t is not None and (t.k == "call" and t.a[0].k == "g" and t.a[0].a[0] == "int" and len(t.a[1]) == 2 and t.a[1][1] is C(16) and rec(t.a[1][0], k) or
                                          t.k == "a" and t.a[1] in ("sn", "num") and fname(t.a[0]) == "Number" and rec(arg(t.a[0], None, "numh"), k))
    for st, v, node in q.exits():
        w = q.where(node)
        h = lambda a: st.heap.get((SELF, a))
        for a, ok in (("pre", lambda t: rec(t, "ii")), ("regk", lambda t: rec(t, "i")), ("sn", lambda t: num(t, "s")), ("ilk", lambda t: rec(t, "et")), ("toad", lambda t: num(t, "bt")),
                      ("baks", lambda t: rec(unwrap(t), "b")), ("prefixer", lambda t: fname(t) == "Prefixer" and rec(arg(t, None, "qb64", "qb64b"), "i"))):
            got = h(a)
            ctx.need(got is not None and ok(got), R, f"{q.qual}:{a}", w, f"the restored {a} is {show(got)[:60] if got is not None else 'missing'}")
        got = h("serder")
        ctx.need(got is not None and stored_at(got, lambda k: rec(k, "i") , lambda k: rec(k, "d")) is not None, R, f"{q.qual}:serder", w, "the restored last event is not the one the saved state names")
        nb = h("noBackers")
        has = [t for t in terms_of(st) if t.k == "in" and t.a[0] is C("NB") and rec(t.a[1], "c")]
        ctx.need(nb is not None and (nb is TRUE and any((t, True) in st.facts for t in has) or nb is FALSE and any((t, False) in st.facts for t in has) or nb.k == "in" and nb.a[0] is C("NB") and rec(nb.a[1], "c")), R,
                 f"{q.qual}:no backers", w, "whether the registry has backers is not restored")
    q = Q(ctx, VE, "rbdict.__setitem__", TB)
    for st, v, node in q.exits():
        ctx.need(any(fname(t) == "pin" and chain(recv(t))[-1] == "states" and norm(arg(t, 0, "keys")) is P("key") and fname(arg(t, 1, "val")) == "state" and recv(arg(t, 1, "val")) is P("item") for t in hist_calls(st)), R,
                 f"{q.qual}:saved", q.where(node), "the state of a new registry is not saved under its key")
    q = Q(ctx, VE, "rbdict.__getitem__", TB)
    got = q.calls("Tever")
    require(q, R, "read back", got, [("the saved state of the asked registry", lambda e: fname(arg(e.term, None, "rsr")) == "get" and chain(recv(arg(e.term, None, "rsr")))[-1] == "states" and norm(arg(arg(e.term, None, "rsr"), 0, "keys")) is P("k")),
                                     ("same databases", lambda e: arg(e.term, None, "reger") is q.term("self.reger") and arg(e.term, None, "db") is q.term("self.db"))], "registry state read back", 1)
    # configuration of an inception
    q = Q(ctx, VE, "Tever.config", TB)
    for st, v, node in q.exits():
        got = st.heap.get((SELF, "noBackers"))
        nbs = [p for t, p in st.facts if t.k == "in" and t.a[0] is C("NB") and is_f(t.a[1], "c")]
        if True in nbs:
            ctx.need(got is TRUE, R, f"{q.qual}:no backers", q.where(node), "a registry configured without backers is taken to have them")
        elif got is FALSE:
            ctx.need(False in nbs, R, f"{q.qual}:backers", q.where(node), "a registry is taken to have backers without its configuration being read")
        else:
            ctx.need(got is not None and q.holds(st, "noBackers || noBackers is None || self.NoRegistrarBackers") or got is not None and got.k == "in", R, f"{q.qual}:backers", q.where(node), "a registry configured with backers is taken to have none")
