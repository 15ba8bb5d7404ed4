"""Credential verification: what is saved as verified, its chain, its escrows and its schema."""
from . import prop
from .corelib import *
from .kel import before
from .rct import norm, same, keyparts
from .esc import hist_calls, comps, caught, could_be
from .tel import eq_known

VF = "src/keri/vdr/verifying.py"
VE = "src/keri/vdr/eventing.py"
SC = "src/keri/core/scheming.py"
CB = {"vcState", "verifyChain", "resolve", "verify", "saveCredential", "escrowMRE", "escrowMCE", "escrowMSE", "processCredential", "iseaid", "israid", "regid", "said", "schema", "edge",
      "fromIso8601", "nowUTC", "logCred", "cloneCred", "attrib", "aggreg", "Schemer"}
CR = P("creder")
SELF = P("self")
PARTS = ("creder", "prefixer", "seqner", "saider")
SKIP = {C("d"), C("o"), C("u"), C("w")}


def expired_not(q, x, state):
    """the date of the state lies within the credential lifetime"""
    for t, p in x.facts:
        if t.k not in ("lt", "le", "gt", "ge"):
            continue
        s = set(subterms(t))
        ds = [z for z in s if fname(z) in ("fromIso8601",) and arg(z, 0, "dts") is A(state, "dt")]
        now = [z for z in s if fname(z) in ("nowUTC", "now", "utcnow")]
        lim = [z for z in s if z.k == "a" and z.a[1] == "CredentialExpiry"]
        if ds and now and lim:
            v = {"d": ds[0], "n": now[0], "L": lim[0]}
            if any(q.holds(x, c, v) for c in ("n - d <= datetime.timedelta(seconds=L)", "n - d < datetime.timedelta(seconds=L)", "n <= d + datetime.timedelta(seconds=L)",
                                              "(n - d).total_seconds() <= L", "n - datetime.timedelta(seconds=L) <= d")):
                return True
    return False


def expired(q, x, state):
    for t, p in x.facts:
        if t.k not in ("lt", "le", "gt", "ge"):
            continue
        s = set(subterms(t))
        ds = [z for z in s if fname(z) in ("fromIso8601",) and arg(z, 0, "dts") is A(state, "dt")]
        now = [z for z in s if fname(z) in ("nowUTC", "now", "utcnow")]
        lim = [z for z in s if z.k == "a" and z.a[1] == "CredentialExpiry"]
        if ds and now and lim:
            v = {"d": ds[0], "n": now[0], "L": lim[0]}
            if any(q.holds(x, c, v) for c in ("n - d > datetime.timedelta(seconds=L)", "n - d >= datetime.timedelta(seconds=L)", "n > d + datetime.timedelta(seconds=L)",
                                              "(n - d).total_seconds() > L", "n - datetime.timedelta(seconds=L) > d")):
                return True
    return False


def conforms(q, x, schema, subject):
    """the subject was validated against the schema resolved for this identifier"""
    for h in hist_calls(x):
        if fname(h) == "verify" and arg(h, 0, "raw") is A(subject, "raw") and fname(recv(h)) == "Schemer":
            r = arg(recv(h), None, "raw") or arg(recv(h), 0)
            if r is not None and fname(r) == "resolve" and arg(r, 0, "uri") is schema and q.holds(x, "r", {"r": r}):
                v = arg(recv(h), None, "verify")
                if v is None or v is C(True):
                    return True
    return False


def edge_groups(q, x, L):
    """L iterates whole edge blocks of the credential"""
    E = A(CR, "edge")
    if L is E:
        return q.holds(x, "isinstance(creder.edge, list) || isinstance(creder.edge, (list, tuple))")
    got = appended(q, L)
    if got is not None and len(got) == 1 and got[0][0] is E:
        return True
    if got is not None and len(got) == 1 and got[0][0].k == "new" and not got[0][0].a[2]:
        return q.holds(x, "creder.edge is None || not creder.edge")
    return False


def block_of(t):
    """the edge block whose items are gone through"""
    if fname(t) == "items":
        return recv(t)
    return t


@prop("V03")
def v03_saved(ctx):
    R1 = "V03.saved"
    ctx.rule(R1, "a credential is saved only when its registry is known and controlled by its issuer, its issuance there is known and not out of date, it conforms to its schema, and all of its edges were verified", 6)
    R2 = "V03.edge"
    ctx.rule(R2, "an edge counts as verified only when its far credential was judged under the edge's operator against this credential's own issuer and issuee, and is neither out of date, nor revoked, nor against the edge's schema", 8)
    R3 = "V03.outcome"
    ctx.rule(R3, "an arriving credential ends saved, held for exactly what is missing, or refused with an error where something established makes it invalid", 10)
    q = Q(ctx, VF, "Verifier.processCredential", CB - {"processCredential"}, limit=4000)
    TV = q.term("self.tevers[creder.regid]")
    VS = next((t for e in q.w.events for t in [e.term] if e.kind == "call" and fname(t) == "vcState" and recv(t) is TV and norm(arg(t, 0, "vci")) is A(CR, "said")), None)
    ctx.need(VS is not None, R1, f"{q.qual}:issuance", q.where(), "the credential's issuance is not looked up in its own registry")
    if VS is None:
        return
    saves = q.calls("saveCredential")
    ends = [e for e in q.w.events if e.kind == "bodyend"]
    groups = {}      # block -> its loops' terms
    for e in ends:
        B = block_of(e.term)
        groups.setdefault(B, e.term)
    E = A(CR, "edge")

    def real(x):
        """edge blocks that exist on this path"""
        return [h.a[0] for h in x.hist if h.k == "looped"]

    def all_edges(x):
        if q.holds(x, "creder.edge is None || not creder.edge"):
            return True
        for L in real(x):
            if block_of(L) is E and not q.holds(x, "isinstance(creder.edge, list)") or edge_groups(q, x, L):
                return True
        return False
    require(q, R1, "credential saved", saves, [
        ("registry known", lambda e: q.holds(e, "creder.regid in self.tevers || self.tevers.get(creder.regid) is not None")),
        ("issuer controls the registry", "creder.israid == self.tevers[creder.regid].pre"),
        ("issued there", lambda e: q.holds(e, "v is not None", {"v": VS}) or q.holds(e, "v", {"v": VS})),
        ("issuance not out of date", lambda e: expired_not(q, e, VS)),
        ("conforms to its schema", lambda e: conforms(q, e, A(CR, "schema"), CR)),
        ("every edge verified", all_edges),
        ("this credential with its anchor", lambda e: all(arg(e.term, i, n) is P(n) for i, n in enumerate(PARTS))),
    ], "a credential is saved as verified")
    for st, v, nd in q.exits():
        ctx.need(any(fname(h) == "saveCredential" for h in hist_calls(st)), R3, f"{q.qual}:saved at the end", q.where(nd), "a verified credential is not saved")
    inner, outer = [], []
    for e in ends:
        T_ = e.term
        B = block_of(T_)
        is_block = B is E or B.k == "elem" or fname(T_) == "items"
        (inner if is_block and (fname(T_) == "items" or any(fname(h) == "verifyChain" for h in hist_calls(e)) and not any(h.k == "looped" for h in e.hist)) else outer).append(e)
    ctx.need(bool(inner), R2, f"{q.qual}:edges", q.where(), "the edges of a credential are not gone through")
    for e in outer:
        blk = q.w.elem_of(e.term)
        ctx.need(any(block_of(h.a[0]) is blk for h in e.hist if h.k == "looped"), R2, f"{q.qual}:whole block", q.where(e.node), "a block of edges is left without going through all of it")
    for e in q.w.events:
        if e.kind == "break":
            ctx.bad(R2, f"{q.qual}:all edges", q.where(e.node), "the edges after one are not looked at")

    def far_of(x, node):
        V = next((h for h in hist_calls(x) if fname(h) == "verifyChain" and norm(arg(h, 0, "nodeSaid")) is q.w.mksub(node, C("n"))), None)
        return V
    for e in inner:
        B = block_of(e.term)
        lbl, node = q.w.elem_of(B), q.w.mksub(B, q.w.elem_of(B))
        w = q.where(e.node)
        if any(p and t.k == "in" and t.a[0] is lbl and set(c for c in (tup(t.a[1]) or (t.a[1].a[0] if t.a[1].k == "set" else ())) ) <= SKIP and t.a[1].k in ("tup", "set", "list") or
               p and t.k == "eq" and lbl in t.a and any(z in SKIP for z in t.a) for t, p in e.facts):
            ctx.ok(R2, f"{q.qual}:reserved label")
            continue
        V = far_of(e, node)
        ctx.need(V is not None, R2, f"{q.qual}:judged", w, "an edge is passed over without judging its far credential")
        if V is None:
            continue
        n = lambda *ks: [q.w.mksub(node, C(k)) for k in ks]
        op = arg(V, 1, "op")
        got = comps(op) if op is not None else set()
        getop = lambda z: z in n("o") or fname(z) == "get" and recv(z) is node and z.a[1] and z.a[1][0] is C("o")
        okop = got and all(getop(z) or z is NONE and q.holds(e, "'o' not in n", {"n": node}) for z in got) or got and any(getop(z) for z in got) and all(getop(z) or z is NONE for z in got) and op.k in ("phi", "cond")
        ctx.need(okop, R2, f"{q.qual}:operator", w, "an edge is judged under another operator than its own")
        ctx.need(arg(V, 2, "issuer") is A(CR, "israid"), R2, f"{q.qual}:issuer", w, "an edge is judged against another issuer than the credential's")
        ctx.need(arg(V, 3, "issuee") is A(CR, "iseaid"), R2, f"{q.qual}:issuee", w, "an edge is judged against another issuee than the credential's")
        ctx.need(q.holds(e, "v is not None", {"v": V}) or q.holds(e, "v", {"v": V}), R2, f"{q.qual}:verified", w, "an edge counts as verified though its far credential is not")
        ctx.need(expired_not(q, e, V), R2, f"{q.qual}:not out of date", w, "an edge counts as verified though its far credential's state is out of date")
        et = [A(V, "et"), A(V, "eilk")]
        live = any(q.holds(e, "t not in ('rev', 'brv') || t in ('iss', 'bis')", {"t": z}) or q.holds(e, "t != 'rev'", {"t": z}) and q.holds(e, "t != 'brv'", {"t": z}) for z in et)
        ctx.need(live, R2, f"{q.qual}:not revoked", w, "an edge counts as verified though its far credential is revoked")
        s = n("s")[0]
        svals = {s} | {t for t in terms_of(e) if fname(t) == "get" and recv(t) is node and t.a[1] and t.a[1][0] is C("s")}
        far = [t for t in terms_of(e) if dbop(t, "creds", "get") and norm(arg(t, 0, "keys")) is n("n")[0]]
        def fits(z):
            if q.holds(e, "'s' not in n", {"n": node}) or q.holds(e, "z is None", {"z": z}) or q.holds(e, "not z", {"z": z}):
                return True
            return any(q.holds(e, "f.schema == z", {"f": f, "z": z}) or conforms(q, e, z, f) for f in far)
        ctx.need(any(fits(z) for z in svals), R2, f"{q.qual}:edge schema", w, "an edge counts as verified though its far credential was not held to the edge's schema")
    # outcomes
    HELD = {"MissingRegistryError": ("escrowMRE",), "MissingSchemaError": ("escrowMSE",), "MissingChainError": ("escrowMCE",)}

    def miss(e, nm):
        if nm == "MissingRegistryError":
            return q.holds(e, "creder.regid not in self.tevers") or q.holds(e, "v is None", {"v": VS}) or q.holds(e, "not v", {"v": VS}) or expired(q, e, VS)
        if nm == "MissingSchemaError":
            return any(fname(t) == "resolve" and q.holds(e, "not r", {"r": t}) for t in terms_of(e))
        vs = [h for h in hist_calls(e) if fname(h) == "verifyChain"]
        return any(q.holds(e, "v is None", {"v": v}) or q.holds(e, "not v", {"v": v}) or expired(q, e, v) for v in vs) or any(
            could_be(ctx, m_, "ValidationError", e) for m_ in caught(e))
    n = 0
    for e in q.w.events:
        if e.kind != "raise":
            continue
        nm = exc_name(e.term) if e.term is not None and exc_name(e.term) else exc_name(e.value) if e.value is not None else None
        n += 1
        w = q.where(e.node)
        if nm in HELD:
            put = HELD[nm]
            ctx.need(any(fname(h) in put and all(arg(h, i, k) is P(k) for i, k in enumerate(PARTS)) for h in hist_calls(e)), R3, f"{q.qual}:held:{nm}", w,
                     "a credential that lacks something is neither held whole nor refused")
            ctx.need(miss(e, nm), R3, f"{q.qual}:lacks something:{nm}", w, "a credential is held though nothing established is missing")
        elif nm is not None and ctx.model.exc_is(nm, "ValidationError"):
            vs = [h for h in hist_calls(e) if fname(h) == "verifyChain"]
            ok = q.holds(e, "creder.israid != self.tevers[creder.regid].pre") or bool(caught(e)) or \
                any(q.holds(e, "v.et in ('rev', 'brv')", {"v": v}) for v in vs) or \
                q.holds(e, "not isinstance(creder.edge, list)") and q.holds(e, "not isinstance(creder.edge, dict)")
            ctx.need(ok, R3, f"{q.qual}:refused with a reason:{nm}", w, "a credential is refused though nothing established makes it invalid")
    ctx.need(n > 0, R3, f"{q.qual}:refusals", q.where(), "nothing is ever refused")
    for nm in ("escrowMRE", "escrowMSE", "escrowMCE"):
        ctx.need(bool(q.calls(nm)), R3, f"{q.qual}:{nm}", q.where(), "a credential that lacks something is never held")
    q = Q(ctx, VF, "Verifier.processACDC", CB)
    c = q.calls("processCredential")
    ctx.need(bool(c), R3, f"{q.qual}:judged", q.where(), "an arriving credential is not judged")
    given = (q.term("kwa['serder']"), q.term("kwa.pop('serder')"), q.term("kwa.get('serder')"), P("serder"))
    same_ = lambda z: z in given or z is not None and z.k == "fresh" and z.a[0] in given
    for e in c:
        cr = arg(e.term, 0, "creder")
        star = P("kwa") in e.term.a[1] or any(isinstance(z, tuple) and len(z) == 2 and z[1] is P("kwa") for z in e.term.a[2]) or "**=kwa" in show(e.term)
        put = any(h.k == "setitem" and h.a[0] is q.term("kwa['creder']") and same_(h.a[1]) for h in e.hist)
        parts = all(arg(e.term, i, n) in (q.term(f"kwa['{n}']"), P(n)) for i, n in enumerate(PARTS) if i)
        ctx.need(cr is not None and same_(cr) and (star or parts) or cr is None and star and put, R3, f"{q.qual}:judged whole", q.where(e.node), "another credential than the one that arrived is judged, or without its anchor")


@prop("V03")
def v03_chain(ctx):
    R = "V03.chain"
    ctx.rule(R, "a far credential satisfies an edge only if it is saved as verified, its registry is known, and every operator of the edge (by default the targeted one unless the far credential shows it has no issuee) holds", 20)
    q = Q(ctx, VF, "Verifier.verifyChain", CB - {"verifyChain"}, limit=3000)
    FAR = q.term("self.reger.creds.get(keys=nodeSaid)")
    FI = A(FAR, "iseaid")
    n = 0

    def filt(t, names):
        """t keeps exactly the members of one of these operator sets"""
        got = q.w.comp_elems.get(t)
        if got is None:
            return None
        val, gens = got
        if len(gens) != 1:
            return None
        it, cl = gens[0]
        el = q.w.elem_of(it)
        if val is not el or len(cl) != 1:
            return None
        f, p = next(iter(cl))
        if not p or f.k != "in" or f.a[0] is not el or f.a[1].k != "a" and f.a[1].k != "tup" or f.a[1].k == "a" and f.a[1].a[1] not in names:
            return None
        return it

    def opsets(x):
        """recognised operators of the edge: a filter of the given operator or list of them"""
        out = []
        for t in terms_of(x):
            if t.k != "comp":
                continue
            it = filt(t, ("UnaryOps",))
            if it is None:
                continue
            if it is P("op"):
                if q.holds(x, "isinstance(op, (list, tuple)) || isinstance(op, list)"):
                    out.append(t)
            else:
                g = appended(q, it)
                if g is not None and len(g) == 1 and g[0][0] is P("op"):
                    out.append(t)
        return out
    for st, v, nd in q.exits():
        if v is NONE or v is None:
            O = (opsets(st) or [None])[0]
            env = {"F": FAR, "I": FI}
            if O is not None:
                env["O"] = O
            why = q.holds(st, "self.reger.saved.get(keys=nodeSaid) is None || F is None || F.regid not in self.tevers || self.tevers[F.regid].vcState(vci=nodeSaid) is None || not self.tevers[F.regid].vcState(vci=nodeSaid)", env)
            if not why and O is not None:
                neq = lambda a: q.holds(st, "I is None or %s != I%s" % (a, " or issuee is None" if a == "issuee" else ""), env)
                unk = q.holds(st, "self.reger.subjs.get(keys=I) is None || not self.reger.subjs.get(keys=I)", env)
                last = [t for t in terms_of(st) if latest(q, t, O, filt)]
                ii = any(q.holds(st, "o == 'I2I'", {"o": t}) or q.holds(st, "o is not None", {"o": t}) and q.holds(st, "o != 'NI2I'", {"o": t}) for t in last)
                why = q.holds(st, "'E1E' in O", env) and neq("issuee") or (ii or q.holds(st, "not O", env)) and (neq("issuer") or unk)
            ctx.need(why, R, f"{q.qual}:refused with a reason", q.where(nd), "a far credential counts as unverified though nothing established is missing or against the edge's operators")
            continue
        n += 1
        w = q.where(nd)
        if v.k == "c":
            ctx.bad(R, f"{q.qual}:state", w, "an edge is judged without its far credential's state")
            continue
        ctx.need(fname(v) == "vcState" and norm(arg(v, 0, "vci")) is P("nodeSaid") and recv(v) is q.term("self.tevers[F.regid]", {"F": FAR}), R, f"{q.qual}:state", w,
                 "the state given is not that of the far credential in its own registry")
        ctx.need(q.holds(st, "self.reger.saved.get(keys=nodeSaid) is not None || self.reger.saved.get(nodeSaid) is not None"), R, f"{q.qual}:saved", w, "a far credential counts though it was not saved as verified")
        ops = opsets(st)
        ctx.need(bool(ops), R, f"{q.qual}:operators", w, "the operators of the edge are not looked at")
        if not ops:
            continue
        O = ops[0]
        ctx.need(q.holds(st, "'NOT' not in O || not O", {"O": O}), R, f"{q.qual}:NOT", w, "an edge under an operator that is not implemented counts as satisfied")
        ctx.need(q.holds(st, "'E1E' not in O || not O", {"O": O}) or q.holds(st, "issuee == F", {"F": FI}) and (q.holds(st, "issuee is not None") or q.holds(st, "F is not None", {"F": FI})), R, f"{q.qual}:E1E", w,
                 "an edge requiring the same issuee counts as satisfied without it")
        eq = q.holds(st, "issuer == F", {"F": FI}) and q.holds(st, "F is not None", {"F": FI})
        empty = q.holds(st, "not O", {"O": O})
        if empty or not q.holds(st, "O", {"O": O}):
            hid = q.holds(st, "F is None", {"F": FI}) and q.holds(st, "not isinstance(F.attrib, str)", {"F": FAR}) and q.holds(st, "not isinstance(F.aggreg, str) or not F.aggreg", {"F": FAR}) and q.holds(
                st, "not F.aggreg or F.aggreg is None or isinstance(F.aggreg, str) or not isinstance(F.aggreg, list) or not isinstance(F.aggreg, (list, tuple)) or not len(F.aggreg) > 1 or not isinstance(F.aggreg[1], str)", {"F": FAR})
            dis = q.holds(st, "isinstance(F.attrib, dict)", {"F": FAR}) and q.holds(st, "F is None", {"F": FI})
            ctx.need(eq or hid or dis, R, f"{q.qual}:by default", w, "an edge without an operator to a far credential with an issuee, or whose issuee is not shown, counts as satisfied by another issuer")
        if not empty:
            last = [t for t in terms_of(st) if latest(q, t, O, filt)]
            notI = [t for t in last if q.holds(st, "o != 'I2I'", {"o": t}) or q.holds(st, "o == 'NI2I'", {"o": t}) or q.holds(st, "o is None", {"o": t})]
            ctx.need(eq or bool(notI) or q.holds(st, "'I2I' not in O", {"O": O}) or any(q.holds(st, "o != 'I2I' or issuer == F", {"o": t, "F": FI}) for t in last), R, f"{q.qual}:I2I", w,
                     "an edge that requires the issuer to be the far credential's issuee counts as satisfied without it")
            ctx.need(any(q.holds(st, "o != 'DI2I'", {"o": t}) or q.holds(st, "o is None", {"o": t}) or q.holds(st, "o == 'NI2I' || o == 'I2I'", {"o": t}) for t in last) or q.holds(st, "'DI2I' not in O", {"O": O}), R, f"{q.qual}:DI2I", w,
                     "an edge under an operator that is not implemented counts as satisfied")
    ctx.need(n > 0, R, f"{q.qual}:satisfiable", q.where(), "no edge is ever satisfied")
    for c, want in (("UnaryOps", {"I2I", "NI2I", "DI2I", "E1E", "NOT"}), ("DelegativeOps", {"I2I", "NI2I", "DI2I"})):
        t = q.term(f"self.{c}")
        got = const_of(ctx, c)
        ctx.need(got == want, R, f"Verifier.{c}", q.where(), f"the operators recognised are {sorted(got) if got else got}")


def const_of(ctx, name):
    import ast
    for c in ast.walk(ctx.model.mod(VF).tree):
        if isinstance(c, ast.ClassDef) and c.name == "Verifier":
            for s in c.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    try:
                        return set(ast.literal_eval(s.value))
                    except ValueError:
                        return None
    return None


def latest(q, t, O, filt):
    """t is the last of the delegative operators of O, if any"""
    u = t.a[0] if t.k == "fresh" else t
    if fname(u) == "next" and u.a[1]:
        it = filt(u.a[1][0], ("DelegativeOps",))
        return it is not None and fname(it) == "reversed" and it.a[1][0] is O
    if t.k == "sub" and t.a[1] is C(-1):
        return filt(t.a[0], ("DelegativeOps",)) is O
    return False


@prop("V03")
def v03_escrow(ctx):
    R = "V03.escrow"
    ctx.rule(R, "a held credential is held whole, retried whole, and leaves its escrow exactly when saved, refused for good, or held too long", 20)
    for fn, store in (("escrowMRE", "mre"), ("escrowMCE", "mce"), ("escrowMSE", "mse")):
        q = Q(ctx, VF, f"Verifier.{fn}", CB - {fn})
        for st, v, nd in q.exits():
            w = q.where(nd)
            ctx.need(any(fname(h) == "logCred" and all(arg(h, i, *ns) is P(n) for i, (n, ns) in enumerate(zip(PARTS, (("creder",), ("prefixer",), ("number", "seqner"), ("diger", "saider"))))) for h in hist_calls(st)),
                     R, f"{q.qual}:whole", w, "a credential is held without its body or its anchor")
            ctx.need(did(st, store, ("put",), lambda t: norm(arg(t, 0, "keys")) is A(CR, "said") and fname(arg(t, 1, "val")) == "Dater" and not arg(t, 1, "val").a[1]), R, f"{q.qual}:held", w,
                     "a credential that waits is not held from the time it first came")
    q = Q(ctx, VE, "Reger.logCred", CB - {"logCred"})
    for st, v, nd in q.exits():
        w = q.where(nd)
        key = lambda t: norm(arg(t, 0, "keys")) is A(CR, "said")
        ctx.need(did(st, "creds", ("put", "pin"), lambda t: key(t) and arg(t, 1, "val") is CR), R, f"{q.qual}:body", w, "a credential's body is not stored")
        ctx.need(did(st, "cancs", ("put", "pin"), lambda t: key(t) and tup_of(q, arg(t, 1, "val")) == [P("prefixer"), P("number"), P("diger")]), R, f"{q.qual}:anchor", w, "a credential's anchor is not stored")
    q = Q(ctx, VE, "Reger.cloneCred", CB - {"cloneCred"})
    one = lambda t: norm(t) is P("said") or tup(t) is not None and len(tup(t)) == 1 and norm(tup(t)[0]) is P("said")
    for st, v, nd in q.exits():
        got = tup(v) if v is not None else None
        ok = got is not None and len(got) == 4 and dbop(got[0], "creds", "get") and one(arg(got[0], 0, "keys")) and all(
            got[i].k == "sub" and got[i].a[1] is C(i - 1) and dbop(got[i].a[0], "cancs", "get") and one(arg(got[i].a[0], 0, "keys")) for i in (1, 2, 3))
        ctx.need(ok, R, f"{q.qual}:read back", q.where(nd), "what is read back of a held credential is not what was held")
    q = Q(ctx, VF, "Verifier._processEscrow", CB)
    ends = [e for e in q.w.events if e.kind == "bodyend" and recv(e.term) is P("db") and fname(e.term) in ("getTopItemIter", "getItemIter", "getFullItemIter", "getAllItemIter")]
    ctx.need(bool(ends), R, f"{q.qual}:all of it", q.where(), "what is held is not gone through")
    I = q.w.elem_of(ends[0].term) if ends else None

    def saidt(t):
        t = norm(t)
        return I is not None and t is not None and (t is q.w.mksub(q.w.mksub(I, C(0)), C(0)) or t is q.w.mksub(I, C(0)) or tup(t) is not None and len(tup(t)) == 1 and saidt(tup(t)[0]))

    def cl(i):
        return lambda t: t is not None and t.k == "sub" and t.a[1] is C(i) and fname(t.a[0]) == "cloneCred" and saidt(arg(t.a[0], 0, "said"))

    def whole(t):
        return fname(t) == "processCredential" and all(cl(i)(arg(t, i, n)) for i, n in enumerate(PARTS))

    def rem(x):
        return [h for h in hist_calls(x) if recv(h) is P("db") and fname(h) in ("rem", "trim")]
    for e in ends:
        w = q.where(e.node)
        ms = caught(e)
        if not ms:
            ctx.need(any(whole(h) for h in hist_calls(e)), R, f"{q.qual}:retried whole", w, "a held credential is taken as done without being judged again with everything held with it")
            ctx.need(any(saidt(arg(h, 0, "keys")) for h in rem(e)), R, f"{q.qual}:leaves when saved", w, "a saved credential stays held")
            continue
        for m_ in ms:
            t, names, prior = m_.a
            if "etype" in names:
                ctx.need(not rem(e), R, f"{q.qual}:waits", w, "a credential still lacking something is dropped from its escrow")
            else:
                ctx.need("etype" in prior and any(saidt(arg(h, 0, "keys")) for h in rem(e)), R, f"{q.qual}:leaves when refused", w, "a refused credential stays held, or one that waits is dropped")
    ctx.need(any("Exception" in m_.a[1] for e in ends for m_ in caught(e)), R, f"{q.qual}:one failing entry stops no other", q.where(), "a failing held credential ends the pass over the others")
    for e in q.w.events:
        if e.kind == "break" and ends and e.term is ends[0].term:
            ctx.bad(R, f"{q.qual}:all retried", q.where(e.node), "a pass can end before the last held credential")
        if e.kind == "call" and whole(e.term):
            ok = False
            for t, p in e.facts:
                if t.k in ("lt", "le"):
                    s = set(subterms(t))
                    ds = [z for z in s if fname(z) == "fromIso8601" and arg(z, 0, "dts") is A(q.w.mksub(I, C(1)), "dts") or z is A(q.w.mksub(I, C(1)), "datetime")]
                    now = [z for z in s if fname(z) in ("nowUTC", "now", "utcnow")]
                    if ds and now and any(q.holds(e, c, {"d": ds[0], "n": now[0]}) for c in ("n - d <= datetime.timedelta(seconds=timeout)", "n - d < datetime.timedelta(seconds=timeout)", "(n - d).total_seconds() <= timeout")):
                        ok = True
            ctx.need(ok, R, f"{q.qual}:time limit", q.where(e.node), "a held credential is retried beyond its time limit")
    ctx.need(any(e.kind == "call" and whole(e.term) for e in q.w.events), R, f"{q.qual}:retried", q.where(), "held credentials are never judged again")
    q = Q(ctx, VF, "Verifier.processEscrows", CB | {"_processEscrow"})
    for st, v, nd in q.exits():
        for store, et in (("mce", "MissingChainError"), ("mse", "MissingSchemaError"), ("mre", "MissingRegistryError")):
            ok = any(fname(h) == "_processEscrow" and chain(arg(h, 0, "db"))[-1] == store and fname_of(arg(h, 2, "etype")) == et for h in hist_calls(st))
            ctx.need(ok, R, f"{q.qual}:{store}", q.where(nd), "a kind of held credentials is not retried, or waits for something else")


def fname_of(t):
    return t.a[0] if t is not None and t.k == "g" else t.a[1] if t is not None and t.k == "a" else None


def tup_of(q, t):
    got = tup(t) if t is not None else None
    if got is None and t is not None:
        g = appended(q, t)
        got = [x for x, e in g] if g is not None else None
    return got


@prop("V03")
def v03_index(ctx):
    R = "V03.index"
    ctx.rule(R, "a saved credential is stored whole and found under its identifier, its issuer, its schema and its issuee", 6)
    q = Q(ctx, VF, "Verifier.saveCredential", CB - {"saveCredential"})
    me = lambda t: t is not None and fname(t) in ("Saider", "Diger") and norm(arg(t, None, "qb64", "qb64b")) is A(CR, "said")

    def key(t, what):
        k = norm(arg(t, 0, "keys"))
        return k is what or k is not None and (fname(k) == "encode" and recv(k) is what)
    n = 0
    for st, v, nd in q.exits():
        n += 1
        w = q.where(nd)
        ctx.need(any(fname(h) == "logCred" and arg(h, 0, "creder") is CR and arg(h, 1, "prefixer") is P("prefixer") and arg(h, 2, "number", "seqner") is P("seqner") and arg(h, 3, "diger", "saider") is P("saider") for h in hist_calls(st)),
                 R, f"{q.qual}:whole", w, "a saved credential's body or anchor is not stored")
        ctx.need(did(st, "saved", ("pin", "put"), lambda t: (arg(t, 0, "keys") is not None and (key(t, A(CR, "said")) or any(me(z) for z in [arg(t, 0, "keys")] + list(subterms(arg(t, 0, "keys")))))) and me(arg(t, 1, "val"))), R, f"{q.qual}:saved", w,
                 "a verified credential is not marked as saved")
        for store, what in (("issus", "israid"), ("schms", "schema")):
            ctx.need(did(st, store, ("add", "put"), lambda t: key(t, A(CR, what)) and (me(arg(t, 1, "val")) or me_in(q, arg(t, 1, "vals"), me))), R, f"{q.qual}:{store}", w, f"a saved credential is not found by its {what}")
        ctx.need(q.holds(st, "creder.iseaid is None || not creder.iseaid") or did(st, "subjs", ("add", "put"), lambda t: key(t, A(CR, "iseaid")) and (me(arg(t, 1, "val")) or me_in(q, arg(t, 1, "vals"), me))), R, f"{q.qual}:subjs", w,
                 "a saved credential is not found by its issuee")
    ctx.need(n > 0, R, f"{q.qual}:exits", q.where(), "a credential is never saved")


def me_in(q, t, me):
    g = tup_of(q, t) if t is not None else None
    return bool(g) and any(me(x) for x in g)


@prop("V03")
def v03_schema(ctx):
    R = "V03.schema"
    ctx.rule(R, "validating a credential against a schema means judging that serialization by that schema's own content, and a schema is stored only under the identifier that is its digest", 10)
    q = Q(ctx, SC, "JSONSchema.verify_json", {"validate", "loads", "resolver"})
    n = 0
    inst = lambda t: fname(t) == "loads" and arg(t, 0, "raw", "s") is P("raw")
    for st, v, nd in q.exits():
        n += 1
        hs = hist_calls(st)
        ok = any(fname(h) == "validate" and inst(arg(h, 0, "instance")) and arg(h, 1, "schema") is P("schema") for h in hs)
        ctx.need(ok and not caught(st) or v is C(False), R, f"{q.qual}:validated", q.where(nd), "a serialization counts as conforming without having been validated against the schema")
    ctx.need(n > 0, R, f"{q.qual}:exits", q.where(), "nothing conforms")
    q = Q(ctx, SC, "Schemer.verify", {"verify_json"})
    for st, v, nd in q.exits():
        ok = any(fname(h) == "verify_json" and arg(h, 0, "schema") in (q.term("self.sed"), q.term("self._sed")) and arg(h, 1, "raw") is P("raw") for h in hist_calls(st))
        ctx.need(ok, R, f"{q.qual}:own content", q.where(nd), "a serialization is validated against something else than this schema")
    q = Q(ctx, SC, "JSONSchema.load", {"verify", "Saider", "loads"})
    LD = {"JSON": "json", "MGPK": "msgpack", "CBOR": "cbor"}
    n = 0
    for st, v, nd in q.exits():
        n += 1
        got = tup(v) if v is not None else None
        w = q.where(nd)
        ctx.need(got is not None and len(got) == 3, R, f"{q.qual}:result", w, "a loaded schema lacks its content, kind or digest")
        if got is None or len(got) != 3:
            continue
        sed, kind, sd = got
        ctx.need(fname(sed) == "loads" and any(z is P("raw") for z in subterms(sed)) and kind is P("kind"), R, f"{q.qual}:content", w, "a loaded schema is not the content of its serialization")
        k = next((k for k in LD if q.holds(st, f"kind == '{k}'")), None)
        ctx.need(k is not None and chain(recv(sed))[-1:] in ([LD.get(k)], ["cbor2"] if k == "CBOR" else []) or k is not None and recv(sed) is not None and fname_of(recv(sed)) in (LD.get(k), "cbor2" if k == "CBOR" else None),
                 R, f"{q.qual}:kind", w, "a schema is read in another kind than its own")
        idt = q.w.mksub(sed, q.term("self.id_"))
        ctx.need(fname(sd) in ("Saider", "Diger") and arg(sd, None, "qb64") is idt and any(
            p and fname(t) == "verify" and recv(t) is sd and arg(t, 0, "sad") is sed and q.holds(st, "p", {"p": arg(t, None, "prefixed") or C(False)}) and arg(t, None, "kind") in (P("kind"), kind) and
            arg(t, None, "label") is q.term("self.id_") for t, p in st.facts), R, f"{q.qual}:digest", w, "a schema is taken though its identifier was not verified as its digest")
    ctx.need(n > 0, R, f"{q.qual}:exits", q.where(), "no schema loads")
    q = Q(ctx, SC, "Schemer._inhale", {"load", "_sniff"})
    for st, v, nd in q.exits():
        got = tup(v) if v is not None else None
        ok = got is not None and len(got) == 3 and all(z.k == "sub" and z.a[1] is C(i) and fname(z.a[0]) == "load" and arg(z.a[0], 0, "raw") is P("raw") for i, z in enumerate(got)) or fname(v) == "load" and arg(v, 0, "raw") is P("raw")
        ctx.need(ok, R, f"{q.qual}:read", q.where(nd), "a schema read from a serialization is not that serialization's content")
    q = Q(ctx, SC, "CacheResolver.add", {"Schemer", "said"})
    pins = [e for e in q.w.events if e.kind == "call" and dbop(e.term, "schema", "pin", "put")]
    ctx.need(bool(pins), R, f"{q.qual}:stored", q.where(), "a schema is not stored")
    for e in pins:
        s = arg(e.term, 1, "val")
        ok = fname(s) == "Schemer" and arg(s, 0, "raw") is P("schema") and arg(e.term, 0, "keys") is P("key") and any(
            p and t.k == "eq" and P("key") in t.a and any(any(z is s for z in subterms(x)) and x.k == "a" and x.a[1] in ("said", "qb64") for x in t.a) for t, p in e.facts)
        ctx.need(ok, R, f"{q.qual}:under its digest", q.where(e.node), "a schema is stored under an identifier that is not its digest")
    q = Q(ctx, SC, "CacheResolver.resolve", {"Schemer"})
    for st, v, nd in q.exits():
        if v is NONE or v is None:
            continue
        ok = v.k == "a" and v.a[1] == "raw" and dbop(v.a[0], "schema", "get") and norm(arg(v.a[0], 0, "keys")) is P("uri")
        ctx.need(ok, R, f"{q.qual}:its own", q.where(nd), "the schema found is not the one asked for")
