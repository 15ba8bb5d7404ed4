"""registry and credential log (TEL) and credential verification properties"""
from props_core import GN
V = "src/keri/vdr/eventing.py"
PROPS = [
 dict(id="V01", title="Registry events take effect only in their registry, in order and anchored",
  statement="A registry (TEL) event is accepted only if it belongs to the registry that judges it, is next in its log and chained to the prior event there (a revocation to that credential's issuance in that same registry), its type fits the registry's backing, and it is anchored: the accepted event of the registry controller's own key event log at the given number and digest seals exactly this event's identifier, number and digest; with backers, enough distinct current backers must have signed this very event. An inception or rotation must give consistent distinct backers and a threshold they can meet. Otherwise it changes no registry state: it is held, or refused with an error where an established fact makes it invalid. An accepted event is recorded whole, with its own verified anchor; registry state changes only by its fields, and what is read back after a restart is what was saved. The reported state of a credential is that of the last event of its log, and none is reported for a credential of another registry.",
  over=["inputs", "histories"], text="every registry and credential event, from any source, in any order relative to its anchors, its siblings and events of other registries",
  why="Who can revoke or un-revoke a credential depends on conjunctions of order, registry, anchor and backers; tests anchor honest events in one registry at a time.",
  mech=[("routing", f"{V}: Tevery.processEvent"), ("acceptance", f"{V}: Tever.__init__, incept, update, rotate, issue, revoke"), ("anchors and backers", f"{V}: Tever.valAnchorBigs, verifyAnchor, getBackerState"), ("records and reports", f"{V}: Tever.logEvent, state, vcState, reload, rbdict")],
  tech="guard-fact dataflow over every path to a logged event or changed state; provenance of seal, digest and signer terms; field-by-field pairing of saved and reloaded state", note=GN + " A credential's log is keyed by the credential's identifier alone, so which registry logs it first is decided by order of arrival (see DESIGN.md).", files=[V]),
 dict(id="V02", title="Registry events and state notices that wait are held whole, retried and released",
  statement="A registry or credential event that arrives before its registry, its predecessor or its anchor is held with its body, its anchor and its backer signatures and retried with all of them on every pass until it is accepted or refused for good, and no other held event leaves with it. A state notice (signed reply about a registry or credential log) is adopted only with a verified signature of its source, when that source is the issuer, a backer or witness, or an own watcher (unless lax), and when the accepted event at the number it names is the one it names; a notice whose issuer, registry or event is unknown is held whole under what it waits for, asked for, retried within its time limit and dropped after it; an adopted notice is replaced only by a later one. A query for a log is answered with that whole log.",
  over=["schedules", "histories"], text="every order in which registry events, their anchors, their registries and notices about them arrive, and every repetition of escrow passes",
  why="Progress after out-of-order arrival depends on every artifact surviving the wait and on the exact exception that means 'still waiting'; tests hold one event at a time.",
  mech=[("holding", f"{V}: Tevery.escrowOOEvent, Tever.escrowALEvent, escrowPWEvent"), ("retries", f"{V}: Tevery.processEscrow*"), ("notices", f"{V}: Tevery.processReply*TxnState; src/keri/db/escrowing.py: Broker"), ("queries", f"{V}: Tevery.processQuery, registerReplyRoutes")],
  tech="path-sensitive dataflow over escrow loops (what is removed, on which caught exception), guard facts at adoption, pairing of escrow kind with raised and caught exception", note=GN + " 'Replaced only by a later one' does not hold on the current tree (known finding).", files=[V, "src/keri/db/escrowing.py"]),
 dict(id="V03", title="A credential is saved only when registered, schema-valid and validly chained",
  statement="A credential is stored as verified only when its registry is known and controlled by its issuer, its issuance there is known and not out of date (whether it was since revoked is reported with it, by its registry's state), it conforms to the schema it names, and every edge was verified: the far credential is itself saved as verified, its registry known, it is neither revoked nor out of date, it conforms to the schema the edge names, and every operator of the edge holds between its issuee or issuer and this credential's issuer. A credential for which something is missing is held whole for exactly that, asked for, retried on every pass and released when saved, refused for good or held too long. A saved credential is found under its identifier, issuer, schema and issuee, and a schema is stored only under the identifier that is its digest.",
  over=["inputs", "histories"], text="every credential and edge structure, in any order of arrival relative to its registry events, its schema and the credentials it chains to",
  why="Authority by credential chains is only as strong as each conjunct for each edge and operator; tests chain a few honest credentials.",
  mech=[("judgement", "src/keri/vdr/verifying.py: Verifier.processCredential, processACDC, verifyChain"), ("escrows", "src/keri/vdr/verifying.py: Verifier.escrow*, _processEscrow"), ("index", f"src/keri/vdr/verifying.py: Verifier.saveCredential; {V}: Reger.logCred, cloneCred"), ("schema", "src/keri/core/scheming.py: JSONSchema, Schemer, CacheResolver")],
  tech="guard-fact dataflow over every path to a saved credential and a satisfied edge; provenance of issuer, issuee, registry and schema terms; escrow typestate by caught exception", note=GN, files=["src/keri/vdr/verifying.py", V, "src/keri/core/scheming.py"]),
]
NA = []
