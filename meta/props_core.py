F = "src/keri/core/eventing.py"
GN = "Decided over the guard facts the source establishes on every path (calls into helpers inlined or summarised); third-party primitives trusted."
NA = []
PROPS = [
 dict(id="K01", title="A key event log only grows by valid, chained, in-order events",
  statement="A controller's view of an identifier changes only by an event for that identifier, of a known type, that starts the log at sequence number zero (inception) or is exactly one past the last event and commits to its digest; a rotation may instead replace interaction events after the last establishment event (recovery), or, when delegated, as the superseding rules allow, committing to the event before the one it replaces. Key state (keys, thresholds, next digests, witnesses, last event) is set only after the event was validated and logged, and to that event's own values. An event satisfying these rules is not refused.",
  over=["inputs", "histories"], text="every event offered to a key state in any order, every prior log, every path of inception, rotation and interaction acceptance",
  why="The orders and forgeries of events are unbounded; tests replay a few well formed logs and assert the good outcome.",
  mech=[("sequence and digest chaining checks", f"{F}: Kever.update, Kever.rotate"), ("inception checks", f"{F}: Kever.incept, Kever.__init__")],
  tech="path-sensitive guard-fact dataflow: each log append and state store dominated by the specified conditions, each refusal entailed by a violated one", note=GN, files=["src/keri/core/eventing.py"]),
 dict(id="K02", title="Events are accepted only with threshold-satisfying verified signatures",
  statement="A key event is accepted only if signatures that verify over exactly its bytes, each with the key its index selects from the keys in force for that event (the new keys for establishment events, the current ones otherwise), cover a set of distinct indices satisfying that event's signing threshold. No signature counts twice, none that does not verify counts, a weighted threshold is satisfied only when in each clause the distinct indices' weights sum to at least one, computed exactly.",
  over=["inputs"], text="every list of signatures (repeated, reordered, out of range, dual index), every key list, every numeric, weighted or nested threshold",
  why="Forged and repeated signature lists and fractional weights are unbounded; tests hold a few fixed weights and honest lists.",
  mech=[("verify and index bookkeeping", f"{F}: verifySigs"), ("threshold gate", f"{F}: Kever.valSigsWigsDel"), ("threshold satisfaction", "src/keri/core/coring.py: Tholder")],
  tech="guard dataflow from verified-signature sets to acceptance; symbolic value analysis of threshold satisfaction", note=GN + " Signature verification itself trusted.", files=["src/keri/core/eventing.py", "src/keri/core/coring.py"]),
 dict(id="K03", title="Rotation needs the pre-committed next keys; a closed log stays closed",
  statement="A rotation is accepted only if verified signatures by keys whose digests were committed to in the previous establishment event, at the index each signature claims, satisfy the next threshold committed to there. An identifier whose last establishment event committed to no next keys (abandoned or non-transferable) accepts no further event; a non-transferable identifier starts without next keys, witnesses or anchored data.",
  over=["inputs", "histories"], text="all exposed/augmented/partial rotations, index and prior-index assignments, next thresholds",
  why="Stolen-current-key attacks correspond to index pairs and partial exposures that tests do not enumerate.",
  mech=[("next-key exposure check", f"{F}: Kever.exposeds, Kever.valSigsWigsDel"), ("transferability checks", f"{F}: Kever.update, Kever.incept")],
  tech="guard-fact dataflow on rotation acceptance and on index exposure", note=GN, files=["src/keri/core/eventing.py"]),
 dict(id="K04", title="Witness threshold and witness list changes are enforced",
  statement="A controller that is not itself the owner or a witness of the identifier accepts an event only when at least the event's witness threshold of distinct witnesses from its witness list have verified signatures over it. A threshold is zero with no witnesses and between one and the number of witnesses otherwise. A rotation's witness list is the current one less its cuts plus its adds, where cuts and adds are duplicate free and disjoint, cuts are current witnesses and adds are not.",
  over=["inputs", "histories"], text="all witness lists, cuts, adds, thresholds and witness signature lists",
  why="Set relations between witnesses, cuts and adds and thresholds at the edges are unbounded; tests check a few sizes.",
  mech=[("witness threshold gate", f"{F}: Kever.valSigsWigsDel"), ("cut/add derivation", f"{F}: Kever.deriveBacks")],
  tech="guard-fact dataflow with set-relation facts", note=GN, files=["src/keri/core/eventing.py"]),
 dict(id="K05", title="Delegated events need the delegator's anchoring approval",
  statement="A delegated inception or rotation is accepted, by a controller that is not exempt as delegate owner or witness, only if the delegator's own accepted log allows delegation and contains an event anchoring exactly this event's identifier, sequence number and digest; a delegator under local control needs explicit approval. A delegated rotation supersedes another delegated rotation only when its own delegating event is later in the delegator's log by the superseding rules.",
  over=["inputs", "histories"], text="all delegator logs, seals, superseding chains",
  why="Requires crafted delegator histories with wrong or stale seals and recovery at several levels.",
  mech=[("seal search and match", f"{F}: Kever.validateDelegation, Kever.fetchDelegatingEvent")],
  tech="guard-fact dataflow over delegation validation and superseding recursion", note=GN, files=["src/keri/core/eventing.py"]),
 dict(id="K06", title="Remote sources cannot drive locally controlled identifiers",
  statement="An event that did not come from a local (protected) source, for an identifier the controller itself owns, witnesses or delegates, is never accepted: it is held aside for authentication. Signatures attributed to a local group member are taken only from a local source. An event's source travels unchanged from arrival to that decision.",
  over=["inputs", "schedules"], text="all events, sources and local identifier/witness/delegator roles",
  why="Combines source, role and event type; tests mostly run local sources.",
  mech=[("misfit gate", f"{F}: Kever.valSigsWigsDel"), ("role predicates", f"{F}: Kever.locallyOwned/locallyWitnessed/locallyDelegated/locallyMembered")],
  tech="guard-fact dataflow on acceptance; equivalence of role predicates with their specification", note=GN, files=["src/keri/core/eventing.py"]),
 dict(id="K07", title="Accepted events are logged whole and once; incomplete ones are held whole",
  statement="Accepting an event stores the event, its date, verified signatures and witness signatures, its witnesses, its source and its delegation seal under its own identifier and digest, adds it to its identifier's log at its own sequence number, and assigns exactly one first-seen ordinal by appending to the first-seen log. Merely checking an event assigns none. An event lacking signatures, witness signatures, delegation or a trusted source is held with everything received, in the escrow of its own kind and under its own key, and is not in the log.",
  over=["inputs", "crash_points"], text="every path of logging and of every escrow a key state uses",
  why="A dropped attachment shows only when the event is later replayed or unescrowed; tests check presence, not completeness on each path.",
  mech=[("logging", f"{F}: Kever.logEvent"), ("holding", f"{F}: Kever.escrow*Event")],
  tech="required-effect analysis on every exit path, argument provenance of every logging and escrow call", note=GN + " Crash between two separate store writes is not decided.", files=["src/keri/core/eventing.py"]),
 dict(id="K08", title="Every arriving event is accepted, held, recognised as a repeat, or refused",
  statement="An event arriving for processing becomes part of its identifier's state only as the inception of an identifier not yet known, or as an update in order or superseding, validated with everything that arrived with it and its own source. A different event at a place already taken never changes state: it is held as likely duplicitous and reported; a repeat of the accepted event itself only adds signatures that verify under the keys (or witnesses) in force for it. An event arriving too early is held whole, under its own identifier and sequence number, and reported as out of order. Nothing ends silently. An accepted event of another controller is cued for its receipt, and for witnessing exactly when a local identifier witnesses it.",
  over=["inputs", "histories", "schedules"], text="every event in every arrival order: repeats, late signatures, early, forked and superseding ones, all processing modes",
  why="Arrival orders and forks are unbounded, and a wrong branch shows only for a specific order (a fork after a recovery, a repeat with new signatures); the duplicity branch had crashed unnoticed.",
  mech=[("arrival routing", f"{F}: Kevery.processEvent"), ("holding", f"{F}: Kevery.escrowOOEvent, escrowLDEvent, escrowMFEvent")],
  tech="path-sensitive guard-fact dataflow over event routing, required effects on every exit, argument provenance", note=GN, files=["src/keri/core/eventing.py"]),
 dict(id="K09", title="Receipts count only when verified, and none is lost for coming early",
  statement="A receipt signature enters an identifier's receipts only after it verifies over the receipted event that this controller accepted at that sequence number, with the key of the receipter it is filed under: for a witness the key its index selects in that event's witness list, for another nontransferable receipter its own prefix, for a transferable receipter the key its index selects in the cited establishment event, which must be the one this controller accepted. It is filed under that event. A receipt signature that verifies is stored unless it is the controller's own coming from elsewhere. A receipt whose event, or whose receipter's establishment event, is not known yet is held whole (receipter, signature, receipted event, time) before processing ends, and when taken up again is judged by the same rules.",
  over=["inputs", "histories"], text="every receipt in any order against every log: witness, nontransferable and transferable receipts, in receipt messages and attached to events, for known and not yet known events",
  why="Receipts arrive before, after and between the events and establishment events they concern; tests replay a few fixed orders, and a receipt filed under the wrong witness or event passes unnoticed.",
  mech=[("receipt verification", f"{F}: Kevery.processReceipt, processAttachedReceiptCouples, processAttachedReceiptSigGroups"), ("holding", f"{F}: Kevery.escrowUReceipt, escrowUWReceipt, escrowTReceipts, escrowTRGroups"), ("unescrow", f"{F}: Kevery.processEscrowUnverNonTrans, processEscrowUnverTrans, _processEscrowFindUnver")],
  tech="guard-fact dataflow from signature verification to every receipt store, provenance of keys and digests, required effects on every exit", note=GN, files=["src/keri/core/eventing.py"]),
 dict(id="K10", title="Held messages are retried whole and leave escrow exactly when done",
  statement="Each pass over the escrows goes through every held event, receipt and query (out of order, partially signed, partially witnessed, awaiting delegation, unverified receipts, likely duplicitous, unanswered queries) and retries it with everything held with it: the event, its signatures, witness signatures, delegation seal and source. Exactly the retried entry is removed, after its retry, when that succeeds or fails for good (a part of it is missing, a signature proves bad, or it has been held longer than its time limit); it stays while what it waits for is still missing. One failing entry does not end the pass over the others.",
  over=["inputs", "schedules", "histories"], text="every content of every escrow, every arrival order of what entries wait for, every error a retry can raise",
  why="The interleavings of missing parts and retries are unbounded, and a lost attachment or an entry dropped one error class too early shows only as a log that silently never completes.",
  mech=[("event escrows", f"{F}: Kevery.processEscrowOutOfOrders, processEscrowPartialSigs, processEscrowPartialWigs, processEscrowPartialDels, processEscrowDelegables, processEscrowDuplicitous"), ("receipt escrows", f"{F}: Kevery.processEscrowUnverWitness, processEscrowUnverNonTrans, processEscrowUnverTrans"), ("query escrow", f"{F}: Kevery.processQueryNotFound"), ("the pass", f"{F}: Kevery.processEscrows")],
  tech="exception-flow and guard-fact dataflow over every escrow loop: which handler each error reaches, what was done on the way, provenance of resubmitted parts", note=GN + " Stores are trusted to return what was put (see W01-W08).", files=["src/keri/core/eventing.py"]),
 dict(id="K11", title="Signed replies are adopted only when verified, by whom they concern, and newest",
  statement="A reply message is adopted only on a signature that verifies over exactly that reply: a nontransferable one by the identifier the reply is about, or enough indexed signatures of it by the keys and threshold of the signer's establishment event the signature names, which must be in its accepted log with that digest. An adopted reply is never replaced by an older one, judged by the establishment event signed under and then by date. Adopting one stores the reply, its date, signatures and the latest digest under that route and key, removes the replaced reply with all its signatures and takes it out of escrow; one short of signatures or key state is held whole and retried until done or timed out. End role, location and watch replies change exactly the record their route and content name, and own records only through a local source; key state notices are saved only from a trusted source and only if they agree with the accepted log.",
  over=["inputs", "schedules", "histories"], text="every reply of every route, every signature group, every earlier reply and date, every retry and timeout order",
  why="Whether a stale, foreign or partly signed reply can displace a good one depends on what was adopted before and on the order replies and key events arrive in.",
  mech=[("acceptance", "src/keri/core/routing.py: Revery.acceptReply, updateReply, escrowReply, removeReply"), ("retry", "src/keri/core/routing.py: Revery.processEscrowReply"), ("routing", "src/keri/core/routing.py: Router.dispatch, _find, Revery.processReply"), ("handlers", f"{F}: Kevery.processReplyEndRole, processReplyLocScheme, processReplyAddWatched, processReplyKeyStateNotice, updateEnd, updateLoc, updateKeyState"), ("signature validation", "src/keri/core/routing.py, eventing.py: validateSigs")],
  tech="guard-fact dataflow from signature verification to every reply store, recency and identity facts at every adoption, required effects on every exit", note=GN, files=["src/keri/core/routing.py", "src/keri/core/eventing.py"]),
 dict(id="K12", title="Queries are answered only from accepted state that meets them",
  statement="A query for a log, a key state or a mailbox is answered only when the identifier asked about has accepted state and that state meets the query: the anchoring seal asked for is in the accepted log, the sequence number asked for is reached and its latest event fully witnessed, the key state has its witness threshold. The answer is about exactly the identifier, from exactly the first seen number asked, includes the delegator's log for a delegated one, and goes to the requester. A query that cannot be answered yet is held with its requester and signatures and reported as such, and only then. An event counts as anchoring a seal only when it is in the identifier's log, carries that very seal and has its witness receipts.",
  over=["inputs", "histories"], text="every query, every state of the logs and witness receipts it is asked against",
  why="Whether an answer is premature depends on what was accepted and witnessed at the time of asking, which samples cannot range over.",
  mech=[("queries", f"{F}: Kevery.processQuery, escrowQueryNotFoundEvent"), ("anchors", "src/keri/db/basing.py: Baser.fetchAllSealingEventByEventSeal, fetchLastSealingEventByEventSeal, fetchLastSealingEventBySeal, fullyWitnessed")],
  tech="guard-fact dataflow: facts required at every answer, provenance of what is handed out, required effects on every refusal", note=GN, files=["src/keri/core/eventing.py", "src/keri/db/basing.py"]),
 dict(id="K13", title="Replay hands out every logged event whole and in first seen order",
  statement="Replaying an identifier's log yields, from the first seen number asked and in first seen order, each event logged there with everything stored with it: controller and witness signatures, nontransferable and transferable receipts under their own receipters and events, the seal of the delegating event, its first seen number and date, in the serialization version asked. An event is left out only when a part it cannot do without is missing; one incomplete event does not end the replay. The delegators of a delegated identifier are replayed before it, root first.",
  over=["inputs", "histories"], text="every log content, every combination of stored signatures, receipts and seals",
  why="A party validating a replayed log rejects or escrows an event whose signatures, receipts or seal were dropped; every combination of attachments would have to be tried.",
  mech=[("one event", "src/keri/db/basing.py: Baser.cloneEvtMsg"), ("logs", "src/keri/db/basing.py: Baser.clonePreIter, cloneAllPreIter, cloneDelegation")],
  tech="provenance dataflow from every attachment store into the replayed message, exception flow of the replay loops", note=GN, files=["src/keri/db/basing.py"]),
]
