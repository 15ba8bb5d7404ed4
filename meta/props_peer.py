"""peer to peer message properties"""
from props_core import GN
E = "src/keri/peer/exchanging.py"
KR = "src/keri/core/kraming.py"
PROPS = [
 dict(id="X01", title="Exchange messages take effect only signed by their sender, and are kept whole",
  statement="A peer exchange message is saved, announced or handed to its route's behavior only when signed by its sender: every attached signature group is the sender's and reaches the threshold of the accepted key event of the sender that it cites by number and digest, or every attached single signature verifies with the sender's own nontransferable key. Where the message carries a content digest, the attached content must match it; where its behavior has a verification, that must have run and succeeded. A message still lacking signatures, or whose signer's event is not known yet, is held whole (body, date of first arrival, every signature under its signer and event, embedded and nested material, content), the signer's key state is asked for once, and every pass retries it with all of that until it is saved, refused for good or older than the time limit; what came with a saved message stays. A saved message is given out or sent on only when all its stored signatures, at least one, verify, and then with all of them and all that came with it. Signature groups read back from the store are exactly the stored runs per signer and event.",
  over=["inputs", "histories"], text="every exchange message, set of signature groups and couples, attachment set, route behavior, and order of arrival relative to the sender's key events",
  why="Authority to act on a message is a conjunction over all signatures, events and attachments, across arrivals and retries; tests send complete, honestly signed messages.",
  mech=[("judgement", f"{E}: Exchanger.processEvent; src/keri/db/basing.py: Baser.resolveVerifiers"), ("holding and saving", f"{E}: Exchanger.escrowPSEvent, logEvent"), ("retries", f"{E}: Exchanger.processEscrowPartialSigned"), ("reading", f"{E}: verify, cloneMessage, serializeMessage, Exchanger.complete; src/keri/db/dbing.py: fetchTsgs")],
  tech="guard-fact dataflow over every path to a saved or handled message; typestate of the escrow by caught exception; loop-invariant check of signature regrouping; provenance of stored and sent material", note=GN + " Replay protection of exchange messages is X02.",
  files=[E, "src/keri/db/basing.py", "src/keri/db/dbing.py"]),
 dict(id="X02", title="Messages under replay protection are accepted at most once, in time, authentic",
  statement="A message under replay protection is accepted only when authentic by the configured kind: a digest seal of it anchored in the sender's own key event log, a verified signature by a single current key, or verified signatures of the sender's keys, those attached together with those held from earlier arrivals under the same key state, that satisfy the current threshold. It is accepted at most once: only when its cache has no entry at least as new, and the cache then records its time; or when it had been waiting for signatures whose threshold was not yet reached. It is accepted or held only inside the time window of its authentication kind (drift and lag for short or long life) and of its exchange. A message short of its threshold is held whole (message, verified signatures, key state, attached material), gives back what was held when completed, and is refused if the key state changed meanwhile. A message is refused only as seen before, out of time, or not authentic. Cache entries and held material are removed only when their message can no longer be accepted, and then wholly. Every non-event message the parser dispatches passes through this intake, unless excepted by configuration, and the configured limits are validated.",
  over=["inputs", "histories"], text="every sender, message time, authentication kind, order and number of arrivals, and pruning between them",
  why="Replay protection quantifies over all past arrivals, prunings and times; tests send a few messages at sampled times.",
  mech=[("judgement", f"{KR}: Kramer.kramit, intake, _validateSenderSeal, _verifyAttachedSigs"), ("holding", f"{KR}: _storeNonAuthAttachments, _rehydrateKwaFromEscrow"), ("pruning", f"{KR}: _pruneMessages, _pruneExchanges"), ("dispatch", "src/keri/core/eventing.py: Kevery.processMsg; limits: _parseValidateCtyp")],
  tech="guard-fact dataflow over every path to an accepted, held or refused message; linear bounds on times; provenance of held and given back material; typestate of cache entries", note=GN + " Changing the configuration of a running system is not part of this property.",
  files=[KR, "src/keri/core/eventing.py"]),
]
NA = []
