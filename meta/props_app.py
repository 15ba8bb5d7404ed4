"""application layer properties"""
from props_core import GN
KP = "src/keri/app/keeping.py"
HP = "src/keri/app/habbing.py"
PROPS = []
NA = []
PROPS += [
 dict(id="A01", title="The keystore hands out each identifier's committed keys and keeps them secret",
  statement="For every identifier a keystore holds, inception creates and records its current and next keys at successive places of one key sequence; each rotation makes exactly the keys committed to as next the current ones, records the former ones as old, creates the following set at the places after them with the identifier's own parameters (algorithm, salt, stem, tier, prefix index) and returns the verification keys of the one and the digests of the other; replay does the same from the recorded sets. Private keys are stored before the record that names them and erased only when two key sets old and on demand; no inception, ingestion or move writes over another identifier's record. Every private key and salt is stored encrypted whenever the keystore has an encrypter, which is set up or changed only by who holds the seed of the present one and of the new one, all secrets being stored again. Signing gives one signature per key named, by that key, over the bytes given, at the index asked for.",
  over=["inputs", "histories", "crashes"], text="every sequence of inceptions, rotations, replays, ingestions, moves and encryption changes, with every algorithm, code list and key count, and a stop between any two writes of a rotation",
  why="That a pre-rotated key is the one later used, and that no secret is ever stored in the clear, depends on every past operation and on every write site; tests follow a few sequences with one or two keys.",
  mech=[("sequence", f"{KP}: Manager.incept, rotate, replay, ingest, move"), ("secrecy", f"{KP}: Manager.setup, updateAeid; src/keri/db/subing.py: CryptSignerSuber"), ("signing", f"{KP}: Manager.sign")],
  tech="symbolic dataflow over every path: linear arithmetic of key places, provenance of stored and returned keys, ordering of writes, and encryption of every write site", note=GN + " The derivation of a key from its place (Salter.stretch) and the ciphers are taken as given; atomicity of re-encrypting under a new aeid across a crash is not claimed.",
  files=[KP, "src/keri/db/subing.py"]),
 dict(id="A02", title="A habitat's own events extend its log validly and its keystore keeps step",
  statement="Every event a habitat makes stands at the next place of its own log on that log's last event, with the keys, next-key digests, thresholds and witnesses asked for, signed over its own bytes by the keys it belongs to: those taken from the keystore for an inception or rotation, the log's present ones otherwise, a group member signing at its own place and revealing the prior digest its new key answers. It is given out only after the same event with the same signatures went through the habitat's own validation, where only a lack of signatures or witness receipts is passed over. Old keys are erased only after a valid rotation, and a failed inception or rotation leaves no record or keystore step that stops a retry. A habitat is recorded under its own identifier and name, no existing record or name is taken over, and reloading restores each habitat's kind, members and keys. What it receipts or endorses names the establishment event whose keys signed.",
  over=["inputs", "histories", "crashes"], text="every sequence of inceptions, rotations, interactions, receipts and endorsements by single, delegated, non-transferable and group habitats, with every threshold, witness and key configuration, every failure of validation and every reload",
  why="An own event that others refuse, or a keystore one step away from the log, locks a controller out of its identifier for good; it shows only after a particular failure, reload or group shape, and the upstream habitat tests follow a few successful ones.",
  mech=[("building", f"{HP}: BaseHab.incept, rotate, interact, Hab.incept, rotate"), ("signing", f"{HP}: Hab.sign, GroupHab.sign, BaseHab.endorse, receipt, witness; src/keri/core/eventing.py: Kever.fetchLatestContribTo, fetchPriorDigers"), ("registration", f"{HP}: Habery.makeHab, makeGroupHab, makeSignifyHab, joinGroupHab, loadHabs, BaseHab.save")],
  tech="symbolic dataflow over every path: provenance of every argument of the event builders, signers and validators, ordering of validation, erasure and output, handler coverage, and the fields of stored and reloaded records", note=GN + " The event builders (incept, rotate, interact) and validation are decided by K and S properties; the keystore by A01.",
  files=[HP, "src/keri/core/eventing.py"]),
]
PP = "src/keri/core/parsing.py"
PROPS += [
 dict(id="P01", title="Every message of a stream reaches its handler with exactly its attachments",
  statement="However a stream is cut into pieces and whatever it holds, each message in it is given to the handler of its own kind, whole, once, with exactly the attachments that follow it: each attachment group is read under its own code, with as many elements as its counter counts, each of the class the code prescribes, in stream order, into its own list, and shares nothing with another group or message. A message is handled only after all its attachments have been read; it is handled as the controller's own only when the stream was opened so; a query is answered for the signer whose signatures are taken; replay-protected kinds of version 2 go only through replay protection. A message that a handler refuses costs no other message; a group of known size that cannot be read costs only itself; bytes that cannot be read at all are thrown away rather than read for ever; what follows an enclosed group is read under the version, and taken for as complete, as what stood before it.",
  over=["inputs", "schedules", "histories"], text="every stream of messages and attachment groups, text or binary, of either version, enclosed or not, arriving in any pieces, with every kind of unreadable or refused part in any place",
  why="An attachment credited to the wrong message is a signature on something never signed, and a stream that stops or loses messages after a bad one is a denial of service; tests parse well-formed streams that are already complete.",
  mech=[("groups", f"{PP}: Parser._ControllerIdxSigs1 ... Parser._ESSRPayloadGroup2, the tables Parser.Methods"), ("dispatch", f"{PP}: Parser.msgProcess"), ("stream", f"{PP}: Parser.parse, parseOne, allParsator, onceParsator, parsator, groupParsator"), ("message", f"{PP}: Parser.msgParsator")],
  tech="symbolic dataflow over every path of the stream reader: provenance of every element and argument, linear consumption of the stream, handler coverage of every refusal, and loop exits", note=GN + " The codes of counters and the sizes they state are those of counting.py; the primitives' own decoding is S01 and not repeated here.",
  files=[PP, "src/keri/core/counting.py"]),
]

PROPS += [
 dict(id="D01", title="Every kind of record has a store of its own, and code names only what exists",
  statement="In each database environment every kind of record is kept in a store with a name no other kind has, every store is opened whenever its environment is, and the environment has room for all of them. Wherever the code reaches a store of an environment, or a method of an environment, habitat, registry, key state, validator or messenger it works with, what it names exists there and takes the arguments given: no path, however rarely taken, ends in an error for a store or method that is not there.",
  over=["histories", "inputs"], text="every store of every environment, and every place in the repository that names a store or a component's method, on every path including error, escrow, migration and command paths that no test runs",
  why="Two kinds of record under one name read and remove each other's entries, only once both are in use; a misnamed store or method is an error that shows only when an escrow, retry, migration or group path is first taken. Python checks neither before it runs.",
  mech=[("stores", "src/keri/db/basing.py: Baser.reopen; src/keri/app/keeping.py: Keeper.reopen; src/keri/vdr/eventing.py: Reger.reopen; Noter, Mailboxer, RegBaser, Broker, RegistryStore"), ("use", "every access through db, reger, ks, baser, noter, hby, hab, kvy, rvy, tvy, exc, mgr, rgy, kever, tever, verifier and the like")],
  tech="syntax-tree query over the whole repository: constant evaluation of store names per environment and its holders, class-member resolution through base classes, and signature binding of every call", note=GN + " What an access can reach is decided by the name it goes through (db, hby, hab, ...), as the union of the classes such a name stands for; names bound to something else are not judged.",
  files=["src/keri/db/basing.py", "src/keri/vdr/eventing.py", "src/keri/app/habbing.py", "src/keri/app/keeping.py"]),
]

PROPS += [
 dict(id="C01", title="A command reads the options it declares, and only those",
  statement="Every command of the command-line program reads only options that it, or a parser it builds on, declares, so no way of running it ends in an error for an option that is not there. Every option a command lets be given is read by it. No two options of one command claim one flag, which would keep the whole program from starting. Every command names a handler that exists and takes the command line.",
  over=["inputs"], text="every command of kli, with every combination of its options, on every path that reads one, including those for errors, files and interactive use",
  why="The options and what reads them meet only at run time: a name misspelt, or a parent parser left out, shows when that path of that command is first taken, and an option nothing reads is silently dropped. The stable tests run no command.",
  mech=[("declared", "src/keri/cli/commands: each module's ArgumentParser, its parents and add_argument calls; src/keri/cli/common/parsing.py: Parsery"), ("reads", "every read of the parsed command line, through args and its aliases"), ("handler", "set_defaults(handler=...)")],
  tech="syntax-tree query over every command module: options resolved through parents and helper calls, against every read of the parsed command line and its aliases", note="The value an option takes, and what the command does with it, is not judged. An option whose help says it is unused is let be. Options of a shared parent need not be read by each command.",
  files=["src/keri/cli/commands", "src/keri/cli/common/parsing.py"]),
]
