F = "src/keri/db/webdbing.py"
PROPS = [
 dict(id="W01", title="A write to the browser store is always scheduled for persistence",
  statement="Whenever an operation of the browser-backed store adds, replaces or removes an entry in a named sub-store, that sub-store is marked as having unsaved changes before the operation returns, so that the next flush writes it. A flush writes every sub-store so marked. Code outside the store that changes a sub-store's contents marks it too.",
  over=["histories", "inputs"], text="every operation of the store, every path through it that changes an entry, every flush that follows",
  why="The tests flush after a few chosen operations; each of the 60 operations has its own paths (empty set, last member, branch with siblings) and a forgotten mark only loses data at the next reload.",
  mech=[("dirty mark at each mutation", f"{F}: WebDBer operations"), ("flush loop over marked stores", f"{F}: WebDBer.flush")],
  tech="typestate dataflow: mutation of a sub-store's items must be followed by its dirty mark on every path",
  note="Sound over the operations' paths as parsed; assumes items are only reached through the handles the store returns."),
 dict(id="W02", title="No write made during or lost by a failed flush is forgotten",
  statement="If a sub-store is changed while a flush is waiting for the browser's persistent storage, that change is still marked unsaved when the flush ends. If the persistent write fails or the flush is cancelled, the changes it was writing are marked unsaved again.",
  over=["schedules", "fault_sequences"], text="every interleaving of store operations at the suspension points of a flush, every failure of the awaited write",
  why="The tests' fake storage never suspends between the snapshot and the acknowledgement and never fails half-way.",
  mech=[("mark cleared before the awaited write, restored on failure", f"{F}: WebDBer.flush")],
  tech="await-point effect analysis: no clearing of the dirty mark after a suspension point without a re-check; restore on every exceptional path",
  note="Decides the ordering of snapshot, clear and await on every path of flush; assumes single-threaded asyncio scheduling."),
 dict(id="W03", title="Store operations change only the entries they report",
  statement="An operation of the browser-backed store on a key adds, replaces or removes only entries of that key (or of the branch it names), and returns true (or the new count or ordinal) exactly when it changed something. Insertion operations that must not overwrite leave an existing entry unchanged and say so; set operations keep one copy of each member and leave other members alone.",
  over=["inputs", "histories"], text="every key, value, ordinal and prior content of the sub-store",
  why="Tests use a handful of keys; the result flag and the entry changed must agree on all paths (present, absent, last member, empty input).",
  mech=[("guards before each mutation and the returned flag", f"{F}: WebDBer put*/pin*/add*/rem*")],
  tech="guard-fact dataflow over every mutation and return of each operation",
  note="Decided from dominating branch facts; contents of keys and values are symbolic."),
 dict(id="W04", title="Range operations of the browser store stay inside the branch asked for",
  statement="Iterating, counting, reading the last of, or removing a branch (a key prefix, a set under one key, or an ordinal series under one key) visits every entry of that branch in key order from the starting point, and none of a sibling branch, even when one key is a textual prefix of another or keys contain the separator. (Keys of one sub-store are taken to be of one shape: none is another extended by the separator and more.)",
  over=["inputs"], text="all keys, separators, starting ordinals and contents of neighbouring branches",
  why="Neighbouring keys that break a scan bound (prefix of each other, separator inside) are unbounded; tests hold a few.",
  mech=[("scan lower bound and stop condition", f"{F}: *Iter, cnt*, getLast*, remTop*, remAll*")],
  tech="loop-bound and guard analysis of every scan: entry used only under the branch-membership fact; break only when outside",
  note="Assumes the sorted map iterates in key order."),
 dict(id="W05", title="Insertion and series ordinals never collide and never run backwards",
  statement="A member added to an insertion-ordered set gets an ordinal one past the highest in use for that set, and a value appended to an ordinal series gets the ordinal one past the last of exactly that series (zero when empty), whatever neighbouring series hold whose keys are not that key extended by the separator. Going past the greatest ordinal is refused rather than wrapped.",
  over=["inputs", "histories"], text="all prior contents of the set or series and its neighbours",
  why="Needs particular prior contents: emptied sets, gaps, a neighbouring series just below the bound.",
  mech=[("ordinal computation", f"{F}: appendOn*, addIoSet*, putIoSet*, pinIoSet*")],
  tech="value-flow analysis of the ordinal written back to its scan or bound",
  note="Arithmetic is linear over scan results; decided symbolically."),
 dict(id="W06", title="Ordinal keys encode so that byte order is numeric order, and decode back",
  statement="A key with an ordinal is encoded with the separator in use and a fixed-width zero-padded hexadecimal number, so that byte order equals numeric order and no two (key, ordinal) pairs share an encoding. Decoding returns the same key and ordinal even when the key contains the separator; every operation given a separator uses that separator throughout, in the persistent and the browser store alike.",
  over=["inputs"], text="all keys, ordinals up to the maximum, separators",
  why="Tests use small ordinals, the default separator and keys without it.",
  files=[F, "src/keri/db/dbing.py", "src/keri/db/subing.py", "src/keri/db/koming.py"],
  mech=[("onKey/splitOnKey/suffix/unsuffix", "src/keri/db/dbing.py and webdbing.py"), ("sep forwarded", "src/keri/db/subing.py")],
  tech="format-shape analysis of encoders/decoders and argument-flow analysis of the separator through every call",
  note="Decided from the format specification and split used, for all values."),
 dict(id="W07", title="What the browser store flushes is what it reads back",
  statement="Reopening a browser-backed store after a flush yields exactly the entries and duplicate setting that were flushed, for every key and value bytes. A store that has saved entries but no saved description is refused rather than reinterpreted; opening with clear leaves nothing of the old contents.",
  over=["histories", "inputs"], text="all contents at the time of flush, reopen with and without clear",
  why="Round trip must hold for all byte strings and every sub-store; the tests round-trip a few.",
  mech=[("serialise/deserialise pair", f"{F}: _serialize_records/_deserialize_records/_storify"), ("flush/open", f"{F}: WebDBer.flush, WebDBer.open")],
  tech="inverse-pair analysis of the serialisers and slot agreement between flush and open",
  note="Trusts json and the standard byte-text codecs to be inverse."),
 dict(id="W08", title="Browser stores open only as declared and never drop unsaved writes",
  statement="Only sub-stores declared when the store was opened can be used, and their duplicate setting is fixed once first chosen and saved. Closing the browser registry store with unsaved writes is refused in the synchronous form and saves first in the asynchronous form; a version set is the version read back.",
  over=["histories", "configurations"], text="all sequences of open, use, close and reopen",
  why="Lifecycle sequences with pending writes are many; the tests run the straight ones.",
  files=[F, "src/keri/acdc/webregbasing.py"],
  mech=[("open_db/env lifecycle", f"{F}: WebDBer.open_db"), ("close/aclose", "src/keri/acdc/webregbasing.py")],
  tech="guard-fact dataflow over open/close paths, declared-name cross-check",
  note="Decided on every path of the lifecycle methods."),
 dict(id="T01", title="The specification-example check passes only when all examples agree",
  statement="The example drift check exits successfully only if every example of the manifest appears in the specification, none is extra, each parses, and each is equal to the manifest's value in all keys, list positions and scalars; equal values are never reported as drift. Every block that is missing, extra, differing, duplicated or unparseable is named in its report.",
  over=["inputs"], text="all manifests and specification texts",
  why="Nested differences, lists of different length, duplicates and parse failures combine without bound; the tests hold a few examples.",
  files=["tools/check_spec_examples.py"], mech=[("recursive value comparison", "tools/check_spec_examples.py: _diff_paths"), ("verdict", "tools/check_spec_examples.py: compare, main")],
  tech="path-sensitive guard-fact analysis of the comparison, verdict and exit code; constant-folding of the block pattern",
  note="Block pattern decided over a fixed family of fence forms; the rest for all inputs."),
 dict(id="T02", title="The specification tagger only inserts correct, unique markers",
  statement="The tagger changes the specification only by inserting marker lines directly above fences whose parsed value equals exactly one manifest example, that carry no marker yet, at most one marker per example. A dry run writes nothing, running it again changes nothing, and skipped ambiguous fences are reported.",
  over=["inputs", "histories"], text="all specification texts and manifests, repeated runs",
  why="No test covers the tagger at all.",
  files=["tools/tag_spec_examples.py"], mech=[("planning guards", "tools/tag_spec_examples.py: tag"), ("write guard", "tools/tag_spec_examples.py: main")],
  tech="guard-fact dataflow over the planning, insertion order and write sites",
  note="Fence and marker patterns decided over a fixed family of line forms; the rest for all inputs."),
]
for p in PROPS:
    p.setdefault("files", [F])
NA = []
