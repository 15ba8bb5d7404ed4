"""message serialization properties"""
from props_core import GN
S = "src/keri/core/serdering.py"
PROPS = [
 dict(id="S01", title="A message object exists only if its content, digests, version and size agree",
  statement="A message object made from a received serialization, or from given fields, comes into being only when (unless its caller asked for no verification): the bytes are exactly those its version string, its counter or its given frame says, too few being a shortage; its protocol, version and type are known and it has exactly the fields of its type, in their order; serializing its fields again gives the same bytes, version string, kind and size; every digest field is the digest, by its own algorithm, of the serialization with the digest fields dummied and the version string sized, and, for an ACDC, the sections in it are bound by the digests of their most compact forms; and, for a key event, its identifier is well formed for its type. What does not is refused with an error, what does is never refused, and every accessor of the object reports the field it is named for.",
  over=["inputs"], text="every byte string and every field map, of every kind, protocol, version and message type",
  why="Forged or damaged messages differ from good ones in ways nobody enumerates; a field left out of the comparison or of a digest is invisible to every test whose messages are intact.",
  mech=[("construction and reading", f"{S}: Serder.__init__, _inhale, loads, dumps, verify"), ("field checks", f"{S}: Serder._validate, SerderACDC._validate, Fields"), ("content checks", f"{S}: Serder._verify, SerderACDC._verify, SerderKERI._verify"), ("digests", f"{S}: Serder._compute, SerderACDC._compute")],
  tech="guard-fact dataflow over every path to a constructed message; provenance of every digested serialization; truth-table comparison of the field set checks", note=GN + " Digest, codec and primitive classes are trusted to compute what they are named for; the sections loop is analysed one section at a time.", files=[S]),
 dict(id="S02", title="Native CESR serialization commits to every field and decodes back",
  statement="In the native CESR serialization of every KERI and ACDC message type, every field of the type is encoded exactly once, in the order of the type, after its label where the type labels its fields, by a coding that the reader inverts: the same primitive class and value, lists and seal groups counted over exactly the elements that follow. A field that has no coding is refused and never left out. The reader recovers each field from the bytes that encode it, tells apart the codings a field may have by what distinguishes them, consumes the message to its end, and refuses no message the writer makes.",
  over=["inputs"], text="every field of every message type of both protocols, every value and every length of every list",
  why="What is not in the serialization is covered by neither its digest nor its signatures; the encoder and decoder are separate tables of some forty fields by twenty-five types that must agree entry by entry, of which tests sample few.",
  mech=[("writer", f"{S}: Serder._dumps"), ("reader", f"{S}: Serder._loads"), ("field tables", f"{S}: Serder.Fields, ClanCodes, CodeClans")],
  tech="symbolic field-by-field pairing of writer and reader: per message type and field, feasible codings of the writer against those of the reader; provenance of counted frames; order of consumption", note=GN + " A primitive class is trusted to invert its own coding (Matter, Mapper, Aggor, Structor).", files=[S]),
]
NA = []
