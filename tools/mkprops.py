#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one property per P(...) call)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []

def P(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)))

ENG = ["filtering/list.go", "filtering/patricia_trie.go", "filtering/splay_tree.go", "filtering/subscriptions.go"]
P("C01", "A built engine reports exactly the subscriptions whose pattern matches the ID",
  "For every set of subscriptions and every tag ID, a filtering engine (list, Patricia trie or splay tree) built from the set answers a search with exactly one report to the subscriber of each pattern whose bits are a prefix of the ID's bits, and with no other report. When nothing matches it returns an error and no report; when something matches it returns the ID's pure identity. All three engines therefore give the same reports.",
  ["inputs", "configurations"], "every subscription set (nested, sibling, disjoint, cross-scheme, single, empty), every ID, every engine",
  "engine tests are empty tables or a handful of hand-made tries; nesting shapes and mixed-scheme sets are unbounded",
  ENG, [("build/linkSubset/search", "filtering/patricia_trie.go:build,search; splay_tree.go:build,splaySearch; list.go:Search"), ("filter translation", "filtering/subscriptions.go:ToByteSubscriptions")],
  ["return value of Engine.Search"])
P("C02", "Searching has no memory: answers do not depend on earlier searches",
  "However many searches an engine has answered, for whichever IDs and in whichever order, its answer to any ID is the answer it would have given if it had just been built from the same subscriptions.",
  ["histories"], "every finite sequence of searches before the observed one",
  "the splay tree reorganises itself on every search; tests perform at most one search on a fresh engine",
  ["filtering/splay_tree.go", "filtering/patricia_trie.go", "filtering/list.go", "filtering/legacy_engine.go"],
  [("self-adjusting search", "filtering/splay_tree.go:splaySearch")], ["return value of Engine.Search after a search history"])
P("C03", "Adding subscriptions to a running engine takes effect and disturbs no others",
  "After subscriptions have been added to a running engine, every search answers as if the engine had been built from the old and new subscriptions together, whatever was added, deleted, searched or restored before. Adding a subscription that is already there changes nothing.",
  ["histories", "inputs"], "every history of adds (also of broader, narrower, equal and unrelated patterns), deletes, searches and save/restores",
  "the add tests are commented out; node splitting cases depend on the existing shape",
  ENG + ["filtering/legacy_engine.go"], [("add", "filtering/patricia_trie.go:add; splay_tree.go:add; list.go:AddSubscription; legacy_engine.go:AddSubscription")],
  ["return value of Engine.Search after AddSubscription"])
P("C04", "Deleting a subscription removes exactly that subscription",
  "After subscriptions have been deleted from a running engine, every search answers as if the engine had been built from the remaining ones, whatever happened before: narrower and broader patterns, other subscribers and the last remaining subscription keep working. Deleting a subscription that does not exist (unknown pattern, or another subscriber's) changes nothing.",
  ["histories", "inputs"], "every history of adds, deletes, searches and save/restores",
  "the delete tests are commented out; node removal cases depend on the existing shape",
  ENG + ["filtering/legacy_engine.go"], [("delete", "filtering/patricia_trie.go:delete; splay_tree.go:delete; list.go:DeleteSubscription; legacy_engine.go:DeleteSubscription")],
  ["return value of Engine.Search after DeleteSubscription"])
P("C05", "A saved engine restores to one that behaves identically",
  "Serialising any engine at any point of its life and restoring the bytes into a fresh engine of the same kind yields an engine that answers every search, and reacts to every later add and delete, exactly as the original would.",
  ["histories", "crash_points"], "every engine kind, every subscription set, every point of every history",
  "tests restore at most one fixed small engine and compare bytes, not behaviour",
  ENG + ["filtering/legacy_engine.go"], [("MarshalBinary/UnmarshalBinary", "filtering/{list,patricia_trie,splay_tree,legacy_engine}.go")],
  ["Engine.Search after Engine.UnmarshalBinary(Engine.MarshalBinary())"])
P("C06", "No tag data can crash a search, and short IDs are plain mismatches",
  "A search terminates normally for every event: any protocol-control bytes (also missing or too few), any ID bytes of any length including none. An ID shorter than a pattern does not match it, and never affects later searches.",
  ["inputs", "histories"], "every byte string as PC and ID, on every engine with every subscription set",
  "tests only search with well-formed 96-bit IDs",
  ENG + ["filtering/legacy_engine.go", "filtering/filter_object.go", "filtering/engine.go", "tdt/core.go"],
  [("bounds", "filtering/filter_object.go:Match; filtering/engine.go:getNextBit; tdt/core.go:Translate")], ["Engine.Search returns (no panic, no hang)"])
P("C07", "The text-matching engine reports exactly the patterns whose fields the ID has",
  "The legacy text engine reports a subscriber exactly when the ID translates to a pure identity of the pattern's scheme whose leading fields equal the pattern's fields after the filter value (for ISO: whose text starts with the pattern's text), comparing whole fields, never part of one. IDs that do not translate and patterns of unknown schemes match nothing.",
  ["inputs", "histories"], "every subscription set of well-formed patterns, every ID",
  "the legacy engine's tests cover two hand-made sets",
  ["filtering/legacy_engine.go", "tdt/core.go"], [("textual prefix match", "filtering/legacy_engine.go:Search")], ["return value of LegacyEngine.Search"])
P("C08", "A pattern's bit filter covers exactly the tags whose leading fields it names",
  "For every well-formed tag pattern and every tag encoded from well-formed fields, the pattern's bit filter is a prefix of the tag's bits exactly when scheme and filter value agree and each further field of the pattern equals the tag's field (for ISO patterns, whose fields have no fixed length: exactly when the tag's text starts with the pattern's text).",
  ["inputs"], "all six pattern types, all partitions, all field values, all pattern lengths (1 to all fields)",
  "tests check single examples per scheme, never a filter against an encoded tag",
  ["tdt/epc.go", "tdt/iso.go", "tdt/core.go", "scheme/epc.go", "scheme/iso.go"],
  [("prefix filters", "tdt/epc.go:NewPrefixFilter*; tdt/iso.go:NewPrefixFilter*; tdt/core.go:MakePrefixFilterString"), ("tag encoders", "scheme/epc.go:Make*; scheme/iso.go:Make*")],
  ["keys of Subscriptions.ToByteSubscriptions(), Engine.Search, tdt.MakePrefixFilterString, scheme.Make*"])
P("C09", "Unusable patterns are refused and subscribe nothing",
  "A pattern whose type is unknown or whose fields cannot occur in a tag (wrong number of fields, non-numeric or out-of-range field, company prefix of a wrong length, character without 6-bit code, empty field) yields an error, or at least no filter that some tag could match. In a subscription list given to an engine that works on bits such a pattern subscribes nothing and the other patterns of the list are unaffected.",
  ["inputs", "configurations"], "every malformed pattern, at every position of a subscription list",
  "tests contain a few malformed patterns; the empty-filter and wrong-bits consequences need unusual fields",
  ["tdt/epc.go", "tdt/iso.go", "tdt/core.go", "filtering/subscriptions.go"],
  [("validation", "tdt/epc.go:checkFields; tdt/iso.go:check6BitFields; filtering/subscriptions.go:ToByteSubscriptions")],
  ["tdt.MakePrefixFilterString, keys of ToByteSubscriptions(), Engine.Search"])
P("C10", "Translating an encoded EPC gives back the identity it was encoded from",
  "For every scheme (SGTIN, SSCC, GRAI, GIAI, 96 bit), every partition and all field values, translating the tag encoded from the fields yields the pure identity URN spelling exactly these fields: company prefix and reference zero-padded to the partition's number of digits, serial and individual asset reference as plain decimals.",
  ["inputs"], "all partitions and field values; the filter value must not matter",
  "tests translate one or two tags per partition; each partition has its own bit-shuffling code",
  ["tdt/core.go", "scheme/epc.go"], [("buildEPC", "tdt/core.go:buildEPC"), ("encoders", "scheme/epc.go:Make*96")], ["tdt.Core.Translate of scheme.Make*'s bytes"])
P("C11", "Translation is total: a well-formed identity or an error, for any bytes",
  "For every two PC bytes and every ID of any length, translation terminates and returns either an error or the one identity those bits spell: 96-bit EPC bits whose header is unknown, whose length is wrong, whose partition is undefined or whose fields overflow their digits are errors, all other EPC bits translate to their field values. A PC of other than two bytes is an error.",
  ["inputs"], "every byte string", "tests use valid tags; overflow and partition 7 lie outside any sample",
  ["tdt/core.go"], [("Translate", "tdt/core.go:Translate,buildEPC,checkEPC96")], ["tdt.Core.Translate"])
P("C12", "ISO unique item identifiers decode to their text under the AFI's standard",
  "For an ISO-toggled tag, translation yields the standard named by the application family identifier followed by the text of the 6-bit characters in the ID without padding, for every text, every length and every padding to whole words; an unassigned identifier is an error.",
  ["inputs"], "all AFI values, all 6-bit texts of all lengths and alignments",
  "tests decode a few fixed UIIs",
  ["tdt/core.go", "scheme/iso.go", "scheme/generate.go"], [("buildUII/parse6BitEncodedByteSliceToString", "tdt/core.go"), ("encoders and PC", "scheme/iso.go; scheme/generate.go:MakeISO,MakeISOPC")], ["tdt.Core.Translate, scheme.MakeISO"])
P("C13", "Tag encoders produce well-formed tags and consistent patterns, or an error",
  "For every combination of given and blank fields, a tag encoder produces either an error or a tag of the right size whose header, partition and given fields are exactly those requested and whose blank fields hold values its digits allow; values that do not fit are refused, values that fit are not. In prefix mode the bit filter and the pattern text it returns denote the same set of tags.",
  ["inputs"], "all schemes, all partitions, any subset of fields left blank, any field values, any random choice for blanks",
  "tests call each encoder with few fixed fields and accept any random outcome",
  ["scheme/epc.go", "scheme/iso.go", "scheme/generate.go"], [("Make*96, MakeISO*", "scheme/epc.go; scheme/iso.go"), ("MakeEPC, MakeISO", "scheme/generate.go")], ["scheme.Make*"])
P("C14", "The subscription file loads to exactly the subscriptions it lists",
  "Loading a CSV file yields, for every line whose first column is an http(s) URI (any case, normalised to lower case), all later columns that are tag patterns, in order, lines with the same URI accumulating; other lines and columns contribute nothing. An engine built from the file therefore serves exactly these subscriptions.",
  ["inputs", "configurations"], "every CSV file (quoting, ragged rows, comments, repeated URIs, mixed case)",
  "tests load one fixture",
  ["filtering/subscriptions.go"], [("LoadSubscriptionsFromCSVFile", "filtering/subscriptions.go")], ["filtering.LoadSubscriptionsFromCSVFile"])
P("C15", "A filter object matches exactly the IDs that carry its bits at its offset",
  "A filter made from a bit string and a bit offset matches an ID exactly when the ID is long enough and carries these bits at that offset; its per-byte view (which bytes it covers, their masked values) and its transparency test agree with that, for every offset and length.",
  ["inputs"], "every bit string, every offset (byte-aligned or not), every ID of any length",
  "tests use offsets up to a few bits and IDs of fixed length",
  ["filtering/filter_object.go"], [("makeFilter/NewFilter/Match/GetByteAt/HasByteAt/IsTransparent", "filtering/filter_object.go")], ["FilterObject.Match, GetByteAt, HasByteAt, IsTransparent, ToString"])
P("C16", "Subscription sets survive copying and storage unchanged and are linked as nested",
  "Cloning or storing and reloading a set of subscriptions yields an equal set that shares nothing with the original, for every set. Arranging filters by nesting (subsets under their broadest cover) keeps every filter, its subscriber and its position in the full bit string, and puts a filter beneath another exactly if that one is a prefix of it.",
  ["inputs"], "every subscription set, every set of filters with any nesting",
  "tests use one or two fixed sets",
  ["filtering/subscriptions.go"], [("Clone, MarshalBinary, UnmarshalBinary, ToByteSubscriptions, Keys", "filtering/subscriptions.go")],
  ["Subscriptions.Clone/MarshalBinary/UnmarshalBinary/ToByteSubscriptions/Keys, PartialSubscription gob"])
P("C17", "Engines never change, or depend on later changes of, the caller's subscriptions",
  "Building an engine, adding, deleting, searching, saving or restoring never modifies the subscriptions passed in, and modifying these afterwards never changes any engine's answers; several engines built from the same subscriptions live independent lives.",
  ["histories", "schedules"], "every history over several engines sharing one subscription set",
  "tests never build two engines from one set nor touch a set after use",
  ["filtering/list.go", "filtering/legacy_engine.go", "filtering/subscriptions.go", "filtering/engine_factory.go"],
  [("ownership of maps and slices", "filtering/legacy_engine.go:NewLegacyEngine,AddSubscription; filtering/subscriptions.go:Clone,ToByteSubscriptions")],
  ["caller's Subscriptions before/after every call; Engine.Search after mutating the caller's map"])
P("C18", "Factoring overlapping filters into a common part and rests loses nothing",
  "When several overlapping filters are composed into the part they have in common plus one remainder per filter, an ID matches an original filter exactly when it matches the common part and that filter's remainder.",
  ["inputs"], "every collection of filters of any length and offset that share covered bytes, every ID",
  "tests have three fixed collections",
  ["filtering/composition.go", "filtering/filter_object.go"], [("NewComposition", "filtering/composition.go")], ["fields of Composition, FilterObject.Match"])
P("C20", "Engines come into service in order of priority and never step down by generation",
  "Once started, the engine factory becomes active as soon as one engine has been generated and stays active; whenever another engine finishes generating, it takes over exactly if its deployment priority (legacy < list < splay tree < Patricia trie) is higher than the current one's. Every such takeover is announced, and no engine serves or is measured before its generation has finished.",
  ["schedules", "configurations"], "every order and timing in which engines finish generating relative to ticks and searches",
  "no test starts the factory",
  ["filtering/engine_factory.go", "filtering/engine_generator.go"], [("OnEngineGenerated handling", "filtering/engine_factory.go:Run"), ("generator FSM", "filtering/engine_generator.go:NewEngineGenerator,enterGenerating,enterReady")],
  ["EngineFactory.IsActive/Search, messages on the management channel"])
P("C21", "A factory search is answered by the engine in service, the others only shadow it",
  "Every search through the engine factory returns exactly the answer of the engine in service at that moment, for the event given; every other generated engine is offered the same event exactly once and its answer is discarded, and the engine in service sees the event exactly once.",
  ["schedules", "histories"], "every interleaving of searches, generation and engine switches",
  "no test searches through the factory",
  ["filtering/engine_factory.go", "filtering/engine_generator.go"], [("Search", "filtering/engine_factory.go:Search; filtering/engine_generator.go:Search")],
  ["EngineFactory.Search, calls seen by instrumented engines"])
P("C22", "Every searched event and every match is counted exactly once",
  "Over the traffic reports of an engine, the reported event and match counts sum up to the number of events the engine has searched and of those that matched, whatever the timing of searches, report ticks and slow consumers: none is lost, none counted twice, and no report shows more matches than events.",
  ["schedules", "histories"], "every interleaving of searches with ticks and back-pressure",
  "no test covers the statistics; losing a count needs a search during a blocked report",
  ["filtering/engine_generator.go"], [("throughput monitor", "filtering/engine_generator.go:NewEngineGenerator,Search")], ["TrafficStatus messages vs. calls of the engine"])
P("C23", "Management messages reach their consumer exactly once and say the truth",
  "Every status an engine reports and every selection the factory makes reaches the consumer of the management channel exactly once, unaltered and naming the engine concerned; the factory itself consumes none. At every interval after activation the engine in service is announced.",
  ["schedules"], "every consumer speed and channel capacity, every interleaving of ticks",
  "no test reads the management channel",
  ["filtering/engine_factory.go", "filtering/engine_generator.go", "filtering/management_message.go"], [("select loop", "filtering/engine_factory.go:Run")], ["messages received from the management channel"])
P("C24", "The best-performing engine is put in service at each interval",
  "At each of the factory's intervals at which some engine has reported a positive throughput, the engine with the highest most recently reported throughput is put in service, announced, and answers subsequent searches until the next change; with no throughput reported the engine in service stays. A reported throughput is the engine's number of events divided by the time it spent on them in the interval, and is always finite and positive.",
  ["schedules", "histories"], "every assignment of search durations to engines, every timing of intervals",
  "no test covers selection; it needs time and several engines",
  ["filtering/engine_factory.go", "filtering/engine_generator.go"], [("selective adoption handler", "filtering/engine_factory.go:Run"), ("throughput", "filtering/engine_generator.go")], ["SelectedEngine/EngineStatus messages, which engine answers Search"])
P("C25", "The engine factory neither deadlocks nor dies while its messages are consumed",
  "As long as the management channel is read, however slowly and whatever its capacity, every search completes, every generation completes and every interval produces its reports; nothing terminates the process.",
  ["schedules"], "every consumer speed, channel capacity, search load and tick alignment",
  "needs schedules with back-pressure; no test starts the factory",
  ["filtering/engine_factory.go", "filtering/engine_generator.go"], [("channel topology", "filtering/engine_factory.go:Run; filtering/engine_generator.go")], ["progress of EngineFactory.Search and of reports"])
P("C30", "Each statistics message is written to the database exactly once and correctly",
  "Each statistics message handed to the statistics manager results in exactly one point in the time-series database: traffic, throughput or selected engine, with that message's engine and values (incoming and matched events, matching percentage if there was traffic; events per microsecond; the engine's number), and a time stamp. Malformed messages are dropped without affecting others.",
  ["histories", "inputs"], "every sequence of messages of every type and value",
  "the statistics manager has no tests",
  ["monitoring/stat_manager.go", "monitoring/stat_message.go"], [("point construction and batch write", "monitoring/stat_manager.go:NewStatManager")], ["HTTP writes received by the database"])
P("C32", "The reader session answers each reader message as the protocol demands",
  "Once the reader is online, be that before or after the middleware starts, the middleware connects to it and answers every event notification with one reader-configuration message and every keep-alive with one acknowledgement, in order, bearing the configured message ID, and answers nothing else; this holds for every sequence and fragmentation of messages, and reports of any size are consumed in between without losing the stream.",
  ["histories", "inputs"], "every sequence of reader messages, every TCP segmentation",
  "the main package has no functional tests",
  ["cmd/gosstrak-fc/main.go"], [("LLRP session loop", "cmd/gosstrak-fc/main.go:run")], ["bytes received by a reader on the LLRP socket"])
P("C33", "End to end, every tag read is searched once and the statistics say so",
  "Running against a reader and a database with a subscription file, the middleware searches every tag of every report exactly once in the engine in service, so that for each engine the event and match counts written to the database add up to the numbers of tags reported and of tags matching the file's subscriptions since the engine was ready.",
  ["histories", "configurations"], "every sequence of tag reports over every subscription file",
  "the main package has no functional tests; no test runs the parts together",
  ["cmd/gosstrak-fc/main.go", "filtering/engine_factory.go", "monitoring/stat_manager.go"], [("event loop", "cmd/gosstrak-fc/main.go:run")], ["points received by the database from the running program"])
P("C34", "The tag-list tool turns a tag list into an equivalent stored tag set",
  "For every CSV list of tags (PC and EPC as printed by the tag generator), the conversion tool writes a stored tag set that, read back by the reader library, contains exactly the listed tags in order with the same PC and EPC bits.",
  ["inputs"], "every list of tags of any number and ID length", "the tool's tests cover two helper functions with fixed inputs",
  ["cmd/gobtags/main.go"], [("makeByteID, makeUint16PC, main", "cmd/gobtags/main.go")], ["the file written by gobtags"])
P("C36", "The six-bit encoding tool prints the code of every character or refuses",
  "For every text of characters that have a six-bit code (ISO 15962 / 17364 table), the encoding tool prints exactly the codes of its characters in order; without a text, or for a text with any other character, it prints no bits and fails with an error.",
  ["inputs"], "every argument", "the tool's tests cover single strings; characters without a code and a missing argument are not among them",
  ["scheme/sixenc2bin/main.go"], [("sixenc2bin, main", "scheme/sixenc2bin/main.go")], ["standard output and exit code of sixenc2bin"])
P("C37", "The capture service returns every stream's data on that stream, unharmed",
  "Everything sent on a stream of a connection to the capture service, bytes and headers, comes back on the same stream, in order and unaltered, until the sender ends the stream, which the service then ends, too; this holds for any number of connections and streams at once, and neither broken connections nor peers which do not speak the protocol affect any other connection.",
  ["histories", "schedules"], "every interleaving of streams, connections, disconnections and intruders", "the command has no tests of its service",
  ["cmd/ale-ec/main.go"], [("accept loop", "cmd/ale-ec/main.go:main")], ["bytes received by clients of ale-ec"])
P("C38", "The management endpoint mirrors streams and never disturbs the reader session",
  "While the middleware talks to its reader, everything sent on a stream of a connection to its management endpoint comes back on that stream, in order and unaltered, until the sender ends it, and the service ends it, too; and whatever anybody does at the endpoint (many connections and streams, broken connections, peers which do not speak the protocol), the middleware lives on and acknowledges every keep-alive of the reader.",
  ["histories", "schedules"], "every interleaving of management connections with each other and with the reader session", "the command has no tests of its service",
  ["cmd/gosstrak-fc/main.go"], [("management listener", "cmd/gosstrak-fc/main.go:run")], ["bytes received by management clients and by the reader"])
P("C39", "A saved engine or set that is cut short or of another engine is refused",
  "Whatever has been saved of an engine, a subscription set or an arranged subset is read back whole or refused: if only a part of it was written, cut at any byte, or if it is read into an engine of another kind, restoring returns an error and never an engine with some of the subscriptions, and never a panic; the whole document restores what was saved, whatever happened to the engine since.",
  ["crash points", "inputs"], "every byte at which the writing of every saved engine and set may have ended, and every pair of engine kinds", "tests restore two whole documents",
  ["filtering/list.go", "filtering/patricia_trie.go", "filtering/splay_tree.go", "filtering/legacy_engine.go", "filtering/subscriptions.go"],
  [("List", "filtering/list.go:UnmarshalBinary"), ("PatriciaTrie", "filtering/patricia_trie.go:UnmarshalBinary"), ("SplayTree", "filtering/splay_tree.go:UnmarshalBinary"),
   ("LegacyEngine", "filtering/legacy_engine.go:UnmarshalBinary"), ("sets", "filtering/subscriptions.go:UnmarshalBinary")], ["error of UnmarshalBinary", "searches on the restored engine"])
P("C40", "What an engine or arrangement prints of itself is exactly its subscriptions",
  "After any history of building, adding, deleting, searching, saving and restoring, the printed form of an engine (Dump) shows every subscription it has with its subscriber exactly once, and no other: a line per filter in the list, a line per subscriber with its patterns in the text engine, and in the trie and the splay tree nested lines of which each continues, at the offset it states, the bits of the line it hangs under (of the splay tree's, those marked ok; those marked ng stand beside it); the printed form of an arranged subscription set shows every filter of it in its place.",
  ["histories", "inputs"], "every history of every engine and every arrangement", "no test prints an engine",
  ["filtering/list.go", "filtering/patricia_trie.go", "filtering/splay_tree.go", "filtering/legacy_engine.go", "filtering/subscriptions.go"],
  [("List", "filtering/list.go:Dump"), ("PatriciaTrie", "filtering/patricia_trie.go:Dump"), ("SplayTree", "filtering/splay_tree.go:Dump"),
   ("LegacyEngine", "filtering/legacy_engine.go:Dump"), ("ByteSubscriptions", "filtering/subscriptions.go:Dump")], ["text returned by Dump"])
P("C41", "Printed tags and six-bit texts carry exactly their bits",
  "For every tag, made by the generator or any other with an ID of whole bytes, its printed forms carry exactly its protocol control and ID: the line form is the protocol control's digits, a comma and the ID's bits, the Go form the byte literals of both, byte for byte in order; of a tag that was refused nothing is printed; and the six-bit form of every text of the characters from SPACE to _ is the codes of all its characters in order.",
  ["inputs"], "every protocol control, ID and text", "no test prints a tag",
  ["scheme/generate.go"], [("PrintID, PrintGoBytes, Sixenc2bin", "scheme/generate.go")], ["text returned by PrintID, PrintGoBytes and Sixenc2bin"])
P("C35", "Matching tags are delivered to their subscribers",
  "For every report of tags, each subscriber with a matching pattern receives the pure identities of its matching tags.",
  ["histories"], "every sequence of tag reports over every subscription file", "delivery is not implemented",
  ["cmd/gosstrak-fc/main.go"], [("do report", "cmd/gosstrak-fc/main.go:run")], ["HTTP requests at the report URIs"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props))
