"""Source of properties.jsonl and MANIFEST.json (see gen.py)."""

P = []


def p(id, title, statement, over, text, why, files, mech, observe, technique,
      note, level="exploration", state=None):
    P.append(dict(
        id=id, technique=technique, level=level, note=note,
        prop=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over.split(), text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files.split(),
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"state": state} if state else {}),
                               observe_at=observe, hook_needed=None))))


WEB = "src/keri/db/webdbing.py"
DB = "src/keri/db/dbing.py"
EV = "src/keri/core/eventing.py"

# ------------------------------------------------------------- browser store
p("D01", "Browser store: plain keys behave as an ordered map",
  "Within one named store of the browser-backed database, insert, overwrite, lookup, delete, count, branch (prefix) iteration, branch counting and branch deletion always agree with an ordered map from byte keys to byte values: insert never overwrites, overwrite always does, lookups see the latest acknowledged write, and every return value says truthfully whether anything changed. Branch operations touch exactly the keys that start with the given prefix, in lexical order.",
  "histories inputs", "All sequences of plain-key operations over arbitrary byte keys and values, keys that are prefixes of one another, keys with 0x00 and 0xff, and empty values.",
  "The unit tests run a few fixed short sequences; an order, prefix-boundary or return-value error shows only for particular key sets and histories.",
  WEB, [("sorted in-memory mirror with prefix range scans", "WebDBer.putVal/setVal/getVal/remVal/getTopItemIter/remTop/cntTop/cntAll")],
  ["return value of every public operation", "full contents after every operation"],
  "online reference-model monitor (sorted map) over generated operation histories",
  "Each generated history is executed on the real database and every return value and the complete contents are compared with an independent sorted-map model after each step; coverage is what the generator reached, not all histories.")

p("D02", "Browser store: ordinal-numbered entries form per-key ordered logs",
  "For every base key, entries stored under ordinal numbers form one log per key: append always lands exactly one past the highest ordinal present for that key (zero when there is none) and returns it, put never overwrites, pin always replaces, and reads, removals, counts and iterations from an ordinal onward see exactly that key's entries in increasing ordinal order. No operation on one base key reads, counts, iterates or alters entries of another base key, and an append at the largest ordinal is refused without changing anything.",
  "histories inputs", "All sequences of ordinal operations over several base keys sorting next to one another, gaps, and ordinals up to the 128-bit maximum.",
  "Tests append a handful of entries under one or two keys; boundary errors need neighbouring keys, gaps, and the maximum ordinal in particular orders.",
  WEB, [("fixed-width hexadecimal ordinal suffix and range scan", "onKey/splitOnKey, WebDBer.appendOnVal/putOnVal/pinOnVal/getOnItem/remOn/remOnAll/cntOnAll/getOnAllItemIter/getOnTopItemIter")],
  ["return value of every public operation", "full raw contents after every operation"],
  "online reference-model monitor (per-key ordinal logs) over generated histories",
  "As D01, with a model of ordinal logs; base keys are drawn so that none can be read as another key plus an ordinal, the form the wrappers produce.")

p("D03", "Browser store: each key holds an insertion-ordered set",
  "Values kept as an insertion-ordered set under one key have no duplicates and are always returned in the order in which they were first added since they were last removed; adding a present value changes nothing and reports false, pin replaces the whole set, removing one value or all values removes exactly those, and last, count, offset and branch iteration agree with that order. Operations on one key never affect another key's set.",
  "histories inputs", "All sequences of set operations over several keys, with removals at the head, middle and tail interleaved with re-adds.",
  "Tests exercise short fixed sequences; ordering after interior removals, pins and re-adds is a property of histories.",
  WEB, [("hidden insertion-ordinal key suffix", "suffix/unsuffix, WebDBer.putIoSetVals/pinIoSetVals/addIoSetVal/remIoSet/remIoSetVal/getIoSet*/cntIoSet")],
  ["return value of every public operation", "full contents after every operation"],
  "online reference-model monitor (insertion-ordered sets) over generated histories",
  "As D01, with a model of insertion-ordered sets.")

p("D04", "Browser store: per-ordinal insertion-ordered sets",
  "For every base key and ordinal the store keeps an independent insertion-ordered set; append creates the set one past the key's highest ordinal, and removal, counting and forward or backward iteration (all members, or only the last member of each set, from any starting ordinal, for one key or for the whole store) return exactly the members a per-key, per-ordinal model predicts, in that order. Operations on one base key or ordinal never affect another.",
  "histories inputs", "All sequences of operations over several base keys, ordinals with gaps up to the maximum, forward and backward iteration from every start.",
  "The tests fix one small layout; backward iteration, group boundaries and neighbouring keys depend on the history.",
  WEB, [("ordinal plus insertion-ordinal suffixes", "WebDBer.putOnIoSetVals/pinOnIoSetVals/appendOnIoSetVals/addOnIoSetVal/remOnIoSetVal/remOnAllIoSet/cntOn*/getOn*IoSet*")],
  ["return value of every public operation", "full contents after every operation"],
  "online reference-model monitor (sets keyed by key and ordinal) over generated histories",
  "As D01, with a model of sets keyed by (key, ordinal).")

p("D05", "Browser store: what was flushed is exactly what reopens",
  "After a flush returns, reopening the database from the same backing storage yields exactly the contents, ordering, version and duplicate flags that were visible in memory when the flush was called, whatever mix of mutating operations produced them. Writes never flushed are absent after reopening as a whole: the reopened store equals the state at its last flush.",
  "histories crash_points inputs", "All histories mixing every mutating operation, flushes, and abandonment (crash) at any point followed by reopen, repeated over several sessions.",
  "The tests flush after one or two kinds of write; an operation that forgets to schedule its change for persistence is visible only when that operation is the last one before the flush.",
  WEB, [("dirty tracking and JSON hex serialization", "WebDBer.flush, SubDb.dirty, _serialize_records/_deserialize_records")],
  ["contents before flush and after reopen", "raw persisted payload"],
  "durability monitor: snapshot at flush compared with state after crash and reopen, for every mutating operation",
  "The backing storage is a recording stand-in with the documented get/set/sync contract; crash = dropping the in-memory database at an arbitrary operation.",
  level="fault_enumeration")

p("D06", "Browser store: failed, cancelled or overlapping flushes lose no write",
  "A write acknowledged before a flush that returns successfully is durable afterwards, even if it was made while another flush was in progress or after an earlier flush failed or was cancelled part way. A flush that fails raises, leaves the in-memory contents untouched, and a later successful flush persists everything; the returned count is the number of stores that flush actually synced.",
  "schedules fault_sequences histories", "All interleavings of writes with suspended syncs of one or more concurrent flushes, and all patterns of sync failure or cancellation.",
  "Tests run one flush at a time with a storage that never fails or suspends.",
  WEB, [("dirty tracking around an awaited sync", "WebDBer.flush")],
  ["durable snapshot recorded by the storage stand-in at each completed sync"],
  "fault and schedule injection at the awaited sync with a durability monitor over the recorded sync log",
  "A controllable event loop stand-in suspends, fails or cancels each sync at seeded points; durable state is whatever the handle held when a sync completed.",
  level="fault_enumeration")

p("D07", "Browser store: named stores are isolated and keep their metadata",
  "Each declared store is an independent namespace: no operation on one changes or exposes entries of another or of another database name, undeclared stores are refused, and the duplicate flag chosen when a store is first opened persists and wins over later requests. Opening with clear erases previous contents, version and flags of exactly the declared stores, and the version reads back as last set, across reopen.",
  "histories configurations", "All sets of declared store and database names (including names that are prefixes of one another), open orders, flags, versions, clear flags and sessions.",
  "Tests use one or two fixed names and one reopen.",
  WEB, [("per-store namespace handle and metadata record", "WebDBer.open, WebEnv.open_db, setVer/getVer")],
  ["contents of every store of every database after every operation", "namespaces requested from storage"],
  "online reference-model monitor over multi-store, multi-session histories",
  "Model of a set of named stores per database name, checked over generated sessions on a shared storage stand-in.")

p("D08", "Native and browser stores give the same answers",
  "For every operation the native and browser-backed databases both offer, the same history of calls gives the same return values, raises in the same cases, and leaves the same entries in the same order, so code written against one behaves the same on the other. Calls whose effect only one of the two documents (a missing value or an empty key given to a plain put, set or get) are excepted.",
  "histories inputs", "All histories over every shared public operation, including misuse with empty keys, missing values and boundary ordinals.",
  "Each back end has its own tests with its own fixed examples; nothing compares them.",
  f"{WEB} {DB}", [("duplicate implementations with one contract", "WebDBer.* and LMDBer.*")],
  ["return value or exception of each call on both back ends", "full contents of both"],
  "differential monitor: lock-step execution on both back ends",
  "The native side runs over a stand-in for the lmdb binding (documented cursor, transaction and snapshot semantics); agreement is checked call by call.")

p("D09", "Removing entries while iterating neither skips nor fails",
  "An iteration over any view of a store (branch, ordinal log, insertion-ordered set, forward or backward) visits every entry that matched when it started exactly once and in order, even if the loop body removes the visited entries, removes others or adds new ones, as escrow processing does. It never raises because of those changes.",
  "histories schedules", "All iterator kinds, starting states, and interleavings of mutations with iteration steps, on both back ends.",
  "Tests drain iterators into lists before touching the store.",
  f"{WEB} {DB}", [("snapshot iteration", "read transaction cursors in LMDBer; WebDBer iterators")],
  ["items yielded", "contents after the loop"],
  "online iterator monitor with mutations injected between steps",
  "Native side runs over the lmdb stand-in; expected items are a snapshot taken through the same public view before iteration starts.")

p("D10", "Native sub-databases keep their collection semantics",
  "Each native sub-database type keeps its advertised collection for every key: single value, insertion-ordered set, lexically ordered duplicate set, ordinal log, ordinal log of sets, and insertion-ordered duplicates; what add, put, pin, append, remove, get, get-first, get-last, count and iteration return agrees with that collection after every operation. Keys joined from parts come back as the same parts, and operations on one key never affect another.",
  "histories inputs", "All histories over each sub-database type with several multi-part keys, including keys that are prefixes of one another.",
  "Tests check a fixed scenario per type.",
  f"src/keri/db/subing.py {DB}", [("sub-database wrappers over one storage engine", "Suber, OnSuber, IoSetSuber, OnIoSetSuber, DupSuber, IoDupSuber, OnIoDupSuber, B64Suber, OnIoSetSuber")],
  ["return values", "full contents"],
  "online reference-model monitor per sub-database type",
  "Real sub-database classes over the lmdb stand-in, compared with collection models after every step.")

p("D11", "Typed sub-databases return what was stored",
  "A record, cryptographic primitive, tuple of primitives, key event, schema, or signing or encrypted secret stored through a typed sub-database reads back equal to what was stored, including after the database is closed and reopened; every read path of the type (get, get-last, iteration, full items) gives the same value. Sub-databases of one record class, and those asked to be strict about their primitive class, refuse values of another type and then keep nothing.",
  "inputs histories", "All record contents and primitive kinds each typed sub-database accepts, in all serialization kinds, across close and reopen.",
  "Tests store one or two hand-made values per type.",
  "src/keri/db/subing.py src/keri/db/koming.py src/keri/recording.py", [("serialize and deserialize pairs", "Komer, IoSetKomer, DupKomer, CesrSuber, CatCesrSuber, SerderSuber, SchemerSuber, SignerSuber, CryptSignerSuber")],
  ["value written and values read through each read path"],
  "round-trip monitor over generated records and primitives, across reopen",
  "Real typed wrappers over the lmdb stand-in.")

p("D12", "A crash while accepting an event leaves a consistent key event log",
  "If the process dies at any storage commit while a key event is being accepted, then after restart the stored log is still a gap-free verifiable chain, and resubmitting the same events, from the interrupted one or from the start, brings the controller's stored key state, event log and first-seen log to what they would have been without the crash. No event is ever visible as accepted without its signatures.",
  "crash_points histories", "Every commit point of every event in generated histories (inception, interaction, rotation, recovery, delegated), followed by restart and resubmission.",
  "No test interrupts storage.",
  f"{EV} src/keri/db/basing.py", [("write order of event, signatures, logs and state", "Kever.logEvent, Kever.__init__/update, Baser.reload/clean")],
  ["stored event, signature, log and state sub-databases after restart"],
  "crash-point enumeration at storage commits with a recovery monitor",
  "Every commit of the lmdb stand-in is a crash point; state after the crash is what had been committed.", level="fault_enumeration")

# ------------------------------------------------------------- tools
p("D13", "Upgrading an older database loses nothing, even interrupted",
  "A database written in an older layout is refused until upgraded. Upgrading it converts every local identifier record, named or namespaced, to be found by its identifier and by its name, with its group members, watchers and domain; every key state and registry state, and the anchor of every saved credential; clears stale escrows; leaves event logs, first seen logs, signatures, receipts and dates as they were; and records each migration and the version. If the process dies at any point, upgrading again ends the same. Upgrading an up to date database changes nothing, and after it the same identifiers, groups and key states are in force.",
  "crash_points inputs histories", "All old layouts, sets of identifiers and names (dotted, namespaced, groups), registries and escrow leftovers, and process deaths at any storage commit, repeated.",
  "Tests only trim escrows and compare versions; no test runs a migration.",
  "src/keri/db/basing.py src/keri/db/migrations/hab_data_rename.py", [("migration sequence, version and completion records, layout conversions", "Baser.migrate/current/complete/reload, _trimAllEscrows, keri.db.migrations")],
  ["local identifier, name, key state, registry and log tables after the upgrade", "commits at which the process died", "identifiers and key states in force after reopening"],
  "Databases filled by the real code are rewritten in each older layout, upgraded by the real migrations with deaths injected at storage commits, and compared with an independent record of what was there.",
  "A transaction is atomic and durable once committed.")
p("D14", "The browser registry database answers and persists like the native one",
  "Every typed table of the browser registry database (events, anchors, logs, heads, escrows) answers reads and writes as the same table of the native registry database does. What was written before a completed asynchronous closing or flush, and the version, is exactly what a later opening finds; what was not is not there. A plain closing succeeds only if nothing is left to persist, otherwise it is refused and the database stays open and usable; a closing whose storage fails can be repeated. Clearing, or opening a temporary database, empties it and its version, and databases of other names are never affected. A closed database has no tables.",
  "histories inputs crash_points", "All sequences of typed operations over sessions, with clearing, failing storage, loss of the page, and several databases in one storage.",
  "The only test writes one entry per table once.",
  "src/keri/acdc/webregbasing.py src/keri/acdc/regbasing.py src/keri/db/webdbing.py", [("opening, closing and tables of the browser registry database", "WebRegBaser.reopen/close/aclose/getVer/setVer, RegBaser.reopen")],
  ["answers of every typed operation on both databases", "everything stored after each opening and closing"],
  "Random typed operations run on both databases in lock step; what storage holds is compared with a native database given the operations which were persisted.",
  "The native tables are right (D10, D11).")
p("T01", "Spec example drift checker is exact",
  "The drift checker reports success exactly when every worked example of the manifest appears once, tagged, in the specification text with an equal parsed value and no other tagged example exists; every missing, extra, duplicated, unparsable or differing block, however deep or small the difference, is reported and the exit status is non-zero. Formatting, key order, fence language and whitespace never cause a report.",
  "inputs", "All manifests and specification texts: JSON and Python fences, nesting, unusual whitespace and line endings, single mutations of any value at any depth.",
  "Tests use one small block per case.",
  "tools/check_spec_examples.py", [("tagged block parser and recursive comparison", "parse_spec_blocks, _diff_paths, compare, main")],
  ["exit status", "printed report"],
  "oracle over generated manifest and spec pairs with single seeded drifts",
  "Command and functions run on generated inputs whose expected verdict is known by construction.")

p("T02", "Spec example tagger is idempotent and only inserts correct markers",
  "Tagging changes the specification, with LF or CRLF line ends kept, only by inserting marker lines, each directly above a code block whose parsed value equals exactly the one manifest example it names; blocks already marked, unparsable, ambiguous or not in the manifest are left alone, and a block skipped for ambiguity or because its example already marks another is reported with its line. A second run changes nothing, no example is ever marked twice, and a dry run writes nothing.",
  "inputs histories", "All manifests and specification texts, with any subset of blocks already tagged, repeated or ambiguous blocks, malformed fences, and repeated runs.",
  "The tagger has no tests.",
  "tools/tag_spec_examples.py", [("fence finder, marker detection and bottom-up insertion", "find_blocks, already_tagged, tag, main")],
  ["text before and after each run", "exit status"],
  "metamorphic and reference monitors over generated texts and repeated runs",
  "Generated texts with known structure; the tagger's output is re-read by an independent parser.")

# ------------------------------------------------------------- CESR
p("C01", "Primitives survive every encoding unchanged",
  "Every cryptographic primitive built from a code and raw bytes encodes to text and to binary forms of the code's declared size, aligned on 24 bits, and parsing either form, alone or at the head of a longer stream, returns the same code, raw bytes and attributes and consumes exactly its own length. Distinct values never share an encoding.",
  "inputs", "All codes of the matter code table, all raw values of every admissible length including variable-length codes at size boundaries, and arbitrary trailing bytes.",
  "Tests encode a few fixed values for some codes.",
  "src/keri/core/coring.py", [("code tables and infil/exfil", "Matter, MtrDex, Sizes")],
  ["qb64, qb64b, qb2 and parsed attributes"],
  "round-trip and alignment monitor over generated primitives for every code",
  "Encoding is also recomputed by an independent implementation of the CESR layout.")

p("C02", "Malformed primitives are rejected, never misread",
  "Any text or binary that is not the exact encoding of a primitive is either rejected with a declared error, without consuming anything, or is read as that different, complete primitive; truncated material is always rejected as a shortage, unknown or wrong-family codes, non-zero pad bits and non-Base64 characters are always rejected. Whatever is accepted re-encodes to exactly the bytes that were consumed.",
  "inputs", "All truncations, single and multiple character or bit flips, random streams, and mixed code families.",
  "Tests try a few malformed literals.",
  "src/keri/core/coring.py src/keri/core/indexing.py src/keri/core/counting.py", [("strict extraction with pad and size checks", "Matter._exfil/_bexfil, Indexer._exfil/_bexfil, Counter._exfil/_bexfil")],
  ["accepted value or declared exception for each input"],
  "mutation fuzzing with a re-encode oracle",
  "Any undeclared exception, or an accepted value that does not re-encode to the consumed input, is a violation.")

p("C03", "Indexed signatures and counters survive every encoding",
  "Every indexed signature keeps its code, index, secondary index and raw signature, and every counter its group code, count and version, through text and binary forms; out-of-range or inconsistent indices and counts are refused at construction rather than truncated. Parsing at the head of a stream consumes exactly the element's own length.",
  "inputs", "All indexer and counter codes of both protocol generations, all indices and counts including limits.",
  "Tests cover chosen codes and small numbers.",
  "src/keri/core/indexing.py src/keri/core/counting.py", [("index and count packing", "Indexer, Siger, Counter")],
  ["encodings and parsed attributes"],
  "round-trip monitor over every code and boundary value",
  "Exhaustive over codes, sampled over values with boundaries always included.")

p("C04", "Self-addressing identifiers bind the whole content",
  "Computing a self-addressing identifier over a structure and verifying it succeeds for every digest algorithm, serialization kind and identifier field; changing any field value, field order, digest, or version string of the structure makes verification fail or the content be refused. The identifier does not depend on how the same content was supplied.",
  "inputs", "All field maps with nested values and unicode, all digest codes, serialization kinds and single mutations.",
  "Tests verify fixed examples and one or two alterations.",
  "src/keri/core/structing.py src/keri/core/coring.py src/keri/core/mapping.py src/keri/core/serdering.py", [("dummy-fill and digest", "Saider.saidify/verify, Mapper, Serder")],
  ["said, verification verdict"],
  "tamper monitor: every accepted structure is mutated and must be refused",
  "Digest algorithms come from the Python standard library or a native stand-in.")

p("C05", "Messages survive serialization in every kind and version",
  "Every well-formed protocol message serializes in each supported kind and protocol version to bytes whose version string states the true kind and size, and parsing those bytes, alone or with following bytes, returns the same fields, identifier and type. Truncated, resized or re-labelled messages and messages with missing, extra or ill-typed required fields are refused.",
  "inputs configurations", "All message types, JSON, CBOR, MGPK and CESR native kinds, protocol versions, field values, and single mutations of the byte stream.",
  "Tests use one instance per message type.",
  "src/keri/core/serdering.py src/keri/kering.py", [("versified serialization", "Serder, SerderKERI, SerderACDC, versify/deversify/smell")],
  ["raw, sad, said, size, kind, version"],
  "round-trip and mutation monitor over generated messages",
  "CBOR and MessagePack come from independent stand-ins for the missing libraries.")

p("C06", "Signing thresholds are satisfied exactly when enough distinct signers sign",
  "A numeric threshold is satisfied exactly when at least that many distinct signer positions are present, and a weighted threshold exactly when in every clause the distinct present positions' weights (including nested groups) sum to at least one; repeated positions never add weight and positions outside a weighted key list never satisfy. Any valid threshold survives conversion among its text, number and list forms, and malformed or unsatisfiable thresholds are refused.",
  "inputs", "All numeric and weighted thresholds, nested weights, signer subsets, duplicates and orderings.",
  "Tests list examples; duplicates of one signer were not among them.",
  "src/keri/core/coring.py", [("threshold evaluation with exact fractions", "Tholder")],
  ["satisfy verdict, sith, limen, size"],
  "differential monitor against an independent exact-fraction evaluator",
  "Exhaustive over subsets of small key lists, sampled above.")

p("C07", "Numbers, ordinals and timestamps keep value and order",
  "Every number within range round-trips through its shortest and its fixed-width encodings with the same value, and fixed-width ordinal encodings compare in the same order as the numbers; out-of-range and negative values are refused. Timestamps round-trip through their encoded form to the same instant, and labels, tags and text values round-trip to the same text.",
  "inputs", "All integers around each code boundary up to the maximum, timestamps with offsets and microseconds, tags and labels of all lengths.",
  "Tests sample a few numbers.",
  "src/keri/core/coring.py", [("number codes and fixed-width hex", "Number, Dater, Tagger, Ilker, Traitor, Verser, Texter, Bexter, Pather, Labeler")],
  ["value, encodings, order"],
  "round-trip and order monitor with boundary values always included",
  "Boundaries of every code are always exercised.")

p("C08", "Structured values keep content and order through native encoding",
  "Field maps, seals, blinded-state values, aggregate lists and partially disclosable maps round-trip through native text and binary encodings with the same labels, order, values and nesting, and compact and expanded disclosures of one structure always have the same identifier. Disclosing any subset of sections verifies exactly when the disclosed parts are unaltered.",
  "inputs", "All nested maps with strings, numbers, booleans, nulls, lists and primitives; all disclosure subsets; single alterations.",
  "Tests use fixed examples.",
  "src/keri/core/mapping.py src/keri/core/structing.py", [("native field map encoding, compaction and aggregation", "Mapper, Compactor, Aggor, Structor, Sealer, Blinder")],
  ["decoded map, saids, verification verdict"],
  "round-trip and disclosure monitor over generated structures",
  "Sampled structures; every disclosure subset of small ones.")

p("C09", "Stream parsing does not depend on how bytes arrive",
  "However a stream of messages whose attachments are enclosed in counted groups is split into chunks, and whichever framing (attachment, body-with-attachment or generic groups, native or enclosed bodies, text or binary) carries it, the same messages and attachments reach the same processors in the same order exactly once. A message refused in processing, or one whose counted attachment group is malformed, never prevents the following messages from being processed. Exactly the framed bytes are consumed, and no input makes the parser raise, hang or deliver a message that was not sent.",
  "inputs schedules", "All chunkings including single bytes, all message sequences with every attachment group, both protocol generations, refused messages at any position; attachments outside counted groups only when fed whole.",
  "Tests parse whole streams.",
  "src/keri/core/parsing.py", [("incremental extraction generators", "Parser, Counter groups")],
  ["messages and attachments delivered to processors", "bytes left in the stream"],
  "delivery-log monitor: log under every chunking equals the log of the whole stream",
  "Deliveries are recorded at the public processing entry points.")

p("C10", "Signatures and encryption accept only the right key and content",
  "A signature made by a signer verifies under its own verification key and content and under no other key, content, or altered signature, for every supported suite; anything not empty encrypted to a key pair decrypts to exactly the original with that pair's private key and with no other. Verification of malformed material returns a refusal and never accepts.",
  "inputs", "All seeds, messages (including empty and long), alterations, suites, primitive kinds encrypted.",
  "Tests use fixed seeds.",
  "src/keri/core/signing.py src/keri/core/coring.py", [("signing and sealed boxes", "Signer, Verfer, Cigar, Siger, Salter, Encrypter, Decrypter, Cipher, Streamer")],
  ["verification verdict, decrypted value"],
  "cross-key and tamper monitor",
  "Cryptographic primitives come from native or OpenSSL stand-ins, checked against published vectors by the repository's own tests.")

# ------------------------------------------------------------- KEL
p("C11", "Annotating a message loses and hides nothing",
  "Annotating a native key event message lists all of its primitives in order, one to a line and under their fields, with the sequence number, type and thresholds they encode, and stripping the annotation, however it was laid out, gives back exactly the message. Input that is cut short, followed by other material, of another type or in binary form is refused or kept whole: annotating always ends and never drops anything.",
  "inputs", "All messages and all malformed inputs.",
  "One message is annotated by tests.",
  "src/keri/core/annotating.py", [("annotation", "annot, denot")],
  ["annotation lines compared with the fields", "stripped bytes compared with the message", "refusals and a time limit"],
  "round-trip and field oracle over generated messages",
  "Messages have no attachments, as the annotator takes none.")

p("K01", "No event is accepted without its signing threshold",
  "An event changes an identifier's key state only if it is signed by distinct current keys that satisfy the current signing threshold; invalid, repeated, re-encoded or foreign signatures never count. An event short of its threshold takes effect later once, and only once, enough further valid signatures arrive.",
  "inputs histories", "All key lists and thresholds, signature subsets, repetitions, alternative encodings, wrong indices, corrupted signatures and delivery orders.",
  "Tests exercise fixed signature sets.",
  EV, [("signature verification and threshold", "Kever.valSigsWigsDel, verifySigs, Kevery.processEscrowPartialSigs")],
  ["key state and event log after every delivery"],
  "reference-validator monitor over adversarial signature sets",
  "The oracle decides acceptance from independent verification of each signature and an independent threshold evaluator.")

p("K02", "Rotation needs the pre-committed keys and prior next threshold",
  "A rotation is accepted only if its new keys expose enough of the previously committed next keys, signed by them, to satisfy both the previous next threshold and its own threshold, with sequence number and prior digest chaining to the accepted state. Current keys alone never suffice, an identifier with an empty next commitment or non-transferable identifier never accepts any further event, a basic non-transferable identifier commits to no next keys, witnesses or seals, and configured traits (such as establishment only) are enforced.",
  "inputs histories", "All rotation shapes: full, partial, reserve and augmented keys, changing thresholds, wrong keys, replays, and abandoned identifiers.",
  "Tests cover chosen rotations.",
  EV, [("next-key digest exposure and prior threshold", "Kever.rotate, Kever.exposeds, Kever.valSigsWigsDel")],
  ["key state after every delivery"],
  "reference-validator monitor over generated and adversarial rotations",
  "Oracle is an independent statement of the acceptance rule.")

p("K03", "Witness threshold counts distinct designated witnesses",
  "Where witnesses protect an identifier, an event received by a party that is neither its controller nor its witness takes effect only with valid receipts by at least the threshold number of distinct witnesses designated for that event, after applying its own cuts and adds; receipts by others, repeats and alternative encodings never count. Receipts arriving separately, in any order, and in either receipt form count the same.",
  "inputs histories schedules", "All witness lists, thresholds, cuts and adds, receipt subsets, forms, repetitions and arrival orders.",
  "Tests deliver full sets.",
  EV, [("witness verification and tally", "Kever.valSigsWigsDel, Kever.deriveBacks, Kevery.processReceipt, Kevery.processEscrowPartialWigs, processEscrowUnverWitness")],
  ["key state and stored witness receipts"],
  "reference-validator monitor over receipt subsets and orders",
  "Oracle counts distinct witnesses independently.")

p("K04", "First seen wins; conflicting events never replace accepted ones",
  "Once an event has been accepted at a sequence number, a different event at that number never changes key state or the event log unless it is a recovery allowed by the rules (a rotation superseding only interactions after the last establishment event, or a delegated rotation superseding per delegation rules), and the first-seen log is append only. Exactly repeated events change nothing but may add signatures; a fully signed conflicting event is kept apart as likely duplicitous.",
  "histories inputs schedules", "All histories of competing inceptions, interactions, rotations and recoveries, repeated and interleaved.",
  "Tests show one duplicity and one recovery.",
  EV, [("first-seen policy and recovery", "Kevery.processEvent, Kever.rotate, Kever.logEvent")],
  ["event log, first-seen log and key state after every delivery"],
  "online first-seen log monitor over duplicitous histories",
  "The log must equal what an independent first-seen rule predicts.")

p("K05", "Delegated events need the delegator's anchored approval",
  "A delegated inception or rotation takes effect for a validator only if the delegator named in it has, in its own accepted log, an event sealing exactly that delegated event; a missing, altered or foreign seal, or a delegator that forbids delegation, never authorises it. Once the approving event arrives, in any order, the delegated event takes effect.",
  "histories schedules inputs", "All delegation histories, seal alterations, delegator states and arrival orders.",
  "Tests show a fixed successful delegation and some failures.",
  EV, [("delegation seal lookup and escrow", "Kever.validateDelegation, Kevery.processEscrowDelegables, processEscrowUnverWitness")],
  ["key state of delegate after every delivery"],
  "reference-validator monitor over delegation histories",
  "Oracle decides from the delegator's accepted log.")

p("K06", "Delivery order and duplication do not change the outcome",
  "Delivering the same set of valid events, receipts and attachments in any order, with duplicates, and running escrow processing between and after them, brings every validator to the same key states, event logs and first-seen-independent records as delivering them in order. Nothing valid is left waiting once everything it depends on has arrived.",
  "schedules histories", "All permutations and duplications of deliveries for one or several related identifiers.",
  "Tests try a few out-of-order deliveries.",
  EV, [("escrows", "Kevery.processEscrows and each escrow")],
  ["key state, logs and escrow contents at quiescence"],
  "convergence monitor over permuted, duplicated deliveries",
  "In-order delivery of the same messages is the reference.")

p("K07", "Replayed and reloaded logs give identical key state",
  "Replaying the cloned event log of an identifier to a fresh party, and closing and reopening or cleaning a database, reproduce exactly the key state, logs, signatures and receipts that were there. Cloned replay of a log after those it rests on also keeps first-seen order and dates, and the copies accept and refuse further events alike.",
  "histories", "All generated histories, including multi-signature, witnessed, recovered and delegated logs, receipts by transferable and non-transferable parties.",
  "Tests replay a few logs.",
  f"{EV} src/keri/db/basing.py", [("clone iterator and reload", "Baser.clonePreIter, cloneEvtMsg, Baser.reload, Kever.reload")],
  ["key state and sub-database contents of both parties"],
  "state-equality monitor between original, clone and reopened databases",
  "Compares stored sub-databases, not only in-memory state.")

p("K08", "Stored key event logs are always verifiable chains",
  "At every moment, every stored event log is a gap-free chain from an inception whose identifier derives from it: sequence numbers increase by one along digests, every stored event hashes to its key, every stored signature verifies against the keys in force, and the recorded key state equals the state computed from the log. The first-seen log lists every accepted event once with increasing ordinals.",
  "histories inputs", "All histories including hostile ones, after every delivery.",
  "Tests assert selected fields after fixed steps.",
  f"{EV} src/keri/db/basing.py", [("logging on acceptance", "Kever.logEvent")],
  ["all event, signature, log and state sub-databases"],
  "whole-database invariant auditor run after every delivery",
  "The auditor recomputes everything from raw stored bytes.")

p("K09", "Only verified receipts are recorded",
  "A receipt is recorded as an endorsement of an event only if its signature verifies against the receiptor's key and the very event recorded, and a receipt naming another event, an unknown witness index, an altered signature, or keys other than those of the establishment event it names is never recorded. Receipts arriving before the event or before the receiptor's keys are recorded after these arrive.",
  "inputs schedules histories", "All receipt kinds (witness indexed, non-transferable, transferable), alterations, and arrival orders.",
  "Tests record valid receipts in fixed orders.",
  EV, [("receipt processing and escrows", "Kevery.processReceipt, processAttachedReceiptCouples, processEscrowUnverNonTrans/Trans/Witness")],
  ["stored receipts after every delivery"],
  "receipt auditor: every stored endorsement is re-verified after every delivery",
  "Auditor verifies each stored endorsement from raw bytes.")

p("K10", "Own, witnessed and delegated identifiers change only through local events",
  "An event of a locally controlled identifier, of one with a local witness in force for that event, or an establishment event whose delegator is local, never changes key state or log when it arrives from a remote source, however early, late or repeated; the same event from a local source does. Signatures of a local group member never count when they arrive remotely, those of the other members do, and events that need no such protection take effect from any source.",
  "histories configurations inputs", "All sources and roles (controller, witness, delegator, third party), event kinds and orders.",
  "Tests check a few roles.",
  EV, [("local and remote separation", "Kever.locallyOwned, Kevery.processEvent local flag, escrowMFEvent")],
  ["key state and log"],
  "role and source matrix monitor",
  "Every combination of role and source is exercised per history.")

p("K11", "Signed replies never roll back",
  "A signed endpoint-role, location or watcher reply takes effect only if its signatures verify against the signer's keys in force and it is newer than what is recorded for the same subject: by the signer's establishment sequence then by timestamp; older, repeated, altered or unauthorised replies never change what is recorded. The recorded answer for a set of replies is the same in whatever order they arrive.",
  "schedules inputs histories", "All orders and repetitions of endpoint-role, location and watcher replies from transferable and non-transferable signers, across rotations.",
  "Tests send replies in a fixed order.",
  "src/keri/core/routing.py src/keri/core/eventing.py", [("best available data acceptance", "Revery.acceptReply, Kevery.processReplyEndRole, processReplyLocScheme")],
  ["recorded endpoint, location and reply sub-databases"],
  "order-independence and monotonicity monitor",
  "An independent best-available-data rule computes the expected record.")

p("K12", "Queries are answered exactly from accepted state",
  "A query with a known route is answered exactly once, when its conditions (identifier known, sequence number reached, sealed anchor present) hold in accepted state: at once if they hold on arrival, otherwise as soon as accepted events make them true, and never before. The answer (log replay from the asked first-seen number, key state, or mailbox stream) reproduces exactly that state and is addressed to the requester, transferable or not.",
  "inputs histories", "All query routes, parameters, signers and states.",
  "Tests issue a few queries.",
  EV, [("query routing and escrow", "Kevery.processQuery, processQueryNotFound")],
  ["cues produced"],
  "query-answer monitor",
  "Answers are applied to a fresh party and compared with the source.")

p("K13", "Replayed messages are accepted at most once",
  "With replay protection configured, a given protocol-version-2 message from a given sender is processed at most once as long as its timestamp is within the allowed window, however it is authenticated and whichever records were pruned meanwhile; a message outside the window or its exchange's period, unsigned, or signed by wrong or superseded keys is never processed. A message in the window authenticated by its sender's current keys, or by an anchoring seal, is processed, also when its signatures arrive in parts.",
  "schedules inputs histories", "All arrival orders, repetitions, timestamps around the window edges, transactioned and non-transactioned messages, and pruning times.",
  "Tests use fixed timestamps.",
  "src/keri/core/kraming.py", [("timeliness cache", "Kramer")],
  ["accept or refuse verdict per message"],
  "online at-most-once monitor with an independent window model",
  "The clock is controlled by the harness.")

# ------------------------------------------------------------- keeper / habitat
p("H01", "Key management is deterministic, protected and never reuses keys",
  "From the same salt and parameters a key manager creates the same sequence of key pairs, each rotation makes the previously committed next keys current, signatures made by it verify under the current keys, and no key is issued twice as long as derivation paths differ. With an encryption key set, no secret is stored in clear, secrets survive re-encryption and removal of encryption, and a wrong key is refused.",
  "histories configurations", "All sequences of incept, rotate, replay, sign, re-encrypt, reopen over both key creation algorithms and all tiers used.",
  "Tests follow a fixed sequence.",
  "src/keri/app/keeping.py", [("key sequence parameters and encryption", "Manager, Creatory, Keeper")],
  ["public keys, signatures and raw stored secrets"],
  "history monitor with an independent derivation of expected keys",
  "Argon2id is computed for real by the stand-in; elliptic curve keys besides Ed25519 only without encryption, which refuses them.")

p("H02", "A controller's own identifier survives any sequence of actions and restarts",
  "After any sequence of inception, rotation and interaction through the controller interface, with restarts in between, and after a crash at any storage commit once the stores exist, the controller's key state equals what a remote validator computes from the messages it produced, and the next rotation always succeeds. A restart never loses or changes identifiers, names, keys or the ability to sign.",
  "histories configurations crash_points", "All sequences of actions, key and witness configurations and restarts.",
  "Tests do one or two rotations.",
  "src/keri/app/habbing.py", [("habitat over keeper and database", "Hab, Habery")],
  ["own key state, remote key state, produced messages"],
  "controller-validator agreement monitor across restarts",
  "Runs over the stand-ins for filesystem helper and lmdb.")

p("H03", "Group identifiers act only with enough members",
  "A group multi-signature identifier's events take effect exactly when contributions of enough members, in any order and possibly repeated, satisfy its threshold; all members and outside validators then reach the same group state. No single member's contribution counts twice, and a member is told its proposal is complete only if that very event took effect.",
  "schedules histories", "All group sizes, thresholds, contribution orders and repetitions.",
  "Tests use fixed groups.",
  "src/keri/app/habbing.py src/keri/app/grouping.py src/keri/core/eventing.py", [("group habitat and partial signature escrow", "GroupHab, Counselor, Kevery.processEscrowPartialSigs")],
  ["group key state at each member"],
  "threshold and convergence monitor over contribution orders",
  "Messages are exchanged directly between members' parsers.")

p("H04", "Witnesses receipt only what they accepted, and receipting reaches everyone",
  "A witness's endpoints return and record its own receipt of an event exactly when it has accepted that event in a log that designates it there: never for events that are conflicting, out of order, short of signatures or of another's log, and again for accepted ones. The receipts it hands out on request are exactly those it holds and all verify, the logs it hands out are those it accepted. When a controller's receipting of an event ends, the controller and each witness that answered hold the event and every receipt the controller obtained, whichever other witnesses have no address, refuse or lag; a newly added witness then has the whole log and the addresses of the others. Receipting by all witnesses is announced once, and only when all receipts are held everywhere.",
  "histories inputs fault_sequences schedules", "All sequences of good, false, early, conflicting, repeated and recovering events, requests, witness changes, outages and delays.",
  "Tests post one inception to one witness.",
  "src/keri/app/indirecting.py src/keri/app/agenting.py src/keri/app/habbing.py src/keri/app/httping.py src/keri/core/eventing.py", [("witness receipt and query endpoints", "ReceiptEnd, HttpEnd, QueryEnd"), ("receipt collection", "Receiptor, WitnessReceiptor, HTTPMessenger")],
  ["responses of the endpoints", "stored receipts and logs at controller and witnesses"],
  "receipt conservation monitor over the stores of a controller and its witnesses under hostile events and outages",
  "Clients and servers are connected in process; requests are delivered one at a time and whole.")

p("E05", "Posted messages reach the recipient whole, once and in order",
  "A message posted to a recipient reaches every controller and agent endpoint the recipient currently authorises exactly once and byte for byte, and, if it has attachments, exactly one of its authorised mailboxes (or, if it authorises no endpoint at all, one of its witnesses) under the posted topic, in posting order; a mailbox the sender itself provides is written directly. Endpoints whose authorisation the recipient has cut, old addresses and other hosts get nothing. A delivery is announced exactly when it took place, an unreachable recipient does not stop later deliveries, and a host stores nothing from a wrapper that its sender did not sign or that comes again. Streams that are sealed to an endpoint or mailbox open there to the same messages in the same order, whatever their sizes.",
  "histories inputs configurations", "All posting histories, kinds of messages and mixes of endpoints, mailboxes and witnesses, with changes of them in between.",
  "Tests post one message to one recipient.",
  "src/keri/app/forwarding.py src/keri/app/habbing.py src/keri/app/agenting.py src/keri/app/storing.py src/keri/peer/exchanging.py", [("posting and forwarding", "Poster, StreamPoster, ForwardHandler, introduce"), ("endpoints of a recipient", "Hab.endsFor")],
  ["bytes that arrive at endpoints", "mailboxes of hosts and sender", "announcements"],
  "exactly-once and order monitor over mailboxes and endpoint traffic",
  "Clients and hosts are connected in process; requests are delivered one at a time and whole.")

p("E06", "Delegation approval completes exactly on the delegator's seal",
  "After a controller asks for the approval of a delegated event, the event and one request for it reach the delegator's mailbox exactly once (at most once if a restart comes first), once the event's witnesses have receipted it. The approval is reported complete exactly for events which the delegator's accepted log, as known to the controller, seals by prefix, number and digest; the sealing event is then kept as the approval of that very event, of no other, and the witnesses have the delegator's log. This holds whatever else the controller or the delegator do meanwhile, with several approvals pending, seals that name other events, and after restarts at any point.",
  "histories schedules configurations", "All histories of requests, seals, further events, deliveries of the delegator's log and restarts, with and without witnesses.",
  "Tests approve one inception.",
  "src/keri/app/delegating.py src/keri/app/agenting.py src/keri/app/forwarding.py src/keri/db/basing.py", [("delegation approval", "Anchorer"), ("publication of the approval", "WitnessPublisher"), ("search for a seal", "Baser.fetchLastSealingEventByEventSeal")],
  ["completed delegations", "approvals kept", "mailbox of the delegator", "logs of the witnesses"],
  "seal-conformance monitor over interleaved approvals with restarts",
  "Clients and hosts are connected in process; requests are delivered one at a time and whole.")

p("E07", "Polling a mailbox hands over every message once and in order",
  "A controller that polls its mailboxes is handed exactly the messages stored there for its identifiers under the polled topics, byte for byte, each once and in storage order per mailbox and topic; nothing of other topics, nor from hosts it no longer names when it starts. This holds for several identifiers and mailboxes (witnesses among them) at a time, answers that arrive in pieces, connections that break, time out or are taken up again, addresses and identifiers learned later, and restarts: after a stop at any moment polling goes on without a gap, with at most the last message of a mailbox and topic handed over again.",
  "schedules histories crash_points configurations", "All schedules of posting, polling, breaks and restarts, over mixes of identifiers, mailboxes and witnesses.",
  "Tests poll one mailbox once, without breaks.",
  "src/keri/app/indirecting.py src/keri/app/storing.py src/keri/app/agenting.py", [("polling", "MailboxDirector, Poller"), ("answers to polls", "HttpEnd, QryRpyMailboxIterable, MailboxIterable"), ("mailbox query", "Kevery.processQuery")],
  ["messages handed to the parser", "mailboxes", "messages taken in"],
  "exactly-once and order monitor over polling with broken connections and restarts",
  "The answer of a mailbox arrives in order, if at all; clients and hosts run in one process.")

p("E08", "Questions are sent once, to the right host, and end with the answer",
  "A question about another controller's log (for an event number, a sealing event or its key state) is sent exactly once, as a signed query with the asked modifiers, to one of the witnesses the asker names or else to an agent, or failing that a witness, of that controller. It ends exactly when the asker's accepted log holds the answer: at once if it already does, never before; a notice of a newer state leads to one query for the log and ends when the log has reached it. Several questions at a time do not disturb each other.",
  "schedules histories inputs", "All interleavings of questions with growth of the log, over kinds of questions and endpoints, known and unknown controllers.",
  "Tests look at the queue of one querier.",
  "src/keri/app/querying.py src/keri/app/agenting.py src/keri/app/habbing.py src/keri/core/eventing.py", [("queriers", "SeqNoQuerier, AnchorQuerier, KeyStateNoticer, LogQuerier"), ("sending of queries", "WitnessInquisitor"), ("search for a seal", "Baser.fetchLastSealingEventByEventSeal")],
  ["queries that arrive", "questions done", "accepted log of the asker"],
  "online monitor of question life cycles against accepted logs",
  "Unknown controllers are only asked about through named witnesses; clients and hosts run in one process.")

# ------------------------------------------------------------- credentials
p("V01", "Registry state follows only anchored, ordered, authorised events",
  "A credential registry's state at any validator contains only (JSON) registry, issuance and revocation events that an accepted key event of the issuer seals (as its only seal) at the named place and, where the registry has backers, that enough distinct backers of the registry's accepted state endorsed. A credential is issued at most once, and revoked at most once, after its issuance and by the registry that issued it. Delivering the events and their anchors in any order gives the same final state, also after a restart and at a validator fed from a clone, and queries answer with that state. Events of a validator's own registries are refused from elsewhere.",
  "histories schedules inputs", "All issuance and revocation histories with altered, unanchored, repeated or reordered events, with and without backers.",
  "Tests issue and revoke once.",
  "src/keri/vdr/eventing.py src/keri/vdr/viring.py", [("transaction event log and escrows", "Tever, Tevery, Reger")],
  ["registry and credential state"],
  "reference state machine monitor over permuted and hostile deliveries",
  "Oracle is an independent state machine fed with anchored events.")

p("V02", "New-style registries apply exactly anchored updates in sequence",
  "A registry of the current generation advances only along a chain of updates, each sealed by an accepted and sufficiently witnessed event of its issuer, and ends in the same head and blinded state whatever the order in which updates, anchors and receipts arrive, also after restarts and interruptions at any storage commit. Unanchored, altered, foreign or out-of-sequence updates never change the head, and a conflicting one never replaces an accepted one. Registries are found again by name, and refused issuances leave nothing behind.",
  "histories schedules inputs crash_points", "All update sequences, anchors, receipts, orders, alterations, restarts and interruptions.",
  "Tests apply one or two updates.",
  "src/keri/acdc/registraring.py src/keri/acdc/registering.py src/keri/acdc/regbasing.py", [("registry processing and missing-anchor escrow", "Registry, Registrar, Regery, RegistryStore")],
  ["registry head, log and stored events"],
  "reference monitor over permuted, hostile and interrupted deliveries",
  "Oracle computes what is acceptable from the delivered events and anchors independently.")

p("V03", "A credential is verified only if everything it rests on is",
  "A (JSON) credential becomes verified only if its content matches its identifier and validates against its schema, the registry it names belongs to its issuer and itself issued it, and every credential it chains to is verified, not revoked, of the demanded schema, and in the demanded relation of issuers and holders; unsupported relations are refused. Its own revocation is recorded beside it. Once missing key events, registry events, schemas or credentials arrive, in any order and across restarts, waiting credentials become verified, and the indexes and clones list exactly what is.",
  "histories schedules inputs", "All credential chains, schemas, edge operators, alterations, revocations and arrival orders.",
  "Tests verify fixed chains.",
  "src/keri/vdr/verifying.py src/keri/vc/proving.py src/keri/core/scheming.py src/keri/vdr/eventing.py", [("chain verification and escrow", "Verifier")],
  ["saved and escrowed credentials"],
  "reference verifier monitor over credential graphs",
  "Oracle evaluates the acceptance rule over the graph independently.")

p("V04", "Presentation exchanges only advance in the agreed order",
  "An issuance and presentation exchange accepts a message only as a reply the protocol allows to the message it names, coming from the party that one was addressed to and before any other reply to it, and only once its sender's signatures verify, whether they come together, in parts or before the sender's keys are known; everything else is refused without effect. Each accepted message is announced exactly once, repetitions and other messages, true or false, never undo, hide or replace it or its response, and it can be read back and passed on with its embedded messages and their attachments as its maker gave them.",
  "histories inputs", "All sequences of apply, offer, agree, grant, admit, spurn and unrelated messages by several parties, in order or not, repeated, partly signed, mis-signed or re-targeted.",
  "Tests follow the happy path.",
  "src/keri/vc/protocoling.py src/keri/acdc/ipexing.py src/keri/peer/exchanging.py", [("exchange dispatch, escrow and verification", "Exchanger, IpexHandler, verify"), ("message building and reading", "ipexGrantExn, grant, specialExchange, cloneMessage, serializeMessage")],
  ["stored exchange messages, notices, responses, what handlers receive, relayed messages"],
  "reference protocol automaton over generated message sequences",
  "The automaton is stated independently of the code.")

p("V05", "Schemas are content-addressed and enforced",
  "A schema is accepted only if its identifier matches its content, and a credential body is judged valid against a schema exactly when a JSON Schema validator says so; an altered schema is never used under the original identifier. Cached schemas are returned unaltered.",
  "inputs", "All schemas with nested types and all instances, single alterations.",
  "Tests use one schema.",
  "src/keri/core/scheming.py", [("schema identifier and validator", "Schemer, JSONSchema, CacheResolver")],
  ["identifier verdict, validation verdict"],
  "tamper monitor and comparison with a direct validator call",
  "JSON Schema validation itself is the jsonschema library's.")

# ------------------------------------------------------------- end points etc
p("E01", "Signed HTTP requests verify exactly when unaltered",
  "A signature made for a request verifies, over the signature base rebuilt from the received request and its parsed signature-input header, exactly when the covered method, path and header fields (up to surrounding spaces), the signature parameters and the signer's key are those it was made with; what is not covered does not matter. Signature and signature-input headers survive formatting and parsing unchanged. The request validator lets through exactly requests whose content carries good signatures by all current keys of its controller. A message stream becomes one request per message, with nothing lost, moved or mixed, and a request read back gives that message and its attachments.",
  "inputs", "All signages with several markers, indexed or not, covered fields, parameters, values and streams, and single alterations.",
  "Tests use a few headers and a couple of requests.",
  "src/keri/end/ending.py src/keri/app/httping.py", [("signature headers", "signature, designature, siginput, desiginput, normalize"), ("requests", "SignatureValidationComponent, streamCESRRequests, createCESRRequest, parseCesrHttpRequest")],
  ["parsed signages, signature base, validator verdict, requests sent"],
  "round-trip and tamper monitor",
  "Structured-field formatting is a stand-in for the missing library.")

p("E02", "Mailboxes, notices, contacts and signals are kept whole and in order",
  "Each mailbox topic returns exactly the messages stored for it, unaltered and in order, from any requested position, whatever else is stored, and a stream over topics shows each message once, also when messages come or go meanwhile. Notices are kept until removed, listed in time order and with their content intact; one whose content or signature was altered is neither listed nor marked. A contact is returned by identifier or by search with exactly its latest fields, only if its signature still verifies; a signal stays until taken, expired or replaced by a later one with its collapse key.",
  "histories inputs", "All histories of storing, reading positions, streaming, marking, replacing, removing, restarting and tampering.",
  "Tests store a few messages.",
  "src/keri/app/storing.py src/keri/app/notifying.py src/keri/app/organizing.py src/keri/app/signaling.py src/keri/app/indirecting.py", [("topic logs and signed records", "Mailboxer, MailboxIterable, Noter, Notifier, BaseOrganizer, Signaler")],
  ["messages, stream blocks, notices, contacts and signals read back"],
  "reference-model monitor over generated histories",
  "Models of topic logs, notice collections and contact books; lists and values of contacts come from an unsigned index.")

p("E03", "Introductions resolve to verified content or a recorded outcome",
  "Every recorded out-of-band introduction ends as resolved, failed or waiting for another try, whatever its address answers, and no answer keeps others from being resolved. What a controller or witness serves lets a fresh party reach the same key state, roles and locations; only events, roles and locations that verify, and only schemas with the identifier asked for, are adopted. A multiple introduction ends when all its parts did, failed if one failed. A repeated introduction records its latest outcome. An alias is given to the identifier the introduction names. Introductions in replies count only if their signatures verify, and a well-known address authenticates an identifier only by a successful answer.",
  "histories inputs", "All mixes of introductions and answers, in all orders, with restarts, delays and failures.",
  "Tests resolve a few introductions served correctly.",
  "src/keri/app/oobiing.py src/keri/end/ending.py src/keri/app/habbing.py src/keri/app/organizing.py", [("introduction workflow and served answers", "Oobiery, Authenticator, OOBIEnd, replyEndRole, replyToOobi")],
  ["requests made, records kept in each introduction table, adopted events, roles, locations, schemas and contacts"],
  "reference-model monitor over generated histories",
  "HTTP client and server are stand-ins at the level of requests and responses.")
p("E04", "Adjudication reports contradicting, newer and lagging watchers as they are",
  "A key state notice is saved for its source only if signed by it, and only if the source is the identifier itself, one of the notice's witnesses or a watcher of the observer; not if it is below the observer's log, contradicts it, or is older than the last accepted from a non-transferable source. One source's notice never changes what another reported. Adjudication over the enabled observed watchers of a controller for an identifier reports duplicity if any contradicts the observer's log or two contradict each other at the same sequence number, naming them; otherwise an update only if at least the threshold (all by default) are ahead; lagging if some are behind and none ahead; consistency only if all that answered are even. It never changes local key state, and a threshold above the number of watchers is refused.",
  "histories inputs", "All mixes of true, forked, mislabelled, stale, repeated, altered and untrusted notices from any number of sources, while the log grows, with adjudications at any time.",
  "Tests adjudicate one watcher's hand-written record in three situations.",
  "src/keri/app/watching.py src/keri/core/eventing.py", [("adjudication", "Adjudicator, diffState"), ("key state notices", "processReplyKeyStateNotice, updateKeyState, processReplyAddWatched")],
  ["saved key state per source, observed records, adjudication cues, local key state"],
  "reference-model monitor over generated histories",
  "No superseding recovery in the adjudicated log; out-of-order notices of transferable sources are not judged.")
