#!/usr/bin/env python3
"""Source of properties.jsonl (run by hand after editing; the checks do not run it)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Every packet survives write-then-read through every read path",
  "Any packet of 0 to 255 blocks and an optional payload, once serialized, is read back equal to the original (every block field and the payload) by every way of reading it: streaming read, seekable incremental read, buffered incremental read, filtered read and the stream packet reader, each consuming exactly that packet's bytes. This holds for packets concatenated back to back, in order, for every value of every supported field type including floating-point bit patterns, and does not depend on how the bytes are split into reads.",
  ["inputs"], "all sequences of packets over all block kinds and field values, all payload kinds and sizes, all read paths",
  "The stress suites sample ten random sequences of at most 19 blocks with finite floats, only from in-memory cursors that offer the whole input at once; they never exercise 255 blocks, NaN payloads, short reads, or the filtered read path against an original.",
  ["brec/src/packet/read.rs", "brec/src/packet/mod.rs", "brec/src/packet/reader.rs", "brec/src/packet/write.rs", "brec_macros/src/codegen/read/block.rs", "brec_macros/src/collector/blocks/read.rs", "brec_macros/src/collector/payloads/read.rs"],
  [("packet readers", "brec/src/packet/read.rs"), ("stream reader", "brec/src/packet/reader.rs"), ("generated block and payload codecs", "brec_macros/src/codegen")],
  ["ReadFrom::read / TryReadFrom::try_read / TryReadFromBuffered::try_read / Packet::filtered / PacketBufReader::read results and source positions"])

p("P02", "Serialized bytes follow the documented wire format on every write path",
  "The bytes of a packet are exactly those of the specification: a 29-byte header (8-byte packet signature, body size, block-area length, payload flag, CRC32 of those three fields, all little-endian), then each block as 4-byte signature, fields in declaration order, and CRC32 of the field bytes, then the payload as length-prefixed signature, length-prefixed CRC, 32-bit body length and body. Plain write, complete write, vectored write and slice export of packets, blocks and payloads all produce the same bytes, the reported sizes equal the number of bytes produced, and disabled CRCs are stored as zeros.",
  ["inputs"], "all blocks, payloads and packets, all write methods",
  "Existing tests only read back what the same code wrote, so any symmetric change of byte order, CRC coverage, header layout or a divergence of one write path goes unnoticed.",
  ["brec/src/packet/write.rs", "brec/src/packet/header/mod.rs", "brec/src/packet/header/write.rs", "brec/src/payload/header/mod.rs", "brec/src/traits/write/mod.rs", "brec_macros/src/codegen/write/block.rs", "brec_macros/src/codegen/props/block.rs"],
  [("packet header layout", "brec/src/packet/header/write.rs"), ("payload header layout", "brec/src/payload/header/mod.rs"), ("generated block writers", "brec_macros/src/codegen/write/block.rs")],
  ["bytes received by the sink", "size()/ssize() values"])

p("P03", "Corrupted data is never accepted as a different packet",
  "If the bytes of a serialized packet are altered anywhere in data protected by a checksum or signature - packet header, block signature, block fields, block checksum, payload signature, payload checksum or payload body - then no read path returns a packet that differs from the one written: it reports an error, asks for more data, or skips the data. The same holds for a single block or payload read on its own.",
  ["inputs", "fault_sequences"], "all packets, all single-bit flips and generated multi-byte, swap, burst and truncation corruptions, all read paths",
  "No existing test reads damaged data at all.",
  ["brec/src/packet/header/read.rs", "brec/src/traits/read/mod.rs", "brec_macros/src/codegen/read/block.rs", "brec_macros/src/codegen/props/block.rs", "brec/src/traits/props/mod.rs"],
  [("header CRC check", "brec/src/packet/header/read.rs"), ("block CRC check", "brec_macros/src/codegen/read/block.rs"), ("payload CRC check", "brec/src/traits/read/mod.rs")],
  ["values returned by the read paths for corrupted input"])

p("P04", "Mixed streams: every packet found in order, every other byte reported once",
  "Reading a stream in which packets are interleaved with arbitrary other bytes yields exactly the packets, in order, and hands every byte that is not part of a packet to the ignored-data rule exactly once and in stream order, then reports that there is no more data. This holds however the source splits the bytes into reads and whatever the foreign bytes look like, including pieces of packet signatures and headers.",
  ["inputs", "schedules"], "all interleavings of packets and foreign bytes (random, signature fragments, header look-alikes), all chunkings of the source",
  "The litter tests use uniformly random junk (which never contains a signature prefix) and one chunking, and only compare the total number of junk bytes.",
  ["brec/src/packet/reader.rs", "brec/src/packet/header/mod.rs", "brec/src/packet/rules.rs"],
  [("signature search and refill state machine", "brec/src/packet/reader.rs"), ("signature position search", "brec/src/packet/header/mod.rs")],
  ["NextPacket values in order", "bytes passed to the ignored rule"],
  state=[("recent/buffered", "partial header or partial packet carried between reads", "brec/src/packet/reader.rs")])

p("P05", "Damaged packets never stop the stream reader or hide later packets",
  "When some packets of a stream are corrupted, of unknown kind, or cut short at the end of the stream, repeatedly reading always makes progress and ends with no-more-data after a bounded number of calls without panicking. Every intact packet that does not overlap a region claimed by a damaged packet's still valid header is delivered exactly once and in order, and nothing that was not written is delivered.",
  ["inputs", "fault_sequences", "schedules"], "all streams of intact and damaged packets and foreign bytes, all chunkings",
  "No test feeds the stream reader a damaged packet; the README promises skipping damaged data without breaking.",
  ["brec/src/packet/reader.rs"],
  [("drop and consume on block/payload errors", "brec/src/packet/reader.rs")],
  ["sequence of results until NoData"])

p("P06", "Incremental reads report the exact shortfall and never consume on failure",
  "An incremental read (seekable or buffered) of a packet, block, payload header or packet header from input that is a strict prefix of a valid encoding reports not-enough-data with a positive count that, when supplied, lets reading progress and never exceeds what is really missing, and leaves the source position unchanged, so that retrying after appending the rest returns the original value. When the read fails with an error, be it in the data or of the source itself, the source position is likewise unchanged, and after success it is exactly past the value (the buffered read of a payload header, which is a documented peek, consumes nothing).",
  ["inputs", "schedules"], "all values, all prefix lengths, all growth schedules, all corrupted inputs, all failures and short reads of the source",
  "Tests only ever present complete values to the incremental readers; the not-enough-data paths are not exercised.",
  ["brec/src/packet/read.rs", "brec/src/packet/header/read.rs", "brec/src/payload/header/read.rs", "brec/src/payload/header/sreader.rs", "brec/src/traits/read/mod.rs", "brec_macros/src/codegen/read/block.rs", "brec_macros/src/collector/blocks/read.rs"],
  [("availability checks and position resets", "brec/src/packet/read.rs")],
  ["ReadStatus, stream position, bytes consumed from the buffered source"])

p("P07", "Filter rules select exactly the packets they accept in every reader",
  "With any set of filter rules (by blocks, by payload bytes, by whole packet) the stream reader, the filtered packet read, and the storage's filtered and range-filtered iterators deliver exactly the packets every active rule accepts, in order, showing each rule the true blocks, payload bytes and packet, consulting later rules only for packets earlier ones accepted and payload rules only for packets with a payload; the payload of a packet refused by its blocks or bytes is never decoded. The stream reader says of every packet rejected that it skipped one. A second rule of the same kind is refused, a removed rule stops applying at once, and unfiltered reads ignore rules.",
  ["inputs", "histories", "configurations"], "all packet sequences, all rule sets and add/remove histories, all filtering readers",
  "Tests only use constant true/false rules and count invocations.",
  ["brec/src/packet/rules.rs", "brec/src/packet/mod.rs", "brec/src/packet/reader.rs", "brec/src/storage/reader/mod.rs", "brec/src/storage/reader/iters.rs"],
  [("rule dispatch", "brec/src/packet/rules.rs"), ("filtered iterators", "brec/src/storage/reader/iters.rs")],
  ["packets delivered, arguments seen by the rules"])

p("P08", "Storage behaves as an append-only indexed list of packets",
  "After any history of inserting packets and reopening the storage for writing, a reader reports the number of inserted packets and returns the n-th inserted packet for index n, nothing past the end, and exactly the right contiguous run for full iteration, iteration from a position, and ranges, across any number of slot boundaries and in any order of access. A position or range past the end yields an out-of-bounds or empty-source error or ends early, never a wrong packet.",
  ["histories", "inputs"], "all insert/reopen/read histories with zero to several thousand packets of varying size",
  "Tests fill the storage once with at most about a thousand packets and read each index forward; seeking across a slot boundary and mixed access orders are not covered.",
  ["brec/src/storage/writer/mod.rs", "brec/src/storage/reader/mod.rs", "brec/src/storage/reader/iters.rs", "brec/src/storage/locator.rs", "brec/src/storage/slot/mod.rs"],
  [("free slot location", "brec/src/storage/locator.rs"), ("slot table", "brec/src/storage/slot/mod.rs"), ("packet location iterator", "brec/src/storage/reader/iters.rs")],
  ["count, nth, iter, seek, range results"])

p("P09", "An open reader catches up with a growing storage exactly",
  "If a writer appends packets while a reader stays open, each reload returns exactly the number of packets appended since the reader last looked, and afterwards the reader answers every query as a freshly opened reader would. This holds for any number of packets between reloads, including many slots at once, and reloading with nothing new changes nothing and returns zero.",
  ["histories"], "all interleavings of appends, writer reopenings, reloads and reads",
  "The observer test reloads at 13 fixed counts that never let a partial slot fill up and a further slot begin between two reloads.",
  ["brec/src/storage/reader/mod.rs"],
  [("incremental slot reload", "brec/src/storage/reader/mod.rs")],
  ["reload() return value, count, nth, iter after reload"])

p("P10", "An interrupted append never loses or alters earlier packets",
  "If writing stops at any byte of any append, then reopening either succeeds, with every packet whose append had completed returned unchanged at its index and the interrupted one returned intact or reported missing or as an error, or reports a damaged slot; it never panics or returns anything that was not inserted. In every case the stream reader run over the file recovers all completed packets in order, and a writer reopened on a file that was accepted can append further packets that are then returned.",
  ["crash_points", "histories"], "all insert histories, every crash point (each write call and each byte within it) of an append, including the first append and those that open a new slot",
  "No test stops a write part-way; this needs enumerating crash points.",
  ["brec/src/storage/writer/mod.rs", "brec/src/storage/slot/read.rs", "brec/src/storage/slot/header.rs", "brec/src/storage/reader/mod.rs", "brec/src/storage/reader/iters.rs"],
  [("slot CRC and ordered writes", "brec/src/storage/writer/mod.rs")],
  ["result of reopening, nth/iter, stream reader output on the truncated image"])

p("P11", "Damaged storage is detected and intact packets stay recoverable",
  "When bytes of a storage file's slot metadata are altered, opening it for reading or writing reports a damaged slot rather than serving packets from wrong positions, and when packet bytes are altered, index and iteration access return only unaltered packets or errors. In all cases scanning the file with the stream reader recovers, in order, every packet whose bytes are intact.",
  ["fault_sequences", "inputs"], "all storages, all byte alterations of slot tables and packets",
  "No test damages a storage file.",
  ["brec/src/storage/slot/read.rs", "brec/src/storage/slot/header.rs", "brec/src/storage/reader/mod.rs", "brec/src/storage/writer/mod.rs"],
  [("slot signature and CRC", "brec/src/storage/slot/read.rs")],
  ["open result, nth/iter, stream reader output"])

p("P12", "Locked storage admits one writer at a time and keeps all data",
  "While one locked storage is open on a path, every other attempt to open it - from the same or another process - fails at once as locked when no timeout is given, or after at least the timeout when one is given, or succeeds once the holder is gone; it never succeeds while the holder lives. Dropping the holder (or its process dying) releases the lock, a directory is refused, and packets inserted by successive holders all remain, in order. Holding one storage does not keep any other path from being opened, and an attempt that fails for another reason (damaged data, a path that cannot be created) leaves no lock behind.",
  ["schedules", "histories"], "all histories of open, insert, close and timeout by concurrent threads and processes",
  "Four fixed two-thread scenarios are tested, none across processes and none checking the data or the timing bound.",
  ["brec/src/storage/writer/locker.rs"],
  [("advisory lock on side file", "brec/src/storage/writer/locker.rs")],
  ["open results, overlap of holders, final content"])

p("P13", "The buffered reader adapter is a transparent byte stream",
  "For any sequence of reads, buffer inspections, partial consumptions and refills, the adapter yields exactly the bytes of the underlying source, in order, with none lost or repeated, and its consumed count equals the number of bytes handed out. Its reported lengths equal the bytes currently available and it leaves the source positioned right after the consumed and retained bytes.",
  ["histories", "inputs"], "all sources and chunkings, all operation sequences",
  "The adapter has no tests.",
  ["brec/src/traits/read/reader.rs"],
  [("two-level buffer", "brec/src/traits/read/reader.rs")],
  ["bytes observed, consumed(), len()"])

p("P14", "Complete writes deliver every byte or fail, for any sink",
  "Complete writes (plain and vectored) of packets, blocks and payloads deliver exactly the encoding to a sink that accepts arbitrary short counts, and return an error - having delivered only a prefix of the encoding - when the sink accepts nothing or fails. A single plain or vectored write reports exactly the number of bytes the sink took, which always form a prefix of the encoding.",
  ["inputs", "fault_sequences"], "all values, all sink behaviours (short counts per call, zero counts, errors at any point)",
  "All tests write into growable memory buffers that accept everything.",
  ["brec/src/traits/write/slices.rs", "brec/src/traits/write/mod.rs", "brec/src/packet/write.rs"],
  [("vectored retry loop", "brec/src/traits/write/slices.rs"), ("partial write accounting", "brec/src/packet/write.rs")],
  ["sink contents and results"])

p("P15", "Every supported protocol definition compiles and obeys the codec laws",
  "For any set of blocks with fields of supported types (including enums convertible to a byte) and any set of payloads, in any modules and with any documented directives, code generation compiles and yields a protocol whose blocks, payloads and packets round-trip on every read path, have the specified layout, and are distinguished from one another by their signatures, changing a block's name or fields changing its signature. Built-in payloads are present unless disabled.",
  ["programs", "configurations"], "all protocol definitions: number and order of blocks and payloads, field names, types and counts, attributes, module paths, generator parameters",
  "Each test crate is one fixed protocol; the single generated-program test checks compilation and round-trip of its own fixed directive set.",
  ["brec_macros/src/codegen", "brec_macros/src/collector", "brec_macros/src/parsing", "brec_macros/src/entities"],
  [("block/payload code generation", "brec_macros/src/codegen"), ("unified enum generation", "brec_macros/src/collector")],
  ["compiler result and behaviour of generated programs"])

p("P16", "Arbitrary input never crashes a decoder",
  "No byte sequence - random, mutated from valid data, or crafted with valid checksums and hostile lengths, counts or flags - makes any decoder (blocks, borrowed blocks, payload headers, payloads, packets, stream reader, storage open, reload and access) panic, abort, loop without consuming input, or allocate memory out of proportion to the input. Decoders answer with a value, an error or a request for more data.",
  ["inputs"], "all byte strings given to every decoding entry point",
  "Tests never present invalid input.",
  ["brec/src/packet/read.rs", "brec/src/packet/mod.rs", "brec/src/packet/reader.rs", "brec/src/payload/header/read.rs", "brec/src/traits/read/mod.rs", "brec/src/storage/slot/read.rs", "brec/src/storage/reader/iters.rs", "brec_macros/src/codegen/read/block.rs"],
  [("length validation", "brec/src/packet/read.rs")],
  ["panics, aborts, allocation volume"])

p("P17", "The growth sensor never loses growth and never double-fires",
  "While a file grows, its sensor issues at most one wake-up until the consumer acknowledges it, and every wake-up carries a size the file had really reached beyond what was acknowledged. After an acknowledgement that leaves unprocessed bytes a new wake-up is issued, so a consumer that processes each wake-up always ends up having been told about the final size; acknowledging everything issues none, and an acknowledgement never moves backwards.",
  ["schedules", "histories"], "all interleavings of appends and acknowledgements, including concurrent ones",
  "Two fixed sequences with sleeps are tested.",
  ["brec/src/storage/observer/sensor/mod.rs"],
  [("lock flag, acknowledged length and one-place channel", "brec/src/storage/observer/sensor/mod.rs")],
  ["wake-ups received"], hook="expose the crate-private sensor under a cfg flag",
  state=[("locked", "a wake-up is outstanding", "brec/src/storage/observer/sensor/mod.rs"), ("processed_len", "acknowledged length", "brec/src/storage/observer/sensor/mod.rs")])

p("P18", "Payload frames hold for every signature and checksum length",
  "A payload whose signature and checksum have any of the supported lengths (4, 8, 16, 32, 64, 128 bytes) is framed with correct lengths, round-trips alone and inside packets on every read path, and is refused when its signature, checksum or an unsupported length is presented. Payloads are only ever decoded as the kind whose signature they carry, and the size announced for a payload or packet equals what is written.",
  ["inputs", "configurations"], "all signature and checksum lengths and values, all payload bodies, payload kinds with custom codecs and checksums",
  "All payloads in the tests use 4-byte signatures and checksums.",
  ["brec/src/payload/header/mod.rs", "brec/src/payload/header/read.rs", "brec/src/traits/props/byte_block.rs", "brec/src/traits/read/mod.rs", "brec_macros/src/collector/payloads/props.rs"],
  [("variable-length signature and CRC", "brec/src/traits/props/byte_block.rs"), ("payload header", "brec/src/payload/header")],
  ["frame bytes, decode results"])

p("P19", "Borrowed block views agree with owned blocks",
  "Parsing a block from a byte slice without copying gives a view whose fields, size and checksum equal those of the block read from a stream, and converting the view gives that block; the two agree on acceptance for every input, with the signature present or already skipped. Reading any block through the unified block type returns the right kind with the right content from streams, seekable sources, buffered sources and slices alike.",
  ["inputs"], "all blocks, all valid, truncated and corrupted slices, with and without signature",
  "The slice path is only tested with valid complete input including the signature, and the unified stream read is not tested.",
  ["brec_macros/src/codegen/read/block.rs", "brec_macros/src/codegen/base/block.rs", "brec_macros/src/collector/blocks/read.rs", "brec_macros/src/collector/blocks/props.rs"],
  [("generated slice reader", "brec_macros/src/codegen/read/block.rs"), ("unified block dispatch", "brec_macros/src/collector/blocks/read.rs")],
  ["results of the stream, seekable, buffered and slice block readers"])

p("P20", "Transient I/O failures lose nothing",
  "If the source of a stream reader fails a read and later works again, continuing to read delivers the same packets and the same ignored bytes as if the failure had not happened. If a storage append fails because its medium failed or because the packet cannot be encoded, the storage afterwards holds exactly the packets whose append succeeded, both through the writer that saw the failure and after reopening, once a later append succeeds.",
  ["fault_sequences", "histories"], "all streams with read errors injected at any read call, all append histories with write, seek or flush errors injected at any call and with packets that refuse to be encoded",
  "Tests only use sources and media that never fail.",
  ["brec/src/packet/reader.rs", "brec/src/storage/writer/mod.rs"],
  [("stream reader state", "brec/src/packet/reader.rs"), ("in-memory slot table", "brec/src/storage/writer/mod.rs")],
  ["packets delivered, storage content"])

p("P21", "Readers of a storage stay truthful while it is being appended to",
  "A storage reader that stays open while a writer appends, however far the writes of an append have got when the reader reloads and even if a reload fails because reading failed, never miscounts: the number of packets it knows is its first count plus everything its successful reloads returned, lies between the appends completed and those begun, never shrinks and is not changed by a failed reload. Every completed packet it knows is returned unchanged by index, range and iteration, at most the packet of the append in progress is missing or an error, and a later reload catches up.",
  ["schedules", "fault_sequences", "histories"], "all append histories, all points within an append at which a reader reloads, all failing reads during a reload",
  "The reload tests reload only between completed appends over media that never fail.",
  ["brec/src/storage/reader/mod.rs", "brec/src/storage/writer/mod.rs", "brec/src/storage/slot/mod.rs", "brec/src/storage/slot/read.rs"],
  [("reload", "brec/src/storage/reader/mod.rs"), ("order of writes of an append", "brec/src/storage/writer/mod.rs")],
  ["count, result of reload, nth/seek/iter/range"])

p("P22", "Storage files have one fixed layout, whatever history produced them",
  "A storage file holding a given sequence of packets consists of slots of 500 packets, each a signature, the capacity, the table of packet lengths and their checksum, followed by the packets' encodings back to back; its bytes depend only on the packets, not on how the appends were divided among writers, reopenings or short writes. Files laid out this way by an independent program are opened, appended to and read by the library, so files are exchangeable between programs and versions.",
  ["inputs", "histories"], "all sequences of packets, all divisions of the appends among writers, all splits into writes",
  "Tests only read back what the same build wrote, so a change of layout made on both sides goes unnoticed.",
  ["brec/src/storage/slot/header.rs", "brec/src/storage/slot/mod.rs", "brec/src/storage/slot/write.rs", "brec/src/storage/slot/read.rs", "brec/src/storage/writer/mod.rs"],
  [("slot encoding", "brec/src/storage/slot"), ("placement of packets", "brec/src/storage/writer/mod.rs")],
  ["bytes of the storage file, results of reading a file made independently"])

p("P23", "Unsupported definitions are refused at compile time",
  "A block or payload definition outside of what is supported - a field type no block can carry, something that is not a plain struct or enum, a reserved field name, an unknown or malformed directive, an unknown, misspelled, repeated or contradictory setting of the protocol generator - does not compile: the compiler reports an error, where the macro can tell it is the macro's own error placed at the definition, and the macro never panics and never ignores what it was told. The same program with a supported definition in that place compiles.",
  ["programs", "configurations"], "all field types, shapes of items, directives and settings of the generator, wherever they stand",
  "A test crate must compile, so tests only ever contain supported definitions; what is silently accepted or ignored shows up in users' programs.",
  ["brec_macros/src/lib.rs", "brec_macros/src/tokenized/block", "brec_macros/src/entities", "brec_macros/src/parser", "brec_macros/src/modificators", "brec_macros/src/generate/parser.rs", "brec_macros/src/parsing", "brec_macros/src/error.rs"],
  [("parsing of definitions and directives", "brec_macros/src/parser"), ("errors of the macro", "brec_macros/src/error.rs")],
  ["whether the program compiles, place and kind of the compiler's errors"])

p("P24", "Optional features only add, they never change the protocol",
  "With every combination of the features build, bincode and locked_storage a protocol definition that needs none of the missing features compiles, its blocks, payloads and packets encode to the same bytes, are read back by all read paths and stored and retrieved through storages, and what a feature adds (payload codecs, file storages locked against a second writer) works in every combination containing it.",
  ["configurations", "inputs"], "all combinations of features, all protocol definitions, all values",
  "The tests are only ever built with all the features they need at once.",
  ["brec/Cargo.toml", "brec_macros/Cargo.toml", "brec/src/lib.rs", "brec/src/storage/mod.rs", "brec/src/payload/mod.rs", "brec_macros/src/collector/mod.rs"],
  [("what is exported under which feature", "brec/src/lib.rs"), ("locked file storages", "brec/src/storage/writer/locker.rs")],
  ["whether definitions compile, bytes, results of the read paths and storages"])

p("P25", "One verdict per input: all ways of reading agree",
  "Whatever the bytes, all ways of reading a packet - from a stream, a seekable or a buffered source, through a filter, by the stream reader, and by index, iteration, range or filter from a storage - accept the same packets with the same content or all refuse, and so do the ways of reading a block or a payload. A packet never has more blocks than allowed, its blocks and payload never take bytes of what follows the packet, and an accepted packet read leaves the source exactly at the end announced by the packet's header.",
  ["inputs"], "all byte sequences, in particular those with valid signatures and checksums but lengths, counts, flags or parts that contradict each other, followed by anything",
  "Tests read what the library wrote, on which all ways agree; each way has its own code for lengths, limits and flags.",
  ["brec/src/packet/read.rs", "brec/src/packet/reader.rs", "brec/src/packet/mod.rs", "brec/src/packet/header/mod.rs", "brec/src/storage/reader/mod.rs", "brec/src/payload/header/read.rs", "brec_macros/src/codegen/read/block.rs", "brec_macros/src/collector/blocks/read.rs", "brec_macros/src/collector/payloads/read.rs"],
  [("ways of reading a packet", "brec/src/packet/read.rs"), ("stream reader", "brec/src/packet/reader.rs"), ("generated readers", "brec_macros/src/codegen/read/block.rs")],
  ["results and source positions of all readers for the same bytes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
