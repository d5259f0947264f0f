#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as source so wording is easy to review)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": hook}})

BI = "body-image/src/lib.rs"
BA = "barc/src/lib.rs"
BC = "barc/src/compress.rs"
FS = "body-image-futio/src/stream.rs"
FK = "body-image-futio/src/sink.rs"

prop("C01", "A body holds exactly the bytes appended, in every state it passes through",
 "After any sequence of appending, moving to a temporary file, preparing, memory mapping, gathering, cloning and exploding, a body's reported length is the sum of the lengths successfully appended and every way of reading it (reader, write-out, exploded parts) yields exactly those bytes in order. The same holds for a body made from a file or from a sub-range of one: exactly the stated range, no more and no less, in every state. Emptiness and RAM/map state queries always agree with the actual state.",
 ["histories", "inputs"], "all sequences of sink and image operations up to a depth, over buffers of lengths around every boundary, and all sub-ranges of a small file",
 "unit tests run about a dozen fixed sequences; the claim is about every order of operations and every buffer split",
 [BI], [("BodySink push/write_all/write_back/prepare", BI), ("BodyImage mem_map/gather/reader/explode/write_to", BI)],
 ["BodySink::len", "BodyImage::len", "BodyImage::reader", "BodyImage::write_to", "BodyImage::explode"],
 [("SinkState, len", "where the bytes are and how many", BI), ("ImageState, len", "prepared body", BI)])

prop("C02", "Reading in a body reproduces the source exactly, however the source delivers",
 "Reading a body in from any byte source yields a body with exactly the source's bytes, whatever the sizes in which the source delivers them, however often it is interrupted, whatever length estimate is given and whatever buffer and RAM limits are tuned. If the source fails, an error carrying that failure is returned and never a shortened body.",
 ["inputs", "fault_sequences", "configurations"], "all delivery patterns (chunk sizes, interruptions, failure point) of sources up to a length, all estimates and tunings from a boundary set",
 "tests read a handful of in-memory slices that always fill the buffer; no short delivery, interruption or failure is ever produced",
 [BI], [("read_from fill loop", BI), ("read_to_body_fs loop", BI)],
 ["BodyImage::read_from result", "bytes of returned body"])

prop("C03", "The maximum body size is enforced exactly, on every path that takes in a body",
 "A body being accumulated from a reader, an asynchronous stream of buffers, a decompressor or a compressed archived response is accepted whenever its total length is at most the tuned maximum, and rejected with the too-long error whenever it is larger. This holds regardless of buffer sizes, the length estimate, or whether it started in RAM and moved to a file on the way.",
 ["inputs", "configurations", "histories"], "all body lengths around the maximum x RAM limit x buffer sizes x delivery sizes x ingestion path",
 "tests check one or two limits with one delivery pattern; the limit must hold for every split of the body over RAM and file stages",
 [BI, FK, "body-image-futio/src/decode.rs", BA], [("read_from / read_to_body_fs size checks", BI), ("poll_send early exit", FK), ("read_compressed via read_from", BA)],
 ["result of read_from, sink polls, decode_res_body, BarcReader::read"])

prop("C04", "The RAM limit decides where a body lives: large bodies never stay in RAM",
 "A body taken in whose length exceeds the tuned RAM limit is never RAM resident when handed out, whether it came from a reader, an asynchronous sink, a decoder or an archive (plain or compressed). A body read in or streamed in whose length and length estimate are both within the limit is RAM resident and no temporary file is ever created for it.",
 ["inputs", "configurations"], "all lengths around the RAM limit x estimates x buffer sizes x delivery sizes x ingestion path",
 "tests check state at one size per path",
 [BI, FK, BA], [("max_body_ram checks", BI), ("poll_send write_back", FK), ("read/read_compressed RAM vs slice/fs choice", BA)],
 ["BodyImage::is_ram", "files opened in the temporary directory"])

prop("C05", "Readers and clones of one body never disturb each other",
 "Any number of readers, write-outs and clones of the same body, in RAM, in a file or memory mapped, used from any threads in any interleaving, each see exactly the complete body from its start, with seeks affecting only the reader that made them. Memory mapping, gathering or dropping one clone never changes what other clones or readers return.",
 ["schedules", "histories"], "all interleavings, at system-call granularity, of two or three threads each running a short program of reads, seeks, write-outs, state changes and drops",
 "tests read concurrently once under an arbitrary schedule; an implementation using the shared file cursor passes most schedules",
 [BI, FS], [("ReadSlice/ReadPos positioned reads over a shared file", BI), ("Arc/Bytes sharing on clone", BI)],
 ["bytes returned by each reader"])

prop("C06", "File faults while buffering a body are reported and never corrupt it",
 "If a system call on the temporary file of a body fails, is cut short or is interrupted at any point, then every operation either returns an error or has exactly its normal effect; a success never hides lost, repeated or misplaced bytes. A failed append leaves length and content as they were before it, so that later appends and reads are still exact; a failed move from RAM to file leaves an empty body in RAM. Nothing panics.",
 ["fault_sequences", "histories"], "every system call of every operation sequence up to a depth x {error, short count, interruption}, up to two faults per run",
 "no test injects a file system fault",
 [BI], [("error propagation and len update order in push/write_all", BI), ("write_back leaves Ram/0 on error", BI)],
 ["operation results", "len, is_ram and bytes after the fault"])

prop("C07", "Temporary files are private and leave nothing behind",
 "Bodies buffered to the file system use only files in the tuned temporary directory, which have no name there once the operation that created them has returned, and after the last body, clone, reader or stream over them is dropped no file, file descriptor or memory mapping remains. This also holds when operations fail part way.",
 ["histories", "fault_sequences", "crash_points"], "all operation sequences of C01/C06 up to a depth, with and without a fault at each system call, checking the directory and the process's descriptors and maps after each operation",
 "no test looks at the temporary directory, descriptor table or maps",
 [BI], [("tempfile_in (unnamed files)", BI), ("ownership by Arc<File>/Mmap", BI)],
 ["directory listing", "/proc/self/fd", "/proc/self/maps"])

prop("C08", "Every archived record reads back identical, for every compression and tuning",
 "A record written to an archive and read back has the same record type, the same meta, request and response headers (names, values, repeated values in order) and the same request and response bodies, for every compression strategy, every state the bodies were in when written, and every read tuning. Header values are preserved up to surrounding whitespace, and any number of headers that fits the format's block size limit is preserved.",
 ["inputs", "configurations"], "all records over small alphabets of header blocks (empty, one, repeated, many, empty value, non-ASCII value) and body lengths around CRLF, buffer and RAM limits x strategy x level x body state x read tuning",
 "tests write a few fixed records with default tunings",
 [BA, BC], [("write_record / read / read_compressed", BA), ("EncodeWrapper/DecodeWrapper", BC)],
 ["fields of the Record returned by BarcReader::read"])

prop("C09", "Records are found in write order and at the offsets reported for them",
 "Over any history of writing records, reopening the file, opening readers, reading and seeking, each successful write returns an offset at which reading yields exactly that record forever after; reading from the start yields all records in write order followed by a repeatable end-of-file; and the offset a reader reports is always the offset of the next record it will return. Appending never alters any byte of earlier records, and a reader at end-of-file sees records appended later.",
 ["histories"], "all sequences of write (each strategy), new session, new reader, read, seek to a known offset, up to a depth",
 "tests write at most a few records in one session and read them once in order",
 [BA], [("seek to end, reserve, write, rewrite head", BA), ("read/offset/seek on own position", BA)],
 ["BarcWriter::write result", "BarcReader::read/offset/seek", "file bytes"])

prop("C10", "Readers concurrent with a writer only ever see complete, committed records",
 "While one writer appends, any number of concurrent readers, at any interleaving of file operations, only ever get back complete records identical to those written, in order, or end-of-file; they never get an error, a partial or a garbled record. A reader that got end-of-file because a record was still being written obtains that record by reading again once its write has returned.",
 ["schedules"], "all interleavings, at system-call granularity, of one writer thread (1-2 records, each compression) and one or two reader threads",
 "the only concurrent test runs one arbitrary schedule",
 [BA], [("reserved head written first, rewritten last", BA), ("reader steps back on reserved head", BA)],
 ["BarcReader::read results per schedule"], [("record head type flag", "R until payload is complete, then D", BA)])

prop("C11", "Writers on one archive are mutually exclusive and lose nothing",
 "When several threads obtain writers from the same archive handle and write, in any interleaving, the writes take effect one at a time: every successful write's record is intact at its returned offset, records do not overlap, and the archive read from the start contains exactly the successfully written records. Every thread eventually gets its turn (no deadlock).",
 ["schedules"], "all interleavings, at system-call and lock granularity, of two or three writer threads each opening a writer and writing 1-2 records",
 "tests use one writer thread",
 [BA], [("Mutex<Option<File>> held by BarcWriter", BA), ("single open under the lock", BA)],
 ["file bytes", "offsets", "records read back"])

prop("C12", "A crash at any point of a write loses at most the record being written",
 "If the process dies at any point during a write, then on reopening, every record whose write had returned is read back intact, in order and at its offset, and reading from the start returns exactly those, possibly followed by the complete record being written, then end-of-file or an error, and never a partial or garbled record. After reopening, new records can be written, and each is intact at its returned offset.",
 ["crash_points", "histories"], "every prefix of the file mutations of every write history up to a depth, with the last append torn at every byte",
 "no test simulates a crash",
 [BA], [("reserve head, append payload, commit by rewriting head", BA)],
 ["archive contents after each crash image"])

prop("C13", "A failed archive write is reported and harms no other record",
 "If any file operation of a write fails, is cut short or is interrupted, the write either returns an error or has written the exact record; all records written before and after it, in the same or a later session, are intact, at their offsets and reachable reading from the start, and the failed record itself never appears. The same holds of a record refused for exceeding the size limits of the format. Interruptions and short writes alone never cause an error.",
 ["fault_sequences", "histories"], "each history of up to three writes x a fault (error, short count, interruption) at each system call, up to two faults",
 "no test injects a write fault",
 [BA, BC], [("error propagation in write", BA), ("append at end of file", BA), ("encoder finish", BC)],
 ["write results", "records read back afterwards"])

prop("C14", "Read faults never yield a wrong record, and a failed read can be retried",
 "When reading an archive, interruptions and short reads of any size are invisible to the caller. If a read fails, an error is returned (never a record with wrong or missing bytes), the reader's offset is left at the record that could not be read, and reading again after the fault has passed returns that record.",
 ["fault_sequences"], "each system call of reading small archives (each compression and body placement) x {error, every short count class, interruption}, up to two faults",
 "no test injects a read fault",
 [BA, BC, BI], [("read_exact / read loops with Interrupted handling", BA), ("offset only advanced on success", BA)],
 ["BarcReader::read and offset"])

prop("C15", "Damaged archives produce errors or records, never a panic, hang or over-read",
 "Reading any file whatsoever as an archive terminates with records, end-of-file or an error; it never panics, never loops without advancing, and never returns body bytes from outside the file's content for that record. After an error the reader's offset is where that record started, and records before the damage are unaffected.",
 ["inputs"], "every truncation, every single-byte substitution from a byte alphabet, and all combinations of boundary values in the length fields of small archives of each compression",
 "tests try four malformed heads",
 [BA], [("read_record_head validation", BA), ("length checks before reading blocks", BA)],
 ["BarcReader::read, offset"])

prop("C16", "A dialog survives conversion to a record and back unchanged",
 "Converting any dialog to an archive record and back, with or without writing it to an archive in between, yields the same method, URL, response version, status, decoded-encodings list, headers and bodies. A record lacking or with malformed meta information is refused with an error rather than converted to something else.",
 ["inputs"], "all methods and extension methods, versions, status codes 100-999, all encoding lists up to length 3, URL forms from an alphabet, each meta header missing or malformed",
 "one test converts a single GET 200 dialog",
 [BA], [("TryFrom<Dialog> for Record", BA), ("TryFrom<Record> for Dialog", BA)],
 ["fields of the converted Dialog"])

prop("C17", "Compression is applied exactly when the strategy's rule says so",
 "A record is compressed if and only if its compressible bytes reach the strategy's minimum length plus the discount for non-compressible body bytes, where body bytes count as compressible only with a compressible content type and, for response bodies when identity checking is on, only if marked as decoded to identity. The archive's compression mode flag always says how the record was actually stored, the no-compression strategy always stores plain, and plain records hold the raw bytes of headers and bodies.",
 ["inputs", "configurations"], "all combinations of body lengths around the threshold, content types, identity marking, identity checking, strategy and minimum length",
 "tests try a few sizes with one content type",
 [BC], [("CompressStrategy::is_compressible", BC), ("is_compressible_type_str, is_identity", BC)],
 ["compression flag byte in the record head", "stored bytes"])

prop("C18", "Streaming a body out yields exactly its bytes under every schedule",
 "Every asynchronous stream over a body (direct, permit, dispatch, split, yielding), for each buffer type and every state of the body, delivers exactly the body's bytes in order and then ends, whatever the timing of permits, dispatched operations and polls and whatever the buffer sizes. It never ends early without an error, never stalls without arranging a wake-up, and stays ended when polled again.",
 ["schedules", "inputs", "configurations"], "all body states and lengths around the buffer sizes x stream kind x buffer type x all interleavings of polls, permit grants and dispatched completions",
 "tests forward fixed bodies on a real runtime with whatever schedule occurs",
 [FS], [("AsyncBodyImage::poll_impl", FS), ("PermitBodyImage / DispatchBodyImage state machines", FS)],
 ["items of the stream", "waker calls"])

prop("C19", "Stream size information and item sizes are truthful at every step",
 "At every point of consuming a stream over a body, a stream that reports its end delivers no further bytes, a stream that has delivered everything reports its end once no operation is outstanding, and the size hint is always a bound on the bytes still to come, exactly the body length at the start. File-backed streams deliver non-empty items of at most the tuned file buffer size, and splitting streams deliver non-empty items of at most the tuned item size and yield once between items.",
 ["inputs", "configurations", "schedules"], "all body states, buffer splits and lengths x sizes x each step of consumption",
 "tests do not query size hints or end-of-stream during consumption",
 [FS, "body-image-futio/src/uni_body_buf.rs", "body-image-futio/src/mem_map_buf.rs"], [("http_body::Body impls", FS), ("Splittable for UniBodyBuf", "body-image-futio/src/uni_body_buf.rs")],
 ["size_hint, is_end_stream, item lengths"])

prop("C20", "Streaming into a body stores exactly the bytes sent, under every schedule",
 "For each asynchronous sink (direct, permit, dispatch), buffer type and initial body, every sequence of sends that completes leaves a body with exactly the initial bytes followed by the sent bytes in order, whatever the buffer sizes (including empty and partly consumed buffers) and the timing of permits and dispatched writes. A sink that is not ready arranges a wake-up, and after a successful flush or close nothing sent is still outstanding.",
 ["schedules", "inputs", "configurations"], "all send sequences up to a depth over buffer lengths around the limits x sink kind x buffer type x initial state x interleavings of polls, grants and completions",
 "tests forward one stream per sink on a real runtime",
 [FK], [("AsyncBodySink::poll_send", FK), ("PermitBodySink / DispatchBodySink poll_flush", FK)],
 ["into_inner body bytes", "waker calls"])

prop("C21", "Blocking file work happens only where the blocking policy allows it",
 "With the permit variants, every file operation of a stream or sink is made while holding a permit of the configured semaphore, permits are released when the operation ends, and operations on RAM bodies take none; with the dispatch variants every file operation is made on a pool thread and never on the polling thread. At most one operation per stream or sink is outstanding, dropping it at any point releases its permit or request, and cancellation is reported as an error. The plain variants ask their blocking arbiter, whichever it is, before every file operation, and do nothing and stay pending as long as it refuses; RAM bodies never wait for it.",
 ["schedules", "histories"], "all interleavings of polls, permit grants, dispatched completions, drops and semaphore closing for one or two streams/sinks",
 "tests check final bytes only; they cannot see on which thread or under which permit the file was touched",
 [FS, FK, "body-image-futio/src/blocking.rs"], [("StatefulArbiter", "body-image-futio/src/blocking.rs"), ("permit.run / dispatch_rx", FS)],
 ["thread and available permits at each file system call"])

prop("C22", "Response decoding follows the declared encodings and is all or nothing",
 "Decoding a response finds chunked first and at most one compression (the last applied) from its transfer- and content-encoding headers, in any spelling across repeated or comma-separated values (names it does not know are ignored), decompresses the body (gzip of any number of members) to exactly the original bytes, records what was decoded ending with identity, and reports whether the body changed. It decodes whatever ACCEPT_ENCODINGS asks for (br, gzip, deflate). If the encoding is known but unsupported (compress), the data is corrupt or truncated, or the result would be too long, an error is returned and the dialog is left unchanged.",
 ["inputs", "configurations"], "all header combinations up to three values over an alphabet of encodings x bodies x body state x tunings, and every truncation and single-byte corruption of compressed bodies",
 "tests cover five header combinations and one empty body",
 ["body-image-futio/src/decode.rs"], [("find_encodings / find_chunked", "body-image-futio/src/decode.rs"), ("decompress via read_from", "body-image-futio/src/decode.rs")],
 ["find_encodings, find_chunked, decode_res_body results and dialog"])

prop("C23", "Body buffers behave as an exact window over their bytes",
 "Under any sequence of advancing, splitting, slicing and converting, a body buffer, whether in RAM or memory mapped, exposes exactly the not yet consumed bytes of its window; the pieces of a split concatenate to the original and remain valid and unchanged after the other pieces and the original body are dropped.",
 ["histories", "inputs"], "all sequences of advance/split/convert/drop up to a depth over buffers of small lengths, RAM and mapped",
 "no unit test exercises these buffers directly",
 ["body-image-futio/src/uni_body_buf.rs", "body-image-futio/src/mem_map_buf.rs"], [("split_to / advance on shared map", "body-image-futio/src/mem_map_buf.rs")],
 ["remaining, chunk, deref, split_if, Into<Bytes>"])

prop("C24", "What is recorded of a request is what is sent",
 "For every way of completing a recorded request (no body, byte body, body image in any state) and every streaming body type, the recorded method, URL, headers and body equal those of the outgoing request, whose body stream delivers exactly the recorded body. An invalid request is refused with an error.",
 ["inputs", "configurations"], "all methods x URL forms x header sets x body kinds, states and lengths x stream wrapper type",
 "tests check recorded requests only through a live server, not built here",
 ["body-image-futio/src/wrappers.rs"], [("RequestRecorder impl", "body-image-futio/src/wrappers.rs")],
 ["RequestRecord getters", "request body stream items"])

prop("C25", "The command line copies and prints exactly the selected records",
 "Copying archives appends to the output, in order, exactly the selected records of each input (from the given index or offset, up to the given count, all by default), identical in all fields and stored with the chosen compression rule, and leaves inputs unchanged; an output that is the same file as an input is refused, and records that follow the selected ones are of no consequence. Printing outputs exactly the selected parts of exactly the selected records, each labelled with its true file name and offset.",
 ["inputs", "configurations"], "all combinations of start index/offset, count, part flags, compression flags and input archives up to three records",
 "there are no tests of the command line",
 ["barc-cli/src/main.rs"], [("cp / cat record loops", "barc-cli/src/main.rs"), ("filter_flags / part_flags", "barc-cli/src/main.rs")],
 ["output archive", "standard output", "exit status"])

prop("C26", "Tunings are always valid and mean what was set",
 "Every tuning that can be obtained has positive buffer, item and estimate sizes, a RAM limit not above the maximum body size and a response timeout not above the body timeout; setting an invalid value or combination is refused. Every getter returns exactly the last value set, or the documented default, independent of all other settings.",
 ["histories", "configurations"], "all sequences of setter calls up to a depth over boundary values of every setting",
 "tests set a few values once",
 [BI, "body-image-futio/src/tune.rs"], [("asserts in setters and finish", BI), ("asserts in setters and finish", "body-image-futio/src/tune.rs")],
 ["getters of the finished tunables", "refusal (panic) of setters/finish"])

prop("C27", "An HTTP exchange is recorded faithfully or fails with the right error",
 "Running a request to completion yields a dialog whose response version, status, headers and body are exactly those sent by the server, however the response is split on the wire, under every blocking policy (with a dispatch pool registered on the polling thread for that of dispatch), with chunked transfer noted as decoded. The request is received by the server as recorded. A declared or actual length above the maximum body is rejected as too long, a truncated response is an error, and a server that stalls before or within the response results in the corresponding timeout error.",
 ["inputs", "schedules", "configurations"], "all splits of small responses into up to three segments, each stall point, each framing (length, chunked, close), lengths around the limits x blocking policy",
 "the tests of this module are not even built in this environment, and otherwise use one live local server",
 ["body-image-futio/src/fetch.rs", "body-image-futio/src/lib.rs"], [("request_dialog / resp_future", "body-image-futio/src/fetch.rs"), ("InDialog::prepare", "body-image-futio/src/lib.rs")],
 ["resulting Dialog or FutioError"])

prop("C28", "The record command archives the exchange, or leaves the archive unchanged",
 "Recording a URL by the command line appends to the archive exactly one record, with the request as it was sent and the response as it was received, stored with the chosen compression rule; its body is decoded of any supported compression unless told otherwise, and what was decoded is noted in the record. Existing records are unchanged. If the exchange fails, the response is incomplete or too long, or its body can't be decoded, the command fails and the archive is unchanged.",
 ["inputs", "configurations", "faults"], "responses of each encoding and framing x options x new or existing archive; each break-off point; sequences of three runs",
 "there are no tests of the command line, and it needs a server",
 ["barc-cli/src/record.rs", "barc-cli/src/main.rs"], [("record", "barc-cli/src/record.rs"), ("fetch", "body-image-futio/src/fetch.rs"), ("decode_res_body", "body-image-futio/src/decode.rs")],
 ["exit status", "bytes and records of the archive", "request received by the server"])

prop("C29", "Concurrent transfers sharing permits, a pool or a body all complete undisturbed",
 "Any number of tasks, each forwarding a stream over a body to a body sink, may share one semaphore with at least one permit, one dispatch pool of any size, and the same source body. In every order in which the tasks due are polled, all of them complete, and each sink then holds exactly the bytes of its source. Dropping one of the tasks at any point, or a failing file operation in one of them, leaves all others complete and exact, and the failure is reported by its own task only. After all are done, every permit is available again.",
 ["schedules", "histories", "faults"], "2 or 3 transfers of all type combinations; all poll orders, releases, one drop or fault, schedules of the pool threads",
 "tests run a transfer at a time, in one order of polling",
 ["body-image-futio/src/stream.rs", "body-image-futio/src/sink.rs", "body-image-futio/src/blocking.rs"], [("PermitBodyImage", "body-image-futio/src/stream.rs"), ("DispatchBodyImage", "body-image-futio/src/stream.rs"), ("PermitBodySink", "body-image-futio/src/sink.rs"), ("DispatchBodySink", "body-image-futio/src/sink.rs")],
 ["poll results and wake-ups of each task", "content of each sink", "available permits"])

prop("C30", "Writing out a body delivers exactly its bytes, or reports the failure",
 "Writing out a body in any state (RAM, file, part of a file, memory map) to a destination which accepts any part of what it is given, or is interrupted, delivers all bytes of the body exactly once and in order, and returns their number. If the destination fails, or accepts no more, or the file of the body has fewer bytes than the body, an error is returned and what it has accepted is a prefix of the body. The body is unchanged either way, and can be written out again.",
 ["inputs", "fault_sequences"], "bodies of all states x each of the first writes taken whole, in part, not at all, interrupted or failing; files cut short",
 "tests write to memory only, which never fails or is short",
 [BI], [("BodyImage::write_to", BI)],
 ["bytes received by the destination", "result of BodyImage::write_to", "content afterwards"])

prop("C31", "Archives keep to the BARC version 2 format, both written and read",
 "What is written to an archive is in the documented format, so that any other reader of it finds the same records: at the offset reported, a record head of 54 ASCII bytes, 'BARC2 LEN TC META REQH REQB RESH' followed by two CRLF, with lengths as 12, 5, 5, 10 and 5 lower case hexadecimal digits, type D and compression P, Z or B; then meta, request headers, request body, response headers and response body. Headers are lines of name, colon, space, value and CRLF. In a plain record each part that is not empty is followed by a CRLF included in its length; in a compressed record the parts without these are a single gzip or Brotli stream, LEN being its length and the other lengths those before compression. Meta of a dialog are its url, method, response-version (as HTTP/1.1), response-status (as 200 OK), and response-decoded (as chunked, gzip) if any. Conversely, an archive in this format by any other writer is read as exactly its records and dialogs, whatever the settings of its compression, and may be appended to; a record of type R is under way, and not read until completed.",
 ["histories", "inputs", "configurations"], "all histories of writes to one archive by the library and by others, of each compression; all header blocks and body lengths of the stated families; all levels, qualities and windows of compression; meta of all methods, versions, status codes and encodings",
 "writer and reader are tested against each other: a change of both goes unnoticed, and breaks all existing archives",
 [BA, "barc/src/compress.rs"], [("write_record_head / write_record", BA), ("read_record_head / read_compressed", BA), ("TryFrom<Dialog> for Record", BA), ("Compression::flag", "barc/src/compress.rs")],
 ["bytes of the archive", "records and dialogs read"])

prop("C32", "Without optional features: the same for what is left, and the rest is refused",
 "Without the features mmap and brotli, bodies, archives, streams, sinks and response decoding behave as with them for all that does not need a memory map or Brotli: contents, lengths, limits and states are the same, archives are in the same format, and RAM and file bodies (safe to make from a file here) are delivered exactly. What cannot be done is refused without harm: reading a Brotli record fails as unsupported, leaves the position at that record, and does not hinder reading others before or after it; decoding a Brotli response fails as unsupported and leaves the dialog unchanged, and Brotli is not asked for in ACCEPT_ENCODINGS; the command line tool fails, with a message, on a Brotli record and on a request to compress with Brotli, the latter before touching the output.",
 ["histories", "inputs", "configurations"], "all operation sequences on bodies to a depth; all histories of records of each compression in one archive; all lists of encodings; all small archives copied and printed by the tool",
 "no test is run in such a build, and code for it is not even compiled by the tests",
 [BI, BA, "barc/src/compress.rs", "body-image-futio/src/decode.rs", "body-image-futio/src/stream.rs", "body-image-futio/src/uni_body_buf.rs", "body-image-futio/src/lib.rs", "barc-cli/src/main.rs"],
 [("from_file / from_read_slice without mmap", BI), ("DecodeWrapper::new", "barc/src/compress.rs"), ("BarcReader::read", BA), ("decompress", "body-image-futio/src/decode.rs"), ("ACCEPT_ENCODINGS", "body-image-futio/src/lib.rs"), ("compress_flags", "barc-cli/src/main.rs")],
 ["contents of bodies, items, archives", "errors and positions", "exit status and files of the tool"])

prop("C33", "Logging reports, and never changes results",
 "At each level of detail, the logger prints each message that is due, once, on its own line of standard error with level and target, and none that is not: messages up to info by default, with one debug flag also debug messages of these crates, with two those of all, with three or more also trace messages. Nothing is logged on standard output. Whatever the level of detail, and even if standard error can not be written to, results of the library and output, files and exit status of the command line tool are the same as without.",
 ["configurations", "inputs"], "all levels of messages x targets x levels of detail x kinds of threads; all commands of the tool x number, form and place of debug flags x state of standard error; the quick exploration of other checks with all messages composed",
 "tests run without a logger, so messages are never composed, and do not look at its output",
 ["piccolog/src/lib.rs", "barc-cli/src/main.rs", BI, BA, "barc/src/compress.rs", "body-image-futio/src/decode.rs", "body-image-futio/src/sink.rs", "body-image-futio/src/stream.rs"],
 [("setup_logger / Piccolog::enabled", "piccolog/src/lib.rs"), ("main / run", "barc-cli/src/main.rs"), ("debug!, warn! of all crates", BA)],
 ["standard error and output", "results of the library", "exit status and files of the tool"])

prop("C34", "Memory taken is bounded by the limits, whatever the length of a body",
 "A body over the RAM limit may be of any length: making it (by reading in, by appending with write back at the limit, by streaming into it, or by decoding a response) and using it (writing out, reading, streaming as items dropped one by one, memory mapping, archiving with any compression, and reading back from an archive) takes memory in the order of the RAM limit, the tuned buffers and the fixed working space of a compression, and no more for a longer body than for a shorter one. Reading an archive takes no memory for lengths which are merely claimed in a record head. Not included are memory maps themselves, and the copy made of one where items of type Bytes are asked for.",
 ["inputs", "configurations", "histories"], "all ways to make a body x all uses x settings of limits and buffers, for two lengths each; all combinations of lengths claimed in a record head",
 "tests use small bodies, and do not look at memory",
 [BI, BA, "barc/src/compress.rs", "body-image-futio/src/decode.rs", "body-image-futio/src/stream.rs", "body-image-futio/src/sink.rs"],
 [("BodyImage::read_from / write_to", BI), ("read_compressed / read_body_fs / slice_body", BA), ("decompress", "body-image-futio/src/decode.rs"), ("AsyncBodyImage::poll_impl", "body-image-futio/src/stream.rs")],
 ["peak of memory allocated"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
