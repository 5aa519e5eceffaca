#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep the statements readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

BIN, COM, WIRE = "encoding/thriftbinary/thriftbinary.go", "encoding/thriftcompact/thriftcompact.go", "encoding/thriftwire"
ARS, FLD = "thrift/arshal_default.go", "thrift/fields.go"
IDL = ["tools/thriftfile/scanner.go", "tools/thriftfile/parser.go", "tools/thriftfile/nodes.go", "tools/thriftfile/tokens.go"]

p("C01", "Go values survive a marshal/unmarshal round trip",
  "For every supported Go type and every value of it, marshalling the value with any of the shipped protocols (binary strict, binary non-strict, compact), alone or inside a message, and unmarshalling the bytes into a fresh variable of the same type yields an equal value and consumes exactly the bytes that were produced. Equality treats nil and empty slices/maps alike, reads a nil pointer in a list, set, map or required field back as a pointer to the zero value, and reads a field that was left out for being zero back as zero. Values and data nested more than 10,000 levels deep may be refused.",
  ["inputs", "programs", "configurations"], "all supported Go types (scalars, strings, bytes, UUIDs, nested and recursive structs, maps, lists, sets, pointers, named types), all their values, all protocols",
  "The conformance helper round-trips 15 fixed values of tiny struct types; type nesting, large sizes, buffer-boundary strings, extreme field IDs, map keys of each kind and pointer shapes are unbounded.",
  [ARS, "thrift/arshal.go", BIN, COM], [("per-type marshal/unmarshal function pairs", ARS), ("Reader/Writer pairs", BIN + ", " + COM)],
  ["thrift.Marshal/thrift.Unmarshal through each Protocol"])

p("C02", "The binary protocol writes and reads exactly the specified bytes",
  "For every well-formed sequence of values and message envelopes, the binary protocol (strict and non-strict) writes exactly the bytes the Thrift Binary protocol specification prescribes: big-endian fixed-width integers and doubles, 32-bit sizes, one-byte type codes, struct stop byte, and versioned or unversioned message headers. Conversely, reading bytes produced by an independent encoder of that specification yields exactly the encoded values.",
  ["inputs", "configurations"], "all Thrift values (every wire type, arbitrary nesting and sizes), all message envelopes, strict and non-strict",
  "Existing tests only check that the implementation agrees with itself; a symmetric change to writer and reader passes them all.",
  [BIN, WIRE + "/types.go", WIRE + "/bufio.go"], [("writer methods", BIN), ("reader methods", BIN), ("wire type codes", WIRE + "/types.go")],
  ["bytes reaching the underlying io.Writer", "values returned by Reader methods"])

p("C03", "The compact protocol writes and reads exactly the specified bytes",
  "For every well-formed sequence of values and message envelopes, the compact protocol writes exactly the bytes the Thrift Compact protocol specification prescribes: zigzag varint integers, little-endian doubles, delta or long-form field headers relative to the previous field of the same struct, booleans folded into field headers, short and long list headers, and protocol id/version/sequence-id message headers. Conversely, reading bytes produced by an independent encoder of that specification, including the long forms it allows, yields exactly the encoded values.",
  ["inputs"], "all Thrift values (every wire type, any field-id order and gap, arbitrary nesting and sizes) and all message envelopes",
  "Existing tests only check that the implementation agrees with itself on a handful of values; field-id deltas, nesting of field state, size boundaries and negative ids are never sampled, and a symmetric change passes.",
  [COM, "encoding/thriftcompact/types.go", WIRE + "/varint.go"], [("field header encoding with last-field-id stack", COM), ("bool folding", COM), ("type code table", "encoding/thriftcompact/types.go")],
  ["bytes reaching the underlying io.Writer", "values returned by Reader methods"],
  [("last field id stack", "previous field id of each open struct", COM), ("pending bool", "boolean carried by the field header", COM)])

p("C04", "Streams of messages are recovered in order and transcode losslessly",
  "Any sequence of well-formed messages written back to back through one writer, however its output is split by flushes, is read back by one reader as the same messages and values in the same order with no bytes left over. Reading a stream with one protocol and writing each item as it was read with another protocol, in any chain of the shipped protocols or joined protocol pairs, preserves every message and value; container headers of empty containers may carry no element type.",
  ["histories", "inputs", "configurations"], "all sequences of messages with arbitrary payloads, all flush placements, all chains of protocols including joined ones",
  "The existing helper reads one message at a time after resetting; state carried from one message to the next and cross-protocol agreement are never exercised.",
  [BIN, COM, WIRE + "/protocol.go"], [("reader and writer state between messages", COM), ("JoinProtocol", WIRE + "/protocol.go"), ("empty container headers", WIRE + "/types.go")],
  ["Reader/Writer method results over a stream"])

p("C05", "Marshalling drives any writer with the right data in the right order",
  "For every supported Go value, marshalling into any writer issues one properly nested sequence of begin/value/end calls that describes the value: struct fields in increasing field-id order with their declared ids and wire types, container headers with exact element types and counts, unsigned integers reinterpreted at the same width, and each leaf value unchanged. A non-required field appears exactly when it is not zero (by its own IsZero method when it has one), a required field always appears, and a nil pointer that must be written is written as the zero value of what it points to.",
  ["inputs", "programs"], "all supported Go types and values, any conforming writer implementation",
  "The table test covers about twenty values and two struct types, and only compares call names, not arguments.",
  [ARS, FLD, "thrift/doc.go"], [("struct field walk and zero test", ARS), ("field table sorted by id", FLD), ("set/list marker types", "thrift/doc.go")],
  ["calls received by a recording thriftwire.Writer"])

p("C06", "Unmarshalling yields the described value whatever the target held before",
  "Unmarshalling Thrift data from any conforming reader into a target gives the result the data describes independently of the order of struct fields: fields present in the data are set, absent fields, ignored fields and unexported fields keep their value, lists and sets are replaced entirely with no stale elements showing through, maps are merged by key, and a repeated field is applied in order. Data whose wire type differs from the one the Go type corresponds to is rejected with an error, never converted or silently dropped.",
  ["inputs", "programs", "histories"], "all Go types, all well-formed wire data related to them (reordered, missing, repeated, extra, mistyped fields), all prior target contents including spare slice capacity",
  "Existing tests only decode what the same type encoded, into zero targets; foreign encodings and reused targets are never tried.",
  [ARS, FLD], [("field lookup by id", ARS), ("slice reuse and zeroing", ARS), ("map merge", ARS), ("wire type comparison", ARS)],
  ["target value after thrift.Unmarshal through protocol readers and a strict in-memory reader"])

p("C07", "Unknown data is skipped exactly",
  "Skipping a value of any wire type consumes exactly that value, so that whatever follows it is read as if the value had never been there, and issues properly nested reads to any reader implementation. Inserting fields the receiving struct does not declare, with any ids, types and contents, anywhere in a struct at any depth never changes the unmarshalled result. Data nested more than 10,000 levels deep may be refused.",
  ["inputs", "programs"], "all Thrift values of all wire types, all positions for unknown fields, all protocols",
  "The skip test uses one tiny value per type with an in-memory double; no test decodes a message containing an unknown field.",
  [WIRE + "/skip.go", ARS, COM, BIN], [("recursive skip", WIRE + "/skip.go"), ("SkipString/SkipUUID", BIN + ", " + COM), ("unknown-field branch", ARS)],
  ["next value read after thriftwire.Skip", "result of thrift.Unmarshal"])

p("C08", "Truncated data is never accepted",
  "Cutting the encoding of any message, struct or value at any byte before its end makes reading, skipping or unmarshalling it fail with an end-of-input error, in every protocol. It never succeeds with partial data, panics, or misreports the failure as something else.",
  ["inputs", "fault_sequences"], "all encodings of all values in all protocols, every cut position",
  "No existing test truncates a message; each of the many read paths must report the missing bytes.",
  [BIN, COM, WIRE + "/bufio.go", WIRE + "/varint.go"], [("bounded reads", WIRE + "/bufio.go"), ("error returns of every reader method", BIN + ", " + COM)],
  ["error of thrift.Unmarshal / thriftwire.Skip / Reader methods"])

p("C09", "Arbitrary bytes never crash, hang or exhaust the decoder",
  "For every byte string, protocol and target type, reading a message header, skipping a value and unmarshalling either succeed or return an error. They never panic, never overflow the stack however deeply the data nests, always terminate, and allocate memory at most proportional to the bytes actually received, not to the sizes the data announces.",
  ["inputs"], "all byte strings (random, mutated valid encodings, hostile sizes, extreme nesting), all protocols, all target types",
  "No test feeds malformed input to a protocol reader.",
  [BIN, COM, WIRE + "/skip.go", WIRE + "/bufio.go", ARS], [("incremental growth of strings, slices and maps", WIRE + "/bufio.go, " + ARS), ("nesting limit", WIRE + "/skip.go, " + ARS)],
  ["return of the decoding entry points, bytes allocated"])

p("C10", "Every underlying failure is reported and stops the operation",
  "If any read or write of the underlying stream fails, or any call on the protocol reader or writer fails, during marshalling, unmarshalling, skipping or flushing, then an error wrapping that failure is returned no later than the flush, and no further protocol calls are issued after the failing one. What reached the stream before the failure is a prefix of what would have been written without it, and success is only ever reported when everything was transferred.",
  ["fault_sequences", "inputs"], "all values, every byte offset or protocol call at which a failure can be injected, transient and permanent failures",
  "The only fault test uses breakpoints of an in-memory double on a few values; stream faults are never injected.",
  [ARS, BIN, COM, WIRE + "/bufio.go", WIRE + "/varint.go", WIRE + "/skip.go"], [("error checks after each call", ARS), ("buffered reader/writer error propagation", BIN + ", " + COM)],
  ["returned errors", "bytes received by a failing io.Writer", "calls received by a failing thriftwire.Reader/Writer"])

p("C11", "Decoding does not depend on how the stream is chunked",
  "The values read from a stream, including the errors reported, are the same for every way in which the underlying stream divides its bytes into reads, and every way values straddle internal buffer boundaries. A value whose last byte has been delivered is returned without asking the stream for more, so a peer that waits for the reply before sending anything else is never deadlocked.",
  ["schedules", "inputs"], "all encodings, all partitions of the byte stream into reads, streams that stay open after the last byte",
  "Tests read from in-memory buffers that deliver everything in one read and then end; an open connection is never simulated.",
  [WIRE + "/bufio.go", WIRE + "/varint.go", BIN, COM], [("buffered peeking", WIRE + "/bufio.go, " + WIRE + "/varint.go")],
  ["Read calls received by the underlying io.Reader", "values returned"])

p("C12", "A reset reader or writer behaves like a new one",
  "Whatever was done with a reader or writer before, including abandoning it in the middle of a value, hitting an error or leaving data unflushed, after it is reset onto another stream it behaves in every respect like a newly created one on that stream. Nothing of the earlier use reaches the new stream, and the earlier stream is neither read, written nor redirected by the reset or by later use.",
  ["histories"], "all histories of use before the reset, all later operations, streams of any kind including ones that do their own buffering",
  "Tests reset only after complete messages on in-memory buffers.",
  [BIN, COM], [("Reset methods", BIN + ", " + COM)],
  ["bytes and values after Reset compared with a fresh reader/writer", "state of the previous stream"],
  [("last field ids, pending bool", "per-struct decoding state that must be cleared", COM), ("underlying writer reference", "stream flushed by Flush", BIN + ", " + COM)])

p("C13", "Flush delivers everything written, in order, through to the stream",
  "When flushing a writer reports success, every byte written so far has been handed to the underlying stream exactly once and in order, and the underlying stream has itself been flushed afterwards if it supports flushing. This holds for every writer, new or reset, every interleaving of writes and flushes, and a failure of the underlying flush is returned. The underlying stream is not flushed when the writer is not.",
  ["histories", "fault_sequences"], "all interleavings of write calls, flushes and resets, flushable and non-flushable streams, failing flushes",
  "No test uses an underlying writer that supports flushing.",
  [BIN, COM, WIRE + "/protocol.go"], [("Flush methods", BIN + ", " + COM), ("Flusher interface", WIRE + "/protocol.go")],
  ["calls received by the underlying io.Writer/Flusher"])

p("C14", "Marshalling is safe for concurrent use",
  "Any number of goroutines may marshal and unmarshal values of the same or different types at the same time, each with its own reader or writer, including first uses of a type, and every one gets the result it would get alone. There are no data races on shared state.",
  ["schedules", "inputs"], "all interleavings of concurrent marshal/unmarshal calls over any set of types, first-time and cached, recursive and nested",
  "No existing test is concurrent.",
  ["thrift/arshal.go", ARS], [("type cache", "thrift/arshal.go"), ("once-initialised struct tables", ARS)],
  ["results of concurrent thrift.Marshal/Unmarshal under the race detector"],
  [("type cache", "per-type functions shared by all goroutines", "thrift/arshal.go")])

p("C15", "Field tags are interpreted exactly or rejected",
  "For every struct type, the tag of each exported field either yields exactly the id and required option it spells or makes marshalling and unmarshalling that struct fail with a descriptive error, the same on every use. Missing or out-of-range ids, malformed, duplicate or miscapitalised options, ids used twice in a struct, tags on unexported fields and structs with nothing to serialize are rejected; fields tagged \"-\" and untagged unexported fields are ignored; unknown options are ignored.",
  ["programs", "inputs"], "all struct types with arbitrary tag strings on exported and unexported fields",
  "No existing test has a malformed tag or more than the plain id and required option.",
  [FLD], [("tag parser", FLD), ("struct field table", FLD)],
  ["error or encoding produced for structs built with generated tags"])

p("C16", "Unsupported types and bad arguments yield errors, never crashes",
  "Marshalling or unmarshalling a Go value of any type whatsoever, including unsupported kinds anywhere inside it, self-referential slice, map and pointer types, nil, nil pointers and non-pointer targets, terminates and returns either success or a descriptive error naming the type. It never panics, and never reports success for data it could not represent, including a struct with a field, even a zero one, or a list or map, even an empty one, with an element type, that has no Thrift type; cyclic or endless values are reported as errors.",
  ["programs", "inputs"], "all Go types (supported and unsupported kinds at any position, directly recursive types) and all values",
  "No existing test passes an unsupported type.",
  ["thrift/arshal.go", ARS], [("kind dispatch with invalid fallback", ARS), ("argument checks", "thrift/arshal.go"), ("lazy element lookup", ARS)],
  ["error returned by thrift.Marshal/thrift.Unmarshal"])

p("C17", "Decoded data is independent and encoding leaves its input alone",
  "Marshalling never modifies the value it is given. A value that was unmarshalled shares no memory with the reader's buffers, with the source bytes, with other values decoded through the same reader, or between its own parts, so it stays unchanged while any of those are read further, overwritten, appended to or reused.",
  ["histories", "inputs"], "all values, all sequences of later reads through the same reader and modifications of other parts of the data",
  "No test looks at an earlier result after decoding something else.",
  [WIRE + "/bufio.go", ARS, BIN, COM], [("copies out of buffered data", WIRE + "/bufio.go"), ("fresh elements for maps and slices", ARS)],
  ["snapshots of decoded values and of marshalled inputs"])

p("C18", "Parsing a Thrift file yields exactly the document that was written",
  "For every valid Thrift document, the parser succeeds and returns a tree with exactly its headers, definitions, fields, methods, types, values and annotations, in order, with every name, literal text, id, modifier and default preserved and optional parts absent exactly when they were not written.",
  ["inputs"], "all valid documents: every definition kind, nested types and constant values, every optional part, identifiers, number and string literal forms",
  "The parser tests only check that bundled files give no errors; no test looks at the returned tree.",
  IDL, [("recursive-descent parser", IDL[1]), ("scanner", IDL[0])], ["tree returned by thriftfile.Parse"])

p("C19", "Invalid Thrift files are rejected, at the first offending token",
  "A document that does not follow the grammar, or contains an illegal character, malformed UTF-8, a bad escape, or an unterminated string or comment, is never accepted silently: an error is returned. The errors are ordered by position, and the first one points at the line and column of the first token or character that cannot continue a valid document; valid documents give no error.",
  ["inputs"], "all token sequences derived from valid documents by insertions, deletions, replacements and truncation, and all lexical faults at any place",
  "One hand-written file with six errors is all that exercises the error paths.",
  IDL, [("expected-token checks", IDL[1]), ("lexical error reports", IDL[0]), ("error list sorting", IDL[1])], ["error returned by thriftfile.Parse"])

p("C20", "A broken definition does not hide the definitions around it",
  "When text that does not start like a definition, or a definition that breaks off where a type or a value has to follow, stands between definitions, the parser reports it, represents it as one placeholder covering exactly the text up to the next definition, and returns every other definition of the file unchanged. A wrong literal in place of a name or of another kind of literal is reported and leaves all other headers and definitions unchanged. A character that is not allowed anywhere is, in a comment or in a string literal, reported at its place, and hides or adds nothing there. A tree is returned even when there are errors.",
  ["inputs"], "all documents with unparsable stretches (stray tokens, definitions with a missing type or value) at any position",
  "The one error test checks messages, not the tree.",
  [IDL[1], IDL[2]], [("panic/recover resynchronisation", IDL[1]), ("bad definition node", IDL[2])], ["tree and error returned by thriftfile.Parse"])

p("C21", "The parser handles any bytes without crashing or hanging",
  "For every byte string, parsing terminates without panicking or overflowing the stack however deeply it nests, returns a tree, uses time and memory bounded by the input size, and reports only positions that lie inside the given file.",
  ["inputs"], "all byte strings: random, token soup, mutated real files, extreme nesting",
  "Only well-formed files and one erroneous file are ever parsed.",
  IDL, [("progress on every token", IDL[1]), ("nesting limit", IDL[1])], ["return of thriftfile.Parse"])

p("C22", "The in-memory recorder replays exactly what was recorded",
  "Any sequence of values and headers written to the in-memory recorder is read back by the same sequence of reads (or skips) with equal values, the step log lists exactly the calls made in order, and a breakpoint stops writing and reading at exactly the configured call with the break error and nothing recorded beyond it, and both go on from there when the breakpoint is moved or removed. Resetting the recorder makes it as good as new.",
  ["histories", "inputs"], "all sequences of write calls followed by matching reads, all breakpoints, resets in between",
  "Its own tests replay five short fixed sequences without breakpoints or resets.",
  ["internal/thriftmemo/memo.go", "internal/thriftmemo/zmemo.go"], [("step and value log", "internal/thriftmemo/memo.go"), ("generated reader/writer methods", "internal/thriftmemo/zmemo.go")],
  ["thriftmemo.Memo reader, writer and Steps"])

p("C23", "The protocol conformance suite accepts good and rejects bad protocols",
  "The published conformance test for protocols passes for every protocol that preserves messages and values and writes the same bytes for the same message, whatever its byte format, including protocols that drop message names or do not support UUIDs when told so. It fails for a protocol that corrupts, loses, reorders or leaves unread any kind of data the suite is meant to cover.",
  ["programs", "configurations"], "protocols derived from correct ones by reformatting (must pass) or by a single fault in one kind of value, header or message part (must fail)",
  "The suite itself has no tests; it is only ever run on two correct protocols.",
  ["testing/thrifttest/protocol.go"], [("round-trip, re-encode and skip comparisons", "testing/thrifttest/protocol.go")],
  ["outcome of thrifttest.TestProtocol"])

p("C24", "Message envelopes are preserved and foreign envelopes refused",
  "Every message name, type and sequence id written is read back unchanged in every protocol. The strict binary reader refuses envelopes without a version and every binary reader refuses unknown versions, the non-strict reader accepts both strict and unversioned envelopes, the compact reader refuses any other protocol id or version, and a joined protocol reads with its first and writes with its second member.",
  ["inputs", "configurations"], "all message headers, all header byte strings, all protocols and joined pairs",
  "Tests use short names and small positive ids and never present a foreign envelope.",
  [BIN, COM, WIRE + "/protocol.go"], [("ReadMessageBegin/WriteMessageBegin", BIN + ", " + COM), ("JoinProtocol", WIRE + "/protocol.go")],
  ["ReadMessageBegin results"])

p("C25", "The shared buffered-read helpers agree with their references",
  "For every buffered stream, requested size and position, reading a varint gives the same value, the same consumption and an equivalent error as the standard library's reader; reading n bytes as a string, or appended to a buffer, returns exactly the next n bytes after the existing buffer content, or the bytes that were available together with an end-of-input error (a plain end-of-file only if nothing could be read). Negative sizes are rejected.",
  ["inputs", "schedules"], "all byte streams, sizes around and beyond the buffer size, existing buffer contents, chunkings and failure points",
  "Tests use one buffer size and strings one byte around it, and power-of-two varints only.",
  [WIRE + "/bufio.go", WIRE + "/varint.go"], [("Next/ReadString/ReadBytes", WIRE + "/bufio.go"), ("ReadVarint/ReadUvarint", WIRE + "/varint.go")],
  ["results of the exported helpers"])

p("C26", "Errors and type names identify what went wrong",
  "Every failure of marshalling or unmarshalling caused by the Go type, the data's type or the underlying reader or writer is a semantic error from which the offending Go type, the offending Thrift type where known, and the underlying cause can be recovered, and whose text names them. Every valid wire type and message type prints as its own distinct name, and invalid ones print as their number and are rejected by an error carrying the value.",
  ["inputs", "programs"], "all mismatches between Go types and wire types at any depth, all failing calls, all 256 type and message-type codes",
  "Tests check the rendering of hand-made errors, not which errors real failures produce.",
  ["thrift/errors.go", ARS, WIRE + "/types.go", WIRE + "/type_string.go", WIRE + "/messagetype_string.go"], [("SemanticError construction", ARS), ("rendering", "thrift/errors.go"), ("stringers", WIRE)],
  ["errors.As/errors.Is/Error() on returned errors"])

p("C27", "Compact header helpers round-trip and respect their bounds",
  "For every header, appending its compact encoding to a buffer keeps the existing content, adds exactly the bytes the compact writer itself emits for that header and no more than the advertised maximum size, and reading it back gives an equal header and consumes exactly those bytes. For every byte string, the reading helpers and the reader's own calls succeed exactly if it begins with a header, and then give that header and leave the rest unread; undefined type codes, sizes out of range and missing bytes are errors. Headers with types that cannot be encoded are rejected without changing the buffer's content.",
  ["inputs"], "all field, map, set and list headers, all previous field ids, all buffer contents, all byte strings",
  "No existing test calls these exported helpers directly.",
  [COM], [("Append*Header, Read*Header, Max*HeaderSize", COM)], ["results of the exported helpers"])

p("C28", "Formatting never changes the meaning of a Thrift file",
  "Changing only the layout of a document - white space, line endings, any of the three comment styles between any two tokens, a leading byte order mark, or the optional list separators - changes neither whether it is accepted nor the tree that is returned. Parsing the same bytes again, under another name, or next to other files in the same file set gives the same tree.",
  ["inputs"], "all documents (generated and the bundled real-world corpus), all layouts of their tokens",
  "Tests parse each bundled file once in its original layout and never compare trees.",
  IDL, [("trivia skipping", IDL[0]), ("list separators", IDL[1])], ["tree returned by thriftfile.Parse"])

p("C29", "Malformed encodings are refused, and only what the bytes say is accepted",
  "For every byte string and every protocol, reading or skipping a message, struct or value, or unmarshalling one into a Go type it fits, succeeds exactly if the bytes begin with a well-formed encoding of it, and then yields the encoded value and consumes exactly its bytes. In particular undefined type codes, negative sizes, sizes above the 32-bit limit, numbers of more than 64 bits or more than ten bytes, foreign versions and truncated data are errors. Left to the reader: boolean bytes other than 0 and 1, element types of empty containers, numbers and sizes in more bytes than needed, compact numbers beyond the range of their type, field id deltas that overflow, unknown message types.",
  ["inputs", "programs", "configurations"], "all byte strings, all wire types and messages, all protocols, all supported Go types",
  "Existing tests never present bytes that the library did not write itself.",
  [BIN, COM, "encoding/thriftcompact/types.go", WIRE + "/skip.go", WIRE + "/varint.go", ARS], [("size and type checks in the readers", BIN + ", " + COM), ("type code table", "encoding/thriftcompact/types.go"), ("skipping by type", WIRE + "/skip.go")],
  ["errors and values of Reader methods, thriftwire.Skip and thrift.Unmarshal"])

p("C30", "The outcome of a call never depends on the calls before it",
  "For every sequence of marshal and unmarshal calls in one process, with any supported, recursive or unsupported types, values and data, where earlier calls succeed, meet a type error, truncated data, a failing writer, or are aborted by a panic in the caller's reader or writer, every call has the outcome it would have as the first call of the process, and the errors returned by earlier calls stay as they were. Values of different types written one after the other through one writer, bare or in messages, are read back by one reader in the same order.",
  ["histories", "inputs", "programs"], "all sequences of calls, all types that share parts or refer to themselves or each other, all ways a call can end",
  "Tests use a type once and a new reader and writer each time; what the per-type caches keep after a failure, and what one value leaves behind in the stream for the next, is not sampled.",
  [ARS, FLD, "thrift/arshal.go", COM], [("cache of functions per type", ARS), ("cache of field tables", FLD), ("reader and writer state between values", COM)],
  ["results of thrift.Marshal and thrift.Unmarshal over a history of calls"], [("type cache", "marshal and unmarshal functions of the types seen so far", ARS)])

p("C31", "What is in use at the same time does not affect each other",
  "Any number of readers, writers and recorders, each with a stream of its own (from the same protocol value or another, their calls interleaved in any way in one goroutine or made concurrently in several), and any number of parses at the same time, even into one file set, behave exactly as each does alone. There are no data races.",
  ["schedules", "histories", "inputs"], "all interleavings of calls on several readers, writers and recorders, and of parses, all messages and documents",
  "Tests use one reader, one writer or one parse at a time, in one goroutine.",
  [BIN, COM, "internal/thriftmemo/memo.go", WIRE + "/skip.go"] + IDL, [("reader and writer state", BIN + ", " + COM), ("recorder", "internal/thriftmemo/memo.go"), ("scanner and parser tables", IDL[0])],
  ["values read, bytes written, trees and errors, and data races, of each user"])

p("C32", "What an encoding cannot hold is refused, not truncated",
  "A container, string, byte string or message name of more than 2^31-1 elements or bytes, and in the compact protocol a message type of more than three bits, is refused with an error by every writer and header helper, also as part of a marshalled Go value; a negative container size is refused or written as an empty container. Every size up to the limit is written exactly.",
  ["inputs", "configurations"], "all sizes (of containers, strings and names) representable in an int, all message types, all writers and helpers",
  "Tests write sizes up to a few thousand; a size that does not fit was written modulo 2^32 without an error.",
  [BIN, COM], [("writeSize", BIN + ", " + COM), ("Append*Header", COM)],
  ["errors of Writer methods, Append*Header and thrift.Marshal; bytes written"])

p("C33", "Effort and memory stay proportional to the data, however long in use",
  "For every supported type and value, the time and the memory taken by marshalling, by unmarshalling into a fresh or a used variable, by skipping, and by recording and replaying grow at most in proportion to the size of the value and its encoding, whatever its shape: long, wide, deep, with many empty, nil or shared parts, or keys of any kind. A reader, writer or recorder that is used for any number of messages (a recorder: reset after each), whatever their names, types and content, keeps no more memory than a few of them need, and marshalled or unmarshalled values are not kept alive.",
  ["inputs", "histories", "programs"], "all supported types and values, all shapes and sizes, all protocols, all lengths of use",
  "Tests use values of a few elements once: a search or copy per element, a table that only grows, show in no result.",
  [ARS, FLD, "thrift/arshal.go", BIN, COM, WIRE + "/skip.go", WIRE + "/bufio.go", "internal/thriftmemo/memo.go"],
  [("field lookup", FLD), ("growing of lists and maps", ARS), ("buffers and stacks of readers and writers", BIN + ", " + COM), ("recorded steps", "internal/thriftmemo/memo.go")],
  ["CPU time, allocated memory and live heap around calls"])

p("C34", "The file set gives the true file, line and column of every position",
  "Parsing a source, valid or not, adds it to the file set as one file with exactly the given name, its size and its lines, behind the files already there, which stay as they are. So every position, of a placeholder or at any offset, of this or an earlier file, translates to the true name, line and column, whatever the text (byte order marks, comments of any content) and the names.",
  ["inputs", "histories"], "all sequences of sources, valid and invalid, all names, all file sets with other files",
  "Tests parse each file into a file set and never ask it for a line.",
  IDL, [("adding the file", IDL[1]), ("adding lines", IDL[0])], ["token.FileSet after thriftfile.Parse"])

p("C35", "Data written with one version of a type is read with another",
  "For every supported type, every value of it and every compatible version of the type - fields added, removed, reordered, renamed, made required or optional, a pointer for a value or back, the other sign of a number, another name of a type, a string for a byte slice or back, at any depth - data marshalled from one version unmarshals into the other in every protocol: the fields both have hold the same values, a field only the reader has stays as it was, and what follows in the stream is read intact. The same holds on the way back.",
  ["inputs", "programs"], "all supported types, all values, all compatible versions, all protocols",
  "Tests read every type with the type it was written with.",
  [ARS, FLD, WIRE + "/skip.go", BIN, COM], [("field lookup by id", FLD), ("skipping unknown fields", WIRE + "/skip.go"), ("per-type functions", ARS)],
  ["thrift.Marshal with one type, thrift.Unmarshal with another"])

p("C36", "A joined protocol reads as one part and writes as the other",
  "For every tree of joined protocols over any parts, the shipped ones or a user's own of whatever type, every reader made from it is one that the reading part makes from the very stream given and every writer one that the writing part makes from the very stream given; no other part is asked for one, whatever other readers and writers of the same protocols are in use or reset, and the protocol's printed name contains the names of both its parts. Flushing any stream with the helper flushes it exactly once if it offers that, writes nothing itself, and returns exactly the stream's error.",
  ["inputs", "histories", "configurations"], "all trees of joined protocols, all parts, all interleavings of uses, all layered streams",
  "Tests join no protocols of their own making and never nest them.",
  [WIRE + "/protocol.go"], [("JoinProtocol", WIRE + "/protocol.go"), ("Flush", WIRE + "/protocol.go")],
  ["thriftwire.JoinProtocol, thriftwire.Flush"])

p("C37", "The tree and the errors of a parse belong to the caller alone",
  "For every file, valid, broken or any bytes, the tree and the errors a parse returns share nothing that can change with the source's buffer, with the trees and errors of other parses, or within the tree: whatever is written into the buffer afterwards, whatever else is parsed, into the same or another file set, and whatever the caller changes in a tree or appends to one of its lists, every other tree, every other part of the same tree and every error stays as it was, each node occurs in one place of one tree only, and later parses give the same as before.",
  ["inputs", "histories"], "all source files, all sequences of parses, all changes made to trees",
  "Tests parse and look at the tree at once; they neither keep nor change it.",
  IDL, [("literals taken from the source", IDL[0]), ("nodes and lists", IDL[1]), ("error list", IDL[1])], ["thriftfile.Parse, called again and again", "the nodes of the trees"])

p("C38", "The width of the platform's int makes no difference",
  "On a platform whose int has 32 bits, the library behaves as it does on one with 64, in everything the other properties state: the same bytes are written, the same bytes are accepted and refused, numbers of 64 bits, doubles, sizes and message ids are read and written whole, a size on the wire that does not fit is refused and never taken modulo the word, fields, tags and types are judged alike, and source files give the same trees, positions and errors.",
  ["inputs"], "all inputs and histories of the other properties that fit the memory of a 32-bit process",
  "The tests are run on 64-bit machines, where an int holds any number they use.",
  [BIN, COM, WIRE + "/varint.go", WIRE + "/bufio.go", ARS, FLD], [("sizes, numbers and ids", "encoding/thriftcompact/thriftcompact.go"), ("sizes and numbers", "encoding/thriftbinary/thriftbinary.go"), ("Go values", "thrift/arshal_default.go")], ["the whole API, built with GOARCH=386"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
