import json,os,glob
D=r'''# Deciding the properties of itstarsun/go-thrift by property-based testing and fuzzing

## 1. Machinery

One Go program, `/verif/harness` (module `github.com/itstarsun/go-thrift/verifharness`, `replace`d onto
`/repo`, so every check compiles `/repo`'s working tree; the module path lets it import `internal/thriftmemo`).
It uses only exported API, so it does not care how the code is written inside. `pgregory.net/rapid` generates and
shrinks; every random choice is a rapid draw, so a run is a pure function of the code and `VERIF_SEED`
(C14, C31 and C30's map iteration apart).

* A property is a set of *subs*. A sub has a generator (or an enumeration) producing a JSON-serialisable **case**,
  and a check `case -> error` that does not use rapid. The shrunk case is the replay file (`./run.sh replay FILE`).
* The driver splits each sub over worker processes: fixed case counts, seeds derived from `VERIF_SEED`, property, sub
  and shard; enumerations are sharded by index. A worker that dies of a Go fatal error (stack overflow, concurrent map
  access, data race, ...) is re-run journaling its cases; the fatal case is minimised by re-execution and reported.
  Death by a signal from outside, memory taken by others, or failure to build is an error exit (2), never a violation.
* Hangs and memory: a watchdog measures the worker's CPU time (not wall time) per case; 60 s CPU on one case (usual:
  below 10 ms) or more than 3 GB resident is reported as a non-terminating / unbounded case. C09 and C21 further bound CPU
  and allocated bytes per case in proportion to the input, measured again alone before they are reported.
* A quick check gives up generating after 9 minutes and reports what it covered (normally it takes 5-60 s).
* Committed regression cases (`/verif/regress/<id>/*.json`) run first in every check.
* Evidence counts evaluations, distinct (hash of the case) non-trivial ones, labels, and samples of this run.
* C14 and C31 are built with the race detector (`harness-race`), C23 as a test binary (`harness-test`) because the suite wants a
  `*testing.T`; every generated protocol runs in a subtest of its own and the outcome of the subtest is the observation.

Independent oracles written from the Thrift specifications and the documented behaviour, sharing no code with `/repo`:

| file | oracle |
|------|--------|
| wire.go, wiregen.go | value trees, reference encoders and decoders of Binary (strict, non-strict) and Compact, incl. the long forms |
| proto.go, logreader.go | strict recording writer and tree reader that check nesting and arguments; fault-injecting and call-logging wrappers |
| gotypes.go, families.go | reflect-based model of the Go <-> Thrift mapping (types, zero-ness, merge semantics); pool of declared types |
| props_sound.go | strict decoder that says for every byte string whether it begins with a well-formed encoding, what it means, where it ends |
| idl.go, props_idl.go | reference tokenizer, LL(1) recogniser with first-error positions, AST renderer, layouts |
| props_types2.go | model of the tag grammar, of unsupported types, of semantic errors |
| props_suite.go | protocols derived from the shipped ones by re-encoding (good) and by one fault (bad) |

## 2. Per property

| id | generated | oracle | why it reaches what tests cannot |
|----|-----------|--------|----------------------------------|
| C01 | random Go types (reflect.StructOf + declared pool: recursive, named, Set/List, methods) and values x 3 protocols, bare and in messages; several thousand elements/bytes ("large") | equality up to the stated normalisation; exact consumption; re-encode equality | unbounded type x value space |
| C02, C03 | random wire trees and envelopes | reference encoder bytes == written bytes; reader on reference bytes (incl. alternative long forms) == tree | self-agreement cannot see symmetric changes |
| C04 | message sequences, flush points, chunkings, chains of protocols and joins | equality of trees after each hop, nothing left over | state carried over between messages |
| C05 | types and values into a strict recording writer | model of the mapping, call by call | arguments of every call |
| C06 | wire trees related to a type (shuffled, dropped, repeated, unknown, mistyped fields) into pre-filled targets with stale capacity | reference interpreter of the merge semantics | foreign encodings, reuse |
| C07 | wire trees; unknown fields inserted at every depth | sentinel after the skip; nesting of the reads; metamorphic equality | |
| C08 | every cut of generated encodings (sampled inside long strings) | error wraps EOF/ErrUnexpectedEOF; the calls that succeed before it are those of the whole, with the same results (call log) | all cut points, partial results |
| C09 | random bytes, mutated encodings, hostile sizes, nesting to 10^7, valid data up to tens of MB | no panic/crash, bytes allocated and CPU bounded by the bytes received, termination | |
| C10 | every stream offset / protocol call fails once, sticky and transient, with short writes and data-with-error reads | errors.Is, no further calls, prefix, success only if all was transferred | fault enumeration |
| C11 | chunk partitions, one-byte drips, sources that report a read issued after the last byte | same values and errors; no read beyond | open-stream behaviour |
| C12, C13 | histories with abandon/fault/flush/reset | lock-step against a fresh reader/writer; log of bytes and flushes of every stream involved | |
| C14 | batches of fresh types x goroutines, race detector | sequential results; no race report | schedules are sampled, not controlled |
| C15 | tag strings from a grammar plus mutations | tag model, same on every use | |
| C16 | type trees with unsupported kinds, recursive and mutually recursive types, cyclic values, all kinds of arguments | error model, names the type, no crash | |
| C17 | decode/overwrite/append histories | snapshots, disjoint address ranges | |
| C18 | random documents from the AST; documents with very many parts of one kind; deep nesting; the bundled corpus | the parsed tree equals the rendered one | |
| C19 | token mutations, lexical faults (incl. almost-numbers), bytes | reference recogniser: acceptance and the position of the first error | |
| C20 | junk/broken definitions between good ones; wrong literals; illegal characters in comments and literals anywhere | tree of the others, extent of the placeholder; tree and place of the first error | |
| C21 | bytes, token soup, mutated corpus, nesting to 10^6 | no crash, bounded CPU and memory, positions in the file | |
| C22 | operation sequences, breakpoints, reset | model of the log | |
| C23 | protocols derived by re-encoding / by one fault in one kind of value | the suite passes / fails | |
| C24 | headers, foreign header bytes | reference header codec | |
| C25 | streams, sizes, buffer sizes, chunkings | standard library / naive reference | |
| C26 | mismatches and failing calls, all codes | contents of errors.As, text | |
| C27 | all headers x buffers; header bytes of any kind, random and enumerated, read by the helpers and the reader | reference bytes, bounds; a strict decoder | header helpers are public and not called by tests |
| C28 | layouts of generated and bundled documents | same tree, same acceptance | |
| C29 | random bytes, mutated encodings, one spoiled place in an encoding, and all inputs of two bytes with a choice of third bytes and tails | strict decoder: accepts exactly what it accepts, same value, same consumption; read, skip, message, unmarshal | "accepts malformed data" is invisible to round trips |
| C30 | histories of calls (succeeding, type error, cut data, failing or panicking reader/writer) over families of types that resemble each other (same name, same structure, recursive) | outcome of each call alone in a fresh process-like state | caches and pools keyed too coarsely or left dirty |
| C31 | 2 to 6 readers, writers and recorders with streams of their own, in turns of generated lengths or in a goroutine each; 2 to 8 parses at once into one file set or several; race detector | each behaves as the reference says it does alone | buffers, scratch space and tables shared by accident |
| C32 | sizes around powers of two up to the largest int (strings and byte strings of that length are never touched memory), message types | an error above 2^31-1, the exact encoding below | sizes no test can afford |
| C33 | random and chosen large values, wide, deep, shared and empty ones, each against 50 values of a fiftieth of the size; readers, writers and recorders used for up to 40,000 messages | effort and memory of the large one at most 10 times the comparison's; live heap afterwards as before | an effort that grows with the square of the size, a cache that is never emptied: invisible in results |
| C34 | several files, valid, broken or any text, with odd names, parsed into one file set beside files of other origin | the set's files, sizes, line tables and translated positions against those computed from the text | |
| C35 | a type, a value, and a version of the type with fields added (ids one bit apart, too), removed, reordered, renamed, made required, behind pointers, of the other sign or name | the value carried over from Go value to Go value by reflection, there and back; what follows is read next | pairs of types no test has |
| C36 | random trees of joined protocols over shipped and user-made parts (pointers, values, uncomparable ones, functions), several readers and writers of them in use at once and reset; streams made of random layers | the part on that side, its wire reference and the calls it received; a model of the layers for the flush helper | user-made parts, nesting |
| C37 | one to four files, valid, broken, random, some repeated, parsed from one reused buffer into two file sets; then all lists' spare room and all nodes are written over, tree by tree | a dump of each tree and error as parsed alone; node addresses occur once | trees that live on while the parser is used again |
| C38 | the cases of all other properties except C14, C23, C31 and C33, a tenth as many, in a harness built with GOARCH=386; headers whose size is 2^32 times something more than it should be | those of the other properties, none of which depend on the width of an int | 32-bit builds, which no test is run in |

No property is listed as not applicable. C14 and C31 are the weakest fit of the technique: schedules are whatever the Go
scheduler produces, so the race detector's happens-before analysis is what makes it more than luck; a lost update on a
synchronised cache that needs one particular interleaving can be missed.

### What is deliberately not asserted

Boolean bytes other than 0 and 1; field id deltas that run over int16; message types outside 1..4 (except that the compact protocol must refuse more
than three bits, C32); whether a writer refuses a negative container size or writes it as empty; `required` is not enforced on reading; element types of empty containers that mismatch; the
state of the target after an error; the random wording of semantic errors (space or no-break space); `.5` floats,
`cpp_include`/`cpp_type` and other parts of the IDL the parser does not support; `"it\'s"`; numbers such as `0x`, `1e`
and a number glued to a letter that is accepted; the position of an error at the end of a file that ends with a newline;
repeated separators; buffered write errors before the flush (C10 says "no later than the flush").

C20's statement was narrowed to what the parser promises: a definition that breaks off where a type or value must
follow, or junk, becomes one placeholder; a wrong literal is reported in place.

## 3. Defects found and repaired

Each was shown with a replay against the real code, repaired with a minimal `fix:` commit, and its replay is kept in
`/verif/regress`. `known_findings.txt` has the list (`fixed:` lines suppress nothing).

| property | commit | defect |
|----------|--------|--------|
| C12, C13 | 824e782 | after Reset a compact writer flushed the stream it was created with, and not its own |
| C11 | 599c6a8 | reading a varint peeked ten bytes and waited for bytes behind the message |
| C03 | e1b1e3f | negative compact sequence ids were ten-byte varints |
| C03, C04, C27 | d6c617c | empty containers without an element type, as read, could not be written |
| C12 | 9066816 | Reset redirected a bufio.Reader/Writer that belongs to the caller |
| C15 | 3c4b280 | two fields with one id were accepted |
| C26 | b0f5cb7 | failures to skip an unknown field carried no context |
| C16 | 2bd0b73 | self-referential slice, map and pointer types overflowed the stack |
| C09, C16 | 05b1bf3 | deeply nested data and cyclic values overflowed the stack |
| C21 | 850f73d | deeply nested documents overflowed the parser's stack |
| C22 | aa563b3 | the recorder kept the caller's byte strings and handed out its own |
| C29 | c15eb91 | containers of negative size were accepted as empty; sizes above the limit were not refused |
| C32 | 8bdf2c6 | sizes above 2^31-1 were written modulo 2^32, compact message types spilled into the version |

**Known finding (C23).** `thrifttest.TestProtocol` re-encodes what it read and compares the bytes with what the same
protocol wrote first, so a fault in *writing* that is idempotent (a lost field, an emptied string, a truncated integer)
is never noticed, and the values of its large map are not compared at all. Repairing that means changing the published
suite (under `testing/`), which other implementations run; it is recorded instead, one line per faulty protocol of the
harness that the suite lets through. The check confirms each of them, prints `KNOWN-FINDING`, and reports any other
faulty protocol that passes, and any good one that fails.

## 4. False alarms met and corrected

* C21 memory: the watchdog's own stack buffer was counted; the watchdog now allocates nothing while measuring, and the
  excess is measured a second time before it is reported.
* C19: positions at a number directly before a letter (`1abc`): accepted is left unspecified, a rejection may point at the
  number or at the letter. Positions at the end of a file after a trailing newline are not fixed either.
* C20: a soft error recovered in place is not a broken definition; the statement was refined.
* C10: a write error may stay in the buffer until the flush.
* C09/C21 time: wall time was replaced by CPU time, in proportion to the input, so a loaded machine raises no alarm.
* C29: the compact reader may accept a number in more bytes than needed or out of its type's range; left to the reader.

## 5. Planted bugs

`/verif/seeded/<id>/` (patch.diff, demo.sh and what it needs, meta.json). Each was confirmed to build, to pass the
stable tests, to fail its demo, and to leave the demo passing without it. Each is caught by the check of its property in
the quick tier with seeds 1 and 2, with one exception: c33-linear was caught when it was added, but the last runs, on an
otherwise idle sandbox, missed it each time (four runs with seed 1). C33 compares running times, and the search through the
fields is then too cheap to exceed the margin of 10; how well C33 sees an effort with a small factor depends on the machine.

@TABLE@

None could be planted for C23: the suite lives under `testing/`, which does not count as source here; it was tried by
hand instead: dropping a comparison, the check that everything was consumed, the skip check or most of the cases of the
suite is reported by the check. Two reductions are not: fewer entries in its large map, and a repeated Boolean case.

Some candidates were rejected because they turned out equivalent, broke an existing test or exposed at once.

Planted bugs the checks missed at first, and what was strengthened: c07-longstring (long strings in skips), c09-growlist
(large valid data), c11-more (drip), c13-noflush (flush without data), c14-byid/c14-lazyfields (families of related types),
c19-* (lexical faults), c21-quad (CPU bound), c29-void, c30-typename (types with one name in different functions),
c01-nankey (NaN keys), c13-spill (stray flushes), c15-normdup and c15-embedded (declared types with tags), c21-stars (very
long tokens), c28-cr (carriage returns in comments), c09-depthmap (recursion through keys and pointers), c30-sharederr
(errors returned earlier change later), c22-skipbp (going on after a breakpoint).

## 6. Mutation testing

A generator of small syntactic mutants (operators, constants, conditions, deleted statements, swapped arguments) over
all non-test files; each mutant that builds and passes the tests goes through the quick checks of the packages it
touches. @MUT@

A second set of mutants was made by hand: behaviour that changes only beyond a threshold (a string longer than 200,000
bytes, the 20th entry of a map, a list of more than 3,000 elements read into used capacity, the 65th struct level, the
300th field, a number of 400 digits, ...). The survivors led to the "long" and "nested" subs (C01, C05, C06), wide
structs, "huge" strings, deeper wire trees and long lexical elements (C18). Thresholds the checks do not reach: strings
of 2^24 bytes outside C09, containers of 2^20 elements outside C09, 300 fields in one struct, 70,000 annotations.

## 7. Limits

* Random search: a violation outside the generated distribution can be missed; sizes are bounded (wire trees of a few
  dozen nodes, some large; documents of a few dozen definitions, some with up to 70,000 parts).
* The reference models are trusted. They were cross-checked against the unchanged code over many millions of cases and
  several seeds, and where they disagreed with it the specification decided.
* C14's and C31's schedules are sampled.
* C33 judges by running time with a wide margin, so as to stay quiet on a busy machine: a quadratic effort with a small
  factor, such as c33-linear, can be missed.
'''
order=sorted(os.listdir('/verif/seeded'))
rows=['| planted bug | caught by | what it needs |','|---|---|---|']
for s in order:
    m=json.load(open(f'/verif/seeded/{s}/meta.json'))
    rows.append(f"| {s} | {m['property']} | {m['needs'].strip().replace('|','/')} |")
mut=open('/tmp/muttext').read().strip() if os.path.exists('/tmp/muttext') else 'The survivors were judged one by one: message wording, equivalent code, dead code (paths for inlined fields that no caller reaches) and values at limits the properties leave open (the nesting limit itself).'
open('/verif/DESIGN.md','w').write(D.replace('@TABLE@','\n'.join(rows)).replace('@MUT@',mut))
