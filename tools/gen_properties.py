#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording stays reviewable)."""
import json, os
ALL = ["src/blake1_224.h","src/blake1_256.h","src/blake1_384.h","src/blake1_512.h","src/blake2.h","src/blake2s.h","src/crc_32.h","src/cshake.h","src/fnv.h","src/has_160.h","src/md2.h","src/md4.h","src/md5.h","src/ripemd_128.h","src/ripemd_160.h","src/ripemd_256.h","src/ripemd_320.h","src/sha1.h","src/sha2_224.h","src/sha2_256.h","src/sha2_384.h","src/sha2_512.h","src/sha2_512_224.h","src/sha2_512_256.h","src/sha3.h","src/siphash.h","src/sm3.h","src/tiger.h","src/tuple_hash.h","src/whirlpool.h"]
HEAP = ["src/sha3.h","src/cshake.h","src/tuple_hash.h"]
CLI = ["src/program/main.cpp"]
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                   mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))
BUF = ("partial-block buffer", "bytes accepted but not yet compressed", "m_buffer in every header")
CNT = ("message length counter", "bytes or bits absorbed so far, encoded into the final padding", "m_sizeCounter in every header that has one")
p("C01", "Digest depends only on the bytes fed, never on how they were delivered",
  "For every algorithm (and every digest length, key, name and customization it takes), finalizing yields exactly the digest the published algorithm defines for the concatenation of all bytes fed since construction or reset, whatever the total length. It makes no difference how the stream was cut into pieces (empty pieces, single bytes, cuts on either side of block limits, pieces of many blocks), which feeding overload carried each piece, or how it was aligned. Nor does it matter which other hashers were fed in between, what the object's memory held before construction, or whether the library was built as C++14, 17 or 20, with or without assertions.",
  ["histories","inputs","configurations"],
  "all delivery histories of a byte stream: every way of cutting it, every overload and alignment per piece, every interleaving with other live hashers, over all 47 algorithms and parameters",
  "The tests feed a handful of fixed messages, mostly in one piece, and compare with literals; tails of 56..63 bytes of BLAKE were never among them and were wrong. They cannot enumerate cuts, alignments, overloads and interleavings.",
  ALL, [("fill the buffer, compress whole blocks, keep the tail","addData() in every header"),("padding and length encoding","finalize() in every header")], [BUF, CNT], ["toString()/toVector()/toArray() after finalize()"])
p("C02", "Very long streams and multi-gigabyte single pieces hash correctly",
  "The digest stays that of the published algorithm when the total length passes 2^29, 2^31 and 2^32 bytes, and when a single fed piece is itself larger than 2 GiB or 4 GiB. This holds for any mix of small and giant pieces and for a tuple element of that size. A copy taken of a hasher at any point of such a stream continues it correctly.",
  ["histories","inputs"],
  "delivery histories whose running length crosses the 32-bit limits of a bit or byte counter, and piece sizes beyond 32 bits",
  "The longest message in the tests is about a million bytes, so no counter, index or narrowing conversion ever crosses 32 bits.",
  ALL, [("64/128-bit length counters","m_sizeCounter, Uint128"),("size_t indices over whole blocks","addData()/addDataImpl()")], [CNT], ["toString() after finalize()"])
p("C03", "Independent hashers running concurrently never influence each other",
  "Hashers that share no object can be constructed, fed, finalized, read, copied and destroyed on different threads, or inside code that interrupts another hasher in the middle of an operation, and each yields exactly the digest it would yield alone. This holds for every interleaving, including concurrent first use. The library makes no unsynchronised access to state shared between such hashers.",
  ["schedules","histories"],
  "all preemptive interleavings, at memory-access granularity, of 2-4 threads each using its own hashers, and of nested use inside an interrupted operation",
  "All tests are single threaded; a shared scratch buffer or lazily built table would pass every one of them.",
  ALL, [("all state is per object; tables are constant","class members and static constexpr tables in every header")], [], ["digests of each thread's hashers","data-race detection on instrumented accesses"])
p("C04", "A finalized hasher can be read, compared and copied by many threads at once",
  "Any number of threads may simultaneously read out, compare, std::hash and copy one finalized hasher, or copy one that is still absorbing, without synchronisation. Every thread sees the same correct digest, every copy is independent and continues correctly, and the shared object is not modified. No interleaving produces a data race.",
  ["schedules","histories"],
  "all preemptive interleavings of const operations on a shared object by 2-4 threads, while each continues with its own copy",
  "No test uses an object from two threads; a cache filled in by a const readout would pass all of them.",
  ALL, [("const readouts that only read members","toString()/toVector()/toArray()/operator T()/operator== in every header")], [], ["results of each reader","data-race detection on instrumented accesses"])
p("C05", "Copies, moves, assignments and swaps are faithful, independent checkpoints",
  "A copy taken at any moment continues exactly as the original would, and from then on neither affects the other. Copy, move, assignment (wherever the type offers it), self-assignment and swap transfer the complete value including key, name, customization and digest length, into a target of any previous value, including one that was moved from. A run that crashes and resumes from an earlier copy, re-feeding what followed it, ends with the same digest as an uninterrupted run.",
  ["histories","crash_points"],
  "all histories of copy/move/assign/swap/feed over a pool of hashers, with a crash that destroys every live hasher and resumes from the last checkpoint at any point",
  "Tests copy only freshly fed objects; assignment between differently parameterised or moved-from cSHAKE hashers dereferenced null without any test noticing.",
  ALL, [("defaulted value semantics","all headers"),("hand-written copy/move","CShake copy/move members in cshake.h")], [BUF, CNT, ("parameters","digest length, key, name, customization","sha3.h, cshake.h, siphash.h")], ["digests of all hashers in the pool"])
p("C06", "Reset returns a hasher to its just-constructed behaviour after any history",
  "After reset, a hasher behaves exactly like one newly constructed with the same parameters, whatever it went through before: any amount of data, finalization, readouts, copies, repeated resets. Key, name, customization and digest length survive; nothing of the earlier message does. One object can therefore hash any number of messages in turn.",
  ["histories"],
  "all histories of feed/finalize/read/copy/reset on a reused object",
  "Tests reset each algorithm once at one point; FNV-0 and customized cSHAKE/TupleHash did not survive reset and no test saw it.",
  ALL, [("reset()","every header"),("parameters re-absorbed","CShake::reset() in cshake.h")], [BUF, CNT], ["digest after reset compared with the model of a fresh hasher"])
p("C07", "Failing memory allocation never corrupts, leaks or yields a wrong digest",
  "If memory allocation fails at any point inside an operation, the operation either still completes correctly or reports std::bad_alloc; it never crashes, leaks, yields a wrong digest or disturbs another hasher. A readout or copy that failed leaves its source intact, so that retrying succeeds with the right value. A hasher whose feeding or finalization failed can be reset and then behaves as new; a failed assignment's target can be assigned or destroyed.",
  ["fault_sequences","histories"],
  "every allocation of every operation (construct, copy, assign, feed, finalize, hex and vector readout) failing once or repeatedly, anywhere in a history",
  "Tests never see an allocation fail.",
  ALL, [("readouts build a local result","toString()/toVector()"),("heap-held digest and state","m_final in sha3.h; m_shake/m_keccak in cshake.h")], [("owned heap memory","digest output and inner sponge","sha3.h, cshake.h")], ["exceptions, allocation balance, digests after retry and reset"])
p("C08", "Readouts are stable, repeatable and agree with each other",
  "Once finalized, the hexadecimal, vector, array and integer readouts all describe the same digest: lowercase hex in byte order, and for an integer type its leading bytes as a big-endian number (all of them when the digest is shorter). Reading any of them any number of times in any order, comparing, std::hash-ing or copying never changes what is read next. Hashers of the same kind and parameters that absorbed the same bytes compare equal and have equal std::hash; hashers with different digests compare unequal.",
  ["histories"],
  "all sequences of readouts, comparisons and copies on finalized hashers, over all algorithms and digest lengths",
  "Tests read each object once through one or two readouts; the 16- and 20-byte Tiger readouts wrote past their array in all of them unnoticed, as only the 24-byte form is tested.",
  ALL, [("conversion of state words to bytes","toArray()/stateToVector() in every header"),("operator==","every header")], [], ["all readouts of one object, repeatedly"])
p("C09", "Caller memory is only read within bounds, only during the call, never written",
  "Feeding reads exactly the bytes it was given: it never touches a byte before or after the piece, at any alignment or length, and never writes to it. Nothing supplied by the caller (pieces, key, name, customization) is used after the call that took it returned, so the caller may overwrite, unmap or free it at once. Readouts and all other operations touch only the object's own memory.",
  ["inputs","histories"],
  "all piece lengths and placements flush against inaccessible memory, at any point of a history, with the memory revoked as soon as the call returns",
  "Tests feed live arrays inside valid memory; small overreads, retained pointers and stray writes leave their digests unchanged.",
  ALL, [("bounded span slicing","addData()"),("unaligned loads limited to whole blocks","Loader in every header")], [BUF], ["access faults on guard pages, sanitizer reports, canaries around objects"])
p("C10", "TupleHash is determined by the sequence of elements and their boundaries",
  "The digest equals the published TupleHash of exactly the ordered list of elements fed: each call contributes one element, including an empty one. Moving a byte across an element boundary, merging, splitting, dropping or reordering elements changes the message being hashed, while the overload, alignment and other activity during feeding do not. It also depends on digest length and customization as published, after any sequence of copies and resets.",
  ["histories","inputs"],
  "all element lists (any count, any lengths including 0 and lengths whose encoding needs 1-3 bytes), all ways of delivering each element, copies and resets at any point",
  "Tests cover six fixed tuples of two or three tiny elements, none empty and none needing a multi-byte length.",
  ["src/tuple_hash.h","src/cshake.h","src/sha3.h"], [("length prefix per element","nextData()"),("output length suffix","finalize()")], [BUF], ["toString()/toVector() after finalize()"])
p("C11", "The program prints the right digest however its input arrives",
  "For every algorithm it offers, given a readable file or standard input, the program prints exactly one line with the algorithm's digest of the complete input and the name given, and exits with success. This holds for any input length and however the operating system delivers it: short reads, single bytes, delays, a read interrupted by a signal. For standard input an interruption may instead end in a reported failure, never in a wrong digest.",
  ["schedules","inputs"],
  "all segmentations of the input by read(), with interruptions at any point, for all algorithm options and their parameters",
  "No test runs the program at all.",
  CLI, [("read loop until end of file","readNPrint/readAllNPrint in runHash()")], [], ["standard output and exit status"])
p("C12", "The program never presents a digest of input it could not fully read",
  "If the input cannot be opened (missing, forbidden, a directory) or reading it fails at any point, the program prints no digest line and exits with a failure status. It never reports success for a digest of part of the input.",
  ["fault_sequences","inputs"],
  "open failures of any kind, and a read failure after any number of bytes, for files and standard input and all algorithm options",
  "No test runs the program; it printed the digest of the readable prefix and exited with success.",
  CLI, [("check of the stream state after the loop","ensureFullyRead in runHash()")], [], ["standard output and exit status"])
p("C13", "The program never reports success when its result could not be written",
  "If writing the result to standard output fails at any point (disk full, closed pipe, device error), whether at once or only when buffered output is flushed, the program exits with a failure status. Writes that are only partially accepted at a time still deliver the complete line, and an interrupted write leads to the complete line or to a failure status.",
  ["fault_sequences"],
  "write failures and short writes at any byte of the output, for all algorithm options",
  "No test runs the program; a full disk lost the digest with exit status 0.",
  CLI, [("flush and check before exit","main()")], [], ["bytes accepted by standard output and exit status"])
p("C14", "Running out of memory never makes the program print a wrong digest",
  "If any memory allocation of the program fails, it either still prints the correct line and succeeds, or it ends unsuccessfully. It never prints a digest of part of the input, or a damaged digest, as a success.",
  ["fault_sequences"],
  "each allocation of a run failing, once or from then on, for files and standard input and all algorithm options",
  "No test runs the program or fails an allocation.",
  CLI + HEAP, [("allocation failures surface as exceptions or stream errors","runHash() and the library")], [], ["standard output and exit status"])
p("C15", "Compile-time evaluation gives the run-time digest",
  "Where the library can be evaluated in a constant expression, the compile-time digest equals the run-time digest of the same bytes.",
  ["inputs","configurations"], "all inputs, compilers and language modes",
  "Tests evaluate a few constants.", ALL, [("constexpr members","every header")])
p("C16", "Digests do not depend on the byte order of the machine",
  "The library yields the same digests on little-endian and big-endian machines.",
  ["configurations"], "all inputs on both byte orders", "Tests run on little endian only.", ALL, [("byte-wise Loader","every header")])
p("C17", "Headers can be combined in any order and any number of source files",
  "Any selection of the headers can be included in any order in any number of source files of one program without conflicts, and behaves the same.",
  ["programs"], "all include orders and combinations of source files", "One test includes two files.", ALL, [("include guards, inline, internal linkage","every header")])
p("C18", "Malformed program arguments are refused without crashing",
  "Any argument list that does not name an algorithm the program offers, followed by exactly the arguments it takes (a digest length that is a number in range where one is needed), makes the program show its usage or an error and print no digest. It never crashes, whatever the arguments contain and even if writing the message fails. A well-formed list that names a missing input ends with an error and a failure status.",
  ["inputs","fault_sequences"], "all argument lists, with failing writes, reads and closed descriptors", "No test runs the program; a digest length that is negative or too large for an int ended it with an uncaught exception.", CLI, [("argument checks","main(), getHash(), runHash()")], [], ["standard output, standard error and exit status"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P: assert len(x["title"]) <= 80, x["id"]
