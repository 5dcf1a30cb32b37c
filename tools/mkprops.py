#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, sys, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
RT = "crates/zserio/src/"
CC = "crates/zserio-rs-build/src/"
p("C01", "Serialising to a sink is acknowledged only when every byte was delivered",
  "When writing an object to an output sink reports success, the sink has accepted exactly the object's serialised bytes, once and in order, however the sink fragments, interrupts or delays the writes. "
  "When the sink fails, the call reports that error and what the sink accepted is an exact prefix of the serialised bytes; an object that cannot be serialised leaves the sink untouched. "
  "A failed call leaves no trace: retrying on a healthy sink delivers the complete, correct bytes.",
  ["fault_sequences", "inputs", "histories"],
  "every object of every generated type, every sequence of short writes, interrupted calls, zero-length writes and hard errors of the sink, every retry history",
  "The tests only ever write to a Vec, which never writes short, is never interrupted and never fails; the guarantee is over every fault sequence of the sink.",
  [RT + "lib.rs"], [("to_writer/to_bytes encode completely, then hand over all bytes", RT + "lib.rs")],
  ["return value of to_writer", "bytes accepted by the sink"])
p("C02", "Deserialising from a source returns exactly what the delivered bytes encode",
  "Reading an object from an input stream or a file gives the same result, value or error, as decoding the bytes the source delivered in one piece, however the source fragments or interrupts its reads. "
  "An I/O error of the source is always reported as an error and never turned into an object decoded from partial data. "
  "A missing or unreadable file is reported as an error.",
  ["fault_sequences", "inputs"],
  "every stored object (valid, truncated or corrupt), every fragmentation of the reads, every position and kind of I/O error, through both a reader and a file path",
  "The tests read from in-memory slices or intact local files that deliver everything in one call and never fail.",
  [RT + "lib.rs", RT + "error.rs"], [("from_reader reads to the end of the stream, then decodes", RT + "lib.rs"), ("from_file opens the file and delegates", RT + "lib.rs"), ("I/O errors are converted, not swallowed", RT + "error.rs")],
  ["return value of from_reader / from_file / from_bytes", "read calls issued to the source"])
p("C03", "A stored object is loaded back as an equal value, for every schema construct",
  "For every schema the compiler accepts, every value allowed by it can be stored, and an object whose store operation was acknowledged is loaded back, by a fresh process through whatever fragmented or interrupted I/O, as an equal value with every field of every kind preserved. "
  "This covers all integer, variable-length, float, string and binary types, enums, bitmasks, optional and conditional fields, choices including their default branch, unions, parameterised and templated types, alignment, offsets, and plain, auto-length, fixed-length and packed arrays. "
  "An object with contents that do not fit their fields is refused, or it is loaded back as it was; it is never acknowledged and stored as something else. "
  "Storing the loaded value again produces the identical bytes.",
  ["inputs", "programs", "fault_sequences"],
  "every schema construct and nesting in the corpus and every value of it, under benign I/O disturbances of the simulated disk between store and load",
  "The tests check a handful of fixed values for about twenty schemas; combinations of constructs, boundary values, packed deltas and reloads through disturbed I/O are not sampled.",
  [RT + "ztype", CC + "internal/generator"], [("generated zserio_write / zserio_read pairs", CC + "internal/generator/encode.rs"), ("generated decoders", CC + "internal/generator/decode.rs"), ("array and delta packing runtime", RT + "ztype/array.rs")],
  ["value stored vs value loaded", "bytes of first and second store"])
p("C04", "A torn object is always rejected",
  "If a crash leaves only a strict prefix of an object's serialised bytes in storage, loading it reports an error. "
  "It never yields an object, never panics, and never fails to return.",
  ["crash_points", "inputs"],
  "every object of every generated type and every byte position at which the write can be cut",
  "No test decodes truncated data; the guarantee is over every crash point inside every serialised object.",
  [RT + "ztype", RT + "lib.rs", CC + "internal/generator/decode.rs"], [("every primitive read reports end of data", RT + "ztype/bits_decode.rs"), ("bit reader bounds checks", RT + "ztype/reader.rs"), ("string and extern reads", RT + "ztype/string_decode.rs")],
  ["return value of from_bytes / from_reader on each prefix"])
p("C05", "Corrupted stored data never crashes or hangs the reader",
  "Loading data damaged by bit flips, lost, duplicated, stale, zeroed or misdirected sectors, or garbage appended, either returns an object or reports an error. "
  "The reader never panics, aborts or runs for a number of steps out of proportion to the data it was given (elements that take no bits, of which the format lets a few bytes stand for very many, count as data).",
  ["fault_sequences", "inputs"],
  "every stored object of every generated type and every sequence of storage corruptions applied to it",
  "No test feeds damaged data; the space of corruptions of every object of every schema cannot be sampled by examples.",
  [RT + "ztype", RT + "error.rs", CC + "internal/generator/decode.rs", CC + "internal/generator/zunion.rs", CC + "internal/generator/zenum.rs"],
  [("decoders return ZserioError", RT + "error.rs"), ("enum and union selectors are validated on read", CC + "internal/generator/zenum.rs")],
  ["return or panic of from_bytes / from_reader", "number of executed steps"])
p("C06", "Decoding memory is bounded by the data actually received",
  "While decoding, however large a length the (possibly corrupt) data declares, the reader allocates memory only in proportion to the data that is really present plus the configured array allocation chunk for each array being read (elements that take no bits count as data). "
  "A few damaged bytes can therefore not make a reader exhaust memory.",
  ["fault_sequences", "inputs", "configurations"],
  "every stored object of every generated type with corrupted or forged lengths, every truncation, every allocation-chunk setting",
  "The tests only check that a moderately wrong array length gives an error; none measures allocation and none forges lengths of strings, binary fields or nested arrays.",
  [RT + "ztype/array.rs", RT + "ztype/string_decode.rs", RT + "ztype/bytes_type.rs", RT + "ztype/extern_type.rs"],
  [("array reservation limited by ARRAY_ALLOC_CHUNK", RT + "ztype/array.rs")],
  ["allocator seam: peak live bytes during the call"])
p("C07", "Concurrent encoding and decoding are isolated from each other",
  "Any number of threads may encode and decode objects at the same time: under every interleaving each call returns exactly what it would return running alone. "
  "A call that fails or panics in one thread does not affect calls in any other thread.",
  ["schedules", "inputs"],
  "every interleaving, at the granularity of basic blocks, of any number of threads running any mix of encode, decode and size calls on any objects",
  "The tests call the library from one thread per value and never control interleavings.",
  [RT + "lib.rs", RT + "ztype"], [("no shared mutable state besides the allocation-chunk setting", RT + "ztype/array.rs")],
  ["return values of each thread's calls vs the sequential run"],
  [("array allocation chunk", "the only process-global state of the runtime", RT + "ztype/array.rs")])
p("C08", "The array allocation chunk never changes results and is obeyed",
  "Whatever allocation chunk size is configured, and whenever another thread changes it, decoding returns the same results. "
  "A chunk set is the chunk read back until the next set, and a decode that starts after it was set reserves no more array elements up front than that setting allows.",
  ["configurations", "schedules", "inputs"],
  "every chunk value from zero to the maximum, every instant at which another thread changes it relative to running decodes, every array of every generated type",
  "One test changes the chunk once in a quiet process; the guarantee is over every value and every interleaving with running decodes.",
  [RT + "ztype/array.rs", RT + "lib.rs"], [("set_array_alloc_chunk / get_array_alloc_chunk", RT + "ztype/array.rs")],
  ["decode results", "allocator seam", "value returned by the getter"],
  [("array allocation chunk", "elements reserved up front by an array decode", RT + "ztype/array.rs")])
p("C09", "A reader or writer object can be reused after any failure",
  "After any history of successful and failed decodes and encodes, decoding valid data into the same object yields a value equal to decoding it into a fresh object, with nothing left over from earlier contents. "
  "Encoding an object after a failed attempt, or repeatedly, yields the same bytes as encoding it for the first time, also when fields that its selectors and conditions switch off still hold something.",
  ["histories", "fault_sequences", "inputs"],
  "every sequence of decodes (intact, torn, corrupt) and encodes (good, failing) over the same object of every generated type",
  "The tests decode each object once into a fresh default; no test retries after a failure or reuses an object.",
  [CC + "internal/generator/decode.rs", CC + "internal/generator/zstruct.rs", CC + "internal/generator/zunion.rs", CC + "internal/generator/zchoice.rs", RT + "ztype/array.rs"],
  [("generated zserio_read resets each field before reading it", CC + "internal/generator/decode.rs")],
  ["object after reuse vs fresh object", "bytes of repeated encodes"])
p("C10", "Records written back to back are recovered exactly up to the crash",
  "Objects written one after another into one bit stream, byte-aligned or not, are read back as the same sequence, each read consuming exactly what its write produced and unaffected by what follows it. "
  "After a crash that tears the stream at any point, reading recovers exactly the records that were completely stored, in order, and then reports an error.",
  ["crash_points", "histories", "inputs"],
  "every sequence of records of every mix of generated types, every starting bit alignment, every crash point and trailing garbage",
  "No test writes more than one object into a stream or reads an object that is followed by other data.",
  [RT + "ztype", RT + "lib.rs", CC + "internal/generator"], [("zserio_write / zserio_read on a shared bit writer / reader", RT + "ztype/array_traits/mod.rs"), ("alignment relative to the stream start", RT + "ztype/alignment.rs")],
  ["sequence of records read", "reader position after each record", "error at the torn record"])
p("C11", "Messages interoperate with any conforming zserio peer",
  "Bytes produced by this implementation for any value follow the zserio wire format, so that an independent conforming peer decodes them to the same value, consuming all of them. "
  "Bytes produced by a conforming peer for any value are decoded here to the same value. "
  "This holds for every message delivered complete by the transport, whatever was fragmented, duplicated, reordered or retransmitted on the way.",
  ["inputs", "programs", "fault_sequences"],
  "every value of every schema construct in the corpus, both directions, over a simulated network that fragments, duplicates, reorders, delays, drops and resets",
  "The comparison tests check a few fixed objects against bytes stored from the reference implementation.",
  [RT + "ztype", CC + "internal/generator"], [("bit-exact encoders", RT + "ztype/bits_encode.rs"), ("variable-length encodings", RT + "ztype/varint_encode.rs"), ("delta packing", RT + "ztype/array_traits/delta_context.rs"), ("generated code", CC + "internal/generator")],
  ["bytes on the wire", "value decoded by each side"])
p("C12", "Generated bindings are a deterministic function of the schema",
  "Compiling the same schema tree always produces byte-identical output files, regardless of hash seeds, directory listing order, date, process id, environment variables, working directory, number of processors, memory layout, what was compiled earlier in the process and what other threads compile at the same time. "
  "The set of output files is the same as well.",
  ["schedules", "configurations", "programs"],
  "every accepted schema tree, every hash seed of the process, every order in which the file system lists directories, every machine, environment and date, every interleaving with other compilations",
  "The tests compile one tree once per build and never compare outputs; hash seeds and directory order are fixed by neither the tests nor the platform.",
  [CC + "internal/model.rs", CC + "internal/compiler", CC + "internal/generator"],
  [("sorted module files", CC + "internal/generator/mod_file.rs"), ("model maps iterated during evaluation and generation", CC + "internal/model.rs")],
  ["names and bytes of all output files"])
p("C13", "The compiler reports success only if all bindings were completely written",
  "If any file-system operation fails while the compiler reads schemas or writes bindings, the compilation ends with a failure the caller can see. "
  "If it reports success, every output file exists and has exactly the bytes of an undisturbed compilation, also when reads and writes were short or interrupted.",
  ["fault_sequences", "programs"],
  "every accepted schema tree and every sequence of file-system faults (open, read, list, create, write, mkdir errors, disk full, short and interrupted calls)",
  "No test injects a file-system fault into the compiler.",
  [CC + "internal/generator/file_generator.rs", CC + "internal/model.rs", CC + "internal/model/package.rs", CC + "main.rs"],
  [("write_to_file propagates or panics on every error", CC + "internal/generator/file_generator.rs"), ("Model::from_filesystem panics on unreadable input", CC + "internal/model.rs")],
  ["outcome of the compilation", "contents of the simulated output tree"])
p("C14", "Re-running the compiler after a crash converges to a fresh compilation",
  "After the compiler was killed or the disk lost unsynced data at any point, running it again on the same schemas into the same output directory succeeds, and every file a fresh compilation yields is then there with exactly the content the fresh compilation gives it. "
  "Leftover, torn, longer or older versions of output files never survive into those files or change them.",
  ["crash_points", "histories", "programs"],
  "every accepted schema tree, every sequence of crashes at every file-system operation, every earlier version of the output directory",
  "The tests never interrupt the compiler or run it over an existing, damaged output directory.",
  [CC + "internal/generator/file_generator.rs", CC + "internal/generator/mod_file.rs"],
  [("output files are created truncated and fully rewritten", CC + "internal/generator/file_generator.rs")],
  ["contents of the simulated output tree after restart"])
p("C15", "A torn or damaged schema file never compiles into partial bindings",
  "If a schema file was cut off or damaged in storage so that it is no longer a valid schema (a file that lost all of its content is none), the compiler ends with a failure the caller can see. "
  "It never reports success for bindings that silently lack definitions or fields of the schema.",
  ["crash_points", "fault_sequences", "programs"],
  "every accepted schema tree, every cut position and every lost or damaged region in any of its files that leaves an invalid schema",
  "The tests only compile intact schemas.",
  [CC + "internal/model/package.rs", CC + "internal/parser", CC + "internal/visitor.rs"],
  [("syntax errors are reported by the parser", CC + "internal/model/package.rs")],
  ["outcome of the compilation", "generated definitions"])
p("N01", "Predicted bit size equals the number of bits written",
  "For every object of a generated type and every start position, the predicted bit size equals the number of bits its encoding produces there.",
  ["inputs"], "every object and start position", "The tests check a few objects.",
  [RT + "ztype", CC + "internal/generator/bitsize.rs"], [("bitsize generation", CC + "internal/generator/bitsize.rs")], ["zserio_bitsize vs bits written"])
p("N02", "Schema expressions evaluate as the zserio language defines",
  "Functions, conditions, array lengths and parameters in generated code evaluate every schema expression to the value the zserio language defines, including operator precedence and numeric conversions.",
  ["inputs", "programs"], "every expression and operand value", "The tests evaluate a dozen expressions on fixed operands.",
  [CC + "internal/generator/expression.rs", CC + "internal/ast/expression.rs"], [("expression generation", CC + "internal/generator/expression.rs")], ["return values of generated functions"])
p("N03", "Schema names map to distinct valid Rust identifiers",
  "Every valid schema name is mapped to a valid Rust identifier and distinct names within one scope never collide.",
  ["programs"], "every valid set of schema names", "The tests use a fixed set of names.",
  [CC + "internal/generator/types.rs"], [("name conversion", CC + "internal/generator/types.rs")], ["names in the generated code"])
p("N04", "Constraint violations are reported when a schema is inconsistent",
  "A schema that is syntactically valid but violates the language's semantic rules (duplicate names, unresolved or cyclic types, wrong argument counts) is rejected with a diagnostic.",
  ["programs"], "every semantically invalid schema", "No test compiles an invalid schema.",
  [CC + "internal/compiler"], [("symbol scope and type resolution", CC + "internal/compiler/symbol_scope.rs")], ["outcome of the compilation"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
