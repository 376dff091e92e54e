#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

RW = ["src/rw.rs", "src/clazz.rs", "src/cp.rs", "src/helper.rs", "coffer_macros/src/derive.rs"]
prop("C01", "Loading a class does not depend on how the stream delivers its bytes",
  "Loading a class gives the same outcome (the same class, or the same kind of refusal) whether its bytes arrive all at once, one at a time, in pieces cut at arbitrary places, or with any number of interrupted calls in between. Only the bytes decide the outcome.",
  ["schedules", "inputs", "fault_sequences"],
  "for every byte sequence and every way a reader may split it into short reads and interrupted calls",
  "The tests read from slices and whole files, which always fill the buffer they are given; no test ever sees a short read or an interrupted call, and the cut can fall in any of a class file's fields.",
  RW + ["src/code.rs", "src/attr.rs"],
  [("fixed-width fields read with read_exact", "src/rw.rs impl_readwrite_nums"), ("string, attribute and code bodies read with read_exact", "src/rw.rs Wtf8String; coffer_macros/src/derive.rs attr_enum; src/code.rs Code::read_from")],
  ["Class::read_from through a simulated Read"])
prop("C02", "Saving a class emits the same bytes however the stream accepts them",
  "Saving a class to a stream that accepts data in arbitrary portions, with interrupted calls in between, delivers exactly the byte sequence that a save to memory delivers: nothing lost, repeated or reordered.",
  ["schedules", "inputs", "fault_sequences"],
  "for every class and every sequence of short writes and interrupted calls",
  "The tests write into vectors, which accept everything at once; a write that ignores the accepted length would pass all of them.",
  RW + ["src/code.rs", "src/attr.rs"],
  [("write_all everywhere", "src/rw.rs, src/clazz.rs Class::write_to, coffer_macros/src/derive.rs"), ("members buffered before the constant pool is emitted", "src/clazz.rs Class::write_to")],
  ["Class::write_to through a simulated Write"])
prop("C03", "A read failure or an early end of data is always reported",
  "If the stream fails, or ends before the class is complete, at any byte, loading returns an error carrying the stream's failure; it never returns a class, panics, or keeps reading after the failure.",
  ["crash_points", "inputs", "fault_sequences"],
  "for every class file, every byte position at which the stream fails or ends, and every kind of I/O error",
  "No test injects an I/O error or truncates a class; a swallowed error at one field shows only when the failure hits that field.",
  RW + ["src/code.rs", "src/error.rs"],
  [("error propagation with ?", "all read_from implementations"), ("conversion that keeps the I/O error", "src/error.rs ErrorBase::IO")],
  ["Class::read_from result"])
prop("C04", "A failed save is always reported and never passes as complete",
  "Saving reports success only if the stream has accepted every byte of the class. If the stream fails, is full, or accepts nothing at any point, saving returns an error carrying that failure, has emitted only a prefix of the complete output, and writes nothing after the failure.",
  ["crash_points", "inputs", "fault_sequences"],
  "for every class, every byte position at which the stream fails or fills up, and every kind of I/O error",
  "No test writes to a stream that fails; a dropped result on one of the many writes is invisible when writing to memory.",
  RW + ["src/code.rs"],
  [("write_all and ? on every write", "all write_to implementations")],
  ["Class::write_to result and the bytes the stream received"])
prop("C05", "Damaged data never crashes, hangs or exhausts memory",
  "Loading arbitrarily damaged data ends with a class or an error: it never panics, aborts, loops, overflows the stack, or allocates memory out of proportion to the data actually supplied. A class obtained from damaged data can be compared, printed, cloned, dropped and saved again without a crash, and if that save succeeds its result loads back as the same class.",
  ["inputs", "crash_points", "fault_sequences"],
  "for every stored class and every pattern of damage: flipped bits, torn or lost blocks, stale tails, lying lengths and counts, dangling references, repeated or spliced regions, deep nesting",
  "The tests load only well-formed classes from one jar; the damaged byte sequences that reach an unchecked index, subtraction or allocation are unbounded in number.",
  RW + ["src/code.rs", "src/code/convert.rs", "src/insn.rs", "src/ty.rs", "src/signature.rs", "src/mod_utf8.rs", "src/annotation/mod.rs", "wtf8/src/lib.rs"],
  [("checked lookups returning Option/Err", "src/rw.rs ConstantPoolReader, src/cp.rs MapCp"), ("label position lookup", "src/code.rs Code::read_from"), ("string validation", "src/mod_utf8.rs, wtf8/src/lib.rs")],
  ["Class::read_from result, allocator totals, worker process liveness"])
prop("C06", "A saved class loads back with the same declarations and attributes",
  "Once a save reports success, the stored bytes are a well-formed class file containing exactly the version, flags, names, members, and attributes (annotations, signatures, module, nesting and debug information) of the class that was saved, each value under its own declaration, and they load back as an equal class after any interruption, crash or retry around the save. Loading a well-formed class file likewise yields exactly the declarations it contains; stack map frames and flag bits the library does not define are the only things left out.",
  ["inputs", "histories", "crash_points", "fault_sequences"],
  "for every class the data model can express, every layout of an equivalent class file, and every history of saves, loads, failures and crashes of the store around them",
  "The tests round-trip a jar through the library's own reader and writer, so errors that the two share or that occur in constructs the jar lacks are invisible, and none crosses a failure.",
  RW + ["src/attr.rs", "src/member.rs", "src/module.rs", "src/annotation/mod.rs", "src/annotation/type_annotation.rs", "src/signature.rs", "src/flags.rs", "src/version.rs"],
  [("derived symmetric readers and writers", "coffer_macros/src/derive.rs"), ("constant pool interning", "src/cp.rs VecCp::insert_raw"), ("attribute dispatch by name", "coffer_macros/src/derive.rs attr_enum")],
  ["stored bytes decoded by an independent class-file decoder; Class::read_from value"])
prop("C07", "A saved method body keeps its meaning",
  "Once a save reports success, every stored method body consists of the same instructions with the same operands in the same order as the saved one, and every jump, switch case, exception range, local-variable range, line number and code position still refers to the same instruction, whatever the distances involved. Loading a method body likewise yields what the file contains; a conditional jump too far for its encoding may be stored as the inverted jump around a long one.",
  ["inputs", "programs", "histories", "fault_sequences"],
  "for every instruction sequence, branch distance, switch shape and alignment, table order, and any stream faults, crashes or retries around the save",
  "The tests cover a few short bodies and self-consistency on one jar; layout errors need particular distances, alignments or table contents, and instructions dropped on saving are noticed only by an independent decoder.",
  ["src/code.rs", "src/code/convert.rs", "src/code/structure.rs", "src/insn.rs", "src/constants/insn.rs"],
  [("label assignment and lookup", "src/code.rs Labeler"), ("jump sizing and emission", "src/code.rs Code::write_to"), ("instruction translation", "src/code/convert.rs")],
  ["stored bytes decoded by an independent bytecode decoder; Code value after loading"])
prop("C08", "Strings and constants survive storage exactly",
  "Every name, string and numeric constant stored in a class file is loaded, and stored again, with exactly the same characters or bits: embedded NULs, unpaired surrogates, supplementary characters, signed zeros and NaN payloads included, and neighbours of two-slot constants are never mixed up. Malformed text is refused, never altered into other text.",
  ["inputs", "histories", "fault_sequences"],
  "for every sequence of UTF-16 units, every integer and floating-point bit pattern and every constant pool order, through streams that split, interrupt, fail and are retried, and for every storage fault that damages stored text",
  "The tests convert a handful of strings and never place the encoding under damage or in a pool with two-slot neighbours.",
  ["src/mod_utf8.rs", "wtf8/src/lib.rs", "src/cp.rs", "src/rw.rs", "src/total_floats.rs", "src/ty.rs"],
  [("modified UTF-8 codec", "src/mod_utf8.rs"), ("two-slot accounting", "src/cp.rs RawConstantEntry::size, MapCp::read_from, VecCp::insert_raw"), ("bitwise float identity", "src/total_floats.rs")],
  ["stored constant pool decoded independently; loaded values"])
prop("C09", "Dynamic constants and call sites keep their bootstrap methods",
  "After loading, every dynamic constant and dynamic call site, including those nested in bootstrap arguments, is bound to exactly the bootstrap method the file assigns to it, and after a successful save the stored file assigns it the same one; saving and loading repeatedly does not grow the file. A reference to a bootstrap method that does not exist, or that depends on itself, makes loading fail; it never surfaces later as a crash.",
  ["inputs", "histories", "fault_sequences"],
  "for every bootstrap table, nesting, sharing and order of dynamic entries, every number of save/load generations, and storage faults that damage or lose the table",
  "The tests never check which bootstrap method a dynamic entry is bound to, never nest them, and never lose the table.",
  ["src/dynamic.rs", "src/clazz.rs", "src/cp.rs", "src/rw.rs"],
  [("deferred resolution", "src/cp.rs MapCp::resolve_later, bootstrap_methods"), ("table rebuilt while saving", "src/clazz.rs Class::write_to")],
  ["loaded Dynamic values; stored BootstrapMethods table decoded independently"],
  state=[("pending references", "dynamic entries waiting for the table", "src/cp.rs MapCp.refs"), ("growing table", "bootstrap methods collected while saving", "src/cp.rs VecCp.bsm")])
prop("C10", "Output is deterministic whatever the process's randomness",
  "Saving equal classes produces identical bytes, and loading the same bytes produces equal classes with the same order of every list, in every process, on every thread, under every hash seed and after any earlier operations.",
  ["schedules", "configurations", "histories"],
  "for every class, every pair of hash seeds, and every history of earlier operations on the same thread",
  "Hash seeds are drawn by the operating system, so a test run samples one of 2^128 and an iteration-order leak passes most of the time.",
  ["src/code.rs", "src/cp.rs", "src/annotation/mod.rs", "src/clazz.rs"],
  [("insertion-ordered entry list beside the cache", "src/cp.rs VecCp"), ("ordered insertion of labels", "src/code.rs Code::read_from")],
  ["bytes and values produced under different simulated hash seeds"])
prop("C11", "Loading takes exactly one class's bytes from the stream",
  "A load that succeeds consumes exactly the bytes of that class and not one more, so that classes stored back to back, or followed by unrelated data, can be loaded one after another from one stream. A load whose failure is not caused by the stream never consumes bytes past the end of that class.",
  ["inputs", "schedules", "histories"],
  "for every sequence of classes and trailing data on one stream and every way the stream splits it, including a stream that blocks or fails just behind the class",
  "The tests give each class a reader of its own, where over-reading is invisible.",
  RW + ["src/code.rs", "src/attr.rs"],
  [("no buffering of the caller's reader", "src/rw.rs"), ("attribute bodies bounded by their length before parsing", "coffer_macros/src/derive.rs attr_enum")],
  ["position of the simulated stream after each load"])
prop("C12", "Operations running on several threads do not affect each other",
  "Any number of threads may load, save, clone and compare classes at the same time, including saving one shared class from several threads, and a reader or writer may itself perform such operations while it serves one; each operation has the result it would have had alone, under every interleaving, and none of them can block another.",
  ["schedules", "histories", "fault_sequences"],
  "for every interleaving, at stream calls, of any set of concurrent operations, with faults injected into some of them",
  "The tests never run two operations concurrently on shared data; hidden shared state shows only under particular interleavings.",
  ["src/clazz.rs", "src/cp.rs", "src/dynamic.rs", "src/code.rs", "src/rw.rs"],
  [("all state local to the operation", "src/cp.rs MapCp, VecCp created per call"), ("shared bootstrap cells written once", "src/dynamic.rs Dynamic.bsm")],
  ["results of each simulated thread against the same operation run alone"])
prop("C13", "A class that does not fit the format is refused, never stored corrupted",
  "Saving a class that exceeds what a class file can represent (too many constants, members, attributes or entries, too long a string, too much code, a position or label that does not exist) returns an error instead of panicking, and never reports success for output that is not a well-formed class file with the same content. A class just within the limits saves and loads back unchanged. The library's own limit of 128 nested annotation values, type arguments or bootstrap arguments counts as such a limit: nothing is saved that could not be loaded because of it. (Values are taken to be of the right kind for their place: a name inside a descriptor that contains a ';', or a raw attribute under a name the library interprets, is the caller's mistake.)",
  ["inputs", "fault_sequences", "histories"],
  "for every class at, just below and just above each limit of the format, on streams that also fill up, fail or split the data",
  "The limits lie at 65535 entries or bytes, which no test approaches, and each of some twenty counts can wrap independently.",
  ["src/cp.rs", "src/clazz.rs", "src/code.rs", "src/helper.rs", "src/rw.rs", "src/annotation/mod.rs", "src/annotation/type_annotation.rs", "src/dynamic.rs", "coffer_macros/src/derive.rs"],
  [("checked vector lengths", "src/helper.rs VecLen::write_to"), ("constant pool index allocation", "src/cp.rs VecCp::insert_raw")],
  ["Class::write_to result; stored bytes decoded independently"])
prop("C14", "Attributes are framed exactly: unknown ones verbatim, wrong lengths refused",
  "An attribute the library does not know is loaded and saved byte for byte, at the place where it stood. An attribute whose recorded length disagrees with its content, in either direction, makes loading fail, and never lets its parsing reach bytes outside that attribute.",
  ["inputs", "fault_sequences"],
  "for every attribute at every nesting level, every content of unknown attributes, and every storage fault that changes a recorded length or truncates or extends a body",
  "The tests contain no unknown attributes with awkward content and no attribute with a wrong length.",
  ["coffer_macros/src/derive.rs", "src/attr.rs", "src/code.rs", "src/member.rs"],
  [("bounded inner reader and leftover check", "coffer_macros/src/derive.rs attr_enum"), ("raw variant", "src/attr.rs RawAttribute")],
  ["Class::read_from result, loaded raw attributes, stored bytes decoded independently"])
prop("C15", "A failed operation leaves no trace",
  "After a load or save fails at any point, retrying it on a healthy stream gives exactly the result a first attempt would have given, the class being saved is unchanged, and every other class and every later operation is unaffected.",
  ["histories", "crash_points", "fault_sequences"],
  "for every history of operations in which any of them is failed at an arbitrary stream call, and every later operation",
  "No test fails an operation and continues; leftover state needs a failure at a particular point followed by a particular operation.",
  ["src/clazz.rs", "src/cp.rs", "src/dynamic.rs", "src/code.rs"],
  [("saving borrows the class immutably and builds a fresh pool", "src/clazz.rs Class::write_to, src/cp.rs VecCp::new"), ("loading builds a fresh pool", "src/cp.rs MapCp::new")],
  ["results of operations following a failed one"])
prop("C16", "Descriptor and signature text converts to values and back without loss",
  "Parsing the text form of any valid descriptor or generic signature and printing the result gives the same text, and parsing text that is not valid in full gives an error.",
  ["inputs"], "for every descriptor and signature string",
  "The grammar is recursive and the tests parse a few examples.",
  ["src/ty.rs", "src/signature.rs"], [("recursive-descent parsers and Display", "src/ty.rs parse_type, src/signature.rs")], ["parse_type, FromStr and Display"])
prop("C17", "Surrogate-tolerant strings behave like sequences of code points",
  "Slicing, splitting, searching, comparing and converting surrogate-tolerant strings agrees with the same operation on the sequence of their code points, and appending never leaves an encoded surrogate pair unjoined.",
  ["inputs"], "for every string and every operation of its API",
  "The API takes arbitrary strings and positions and the tests sample a few of each.",
  ["wtf8/src/lib.rs", "wtf8/src/std_internal.rs"], [("byte-level implementation over validated text", "wtf8/src/lib.rs")], ["public API of the string crate"])
prop("C18", "Float wrappers have a consistent total equality, order and hash",
  "Two wrapped floating-point values are equal exactly if their bits are, equal values hash equally, and the order is total and agrees with equality.",
  ["inputs"], "for every pair and triple of bit patterns",
  "2^64 patterns; no test covers the wrappers' ordering or hashing.",
  ["src/total_floats.rs"], [("total_cmp and to_bits", "src/total_floats.rs")], ["PartialEq, Ord and Hash"])
prop("C19", "Method handle validation accepts exactly the documented combinations",
  "Validating a method handle accepts exactly those combinations of kind, descriptor and name that the documentation allows.",
  ["inputs"], "for every combination of kind, descriptor form and member name",
  "No test calls the validation with all combinations.",
  ["src/loadable.rs"], [("MethodHandle::check", "src/loadable.rs")], ["MethodHandle::check result"])
prop("C20", "Parts of a class pass through any constant pool and stream unchanged",
  "A field, method, attribute or smaller part (an annotation, a constant, a bootstrap method, a stack map frame and so on) written with a constant pool of the caller's own, which may number its entries in any order and with any gaps and may share equal entries or not, reads back as the same part from a pool with the same entries; it takes exactly its own bytes from the stream, and is written as the same bytes however the stream accepts them. A failure of the stream at any byte is reported, as that failure, by the part it strikes. An entry missing from the pool never gives a panic or a different part. Bootstrap methods handed to the reading pool afterwards complete the parts that refer to them; a missing one is reported.",
  ["inputs", "fault_sequences", "histories"],
  "for every part, every numbering and sharing of pool entries, every portioning of the streams and every place of a stream failure or of a lost entry or bootstrap method",
  "The tests only use the library's own pools, which number densely from 1, and streams that cannot fail.",
  ["src/rw.rs", "src/helper.rs", "src/cp.rs", "src/ty.rs", "src/code.rs", "src/code/convert.rs", "coffer_macros/src/derive.rs"],
  [("the pool is reached only through its traits", "src/rw.rs ConstantPoolReader and ConstantPoolWriter"), ("narrow and wide constant loads", "src/code/convert.rs"), ("optional entries are 0 or an index", "src/helper.rs StringCp, src/ty.rs")],
  ["ConstantPoolReadWrite::read_from and write_to results, bytes emitted, stream position"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
