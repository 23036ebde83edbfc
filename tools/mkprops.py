#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "UTF-8/16/32 encoding and decoding are exact, inverse and in bounds",
 "For every Unicode scalar value and each of UTF-8, UTF-16LE/BE and UTF-32LE/BE, encoding writes exactly the bytes the standard prescribes, and decoding those bytes gives the value back and consumes exactly them. Every byte sequence that is not a well-formed encoding (truncated, overlong, surrogate, out of range) is rejected, as is encoding any number that is not a scalar value. No decoder or encoder touches a byte outside the range it was handed or the length it reports.",
 ["inputs"], "all 2^32 code point arguments; all byte contents and all buffer lengths, for each of the five encodings, in the pattern-side encoders and the data-side decoders alike",
 "The tests try a few dozen code points at range edges; the malformed inputs (every lead/trail/length combination) number in the billions.",
 ["include/decoders/utf8.h", "include/decoders/utf16.h", "include/decoders/utf32.h", "include/unicode.h", "src/lib/utf8.cpp", "src/lib/ascii.cpp", "include/encoders/utf16.h", "include/encoders/utf32.h"],
 [("utf8_to_cp / cp_to_utf8", "include/decoders/utf8.h"), ("utf16_to_cp / cp_to_utf16", "include/decoders/utf16.h"), ("utf32_to_cp / cp_to_utf32", "include/decoders/utf32.h"), ("utf8_to_unicode", "include/unicode.h"), ("UTF8::write", "src/lib/utf8.cpp"), ("ASCII::write", "src/lib/ascii.cpp"), ("UTF16Base::write", "include/encoders/utf16.h"), ("UTF32Base::write", "include/encoders/utf32.h")],
 observe=["lg_hit_context output", "pattern bytes compiled into a program"])

prop("C02", "Byte and character transforms are inverted exactly by their decoders",
 "For the OCE, XOR and ROT transforms, what the pattern side applies and what the data side undoes are mutually inverse on every byte (OCE, XOR) or every code point (ROT), so text transformed on disk is found and decoded back to the original. A transform rewrites only valid values: errors and end-of-data markers pass through unchanged, a value outside the transform's domain becomes an error that keeps the value recoverable, and the source offset of every value is preserved.",
 ["inputs"], "all 256 bytes and all keys (XOR), all rotations 0..25 and all code points (ROT), all 32-bit values the inner decoder can deliver, including error and end codes",
 "Tests run each transform over one fixed string; a single wrong table entry or a mishandled error code needs the one byte or code that hits it.",
 ["src/lib/oceencoder.cpp", "src/lib/ocedecoder.cpp", "include/encoders/xorencoder.h", "include/encoders/rotencoder.h", "include/encoders/oceencoder.h", "include/decoders/ocedecoder.h", "include/decoders/xordecoder.h", "include/decoders/rotdecoder.h", "include/decoders/asciidecoder.h", "src/lib/byteencoder.cpp", "src/lib/charencoder.cpp"],
 [("OCE/unOCE tables", "src/lib/oceencoder.cpp, src/lib/ocedecoder.cpp"), ("byteTransform / byteUntransform", "include/encoders/*.h"), ("charTransform / charUntransform", "include/encoders/rotencoder.h"), ("next()", "include/decoders/{oce,xor,rot,ascii}decoder.h")],
 observe=["lg_hit_context output for |OCE chains", "hits of patterns with transform chains"])

prop("C03", "Decoding accounts for every source byte exactly once and always makes progress",
 "Reading any byte range through a decoder yields a sequence of values that partitions the range: each value is tagged with the offset of its first byte, consecutive values are adjacent, and nothing is skipped or read twice. A maximal well-formed sequence yields its code point, a byte that starts none yields exactly one error value that still carries that byte, and after the last byte the decoder reports end of data forever. Starting again on another range leaves no trace of the first.",
 ["inputs", "histories"], "all byte contents and lengths, for the raw byte source and the UTF-8/16/32 decoders over any inner decoder, from any state reachable by earlier reads",
 "Tests decode a few fixed buffers; accounting errors show only for particular mixes of valid, invalid and truncated sequences near the end of a range.",
 ["include/decoders/bytesource.h", "include/decoders/utfdecoderbase.h", "include/decoders/utf8decoder.h", "include/decoders/utf16decoder.h", "include/decoders/utf32decoder.h", "include/decoders/asciidecoder.h"],
 [("ByteSource::next/reset", "include/decoders/bytesource.h"), ("UTFDecoderBase::next/reset", "include/decoders/utfdecoderbase.h")],
 state=[("In", "look-ahead queue of decoded inner values", "include/decoders/utfdecoderbase.h")],
 observe=["offsets returned by lg_read_window"])

prop("C04", "Code point sets obey set algebra and keep a canonical form",
 "Sets of code points behave as mathematical sets: insertion and removal of ranges, complement, union, intersection, difference, symmetric difference, membership, emptiness, fullness and size agree with the set of members, whatever operations built them. Two sets with the same members always compare equal, and enumerating a set yields its maximal runs in increasing order without overlap.",
 ["inputs", "histories"], "all sets over the code space however many ranges they have, all operation sequences, all range arguments inside the code space",
 "Tests exercise a dozen hand-picked range configurations; merging, splitting and boundary cases depend on relative positions of many endpoints.",
 ["include/rangeset.h"],
 [("insert / erase / flip / test", "include/rangeset.h"), ("operators |= &= -= ^= ~", "include/rangeset.h"), ("conversion from bitset", "include/rangeset.h")],
 state=[("vec", "sorted endpoints of the maximal runs", "include/rangeset.h")],
 observe=["characters matched by a character class"])

prop("C05", "Byte sets contain exactly the bytes put in them",
 "Setting or clearing any range of bytes changes exactly the bytes of that range, complement and difference are exact, and visiting the members of a set visits every member once in increasing order. Comparison of byte sets is a total order that calls two sets equal exactly when they have the same members.",
 ["inputs"], "all 2^256 byte sets and all ranges within 0..256",
 "2^256 sets times 33000 ranges; tests sample a handful, and the implementation works a word or byte at a time so an error can hide at any alignment.",
 ["include/byteset.h"],
 [("set(beg,end,value)", "include/byteset.h"), ("for_each_set_bit", "include/byteset.h"), ("operators ~ - -= compare", "include/byteset.h")],
 observe=["bytes accepted by compiled byte-set instructions"])

prop("C06", "The search engine's sparse sets behave as sets under any history",
 "After any sequence of clearings and insertions of labels not yet present (the engine always asks first), a label is reported present exactly when it was inserted since the last clearing, the reported number of elements is the number of distinct labels inserted, and no operation reads or writes outside the set's storage.",
 ["histories"], "all sequences of insert/find/clear of any length over any capacity, including stale data left by earlier rounds",
 "The structure deliberately keeps stale entries after clearing; a wrong answer needs a particular history of earlier insertions, and tests use short fresh ones.",
 ["include/sparseset.h"],
 [("find / insert / clear / resize", "include/sparseset.h")],
 state=[("Data", "dense list and its inverse index", "include/sparseset.h")],
 observe=["hits that appear or vanish when patterns are searched together"])

prop("C07", "Compiled instructions accept exactly the bytes their pattern state allows",
 "Every byte-consuming instruction the engine can execute advances a thread exactly when the current byte belongs to the instruction's byte set and otherwise kills it, and advances it to the next instruction or to the jump table target of that byte. The instruction generated for a state has exactly the state's byte set, and picking the cheapest representation of a byte set never changes the set.",
 ["inputs", "programs"], "all byte values, all operand values of every byte-consuming opcode (single byte, either, range, any, byte set, jump table; plain and negated), all byte sets",
 "Tests check each opcode on a few bytes; a wrong boundary or a misclassified set shows for one byte value of one operand combination.",
 ["src/lib/vm.cpp", "src/lib/instructions.cpp", "include/instructions.h", "src/lib/states.cpp", "include/states.h", "include/transitionfactory.h"],
 [("Vm::_execute", "src/lib/vm.cpp"), ("Instruction::make*", "src/lib/instructions.cpp"), ("toInstruction / allowed / orBytes", "src/lib/states.cpp, include/states.h"), ("getSmallest", "include/transitionfactory.h")],
 observe=["hits reported by a search"])

prop("C08", "Hits of one pattern never overlap and are reported in order",
 "For every pattern, whatever the program, the data and the way the data is split into blocks, each reported hit starts at or after the end of the previous reported hit of the same pattern in the same run. A match is reported at most once, a thread that overlaps an already reported hit of its pattern dies without reporting, and clearing the context forgets all earlier hits.",
 ["inputs", "histories", "programs"], "all engine states satisfying the representation invariant, all instructions at which a hit can be reported or a thread labelled, both during a search and at close-out",
 "Overlap suppression depends on the whole history of threads and hits; end-to-end tests use small pattern sets and short texts.",
 ["src/lib/vm.cpp", "include/vm.h", "include/thread.h"],
 [("_executeEpsilon (FINISH, LABEL)", "src/lib/vm.cpp"), ("_executeEpSequence overlap kill", "src/lib/vm.cpp"), ("closeOut / reset", "src/lib/vm.cpp")],
 state=[("MatchEnds", "end of the last hit reported for each label", "include/vm.h"), ("MatchEndsMax", "maximum of MatchEnds", "include/vm.h")],
 observe=["hit callback"])

prop("C09", "Thread control instructions respect priority order",
 "Control instructions do exactly what the matching semantics need: a fork continues the preferred branch first and then the alternative with identical history, a jump only moves, a match records the current position, a halt dies, and a check stops every later thread that reaches an already claimed state. When a match ends at the current position only lower-priority threads of the same pattern are cancelled, and a lower-priority match is never reported while a live higher-priority thread of its pattern remains.",
 ["inputs", "programs", "histories"], "all threads, labels, positions and engine states, and thread lists of any length, for every control opcode",
 "Priority decides which of several overlapping matches is reported, and depends on interleavings of many threads; tests pin only particular expressions.",
 ["src/lib/vm.cpp", "include/vm.h", "include/thread.h"],
 [("_executeEpsilon", "src/lib/vm.cpp"), ("_liveCheck / _markLive", "src/lib/vm.cpp"), ("_executeThread / _executeEpSequence", "src/lib/vm.cpp")],
 observe=["hit callback"])

prop("C10", "Search results do not depend on how the input is split into blocks",
 "Searching a stream block by block, at any split points, leaves the engine in the same state and produces the same hits with the same absolute offsets as searching it in one piece, apart from start positions the prefilter proves hopeless. Each byte is processed exactly once, in order, at its own absolute offset, and no byte outside the given block is read. Each call returns the start of the oldest match still in progress, or the end offset if there is none.",
 ["inputs", "histories"], "all block contents, lengths, split points and start offsets, all programs and all engine states",
 "The number of split points and thread states at a split is unbounded; tests split a few fixed texts.",
 ["src/lib/vm.cpp"],
 [("Vm::search", "src/lib/vm.cpp"), ("Vm::searchResolve", "src/lib/vm.cpp"), ("Vm::startsWith", "src/lib/vm.cpp"), ("_startOfLeftmostLiveThread", "src/lib/vm.cpp")],
 observe=["hit callback", "return value of lg_search"])

prop("C11", "Numeric character escapes denote exactly their value",
 "An escape written with hexadecimal or octal digits denotes exactly the number those digits spell, in every notation the pattern language offers (two-digit and braced hexadecimal, up to three octal digits). An escape whose digits are malformed, missing, too many, or spell a number outside the code space is rejected, and parsing never reads past the end of the pattern.",
 ["inputs"], "all digit strings and terminators, for every position of the end of the pattern",
 "Tests list a few escapes per notation; wrong digit weights, missing overflow checks and over-reads show on particular digit strings.",
 ["include/parseutil.h", "src/lib/parseutil.cpp"],
 [("parseHexByte / parseOctByte / parseHex / parse named", "include/parseutil.h, src/lib/parseutil.cpp")],
 observe=["lg_parse_pattern acceptance", "bytes matched by an escape"])

prop("C12", "A saved program or pattern table loads back identical",
 "Writing a compiled program or pattern table to a buffer and reading it back yields one with the same instructions, prefilter, limits and per-pattern records, and therefore the same search results. The writer produces exactly the number of bytes it announces and writes nothing outside the caller's buffer.",
 ["inputs", "programs"], "all instruction sequences of any length, all filter contents, all header values, all pattern texts and encodings",
 "Tests round-trip a few tiny programs; a field dropped, truncated or mis-sized matters only for programs that use it.",
 ["src/lib/program.cpp", "include/program.h", "src/lib/pattern_map.cpp", "include/pattern_map.h", "src/lib/lightgrep_c_api.cpp"],
 [("Program::marshall / unmarshall / bufSize", "src/lib/program.cpp"), ("PatternMap marshall / unmarshall", "src/lib/pattern_map.cpp"), ("lg_write_program / lg_read_program", "src/lib/lightgrep_c_api.cpp")],
 observe=["lg_write_program, lg_read_program"])

prop("C13", "Line context around a hit has exact boundaries",
 "For any buffer, hit and requested number of lines, the leading context starts at the beginning of the line the requested number of lines before the hit's line, or at the start of the buffer if there are fewer. The trailing context ends at the end of the line the requested number of lines after the hit's line, without its line terminator (LF or CRLF), or at the end of the buffer. No byte outside the buffer is examined.",
 ["inputs"], "all buffer contents and lengths, all hit positions, all line counts",
 "Boundary behaviour depends on where newlines fall relative to the hit and the buffer ends; tests use a few fixed snippets.",
 ["src/cmd/hitwriter.cpp", "include/hitwriter.h"],
 [("find_leading_context", "src/cmd/hitwriter.cpp"), ("find_trailing_context", "src/cmd/hitwriter.cpp")],
 observe=["context lines printed by the command line tool"])

prop("C14", "Character classes compile to exactly the encodings of their members",
 "For every set of code points and each of ASCII, UTF-8, UTF-16LE/BE and UTF-32LE/BE, the byte sequences generated for the set are exactly the encodings of its valid members: none is missing and no other sequence is produced. Sets handled by a precomputed answer give the same sequences as computing them.",
 ["inputs"], "all sets of code points, all five Unicode encodings and ASCII",
 "There are 2^1114112 sets; tests check a few ranges at encoding boundaries.",
 ["include/encoders/utfbase.h", "src/lib/utfbase.cpp", "src/lib/utf8.cpp", "include/encoders/utf16.h", "include/encoders/utf32.h", "include/encoders/utf8.h", "src/lib/ascii.cpp", "include/encoders/caching_encoder.h"],
 [("UTFBase::write / writeRange / skipRange", "src/lib/utfbase.cpp"), ("collectRanges / writeRangeBlock", "src/lib/utf8.cpp, include/encoders/utf16.h, include/encoders/utf32.h"), ("ASCII::write(uset)", "src/lib/ascii.cpp"), ("cached sets", "include/encoders/*.h")],
 observe=["characters matched by a class in each encoding"])

prop("C15", "Hit context decoding keeps the hit and its offsets exact",
 "For any buffer, hit, encoding and context sizes, the decoded window contains the whole hit. Its values follow each other without gap, each with the offset where it begins. Before the hit it has exactly the requested number of values, or fewer if it reaches the start of the buffer, and those are a decoding which ends at the hit, preceded by undecoded bytes given as errors. From the hit on it is the decoding from the hit's first byte, with the requested number of values behind the hit or all there are. The hit position reported within the window or the text is that of the hit, the number of bad values reported is the number of error values in the window, the text is the UTF-8 form of the window with errors and nulls replaced, and no byte outside the buffer is read.",
 ["inputs"], "all buffers, data offsets, hit windows, encodings and context sizes",
 "The algorithm tries several alignments and picks the best; tests cover a few strings in a few encodings.",
 ["src/lib/lightgrep_c_util.cpp"],
 [("decode / readWindow / hitContext", "src/lib/lightgrep_c_util.cpp")],
 observe=["lg_read_window, lg_hit_context"])

prop("C16", "Library entry points report failures instead of crashing",
 "Every entry point of the C interface turns any failure inside the library into an error result (and an error object, if the caller asked for one): no C++ exception ever leaves it. A caller that passes no place for an error object still gets the failing return value, and a pattern given as a slice is never read beyond its length.",
 ["inputs", "fault_sequences"], "all arguments, and failure of any internal operation at any point",
 "Tests provoke a few parse errors with an error pointer supplied; failures of each internal operation, and the combinations with absent error pointers, are not sampled.",
 ["src/lib/lightgrep_c_api.cpp", "src/lib/lightgrep_c_util.cpp", "include/c_api_util.h", "src/lib/c_api_util.cpp"],
 [("trapWithRetval / trapWithVals / fillError", "include/c_api_util.h, src/lib/c_api_util.cpp"), ("lg_* functions", "src/lib/lightgrep_c_api.cpp")],
 observe=["return values and LG_Error of every lg_ function"])

prop("C17", "Automaton edge lists keep their contents and order under any edit history",
 "The ordered adjacency lists of the automaton graph behave as independent sequences: adding, inserting and removing an edge changes exactly the two lists of its end points, at the given position, and every other list and the relative order of all other edges stay as they were.",
 ["histories"], "all lists, positions and edit sequences, including lists that grow past the inline representation",
 "Edge order is match priority, and storage is shared between lists; corruption needs a particular history of growth and removal.",
 ["include/vectorfamily.h", "include/simplevectorfamily.h", "include/graph.h"],
 [("VectorFamily::insert/erase/addList", "include/vectorfamily.h"), ("Graph::addEdge/removeEdge", "include/graph.h")],
 observe=["priority of alternatives in reported hits"])

prop("C18", "The prefilter never hides a match",
 "If the prefilter rejects a start position then no pattern of the program can match starting there, whatever the data after it.",
 ["inputs", "programs"], "all pattern sets, all data",
 "A wrongly excluded byte pair silently loses hits for data that contains that pair at that distance; tests cannot cover all 65536 pairs for all automata.",
 ["src/lib/utility.cpp", "src/lib/fsmthingy.cpp", "src/lib/program.cpp", "src/lib/vm.cpp"],
 [("bestPair", "src/lib/utility.cpp"), ("filter lookup", "src/lib/vm.cpp")],
 observe=["hits of a search against a search without the filter"])

prop("C19", "Compilation and optimisation preserve the language and priorities of patterns",
 "The program produced for a pattern set matches exactly the strings the patterns denote, with the greedy/non-greedy priority the pattern language defines, whichever rewriting and automaton optimisation passes were applied.",
 ["programs", "inputs"], "all patterns, all pattern sets, all data",
 "The space of patterns times data is unbounded; tests hold a fixed list.",
 ["src/lib/rewriter.cpp", "src/lib/nfabuilder.cpp", "src/lib/nfaoptimizer.cpp", "src/lib/compiler.cpp", "src/lib/codegen.cpp"],
 [("reduce* rewrites", "src/lib/rewriter.cpp"), ("NFABuilder", "src/lib/nfabuilder.cpp"), ("subset construction, pruning", "src/lib/nfaoptimizer.cpp"), ("code generation", "src/lib/compiler.cpp")],
 observe=["hit callback"])

prop("C20", "Independent search contexts sharing one program do not interfere",
 "Searches running concurrently in different contexts over the same compiled program give the same hits as running each alone.",
 ["schedules"], "all interleavings of searches in different threads",
 "Schedules are not explored by any test.",
 ["src/lib/vm.cpp", "src/lib/lightgrep_c_api.cpp", "include/vm.h"],
 [("Vm holds only a const view of the program", "include/vm.h")],
 observe=["hit callback"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
