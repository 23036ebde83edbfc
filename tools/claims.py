BASE = " Trusts clang/LLVM 18, the VC generator in vc/ and z3; see evidence for the functions verified and every assumption."
TODO = "machinery under construction"
CLAIMS = {
 "C01": "Every listed encoder and decoder function is proved against a specification of the Unicode encoding forms for all arguments, all bytes and all buffer lengths." + BASE,
 "C02": "Every transform class, encoder side and decoder side, is proved for every value and position, over any underlying encoder/decoder (up to 6 bytes per code point), byte ranges of any length by induction; rotations 0..26. Chains assembled by the factories are only driven natively (bounded)." + BASE,
 "C03": "The look-ahead of the UTF decoders is proved over any source, and the five UTF decoders over the byte source on any bytes, by a state invariant kept by every call (so for every range and every number of calls). std::deque is replaced by contracts over a ghost sequence; the ICU decoder is not covered." + BASE,
 "C05": "Every ByteSet operation is proved for all sets, bytes and ranges; the walk over members by induction." + BASE,
 "C06": "Every SparseSet operation is proved to keep a representation invariant and to have its set effect, for any capacity below 2^30 and any reachable state, which gives every history; the pigeonhole step (n distinct labels below N leave room) is assumed." + BASE,
 "C11": "The lexer bison generates from re_grammar.ypp is proved for every pattern of any length and every place in it; the table-driven parser above it is only driven natively (bounded). Built without ICU: character names other than U+hhhh are not covered." + BASE,
}
CLAIMS["C08"] = "Every function that records, suppresses or forgets a hit (match, finish and halt instructions, epsilon sequences, threads, frames, new threads, clean-up, search, searchResolve, startsWith, closeOut, reset) is proved, for an arbitrary engine state, to keep the invariant 'a pattern's reported hits do not overlap and its end mark is the end of its last report'. A thread parked on a finish instruction is assumed to carry a label of the program and an end. Whole programs on random patterns and data are driven natively (bounded)." + BASE
CLAIMS["C07"] = "Every byte-consuming opcode of Vm::_execute, the instructions' factories, the transition classes' getBytes/toInstruction and the choice of the smallest transition are proved for all bytes, operands and byte sets. That whole generated programs wire states to the right code (jump tables, forks) is only driven natively on random automata (bounded)." + BASE
CLAIMS["C09"] = "Every opcode of the engine's epsilon dispatcher and every function of the per-byte loop (epsilon sequences, thread, frame with and without filter, new threads, clean-up) is proved against a contract on the thread list, the per-label ends and the reports, for an arbitrary engine state: lists of any length, any offsets, any label. That these contracts compose over whole programs to the leftmost-priority semantics of a pattern is only driven natively (bounded)." + BASE
CLAIMS["C10"] = "search, searchResolve, startsWith, the per-byte frames, new-thread creation, clean-up and the leftmost-live-thread answer are proved for blocks of any length, any engine state and any filter offset by loop induction, each against the contracts of the functions it calls: what a byte does depends only on the engine state, the byte and its absolute offset, and the state at the end of a block is the state the next block starts from. Thread lists are assumed to keep their buffer place in searchResolve; whole programs split at random places are only driven natively (bounded)." + BASE
CLAIMS["C04"] = "Every operation of RangeSet is proved on any canonical sequence of end points (any number of runs, any storage): searches by induction, insertion, complement, membership, walking over runs, counting, comparison, construction from ranges, lists and 256-bit sets keep the canonical form and change exactly the right points; the algebra operators are proved from those contracts at an arbitrary point. std::vector by contract with enough room; comparison with a universe-size bitset not covered." + BASE
CLAIMS["C13"] = "find_leading_context and find_trailing_context are proved against a ghost newline tally by loop induction, for buffers of any length, any hit and any line count; std::find over bytes is proved forward and backward from its own body; the window handed to the decoder is proved to lie in the buffer. How the command line tool feeds blocks to them is only driven natively through searchFile (bounded)." + BASE
CLAIMS["C16"] = "Every entry point of the C interface is verified on its own with each internal operation under a contract that may fail in every way it can (any exception type, failed allocation), with and without a place for the error: no exception leaves it, failure is returned exactly when something failed, the error object describes it, a slice is never read past its length, lg_read_program's size checks hold for any corrupt sizes, error chains of pattern lists are complete and in order (loop induction over any number of lines and encodings). The lexer and the reporting of syntax errors are proved to stay within the pattern. Assumed: an object in which memory ran out is only reset or destroyed afterwards; parser tables generated by bison hand semantic actions locations of tokens. Bounded: random pattern sets and texts through the real library with an allocation failing at a random point." + BASE
CLAIMS["C12"] = "Program::marshall/unmarshall are proved for programs of any number of instructions, any prefilter and any header (loops over the prefilter by quantified induction, memory copies of symbolic length); the pattern table's size, writer and reader are proved record by record for tables of any length and strings of any length (loop induction with a ghost record number); lg_program_size, lg_write_program and lg_read_program are proved to lay out and find both parts, for any sizes below 2^31 in all. Assumed: std::vector allocation and appending (PatternMap::usePattern) by contract, the strings of a table have ends. Bounded: random programs saved, loaded, saved again, searched and truncated through the real library." + BASE
CLAIMS["C15"] = "decode is proved by loop induction for any decoder which meets its contract (each call yields the next value of its range; the decoders themselves are C03), any buffer, hit and context sizes: what is appended to the window is checked when it is appended, so the window is gapless, ends at the hit where the leading part ends, starts again at the hit, and the bad count equals a ghost tally of the window. One entry per maximal value length (1, 2, 4, 8 bytes) keeps the arithmetic linear. readWindow, hitContext and the UTF-8 conversion are proved over that contract, cp_to_utf8 for every 32-bit value. Assumed: std::vector of values, std::find_if over reverse iterators. The whole path through real decoders is driven natively against decoding again (bounded)." + BASE
NOT_APPLICABLE = {p: TODO for p in ["C%02d" % i for i in range(1, 21)] if p not in CLAIMS}
