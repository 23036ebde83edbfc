// C08: hits of one pattern (an arbitrary one) never overlap and come in order.  `last` is the end of the
// hit of that pattern reported last; every function of the engine keeps it covered by MatchEnds.
#include "vmstate.h"

static size_t k, pc; static uint64_t offset;
static uint64_t last; static size_t hits; static uint8_t any_hit; static int user;

static bool covered() { return last <= ends[x_label]; }
static void on_hit(void* u, const LG_SearchHit* h) {
  PROVE("hits go where the caller said", u == &user);
  if (h->KeywordIndex != x_label) return;
  PROVE("a hit starts at or after the end of the previous hit of its pattern", h->Start >= last);
  PROVE("a hit is not empty", h->Start < h->End);
  last = h->End;
  ++hits;
  any_hit = 1;
}

// a thread at `o`: it started no later, and matched, if at all, between its start and here
static bool timely(const Thread& t, uint64_t o) { return t.Start <= o && (t.End == Thread::NONE || (t.Start <= t.End && t.End <= o)); }
static void any_history() {
  any_vm();
  any_places();
  last = vc_u64("last");
#ifdef VC_NATIVE
  if (last > ends[x_label]) last = ends[x_label];
#endif
  vc_assume(covered());
  vm->CurHitFn = on_hit; vm->UserData = &user;
  hits = 0; any_hit = 0;
}

#ifndef VC_NATIVE
// ---- one control instruction, whichever it is; the sequence it may start is under the same contract
static Thread seq_out; static bool seq_r, seq_ran;
extern "C" bool contract_seq(Vm*, const Instruction*, Thread* t, uint64_t o) {
  PROVE("a branch runs at the same position", t == act + k && o == offset && timely(*t, o));
  PROVE("what was reported is remembered when a branch runs", covered());
  vc_havoc(t, sizeof(Thread));
  vc_havoc(live.has, live.n); vc_havoc(chk.has, chk.n); vc_havoc(ends, 8 * (size_t) labels);
  vm->LiveNoLabel = vc_bool("seq_nolabel"); vm->MatchEndsMax = vc_u64("seq_endsmax");
  const size_t more = vc_range("seq_more", 0, 1u << 22);
  vc_assume(nn + more <= ncap);
  vm->Next._M_impl._M_finish = nxt + nn + more;
  last = vc_u64("seq_last");
  vc_assume(covered() && valid_label(*t) && timely(*t, o));
  seq_out = *t; seq_ran = true;
  return seq_r = vc_bool("seq_r");
}
static bool in_list(size_t off) { return off % sizeof(Thread) == 0 && off > k * sizeof(Thread) && off <= an * sizeof(Thread); }
extern "C" bool inv_in_p(const Thread* c, const Thread*) { return in_list((const char*) c - (const char*) act); }
extern "C" bool inv_in_n(uint64_t c, uint64_t) { return in_list(c * sizeof(Thread)); }
extern "C" bool inv_in_c(uint64_t c, uint64_t) { return in_list((k + 1 + c) * sizeof(Thread)); }
extern "C" bool inv_in_r(uint64_t c, uint64_t) { return in_list((an - c) * sizeof(Thread)); }
template <int X> static void step(bool finish) {
  any_history();
  k = vc_range("k", 0, 1u << 22); pc = vc_range("pc", 0, 1u << 24);
  vc_assume(k < an && pc + 3 <= pn);
  offset = vc_u64("offset");
  vc_assume(offset < MAXOFF);
  act[k].PC = base + pc;
  const Thread t = act[k];
  vc_assume(*(const uint8_t*) &t.Lead <= 1 && valid_label(t) && timely(t, offset));
  const byte op = opcode(pc);
  vc_assume((op == FINISH_OP) == finish);
  if (finish) vc_assume(t.Label < labels && t.End != Thread::NONE);   // programs finish what they have labelled and matched
  if (op == LABEL_OP) vc_assume(off24(pc) < labels);
  if (op == MATCH_OP) vc_assume(t.Label < labels);
  if (op == CHECK_HALT_OP) vc_assume(off24(pc) < checks);
  if (op == JUMP_OP || op == FORK_OP) vc_assume(word(pc + 1) < pn);
  const bool overlaps = t.Start < ends[t.Label == NOLAB ? 0 : t.Label] && t.Label != NOLAB;
  seq_ran = false;
  const bool more = vm->_executeEpsilon<X>(base, TI(act + k), offset);
  PROVE("what was reported is remembered", covered());
  if (finish) {
    PROVE("a match is reported at most once", hits <= 1);
    PROVE("a match that overlaps an earlier one of its pattern is not reported", !overlaps || hits == 0);
    if (hits) PROVE("a reported match is gone", !more && !act[k].PC);
    if (hits) vc_cover("reported"); else vc_cover("not reported");
  }
  else {
    PROVE("a thread stays timely", timely(act[k], offset));
    PROVE("only a finish reports", hits == 0);
    if (vm->Next.size() > (seq_ran ? 0 : nn) && seq_ran && seq_r) PROVE("a branch queued is timely", timely(vm->Next.back(), offset));
    vc_cover("ran");
  }
}
ENTRY check_control_0() { step<0>(false); }
ENTRY check_control_1() { step<1>(false); }
ENTRY check_control_2() { step<2>(false); }
ENTRY check_control_3() { step<3>(false); }
ENTRY check_control_4() { step<4>(false); }
ENTRY check_control_5() { step<5>(false); }
ENTRY check_control_6() { step<6>(false); }
ENTRY check_control_7() { step<7>(false); }
ENTRY check_control_8() { step<8>(false); }
ENTRY check_control_9() { step<9>(false); }
ENTRY check_control_10() { step<10>(false); }
ENTRY check_finish_0() { step<0>(true); }
ENTRY check_finish_1() { step<1>(true); }
ENTRY check_finish_2() { step<2>(true); }
ENTRY check_finish_3() { step<3>(true); }
ENTRY check_finish_4() { step<4>(true); }
ENTRY check_finish_5() { step<5>(true); }
ENTRY check_finish_6() { step<6>(true); }
ENTRY check_finish_7() { step<7>(true); }
ENTRY check_finish_8() { step<8>(true); }
ENTRY check_finish_9() { step<9>(true); }
ENTRY check_finish_10() { step<10>(true); }

// ---- a sequence of control instructions: each by contract
static size_t eps;
extern "C" bool contract_eps(Vm*, const Instruction*, Thread* t, uint64_t o) {
  PROVE("what was reported is remembered when an instruction runs", covered());
  PROVE("an instruction runs at the position of its thread", t == act + k && o == offset);
  eps = 1;
  vc_havoc(t, sizeof(Thread)); vc_havoc(ends, 8 * (size_t) labels);
  vm->LiveNoLabel = vc_bool("eps_nolabel"); vm->MatchEndsMax = vc_u64("eps_endsmax");
  last = vc_u64("eps_last");
  vc_assume(covered());
  return vc_bool("eps_more");
}
extern "C" bool inv_covered() { return covered(); }
template <int X> static void sequence() {
  any_history();
  k = vc_range("k", 0, 1u << 22);
  vc_assume(k < an);
  const Thread t = act[k];
  vc_assume(valid_label(t));
  offset = vc_u64("offset");
  eps = 0;
  const bool overlaps = t.Label != NOLAB && t.Start < ends[t.Label];
  const bool r = vm->_executeEpSequence<X>(base, TI(act + k), offset);
  PROVE("what was reported is remembered", covered());
  if (overlaps) { PROVE("a thread that overlaps an earlier match of its pattern dies without doing anything", !r && !eps); vc_cover("overlaps"); }
  else vc_cover("runs");
}
ENTRY check_sequence_0() { sequence<0>(); }
ENTRY check_sequence_1() { sequence<1>(); }
ENTRY check_sequence_2() { sequence<2>(); }
ENTRY check_sequence_3() { sequence<3>(); }
ENTRY check_sequence_4() { sequence<4>(); }
ENTRY check_sequence_5() { sequence<5>(); }
ENTRY check_sequence_6() { sequence<6>(); }
ENTRY check_sequence_7() { sequence<7>(); }
ENTRY check_sequence_8() { sequence<8>(); }
ENTRY check_sequence_9() { sequence<9>(); }
ENTRY check_sequence_10() { sequence<10>(); }

// ---- a byte for one thread
static size_t ran;
extern "C" bool contract_seq_b(Vm*, const Instruction*, Thread* t, uint64_t o) {
  PROVE("what was reported is remembered when a thread runs", covered());
  PROVE("a thread runs once per byte", t == act + k && o == offset && ++ran == 1);
  vc_havoc(act, sizeof(Thread) * acap); vc_havoc(live.has, live.n); vc_havoc(chk.has, chk.n); vc_havoc(ends, 8 * (size_t) labels);
  const size_t more = vc_range("seq_more", 0, 1u << 22);
  vc_assume(nn + more <= ncap);
  vm->Next._M_impl._M_finish = nxt + nn + more;
  last = vc_u64("seq_last");
  vc_assume(covered() && valid_label(*t));
  return vc_bool("seq_r");
}
extern "C" bool contract_exec(const Vm*, const Instruction*, Thread* t, const byte*) { t->PC = (const Instruction*) vc_u64("exec_pc"); return vc_bool("exec_r"); }
ENTRY check_thread() {
  any_history();
  k = vc_range("k", 0, 1u << 22);
  vc_assume(k < an);
  vc_assume(valid_label(act[k]));
  offset = vc_u64("offset");
  ran = 0;
  const byte* cur = (const byte*) vc_alloc("cur", 1, 1);
  vm->_executeThread(base, TI(act + k), cur, offset);
  PROVE("what was reported is remembered", covered());
  PROVE("a byte by itself reports nothing", hits == 0);
  vc_cover("thread");
}

// ---- a byte for all threads, cleaning up after it
static void anything() {
  PROVE("what was reported is remembered when a thread runs", covered());
  vc_havoc(act, sizeof(Thread) * acap); vc_havoc(ends, 8 * (size_t) labels);
  last = vc_u64("any_last");
  vc_assume(covered());
}
extern "C" void contract_thread(Vm*, const Instruction*, Thread*, const byte*, uint64_t) { anything(); }
extern "C" void contract_news(Vm*, const Instruction*, Thread*, const byte*, uint64_t) { anything(); }
ENTRY check_frame_plain() {
  any_history();
  vm->_executeFrame(vm->Active.begin(), base, (const byte*) vc_alloc("cur", 1, 1), vc_u64("offset"));
  PROVE("what was reported is remembered", covered());
  PROVE("only a finish reports", hits == 0);
  vc_cover("frame");
}
ENTRY check_frame_filtered() {
  any_history();
  const size_t fo = vc_range("fo", 0, 1u << 22);
  prog->FilterOff = fo;
  vm->_executeFrame(prog->Filter, vm->Active.begin(), base, (const byte*) vc_alloc("cur", fo + 2, 1), vc_u64("offset"));
  PROVE("what was reported is remembered", covered());
  PROVE("only a finish reports", hits == 0);
  vc_cover("frame");
}
extern "C" bool inv_room() { return vm->Active._M_impl._M_start == act && vm->Active.size() <= acap && vm->Active.size() <= an + fn; }
ENTRY check_new() {
  any_history();
  vc_assume(an + fn <= acap);
  vm->_executeNewThreads(base, vm->Active.end(), (const byte*) vc_alloc("cur", 1, 1), vc_u64("offset"));
  PROVE("what was reported is remembered", covered());
  PROVE("only a finish reports", hits == 0);
  vc_cover("new");
}
ENTRY check_cleanup() {
  any_history();
  vm->_cleanup();
  PROVE("what was reported is remembered", covered());
  PROVE("only a finish reports", hits == 0);
  vc_cover("cleanup");
}

// ---- a block of data: whatever its length, wherever it is cut
extern "C" void contract_frame_f(Vm*, const std::bitset<256*256>*, Thread*, const Instruction*, const byte*, uint64_t) { anything(); }
extern "C" void contract_frame_p(Vm*, Thread*, const Instruction*, const byte*, uint64_t) { anything(); }
extern "C" void contract_clean(Vm*) { PROVE("what was reported is remembered between bytes", covered()); }
extern "C" uint64_t contract_leftmost(const Vm*, uint64_t) { return vc_u64("live_start"); }
ENTRY check_search() {
  any_history();
  const size_t n = vc_range("n", 0, 0xFFFFFFFF);
  const byte* blk = (const byte*) vc_alloc("block", n, 1);
  prog->FilterOff = vc_range("fo", 0, 1u << 22);
  vm->Vm::search(blk, blk + n, vc_u64("start"), on_hit, &user);
  PROVE("what was reported is remembered from block to block", covered());
  PROVE("only a finish reports", hits == 0);
  vc_cover("searched");
}

// resolving and matching at the start: the lists have room, their threads stand in the program
static size_t g_m;
static bool in_prog(const Thread& t) { return t.PC >= base && t.PC < base + pn; }
static bool in_prog_at(size_t j, const void*) { return in_prog(act[j]); }
static bool in_prog_at0(size_t j, const void*) { return in_prog(act0[j]); }
extern "C" {
void contract_run(Vm*, const Instruction*, Thread* t, const byte*, uint64_t) {
  PROVE("what was reported is remembered when a thread runs", covered());
  vc_havoc(ends, 8 * (size_t) labels);
  last = vc_u64("any_last");
  vc_assume(covered());
}
void contract_clean_r(Vm*) {
  PROVE("what was reported is remembered between bytes", covered());
  vc_havoc(act, sizeof(Thread) * acap);
  g_m = vc_range("list_n", 0, 1u << 22);
  vc_assume(g_m <= acap);
  vc_forall(act, sizeof(Thread), 0, g_m, in_prog_at, nullptr);
  vm->Active._M_impl._M_start = act;
  vm->Active._M_impl._M_finish = act + g_m;
}
bool inv_list() { return g_m <= acap && vm->Active._M_impl._M_start == act && vm->Active._M_impl._M_finish == act + g_m; }
bool inv_in_list(const Thread* c, const Thread*) { return (const char*) c - (const char*) act <= g_m * sizeof(Thread); }
bool all32_pc(size_t j) { return j >= g_m || in_prog(act[j]); }
static bool closed;
void contract_close(Vm* v, void (*f)(void*, const LG_SearchHit*), void* u) {
  PROVE("what was reported is remembered when the data ends", covered());
  PROVE("the hits left go where the caller said", v == vm && f == on_hit && u == &user);
  closed = true;
  vc_havoc(ends, 8 * (size_t) labels);
  last = vc_u64("close_last");
  vc_assume(covered());
}
void contract_reset(Vm*) { PROVE("hits are forgotten only once the run is over", closed); vc_havoc(ends, 8 * (size_t) labels); last = 0; }
}
ENTRY check_resolve() {
  any_history();
  const size_t n = vc_range("n", 0, 0xFFFFFFFF);
  const byte* blk = (const byte*) vc_alloc("block", n, 1);
  vc_forall(act0, sizeof(Thread), 0, an, in_prog_at0, nullptr);
  g_m = an;
  vm->Vm::searchResolve(blk, blk + n, vc_u64("start"), on_hit, &user);
  PROVE("what was reported is remembered from block to block", covered());
  PROVE("only a finish reports", hits == 0);
  vc_cover("resolved");
}
ENTRY check_starts() {
  any_history();
  vc_assume(an + fn <= acap);
  const size_t n = vc_range("n", 0, 0xFFFFFFFF);
  const byte* blk = (const byte*) vc_alloc("block", n, 1);
  prog->FilterOff = vc_range("fo", 0, 1u << 22);
  g_m = an + fn;
  closed = false;
  vm->Vm::startsWith(blk, blk + n, vc_u64("start"), on_hit, &user);
  PROVE("what was reported is remembered, or the run is over", covered());
  vc_cover("matched");
}
#endif

// ---- the end of the data
static uint32_t* pcs;                                   // where each thread stands, as an index
static uint64_t e0;                                     // what MatchEnds said about the pattern
static byte op_at(uint32_t i) { return ((const byte*) base)[4ul * i]; }
static bool finishes(size_t j) { return op_at(pcs[j]) == FINISH_OP; }
static bool thread_ok(size_t j, const void*) {
  const Thread& t = act0[j];
  return pcs[j] < pn && t.PC == base + pcs[j] && (!finishes(j) || (t.Label < labels && t.End < MAXOFF && t.Start <= t.End));
}
static size_t x_at;
// every match in progress up to `off` is reported, or overlaps one that is
static bool settled(size_t off) {
  return !(x_at < an && x_at * sizeof(Thread) < off && act0[x_at].Label == x_label && finishes(x_at)) || act0[x_at].Start < ends[x_label];
}
extern "C" {
bool inv_reported() { return ends[x_label] == (any_hit ? last : e0) && covered(); }
bool inv_settled_p(const Thread* c, const Thread*) { return settled((const char*) c - (const char*) act); }
bool inv_settled_n(uint64_t c, uint64_t) { return settled(c * sizeof(Thread)); }
bool inv_settled_r(uint64_t c, uint64_t) { return settled((an - c) * sizeof(Thread)); }
bool inv_inside_p(const Thread* c, const Thread*) { return (const char*) c - (const char*) act <= an * sizeof(Thread); }
}
#ifndef VC_NATIVE
ENTRY check_close() {
  any_history();
  pcs = (uint32_t*) vc_alloc("pcs", 4 * an, 4);
  x_at = vc_range("x_at", 0, 1u << 22);
  vc_forall(act0, sizeof(Thread), 0, an, thread_ok, nullptr);
  e0 = ends[x_label];
  vm->Vm::closeOut(on_hit, &user);
  PROVE("what was reported is remembered", covered());
  PROVE("every match left is reported unless it overlaps an earlier one of its pattern", settled(an * sizeof(Thread)));
  PROVE("what is remembered was reported", ends[x_label] == (any_hit ? last : e0));
  if (hits) vc_cover("reported"); else vc_cover("nothing left");
}
ENTRY check_close_silent() {
  any_history();
  e0 = ends[x_label];
  vm->Vm::closeOut(nullptr, &user);
  PROVE("nothing is reported to nobody", !hits && ends[x_label] == e0);
}
#endif

// ---- forgetting
ENTRY check_reset() {
  any_history();
  vm->Vm::reset();
  PROVE("clearing forgets the hits of every pattern", ends[x_label] == 0 && vm->MatchEndsMax == 0);
  PROVE("clearing leaves no thread", vm->Active.empty() && vm->Next.empty());
  PROVE("clearing leaves no label live and no state claimed", !vm->LiveNoLabel && !in(live, x_label) && !in(chk, x_check));
  PROVE("clearing keeps the threads every search starts with", vm->First.size() == fn);
  PROVE("clearing keeps room for every pattern", vm->MatchEnds.data() == ends && vm->MatchEnds.size() == labels);
  vc_cover("reset");
}
