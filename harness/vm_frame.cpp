// C09, C10: one byte of input: every thread runs once, in priority order, and survivors are queued in that order.
#include "vmstate.h"

static size_t k; static Thread t0; static uint64_t offset; static byte cur_byte[1]; static const byte* cur;
static Snap s0;

static void any_thread() {
  any_vm();
  any_places();
  k = vc_range("k", 0, BIG(1u << 22, 20));
  vc_assume(k < an);
#ifndef VC_NATIVE
  act[k].PC = base + vc_range("pc", 0, 1u << 24);
#endif
  t0 = act[k];
  vc_assume(*(const uint8_t*) &t0.Lead <= 1 && valid_label(t0));
  offset = vc_u64("offset");
  cur = (const byte*) vc_alloc("cur", 1, 1);
  s0 = snap();
}

#ifndef VC_NATIVE
// ---- the sequence of control instructions: one after the other until one says stop
static size_t eps; static bool eps_more;
extern "C" bool contract_eps(Vm* v, const Instruction* b, Thread* t, uint64_t o) {
  PROVE("every control instruction is run for the same thread at the same position", v == vm && b == base && t == act + k && o == offset);
  PROVE("a sequence runs on only while its instructions say so", eps_more);
  eps = 1;
  vc_havoc(t, sizeof(Thread));
  vm->LiveNoLabel = vc_bool("eps_nolabel");
  return eps_more = vc_bool("eps_more");
}
extern "C" bool all32_others(size_t j) { return j >= acap || j == k || same(act[j], act0[j]); }
template <int X> static void sequence() {
  any_thread();
  eps = 0; eps_more = true;
  const bool overlaps = t0.Label != NOLAB && t0.Start < ends[t0.Label];
  const bool r = vm->_executeEpSequence<X>(base, TI(act + k), offset);
  const Snap s = snap();
  if (overlaps) {
    PROVE("a thread that overlaps an earlier match of its pattern dies without doing anything", !r && !eps && s.nolabel == s0.nolabel);
    vc_cover("overlaps");
  }
  else {
    PROVE("a sequence runs until an instruction says stop", eps && !eps_more);
    PROVE("a thread survives the sequence unless it died in it", r == (act[k].PC != nullptr));
    vc_cover("runs");
  }
  PROVE("the sequence itself spawns and marks nothing", s.nn == s0.nn && s.live_x == s0.live_x);
  prove_lists_kept(s0, s); prove_ends_kept(s0, s); prove_checks_kept(s0, s); prove_others_kept(s0, s, k);
}
ENTRY check_sequence_0() { sequence<0>(); }
ENTRY check_sequence_1() { sequence<1>(); }
ENTRY check_sequence_2() { sequence<2>(); }
ENTRY check_sequence_3() { sequence<3>(); }
ENTRY check_sequence_4() { sequence<4>(); }
ENTRY check_sequence_5() { sequence<5>(); }
ENTRY check_sequence_6() { sequence<6>(); }
ENTRY check_sequence_7() { sequence<7>(); }
ENTRY check_sequence_8() { sequence<8>(); }
ENTRY check_sequence_9() { sequence<9>(); }
ENTRY check_sequence_10() { sequence<10>(); }

// ---- one thread, one byte
static int execs, seqs; static bool exec_r, seq_r; static Thread exec_out, seq_out; static Snap seq_s;
extern "C" bool contract_exec(const Vm* v, const Instruction* b, Thread* t, const byte* c) {
  PROVE("the thread consumes the byte at hand", v == vm && b == base && t == act + k && c == cur && same(*t, t0));
  PROVE("a thread consumes a byte once", ++execs == 1 && !seqs);
  const uint64_t p = vc_u64("exec_pc");
  t->PC = (const Instruction*) p;
  exec_out = *t;
  return exec_r = vc_bool("exec_r");
}
extern "C" bool contract_seq1(Vm* v, const Instruction* b, Thread* t, uint64_t o) {
  PROVE("control instructions follow once the byte is consumed", v == vm && b == base && t == act + k && o == offset && execs == 1 && exec_r && same(*t, exec_out));
  PROVE("control instructions follow once", ++seqs == 1);
  vc_havoc(act, sizeof(Thread) * acap); vc_havoc(live.has, live.n); vc_havoc(chk.has, chk.n); vc_havoc(ends, 8 * (size_t) labels);
  vm->LiveNoLabel = vc_bool("seq_nolabel"); vm->MatchEndsMax = vc_u64("seq_endsmax");
  const size_t more = vc_range("seq_more", 0, 1u << 22);
  vc_assume(nn + more <= ncap);
  vm->Next._M_impl._M_finish = nxt + nn + more;
  seq_out = *t;
  vc_assume(valid_label(seq_out));
  seq_s = snap();
  return seq_r = vc_bool("seq_r");
}
ENTRY check_thread() {
  any_thread();
  execs = seqs = 0; seq_s = s0; seq_r = false;
  vm->_executeThread(base, TI(act + k), cur, offset);
  const Snap s = snap();
  PROVE("a thread consumes the byte", execs == 1);
  PROVE("a thread that survives the byte runs its control instructions", seqs == (exec_r ? 1 : 0));
  PROVE("a thread that survives is queued behind what it spawned", s.nn == seq_s.nn + (seq_r ? 1 : 0));
  if (seq_r) {
    PROVE("a survivor is queued as it stands", same(vm->Next.back(), seq_out));
    PROVE("the pattern of a survivor is live for the threads behind it", seq_out.Label == NOLAB ? vm->LiveNoLabel : in(live, seq_out.Label));
    vc_cover("survives");
  }
  else vc_cover("dies");
  PROVE("nothing else is marked live", s.nolabel == (seq_s.nolabel || (seq_r && seq_out.Label == NOLAB)) && s.live_x == (seq_s.live_x || (seq_r && seq_out.Label == x_label)));
  prove_lists_kept(seq_s, s); prove_ends_kept(seq_s, s); prove_checks_kept(seq_s, s); prove_others_kept(seq_s, s, k);
}

// ---- all threads at one byte
static size_t g_i, g_new;                               // threads run so far; calls for new threads
static bool fresh(const Thread& t, size_t i) { return is(t, fst[i].PC, offset, Thread::NONE, NOLAB, false); }
extern "C" void contract_old(Vm* v, const Instruction* b, Thread* t, const byte* c, uint64_t o) {
  PROVE("every thread runs on the same byte at the same position", v == vm && b == base && c == cur && o == offset);
  PROVE("every running thread runs once, in priority order", t == act + g_i && g_i < an);
  ++g_i;
  vc_havoc(act, sizeof(Thread) * acap);
}
extern "C" void contract_news(Vm* v, const Instruction* b, Thread*, const byte* c, uint64_t o) {
  PROVE("new threads start on the same byte at the same position", v == vm && b == base && c == cur && o == offset);
  PROVE("new threads start after every running thread has run", g_i == an);
  PROVE("new threads start once", g_new == 0);
  ++g_new;
}
static void any_frame(size_t len) {
  any_vm();
  any_places();
  offset = vc_u64("offset");
  cur = (const byte*) vc_alloc("cur", len, 1);
  s0 = snap();
  g_i = g_new = 0;
}
ENTRY check_frame_plain() {
  any_frame(1);
  vm->_executeFrame(vm->Active.begin(), base, cur, offset);
  PROVE("every running thread has run", g_i == an);
  PROVE("new threads start", g_new == 1);
  const Snap s = snap();
  prove_lists_kept(s0, s); prove_ends_kept(s0, s); prove_live_kept(s0, s); prove_checks_kept(s0, s);
  vc_cover("frame");
}
ENTRY check_frame_filtered() {
  const size_t fo = vc_range("fo", 0, 1u << 22);
  any_frame(fo + 2);                                    // the block goes on as far as the filter looks
  prog->FilterOff = fo;
  vm->_executeFrame(prog->Filter, vm->Active.begin(), base, cur, offset);
  PROVE("every running thread has run", g_i == an);
  uint16_t w; memcpy(&w, cur + fo, 2);
  const byte* f = (const byte*) &prog->Filter;
  if ((f[w / 8] >> (w % 8)) & 1) { PROVE("new threads start where the filter lets them", g_new == 1); vc_cover("starts"); }
  else { PROVE("new threads start only where the filter lets them", g_new == 0); vc_cover("no start"); }
  const Snap s = snap();
  prove_lists_kept(s0, s); prove_ends_kept(s0, s); prove_live_kept(s0, s); prove_checks_kept(s0, s);
}

// new threads
static size_t made() { return vm->Active.size(); }
extern "C" void contract_new1(Vm* v, const Instruction* b, Thread* t, const byte* c, uint64_t o) {
  PROVE("every new thread runs on the same byte at the same position", v == vm && b == base && c == cur && o == offset);
  PROVE("new threads start behind the running ones and run once each, in priority order", t == act + an + g_i && g_i < fn);
  PROVE("a new thread starts unlabelled at the current position, with no match", fresh(*t, g_i));
  ++g_i;
  vc_havoc(t, sizeof(Thread));
}
extern "C" {
// while they are made: the running threads are left alone, the new ones are as they should be
bool all32_making(size_t j) { return j < an ? same(act[j], act0[j]) : j >= made() || fresh(act[j], j - an); }
// while they run: those still to run
bool all32_running(size_t j) { return j < an ? same(act[j], act0[j]) : j < an + g_i || j >= made() || fresh(act[j], j - an); }
bool inv_made() { return made() <= acap && made() >= an && made() <= an + fn; }
bool inv_all_made() { return made() == an + fn; }
bool inv_old() { return g_i <= an; }
bool inv_ran() { return g_i <= fn; }
bool inv_none_ran() { return g_i == 0; }
}
ENTRY check_new() {
  any_frame(1);
  vc_assume(an + fn <= acap);
  vm->_executeNewThreads(base, vm->Active.end(), cur, offset);
  PROVE("every new thread has run", g_i == fn);
  const Snap s = snap();
  PROVE("as many threads start as the program's start has branches", s.an == an + fn && s.abeg == act);
  if (x_act < an) PROVE("starting threads leaves the running ones alone", same(s.a, act0[x_act]));
  PROVE("starting threads survives nothing by itself", s.nn == nn && s.nbeg == nxt);
  prove_ends_kept(s0, s); prove_live_kept(s0, s); prove_checks_kept(s0, s);
  vc_cover("new");
}

ENTRY check_cleanup() {
  any_vm();
  any_places();
  s0 = snap();
  vm->_cleanup();
  const Snap s = snap();
  PROVE("the survivors are the running threads of the next byte, in their order", s.an == nn && s.abeg == nxt);
  PROVE("nothing has survived the next byte yet", s.nn == 0);
  PROVE("no label is live and no state is claimed before the next byte", !s.nolabel && !s.live_x && !s.chk_x);
  prove_ends_kept(s0, s);
  if (x_next < nn) PROVE("survivors stay as they are", same(nxt[x_next], s0.n));
  vc_cover("cleanup");
}
#endif
