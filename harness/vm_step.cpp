// C09: each control instruction does exactly what the matching semantics need (at every recursion level).
#include "vmstate.h"

static size_t k, pc;                                    // the thread's place in Active; its place in the program
static Thread t0; static uint64_t offset;
static Snap s0;

// an arbitrary thread at an arbitrary place of an arbitrary program, with room for `words` words
static void any_thread(size_t words) {
  any_vm();
  any_places();
  k = vc_range("k", 0, BIG(1u << 22, 20)); pc = vc_range("pc", 0, BIG(1u << 24, 12));
  vc_assume(k < an && pc + words <= pn);
  offset = vc_u64("offset");
  act[k].PC = base + pc;
  t0 = act[k];
  vc_assume(*(const uint8_t*) &t0.Lead <= 1);
  vc_assume(valid_label(t0));
  s0 = snap();
}
static bool shown_live(uint32_t label) { return vm->LiveNoLabel || in(live, label); }
template <int X> static bool step() { return vm->_executeEpsilon<X>(base, TI(act + k), offset); }

template <int X> static void jump() {
  any_thread(2);
  const uint32_t target = vc_u32("target");
  vc_assume(target < pn);
  put24(pc, JUMP_OP, vc_u32("op") & 0xFFFFFF);
  memcpy(base + pc + 1, &target, 4);
  const bool r = step<X>();
  const Snap s = snap();
  PROVE("a jump only moves", r && is(act[k], base + target, t0.Start, t0.End, t0.Label, lead(t0)));
  PROVE("a jump spawns nothing", s.nn == nn);
  prove_lists_kept(s0, s); prove_ends_kept(s0, s); prove_live_kept(s0, s); prove_checks_kept(s0, s); prove_others_kept(s0, s, k);
  vc_cover("jump");
}

template <int X> static void halt() {
  any_thread(1);
  put24(pc, HALT_OP, vc_u32("op") & 0xFFFFFF);
  const bool r = step<X>();
  const Snap s = snap();
  PROVE("a halt dies", !r && !act[k].PC);
  PROVE("a halt spawns nothing", s.nn == nn);
  prove_lists_kept(s0, s); prove_ends_kept(s0, s); prove_live_kept(s0, s); prove_checks_kept(s0, s); prove_others_kept(s0, s, k);
}

template <int X> static void match() {
  any_thread(1);
  put24(pc, MATCH_OP, vc_u32("op") & 0xFFFFFF);
  vc_assume(t0.Label < labels);
  const bool leads = !shown_live(t0.Label);
  const bool r = step<X>();
  const Snap s = snap();
  PROVE("a match records the current position and goes on", r && is(act[k], base + pc + 1, t0.Start, offset, t0.Label, leads));
  PROVE("a match spawns nothing", s.nn == nn);
  prove_lists_kept(s0, s); prove_ends_kept(s0, s); prove_live_kept(s0, s); prove_checks_kept(s0, s); prove_others_kept(s0, s, k);
  vc_cover("match");
}

template <int X> static void label() {
  any_thread(1);
  const uint32_t l = vc_u32("l");
  vc_assume(l < labels && l < (1u << 24));
  put24(pc, LABEL_OP, l);
  const bool r = step<X>();
  const Snap s = snap();
  if (t0.Start >= ends0[l]) { PROVE("a label names the thread's pattern", r && is(act[k], base + pc + 1, t0.Start, t0.End, l, lead(t0))); vc_cover("named"); }
  else { PROVE("a thread that overlaps an earlier match of its pattern dies", !r && !act[k].PC); vc_cover("overlaps"); }
  PROVE("a label spawns nothing", s.nn == nn);
  prove_lists_kept(s0, s); prove_ends_kept(s0, s); prove_live_kept(s0, s); prove_checks_kept(s0, s); prove_others_kept(s0, s, k);
}

template <int X> static void check() {
  any_thread(1);
  const uint32_t c = vc_u32("c");
  vc_assume(c < checks && c < (1u << 24));
  put24(pc, CHECK_HALT_OP, c);
  const bool claimed = in(chk, c);
  // does a thread of higher priority that may still match the same pattern, or an earlier match, block this one?
  const bool blocked = t0.Label == NOLAB ? nn > 0 || t0.Start < s0.endsmax : shown_live(t0.Label);
  const bool r = step<X>();
  const Snap s = snap();
  if (claimed) { PROVE("a thread that reaches a claimed state dies", !r && !act[k].PC); vc_cover("claimed"); }
  else {
    PROVE("a thread that reaches a free state goes on", r && is(act[k], base + pc + 1, t0.Start, t0.End, t0.Label, lead(t0)));
    PROVE("it claims the state exactly if nothing of higher priority blocks it", in(chk, c) == !blocked);
    vc_cover("free");
  }
  PROVE("claimed states stay claimed, other states stay as they are", s.chk_x == s0.chk_x || (x_check == c && s.chk_x));
  PROVE("a check spawns nothing", s.nn == nn);
  prove_lists_kept(s0, s); prove_ends_kept(s0, s); prove_live_kept(s0, s); prove_others_kept(s0, s, k);
}

// instructions that consume a byte end the sequence of control instructions
template <int X> static void bytes() {
  any_thread(1);
  const byte op = vc_u8("op");
  vc_assume(op < FINISH_OP || op > HALT_OP);
  put24(pc, op, vc_u32("arg") & 0xFFFFFF);
  const bool r = step<X>();
  const Snap s = snap();
  PROVE("a thread waits before a byte instruction", !r && same(act[k], t0));
  PROVE("waiting spawns nothing", s.nn == nn);
  prove_lists_kept(s0, s); prove_ends_kept(s0, s); prove_live_kept(s0, s); prove_checks_kept(s0, s); prove_others_kept(s0, s, k);
}

// ---- fork: the preferred branch is a whole sequence of control instructions (by contract: it may do
// anything to the engine's state), then comes the alternative
static int seq_calls; static bool seq_r; static Thread seq_out; static Snap seq_s;
extern "C" bool contract_seq(Vm* v, const Instruction* b, Thread* t, uint64_t o) {
  PROVE("the preferred branch runs first, as the same thread with the same history", v == vm && b == base && t == act + k && o == offset && is(*t, base + pc + 2, t0.Start, t0.End, t0.Label, lead(t0)));
  PROVE("the preferred branch runs with nothing done before it", vm->Next.size() == nn && vm->LiveNoLabel == s0.nolabel);
  ++seq_calls;
  vc_havoc(act, sizeof(Thread) * acap);
  vc_havoc(live.has, live.n); vc_havoc(chk.has, chk.n); vc_havoc(ends, 8 * (size_t) labels);
  vm->LiveNoLabel = vc_bool("seq_nolabel"); vm->MatchEndsMax = vc_u64("seq_endsmax");
  const size_t more = vc_range("seq_more", 0, 1u << 22);
  vc_assume(nn + more <= ncap);
  vm->Next._M_impl._M_finish = nxt + nn + more;
  seq_r = vc_bool("seq_r");
  seq_out = *t;
  vc_assume(valid_label(seq_out));
  seq_s = snap();
  return seq_r;
}
template <int X> static void fork_() {
  any_thread(3);
  const uint32_t target = vc_u32("target");
  vc_assume(target < pn);
  put24(pc, FORK_OP, vc_u32("op") & 0xFFFFFF);
  memcpy(base + pc + 1, &target, 4);
#ifdef VC_NATIVE
  put24(pc + 2, ANY_OP, 0);
  if (t0.Label != NOLAB) vc_assume(t0.Start >= ends[t0.Label]);
  seq_calls = 1; seq_r = true; seq_out = t0; seq_out.PC += 2; seq_s = s0;
#else
  seq_calls = 0;
#endif
  const bool r = step<X>();
  const Snap s = snap();
  PROVE("the preferred branch runs once", seq_calls == 1);
  PROVE("then the alternative goes on with the history the thread had", r && is(act[k], base + target, t0.Start, t0.End, t0.Label, lead(t0)));
  PROVE("the preferred branch, if it lives, is queued behind what it spawned", s.nn == seq_s.nn + (seq_r ? 1 : 0));
  if (seq_r) {
    PROVE("the preferred branch is queued as it stands", same(vm->Next.back(), seq_out));
    PROVE("the pattern of the preferred branch is live before the alternative runs", seq_out.Label == NOLAB ? vm->LiveNoLabel : in(live, seq_out.Label));
    vc_cover("branch lives");
  }
  else vc_cover("branch dies");
  PROVE("nothing else is marked live", s.nolabel == (seq_s.nolabel || (seq_r && seq_out.Label == NOLAB)) && s.live_x == (seq_s.live_x || (seq_r && seq_out.Label == x_label)));
  prove_lists_kept(seq_s, s); prove_ends_kept(seq_s, s); prove_checks_kept(seq_s, s); prove_others_kept(seq_s, s, k);
}

// ---- finish: a match that ended here
static size_t hits; static LG_SearchHit hit; static void* hit_data; static int user;
static void on_hit(void* u, const LG_SearchHit* h) { ++hits; hit = *h; hit_data = u; }
static size_t d;                                        // first thread behind k with another start

static bool same_start(size_t j, const void*) { return act0[j].Start == t0.Start; }

// kill loop: threads below `i` are as they should be, the others untouched
static bool kill_ok(size_t j, size_t end) {             // end: byte offset of the first thread not yet visited
  if (j >= acap) return true;
  const Thread &a = act[j], &b = act0[j];
  if (j == k) return same(a, t0);
  const Instruction* want = k < j && j * sizeof(Thread) < end && b.Label == t0.Label ? vm->ProgEnd : b.PC;
  return a.PC == want && a.Start == b.Start && a.End == b.End && a.Label == b.Label && lead(a) == lead(b);
}
static bool start_ok(size_t j, size_t end) { return j >= acap || !(k < j && j * sizeof(Thread) < end) || act0[j].Start == t0.Start; }
static bool in_list(size_t off) { return off % sizeof(Thread) == 0 && off > k * sizeof(Thread) && off <= an * sizeof(Thread); }
// the loop variable: a pointer, an index, a count from k + 1 on, or a count of threads left
static size_t at_p(const Thread* p) { return (const char*) p - (const char*) act; }
static size_t at_n(uint64_t i) { return i * sizeof(Thread); }
static size_t at_c(uint64_t i) { return (k + 1 + i) * sizeof(Thread); }
static size_t at_r(uint64_t i) { return (an - i) * sizeof(Thread); }
#define INV(V, T) \
  extern "C" bool inv_in_##V(T cur, T) { return in_list(at_##V(cur)); } \
  extern "C" bool all32_kill_##V(size_t j, T cur, T) { return kill_ok(j, at_##V(cur)); } \
  extern "C" bool all32_start_##V(size_t j, T cur, T) { return start_ok(j, at_##V(cur)); }
INV(p, const Thread*) INV(n, uint64_t) INV(c, uint64_t) INV(r, uint64_t)

template <int X> static void finish() {
  any_thread(1);
  put24(pc, FINISH_OP, vc_u32("op") & 0xFFFFFF);
  vc_assume(t0.Label < labels && t0.End < MAXOFF);
  const bool reporting = vc_bool("reporting");
  vm->CurHitFn = reporting ? on_hit : nullptr; vm->UserData = &user;
  d = vc_range("d", 0, BIG(1u << 22, 20));
#ifdef VC_NATIVE
  d = k + 1;
  while (d < an && act0[d].Start == t0.Start) ++d;
#endif
  vc_assume(k < d && d <= an);
  if (d < an) vc_assume(act0[d].Start != t0.Start);
  vc_forall(act0, sizeof(Thread), k + 1, d, same_start, nullptr);
  vc_hint(d); vc_hint(x_act); vc_hint(k);
  hits = 0;
  const bool blocked = shown_live(t0.Label), overlaps = t0.Start < ends0[t0.Label], here = t0.End == offset;
  const bool r = step<X>();
  const Snap s = snap();
  PROVE("a finished thread runs no further instruction", !r);
  // the match is reported unless something of higher priority of its pattern is alive
  PROVE("a match is reported exactly when nothing of higher priority of its pattern is alive and it overlaps no earlier one", hits == (!blocked && !overlaps && reporting ? 1 : 0));
  if (hits) { PROVE("the hit is the thread's match", hit.Start == t0.Start && hit.End == t0.End + 1 && hit.KeywordIndex == t0.Label && hit_data == &user); vc_cover("reported"); }
  if (!blocked) PROVE("a thread that had its say dies", !act[k].PC);
  else { PROVE("a match that is not due yet waits", same(act[k], t0)); vc_cover("waits"); }
  PROVE("the end of the match is remembered", s.ends_x == (!blocked && !overlaps && x_label == t0.Label ? t0.End + 1 : s0.ends_x));
  PROVE("the furthest end is remembered", s.endsmax == (!blocked && !overlaps && t0.End + 1 > s0.endsmax ? t0.End + 1 : s0.endsmax));
  if (x_act < an && x_act != k) {
    const bool cancelled = here && x_act > k && s0.a.Label == t0.Label && (lead(t0) || x_act < d);
    PROVE("exactly the lower-priority threads of the same pattern (from the same start, unless the match leads) are cancelled, when the match ends here",
          is(act[x_act], cancelled ? base + (pn - 2) : s0.a.PC, s0.a.Start, s0.a.End, s0.a.Label, lead(s0.a)));
    if (cancelled) vc_cover("cancelled");
  }
  PROVE("a finish spawns nothing", s.nn == nn);
  prove_lists_kept(s0, s); prove_live_kept(s0, s); prove_checks_kept(s0, s);
}

ENTRY check_jump_0() { jump<0>(); }
ENTRY check_jump_1() { jump<1>(); }
ENTRY check_jump_2() { jump<2>(); }
ENTRY check_jump_3() { jump<3>(); }
ENTRY check_jump_4() { jump<4>(); }
ENTRY check_jump_5() { jump<5>(); }
ENTRY check_jump_6() { jump<6>(); }
ENTRY check_jump_7() { jump<7>(); }
ENTRY check_jump_8() { jump<8>(); }
ENTRY check_jump_9() { jump<9>(); }
ENTRY check_jump_10() { jump<10>(); }
ENTRY check_halt_0() { halt<0>(); }
ENTRY check_halt_1() { halt<1>(); }
ENTRY check_halt_2() { halt<2>(); }
ENTRY check_halt_3() { halt<3>(); }
ENTRY check_halt_4() { halt<4>(); }
ENTRY check_halt_5() { halt<5>(); }
ENTRY check_halt_6() { halt<6>(); }
ENTRY check_halt_7() { halt<7>(); }
ENTRY check_halt_8() { halt<8>(); }
ENTRY check_halt_9() { halt<9>(); }
ENTRY check_halt_10() { halt<10>(); }
ENTRY check_match_0() { match<0>(); }
ENTRY check_match_1() { match<1>(); }
ENTRY check_match_2() { match<2>(); }
ENTRY check_match_3() { match<3>(); }
ENTRY check_match_4() { match<4>(); }
ENTRY check_match_5() { match<5>(); }
ENTRY check_match_6() { match<6>(); }
ENTRY check_match_7() { match<7>(); }
ENTRY check_match_8() { match<8>(); }
ENTRY check_match_9() { match<9>(); }
ENTRY check_match_10() { match<10>(); }
ENTRY check_label_0() { label<0>(); }
ENTRY check_label_1() { label<1>(); }
ENTRY check_label_2() { label<2>(); }
ENTRY check_label_3() { label<3>(); }
ENTRY check_label_4() { label<4>(); }
ENTRY check_label_5() { label<5>(); }
ENTRY check_label_6() { label<6>(); }
ENTRY check_label_7() { label<7>(); }
ENTRY check_label_8() { label<8>(); }
ENTRY check_label_9() { label<9>(); }
ENTRY check_label_10() { label<10>(); }
ENTRY check_check_0() { check<0>(); }
ENTRY check_check_1() { check<1>(); }
ENTRY check_check_2() { check<2>(); }
ENTRY check_check_3() { check<3>(); }
ENTRY check_check_4() { check<4>(); }
ENTRY check_check_5() { check<5>(); }
ENTRY check_check_6() { check<6>(); }
ENTRY check_check_7() { check<7>(); }
ENTRY check_check_8() { check<8>(); }
ENTRY check_check_9() { check<9>(); }
ENTRY check_check_10() { check<10>(); }
ENTRY check_bytes_0() { bytes<0>(); }
ENTRY check_bytes_1() { bytes<1>(); }
ENTRY check_bytes_2() { bytes<2>(); }
ENTRY check_bytes_3() { bytes<3>(); }
ENTRY check_bytes_4() { bytes<4>(); }
ENTRY check_bytes_5() { bytes<5>(); }
ENTRY check_bytes_6() { bytes<6>(); }
ENTRY check_bytes_7() { bytes<7>(); }
ENTRY check_bytes_8() { bytes<8>(); }
ENTRY check_bytes_9() { bytes<9>(); }
ENTRY check_bytes_10() { bytes<10>(); }
ENTRY check_fork_0() { fork_<0>(); }
ENTRY check_fork_1() { fork_<1>(); }
ENTRY check_fork_2() { fork_<2>(); }
ENTRY check_fork_3() { fork_<3>(); }
ENTRY check_fork_4() { fork_<4>(); }
ENTRY check_fork_5() { fork_<5>(); }
ENTRY check_fork_6() { fork_<6>(); }
ENTRY check_fork_7() { fork_<7>(); }
ENTRY check_fork_8() { fork_<8>(); }
ENTRY check_fork_9() { fork_<9>(); }
ENTRY check_fork_10() { fork_<10>(); }
ENTRY check_finish_0() { finish<0>(); }
ENTRY check_finish_1() { finish<1>(); }
ENTRY check_finish_2() { finish<2>(); }
ENTRY check_finish_3() { finish<3>(); }
ENTRY check_finish_4() { finish<4>(); }
ENTRY check_finish_5() { finish<5>(); }
ENTRY check_finish_6() { finish<6>(); }
ENTRY check_finish_7() { finish<7>(); }
ENTRY check_finish_8() { finish<8>(); }
ENTRY check_finish_9() { finish<9>(); }
ENTRY check_finish_10() { finish<10>(); }
