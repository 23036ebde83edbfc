// C10: a search feeds every byte of a block to the engine once, in order, at its own absolute offset.
// Frames (C09/C10: vm_frame.cpp) are taken by contract: they depend on the engine's state, the byte and the offset only.
#include "vmstate.h"

static const byte *blk; static size_t n, fo; static uint64_t start;
static size_t g_k; static bool g_ran, g_left; static uint64_t g_live;
static int user;
static void on_hit(void*, const LG_SearchHit*) {}

static void any_block() {
  any_vm();
  n = vc_range("n", 0, BIG(0xFFFFFFFF, 50));
  blk = (const byte*) vc_alloc("block", n, 1);
  fo = vc_range("fo", 0, 1u << 22);
  prog->FilterOff = fo;
  start = vc_u64("start");
  vc_assume(start <= MAXOFF);
  g_k = 0; g_ran = g_left = false;
}

#ifndef VC_NATIVE
static void at_byte(Vm* v, const Instruction* b, const byte* c, uint64_t o) {
  PROVE("the engine itself runs", v == vm);
  PROVE("the engine runs its own program", b == base);
  PROVE("a byte is processed while the block lasts", g_k < n);
  PROVE("each byte is processed once, in order", c == blk + g_k);
  PROVE("each byte is processed at its own absolute offset", o == start + g_k);
  PROVE("hits go where the caller said", vm->CurHitFn == on_hit && vm->UserData == &user);
}
extern "C" {
void contract_frame_f(Vm* v, const std::bitset<256*256>* f, Thread* t, const Instruction* b, const byte* c, uint64_t o) {
  at_byte(v, b, c, o);
  PROVE("each byte is processed once, in order", !g_ran);
  PROVE("the filter is the program's", f == &prog->Filter);
  PROVE("the filter looks only at the block", fo + 2 <= n - g_k);
  PROVE("every running thread runs", t == vm->Active._M_impl._M_start);
  g_ran = true;
}
void contract_frame_p(Vm* v, Thread* t, const Instruction* b, const byte* c, uint64_t o) {
  at_byte(v, b, c, o);
  PROVE("each byte is processed once, in order", !g_ran);
  PROVE("every running thread runs", t == vm->Active._M_impl._M_start);
  g_ran = true;
}
void contract_clean(Vm* v) {
  PROVE("the survivors of a byte are set up once the byte is processed", v == vm && g_ran);
  g_ran = false;
  ++g_k;
  // the running threads are now other ones, elsewhere
  const size_t at = vc_range("list_at", 0, 1u << 22), m = vc_range("list_n", 0, 1u << 22);
  vc_assume(at + m <= acap);
  vm->Active._M_impl._M_start = act + at;
  vm->Active._M_impl._M_finish = act + at + m;
}
uint64_t contract_leftmost(const Vm* v, uint64_t o) {
  PROVE("the oldest live thread is asked for at the end of the block", v == vm && g_k == n && !g_ran);
  PROVE("the end of the block is its absolute offset", o == start + n);
  g_left = true;
  return g_live = vc_u64("live_start");
}
bool inv_done() { return g_k <= n; }
bool inv_between() { return !g_ran; }
}
ENTRY check_search() {
  any_block();
  const uint64_t r = vm->Vm::search(blk, blk + n, start, on_hit, &user);
  PROVE("every byte of the block is processed", g_k == n && !g_ran);
  PROVE("the start of the oldest match in progress is returned", g_left && r == g_live);
  vc_cover("searched");
}

// ---- the oldest match in progress
static size_t d;
static uint32_t* pcs;                                   // where each thread stands, as an index
static byte op_at(uint32_t i) { return ((const byte*) base)[4ul * i]; }
static bool dead_op(byte op) { return op == HALT_OP || op == FINISH_OP; }
static bool real(const Thread& t) { return !dead_op(*(const byte*) t.PC); }
static bool in_prog(const Thread& t) { return t.PC >= base && t.PC < base + pn; }
static bool pc_ok(size_t j, const void*) { return pcs[j] < pn && act0[j].PC == base + pcs[j]; }
static bool is_dead(size_t j, const void*) { return dead_op(op_at(pcs[j])); }
extern "C" {
bool inv_upto_p(const Thread* cur, const Thread*) { return (const char*) cur - (const char*) act <= d * sizeof(Thread); }
bool inv_upto_n(uint64_t cur, uint64_t) { return cur <= d; }
}
ENTRY check_leftmost() {
  any_vm();
  d = vc_range("d", 0, BIG(1u << 22, 20));
  vc_assume(d <= an);
  pcs = (uint32_t*) vc_alloc("pcs", 4 * an, 4);
  vc_forall(act0, sizeof(Thread), 0, an, pc_ok, nullptr);
  vc_forall(act0, sizeof(Thread), 0, d, is_dead, nullptr);
  if (d < an) { vc_assume(pc_ok(d, nullptr)); vc_assume(!dead_op(op_at(pcs[d]))); }
  const uint64_t end = vc_u64("end");
  const uint64_t r = vm->_startOfLeftmostLiveThread(end);
  if (d < an) { PROVE("the oldest live thread's start is returned", r == act0[d].Start); vc_cover("live"); }
  else { PROVE("without live threads the end is returned", r == end); vc_cover("none"); }
}

// ---- resolving what is in progress, without starting anything new
static size_t g_i, g_at, g_m; static uint8_t g_any, g_last;   // threads run at this byte; the list; a thread that can still read among them; among the last
static bool in_prog_at(size_t j, const void*) { return in_prog(act[j]); }
static bool has_room() { return g_at + g_m <= acap; }
extern "C" {
void contract_run(Vm* v, const Instruction* b, Thread* t, const byte* c, uint64_t o) {
  at_byte(v, b, c, o);
  PROVE("every running thread runs once, in priority order", t == act + g_at + g_i && g_i < g_m);
  PROVE("resolving goes on only while a thread can still read", g_last);
  if (real(*t)) g_any = 1;
  vc_havoc(t, sizeof(Thread));     // the thread has moved on, or died
  ++g_i;
  g_ran = true;
}
void contract_clean_r(Vm* v) {
  PROVE("every running thread runs before its survivors are set up", v == vm && g_i == g_m);
  ++g_k;
  g_last = g_any; g_any = 0; g_i = 0;
  vc_havoc(act, sizeof(Thread) * acap);
  g_at = 0; g_m = vc_range("list_n", 0, 1u << 22);
  vc_assume(has_room());
  vc_forall(act, sizeof(Thread), g_at, g_at + g_m, in_prog_at, nullptr);
  vm->Active._M_impl._M_start = act + g_at;
  vm->Active._M_impl._M_finish = act + g_at + g_m;
}
uint64_t contract_leftmost_r(const Vm* v, uint64_t o) {
  PROVE("the end of what was read is its absolute offset", v == vm && o == start + g_k && g_i == 0);
  g_left = true;
  return g_live = vc_u64("live_start");
}
bool inv_list() { return has_room() && vm->Active._M_impl._M_start == act + g_at && vm->Active._M_impl._M_finish == act + g_at + g_m; }
bool all32_pc(size_t j) { return j < g_at + g_i || j >= g_at + g_m || in_prog(act[j]); }
bool inv_run() { return g_i <= g_m; }
bool inv_norun() { return g_i == 0; }
bool inv_noany() { return !g_any; }
bool inv_last() { return g_last == 1; }
bool inv_last8(uint8_t cur, uint8_t) { return cur == g_last && cur <= 1; }
bool inv_lastb(bool cur, bool) { return cur == (g_last == 1) && g_last <= 1; }
bool inv_any8(uint8_t cur, uint8_t) { return cur == g_any && cur <= 1; }
bool inv_anyb(bool cur, bool) { return cur == (g_any == 1) && g_any <= 1; }
}
static bool in_prog_at0(size_t j, const void*) { return in_prog(act0[j]); }
ENTRY check_resolve() {
  any_block();
  vc_forall(act0, sizeof(Thread), 0, an, in_prog_at0, nullptr);
  g_at = 0; g_m = an; g_i = 0; g_any = 0; g_last = 1;
  const uint64_t r = vm->Vm::searchResolve(blk, blk + n, start, on_hit, &user);
  PROVE("resolving stops only at the end of the block, without threads, or when none can read", g_k == n || g_m == 0 || !g_last);
  PROVE("the start of the oldest match in progress is returned", g_left && r == g_live);
  vc_cover("resolved");
}

// ---- matching at the start of a text only
static uint8_t g_closed, g_reset;
static bool fresh(const Thread& t, size_t i) { return is(t, fst[i].PC, start, Thread::NONE, NOLAB, false); }
extern "C" {
void contract_run_s(Vm* v, const Instruction* b, Thread* t, const byte* c, uint64_t o) {
  at_byte(v, b, c, o);
  PROVE("every running thread runs once, in priority order", t == act + g_i && g_i < g_m);
  PROVE("matches start at the start of the text only", g_k > 0 || g_i < an || fresh(*t, g_i - an));
  ++g_i;
  g_ran = true;
  vc_havoc(t, sizeof(Thread));
}
void contract_clean_s(Vm* v) {
  PROVE("every running thread runs before its survivors are set up", v == vm && g_i == g_m);
  ++g_k;
  g_i = 0;
  g_ran = false;
  vc_havoc(act, sizeof(Thread) * acap);
  g_m = vc_range("list_n", 0, 1u << 22);
  vc_assume(g_m <= acap);
  vm->Active._M_impl._M_finish = act + g_m;
}
void contract_close(Vm* v, void (*f)(void*, const LG_SearchHit*), void* u) {
  PROVE("the matches left are reported once the text is read, or nothing is left running", v == vm && (g_k == n || g_m == 0) && !g_closed);
  PROVE("hits go where the caller said", f == on_hit && u == &user);
  g_closed = 1;
}
void contract_reset(Vm* v) {
  PROVE("everything is forgotten once the matches are reported", v == vm && g_closed);
  g_reset = 1;
}
static size_t made() { return vm->Active.size(); }
bool all32_making(size_t j) { return j < an ? same(act[j], act0[j]) : j >= made() || fresh(act[j], j - an); }
bool all32_torun(size_t j) { return g_k > 0 || (j < g_i ? true : j < an ? same(act[j], act0[j]) : j >= g_m || fresh(act[j], j - an)); }
bool inv_made() { return made() <= acap && made() >= an && made() <= an + fn; }
bool inv_slist() { return g_m <= acap && vm->Active._M_impl._M_start == act && vm->Active._M_impl._M_finish == act + g_m; }
bool inv_started() { return g_k <= n && (g_k > 0 || g_m == an + fn); }
}
ENTRY check_starts() {
  any_block();
  vc_assume(an + fn <= acap);
  g_i = 0; g_m = an + fn; g_closed = g_reset = 0; g_at = 0;
  bool pass = n > 0;                                    // a text too short for the filter is not filtered
  if (fo + 2 <= n) {
    uint16_t w; memcpy(&w, blk + fo, 2);
    pass = ((((const byte*) &prog->Filter)[w / 8] >> (w % 8)) & 1);
  }
  vm->Vm::startsWith(blk, blk + n, start, on_hit, &user);
  if (pass) { PROVE("a text the filter passes, or that is too short for it, is matched, its matches are reported, then everything is forgotten", g_closed && g_reset); vc_cover("matched"); }
  PROVE("everything is forgotten when anything was done", g_k == 0 || g_reset);
}
#endif
