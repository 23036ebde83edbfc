// An arbitrary search engine state for the proofs about Vm (C08, C09, C10): any program, any thread
// lists of any length, any label and check sets, any ends of earlier matches.
#pragma once
#include "vc.h"
#include <cstring>
#include <memory>
#include <new>
#include <vector>
#include "vm.cpp"
#include "thread.cpp"

extern "C" void* vm_vtable[] __asm__("_ZTV2Vm");

static Vm* vm;
static Program* prog;
static Instruction* base; static size_t pn;             // the program's words
static Thread *act, *nxt, *fst; static size_t an, acap, nn, ncap, fn;
static Thread *act0;                                    // Active as it was at the start
static uint32_t labels, checks;                         // MaxLabel + 1, MaxCheck + 1
static uint64_t *ends, *ends0;                          // MatchEnds, and as it was at the start
static const uint32_t NOLAB = 0xFFFFFFFF;

// ---- SparseSet by contract (C06 proves it): presence of each label
struct GSet { SparseSet* s; uint8_t* has; uint32_t n; bool cleared; };
static GSet live, chk;
static GSet& gset(const SparseSet* s) { return s == live.s ? live : chk; }
extern "C" {
bool contract_find(const SparseSet* s, uint32_t e) {
  GSet& g = gset(s);
  PROVE("a set is asked for labels it has room for", e < g.n);
  return !g.cleared && (g.has[e] & 1);
}
void contract_insert(SparseSet* s, uint32_t e) {
  GSet& g = gset(s);
  PROVE("a set is given labels it has room for", e < g.n);
  PROVE("a label is inserted once", !(g.has[e] & 1) && !g.cleared);
  g.has[e] = 1;
}
void contract_clear(SparseSet* s) { gset(s).cleared = true; }
uint32_t contract_size(const SparseSet* s) { PROVE("the size of a set plays no part in a search", false); return 0; }
// growing a thread list is the library's business; the lists here have room (assumed)
void contract_grow(void*) { vc_assume(false); }
}
#ifdef VC_NATIVE
static bool in(const GSet& g, uint32_t e) { return e < g.n && g.s->find(e); }
#else
static bool in(const GSet& g, uint32_t e) { return !g.cleared && (g.has[e] & 1); }
#endif

static void any_set(GSet& g, SparseSet* s, uint32_t n, const char* name) {
  g.s = s; g.n = n; g.cleared = false;
  g.has = (uint8_t*) vc_alloc(name, n, 1);
#ifdef VC_NATIVE
  new (s) SparseSet(n);
  for (uint32_t i = 0; i < n; ++i) if (g.has[i] & 1) s->insert(i);
#endif
}

static void set_list(std::vector<Thread>& v, Thread* p, size_t n, size_t cap) {
  v._M_impl._M_start = p; v._M_impl._M_finish = p + n; v._M_impl._M_end_of_storage = p + cap;
}

#ifdef VC_NATIVE
static void fill_threads(Thread* t, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    if (t[i].PC >= base && t[i].PC < base + pn) continue;
    t[i].PC = base + vc_rand(pn);
    t[i].Start = vc_rand(6); t[i].End = vc_rand(3) ? t[i].Start + vc_rand(6) : Thread::NONE;
    t[i].Label = vc_rand(4) ? vc_rand(labels) : NOLAB;
    memset(&t[i].Lead, 0, 4); t[i].Lead = vc_rand(2);
  }
}
#endif

// words of the program are read a byte at a time
static uint32_t word(size_t i) { uint32_t w; memcpy(&w, base + i, 4); return w; }
static uint32_t off24(size_t i) { return word(i) >> 8; }
static byte opcode(size_t i) { return word(i) & 0xFF; }
static void put24(size_t i, byte op, uint32_t arg) { const uint32_t w = op | arg << 8; memcpy(base + i, &w, 4); }

static const uint64_t MAXOFF = ~0ull >> 8;              // stream offsets stay below this

static void any_vm() {
  vm = (Vm*) vc_alloc("vm", sizeof(Vm), 8);
  prog = (Program*) vc_alloc("prog", sizeof(Program), 4);
  pn = vc_range("pn", 3, BIG(1u << 24, 12));
  base = (Instruction*) vc_alloc("program", 4 * pn, 1);
  labels = vc_range("labels", 1, BIG(1u << 22, 6));
  checks = vc_range("checks", 1, BIG(1u << 22, 6));
  *(void***) vm = vm_vtable + 2;
  *(Program**) &vm->Prog = prog;
  *(const Instruction**) &vm->ProgEnd = base + (pn - 2);
  prog->IBeg._M_t._M_ptr() = base;
  prog->IEnd = base + pn;
  prog->MaxLabel = labels - 1; prog->MaxCheck = checks - 1;
  acap = vc_range("acap", 0, BIG(1u << 22, 20)); an = vc_range("an", 0, BIG(1u << 22, 20));
  ncap = vc_range("ncap", 0, BIG(1u << 22, 40)); nn = vc_range("nn", 0, BIG(1u << 22, 20));
  fn = vc_range("fn", 0, BIG(1u << 22, 8));
#ifdef VC_NATIVE
  if (acap < an + fn) acap = an + fn;
  if (ncap < nn + acap + 2) ncap = nn + acap + 2;
#endif
  vc_assume(an <= acap && nn <= ncap);
  act0 = (Thread*) vc_alloc("active", sizeof(Thread) * acap, 8);
  act = (Thread*) vc_alloc("active_", sizeof(Thread) * acap, 8);
  nxt = (Thread*) vc_alloc("next", sizeof(Thread) * ncap, 8);
  fst = (Thread*) vc_alloc("first", sizeof(Thread) * fn, 8);
  ends0 = (uint64_t*) vc_alloc("ends", 8 * (size_t) labels, 8);
  ends = (uint64_t*) vc_alloc("ends_", 8 * (size_t) labels, 8);
#ifdef VC_NATIVE
  for (size_t i = 0; i < pn; ++i) if (opcode(i) > ADJUST_START_OP) put24(i, vc_rand(14), vc_rand(4) ? vc_rand(pn) : vc_rand(labels));
  put24(pn - 2, HALT_OP, 0); put24(pn - 1, FINISH_OP, 0);
  fill_threads(act0, acap); fill_threads(nxt, ncap); fill_threads(fst, fn);
  for (uint32_t i = 0; i < labels; ++i) if (ends0[i] > 100) ends0[i] = vc_rand(8);
#endif
  memcpy((void*) act, (void*) act0, sizeof(Thread) * acap);
  memcpy(ends, ends0, 8 * (size_t) labels);
  set_list(vm->Active, act, an, acap);
  set_list(vm->Next, nxt, nn, ncap);
  set_list(vm->First, fst, fn, fn);
  vm->MatchEnds._M_impl._M_start = ends;
  vm->MatchEnds._M_impl._M_finish = vm->MatchEnds._M_impl._M_end_of_storage = ends + labels;
  vm->MatchEndsMax = vc_u64("endsmax");
  vm->LiveNoLabel = vc_bool("livenolabel");
  any_set(live, &vm->Live, labels, "live");
  any_set(chk, &vm->CheckLabels, checks, "checked");
}

static bool lead(const Thread& t) { return *(const uint8_t*) &t.Lead & 1; }
static bool same(const Thread& a, const Thread& b) {
  return a.PC == b.PC && a.Start == b.Start && a.End == b.End && a.Label == b.Label && lead(a) == lead(b);
}
static bool is(const Thread& t, const Instruction* p, uint64_t s, uint64_t e, uint32_t l, bool ld) {
  return t.PC == p && t.Start == s && t.End == e && t.Label == l && lead(t) == ld;
}
static bool valid_label(const Thread& t) { return t.Label == NOLAB || t.Label < labels; }

typedef std::vector<Thread>::iterator TI;

// what an operation must leave alone, seen at arbitrary places: one label, one check, one thread of each list
struct Snap {
  bool nolabel, live_x, chk_x; uint64_t ends_x, endsmax; size_t an, nn; const Thread *abeg, *nbeg; Thread a, n;
};
static uint32_t x_label, x_check; static size_t x_act, x_next;
static void any_places() {
  x_label = vc_u32("x_label"); x_check = vc_u32("x_check");
  x_act = vc_range("x_act", 0, BIG(1u << 22, 20)); x_next = vc_range("x_next", 0, BIG(1u << 22, 20));
  vc_assume(x_label < labels && x_check < checks);
}
static Snap snap() {
  Snap s;
  s.nolabel = vm->LiveNoLabel; s.live_x = in(live, x_label); s.chk_x = in(chk, x_check);
  s.ends_x = ends[x_label]; s.endsmax = vm->MatchEndsMax;
  s.an = vm->Active.size(); s.nn = vm->Next.size();
  s.abeg = vm->Active.data(); s.nbeg = vm->Next.data();
  if (x_act < an) s.a = act[x_act];
  if (x_next < nn) s.n = nxt[x_next];
  return s;
}
static void prove_lists_kept(const Snap& a, const Snap& b) {
  PROVE("the list of running threads keeps its place and length", a.abeg == b.abeg && a.an == b.an && a.nbeg == b.nbeg);
  if (x_next < nn) PROVE("threads that already survived stay as they are", same(a.n, b.n));
}
static void prove_ends_kept(const Snap& a, const Snap& b) { PROVE("the ends of earlier matches are kept", a.ends_x == b.ends_x && a.endsmax == b.endsmax); }
static void prove_live_kept(const Snap& a, const Snap& b) { PROVE("no label is marked live", a.nolabel == b.nolabel && a.live_x == b.live_x); }
static void prove_checks_kept(const Snap& a, const Snap& b) { PROVE("no state is claimed", a.chk_x == b.chk_x); }
static void prove_others_kept(const Snap& a, const Snap& b, size_t k) { if (x_act < an && x_act != k) PROVE("other threads are left alone", same(a.a, b.a)); }
