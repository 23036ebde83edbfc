// C07: compiled instructions accept exactly the bytes their pattern state allows.
#include "vc.h"
#include "streams.h"
#include <cstring>
#include <memory>
#include <stdexcept>
#include <functional>
#include "vm.cpp"
#include "thread.cpp"
#include "instructions.cpp"
#include "states.cpp"
#include "transitionfactory.h"

// an arbitrary program of n words and an arbitrary place in it with room for `words` words
struct Prog_ {
  Instruction* base; size_t n, k; Vm* vm; Thread t; byte cur;
  uint32_t word(size_t i) const { uint32_t w; memcpy(&w, base + i, 4); return w; }
};

static Thread any_thread() {
  Thread t;
  t.Start = vc_u64("start"); t.End = vc_u64("end"); t.Label = vc_u32("label"); t.Lead = vc_bool("lead");
  return t;
}

static void any_prog(Prog_& p, size_t words) {
  p.n = vc_range("n", 1, BIG(1u << 26, 300));
  p.base = (Instruction*) vc_alloc("program", 4 * p.n, 4);
  p.k = vc_range("k", 0, BIG(1u << 26, 300));
  vc_assume(p.k + words <= p.n);
  p.vm = (Vm*) vc_alloc("vm", sizeof(Vm), 8);
  p.t = any_thread();
  p.t.PC = p.base + p.k;
  p.cur = vc_u8("cur");
}

// runs the thread on byte p.cur; `ok`: it must advance, to `target` (otherwise it must die)
static void run(Prog_& p, bool ok, const Instruction* target) {
  const Thread before = p.t;
  std::vector<Thread>::iterator it(&p.t);
  const bool r = p.vm->_execute(p.base, it, &p.cur);
  PROVE("a thread survives a byte exactly when the byte belongs to the instruction's set", r == ok);
  if (ok) PROVE("a surviving thread goes on at the right instruction", p.t.PC == target);
  PROVE("consuming a byte keeps the thread's history", p.t.Start == before.Start && p.t.End == before.End && p.t.Label == before.Label && p.t.Lead == before.Lead);
}

ENTRY check_exec_byte() {
  Prog_ p; any_prog(p, 1);
  const byte b = vc_u8("b"); const bool neg = vc_bool("neg");
  p.base[p.k] = Instruction::makeByte(b, neg);
  run(p, (p.cur == b) != neg, p.base + p.k + 1);
  vc_cover("byte");
}

ENTRY check_exec_either() {
  Prog_ p; any_prog(p, 1);
  const byte a = vc_u8("a"), b = vc_u8("b"); const bool neg = vc_bool("neg");
  p.base[p.k] = Instruction::makeEither(a, b, neg);
  run(p, (p.cur == a || p.cur == b) != neg, p.base + p.k + 1);
  vc_cover("either");
}

ENTRY check_exec_range() {
  Prog_ p; any_prog(p, 1);
  const byte a = vc_u8("a"), b = vc_u8("b"); const bool neg = vc_bool("neg");
  vc_assume(a <= b);
  p.base[p.k] = Instruction::makeRange(a, b, neg);
  run(p, (a <= p.cur && p.cur <= b) != neg, p.base + p.k + 1);
  vc_cover("range");
}

ENTRY check_exec_any() {
  Prog_ p; any_prog(p, 1);
  p.base[p.k] = Instruction::makeAny();
  run(p, true, p.base + p.k + 1);
  vc_cover("any");
}

ENTRY check_exec_bitvector() {
  Prog_ p; any_prog(p, 9);
  p.base[p.k] = Instruction::makeBitVector();
  byte v; memcpy(&v, (const byte*) (p.base + p.k + 1) + p.cur / 8, 1);
  run(p, (v >> (p.cur % 8)) & 1, p.base + p.k + 9);
  vc_cover("bit vector");
}

ENTRY check_exec_jumptable() {
  Prog_ p; any_prog(p, 1);
  const byte a = vc_u8("a"), b = vc_u8("b");
  vc_assume(a <= b && p.k + 2 + (b - a) <= p.n);
  p.base[p.k] = Instruction::makeJumpTableRange(a, b);
  uint32_t target = 0;
  if (a <= p.cur && p.cur <= b) {
    // the table's targets are instructions of the program, or 0 for none
    target = p.word(p.k + 1 + (p.cur - a));
    vc_assume(target < p.n);
    vc_cover("in the table");
  }
  run(p, target != 0, p.base + target);
  vc_cover("jump table");
}

ENTRY check_exec_finish() {
  Prog_ p; any_prog(p, 1);
  p.base[p.k] = Instruction::makeFinish();
  run(p, true, p.base + p.k);
}

// halts and anything that is not a byte instruction
ENTRY check_exec_other() {
  Prog_ p; any_prog(p, 1);
  const byte op = vc_u8("op");
  vc_assume(op > FINISH_OP);
  const uint32_t arg = vc_u32("arg");
  vc_assume(arg < (1u << 24));
  p.base[p.k] = Instruction::makeRaw24(arg);
  p.base[p.k].OpCode = op;
  run(p, false, nullptr);
  const Instruction h = Instruction::makeHalt();
  PROVE("a halt is a halt", h.OpCode == HALT_OP);
}

// ---- the representation of control instructions
ENTRY check_make() {
  Instruction buf[4];
  const uint32_t off = vc_u32("off");
  const uint32_t keep = vc_u32("keep");
  memcpy(buf + 2, &keep, 4);
  uint32_t w;
  buf[0] = Instruction::makeJump(buf, off);
  memcpy(&w, buf + 1, 4);
  PROVE("a jump holds its target", buf[0].OpCode == JUMP_OP && w == off && buf[0].wordSize() == 2);
  buf[0] = Instruction::makeFork(buf, off);
  memcpy(&w, buf + 1, 4);
  PROVE("a fork holds its target", buf[0].OpCode == FORK_OP && w == off && buf[0].wordSize() == 2);
  memcpy(&w, buf + 2, 4);
  PROVE("a jump or fork occupies two words", w == keep);
  const Instruction raw = Instruction::makeRaw32(off);
  memcpy(&w, &raw, 4);
  PROVE("a raw word holds its value", w == off);
  const uint32_t arg = vc_u32("arg");
  vc_assume(arg < (1u << 24));
  const Instruction l = Instruction::makeLabel(arg), c = Instruction::makeCheckHalt(arg), m = Instruction::makeMatch();
  PROVE("a label holds its number", l.OpCode == LABEL_OP && l.Op.Offset == arg && l.wordSize() == 1);
  PROVE("a check holds its number", c.OpCode == CHECK_HALT_OP && c.Op.Offset == arg && c.wordSize() == 1);
  PROVE("a match is a match", m.OpCode == MATCH_OP && m.wordSize() == 1);
}

ENTRY check_make_rejects() {
  const uint32_t arg = vc_u32("arg");
  const byte a = vc_u8("a"), b = vc_u8("b");
  bool threw = false;
  try { Instruction::makeRange(a, b); } catch (const std::range_error&) { threw = true; }
  PROVE("a range with its ends out of order is refused", threw == (b < a));
  threw = false;
  try { Instruction::makeJumpTableRange(a, b); } catch (const std::range_error&) { threw = true; }
  PROVE("a jump table with its ends out of order is refused", threw == (b < a));
  threw = false;
  try { Instruction::makeLabel(arg); } catch (const std::overflow_error&) { threw = true; }
  PROVE("a label that does not fit is refused", threw == (arg >= (1u << 24)));
  threw = false;
  try { Instruction::makeCheckHalt(arg); } catch (const std::overflow_error&) { threw = true; }
  PROVE("a check index that does not fit is refused", threw == (arg >= (1u << 24)));
}

// ---- from a pattern state to its instruction
static ByteSet any_set(const char* a) {
  ByteSet s;
  uint64_t* w = (uint64_t*) vc_alloc(a, 32, 8);
  memcpy((void*) &s, w, 32);
  return s;
}

// `in`: whether byte c belongs to the state
static void state(const Transition& s, byte c, bool in) {
  ByteSet bs = any_set("old");
  const bool before = bs.test(c);
  s.orBytes(bs);
  PROVE("adding a state's bytes adds exactly them", bs.test(c) == (before || in));
  s.getBytes(bs);
  PROVE("a state's bytes are its byte set", bs.test(c) == in);
  PROVE("a state allows exactly its bytes", s.allowed(&c, &c + 1) == (in ? &c + 1 : &c));

  Instruction buf[12];
  uint32_t* const fill = (uint32_t*) vc_alloc("fill", sizeof(buf), 4);
  memcpy((void*) buf, fill, sizeof(buf));
  PROVE("a state has an instruction", s.toInstruction(buf + 1));
  const size_t n = s.numInstructions();
  PROVE("an instruction is as long as announced", n <= 9 && n == buf[1].wordSize());
  const size_t k = vc_range("k", 0, 11);
  if (k < 1 || k > n) PROVE("writing an instruction touches nothing else", !memcmp(buf + k, fill + k, 4));

  Thread t = any_thread();
  const Thread b4 = t;
  t.PC = buf + 1;
  Vm* vm = (Vm*) vc_alloc("vm", sizeof(Vm), 8);
  const bool r = vm->_execute(buf, std::vector<Thread>::iterator(&t), &c);
  PROVE("the instruction made for a state accepts exactly the state's bytes", r == in);
  if (in) PROVE("the thread goes on after the state's instruction", t.PC == buf + 1 + n);
}

ENTRY check_state_byte() { const byte b = vc_u8("b"), c = vc_u8("c"); state(ByteState(b), c, c == b); }
ENTRY check_state_either() { const byte a = vc_u8("a"), b = vc_u8("b"), c = vc_u8("c"); state(EitherState(a, b), c, c == a || c == b); }
// (the constructor of ranges: first <= last; the contract of ByteSet::set is C05's)
static size_t g_byte;
extern "C" ByteSet* contract_set_range(ByteSet* s, size_t beg, size_t end, bool v) {
  PROVE("a range to set lies within the set", beg <= end && end <= 256);
  const bool want = beg <= g_byte && g_byte < end ? v : s->test(g_byte);
  vc_havoc((void*) s, 32);
  vc_assume(s->test(g_byte) == want);
  return s;
}
ENTRY check_state_range() {
  const byte a = vc_u8("a"), b = vc_u8("b"), c = vc_u8("c");
  vc_assume(a <= b);
  g_byte = c;
  state(RangeState(a, b), c, a <= c && c <= b);
  if (a == 0 && b == 255) vc_cover("everything");
}
ENTRY check_state_set() {
  const ByteSet s = any_set("set");
  const byte c = vc_u8("c");
  state(ByteSetState(s), c, s.test(c));
}

// copies keep the bytes
static void copies(const Transition& s, byte c) {
  ByteSet a, b;
  s.getBytes(a);
  std::unique_ptr<Transition> t(s.clone());
  t->getBytes(b);
  PROVE("a copy of a state has the same bytes", a.test(c) == b.test(c) && t->type() == s.type());
}
ENTRY check_clone_byte() { const byte b = vc_u8("b"); copies(ByteState(b), vc_u8("c")); }
ENTRY check_clone_either() { const byte a = vc_u8("a"), b = vc_u8("b"); copies(EitherState(a, b), vc_u8("c")); }
ENTRY check_clone_range() { const byte a = vc_u8("a"), b = vc_u8("b"); vc_assume(a <= b); const byte c = vc_u8("c"); g_byte = c; copies(RangeState(a, b), c); }
ENTRY check_clone_set() { const ByteSet s = any_set("set"); copies(ByteSetState(s), vc_u8("c")); }

// ---- the order of states: equivalent states have the same bytes, and the order is one
template <typename F> static void any_state(const char* k, const char* p, const char* q, const char* set, F f) {
  const unsigned kind = vc_range(k, 0, 3);
  const byte a = vc_u8(p), b = vc_u8(q);
  if (kind == 0) f(ByteState(a));
  else if (kind == 1) f(EitherState(a, b));
  else if (kind == 2) { vc_assume(a <= b); f(RangeState(a, b)); }
  else f(ByteSetState(any_set(set)));
}

ENTRY check_order() {
  const TransitionComparator less;
  const byte c = g_byte = vc_u8("c");
  any_state("k1", "p1", "q1", "s1", [&](const Transition& a) {
    any_state("k2", "p2", "q2", "s2", [&](const Transition& b) {
      const bool ab = less(&a, &b), ba = less(&b, &a);
      PROVE("no state is before itself", !less(&a, &a));
      PROVE("two states are never before each other", !(ab && ba));
      if (!ab && !ba) {
        ByteSet x, y;
        a.getBytes(x); b.getBytes(y);
        PROVE("states kept as one have the same bytes", x.test(c) == y.test(c));
        vc_cover("equivalent");
      }
    });
  });
}

ENTRY check_order_transitive() {
  const TransitionComparator less;
  any_state("k1", "p1", "q1", "s1", [&](const Transition& a) {
    any_state("k2", "p2", "q2", "s2", [&](const Transition& b) {
      any_state("k3", "p3", "q3", "s3", [&](const Transition& d) {
        PROVE("the order of states is transitive", !(less(&a, &b) && less(&b, &d)) || less(&a, &d));
        PROVE("equivalence of states is transitive", less(&a, &b) || less(&b, &a) || less(&b, &d) || less(&d, &b) || (!less(&a, &d) && !less(&d, &a)));
      });
    });
  });
}

// ---- picking the cheapest representation
static ByteSet g_got; static size_t g_calls; static byte g_type; static bool g_hit;
// contract of TransitionFactory::get: an element equivalent to the state asked for (std::set, and check_order)
extern "C" Transition* contract_get(TransitionFactory*, Transition* t) {
  ++g_calls;
  g_type = t->type();
  ByteSet b;
  t->getBytes(b);
  g_hit = b.test(g_byte);
  return t;
}

static const ByteSet* g_in;
// invariants of the walk over the 256 bytes (type: 0 none, 1 one, 2 range, 3 two; i: next byte)
static bool inv_smallest(unsigned type, byte low, byte high, size_t i) {
  const size_t x = g_byte;
  if (i > 256 || type > 3) return false;
  if (type == 0) return low == 0 && high == 0 && (x >= i || !g_in->test(x));
  if (!(low < i && high < i && g_in->test(low) && g_in->test(high))) return false;
  if (type == 1 && low != high) return false;
  if (type == 2 && !(low < high)) return false;
  if (type == 3 && !(low + 1 < high)) return false;
  if (x >= i) return true;
  const bool in = type == 1 ? x == low : type == 2 ? low <= x && x <= high : (x == low || x == high);
  return g_in->test(x) == in;
}
extern "C" bool inv_small(uint32_t type, uint32_t type0, uint8_t low, uint8_t low0, uint8_t high, uint8_t high0, uint64_t i, uint64_t i0) { return inv_smallest(type, low, high, i); }

ENTRY check_smallest() {
  const ByteSet s = any_set("set");
  g_byte = vc_range("x", 0, 255); g_in = &s; g_calls = 0;
  TransitionFactory f;
  Transition* const t = f.getSmallest(s);
  ByteSet b;
  t->getBytes(b);
  PROVE("picking the cheapest representation of a byte set never changes the set", b.test(g_byte) == s.test(g_byte));
}

ENTRY check_factory() {
  const byte a = vc_u8("a"), b = vc_u8("b"), c = vc_u8("c");
  g_byte = c;
  TransitionFactory f;
  ByteSet x;
  f.getByte(a)->getBytes(x);
  PROVE("a byte state asked for has its byte", x.test(c) == (c == a));
  f.getEither(a, b)->getBytes(x);
  PROVE("an either state asked for has its bytes", x.test(c) == (c == a || c == b));
  if (a <= b) {
    f.getRange(a, b)->getBytes(x);
    PROVE("a range state asked for has its bytes", x.test(c) == (a <= c && c <= b));
  }
  const ByteSet s = any_set("set");
  f.getByteSet(s)->getBytes(x);
  PROVE("a byte set state asked for has its bytes", x.test(c) == s.test(c));
}

#ifdef VC_NATIVE
// small, contiguous and irregular sets
ENTRY native_smallest() {
  ByteSet s;
  const unsigned n = vc_rand(6);
  if (vc_rand(3) == 0) {
    const unsigned a = vc_rand(256), b = a + vc_rand(257 - a);
    s.set(a, b, true);
    if (vc_rand(3) == 0) s.flip(vc_rand(256));
  }
  else {
    const unsigned a = vc_rand(256), w = vc_rand(2) ? 4 : 256;
    for (unsigned i = 0; i < n; ++i) s.set((a + vc_rand(w)) % 256);
  }
  if (vc_rand(4) == 0) s = ~s;
  TransitionFactory f;
  Transition* const t = f.getSmallest(s);
  ByteSet b;
  t->getBytes(b);
  PROVE("picking the cheapest representation of a byte set never changes the set", b == s);
  Transition* const u = f.getSmallest(s);
  PROVE("the same set gives the same state", t == u);
  Instruction buf[10];
  t->toInstruction(buf);
  Vm* vm = (Vm*) vc_alloc("vm", sizeof(Vm), 8);
  for (unsigned c = 0; c < 256; ++c) {
    Thread th(buf);
    const byte cur = c;
    PROVE("the instruction made for a state accepts exactly the state's bytes", vm->_execute(buf, std::vector<Thread>::iterator(&th), &cur) == s.test(c));
  }
}

// many states from one factory
ENTRY native_factory() {
  TransitionFactory f;
  for (unsigned i = 0; i < 40; ++i) {
    const byte a = vc_rand(8) + 250 * vc_rand(2), b = vc_rand(8) + 250 * vc_rand(2);
    ByteSet x;
    switch (vc_rand(4)) {
    case 0: f.getByte(a)->getBytes(x); PROVE("a byte state asked for has its byte", x == ByteSet(a)); break;
    case 1: f.getEither(a, b)->getBytes(x); PROVE("an either state asked for has its bytes", x == ByteSet({a, b})); break;
    case 2: if (a <= b) { f.getRange(a, b)->getBytes(x); ByteSet r; for (unsigned c = a; c <= b; ++c) r.set(c); PROVE("a range state asked for has its bytes", x == r); } break;
    default: { ByteSet r({a, b, (byte) vc_rand(256)}); f.getByteSet(r)->getBytes(x); PROVE("a byte set state asked for has its bytes", x == r); }
    }
  }
}
#endif
