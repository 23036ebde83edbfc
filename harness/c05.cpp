// C05: byte sets contain exactly the bytes put in them.
#include "vc.h"
#include <algorithm>
#include <functional>
#include <utility>
#include "byteset.h"

static ByteSet any_set(const char* a) {
  ByteSet s;
  uint64_t* w = (uint64_t*) vc_alloc(a, 32, 8);
  memcpy((void*) &s, w, 32);
  return s;
}

// ---- set(beg, end, value): exactly the bytes of [beg, end) change, to value
// (one entry per residue of beg modulo 8, every residue of end: together all 0 <= beg <= end <= 256)
static void set_range(unsigned br) {
  const uint64_t er = vc_range("er", 0, 7);
  for (unsigned r = 0; r < 8; ++r) {
    if (r != er) continue;
    ByteSet s = any_set("s");
    const size_t beg = 8 * vc_range("bq", 0, 32) + br, end = 8 * vc_range("eq", 0, 32) + r;
    vc_assume(beg <= end && end <= 256);
    const bool v = vc_bool("v");
    const size_t x = vc_range("x", 0, 255);
    const bool before = s.test(x);
    s.set(beg, end, v);
    const bool want = (beg <= x && x < end) ? v : before;
    PROVE("setting a range changes exactly its bytes", s.test(x) == want);
    if (end > beg + 8) vc_cover("set");
    return;
  }
}
ENTRY check_set_range0() { set_range(0); }
ENTRY check_set_range1() { set_range(1); }
ENTRY check_set_range2() { set_range(2); }
ENTRY check_set_range3() { set_range(3); }
ENTRY check_set_range4() { set_range(4); }
ENTRY check_set_range5() { set_range(5); }
ENTRY check_set_range6() { set_range(6); }
ENTRY check_set_range7() { set_range(7); }

// contract of set(beg, end, value), shown by the entries above: what it does to byte g_byte
static size_t g_byte;
extern "C" ByteSet* contract_set_range(ByteSet* s, size_t beg, size_t end, bool v) {
  PROVE("a range to set lies within the set", beg <= end && end <= 256);
  const bool want = beg <= g_byte && g_byte < end ? v : s->test(g_byte);
  vc_havoc((void*) s, 32);
  vc_assume(s->test(g_byte) == want);
  return s;
}

// ranges given as a list of pairs, bytes given as a list, a single byte
ENTRY check_ctor_ranges() {
  const size_t b1 = vc_range("b1", 0, 256), e1 = vc_range("e1", 0, 256), b2 = vc_range("b2", 0, 256), e2 = vc_range("e2", 0, 256);
  vc_assume(b1 <= e1 && b2 <= e2);
  const size_t x = g_byte = vc_range("x", 0, 255);
  const ByteSet s{std::pair<size_t, size_t>(b1, e1), std::pair<size_t, size_t>(b2, e2)};
  PROVE("a set made from ranges holds exactly their bytes", s.test(x) == ((b1 <= x && x < e1) || (b2 <= x && x < e2)));
  vc_cover("made");
}

ENTRY check_ctor_bytes() {
  const uint8_t p = vc_u8("p"), q = vc_u8("q"), r = vc_u8("r"), x = vc_u8("x");
  const ByteSet s{p, q, r};
  PROVE("a set made from bytes holds exactly them", s.test(x) == (x == p || x == q || x == r));
  const ByteSet t(p);
  PROVE("a set made from one byte holds exactly it", t.test(x) == (x == p));
  const ByteSet e;
  PROVE("a new set is empty", !e.test(x));
  vc_cover("made");
}

// ---- complement and difference
ENTRY check_complement() {
  const ByteSet s = any_set("s");
  const size_t x = vc_range("x", 0, 255);
  PROVE("complement holds exactly the other bytes", (~s).test(x) == !s.test(x));
  PROVE("complementing twice gives the set back", ~~s == s);
}

ENTRY check_difference() {
  const ByteSet s = any_set("s"), t = any_set("t");
  const size_t x = vc_range("x", 0, 255);
  const bool want = s.test(x) && !t.test(x);
  PROVE("difference holds exactly the bytes of the first set not in the second", (s - t).test(x) == want);
  ByteSet u = s;
  u -= t;
  PROVE("difference in place holds exactly the bytes of the first set not in the second", u.test(x) == want);
  ByteSet v = s;
  v -= v;
  PROVE("a set minus itself is empty", !v.test(x));
}

// ---- comparison
ENTRY check_equal() {
  const ByteSet s = any_set("s"), t = any_set("t");
  const size_t x = vc_range("x", 0, 255);
  if (s == t) {
    PROVE("equal sets have the same members", s.test(x) == t.test(x));
    vc_cover("equal");
  }
  PROVE("different is the opposite of equal", (s != t) == !(s == t));
  const uint64_t* a = (const uint64_t*) &s; const uint64_t* b = (const uint64_t*) &t;
  if (a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3]) {
    PROVE("sets with the same members are equal", s == t);
    vc_cover("same members");
  }
}

// the same members one by one (witness form of the above, without the layout)
ENTRY check_equal_members() {
  ByteSet s = any_set("s");
  const size_t x = vc_range("x", 0, 255);
  ByteSet t = s;
  t.flip(x);
  PROVE("sets that differ in one member differ", s != t && !(s == t));
  t.flip(x);
  PROVE("sets with the same members are equal", s == t);
}

ENTRY check_order() {
  const ByteSet s = any_set("s"), t = any_set("t"), u = any_set("u");
  PROVE("comparing with itself gives equal", s.compare(s) == 0);
  PROVE("exactly one of less, equal, greater holds", (s < t) + (s == t) + (t < s) == 1);
  PROVE("order is transitive", !(s < t && t < u) || s < u);
  PROVE("greater mirrors less", (s > t) == (t < s));
  PROVE("at most is less or equal", (s <= t) == (s < t || s == t));
  PROVE("at least is greater or equal", (s >= t) == (s > t || s == t));
  vc_cover("end");
}

// ---- visiting the members
static size_t g_x, g_seen; static int64_t g_last;
static const ByteSet* g_set;

// invariant of the walk through word i (cur: members of the word not visited yet, init: all of them)
extern "C" bool inv_rest(uint64_t cur, uint64_t init) { return (cur & ~init) == 0; }
extern "C" bool inv_last(uint64_t cur, uint64_t init, uint64_t i) {
  return g_last < (int64_t) (64 * (i + 1)) && (cur == 0 || g_last < (int64_t) (64 * i + __builtin_ctzll(cur)));
}
extern "C" bool inv_seen(uint64_t cur, uint64_t init, uint64_t i) {
  if (g_x / 64 > i) return g_seen == 0;
  const bool has = g_set->test(g_x);
  if (g_x / 64 < i) return g_seen == (has ? 1 : 0);
  return ((init >> (g_x % 64)) & 1) == has && g_seen == (has && !((cur >> (g_x % 64)) & 1) ? 1 : 0);
}

ENTRY check_visit() {
  const ByteSet s = any_set("s");
  g_x = vc_range("x", 0, 255);
  g_seen = 0; g_last = -1; g_set = &s;
  s.for_each_set_bit([](uint64_t i) {
    PROVE("a visited value is a byte", i < 256);
    PROVE("a visited byte is a member", g_set->test(i));
    PROVE("members are visited once, in increasing order", (int64_t) i > g_last);
    g_last = i;
    if (i == g_x) ++g_seen;
  });
  PROVE("every member is visited exactly once", g_seen == (s.test(g_x) ? 1 : 0));
  if (g_seen) vc_cover("visited");
}
