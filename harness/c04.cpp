// C04: code point sets obey set algebra and keep a canonical form.
// A set is a strictly increasing sequence of even length of numbers up to N; a point belongs to it if an odd
// number of elements are at most the point.  Level 1: the functions that work on the sequence, on any sequence.
// Level 2: the functions built on those, by their contracts, seen at one arbitrary point.
#include "vc.h"
#include <cstring>
#include <new>
#include <sstream>
#include "rangeset.h"

typedef uint32_t T;
static const T N = 0x110000;
template class RangeSet<uint32_t, 0x110000>;
typedef std::vector<T> Vec;

static void set_vec(Vec& v, T* p, size_t n, size_t cap) {
  v._M_impl._M_start = p; v._M_impl._M_finish = p + n; v._M_impl._M_end_of_storage = p + cap;
}

struct Seq { const T* v; size_t n; };                  // a sequence seen from outside
static bool rises(size_t a, const void* c) { const Seq* s = (const Seq*) c; return a + 1 >= s->n || s->v[a] < s->v[a + 1]; }
static bool inside(size_t a, const void* c) { const Seq* s = (const Seq*) c; return s->v[a] <= N - (a + 1 < s->n); }

static Seq any_seq(const char* name, size_t cap) {
  Seq s;
  s.n = 2 * vc_range("ranges", 0, BIG(1u << 20, 6));
  vc_assume(s.n <= cap);
  s.v = (T*) vc_alloc(name, 4 * cap, 4);
#ifdef VC_NATIVE
  T at = vc_rand(3); T* w = const_cast<T*>(s.v);
  for (size_t i = 0; i < s.n; ++i) { w[i] = at; at += 1 + vc_rand(vc_rand(3) ? 3 : 0x1000); }
  if (s.n && !vc_rand(3)) w[s.n - 1] = N;
#endif
  return s;
}
static void canonical(const Seq* s) {
  vc_forall(s->v, 4, 0, s->n, rises, s);
  vc_forall(s->v, 4, 0, s->n, inside, s);
}

// a place that splits a sequence: every element before it is below, none from it on is (an increasing
// sequence has exactly one such place for each bound)
struct Split { const T* v; size_t k, n; T x; bool atmost; };
static bool goes(T y, const Split& s) { return s.atmost ? y <= s.x : y < s.x; }
static bool splits(size_t a, const void* c) { const Split& s = *(const Split*) c; return goes(s.v[a], s) == (a < s.k); }
static size_t splitpoint(Split& s, const char* name, int odd = 2) {
#ifdef VC_NATIVE
  s.k = 0; while (s.k < s.n && goes(s.v[s.k], s)) ++s.k;
#else
  s.k = 2 * vc_range(name, 0, 1u << 21) + (odd == 2 ? vc_range("odd", 0, 1) : (size_t) odd);
  vc_assume(s.k <= s.n);
  vc_assume(s.k == 0 || goes(s.v[s.k - 1], s)); vc_assume(s.k == s.n || !goes(s.v[s.k], s));
#endif
  return s.k;
}
static T any_point() { return vc_range("x", 0, N - 1); }

// an arbitrary set in storage of arbitrary capacity, and its content as it was
static Seq found_in;                                   // what searches look through
struct Any { Seq s0; Split at; alignas(8) unsigned char room[sizeof(UnicodeSet)]; UnicodeSet* set; T x; bool had; };
static void any_set(Any& a) {
  const size_t cap = vc_range("cap", 0, BIG(1u << 21, 20));
  a.s0 = any_seq("content", cap);
  vc_assume(a.s0.n + 2 <= cap);                        // growing is the library's business
  canonical(&a.s0);
  a.set = (UnicodeSet*) a.room;
#ifdef VC_NATIVE
  a.set = new UnicodeSet; a.set->vec.reserve(cap); a.set->vec.assign(a.s0.v, a.s0.v + a.s0.n);
#else
  T* p = (T*) vc_alloc("storage", 4 * cap, 4);
  memcpy(p, a.s0.v, 4 * cap);
  set_vec(a.set->vec, p, a.s0.n, cap);
#endif
  a.x = any_point();
  found_in = a.s0;
  a.had = false;
}
// one arbitrary point, and whether the set has it: the number of elements up to it is odd
static void any_member(Any& a) {
  a.at = Split{a.s0.v, 0, a.s0.n, a.x, true};
  a.had = splitpoint(a.at, "rank") & 1;
  vc_forall(a.s0.v, 4, 0, a.s0.n, splits, &a.at);
}
static Seq now(const UnicodeSet& s) { return Seq{s.vec.data(), s.vec.size()}; }

static Seq after;
static void prove_canonical(const Seq& s) {
  PROVE("the number of end points is even", s.n % 2 == 0);
  const size_t j = vc_range("j", 0, BIG(1u << 22, 20));
  if (j + 1 < s.n) PROVE("end points are strictly increasing", s.v[j] < s.v[j + 1]);
  else if (j < s.n) PROVE("end points are within the universe", s.v[j] <= N);
}
static bool member_after(const Seq& s, T x) { Split p{s.v, 0, s.n, x, true}; return splitpoint(p, "rank_after") & 1; }

// ---- searching the sequence
// The proofs split on the parity of the places found (0, 1: that parity; 2: either).
static int lower_odd = 2, upper_odd = 2;
static Split lo_at, up_at;
// the whole of the set's content, seen from outside, is searched, from a place on
static size_t found(const T* b, const T* e, T x, bool atmost, Split& s, const char* name, int odd) {
  const size_t n = e - b, i = vc_range("i", 0, BIG(1u << 22, 20));
  const T *c = found_in.v; const size_t all = found_in.n;
  PROVE("the rest of the end points is searched", n <= all);
  const size_t from = all - n;
  if (i < n) PROVE("the end points are searched as they are", b[i] == c[from + i]);
  s = Split{c, 0, all, x, atmost};
  splitpoint(s, name, odd);
  vc_assume(s.k >= from);
  vc_forall(c, 4, from, all, splits, &s);
  return s.k - from;
}
// std::vector<uint32_t> by contract: a sequence; growing is the library's business (there is room)
static void room(const Vec* v, size_t k) { vc_assume(v->_M_impl._M_finish + k <= v->_M_impl._M_end_of_storage); }
extern "C" {
void contract_grow(void*) { vc_assume(false); }
T* contract_erase(Vec* v, T* l, T* u) {
  T *b = v->_M_impl._M_start, *e = v->_M_impl._M_finish;
  PROVE("end points are removed where they are", b <= l && l <= u && u <= e);
  memmove(l, u, 4 * (e - u));
  v->_M_impl._M_finish = e - (u - l);
  return l;
}
T* contract_erase1(Vec* v, T* l) {
  PROVE("an end point is removed where there is one", l < v->_M_impl._M_finish);
  return contract_erase(v, l, l + 1);
}
T* contract_vinsert(Vec* v, T* at, const T* x) {
  T *b = v->_M_impl._M_start, *e = v->_M_impl._M_finish;
  PROVE("an end point is put within the sequence", b <= at && at <= e);
  const T y = *x;
  room(v, 1);
  memmove(at + 1, at, 4 * (e - at));
  *at = y;
  v->_M_impl._M_finish = e + 1;
  return at;
}
T* contract_vinsert_list(Vec* v, T* at, const T* l, size_t n) {
  T *b = v->_M_impl._M_start, *e = v->_M_impl._M_finish;
  PROVE("end points are put within the sequence", b <= at && at <= e);
  if (n != 2) vc_assume(false);
  const T y = l[0], z = l[1];
  room(v, 2);
  memmove(at + 2, at, 4 * (e - at));
  at[0] = y; at[1] = z;
  v->_M_impl._M_finish = e + 2;
  return at;
}
void contract_push(Vec* v, const T* x) {
  const T y = *x;
  room(v, 1);
  *v->_M_impl._M_finish = y;
  ++v->_M_impl._M_finish;
}
// contract of std::lower_bound / upper_bound on an increasing sequence
T* contract_lower(T* b, T* e, const T* x) { return b + found(b, e, *x, false, lo_at, "lower", lower_odd); }
const T* contract_lower_pos(const T* b, const T* e, const size_t* x) {
  // a bound beyond every number is above everything
  return b + found(b, e, *x <= N ? *x : N + 1, false, lo_at, "lower", lower_odd);
}
T* contract_upper(T* b, T* e, const T* x) { return b + found(b, e, *x, true, up_at, "upper", upper_odd); }
}
// the search itself: the place sought stays in the part still looked at
static size_t sought;
extern "C" bool inv_around(const T* cur, const T*, uint64_t len, uint64_t) {
  const size_t at = cur - found_in.v;
  return ((const char*) cur - (const char*) found_in.v) % 4 == 0 && at <= sought && len <= found_in.n && sought <= at + len && at + len <= found_in.n;
}
static void search(int how) {
  Any a; any_set(a);
  const bool upper = how == 1;
  const size_t pos = vc_u64("pos");
  const T x = how == 2 ? (pos <= N ? pos : N + 1) : vc_u32("val");
  Split s{a.s0.v, 0, a.s0.n, x, upper};
  sought = splitpoint(s, "sought");
  vc_forall(a.s0.v, 4, 0, a.s0.n, splits, &s);
  const T *b = a.s0.v, *e = b + a.s0.n;
  PROVE("a search finds where the sequence splits", (how == 2 ? std::lower_bound(b, e, pos) : upper ? std::upper_bound(b, e, x) : std::lower_bound(b, e, x)) == b + sought);
}
ENTRY check_find_lower() { search(0); }
ENTRY check_find_upper() { search(1); }
ENTRY check_find_pos() { search(2); }

// ---- level 1
static void insert(int lo, int up, bool shape) {
  lower_odd = lo; upper_odd = up;
  Any a; any_set(a);
  if (!shape) any_member(a);
  const T f = vc_range("first", 0, N), l = vc_range("last", 0, N);
  vc_assume(f <= l);
  a.set->insert(f, l);
  after = now(*a.set);
  if (shape) prove_canonical(after);
  else PROVE("inserting a range adds exactly its points", member_after(after, a.x) == (a.had || (f <= a.x && a.x < l)));
  vc_cover("inserted");
}
ENTRY check_insert_00() { insert(0, 0, false); }
ENTRY check_insert_01() { insert(0, 1, false); }
ENTRY check_insert_10() { insert(1, 0, false); }
ENTRY check_insert_11() { insert(1, 1, false); }
ENTRY check_insert_00_shape() { insert(0, 0, true); }
ENTRY check_insert_01_shape() { insert(0, 1, true); }
ENTRY check_insert_10_shape() { insert(1, 0, true); }
ENTRY check_insert_11_shape() { insert(1, 1, true); }
ENTRY check_flip() {
  Any a; any_set(a); any_member(a);
  a.set->flip();
  after = now(*a.set);
  prove_canonical(after);
  PROVE("the complement has exactly the points the set has not", member_after(after, a.x) == !a.had);
}
static void test(int lo) {
  lower_odd = lo;
  Any a; any_set(a); any_member(a);
  PROVE("membership is found exactly", a.set->test(a.x) == a.had);
  const size_t y = vc_u64("y");
  if (y >= N) PROVE("nothing beyond the universe is a member", !a.set->test(y));
}
ENTRY check_test_0() { test(0); }
ENTRY check_test_1() { test(1); }

ENTRY check_fill() {
  Any a; any_set(a);
  const int op = vc_range("op", 0, 2);
  const T f = vc_range("first", 0, N), l = vc_range("last", 0, N);
  vc_assume(f <= l && (op < 2 || f < l));
#ifdef VC_NATIVE
  if (op == 2) a.set->~UnicodeSet();
#endif
  if (op == 0) a.set->set(); else if (op == 1) a.set->reset(); else new (a.set) UnicodeSet(f);
  if (op == 2 && f == N) return;
  after = now(*a.set);
  prove_canonical(after);
  PROVE("filling, emptying and starting from one point do as they say", member_after(after, a.x) == (op == 0 || (op == 2 && a.x == f)));
}
ENTRY check_whole() {
  Any a; any_set(a); any_member(a);
  const bool all = a.set->all(), any = a.set->any(), none = a.set->none();
  PROVE("a set has points or none", any == !none && a.set->size() == N);
  if (all) PROVE("a full set has every point", a.had);
  else {
    const T w = a.s0.n && a.s0.v[0] == 0 ? a.s0.v[1] : 0;
    PROVE("a set that is not full lacks a point", w < N);
    if (a.x == w) PROVE("a set that is not full lacks the point after its first run", !a.had);
  }
  if (none) PROVE("an empty set has no point", !a.had);
  else {
    PROVE("a set with points has a first one", a.s0.v[0] < N);
    if (a.x == a.s0.v[0]) PROVE("the first point is a member", a.had);
  }
}
// walking over the runs
ENTRY check_runs() {
  Any a; any_set(a); any_member(a);
  const UnicodeSet& s = *a.set;
  const T* v = a.s0.v;
  const size_t runs = a.s0.n / 2, r = vc_range("r", 0, BIG(1u << 20, 6));
  vc_assume(r < runs);
  PROVE("a walk has one step for each run", s.end() - s.begin() == (ptrdiff_t) runs && s.cend() - s.cbegin() == (ptrdiff_t) runs);
  UnicodeSet::const_iterator i = s.begin() + r, k = i;
  const UnicodeSet::range x = *i;
  PROVE("a step shows its run", x.first == v[2 * r] && x.second == v[2 * r + 1]);
  PROVE("a run is not empty", x.first < x.second && x.second <= N);
  if (x.first <= a.x && a.x < x.second) PROVE("the points of a run are members", a.had);
  if (a.had && a.at.k == 2 * r + 1) PROVE("a member lies in a run", x.first <= a.x && a.x < x.second);
  ++k;
  PROVE("steps follow each other", k - i == 1 && (k == s.end()) == (r + 1 == runs) && k != i && !(k < i));
  if (k != s.end()) {
    const UnicodeSet::range y = *k;
    PROVE("runs rise and do not touch", x.second < y.first && y.first == v[2 * r + 2]);
  }
  --k;
  PROVE("a step back returns", k == i);
  UnicodeSet::const_reverse_iterator q = s.rbegin() + r;
  const UnicodeSet::range z = *q;
  PROVE("a walk backwards shows the runs from the last", z.first == v[2 * (runs - r) - 2] && z.second == v[2 * (runs - r) - 1] && s.rend() - q == (ptrdiff_t) (runs - r));
}

// the number of points: the runs' lengths added up
static uint64_t* total;
static bool adds(size_t j, const void* c) { const T* v = ((const Seq*) c)->v; return total[j + 1] == total[j] + (v[2 * j + 1] - v[2 * j]) && total[j] <= v[2 * j] && total[j + 1] <= N; }
static bool counted(uint64_t c, size_t i) { return i % 2 == 0 && i <= found_in.n && c == total[i / 2]; }
extern "C" bool inv_count_p(const T* cur, const T*, uint64_t c, uint64_t) { return counted(c, cur - found_in.v); }
extern "C" bool inv_count_n(uint64_t cur, uint64_t, uint64_t c, uint64_t) { return counted(c, cur); }
ENTRY check_count() {
  Any a; any_set(a);
  total = (uint64_t*) vc_alloc("total", 8 * ((a.s0.n >> 1) + 1), 8);
#ifdef VC_NATIVE
  total[0] = 0;
  for (size_t j = 0; j < a.s0.n / 2; ++j) total[j + 1] = total[j] + (a.s0.v[2 * j + 1] - a.s0.v[2 * j]);
#endif
  vc_assume(total[0] == 0);
  vc_forall(total, 8, 0, a.s0.n >> 1, adds, &a.s0);
#ifndef VC_NATIVE
  set_vec(a.set->vec, const_cast<T*>(a.s0.v), a.s0.n, a.s0.n);   // counted where it lies
#endif
  PROVE("the size of a set is the number of its points", a.set->count() == total[a.s0.n >> 1]);
}

// ---- equality: the contract of vector equality, and what it means for the members
static size_t first_difference; static bool vec_equal;
extern "C" bool contract_vec_equal(const Vec*, const Vec*) { return vec_equal; }
ENTRY check_equal() {
  Any a, b; any_set(a); any_set(b);
  vc_assume(a.x == b.x);
  const size_t n = a.s0.n < b.s0.n ? a.s0.n : b.s0.n;
#ifdef VC_NATIVE
  if (vc_rand(2)) { b.set->vec = a.set->vec; b.s0 = a.s0; }
  a.at = Split{a.s0.v, 0, a.s0.n, a.x, true}; b.at = Split{b.s0.v, 0, b.s0.n, a.x, true};
  a.had = splitpoint(a.at, "") & 1; b.had = splitpoint(b.at, "") & 1;
  if (*a.set == *b.set) { PROVE("equal sets have the same members", a.had == b.had); return; }
  size_t i = 0; while (i < n && a.s0.v[i] == b.s0.v[i]) ++i;
#else
  any_member(a); any_member(b);
  const size_t i = first_difference = vc_range("difference", 0, 1u << 22);
  vc_assume(i <= n);
  for (int k = 0; k < 2; ++k) {
    // up to the first difference the sequences are the same
    const size_t j = k ? b.at.k : a.at.k;
    if (j && j - 1 < i) vc_assume(a.s0.v[j - 1] == b.s0.v[j - 1]);
    if (j < i) vc_assume(a.s0.v[j] == b.s0.v[j]);
  }
  if (i < n) vc_assume(a.s0.v[i] != b.s0.v[i]);
  vec_equal = i == n && a.s0.n == b.s0.n;
  PROVE("sets are compared by their end points", (*a.set == *b.set) == vec_equal && (*a.set != *b.set) == !vec_equal);
  if (vec_equal) { PROVE("equal sets have the same members", a.had == b.had); vc_cover("equal"); return; }
#endif
  const T w = i < n ? (a.s0.v[i] < b.s0.v[i] ? a.s0.v[i] : b.s0.v[i]) : i < a.s0.n ? a.s0.v[i] : b.s0.v[i];
  PROVE("sets that differ differ within the universe", w < N);
  if (a.x == w) { PROVE("sets that differ have different members", a.had != b.had); vc_cover("different"); }
}

// ---- level 2: a set seen at one arbitrary point x; whether it has x is kept where its content would begin
static T px;
static uint8_t& has(const UnicodeSet& s) { return *(uint8_t*) &s; }
static UnicodeSet& abstract(void* p) { memset(p, 0, sizeof(UnicodeSet)); has(*(UnicodeSet*) p) = vc_range("has", 0, 1); return *(UnicodeSet*) p; }
extern "C" {
void contract_insert(UnicodeSet* s, const T* f, const T* l) {
  PROVE("a range inserted lies in the universe", *f <= *l && *l <= N);
  if (*f <= px && px < *l) has(*s) = 1;
}
void contract_flip(UnicodeSet* s) { has(*s) = !has(*s); }
bool contract_test(const UnicodeSet* s, size_t pos) { PROVE("membership is asked at the point", pos == px); return has(*s); }
UnicodeSet* contract_or(UnicodeSet* s, const UnicodeSet* r) { has(*s) = has(*s) | has(*r); return s; }
void contract_copy(Vec* s, const Vec* r) { *(uint64_t*) s = *(const uint64_t*) r; }
Vec* contract_assign(Vec* s, const Vec* r) { *(uint64_t*) s = *(const uint64_t*) r; return s; }
void contract_gone(Vec*) {}
void contract_vclear(Vec* s) { *(uint64_t*) s = 0; }
}
#ifdef VC_NATIVE
static UnicodeSet* some_set() {
  Any* a = new Any; any_set(*a);
  return a->set;
}
#define SET(v) UnicodeSet& v = *some_set()
#define HAS(v) (v).test(px)
#else
#define SET(v) alignas(8) static unsigned char v##_room[sizeof(UnicodeSet)]; UnicodeSet& v = abstract(v##_room)
#define HAS(v) has(v)
#endif
ENTRY check_algebra() {
  px = any_point();
  SET(a); SET(b);
  const bool p = HAS(a), q = HAS(b);
  PROVE("complement", HAS(~a) == !p && HAS(a) == p);
  PROVE("intersection", HAS(a & b) == (p && q) && HAS(a) == p && HAS(b) == q);
  PROVE("union", HAS(a | b) == (p || q) && HAS(a) == p && HAS(b) == q);
  PROVE("difference", HAS(a - b) == (p && !q) && HAS(a) == p && HAS(b) == q);
  PROVE("symmetric difference", HAS(a ^ b) == (p != q) && HAS(a) == p && HAS(b) == q);
}
ENTRY check_algebra_here() {
  px = any_point();
  SET(a); SET(b);
  const bool p = HAS(a), q = HAS(b), self = vc_bool("self");
  const int op = vc_range("op", 0, 2);
  UnicodeSet& c = self ? a : b;
  const bool r = self ? p : q;
  UnicodeSet* ret = op == 0 ? &(a &= c) : op == 1 ? &(a -= c) : &(a ^= c);
  PROVE("a set combined in place has the members of the combination", HAS(a) == (op == 0 ? (p && r) : op == 1 ? (p && !r) : (p != r)) && ret == &a);
  if (!self) PROVE("the other set is left alone", HAS(b) == q);
}
// union in place walks over the runs of the other set
static UnicodeSet* target; static uint8_t had_at_first; static Split there;
static bool ored(size_t i) { return i % 2 == 0 && i <= there.n && has(*target) == (had_at_first | ((there.k & 1) && there.k <= i)); }
extern "C" bool inv_ored_p(const T* cur, const T*) { return ored(cur - there.v); }
extern "C" bool inv_ored_n(uint64_t cur, uint64_t) { return ored(cur); }
extern "C" bool inv_ored_h(uint64_t cur, uint64_t) { return ored(2 * cur); }
ENTRY check_union() {
  Any b; any_set(b); any_member(b);
  px = b.x;
  SET(a);
  const bool p = HAS(a);
#ifndef VC_NATIVE
  target = &a; had_at_first = p; there = b.at;
  set_vec(b.set->vec, const_cast<T*>(b.s0.v), b.s0.n, b.s0.n);
#endif
  UnicodeSet* ret = &(a |= *b.set);
  PROVE("union in place has the members of both", HAS(a) == (p || b.had) && ret == &a);
}
ENTRY check_union_self() {
  px = any_point();
  SET(a);
  const bool p = HAS(a);
#ifndef VC_NATIVE
  Vec v0 = a.vec;
#endif
  a |= a;
  PROVE("a set joined with itself stays", HAS(a) == p);
}
ENTRY check_points() {
  px = any_point();
  SET(a);
  const bool p = HAS(a), value = vc_bool("value");
  const int op = vc_range("op", 0, 9);
  T f = vc_range("first", 0, N), l = vc_range("last", 0, N);
  const bool in = f <= px && px < l;
  if (op <= 1) vc_assume(f <= l); else vc_assume(f < N);
  bool want = p;
  switch (op) {
  case 0: a.erase(f, l); want = p && !in; break;
  case 1: a.insert(UnicodeSet::range(f, l)); want = p || in; break;
  case 2: a.set(f, value); want = px == f ? value : p; break;
  case 3: a.set(f); want = px == f ? true : p; break;
  case 4: a.reset(f); want = px == f ? false : p; break;
  case 5: vc_assume(f == px); a.flip(f); want = !p; break;
  case 6: a[f] = value; want = px == f ? value : p; break;
  case 7: vc_assume(l == px); a[f] = a[l]; break;
  case 8: vc_assume(f == px); a[f].flip(); want = !p; break;
  case 9: vc_assume(f == px); PROVE("a place read is the membership of its point", (bool) a[f] == p && ~a[f] == !p); break;
  }
  PROVE("changing points or ranges changes exactly those", HAS(a) == want);
}
ENTRY check_made() {
  px = any_point();
  const T f = vc_range("first", 0, N), l = vc_range("last", 0, N);
  vc_assume(f <= l);
  UnicodeSet a(f, l), b;
  PROVE("a set made from a range has its points", HAS(a) == (f <= px && px < l));
  PROVE("a set made from nothing is empty", !HAS(b));
  UnicodeSet c(a);
  PROVE("a copy has the same points", HAS(c) == HAS(a));
  b = a;
  PROVE("an assigned set has the same points", HAS(b) == HAS(a));
#ifndef VC_NATIVE
  memset((void*) &a, 0, sizeof a); memset((void*) &b, 0, sizeof b); memset((void*) &c, 0, sizeof c);
#endif
}

// ---- sets made from lists and bit sets, and compared with bit sets
static const T* items; static size_t n_items, item_pairs, hit_item; static bool hit_some;
extern "C" void contract_reserve(Vec*, size_t) {}
// whether px is among the items before i: there is such an item exactly if one was met (hit_item: the first)
static bool item_has(size_t i) { return item_pairs ? (items[2 * i] <= px) & (px < items[2 * i + 1]) : items[i] == px; }
// (no branches: facts about all items are used wherever an item is read)
static bool misses1(size_t i, const void*) { const T x = items[i]; return (x < N) & ((i >= hit_item) | (x != px)); }
static bool misses2(size_t i, const void*) { const T x = items[2 * i], y = items[2 * i + 1]; return (x <= y) & (y <= N) & ((i >= hit_item) | (px < x) | (y <= px)); }
static bool listed(size_t i) { return i <= n_items && has(*target) == (i > hit_item); }
extern "C" bool inv_listed_p(const T* cur, const T*) { return ((const char*) cur - (const char*) items) % (item_pairs ? 8 : 4) == 0 && listed((cur - items) / (item_pairs ? 2 : 1)); }
extern "C" bool inv_listed_n(uint64_t cur, uint64_t) { return listed(cur); }
static void from_list(bool pairs) {
  px = any_point();
  n_items = vc_range("items", 0, BIG(1u << 20, 6));
  item_pairs = pairs;
  T* w = (T*) vc_alloc("list", (pairs ? 8 : 4) * n_items, 4);
  items = w;
#ifdef VC_NATIVE
  for (size_t i = 0; i < n_items; ++i) {
    if (pairs) { w[2 * i] = vc_rand(3) ? vc_rand(12) : vc_rand(N + 1); w[2 * i + 1] = vc_rand(2) ? N - vc_rand(3) : w[2 * i] + vc_rand(4); if (w[2 * i + 1] < w[2 * i] || w[2 * i + 1] > N) w[2 * i + 1] = w[2 * i]; }
    else w[i] = vc_rand(3) ? vc_rand(12) : vc_rand(N);
  }
  if (vc_rand(2) && n_items) px = w[vc_rand(2) * (n_items - 1)] % N;
  hit_item = 0; while (hit_item < n_items && !item_has(hit_item)) ++hit_item;
  std::vector<UnicodeSet::range> r;
  if (pairs) for (size_t i = 0; i < n_items; ++i) r.push_back({w[2 * i], w[2 * i + 1]});
  std::initializer_list<UnicodeSet::range> rs(r.data(), r.size());
#else
  hit_item = vc_range("hit", 0, 1u << 20);
  vc_assume(hit_item <= n_items);
  if (hit_item < n_items) vc_assume(item_has(hit_item));
  if (pairs) vc_forall(items, 8, 0, n_items, misses2, 0); else vc_forall(items, 4, 0, n_items, misses1, 0);
  std::initializer_list<UnicodeSet::range> rs((const UnicodeSet::range*) items, n_items);
#endif
  std::initializer_list<T> ts(items, n_items);
#ifdef VC_NATIVE
  UnicodeSet s = pairs ? UnicodeSet(rs) : UnicodeSet(ts);
#else
  alignas(8) static unsigned char room[sizeof(UnicodeSet)];
  UnicodeSet& s = *(UnicodeSet*) room;
  target = &s;
  if (pairs) new (room) UnicodeSet(rs); else new (room) UnicodeSet(ts);
#endif
  PROVE("a set made from a list has the points listed", HAS(s) == (hit_item < n_items));
}
ENTRY check_list_points() { from_list(false); }
ENTRY check_list_ranges() { from_list(true); }

// a bit set: the runs are found in order; what was put in so far ends before the place reached
static std::bitset<256> bits; static T run_end; static bool run_bad;
extern "C" T* contract_run(Vec* v, T* at, const T* l, size_t n) {
  PROVE("runs are put in two ends at a time", n == 2 && l[0] < l[1] && l[1] <= 256);
  PROVE("runs rise and do not touch", run_end == ~0u || run_end < l[0]);
  run_end = l[1];
  UnicodeSet* s = (UnicodeSet*) v;
  if (l[0] <= px && px < l[1]) has(*s) = 1;
  return at;
}
extern "C" T* contract_end(Vec*) { return 0; }
static bool bit(T i) { return bits[i & 255]; }
extern "C" {
// everything before i that is set was put in; nothing put in reaches i (a run ended before i - 1)
bool inv_bits_out(uint32_t i, uint32_t) { return i <= 257 && (run_end == ~0u ? true : run_end < i && run_end <= 256) && has(*target) == (px < i && px < 256 && bit(px)); }
bool inv_bits_in(uint32_t j, uint32_t, uint64_t i) { return i < j && j <= 256 && (px < i || px >= j || bit(px)); }
bool inv_bits_at(uint32_t q, uint32_t, uint64_t i) { return i <= q && q < 256 && (px < i || px > q || bit(px)); }
}
ENTRY check_from_bits() {
  px = vc_bool("high") ? any_point() : vc_range("low", 0, 255);
  for (int k = 0; k < 4; ++k) ((uint64_t*) &bits)[k] = vc_u64("word");
#ifdef VC_NATIVE
  UnicodeSet s(bits);
  prove_canonical(now(s));
#else
  alignas(8) static unsigned char room[sizeof(UnicodeSet)];
  UnicodeSet& s = *(UnicodeSet*) room;
  target = &s;
  run_end = ~0u;
  new (room) UnicodeSet(bits);
#endif
  PROVE("a set made from a bit set has the points of the bits set", HAS(s) == (px < 256 && bit(px)));
}
