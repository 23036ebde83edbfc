// C06: the search engine's sparse sets behave as sets under any history.
#include "vc.h"
#include <cstdint>
#include <limits>
#include <memory>
#include <new>
#include "sparseset.h"

// Representation invariant (N = capacity, n = number of elements):
//   the dense part D[N..N+n) lists labels below N, each label's low entry points back at its place,
//   and every low entry, stale or not, is at most N (so index arithmetic never wraps).
// Abstract view: the set of labels listed in the dense part.
struct Raw { uint32_t* d; uint32_t max, end; };
static Raw raw;                                          // what the hypotheses below talk about

static bool inv_dense(size_t k, const void*) {
  return raw.d[k] < raw.max && raw.d[raw.d[k]] == k - raw.max;
}
static bool inv_low(size_t k, const void*) { return raw.d[k] <= raw.max; }

alignas(SparseSet) static unsigned char room[sizeof(SparseSet)];

// any set that satisfies the invariant: this is every set any history can produce, because every
// operation below is shown to keep the invariant
static SparseSet& any_set() {
  SparseSet& s = *new (room) SparseSet(0);
  const uint32_t N = vc_range("N", 0, 0x3FFFFFFF);
  const uint32_t n = vc_range("n", 0, N);
  raw.d = (uint32_t*) vc_alloc("data", (size_t) N * 8, 4);
  raw.max = N; raw.end = N + n;
#ifdef VC_NATIVE
  if (vc_rand(4)) {                                      // a random history, so that the random drive meets valid sets
    for (uint32_t i = 0; i < N; ++i) raw.d[i] = vc_rand(N + 1);
    for (uint32_t i = 0; i < N; ++i) raw.d[N + i] = i;
    for (uint32_t i = N; i-- > 1; ) { uint32_t j = vc_rand(i + 1), t = raw.d[N + i]; raw.d[N + i] = raw.d[N + j]; raw.d[N + j] = t; }
    for (uint32_t i = 0; i < n; ++i) raw.d[raw.d[N + i]] = i;
  }
#endif
  s.Data.release();
  s.Data.reset(raw.d);
  s.Max = N; s.End = N + n;
  vc_forall(raw.d, 4, N, N + n, inv_dense, nullptr);
  vc_forall(raw.d, 4, 0, N, inv_low, nullptr);
  return s;
}

// e is in the abstract set exactly if some dense place k lists it; checked for an arbitrary k
static void prove_view(const SparseSet& s, uint32_t e, bool found) {
  if (found) {
    const uint32_t k = s.Data[e] + s.Max;
    PROVE("a label reported present is listed", s.Max <= k && k < s.End && s.Data[k] == e);
    vc_cover("present");
  }
  else {
    const uint32_t k = vc_u32("k");
    vc_assume(s.Max <= k && k < s.End);
    PROVE("a label reported absent is listed nowhere", s.Data[k] != e);
    vc_cover("absent");
  }
}

static void prove_inv(const SparseSet& s) {
  const uint32_t k = vc_u32("ik"), j = vc_u32("ij");
  PROVE("element count is within capacity", s.Max <= s.End && s.End - s.Max <= s.Max);
  if (s.Max <= k && k < s.End) {
    const uint32_t e = s.Data[k];
    PROVE("listed labels are below the capacity", e < s.Max);
    PROVE("every listed label points back at its place", s.Data[e] == k - s.Max);
  }
  if (j < s.Max) {
    PROVE("low entries stay in range", s.Data[j] <= s.Max);
  }
}

ENTRY check_find() {
  const SparseSet& s = any_set();
  const uint32_t e = vc_u32("e");
  vc_assume(e < s.Max);
  prove_view(s, e, s.find(e));
}

ENTRY check_find_pure() {
  const SparseSet& s = any_set();
  const uint32_t e = vc_u32("e"), j = vc_u32("j");
  vc_assume(e < s.Max && j < s.End);
  const uint32_t before = s.Data[j];
  s.find(e);
  PROVE("looking up changes nothing", s.Data[j] == before && s.Max == raw.max && s.End == raw.end);
}

// the number of elements is the number of distinct labels: no label is listed twice
ENTRY check_distinct() {
  const SparseSet& s = any_set();
  const uint32_t k = vc_u32("k"), l = vc_u32("l");
  vc_assume(s.Max <= k && k < s.End && s.Max <= l && l < s.End);
  if (s.Data[k] == s.Data[l]) {
    PROVE("no label is listed twice", k == l);
    vc_cover("same");
  }
  PROVE("the reported size is the length of the list", s.size() == s.End - s.Max);
}

// Inserting a label that is not present (every caller asks first).  There is room for it: n labels
// below N, all distinct (check_distinct) and another one below N, give n < N (pigeonhole principle).
ENTRY check_insert() {
  SparseSet& s = any_set();
  const uint32_t e = vc_u32("e"), x = vc_u32("x");
  vc_assume(e < s.Max && x < s.Max);
  const bool had_x = s.find(x);
  vc_assume(!s.find(e));
  vc_assume(s.size() < s.Max);
  s.insert(e);
  PROVE("inserting a new label adds one element", s.size() == raw.end - raw.max + 1);
  PROVE("the inserted label is present", s.find(e));
  PROVE("presence of every other label is unchanged", x == e || s.find(x) == had_x);
  PROVE("capacity is unchanged", s.Max == raw.max);
  prove_inv(s);
  vc_cover("inserted");
}

ENTRY check_insert_view() {
  SparseSet& s = any_set();
  const uint32_t e = vc_u32("e");
  vc_assume(e < s.Max && !s.find(e) && s.size() < s.Max);
  const uint32_t k = vc_u32("pk");
  vc_assume(s.Max <= k && k < s.End);
  const uint32_t before = s.Data[k];
  s.insert(e);
  PROVE("earlier elements stay listed in place", s.Data[k] == before);
  PROVE("the new element is listed last", s.Data[s.End - 1] == e);
}

ENTRY check_clear() {
  SparseSet& s = any_set();
  const uint32_t x = vc_u32("x");
  vc_assume(x < s.Max);
  s.clear();
  PROVE("a cleared set has no element", s.size() == 0);
  PROVE("a cleared set reports every label absent", !s.find(x));
  PROVE("capacity is unchanged", s.Max == raw.max);
  prove_inv(s);
  vc_cover("cleared");
}

ENTRY check_new() {
  const uint32_t N = vc_range("N", 0, 0x3FFFFFFF), x = vc_u32("x");
  SparseSet& s = *new (room) SparseSet(N);
  vc_assume(x < N);
  PROVE("a new set has the requested capacity", s.Max == N);
  PROVE("a new set has no element", s.size() == 0);
  PROVE("a new set reports every label absent", !s.find(x));
  prove_inv(s);
  vc_cover("made");
}

ENTRY check_resize() {
  SparseSet& s = any_set();
  const uint32_t N = vc_range("N2", 0, 0x3FFFFFFF), x = vc_u32("x");
#ifdef VC_NATIVE
  s.Data.release();                                      // not from operator new here
#endif
  s.resize(N);
  vc_assume(x < N);
  PROVE("a resized set has the requested capacity", s.Max == N);
  PROVE("a resized set has no element", s.size() == 0 && !s.find(x));
  prove_inv(s);
  vc_cover("resized");
}

#ifdef VC_NATIVE
// whole histories against a reference, from the public interface only
#include <set>
ENTRY native_history() {
  const uint32_t N = 1 + vc_range("N", 0, 40);
  SparseSet s(N);
  std::set<uint32_t> ref;
  for (int i = 0; i < 200; ++i) {
    const uint32_t op = vc_rand(40), e = vc_rand(N);
    if (op == 0) { s.clear(); ref.clear(); }
    else if (!ref.count(e)) { s.insert(e); ref.insert(e); }
    PROVE("size is the number of distinct labels", s.size() == ref.size());
    for (uint32_t x = 0; x < N; ++x) PROVE("present exactly if inserted since the last clearing", s.find(x) == (ref.count(x) > 0));
  }
}
#endif
