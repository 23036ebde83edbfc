// C12: a pattern table is written record by record, each where the lengths of those before put it, and read back so.
#include "vc.h"
#include <new>
#include <string>
#include <vector>
#include "src/lib/pattern_map.cpp"

static LG_PatternInfo* pats; static size_t n;     // the table
static char* heap; static size_t H;               // where its strings are
static uint64_t *plen, *clen;                     // the lengths of the strings of each record
static uint64_t* off;                             // where record j begins: the sum of the sizes of those before
static size_t J, pos; static uint8_t want;        // a byte of record J, and what it must be
static char* out; static size_t outn;
static const char* in;                            // the buffer read, if any
static size_t read_strlen(const char*);
static size_t t; static uint64_t second;          // the record whose strings are measured next, and which of them

static size_t at(const char* s) { return s - heap; }
// what is known of record j
static bool step(size_t j) { return (off[j + 1] == off[j] + plen[j] + clen[j] + 10) & (off[j + 1] <= off[n]) & (off[j] <= off[j + 1]) & (plen[j] < H) & (clen[j] < H); }
static bool place(const char* s, uint64_t len) { return (at(s) < H) & (at(s) + len < H); }
// the records come one after the other, as every step says (see check_offsets)
static bool ordered(size_t j) { return ((j <= J) | (off[j] >= off[J + 1])) & ((j >= J) | (off[j + 1] <= off[J])); }
static void look(size_t j) {
  vc_assume(step(j)); vc_assume(ordered(j));
  vc_assume(place(pats[j].Pattern, plen[j])); vc_assume(place(pats[j].EncodingChain, clen[j]));
}

extern "C" {
size_t symbolic_strlen(const char* s) {
  if (in) return read_strlen(s);
  PROVE("the strings of each record are measured in turn", t < n && s == (second ? pats[t].EncodingChain : pats[t].Pattern));
  look(t);
  const size_t l = second ? clen[t] : plen[t];
  t += second; second ^= 1;
  return l;
}
size_t contract_size(const PatternMap*) { return off[n]; }
void contract_buffer(std::vector<char>* v, size_t size, const void*) {
  outn = size;
  out = (char*) vc_alloc("buffer", size, 1);
  auto& d = v->_M_impl; d._M_start = out; d._M_finish = d._M_end_of_storage = out + size;
}
bool inv_record(const LG_PatternInfo* cur, const LG_PatternInfo* b) { return (b == pats) & (second == 0) & (t <= n) & ((const char*) cur - (const char*) pats == (ptrdiff_t) (24 * t)); }
bool inv_sum(size_t s, size_t) { return s == off[t]; }
bool inv_at(const char* i, const char* b) { return (b == out) & ((size_t) (i - out) == off[t]); }
// (stated once: beside the variable which begins at the table)
bool inv_byte(const LG_PatternInfo*, const LG_PatternInfo* b) { return (b == pats) & ((t != J + 1) | ((uint8_t) out[pos] == want)); }
bool inv_kept(const LG_PatternInfo*, const LG_PatternInfo* b) { return (b == pats) & ((t <= J + 1) | ((uint8_t) out[pos] == want)); }
}

static PatternMap* any_table() {
  n = vc_range("patterns", 1, BIG(1 << 26, 4));
  H = vc_range("heap", 1, BIG(1 << 28, 20));
  pats = (LG_PatternInfo*) vc_alloc("patterns", n * sizeof(LG_PatternInfo), 8);
  heap = (char*) vc_alloc("heap", H, 1);
  plen = (uint64_t*) vc_alloc("lengths", n * 8, 8);
  clen = (uint64_t*) vc_alloc("chain lengths", n * 8, 8);
  off = (uint64_t*) vc_alloc("offsets", (n + 1) * 8, 8);
  J = vc_range("J", 0, BIG(1 << 26, 4));
  vc_assume(J < n);
  vc_assume(off[0] == 0 && off[n] <= 1ul << 35);
  static PatternMap m(0);
  auto& d = m.Patterns._M_impl; d._M_start = pats; d._M_finish = d._M_end_of_storage = pats + n;
  m.Shared = true;
  t = second = 0; in = nullptr;
  return &m;
}
alignas(8) static char room[64];
static void write(const PatternMap* m) {
  vc_assume(off[J] <= pos && pos < off[J + 1]);
  new (room) std::vector<char>(m->marshall());
  std::vector<char>& v = *(std::vector<char>*) room;
  PROVE("as many bytes as announced", v.size() == off[n] && v.data() == out);
}

ENTRY check_table_size() {
  const PatternMap* m = any_table();
  PROVE("the announced size", m->bufSize() == off[n]);
}
ENTRY check_write_pattern() {
  const PatternMap* m = any_table();
  const size_t k = vc_range("k", 0, BIG(1 << 28, 20));
  look(J);
  vc_assume(k <= plen[J]);
  pos = off[J] + k; want = pats[J].Pattern[k];
  write(m);
  PROVE("the text of each pattern is in its place, and its end", (uint8_t) out[pos] == want);
}
ENTRY check_write_chain() {
  const PatternMap* m = any_table();
  const size_t k = vc_range("k", 0, BIG(1 << 28, 20));
  look(J);
  vc_assume(k <= clen[J]);
  pos = off[J] + plen[J] + 1 + k; want = pats[J].EncodingChain[k];
  write(m);
  PROVE("the encoding chain of each pattern is in its place, and its end", (uint8_t) out[pos] == want);
}
ENTRY check_write_index() {
  const PatternMap* m = any_table();
  const size_t k = vc_range("k", 0, 7);
  look(J);
  pos = off[J] + plen[J] + 1 + clen[J] + 1 + k; want = ((const uint8_t*) &pats[J].UserIndex)[k];
  write(m);
  PROVE("the index of each pattern is in its place", (uint8_t) out[pos] == want);
}

// ---- what the steps say together: records come one after the other
static size_t from;
extern "C" bool inv_after(size_t j, size_t) { return (j >= from) & (off[from] <= off[j]) & (off[j] <= j << 30) & (j <= n); }
ENTRY check_offsets() {
  any_table();
  from = vc_range("from", 0, BIG(1 << 26, 4));
  const size_t to = vc_range("to", 0, BIG(1 << 26, 4));
  vc_assume(from < to && to <= n && off[from] <= from << 30);
  for (size_t j = from; j < to; ++j) // the step itself, without what is shown here
    vc_assume((off[j + 1] == off[j] + plen[j] + clen[j] + 10) & (plen[j] < H) & (clen[j] < H));
  PROVE("a record after another begins behind it", off[from] <= off[to] && off[to] <= to << 30);
}
// a string written with its end is as long when it is read
ENTRY check_copied() {
  const size_t l = vc_range("length", 0, BIG(1 << 28, 8)), k = vc_range("k", 0, BIG(1 << 28, 8));
  vc_assume(k <= l);
  const char* s = (const char*) vc_alloc("string", l + 1, 1);
  char* d = (char*) vc_alloc("copy", l + 1, 1);
  vc_assume((s[k] == 0) == (k == l)); // its length is l
  memcpy(d, s, l + 1);
  PROVE("its copy has that length", (d[k] == 0) == (k == l));
}

// ---- reading
static PatternMap* made;
extern "C" {
void contract_use(PatternMap* m, const char* pattern, const char* chain, uint64_t index) {
  PROVE("one record is added for each in the buffer", t < n);
  vc_assume(step(t));
  PROVE("to the table made", m == made);
  PROVE("the strings and the index of the record", pattern == in + off[t] && chain == in + off[t] + plen[t] + 1 && index == *(const uint64_t*) (in + off[t] + plen[t] + clen[t] + 2));
  ++t;
}
void contract_new_table(PatternMap* m, unsigned) {
  PROVE("one table is made", !made);
  made = m;
  m->Shared = false;
  auto& d = m->Patterns._M_impl; d._M_start = d._M_finish = d._M_end_of_storage = nullptr;
}
bool inv_next(const char* i, const char*) { return (t <= n) & ((size_t) (i - in) == off[t]) & (i >= in); }
}
size_t read_strlen(const char* s) {
  PROVE("a string of the next record is measured", t < n);
  vc_assume(step(t));
  PROVE("from where it begins", s == in + off[t] || s == in + off[t] + plen[t] + 1);
  return s == in + off[t] ? plen[t] : clen[t];
}
ENTRY check_read_table() {
  any_table();
  if (vc_bool("none")) n = 0; 
  in = (const char*) vc_alloc("buffer", off[n], 1);
  made = nullptr;
  new (room) std::unique_ptr<PatternMap>(PatternMap::unmarshall(in, off[n]));
  PatternMap* m = ((std::unique_ptr<PatternMap>*) room)->get();
  if (t < n) vc_assume(step(t));
  PROVE("every record is read", t == n);
  PROVE("into the table returned, which refers to the buffer", m && m == made && m->Shared);
}
