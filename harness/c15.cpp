// C15: the window decoded around a hit. Decoders by contract: each call of next() yields the value which begins where
// the one before ended, until the end of the range (C03). The vectors of values by contract: what is appended to them
// is checked when it is appended, so what is in them is one run of values after the other, without a gap.
#include "vc.h"
#include <cstddef>
#include <new>
#include <vector>
#include "../../repo/src/lib/c_api_util.cpp"
#include "../../repo/src/lib/lightgrep_c_util.cpp"
#include "src/lib/decoders/decoder.cpp"

typedef std::pair<int32_t, const byte*> Value;
typedef std::vector<Value> Values;

static const byte *bbeg, *bend, *hbeg, *hend;  // the buffer and the hit in it
static size_t leading, trailing;
static uint32_t longest;                       // the most bytes of a value
static const byte *cur, *start, *rend;         // the decoder: where it is, and its range
static int32_t got; static const byte *gbeg, *gend; static uint64_t fresh; // what it yielded last, and whether that was kept
static Values *win, *lead;                     // the window; the leading values tried
static Value *wbuf, *lbuf;
static const byte *lbeg, *lend;                // lead: where its values begin and end
static const byte *wend;                       // window: where its values end
static uint64_t chosen;                        // 1 when leading values were put into the window
static uint64_t hits, after, closed;           // values of the hit and behind it; 1 when the window is closed
static LG_Window* range;                       // where the hit is said to be
static uint64_t* bad;                          // the number of bad values among the first j of the window
static bool tally(size_t j, const void*) { return bad[j + 1] == bad[j] + (wbuf[j].first < 0); }

struct AnyDecoder: Decoder {
  Decoder* clone() const override { return nullptr; }
  std::string name() const override { return std::string(); }
  uint32_t maxByteLength() const override { return longest; }
  void reset(const byte* b, const byte* e) override {
    PROVE("what is decoded is in the buffer", bbeg <= b && b <= e && e <= bend);
    cur = start = b; rend = e; fresh = 0;
  }
  Value next() override {
    PROVE("no value is dropped", !fresh);
    gbeg = cur;
    if (cur == rend) got = Decoder::END;
    else {
      got = (int32_t) vc_u32("value");
      vc_assume(got != Decoder::END);
      cur += vc_range("length", 1, 8);
      vc_assume(cur <= rend && (size_t) (cur - gbeg) <= longest);
      fresh = 1;
    }
    gend = cur;
    return Value(got, gbeg);
  }
};

static size_t size(const Values* v) { return ((const char*) v->_M_impl._M_finish - (const char*) v->_M_impl._M_start) / sizeof(Value); }
static bool whole(const Values* v) { return (((const char*) v->_M_impl._M_finish - (const char*) v->_M_impl._M_start) & 15) == 0; }
extern "C" {
void contract_values(Values* v) { lead = v; auto& d = v->_M_impl; d._M_start = d._M_finish = d._M_end_of_storage = lbuf; }
void contract_gone(Values*) {}
void contract_clear(Values* v) { v->_M_impl._M_finish = v->_M_impl._M_start; if (v == lead) lbeg = lend = nullptr; else wend = hbeg; }
void contract_push(Values* v, const Value* p) {
  PROVE("the window ends with its end mark", v != win || !closed);
  if (v == win && p->first == Decoder::END) {
    closed = 1;
    PROVE("the end mark is at the end of the last value", p->second == wend);
  }
  else {
    PROVE("a value is kept once", fresh);
    PROVE("what is kept is the value decoded last", p->first == got && p->second == gbeg);
    fresh = 0;
    if (v == win) {
      PROVE("the values of the window follow each other", p->second == wend);
      wend = gend;
      PROVE("the values behind the hit come last", p->second >= hend || after == 0);
      if (p->second < hend) ++hits; else ++after;
      vc_assume(wbuf[size(win)].first == p->first); // (the values in memory are any: these are those appended)
    }
    else {
      PROVE("the leading values follow each other", lend == nullptr || p->second == lend);
      if (lend == nullptr) lbeg = p->second;
      lend = gend;
    }
  }
  v->_M_impl._M_finish = v->_M_impl._M_finish + 1;
}
Value* contract_pad(Values* v, const Value* at, const int* first, const byte* const* second) {
  PROVE("bytes are put before the leading values", v == lead && at == v->_M_impl._M_start);
  PROVE("they are of the buffer, and those right before", *second >= bbeg && *second + 1 == lbeg);
  PROVE("an undecoded byte is an error which carries it", *first == -(int32_t) **second - 1);
  lbeg = *second;
  v->_M_impl._M_finish = v->_M_impl._M_finish + 1;
  return (Value*) at;
}
void contract_find(const Value** ret, const Value* const* from, const Value* const* to) { // reverse iterators
  const size_t n = ((const char*) *from - (const char*) *to) / sizeof(Value), k = vc_range("good", 0, BIG(1ul << 32, 50));
  vc_assume(k <= n);
  *ret = *from - k;
}
void contract_assign(Values* v, const Value* from, const Value* to) {
  auto& d = lead->_M_impl;
  PROVE("the leading values of the window are the last of those decoded", v == win && to == d._M_finish && d._M_start <= from && from <= to);
  PROVE("they end at the hit", lend == hbeg && lbeg >= bbeg);
  PROVE("there are at most as many as asked for", (size_t) (to - from) <= leading);
  PROVE("fewer only if the buffer begins there", (size_t) (to - from) == leading || lbeg == bbeg);
  chosen = 1;
  v->_M_impl._M_finish = v->_M_impl._M_start + (to - from);
}
// no value is in hand, and what is decoded next is in the buffer
bool inv_decoder() { return (fresh == 0) & (bbeg <= start) & (start <= cur) & (cur <= rend) & (rend <= bend); }
// before the hit: of the window there is nothing but leading values
bool inv_before() { return (wend == hbeg) & (hits == 0) & (after == 0) & (size(win) <= leading) & (size(win) <= (size_t) (hbeg - bbeg)) & (win->_M_impl._M_start == wbuf); }
bool inv_open() { return whole(win) & closed == 0; }
bool inv_lead() { return whole(lead) & lead->_M_impl._M_start == lbuf; }
bool inv_room() { return size(lead) <= (size_t) (hbeg - bbeg); }
// leading values are tried from l on
bool inv_l_phi(const byte* l, const byte* l0) { return (l0 == hbeg - 1) & (l < hbeg) & (l + 1 >= bbeg); }
bool inv_chosen(const byte* l, const byte* l0, uint32_t m, uint32_t) { return (l0 == hbeg - 1) & ((chosen == 1) | ((l == hbeg - 1) & (m == 0) & (chosen == 0))); }
bool inv_run() { return (rend == hbeg) & (start < hbeg) & (((lend == nullptr) & (cur == start) & (size(lead) == 0)) | ((lend == cur) & (lbeg == start) & (size(lead) <= (size_t) (cur - start)))); }
bool inv_pad_phi(const byte* b, const byte* b0) { return (b0 + 1 == start) & (b + 1 == lbeg) & (lbeg >= bbeg) & (lbeg < hbeg) & (lend == hbeg) & (fresh == 0) & (size(lead) <= (size_t) (hbeg - lbeg)); }
// the hit
bool inv_hit() { return (start == hbeg) & (rend == bend) & (cur == wend) & (after == 0) & (hits <= (size_t) (cur - hbeg)) & (size(win) == range->begin + hits) & (range->begin <= leading) & (range->begin <= (size_t) (hbeg - bbeg)) & (win->_M_impl._M_start == wbuf); }
// behind the hit: a value is in hand
bool inv_value_stack(const byte* p, const byte*) { return (p == gbeg) & (p == wend) & (p >= hend); }
bool inv_got_stack(int32_t v, int32_t) { return (v == got) & (fresh == (got != Decoder::END)); }
bool inv_left_phi(uint64_t n, uint64_t n0) { return (n0 == trailing) & (n + after == trailing); }
bool inv_trail() { return (start == hbeg) & (rend == bend) & (gend == cur) & (gbeg <= cur) & (cur <= rend) & (gbeg >= hbeg) & ((got != Decoder::END) | ((gbeg == cur) & (cur == rend))) & ((got == Decoder::END) | (gbeg < cur)) & (after <= trailing) &
  (hits + after <= (size_t) (gbeg - hbeg)) & (size(win) == range->end + after) & (range->end == range->begin + hits) & (range->begin <= leading) & (range->begin <= (size_t) (hbeg - bbeg)) & (win->_M_impl._M_start == wbuf); }
bool inv_count(const Value* p, const Value* p0, uint64_t n, uint64_t) { return (p0 == wbuf) & (p >= wbuf) & (p <= win->_M_impl._M_finish) & (((const char*) p - (const char*) wbuf) % 16 == 0) & (n == bad[((const char*) p - (const char*) wbuf) / 16 & ((1ul << 33) - 1)]); }
}
static Values any_window;
static void check(uint32_t bytes) {
  const size_t n = vc_range("size", 0, BIG(1ul << 30, 12));
  bbeg = (const byte*) vc_alloc("buffer", n, 1);
  const size_t h = vc_range("hit", 0, BIG(1ul << 30, 12)), e = vc_range("hit end", 0, BIG(1ul << 30, 12));
  vc_assume(h <= e && e <= n);
  bend = bbeg + n; hbeg = bbeg + h; hend = bbeg + e;
  leading = vc_u64("leading"); trailing = vc_u64("trailing");
  vc_assume(leading < 1ul << 40 && trailing < 1ul << 40);
  longest = bytes;
  wbuf = (Value*) vc_alloc("window", 1ul << 37, 8); lbuf = (Value*) vc_alloc("leading values", 1ul << 37, 8);
  bad = (uint64_t*) vc_alloc("tally", 1ul << 37, 8);
  vc_assume(bad[0] == 0);
  vc_forall(bad, 8, 0, 1ul << 33, tally, 0);
  win = &any_window; lead = nullptr;
  auto& d = win->_M_impl; d._M_start = d._M_finish = d._M_end_of_storage = wbuf;
  lbeg = lend = nullptr; wend = hbeg; hits = after = closed = fresh = chosen = 0;
  AnyDecoder dec;
  LG_Window dh{vc_u64("dh begin"), vc_u64("dh end")};
  range = &dh;
  const unsigned r = decode(bbeg, bend, hbeg, hend, leading, trailing, dec, dh, *win);
  PROVE("at most as many values before the hit as asked for", dh.begin <= leading);
  PROVE("the values of the hit are where it is said", dh.end == dh.begin + hits);
  PROVE("at most as many values behind the hit as asked for", after <= trailing);
  PROVE("the window contains the hit", wend >= hend);
  PROVE("as much before the hit as asked for, or all there is", chosen || leading == 0 || hbeg == bbeg);
  PROVE("as much behind the hit as asked for, or all there is", after == trailing || wend == bend);
  PROVE("and nothing else but an end mark", closed && size(win) == dh.end + after + 1);
  PROVE("the number of bad values is that in the window", r == (unsigned) bad[dh.end + after]);
}
// (a product of two unknowns is hard: one entry for each length)
ENTRY check_decode_1() { check(1); }
ENTRY check_decode_2() { check(2); }
ENTRY check_decode_4() { check(4); }
ENTRY check_decode_8() { check(8); }

// ---- the window as it is returned
static const char *text, *text_end, *encoding; static uint64_t offset; static LG_Window inner;
static size_t n;                               // the number of values in the window
static uint32_t nbad;
static DecoderFactory* factory; static AnyDecoder any_decoder;
static int32_t** characters; static size_t** offsets; static LG_Window *hit, *outer;
extern "C" {
void contract_decoder(std::shared_ptr<Decoder>* ret, DecoderFactory* f, const std::string*) {
  PROVE("the caller's decoders", f == factory);
  new (ret) std::shared_ptr<Decoder>(std::shared_ptr<Decoder>(), &any_decoder);
}
void contract_name(std::string*, const char* s, const void*) { PROVE("the caller's encoding", s == encoding); }
unsigned contract_decode(const byte* b, const byte* e, const byte* hb, const byte* he, size_t l, size_t t, Decoder* d, LG_Window* w, Values* v) {
  PROVE("the caller's buffer", b == bbeg && e == bend);
  PROVE("the caller's hit", hb == hbeg && he == hend);
  PROVE("as much context as the caller asks for", l == leading && t == trailing);
  PROVE("with the decoder of the caller's encoding", d == &any_decoder && w == hit);
  auto& i = v->_M_impl; i._M_start = wbuf; i._M_finish = i._M_end_of_storage = wbuf + n;
  return nbad;
}
bool all4_chars(size_t j, uint64_t i, uint64_t) { return (j >= i) | ((*characters)[j] == wbuf[j].first); }
bool all8_offs(size_t j, uint64_t i, uint64_t) { return (j >= i) | ((*offsets)[j] == (size_t) (wbuf[j].second - bbeg)); }
bool inv_both(uint64_t i, uint64_t, const Value* p, const Value* p0) { return (p0 == wbuf) & (i <= n) & ((const char*) p - (const char*) wbuf == (ptrdiff_t) (16 * i)); }
}
static void any_call() {
  const size_t m = vc_range("size", 0, BIG(1ul << 30, 12));
  text = (const char*) vc_alloc("buffer", m, 1); text_end = text + m;
  bbeg = (const byte*) text; bend = bbeg + m;
  offset = vc_u64("offset");
  const size_t h = vc_range("hit", 0, BIG(1ul << 30, 12)), e = vc_range("hit end", 0, BIG(1ul << 30, 12));
  vc_assume(h <= e && e <= m);
  inner.begin = offset + h; inner.end = offset + e;
  hbeg = bbeg + h; hend = bbeg + e;
  leading = vc_u64("leading"); trailing = vc_u64("trailing");
  encoding = (const char*) vc_alloc("encoding", 8, 1);
  factory = (DecoderFactory*) vc_alloc("factory", sizeof(DecoderFactory), 8);
  n = vc_range("values", 1, BIG(1ul << 28, 6));
  nbad = vc_u32("bad values");
}
ENTRY check_window() {
  any_call();
  wbuf = (Value*) vc_alloc("window", n * sizeof(Value), 8);
  int32_t* c = nullptr; size_t* o = nullptr; size_t len = 0; LG_Window dh;
  characters = &c; offsets = &o; hit = &dh;
  const unsigned r = readWindow(*factory, text, text_end, offset, &inner, encoding, leading, trailing, &c, &o, &len, &dh);
  PROVE("the bad values of the window", r == nbad);
  PROVE("all values of the window", len == n);
  const size_t k = vc_range("k", 0, BIG(1ul << 28, 6));
  vc_assume(k < n);
  vc_hint(k);
  PROVE("the characters of the window", c[k] == (k + 1 < n ? wbuf[k].first : LG_WINDOW_END));
  PROVE("the offsets of the window", o[k] == (size_t) (wbuf[k].second - bbeg));
}

// ---- the window as text
static int32_t* cps; static size_t* offs; static LG_Window hrange; static uint32_t repl;
static size_t done, ulen, upos; static uint8_t ubytes[4]; static char *utext, *ubuf; static size_t usize, marks[4], nmarks;
extern "C" {
size_t contract_utf8(int32_t c, char** at) {
  char* b = *at;
  PROVE("what was encoded is kept", upos == ulen);
  PROVE("each character in turn, an error or null by its replacement", done < n && c == (cps[done] > 0 ? cps[done] : (int32_t) repl));
  ++done;
  vc_havoc(ubytes, 4);
  for (int i = 0; i < 4; ++i) b[i] = ubytes[i];
  upos = 0; ubuf = b;
  return ulen = vc_range("bytes", 0, 4);
}
void contract_byte(std::vector<char>*, const char* c) {
  PROVE("the bytes of the character, in order", upos < ulen && (uint8_t) *c == ubytes[upos & 3]);
  ++upos;
}
bool inv_byte_phi(const char* p, const char* p0) { return (p0 == ubuf) & (p == ubuf + upos) & (upos <= ulen) & (ulen <= 4); }
bool inv_bytes_phi(uint64_t k, uint64_t k0) { return (k0 == ulen) & (k + upos == ulen); }
bool inv_encoded() { return (ubuf[0] == (char) ubytes[0]) & (ubuf[1] == (char) ubytes[1]) & (ubuf[2] == (char) ubytes[2]) & (ubuf[3] == (char) ubytes[3]); }
bool inv_chars_phi(const int32_t* i, const int32_t* i0) { return (i0 == cps) & (done <= n) & ((const char*) i - (const char*) cps == (ptrdiff_t) (4 * done)) & (upos == ulen); }
unsigned contract_window(DecoderFactory* f, const char* b, const char* e, uint64_t o, const LG_Window* in, const char* enc, size_t l, size_t t, int32_t** c, size_t** os, size_t* len, LG_Window* w) {
  PROVE("the caller's decoders and encoding", f == factory && enc == encoding);
  PROVE("the caller's buffer and hit", b == text && e == text_end && o == offset && in->begin == inner.begin && in->end == inner.end);
  PROVE("as much context as the caller asks for", l == leading && t == trailing);
  *c = cps; *os = offs; *len = n; *w = hrange;
  return nbad;
}
void contract_text(const int32_t* b, const int32_t* e, uint32_t r, char*, std::vector<char>* v) {
  PROVE("the characters in turn", b == cps + done && b <= e && (size_t) (e - cps) < n);
  PROVE("with the caller's replacement", r == repl);
  done = e - cps;
  const size_t more = vc_range("bytes", 0, BIG(1ul << 30, 20));
  auto& d = v->_M_impl;
  if (nmarks == 0) d._M_start = utext, d._M_end_of_storage = utext + (1ul << 33);
  PROVE("before the hit, the hit, and behind it", done == (nmarks == 0 ? hrange.begin : nmarks == 1 ? hrange.end : n - 1));
  usize += more;
  d._M_finish = utext + usize;
  marks[nmarks & 3] = usize;
  ++nmarks;
}
}
ENTRY check_text() {
  n = vc_range("characters", 0, BIG(1ul << 28, 6));
  cps = (int32_t*) vc_alloc("characters", n * 4, 4);
  repl = vc_u32("replacement");
  done = ulen = upos = 0;
  char buf[4];
  alignas(8) char room[sizeof(std::vector<char>)];
  std::vector<char>& v = *new (room) std::vector<char>();
  cp_range_to_utf8(cps, cps + n, repl, buf, v);
  PROVE("all characters are encoded", done == n && upos == ulen);
}
ENTRY check_encode() {
  const int32_t c = (int32_t) vc_u32("character");
  char buf[5] = {5, 5, 5, 5, 5}, *b = buf;
  const size_t l = cp_to_utf8(c, b);
  const bool valid = 0 <= c && c < 0x110000 && !(0xD800 <= c && c < 0xE000);
  PROVE("what is no character has no encoding", valid || l == 0);
  PROVE("a character has the shortest encoding which holds it", !valid || l == (c < 1 << 7 ? 1 : c < 1 << 11 ? 2 : c < 1 << 16 ? 3 : 4));
  const auto u = (const unsigned char*) buf;
  if (l == 1) PROVE("one byte", u[0] == c);
  if (l == 2) PROVE("two bytes", (u[0] >> 5) == 6 && (u[1] >> 6) == 2 && ((u[0] & 31) << 6 | (u[1] & 63)) == c);
  if (l == 3) PROVE("three bytes", (u[0] >> 4) == 14 && (u[1] >> 6) == 2 && (u[2] >> 6) == 2 && ((u[0] & 15) << 12 | (u[1] & 63) << 6 | (u[2] & 63)) == c);
  if (l == 4) PROVE("four bytes", (u[0] >> 3) == 30 && (u[1] >> 6) == 2 && (u[2] >> 6) == 2 && (u[3] >> 6) == 2 && ((u[0] & 7) << 18 | (u[1] & 63) << 12 | (u[2] & 63) << 6 | (u[3] & 63)) == c);
  PROVE("no more bytes are written", buf[4] == 5 && b == buf && (l > 2 || buf[3] == 5));
}
ENTRY check_context() {
  any_call();
  trailing = leading;
  cps = (int32_t*) vc_alloc("characters", n * 4, 4);
  offs = (size_t*) vc_alloc("offsets", n * 8, 8);
  utext = (char*) vc_alloc("text", 1ul << 33, 1);
  hrange.begin = vc_range("hit begin", 0, BIG(1ul << 28, 6)); hrange.end = vc_range("hit ends", 0, BIG(1ul << 28, 6));
  vc_assume(hrange.begin <= hrange.end && hrange.end < n);
  repl = vc_u32("replacement");
  done = usize = nmarks = 0;
  const size_t first = offs[0], last = offs[n - 1];
  const size_t k = vc_range("k", 0, BIG(1ul << 33, 20));
  vc_assume(k < 1ul << 33);
  const char* s = nullptr; LG_Window out, dh;
  const char u = utext[k];
  const unsigned r = hitContext(*factory, text, text_end, offset, &inner, encoding, leading, repl, &s, &out, &dh);
  PROVE("the bad values of the window", r == nbad);
  PROVE("all of the window is in the text", done + 1 == n);
  PROVE("the hit is where it is said in the text", dh.begin == marks[0] && dh.end == marks[1]);
  PROVE("the window is where it is said in the data", out.begin == offset + first && out.end == offset + last);
  if (k < usize) PROVE("the text", s[k] == u);
  PROVE("the end of the text", s[usize] == 0);
}
ENTRY check_entry() {
  any_call();
  alignas(16) static char room[sizeof(DecoderHandle)];
  LG_HDECODER h = (LG_HDECODER) room;
  factory = &h->Factory;
  cps = (int32_t*) vc_alloc("characters", n * 4, 4);
  offs = (size_t*) vc_alloc("offsets", n * 8, 8);
  hrange.begin = vc_u64("hit begin"); hrange.end = vc_u64("hit ends");
  int32_t* c = nullptr; size_t* o = nullptr; size_t len = 0; LG_Window dh; LG_Error* err = nullptr;
  const unsigned r = lg_read_window(h, text, text_end, offset, &inner, encoding, leading, trailing, &c, &o, &len, &dh, vc_bool("asked") ? &err : nullptr);
  PROVE("the window read is returned", r == nbad && c == cps && o == offs && len == n && dh.begin == hrange.begin && dh.end == hrange.end && !err);
}
extern "C" unsigned contract_hit_context(DecoderFactory* f, const char* b, const char* e, uint64_t o, const LG_Window* in, const char* enc, size_t w, uint32_t r, const char** utf8, LG_Window* out, LG_Window* dh) {
  PROVE("the caller's decoders and encoding", f == factory && enc == encoding);
  PROVE("the caller's buffer and hit", b == text && e == text_end && o == offset && in == &inner);
  PROVE("as much context as the caller asks for", w == leading && r == repl);
  *utf8 = utext; *out = *outer; *dh = hrange;
  return nbad;
}
ENTRY check_entry_context() {
  any_call();
  alignas(16) static char room[sizeof(DecoderHandle)];
  LG_HDECODER h = (LG_HDECODER) room;
  factory = &h->Factory;
  utext = (char*) vc_alloc("text", 8, 1);
  repl = vc_u32("replacement");
  LG_Window o{vc_u64("begin"), vc_u64("end")};
  outer = &o;
  hrange.begin = vc_u64("hit begin"); hrange.end = vc_u64("hit ends");
  const char* s = nullptr; LG_Window out, dh; LG_Error* err = nullptr;
  const unsigned r = lg_hit_context(h, text, text_end, offset, &inner, encoding, leading, repl, &s, &out, &dh, vc_bool("asked") ? &err : nullptr);
  PROVE("the context found is returned", r == nbad && s == utext && out.begin == o.begin && out.end == o.end && dh.begin == hrange.begin && dh.end == hrange.end && !err);
}
