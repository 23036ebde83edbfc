// C13: line context around a hit has exact boundaries.
// nl[i] is the number of line feeds before position i (a ghost array); every loop is proved by induction over
// it, for buffers of any length and any number of lines.
#include "vc.h"
#include <cstring>
#include <climits>
#include <sstream>
#include "../../repo/src/cmd/hitwriter.cpp"

static const char* buf; static size_t len, hit; static size_t want; static uint64_t* nl;
static bool tallies(size_t i, const void*) { return (nl[i + 1] == nl[i] + (buf[i] == '\n')) & (nl[i] <= i); }
static void any_buffer() {
  len = vc_range("len", 0, BIG(1u << 30, 24));
  char* w = (char*) vc_alloc("buf", len, 1);
  buf = w;
  nl = (uint64_t*) vc_alloc("tally", 8 * (len + 1), 8);
#ifdef VC_NATIVE
  for (size_t i = 0; i < len; ++i) w[i] = "a\n\r\nb\r\n"[vc_rand(7)];
  nl[0] = 0; for (size_t i = 0; i < len; ++i) nl[i + 1] = nl[i] + (buf[i] == '\n');
#endif
  vc_assume(nl[0] == 0);
  vc_forall(nl, 8, 0, len, tallies, 0);
  vc_forall(buf, 1, 0, len, tallies, 0);
}
static bool at_end_of_line(size_t i) { return i && buf[i - 1] == '\n'; }

// ---- std::find by contract: the first line feed at or after b, else e; and the functions meet it
static size_t first_feed(size_t b, size_t e) {
#ifdef VC_NATIVE
  while (b < e && buf[b] != '\n') ++b; return b;
#else
  const size_t r = vc_range("feed", 0, 1u << 30);
  vc_assume(b <= r && r <= e && nl[r] == nl[b] && (r == e || buf[r] == '\n'));
  return r;
#endif
}
static size_t last_feed(size_t b, size_t e) {          // just after the last line feed in [b, e), else b
#ifdef VC_NATIVE
  while (e > b && buf[e - 1] != '\n') --e; return e;
#else
  const size_t r = vc_range("feed", 0, 1u << 30);
  vc_assume(b <= r && r <= e && nl[r] == nl[e] && (r == b || buf[r - 1] == '\n'));
  return r;
#endif
}
extern "C" {
const char* contract_find(const char* b, const char* e, const char* v) {
  PROVE("line ends are looked for in the buffer", buf <= b && b <= e && e <= buf + len && *v == '\n');
  return buf + first_feed(b - buf, e - buf);
}
void contract_rfind(const char** ret, const char* const* b, const char* const* e, const char* v) {
  PROVE("line ends are looked for backwards in the buffer", buf <= *e && *e <= *b && *b <= buf + len && *v == '\n');
  *ret = buf + last_feed(*e - buf, *b - buf);
}
bool inv_quiet(const char* cur, const char* init) {
  const size_t i = cur - buf, j = init - buf;
  return i <= len && j <= len && nl[i] == nl[j];
}
bool inv_trip(const char* cur, const char*, uint64_t trip, uint64_t) { return (uint64_t) (cur - buf) <= hit && trip == (hit - (cur - buf)) >> 2; }
bool inv_trip_r(const char* cur, const char*, uint64_t trip, uint64_t) { return (uint64_t) (cur - buf) <= len && trip == (uint64_t) (cur - buf) >> 2; }
}
static const char feed = '\n';
// (the library looks at four bytes at a time: the proofs split on what is left over)
static void forwards(int k) {
  any_buffer();
  const size_t b = vc_range("from", 0, BIG(1u << 30, 24)), e = hit = b + 4 * vc_range("fours", 0, BIG(1u << 28, 6)) + k;
  vc_assume(e <= len);
  const size_t r = std::find(buf + b, buf + e, feed) - buf;
  PROVE("the first line feed is found", b <= r && r <= e && nl[r] == nl[b] && (r == e || buf[r] == '\n'));
}
ENTRY check_find_0() { forwards(0); }
ENTRY check_find_1() { forwards(1); }
ENTRY check_find_2() { forwards(2); }
ENTRY check_find_3() { forwards(3); }
static void backwards(int k) {
  any_buffer();
  typedef std::reverse_iterator<const char*> R;
  const size_t e = 4 * vc_range("fours", 0, BIG(1u << 28, 6)) + k;
  vc_assume(e <= len);
  const size_t r = std::find(R(buf + e), R(buf), feed).base() - buf;
  PROVE("the last line feed is found", r <= e && nl[r] == nl[e] && (r == 0 || buf[r - 1] == '\n'));
}
ENTRY check_rfind_0() { backwards(0); }
ENTRY check_rfind_1() { backwards(1); }
ENTRY check_rfind_2() { backwards(2); }
ENTRY check_rfind_3() { backwards(3); }

// ---- context
// leading: before the first step, or just after a line feed with `left` lines to go, or at the start
static bool led(size_t i, uint64_t left, bool begun) {
  if (!begun) return true;
  return i <= hit && nl[i] <= nl[hit] && ((at_end_of_line(i) && nl[hit] - nl[i] + left == want) || (i == 0 && nl[hit] - nl[0] <= want - left && left <= want));
}
static bool lead(const char* cur, uint64_t left) { const size_t i = cur - buf; return left == want + 1 ? i == hit + 1 : led(i, left, true) && left <= want; }
static bool trailed(size_t i, uint64_t left) {
  return hit <= i && i <= len && nl[hit] <= nl[i] && ((i < len && buf[i] == '\n' && nl[i] - nl[hit] + left == want) || (i == len && nl[i] - nl[hit] <= want - left && left <= want));
}
static bool trail(const char* cur, uint64_t left) { const size_t i = cur - buf; return left == want + 1 ? i + 1 == hit : trailed(i, left) && left <= want; }
// (steps counted down or up, in 32 or 64 bits; where the function found its place or one before or after it)
extern "C" {
bool inv_lead_d64(const char* c, const char*, uint64_t n, uint64_t) { return lead(c, n); }
bool inv_lead_d32(const char* c, const char*, uint32_t n, uint32_t) { return want < 0x7fffffff && lead(c, n); }
bool inv_lead_u64(const char* c, const char*, uint64_t n, uint64_t) { return n <= want + 1 && lead(c, want + 1 - n); }
bool inv_trail_d64(const char* c, const char*, uint64_t n, uint64_t) { return trail(c, n); }
bool inv_trail_d32(const char* c, const char*, uint32_t n, uint32_t) { return want < 0x7fffffff && trail(c, n); }
bool inv_trail_u64(const char* c, const char*, uint64_t n, uint64_t) { return n <= want + 1 && trail(c, want + 1 - n); }
}
static void any_hit() {
  any_buffer();
  hit = vc_range("hit", 0, BIG(1u << 30, 24));
  vc_assume(hit <= len);
#ifdef VC_NATIVE
  want = vc_range("lines", 0, 8);
  const size_t odd[] = {INT_MAX - 1, INT_MAX, (size_t) INT_MAX + 1, UINT_MAX};
  if (!vc_rand(8)) want = odd[vc_rand(4)];
#else
  want = vc_range("lines", 0, ~0ull - 1);
#endif
}
static void leading_exact(const char* r) {
  const size_t i = r - buf;
  PROVE("leading context lies before the hit", i <= hit);
  PROVE("leading context starts at the start of a line", i == 0 || buf[i - 1] == '\n');
  PROVE("leading context has the lines wanted, or all there are", i ? nl[hit] - nl[i] == want : nl[hit] <= want);
}
static void trailing_exact(const char* r) {
  const size_t i = r - buf;
  PROVE("trailing context lies after the hit", hit <= i && i <= len);
  // the line's terminator: nothing at the end of the buffer, LF, or CRLF unless the CR belongs to the hit
  const bool cr = i < len && buf[i] == '\r' && i + 1 < len && buf[i + 1] == '\n' && nl[i] - nl[hit] == want;
  const bool lf = i < len && buf[i] == '\n' && nl[i] - nl[hit] == want && !(i > hit && buf[i - 1] == '\r');
  PROVE("trailing context ends where its last line ends, or at the end", cr || lf || (i == len && nl[len] - nl[hit] <= want));
}
ENTRY check_leading() { any_hit(); leading_exact(find_leading_context(buf, buf + hit, want)); vc_cover("leading"); }
ENTRY check_trailing() { any_hit(); trailing_exact(find_trailing_context(buf + hit, buf + len, want)); vc_cover("trailing"); }

// ---- the window handed to the decoder for a hit: the two functions above on the hit's place in the buffer
static size_t at_b, at_e, ctx_b, ctx_e; static uint64_t off; static LG_SearchHit the_hit; static bool asked, lines_before, lines_after;
static size_t n_before, n_after;
static char chain[] = "UTF-8"; static LG_PatternInfo info; static LG_Error failure;
extern "C" {
const char* contract_leading(const char* b, const char* h, size_t lines) {
  PROVE("leading context is looked for from the hit back to the start of the buffer", b == buf && h == buf + at_b && lines == n_before && lines_before);
  return buf + ctx_b;
}
const char* contract_trailing(const char* h, const char* e, size_t lines) {
  PROVE("trailing context is looked for from the hit to the end of the buffer", h == buf + at_e && e == buf + len && lines == n_after && lines_after);
  return buf + ctx_e;
}
unsigned int lg_hit_context(LG_HDECODER, const char* b, const char* e, uint64_t at, const LG_Window* inner, const char*, size_t n, uint32_t bad, const char** utf8, LG_Window*, LG_Window*, LG_Error** err) {
#ifndef VC_NATIVE
  PROVE("the context found is decoded", b == buf + ctx_b && e == buf + ctx_e);
#else
  hit = at_b; want = n_before; if (lines_before) leading_exact(b); else PROVE("no context before the hit", b == buf + at_b);
  hit = at_e; want = n_after; if (lines_after) trailing_exact(e); else PROVE("no context after the hit", e == buf + at_e);
#endif
  PROVE("the context's offset is that of its first byte", at == off + (b - buf));
  PROVE("the part of the hit in the buffer is what is decoded", inner->begin == off + at_b && inner->end == off + at_e && n >= (size_t) (e - b) && bad == 0xFFFD);
  asked = true;
  *utf8 = 0; *err = &failure;
  return 0;
}
void lg_free_error(LG_Error*) {}
void lg_free_hit_context_string(const char*) {}
LG_PatternInfo* lg_prog_pattern_info(LG_HPROGRAM, unsigned int) { info.EncodingChain = chain; return &info; }
LG_HDECODER lg_create_decoder() { return 0; }
void lg_destroy_decoder(LG_HDECODER) {}
}
ENTRY check_window() {
  any_buffer();
  off = vc_range("offset", 0, 1ull << 62);
  the_hit.Start = vc_range("start", 0, BIG(1ull << 63, 24)); the_hit.End = vc_range("end", 0, BIG(1ull << 63, 30)); the_hit.KeywordIndex = 0;
#ifdef VC_NATIVE
  off = vc_rand(3); the_hit.Start += off / 2; the_hit.End += the_hit.Start;
#endif
  // any hit: it may begin or lie before the buffer (found in an earlier block, reported now)
  vc_assume(the_hit.Start <= the_hit.End);
  at_b = the_hit.Start < off ? 0 : the_hit.Start > off + len ? len : the_hit.Start - off;
  at_e = the_hit.End < off ? 0 : the_hit.End > off + len ? len : the_hit.End - off;
  const int32_t nb = (int32_t) vc_u32("before") >> BIG(0, 29), na = (int32_t) vc_u32("after") >> BIG(0, 29);
  lines_before = nb >= 0; lines_after = na >= 0; n_before = nb; n_after = na;
  ctx_b = at_b; ctx_e = at_e;
#ifndef VC_NATIVE
  if (lines_before) { ctx_b = vc_range("ctx_b", 0, 1u << 30); vc_assume(ctx_b <= at_b); }
  if (lines_after) { ctx_e = vc_range("ctx_e", 0, 1u << 30); vc_assume(at_e <= ctx_e && ctx_e <= len); }
  HitOutputData& d = *(HitOutputData*) vc_alloc("data", sizeof(HitOutputData), 8);
  d.OutInfo.BeforeContext = nb; d.OutInfo.AfterContext = na; d.Prog = 0;
  *(void**) &d.Decoder = 0;
  d.CtxBuf.Buf = buf; d.CtxBuf.BufLen = len; d.CtxBuf.BufOff = off;
#else
  static std::ostringstream sink;
  HitOutputData d(sink, 0, '\t', "", nb, na, false);
  d.setBuffer(buf, len, off);
#endif
  asked = false;
  HitBuffer h = d.decodeContext(the_hit);
  PROVE("a hit's context is decoded", asked && h.empty());
}
