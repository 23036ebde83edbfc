// C03: decoding accounts for every source byte exactly once and always makes progress.
#include "vc.h"
#include "spec_unicode.h"
#include <deque>
#include <memory>
#include "basic.h"
#include "decoders/bytesource.h"
#include "decoders/decoder.h"
#include "decoders/utf8decoder.h"
#include "decoders/utf16decoder.h"
#include "decoders/utf32decoder.h"
#include "src/lib/decoders/decoder.cpp"

typedef std::pair<int32_t, const byte*> V;

// ---- std::deque by contract: a sequence of at most 8 values (library code, trusted)
static V q[9];
static size_t qn;
typedef std::deque<V> Q;
extern "C" {
size_t contract_size(const Q*) { return qn; }
bool contract_empty(const Q*) { return qn == 0; }
void contract_push(Q*, V* v) { PROVE("the look-ahead stays small", qn < 8); q[qn] = *v; ++qn; }
V* contract_emplace(Q*, V* v) { contract_push(nullptr, v); return &q[qn - 1]; }
V* contract_at(Q*, size_t i) { PROVE("look-ahead is read where it exists", i < qn); return &q[i]; }
V* contract_front(Q*) { PROVE("look-ahead is read where it exists", qn > 0); return &q[0]; }
V* contract_back(Q*) { PROVE("look-ahead is read where it exists", qn > 0); return &q[qn - 1]; }
void contract_pop(Q*) {
  PROVE("look-ahead is dropped where it exists", qn > 0);
  for (size_t i = 0; i < 7; ++i) q[i] = q[i + 1];
  --qn;
}
void contract_clear(Q*) { qn = 0; }
}

#ifdef VC_NATIVE
static void set_queue(UTFDecoderBase& d) { for (size_t i = 0; i < qn; ++i) d.In.push_back(q[i]); }
static size_t get_queue(UTFDecoderBase& d) { for (size_t i = 0; i < d.In.size() && i < 9; ++i) q[i] = d.In[i]; return qn = d.In.size(); }
#else
static void set_queue(UTFDecoderBase&) {}
static size_t get_queue(UTFDecoderBase&) { return qn; }
#endif

// ---- the byte source
ENTRY check_bytesource() {
  const size_t n = vc_range("n", 0, BIG(0xFFFFFFFF, 50)), p = vc_range("p", 0, BIG(0xFFFFFFFF, 50));
  vc_assume(p <= n);
  const byte* b = (const byte*) vc_alloc("in", n, 1);
  ByteSource s(b + p, b + n);
  const V v = s.ByteSource::next(), w = s.ByteSource::next();
  PROVE("a value carries the offset of its byte", v.second == b + p);
  if (p < n) PROVE("a byte is read as itself", v.first == b[p]);
  else PROVE("after the last byte comes the end of data", v.first == Decoder::END);
  if (p + 1 < n) { PROVE("the next value is the adjacent byte", w.first == b[p + 1] && w.second == b + p + 1); vc_cover("two bytes"); }
  else PROVE("the end of data is reported forever, at the end", w.first == Decoder::END && w.second == b + n);
  s.ByteSource::reset(b, b + n);
  const V f = s.ByteSource::next();
  PROVE("starting again reads from the new start", f.second == b && f.first == (n ? b[0] : Decoder::END));
  PROVE("the end of data is no byte and carries no byte", Decoder::END < -0x100);
}

// ---- look-ahead decoders over any source: an unlimited tape of arbitrary values
static V* tape; static size_t tape_n, tape_at;
static const byte *reset_b, *reset_e;
struct Tape: public Decoder {
  virtual Tape* clone() const { return nullptr; }
  virtual std::string name() const { return std::string(); }
  virtual V next() { return tape[tape_at++]; }
  virtual void reset(const byte* b, const byte* e) { reset_b = b; reset_e = e; }
  virtual uint32_t maxByteLength() const { return 3; }
};
// any decoder of byte runs that consumes no more than it is given (shown for each of them by C01)
static size_t dec_n, dec_ret; static int32_t dec_cp; static byte dec_buf[4]; static int dec_calls;
struct AnyUTF: public UTFDecoderBase {
  AnyUTF(): UTFDecoderBase(std::unique_ptr<Decoder>(new Tape)) {}
  virtual AnyUTF* clone() const { return nullptr; }
  virtual std::string name() const { return std::string(); }
  virtual size_t decode(const byte* b, const byte* e, int32_t& cp) {
    dec_n = e - b; ++dec_calls;
    for (size_t i = 0; i < 4; ++i) if (i < dec_n) dec_buf[i] = b[i];
    vc_assume(dec_ret <= dec_n);
    if (dec_ret) cp = dec_cp; else if (vc_bool("scribble")) cp = dec_cp;
    return dec_ret;
  }
};
static bool is_byte(V v) { return v.first >= 0 && v.first <= 0xFF; }
alignas(16) static unsigned char room[sizeof(AnyUTF)];

static V pending(size_t k) { return k < qn ? q[k] : tape[tape_at + (k - qn)]; }

static AnyUTF& any_lookahead(size_t pending_values) {
  AnyUTF& d = *new (room) AnyUTF;
  tape_n = vc_range("tn", 0, BIG(0xFFFFFFF, 40));
  tape = (V*) vc_alloc("tape", tape_n * sizeof(V), 8);
  tape_at = vc_range("ta", 0, BIG(0xFFFFFFF, 40));
  vc_assume(tape_at + 8 <= tape_n);
  qn = pending_values;
  V* i = (V*) vc_alloc("queue", 4 * sizeof(V), 8);
  for (int k = 0; k < 4; ++k) q[k] = i[k];
#ifdef VC_NATIVE
  for (size_t k = 0; k < tape_n; ++k) tape[k].first = vc_rand(9) ? vc_rand(300) : -(int) vc_rand(300);
  for (size_t k = 0; k < 4; ++k) q[k].first = vc_rand(9) ? vc_rand(300) : -(int) vc_rand(300);
#endif
  set_queue(d);
  return d;
}

static void lookahead(size_t pending_values) {
  AnyUTF& d = any_lookahead(pending_values);
  dec_ret = vc_range("ret", 0, 4); dec_cp = (int32_t) vc_u32("dcp"); dec_calls = 0;
  const size_t j = vc_range("j", 0, 3);
  V s[8];
  for (size_t k = 0; k < 8; ++k) s[k] = pending(k);
  size_t run = 0;
  while (run < 4 && is_byte(s[run])) ++run;
  const V v = d.UTFDecoderBase::next();
  get_queue(d);
  size_t used = 1;
  if (run == 0) {
    PROVE("an error or end of data passes through unchanged", v.first == s[0].first && v.second == s[0].second);
    vc_cover("not a byte");
  }
  else {
    PROVE("the bytes in front are decoded, up to four of them", dec_calls >= 1 && dec_n == run);
    if (j < run) PROVE("the bytes decoded are the bytes in front", dec_buf[j] == s[j].first);
    if (dec_ret) {
      PROVE("a well-formed sequence yields its code point", v.first == dec_cp);
      used = dec_ret;
      vc_cover("sequence");
    }
    else {
      PROVE("a byte that starts no sequence yields an error that carries it", v.first < 0 && -(v.first + 1) == s[0].first);
      vc_cover("error");
    }
    PROVE("a value carries the offset of its first byte", v.second == s[0].second);
  }
  const V left = pending(j);
  PROVE("exactly what was decoded is taken, everything else is left in order", left.first == s[used + j].first && left.second == s[used + j].second);
  PROVE("the look-ahead is at most four values", qn <= 4);
}

ENTRY check_lookahead0() { lookahead(0); }
ENTRY check_lookahead1() { lookahead(1); }
ENTRY check_lookahead2() { lookahead(2); }
ENTRY check_lookahead3() { lookahead(3); }
ENTRY check_lookahead4() { lookahead(4); }

ENTRY check_reset() {
  AnyUTF& d = any_lookahead(vc_range("qn", 0, 4));
  const byte* b = (const byte*) vc_alloc("new", 8, 1);
  d.UTFDecoderBase::reset(b + 1, b + 6);
  get_queue(d);
  PROVE("starting again forgets the look-ahead", qn == 0);
  PROVE("starting again restarts the source on the new range", reset_b == b + 1 && reset_e == b + 6);
  PROVE("a decoder never needs less than four values of its source", d.UTFDecoderBase::maxByteLength() >= 4 * 3);
}

// ---- the real decoders over the real byte source, on any bytes.
// State after any number of calls: position p is the first byte not yet accounted for; the look-ahead
// holds the values from p on (end of data past the end); the source stands behind it.
static const byte* buf; static size_t n;
static V at(size_t p) { return p < n ? V(buf[p], buf + p) : V(Decoder::END, buf + n); }

template <class D> static void account(Form f) {
  n = vc_range("n", 0, BIG(0xFFFFFFFF, 40));
  buf = (const byte*) vc_alloc("in", n, 1);
  const size_t p = vc_range("p", 0, BIG(0xFFFFFFFF, 40));
  vc_assume(p <= n);
  qn = vc_range("qn", 0, 4);
  const size_t c = p + qn < n ? p + qn : n;
  alignas(16) static unsigned char droom[sizeof(D)];
  UTFDecoderBase& d = *new (droom) D(std::unique_ptr<Decoder>(new ByteSource(buf + c, buf + n)));
  for (size_t k = 0; k < 4; ++k) if (k < qn) q[k] = at(p + k);
  set_queue(d);
  const V v = d.UTFDecoderBase::next();
  get_queue(d);
  size_t used = 0;
  PROVE("a value carries the offset of its first byte", v.second == buf + p);
  if (p == n) {
    PROVE("after the last byte comes the end of data", v.first == Decoder::END);
    vc_cover("end of data");
  }
  else {
    int32_t cp = 0;
    const uint32_t len = spec_wf(f, buf + p, n - p, &cp);
    if (len) {
      PROVE("a well-formed sequence yields its code point", v.first == cp);
      used = len;
      vc_cover("sequence");
    }
    else {
      PROVE("a byte that starts no sequence yields an error that carries it", v.first == -(int32_t) buf[p] - 1);
      used = 1;
      vc_cover("error");
    }
  }
  // the state again, at the position right after what was decoded
  const size_t p2 = p + used, j = vc_range("j", 0, 3);
  PROVE("no byte is accounted for twice and none is skipped", p2 <= n);
  if (j < qn) { const V w = at(p2 + j); PROVE("the look-ahead continues right after the value", q[j].first == w.first && q[j].second == w.second); }
  const ByteSource& s = *(const ByteSource*) d.Trans.get();
  PROVE("the source continues right after the look-ahead", s.Cur == buf + (p2 + qn < n ? p2 + qn : n) && s.End == buf + n);
  PROVE("the look-ahead is at most four values", qn <= 4);
}
ENTRY check_account_utf8()    { account<UTF8Decoder>(F8); }
ENTRY check_account_utf16le() { account<UTF16LEDecoder>(F16LE); }
ENTRY check_account_utf16be() { account<UTF16BEDecoder>(F16BE); }
ENTRY check_account_utf32le() { account<UTF32LEDecoder>(F32LE); }
ENTRY check_account_utf32be() { account<UTF32BEDecoder>(F32BE); }

// the state at the start of a range
ENTRY check_start() {
  n = vc_range("n", 0, BIG(0xFFFFFFFF, 40));
  buf = (const byte*) vc_alloc("in", n, 1);
  alignas(16) static unsigned char droom[sizeof(UTF8Decoder)];
  UTFDecoderBase& d = *new (droom) UTF8Decoder(std::unique_ptr<Decoder>(new ByteSource(nullptr, nullptr)));
  qn = vc_range("qn", 0, 4);
  for (size_t k = 0; k < 4; ++k) q[k] = V((int32_t) k, nullptr);
  set_queue(d);
  d.UTFDecoderBase::reset(buf, buf + n);
  get_queue(d);
  const ByteSource& s = *(const ByteSource*) d.Trans.get();
  PROVE("a new range starts at its first byte and leaves no trace of the last", qn == 0 && s.Cur == buf && s.End == buf + n);
}

#ifdef VC_NATIVE
#include <vector>
// whole ranges, clones in the middle, several ranges one after the other
template <class D> static void whole(Form f) {
  D d(std::unique_ptr<Decoder>(new ByteSource(nullptr, nullptr)));
  std::unique_ptr<Decoder> e(d.clone());
  for (int round = 0; round < 3; ++round) {
    const size_t n = vc_rand(20);
    std::vector<byte> b(n);
    static const byte pal[] = {0x00, 0x41, 0x7F, 0x80, 0xBF, 0xC2, 0xD8, 0xDC, 0xDF, 0xE0, 0xED, 0xF0, 0xF4, 0xFF, 0x10, 0x9F};
    for (auto& x : b) x = vc_rand(3) ? pal[vc_rand(16)] : vc_rand(256);
    e->reset(b.data(), b.data() + n);
    size_t p = 0, calls = 0, stop = vc_rand(24);
    while (calls++ < stop) {
      const V v = e->next();
      PROVE("a value carries the offset of its first byte", v.second == b.data() + p);
      if (p == n) { PROVE("after the last byte comes the end of data forever", v.first == Decoder::END); continue; }
      int32_t cp = 0;
      const uint32_t len = spec_wf(f, b.data() + p, n - p, &cp);
      PROVE("values partition the range", v.first == (len ? cp : -(int32_t) b[p] - 1));
      p += len ? len : 1;
      if (vc_rand(6) == 0) e.reset(e->clone());
    }
  }
}
ENTRY native_whole() {
  switch (vc_rand(5)) {
    case 0: whole<UTF8Decoder>(F8); break;
    case 1: whole<UTF16LEDecoder>(F16LE); break;
    case 2: whole<UTF16BEDecoder>(F16BE); break;
    case 3: whole<UTF32LEDecoder>(F32LE); break;
    default: whole<UTF32BEDecoder>(F32BE); break;
  }
}
#endif
