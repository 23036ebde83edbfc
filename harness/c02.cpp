// C02: byte and character transforms are inverted exactly by their decoders.
#include "vc.h"
#include "spec_oce.h"
#include <algorithm>
#include <iomanip>
#include <memory>
#include <sstream>
#include "basic.h"
#include "decoders/asciidecoder.h"
#include "decoders/decoder.h"
#include "decoders/ocedecoder.h"
#include "decoders/rotdecoder.h"
#include "decoders/xordecoder.h"
#include "encoders/byteencoder.h"
#include "encoders/caching_encoder.h"
#include "encoders/charencoder.h"
#include "encoders/oceencoder.h"
#include "encoders/rotencoder.h"
#include "encoders/xorencoder.h"
#include "src/lib/byteencoder.cpp"
#include "src/lib/charencoder.cpp"
#include "src/lib/oceencoder.cpp"
#include "src/lib/encoderbase.cpp"
#include "src/lib/decoders/decoder.cpp"
#include "src/lib/decoders/ocedecoder.cpp"

// ---- what a transform is
static int32_t rot_spec(uint32_t r, int32_t cp) {           // ROT-r: letters move r places round their alphabet
  if ('A' <= cp && cp <= 'Z') { int32_t x = cp - 'A' + (int32_t) r; if (x >= 26) x -= 26; return 'A' + x; }
  if ('a' <= cp && cp <= 'z') { int32_t x = cp - 'a' + (int32_t) r; if (x >= 26) x -= 26; return 'a' + x; }
  return cp;
}
// inverse of the published substitution: the byte that is stored as b
static bool stored_as(uint8_t plain, uint8_t b) { return SPEC_OCE[plain] == b; }

static unsigned char rawobj[512];
template <class E> static E& obj() { return *(E*) rawobj; }

// ---- data side: any source decoder under the transform (arbitrary value, arbitrary position)
struct AnyDecoder: public Decoder {
  std::pair<int32_t, const byte*> val;
  const byte *rb = nullptr, *re = nullptr;
  virtual AnyDecoder* clone() const { return nullptr; }
  virtual std::string name() const { return std::string(); }
  virtual std::pair<int32_t, const byte*> next() { return val; }
  virtual void reset(const byte* b, const byte* e) { rb = b; re = e; }
  virtual uint32_t maxByteLength() const { return 3; }
};
static byte window[16];

struct Src {
  AnyDecoder* any;
  std::unique_ptr<Decoder> own;
  int32_t v; const byte* p;
  Src() {
    any = new AnyDecoder;
    own.reset(any);
    v = (int32_t) vc_u32("v");
    p = window + vc_range("at", 0, 16);
    any->val = std::make_pair(v, p);
  }
};

template <class D> static void common(D& d, Src& s) {
  d.reset(window + 1, window + 9);
  PROVE("starting on a range hands that range to the source", s.any->rb == window + 1 && s.any->re == window + 9);
  PROVE("a transform needs as many bytes as its source", d.maxByteLength() == 3);
}

ENTRY check_oce_decoder() {
  Src s;
  OCEDecoder d(std::move(s.own));
  const auto r = d.OCEDecoder::next();
  PROVE("the source offset is preserved", r.second == s.p);
  if (s.v < 0) PROVE("errors and end of data pass through unchanged", r.first == s.v);
  else if (s.v <= 0xFF) {
    PROVE("a byte is decoded to a byte", 0 <= r.first && r.first <= 0xFF);
    PROVE("a byte is decoded to the one that is stored as it", stored_as(r.first, s.v));
    vc_cover("byte");
  }
  else {
    PROVE("a value outside the domain becomes an error that keeps it recoverable", r.first < 0 && -(r.first + 1) == s.v);
    vc_cover("outside");
  }
  common(d, s);
}

ENTRY check_xor_decoder() {
  Src s;
  const byte key = vc_u8("key");
  XORDecoder d(key, std::move(s.own));
  const auto r = d.XORDecoder::next();
  PROVE("the source offset is preserved", r.second == s.p);
  if (s.v < 0) PROVE("errors and end of data pass through unchanged", r.first == s.v);
  else if (s.v <= 0xFF) {
    PROVE("a byte is decoded to its exclusive or with the key", r.first == (s.v ^ key));
    vc_cover("byte");
  }
  else {
    PROVE("a value outside the domain becomes an error that keeps it recoverable", r.first < 0 && -(r.first + 1) == s.v);
    vc_cover("outside");
  }
  common(d, s);
}

ENTRY check_ascii_decoder() {
  Src s;
  ASCIIDecoder d(std::move(s.own));
  const auto r = d.ASCIIDecoder::next();
  PROVE("the source offset is preserved", r.second == s.p);
  if (s.v < 0x80) { PROVE("ASCII values, errors and end of data pass through unchanged", r.first == s.v); vc_cover("ascii"); }
  else { PROVE("a value outside the domain becomes an error that keeps it recoverable", r.first < 0 && -(r.first + 1) == s.v); vc_cover("outside"); }
  common(d, s);
}

ENTRY check_rot_decoder() {
  Src s;
  const uint32_t rot = vc_range("rot", 0, 26);
  RotDecoder d(rot, std::move(s.own));
  const auto r = d.RotDecoder::next();
  PROVE("the source offset is preserved", r.second == s.p);
  PROVE("the transform and its decoder are inverse", rot_spec(rot, r.first) == s.v);
  if (s.v < 0) PROVE("errors and end of data pass through unchanged", r.first == s.v);
  if (r.first != s.v) vc_cover("letter");
  common(d, s);
}

// ---- pattern side: character transforms
ENTRY check_rot_transform() {
  RotEncoder& e = obj<RotEncoder>();
  const uint32_t rot = vc_range("rot", 0, 26);
  e.Rot = rot;
  const int32_t cp = (int32_t) vc_u32("cp");
  PROVE("ROT moves letters round their alphabet and nothing else", e.RotEncoder::charTransform(cp) == rot_spec(rot, cp));
  PROVE("untransforming a transformed code point gives it back", e.RotEncoder::charUntransform(rot_spec(rot, cp)) == cp);
  PROVE("transforming an untransformed code point gives it back", rot_spec(rot, e.RotEncoder::charUntransform(cp)) == cp);
  // the two sides agree
  AnyDecoder* a = new AnyDecoder; a->val = std::make_pair(rot_spec(rot, cp), (const byte*) window);
  RotDecoder d(rot, std::unique_ptr<Decoder>(a));
  PROVE("the decoder undoes what the pattern side applied", d.RotDecoder::next().first == cp);
  vc_cover("end");
}

// ---- pattern side: byte transforms on any number of bytes (induction; byte g_i is an arbitrary one)
static byte* g_buf; static size_t g_i, g_n; static byte g_old, g_new;
extern "C" bool inv_at(const byte* cur, const byte* init) {
  return g_buf[g_i] == (g_i < g_n && cur > g_buf + g_i ? g_new : g_old);
}
// the same for loops that count instead of moving a pointer
extern "C" bool inv_idx32(uint32_t cur, uint32_t init) { return g_buf[g_i] == (g_i < g_n && cur > g_i ? g_new : g_old); }
extern "C" bool inv_idx64(uint64_t cur, uint64_t init) { return g_buf[g_i] == (g_i < g_n && cur > g_i ? g_new : g_old); }
static void any_bytes() {
  const size_t room = vc_range("room", 0, BIG(1000000000, 200));
  g_n = vc_range("n", 0, BIG(1000000000, 200));
  vc_assume(g_n <= room);
  g_buf = (byte*) vc_alloc("buf", room, 1);
  g_i = vc_range("i", 0, BIG(1000000000, 200));
  vc_assume(g_i < room);
  g_old = g_buf[g_i];
}
static void bytes_done(const char*) {
  if (g_i < g_n) vc_cover("transformed");
  PROVE("every byte of the range is transformed, no other byte changes", g_buf[g_i] == (g_i < g_n ? g_new : g_old));
}
ENTRY check_oce_bytes()   { any_bytes(); g_new = OCEEncoder::OCE[g_old];   obj<OCEEncoder>().OCEEncoder::byteTransform(g_buf, g_n); bytes_done("");
                            PROVE("the substitution is the published one", g_new == SPEC_OCE[g_old]); }
ENTRY check_oce_unbytes() { any_bytes(); g_new = OCEEncoder::unOCE[g_old]; obj<OCEEncoder>().OCEEncoder::byteUntransform(g_buf, g_n); bytes_done("");
                            PROVE("the inverse substitution is the published one", SPEC_OCE[g_new] == g_old); }
// (the constructors spell the key in the encoder's name; that spelling is not examined)
extern "C" void contract_spelling(std::string* out, const uint32_t*) { new (out) std::string("?"); }
extern "C" void contract_concat(std::string* out, const char*, std::string*) { new (out) std::string("??"); }
alignas(16) static unsigned char xroom[sizeof(XOREncoder)];
static XOREncoder& xorenc(byte k, Encoder* under) { return *new (xroom) XOREncoder(k, std::unique_ptr<Encoder>(under)); }
ENTRY check_xor_bytes()   { any_bytes(); const byte k = vc_u8("key"); g_new = g_old ^ k; xorenc(k, nullptr).XOREncoder::byteTransform(g_buf, g_n); bytes_done(""); }
ENTRY check_xor_unbytes() { any_bytes(); const byte k = vc_u8("key"); g_new = g_old ^ k; xorenc(k, nullptr).XOREncoder::byteUntransform(g_buf, g_n); bytes_done(""); }

// tables: mutually inverse on every byte, the same on both sides
ENTRY check_oce_tables() {
  const uint8_t b = vc_u8("b");
  PROVE("undoing the substitution gives the byte back", OCEEncoder::unOCE[OCEEncoder::OCE[b]] == b);
  PROVE("substituting the undone byte gives it back", OCEEncoder::OCE[OCEEncoder::unOCE[b]] == b);
  PROVE("the pattern side and the data side undo alike", OCEEncoder::unOCE[b] == OCEDecoder::unOCE[b]);
}

// ---- encoders that apply a transform over another encoder
// the encoder underneath: writes any len <= 6 bytes for a code point; decodes any bytes to anything
static uint32_t u_len; static byte u_bytes[6]; static int32_t u_cp, u_seen_cp; static byte u_seen[6]; static size_t u_j;
static UnicodeSet* u_set;
struct AnyEncoder: public Encoder {
  virtual AnyEncoder* clone() const { return nullptr; }
  virtual uint32_t maxByteLength() const { return 6; }
  virtual std::string name() const { return std::string(); }
  virtual const UnicodeSet& validCodePoints() const { return *u_set; }
  virtual uint32_t write(int32_t cp, byte buf[]) const {
    u_seen_cp = cp;
    for (uint32_t i = 0; i < 6; ++i) if (i < u_len) buf[i] = u_bytes[i];
    return u_len;
  }
  virtual void write(const UnicodeSet&, std::vector<std::vector<ByteSet>>&) const {}
  virtual uint32_t write(const byte buf[], int32_t& cp) const {
    for (uint32_t i = 0; i < 6; ++i) u_seen[i] = buf[i];
    cp = u_cp;
    return u_len;
  }
};
static void any_underneath() {
  u_len = vc_range("len", 0, 6);
  byte* b = (byte*) vc_alloc("under", 6, 1);
  for (int i = 0; i < 6; ++i) u_bytes[i] = b[i];
  u_cp = (int32_t) vc_u32("ucp");
  u_j = vc_range("j", 0, 5);
}
static byte g_key; static bool g_oce;
static byte tr(byte b) { return g_oce ? SPEC_OCE[b] : byte(b ^ g_key); }

template <class E> static void byte_encoder(E& e) {
  any_underneath();
  const int32_t cp = (int32_t) vc_u32("cp");
  byte* out = (byte*) vc_alloc("out", u_len, 1);           // room for exactly the bytes reported
  const uint32_t n = e.ByteEncoder::write(cp, out);
  PROVE("the code point is handed to the encoding unchanged", u_seen_cp == cp);
  PROVE("the length is that of the encoding", n == u_len);
  if (u_j < n) { PROVE("every byte of the encoding is transformed", out[u_j] == tr(u_bytes[u_j])); vc_cover("byte"); }
  PROVE("the longest encoding is that of the encoding underneath", e.ByteEncoder::maxByteLength() == 6);
}
template <class E> static void byte_decoder(E& e) {
  any_underneath();
  byte* in = (byte*) vc_alloc("in", 6, 1);
  const byte was = in[u_j];
  int32_t cp = 0;
  const uint32_t n = e.ByteEncoder::write((const byte*) in, cp);
  PROVE("the bytes are untransformed before they are decoded", tr(u_seen[u_j]) == was);
  PROVE("the input is not changed", in[u_j] == was);
  PROVE("the decoded value and length are those of the encoding underneath", n == u_len && cp == u_cp);
  vc_cover("decoded");
}
static OCEEncoder& oce() { g_oce = true; static unsigned char room[sizeof(OCEEncoder)] __attribute__((aligned(16)));
  return *new (room) OCEEncoder(std::unique_ptr<Encoder>(new AnyEncoder)); }
ENTRY check_xor_encoder() { g_oce = false; g_key = vc_u8("key"); byte_encoder(xorenc(g_key, new AnyEncoder)); }
ENTRY check_xor_encoder_back() { g_oce = false; g_key = vc_u8("key"); byte_decoder(xorenc(g_key, new AnyEncoder)); }
ENTRY check_rot_encoder() {
  any_underneath();
  const uint32_t rot = vc_range("rot", 0, 26);
  RotEncoder e(rot, std::unique_ptr<Encoder>(new AnyEncoder));
  const int32_t cp = (int32_t) vc_u32("cp");
  byte* out = (byte*) vc_alloc("out", u_len, 1);
  PROVE("the transformed code point is what gets encoded", e.CharEncoder::write(cp, out) == u_len && u_seen_cp == rot_spec(rot, cp));
  PROVE("the longest encoding is that of the encoding underneath", e.RotEncoder::maxByteLength() == 6);
  byte* in = (byte*) vc_alloc("in", 6, 1);
  int32_t back = 0;
  PROVE("the decoded code point is untransformed", e.CharEncoder::write((const byte*) in, back) == u_len && rot_spec(rot, back) == u_cp);
}
ENTRY check_oce_encoder() { byte_encoder(oce()); }
ENTRY check_oce_encoder_back() { byte_decoder(oce()); }

// a transform that is an exclusive or, through the class all byte transforms share
struct AnyByteEncoder: public ByteEncoder {
  AnyByteEncoder(): ByteEncoder("any", std::unique_ptr<Encoder>(new AnyEncoder)) {}
  virtual AnyByteEncoder* clone() const { return nullptr; }
  virtual void byteTransform(byte b[], uint32_t n) const { for (uint32_t i = 0; i < 6; ++i) if (i < n) b[i] = tr(b[i]); }
  virtual void byteUntransform(byte b[], uint32_t n) const { for (uint32_t i = 0; i < 6; ++i) if (i < n) b[i] ^= g_key; }
};
ENTRY check_byte_encoder() { g_oce = false; g_key = vc_u8("key"); AnyByteEncoder e; byte_encoder(e); }
ENTRY check_byte_encoder_back() { g_oce = false; g_key = vc_u8("key"); AnyByteEncoder e; byte_decoder(e); }

// character transforms over an encoding
struct AnyCharEncoder: public CharEncoder {
  int32_t k;
  AnyCharEncoder(): CharEncoder("any", std::unique_ptr<Encoder>(new AnyEncoder)) {}
  virtual AnyCharEncoder* clone() const { return nullptr; }
  virtual uint32_t maxByteLength() const { return 6; }
  virtual const UnicodeSet& validCodePoints() const { return *u_set; }
  virtual int32_t charTransform(int32_t cp) const { return cp ^ k; }
  virtual int32_t charUntransform(int32_t cp) const { return cp ^ k ^ 0x5A; }
};
ENTRY check_char_encoder() {
  any_underneath();
  AnyCharEncoder e; e.k = (int32_t) vc_u32("k");
  const int32_t cp = (int32_t) vc_u32("cp");
  byte* out = (byte*) vc_alloc("out", u_len, 1);
  const uint32_t n = e.CharEncoder::write(cp, out);
  PROVE("the transformed code point is what gets encoded", u_seen_cp == (cp ^ e.k));
  PROVE("the length is that of the encoding", n == u_len);
  if (u_j < n) { PROVE("the bytes are those of the encoding", out[u_j] == u_bytes[u_j]); vc_cover("byte"); }
}
ENTRY check_char_encoder_back() {
  any_underneath();
  AnyCharEncoder e; e.k = (int32_t) vc_u32("k");
  byte* in = (byte*) vc_alloc("in", 6, 1);
  int32_t cp = 0;
  const uint32_t n = e.CharEncoder::write((const byte*) in, cp);
  PROVE("the decoded code point is untransformed", cp == (u_cp ^ e.k ^ 0x5A));
  PROVE("the length is that of the encoding", n == u_len);
  PROVE("the bytes decoded are the bytes given", u_seen[u_j] == in[u_j]);
}
ENTRY check_decorating_encoder() {
  any_underneath();
  DecoratingEncoder e(std::unique_ptr<Encoder>(new AnyEncoder));
  const int32_t cp = (int32_t) vc_u32("cp");
  byte* out = (byte*) vc_alloc("out", 6, 1);
  const uint32_t n = e.DecoratingEncoder::write(cp, out);
  PROVE("a wrapper encodes as the encoding underneath", u_seen_cp == cp && n == u_len && (u_j >= n || out[u_j] == u_bytes[u_j]));
  int32_t back = 0;
  PROVE("a wrapper decodes as the encoding underneath", e.DecoratingEncoder::write((const byte*) out, back) == u_len && back == u_cp && u_seen[u_j] == out[u_j]);
  PROVE("a wrapper has the length of the encoding underneath", e.DecoratingEncoder::maxByteLength() == 6);
}
