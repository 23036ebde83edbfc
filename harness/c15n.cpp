// C15, bounded: windows and contexts of random buffers, in any encoding, against decoding the same bytes again.
#include "vc.h"
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "decoders/decoder.h"
#include "decoders/decoderfactory.h"
#include "decoders/utf8.h"
#include "lightgrep/api.h"
#include "lightgrep/util.h"

typedef std::pair<int32_t, size_t> V;
static std::vector<V> decoded(const char* enc, const byte* b, const byte* from, const byte* to) {
  DecoderFactory f;
  auto d = f.get(enc);
  d->reset(from, to);
  std::vector<V> r;
  for (;;) {
    const auto p = d->next();
    r.emplace_back(p.first, p.second - b);
    if (p.first == LG_WINDOW_END) return r;
  }
}

ENTRY native_window() {
  static const char* const encs[] = {"ASCII", "UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE", "identity|ASCII|OCE", "UTF-8|OCE|identity", "UTF-16LE|OCE"};
  const char* const enc = encs[vc_rand(9)];
  const size_t n = vc_rand(24);
  std::unique_ptr<char[]> buf(new char[n]);       // exactly as long as the buffer
  for (size_t i = 0; i < n; ++i) {
    static const unsigned char odd[] = {0, 0, 0, 0x10, 0xd8, 0xdc, 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xf0, 0x9f, 0x92, 0x80, 0xff, 'a', 'a', 0x2a};
    buf[i] = vc_rand(4) ? (char) odd[vc_rand(sizeof(odd))] : (char) vc_rand(256);
  }
  const byte *const b = (const byte*) buf.get(), *const e = b + n;
  const size_t h = vc_rand(n + 1), he = h + vc_rand(n - h + 1);
  const uint64_t off = vc_rand(2) ? 0 : (1ul << 40) + vc_rand(100);
  const LG_Window in{off + h, off + he};
  const size_t pre = vc_rand(8), post = vc_rand(8);
  LG_HDECODER d = lg_create_decoder();
  int32_t* c = 0; size_t *o = 0, len = 0; LG_Window dh{0, 0}; LG_Error* err = 0;
  const unsigned bad = lg_read_window(d, buf.get(), buf.get() + n, off, &in, enc, pre, post, &c, &o, &len, &dh, &err);
  PROVE("the window is read", !err && c && o && len > 0);
  if (err || !c) { lg_free_error(err); lg_destroy_decoder(d); return; }
  PROVE("the hit is in the window", dh.begin <= dh.end && dh.end < len && c[len - 1] == LG_WINDOW_END);
  PROVE("the hit begins and ends where it does", o[dh.begin] == h && o[dh.end] >= he && (dh.end == dh.begin || o[dh.end - 1] < he));
  PROVE("as much before the hit as asked for, or all there is", dh.begin <= pre && (dh.begin == pre || o[0] == 0));
  const size_t after = len - 1 - dh.end;
  PROVE("as much behind the hit as asked for, or all there is", after <= post && (after == post || o[len - 1] == n));
  unsigned negative = 0;
  for (size_t i = 0; i + 1 < len; ++i) {
    negative += c[i] < 0;
    PROVE("the values follow each other", o[i] < o[i + 1] && c[i] != LG_WINDOW_END);
  }
  PROVE("the bad values of the window are counted", bad == negative);
  const auto behind = decoded(enc, b, b + h, e);
  PROVE("not more than there is", dh.begin + behind.size() >= len);
  for (size_t i = dh.begin; i + 1 < len; ++i) PROVE("from the hit on it is the decoding from there", V(c[i], o[i]) == behind[i - dh.begin]);
  bool found = dh.begin == 0;
  for (size_t l = h; l-- > 0 && !found; ) {
    auto v = decoded(enc, b, b + l, b + h);
    v.pop_back();
    for (size_t x = l; x-- > 0 && v.size() < pre; ) v.insert(v.begin(), V(-(int32_t) b[x] - 1, x));
    if (v.size() > pre) v.erase(v.begin(), v.end() - pre);
    found = v.size() == dh.begin;
    for (size_t i = 0; found && i < v.size(); ++i) found = v[i] == V(c[i], o[i]);
  }
  PROVE("before the hit is a decoding up to it", found);

  const uint32_t repl = vc_rand(2) ? 0xfffd : '?';
  const char* u = 0; LG_Window out{0, 0}, uh{0, 0};
  LG_HDECODER d2 = lg_create_decoder();
  const unsigned bad2 = lg_hit_context(d2, buf.get(), buf.get() + n, off, &in, enc, pre, repl, &u, &out, &uh, &err);
  PROVE("the context is found", u && !err);
  if (u) {
    lg_free_window_characters(c); lg_free_window_offsets(o);
    lg_read_window(d, buf.get(), buf.get() + n, off, &in, enc, pre, pre, &c, &o, &len, &dh, 0);
    std::string text; size_t marks[2] = {0, 0};
    for (size_t i = 0; i + 1 < len; ++i) {
      if (i == dh.begin) marks[0] = text.size();
      if (i == dh.end) marks[1] = text.size();
      const uint32_t x = c[i] <= 0 ? repl : c[i];
      if (x < 0x80) text += (char) x;
      else if (x < 0x800) { text += (char) (0xc0 | x >> 6); text += (char) (0x80 | (x & 63)); }
      else if (x < 0x10000) { text += (char) (0xe0 | x >> 12); text += (char) (0x80 | (x >> 6 & 63)); text += (char) (0x80 | (x & 63)); }
      else { text += (char) (0xf0 | x >> 18); text += (char) (0x80 | (x >> 12 & 63)); text += (char) (0x80 | (x >> 6 & 63)); text += (char) (0x80 | (x & 63)); }
    }
    if (dh.begin + 1 == len) marks[0] = text.size();
    if (dh.end + 1 == len) marks[1] = text.size();
    unsigned neg = 0;
    for (size_t i = 0; i + 1 < len; ++i) neg += c[i] < 0;
    PROVE("the text is that of the window", text == u && bad2 == neg);
    PROVE("the hit is where it is said in the text", uh.begin == marks[0] && uh.end == marks[1]);
    PROVE("the window is where it is said in the data", out.begin == off + o[0] && out.end == off + o[len - 1]);
  }
  lg_free_hit_context_string(u);
  lg_free_window_characters(c); lg_free_window_offsets(o);
  lg_free_error(err);
  lg_destroy_decoder(d); lg_destroy_decoder(d2);
}
