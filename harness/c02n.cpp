// C02, bounded: whole transformation chains built by the factories (string handling is beyond the verifier).
#include "vc.h"
#include <string>
#include <vector>
#include "decoders/decoder.h"
#include "decoders/decoderfactory.h"
#include "encoders/encoderfactory.h"
#include "encoders/oceencoder.h"
#include "encoders/xorencoder.h"
#include "encoders/rotencoder.h"
#include "encoders/utf8.h"
#include "encoders/utf16.h"
#include "encoders/utf32.h"
#include "decoders/ocedecoder.h"
#include "decoders/rotdecoder.h"
#include "decoders/xordecoder.h"
#include "decoders/bytesource.h"
#include "decoders/utf8decoder.h"

static int32_t some_cp() {
  switch (vc_rand(4)) {
    case 0: return vc_rand(0x80);
    case 1: return vc_rand(0x800);
    case 2: return vc_rand(0xD800);
    default: return 0x10000 + vc_rand(0x100000);
  }
}

static void round_trip(const Encoder& e, Decoder& d) {
  std::vector<byte> data;
  std::vector<std::pair<int32_t, size_t>> want;
  const size_t n = vc_rand(12);
  for (size_t i = 0; i < n; ++i) {
    const int32_t cp = some_cp();
    byte tmp[32];
    const uint32_t len = e.write(cp, tmp);
    PROVE("an encoding is no longer than announced", len <= e.maxByteLength());
    PROVE("a valid code point has an encoding", len > 0);
    int32_t back = -1;
    byte pad[32] = {0};
    std::copy(tmp, tmp + len, pad);
    PROVE("the encoder decodes what it encoded", e.write((const byte*) pad, back) == len && back == cp);
    want.emplace_back(cp, data.size());
    data.insert(data.end(), tmp, tmp + len);
  }
  d.reset(data.data(), data.data() + data.size());
  for (auto& w : want) {
    const auto r = d.next();
    PROVE("transformed text is decoded back to the original", r.first == w.first);
    PROVE("the source offset of every value is preserved", r.second == data.data() + w.second);
  }
  const auto r = d.next();
  PROVE("then the data ends", r.first == Decoder::END && r.second == data.data() + data.size());
}

ENTRY native_chains() {
  static const char* const cs[] = {"UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE"};
  std::string chain;
  for (int i = vc_rand(3); i > 0; --i) chain += "identity|";
  chain += cs[vc_rand(5)];
  for (int i = vc_rand(4); i > 0; --i) chain += vc_rand(2) ? "|OCE" : "|identity";
  EncoderFactory ef; DecoderFactory df;
  round_trip(*ef.get(chain), *df.get(chain));
}

// every transform the classes offer, nested by hand
ENTRY native_nested() {
  std::unique_ptr<Encoder> e(new UTF8);
  std::vector<std::pair<int, uint32_t>> bb, cc;
  for (int i = vc_rand(4); i > 0; --i) bb.emplace_back(vc_rand(2), vc_rand(256));
  for (int i = vc_rand(3); i > 0; --i) cc.emplace_back(2, vc_rand(27));
  for (auto& t : bb) {
    if (t.first) e.reset(new XOREncoder(t.second, std::move(e)));
    else e.reset(new OCEEncoder(std::move(e)));
  }
  for (auto t = cc.rbegin(); t != cc.rend(); ++t) e.reset(new RotEncoder(t->second, std::move(e)));
  if (vc_rand(2)) e.reset(e->clone());
  std::unique_ptr<Decoder> d(new ByteSource(nullptr, nullptr));
  for (auto t = bb.rbegin(); t != bb.rend(); ++t) {
    if (t->first) d.reset(new XORDecoder(t->second, std::move(d)));
    else d.reset(new OCEDecoder(std::move(d)));
  }
  d.reset(new UTF8Decoder(std::move(d)));
  for (auto t = cc.rbegin(); t != cc.rend(); ++t) d.reset(new RotDecoder(t->second, std::move(d)));
  if (vc_rand(2)) d.reset(d->clone());
  round_trip(*e, *d);
}
