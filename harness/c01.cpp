// C01: UTF encodings are exact, inverse and in bounds.
#include "vc.h"
#include "spec_unicode.h"
#include "basic.h"
#include "unicode.h"
#include "decoders/utf8.h"
#include "decoders/utf16.h"
#include "decoders/utf32.h"
#include "encoders/utf8.h"
#include "encoders/utf16.h"
#include "encoders/utf32.h"
#include "encoders/ascii.h"
#include "src/lib/utf8.cpp"
#include "src/lib/utfbase.cpp"
#include "src/lib/encoderbase.cpp"
#include "src/lib/ascii.cpp"

// ---- contract of every encoder: cp -> bytes
// the buffer has exactly the bytes the encoding needs, so one byte too many is out of bounds
template <class Enc>
static void encoder_contract(Form f, Enc enc) {
  const int32_t cp = (int32_t) vc_u32("cp");
  const uint32_t want = spec_len(f, cp);
  uint8_t* buf = (uint8_t*) vc_alloc("out", want, 1);
  const uint32_t got = enc(cp, buf);
  PROVE("encoder writes a scalar value with the standard length and rejects every other number", got == want);
  for (uint32_t j = 0; j < want; ++j) {
    PROVE("encoder writes the bytes the standard prescribes", buf[j] == spec_byte(f, cp, j));
  }
  if (want == 4) vc_cover("four-byte encoding");
  if (want == 0) vc_cover("rejected number");
}

// ---- contract of every decoder over a byte range of any length (strict = count 0 on error)
template <class Dec>
static void decoder_contract(Form f, bool strict, Dec dec) {
  const size_t n = vc_u64("n");
  uint8_t* b = (uint8_t*) vc_alloc("in", n, 1);
  int32_t cp = 0, want_cp = 0;
  const uint32_t want = spec_wf(f, b, n, &want_cp);
  const uint32_t got = dec(b, n, cp);
  if (want) {
    PROVE("decoder accepts a well-formed sequence and consumes exactly it", got == want);
    PROVE("decoder yields the code point of a well-formed sequence", cp == want_cp);
    PROVE("a decoded value is a scalar value", scalar(cp));
  }
  else if (strict) {
    PROVE("decoder rejects an ill-formed sequence", got == 0);
  }
  else {
    PROVE("decoder rejects an ill-formed sequence", cp < 0);
    PROVE("decoder claims no byte outside its input", got <= n);
    PROVE("decoder makes progress on an ill-formed sequence", n == 0 ? got == 0 : got > 0);
  }
  if (want) vc_cover("well-formed input");
  else vc_cover("ill-formed input");
}

// ---- pattern-side encoders (virtual functions of the encoder classes)
static unsigned char rawobj[256];
template <class E> static const E& obj() { return *(const E*) rawobj; }   // the functions use no field

ENTRY check_enc_UTF8()    { encoder_contract(F8,    [](int32_t cp, uint8_t* b) { return obj<UTF8>().UTF8::write(cp, b); }); }
ENTRY check_enc_UTF16LE() { encoder_contract(F16LE, [](int32_t cp, uint8_t* b) { return obj<UTF16LE>().UTF16LE::write(cp, b); }); }
ENTRY check_enc_UTF16BE() { encoder_contract(F16BE, [](int32_t cp, uint8_t* b) { return obj<UTF16BE>().UTF16BE::write(cp, b); }); }
ENTRY check_enc_UTF32LE() { encoder_contract(F32LE, [](int32_t cp, uint8_t* b) { return obj<UTF32LE>().UTF32LE::write(cp, b); }); }
ENTRY check_enc_UTF32BE() { encoder_contract(F32BE, [](int32_t cp, uint8_t* b) { return obj<UTF32BE>().UTF32BE::write(cp, b); }); }

// ---- data-side encoders
ENTRY check_cp_to_utf8()    { encoder_contract(F8,    [](int32_t cp, uint8_t* b) { return cp_to_utf8(cp, b); }); }
ENTRY check_cp_to_utf16le() { encoder_contract(F16LE, [](int32_t cp, uint8_t* b) { return cp_to_utf16<true>(cp, b); }); }
ENTRY check_cp_to_utf16be() { encoder_contract(F16BE, [](int32_t cp, uint8_t* b) { return cp_to_utf16<false>(cp, b); }); }
ENTRY check_cp_to_utf32le() { encoder_contract(F32LE, [](int32_t cp, uint8_t* b) { return cp_to_utf32<true>(cp, b); }); }
ENTRY check_cp_to_utf32be() { encoder_contract(F32BE, [](int32_t cp, uint8_t* b) { return cp_to_utf32<false>(cp, b); }); }

// ---- data-side decoders
ENTRY check_utf8_to_cp()    { decoder_contract(F8,    true, [](const uint8_t* b, size_t n, int32_t& cp) { return utf8_to_cp(b, b + n, cp); }); }
ENTRY check_utf16le_to_cp() { decoder_contract(F16LE, true, [](const uint8_t* b, size_t n, int32_t& cp) { return utf16_to_cp<true>(b, b + n, cp); }); }
ENTRY check_utf16be_to_cp() { decoder_contract(F16BE, true, [](const uint8_t* b, size_t n, int32_t& cp) { return utf16_to_cp<false>(b, b + n, cp); }); }
ENTRY check_utf32le_to_cp() { decoder_contract(F32LE, true, [](const uint8_t* b, size_t n, int32_t& cp) { return utf32_to_cp<true>(b, b + n, cp); }); }
ENTRY check_utf32be_to_cp() { decoder_contract(F32BE, true, [](const uint8_t* b, size_t n, int32_t& cp) { return utf32_to_cp<false>(b, b + n, cp); }); }

// ---- pattern text decoding (the parser reads patterns with this one)
ENTRY check_utf8_to_unicode() {
  decoder_contract(F8, false, [](const uint8_t* b, size_t n, int32_t& cp) { return (uint32_t) utf8_to_unicode(cp, b, b + n); });
}
ENTRY check_utf8_to_unicode_char() {
  decoder_contract(F8, false, [](const uint8_t* b, size_t n, int32_t& cp) {
    return (uint32_t) utf8_to_unicode(cp, (const char*) b, (const char*) b + n); });
}

// ---- pattern-side decoders: fixed four-byte window
template <class Dec>
static void window_decoder_contract(Form f, Dec dec) {
  uint8_t* b = (uint8_t*) vc_alloc("in", 4, 1);
  int32_t cp = 0, want_cp = 0;
  const uint32_t want = spec_wf(f, b, 4, &want_cp);
  const uint32_t got = dec(b, cp);
  if (want) {
    PROVE("decoder accepts a well-formed sequence and consumes exactly it", got == want);
    PROVE("decoder yields the code point of a well-formed sequence", cp == want_cp);
  }
  else {
    PROVE("decoder rejects an ill-formed sequence", got == 0 || cp < 0);
  }
  vc_cover("end");
}
ENTRY check_dec_UTF8()    { window_decoder_contract(F8,    [](const uint8_t* b, int32_t& cp) { return obj<UTF8>().UTF8::write(b, cp); }); }
ENTRY check_dec_UTF16LE() { window_decoder_contract(F16LE, [](const uint8_t* b, int32_t& cp) { return obj<UTF16LE>().UTF16LE::write(b, cp); }); }
ENTRY check_dec_UTF16BE() { window_decoder_contract(F16BE, [](const uint8_t* b, int32_t& cp) { return obj<UTF16BE>().UTF16BE::write(b, cp); }); }
ENTRY check_dec_UTF32LE() { window_decoder_contract(F32LE, [](const uint8_t* b, int32_t& cp) { return obj<UTF32LE>().UTF32LE::write(b, cp); }); }
ENTRY check_dec_UTF32BE() { window_decoder_contract(F32BE, [](const uint8_t* b, int32_t& cp) { return obj<UTF32BE>().UTF32BE::write(b, cp); }); }

// ---- lemma over the two sides: decoding an encoding gives the value back, whatever follows it
template <class Enc, class Dec>
static void inverse_lemma(Enc enc, Dec dec) {
  const int32_t cp = (int32_t) vc_u32("cp");
  uint8_t* b = (uint8_t*) vc_alloc("buf", 8, 1);
  const uint32_t n = enc(cp, b);
  if (n) {
    int32_t back = -1;
    const uint32_t used = dec(b, back);
    PROVE("decoding an encoding consumes exactly it", used == n);
    PROVE("decoding an encoding gives the value back", back == cp);
    vc_cover("encoded");
  }
}
ENTRY check_inv_UTF8() { inverse_lemma([](int32_t cp, uint8_t* b) { return cp_to_utf8(cp, b); }, [](const uint8_t* b, int32_t& cp) { return utf8_to_cp(b, b + 8, cp); }); }
ENTRY check_inv_UTF16() {
  inverse_lemma([](int32_t cp, uint8_t* b) { return cp_to_utf16<true>(cp, b); }, [](const uint8_t* b, int32_t& cp) { return utf16_to_cp<true>(b, b + 8, cp); });
  inverse_lemma([](int32_t cp, uint8_t* b) { return cp_to_utf16<false>(cp, b); }, [](const uint8_t* b, int32_t& cp) { return utf16_to_cp<false>(b, b + 8, cp); });
}
ENTRY check_inv_UTF32() {
  inverse_lemma([](int32_t cp, uint8_t* b) { return cp_to_utf32<true>(cp, b); }, [](const uint8_t* b, int32_t& cp) { return utf32_to_cp<true>(b, b + 8, cp); });
  inverse_lemma([](int32_t cp, uint8_t* b) { return cp_to_utf32<false>(cp, b); }, [](const uint8_t* b, int32_t& cp) { return utf32_to_cp<false>(b, b + 8, cp); });
}

// ---- the decoder classes' own decode functions (what a search context uses)
#include "decoders/utf8decoder.h"
#include "decoders/utf16decoder.h"
#include "decoders/utf32decoder.h"
template <class D> static D& dobj() { return *(D*) rawobj; }   // the functions use no field
ENTRY check_UTF8Decoder()    { decoder_contract(F8,    true, [](const uint8_t* b, size_t n, int32_t& cp) { return dobj<UTF8Decoder>().UTF8Decoder::decode(b, b + n, cp); }); }
ENTRY check_UTF16LEDecoder() { decoder_contract(F16LE, true, [](const uint8_t* b, size_t n, int32_t& cp) { return dobj<UTF16LEDecoder>().UTF16LEDecoder::decode(b, b + n, cp); }); }
ENTRY check_UTF16BEDecoder() { decoder_contract(F16BE, true, [](const uint8_t* b, size_t n, int32_t& cp) { return dobj<UTF16BEDecoder>().UTF16BEDecoder::decode(b, b + n, cp); }); }
ENTRY check_UTF32LEDecoder() { decoder_contract(F32LE, true, [](const uint8_t* b, size_t n, int32_t& cp) { return dobj<UTF32LEDecoder>().UTF32LEDecoder::decode(b, b + n, cp); }); }
ENTRY check_UTF32BEDecoder() { decoder_contract(F32BE, true, [](const uint8_t* b, size_t n, int32_t& cp) { return dobj<UTF32BEDecoder>().UTF32BEDecoder::decode(b, b + n, cp); }); }
