// Specification of the Unicode encoding forms, written from the Unicode Standard (section 3.9,
// tables 3-5, 3-6 and 3-7), independently of the code in /repo.
#pragma once
#include <cstdint>
#include <cstddef>

static inline bool scalar(int64_t cp) { return (0 <= cp && cp <= 0xD7FF) || (0xE000 <= cp && cp <= 0x10FFFF); }

enum Form { F8, F16LE, F16BE, F32LE, F32BE };

static inline uint32_t spec_len(Form f, int32_t cp) {
  if (!scalar(cp)) return 0;
  switch (f) {
    case F8:    return cp <= 0x7F ? 1 : cp <= 0x7FF ? 2 : cp <= 0xFFFF ? 3 : 4;
    case F16LE:
    case F16BE: return cp <= 0xFFFF ? 2 : 4;
    default:    return 4;
  }
}

// byte j of the encoding of scalar value cp
static inline uint8_t spec_byte(Form f, int32_t cp, uint32_t j) {
  const uint32_t u = cp;
  switch (f) {
    case F8: {
      const uint32_t n = spec_len(F8, cp);
      if (n == 1) return u;
      if (j == 0) return n == 2 ? 0xC0 + (u / 64) : n == 3 ? 0xE0 + (u / 4096) : 0xF0 + (u / 262144);
      return 0x80 + ((u >> (6 * (n - 1 - j))) % 64);
    }
    case F16LE:
    case F16BE: {
      uint32_t unit = u;
      if (u > 0xFFFF) unit = j < 2 ? 0xD800 + (u - 0x10000) / 1024 : 0xDC00 + (u - 0x10000) % 1024;
      const bool low = (j % 2 == 0) == (f == F16LE);
      return low ? unit % 256 : unit / 256;
    }
    default: {
      const uint32_t k = f == F32LE ? j : 3 - j;
      return (u >> (8 * k)) % 256;
    }
  }
}

// length of the well-formed sequence at the start of b[0,n), or 0 if there is none (table 3-7 etc.)
static inline uint32_t spec_wf(Form f, const uint8_t* b, size_t n, int32_t* cp) {
  if (f == F8) {
    if (n < 1) return 0;
    const uint32_t b0 = b[0];
    if (b0 <= 0x7F) { *cp = b0; return 1; }
    if (b0 < 0xC2 || b0 > 0xF4) return 0;
    if (n < 2) return 0;
    const uint32_t b1 = b[1];
    uint32_t lo = 0x80, hi = 0xBF;
    if (b0 == 0xE0) lo = 0xA0;
    if (b0 == 0xED) hi = 0x9F;
    if (b0 == 0xF0) lo = 0x90;
    if (b0 == 0xF4) hi = 0x8F;
    if (b1 < lo || b1 > hi) return 0;
    if (b0 <= 0xDF) { *cp = (b0 - 0xC0) * 64 + (b1 - 0x80); return 2; }
    if (n < 3) return 0;
    const uint32_t b2 = b[2];
    if (b2 < 0x80 || b2 > 0xBF) return 0;
    if (b0 <= 0xEF) { *cp = (b0 - 0xE0) * 4096 + (b1 - 0x80) * 64 + (b2 - 0x80); return 3; }
    if (n < 4) return 0;
    const uint32_t b3 = b[3];
    if (b3 < 0x80 || b3 > 0xBF) return 0;
    *cp = (b0 - 0xF0) * 262144 + (b1 - 0x80) * 4096 + (b2 - 0x80) * 64 + (b3 - 0x80);
    return 4;
  }
  if (f == F16LE || f == F16BE) {
    if (n < 2) return 0;
    const uint32_t u0 = f == F16LE ? b[0] + 256u * b[1] : b[1] + 256u * b[0];
    if (u0 < 0xD800 || u0 > 0xDFFF) { *cp = u0; return 2; }
    if (u0 > 0xDBFF || n < 4) return 0;
    const uint32_t u1 = f == F16LE ? b[2] + 256u * b[3] : b[3] + 256u * b[2];
    if (u1 < 0xDC00 || u1 > 0xDFFF) return 0;
    *cp = 0x10000 + (u0 - 0xD800) * 1024 + (u1 - 0xDC00);
    return 4;
  }
  if (n < 4) return 0;
  const uint32_t u = f == F32LE ? b[0] + 256u * b[1] + 65536u * b[2] + 16777216u * b[3]
                                : b[3] + 256u * b[2] + 65536u * b[1] + 16777216u * b[0];
  if (u > 0x10FFFF || (0xD800 <= u && u <= 0xDFFF)) return 0;
  *cp = u;
  return 4;
}
