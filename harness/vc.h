// Verification intrinsics.  Under the verifier they are interpreted symbolically; compiled
// natively (-DVC_NATIVE) they replay a counterexample or drive random inputs through the same
// contracts against the real code (native.cpp).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint8_t  vc_u8(const char* name);
uint16_t vc_u16(const char* name);
uint32_t vc_u32(const char* name);
uint64_t vc_u64(const char* name);
bool     vc_bool(const char* name);
uint64_t vc_range(const char* name, uint64_t lo, uint64_t hi);   // lo <= result <= hi
void     vc_assume(bool);
void     vc_prove(const char* name, bool);
void     vc_cover(const char* name);                       // must be reachable
void*    vc_alloc(const char* name, size_t n, int gran);   // n bytes of arbitrary content
void     vc_havoc(void* p, size_t n);
// hypothesis: for all k in [lo,hi): fn(k, ctx)     (trigger: reads of the array at p with this stride)
void     vc_forall(const void* p, size_t stride, size_t lo, size_t hi, bool (*fn)(size_t, const void*), const void* ctx);
// hypothesis: for all a < b in [lo,hi): fn(a, b, ctx)
void     vc_forall2(const void* p, size_t stride, size_t lo, size_t hi, bool (*fn)(size_t, size_t, const void*), const void* ctx);
void     vc_hint(size_t k);
uint64_t vc_rand(uint64_t n);                              // native only: generator for structured inputs
}
#ifdef VC_NATIVE
#define BIG(big, small) (small)       // size limit: of the proof, of the random drive
#else
#define BIG(big, small) (big)
#endif
#define PROVE(name, c) vc_prove(name, c)
#define ENTRY extern "C" __attribute__((noinline)) void
