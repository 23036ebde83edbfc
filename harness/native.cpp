// Native side of the verification intrinsics: replays a counterexample, or drives random inputs
// through the same contracts against the real code compiled with AddressSanitizer.
#include "vc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <ctime>
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <set>
#include <dlfcn.h>
#include <unistd.h>
#include <sanitizer/common_interface_defs.h>

static bool replaying = false, failed = false;
static std::map<std::string, std::deque<uint64_t>> rnd;
static std::map<std::string, std::deque<std::vector<uint8_t>>> ralloc;
static std::vector<std::pair<std::string, uint64_t>> log_nd;
static std::vector<std::pair<std::string, std::vector<uint8_t>>> log_alloc;
static std::vector<void*> live;
static std::string failname;
static sigjmp_buf jb;
static uint64_t rs = 88172645463325252ull;
static uint64_t rs0 = 0;      // generator state at the start of the run
static int mode = 0;
static std::map<std::string, unsigned long> covers;
static std::set<std::string> seenproofs;
static unsigned long proofs = 0;

static uint64_t r64() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
static uint64_t rn(uint64_t n) { return n ? r64() % n : 0; }

static void dump(const char* what) {
  fflush(stdout);
  printf("FAILED %s\n", what);
  printf("{\"nd\":[");
  bool first = true;
  for (auto& p : log_nd) { printf("%s[\"%s\",%llu]", first ? "" : ",", p.first.c_str(), (unsigned long long) p.second); first = false; }
  printf("],\"alloc\":[");
  first = true;
  for (auto& p : log_alloc) {
    printf("%s[\"%s\",%zu,\"", first ? "" : ",", p.first.c_str(), p.second.size());
    for (auto b : p.second) printf("%02x", b);
    printf("\"]");
    first = false;
  }
  printf("],\"state\":%llu}\n", (unsigned long long) rs0);
  fflush(stdout);
}

static uint64_t special(int w) {
  static const uint64_t sp[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 13, 15, 16, 25, 26, 27, 31, 32, 33, 48, 57, 63, 64, 65, 70, 90, 97, 122, 125, 126, 127, 128, 129, 191, 192, 193, 194,
    223, 224, 237, 239, 240, 244, 245, 254, 255, 256, 257, 511, 512, 513, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000,
    0x10001, 0x10FFFF, 0x110000, 0xFFFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE };
  uint64_t v = sp[rn(sizeof(sp) / sizeof(*sp))];
  if (rn(6) == 0) v = -v - rn(3);
  return w == 64 ? v : v & ((1ull << w) - 1);
}

static uint64_t gen(int w) {
  uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1;
  switch (rn(8)) {
    case 0: return r64() & m;
    case 1: case 2: return special(w);
    case 3: return rn(4) & m;
    case 4: return rn(256) & m;
    case 5: return (w > 8 ? rn(0x120000) : rn(256)) & m;
    default: return rn(w == 64 ? 24 : 40) & m;
  }
}

static uint64_t nd(const char* name, int w) {
  uint64_t v;
  auto& q = rnd[name];
  if (replaying && !q.empty()) { v = q.front(); q.pop_front(); }
  else v = w == 1 ? rn(2) : gen(w);
  log_nd.emplace_back(name, v);
  return v;
}

extern "C" {
uint8_t  vc_u8(const char* n)  { return nd(n, 8); }
uint16_t vc_u16(const char* n) { return nd(n, 16); }
uint32_t vc_u32(const char* n) { return nd(n, 32); }
uint64_t vc_u64(const char* n) { return nd(n, 64); }
bool     vc_bool(const char* n) { return nd(n, 1) & 1; }
uint64_t vc_range(const char* n, uint64_t lo, uint64_t hi) {
  auto& q = rnd[n];
  uint64_t v;
  if (replaying && !q.empty()) { v = q.front(); q.pop_front(); }
  else {
    const uint64_t w = hi - lo;
    switch (rn(6)) {
      case 0: v = lo + (rn(3) > w ? 0 : rn(3)); break;
      case 1: v = hi - (w < 3 ? rn(w + 1) : rn(3)); break;
      case 2: v = special(64); break;
      default: v = lo + (w == ~0ull ? r64() : rn(w + 1));
    }
    if (v < lo || v > hi) v = lo + (w == ~0ull ? r64() : rn(w + 1));
  }
  log_nd.emplace_back(n, v);
  if (v < lo || v > hi) siglongjmp(jb, 1);
  return v;
}
void vc_assume(bool c) { if (!c) siglongjmp(jb, 1); }
void vc_prove(const char* name, bool c) {
  ++proofs;
  if (!c) { failname = name; siglongjmp(jb, 2); }
}
void vc_cover(const char* name) { ++covers[name]; }
void* vc_alloc(const char* name, size_t n, int gran) {
  if (n > (1u << 20)) siglongjmp(jb, 1);
  uint8_t* p = (uint8_t*) malloc(n ? n : 1);
  if (!n) { free(p); p = (uint8_t*) malloc(0); }
  live.push_back(p);
  auto& q = ralloc[name];
  if (replaying && !q.empty()) {
    auto& d = q.front();
    for (size_t i = 0; i < n; ++i) p[i] = i < d.size() ? d[i] : 0;
    q.pop_front();
  }
  else {
    if (gran <= 1) {
      int k = rn(5);
      uint8_t pal[4] = { (uint8_t) special(8), (uint8_t) special(8), (uint8_t) rn(256), (uint8_t) special(8) };
      for (size_t i = 0; i < n; ++i) p[i] = k == 0 ? rn(256) : k <= 2 ? special(8) : pal[rn(k == 3 ? 2 : 4)];
    }
    else {
      const int k = rn(3);
      for (size_t i = 0; i + gran <= n; i += gran) {
        uint64_t v = k == 0 ? gen(gran * 8) : k == 1 ? rn(n / gran + 2) : rn(6);
        memcpy(p + i, &v, gran < 8 ? gran : 8);
        if (gran > 8) memset(p + i + 8, 0, gran - 8);
      }
    }
  }
  log_alloc.emplace_back(name, std::vector<uint8_t>(p, p + n));
  return p;
}
void vc_havoc(void* p, size_t n) { for (size_t i = 0; i < n; ++i) ((uint8_t*) p)[i] = rn(256); }
void vc_forall(const void*, size_t, size_t lo, size_t hi, bool (*fn)(size_t, const void*), const void* ctx) {
  for (size_t k = lo; k < hi; ++k) vc_assume(fn(k, ctx));
}
void vc_forall2(const void*, size_t, size_t lo, size_t hi, bool (*fn)(size_t, size_t, const void*), const void* ctx) {
  for (size_t a = lo; a < hi; ++a) for (size_t b = a + 1; b < hi; ++b) vc_assume(fn(a, b, ctx));
}
void vc_hint(size_t) {}
int vc_native(void) { return 1; }
uint64_t vc_rand(uint64_t n) { return rn(n); }
}

static void death() { dump("memory error (AddressSanitizer)"); }

static void load(const char* path) {
  FILE* f = fopen(path, "r");
  if (!f) exit(9);
  char kind[16], name[512];
  while (fscanf(f, "%15s %511s", kind, name) == 2) {
    if (!strcmp(kind, "nd")) { unsigned long long v; if (fscanf(f, "%llu", &v) != 1) break; rnd[name].push_back(v); }
    else {
      size_t n; std::vector<uint8_t> d; char* hex = (char*) malloc(1 << 20);
      if (fscanf(f, "%zu %1000000s", &n, hex) != 2) break;
      for (size_t i = 0; hex[i] && hex[i] != '-' && hex[i + 1]; i += 2) { unsigned b; sscanf(hex + i, "%2x", &b); d.push_back(b); }
      free(hex);
      ralloc[name].push_back(d);
    }
  }
  fclose(f);
}

int main(int argc, char** argv) {
  if (argc < 4) return 9;
  void (*fn)() = (void (*)()) dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { printf("no entry %s\n", argv[1]); return 9; }
  __sanitizer_set_death_callback(death);
  const bool rep = !strcmp(argv[2], "replay");
  const double limit = rep || !strcmp(argv[2], "state") ? 0 : atof(argv[3]);
  volatile unsigned long done = 0, tried = 0;
  const unsigned long maxruns = argc > 5 ? strtoul(argv[5], 0, 10) : ~0ul;
  if (!rep && argc > 4) { rs ^= strtoull(argv[4], 0, 10) * 0x9E3779B97F4A7C15ull; if (!rs) rs = 1; for (int i = 0; i < 20; ++i) r64(); }
  timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
  do {
    replaying = rep;
    rnd.clear(); ralloc.clear(); log_nd.clear(); log_alloc.clear();
    if (!strcmp(argv[2], "state")) rs = strtoull(argv[3], 0, 10);
    rs0 = rs;
    if (rep) load(argv[3]);
    const int j = sigsetjmp(jb, 0);
    if (j == 0) {
      try { fn(); ++done; }
      catch (std::exception& e) { dump((std::string("an exception escapes: ") + e.what()).c_str()); return 3; }
      catch (...) { dump("an exception escapes"); return 3; }
    }
    else if (j == 2) { dump(failname.c_str()); return 3; }
    for (void* p : live) free(p);
    live.clear();
    ++tried;
    clock_gettime(CLOCK_MONOTONIC, &t);
  } while (!rep && tried < maxruns && (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) < limit);
  printf("RUNS %lu COMPLETED %lu PROOFS %lu\n", (unsigned long) tried, (unsigned long) done, proofs);
  for (auto& c : covers) printf("COVER %lu %s\n", c.second, c.first.c_str());
  fflush(stdout);
  _exit(0);
}
