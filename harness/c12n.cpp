// C12, bounded: random programs saved and loaded find the same hits, under the same patterns.
#include "vc.h"
#include <cstring>
#include <memory>
#include "patgen.h"
#include "handles.h"
#include "lightgrep/api.h"
#include "lightgrep/util.h"

static std::string of(const LG_SearchHit& h) { return std::to_string(h.Start) + "-" + std::to_string(h.End) + ":" + std::to_string(h.KeywordIndex) + " "; }
static void hit(void* s, const LG_SearchHit* h) { *(std::string*) s += of(*h); }
static std::string search(LG_HPROGRAM g, const std::string& t, size_t cut) {
  LG_ContextOptions co{~0ull, ~0ull};
  LG_HCONTEXT c = lg_create_context(g, &co);
  std::string s;
  const char* const b = t.data();
  lg_search(c, b, b + cut, 0, &s, hit);
  lg_search(c, b + cut, b + t.size(), cut, &s, hit);
  lg_closeout_search(c, &s, hit);
  s += "; ";
  lg_reset_context(c);
  lg_starts_with(c, b, b + t.size(), 0, &s, hit);
  lg_destroy_context(c);
  return s;
}
ENTRY native_saved() {
  LG_HPATTERN p = lg_create_pattern(); LG_HFSM f = lg_create_fsm(vc_rand(3), vc_rand(50));
  for (int n = 1 + vc_rand(vc_rand(6) ? 4 : 40); n > 0; --n) {
    LG_KeyOptions ko{(char) vc_rand(2), (char) vc_rand(2), (char) vc_rand(2)};
    const std::string s = vc_rand(8) ? gen_alt(2) : std::string(vc_rand(300) + 1, "ab"[vc_rand(2)]);
    static const char* const enc[] = {"ASCII", "ASCII", "UTF-8", "UTF-16LE", "rot13|ASCII", "ASCII|XOR21", "UTF-16BE|XOR85"};
    if (lg_parse_pattern(p, s.c_str(), &ko, nullptr)) lg_add_pattern(f, p, enc[vc_rand(7)], vc_rand(4) ? vc_rand(100) : (uint64_t) vc_rand(100) << 57 | vc_rand(100), nullptr);
  }
  const unsigned pats = lg_fsm_pattern_count(f);
  if (pats) {
    LG_ProgramOptions po{vc_rand(2) ? 0u : 0xffffffffu};
    LG_HPROGRAM g = lg_create_program(f, &po);
    PROVE("a program is made", g);
    const unsigned size = lg_program_size(g);
    std::unique_ptr<char[]> buf(new char[size]), again(new char[size]); // a byte more is noticed
    lg_write_program(g, buf.get());
    LG_HPROGRAM g2 = lg_read_program(buf.get(), size);
    PROVE("a saved program is loaded", g2);
    PROVE("it has the size of what was saved", lg_program_size(g2) == size);
    lg_write_program(g2, again.get());
    PROVE("saved again it is the same", !memcmp(buf.get(), again.get(), size));
    PROVE("it has the patterns", lg_prog_pattern_count(g2) == pats);
    for (unsigned i = 0; i < pats; ++i) {
      const LG_PatternInfo *a = lg_prog_pattern_info(g, i), *b = lg_prog_pattern_info(g2, i);
      PROVE("under the same indices", a && b && !strcmp(a->Pattern, b->Pattern) && !strcmp(a->EncodingChain, b->EncodingChain) && a->UserIndex == b->UserIndex);
    }
    for (int n = 3; n > 0; --n) {
      std::string t;
      for (int k = vc_rand(60); k > 0; --k) t += vc_rand(4) ? "abcdx"[vc_rand(5)] : (char) vc_rand(256);
      const size_t cut = vc_rand(t.size() + 1);
      PROVE("it finds the same hits", search(g, t, cut) == search(g2, t, cut));
    }
    std::unique_ptr<char[]> part(new char[size]);
    const unsigned some = vc_rand(size);
    part.reset(new char[some]); memcpy(part.get(), buf.get(), some);
    LG_HPROGRAM g3 = lg_read_program(part.get(), some);
    PROVE("a part of a saved program is not loaded", !g3);
    lg_destroy_program(g2); lg_destroy_program(g);
  }
  lg_destroy_fsm(f); lg_destroy_pattern(p);
}
