// C13, bounded: the search controller and the hit writer on random texts in blocks of random size.
#include "vc.h"
#include <cstring>
#include <sstream>
#include <map>
#include <string>
#include <vector>
#include "src/cmd/hitwriter.cpp"
#include "src/cmd/searchcontroller.cpp"
#include "handles.h"

// blocks in two buffers used in turn, each exactly as long as its content
struct Blocks: Reader {
  std::string text; size_t at = 0; std::unique_ptr<char[]> cur, next;
  std::future<std::pair<const char*, size_t>> read(size_t n) override {
    if (n > text.size() - at) n = text.size() - at;
    cur = std::move(next);
    next.reset(new char[n]);
    memcpy(next.get(), text.data() + at, n);
    at += n;
    std::promise<std::pair<const char*, size_t>> p;
    p.set_value({next.get(), n});
    return p.get_future();
  }
};
static std::vector<LG_SearchHit> hits;
static void both(void* d, const LG_SearchHit* h) {
  hits.push_back(*h);
  callbackFn<DoNotWritePath, WriteContext, true>(d, h);
}
static size_t line_start(const std::string& t, size_t p) { while (p && t[p - 1] != '\n') --p; return p; }
ENTRY native_blocks() {
  Blocks r;
  const size_t n = vc_rand(40);
  for (size_t i = 0; i < n; ++i) r.text += "ffoox\nx"[vc_rand(7)];
  if (r.text.empty()) r.text = "foo";
  const char* pats[] = {"fo+", "foo", "f[^x]*o", "o\\n*x"};
  LG_KeyOptions ko{0, 0, 0}; LG_ProgramOptions po{0xffffffff};
  LG_HPATTERN p = lg_create_pattern(); LG_HFSM f = lg_create_fsm(1, 10);
  LG_Error* err = 0;
  lg_parse_pattern(p, pats[vc_rand(4)], &ko, &err); lg_add_pattern(f, p, "ASCII", 0, &err);
  LG_HPROGRAM g = lg_create_program(f, &po);
  LG_ContextOptions co{~0ull, ~0ull};
  LG_HCONTEXT c = lg_create_context(g, &co);
  PROVE("set up", g && c && !err);
  const bool whole = vc_rand(3) == 0;
  SearchController ctrl(whole ? r.text.size() : 1 + vc_rand(r.text.size()));
  std::ostringstream out;
  const int b = (int) vc_rand(4) - 1, a = (int) vc_rand(4) - 1;
  HitOutputData d(out, g, '\t', "--", b, a, true);
  hits.clear();
  const std::string text = r.text;
  ctrl.searchFile(c, &d, r, both);
  size_t all = 0;
  std::map<std::string, size_t> want;
  for (const LG_SearchHit& h : hits) {
    PROVE("hits lie in the text", h.Start <= h.End && h.End <= text.size());
    ++want[text.substr(h.Start, h.End - h.Start)];
  }
  for (const auto& k : d.HistInfo.Histogram) {
    all += k.second;
    PROVE("hit texts come from the text", text.find(k.first.HitText) != std::string::npos);
    if (whole) PROVE("hits are counted by their text", want[k.first.HitText] == k.second);
  }
  PROVE("every hit is counted", all == hits.size());
  if (whole && hits.size() == 1 && b >= 0) {
    size_t s = line_start(text, hits[0].Start);
    for (int i = 0; i < b && s; ++i) s = line_start(text, s - 1);
    const std::string o = out.str();
    PROVE("context starts where its first line starts", o.find("\t" + std::to_string(s) + "\t") != std::string::npos);
  }
  lg_destroy_context(c); lg_destroy_program(g); lg_destroy_fsm(f); lg_destroy_pattern(p);
}
