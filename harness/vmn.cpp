// C08, C09, C10, bounded: whole random programs on random texts, cut into blocks at random places.
#include "vc.h"
#include "patgen.h"
#include <algorithm>
#include <array>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>

struct Hit { uint64_t s, e; uint32_t l; bool operator==(const Hit& h) const { return s == h.s && e == h.e && l == h.l; } };
typedef std::vector<Hit> Hits;
static void collect(void* u, const LG_SearchHit* h) { ((Hits*) u)->push_back(Hit{h->Start, h->End, (uint32_t) h->KeywordIndex}); }
typedef std::map<uint32_t, std::vector<std::pair<uint64_t, uint64_t>>> ByLabel;
static ByLabel by_label(const Hits& hs) { ByLabel m; for (const Hit& h : hs) m[h.l].emplace_back(h.s, h.e); return m; }

static std::string any_text(size_t most) {
  std::string t;
  const size_t n = vc_rand(most + 1), kind = vc_rand(3);
  for (size_t i = 0; i < n; ++i) t += kind == 0 ? "ab"[vc_rand(2)] : kind == 1 ? "abcdx"[vc_rand(5)] : (vc_rand(8) ? "abc\0"[vc_rand(4)] : (char) vc_rand(256));
  return t;
}
// The engine follows every path on its own unless a check stops it, which can take exponentially many
// threads; searches that could need too many are left out.
static bool tame(const NFA& g, const std::string& text) {
  std::vector<std::array<bool, 256>> in(g.verticesSize());
  for (size_t v = 1; v < g.verticesSize(); ++v) { ByteSet bs; g[v].Trans->getBytes(bs); for (unsigned c = 0; c < 256; ++c) in[v][c] = bs.test(c); }
  std::vector<double> n(g.verticesSize(), 0);
  for (char ch : text) {
    std::vector<double> m(n.size(), 0);
    double all = 0;
    n[0] = 1;
    for (size_t v = 0; v < n.size(); ++v) if (n[v] > 0)
      for (size_t i = 0; i < g.outDegree(v); ++i) { const size_t w = g.outVertex(v, i); if (in[w][(byte) ch]) { m[w] += n[v]; all += n[v]; } }
    if (all > 5000) return false;
    n.swap(m);
  }
  return true;
}
// one search over blocks that are exactly as long as they say
static Hits run(Vm& vm, const std::string& text, uint64_t off, size_t cuts) {
  Hits hs;
  std::set<size_t> at;
  for (size_t i = 0; i < cuts; ++i) at.insert(vc_rand(text.size() + 1));
  at.insert(text.size());
  size_t p = 0;
  std::vector<std::pair<size_t, uint64_t>> lives;
  for (size_t q : at) {
    byte* b = (byte*) malloc(q - p ? q - p : 1);
    memcpy(b, text.data() + p, q - p);
    const uint64_t live = vm.search(b, b + (q - p), off + p, collect, &hs);
    free(b);
    PROVE("the start of the oldest match in progress is at most the end", live <= off + q);
    lives.emplace_back(hs.size(), live);
    p = q;
  }
  vm.closeOut(collect, &hs);
  for (auto& l : lives)
    for (size_t i = l.first; i < hs.size(); ++i) PROVE("no hit still to come starts before the start of the oldest match in progress", hs[i].s >= l.second);
  return hs;
}

ENTRY native_c08() {
  std::unique_ptr<FSMThingy> f;
  if (!gen_fsm(f, 4, vc_rand(2) ? 0 : 1 + vc_rand(200))) return;
  const ProgramPtr p = Compiler::createProgram(*f->Fsm);
  Vm vm(p);
  for (int i = 0; i < 6; ++i) {
    const uint64_t off = vc_rand(2) ? 0 : vc_rand(1000);
    const std::string text = any_text(40);
    if (!tame(*f->Fsm, text)) continue;
    const Hits hs = run(vm, text, off, vc_rand(6));
    for (auto& l : by_label(hs)) {
      uint64_t last = 0;
      for (auto& h : l.second) {
        PROVE("a hit is not empty", h.first < h.second && h.first >= off && h.second <= off + text.size());
        PROVE("a hit starts at or after the end of the previous hit of its pattern", h.first >= last);
        last = h.second;
      }
    }
    Hits again;
    vm.closeOut(collect, &again);
    PROVE("a match is reported at most once", again.empty());
    vm.reset();
    PROVE("clearing the context forgets all earlier hits", run(vm, text, off, 0).size() == hs.size());
    vm.reset();
  }
}

ENTRY native_c10() {
  std::unique_ptr<FSMThingy> f;
  if (!gen_fsm(f, 4, vc_rand(2) ? 0 : 1 + vc_rand(200))) return;
  const ProgramPtr p = Compiler::createProgram(*f->Fsm);
  Vm vm(p);
  for (int i = 0; i < 6; ++i) {
    const uint64_t off = vc_rand(2) ? 0 : vc_rand(1ull << 40);
    const std::string text = any_text(40);
    if (!tame(*f->Fsm, text)) continue;
    Vm whole(p), cut(p);
    const ByLabel want = by_label(run(whole, text, 0, 0));
    ByLabel got = by_label(run(cut, text, off, 1 + vc_rand(8)));
    for (auto& l : got) for (auto& h : l.second) { h.first -= off; h.second -= off; }
    PROVE("cutting the data into blocks, and where the stream starts, change no hit", got == want);
    // byte by byte
    Vm bytes(p);
    PROVE("cutting the data into blocks, and where the stream starts, change no hit", by_label(run(bytes, text, 0, text.size() * 4)) == want);
    // what starts at the start of the text
    Hits hs;
    byte* b = (byte*) malloc(text.size() + 1);
    byte* e = (byte*) malloc(text.size() ? text.size() : 1);
    memcpy(e, text.data(), text.size());
    vm.startsWith(e, e + text.size(), off, collect, &hs);
    free(e); free(b);
    ByLabel first;
    for (auto& l : want) if (l.second[0].first == 0) first[l.first].push_back(l.second[0]);
    ByLabel starts = by_label(hs);
    for (auto& l : starts) for (auto& h : l.second) { h.first -= off; h.second -= off; }
    PROVE("matching at the start finds what a search finds there", starts == first);
    // resolving: what was in progress at a cut ends as it would have
    const size_t c = vc_rand(text.size() + 1);
    Vm res(p);
    Hits head, tail;
    byte* x = (byte*) malloc(c ? c : 1); memcpy(x, text.data(), c);
    res.search(x, x + c, off, collect, &head);
    free(x);
    byte* y = (byte*) malloc(text.size() - c ? text.size() - c : 1); memcpy(y, text.data() + c, text.size() - c);
    res.searchResolve(y, y + (text.size() - c), off + c, collect, &tail);
    free(y);
    res.closeOut(collect, &tail);
    head.insert(head.end(), tail.begin(), tail.end());
    ByLabel resolved = by_label(head), before;
    for (auto& l : resolved) for (auto& h : l.second) { h.first -= off; h.second -= off; }
    for (auto& l : want) for (auto& h : l.second) if (h.first < c) before[l.first].push_back(h);
    PROVE("resolving finds exactly the hits that start before the cut", resolved == before);
  }
}

// the reference: priorities as the graph orders them, by backtracking
struct Ref {
  const NFA& g; const std::string& t; uint32_t label;
  std::set<std::tuple<size_t, size_t, bool>> dead;
  static bool takes(const NFA& g, size_t v, byte c) { ByteSet bs; g[v].Trans->getBytes(bs); return bs.test(c); }
  // the preferred end of a match of `label` for a thread that has just entered v at text position p
  bool end(size_t v, size_t p, bool named, size_t& e) {
    if (v) {
      if (g[v].Label != NONE) { if (g[v].Label != label) return false; named = true; }
    }
    if (dead.count(std::make_tuple(v, p, named))) return false;
    if (p < t.size())
      for (size_t i = 0; i < g.outDegree(v); ++i) {
        const size_t w = g.outVertex(v, i);
        if (takes(g, w, t[p]) && end(w, p + 1, named, e)) return true;
      }
    if (v && g[v].IsMatch && named) { e = p; return true; }
    dead.insert(std::make_tuple(v, p, named));
    return false;
  }
};
ENTRY native_c09() {
  std::unique_ptr<FSMThingy> f;
  std::vector<std::string> pats;
  if (!gen_fsm(f, 4, vc_rand(2) ? 0 : 1 + vc_rand(200), &pats)) return;
  const NFA& g = *f->Fsm;
  if (g.verticesSize() > 200) return;
  const ProgramPtr p = Compiler::createProgram(g);
  Vm vm(p);
  for (int i = 0; i < 4; ++i) {
    const std::string text = any_text(24);
    if (!tame(g, text)) continue;
    ByLabel got = by_label(run(vm, text, 0, vc_rand(3))), want;
    vm.reset();
    for (uint32_t l = 0; l < pats.size(); ++l)
      for (size_t s = 0; s < text.size();) {
        Ref r{g, text, l, {}};
        size_t e;
        if (r.end(0, s, false, e) && e > s) { want[l].emplace_back(s, e); s = e; }
        else ++s;
      }
    PROVE("hits are the leftmost matches of highest priority", got == want);
  }
}
