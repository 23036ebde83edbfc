// C16, bounded: the real entry points with an allocation that fails at a random point.
#include "vc.h"
#include <cstdlib>
#include <cstring>
#include <memory>
#include <new>
#include "patgen.h"
#include "handles.h"
#include "lightgrep/api.h"
#include "lightgrep/util.h"

static long fail_at = -1; // the allocation which fails; -1: none
static bool failed;
static bool fail_now() { if (fail_at < 0 || fail_at-- > 0) return false; failed = true; return true; }
static void* get(size_t n) { if (fail_now()) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
static void* get0(size_t n) noexcept { return fail_now() ? nullptr : malloc(n ? n : 1); }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get0(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get0(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// nothing but a result may come out of f
template <class F> static void call(bool inject, F f) {
  bool threw = false;
  failed = false;
  fail_at = inject ? (long) vc_rand(1 << vc_rand(11)) : -1;
  try { f(); } catch (...) { threw = true; }
  fail_at = -1;
  PROVE("no exception leaves the entry point", !threw);
}

static std::string gen_line() {
  static const char* const odd[] = {"(", "a{3,1}", "[z-a]", "\\", "*", "a**", "(?<=x)y", "\\zZZ", "\\N{nope}", ""};
  return vc_rand(4) ? gen_alt(1) : std::string(odd[vc_rand(10)]);
}
static const char* enc() { static const char* const e[] = {"ASCII", "UTF-8", "UTF-16LE", "nope", "", "rot13|ASCII", "ASCII|XOR21", "OCE"}; return e[vc_rand(8)]; }
static void hit(void* n, const LG_SearchHit* h) { ++*(size_t*) n; PROVE("hits are in order", h->Start <= h->End); }

ENTRY native_faults() {
  const bool inject = vc_rand(4);
  const bool ask = vc_rand(2);
  LG_Error* err = 0;
  LG_HPATTERN p = 0; LG_HFSM f = 0;
  call(inject, [&] { p = lg_create_pattern(); });
  PROVE("a pattern, or a failure", p || failed);
  call(inject && vc_rand(2), [&] { f = lg_create_fsm(vc_rand(5), vc_rand(50)); });
  PROVE("an automaton, or a failure", f || failed);
  LG_KeyOptions ko{(char) vc_rand(2), (char) vc_rand(2), (char) vc_rand(2)};
  int added = 0;
  for (int n = 1 + vc_rand(3); n > 0; --n) {
    const std::string s = gen_line();
    std::unique_ptr<char[]> slice(new char[s.size()]); // exactly as long as the pattern
    memcpy(slice.get(), s.data(), s.size());
    int r = -1;
    call(inject, [&] { r = lg_parse_pattern_slice(p, slice.get(), s.size(), &ko, ask ? &err : 0); });
    PROVE("zero or positive", r >= 0);
    PROVE("a failure has an error, unless there is no memory for it", r || !ask || err || failed);
    PROVE("a success has none", !r || !err);
    PROVE("without a pattern handle it fails", p || !r);
    lg_free_error(err); err = 0;
    if (!r) continue;
    int i = 0; const char* const e = enc();
    const int before = f ? (int) lg_fsm_pattern_count(f) : 0;
    call(inject, [&] { i = lg_add_pattern(f, p, e, 7, ask ? &err : 0); });
    PROVE("a failure to add has an error, unless there is no memory for it", i >= 0 || !ask || err || failed);
    PROVE("an added pattern has none", i < 0 || !err);
    PROVE("an added pattern has the next index", i < 0 || (f && i == before && lg_fsm_pattern_count(f) == before + 1u && lg_fsm_pattern_info(f, i)->UserIndex == 7));
    added += i >= 0;
    lg_free_error(err); err = 0;
    if (failed) break; // the automaton may hold a part of the pattern
  }
  if (f && !failed && vc_rand(2)) {
    std::string list; int lines = 0;
    for (int n = vc_rand(4); n > 0; --n) { list += gen_line(); if (vc_rand(2)) { list += "\t"; list += enc(); if (vc_rand(2)) list += vc_rand(3) ? "\t1" : "\tx"; } list += "\n"; ++lines; }
    const char* encs[] = {"ASCII", "UTF-8"};
    int r = 1;
    call(false, [&] { r = lg_add_pattern_list(f, list.c_str(), "src", encs, 1 + vc_rand(2), &ko, ask ? &err : 0); });
    PROVE("0 or negative", r <= 0);
    PROVE("a failed list has an error", r == 0 || !ask || err || failed);
    PROVE("a list without failure has none", r < 0 || !err);
    for (LG_Error* e = err; e; e = e->Next) PROVE("the line of an error", e->Index >= -1 && e->Index < lines);
    lg_free_error(err); err = 0;
    added = lg_fsm_pattern_count(f);
  }
  if (f && !failed && added) {
    LG_ProgramOptions po{vc_rand(2) ? 0u : 0xffffffffu};
    LG_HPROGRAM g = 0, g2 = 0;
    call(inject && vc_rand(3) == 0, [&] { g = lg_create_program(f, &po); });
    PROVE("a program, or a failure", g || failed || !lg_fsm_pattern_count(f));
    if (g) {
      const unsigned size = lg_program_size(g);
      std::unique_ptr<char[]> buf(new char[size]);
      if (vc_rand(3) == 0) { // write, load, perhaps from a truncated buffer
        call(false, [&] { lg_write_program(g, buf.get()); });
        const unsigned some = vc_rand(2) ? size : vc_rand(size);
        std::unique_ptr<char[]> part(new char[some]);
        memcpy(part.get(), buf.get(), some);
        const bool cut = some != size;
        call(inject, [&] { g2 = lg_read_program(part.get(), some); });
        PROVE("no program from a part of it", !cut || !g2);
        PROVE("a program from all of it, or a failure", cut || g2 || failed);
        if (g2) PROVE("as many patterns", lg_prog_pattern_count(g2) == lg_prog_pattern_count(g));
        lg_destroy_program(g2);
      }
      else if (inject) call(true, [&] { lg_write_program(g, buf.get()); });
      LG_ContextOptions co{~0ull, ~0ull};
      LG_HCONTEXT c = 0;
      call(inject && vc_rand(2), [&] { c = lg_create_context(g, &co); });
      PROVE("a context, or a failure", c || failed);
      if (c) {
        std::string t; size_t n = 0;
        for (int k = vc_rand(40); k > 0; --k) t += "abcdx"[vc_rand(5)];
        std::unique_ptr<char[]> text(new char[t.size()]);
        memcpy(text.get(), t.data(), t.size());
        const char* const b = text.get(); const char* const e = b + t.size();
        const uint64_t no = ~0ull; uint64_t r = no;
        // after a failed search the context has to be reset
        switch (vc_rand(3)) {
          case 0: call(inject, [&] { r = lg_search(c, b, e, 0, &n, hit); }); if (!failed) call(inject, [&] { lg_closeout_search(c, &n, hit); }); break;
          case 1: call(inject, [&] { r = lg_search(c, b, e, 0, &n, hit); }); if (!failed) call(inject, [&] { r = lg_search_resolve(c, b, e, t.size(), &n, hit); }); break;
          default: call(inject, [&] { lg_starts_with(c, b, e, 0, &n, hit); }); r = failed ? no : 0;
        }
        PROVE("a failed search says so", !failed || r == no);
        call(inject && vc_rand(2), [&] { lg_reset_context(c); });
        if (!failed) { // a context that was reset finds what a new one finds
          size_t n1 = 0, n2 = 0;
          call(false, [&] { lg_search(c, b, e, 0, &n1, hit); lg_closeout_search(c, &n1, hit); });
          LG_HCONTEXT c2 = lg_create_context(g, &co);
          call(false, [&] { lg_search(c2, b, e, 0, &n2, hit); lg_closeout_search(c2, &n2, hit); });
          lg_destroy_context(c2);
          PROVE("the same hits after a reset", n1 == n2);
        }
      }
      lg_destroy_context(c);
    }
    lg_destroy_program(g);
  }
  lg_destroy_fsm(f);
  lg_destroy_pattern(p);
}

// a list, with memory running out while it is added
ENTRY native_list_memory() {
  LG_HFSM f = lg_create_fsm(4, 40); LG_KeyOptions ko{0, 0, 0}; LG_Error* err = 0;
  const char* encs[] = {"ASCII"};
  int r = 1;
  call(true, [&] { r = lg_add_pattern_list(f, "abc+d|ab*\nabd\t\tx\nab(c|d)e\nb+c\tUTF-16LE\nabx", "src", encs, 1, &ko, vc_rand(2) ? &err : 0); });
  PROVE("a failed list says so", r < 0);
  lg_free_error(err);
  lg_destroy_fsm(f);
}

ENTRY native_window() {
  const bool inject = vc_rand(3);
  const bool ask = vc_rand(2);
  LG_HDECODER d = 0;
  call(inject && vc_rand(3) == 0, [&] { d = lg_create_decoder(); });
  PROVE("a decoder, or a failure", d || failed);
  if (!d) return;
  const size_t n = 1 + vc_rand(20);
  std::unique_ptr<char[]> t(new char[n]);
  for (size_t i = 0; i < n; ++i) t[i] = vc_rand(3) ? 'a' + vc_rand(4) : (char) vc_rand(256);
  const size_t b = vc_rand(n); const LG_Window w{b + 100, 100 + b + vc_rand(n - b + 1)};
  LG_Window out, dh; LG_Error* err = 0;
  for (int k = 0; k < 2; ++k) {
    const char* const e = enc();
    unsigned bad = 0;
    if (vc_rand(2)) {
      int32_t* ch = 0; size_t *off = 0, len = 0;
      call(inject, [&] { bad = lg_read_window(d, t.get(), t.get() + n, 100, &w, e, vc_rand(4), vc_rand(4), &ch, &off, &len, &dh, ask ? &err : 0); });
      PROVE("a window, or a failure with its error", off ? ch && !err : !bad && (!ask || err || failed));
      lg_free_window_characters(ch); lg_free_window_offsets(off);
    }
    else {
      const char* u = 0;
      call(inject, [&] { bad = lg_hit_context(d, t.get(), t.get() + n, 100, &w, e, vc_rand(4), 0xfffd, &u, &out, &dh, ask ? &err : 0); });
      PROVE("a context, or a failure with its error", u ? !err : !bad && (!ask || err || failed));
      lg_free_hit_context_string(u);
    }
    lg_free_error(err); err = 0;
  }
  lg_destroy_decoder(d);
}
