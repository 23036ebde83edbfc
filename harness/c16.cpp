// C16: entry points report failures instead of crashing.
// Every function of the library below the C interface is taken by a contract that may fail at will: with a
// standard exception, with one of another kind, or for want of memory; so may every allocation.
#include "vc.h"
#include <cstring>
#include <new>
#include "../../repo/src/lib/c_api_util.cpp"
#include "../../repo/src/lib/lightgrep_c_api.cpp"
#include "../../repo/src/lib/lightgrep_c_util.cpp"

#ifndef VC_NATIVE
template class std::basic_string<char>;      // the library's strings are verified too
#endif
static const char REASON[] = "failure";
struct Failure: std::exception { const char* what() const noexcept override { return REASON; } };
struct NoMemory: std::bad_alloc { const char* what() const noexcept override { return REASON; } };
static bool g_failed, g_nomem;
static const char *text, *encoding, *g_str; static unsigned tlen, elen; static size_t g_len;
static const char* buffer; static size_t bufn;
static bool in_buffer(const char* p, size_t n) { return buffer <= p && p <= buffer + bufn && n <= size_t(buffer + bufn - p); }
static void may_fail() {
  if (vc_bool("fails")) {
    g_failed = true;
    if (vc_bool("fails_oddly")) throw 1;
    throw Failure();
  }
}
extern "C" {
void fault_alloc() { if (vc_bool("no_memory")) { g_failed = g_nomem = true; throw NoMemory(); } }
bool fault_alloc_nothrow() { if (vc_bool("no_memory")) { g_failed = g_nomem = true; return true; } return false; }
void contract_parse(const Pattern*, ParseTree*) { may_fail(); }
void contract_fails() { may_fail(); }
void contract_does() {}
unsigned contract_count(const PatternMap*) { return vc_range("patterns", 0, INT_MAX); }
void contract_made_program(ProgramPtr* ret, const NFA*) { may_fail(); new (ret) ProgramPtr(); }
void contract_made_vm(std::shared_ptr<VmInterface>* ret, ProgramPtr*) { may_fail(); new (ret) std::shared_ptr<VmInterface>(); }
void contract_loaded_map(std::unique_ptr<PatternMap>* ret, const char* p, size_t n) {
  PROVE("a table is read from the buffer only", in_buffer(p, n));
  may_fail();
  new (ret) std::unique_ptr<PatternMap>(nullptr);
}
void contract_loaded_program(ProgramPtr* ret, const char* p, size_t n) {
  PROVE("a program is read from the buffer only", in_buffer(p, n));
  may_fail();
  new (ret) ProgramPtr();
}
void contract_saved(std::vector<char>* ret, const void*) {
  may_fail();
  const size_t n = vc_range("saved", 0, 1u << 20);
  char* b = (char*) vc_alloc("saved", n, 1);
  new (ret) std::vector<char>();
  ret->_M_impl._M_start = b;
  ret->_M_impl._M_finish = ret->_M_impl._M_end_of_storage = b + n;
}
unsigned contract_window(DecoderFactory*, const char*, const char*, uint64_t, const LG_Window*, const char*, size_t, size_t, int32_t**, size_t**, size_t*, LG_Window*) { may_fail(); return vc_u32("bad"); }
unsigned contract_context(DecoderFactory*, const char*, const char*, uint64_t, const LG_Window*, const char*, size_t, uint32_t, const char**, LG_Window*, LG_Window*) { may_fail(); return vc_u32("bad"); }
int contract_trans(const LG_TRANS*, const LG_TRANS*, const char*) { may_fail(); return vc_range("id", 0, 1000); }
// strlen of a string which is not constant: it must have an end where the harness says there is one
size_t symbolic_strlen(const char* s) {
  if (s == g_str) return g_len;             // (asked again: nothing was written to it in between)
  const size_t end = s == encoding ? elen : tlen;
  PROVE("a string read has an end", s[end] == 0);
  const size_t n = vc_range("strlen", 0, 1u << 20);
  vc_assume(n <= end && s[n] == 0);
  if (s == text) tlen = n;                  // (from here on it is the slice of that length)
  g_str = s;
  return g_len = n;
}
}
// an engine which fails at will
struct AnyVm: VmInterface {
  static uint64_t answer() { may_fail(); return vc_range("answer", 0, UINT64_MAX - 1); }
  void startsWith(const byte* const, const byte* const, const uint64_t, HitCallback, void*) override { may_fail(); }
  uint64_t search(const byte* const, const byte* const, const uint64_t, HitCallback, void*) override { return answer(); }
  uint64_t searchResolve(const byte* const, const byte* const, const uint64_t, HitCallback, void*) override { return answer(); }
  void closeOut(HitCallback, void*) override { may_fail(); }
  void reset() override { may_fail(); }
};
// calls a function of the interface; no exception may leave it
template <class F> static bool guarded(F&& f) {
  try { f(); return true; } catch (...) { return false; }
}
static void any_text() {
  tlen = vc_range("length", 0, BIG(1u << 20, 8));
  text = (const char*) vc_alloc("pattern", tlen, 1);
  encoding = g_str = nullptr;
}
static void outcome(bool failing, bool asked, LG_Error* e) {
  PROVE("an error object is made if asked for", !(failing && asked) || e || g_nomem);
  PROVE("no error object is made without a failure", failing || !e);
  PROVE("the error object has a message", !e || e->Message || g_nomem);
}
ENTRY check_parse_slice() {
  g_failed = g_nomem = false;
  any_text();
  PatternHandle h;
  LG_KeyOptions o; vc_havoc(&o, sizeof o);
  LG_Error* e = nullptr;
  const bool asked = vc_bool("asked"), hp = vc_bool("handle"), op = vc_bool("options");
  int r = 7;
  const bool quiet = guarded([&] { r = lg_parse_pattern_slice(hp ? &h : nullptr, text, tlen, op ? &o : nullptr, asked ? &e : nullptr); });
  PROVE("no exception leaves lg_parse_pattern_slice", quiet);
  const bool bad = r == 0;
  PROVE("the result is zero or positive", r == 0 || r > 0);
  PROVE("a failure is reported", !(!hp || !op || (g_failed && !g_nomem)) || bad);
  PROVE("success is reported", !(hp && op && !g_failed) || !bad);
  outcome(bad, asked, e);
}

ENTRY check_make_error() {
  any_text(); vc_assume(tlen > 0 && text[tlen - 1] == 0); --tlen;
  g_nomem = false;
  const bool p = vc_bool("pattern"), c = vc_bool("chain"), s = vc_bool("source");
  const int index = (int) vc_u32("index");
  LG_Error* e = nullptr;
  const bool quiet = guarded([&] { e = makeError(text, p ? text : nullptr, c ? text : nullptr, s ? text : nullptr, index); });
  PROVE("no exception leaves makeError", quiet);
  PROVE("an error object is made", e || g_nomem);
  if (e) {
    PROVE("an error object is complete", e->Index == index && !e->Next && (g_nomem || (e->Message && !e->Pattern == !p && !e->EncodingChain == !c && !e->Source == !s)));
    if (e->Message) PROVE("the message is a copy", e->Message != text && e->Message[0] == text[0]);
    lg_free_error(e);
  }
}
ENTRY check_parse() {
  g_failed = g_nomem = false;
  any_text(); vc_assume(tlen > 0 && text[tlen - 1] == 0); --tlen;
  PatternHandle h;
  LG_KeyOptions o; vc_havoc(&o, sizeof o);
  LG_Error* e = nullptr;
  const bool asked = vc_bool("asked");
  int r = 7;
  const bool quiet = guarded([&] { r = lg_parse_pattern(&h, text, &o, asked ? &e : nullptr); });
  PROVE("no exception leaves lg_parse_pattern", quiet);
  PROVE("a failure is reported", g_nomem || g_failed == (r == 0));
  outcome(r == 0, asked, e);
}
ENTRY check_handles() {
  LG_HPATTERN p = nullptr; LG_HDECODER d = nullptr;
  PROVE("no exception leaves lg_create_pattern", guarded([&] { p = lg_create_pattern(); }));
  PROVE("no exception leaves lg_create_decoder", guarded([&] { d = lg_create_decoder(); }));
  lg_destroy_pattern(p); lg_destroy_pattern(nullptr);
  lg_destroy_decoder(d); lg_destroy_decoder(nullptr);
  lg_free_error(nullptr);
}
static FSMHandle* any_fsm(bool shared) {
  FSMHandle* h = new (vc_alloc("fsm_handle", sizeof(FSMHandle), 8)) FSMHandle();
  *(void**) &h->Impl = vc_alloc("fsm", sizeof(FSMThingy), 8);
  struct Counted { std::_Sp_counted_ptr<PatternMap*, __gnu_cxx::_S_atomic> c; };
  h->PMap._M_ptr = (PatternMap*) vc_alloc("table", sizeof(PatternMap), 8);
  h->PMap._M_refcount._M_pi = new (vc_alloc("count", sizeof(Counted), 8)) std::_Sp_counted_ptr<PatternMap*, __gnu_cxx::_S_atomic>(h->PMap._M_ptr);
  if (shared) h->PMap._M_refcount._M_pi->_M_use_count = 2;
  return h;
}
static void any_strings() {
  any_text(); vc_assume(tlen > 0 && text[tlen - 1] == 0); --tlen;
  elen = vc_range("elen", 0, BIG(1u << 20, 8));
  encoding = (const char*) vc_alloc("encoding", elen + 1, 1);
  vc_assume(encoding[elen] == 0);
}
ENTRY check_add_pattern() {
  any_strings();
  PatternHandle h;
  h.Pat.Expression._M_dataplus._M_p = (char*) text;      // (never freed)
  h.Pat.Expression._M_string_length = tlen;
  g_failed = g_nomem = false;
  FSMHandle* f = any_fsm(vc_bool("shared"));
  LG_Error* e = nullptr;
  const bool asked = vc_bool("asked"), fp = vc_bool("has_fsm"), hp = vc_bool("has_pattern"), ep = vc_bool("has_encoding");
  int r = -7;
  const bool quiet = guarded([&] { r = lg_add_pattern(fp ? f : nullptr, hp ? &h : nullptr, ep ? encoding : nullptr, vc_u64("user"), asked ? &e : nullptr); });
  h.Pat.Expression._M_dataplus._M_p = h.Pat.Expression._M_local_buf;
  PROVE("no exception leaves lg_add_pattern", quiet);
  PROVE("a failure is reported", !(!fp || !hp || !ep || (g_failed && !g_nomem)) || r < 0);
  outcome(r < 0, asked, e);
}
ENTRY check_create_fsm() {
  g_failed = g_nomem = false;
  LG_HFSM f = nullptr;
  const bool quiet = guarded([&] { f = lg_create_fsm(0, vc_u32("states")); });
  PROVE("no exception leaves lg_create_fsm", quiet);
  PROVE("a failure is reported", g_failed == !f);
  lg_destroy_fsm(f);
}
ENTRY check_create_program() {
  FSMHandle* f = any_fsm(false);
  f->Impl->Fsm._M_ptr = (NFA*) vc_alloc("nfa", sizeof(NFA), 8);
  LG_ProgramOptions o; vc_havoc(&o, sizeof o);
  g_failed = g_nomem = false;
  LG_HPROGRAM p = nullptr;
  const bool quiet = guarded([&] { p = lg_create_program(f, &o); });
  PROVE("no exception leaves lg_create_program", quiet);
  PROVE("a failure is reported", g_failed == !p);
}
ENTRY check_read_program() {
  bufn = vc_range("size", 0, INT_MAX);
  buffer = (const char*) vc_alloc("buffer", bufn, 1);
  g_failed = g_nomem = false;
  LG_HPROGRAM p = nullptr;
  const bool quiet = guarded([&] { p = lg_read_program(buffer, (int) bufn); });
  PROVE("no exception leaves lg_read_program", quiet);
  PROVE("a failure is reported", !g_failed || !p);
  lg_destroy_program(p);
}
ENTRY check_write_program() {
  FSMHandle* f = any_fsm(false);
  ProgramHandle h;
  h.PMap._M_ptr = f->PMap._M_ptr;
  h.Prog._M_ptr = (Program*) vc_alloc("program", sizeof(Program), 8);
  char* out = (char*) vc_alloc("out", 1u << 22, 1);
  PROVE("no exception leaves lg_write_program", guarded([&] { lg_write_program(&h, out); }));
}
ENTRY check_create_context() {
  ProgramHandle h;
  LG_ContextOptions o; vc_havoc(&o, sizeof o);
  g_failed = g_nomem = false;
  LG_HCONTEXT c = nullptr;
  const bool quiet = guarded([&] { c = lg_create_context(&h, vc_bool("options") ? &o : nullptr); });
  PROVE("no exception leaves lg_create_context", quiet);
  PROVE("a failure is reported", g_failed == !c);
  lg_destroy_context(c);
}
static ContextHandle* any_context() {
  ContextHandle* h = new (vc_alloc("context", sizeof(ContextHandle), 8)) ContextHandle();
  h->Impl._M_ptr = new (vc_alloc("vm", sizeof(AnyVm), 8)) AnyVm();
  g_failed = g_nomem = false;
  return h;
}
ENTRY check_search() {
  ContextHandle* c = any_context();
  uint64_t r = 0;
  PROVE("no exception leaves lg_search", guarded([&] { r = lg_search(c, nullptr, nullptr, vc_u64("o"), nullptr, nullptr); }));
  PROVE("a failure is reported", g_failed == (r == UINT64_MAX));
}
ENTRY check_search_resolve() {
  ContextHandle* c = any_context();
  uint64_t r = 0;
  PROVE("no exception leaves lg_search_resolve", guarded([&] { r = lg_search_resolve(c, nullptr, nullptr, vc_u64("o"), nullptr, nullptr); }));
  PROVE("a failure is reported", g_failed == (r == UINT64_MAX));
}
ENTRY check_starts_with() {
  ContextHandle* c = any_context();
  PROVE("no exception leaves lg_starts_with", guarded([&] { lg_starts_with(c, nullptr, nullptr, vc_u64("o"), nullptr, nullptr); }));
}
ENTRY check_closeout() {
  ContextHandle* c = any_context();
  PROVE("no exception leaves lg_closeout_search", guarded([&] { lg_closeout_search(c, nullptr, nullptr); }));
}
ENTRY check_reset() {
  ContextHandle* c = any_context();
  PROVE("no exception leaves lg_reset_context", guarded([&] { lg_reset_context(c); }));
}
ENTRY check_windows() {
  g_failed = g_nomem = false;
  DecoderHandle d;
  LG_Error* e = nullptr;
  const bool asked = vc_bool("asked");
  unsigned r = 0;
  const bool quiet = guarded([&] {
    if (vc_bool("context")) r = lg_hit_context(&d, nullptr, nullptr, 0, nullptr, nullptr, 0, 0, nullptr, nullptr, nullptr, asked ? &e : nullptr);
    else r = lg_read_window(&d, nullptr, nullptr, 0, nullptr, nullptr, 0, 0, nullptr, nullptr, nullptr, nullptr, asked ? &e : nullptr);
  });
  PROVE("no exception leaves lg_read_window or lg_hit_context", quiet);
  PROVE("a failure is reported", !g_failed || g_nomem || r == 0);
  outcome(g_failed, asked, e);
}
ENTRY check_ids() {
  g_failed = g_nomem = false;
  int r = 0;
  const bool quiet = guarded([&] {
    const uint64_t w = vc_range("which", 0, 2);
    r = w == 0 ? lg_get_char_transform_id("rot13") : w == 1 ? lg_get_byte_transform_id("OCE") : lg_get_encoding_id("UTF-8");
  });
  PROVE("no exception leaves lg_get_..._id", quiet);
  PROVE("a failure is reported", g_failed == (r < 0));
}

// ---- lists of patterns: the errors form one chain, in order
// place[0] is the caller's place for errors; errors are made in err[0] and err[1] by turns, the last one's place for the
// next error is where the next one goes
static struct { LG_Error* first; LG_Error err[2]; } g_chain;
static unsigned g_last; static bool g_asked, g_bad;       // g_last: 0 none, 1 err[0], 2 err[1]
static LG_Error** tail() { return !g_asked ? nullptr : g_last == 0 ? &g_chain.first : &g_chain.err[g_last - 1].Next; }
static void an_error(LG_Error** err) {
  g_bad = true;
  if (err && vc_bool("no_memory")) *err = nullptr;
  else if (err) {
    g_last = g_last == 1 ? 2 : 1;
    g_chain.err[g_last - 1].Next = nullptr;
    *err = &g_chain.err[g_last - 1];
  }
}
static void any_chain() {
  g_last = 0; g_bad = g_failed = g_nomem = false;
  g_asked = vc_bool("asked");
  g_chain.first = nullptr;
}
extern "C" {
int contract_parse_1(PatternHandle*, const char*, const LG_KeyOptions*, LG_Error** err) {
  PROVE("errors go to the end of the chain", err == tail());
  if (vc_bool("parses")) return 1;
  an_error(err);
  return 0;
}
int contract_add_1(FSMHandle*, PatternHandle*, const char*, uint64_t, LG_Error** err) {
  PROVE("errors go to the end of the chain", err == tail());
  if (vc_bool("compiles")) return vc_range("label", 0, INT_MAX);
  an_error(err);
  return -(int) vc_range("why", 1, 3);
}
int contract_list(FSMHandle*, const char*, const char*, const char**, size_t, const LG_KeyOptions*, LG_Error*** err) {
  PROVE("errors go to the end of the chain", *err == tail());
  if (vc_bool("one_error")) {
    an_error(*err);
    if (*err && **err) *err = &(**err)->Next;
  }
  may_fail();
  return g_bad ? -1 : 0;
}
}
ENTRY check_add_list() {
  any_chain();
  int r = 7;
  const bool quiet = guarded([&] { r = lg_add_pattern_list(nullptr, nullptr, nullptr, nullptr, 0, nullptr, tail()); });
  PROVE("no exception leaves lg_add_pattern_list", quiet);
  PROVE("a failure is reported", r == (g_bad || g_failed ? -1 : 0));
  PROVE("no error is lost", g_last == 0 || g_chain.first == &g_chain.err[0]);
  PROVE("the failure ending the list is added", !g_asked || !g_failed || g_nomem || *tail());
  PROVE("no error object is made without a failure", g_failed || g_last || !g_chain.first);
}
ENTRY check_helper() {
  any_chain();
  const size_t n = vc_range("encodings", 0, 1u << 16);
  std::vector<std::string> encs;
  std::string* const a = (std::string*) vc_alloc("names", sizeof(std::string) * n, 8);
  std::vector<std::string>& v = *(std::vector<std::string>*) vc_alloc("list", sizeof encs, 8);
  v._M_impl._M_start = a; v._M_impl._M_finish = v._M_impl._M_end_of_storage = a + n;
  std::string pat("x");
  LG_Error** err = tail();
  bool ok = false;
  const bool quiet = guarded([&] { ok = addPatternHelper(nullptr, nullptr, pat, nullptr, v, 3, err); });
  PROVE("no exception leaves addPatternHelper", quiet);
  PROVE("a failing pattern is reported", ok == !g_bad);
  PROVE("errors go to the end of the chain", !g_asked || err == tail());
}
extern "C" {
bool inv_tail(LG_Error** cur, LG_Error** init) { return cur == tail() && g_last <= 2; }
bool inv_ok(bool cur, bool init) { return cur == !g_bad; }
bool inv_ok8(uint8_t cur, uint8_t init) { return cur == (g_bad ? 0 : 1); }
}
ENTRY check_finish() {
  LG_Error e; vc_havoc(&e, sizeof e);
  const LG_Error was = e;
  const int lnum = (int) vc_u32("line");
  LG_Error* first = vc_bool("failed") ? &e : nullptr;
  LG_Error** err = vc_bool("asked") ? &first : nullptr;
  LG_Error** const old = err;
  finishError(err, lnum);
  const bool moves = old && first;
  PROVE("the line of the error is recorded", e.Index == (moves ? lnum : was.Index));
  PROVE("the next error goes behind it", err == (moves ? &e.Next : old));
  PROVE("nothing else changes", e.Next == was.Next && e.Message == was.Message && e.Pattern == was.Pattern && e.EncodingChain == was.EncodingChain && e.Source == was.Source);
}

// the list itself, over any tokens (boost's tokenizers by contract: any outcome of any comparison, any failure)
static std::string g_token;
extern "C" {
const std::string* contract_token() { return &g_token; }
bool contract_same() { return vc_bool("same_place"); }
void contract_copied(std::string* d, const std::string*) { may_fail(); new (d) std::string(); }
void contract_names(std::vector<std::string>* d) { may_fail(); new (d) std::vector<std::string>(); }
bool contract_option() { may_fail(); return vc_bool("option"); }
LG_Error* contract_error(const char* msg, const char*, const char*, const char*, int) {
  PROVE("an error has a message", msg != nullptr);
  g_bad = true;
  if (vc_bool("no_memory")) return nullptr;
  PROVE("an error object is asked for", g_asked);
  g_last = g_last == 1 ? 2 : 1;
  g_chain.err[g_last - 1].Next = nullptr;
  return &g_chain.err[g_last - 1];
}
bool contract_line(FSMHandle*, PatternHandle* p, const std::string*, LG_KeyOptions*, const void*, int, LG_Error*** err) {
  PROVE("errors go to the end of the chain", *err == tail());
  if (vc_bool("line_fails")) {
    an_error(*err);
    if (*err && **err) *err = &(**err)->Next;
    may_fail();
    return false;
  }
  may_fail();
  return true;
}
bool inv_ok_list(uint8_t cur, uint8_t init) { return cur <= 1 && (cur ? !g_bad : !g_asked || g_bad); }
}
ENTRY check_list() {
  any_chain();
  any_text(); vc_assume(tlen > 0 && text[tlen - 1] == 0); --tlen;
  LG_KeyOptions o; vc_havoc(&o, sizeof o);
  LG_Error** err = tail();
  int r = 7;
  const bool quiet = guarded([&] { r = addPatternList(nullptr, text, nullptr, nullptr, 0, &o, err); });
  PROVE("a line which fails is reported", !quiet || (r == 0 || r == -1));
  PROVE("a line which fails is reported", !quiet || !g_bad || r == -1);
  PROVE("failure is reported only for lines which fail", !quiet || !g_asked || g_bad || r == 0);
  PROVE("errors go to the end of the chain", err == tail());
}
