// C16: reporting a syntax error reads no text beyond the pattern.
// The lexer is the one bison generates from re_grammar.ypp, included whole.
#include "vc.h"
#include "re_grammar.cpp"
#include "src/lib/parseutil.cpp"
#include "src/lib/parsetree.cpp"
#include "src/lib/parsenode.cpp"
#include "src/lib/byteset.cpp"
#include "streams.h"

// any pattern of any length, the lexer at any place in it
static size_t len, at; static int* text;
static Context* any_context() {
  len = vc_range("len", 0, BIG(0x3FFFFFFF, 14));
  text = (int*) vc_alloc("text", len * 4, 4);
  at = vc_range("at", 0, BIG(0x3FFFFFFF, 14));
  vc_assume(at <= len);
#ifdef VC_NATIVE
  for (size_t i = 0; i < len; ++i) text[i] = "\\|()?+*.[]^$-{}&~<=!,:09axzN"[vc_rand(28)];
#endif
  static Context ctx;
  ctx.LiteralMode = vc_bool("literal");
  ctx.TextBegin = text; ctx.Text = text + at; ctx.TextEnd = text + len;
  return &ctx;
}

// what the lexer calls
static uint8_t opts; static const int* brace;
extern "C" uint8_t* contract_top(void*) { opts = vc_u8("opts"); return &opts; }
extern "C" void contract_set(void*) {}
extern "C" void* contract_append(void* s) { return s; }
extern "C" int contract_property(void*) { if (vc_bool("property fails")) throw std::exception(); return 1; }
extern "C" const int* contract_find_brace(const int* b, const int* e) {
  const size_t n = e - b, k = vc_range("brace", 0, BIG(0x3FFFFFFF, 14));
  PROVE("the brace is sought within the pattern", b >= text && b <= e && e <= text + len);
  vc_assume(k <= n && (k == n || b[k] == '}'));
  return brace = b + k;
}
extern "C" void contract_show(void*, const int* b, const int* e, void*) {
  PROVE("the text shown lies within the pattern", b >= text && b <= e && e <= text + len);
}
// copying a name: between its start and the closing brace
extern "C" bool inv_name(const int* i, const int* i0) { return i >= i0 && i <= brace && (((const char*) i - (const char*) i0) & 3) == 0; }

// bison starts with the location {1, 1, 1, 1}, and passes the location of the previous token from then on
ENTRY check_place() {
  Context* ctx = any_context();
  YYLTYPE loc{1, 1, 1, 1};
  if (vc_bool("later")) {
    loc.first_column = vc_range("first", 0, BIG(0x3FFFFFFF, 14)); loc.last_column = at;
    vc_assume(loc.first_column <= loc.last_column);
    vc_assume(at > 0);
    vc_cover("later");
  }
  else { vc_assume(at == 0); vc_cover("first"); }
  YYSTYPE v; v.c = 0;
  bool done = true;
  try { yylex(&v, &loc, ctx); } catch (...) { done = false; }
  if (!done) return;
  PROVE("a token lies within the pattern", loc.first_column == (int) at && loc.first_column <= loc.last_column && loc.last_column == ctx->Text - text && ctx->Text <= text + len);
  PROVE("only the end of the pattern has no extent", (loc.first_column == loc.last_column) == (at == len));
}

// an error at any part of the pattern is thrown, with nothing read beyond it
ENTRY check_report() {
  Context* ctx = any_context();
  ParseError e(decltype(ParseError::Type)(vc_range("type", 0, 8)), 0, 0, (int) vc_u32("v"), (int) vc_u32("w"));
  e.Begin = vc_range("b", 0, BIG(0x3FFFFFFF, 14)); e.End = vc_range("e", 0, BIG(0x3FFFFFFF, 14));
  vc_assume((size_t) e.Begin <= (size_t) e.End && (size_t) e.End <= len);
  bool threw = false;
  try { throwError(e, ctx); } catch (const std::exception&) { threw = true; }
  PROVE("an error is reported by an exception", threw);
}
ENTRY check_syntax_error() {
  Context* ctx = any_context();
  YYLTYPE loc{1, 0, 1, 0};
  loc.first_column = vc_range("b", 0, BIG(0x3FFFFFFF, 14)); loc.last_column = vc_range("e", 0, BIG(0x3FFFFFFF, 14));
  vc_assume(loc.first_column <= loc.last_column && (size_t) loc.last_column <= len);
  ctx->TokenType = vc_range("token", 0, 1) ? BAD : '*';
  bool threw = false;
  try { yyerror(&loc, ctx, ""); } catch (const std::exception&) { threw = true; }
  PROVE("a syntax error is thrown, or left to the grammar at the end of the pattern", threw || (ctx->TokenType != BAD && loc.first_column == loc.last_column));
}
