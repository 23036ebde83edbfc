// C11: numeric character escapes denote exactly their value.
// The lexer is the one bison generates from re_grammar.ypp, included whole.
#include "vc.h"
#include "re_grammar.cpp"
#include "src/lib/parseutil.cpp"
#include "src/lib/parsetree.cpp"
#include "src/lib/parsenode.cpp"
#include "src/lib/byteset.cpp"

// ---- what the digits spell
static int hexdigit(int c) {
  if (c >= 48 && c <= 57) return c - 48;        // 0-9
  if (c >= 65 && c <= 70) return c - 55;        // A-F
  if (c >= 97 && c <= 102) return c - 87;       // a-f
  return -1;
}
static bool octdigit(int c) { return c >= 48 && c <= 55; }

struct Spec { bool ok; int value; size_t used; };   // used: code points of the pattern taken, if ok

// two hexadecimal digits
static Spec spec_hex2(const int* t, size_t n) {
  if (n < 2 || hexdigit(t[0]) < 0 || hexdigit(t[1]) < 0) return {false, 0, 0};
  return {true, hexdigit(t[0]) * 16 + hexdigit(t[1]), 2};
}
// one to six hexadecimal digits and a closing brace, within the code space
static Spec spec_braced(const int* t, size_t n) {
  int v = 0; size_t k = 0; bool digits = true;
  for (size_t j = 0; j < 7; ++j) {
    if (digits && j < n && hexdigit(t[j]) >= 0) { v = v * 16 + hexdigit(t[j]); k = j + 1; }
    else digits = false;
  }
  if (k < 1 || k > 6 || k >= n || t[k] != '}' || v > 0x10FFFF) return {false, 0, 0};
  return {true, v, k + 1};
}
// the longest run of up to three octal digits, at most 255
static Spec spec_octal(const int* t, size_t n) {
  int v = 0; size_t k = 0; bool digits = true;
  for (size_t j = 0; j < 3; ++j) {
    if (digits && j < n && octdigit(t[j])) { v = v * 8 + (t[j] - 48); k = j + 1; }
    else digits = false;
  }
  if (v > 255) return {false, 0, 0};
  return {true, v, k};
}

// ---- the pattern: any length, any code points; the lexer stands at a backslash
static const int* text; static size_t len, at;
static Context* any_context() {
  len = vc_range("len", 0, BIG(0x3FFFFFFF, 14));
  int* t = (int*) vc_alloc("text", len * 4, 4);
  at = vc_range("at", 0, BIG(0x3FFFFFFF, 14));
  vc_assume(at < len);
#ifdef VC_NATIVE
  static const char pal[] = "0123456789abcdefABCDEF{}xzNU+78gG";
  for (size_t i = 0; i < len; ++i) if (vc_rand(12)) t[i] = vc_rand(3) ? pal[vc_rand(16)] : pal[vc_rand(sizeof(pal) - 1)];
  t[at] = '\\';
  if (at + 1 < len) t[at + 1] = "xxxz01234567NN"[vc_rand(14)];
  if (at + 2 < len && vc_rand(2)) t[at + 2] = '{';
  if (at + 4 < len && t[at + 1] == 'N' && vc_rand(8)) { t[at + 2] = '{'; t[at + 3] = 'U'; t[at + 4] = '+'; }
  if (vc_rand(2)) { size_t k = at + 3 + vc_rand(9); if (k < len) t[k] = '}'; }
#endif
  vc_assume(t[at] == '\\');
  text = t;
  static Context ctx;
  ctx.LiteralMode = false;
  ctx.TextBegin = t; ctx.Text = t + at; ctx.TextEnd = t + len;
  return &ctx;
}

static int lex(Context* ctx, YYSTYPE* v) {
  YYLTYPE loc;
  const int tok = yylex(v, &loc, ctx);
  PROVE("the lexer stays within the pattern", ctx->Text > text + at && ctx->Text <= text + len);
  PROVE("the token's extent is what was consumed", loc.first_column == (int) at && loc.last_column == ctx->Text - text);
  PROVE("the token is remembered for error reports", ctx->TokenType == tok);
  return tok;
}

static void judge(Context* ctx, int tok, const YYSTYPE& v, Spec s, int kind, size_t prefix) {
  if (s.ok) {
    PROVE("a well-formed escape is accepted", tok == kind);
    PROVE("an escape denotes exactly the number its digits spell", v.c == s.value);
    PROVE("an escape ends right after its last character", ctx->Text == text + at + prefix + s.used);
    vc_cover("accepted");
  }
  else {
    PROVE("a malformed, incomplete or out-of-range escape is rejected", tok == BAD);
    vc_cover("rejected");
  }
}

ENTRY check_hex_escape() {
  Context* ctx = any_context();
  vc_assume(at + 1 < len && text[at + 1] == 'x');
  vc_assume(!(at + 2 < len && text[at + 2] == '{'));
  YYSTYPE v; const int tok = lex(ctx, &v);
  judge(ctx, tok, v, spec_hex2(text + at + 2, len - at - 2), CHAR, 2);
}
ENTRY check_braced_escape() {
  Context* ctx = any_context();
  vc_assume(at + 2 < len && text[at + 1] == 'x' && text[at + 2] == '{');
  YYSTYPE v; const int tok = lex(ctx, &v);
  judge(ctx, tok, v, spec_braced(text + at + 3, len - at - 3), CHAR, 3);
}
ENTRY check_byte_escape() {
  Context* ctx = any_context();
  vc_assume(at + 1 < len && text[at + 1] == 'z');
  YYSTYPE v; const int tok = lex(ctx, &v);
  judge(ctx, tok, v, spec_hex2(text + at + 2, len - at - 2), BYTE, 2);
}
ENTRY check_octal_escape() {
  Context* ctx = any_context();
  vc_assume(at + 1 < len && octdigit(text[at + 1]));
  YYSTYPE v; const int tok = lex(ctx, &v);
  judge(ctx, tok, v, spec_octal(text + at + 1, len - at - 1), CHAR, 1);
}
// named notation; without ICU only the U+ form names anything
ENTRY check_named_escape() {
  Context* ctx = any_context();
  vc_assume(at + 1 < len && text[at + 1] == 'N');
  YYSTYPE v; const int tok = lex(ctx, &v);
  const size_t n = len - at - 2;
  if (n >= 3 && text[at + 2] == '{' && text[at + 3] == 'U' && text[at + 4] == '+') {
    judge(ctx, tok, v, spec_braced(text + at + 5, len - at - 5), CHAR, 5);
    vc_cover("U+");
  }
  else PROVE("a malformed, incomplete or out-of-range escape is rejected", tok == BAD);
}
ENTRY check_end_escape() {
  Context* ctx = any_context();
  vc_assume(at + 1 == len);
  YYSTYPE v;
  PROVE("a backslash at the end of the pattern is rejected", lex(ctx, &v) == BAD);
  vc_cover("end");
}

// an escape character after the backslash that is none of those above is the same whatever follows it:
// the simple escapes denote the control characters they name
ENTRY check_simple_escape() {
  Context* ctx = any_context();
#ifdef VC_NATIVE
  if (at + 1 < len) ((int*) text)[at + 1] = "aefnrt.*[|"[vc_rand(10)];
#endif
  vc_assume(at + 1 < len);
  const int c = text[at + 1];
  static const int from[] = {'a', 'e', 'f', 'n', 'r', 't', '|', '(', ')', '?', '+', '*', '.', '[', ']', '^', '$', '-', '{', '}', '&', '~', '<', '=', '!', '\\'};
  static const int to[]   = {7, 27, 12, 10, 13, 9, '|', '(', ')', '?', '+', '*', '.', '[', ']', '^', '$', '-', '{', '}', '&', '~', '<', '=', '!', '\\'};
  int want = -1;
  for (unsigned k = 0; k < sizeof(from) / sizeof(from[0]); ++k) if (from[k] == c) want = to[k];
  vc_assume(want >= 0);
  YYSTYPE v; const int tok = lex(ctx, &v);
  PROVE("a simple escape denotes its character", tok == CHAR && v.c == want && ctx->Text == text + at + 2);
  vc_cover("simple");
}
