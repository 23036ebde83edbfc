// C11, bounded: escapes through the whole parser (the bison automaton is beyond the verifier).
#include "vc.h"
#include <stdexcept>
#include <string>
#include "parser.h"
#include "parsetree.h"
#include "pattern.h"

static std::string digits(uint32_t v, unsigned base, unsigned width) {
  std::string s;
  do { const unsigned d = v % base; v /= base; s.insert(s.begin(), d < 10 ? '0' + d : (vc_rand(2) ? 'a' : 'A') + d - 10); } while (v);
  while (s.size() < width) s.insert(s.begin(), '0');
  return s;
}

// an escape in a random notation, its value, and whether it is a raw byte
static std::string escape(uint32_t& v, bool& byte, bool& closed) {
  byte = false; closed = true;
  switch (vc_rand(6)) {
    case 0: v = vc_rand(256); return "\\x" + digits(v, 16, 2);
    case 1: v = vc_rand(256); byte = true; return "\\z" + digits(v, 16, 2);
    case 2: v = vc_rand(256); return "\\" + digits(v, 8, 3);
    case 3: v = vc_rand(64); closed = false; return "\\" + digits(v, 8, 1 + vc_rand(2));
    case 4: v = vc_rand(3) ? vc_rand(0x110000) : vc_rand(0x300); return "\\N{U+" + digits(v, 16, 1 + vc_rand(6)) + "}";
    default: v = vc_rand(3) ? vc_rand(0x110000) : vc_rand(0x300); return "\\x{" + digits(v, 16, 1 + vc_rand(6)) + "}";
  }
}

static bool parses(const std::string& s, ParseTree& t) {
  Pattern p(s);
  try { return parse(p, t); } catch (std::runtime_error&) { return false; }
}

ENTRY native_literal() {
  uint32_t v; bool b, closed;
  const std::string e = escape(v, b, closed);
  ParseTree t;
  t.Root = nullptr;
  Pattern p(e);
  bool ok = true;
  p.CaseInsensitive = false;
  try { ok = parse(p, t); } catch (std::runtime_error&) { ok = false; }
  PROVE("a well-formed escape is accepted", ok && t.Root && t.Root->Child.Left);
  const ParseNode* n = t.Root->Child.Left;
  PROVE("an escape denotes exactly the number its digits spell", n->Type == (b ? ParseNode::BYTE : ParseNode::LITERAL) && (uint32_t) n->Val == v);
}

ENTRY native_class() {
  uint32_t v; bool b, closed;
  const std::string e = escape(v, b, closed);
  ParseTree t;
  PROVE("a well-formed escape is accepted", parses("[" + e + "]", t));
  const ParseNode* n = t.Root->Child.Left;
  PROVE("an escape is a class of one", n->Type == ParseNode::CHAR_CLASS);
  if (b) PROVE("an escape denotes exactly the number its digits spell", n->Set.Breakout.Bytes.count() == 1 && n->Set.Breakout.Bytes.test(v) && n->Set.CodePoints.none());
  else PROVE("an escape denotes exactly the number its digits spell", n->Set.CodePoints.count() == 1 && n->Set.CodePoints.test(v) && n->Set.Breakout.Bytes.none());
}

ENTRY native_range() {
  uint32_t v, w; bool b, c, closed, closed2;
  const std::string e = escape(v, b, closed), f = escape(w, c, closed2);
  vc_assume(b == c);
  ParseTree t;
  const bool ok = parses("[" + e + "-" + f + "]", t);
  PROVE("a range of escapes is accepted exactly if it is ascending", ok == (v < w));
  if (!ok) return;
  const ParseNode* n = t.Root->Child.Left;
  if (b) {
    for (uint32_t x = 0; x < 256; ++x) PROVE("a range of escapes holds exactly the numbers between them", n->Set.Breakout.Bytes.test(x) == (v <= x && x <= w));
  }
  else PROVE("a range of escapes holds exactly the numbers between them",
             n->Set.CodePoints.count() == w - v + 1 && n->Set.CodePoints.test(v) && n->Set.CodePoints.test(w));
}

ENTRY native_rejected() {
  std::string s;
  switch (vc_rand(8)) {
    case 0: s = "\\x{" + digits(0x110000 + vc_rand(0xEF0000), 16, 6) + "}"; break;
    case 1: s = "\\x{" + digits(vc_rand(0x110000), 16, 7) + "}"; break;
    case 2: s = "\\" + digits(256 + vc_rand(256), 8, 3); break;
    case 3: s = "\\x" + digits(vc_rand(16), 16, 1); break;
    case 4: s = "\\x{" + digits(vc_rand(0x110000), 16, 1); break;
    case 5: s = "\\x{}"; break;
    case 6: s = std::string("\\x") + "gGzZ{} -"[vc_rand(8)] + "1"; break;
    default: s = "\\z" + digits(vc_rand(16), 16, 1) + "g"; break;
  }
  ParseTree t;
  PROVE("a malformed, incomplete or out-of-range escape is rejected", !parses(s, t));
  PROVE("a malformed, incomplete or out-of-range escape is rejected", !parses("ab" + s, t));
}
