// Random pattern sets and their automata / programs (bounded native complements only).
#pragma once
#include <string>
#include <vector>
#include <stdexcept>
#include "codegen.h"
#include "compiler.h"
#include "fsmthingy.h"
#include "parser.h"
#include "parsetree.h"
#include "pattern.h"
#include "program.h"
#include "vm.h"

// small alphabet: collisions between branches are what matters
static std::string gen_atom(int depth);
static std::string gen_alt(int depth) {
  std::string s = gen_atom(depth);
  for (int n = vc_rand(3); n > 0; --n) s += gen_atom(depth);
  if (depth > 0 && vc_rand(3) == 0) s += "|" + gen_alt(depth - 1);
  return s;
}
static std::string gen_atom(int depth) {
  std::string s;
  switch (vc_rand(depth > 0 ? 7 : 5)) {
    case 0: case 1: s = std::string(1, "abcd"[vc_rand(4)]); break;
    case 2: s = vc_rand(3) ? "." : "\\z" + std::string(1, "0f"[vc_rand(2)]) + std::string(1, "0f"[vc_rand(2)]); break;
    case 3: { const char a = "abc"[vc_rand(3)]; s = std::string("[") + (vc_rand(4) ? "" : "^") + a + "-" + "ddxz"[vc_rand(4)] + "]"; break; }
    case 4: s = std::string("[") + "ab"[vc_rand(2)] + "ce"[vc_rand(2)] + (vc_rand(2) ? "x" : "") + "]"; break;
    default: s = "(" + gen_alt(depth - 1) + ")";
  }
  switch (vc_rand(9)) {
    case 0: s += "*"; break;
    case 1: s += "+"; break;
    case 2: s += "?"; break;
    case 3: s += "{" + std::to_string(vc_rand(2)) + "," + std::to_string(1 + vc_rand(3)) + "}"; break;
    default: return s;
  }
  if (vc_rand(3) == 0) s += "?";
  return s;
}

// the automaton of up to `most` patterns (none of which matches the empty string); false if there is none
static bool gen_fsm(std::unique_ptr<FSMThingy>& f, int most, uint32_t determinize, std::vector<std::string>* pats = nullptr) {
  f.reset(new FSMThingy(0));
  uint32_t label = 0;
  for (int n = 1 + vc_rand(most); n > 0; --n) {
    const std::string s = gen_alt(2);
    Pattern p(s, false, vc_rand(4) == 0);
    ParseTree t;
    static const char* const enc[] = {"US-ASCII", "US-ASCII", "UTF-8", "UTF-16LE"};
    try {
      parseAndReduce(p, t);
      f->addPattern(t, enc[vc_rand(4)], label);
    }
    catch (const std::runtime_error&) { continue; }
    if (pats) pats->push_back(s);
    ++label;
  }
  if (!label) return false;
  f->finalizeGraph(determinize);
  return true;
}
