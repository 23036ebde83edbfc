// C07, bounded: whole programs.  For every state of a random automaton and every byte, the program's
// code after the state leads, in priority order, to exactly the successors whose byte set holds the byte.
#include "vc.h"
#include "patgen.h"
#include <algorithm>
#include <cstring>

struct Code {
  const Program& p; const CodeGenHelper& cg; const NFA& g;
  uint32_t word(size_t i) const { uint32_t w; memcpy(&w, &p[i], 4); return w; }
  size_t steps = 0;

  // successors reached from pc by byte c, as program positions behind their byte instruction
  void walk(size_t pc, byte c, std::vector<size_t>& out) {
    PROVE("code has no loop without a byte instruction", ++steps < 100000);
    PROVE("code stays inside the program", pc < p.size());
    const Instruction i = p[pc];
    switch (i.OpCode) {
    case FORK_OP: walk(pc + 2, c, out); walk(word(pc + 1), c, out); break;
    case JUMP_OP: walk(word(pc + 1), c, out); break;
    case LABEL_OP: case CHECK_HALT_OP: case MATCH_OP: walk(pc + 1, c, out); break;
    case HALT_OP: case FINISH_OP: break;
    case JUMP_TABLE_RANGE_OP:
      if (i.Op.T2.First <= c && c <= i.Op.T2.Last) {
        const uint32_t a = word(pc + 1 + c - i.Op.T2.First);
        if (a) land(a, out);
      }
      break;
    default: {
      bool in = false; size_t n = 1;
      if (i.OpCode == BYTE_OP) in = c == i.Op.T1.Byte;
      else if (i.OpCode == EITHER_OP) in = c == i.Op.T2.First || c == i.Op.T2.Last;
      else if (i.OpCode == RANGE_OP) in = i.Op.T2.First <= c && c <= i.Op.T2.Last;
      else if (i.OpCode == ANY_OP) in = true;
      else if (i.OpCode == BIT_VECTOR_OP) { byte v; memcpy(&v, (const byte*) &p[pc + 1] + c / 8, 1); in = (v >> (c % 8)) & 1; n = 9; }
      else PROVE("every instruction is one the engine knows", false);
      if (in) out.push_back(pc + n);
    }
    }
  }

  // where a jump table entry leads: directly, or through its indirect table
  void land(size_t pc, std::vector<size_t>& out) {
    PROVE("a jump table leads into the program", pc < p.size());
    if (p[pc].OpCode == FORK_OP && indirect(pc)) { land_list(pc, out); return; }
    out.push_back(pc);
  }
  bool indirect(size_t pc) const {
    for (size_t v = 0; v < g.verticesSize(); ++v) {
      const StateLayoutInfo& s = cg.Snippets[v];
      if (s.Op == JUMP_TABLE_RANGE_OP && s.Start <= pc && pc < s.end()) {
        size_t t = s.Start + s.NumEval;
        while (p[t].OpCode != JUMP_TABLE_RANGE_OP) t += p[t].OpCode == FORK_OP ? 2 : 1;
        return pc > t;
      }
    }
    return false;
  }
  void land_list(size_t pc, std::vector<size_t>& out) {
    for (;; pc += 2) {
      const bool last = p[pc].OpCode == JUMP_OP;
      PROVE("an indirect table is a list of forks that ends with a jump", last || p[pc].OpCode == FORK_OP);
      rev.push_back(word(pc + 1));
      if (last) break;
    }
    // forks run their continuation first
    out.insert(out.end(), rev.rbegin(), rev.rend());
    rev.clear();
  }
  std::vector<size_t> rev;

  // a landing behind t's byte instruction may be shortened to the code it would jump to
  size_t norm(size_t pc) const {
    for (size_t n = 0; n < 1000; ++n) {
      if (p[pc].OpCode == CHECK_HALT_OP) ++pc;
      else if (p[pc].OpCode == JUMP_OP) pc = word(pc + 1);
      else break;
    }
    return pc;
  }
};

static void first_only(std::vector<size_t>& v) {
  std::vector<size_t> r;
  for (size_t x : v) if (std::find(r.begin(), r.end(), x) == r.end()) r.push_back(x);
  v.swap(r);
}

ENTRY native_programs() {
  std::unique_ptr<FSMThingy> f;
  std::vector<std::string> pats;
  if (!gen_fsm(f, 6, vc_rand(2) ? 0 : 1 + vc_rand(200), &pats)) return;
  const NFA& g = *f->Fsm;
  const ProgramPtr p = Compiler::createProgram(g);
  Vm vm(p);
  CodeGenHelper cg(g.verticesSize());
  CodeGenVisitor vis(cg);
  specialVisit(g, 0ul, vis);
  PROVE("a program ends with a halt and a finish", p->size() == cg.Guard + 2 && (*p)[cg.Guard].OpCode == HALT_OP && (*p)[cg.Guard + 1].OpCode == FINISH_OP);
  Code code{*p, cg, g};
  for (size_t v = 0; v < g.verticesSize(); ++v) {
    if (cg.Snippets[v].Start == NONE) continue;   // unreachable
    if (v) {
      // the state's own instruction
      ByteSet bs;
      g[v].Trans->getBytes(bs);
      const unsigned c = vc_rand(256);
      Thread t(&(*p)[cg.Snippets[v].Start]);
      const byte b = c;
      const bool r = vm.execute(std::vector<Thread>::iterator(&t), &b);
      PROVE("the instruction made for a state accepts exactly the state's bytes", r == bs.test(c));
    }
    for (unsigned c = 0; c < 256; ++c) {
      std::vector<size_t> want, got;
      for (size_t i = 0; i < g.outDegree(v); ++i) {
        const NFA::VertexDescriptor t = g.outVertex(v, i);
        ByteSet bs;
        g[t].Trans->getBytes(bs);
        const size_t a = code.norm(cg.Snippets[t].Start + cg.Snippets[t].NumEval);
        if (bs.test(c)) want.push_back(a);
      }
      code.steps = 0;
      code.walk(cg.Snippets[v].Start + cg.Snippets[v].NumEval, c, got);
      for (size_t& x : got) x = code.norm(x);
      // a successor reached over parallel edges counts once, at its first position
      first_only(want);
      first_only(got);
      PROVE("the code after a state leads exactly to the successors that accept the byte, in priority order", got == want);
    }
  }
}
