// C12: a saved program is the size of the pattern table, the table, the size of the program and the program;
// the two parts by contract (see c12.cpp and c12m.cpp).
#include "vc.h"
#include <new>
#include <vector>
#include "../../repo/src/lib/c_api_util.cpp"
#include "../../repo/src/lib/lightgrep_c_api.cpp"

static const char *table, *code; static size_t P, Q; // the two parts as they are written
static const PatternMap* map; static Program* prog;
static const char* in;                               // the buffer read
static PatternMap* read_map; static Program* read_prog;
static void saved(std::vector<char>* ret, const char* p, size_t n) {
  auto& d = ret->_M_impl; d._M_start = (char*) p; d._M_finish = d._M_end_of_storage = (char*) p + n;
}
extern "C" {
size_t contract_table_size(const PatternMap* m) { PROVE("the table of the program", m == map); return P; }
size_t contract_code_size(const Program* p) { PROVE("the instructions of the program", p == prog); return Q; }
void contract_save_table(std::vector<char>* ret, const PatternMap* m) { PROVE("the table of the program", m == map); saved(ret, table, P); }
void contract_save_code(std::vector<char>* ret, const Program* p) { PROVE("the instructions of the program", p == prog); saved(ret, code, Q); }
void contract_load_table(std::unique_ptr<PatternMap>* ret, const char* p, size_t n) {
  PROVE("the table is read from where it was written, as much as was written", p == in + 8 && n == P);
  new (ret) std::unique_ptr<PatternMap>(read_map);
}
void contract_load_code(ProgramPtr* ret, const char* p, size_t n) {
  PROVE("the instructions are read from where they were written, as many as were written", p == in + 16 + P && n == Q);
  new (ret) ProgramPtr(std::shared_ptr<Program>(std::shared_ptr<Program>(), read_prog));
}
void contract_does() {}
}
static void any_sizes() {
  P = vc_range("table", 0, BIG(1ul << 30, 20));
  Q = vc_range("code", 0, BIG(1ul << 30, 20));
}
ENTRY check_save() {
  any_sizes();
  table = (const char*) vc_alloc("table", P, 1);
  code = (const char*) vc_alloc("code", Q, 1);
  map = (const PatternMap*) vc_alloc("map", sizeof(PatternMap), 8);
  prog = (Program*) vc_alloc("prog", sizeof(Program), 8);
  alignas(8) char room[sizeof(ProgramHandle)];
  ProgramHandle* h = (ProgramHandle*) room;
  new (&h->Prog) ProgramPtr(std::shared_ptr<Program>(), prog);
  new (&h->PMap) std::shared_ptr<PatternMap>(std::shared_ptr<PatternMap>(), (PatternMap*) map);
  const size_t k = vc_range("k", 0, BIG(1ul << 30, 20));
  const uint8_t t = k < P ? table[k] : 0, c = k < Q ? code[k] : 0; // (what is written may be given up later)
  const unsigned size = lg_program_size(h);
  PROVE("the announced size", size == 16 + P + Q);
  char* out = (char*) vc_alloc("out", size, 1);
  lg_write_program(h, out);
  PROVE("the size of the table", *(uint64_t*) out == P);
  if (k < P) PROVE("the table", (uint8_t) out[8 + k] == t);
  PROVE("the size of the code", *(uint64_t*) (out + 8 + P) == Q);
  if (k < Q) PROVE("the code", (uint8_t) out[16 + P + k] == c);
}
ENTRY check_load() {
  any_sizes();
  const size_t more = vc_range("more", 0, BIG(1ul << 20, 3));
  in = (const char*) vc_alloc("buffer", 16 + P + Q + more, 1);
  vc_assume(*(const uint64_t*) in == P);
  vc_assume(*(const uint64_t*) (in + 8 + P) == Q);
  vc_assume(16 + P + Q + more <= INT_MAX);
  read_map = (PatternMap*) vc_alloc("map", sizeof(PatternMap), 8);
  read_prog = (Program*) vc_alloc("prog", sizeof(Program), 8);
  ProgramHandle* h = lg_read_program(in, (int) (16 + P + Q + more));
  PROVE("a saved program is loaded, with both parts", h && h->PMap.get() == read_map && h->Prog.get() == read_prog);
}
