// C12: a program is written as its header, its prefilter bit by bit and its instructions, and read back the same.
#include "vc.h"
#include <new>
#include <string>
#include <vector>
#include "src/lib/program.cpp"
#include "src/lib/instructions.cpp"

static const size_t FILTER = 256 * 256 / 8, HEAD = 12 + FILTER;
static char* out;                 // the buffer written
static const char* in;            // the buffer read
static Program* prog;             // the program written, or the one made from the buffer
static size_t n, outn;            // its number of instructions; size of the buffer
static const uint64_t* words;     // its prefilter, eight bytes at a time

static uint8_t filter_byte(size_t j) { return words[j >> 3] >> ((j & 7) * 8); }
// header and prefilter as they are laid out in the object: four bytes are left unused between them
static uint8_t object_byte(size_t j) { j += 4 * (j >= 12); return ((const uint64_t*) prog)[j >> 3] >> ((j & 7) * 8); }
static bool written(size_t j, size_t done) { return (j >= done) | ((uint8_t) out[j] == object_byte(j)); }

extern "C" {
// std::vector<char>(size): a buffer of that size (whatever it is filled with)
void contract_buffer(std::vector<char>* v, size_t size, const void*) {
  outn = size;
  out = (char*) vc_alloc("buffer", size, 1);
  auto& d = v->_M_impl; d._M_start = out; d._M_finish = d._M_end_of_storage = out + size;
}
void contract_new_program(Program* p, size_t count) {
  PROVE("an empty program is made", count == 0);
  new (p) Program(count, Instruction());
  prog = p; words = (const uint64_t*) &p->Filter;
}
// what is written so far (counted by a pointer, in bits, or in bytes)
bool all1_written_p(size_t j, const char* cur, const char*) { return written(j, cur - out); }
bool all1_written_b(size_t j, uint64_t b, uint64_t) { return written(j, 12 + (b >> 3)); }
bool all1_written_y(size_t j, uint64_t b, uint64_t) { return written(j, 12 + b); }
bool inv_bits(uint64_t b, uint64_t) { return (b & 7) == 0 && b <= 256 * 256; }
}

// what is read so far: each word of the prefilter, byte by byte
static bool got(size_t w, size_t done) {
#define GOT(m) ((8 * w + m >= done) | ((uint8_t) (words[w] >> (8 * m)) == (uint8_t) in[12 + 8 * w + m]))
  w -= 2; // of the object, which begins with the header
  return (w >= FILTER / 8) | (GOT(0) & GOT(1) & GOT(2) & GOT(3) & GOT(4) & GOT(5) & GOT(6) & GOT(7));
}
extern "C" {
bool all8_head(size_t w) { const uint64_t v = ((const uint64_t*) prog)[w]; return (w > 1) | ((uint32_t) (v >> 32) == *(const uint32_t*) (in + 4) & (w == 0) & ((uint32_t) v == *(const uint32_t*) in)) | ((w == 1) & ((uint32_t) v == *(const uint32_t*) (in + 8))); }
bool inv_bytes(uint64_t b, uint64_t) { return b <= FILTER; }
bool all8_read_p(size_t w, const char* cur, const char*) { return got(w, cur - in - 12); }
bool all8_read_y(size_t w, uint64_t b, uint64_t) { return got(w, b); }
bool all8_read_b(size_t w, uint64_t b, uint64_t) { return got(w, b >> 3); }
}

static Program* any_program() {
  n = vc_range("instructions", 0, BIG(1 << 28, 6));
  Instruction* code = (Instruction*) vc_alloc("code", n * sizeof(Instruction), 1);
  Program* p = (Program*) vc_alloc("program", sizeof(Program), 8);
  new (&p->IBeg) std::unique_ptr<Instruction[], void(*)(Instruction*)>(code, [](Instruction*) {});
  p->IEnd = code + n;
  prog = p; words = (const uint64_t*) &p->Filter;
  return p;
}
alignas(8) static char room[64];

ENTRY check_write() {
  const Program* p = any_program();
  const uint32_t l = vc_u32("label"), c = vc_u32("check"), f = vc_u32("offset");
  prog->MaxLabel = l; prog->MaxCheck = c; prog->FilterOff = f;
  const size_t announced = p->bufSize();
  PROVE("the announced size", announced == HEAD + sizeof(Instruction) * n);
  new (room) std::vector<char>(p->marshall());
  std::vector<char>& v = *(std::vector<char>*) room;
  PROVE("as many bytes as announced", v.size() == announced && v.data() == out);
  PROVE("the header", *(uint32_t*) out == l && *(uint32_t*) (out + 4) == c && *(uint32_t*) (out + 8) == f);
  const size_t k = vc_range("k", 0, FILTER - 1);
  PROVE("the prefilter", (uint8_t) out[12 + k] == filter_byte(k));
  const size_t i = vc_range("i", 0, BIG(1ul << 31, 50));
  if (i < sizeof(Instruction) * n) PROVE("the instructions", out[HEAD + i] == ((const char*) p->begin())[i]);
  PROVE("the program is left as it was", p->MaxLabel == l && p->MaxCheck == c && p->FilterOff == f && p->size() == n);
}

ENTRY check_read() {
  n = vc_range("instructions", 0, BIG(1 << 28, 6));
  in = (const char*) vc_alloc("buffer", HEAD + n * sizeof(Instruction), 1);
  prog = nullptr;
  new (room) ProgramPtr(Program::unmarshall(in, HEAD + n * sizeof(Instruction)));
  Program* p = ((ProgramPtr*) room)->get();
  PROVE("the program made is returned", p && p == prog);
  PROVE("the header", p->MaxLabel == *(const uint32_t*) in && p->MaxCheck == *(const uint32_t*) (in + 4) && p->FilterOff == *(const uint32_t*) (in + 8));
  const size_t k = vc_range("k", 0, FILTER - 1);
  PROVE("the prefilter", filter_byte(k) == (uint8_t) in[12 + k]);
  PROVE("the instructions", (const char*) p->begin() == in + HEAD && p->size() == n);
  PROVE("a program read has the size of what it was read from", p->bufSize() == HEAD + n * sizeof(Instruction));
}
