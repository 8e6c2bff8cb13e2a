// Interface between the harnesses and the symbolic executor (engine/) or the native replay runtime (replay.cpp).
#pragma once
#include <cstdint>
#include <string>
extern "C" {
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi);
double sym_f64(const char* name);                        // any double (reals under the engine's default mode)
double sym_f64r(const char* name, double lo, double hi); // real in [lo,hi]
double sym_f64i(const char* name, double lo, double hi); // integer-valued double in [lo,hi]
unsigned sym_choice(const char* name, unsigned n);       // 0..n-1, one path each
void sym_fpmode(bool ieee);                              // from now on doubles are IEEE-754 terms
int sym_symbolic();
void sym_assume(bool c);
void sym_check(bool c, const char* label);
void sym_check_same(double a, double b, const char* label);              // exact (NaN same as NaN)
void sym_check_close(double a, double b, double tol, const char* label); // |a-b| <= tol
void sym_cover(const char* label);
void sym_note(const char* name, uint64_t v);
void sym_noted(const char* name, double v);
void sym_puts(const char* s);
void sym_heapdir(int down);      // from now on heap objects get ever lower (1) or ever higher (0) addresses
void sym_smear(unsigned char k); // natively: leaves the stack below the caller filled with k
}
#define ENTRY(n) extern "C" void n()
// names for the k-th input
struct Nm {
  char b[40];
  Nm(const char* p, unsigned i) { init(p, i); }
  Nm(const char* p, unsigned i, const char* q, unsigned j) { unsigned n = init(p, i); for (; *q; q++) b[n++] = *q; n = num(n, j); b[n] = 0; }
  operator const char*() const { return b; }
 private:
  unsigned init(const char* p, unsigned i) { unsigned n = 0; for (; *p; p++) b[n++] = *p; n = num(n, i); b[n] = 0; return n; }
  unsigned num(unsigned n, unsigned i) { if (i >= 10) b[n++] = (char)('0' + i / 10 % 10); b[n++] = (char)('0' + i % 10); return n; }
};
