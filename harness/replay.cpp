// Native side of the harness interface: replays one input assignment against the real code built by the real compiler.
// usage: replay ENTRY INPUTFILE   exit 0 all checks passed, 3 a check failed (or uncaught exception), 4 an assumption did not hold
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <malloc.h>
#include "sym.h"
static std::map<std::string, std::string>* in;
static bool fp = false;
static int failed = 0;
static const std::string* find(const char* n) { auto it = in->find(n); return it == in->end() ? nullptr : &it->second; }
// every fresh heap object starts out with a different byte pattern, so that a read of memory nobody wrote shows
static unsigned char fill = 0x11;
static bool heapDown = false;
static const size_t ARENA = (size_t)1 << 27;
static unsigned char* arena = nullptr;
static unsigned char* arenaTop = nullptr;
static bool inArena(void* p) { return arena && (unsigned char*)p >= arena && (unsigned char*)p < arena + ARENA; }
static void* below(size_t n) {
  if (!arena) { arena = (unsigned char*)malloc(ARENA); if (!arena) abort(); arenaTop = arena + ARENA; }
  n = (n + 15) & ~(size_t)15;
  if ((size_t)(arenaTop - arena) < n + 16) abort();
  return arenaTop -= n;
}
static void* filled(size_t n) { void* p = heapDown ? below(n ? n : 1) : malloc(n ? n : 1); if (!p) abort(); fill = (unsigned char)(fill * 5 + 0x3b); memset(p, fill, n); return p; }
void* operator new(size_t n) { return filled(n); }
void* operator new[](size_t n) { return filled(n); }
static void drop(void* p) { if (!inArena(p)) free(p); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }
extern "C" {
uint64_t sym_u64(const char* n, uint64_t lo, uint64_t) { auto s = find(n); return s ? strtoull(s->c_str() + 2, nullptr, 10) : lo; }
static double dbl(const char* n, double d) { auto s = find(n); if (!s) return d; return (*s)[0] == 'u' ? (double)strtoull(s->c_str() + 2, nullptr, 10) : strtod(s->c_str() + 2, nullptr); }
double sym_f64(const char* n) { return dbl(n, 0); }
double sym_f64r(const char* n, double lo, double) { return dbl(n, lo); }
double sym_f64i(const char* n, double lo, double) { return dbl(n, lo); }
unsigned sym_choice(const char* n, unsigned) { return (unsigned)sym_u64(n, 0, 0); }
void sym_fpmode(bool b) { fp = b; }
int sym_symbolic() { return 0; }
void sym_assume(bool c) { if (!c) { if (failed) exit(3); printf("ASSUME\n"); fflush(stdout); _Exit(4); } }
void sym_check(bool c, const char* l) { if (!c) { printf("FAIL %s\n", l); fflush(stdout); failed = 1; } }
void sym_check_same(double a, double b, const char* l) {
  bool ok = fp ? (a == b || (std::isnan(a) && std::isnan(b))) : (a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-9 * std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b))));
  if (!ok) { printf("FAIL %s: %.17g vs %.17g\n", l, a, b); fflush(stdout); failed = 1; }
}
void sym_check_close(double a, double b, double tol, const char* l) {
  bool ok = a == b || std::fabs(a - b) <= tol * (1 + 1e-9) + 1e-9 * std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
  if (!ok) { printf("FAIL %s: %.17g vs %.17g\n", l, a, b); fflush(stdout); failed = 1; }
}
void sym_cover(const char* l) { if (getenv("SYM_VERBOSE")) printf("COVER %s\n", l); }
void sym_note(const char* n, uint64_t v) { if (getenv("SYM_VERBOSE")) printf("note %s %lld\n", n, (long long)v); }
void sym_noted(const char* n, double v) { if (getenv("SYM_VERBOSE")) printf("note %s %.17g\n", n, v); }
__attribute__((noinline)) void sym_smear(unsigned char k) { volatile unsigned char b[1 << 18]; for (size_t i = 0; i < sizeof b; i++) b[i] = k; }
void sym_heapdir(int down) { heapDown = down; }
void sym_puts(const char* s) { if (getenv("SYM_VERBOSE")) puts(s); }
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  in = new std::map<std::string, std::string>();
  FILE* f = fopen(argv[2], "r");
  if (!f) return 2;
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#') continue;
    char* sp = strchr(line, ' ');
    if (!sp) continue;
    *sp = 0;
    std::string v(sp + 1);
    while (!v.empty() && (v.back() == '\n' || v.back() == ' ')) v.pop_back();
    (*in)[line] = v;
  }
  fclose(f);
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { printf("no entry %s\n", argv[1]); return 2; }
  try { fn(); }
  catch (std::exception& e) { printf("FAIL uncaught exception: %s\n", e.what()); return 3; }
  catch (...) { printf("FAIL uncaught exception\n"); return 3; }
  fflush(stdout);
  return failed ? 3 : 0;
}
