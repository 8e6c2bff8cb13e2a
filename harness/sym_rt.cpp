// The parts of the C++ runtime library that exist only as machine code, written out so that the symbolic
// executor has IR for them (red-black trees, exception classes, throw helpers, number parsing).
// Only linked into the symbolic build; the native replay uses the real libstdc++.
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <clocale>
#include <new>
#include <map>
#include <chrono>
#include <list>
#include <unordered_map>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include "sym.h"

template class std::basic_string<char>;

// ---------------------------------------------------------------- red-black tree
namespace std {
typedef _Rb_tree_node_base Nb;
Nb* _Rb_tree_increment(Nb* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  Nb* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const Nb* _Rb_tree_increment(const Nb* x) throw() { return _Rb_tree_increment(const_cast<Nb*>(x)); }
Nb* _Rb_tree_decrement(Nb* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { Nb* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  Nb* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const Nb* _Rb_tree_decrement(const Nb* x) throw() { return _Rb_tree_decrement(const_cast<Nb*>(x)); }
static void rotL(Nb* x, Nb*& root) {
  Nb* y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotR(Nb* x, Nb*& root) {
  Nb* y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, Nb* x, Nb* p, Nb& h) throw() {
  Nb*& root = h._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    Nb* g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) {
      Nb* u = g->_M_right;
      if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else {
        if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); }
        x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotR(g, root);
      }
    } else {
      Nb* u = g->_M_left;
      if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else {
        if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); }
        x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotL(g, root);
      }
    }
  }
  root->_M_color = _S_black;
}
Nb* _Rb_tree_rebalance_for_erase(Nb* const z, Nb& h) throw() {
  Nb*& root = h._M_parent; Nb*& leftmost = h._M_left; Nb*& rightmost = h._M_right;
  Nb* y = z; Nb* x = 0; Nb* xp = 0;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
    } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c;
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { Nb* q = x; while (q->_M_left) q = q->_M_left; leftmost = q; } }
    if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { Nb* q = x; while (q->_M_right) q = q->_M_right; rightmost = q; } }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black)) {
      if (x == xp->_M_left) {
        Nb* w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_right) w->_M_right->_M_color = _S_black;
          rotL(xp, root); break;
        }
      } else {
        Nb* w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else {
          if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_left) w->_M_left->_M_color = _S_black;
          rotR(xp, root); break;
        }
      }
    }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
    _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      _List_node_base* t = x._M_next; x._M_next = y._M_next; y._M_next = t;
      t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t;
      x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) swap(y, x);
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base* t = this;
  do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
// ---------------------------------------------------------------- hashed containers (load factor 1)
static const unsigned fastBkt[] = {1,2,2,3,5,5,7,7,11,11,11,11,13,13};
static const unsigned primeBkt[] = {17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,103,109,113,127,137,139,149,157,167,179,193,199,211,227,241,257,277,293,313,337,359,383,409,439,467,503,541,577,619,661,709,761,823,887,953,1031,1109,1193,1289,1381,1493,1613,1741,1879,2029,2179,2357,2549,2753,2971,3209,3469,3739,4027,4349,4703,5087,5503,5953,6427,6949,7517,8123,8783,9497,10273,11113,12011,12983,14033,15173,16411,17749,19183,20753,22447,24281,26267,28411,30727,33223,35933,38873,42043,45481,49201,53201,57557,62233,67307,72817,78779,85229,92203,99733,107897,116731,126271,136607,147793,159871,172933,187091,202409,218971,236897,256279,277261,299951,324503,351061,379787,410857,444487,480881,520241,562841,608903,658753,712697,771049,834181,902483,976369,1056323,1142821,1236397,1337629,1447153,1565659,1693859,1832561,1982627,2144977};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  if (n < 14) { _M_next_resize = fastBkt[n]; return fastBkt[n]; }
  for (unsigned p : primeBkt) if (p >= n) { _M_next_resize = p; return p; }
  _M_next_resize = ~(size_t)0;
  return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    size_t m = ne + ni;
    if (!_M_next_resize && m < 11) m = 11;
    if (m >= nb) return {true, _M_next_bkt(m + 1 > nb * 2 ? m + 1 : nb * 2)};
    _M_next_resize = nb;
  }
  return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {
  const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
  const unsigned char* p = (const unsigned char*)ptr;
  const unsigned char* end = p + (len & ~(size_t)7);
  size_t hash = seed ^ (len * mul);
  for (; p != end; p += 8) {
    size_t d = 0;
    for (int i = 7; i >= 0; i--) d = d << 8 | p[i];
    d *= mul; d ^= d >> 47; d *= mul;
    hash ^= d; hash *= mul;
  }
  if (len & 7) {
    size_t d = 0;
    for (int i = (int)(len & 7) - 1; i >= 0; i--) d = d << 8 | end[i];
    hash ^= d; hash *= mul;
  }
  hash ^= hash >> 47; hash *= mul; hash ^= hash >> 47;
  return hash;
}
namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(1000)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(1000)); }
} }

// ---------------------------------------------------------------- exceptions
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }

static char* dupz(const char* s) { size_t n = strlen(s); char* p = (char*)malloc(n + 1); memcpy(p, s, n + 1); return p; }
__cow_string::__cow_string() { _M_p = dupz(""); }
__cow_string::__cow_string(const std::string& s) { _M_p = dupz(s.c_str()); }
__cow_string::__cow_string(const char* s, size_t) { _M_p = dupz(s); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dupz(o._M_p); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = dupz(o._M_p); return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = dupz(o._M_p); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = dupz(o._M_p); return *this; }

runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, 0) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return *(const char* const*)(&_M_msg); }
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, 0) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return *(const char* const*)(&_M_msg); }
#define EXC(C, B) C::C(const string& s) : B(s) {} C::C(const char* s) : B(s) {} C::~C() noexcept {}
EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error)
EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void ios_base_library_init() {}
}  // namespace std

// ---------------------------------------------------------------- C library
extern "C" {
double sym_strtod(const char* s, char** e);
unsigned long long sym_untoken(unsigned long long);
double strtod(const char* s, char** e) { return sym_strtod(s, e); }
unsigned long long strtoull(const char* s, char** e, int) {
  const char* p = s; unsigned long long v = 0;
  while (*p >= '0' && *p <= '9') v = v * 10 + (unsigned)(*p++ - '0');
  if (e) *e = (char*)p;
  return sym_untoken(v);
}
long long strtoll(const char* s, char** e, int b) {
  if (*s == '-') return -(long long)strtoull(s + 1, e, b);
  return (long long)strtoull(s, e, b);
}
unsigned long strtoul(const char* s, char** e, int b) { return strtoull(s, e, b); }
long strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
static char dotS[] = ".";
static char noneS[] = "";
static struct lconv lc;
struct lconv* localeconv() { lc.decimal_point = dotS; lc.thousands_sep = noneS; return &lc; }
int vsnprintf(char* b, size_t n, const char*, va_list) { if (n) b[0] = 0; return 0; }
double floor(double); double sqrt(double); double fabs(double); double exp2(double);
double hypot(double x, double y) { return sqrt(x * x + y * y); }
double fdim(double x, double y) { return x > y ? x - y : 0; }
double rint(double x) { double r = floor(x + 0.5); if (r - x == 0.5 && floor(r / 2) * 2 != r) r -= 1; return r; }
double nearbyint(double x) { return rint(x); }
long llround(double x) { return x < 0 ? -(long)floor(0.5 - x) : (long)floor(x + 0.5); }
long lround(double x) { return llround(x); }
double modf(double x, double* ip) { double t = x < 0 ? -floor(-x) : floor(x); *ip = t; return x - t; }
double ldexp(double x, int n) { for (; n > 0; n--) x *= 2; for (; n < 0; n++) x /= 2; return x; }
double scalbn(double x, int n) { return ldexp(x, n); }
double remainder(double x, double y) { return x - rint(x / y) * y; }
// integers in decimal or hexadecimal with a width; the calls pass their arguments by position (at most two are used)
int snprintfInts(char* b, size_t n, const char* f, unsigned a0, unsigned a1) __asm__("snprintf");
int snprintfInts(char* b, size_t n, const char* f, unsigned a0, unsigned a1) {
  size_t k = 0;
  unsigned used = 0;
  for (; *f; f++) {
    if (*f != '%') { if (k + 1 < n) b[k] = *f; k++; continue; }
    f++;
    unsigned w = 0, len = 0;
    while (*f == '0' || *f == '.' || *f == 'h' || *f == 'l' || (*f >= '1' && *f <= '9')) { if (*f >= '0' && *f <= '9') w = 10 * w + (*f - '0'); f++; }
    if (*f != 'd' && *f != 'u' && *f != 'x' && *f != 'X') { if (n) b[0] = 0; return 0; }
    unsigned v = used ? a1 : a0, base = *f == 'x' || *f == 'X' ? 16 : 10;
    used++;
    char d[12];
    do { unsigned q = v % base; d[len++] = (char)(q < 10 ? '0' + q : (*f == 'X' ? 'A' : 'a') + q - 10); v /= base; } while (v);
    while (len < w && len < 11) d[len++] = '0';
    while (len) { if (k + 1 < n) b[k] = d[len - 1]; k++; len--; }
  }
  if (n) b[k < n ? k : n - 1] = 0;
  return (int)k;
}
}
