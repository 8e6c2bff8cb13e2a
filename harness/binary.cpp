// S15-S17: operators over synchronised streams
#include "rt.h"
#include "rtbot/std/And.h"
#include "rtbot/std/Division.h"
#include "rtbot/std/GreaterThanStream.h"
#include "rtbot/std/LessThanStream.h"
#include "rtbot/std/Linear.h"
#include "rtbot/std/Minus.h"
#include "rtbot/std/Multiplication.h"
#include "rtbot/std/Or.h"
#include "rtbot/std/Plus.h"
enum { PLUS, MINUS, MULT, DIV, AND, OR, GT, LT, LINEAR };
static const char* IP[] = {"i1", "i2", "i3", "i4", "i5", "i6", "i7", "i8", "i9", "i10", "i11", "i12", "i13"};
static Op* mk(int k, const std::vector<V>& c) {
  switch (k) {
    case PLUS: return new Plus<T, V>("o");
    case MINUS: return new Minus<T, V>("o");
    case MULT: return new Multiplication<T, V>("o");
    case DIV: return new Division<T, V>("o");
    case AND: return new And<T, V>("o");
    case OR: return new Or<T, V>("o");
    case GT: return new GreaterThanStream<T, V>("o");
    case LT: return new LessThanStream<T, V>("o");
    default: return new Linear<T, V>("o", c);
  }
}
struct Rig {
  int k;
  unsigned np;
  std::vector<V> c;
  std::unique_ptr<Op> o;
  std::vector<std::vector<Msg>> h;
  std::vector<T> last;
  Rig(int k, std::vector<V> c = {}) : k(k), np(k == LINEAR ? (unsigned)c.size() : 2), c(c), o(mk(k, c)), h(np), last(np, 0) {}
  void arrive(unsigned p, T t, V v) {
    sym_assume(t > last[p]);
    last[p] = t;
    h[p].push_back(Msg(t, v));
    std::vector<V> x;
    for (unsigned q = 0; q < np; q++) {
      bool f = false;
      for (size_t i = h[q].size(); i-- > 0 && !f;) if (h[q][i].time == t) { x.push_back(h[q][i].value); f = true; }
      if (!f) break;
    }
    PM r = feed(*o, t, v, IP[p]);
    bool due = x.size() == np;
    V e = 0;
    if (due) switch (k) {
      case PLUS: e = x[0] + x[1]; break;
      case MINUS: e = x[0] - x[1]; break;
      case MULT: e = x[0] * x[1]; break;
      case DIV: due = x[1] != 0; if (due) e = x[0] / x[1]; break;
      case AND: e = x[0] >= 0.5 && x[1] >= 0.5 ? 1 : 0; break;
      case OR: e = x[0] >= 0.5 || x[1] >= 0.5 ? 1 : 0; break;
      case GT: due = x[0] > x[1]; e = x[0]; break;
      case LT: due = x[0] < x[1]; e = x[0]; break;
      default: for (unsigned q = 0; q < np; q++) e = q ? e + x[q] * c[q] : x[q] * c[q];
    }
    sym_check(r.size() == (due ? 1u : 0u), "one message exactly when the last partner of a timestamp arrives");
    if (due && r.size() == 1) {
      sym_check(r[0].time == t, "common timestamp");
      sym_check_same(r[0].value, e, "value is the defined combination of the partners");
      sym_cover("out");
    }
    if (!due) sym_cover("none");
  }
};
static V val(int, const char* n) { return sym_f64(n); }
// every interleaving, arbitrary strictly increasing times per port
static void all(int k, unsigned n) {
  Rig r(k);
  for (unsigned i = 0; i < n; i++) {
    unsigned p = sym_choice(Nm("p", i), 2);
    r.arrive(p, sym_u64(Nm("t", i), 1, ~0ull), val(k, Nm("v", i)));
  }
}
// one stream far ahead of the other
static void lag(int k, unsigned ahead) {
  Rig r(k);
  V x = val(k, "x"), y = val(k, "y");
  if (k == DIV) { sym_assume(x > 0); sym_assume(y > 0); }
  for (unsigned p = 0; p < 2; p++) {
    Rig s(k);
    for (unsigned i = 1; i <= ahead; i++) s.arrive(p, 2 * i, i % 2 ? x : y + (V)i);
    for (unsigned i = 1; i <= ahead; i++) s.arrive(1 - p, i % 3 == 0 ? 2 * i : 2 * i - 1, i % 5 ? y : x + (V)(i % 4));
  }
}
static void ieee(int k) {
  sym_fpmode(true);
  Rig r(k);
  V a[3], b[3];
  for (unsigned i = 0; i < 2; i++) {
    a[i] = sym_f64(Nm("a", i)); b[i] = sym_f64(Nm("b", i));
    if (k == AND || k == OR || k == GT || k == LT) { sym_assume(a[i] == a[i]); sym_assume(b[i] == b[i]); }
  }
  r.arrive(0, 1, a[0]); r.arrive(0, 2, a[1]); r.arrive(1, 1, b[0]); r.arrive(1, 2, b[1]);
}
#define BIN(n, K) \
  ENTRY(h_##n) { all(K, QT(5, 6)); } \
  ENTRY(h_##n##_lag) { lag(K, QT(60, 150)); } \
  ENTRY(h_##n##_ieee) { ieee(K); }
BIN(plus, PLUS)
BIN(minus, MINUS)
BIN(mult, MULT)
BIN(div, DIV)
BIN(and, AND)
BIN(or, OR)
BIN(gts, GT)
BIN(lts, LT)
// Linear
static void linear(unsigned np, unsigned n) {
  std::vector<V> c;
  for (unsigned i = 0; i < np; i++) c.push_back(sym_f64(Nm("c", i)));
  Rig r(LINEAR, c);
  for (unsigned i = 0; i < n; i++) {
    unsigned p = sym_choice(Nm("p", i), np);
    r.arrive(p, sym_u64(Nm("t", i), 1, ~0ull), sym_f64(Nm("v", i)));
  }
}
ENTRY(h_linear2) { linear(2, QT(5, 6)); }
ENTRY(h_linear3) { linear(3, QT(5, 6)); }
static void wide(unsigned np) {
  std::vector<V> c;
  for (unsigned i = 0; i < np; i++) c.push_back(sym_f64(Nm("c", i)));
  Rig r(LINEAR, c);
  for (unsigned round = 0; round < 3; round++)
    for (unsigned i = 0; i < np; i++) {
      unsigned p = round == 0 ? i : round == 1 ? np - 1 - i : (i * 5 + 2) % np;
      r.arrive(p, 10 * (round + 1), sym_f64(Nm("r", round, "v", p)));
      if (i == 2) r.arrive(p, 10 * (round + 1) + 3, 5);
    }
}
ENTRY(h_linear9) { wide(9); }
ENTRY(h_linear11) { wide(11); }
ENTRY(h_linear12) { wide(12); }
ENTRY(h_linear13) { wide(13); }
ENTRY(h_linear_lag) {
  Rig r(LINEAR, {2, -3, 0.5});
  V x = sym_f64("x");
  for (unsigned i = 1; i <= QT(50, 120); i++) r.arrive(1, i, x + (V)i);
  for (unsigned i = 1; i <= QT(50, 120); i++) { if (i % 2) r.arrive(2, i, x); if (i % 3) r.arrive(0, i, (V)i); }
}
ENTRY(h_linear_ports) {
  sym_check(throws([] { Linear<T, V> l("l", {1}); }), "fewer than two coefficients are refused");
  sym_check(throws([] { Linear<T, V> l("l", std::vector<V>()); }), "fewer than two coefficients are refused");
  sym_cover("out");
}
