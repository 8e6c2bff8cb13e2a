// S14 Variable: a query is answered with the value in force at its time
#include "rt.h"
#include "rtbot/std/Variable.h"
struct Ref {
  V def;
  std::vector<Msg> d;
  bool pending = false;
  T q = 0;
  // answer due now?
  bool answer(V& v) {
    if (!pending || d.empty()) return false;
    if (q < d[0].time) { v = def; return true; }
    for (size_t i = 0; i < d.size(); i++) {
      if (d[i].time == q) { v = d[i].value; return true; }
      if (d[i].time > q) { v = d[i - 1].value; return true; }
    }
    return false;
  }
};
static void check(Ref& r, const PM& out) {
  V v = 0;
  bool a = r.answer(v);
  sym_check(out.size() == (a ? 1u : 0u), "answered exactly when a data message at or after the query time is known");
  if (a && out.size() == 1) {
    sym_check(out[0].time == r.q, "answer carries the query time");
    sym_check_same(out[0].value, v, "last value at or before the query time, default before the first");
    sym_cover(r.q < r.d[0].time ? "default" : "answered");
  }
  if (!a) sym_cover("waits");
  if (a) r.pending = false;
}
static void data(Variable<T, V>& o, Ref& r, T t, V v) { r.d.push_back(Msg(t, v)); check(r, feed(o, t, v)); }
static void query(Variable<T, V>& o, Ref& r, T t, V v) { r.pending = true; r.q = t; check(r, ctl(o, t, v)); }
// every interleaving, arbitrary times
static void all(unsigned n) {
  V def = sym_f64("def");
  Variable<T, V> o("v", def);
  Ref r;
  r.def = def;
  T ld = 0, lq = 0;
  for (unsigned i = 0; i < n; i++) {
    bool q = sym_choice(Nm("q", i), 2);
    T t = sym_u64(Nm("t", i), 1, ~0ull);
    V v = sym_f64(Nm("v", i));
    if (q) { sym_assume(t > lq); lq = t; query(o, r, t, v); } else { sym_assume(t > ld); ld = t; data(o, r, t, v); }
  }
}
ENTRY(h_all) { all(QT(6, 7)); }
// fixed shapes with longer backlogs
static void shape(const char* s) {
  V def = sym_f64("def");
  Variable<T, V> o("v", def);
  Ref r;
  r.def = def;
  T ld = 0, lq = 0;
  for (unsigned i = 0; s[i]; i++) {
    T t = sym_u64(Nm("t", i), 1, ~0ull);
    V v = sym_f64(Nm("v", i));
    if (s[i] == 'q') { sym_assume(t > lq); lq = t; query(o, r, t, v); } else { sym_assume(t > ld); ld = t; data(o, r, t, v); }
  }
}
ENTRY(h_backlog) { shape(QT("ddddqqqq", "dddddqqqqq")); }
ENTRY(h_early) { shape(QT("qdqddqdq", "qdqdqdqdq")); }
ENTRY(h_mixed) { shape(QT("ddqddqdqd", "ddqdddqdqdq")); }
ENTRY(h_default0) {
  Variable<T, V> o("v");
  Ref r;
  r.def = 0;
  query(o, r, 5, sym_f64("v0"));
  data(o, r, sym_u64("t", 6, ~0ull), sym_f64("v1"));
}
// grid: every subset of data and query times on a small grid, data first per step
static void grid(unsigned n, bool queryFirst) {
  Variable<T, V> o("v", 7);
  Ref r;
  r.def = 7;
  for (unsigned i = 1; i <= n; i++) {
    unsigned c = sym_choice(Nm("c", i), 4);
    V v = sym_f64(Nm("v", i));
    if (queryFirst && (c & 1)) query(o, r, i, 0);
    if (c & 2) data(o, r, i, v);
    if (!queryFirst && (c & 1)) query(o, r, i, 0);
  }
}
ENTRY(h_grid) { grid(QT(6, 7), false); }
ENTRY(h_grid_query_first) { grid(QT(6, 7), true); }
// long streams; the data runs far ahead, then far behind
ENTRY(h_long) {
  Variable<T, V> o("v", -1);
  Ref r;
  r.def = -1;
  V x = sym_f64("x"), y = sym_f64("y");
  unsigned n = QT(120, 400);
  T q = 3;
  for (unsigned i = 1; i <= n; i++) {
    data(o, r, 10 * i, i % 3 ? x + (V)i : y);
    if (i % 40 > 20) { query(o, r, q, x); q = q + 7 + (i % 5); }
  }
  while (q < 10 * n) { query(o, r, q, y); q = q + 9; }
  query(o, r, 10 * n, y);
}
ENTRY(h_behind) {
  Variable<T, V> o("v", -1);
  Ref r;
  r.def = -1;
  V x = sym_f64("x");
  for (unsigned i = 1; i <= QT(60, 200); i++) {
    query(o, r, 8 * i, 0);
    for (unsigned k = 0; k < 4; k++) data(o, r, 8 * i - 5 + k * 2, x + (V)(4 * i + k));
  }
}
ENTRY(h_ieee) {
  sym_fpmode(true);
  V def = sym_f64("def"), a = sym_f64("a"), b = sym_f64("b");
  Variable<T, V> o("v", def);
  Ref r;
  r.def = def;
  query(o, r, 1, a);
  data(o, r, 3, a);
  query(o, r, 4, b);
  data(o, r, 5, b);
  query(o, r, 5, a);
  query(o, r, 6, a);
  data(o, r, 6, a);
}
