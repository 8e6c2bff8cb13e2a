// C02 Join: exact timestamp synchronisation for every interleaving of its inputs
#include "rt.h"
#include "rtbot/Join.h"
typedef Join<T, V> J;
static const char* IP[] = {"i1", "i2", "i3", "i4", "i5", "i6", "i7", "i8", "i9", "i10", "i11", "i12"};
static const char* OP[] = {"o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8", "o9", "o10", "o11", "o12"};
// what has arrived on every port so far; decides whether an arrival completes a tuple
struct Ref {
  unsigned np;
  std::vector<std::vector<Msg>> h;
  Ref(unsigned n) : np(n), h(n) {}
  // true when every other port already holds a message with time t (filled into tuple)
  bool arrive(unsigned p, T t, V v, std::vector<Msg>& tuple) {
    h[p].push_back(Msg(t, v));
    tuple.assign(np, Msg(0, 0));
    for (unsigned q = 0; q < np; q++) {
      bool f = false;
      for (auto& m : h[q]) if (m.time == t) { tuple[q] = m; f = true; break; }
      if (!f) return false;
    }
    return true;
  }
};
static void step(J& j, Ref& r, unsigned p, T t, V v) {
  std::vector<Msg> tuple;
  bool complete = r.arrive(p, t, v, tuple);
  j.receiveData(Msg(t, v), IP[p]);
  ProgramMessage<T, V> out = j.executeData();
  for (unsigned q = 0; q < r.np; q++) {
    PM o = at(out, "j", OP[q]);
    sym_check(o.size() == (complete ? 1u : 0u), "a tuple is released exactly when its last member arrives");
    if (complete && o.size() == 1) {
      sym_check(o[0].time == t, "tuple carries the common timestamp");
      sym_check_same(o[0].value, tuple[q].value, "each port carries its own value");
      sym_cover("released");
    }
  }
  if (!complete) sym_cover("held");
}
// every interleaving, arbitrary strictly increasing timestamps per port
static void all(unsigned np, unsigned n) {
  J j("j", np);
  Ref r(np);
  std::vector<T> last(np, 0);
  for (unsigned i = 0; i < n; i++) {
    unsigned p = i == 0 && np == 2 ? sym_choice("p0", np) : sym_choice(Nm("p", i), np);
    T t = sym_u64(Nm("t", i), 1, ~0ull);
    sym_assume(t > last[p]);
    last[p] = t;
    step(j, r, p, t, sym_f64(Nm("v", i)));
  }
}
ENTRY(h_join2) { all(2, QT(6, 7)); }
ENTRY(h_join3) { all(3, QT(5, 6)); }
// fixed arrival shape, every relation between the timestamps: long queues meet late arrivals
static void shape(unsigned np, const unsigned* seq, unsigned n) {
  J j("j", np);
  Ref r(np);
  std::vector<T> last(np, 0);
  for (unsigned i = 0; i < n; i++) {
    unsigned p = seq[i];
    T t = sym_u64(Nm("t", i), 1, ~0ull);
    sym_assume(t > last[p]);
    last[p] = t;
    step(j, r, p, t, sym_f64(Nm("v", i)));
  }
}
ENTRY(h_join3_queues) { static const unsigned s[] = {0, 1, 1, 2, 2, 2, 0, 0}; shape(3, s, 7); }
ENTRY(h_join3_queues_mid) { static const unsigned s[] = {2, 0, 0, 2, 0, 1, 1, 2}; shape(3, s, QT(7, 8)); }
ENTRY(h_join3_queues_last) { static const unsigned s[] = {1, 2, 1, 2, 1, 0, 0, 0}; shape(3, s, QT(7, 8)); }
ENTRY(h_join2_queues) { static const unsigned s[] = {0, 0, 0, 0, 1, 1, 1, 0, 1}; shape(2, s, QT(8, 9)); }
ENTRY(h_join2_queues_rev) { static const unsigned s[] = {1, 1, 1, 0, 0, 0, 1, 0, 0}; shape(2, s, QT(8, 9)); }
ENTRY(h_join4_queues) { static const unsigned s[] = {3, 2, 1, 0, 2, 3, 1, 0}; shape(4, s, QT(6, 7)); }
// timestamps on a small grid: every subset of slots per port, deeper histories than the free ones
ENTRY(h_join3_grid) {
  J j("j", 3);
  Ref r(3);
  const unsigned S = QT(4, 5);
  static const unsigned order[][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  unsigned o = sym_choice("order", 6);
  T base = sym_u64("base", 0, (T)1 << 62);
  unsigned k = 0;
  for (unsigned a = 0; a < 3; a++) {
    unsigned p = order[o][a];
    unsigned mask = sym_choice(Nm("mask", p), 1u << S);
    for (unsigned s = 0; s < S; s++)
      if (mask >> s & 1) step(j, r, p, base + 1 + s, sym_f64(Nm("v", k++)));
  }
}
ENTRY(h_join2_grid) {
  J j("j", 2);
  Ref r(2);
  const unsigned S = QT(5, 6);
  unsigned first = sym_choice("first", 2);
  T base = sym_u64("base", 0, (T)1 << 62);
  unsigned k = 0;
  for (unsigned a = 0; a < 2; a++) {
    unsigned p = a ^ first;
    unsigned mask = sym_choice(Nm("mask", p), 1u << S);
    for (unsigned s = 0; s < S; s++)
      if (mask >> s & 1) step(j, r, p, base + 1 + s, sym_f64(Nm("v", k++)));
  }
}
// twelve ports: port naming (i10 sorts before i2) and completion by any port
ENTRY(h_join12) {
  J j("j", 12);
  Ref r(12);
  unsigned lastPort = sym_choice("last", 12);
  T t = sym_u64("t", 1, (T)1 << 62);
  T t2 = sym_u64("t2", 1, (T)1 << 62);
  sym_assume(t2 > t);
  unsigned skip = sym_choice("skip", 2);
  for (unsigned p = 0; p < 12; p++) if (p != lastPort) step(j, r, p, t, sym_f64(Nm("v", p)));
  if (!skip) step(j, r, lastPort, t, sym_f64("w"));
  for (unsigned p = 0; p < 12; p++) step(j, r, p, t2, sym_f64(Nm("x", p)));
}
// one port runs far ahead of the other, then the other catches up with gaps: nothing is lost, nothing is invented
ENTRY(h_join_lag) {
  const unsigned N = QT(70, 200);
  J j("j", 2);
  Ref r(2);
  unsigned ahead = sym_choice("ahead", 2);
  T base = sym_u64("base", 0, (T)1 << 62);
  V c = sym_f64("c");
  unsigned gap = 1 + sym_choice("gap", 3);
  for (unsigned i = 0; i < N; i++) step(j, r, ahead, base + 1 + 2 * i, c + i);
  for (unsigned i = 0; i < N; i += gap) step(j, r, 1 - ahead, base + 1 + i, c - i);
}
ENTRY(h_join_ieee) {
  sym_fpmode(true);
  J j("j", 2);
  V a = sym_f64("a"), b = sym_f64("b");
  j.receiveData(Msg(5, a), "i1");
  j.executeData();
  j.receiveData(Msg(5, b), "i2");
  ProgM o = j.executeData();
  sym_check(has(o, "j", "o1") && has(o, "j", "o2"), "released");
  if (has(o, "j", "o1")) sym_check_same(at(o, "j", "o1")[0].value, a, "value unchanged");
  if (has(o, "j", "o2")) sym_check_same(at(o, "j", "o2")[0].value, b, "value unchanged");
  sym_cover("ok");
}
