// C07 an operator restored from collected bytes continues exactly as the original, wherever the cut is made
#include "allops.h"
typedef std::function<Op*()> Mk;
static void cutAt(const Mk& mk, const std::vector<Ev>& evs, unsigned cut) {
  OpP a(mk()), u(mk());  // u is never collected
  ProgM r;
  for (unsigned i = 0; i < cut; i++) { driveX(*a, evs[i], r); driveX(*u, evs[i], r); }
  Bytes bytes = a->collect();
  OpP b(mk());
  Bytes::const_iterator it = bytes.begin();
  b->restore(it);
  sym_check(it == bytes.end(), "restore consumes exactly what collect wrote");
  Bytes again = b->collect();
  sym_check(again.size() == bytes.size(), "collect after restore has the same size");
  if (again.size() == bytes.size()) {
    unsigned diff = 0;
    for (size_t i = 0; i < bytes.size(); i++) diff |= again[i] ^ bytes[i];
    sym_check(diff == 0, "collect after restore gives the same state");
  }
  bool any = false;
  for (unsigned i = cut; i < evs.size(); i++) {
    ProgM x, y, z;
    bool tx = driveX(*a, evs[i], x), ty = driveX(*b, evs[i], y), tz = driveX(*u, evs[i], z);
    sym_check(tx == tz, "collecting changes nothing");
    sameProg(x, z, "collecting changes nothing");
    sym_check(tx == ty, "same errors after restore");
    sameProg(x, y, "same outputs after restore");
    if (!x.empty()) any = true;
  }
  if (any) sym_cover("continued");
}
// one data port, arbitrary values, arbitrary non-decreasing times or times from a small choice of gaps
static void single(const Mk& mk, unsigned n, unsigned gapChoices = 1) {
  std::vector<Ev> e;
  T t = 1000;
  for (unsigned i = 0; i < n; i++) {
    e.push_back(Ev{false, "i1", t, sym_f64(Nm("v", i))});
    t += gapChoices > 1 ? 1 + sym_choice(Nm("g", i), gapChoices) : sym_u64(Nm("g", i), 0, (T)1 << 40); // equal times occur behind a clamped TimeShift
  }
  cutAt(mk, e, sym_choice("cut", n + 1));
}
// np data ports and nc control ports; at each step any of them; times from a small set of increments per port
static void multi(const Mk& mk, unsigned np, unsigned nc, unsigned n, unsigned gap = 2, bool bits = false) {
  std::vector<Ev> e;
  std::vector<T> last(np + nc, 10);
  for (unsigned i = 0; i < n; i++) {
    unsigned p = sym_choice(Nm("p", i), np + nc);
    last[p] += 1 + (gap > 1 ? sym_choice(Nm("g", i), gap) : 0);
    bool c = p >= np;
    e.push_back(Ev{c, std::string(c ? "c" : "i") + std::to_string(c ? p - np + 1 : p + 1), last[p], c && bits ? (V)sym_choice(Nm("b", i), 2) : sym_f64(Nm("v", i))});
  }
  cutAt(mk, e, sym_choice("cut", n + 1));
}
#define ONE(nm, n, ...) ENTRY(h_##nm) { single([] { return new __VA_ARGS__; }, n); }
ENTRY(h_input) { multi([] { return new Input<T, V>("x", 2); }, 2, 0, 4); }
ENTRY(h_output) { multi([] { return new Output<T, V>("x", 2); }, 2, 0, 4); }
ENTRY(h_join) { multi([] { return new Join<T, V>("x", 2); }, 2, 0, QT(5, 6)); }
ENTRY(h_join3) { multi([] { return new Join<T, V>("x", 3); }, 3, 0, QT(5, 6), 1); }
ENTRY(h_demux) { multi([] { return new Demultiplexer<T, V>("x", 2); }, 1, 2, QT(5, 6), 1, true); }
ONE(greater, 3, GreaterThan<T, V>("x", 1))
ONE(less, 3, LessThan<T, V>("x", 1))
ONE(equal, 3, EqualTo<T, V>("x", 1))
ONE(add, 3, Add<T, V>("x", 2))
ONE(scale, 3, Scale<T, V>("x", 2))
ONE(constant, 3, Constant<T, V>("x", 2))
ONE(power, 3, Power<T, V>("x", 2))
ONE(identity, 3, Identity<T, V>("x"))
ONE(timeshift, 3, TimeShift<T, V>("x", 2, 3))
ONE(difference, 4, Difference<T, V>("x"))
ONE(count, QT(6, 12), Count<T, V>("x"))
ONE(cumsum, QT(6, 12), CumulativeSum<T, V>("x"))
ONE(ma, QT(7, 12), MovingAverage<T, V>("x", 3))
ONE(ma5, QT(9, 14), MovingAverage<T, V>("x", 5))
ONE(fir, QT(6, 10), FiniteImpulseResponse<T, V>("x", std::vector<V>{1, 2, 3}))
ONE(ar, QT(5, 6), AutoRegressive<T, V>("x", std::vector<V>{0.5, 0.25}))
ENTRY(h_sd) { single([] { return new StandardDeviation<T, V>("x", 3); }, QT(6, 8)); }
ENTRY(h_peak) { single([] { return new PeakDetector<T, V>("x", 3); }, QT(6, 7)); }
ENTRY(h_constres) { single([] { return new ConstantResampler<T, V>("x", 3); }, QT(5, 6), QT(4, 5)); }
ENTRY(h_cosine) { single([] { return new CosineResampler<T, V>("x", 3); }, QT(5, 6), QT(4, 5)); }
ENTRY(h_hermite) { single([] { return new HermiteResampler<T, V>("x", 3); }, QT(6, 7), QT(3, 4)); }
ENTRY(h_function) { single([] { return new Function<T, V>("x", std::vector<std::pair<V, V>>{{0, 1}, {2, 5}, {3, -1}}, "linear"); }, 2); }
ENTRY(h_function_hermite) { single([] { return new Function<T, V>("x", std::vector<std::pair<V, V>>{{0, 1}, {2, 5}, {3, -1}}, "hermite"); }, 2); }
ENTRY(h_variable) { multi([] { return new Variable<T, V>("x", 7); }, 1, 1, QT(5, 7), 2); }
// times in any order: dropped messages and refused queries are part of the behaviour
static void anyOrder(const Mk& mk, unsigned np, unsigned nc, unsigned n, unsigned k) {
  std::vector<Ev> e;
  for (unsigned i = 0; i < n; i++) {
    unsigned p = sym_choice(Nm("p", i), np + nc);
    bool c = p >= np;
    T t = k ? 10 + 2 * sym_choice(Nm("t", i), k) : sym_u64(Nm("t", i), 0, ~(T)0);
    e.push_back(Ev{c, std::string(c ? "c" : "i") + std::to_string(c ? p - np + 1 : p + 1), t, sym_f64(Nm("v", i))});
  }
  cutAt(mk, e, sym_choice("cut", n + 1));
}
ENTRY(h_input_any) { anyOrder([] { return new Input<T, V>("x", 2); }, 2, 0, QT(4, 5), 0); }
ENTRY(h_variable_any) { anyOrder([] { return new Variable<T, V>("x", 7); }, 1, 1, QT(4, 5), 3); }
ENTRY(h_demux_any) { anyOrder([] { return new Demultiplexer<T, V>("x"); }, 1, 1, QT(4, 5), 3); }
ENTRY(h_join_any) { anyOrder([] { return new Join<T, V>("x", 2); }, 2, 0, QT(4, 5), 3); }
ENTRY(h_plus_any) { anyOrder([] { return new Plus<T, V>("x"); }, 2, 0, QT(4, 5), 3); }
#define BIN(nm, OPT) ENTRY(h_##nm) { multi([] { return new OPT<T, V>("x"); }, 2, 0, QT(4, 5), 2); }
BIN(plus, Plus)
BIN(minus, Minus)
BIN(mult, Multiplication)
BIN(div, Division)
BIN(and, And)
BIN(or, Or)
BIN(gts, GreaterThanStream)
BIN(lts, LessThanStream)
ENTRY(h_linear) { multi([] { return new Linear<T, V>("x", std::vector<V>{2, 3, -1}); }, 3, 0, QT(5, 6), 1); }
ENTRY(h_rsi) { single([] { return new RelativeStrengthIndex<T, V>("x", 2); }, QT(5, 6)); }
// long histories, cut anywhere in a choice of places
static void longrun(const Mk& mk, unsigned n) {
  std::vector<Ev> e;
  V c = sym_f64("c");
  T t = 5;
  for (unsigned i = 0; i < n; i++) { t += 1 + i % 4; e.push_back(Ev{false, "i1", t, c * (V)(i % 7) + (V)(i % 11)}); }
  cutAt(mk, e, sym_choice("cut", 8) * n / 8 + 3);
}
ENTRY(h_long_count) { longrun([] { return new Count<T, V>("x"); }, QT(80, 300)); }
ENTRY(h_long_cumsum) { longrun([] { return new CumulativeSum<T, V>("x"); }, QT(80, 300)); }
ENTRY(h_long_ma) { longrun([] { return new MovingAverage<T, V>("x", 17); }, QT(80, 200)); }
ENTRY(h_long_fir) { longrun([] { return new FiniteImpulseResponse<T, V>("x", std::vector<V>{1, -2, 3, 0.5, 4, 1, 2, 3, 4, 5}); }, QT(40, 100)); }
ENTRY(h_long_constres) { longrun([] { return new ConstantResampler<T, V>("x", 3); }, QT(80, 200)); }
ENTRY(h_long_cosine) { longrun([] { return new CosineResampler<T, V>("x", 3); }, QT(60, 100)); }
ENTRY(h_long_hermite) { longrun([] { return new HermiteResampler<T, V>("x", 3); }, QT(40, 80)); }
ENTRY(h_long_input) { longrun([] { return new Input<T, V>("x"); }, QT(80, 200)); }
// queues of different length
static void queues(const Mk& mk, unsigned a, unsigned b, const char* pa, const char* pb, bool cb) {
  std::vector<Ev> e;
  V c = sym_f64("c");
  for (unsigned i = 0; i < a; i++) e.push_back(Ev{false, pa, 10 + 2 * i, c + i});
  unsigned q = e.size();
  for (unsigned i = 0; i < b; i++) e.push_back(Ev{cb, pb, 10 + 4 * i, cb ? (V)(i % 2) : c - i});
  cutAt(mk, e, q - 3 + sym_choice("cut", 8));
}
ENTRY(h_long_join) { queues([] { return new Join<T, V>("x", 2); }, QT(40, 80), QT(20, 40), "i1", "i2", false); }
ENTRY(h_long_plus) { queues([] { return new Plus<T, V>("x"); }, QT(40, 80), QT(20, 40), "i1", "i2", false); }
// many instructions or queries waiting for data
static void waiting(const Mk& mk, unsigned nc, unsigned a, unsigned b) {
  std::vector<Ev> e;
  V c = sym_f64("c");
  for (unsigned i = 0; i < a; i++) for (unsigned p = 1; p <= nc; p++) e.push_back(Ev{true, "c" + std::to_string(p), 10 + 2 * i, (V)((i + p) % 2)});
  unsigned q = e.size();
  for (unsigned i = 0; i < b; i++) e.push_back(Ev{false, "i1", 10 + 2 * i, c + i});
  cutAt(mk, e, q - 3 + sym_choice("cut", 8));
}
ENTRY(h_long_demux) { waiting([] { return new Demultiplexer<T, V>("x", 2); }, 2, QT(30, 60), QT(30, 60)); }
ENTRY(h_long_queries) { waiting([] { return new Variable<T, V>("x", 3); }, 1, QT(30, 60), QT(30, 60)); }
ENTRY(h_long_variable) { queues([] { return new Variable<T, V>("x", 3); }, QT(40, 80), QT(18, 38), "i1", "c1", true); }
static Op* comp() {
  Composite<T, V>* c = new Composite<T, V>("cmp");
  c->createInput("in");
  c->createMovingAverage("m", 2); c->createCumulativeSum("q"); c->createJoin("j", 2); c->createCount("n");
  c->createOutput("out", 2);
  c->createInternalConnection("in", "m", "o1", "i1"); c->createInternalConnection("in", "n", "o1", "i1"); c->createInternalConnection("m", "q");
  c->createInternalConnection("q", "j", "o1", "i1"); c->createInternalConnection("n", "j", "o1", "i2");
  c->createInternalConnection("j", "out", "o1", "i1"); c->createInternalConnection("j", "out", "o2", "i2");
  return c;
}
ENTRY(h_composite) { single(comp, QT(5, 7)); }
ENTRY(h_difference_newest) { single([] { return new Difference<T, V>("x", false); }, 4, 2); }
ENTRY(h_join12) {
  std::vector<Ev> e;
  for (unsigned i = 0; i < 12; i++) { e.push_back(Ev{false, "i" + std::to_string(i + 1), 10 + (T)(i % 3), sym_f64(Nm("v", i))}); e.push_back(Ev{false, "i" + std::to_string(i + 1), 20, sym_f64(Nm("w", i))}); }
  cutAt([] { return new Join<T, V>("x", 12); }, e, 3 * sym_choice("cut", 8));
}
// restored operators can be collected and restored again
ENTRY(h_twice) {
  static const unsigned cuts[] = {1, 3, 4, 6};
  Mk mks[] = {[] { return (Op*)new MovingAverage<T, V>("x", 3); }, [] { return (Op*)new HermiteResampler<T, V>("x", 2); }, [] { return (Op*)new Join<T, V>("x", 2); }, comp, [] { return (Op*)new RelativeStrengthIndex<T, V>("x", 2); }};
  const Mk& mk = mks[sym_choice("op", 5)];
  OpP u(mk()), b(mk());
  V c = sym_f64r("c", -100, 100);
  unsigned k = 0;
  for (unsigned i = 0; i < 9; i++) {
    if (k < 4 && i == cuts[k]) { Bytes y = b->collect(); b.reset(mk()); Bytes::const_iterator it = y.begin(); b->restore(it); k++; }
    Ev e{false, u->typeName() == "Join" && i % 2 ? "i2" : "i1", 100 + 2 * (T)(i / 2) + (u->typeName() == "Join" ? 0 : (T)i), c * (V)(i % 4) + (V)(i % 3)};
    ProgM x, y;
    bool tx = driveX(*u, e, x), ty = driveX(*b, e, y);
    sym_check(tx == ty, "same errors after restore");
    sameProg(x, y, "same outputs after restore");
  }
  sym_cover("continued");
}
