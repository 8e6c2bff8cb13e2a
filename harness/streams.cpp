// S18 every operator: output times strictly increase per port, are never ahead of the input, and instances do not share state
#include "allops.h"
typedef std::function<Op*()> Mk;
struct Watch {
  bool shifts;
  T newest;
  std::map<std::string, T> last;
  Watch(bool s) : shifts(s), newest(0) {}
  void see(const Op& o, const Ev& e, const ProgM& r) {
    if (e.t > newest) newest = e.t;
    auto i = r.find(o.typeName() == "Composite" ? "out" : o.id);
    if (i == r.end()) return;
    for (auto& p : i->second)
      for (auto& m : p.second) {
        auto l = last.find(p.first);
        if (l != last.end()) sym_check(m.time > l->second, "output times strictly increase on every port");
        if (!shifts) sym_check(m.time <= newest, "no output is ahead of the input");
        last[p.first] = m.time;
        sym_cover("out");
      }
  }
};
// e: the stream of interest, f: what another instance gets meanwhile
static void run(const Mk& mk, const std::vector<Ev>& e, const std::vector<Ev>& f, bool shifts) {
  OpP alone(mk());
  std::vector<ProgM> ref;
  std::vector<char> err;
  Watch w(shifts);
  for (auto& x : e) { ProgM r; err.push_back(driveX(*alone, x, r)); ref.push_back(r); w.see(*alone, x, r); }
  OpP a(mk()), b(mk());
  for (size_t i = 0; i < e.size(); i++) {
    ProgM r, s;
    bool t = driveX(*a, e[i], r);
    sym_check(t == err[i], "an instance is unaffected by other instances (errors)");
    sameProg(r, ref[i], "an instance is unaffected by other instances");
    driveX(*b, f[i], s);
    if (i % 2) { OpP c(mk()); driveX(*c, f[i], s); }
  }
}
static void single(const Mk& mk, unsigned n, unsigned gaps, bool shifts = false) {
  std::vector<Ev> e, f;
  T t = 1000;
  for (unsigned i = 0; i < n; i++) {
    e.push_back(Ev{false, "i1", t, sym_f64(Nm("v", i))});
    f.push_back(Ev{false, "i1", 7 + 5 * i, (V)(i * i) - 3.5});
    t += 1 + (gaps > 1 ? sym_choice(Nm("g", i), gaps) : 0);
  }
  run(mk, e, f, shifts);
}
static void multi(const Mk& mk, unsigned np, unsigned nc, unsigned n, unsigned gap, bool bits = false) {
  std::vector<Ev> e, f;
  std::vector<T> last(np + nc, 10);
  for (unsigned i = 0; i < n; i++) {
    unsigned p = sym_choice(Nm("p", i), np + nc);
    last[p] += 1 + (gap > 1 ? sym_choice(Nm("g", i), gap) : 0);
    bool c = p >= np;
    std::string port = std::string(c ? "c" : "i") + std::to_string(c ? p - np + 1 : p + 1);
    e.push_back(Ev{c, port, last[p], c && bits ? (V)sym_choice(Nm("b", i), 2) : sym_f64(Nm("v", i))});
    unsigned q = i % (np + nc);
    bool d = q >= np;
    f.push_back(Ev{d, std::string(d ? "c" : "i") + std::to_string(d ? q - np + 1 : q + 1), 11 + i / (np + nc), d && bits ? (V)(i % 2) : (V)i});
  }
  run(mk, e, f, false);
}
#define ONE(nm, n, gaps, ...) ENTRY(h_##nm) { single([] { return new __VA_ARGS__; }, n, gaps); }
#define SHIFTS(nm, n, gaps, ...) ENTRY(h_##nm) { single([] { return new __VA_ARGS__; }, n, gaps, true); }
ENTRY(h_input) { multi([] { return new Input<T, V>("x", 2); }, 2, 0, 4, 2); }
ENTRY(h_output) { multi([] { return new Output<T, V>("x", 2); }, 2, 0, 4, 2); }
ENTRY(h_join) { multi([] { return new Join<T, V>("x", 2); }, 2, 0, QT(5, 6), 2); }
ENTRY(h_join3) { multi([] { return new Join<T, V>("x", 3); }, 3, 0, QT(5, 6), 1); }
ENTRY(h_demux) { multi([] { return new Demultiplexer<T, V>("x", 2); }, 1, 2, QT(5, 6), 1, true); }
ONE(greater, 3, 2, GreaterThan<T, V>("x", 1))
ONE(less, 3, 2, LessThan<T, V>("x", 1))
ONE(equal, 3, 2, EqualTo<T, V>("x", 1))
ONE(add, 3, 2, Add<T, V>("x", 2))
ONE(scale, 3, 2, Scale<T, V>("x", 2))
ONE(constant, 3, 2, Constant<T, V>("x", 2))
ONE(power, 3, 2, Power<T, V>("x", 2))
ONE(identity, 3, 2, Identity<T, V>("x"))
SHIFTS(timeshift, 4, 3, TimeShift<T, V>("x", 2, 3))
ONE(timeshift_back, 4, 3, TimeShift<T, V>("x", 2, -3))
ONE(difference, 4, 2, Difference<T, V>("x"))
ONE(difference_newest, 4, 2, Difference<T, V>("x", false))
ONE(count, 6, 2, Count<T, V>("x"))
ONE(cumsum, 6, 2, CumulativeSum<T, V>("x"))
ONE(ma, 7, 2, MovingAverage<T, V>("x", 3))
ONE(fir, 6, 2, FiniteImpulseResponse<T, V>("x", std::vector<V>{1, 2, 3}))
ONE(ar, 5, 2, AutoRegressive<T, V>("x", std::vector<V>{0.5, 0.25}))
ONE(sd, 5, 1, StandardDeviation<T, V>("x", 3))
ONE(peak, 5, 1, PeakDetector<T, V>("x", 3))
ONE(peak4, 6, 1, PeakDetector<T, V>("x", 4))
ONE(constres, QT(5, 6), 5, ConstantResampler<T, V>("x", 3))
ONE(cosine, QT(5, 6), 5, CosineResampler<T, V>("x", 3))
ONE(hermite, QT(6, 7), QT(3, 4), HermiteResampler<T, V>("x", 3))
ENTRY(h_function) { single([] { return new Function<T, V>("x", std::vector<std::pair<V, V>>{{0, 1}, {2, 5}, {3, -1}}, "linear"); }, 3, 2); }
ENTRY(h_function_hermite) { single([] { return new Function<T, V>("x", std::vector<std::pair<V, V>>{{0, 1}, {2, 5}, {3, -1}}, "hermite"); }, 2, 2); }
ENTRY(h_variable) { multi([] { return new Variable<T, V>("x", 7); }, 1, 1, QT(6, 7), 2); }
#define BIN(nm, OPT) ENTRY(h_##nm) { multi([] { return new OPT<T, V>("x"); }, 2, 0, QT(4, 5), 2); }
BIN(plus, Plus)
BIN(minus, Minus)
BIN(mult, Multiplication)
BIN(div, Division)
BIN(and, And)
BIN(or, Or)
BIN(gts, GreaterThanStream)
BIN(lts, LessThanStream)
ENTRY(h_linear) { multi([] { return new Linear<T, V>("x", std::vector<V>{2, 3, -1}); }, 3, 0, QT(5, 6), 1); }
ENTRY(h_rsi) { single([] { return new RelativeStrengthIndex<T, V>("x", 2); }, QT(5, 6), 1); }
static Op* comp() {
  Composite<T, V>* c = new Composite<T, V>("cmp");
  c->createInput("in");
  c->createMovingAverage("m", 2); c->createCumulativeSum("q"); c->createJoin("j", 2); c->createCount("n");
  c->createOutput("out", 2);
  c->createInternalConnection("in", "m", "o1", "i1"); c->createInternalConnection("in", "n", "o1", "i1"); c->createInternalConnection("m", "q");
  c->createInternalConnection("q", "j", "o1", "i1"); c->createInternalConnection("n", "j", "o1", "i2");
  c->createInternalConnection("j", "out", "o1", "i1"); c->createInternalConnection("j", "out", "o2", "i2");
  return c;
}
ENTRY(h_composite) { single(comp, QT(4, 6), 1); }
