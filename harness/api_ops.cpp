// A01 an operator read from JSON is the operator built in code; A02 a written description read back gives the same operator
#include "api.h"
static void sameShape(const Op& a, const Op& b) {
  sym_check(a.id == b.id, "same id");
  sym_check(a.typeName() == b.typeName(), "same type");
  sym_check(const_cast<Op&>(a).getDataInputs() == const_cast<Op&>(b).getDataInputs(), "same data ports");
  sym_check(const_cast<Op&>(a).getControlInputs() == const_cast<Op&>(b).getControlInputs(), "same control ports");
  sym_check(a.outputIds == b.outputIds, "same output ports");
}
static void sameRun(Op& a, Op& b, const std::vector<Ev>& e) {
  for (auto& x : e) {
    ProgM p, q;
    bool s = driveX(a, x, p), t = driveX(b, x, q);
    sym_check(s == t, "same errors");
    sameProg(p, q, "same outputs");
    if (!p.empty()) sym_cover("out");
  }
}
typedef std::function<Op*()> Mk;
static void rd(const json& j, const Mk& mk, const std::vector<Ev>& e) {
  OpP want(mk());
  Ptr got = FactoryOp::readOp(j.dump());
  sameShape(*got, *want);
  sameRun(*got, *want, e);
}
static void wr(const Mk& mk, const std::vector<Ev>& e) {
  Ptr orig(mk());
  std::string w = FactoryOp::writeOp(orig);
  Ptr got = FactoryOp::readOp(w);
  sym_check(FactoryOp::writeOp(got) == w, "the written form is stable");
  sameShape(*got, *orig);
  sameRun(*got, *orig, e);
}
static std::vector<Ev> one(unsigned n, unsigned gaps = 1) {
  std::vector<Ev> e;
  T t = 1000;
  for (unsigned i = 0; i < n; i++) { e.push_back(Ev{false, "i1", t, sym_f64(Nm("v", i))}); t += 1 + (gaps > 1 ? sym_choice(Nm("g", i), gaps) : 0); }
  return e;
}
// each data port in turn, then the control ports
static std::vector<Ev> all(unsigned np, unsigned nc, unsigned rounds) {
  std::vector<Ev> e;
  for (unsigned r = 0; r < rounds; r++) {
    for (unsigned p = 0; p < np; p++) e.push_back(Ev{false, "i" + std::to_string(p + 1), 10 + r, sym_f64(Nm("v", r, "_", p))});
    for (unsigned p = 0; p < nc; p++) e.push_back(Ev{true, "c" + std::to_string(p + 1), 10 + r, (V)sym_choice(Nm("c", r, "_", p), 2)});
  }
  return e;
}
typedef std::vector<V> Vs;
static Vs coeffs(unsigned n) { Vs c; for (unsigned i = 0; i < n; i++) c.push_back(sym_f64(Nm("k", i))); return c; }
// NAME, parameters, JSON, constructor, stream
#define CASE(nm, PAR, JS, CT, EV) \
  ENTRY(h_read_##nm) { PAR; rd(json JS, [=] { return new STRIP CT; }, EV); } \
  ENTRY(h_write_##nm) { PAR; wr([=] { return new STRIP CT; }, EV); }
#define READ(nm, PAR, JS, CT, EV) ENTRY(h_read_##nm) { PAR; rd(json JS, [=] { return new STRIP CT; }, EV); }
#define STRIP(...) __VA_ARGS__
#define ID(t) {"type", t}, {"id", "x"}
static const unsigned big[] = {1, 2, 3, 12, 40};
CASE(input, unsigned n = big[sym_choice("n", 5)], ({ID("Input"), {"numPorts", n}}), (Input<T, V>("x", n)), all(n, 0, 1))
READ(input_default, , ({ID("Input")}), (Input<T, V>("x")), all(1, 0, 2))
CASE(output, unsigned n = big[sym_choice("n", 5)], ({ID("Output"), {"numPorts", n}}), (Output<T, V>("x", n)), all(n, 0, 1))
READ(output_default, , ({ID("Output")}), (Output<T, V>("x")), all(1, 0, 2))
CASE(join, unsigned n = big[1 + sym_choice("n", 4)], ({ID("Join"), {"numPorts", n}}), (Join<T, V>("x", n)), all(n, 0, 2))
CASE(demux, unsigned n = 1 + sym_choice("n", 3), ({ID("Demultiplexer"), {"numPorts", n}}), (Demultiplexer<T, V>("x", n)), all(1, n, 2))
READ(demux_default, , ({ID("Demultiplexer")}), (Demultiplexer<T, V>("x")), all(1, 1, 2))
static std::vector<Ev> wave(unsigned n) { std::vector<Ev> e; V a = sym_f64("a"); for (unsigned i = 0; i < n; i++) e.push_back(Ev{false, "i1", 10 + i, i == n / 2 ? a : (V)((i * 7) % 11)}); return e; }
static const unsigned win[] = {2, 3, 5, 17, 300};
CASE(ma, unsigned n = win[sym_choice("n", 5)], ({ID("MovingAverage"), {"n", n}}), (MovingAverage<T, V>("x", n)), wave(n + 2))
CASE(sd, unsigned n = win[sym_choice("n", 3)], ({ID("StandardDeviation"), {"n", n}}), (StandardDeviation<T, V>("x", n)), one(n + 1))
CASE(peak, unsigned n = win[sym_choice("n", 5)], ({ID("PeakDetector"), {"n", n}}), (PeakDetector<T, V>("x", n)), wave(n + 3))
CASE(rsi, unsigned n = win[sym_choice("n", 4)], ({ID("RelativeStrengthIndex"), {"n", n}}), (RelativeStrengthIndex<T, V>("x", n)), wave(n + 3))
CASE(fir, Vs c = coeffs(1 + 2 * sym_choice("n", 3)), ({ID("FiniteImpulseResponse"), {"coeff", c}}), (FiniteImpulseResponse<T, V>("x", c)), one(c.size() + 2))
CASE(ar, Vs c = coeffs(1 + sym_choice("n", 3)), ({ID("AutoRegressive"), {"coeff", c}}), (AutoRegressive<T, V>("x", c)), one(c.size() + 1))
static const unsigned lin[] = {2, 3, 11};
CASE(linear, Vs c = coeffs(lin[sym_choice("n", 3)]), ({ID("Linear"), {"coeff", c}}), (Linear<T, V>("x", c)), all(c.size(), 0, 2))
#define VAL(nm, TY) CASE(nm, V k = sym_f64("k"), ({ID(#TY), {"value", k}}), (TY<T, V>("x", k)), one(2)) \
  CASE(nm##_int, uint64_t k = sym_u64("k", 0, 1ull << 50), ({ID(#TY), {"value", k}}), (TY<T, V>("x", (V)k)), one(1))
VAL(greater, GreaterThan)
VAL(less, LessThan)
VAL(equal, EqualTo)
VAL(add, Add)
VAL(scale, Scale)
VAL(constant, Constant)
VAL(power, Power)
#define NONE(nm, TY, EV) CASE(nm, , ({ID(#TY)}), (TY<T, V>("x")), EV)
NONE(identity, Identity, one(2))
NONE(count, Count, one(4))
NONE(cumsum, CumulativeSum, one(4))
NONE(difference, Difference, one(3, 2))
NONE(plus, Plus, all(2, 0, 2))
NONE(minus, Minus, all(2, 0, 2))
NONE(mult, Multiplication, all(2, 0, 2))
NONE(div, Division, all(2, 0, 2))
NONE(and, And, all(2, 0, 2))
NONE(or, Or, all(2, 0, 2))
NONE(gts, GreaterThanStream, all(2, 0, 2))
NONE(lts, LessThanStream, all(2, 0, 2))
CASE(difference_flag, bool f = sym_choice("f", 2), ({ID("Difference"), {"useOldestTime", f}}), (Difference<T, V>("x", f)), one(3, 2))
// a query without data, then data, then queries at, before and after it
static std::vector<Ev> query() {
  std::vector<Ev> e{Ev{true, "c1", 5, 1}};
  V a = sym_f64("a"), b = sym_f64("b");
  e.push_back(Ev{false, "i1", 10, a}); e.push_back(Ev{true, "c1", 7 + sym_choice("q", 4), 1}); e.push_back(Ev{false, "i1", 20, b}); e.push_back(Ev{true, "c1", 15, 1}); e.push_back(Ev{true, "c1", 20, 1});
  return e;
}
CASE(variable, V k = sym_f64("k"), ({ID("Variable"), {"value", k}}), (Variable<T, V>("x", k)), query())
READ(variable_default, , ({ID("Variable")}), (Variable<T, V>("x", 0)), query())
CASE(shift, T dt = sym_u64("dt", 0, 1ull << 50); int n = (int)sym_choice("n", 7) - 3, ({ID("TimeShift"), {"dt", dt}, {"times", n}}), (TimeShift<T, V>("x", dt, n)), one(2))
READ(shift_negative, int64_t dt = -1 - (int64_t)sym_choice("dt", 4), ({ID("TimeShift"), {"dt", dt}, {"times", 2}}), (TimeShift<T, V>("x", (T)dt, 2)), one(2))
READ(shift_defaults, T dt = sym_u64("dt", 0, 1ull << 50), ({ID("TimeShift"), {"dt", dt}}), (TimeShift<T, V>("x", dt)), one(2))
READ(shift_default_dt, int n = (int)sym_choice("n", 9) - 4, ({ID("TimeShift"), {"times", n}}), (TimeShift<T, V>("x", 1, n)), one(2))
// three messages around a grid of arbitrary width
static std::vector<Ev> grid(T dt, unsigned n) {
  std::vector<Ev> e;
  T t = sym_u64("t0", 0, 1ull << 40);
  for (unsigned i = 0; i < n; i++) { e.push_back(Ev{false, "i1", t, sym_f64r(Nm("v", i), -100, 100)}); unsigned g = sym_choice(Nm("g", i), 3); t += g == 0 ? 1 : g == 1 ? dt : 2 * dt + 1; }
  return e;
}
static T width(unsigned k) { static const T w[] = {2, 3, 1000, 5000000000ull, 1ull << 42}; return w[k]; }
CASE(constres, T dt = sym_u64("dt", 2, 1ull << 42), ({ID("ConstantResampler"), {"interval", dt}}), (ConstantResampler<T, V>("x", dt)), grid(dt, 4))
CASE(cosine, T dt = width(sym_choice("w", 5)), ({ID("CosineResampler"), {"dt", dt}}), (CosineResampler<T, V>("x", dt)), grid(dt, 4))
CASE(hermite, T dt = width(sym_choice("w", 5)), ({ID("HermiteResampler"), {"dt", dt}}), (HermiteResampler<T, V>("x", dt)), grid(dt, 5))
typedef std::vector<std::pair<V, V>> Pts;
static Pts pts(unsigned n) { Pts p; for (unsigned i = 0; i < n; i++) p.push_back({1.5 * i - 1 + (i % 2) * 0.25, sym_f64r(Nm("y", i), -100, 100)}); return p; }
static json ptsJ(const Pts& p) { json a = json::array(); for (auto& x : p) a.push_back(json::array({x.first, x.second})); return a; }
static std::vector<Ev> args(unsigned n) { std::vector<Ev> e; for (unsigned i = 0; i < n; i++) e.push_back(Ev{false, "i1", 10 + i, sym_f64r(Nm("x", i), -50, 50)}); return e; }
CASE(function, Pts p = pts(2 + sym_choice("n", 3)), ({ID("Function"), {"points", ptsJ(p)}, {"interpolationType", "linear"}}), (Function<T, V>("x", p, "linear")), args(1))
CASE(function_hermite, Pts p = pts(2 + sym_choice("n", 3)), ({ID("Function"), {"points", ptsJ(p)}, {"interpolationType", "hermite"}}), (Function<T, V>("x", p, "hermite")), args(1))
READ(function_default, Pts p = pts(3), ({ID("Function"), {"points", ptsJ(p)}}), (Function<T, V>("x", p)), args(2))
// any window size: read, and written
ENTRY(h_windows) {
  static const char* const TY[] = {"MovingAverage", "StandardDeviation", "PeakDetector", "RelativeStrengthIndex"};
  unsigned k = sym_choice("type", 4);
  T n = sym_u64("n", 2, 1ull << 50);
  json j{{"type", TY[k]}, {"id", "x"}, {"n", n}};
  Ptr got = FactoryOp::readOp(j.dump());
  OpP want(k == 0 ? (Op*)new MovingAverage<T, V>("x", n) : k == 1 ? (Op*)new StandardDeviation<T, V>("x", n) : k == 2 ? (Op*)new PeakDetector<T, V>("x", n) : (Op*)new RelativeStrengthIndex<T, V>("x", n));
  sameShape(*got, *want);
  sym_check(got->getDataInputMaxSize("i1") == want->getDataInputMaxSize("i1"), "same window");
  Ptr again = FactoryOp::readOp(FactoryOp::writeOp(got));
  sym_check(again->getDataInputMaxSize("i1") == want->getDataInputMaxSize("i1"), "same window when written and read back");
  sym_cover("out");
}
// many ports, a message on the last one
ENTRY(h_ports) {
  static const char* const TY[] = {"Input", "Output", "Join", "Demultiplexer"};
  unsigned k = sym_choice("type", 4), n = 300;
  json j{{"type", TY[k]}, {"id", "x"}, {"numPorts", n}};
  OpP want(k == 0 ? (Op*)new Input<T, V>("x", n) : k == 1 ? (Op*)new Output<T, V>("x", n) : k == 2 ? (Op*)new Join<T, V>("x", n) : (Op*)new Demultiplexer<T, V>("x", n));
  Ptr got = FactoryOp::readOp(j.dump());
  sameShape(*got, *want);
  Ptr again = FactoryOp::readOp(FactoryOp::writeOp(got));
  sameShape(*again, *want);
  if (k < 2) { std::vector<Ev> e{Ev{false, "i300", 10, sym_f64("v")}}; sameRun(*got, *want, e); }
  else sym_cover("out");
}
