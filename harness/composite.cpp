// C08 a Composite behaves exactly as the same operators wired flat
#include "allops.h"
typedef Composite<T, V> Comp;
// in -> op -> out inside the composite against the operator built directly
static void unary(std::function<void(Comp&)> create, Op* flat, unsigned n, unsigned gaps) {
  OpP f(flat);
  Comp c("cmp");
  c.createInput("in");
  create(c);
  c.createOutput("out");
  c.createInternalConnection("in", "x", "o1", "i1");
  c.createInternalConnection("x", "out", "o1", "i1");
  sym_check(c.getOperator("x")->typeName() == f->typeName(), "create builds the named operator");
  Add<T, V> sink("sink", 1);
  c.connect(sink, "o1", "i1");
  T t = 100;
  for (unsigned i = 0; i < n; i++) {
    V v = sym_f64(Nm("v", i));
    t += 1 + (gaps > 1 ? sym_choice(Nm("g", i), gaps) : 0);
    c.receiveData(Msg(t, v), "i1");
    ProgM r = c.executeData();
    f->receiveData(Msg(t, v), "i1");
    ProgM s = f->executeData();
    PM a = at(r, "x", "o1"), b = at(s, "x", "o1"), o = at(r, "out", "o1"), k = at(r, "sink", "o1");
    sameList(a, b, "inner operator emits what the flat one emits", "inner time", "inner value");
    sameList(o, b, "composite output", "output time", "output value");
    sym_check(k.size() == b.size(), "messages leave the composite once");
    for (unsigned q = 0; q < k.size() && q < b.size(); q++) { sym_check(k[q].time == b[q].time, "child time"); sym_check_same(k[q].value, b[q].value + 1, "child value"); sym_cover("emitted"); }
  }
}
#define U(nm, n, g, create, ...) ENTRY(h_##nm) { unary([](Comp& c) { c.create; }, new __VA_ARGS__, n, g); }
U(add, 2, 1, createAdd("x", 4.5), Add<T, V>("x", 4.5))
U(ar, 4, 1, createAutoregressive("x", {0.5, -2}), AutoRegressive<T, V>("x", {0.5, -2}))
U(constant, 2, 1, createConstant("x", 4.5), Constant<T, V>("x", 4.5))
U(cosine, 4, 3, createCosineResampler("x", 2), CosineResampler<T, V>("x", 2))
U(count, 3, 1, createCount("x"), Count<T, V>("x"))
U(cumsum, 3, 1, createCumulativeSum("x"), CumulativeSum<T, V>("x"))
U(diff, 3, 2, createDifference("x"), Difference<T, V>("x"))
U(diff_newest, 3, 2, createDifference("x", false), Difference<T, V>("x", false))
U(equal, 2, 1, createEqualTo("x", 4.5), EqualTo<T, V>("x", 4.5))
U(greater, 2, 1, createGreaterThan("x", 4.5), GreaterThan<T, V>("x", 4.5))
U(less, 2, 1, createLessThan("x", 4.5), LessThan<T, V>("x", 4.5))
U(hermite, 5, 2, createHermiteResampler("x", 2), HermiteResampler<T, V>("x", 2))
U(identity, 2, 1, createIdentity("x"), Identity<T, V>("x"))
U(ma, 5, 1, createMovingAverage("x", 3), MovingAverage<T, V>("x", 3))
U(fir, 5, 1, createFiniteImpulseResponse("x", {1, 2, -3}), FiniteImpulseResponse<T, V>("x", {1, 2, -3}))
U(peak, 5, 1, createPeakDetector("x", 3), PeakDetector<T, V>("x", 3))
U(sd, 5, 1, createStandardDeviation("x", 3), StandardDeviation<T, V>("x", 3))
U(power, 2, 1, createPower("x", 2), Power<T, V>("x", 2))
U(scale, 2, 1, createScale("x", 4.5), Scale<T, V>("x", 4.5))
U(shift, 2, 3, createTimeShift("x", 5, 3), TimeShift<T, V>("x", 5, 3))
// arguments left out, and more values of the others
U(shift_default, 2, 3, createTimeShift("x"), TimeShift<T, V>("x", 1, 1))
U(shift_dt, 2, 3, createTimeShift("x", 4), TimeShift<T, V>("x", 4, 1))
U(shift_back, 2, 3, createTimeShift("x", 5, -2), TimeShift<T, V>("x", 5, -2))
U(shift_far, 2, 3, createTimeShift("x", 5, -40), TimeShift<T, V>("x", 5, -40))
U(peak4, 6, 1, createPeakDetector("x", 4), PeakDetector<T, V>("x", 4))
U(peak1, 3, 1, createPeakDetector("x", 1), PeakDetector<T, V>("x", 1))
U(ma1, 3, 1, createMovingAverage("x", 1), MovingAverage<T, V>("x", 1))
U(ma4, 6, 1, createMovingAverage("x", 4), MovingAverage<T, V>("x", 4))
U(sd2, 4, 1, createStandardDeviation("x", 2), StandardDeviation<T, V>("x", 2))
U(fir1, 3, 1, createFiniteImpulseResponse("x", {-2}), FiniteImpulseResponse<T, V>("x", {-2}))
U(ar1, 3, 1, createAutoregressive("x", {0.5}), AutoRegressive<T, V>("x", {0.5}))
U(power3, 2, 1, createPower("x", 3), Power<T, V>("x", 3))
U(cosine5, 4, 3, createCosineResampler("x", 5), CosineResampler<T, V>("x", 5))
U(hermite3, 5, 2, createHermiteResampler("x", 3), HermiteResampler<T, V>("x", 3))
// binary and n-ary operators: composite input ports i1..in straight into the operator
static void nary(std::function<void(Comp&)> create, Op* flat, unsigned np, unsigned n) {
  OpP f(flat);
  Comp c("cmp");
  c.createInput("in", np);
  create(c);
  unsigned no = f->getNumOutputPorts();
  c.createOutput("out", no);
  for (unsigned i = 1; i <= np; i++) c.createInternalConnection("in", "x", "o" + std::to_string(i), "i" + std::to_string(i));
  for (unsigned i = 1; i <= no; i++) c.createInternalConnection("x", "out", "o" + std::to_string(i), "o" + std::to_string(i) == "o1" ? "i1" : "i" + std::to_string(i));
  std::vector<T> last(np, 10);
  for (unsigned i = 0; i < n; i++) {
    unsigned p = sym_choice(Nm("p", i), np);
    last[p] += 1 + sym_choice(Nm("g", i), 2);
    V v = sym_f64(Nm("v", i));
    std::string ip = "i" + std::to_string(p + 1);
    c.receiveData(Msg(last[p], v), ip);
    ProgM r = c.executeData();
    f->receiveData(Msg(last[p], v), ip);
    ProgM s = f->executeData();
    for (unsigned q = 1; q <= no; q++) {
      std::string op = "o" + std::to_string(q);
      PM a = at(r, "x", op), b = at(s, "x", op), o = at(r, "out", op);
      sameList(a, b, "inner operator emits what the flat one emits", "inner time", "inner value");
      sameList(o, b, "composite output", "output time", "output value");
      if (!b.empty()) sym_cover("emitted");
    }
  }
}
#define N(nm, np, n, create, ...) ENTRY(h_##nm) { nary([](Comp& c) { c.create; }, new __VA_ARGS__, np, n); }
N(join, 2, 4, createJoin("x", 2), Join<T, V>("x", 2))
N(join3, 3, 4, createJoin("x", 3), Join<T, V>("x", 3))
N(division, 2, 4, createDivision("x"), Division<T, V>("x"))
N(minus, 2, 4, createMinus("x"), Minus<T, V>("x"))
N(linear, 2, 4, createLinear("x", {2, -3}), Linear<T, V>("x", {2, -3}))
// more than nine ports, arriving in any rotation
ENTRY(h_wide) {
  const unsigned n = 12;
  Comp c("cmp");
  c.createInput("in", n);
  c.createJoin("x", n);
  c.createOutput("out", n);
  std::vector<std::unique_ptr<Identity<T, V>>> sinks;
  for (unsigned i = 1; i <= n; i++) {
    c.createInternalConnection("in", "x", "o" + std::to_string(i), "i" + std::to_string(i));
    c.createInternalConnection("x", "out", "o" + std::to_string(i), "i" + std::to_string(i));
    sinks.emplace_back(new Identity<T, V>("s" + std::to_string(i)));
  }
  for (unsigned i = 1; i <= n; i++) {
    bool there = !throws([&] { sym_check(c.connect(*sinks[i - 1], "o" + std::to_string(i), "i1") != nullptr, "every output port can be connected"); });
    sym_check(there, "every output port can be connected");
  }
  sym_check(c.getNumDataInputs() == n && c.getNumOutputPorts() == n, "as many ports as asked for");
  unsigned rot = sym_choice("rot", n);
  std::vector<V> v(n);
  for (unsigned k = 0; k < n; k++) {
    unsigned p = (k + rot) % n;
    v[p] = sym_f64(Nm("v", p));
    c.receiveData(Msg(7, v[p]), "i" + std::to_string(p + 1));
    ProgM r = c.executeData();
    for (unsigned i = 1; i <= n; i++) {
      PM o = at(r, "out", ("o" + std::to_string(i)).c_str()), s = at(r, ("s" + std::to_string(i)).c_str(), "o1");
      sym_check(o.size() == (k + 1 == n ? 1u : 0u) && s.size() == o.size(), "released together");
      if (o.size() == 1 && s.size() == 1) { sym_check(o[0].time == 7 && s[0].time == 7, "output time"); sym_check_same(o[0].value, v[i - 1], "output value"); sym_check_same(s[0].value, v[i - 1], "output value"); sym_cover("emitted"); }
    }
  }
}
ENTRY(h_defaults) {
  Comp c("cmp");
  c.createInput("in");
  c.createVariable("v"); c.createDemultiplexer("d"); c.createOutput("out");
  sym_check(c.getNumDataInputs() == 1 && c.getNumOutputPorts() == 1, "one port unless stated otherwise");
  auto v = c.getOperator("v"), d = c.getOperator("d");
  sym_check(d->getNumOutputPorts() == 2 && d->getNumControlInputs() == 2 && d->getNumDataInputs() == 1, "two ports unless stated otherwise");
  T q = sym_u64("q", 0, 100);
  v->receiveControl(Msg(q, 1), "c1");
  sym_check(v->executeControl().empty(), "waits");
  v->receiveData(Msg(q + 1, sym_f64("x")), "i1");
  ProgM r = v->executeData();
  PM o = at(r, "v", "o1");
  sym_check(o.size() == 1, "answered");
  if (o.size() == 1) { sym_check(o[0].time == q, "query time"); sym_check_same(o[0].value, 0, "starts with zero unless stated otherwise"); sym_cover("emitted"); }
}
// data and control reached through the composite input
ENTRY(h_demux) {
  Comp c("cmp");
  c.createInput("in", 3);
  c.createDemultiplexer("x", 2);
  c.createOutput("out", 2);
  c.createInternalConnection("in", "x", "o1", "i1"); c.createInternalConnection("in", "x", "o2", "c1"); c.createInternalConnection("in", "x", "o3", "c2");
  c.createInternalConnection("x", "out", "o1", "i1"); c.createInternalConnection("x", "out", "o2", "i2");
  Demultiplexer<T, V> f("x", 2);
  std::vector<T> last(3, 10);
  for (unsigned i = 0; i < QT(5, 6); i++) {
    unsigned p = sym_choice(Nm("p", i), 3);
    last[p]++;
    V v = p ? (V)sym_choice(Nm("b", i), 2) : sym_f64(Nm("v", i));
    ProgM r, s;
    bool ta = throws([&] { c.receiveData(Msg(last[p], v), "i" + std::to_string(p + 1)); r = c.executeData(); });
    bool tb = throws([&] { if (p) { f.receiveControl(Msg(last[p], v), p == 1 ? "c1" : "c2"); s = f.executeControl(); } else { f.receiveData(Msg(last[p], v), "i1"); s = f.executeData(); } });
    sym_check(ta == tb, "same errors");
    for (const char* op : {"o1", "o2"}) { sameList(at(r, "out", op), at(s, "x", op), "composite output", "output time", "output value"); if (has(s, "x", op)) sym_cover("emitted"); }
    if (ta) break;
  }
}
ENTRY(h_variable) {
  Comp c("cmp");
  c.createInput("in", 2);
  c.createVariable("x", 6.5);
  c.createOutput("out");
  c.createInternalConnection("in", "x", "o1", "i1"); c.createInternalConnection("in", "x", "o2", "c1");
  c.createInternalConnection("x", "out", "o1", "i1");
  Variable<T, V> f("x", 6.5);
  std::vector<T> last(2, 10);
  for (unsigned i = 0; i < QT(5, 6); i++) {
    unsigned p = sym_choice(Nm("p", i), 2);
    last[p] += 1 + sym_choice(Nm("g", i), 2);
    V v = sym_f64(Nm("v", i));
    ProgM r, s;
    bool ta = throws([&] { c.receiveData(Msg(last[p], v), p ? "i2" : "i1"); r = c.executeData(); });
    bool tb = throws([&] { if (p) { f.receiveControl(Msg(last[p], v), "c1"); s = f.executeControl(); } else { f.receiveData(Msg(last[p], v), "i1"); s = f.executeData(); } });
    sym_check(ta == tb, "same errors");
    sameList(at(r, "out", "o1"), at(s, "x", "o1"), "composite output", "output time", "output value");
    if (has(s, "x", "o1")) sym_cover("emitted");
    if (ta) break;
  }
}
// a composite inside a graph, holding state across several stages, against the same stages wired flat
ENTRY(h_graph) {
  Comp c("cmp");
  c.createInput("in");
  c.createMovingAverage("m", 2); c.createMinus("d"); c.createScale("s", 3); c.createCumulativeSum("q");
  c.createOutput("out", 2);
  c.createInternalConnection("in", "m", "o1", "i1"); c.createInternalConnection("in", "d", "o1", "i1");
  c.createInternalConnection("m", "d", "o1", "i2"); c.createInternalConnection("d", "s"); c.createInternalConnection("s", "q");
  c.createInternalConnection("q", "out", "o1", "i1"); c.createInternalConnection("d", "out", "o1", "i2");
  Input<T, V> head("head"); Plus<T, V> tail("tail");
  head.connect(c, "o1", "i1"); c.connect(tail, "o1", "i1"); c.connect(tail, "o2", "i2");
  Input<T, V> fh("head"), fin("in"); MovingAverage<T, V> fm("m", 2); Minus<T, V> fd("d"); Scale<T, V> fs("s", 3); CumulativeSum<T, V> fq("q"); Output<T, V> fo("out", 2); Plus<T, V> ft("tail");
  fh.connect(fin); fin.connect(fm, "o1", "i1"); fin.connect(fd, "o1", "i1"); fm.connect(fd, "o1", "i2"); fd.connect(fs); fs.connect(fq);
  fq.connect(fo, "o1", "i1"); fd.connect(fo, "o1", "i2"); fo.connect(ft, "o1", "i1"); fo.connect(ft, "o2", "i2");
  Times t;
  for (unsigned i = 0; i < QT(4, 6); i++) {
    T x = t.next();
    V v = sym_f64(Nm("v", i));
    head.receiveData(Msg(x, v), "i1"); fh.receiveData(Msg(x, v), "i1");
    ProgM a = head.executeData(), b = fh.executeData();
    sameProg(a, b, "same outputs of every operator");
    if (has(b, "tail", "o1")) sym_cover("emitted");
  }
}
// misuse is reported
ENTRY(h_misuse) {
  Comp c("cmp");
  sym_check(throws([&] { c.receiveData(Msg(1, 1), "i1"); }), "no input yet");
  Identity<T, V> k("k");
  sym_check(throws([&] { c.connect(k, "o1", "i1"); }), "no output yet");
  c.createInput("in");
  sym_check(throws([&] { c.createInput("in2"); }), "second input refused");
  sym_check(throws([&] { c.createAdd("in", 1); }), "repeated id refused");
  c.createOutput("out");
  sym_check(throws([&] { c.createOutput("out2"); }), "second output refused");
  unsigned a = sym_choice("a", 3), b = sym_choice("b", 3), o = sym_choice("o", 3), i = sym_choice("i", 3);
  static const char* ids[] = {"in", "out", "nope"};
  static const char* os[] = {"o1", "o2", ""};
  static const char* is[] = {"i1", "i2", ""};
  bool ok = a < 2 && b < 2 && o != 1 && i != 1;
  sym_check(throws([&] { c.createInternalConnection(ids[a], ids[b], os[o], is[i]); }) == !ok, "bad internal connections are reported");
  if (ok) sym_cover("connected");
}
