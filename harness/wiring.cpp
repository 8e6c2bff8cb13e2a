// C06 malformed wiring is rejected and leaves the graph as it was
#include "rt.h"
#include "rtbot/Demultiplexer.h"
#include "rtbot/Input.h"
#include "rtbot/Join.h"
#include "rtbot/Output.h"
#include "rtbot/finance/RelativeStrengthIndex.h"
#include "rtbot/std/Add.h"
#include "rtbot/std/AutoRegressive.h"
#include "rtbot/std/ConstantResampler.h"
#include "rtbot/std/CosineResampler.h"
#include "rtbot/std/FiniteImpulseResponse.h"
#include "rtbot/std/HermiteResampler.h"
#include "rtbot/std/MovingAverage.h"
#include "rtbot/std/PeakDetector.h"
#include "rtbot/std/StandardDeviation.h"
#include "rtbot/std/Function.h"
#include "rtbot/std/Identity.h"
#include "rtbot/std/Linear.h"
#include "rtbot/std/Plus.h"
#include "rtbot/std/Variable.h"
typedef std::unique_ptr<Op> OpP;
static Op* mk(unsigned k, const char* id) {
  switch (k) {
    case 0: return new Identity<T, V>(id);
    case 1: return new Join<T, V>(id, 2);
    case 2: return new Demultiplexer<T, V>(id, 2);
    case 3: return new Variable<T, V>(id, 0);
    case 4: return new Plus<T, V>(id);
    default: return new Input<T, V>(id, 2);
  }
}
static bool in(const char* p, std::initializer_list<const char*> l) { for (auto x : l) if (std::string(p) == x) return true; return false; }
static bool hasOut(unsigned k, const char* p) {
  switch (k) { case 0: case 3: case 4: return in(p, {"o1"}); default: return in(p, {"o1", "o2"}); }
}
static bool hasIn(unsigned k, const char* p) {
  switch (k) { case 0: return in(p, {"i1"}); case 1: case 4: case 5: return in(p, {"i1", "i2"}); case 2: return in(p, {"i1", "c1", "c2"}); default: return in(p, {"i1", "c1"}); }
}
static bool oneOut(unsigned k) { return k == 0 || k == 3 || k == 4; }
static bool oneIn(unsigned k) { return k == 0; }
static const char* NAMES[] = {"", "i1", "i2", "i3", "o1", "o2", "o3", "c1", "c2", "c3", "x"};
ENTRY(h_connect) {
  unsigned a = sym_choice("parent", 6), b = sym_choice("child", 6), po = sym_choice("out", 11), pi = sym_choice("in", 11);
  OpP x(mk(a, "x")), y(mk(b, "y"));
  const char *o = NAMES[po], *i = NAMES[pi];
  std::string ro = o, ri = i;
  if (ro.empty() && oneOut(a)) ro = "o1";
  if (ri.empty() && oneIn(b)) ri = "i1";
  bool mustThrow = ro.empty() || ri.empty(), ok = !mustThrow && hasOut(a, ro.c_str()) && hasIn(b, ri.c_str());
  Op* r = nullptr;
  bool threw = throws([&] { r = x->connect(y.get(), o, i); });
  sym_check(threw == mustThrow, "ports that cannot be deduced are reported");
  sym_check((r == y.get()) == ok && (r == nullptr) == !ok, "connect answers whether the edge exists");
  if (ok) sym_cover("connected"); else sym_cover("refused");
  // observable effect: for a one-input parent a message either reaches the child or does not
  if (a == 0) {
    x->receiveData(Msg(4, 1), "i1");
    if (b == 0) { ProgM m = x->executeData(); sym_check(has(m, "y", "o1") == ok, "only an accepted edge carries messages"); sym_check(has(m, "x", "o1"), "parent still works"); }
    else { x->executeData(); }
  }
}
// by reference behaves like by pointer
ENTRY(h_connect_ref) {
  unsigned po = sym_choice("out", 11), pi = sym_choice("in", 11);
  Identity<T, V> x("x");
  Join<T, V> y("y", 2);
  const char *o = NAMES[po], *i = NAMES[pi];
  bool mustThrow = !*i, ok = !mustThrow && (!*o || std::string(o) == "o1") && hasIn(1, i);
  Op* r = nullptr;
  bool threw = throws([&] { r = x.connect(y, o, i); });
  sym_check(threw == mustThrow && (r == &y) == ok, "connect by reference");
  if (ok) sym_cover("connected");
}
// a message or instruction for a port that does not exist is refused and changes nothing
ENTRY(h_unknown_port) {
  unsigned k = sym_choice("kind", 6), p = sym_choice("port", 11);
  bool control = sym_choice("control", 2);
  const char* nm = NAMES[p];
  OpP x(mk(k, "x")), ref(mk(k, "x"));
  std::string rn = nm;
  if (rn.empty()) {
    if (!control && x->getDataInputs().size() == 1) rn = "i1";
    if (control && x->getControlInputs().size() == 1) rn = "c1";
  }
  bool exists = !rn.empty() && (control ? x->isControlInput(rn) : x->isDataInput(rn));
  sym_check(exists == (!rn.empty() && hasIn(k, rn.c_str()) && (rn[0] == 'c') == control), "the operator knows exactly its own ports");
  if (k == 1 && rn.empty()) exists = false;
  V v = sym_f64("v");
  bool threw = throws([&] { if (control) x->receiveControl(Msg(3, v), nm); else x->receiveData(Msg(3, v), nm); });
  sym_check(threw == !exists, "an unknown port is reported, a known one accepted");
  if (!exists) { sym_check(x->collect() == ref->collect(), "a refused message changes nothing"); sym_cover("refused"); }
  else sym_cover("accepted");
}
ENTRY(h_constructors) {
  unsigned n = sym_choice("n", 4);
  sym_check(throws([&] { Join<T, V> j("j", n); }) == (n < 2), "a Join needs two ports");
  sym_check(throws([&] { Demultiplexer<T, V> d("d", n); }) == (n < 1), "a Demultiplexer needs one port");
  sym_check(throws([&] { Linear<T, V> d("d", std::vector<V>(n, 1.0)); }) == (n < 2), "Linear needs two coefficients");
  std::vector<std::pair<V, V>> pts;
  for (unsigned i = 0; i < n; i++) pts.push_back({(V)i, (V)i});
  sym_check(throws([&] { Function<T, V> d("d", pts, "linear"); }) == (n < 2), "Function needs two points");
  if (n >= 2) { sym_check(throws([&] { Function<T, V> d("d", pts, "cubic"); }), "unknown interpolation is reported"); sym_check(!throws([&] { Function<T, V> d("d", pts, "hermite"); }), "hermite is accepted"); }
  T dt = sym_u64("dt", 0, ~0ull);
  sym_check(throws([&] { ConstantResampler<T, V> d("d", dt); }) == (dt == 0), "an interval of zero is reported");
  sym_check(throws([&] { CosineResampler<T, V> d("d", dt); }) == (dt == 0), "an interval of zero is reported (cosine)");
  sym_check(throws([&] { HermiteResampler<T, V> d("d", dt); }) == (dt == 0), "an interval of zero is reported (hermite)");
  T w = sym_u64("w", 0, ~0ull);
  sym_check(throws([&] { MovingAverage<T, V> d("d", w); }) == (w == 0), "an empty window is reported (average)");
  sym_check(throws([&] { StandardDeviation<T, V> d("d", w); }) == (w < 2), "a window too small is reported (deviation)");
  sym_check(throws([&] { PeakDetector<T, V> d("d", w); }) == (w == 0), "an empty window is reported (peak)");
  sym_check(throws([&] { RelativeStrengthIndex<T, V> d("d", w); }) == (w == 0 || w == ~0ull), "an empty window is reported (index)");
  sym_check(throws([&] { FiniteImpulseResponse<T, V> d("d", std::vector<V>(n, 1.0)); }) == (n == 0), "an empty filter is reported");
  sym_check(throws([&] { AutoRegressive<T, V> d("d", std::vector<V>(n, 1.0)); }) == (n == 0), "an empty recursion is reported");
  sym_cover("done");
}
struct Bare : public Op {
  Bare() : Op("bare") {}
  string typeName() const override { return "Bare"; }
  OperatorMessage<T, V> processData() override { return {}; }
};
// duplicate, empty port names are refused; the port tables list exactly what was added
ENTRY(h_ports) {
  Bare b;
  std::vector<std::string> ins, cts;
  std::vector<std::string> outs;
  static const char* nm[] = {"a", "b", "", "z"};
  for (unsigned i = 0; i < 4; i++) {
    unsigned kind = sym_choice(Nm("kind", i), 3), w = sym_choice(Nm("name", i), 4);
    std::string s = nm[w];
    bool dup = std::find(ins.begin(), ins.end(), s) != ins.end() || std::find(cts.begin(), cts.end(), s) != cts.end();
    if (kind == 2) { if (s.empty()) continue; b.addOutput(s); if (std::find(outs.begin(), outs.end(), s) == outs.end()) outs.push_back(s); continue; }
    bool threw = throws([&] { if (kind == 0) b.addDataInput(s, 1); else b.addControlInput(s, 1); });
    sym_check(threw == (dup || s.empty()), "empty or repeated input names are refused");
    if (!threw) (kind == 0 ? ins : cts).push_back(s); else sym_cover("refused");
  }
  std::sort(ins.begin(), ins.end()); std::sort(cts.begin(), cts.end()); std::sort(outs.begin(), outs.end());
  sym_check(b.getDataInputs() == ins && b.getControlInputs() == cts && b.getOutputs() == outs, "port tables");
  sym_check(b.getNumDataInputs() == ins.size() && b.getNumControlInputs() == cts.size() && b.getNumOutputPorts() == outs.size(), "port counts");
  std::vector<std::string> allp = ins;
  for (auto& c : cts) allp.push_back(c);
  sym_check(b.getAllInputs() == allp && b.hasControlInputs() == !cts.empty(), "all inputs");
  sym_cover("done");
}
