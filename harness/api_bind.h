// A12 A13 what the host languages see is what the program objects do
#include "prog.h"
#include "text.h"
using bindtable::call;
typedef std::vector<uint64_t> Whole;
static void bindAll();
struct Bound { Bound() { bindtable::table().clear(); bindAll(); } };
static bool throwsX(const char* name, const std::vector<bindtable::Arg>& a) { return throws([&] { call(name, a); }); }
ENTRY(h_bind_buffer) {
  Bound b;
  std::string s = selected(5, Filt{{"out", {"o1", "o2"}}, {"in", {"o1"}}});
  sym_check(call("createProgram", {"p", s}).empty(), "accepted");
  sym_check(call("createProgram", {"r", sample(0)}).empty(), "accepted");
  Program q(s);
  Times t("t", BIND_TIMES);
  bool debug = sym_choice("debug", 2);
  for (unsigned r = 0; r < 2; r++) {
    Map m;
    unsigned n = r ? 1 : QT(2, 3);
    for (unsigned i = 0; i < n; i++) {
      T x = t.next();
      V v = sym_f64(Nm("v", r, "_", i));
      const char* p = sym_choice(Nm("p", r, "_", i), 2) ? "i2" : "i1";
      sym_check(json::parse(call("addToMessageBuffer", {"p", p, (uint64_t)x, v})) == 1, "added");
      m[p].push_back(Msg(x, v));
    }
    ProgM w;
    if (debug) w = q.receiveDebug(m); else w = q.receive(m);
    sameText(call(debug ? "processMessageBufferDebug" : "processMessageBuffer", {"p"}), w, "buffer report");
  }
  sym_check(throwsX("addToMessageBuffer", {"gone", "i1", (uint64_t)1, 2.0}), "an unknown program takes nothing");
}
ENTRY(h_bind_manage) {
  Bound b;
  std::string s = selected(5, Filt{{"out", {"o2", "o1"}}});
  sym_check(call("createProgram", {"p", s}).empty(), "accepted");
  sym_check(call("createProgram", {"r", sample(0)}).empty(), "accepted");
  sym_check(call("getProgramEntryOperatorId", {"p"}) == "in", "entry operator");
  sym_check(json::parse(call("getProgramEntryPorts", {"p"})) == json::parse("[\"i1\",\"i2\"]"), "entry ports");
  sym_check(json::parse(call("getProgramEntryPorts", {"r"})) == json::parse("[\"i1\"]"), "entry ports");
  sym_check(json::parse(call("getProgramOutputFilter", {"p"})) == json::parse("{\"out\":[\"o2\",\"o1\"]}"), "output selection");
  V v = sym_f64("v");
  Program q(s), z(sample(0));
  for (unsigned i = 0; i < 2; i++) {
    const char* p = i ? "i2" : "i1";
    call("addToMessageBuffer", {"p", p, (uint64_t)10, v});
    sameText(call("processMessageBuffer", {"p"}), q.receive(msg(10, v, p)), "report");
  }
  sym_check(json::parse(call("deleteProgram", {"p"})) == 1, "deleted");
  sym_check(json::parse(call("deleteProgram", {"p"})) == 0, "already deleted");
  sym_check(throwsX("getProgramEntryOperatorId", {"p"}), "gone");
  call("addToMessageBuffer", {"r", "i1", (uint64_t)11, v});
  sameText(call("processMessageBufferDebug", {"r"}), z.receiveDebug(msg(11, v)), "the other one is there");
}
ENTRY(h_bind_validate) {
  Bound b;
  sym_check(json::parse(call("validate", {sample(sym_choice("k", 3))}))["valid"] == true, "valid program");
  sym_check(json::parse(call("validate", {"{\"operators\":[]}"}))["valid"] == false, "entry operator missing");
  sym_check(json::parse(call("validate", {"{\"entryOperator\":"}))["valid"] == false, "not a text of the format");
  sym_check(json::parse(call("validateOperator", {"MovingAverage", "{\"type\":\"MovingAverage\",\"id\":\"m\",\"n\":3}"}))["valid"] == true, "valid operator");
  sym_check(json::parse(call("validateOperator", {"MovingAverage", "{\"type\":\"MovingAverage\",\"id\":\"m\"}"}))["valid"] == false, "parameter missing");
  sym_check(json::parse(call("validateOperator", {"Input", "{\"type\":\"MovingAverage\",\"id\":\"m\",\"n\":3}"}))["valid"] == false, "another type");
  sym_check(json::parse(call("validateOperator", {"Nothing", "{\"id\":\"m\"}"}))["valid"] == false, "unknown type");
  sym_check(json::parse(call("createProgram", {"x", "{\"operators\":[],\"connections\":[]}"}))["valid"] == false, "refused");
  sym_check(throwsX("getProgramEntryPorts", {"x"}), "and not created");
  sym_cover("reported");
}
#ifdef BIND_BATCH
ENTRY(h_bind_batch) {
  Bound b;
  std::string s = selected(5, Filt{{"out", {"o1", "o2"}}, {"in", {"o2"}}});
  call("createProgram", {"p", s});
  Program q(s);
  bool debug = sym_choice("debug", 2);
  for (unsigned r = 0; r < 2; r++) {
    Whole ts;
    std::vector<V> vs;
    std::vector<std::string> ps;
    Map m;
    unsigned n = r ? 1 : QT(2, 3);
    for (unsigned i = 0; i < n; i++) {
      ts.push_back(sym_u64(Nm("t", r, "_", i), 0, 0xffffffffu));
      vs.push_back(sym_f64(Nm("v", r, "_", i)));
      ps.push_back(sym_choice(Nm("p", r, "_", i), 2) ? "i2" : "i1");
      m[ps[i]].push_back(Msg(ts[i], vs[i]));
    }
    ProgM w;
    if (debug) w = q.receiveDebug(m); else w = q.receive(m);
    sameText(call(debug ? "processBatchDebug" : "processBatch", {"p", ts, vs, ps}), w, "batch report");
  }
  sym_check(throwsX(debug ? "processBatchDebug" : "processBatch", {"p", Whole{1}, std::vector<V>{}, std::vector<std::string>{"i1"}}), "vectors of different lengths are refused");
}
ENTRY(h_bind_message) {
  Bound b;
  Msg m(sym_u64("t", 0, ~(T)0), sym_f64("v"));
  unsigned n = 0;
  for (auto& f : emscripten::fields()) {
    if (f.name == "time") { sym_check(f.whole(&m) == m.time, "the field time"); n |= 1; }
    if (f.name == "value") { sym_check_same(f.num(&m), m.value, "the field value"); n |= 2; }
  }
  sym_check(n == 3, "both fields are exposed");
  sym_cover("reported");
}
#endif
