// A05 a Pipeline is its operators written out
#include "prog.h"
typedef std::vector<std::pair<const char*, const char*>> Ports;
struct Inner { const char* id; std::vector<json> ops, cons; Ports in, out; };
static json pipe(const Inner& p) { return json{{"type", "Pipeline"}, {"id", p.id}, {"prog", json::parse(prog(p.ops[0]["id"].get<std::string>().c_str(), p.ops, p.cons))}}; }
static unsigned portNo(const std::string& p) { return p.size() == 2 ? p[1] - '1' : (p[1] - '0') * 10 + p[2] - '1'; }
// the same graph without the pipelines
static std::string flat(const char* entry, const std::vector<json>& ops, const std::vector<json>& cons, const std::vector<Inner>& ps) {
  std::vector<json> o, c;
  for (auto& x : ops) o.push_back(x);
  for (auto& p : ps) { for (auto& x : p.ops) o.push_back(x); for (auto& x : p.cons) c.push_back(x); }
  for (auto x : cons) {
    for (auto& p : ps) {
      if (x["from"] == p.id) { auto& e = p.out.at(portNo(x["fromPort"])); x["from"] = e.first; x["fromPort"] = e.second; }
      if (x["to"] == p.id) { auto& e = p.in.at(portNo(x["toPort"])); x["to"] = e.first; x["toPort"] = e.second; }
    }
    c.push_back(x);
  }
  return prog(entry, o, c);
}
static std::string nested(const char* entry, std::vector<json> ops, const std::vector<json>& cons, const std::vector<Inner>& ps) {
  for (auto& p : ps) ops.push_back(pipe(p));
  return prog(entry, ops, cons);
}
static void same(ProgM a, ProgM b, const std::vector<Inner>& ps) {
  for (auto& p : ps) {
    for (size_t i = 0; i < p.out.size(); i++) {
      std::string o = "o" + std::to_string(i + 1);
      PM x = at(a, p.id, o), y = at(b, p.out[i].first, p.out[i].second);
      sameList(x, y, "pipeline output: number of messages", "pipeline output: time", "pipeline output: value");
    }
    auto it = a.find(p.id);
    if (it != a.end()) for (auto& x : it->second) sym_check(x.second.empty() || portNo(x.first) < p.out.size(), "pipeline output port exists");
  }
  for (auto& p : ps) { a.erase(p.id); for (auto& o : p.ops) b.erase(o["id"].get<std::string>()); }
  sameProg(a, b, "the rest of the program");
}
static void both(const char* entry, const std::vector<json>& ops, const std::vector<json>& cons, const std::vector<Inner>& ps, unsigned n, unsigned gaps, unsigned ports = 1) {
  Program p(nested(entry, ops, cons, ps)), q(flat(entry, ops, cons, ps));
  T t[2] = {100, 100};
  for (unsigned i = 0; i < n; i++) {
    unsigned k = ports > 1 ? sym_choice(Nm("p", i), ports) : 0;
    t[k] += 1 + (gaps > 1 ? sym_choice(Nm("g", i), gaps) : 0);
    Map m = msg(t[k], sym_f64r(Nm("v", i), -100, 100), k ? "i2" : "i1");
    ProgM a, b;
    bool x = tryX([&] { return p.receiveDebug(m); }, a), y = tryX([&] { return q.receiveDebug(m); }, b);
    sym_check(x == y, "same errors");
    same(a, b, ps);
    if (!at(a, "out", "o1").empty()) sym_cover("out");
  }
}
#define IN1 op("Input", "in")
#define OUTN(n) op("Output", "out", "numPorts", n)
ENTRY(h_pipe_single) {
  Inner p{"P", {op("MovingAverage", "a", "n", 2)}, {}, {{"a", "i1"}}, {{"a", "o1"}}};
  both("in", {IN1, OUTN(1)}, {con("in", "P"), con("P", "out")}, {p}, QT(5, 8), 2);
}
// operator ids with the character that separates id and port
ENTRY(h_pipe_ids) {
  static const char* IDS[][3] = {{"a:b", "c", "d"}, {":", "a:", ":b"}, {"a", "a:o1", "a:i1"}, {"a::b", "x y", "\xc3\xa9:"}};
  const char** n = IDS[sym_choice("ids", 4)];
  Inner p{"P:Q", {op("Minus", n[0]), op("CumulativeSum", n[1]), op("Count", n[2])}, {con(n[0], n[1])}, {}, {}};
  // ports are numbered in the order of the ids
  std::map<std::string, const char*> in{{std::string(n[0]) + ":i1", n[0]}, {std::string(n[0]) + ":i2", n[0]}, {std::string(n[2]) + ":i1", n[2]}};
  std::map<std::string, const char*> out{{std::string(n[1]) + ":o1", n[1]}, {std::string(n[2]) + ":o1", n[2]}};
  for (auto& x : in) p.in.push_back({x.second, x.first.back() == '2' ? "i2" : "i1"});
  for (auto& x : out) p.out.push_back({x.second, "o1"});
  both("in", {IN1, op("Scale", "sc", "value", 3), OUTN(2)}, {con("in", "P:Q"), con("sc", "P:Q", "o1", "i2"), con("in", "sc"), con("in", "P:Q", "o1", "i3"), con("P:Q", "out"), con("P:Q", "out", "o2", "i2")}, {p}, QT(3, 5), 2);
}
// the middle of a chain is not an output, both ends are connected
ENTRY(h_pipe_chain) {
  Inner p{"P", {op("Difference", "a"), op("CumulativeSum", "b"), op("PeakDetector", "c", "n", 3)}, {con("a", "b"), con("b", "c")}, {{"a", "i1"}}, {{"c", "o1"}}};
  both("in", {IN1, op("Count", "cnt"), OUTN(2)}, {con("in", "P"), con("P", "cnt"), con("P", "out"), con("cnt", "out", "o1", "i2")}, {p}, QT(6, 9), 1);
}
ENTRY(h_pipe_two_outputs) {
  Inner p{"P", {op("MovingAverage", "a", "n", 2), op("CumulativeSum", "b"), op("Difference", "c")}, {con("a", "b"), con("a", "c")}, {{"a", "i1"}}, {{"b", "o1"}, {"c", "o1"}}};
  both("in", {IN1, op("Join", "j", "numPorts", 2), OUTN(2)}, {con("in", "P"), con("P", "j"), con("P", "j", "o2", "i2"), con("j", "out"), con("j", "out", "o2", "i2")}, {p}, QT(5, 8), 2);
}
ENTRY(h_pipe_two_inputs) {
  Inner p{"P", {op("Scale", "s", "value", 2), op("Minus", "z")}, {con("s", "z")}, {{"s", "i1"}, {"z", "i2"}}, {{"z", "o1"}}};
  both("in", {IN1, op("MovingAverage", "ma", "n", 2), OUTN(1)}, {con("in", "P"), con("in", "ma"), con("ma", "P", "o1", "i2"), con("P", "out")}, {p}, QT(5, 8), 2);
}
// one source feeding both inputs of one operator inside
ENTRY(h_pipe_shared_source) {
  Inner p{"P", {op("Minus", "m"), op("Count", "n")}, {}, {{"m", "i1"}, {"m", "i2"}, {"n", "i1"}}, {{"m", "o1"}, {"n", "o1"}}};
  both("in", {IN1, op("Scale", "sc", "value", 3), OUTN(2)}, {con("in", "P"), con("in", "sc"), con("sc", "P", "o1", "i2"), con("in", "P", "o1", "i3"), con("P", "out"), con("P", "out", "o2", "i2")}, {p}, QT(4, 7), 2);
}
// inputs filled at different times: one branch is filtered outside
ENTRY(h_pipe_lag) {
  Inner p{"P", {op("Join", "k", "numPorts", 2), op("Plus", "s")}, {con("k", "s"), con("k", "s", "o2", "i2")}, {{"k", "i1"}, {"k", "i2"}}, {{"s", "o1"}}};
  both("in", {IN1, op("GreaterThan", "g", "value", 0), OUTN(1)}, {con("in", "P"), con("in", "g"), con("g", "P", "o1", "i2"), con("P", "out")}, {p}, QT(4, 6), 2);
}
ENTRY(h_pipe_demux) {
  Inner p{"P", {op("Input", "a"), op("GreaterThan", "g", "value", 0), op("LessThan", "l", "value", 0), op("EqualTo", "e", "value", 0), op("Constant", "one", "value", 1), op("Constant", "zero", "value", 0), op("Demultiplexer", "d", "numPorts", 1)},
          {con("a", "g"), con("a", "l"), con("a", "e"), con("g", "one"), con("l", "zero"), con("e", "zero"), con("one", "d", "o1", "c1"), con("zero", "d", "o1", "c1"), con("a", "d", "o1", "i1")}, {{"a", "i1"}}, {{"d", "o1"}}};
  both("in", {IN1, op("CumulativeSum", "s"), OUTN(1)}, {con("in", "P"), con("P", "s"), con("s", "out")}, {p}, QT(3, 5), 2);
}
// bursts leaving the pipeline and entering it
ENTRY(h_pipe_burst_out) {
  Inner p{"P", {op("ConstantResampler", "r", "interval", 2), op("CosineResampler", "s", "dt", 2)}, {}, {{"r", "i1"}, {"s", "i1"}}, {{"r", "o1"}, {"s", "o1"}}};
  both("in", {IN1, op("CumulativeSum", "c"), op("Plus", "pl"), OUTN(2)}, {con("in", "P"), con("in", "P", "o1", "i2"), con("P", "c"), con("P", "pl"), con("P", "pl", "o2", "i2"), con("c", "out"), con("pl", "out", "o1", "i2")}, {p}, QT(4, 5), 6);
}
ENTRY(h_pipe_burst_in) {
  Inner p{"P", {op("Count", "k"), op("MovingAverage", "m", "n", 3), op("CumulativeSum", "z")}, {con("m", "z")}, {{"k", "i1"}, {"m", "i1"}}, {{"k", "o1"}, {"z", "o1"}}};
  both("in", {IN1, op("ConstantResampler", "r", "interval", 2), OUTN(2)}, {con("in", "r"), con("r", "P"), con("r", "P", "o1", "i2"), con("P", "out"), con("P", "out", "o2", "i2")}, {p}, QT(4, 5), 6);
}
ENTRY(h_pipe_many_outputs) {
  Inner p{"P", {op("Output", "x", "numPorts", 3), op("Input", "y", "numPorts", 2)}, {con("y", "x", "o2", "i3")}, {{"x", "i1"}, {"x", "i2"}, {"y", "i1"}, {"y", "i2"}}, {{"x", "o1"}, {"x", "o2"}, {"x", "o3"}, {"y", "o1"}}};
  std::vector<json> c{con("in", "P", "o1", "i1"), con("sc", "P", "o1", "i2"), con("in", "P", "o1", "i3"), con("ad", "P", "o1", "i4"), con("in", "sc"), con("in", "ad")};
  static const char* O[] = {"o1", "o2", "o3", "o4"};
  static const char* I[] = {"i1", "i2", "i3", "i4"};
  for (unsigned i = 0; i < 4; i++) c.push_back(con("P", "out", O[i], I[i]));
  both("in", {IN1, op("Scale", "sc", "value", 3), op("Add", "ad", "value", 7), OUTN(4)}, c, {p}, 4, 2);
}
// two pipelines with inner operators of the same names, one after the other
ENTRY(h_pipe_twice) {
  Inner p{"P", {op("MovingAverage", "a", "n", 2), op("Add", "b", "value", 1)}, {con("a", "b")}, {{"a", "i1"}}, {{"b", "o1"}}};
  Inner q{"Q", {op("CumulativeSum", "a2"), op("Scale", "b2", "value", 2)}, {con("a2", "b2")}, {{"a2", "i1"}}, {{"b2", "o1"}}};
  std::vector<json> ops{IN1, OUTN(2)}, cons{con("in", "P"), con("P", "Q"), con("in", "P2"), con("Q", "out"), con("P2", "out", "o1", "i2")};
  Inner q1 = q, p2 = p;
  q1.ops = {op("CumulativeSum", "a"), op("Scale", "b", "value", 2)};
  q1.cons = {con("a", "b")};
  p2.id = "P2";
  Program x(nested("in", ops, cons, {p, q1, p2}));
  Inner f2 = p2;
  f2.ops = {op("MovingAverage", "a3", "n", 2), op("Add", "b3", "value", 1)};
  f2.cons = {con("a3", "b3")};
  f2.in = {{"a3", "i1"}};
  f2.out = {{"b3", "o1"}};
  std::vector<Inner> fs{p, q, f2};
  Program y(flat("in", ops, cons, fs));
  for (unsigned i = 0; i < QT(5, 8); i++) {
    Map m = msg(10 + i, sym_f64(Nm("v", i)));
    ProgM a = x.receiveDebug(m), b = y.receiveDebug(m);
    same(a, b, fs);
    if (!at(a, "out", "o1").empty()) sym_cover("out");
  }
}
// a pipeline inside a pipeline inside a pipeline
ENTRY(h_pipe_nested) {
  Inner i1{"q", {op("MovingAverage", "m", "n", 2), op("Count", "n")}, {con("m", "n")}, {{"m", "i1"}}, {{"n", "o1"}}};
  Inner i0{"r", {op("Add", "ad", "value", 4), pipe(i1), op("Plus", "pl")}, {con("ad", "q"), con("ad", "pl"), con("q", "pl", "o1", "i2")}, {{"ad", "i1"}}, {{"pl", "o1"}}};
  Inner p{"P", {op("Difference", "d"), pipe(i0), op("CumulativeSum", "s")}, {con("d", "r"), con("r", "s")}, {{"d", "i1"}}, {{"s", "o1"}}};
  Inner f{"P", {op("Difference", "d"), op("Add", "ad", "value", 4), op("MovingAverage", "m", "n", 2), op("Count", "n"), op("Plus", "pl"), op("CumulativeSum", "s")},
          {con("d", "ad"), con("ad", "m"), con("m", "n"), con("ad", "pl"), con("n", "pl", "o1", "i2"), con("pl", "s")}, {{"d", "i1"}}, {{"s", "o1"}}};
  std::vector<json> ops{IN1, op("Join", "j", "numPorts", 2), OUTN(2)}, cons{con("in", "P"), con("P", "j"), con("in", "j", "o1", "i2"), con("j", "out"), con("j", "out", "o2", "i2")};
  Program x(nested("in", ops, cons, {p})), y(flat("in", ops, cons, {f}));
  T t = 10;
  for (unsigned i = 0; i < QT(6, 9); i++) {
    t += 1 + sym_choice(Nm("g", i), 2);
    Map m = msg(t, sym_f64(Nm("v", i)));
    ProgM a = x.receiveDebug(m), b = y.receiveDebug(m);
    same(a, b, {f});
    if (!at(a, "out", "o1").empty()) sym_cover("out");
  }
}
// the pipeline is the entry of the program
ENTRY(h_pipe_entry) {
  Inner p{"P", {op("Input", "a"), op("Input", "b"), op("Minus", "z")}, {con("a", "z"), con("b", "z", "o1", "i2")}, {{"a", "i1"}, {"b", "i1"}}, {{"z", "o1"}}};
  std::vector<json> ops{OUTN(1)}, cons{con("P", "out")};
  Program x(nested("P", ops, cons, {p}));
  // written out, the entry with two ports is an Input in front
  ops.push_back(op("Input", "front", "numPorts", 2));
  cons.push_back(con("front", "P"));
  cons.push_back(con("front", "P", "o2", "i2"));
  Program y(flat("front", ops, cons, {p}));
  sym_check(x.getProgramEntryPorts() == y.getProgramEntryPorts(), "entry ports");
  T t[2] = {10, 10};
  for (unsigned i = 0; i < QT(5, 6); i++) {
    unsigned k = sym_choice(Nm("p", i), 2);
    t[k] += 1 + sym_choice(Nm("g", i), 2);
    Map m = msg(t[k], sym_f64(Nm("v", i)), k ? "i2" : "i1");
    ProgM a = x.receiveDebug(m), b = y.receiveDebug(m);
    b.erase("front");
    same(a, b, {p});
    if (!at(a, "out", "o1").empty()) sym_cover("out");
  }
}
// three operators inside in every arrangement: each port of the second and third open or connected to any earlier output,
// the ports named or left out where they can be deduced
static json cut(json c, bool from, bool to) { if (from) c.erase("fromPort"); if (to) c.erase("toPort"); return c; }
static void graphs(unsigned ka) {
  static const char* const TB[] = {"Minus", "Variable", "MovingAverage"};
  unsigned kb = sym_choice("b", 3), bare = sym_choice("bare", 2);
  std::vector<std::string> outA = ka ? std::vector<std::string>{"o1", "o2"} : std::vector<std::string>{"o1"};
  Inner p{"P", {ka ? op("Input", "a", "numPorts", 2) : op("Plus", "a"), kb == 2 ? op("MovingAverage", "b", "n", 2) : kb == 1 ? op("Variable", "b", "value", 1.5) : op(TB[kb], "b"), op("Linear", "c", "coeff", std::vector<V>{2, 3})}, {}, {{"a", "i1"}, {"a", "i2"}}, {}};
  std::set<std::string> used;
  auto feedFrom = [&](const char* to, const char* port, bool single, bool data, unsigned earlier, const char* nm) {
    std::vector<std::pair<std::string, std::string>> src;
    for (auto& o : outA) src.push_back({"a", o});
    if (earlier > 1) src.push_back({"b", "o1"});
    unsigned k = sym_choice(nm, src.size() + 1);
    if (k == src.size()) { if (data) p.in.push_back({to, port}); return; }
    used.insert(src[k].first + src[k].second);
    p.cons.push_back(cut(con(src[k].first.c_str(), to, src[k].second.c_str(), port), bare && !(src[k].first == "a" && ka), bare && single));
  };
  if (kb == 1) { feedFrom("b", "c1", false, false, 1, "bc1"); feedFrom("b", "i1", false, true, 1, "b1"); }
  else { feedFrom("b", "i1", kb == 2, true, 1, "b1"); if (!kb) feedFrom("b", "i2", false, true, 1, "b2"); }
  feedFrom("c", "i1", false, true, 2, "c1");
  feedFrom("c", "i2", false, true, 2, "c2");
  static const char* const ON[] = {"a", "b", "c"};
  for (unsigned i = 0; i < 3; i++)
    for (unsigned o = 0; o < (i ? 1 : outA.size()); o++) { const char* nm = o ? "o2" : "o1"; if (!used.count(std::string(ON[i]) + nm)) p.out.push_back({ON[i], nm}); }
  std::vector<json> cons;
  static const char* const I[] = {"i1", "i2", "i3", "i4", "i5", "i6", "i7"};
  static const char* const O[] = {"o1", "o2", "o3", "o4", "o5"};
  for (unsigned i = 0; i < p.in.size(); i++) cons.push_back(con("in", "P", i % 2 ? "o2" : "o1", I[i]));
  for (unsigned i = 0; i < p.out.size(); i++) cons.push_back(con("P", "out", O[i], I[i]));
  std::vector<json> ops{op("Input", "in", "numPorts", 2), OUTN(p.out.size())};
  Program x(nested("in", ops, cons, {p})), y(flat("in", ops, cons, {p}));
  for (unsigned i = 0; i < QT(5, 8); i++) {
    Map m = msg(10 + i / 2, sym_f64r(Nm("v", i), -100, 100), i % 2 ? "i2" : "i1");
    ProgM a, b;
    bool e = tryX([&] { return x.receiveDebug(m); }, a), f = tryX([&] { return y.receiveDebug(m); }, b);
    sym_check(e == f, "same errors");
    if (e || f) return;
    same(a, b, {p});
    if (!at(a, "out", "o1").empty()) sym_cover("out");
  }
}
ENTRY(h_pipe_graphs0) { graphs(0); }
ENTRY(h_pipe_graphs1) { graphs(1); }
// every chain of two operators inside
static json kind(unsigned k, const char* id) {
  switch (k) {
    case 0: return op("MovingAverage", id, "n", 2);
    case 1: return op("CumulativeSum", id);
    case 2: return op("Difference", id);
    case 3: return op("GreaterThan", id, "value", 1.5);
    case 4: return op("ConstantResampler", id, "interval", 3);
    case 5: return op("Count", id);
    case 6: return op("FiniteImpulseResponse", id, "coeff", std::vector<V>{2, -1});
    case 7: return op("Input", id);
    case 8: return op("Output", id);
    case 9: return op("AutoRegressive", id, "coeff", std::vector<V>{0.5});
    case 10: return op("TimeShift", id, "dt", 4);
    case 11: return op("CosineResampler", id, "dt", 2);
    default: return op("PeakDetector", id, "n", 3);
  }
}
ENTRY(h_pipe_pairs) {
  Inner p{"P", {kind(sym_choice("a", 13), "a"), kind(sym_choice("b", 13), "b")}, {con("a", "b")}, {{"a", "i1"}}, {{"b", "o1"}}};
  Program x(nested("in", {IN1, OUTN(1)}, {con("in", "P"), con("P", "out")}, {p})), y(flat("in", {IN1, OUTN(1)}, {con("in", "P"), con("P", "out")}, {p}));
  static const unsigned gap[] = {1, 1, 4, 1, 7, 2, 2};
  T t = 10;
  for (unsigned i = 0; i < QT(5, 7); i++) {
    t += gap[i];
    Map m = msg(t, i % 2 ? sym_f64r(Nm("v", i), -100, 100) : (V)(i * 3 % 5));
    ProgM a = x.receiveDebug(m), b = y.receiveDebug(m);
    same(a, b, {p});
    if (!at(a, "out", "o1").empty()) sym_cover("out");
  }
}
