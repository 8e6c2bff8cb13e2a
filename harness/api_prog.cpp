// A03 output selection, A04 serialize and restore, A08 rejection, A09 deterministic bytes
#include "prog.h"
// ---------------------------------------------------------------- A03
static ProgM pick(const ProgM& all, const Filt& f) {
  ProgM r;
  for (auto& x : f)
    for (auto& p : x.second) { PM l = at(all, x.first, p); if (!l.empty()) r[x.first][p] = l; }
  return r;
}
static const struct { const char* op; const char* port; } SEL[] = {{"in", "o1"}, {"ma", "o1"}, {"out", "o1"}, {"out", "o2"}, {"gone", "o1"}, {"minus", "o9"}};
ENTRY(h_filter) {
  Filt f;
  for (unsigned i = 0; i < 6; i++) if (sym_choice(Nm("s", i), 2)) f[SEL[i].op].push_back(SEL[i].port);
  if (f.empty()) f["join"].push_back("o2");
  std::vector<json> ops{op("Input", "in"), op("MovingAverage", "ma", "n", 2), op("Minus", "minus"), op("Output", "out", "numPorts", 2)};
  std::vector<json> cons{con("in", "ma"), con("in", "minus"), con("ma", "minus", "o1", "i2"), con("minus", "out"), con("ma", "out", "o1", "i2")};
  Program p(prog("in", ops, cons, f)), q(prog("in", ops, cons));
  Times t;
  for (unsigned i = 0; i < 3; i++) {
    T x = t.next();
    V v = sym_f64(Nm("v", i));
    ProgM a = p.receive(msg(x, v)), b = q.receiveDebug(msg(x, v));
    sameProg(a, pick(b, f), "exactly the selected outputs");
    if (!a.empty()) sym_cover("reported");
    if (a.size() < b.size()) sym_cover("hidden");
  }
}
// several messages in one call, on one or two ports: port by port, in order
ENTRY(h_batch) {
  unsigned k = sym_choice("prog", 2) ? 5 : 0;
  Filt f{{"out", {"o1", "o2"}}, {"in", {"o1"}}};
  json j = json::parse(sample(k));
  j["output"] = f;
  Program p(j.dump()), q(sample(k));
  Times t;
  Map batch, rest;
  std::vector<T> ts;
  std::vector<V> vs;
  for (unsigned i = 0; i < 4; i++) { ts.push_back(t.next()); vs.push_back(sym_f64(Nm("v", i))); }
  ProgM want;
  auto one = [&](const char* port, unsigned i) {
    ProgM r = q.receiveDebug(msg(ts[i], vs[i], port));
    for (auto& x : pick(r, f)) for (auto& y : x.second) append(want[x.first][y.first], y.second);
  };
  if (twoPorts(k)) {
    batch["i1"] = PM{Msg(ts[0], vs[0]), Msg(ts[1], vs[1])};
    batch["i2"] = PM{Msg(ts[0], vs[2]), Msg(ts[1], vs[3])};
    one("i1", 0); one("i1", 1);
    for (unsigned i = 0; i < 2; i++) { ProgM r = q.receiveDebug(msg(ts[i], vs[2 + i], "i2")); for (auto& x : pick(r, f)) for (auto& y : x.second) append(want[x.first][y.first], y.second); }
  } else {
    for (unsigned i = 0; i < 4; i++) batch["i1"].push_back(Msg(ts[i], vs[i]));
    for (unsigned i = 0; i < 4; i++) one("i1", i);
  }
  ProgM got = p.receive(batch);
  sameProg(got, want, "a batch reports what its messages report one by one");
  if (!got.empty()) sym_cover("reported");
}
// any list of up to three ports of one operator, ports that stay silent or do not exist and repeated ports among them
ENTRY(h_lists) {
  static const char* const L[] = {"o1", "o2", "o3", "o9"};
  Filt f;
  unsigned n = 1 + sym_choice("n", 3);
  for (unsigned i = 0; i < n; i++) f["out"].push_back(L[sym_choice(Nm("l", i), 4)]);
  if (sym_choice("more", 2)) f["gt"] = {"o1"};
  std::vector<json> ops{op("Input", "in"), op("GreaterThan", "gt", "value", 1), op("LessThan", "lt", "value", -1), op("Output", "out", "numPorts", 3)};
  std::vector<json> cons{con("in", "gt"), con("in", "lt"), con("gt", "out"), con("in", "out", "o1", "i2"), con("lt", "out", "o1", "i3")};
  Program p(prog("in", ops, cons, f)), q(prog("in", ops, cons));
  for (unsigned i = 0; i < 2; i++) {
    Map m = msg(10 + i, sym_f64(Nm("v", i)));
    ProgM a = p.receive(m);
    sameProg(a, pick(q.receiveDebug(m), f), "exactly the selected outputs");
    if (!a.empty()) sym_cover("reported");
  }
}
// several messages at once with times in any order, some of which yield nothing
ENTRY(h_batch_any) {
  bool debug = sym_choice("debug", 2);
  Filt f{{"out", {"o2", "o1"}}, {"in", {"o1"}}};
  json j = json::parse(sample(5));
  j["output"] = f;
  Program p(j.dump()), q(j.dump());
  Map batch;
  ProgM want;
  for (unsigned i = 0; i < 4; i++) {
    const char* port = i < 3 ? "i1" : "i2";
    Msg m(10 + 2 * sym_choice(Nm("s", i), 3), sym_f64r(Nm("v", i), -100, 100));
    batch[port].push_back(m);
    Map one = msg(m.time, m.value, port);
    ProgM r = debug ? q.receiveDebug(one) : q.receive(one);
    for (auto& x : r) for (auto& y : x.second) append(want[x.first][y.first], y.second);
  }
  ProgM got = debug ? p.receiveDebug(batch) : p.receive(batch);
  sameProg(got, want, "a batch reports what its messages report one by one");
  if (!got.empty()) sym_cover("reported");
}
// debug mode and a program without output selection report everything: compared with the same graph wired in code
ENTRY(h_everything) {
  bool debug = sym_choice("debug", 2), none = sym_choice("none", 2);
  if (!debug && !none) return;
  json j = json::parse(sample(1));
  if (!none) j["output"] = Filt{{"out", {"o1"}}};
  Program p(j.dump());
  Input<T, V> in("in"); MovingAverage<T, V> ma("ma", 2); Minus<T, V> mi("minus"); GreaterThan<T, V> gt("gt", 0.5); Join<T, V> jn("join", 2); Difference<T, V> df("diff"); Output<T, V> out("out", 2);
  in.connect(&ma); in.connect(&mi, "o1", "i1"); ma.connect(&mi, "o1", "i2"); mi.connect(&gt); gt.connect(&jn, "o1", "i1"); in.connect(&df); df.connect(&jn, "o1", "i2"); jn.connect(&out, "o1", "i1"); jn.connect(&out, "o2", "i2");
  Times t;
  for (unsigned i = 0; i < 4; i++) {
    T x = t.next();
    V v = sym_f64(Nm("v", i));
    ProgM a = debug ? p.receiveDebug(msg(x, v)) : p.receive(msg(x, v));
    ProgM b = drive(in, Ev{false, "i1", x, v});
    sameProg(a, b, "everything is reported");
    if (a.size() > 5) sym_cover("reported");
  }
}
ENTRY(h_accessors) {
  Filt f{{"out", {"o1", "o2"}}, {"ma", {"o1"}}};
  json j = json::parse(sample(5));
  j["output"] = f;
  Program p(j.dump());
  sym_check(p.getProgramEntryOperatorId() == "in", "entry operator");
  sym_check(p.getProgramEntryPorts() == (std::vector<std::string>{"i1", "i2"}), "entry ports");
  sym_check(p.getProgramOutputFilter() == f, "output selection");
  sym_cover("reported");
}
// ---------------------------------------------------------------- A04
static void continues(unsigned k, unsigned n, unsigned gaps) {
  json j = json::parse(sample(k));
  bool filt = sym_choice("filtered", 2);
  if (filt) j["output"] = Filt{{"out", {"o1"}}, {"in", {"o1"}}};
  std::string text = j.dump();
  Program p(text), u(text);
  unsigned cut = sym_choice("cut", n);
  T t = 1000, t2 = 1000;
  std::unique_ptr<Program> r;
  for (unsigned i = 0; i < n; i++) {
    if (i == cut) {
      Bytes b = p.serialize();
      r.reset(new Program(b));
      sym_check(r->getProgramEntryOperatorId() == p.getProgramEntryOperatorId(), "entry operator kept");
      sym_check(r->getProgramOutputFilter() == p.getProgramOutputFilter(), "output selection kept");
      Bytes c = r->serialize();
      sym_check(b.size() == c.size(), "serializing the restored program gives the same bytes");
      if (b.size() == c.size()) {
        unsigned diff = 0;
        for (size_t q = 0; q < b.size(); q++) diff |= b[q] ^ c[q];
        sym_check(diff == 0, "serializing the restored program gives the same bytes");
      }
    }
    bool second = twoPorts(k) && sym_choice(Nm("p", i), 2);
    T& tt = second ? t2 : t;
    // the first message after the cut may also repeat the time of the last one or be older
    if (i == cut && i) tt = tt + 1 - sym_choice("stale", 3);
    else tt += 1 + (gaps > 1 ? sym_choice(Nm("g", i), gaps) : 0);
    Map m = msg(tt, sym_f64r(Nm("v", i), -100, 100), second ? "i2" : "i1");
    ProgM x, y, z;
    bool a = tryX([&] { return p.receive(m); }, x), c = tryX([&] { return u.receive(m); }, z);
    sym_check(a == c, "serializing changes nothing");
    sameProg(x, z, "serializing changes nothing");
    if (r) {
      bool b = tryX([&] { return r->receive(m); }, y);
      sym_check(a == b, "same errors after restore");
      sameProg(x, y, "same reports after restore");
      if (!x.empty()) sym_cover("continued");
    }
  }
}
ENTRY(h_restore0) { continues(0, QT(5, 7), 1); }
ENTRY(h_restore1) { continues(1, QT(5, 6), 1); }
ENTRY(h_restore2) { continues(2, QT(4, 5), 3); }
ENTRY(h_restore3) { continues(3, QT(4, 5), 1); }
ENTRY(h_restore4) { continues(4, QT(4, 5), 1); }
ENTRY(h_restore5) { continues(5, QT(4, 6), 1); }
ENTRY(h_restore_pipeline) { continues(6, QT(5, 7), 1); }
ENTRY(h_restore_pipelines) { continues(7, QT(5, 7), 1); }
// unusual sizes: long ids, ids with any characters, a long definition, many operators, a long buffer
ENTRY(h_restore_sizes) {
  unsigned k = sym_choice("size", 6);
  std::string a = "a", b = "b", text;
  unsigned n = 3;
  switch (k) {
    case 0: a = std::string(300, 'x'); b = a + "y"; break;
    case 1: a = "id \"quoted\"\n\\"; b = "\xc3\xa9\xe2\x82\xac"; break;
    case 2: a = std::string("n\0l", 3); b = std::string("n\0m", 3); break;
    case 5: n = 300; break;
    default: break;
  }
  std::vector<json> ops{op("Input", "in"), op("MovingAverage", a.c_str(), "n", n), op("CumulativeSum", b.c_str())}, cons;
  ops[1]["id"] = a; ops[2]["id"] = b;
  cons.push_back(con("in", "")); cons[0]["to"] = a;
  cons.push_back(con("", "")); cons[1]["from"] = a; cons[1]["to"] = b;
  if (k == 4) for (unsigned i = 0; i < 60; i++) { std::string id = "c" + std::to_string(i); ops.push_back(op("Count", id.c_str())); cons.push_back(con("in", id.c_str())); }
  text = prog("in", ops, cons);
  if (k == 3) text = std::string(QT(70000, 200000), ' ') + text;
  Program p(text);
  V x = sym_f64r("x", -100, 100);
  unsigned pre = k == 5 ? 310 : 4;
  for (unsigned i = 0; i < pre; i++) p.receive(msg(10 + i, x * (V)(i % 3) + i));
  Program r(p.serialize());
  for (unsigned i = 0; i < 3; i++) {
    Map m = msg(1000 + i, x + i);
    ProgM u = p.receive(m), v = r.receive(m);
    sameProg(u, v, "same reports after restore");
    sym_check(u.count(a) && u.count(b), "continues");
    if (!u.empty()) sym_cover("continued");
  }
}
// an operator that waits on several of many ports
ENTRY(h_restore_wide) {
  const unsigned N = 5;
  unsigned k = sym_choice("prog", 3);
  std::vector<json> ops{op("Input", "in", "numPorts", N), op("Join", "j", "numPorts", N), op("Output", "out", "numPorts", N)}, cons;
  std::string oname[N], iname[N];
  for (unsigned i = 0; i < N; i++) {
    oname[i] = "o" + std::to_string(i + 1); iname[i] = "i" + std::to_string(i + 1);
    cons.push_back(con("in", "j", oname[i].c_str(), iname[i].c_str()));
    cons.push_back(con("j", "out", oname[i].c_str(), iname[i].c_str()));
  }
  std::string text;
  if (k == 0) text = prog("in", ops, cons);
  else if (k == 1) text = prog("j", {ops[1], ops[2]}, {con("j", "out")});
  else {
    cons.clear();
    for (unsigned i = 0; i < N; i++) cons.push_back(con("in", "dm", oname[i].c_str(), i + 1 == N ? "i1" : ("c" + std::to_string(i + 1)).c_str()));
    text = prog("in", {ops[0], op("Demultiplexer", "dm", "numPorts", N - 1), op("Count", "c")}, [&] { cons.push_back(con("dm", "c", "o2")); return cons; }());
  }
  Program p(text);
  V x = sym_f64r("x", -100, 100);
  unsigned last = sym_choice("last", N);
  for (unsigned i = 0; i < N; i++)
    if (i != last)
      for (unsigned n = 0; n <= i % 3 + (k == 2); n++) p.receive(msg(10 + n, k == 2 && i + 1 < N ? i == 1 : x + i * 10 + n, iname[i].c_str()));
  Bytes b = p.serialize();
  Program r(b);
  sym_check(r.serialize() == b, "the restored program serializes to the same bytes");
  for (unsigned n = 0; n < 3; n++) {
    Map m = msg(10 + n, k == 2 && last + 1 < N ? last == 1 : x - n, iname[last].c_str());
    ProgM u, v;
    bool eu = tryX([&] { return p.receive(m); }, u), ev = tryX([&] { return r.receive(m); }, v);
    sym_check(eu == ev, "same errors after restore");
    sameProg(u, v, "same reports after restore");
    if (u.count(k == 0 ? "out" : k == 1 ? "j" : "dm")) sym_cover("continued");
  }
}
// through the factory, twice, under another name
ENTRY(h_restore_factory) {
  FactoryOp a, b, c;
  unsigned k = sym_choice("prog", 8);
  a.createProgram("p", sample(k));
  unsigned cut = sym_choice("cut", 3);
  for (unsigned i = 0; i < 6; i++) {
    if (i == cut) b.createProgram("q", a.serialize("p"));
    if (i == cut + 2) c.createProgram("r", b.serialize("q"));
    Map m = msg(10 + i, (V)((i * 5) % 4) - 1.5, twoPorts(k) && i % 2 ? "i2" : "i1");
    if (i == 4) m.begin()->second[0].value = sym_f64r("v", -100, 100);
    ProgM x, y, z;
    bool e = tryX([&] { return a.processMessageMap("p", m); }, x);
    if (i >= cut) {
      sym_check(tryX([&] { return b.processMessageMap("q", m); }, y) == e, "same errors after restore");
      sameProg(x, y, "same reports after restore");
    }
    if (i >= cut + 2) {
      sym_check(tryX([&] { return c.processMessageMap("r", m); }, z) == e, "same errors after a second restore");
      sameProg(x, z, "same reports after a second restore");
      if (!x.empty()) sym_cover("continued");
    }
  }
}
// ---------------------------------------------------------------- A08
ENTRY(h_reject) {
  json j = json::parse(sample(1));
  unsigned d = sym_choice("defect", 36);
  bool ok = false;
  switch (d) {
    case 0: j["operators"][1]["type"] = "Nonsense"; break;
    case 1: j["connections"][0]["from"] = "nobody"; break;
    case 2: j["connections"][1]["to"] = "nobody"; break;
    case 3: j["connections"][2]["toPort"] = "i7"; break;
    case 4: j["connections"][3]["fromPort"] = "o7"; break;
    case 5: j["entryOperator"] = "nobody"; break;
    case 6: j.erase("entryOperator"); break;
    case 7: j["entryOperator"] = ""; break;
    case 8: j["operators"].push_back(op("Demultiplexer", "dm", "numPorts", 1)); j["entryOperator"] = "dm"; break;
    case 9: j.erase("operators"); break;
    case 10: j["connections"].push_back(con("in", "join", "o1", "c1")); break;
    case 11: j["operators"].push_back(json{{"type", "Pipeline"}, {"id", "pp"}, {"prog", json::parse(prog("a", {op("Nonsense", "a")}, {}))}}); break;
    case 12: j["operators"].push_back(json{{"type", "Pipeline"}, {"id", "pp"}, {"prog", json::parse(prog("a", {op("Count", "a"), op("Count", "b")}, {con("a", "b", "o1", "i4")}))}}); break;
    case 13: j["operators"].push_back(json{{"type", "Pipeline"}, {"id", "pp"}, {"prog", json::parse(prog("a", {op("Count", "a")}, {con("a", "nobody")}))}}); break;
    case 14: j["connections"].push_back(con("ma", "in", "o1", "i2")); break;
    case 15: j["operators"].push_back(op("Count", "ma")); break;
    case 16: j["operators"].push_back(json{{"type", "Pipeline"}, {"id", "pp"}, {"prog", json::parse(prog("a", {op("Count", "a"), op("Identity", "a")}, {}))}}); break;
    case 17: j["operators"].push_back(op("MovingAverage", "x", "n", 0)); break;
    case 18: j["operators"].push_back(op("StandardDeviation", "x", "n", 1)); break;
    case 19: j["operators"].push_back(op("PeakDetector", "x", "n", 0)); break;
    case 20: j["operators"].push_back(op("RelativeStrengthIndex", "x", "n", 0)); break;
    case 21: j["operators"].push_back(op("CosineResampler", "x", "dt", 0)); break;
    case 22: j["operators"].push_back(op("HermiteResampler", "x", "dt", 0)); break;
    case 23: j["operators"].push_back(op("ConstantResampler", "x", "interval", 0)); break;
    case 24: { json x = op("FiniteImpulseResponse", "x"); x["coeff"] = std::vector<V>(); j["operators"].push_back(x); break; }
    case 25: { json x = op("AutoRegressive", "x"); x["coeff"] = std::vector<V>(); j["operators"].push_back(x); break; }
    case 26: j["operators"].push_back(op("Join", "x", "numPorts", 1)); break;
    case 27: j["operators"].push_back(op("Demultiplexer", "x", "numPorts", 0)); break;
    case 28: { json x = op("Linear", "x"); x["coeff"] = std::vector<V>(1, 2.0); j["operators"].push_back(x); break; }
    case 29: j["connections"].push_back(con("ma", "ma", "o1", "i7")); break;
    case 30: j["connections"].push_back(con("ma", "ma", "o3", "i1")); break;
    case 31: { json c = con("in", "in", "o1", "i1"); c["to"] = "nobody"; c["from"] = "nobody"; j["connections"].push_back(c); break; }
    case 32: j["connections"].push_back(j["connections"][0]); j["connections"][4]["toPort"] = "i3"; break;
    case 33: { json c = con("join", "ma", "o3", "i1"); j["connections"].insert(j["connections"].begin(), c); break; }
    case 34: j["operators"].push_back(json{{"type", "Pipeline"}, {"id", "pp"}, {"prog", json::parse(prog("a", {op("Count", "a")}, {con("a", "a", "o1", "i4")}))}}); break;
    default: ok = true;
  }
  std::string text = j.dump();
  FactoryOp f, g;
  f.createProgram("other", sample(0));
  g.createProgram("other", sample(0));
  bool rejected = false;
  std::string msgText;
  try { msgText = f.createProgram("p", text); } catch (const std::exception&) { rejected = true; }
  sym_check(ok || rejected || !msgText.empty(), "a program that cannot run as described is rejected");
  if (ok) sym_check(!rejected && msgText.empty(), "a sound program is accepted");
  if (ok) { sym_cover("accepted"); return; }
  sym_cover("rejected");
  sym_check(throws([&] { f.serialize("p"); }), "no program is left behind");
  sym_check(throws([&] { f.getProgramEntryOperatorId("p"); }), "no program is left behind");
  sym_check(f.processMessageMap("p", msg(1, 2)).empty(), "no program is left behind");
  V v = sym_f64("v");
  for (unsigned i = 0; i < 4; i++) {
    ProgM a = f.processMessageMap("other", msg(5 + i, v + i)), b = g.processMessageMap("other", msg(5 + i, v + i));
    sameProg(a, b, "other programs are untouched");
  }
  sym_check(f.createProgram("p", sample(1)).empty(), "the id can be used afterwards");
  sym_check(!f.processMessageMap("p", msg(1, 2)).empty(), "the id can be used afterwards");
}
static const char* BADTEXT[] = {"", "{", "[1,2", "{\"entryOperator\":\"in\"", "nonsense", "{\"entryOperator\" \"in\"}", "\"", "{\"a\":1,}"};
ENTRY(h_reject_text) {
  FactoryOp f;
  std::string s = BADTEXT[sym_choice("text", 8)];
  bool rejected = false;
  std::string m;
  try { m = f.createProgram("p", s); } catch (const std::exception&) { rejected = true; }
  sym_check(rejected || !m.empty(), "text that is not a program is rejected");
  sym_check(throws([&] { f.serialize("p"); }), "no program is left behind");
  sym_cover("rejected");
}
// ---------------------------------------------------------------- A09
static const char* const KINDS[] = {"Input", "Count", "CumulativeSum", "MovingAverage", "StandardDeviation", "PeakDetector", "RelativeStrengthIndex", "FiniteImpulseResponse", "AutoRegressive", "ConstantResampler", "CosineResampler", "HermiteResampler", "TimeShift", "Difference", "Identity", "Add", "Function", "Join", "Linear", "Plus", "Demultiplexer", "Variable", "Output", "And"};
static json kind(unsigned k) {
  json j = op(KINDS[k], "x");
  std::string t = KINDS[k];
  if (t == "MovingAverage" || t == "StandardDeviation" || t == "PeakDetector" || t == "RelativeStrengthIndex") j["n"] = 2;
  if (t == "FiniteImpulseResponse" || t == "AutoRegressive" || t == "Linear") j["coeff"] = std::vector<V>{0.5, 2};
  if (t == "CosineResampler" || t == "HermiteResampler" || t == "TimeShift") j["dt"] = 2;
  if (t == "ConstantResampler") j["interval"] = 2;
  if (t == "Join") j["numPorts"] = 2;
  if (t == "Add") j["value"] = 2;
  if (t == "Function") j["points"] = json::array({json::array({0, 1}), json::array({1, 5})});
  return j;
}
static void sameBytes(const Bytes& a, const Bytes& b, const char* l) {
  sym_check(a.size() == b.size(), l);
  for (size_t i = 0; i < a.size() && i < b.size(); i++) sym_check(a[i] == b[i], l);
}
ENTRY(h_bytes_each) {
  std::string text = prog("in", {op("Input", "in"), kind(sym_choice("kind", 24))}, {con("in", "x")});
  sym_smear(0x21);
  Program p(text);
  sym_smear(0x42);
  sym_heapdir(1);
  Program q(text);
  sym_heapdir(0);
  unsigned n = sym_choice("n", 4);
  for (unsigned i = 0; i < n; i++) { V v = (V)((i * 7) % 5) - 1.25; T t = 10 + 3 * i; p.receive(msg(t, v)); q.receive(msg(t, v)); }
  sameBytes(p.serialize(), q.serialize(), "same definition and history, same bytes");
  sameBytes(p.serialize(), p.serialize(), "serializing twice gives the same bytes");
  sym_cover("compared");
}
ENTRY(h_bytes_programs) {
  unsigned k = sym_choice("prog", 8);
  std::string text = sample(k);
  sym_smear(0x21);
  Program p(text);
  sym_smear(0x42);
  sym_heapdir(1);
  Program q(text);
  sym_heapdir(0);
  unsigned n = sym_choice("n", 4);
  for (unsigned i = 0; i < n; i++) { V v = (V)((i * 7) % 5) - 1.25; T t = 10 + 3 * i; p.receive(msg(t, v)); q.receive(msg(t, v)); }
  Bytes b = p.serialize();
  sameBytes(b, q.serialize(), "same definition and history, same bytes");
  Program r(b);
  sameBytes(b, r.serialize(), "a restored program serializes to the bytes it came from");
  sym_cover("compared");
}
// arbitrary values
ENTRY(h_bytes_values) {
  Program p(sample(0)), q(sample(0));
  Times t;
  for (unsigned i = 0; i < 3; i++) { T x = t.next(); V v = sym_f64(Nm("v", i)); p.receive(msg(x, v)); q.receive(msg(x, v)); }
  sameBytes(p.serialize(), q.serialize(), "same definition and history, same bytes");
  sym_cover("compared");
}
