// A11 the text interface reports what the program objects report
#include "prog.h"
#include "rtbot/bindings.h"
#include "text.h"
ENTRY(h_text_messages) {
  std::string s = selected(5, Filt{{"out", {"o1", "o2"}}});
  createProgram("p", s);
  Program q(s);
  Times t("t", ~(T)0 - ((T)1 << 50));
  bool debug = sym_choice("debug", 2);
  for (unsigned i = 0; i < 3; i++) {
    Map m = msg(t.next(), sym_f64(Nm("v", i)), sym_choice(Nm("p", i), 2) ? "i2" : "i1");
    if (debug) sameText(processMessageMapDebug("p", m), q.receiveDebug(m), "debug report"); else sameText(processMessageMap("p", m), q.receive(m), "report");
  }
  Map m = msg(t.next(), sym_f64("v9"));
  sameProg(processMessageMapNative("p", m), q.receive(m), "native report");
}
ENTRY(h_text_buffer) {
  std::string s = selected(0, Filt{{"out", {"o1", "o3"}}, {"in", {"o1"}}});
  createProgram("p", s);
  Program q(s);
  Times t;
  bool debug = sym_choice("debug", 2);
  for (unsigned r = 0; r < 2; r++) {
    Map m;
    unsigned n = sym_choice(Nm("n", r), 3);
    for (unsigned i = 0; i < n; i++) {
      T x = t.next();
      V v = sym_f64(Nm("v", r, "_", i));
      sym_check(json::parse(addToMessageBuffer("p", "i1", x, v)) == 1, "added");
      m["i1"].push_back(Msg(x, v));
    }
    ProgM w;
    if (debug) w = q.receiveDebug(m); else w = q.receive(m);
    sameText(debug ? processMessageBufferDebug("p") : processMessageBuffer("p"), w, "buffer report");
  }
}
ENTRY(h_text_batch) {
  std::string s = selected(5, Filt{{"out", {"o1", "o2"}}, {"in", {"o2"}}});
  createProgram("p", s);
  Program q(s);
  bool debug = sym_choice("debug", 2);
  Times t;
  for (unsigned r = 0; r < 2; r++) {
    std::vector<T> ts;
    std::vector<V> vs;
    std::vector<std::string> ps;
    Map m;
    unsigned n = QT(3, 4);
    for (unsigned i = 0; i < n; i++) {
      ts.push_back(t.next());
      vs.push_back(sym_f64(Nm("v", r, "_", i)));
      ps.push_back(sym_choice(Nm("p", r, "_", i), 2) ? "i2" : "i1");
      m[ps[i]].push_back(Msg(ts[i], vs[i]));
    }
    ProgM w;
    if (debug) w = q.receiveDebug(m); else w = q.receive(m);
    sameText(debug ? processBatchDebug("p", ts, vs, ps) : processBatch("p", ts, vs, ps), w, "batch report");
  }
}
// a refused batch leaves nothing behind
ENTRY(h_text_bad_batch) {
  createProgram("p", sample(0));
  Program q(sample(0));
  unsigned a = sym_choice("times", 3), b = sym_choice("values", 3), c = sym_choice("ports", 3);
  bool debug = sym_choice("debug", 2);
  if (a == b && b == c) return;
  std::vector<T> ts;
  std::vector<V> vs;
  for (unsigned i = 0; i < a; i++) ts.push_back(10 + i);
  for (unsigned i = 0; i < b; i++) vs.push_back(sym_f64(Nm("v", i)));
  std::vector<std::string> ps(c, "i1");
  sym_check(throws([&] { if (debug) processBatchDebug("p", ts, vs, ps); else processBatch("p", ts, vs, ps); }), "vectors of different lengths are refused");
  sameText(processMessageBuffer("p"), ProgM(), "nothing was buffered");
  sym_check(throws([&] { processBatch("gone", {1}, {2}, {"i1"}); }), "an unknown program is refused");
  Map m = msg(50, sym_f64("w"));
  sameText(processMessageMap("p", m), q.receive(m), "the program is untouched");
}
ENTRY(h_text_manage) {
  std::string s = selected(5, Filt{{"out", {"o2", "o1"}}});
  sym_check(createProgram("p", s).empty(), "accepted");
  sym_check(createProgram("r", sample(0)).empty(), "accepted");
  Program q(s);
  sym_check(getProgramEntryOperatorId("p") == "in", "entry operator");
  sym_check(json::parse(getProgramEntryPorts("p")) == json::parse("[\"i1\",\"i2\"]"), "entry ports");
  sym_check(json::parse(getProgramOutputFilter("p")) == json::parse("{\"out\":[\"o2\",\"o1\"]}"), "output selection");
  V v = sym_f64("v");
  for (unsigned i = 0; i < 3; i++) {
    Map m = msg(10 + i / 2, v + i, i % 2 ? "i2" : "i1");
    sameText(processMessageMap("p", m), q.receive(m), "report");
  }
  Bytes b = serializeProgram("p");
  createProgram("c", b);
  Map m = msg(20, v);
  sameText(processMessageMap("c", m), q.receive(m), "the copy continues");
  sym_check(json::parse(deleteProgram("p")) == 1, "deleted");
  sym_check(json::parse(deleteProgram("p")) == 0, "already deleted");
  sameText(processMessageMap("p", m), ProgM(), "gone");
  sym_check(throws([&] { serializeProgram("p"); }), "gone");
  sym_check(throws([&] { getProgramEntryOperatorId("p"); }), "gone");
  sym_check(!processMessageMap("r", m).empty(), "the other one is there");
  std::string bad = createProgram("x", std::string("{\"entryOperator\":"));
  sym_check(json::parse(bad)["valid"] == false, "text that is not a program is rejected");
  sym_check(throws([&] { serializeProgram("x"); }), "and leaves nothing");
}
