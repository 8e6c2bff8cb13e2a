// A06 programs side by side, A07 the message buffer
#include "prog.h"
// what one id holds if it were alone
struct Solo { std::unique_ptr<Program> p; };
static const char* const IDS[] = {"ab", "abc", "b", "a"};  // prefixes of one another; the last is never created
static const char* const NEVER[] = {"", "abcd", "AB", "bc"};
static unsigned defOf(unsigned id) { static const unsigned d[] = {1, 5, 1, 0}; return d[id]; }
struct World {
  FactoryOp f;
  Solo s[4];
  T t = 100;
  unsigned n = 0;
  void create(unsigned id, unsigned k) {
    bool existed = (bool)s[id].p;
    f.createProgram(IDS[id], sample(k));
    if (!existed) s[id].p.reset(new Program(sample(k)));
  }
  void remove(unsigned id) {
    sym_check(f.deleteProgram(IDS[id]) == (bool)s[id].p, "deleting reports whether the program existed");
    s[id].p.reset();
  }
  void send(unsigned id, bool debug, unsigned port = 0) {
    Map m = msg(++t, sym_f64r(Nm("v", n++), -100, 100), port ? "i2" : "i1");
    ProgM a = debug ? f.processMessageMapDebug(IDS[id], m) : f.processMessageMap(IDS[id], m), b;
    if (s[id].p) { b = debug ? s[id].p->receiveDebug(m) : s[id].p->receive(m); if (b.size() > 2) sym_cover("served"); } else sym_cover("absent");
    sameProg(a, b, "reports what it would report alone");
  }
  void query(unsigned id) {
    if (s[id].p) {
      sym_check(f.getProgramEntryOperatorId(IDS[id]) == s[id].p->getProgramEntryOperatorId(), "entry operator of its own");
      sym_check(f.getProgramEntryPorts(IDS[id]) == s[id].p->getProgramEntryPorts(), "entry ports of its own");
      sym_check(f.getProgramOutputFilter(IDS[id]) == s[id].p->getProgramOutputFilter(), "output selection of its own");
    } else {
      sym_check(throws([&] { f.getProgramEntryOperatorId(IDS[id]); }), "an absent id is reported");
      sym_check(throws([&] { f.getProgramEntryPorts(IDS[id]); }), "an absent id is reported");
      sym_check(throws([&] { f.getProgramOutputFilter(IDS[id]); }), "an absent id is reported");
      sym_check(throws([&] { f.serialize(IDS[id]); }), "an absent id is reported");
      sym_check(throws([&] { f.addToMessageBuffer(IDS[id], "i1", Msg(1, 2)); }), "an absent id is reported");
      sym_check(throws([&] { f.processMessageBuffer(IDS[id]); }), "an absent id is reported");
      sym_check(throws([&] { f.processMessageBufferDebug(IDS[id]); }), "an absent id is reported");
    }
  }
  void move(unsigned from, unsigned to) {
    if (!s[from].p || s[to].p) return;
    Bytes b = f.serialize(IDS[from]);
    f.createProgram(IDS[to], b);
    s[to].p.reset(new Program(s[from].p->serialize()));
  }
  void step(unsigned a) {
    switch (a) {
      case 0: send(0, false); break;
      case 1: send(1, false, 0); break;
      case 2: send(1, true, 1); --t; break;
      case 3: send(2, false); break;
      case 4: remove(0); break;
      case 5: remove(1); break;
      case 6: create(0, 0); break;
      case 7: create(2, 1); break;
      case 8: move(0, 2); break;
      default: create(1, 5);
    }
  }
};
static void side(unsigned first) {
  World w;
  w.create(0, 1);
  w.create(1, 5);
  w.send(0, true);
  w.send(1, true);
  w.step(first);
  for (unsigned i = 1; i < QT(3, 4); i++) w.step(sym_choice(Nm("a", i), 10));
  w.query(0); w.query(1); w.query(2); w.query(3);
  for (unsigned i = 0; i < 3; i++) w.send(i, false);
  w.send(0, true);
  for (auto* id : NEVER) {
    sym_check(throws([&] { w.f.getProgramEntryOperatorId(id); }), "an absent id is reported");
    Map m = msg(++w.t, 1, "i1");
    sym_check(w.f.processMessageMap(id, m).empty() && w.f.processMessageMapDebug(id, m).empty(), "an absent program says nothing");
    sym_check(!w.f.deleteProgram(id), "deleting reports whether the program existed");
  }
  w.send(3, false);
  w.send(3, true);
  w.send(0, true);
  w.send(1, true);
}
#define SIDE(n) ENTRY(h_side##n) { side(n); }
SIDE(0) SIDE(1) SIDE(2) SIDE(3) SIDE(4) SIDE(5) SIDE(6) SIDE(7) SIDE(8) SIDE(9)
// the same definition under three ids, every order of six messages
ENTRY(h_same_definition) {
  FactoryOp f;
  unsigned k = sym_choice("prog", 8);
  std::vector<std::unique_ptr<Program>> s;
  for (unsigned i = 0; i < 3; i++) { f.createProgram(IDS[i], sample(k)); s.emplace_back(new Program(sample(k))); }
  T t[3] = {10, 10, 10};
  for (unsigned i = 0; i < QT(5, 6); i++) {
    unsigned id = sym_choice(Nm("id", i), i < 2 ? i + 1 : 3);
    V v = i % 2 ? (V)(i * 3 % 7) - 1.5 : sym_f64r(Nm("v", i), -100, 100);
    Map m = msg(++t[id], v, twoPorts(k) && i % 2 ? "i2" : "i1");
    ProgM a, b;
    bool x = tryX([&] { return f.processMessageMap(IDS[id], m); }, a), y = tryX([&] { return s[id]->receive(m); }, b);
    sym_check(x == y, "same errors");
    sameProg(a, b, "reports what it would report alone");
    if (a.size() > 2) sym_cover("served");
  }
}
// ---------------------------------------------------------------- A07
struct Buf {
  FactoryOp f;                                          // used through the buffer
  std::unique_ptr<Program> d[2];                        // fed directly
  std::map<std::string, std::vector<Msg>> pending[2];   // by port
  T t = 100;
  unsigned n = 0;
  std::string def[2];
  Buf() {
    json j = json::parse(sample(5));
    j["output"] = Filt{{"out", {"o1", "o2"}}, {"in", {"o2"}}};
    def[0] = j.dump();
    def[1] = sample(0);
    for (unsigned i = 0; i < 2; i++) create(i);
  }
  void create(unsigned i) { f.createProgram(IDS[i], def[i]); d[i].reset(new Program(def[i])); pending[i].clear(); }
  void add(unsigned i, const char* port) {
    Msg m(t, sym_f64r(Nm("v", n++), -100, 100));
    t += 1;
    if (!d[i]) { sym_check(throws([&] { f.addToMessageBuffer(IDS[i], port, m); }), "buffering for an absent program is reported"); return; }
    sym_check(f.addToMessageBuffer(IDS[i], port, m), "added");
    pending[i][port].push_back(m);
  }
  void process(unsigned i, bool debug) {
    ProgM a, b;
    bool x = tryX([&] { return debug ? f.processMessageBufferDebug(IDS[i]) : f.processMessageBuffer(IDS[i]); }, a);
    bool y = !d[i];
    if (d[i])
      for (auto& p : pending[i])
        for (auto& m : p.second) {
          if (y) continue;
          ProgM r;
          Map mm;
          mm[p.first].push_back(m);
          y = tryX([&] { return debug ? d[i]->receiveDebug(mm) : d[i]->receive(mm); }, r);
          if (y) { b.clear(); continue; }
          for (auto& o : r) for (auto& q : o.second) append(b[o.first][q.first], q.second);
        }
    sym_check(x == y, "refused exactly when a direct message is");
    sameProg(a, b, "same reports as sending directly");
    if (!b.empty()) sym_cover("reported");
    pending[i].clear();
  }
  void remove(unsigned i) { f.deleteProgram(IDS[i]); d[i].reset(); pending[i].clear(); }
  void step(unsigned a) {
    switch (a) {
      case 0: add(0, "i1"); break;
      case 1: add(0, "i2"); break;
      case 2: add(1, "i1"); break;
      case 3: process(0, false); break;
      case 4: process(1, true); break;
      case 5: remove(0); break;
      case 6: if (!d[0]) create(0); else remove(1); break;
      case 7: add(0, "i9"); break;  // no such port: refused when processed
      default: process(0, true);
    }
  }
};
static void buffered(unsigned first) {
  Buf w;
  w.add(0, "i1");
  w.step(first);
  for (unsigned i = 1; i < QT(4, 5); i++) w.step(sym_choice(Nm("a", i), 9));
  w.process(0, false);
  w.process(1, false);
  w.process(0, true);
}
#define BUF(n) ENTRY(h_buffer##n) { buffered(n); }
BUF(0) BUF(1) BUF(2) BUF(3) BUF(4) BUF(5) BUF(6) BUF(7) BUF(8)
// many messages on both ports in one go, with arbitrary times
// times in any order, also repeated ones
ENTRY(h_buffer_any) {
  Buf w;
  for (unsigned i = 0; i < QT(4, 5); i++) { w.t = 10 + 2 * sym_choice(Nm("s", i), 3); w.add(0, sym_choice(Nm("p", i), 2) ? "i2" : "i1"); }
  w.process(0, true);
  w.process(0, true);
}
// port names the program does not have, the empty one included: refused when processed, as directly
ENTRY(h_buffer_port) {
  Buf w;
  const char* PORTS[] = {"i1", "", "i", "i9", "c1", "I1"};
  unsigned id = sym_choice("id", 2);
  for (unsigned i = 0; i < 3; i++) { w.t = 10 + 2 * i; w.add(id, PORTS[sym_choice(Nm("p", i), 6)]); }
  w.process(id, sym_choice("d", 2));
  w.add(id, "i1");
  w.process(id, true);
}
ENTRY(h_buffer_one) {
  Buf w;
  for (unsigned i = 0; i < QT(4, 6); i++) { w.t = sym_u64(Nm("s", i), 0, ~(T)0); w.add(1, "i1"); }
  w.process(1, false);
  w.process(1, false);
}
// entries that take every message, also repeated ones, and report nothing for many
ENTRY(h_buffer_entry) {
  unsigned k = sym_choice("entry", 6);
  std::string text;
  switch (k) {
    case 0: text = prog("e", {op("MovingAverage", "e", "n", 3)}, {}); break;
    case 1: text = prog("e", {op("Count", "e"), op("GreaterThan", "g", "value", 3)}, {con("e", "g")}, Filt{{"g", {"o1"}}}); break;
    case 2: text = prog("e", {op("GreaterThan", "e", "value", 0), op("CumulativeSum", "s")}, {con("e", "s")}); break;
    case 3: text = prog("e", {op("Join", "e", "numPorts", 2), op("Plus", "z")}, {con("e", "z"), con("e", "z", "o2", "i2")}); break;
    case 4: text = prog("e", {op("CumulativeSum", "e"), op("Difference", "d")}, {con("e", "d")}, Filt{{"d", {"o1"}}}); break;
    default: text = prog("e", {op("ConstantResampler", "e", "interval", 5), op("Count", "c")}, {con("e", "c")}); break;
  }
  Buf w;
  w.remove(0);
  w.def[0] = text;
  w.create(0);
  bool two = k == 3;
  for (unsigned i = 0; i < QT(4, 5); i++) {
    w.t = i && !sym_choice(Nm("s", i), 2) ? w.t - 1 : w.t + 2;  // repeated or later
    w.add(0, two && i % 2 ? "i2" : "i1");
    unsigned c = sym_choice(Nm("a", i), 3);
    if (c) w.process(0, c == 2);
  }
  w.process(0, false);
  w.process(0, true);
}
// more messages than 8 bits count
ENTRY(h_buffer_long) {
  Buf w;
  w.remove(0);
  w.def[0] = prog("e", {op("CumulativeSum", "e"), op("Count", "c")}, {con("e", "c")});
  w.create(0);
  FactoryOp& f = w.f;
  V x = sym_f64r("x", -100, 100), sum = 0;
  const unsigned n = QT(300, 1000);
  for (unsigned i = 0; i < n; i++) f.addToMessageBuffer(IDS[0], "i1", Msg(5 + i, x + i));
  ProgM r = f.processMessageBuffer(IDS[0]);
  PM e = at(r, "e", "o1"), c = at(r, "c", "o1");
  sym_check(e.size() == n && c.size() == n, "every buffered message is processed once");
  for (unsigned i = 0; i < n && e.size() == n && c.size() == n; i++) {
    sum = sum + (x + i);
    sym_check(e[i].time == 5 + i && c[i].time == 5 + i, "in order");
    sym_check_same(e[i].value, sum, "report time"); sym_check_same(c[i].value, i + 1, "report value");
    sym_cover("reported");
  }
  sym_check(f.processMessageBuffer(IDS[0]).empty(), "processed once");
}
ENTRY(h_buffer_many) {
  Buf w;
  Times t("s");
  for (unsigned i = 0; i < QT(6, 8); i++) { w.t = t.next(); w.add(0, sym_choice(Nm("p", i), 2) ? "i2" : "i1"); }
  w.process(0, true);
  w.process(0, true);
}
