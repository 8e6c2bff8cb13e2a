// C04 Demultiplexer: every data message is routed exactly as its control messages say, whatever the arrival order
#include "rt.h"
#include "rtbot/Demultiplexer.h"
typedef Demultiplexer<T, V> D;
static const char* CP[] = {"c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11", "c12"};
static const char* OP[] = {"o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8", "o9", "o10", "o11", "o12"};
struct Run {
  D d;
  unsigned np;
  std::vector<Msg> data;                 // data messages to deliver
  std::vector<std::vector<Msg>> cs;      // control messages per port
  std::vector<size_t> pos;               // delivered so far: [0] data, [1..] controls
  size_t done;
  Run(unsigned n) : d("d", n), np(n), cs(n), pos(n + 1, 0), done(0) {}
  bool left(unsigned s) { return s == 0 ? pos[0] < data.size() : pos[s] < cs[s - 1].size(); }
  // instruction for data message k on control port q, if already delivered
  bool instr(size_t k, unsigned q, V& v) {
    for (size_t i = 0; i < pos[q + 1]; i++) if (cs[q][i].time == data[k].time) { v = cs[q][i].value; return true; }
    return false;
  }
  void deliver(unsigned s) {
    ProgramMessage<T, V> out;
    if (s == 0) { d.receiveData(data[pos[0]++], "i1"); out = d.executeData(); }
    else { d.receiveControl(cs[s - 1][pos[s]], CP[s - 1]); pos[s]++; out = d.executeControl(); }
    bool rel = done < pos[0];
    std::vector<V> ins(np, 0);
    for (unsigned q = 0; rel && q < np; q++) rel = instr(done, q, ins[q]);
    for (unsigned q = 0; q < np; q++) {
      PM o = at(out, "d", OP[q]);
      bool want = rel && ins[q] == 1;
      sym_check(o.size() == (want ? 1u : 0u), "routed exactly to the ports instructed with 1, when the last instruction arrives");
      if (want && o.size() == 1) { sym_check(o[0].time == data[done].time, "time unchanged"); sym_check_same(o[0].value, data[done].value, "value unchanged"); sym_cover("routed"); }
      if (rel && !want) sym_cover("suppressed");
    }
    if (rel) done++;
  }
  void drain(const char* nm) {
    for (unsigned i = 0;; i++) {
      std::vector<unsigned> av;
      for (unsigned s = 0; s <= np; s++) if (left(s)) av.push_back(s);
      if (av.empty()) break;
      deliver(av[av.size() == 1 ? 0 : sym_choice(Nm(nm, i), av.size())]);
    }
    sym_check(done == data.size(), "every data message was routed");
  }
};
// all streams carry the same timestamps; every interleaving, every instruction
static void routed(unsigned np, unsigned n) {
  Run r(np);
  Times t;
  for (unsigned k = 0; k < n; k++) {
    T x = t.next();
    r.data.push_back(Msg(x, sym_f64(Nm("v", k))));
    for (unsigned q = 0; q < np; q++) r.cs[q].push_back(Msg(x, sym_f64i(Nm("c", k, "_", q), 0, 1)));
  }
  r.drain("s");
}
ENTRY(h_demux1) { routed(1, QT(4, 5)); }
ENTRY(h_demux2) { routed(2, 2); }
ENTRY(h_demux3) { routed(3, QT(1, 2)); }
// fixed instruction pattern, every interleaving of deeper queues
ENTRY(h_demux2_deep) {
  Run r(2);
  Times t;
  for (unsigned k = 0; k < 3; k++) {
    T x = t.next();
    r.data.push_back(Msg(x, sym_f64(Nm("v", k))));
    for (unsigned q = 0; q < 2; q++) r.cs[q].push_back(Msg(x, (V)((k + q) % 2)));
  }
  r.drain("s");
}
// control messages for times without data are discarded and never used for another data message
ENTRY(h_demux_extra_controls) {
  Run r(2);
  Times t;
  unsigned dataAt = sym_choice("dataAt", 3);
  for (unsigned k = 0; k < 3; k++) {
    T x = t.next();
    for (unsigned q = 0; q < 2; q++) if (k == dataAt || k < dataAt) r.cs[q].push_back(Msg(x, sym_f64i(Nm("c", k, "_", q), 0, 1)));
    if (k == dataAt) r.data.push_back(Msg(x, sym_f64("v")));
  }
  r.drain("s");
}
ENTRY(h_demux12) {
  Run r(12);
  T x = sym_u64("t", 0, ~0ull);
  r.data.push_back(Msg(x, sym_f64("v")));
  unsigned one = sym_choice("one", 13), late = sym_choice("late", 13);
  for (unsigned q = 0; q < 12; q++) r.cs[q].push_back(Msg(x, q == one ? 1 : 0));
  for (unsigned s = 0; s <= 12; s++) if (s != late) r.deliver(s);
  r.deliver(late);
  sym_check(r.done == 1, "routed");
}
// data far behind or far ahead of its instructions
ENTRY(h_demux_lag) {
  const unsigned N = QT(70, 150);
  Run r(2);
  T base = sym_u64("base", 0, (T)1 << 62);
  V c = sym_f64("c");
  for (unsigned i = 0; i < N; i++) {
    r.data.push_back(Msg(base + 3 * i, c + i));
    r.cs[0].push_back(Msg(base + 3 * i, i % 2));
    r.cs[1].push_back(Msg(base + 3 * i, i % 3 == 0));
  }
  unsigned o = sym_choice("order", 6);
  static const unsigned ord[][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  for (unsigned a = 0; a < 3; a++) while (r.left(ord[o][a])) r.deliver(ord[o][a]);
  sym_check(r.done == N, "every data message was routed");
}
// an instruction that is neither 0 nor 1, or no instruction for this time, is reported and routes nothing
ENTRY(h_demux_bad_instruction) {
  D d("d", 2);
  T t = sym_u64("t", 0, (T)1 << 62), tc = sym_u64("tc", 0, (T)1 << 62);
  V v = sym_f64("v"), c = sym_f64("c");
  unsigned bad = sym_choice("bad", 2);
  d.receiveData(Msg(t, v), "i1");
  d.executeData();
  bool threw = false;
  ProgM o;
  try { d.receiveControl(Msg(tc, c), CP[bad]); o = d.executeControl(); } catch (const std::exception&) { threw = true; }
  bool stale = tc < t, ok = tc == t && (c == 0 || c == 1);
  sym_check(o.empty(), "nothing is routed on a missing or malformed instruction");
  sym_check(threw == !(stale || ok), "a missing or malformed instruction is reported");
  if (threw) sym_cover("reported");
}
ENTRY(h_demux_ieee) {
  sym_fpmode(true);
  D d("d", 2);
  V v = sym_f64("v"), c = sym_f64("c");
  d.receiveControl(Msg(7, c), "c1"); d.executeControl();
  d.receiveControl(Msg(7, 1), "c2"); d.executeControl();
  ProgM o;
  bool threw = false;
  try { d.receiveData(Msg(7, v), "i1"); o = d.executeData(); } catch (const std::exception&) { threw = true; }
  bool valid = c == 0 || c == 1;
  sym_check(threw == !valid, "reported exactly when the instruction is neither 0 nor 1");
  sym_check(has(o, "d", "o1") == (c == 1), "routed to o1 exactly on 1");
  sym_check(has(o, "d", "o2") == valid, "routed to o2");
  if (has(o, "d", "o2")) { sym_check_same(at(o, "d", "o2")[0].value, v, "value unchanged"); sym_cover("routed"); }
}
