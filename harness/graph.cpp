// C05 every connection of an output port receives every message exactly once, whatever the order of the connections
#include "rt.h"
#include "rtbot/Demultiplexer.h"
#include "rtbot/Input.h"
#include "rtbot/Join.h"
#include "rtbot/Output.h"
#include "rtbot/std/Add.h"
#include "rtbot/std/Constant.h"
#include "rtbot/std/Count.h"
#include "rtbot/std/CumulativeSum.h"
#include "rtbot/std/Difference.h"
#include "rtbot/std/GreaterThan.h"
#include "rtbot/std/Identity.h"
#include "rtbot/std/LessThan.h"
#include "rtbot/std/Minus.h"
#include "rtbot/std/MovingAverage.h"
#include "rtbot/std/Plus.h"
#include "rtbot/std/Scale.h"
#include "rtbot/std/Variable.h"
typedef std::unique_ptr<Op> OpP;
static ProgM push(Op& o, T t, V v, const char* in = "i1") { o.receiveData(Msg(t, v), in); return o.executeData(); }
// a permutation of 0..n-1 chosen symbolically
static std::vector<unsigned> perm(const char* nm, unsigned n) {
  std::vector<unsigned> left, r;
  for (unsigned i = 0; i < n; i++) left.push_back(i);
  for (unsigned i = 0; i < n; i++) {
    unsigned k = left.size() == 1 ? 0 : sym_choice(Nm(nm, i), left.size());
    r.push_back(left[k]);
    left.erase(left.begin() + k);
  }
  return r;
}
static void one(const ProgM& m, const char* id, const char* port, T t, V v, const char* label) {
  PM o = at(m, id, port);
  sym_check(o.size() == 1, label);
  if (o.size() == 1) { sym_check(o[0].time == t, "fan-out time"); sym_check_same(o[0].value, v, "fan-out value"); sym_cover("delivered"); }
}
// one source, many children
ENTRY(h_fanout) {
  const unsigned K = 12;
  Input<T, V> in("in");
  static const char* ids[] = {"a", "b", "c", "d", "e", "f", "g", "h", "k", "l", "m", "n"};
  std::vector<OpP> kids;
  for (unsigned i = 0; i < K; i++) { kids.emplace_back(new Add<T, V>(ids[i], (V)i)); in.connect(kids.back().get()); }
  Times t;
  for (unsigned k = 0; k < 3; k++) {
    T x = t.next();
    V v = sym_f64(Nm("v", k));
    ProgM r = push(in, x, v);
    one(r, "in", "o1", x, v, "source emits once");
    for (unsigned i = 0; i < K; i++) one(r, ids[i], "o1", x, v + (V)i, "each child receives the message exactly once");
    sym_check(r.size() == K + 1, "nothing else emits");
  }
}
// ops with state are run once per message even when they sit behind several levels
ENTRY(h_fanout_stateful) {
  Input<T, V> in("in");
  Identity<T, V> id("id");
  Count<T, V> c1("c1"), c2("c2");
  CumulativeSum<T, V> s("s");
  MovingAverage<T, V> ma("ma", 2);
  std::vector<unsigned> p = perm("p", 4);
  in.connect(id);
  Op* kids[] = {&c1, &c2, &s, &ma};
  for (unsigned i : p) id.connect(kids[i]);
  V sum = 0, prev = 0;
  Times t;
  for (unsigned k = 0; k < 3; k++) {
    T x = t.next();
    V v = sym_f64(Nm("v", k));
    ProgM r = push(in, x, v);
    sum = sum + v;
    one(r, "c1", "o1", x, k + 1, "counted once");
    one(r, "c2", "o1", x, k + 1, "counted once");
    one(r, "s", "o1", x, sum, "summed once");
    if (k) { PM o = at(r, "ma", "o1"); sym_check(o.size() == 1 && o[0].time == x, "averaged once"); if (o.size() == 1) sym_check_close(o[0].value, (v + prev) / 2, 1e-9, "averaged once"); }
    else sym_check(!has(r, "ma", "o1"), "window not full");
    prev = v;
  }
}
// a diamond that meets again in a Join: the order in which the edges were added is irrelevant
ENTRY(h_diamond) {
  Input<T, V> in("in");
  Add<T, V> a("a", 5);
  Scale<T, V> s("s", 3);
  Join<T, V> j("j", 2);
  Output<T, V> out("out", 2);
  std::vector<unsigned> p = perm("p", 4);
  for (unsigned e : p) {
    if (e == 0) in.connect(a);
    if (e == 1) in.connect(s);
    if (e == 2) a.connect(j, "o1", "i1");
    if (e == 3) s.connect(j, "o1", "i2");
  }
  j.connect(out, "o1", "i1");
  j.connect(out, "o2", "i2");
  Times t;
  for (unsigned k = 0; k < 3; k++) {
    T x = t.next();
    V v = sym_f64(Nm("v", k));
    ProgM r = push(in, x, v);
    one(r, "j", "o1", x, v + 5, "joined once");
    one(r, "j", "o2", x, v * 3, "joined once");
    one(r, "out", "o1", x, v + 5, "output once");
    one(r, "out", "o2", x, v * 3, "output once");
  }
}
// branches of different depth and a branch that drops messages
ENTRY(h_branches) {
  Input<T, V> in("in");
  LessThan<T, V> lt("lt", 0);
  Identity<T, V> i1("i1"), i2("i2"), i3("i3");
  Plus<T, V> plus("plus");
  std::vector<unsigned> p = perm("p", 2);
  for (unsigned e : p) { if (e == 0) in.connect(lt); else in.connect(i1); }
  lt.connect(plus, "o1", "i1");
  i1.connect(i2); i2.connect(i3);
  i3.connect(plus, "o1", "i2");
  Times t;
  for (unsigned k = 0; k < 4; k++) {
    T x = t.next();
    V v = sym_f64(Nm("v", k));
    ProgM r = push(in, x, v);
    if (v < 0) one(r, "plus", "o1", x, v + v, "branches meet on the same message");
    else { sym_check(!has(r, "plus", "o1"), "no result where one branch dropped the message"); sym_cover("dropped"); }
  }
}
// the same output feeding both ports of one operator
ENTRY(h_same_source) {
  Input<T, V> in("in");
  Plus<T, V> plus("plus");
  Minus<T, V> minus("minus");
  Join<T, V> j("j", 3);
  std::vector<unsigned> p = perm("p", 3);
  static const char* ports[] = {"i1", "i2", "i3"};
  in.connect(plus, "o1", "i1"); in.connect(plus, "o1", "i2");
  in.connect(minus, "o1", "i2"); in.connect(minus, "o1", "i1");
  for (unsigned e : p) in.connect(j, "o1", ports[e]);
  Times t;
  for (unsigned k = 0; k < 3; k++) {
    T x = t.next();
    V v = sym_f64(Nm("v", k));
    ProgM r = push(in, x, v);
    one(r, "plus", "o1", x, v + v, "both ports see the message");
    one(r, "minus", "o1", x, v - v, "both ports see the message");
    one(r, "j", "o1", x, v, "three ports see the message");
    one(r, "j", "o2", x, v, "three ports see the message");
    one(r, "j", "o3", x, v, "three ports see the message");
  }
}
// data and control of one operator fed from the same source, edges in any order
ENTRY(h_data_and_control) {
  Input<T, V> in("in");
  Constant<T, V> one_("one", 1), zero("zero", 0);
  Demultiplexer<T, V> d("d", 2);
  Identity<T, V> a("a"), b("b");
  std::vector<unsigned> p = perm("p", 5);
  for (unsigned e : p) {
    if (e == 0) in.connect(one_);
    if (e == 1) in.connect(zero);
    if (e == 2) in.connect(d, "o1", "i1");
    if (e == 3) one_.connect(d, "o1", "c2");
    if (e == 4) zero.connect(d, "o1", "c1");
  }
  d.connect(a, "o1", "i1");
  d.connect(b, "o2", "i1");
  Times t;
  for (unsigned k = 0; k < 3; k++) {
    T x = t.next();
    V v = sym_f64(Nm("v", k));
    ProgM r = push(in, x, v);
    one(r, "d", "o2", x, v, "routed once");
    one(r, "b", "o1", x, v, "routed once");
    sym_check(!has(r, "d", "o1") && !has(r, "a", "o1"), "not routed to the other port");
  }
}
// several output ports, each with its own children; messages of one port never reach children of another
ENTRY(h_ports_separate) {
  Input<T, V> in("in", 3);
  Identity<T, V> k1("k1"), k2("k2"), k3("k3"), k4("k4");
  in.connect(k1, "o1", "i1"); in.connect(k2, "o2", "i1"); in.connect(k3, "o3", "i1"); in.connect(k4, "o2", "i1");
  static const char* ip[] = {"i1", "i2", "i3"};
  static const char* own[] = {"k1", "k2", "k3"};
  Times t;
  for (unsigned k = 0; k < 3; k++) {
    unsigned p = sym_choice(Nm("p", k), 3);
    T x = t.next();
    V v = sym_f64(Nm("v", k));
    ProgM r = push(in, x, v, ip[p]);
    for (unsigned q = 0; q < 3; q++) if (q == p) one(r, own[q], "o1", x, v, "child of the port receives"); else sym_check(!has(r, own[q], "o1"), "children of other ports stay silent");
    sym_check(has(r, "k4", "o1") == (p == 1), "both children of o2");
  }
}
// an operator that releases several messages at once: children see all of them, in order
struct Burst : public Op {
  unsigned n;
  Burst(unsigned k) : Op("burst"), n(k) { addDataInput("i1", 1); addOutput("o1"); }
  string typeName() const override { return "Burst"; }
  OperatorMessage<T, V> processData() override {
    OperatorMessage<T, V> r;
    PM v;
    Msg m = getDataInputLastMessage("i1");
    for (unsigned i = 0; i < n; i++) v.push_back(Msg(m.time + i, m.value + i));
    r.emplace("o1", v);
    return r;
  }
};
ENTRY(h_burst) {
  unsigned n = 1 + sym_choice("n", 5);
  Burst b(n);
  CumulativeSum<T, V> s("s");
  Count<T, V> c("c");
  Join<T, V> j("j", 2);
  std::vector<unsigned> p = perm("p", 2);
  for (unsigned e : p) b.connect(e ? (Op*)&s : (Op*)&c);
  s.connect(j, "o1", "i1"); c.connect(j, "o1", "i2");
  T x = sym_u64("t", 0, (T)1 << 60);
  V v = sym_f64("v"), sum = 0;
  ProgM r = push(b, x, v);
  PM ps = at(r, "s", "o1"), pc = at(r, "c", "o1"), pb = at(r, "burst", "o1"), j1 = at(r, "j", "o1"), j2 = at(r, "j", "o2");
  sym_check(ps.size() == n && pc.size() == n && pb.size() == n && j1.size() == n && j2.size() == n, "every message of a burst reaches every descendant");
  for (unsigned i = 0; i < n && ps.size() == n && pc.size() == n && pb.size() == n && j1.size() == n; i++) {
    sum = sum + v + i;
    sym_check(pb[i].time == x + i && ps[i].time == x + i && pc[i].time == x + i && j1[i].time == x + i, "burst order");
    sym_check_same(ps[i].value, sum, "burst value");
    sym_check_same(pc[i].value, i + 1, "burst count");
    sym_check_same(j1[i].value, sum, "burst join value");
    sym_cover("delivered");
  }
}
// a burst longer than any count kept in 8 bits
ENTRY(h_burst_long) {
  const unsigned n = QT(700, 3000);
  Burst b(n);
  CumulativeSum<T, V> s("s");
  Count<T, V> c("c");
  b.connect(s); s.connect(c);
  T x = sym_u64("t", 0, (T)1 << 60);
  V v = sym_f64("v"), sum = 0;
  ProgM r = push(b, x, v);
  PM ps = at(r, "s", "o1"), pc = at(r, "c", "o1"), pb = at(r, "burst", "o1");
  sym_check(ps.size() == n && pc.size() == n && pb.size() == n, "every message of a burst reaches every descendant");
  for (unsigned i = 0; i < n && ps.size() == n && pc.size() == n && pb.size() == n; i++) {
    sum = sum + v + i;
    sym_check(pb[i].time == x + i && ps[i].time == x + i && pc[i].time == x + i, "burst order");
    sym_check_same(ps[i].value, sum, "burst value");
    sym_check_same(pc[i].value, i + 1, "burst count");
    sym_cover("delivered");
  }
}
// bursts with arbitrary times, also equal and falling ones: nothing is merged, dropped or reordered
struct AnyBurst : public Op {
  PM v;
  AnyBurst() : Op("burst") { addDataInput("i1", 1); addOutput("o1"); }
  string typeName() const override { return "AnyBurst"; }
  OperatorMessage<T, V> processData() override { OperatorMessage<T, V> r; r.emplace("o1", v); return r; }
};
ENTRY(h_burst_any) {
  AnyBurst b;
  Count<T, V> c("c");
  Identity<T, V> k("k");
  b.connect(k); k.connect(c);
  unsigned n = 1 + sym_choice("n", 4);
  for (unsigned i = 0; i < n; i++) b.v.push_back(Msg(sym_u64(Nm("t", i), 0, ~(T)0), sym_f64(Nm("v", i))));
  for (unsigned round = 0; round < 2; round++) {
    ProgM r = push(b, 1 + round, 0);
    PM pb = at(r, "burst", "o1"), pk = at(r, "k", "o1"), pc = at(r, "c", "o1");
    sym_check(pb.size() == n && pk.size() == n && pc.size() == n, "every message of a burst is delivered");
    for (unsigned i = 0; i < n && pb.size() == n && pk.size() == n && pc.size() == n; i++) {
      sym_check(pb[i].time == b.v[i].time && pk[i].time == b.v[i].time && pc[i].time == b.v[i].time, "burst order");
      sym_check_same(pk[i].value, b.v[i].value, "burst value");
      sym_check_same(pc[i].value, round * n + i + 1, "burst count");
      sym_cover("delivered");
    }
  }
}
// an operator fed by one output on several data and control ports: every edge delivers, whatever their order
struct Both : public Op {
  PM seen[4];
  Both() : Op("both") { addDataInput("i1", 1); addDataInput("i2", 1); addControlInput("c1"); addControlInput("c2"); addOutput("o1"); addOutput("o2"); }
  string typeName() const override { return "Both"; }
  OperatorMessage<T, V> processData() override {
    OperatorMessage<T, V> r;
    PM v;
    for (auto& p : toProcess) { v.push_back(getDataInputLastMessage(p)); seen[p == "i1" ? 0 : 1].push_back(v.back()); }
    r.emplace("o1", v);
    return r;
  }
  OperatorMessage<T, V> processControl() override {
    OperatorMessage<T, V> r;
    PM v;
    for (auto& c : controlInputs) while (!c.second.empty()) { v.push_back(c.second.front()); seen[c.first == "c1" ? 2 : 3].push_back(v.back()); c.second.pop_front(); }
    if (!v.empty()) r.emplace("o2", v);
    return r;
  }
};
ENTRY(h_edge_kinds) {
  Input<T, V> in("in");
  Both b;
  Count<T, V> n1("n1"), n2("n2");
  static const char* ports[] = {"i1", "i2", "c1", "c2"};
  unsigned used = 1 + sym_choice("used", 15);
  std::vector<unsigned> p = perm("p", 4);
  for (unsigned e : p) if (used >> e & 1) in.connect(b, "o1", ports[e]);
  b.connect(n1, "o1", "i1"); b.connect(n2, "o2", "i1");
  Times t;
  unsigned k1 = 0, k2 = 0;
  for (unsigned k = 0; k < 2; k++) {
    T x = t.next();
    V v = sym_f64(Nm("v", k));
    ProgM r = push(in, x, v);
    for (unsigned e = 0; e < 4; e++) {
      sym_check(b.seen[e].size() == (used >> e & 1 ? k + 1 : 0), "each edge delivers exactly once");
      if (b.seen[e].size() == k + 1) { sym_check(b.seen[e][k].time == x, "each edge delivers the message"); sym_check_same(b.seen[e][k].value, v, "each edge delivers the message"); }
    }
    unsigned d = (used & 1) + (used >> 1 & 1), c = (used >> 2 & 1) + (used >> 3 & 1);
    PM o1 = at(r, "both", "o1"), o2 = at(r, "both", "o2"), q1 = at(r, "n1", "o1"), q2 = at(r, "n2", "o1");
    sym_check(o1.size() == d && o2.size() == c && q1.size() == d && q2.size() == c, "what it emits is passed on");
    k1 += d; k2 += c;
    if (d && q1.size() == d) sym_check_same(q1.back().value, k1, "counted");
    if (c && q2.size() == c) sym_check_same(q2.back().value, k2, "counted");
    sym_cover("delivered");
  }
}
// deep chain: every stage forwards exactly once
ENTRY(h_chain) {
  const unsigned K = QT(40, 60);
  Input<T, V> in("in");
  std::vector<OpP> ch;
  for (unsigned i = 0; i < K; i++) { ch.emplace_back(new Add<T, V>(std::string("n") + std::to_string(i), 1)); (i ? ch[i - 1].get() : (Op*)&in)->connect(ch[i].get()); }
  Times t;
  for (unsigned k = 0; k < 2; k++) {
    T x = t.next();
    V v = sym_f64(Nm("v", k));
    ProgM r = push(in, x, v);
    for (unsigned i = 0; i < K; i++) { PM o = at(r, ch[i]->id, "o1"); sym_check(o.size() == 1 && o[0].time == x, "chain stage emits once"); if (o.size() == 1) sym_check_same(o[0].value, v + (V)(i + 1), "chain value"); }
    sym_cover("delivered");
  }
}
