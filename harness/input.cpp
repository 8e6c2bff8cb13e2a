// C01 Input / Output gates
#include "rt.h"
#include "rtbot/Input.h"
#include "rtbot/Output.h"
typedef Input<T, V> In;
typedef Output<T, V> Out;
// arbitrary (unordered, duplicated) timestamps over the whole 64-bit range, one port
static void gate(unsigned n) {
  In in("in");
  bool any = false; T last = 0;
  for (unsigned i = 0; i < n; i++) {
    T t = sym_u64(Nm("t", i), 0, ~0ull);
    V v = sym_f64(Nm("v", i));
    PM o = feed(in, t, v);
    bool newer = !any || t > last;
    sym_check(o.size() == (newer ? 1u : 0u), "forwards exactly the newer messages");
    if (newer && o.size() == 1) {
      sym_check(o[0].time == t, "time unchanged");
      sym_check_same(o[0].value, v, "value unchanged");
      sym_cover("forwarded");
    }
    if (newer) { last = t; any = true; } else sym_cover("dropped");
  }
}
ENTRY(h_gate_one_port) { gate(QT(7, 9)); }
// several ports: each is gated on its own
static void ports(unsigned np, unsigned n) {
  In in("in", np);
  std::vector<bool> any(np, false); std::vector<T> last(np, 0);
  static const char* ip[] = {"i1", "i2", "i3", "i4", "i5", "i6", "i7", "i8", "i9", "i10", "i11", "i12"};
  static const char* op[] = {"o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8", "o9", "o10", "o11", "o12"};
  for (unsigned i = 0; i < n; i++) {
    unsigned p = sym_choice(Nm("p", i), np);
    T t = sym_u64(Nm("t", i), 0, ~0ull);
    V v = sym_f64(Nm("v", i));
    in.receiveData(Msg(t, v), ip[p]);
    ProgM r = in.executeData();
    bool newer = !any[p] || t > last[p];
    for (unsigned q = 0; q < np; q++) {
      PM o = at(r, "in", op[q]);
      if (q != p) { sym_check(o.empty(), "other ports silent"); continue; }
      sym_check(o.size() == (newer ? 1u : 0u), "port gated by its own history");
      if (newer && o.size() == 1) { sym_check(o[0].time == t, "time unchanged"); sym_check_same(o[0].value, v, "value unchanged"); sym_cover("forwarded"); }
    }
    if (newer) { last[p] = t; any[p] = true; } else sym_cover("dropped");
  }
}
ENTRY(h_gate_two_ports) { ports(2, QT(5, 6)); }
ENTRY(h_gate_three_ports) { ports(3, QT(4, 5)); }
ENTRY(h_gate_many_ports) { ports(12, 2); }
// a batch received on several ports before the operator runs
ENTRY(h_gate_batch) {
  In in("in", 2);
  T a[2] = {0, 0}; bool any = false;
  for (unsigned i = 0; i < 3; i++) {
    T t1 = sym_u64(Nm("a", i), 0, ~0ull), t2 = sym_u64(Nm("b", i), 0, ~0ull);
    V v1 = sym_f64(Nm("x", i)), v2 = sym_f64(Nm("y", i));
    in.receiveData(Msg(t1, v1), "i1");
    in.receiveData(Msg(t2, v2), "i2");
    ProgM r = in.executeData();
    PM o1 = at(r, "in", "o1"), o2 = at(r, "in", "o2");
    bool n1 = !any || t1 > a[0], n2 = !any || t2 > a[1];
    sym_check(o1.size() == (n1 ? 1u : 0u) && o2.size() == (n2 ? 1u : 0u), "both ports of a batch gated");
    if (n1 && o1.size() == 1) { sym_check(o1[0].time == t1, "time unchanged"); sym_check_same(o1[0].value, v1, "value unchanged"); }
    if (n2 && o2.size() == 1) { sym_check(o2[0].time == t2, "time unchanged"); sym_check_same(o2[0].value, v2, "value unchanged"); sym_cover("forwarded"); }
    if (n1) a[0] = t1;
    if (n2) a[1] = t2;
    any = true;
  }
}
// long increasing stream with one symbolic disturbance anywhere: nothing is ever lost, the disturbance is judged exactly
ENTRY(h_gate_long) {
  In in("in");
  const unsigned N = QT(60, 200);
  T base = sym_u64("base", 0, (T)1 << 62);
  T x = sym_u64("x", 0, ~0ull);
  T last = 0;
  for (unsigned i = 0; i < N; i++) {
    T t = i == N / 2 ? x : base + 10 * (T)i;
    V v = (V)i;
    bool newer = i == 0 || t > last;
    PM o = feed(in, t, v);
    sym_check(o.size() == (newer ? 1u : 0u), "forwards exactly the newer messages");
    if (newer && o.size() == 1) sym_check(o[0].time == t && o[0].value == v, "message unchanged");
    if (newer) last = t; else sym_cover("dropped");
  }
}
ENTRY(h_output_passes) {
  const unsigned np = 3;
  Out out("out", np);
  static const char* ip[] = {"i1", "i2", "i3"};
  static const char* op[] = {"o1", "o2", "o3"};
  for (unsigned i = 0; i < QT(4, 5); i++) {
    unsigned p = sym_choice(Nm("p", i), np);
    T t = sym_u64(Nm("t", i), 0, ~0ull);
    V v = sym_f64(Nm("v", i));
    out.receiveData(Msg(t, v), ip[p]);
    ProgM r = out.executeData();
    for (unsigned q = 0; q < np; q++) {
      PM o = at(r, "out", op[q]);
      sym_check(o.size() == (q == p ? 1u : 0u), "Output forwards on the matching port only");
      if (q == p && o.size() == 1) { sym_check(o[0].time == t, "time unchanged"); sym_check_same(o[0].value, v, "value unchanged"); sym_cover("forwarded"); }
    }
  }
}
// IEEE values: NaN, infinities, signed zeros and denormals pass the gates bit for bit (as far as == and isnan see)
ENTRY(h_gate_ieee) {
  sym_fpmode(true);
  In in("in"); Out out("out");
  T t = 1;
  for (unsigned i = 0; i < 3; i++, t++) {
    V v = sym_f64(Nm("v", i));
    PM o = feed(in, t, v);
    sym_check(o.size() == 1, "forwarded whatever the value");
    if (o.size() == 1) { sym_check_same(o[0].value, v, "value unchanged"); PM z = feed(out, o[0].time, o[0].value); sym_check(z.size() == 1, "Output forwards"); if (z.size() == 1) { sym_check_same(z[0].value, v, "value unchanged"); sym_cover("out"); } }
  }
}
