// S02 TimeShift, S03 Difference, S04 Count and CumulativeSum
#include "rt.h"
#include "rtbot/std/Count.h"
#include "rtbot/std/CumulativeSum.h"
#include "rtbot/std/Difference.h"
#include "rtbot/std/TimeShift.h"
static void shift(Op& o, T t, V v, int64_t by, const char* tag) {
  PM r = feed(o, t, v);
  sym_check(r.size() == 1, "exactly one message per message");
  if (r.size() != 1) return;
  int64_t e = (int64_t)t + by;
  sym_check(r[0].time == (e > 0 ? (T)e : 0), "timestamp moved by dt*times, not below zero");
  sym_check_same(r[0].value, v, "value unchanged");
  sym_cover(e > 0 ? "moved" : "clamped");
}
// dt and times arbitrary within the bound, times per path
static void timeshift(int times) {
  T dt = sym_u64("dt", 0, (T)1 << 40);
  TimeShift<T, V> o("s", dt, times);
  for (unsigned i = 0; i < 3; i++) shift(o, sym_u64(Nm("t", i), 0, (T)1 << 62), sym_f64(Nm("v", i)), (int64_t)dt * times, "");
}
ENTRY(h_shift_p1) { timeshift(1); }
ENTRY(h_shift_p3) { timeshift(3); }
ENTRY(h_shift_zero) { timeshift(0); }
ENTRY(h_shift_m1) { timeshift(-1); }
ENTRY(h_shift_m7) { timeshift(-7); }
// negative dt
static void negdt(int times) {
  int64_t dt = -(int64_t)sym_u64("dt", 0, (T)1 << 40);
  TimeShift<T, V> o("s", (T)dt, times);
  for (unsigned i = 0; i < 3; i++) shift(o, sym_u64(Nm("t", i), 0, (T)1 << 62), sym_f64(Nm("v", i)), dt * times, "");
}
ENTRY(h_shift_neg) { negdt(1); }
ENTRY(h_shift_neg2) { negdt(2); }
ENTRY(h_shift_negneg) { negdt(-2); }
ENTRY(h_shift_times) {
  int times = (int)sym_u64("times", 0, 200) - 100;
  static const int64_t dts[] = {1, 2, 1000, 86400000000ll, -1, -30, 5000000000ll};
  int64_t dt = dts[sym_choice("dt", 7)];
  TimeShift<T, V> o("s", (T)dt, times);
  shift(o, sym_u64("t0", 0, (T)1 << 62), sym_f64("v0"), dt * times, "");
  shift(o, sym_u64("t1", 0, (T)1 << 62), sym_f64("v1"), dt * times, "");
}
ENTRY(h_shift_defaults) {
  TimeShift<T, V> o("s");
  shift(o, sym_u64("t0", 0, (T)1 << 62), sym_f64("v0"), 1, "");
  T dt = sym_u64("dt", 0, (T)1 << 40);
  TimeShift<T, V> p("s", dt);
  shift(p, 5, 1, dt, "");
}
ENTRY(h_shift_long) {
  int64_t dt = 11;
  TimeShift<T, V> o("s", (T)dt, -3);
  V x = sym_f64("x");
  for (unsigned i = 1; i <= QT(1100, 4000); i++) shift(o, i, x + i, -33, "");
}

static void diff(int mode, bool ieee, unsigned n) {
  std::unique_ptr<Op> o(mode == 2 ? new Difference<T, V>("d") : new Difference<T, V>("d", mode == 1));
  T t = ieee ? 17 : sym_u64("base", 0, (T)1 << 62), pt = 0;
  V pv = 0;
  for (unsigned i = 0; i < n; i++) {
    V v = sym_f64(Nm("v", i));
    PM r = feed(*o, t, v);
    sym_check(r.size() == (i ? 1u : 0u), "one message per message after the first");
    if (i && r.size() == 1) {
      sym_check(r[0].time == (mode ? t : pt), "timestamp of the configured message");
      sym_check_same(r[0].value, v - pv, "newer minus older value");
      sym_cover("out");
    }
    pv = v; pt = t;
    t = t + (ieee ? 5 : sym_u64(Nm("g", i), 1, (T)1 << 40));
  }
}
ENTRY(h_diff) { diff(1, false, QT(6, 12)); }
ENTRY(h_diff_default) { diff(2, false, 4); }
ENTRY(h_diff_other) { diff(0, false, QT(6, 12)); }
ENTRY(h_diff_ieee) { sym_fpmode(true); diff(1, true, 3); }
ENTRY(h_diff_other_ieee) { sym_fpmode(true); diff(0, true, 3); }
static void diffLong(bool newer) {
  Difference<T, V> o("d", newer);
  V x = sym_f64("x"), y = sym_f64("y"), pv = 0;
  T pt = 0;
  for (unsigned i = 1; i <= QT(1100, 4000); i++) {
    V v = i % 3 ? x * (V)(i % 7) : y + (V)i;
    T t = (T)i * i;
    PM r = feed(o, t, v);
    if (i > 1) {
      sym_check(r.size() == 1, "one message per message after the first");
      if (r.size() == 1) { sym_check(r[0].time == (newer ? t : pt), "timestamp of the configured message"); sym_check_same(r[0].value, v - pv, "newer minus older value"); }
    } else sym_check(r.empty(), "one message per message after the first");
    pv = v; pt = t;
  }
}
ENTRY(h_diff_long) { diffLong(true); }
ENTRY(h_diff_other_long) { diffLong(false); }

ENTRY(h_count) {
  Count<T, V> o("c");
  T t = sym_u64("base", 0, (T)1 << 62);
  for (unsigned i = 0; i < QT(6, 10); i++) {
    PM r = feed(o, t, sym_f64(Nm("v", i)));
    sym_check(r.size() == 1 && r[0].time == t, "one message per message, timestamp kept");
    if (r.size() == 1) sym_check_same(r[0].value, (double)(i + 1), "k for the k-th message");
    t = t + sym_u64(Nm("g", i), 1, (T)1 << 40);
    sym_cover("out");
  }
}
ENTRY(h_count_long) {
  Count<T, V> o("c");
  V x = sym_f64("x");
  for (unsigned i = 1; i <= QT(66000, 150000); i++) {
    PM r = feed(o, i, i % 11 ? x : 0);
    sym_check(r.size() == 1 && r[0].time == i && r[0].value == (V)i, "k for the k-th message");
  }
}
static void cumsum(bool ieee, unsigned n) {
  CumulativeSum<T, V> o("c");
  T t = sym_u64("base", 0, (T)1 << 62);
  V s = 0;
  for (unsigned i = 0; i < n; i++) {
    V v = sym_f64(Nm("v", i));
    s = s + v;
    PM r = feed(o, t, v);
    sym_check(r.size() == 1 && r[0].time == t, "one message per message, timestamp kept");
    if (r.size() == 1) { if (!ieee) sym_check_same(r[0].value, s, "sum of all values so far"); }
    t = t + sym_u64(Nm("g", i), 1, (T)1 << 40);
    sym_cover("out");
  }
}
ENTRY(h_cumsum) { cumsum(false, QT(10, 30)); }
ENTRY(h_cumsum_long) {
  CumulativeSum<T, V> o("c");
  V x = sym_f64("x"), y = sym_f64("y"), s = 0;
  for (unsigned i = 1; i <= QT(2100, 6000); i++) {
    V v = i % 3 == 0 ? x : i % 3 == 1 ? y * (V)(i % 5) : (V)i - 50;
    s = s + v;
    PM r = feed(o, i, v);
    sym_check(r.size() == 1 && r[0].time == i, "one message per message, timestamp kept");
    if (r.size() == 1) sym_check_same(r[0].value, s, "sum of all values so far");
  }
}
