// C09 threshold filters decide by exact IEEE-754 comparison and never alter what they forward
#include "rt.h"
#include "rtbot/std/EqualTo.h"
#include "rtbot/std/GreaterThan.h"
#include "rtbot/std/LessThan.h"
static void filt(int kind, bool ieee, unsigned n) {
  if (ieee) sym_fpmode(true);
  V c = sym_f64("c");
  std::unique_ptr<Op> o;
  if (kind == 0) o.reset(new GreaterThan<T, V>("f", c));
  else if (kind == 1) o.reset(new LessThan<T, V>("f", c));
  else o.reset(new EqualTo<T, V>("f", c));
  T t = ieee ? 3 : sym_u64("base", 0, (T)1 << 62);
  for (unsigned i = 0; i < n; i++) {
    t = ieee ? t + 1 : t + sym_u64(Nm("g", i), 1, 1000);
    V v = sym_f64(Nm("v", i));
    bool pass = kind == 0 ? v > c : kind == 1 ? v < c : v == c;
    PM r = feed(*o, t, v);
    sym_check(r.size() == (pass ? 1u : 0u), "forwards exactly the messages whose value satisfies the comparison");
    if (pass && r.size() == 1) { sym_check(r[0].time == t, "time unchanged"); sym_check_same(r[0].value, v, "value unchanged"); sym_cover("pass"); }
    else sym_cover("drop");
  }
}
ENTRY(h_greater) { filt(0, false, QT(5, 8)); }
ENTRY(h_less) { filt(1, false, QT(5, 8)); }
ENTRY(h_equal) { filt(2, false, QT(5, 8)); }
ENTRY(h_greater_ieee) { filt(0, true, QT(3, 5)); }
ENTRY(h_less_ieee) { filt(1, true, QT(3, 5)); }
ENTRY(h_equal_ieee) { filt(2, true, QT(3, 5)); }
// long stream: the decision never depends on the past
static void lng(int kind) {
  V c = sym_f64("c"), x = sym_f64("x");
  std::unique_ptr<Op> o;
  if (kind == 0) o.reset(new GreaterThan<T, V>("f", c));
  else if (kind == 1) o.reset(new LessThan<T, V>("f", c));
  else o.reset(new EqualTo<T, V>("f", c));
  const unsigned N = QT(300, 1000);
  for (unsigned i = 1; i <= N; i++) {
    V v = i % 5 == 0 ? x : i % 2 ? c + 1 : c - 1;
    if (i % 7 == 0) v = c;
    bool pass = kind == 0 ? v > c : kind == 1 ? v < c : v == c;
    PM r = feed(*o, i, v);
    sym_check(r.size() == (pass ? 1u : 0u), "forwards exactly the messages whose value satisfies the comparison");
    if (pass && r.size() == 1) { sym_check(r[0].time == i, "time unchanged"); sym_check_same(r[0].value, v, "value unchanged"); sym_cover("pass"); }
  }
}
ENTRY(h_greater_long) { lng(0); }
ENTRY(h_less_long) { lng(1); }
ENTRY(h_equal_long) { lng(2); }
