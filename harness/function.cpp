// S13 Function: piecewise interpolation through arbitrary points given in any order
#include "rt.h"
#include "rtbot/std/Function.h"
typedef std::vector<std::pair<V, V>> Pts;
static V slope(const Pts& p, unsigned i) {
  unsigned n = (unsigned)p.size();
  unsigned a = i == 0 ? 0 : i - 1, b = i + 1 == n ? i : i + 1;
  return (p[b].second - p[a].second) / (p[b].first - p[a].first);
}
// p sorted; the segment whose polynomial applies at x
static unsigned segment(const Pts& p, V x) {
  unsigned i = 0;
  while (i + 2 < p.size() && x >= p[i + 1].first) i++;
  return i;
}
static V ref(const Pts& p, bool herm, V x) {
  unsigned i = segment(p, x);
  V x0 = p[i].first, x1 = p[i + 1].first, y0 = p[i].second, y1 = p[i + 1].second;
  V u = (x - x0) / (x1 - x0);
  if (!herm) return y0 + u * (y1 - y0);
  return y0 * (1 + 2 * u) * (1 - u) * (1 - u) + y1 * u * u * (3 - 2 * u) + (x1 - x0) * (slope(p, i) * u * (1 - u) * (1 - u) + slope(p, i + 1) * u * u * (u - 1));
}
static void ask(Op& o, const Pts& p, bool herm, T t, V x) {
  PM r = feed(o, t, x);
  sym_check(r.size() == 1, "exactly one message per message");
  if (r.size() != 1) return;
  sym_check(r[0].time == t, "timestamp kept");
  sym_check_close(r[0].value, ref(p, herm, x), 1e-6, "value of the interpolant");
  sym_cover("out");
}
// n points at fixed, uneven places with arbitrary values, given in any order; arbitrary argument
static const V XS[] = {-4, -1.5, 0, 2, 7, 7.5};
static void perm(bool herm, unsigned n, unsigned args, unsigned first = 0) {
  Pts sorted, given;
  for (unsigned i = 0; i < n; i++) sorted.push_back({XS[first + i], sym_f64r(Nm("y", i), -100, 100)});
  Pts rest = sorted;
  while (!rest.empty()) {
    unsigned k = rest.size() > 1 ? sym_choice(Nm("pick", (unsigned)rest.size()), (unsigned)rest.size()) : 0;
    given.push_back(rest[k]);
    rest.erase(rest.begin() + k);
  }
  Function<T, V> o("f", given, herm ? "hermite" : "linear");
  T t = sym_u64("base", 0, (T)1 << 62);
  for (unsigned i = 0; i < args; i++) { ask(o, sorted, herm, t, sym_f64r(Nm("x", i), -50, 50)); t = t + sym_u64(Nm("g", i), 1, (T)1 << 40); }
}
ENTRY(h_linear2) { perm(false, 2, 2); }
ENTRY(h_linear3) { perm(false, 3, QT(2, 3)); }
ENTRY(h_linear4) { perm(false, 4, QT(1, 2)); }
ENTRY(h_linear5) { perm(false, 5, 1); }
ENTRY(h_hermite2) { perm(true, 2, 2); }
ENTRY(h_hermite3) { perm(true, 3, QT(2, 3)); }
ENTRY(h_hermite4) { perm(true, 4, QT(1, 2)); }
ENTRY(h_hermite5) { perm(true, 5, 1); }
// passes through every point (and this does not depend on the formula above)
static void through(bool herm) {
  Pts p;
  for (unsigned i = 0; i < 6; i++) p.push_back({XS[i], sym_f64(Nm("y", i))});
  Pts g = {p[3], p[0], p[5], p[1], p[4], p[2]};
  Function<T, V> o("f", g, herm ? "hermite" : "linear");
  T t = 1;
  for (unsigned round = 0; round < 2; round++)
    for (unsigned i = 0; i < 6; i++) {
      PM r = feed(o, t, p[round ? 5 - i : i].first);
      sym_check(r.size() == 1 && r[0].time == t, "exactly one message per message, timestamp kept");
      if (r.size() == 1) sym_check_same(r[0].value, p[round ? 5 - i : i].second, "passes through every point");
      t++;
    }
  sym_cover("out");
}
// points on a straight line give that line, whatever the interpolation
ENTRY(h_line) {
  bool herm = sym_choice("hermite", 2);
  V a = sym_f64r("a", -10, 10), b = sym_f64r("b", -10, 10), x = sym_f64r("x", -50, 50);
  Pts p;
  for (unsigned i = 0; i < 6; i++) p.push_back({XS[i], a + b * XS[i]});
  Function<T, V> o("f", p, herm ? "hermite" : "linear");
  PM r = feed(o, 3, x);
  sym_check(r.size() == 1 && r[0].time == 3, "exactly one message per message, timestamp kept");
  if (r.size() == 1) sym_check_close(r[0].value, a + b * x, 1e-6, "the straight line through points on a straight line");
  sym_cover("out");
}
// no kink at the inner points: the slopes on both sides are the same
ENTRY(h_smooth) {
  Pts p;
  for (unsigned i = 0; i < 4; i++) p.push_back({XS[i], sym_f64r(Nm("y", i), -10, 10)});
  Function<T, V> o("f", p, "hermite");
  unsigned k = 1 + sym_choice("k", 2);
  V h = 1e-4, x = p[k].first;
  PM a = feed(o, 1, x - h), b = feed(o, 2, x + h);
  if (a.size() != 1 || b.size() != 1) { sym_check(false, "exactly one message per message, timestamp kept"); return; }
  sym_check_close((b[0].value - p[k].second) / h, (p[k].second - a[0].value) / h, 0.05, "no kink at an inner point");
  sym_cover("out");
}
ENTRY(h_through_linear) { through(false); }
ENTRY(h_through_hermite) { through(true); }
ENTRY(h_default_linear) {
  Pts p = {{1, sym_f64r("y0", -100, 100)}, {3, sym_f64r("y1", -100, 100)}, {4, sym_f64r("y2", -100, 100)}};
  Function<T, V> o("f", p);
  ask(o, p, false, 5, sym_f64r("x", -50, 50));
}
// arbitrary points: the defining equation of the line, free of divisions
static void anyPoints(unsigned n) {
  Pts p;
  V x0 = sym_f64r("x0", -100, 100);
  p.push_back({x0, sym_f64r("y0", -100, 100)});
  for (unsigned i = 1; i < n; i++) { V d = sym_f64r(Nm("d", i), 0.125, 50); p.push_back({p[i - 1].first + d, sym_f64r(Nm("y", i), -100, 100)}); }
  Pts g(p.rbegin(), p.rend());
  Function<T, V> o("f", g);
  V x = sym_f64r("x", -300, 300);
  PM r = feed(o, 9, x);
  sym_check(r.size() == 1 && r[0].time == 9, "exactly one message per message, timestamp kept");
  if (r.size() != 1) return;
  unsigned i = segment(p, x);
  V dx = p[i + 1].first - p[i].first, dy = p[i + 1].second - p[i].second;
  sym_check_close((r[0].value - p[i].second) * dx, dy * (x - p[i].first), 1e-6, "on the straight line of its segment");
  sym_cover("out");
}
ENTRY(h_any2) { anyPoints(2); }
ENTRY(h_any3) { anyPoints(3); }
ENTRY(h_bad) {
  Pts one = {{1, 2}}, two = {{1, 2}, {2, 3}};
  sym_check(throws([&] { Function<T, V> f("f", one); }), "fewer than two points are refused");
  sym_check(throws([&] { Function<T, V> f("f", Pts()); }), "fewer than two points are refused");
  sym_check(throws([&] { Function<T, V> f("f", two, "cubic"); }), "unknown interpolation is refused");
  sym_check(!throws([&] { Function<T, V> f("f", two, "hermite"); }), "known interpolation is accepted");
  sym_cover("out");
}
// answers do not depend on earlier arguments; many points
ENTRY(h_many) {
  Pts p, g;
  for (unsigned i = 0; i < 24; i++) p.push_back({(V)(i * i) * 0.5 - 3 + i, (V)((i * 7) % 10) - 4});
  for (unsigned i = 0; i < 24; i++) g.push_back(p[(i * 5) % 24]);
  bool herm = sym_choice("hermite", 2);
  Function<T, V> o("f", g, herm ? "hermite" : "linear");
  V y = sym_f64r("x", -20, 400);
  for (unsigned i = 0; i < QT(40, 200); i++) ask(o, p, herm, i + 1, (V)((i * 37) % 91) * 4 - 20);
  ask(o, p, herm, 1000, y);
}
