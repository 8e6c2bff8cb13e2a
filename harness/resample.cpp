// S10-S12: resamplers put exactly one message on every grid point t0 + k*dt, with the defined value
#include "rt.h"
#include "rtbot/std/ConstantResampler.h"
#include "rtbot/std/CosineResampler.h"
#include "rtbot/std/HermiteResampler.h"
enum { CONSTANT, COSINE, HERMITE };
static V hermite(V y0, V y1, V y2, V y3, V mu) {
  V m0 = (y2 - y0) / 2, m1 = (y3 - y1) / 2;
  V h00 = 2 * mu * mu * mu - 3 * mu * mu + 1, h10 = mu * mu * mu - 2 * mu * mu + mu, h01 = 3 * mu * mu - 2 * mu * mu * mu, h11 = mu * mu * mu - mu * mu;
  return h00 * y1 + h10 * m0 + h11 * m1 + h01 * y2;
}
static V cosine(V a, V b, V mu) {
  V w = (1 - std::cos(mu * 3.1415926535897932)) / 2;
  return a * (1 - w) + b * w;
}
struct Resampler {
  int kind;
  T dt;
  bool anyValue;  // false: value checked only where it needs no interpolation
  std::unique_ptr<Op> o;
  std::vector<T> t;
  std::vector<V> v;
  T grid;          // next grid point
  V before;        // stand-in for the missing left neighbour
  Resampler(int kind, T dt) : kind(kind), dt(dt), anyValue(true), grid(0), before(0) {
    if (kind == CONSTANT) o.reset(new ConstantResampler<T, V>("r", dt));
    else if (kind == COSINE) o.reset(new CosineResampler<T, V>("r", dt));
    else o.reset(new HermiteResampler<T, V>("r", dt));
  }
  // value at time g, which lies in (t[i], t[i+1]]
  V value(unsigned i, T g) {
    V mu = (V)(g - t[i]) / (V)(t[i + 1] - t[i]);
    if (kind == CONSTANT) return g == t[i + 1] ? v[i + 1] : v[i];
    if (kind == COSINE) return cosine(v[i], v[i + 1], mu);
    if (i == 0) {
      // least-squares line through the first four messages; one average gap before the first
      V sx = 0, sy = 0, sxx = 0, sxy = 0;
      for (unsigned k = 0; k < 4; k++) {
        V x = (V)(t[k] - t[0]);
        sx = sx + x; sy = sy + v[k]; sxx = sxx + x * x; sxy = sxy + x * v[k];
      }
      V m = (4 * sxy - sx * sy) / (4 * sxx - sx * sx), n = (sy - m * sx) / 4;
      V gap = (V)((t[3] - t[0]) / 3);
      before = n - m * gap;
    }
    return hermite(i ? v[i - 1] : before, v[i], v[i + 1], v[i + 2], mu);
  }
  void feedOne(T tt, V vv) {
    t.push_back(tt);
    v.push_back(vv);
    unsigned n = (unsigned)t.size();
    if (n == 1) grid = tt + dt;
    PM r = feed(*o, tt, vv);
    unsigned k = 0;
    // intervals whose grid points are due now
    unsigned from, to;
    if (kind == HERMITE) { if (n < 4) { sym_check(r.empty(), "nothing before the fourth message"); return; } from = n == 4 ? 0 : n - 3; to = n - 2; }
    else { if (n < 2) { sym_check(r.empty(), "nothing for the first message"); return; } from = n - 2; to = n - 1; }
    for (unsigned i = from; i < to; i++)
      while (grid <= t[i + 1]) {
        sym_check(k < r.size(), "a message on every grid point up to the newest usable message");
        if (k >= r.size()) return;
        sym_check(r[k].time == grid, "timestamps on the grid t0 + k*dt, in order");
        if (kind == CONSTANT) sym_check_same(r[k].value, value(i, grid), "last value at or before the grid point");
        else sym_check_close(r[k].value, value(i, grid), 1e-6, "interpolated value");
        if (grid == t[i + 1]) sym_cover("ongrid"); else sym_cover("between");
        grid = grid + dt;
        k++;
      }
    if (k == 0) sym_cover("none");
    sym_check(r.size() == k, "no other message");
  }
};
// arbitrary values; gaps chosen per path relative to a concrete dt
static void small(int kind, T dt, unsigned n, unsigned maxGap) {
  Resampler r(kind, dt);
  T t = sym_u64("base", 0, (T)1 << 62);
  for (unsigned i = 0; i < n; i++) {
    r.feedOne(t, sym_f64r(Nm("v", i), -1000, 1000));
    t = t + 1 + sym_choice(Nm("g", i), maxGap);
  }
}
ENTRY(h_const_dt1) { small(CONSTANT, 1, QT(4, 5), 3); }
ENTRY(h_const_dt3) { small(CONSTANT, 3, QT(5, 6), 5); }
ENTRY(h_cos_dt1) { small(COSINE, 1, QT(4, 5), 3); }
ENTRY(h_cos_dt3) { small(COSINE, 3, QT(5, 6), 5); }
ENTRY(h_her_dt1) { small(HERMITE, 1, QT(5, 6), 2); }
ENTRY(h_her_dt3) { small(HERMITE, 3, QT(6, 7), 4); }
// arbitrary interval and gaps, at most three grid points per gap; first timestamp 0 or arbitrary
static void free_(int kind, unsigned n, T base) {
  T dt = sym_u64("dt", 1, (T)1 << 40);
  Resampler r(kind, dt);
  T t = base;
  for (unsigned i = 0; i < n; i++) {
    r.feedOne(t, sym_f64r(Nm("v", i), -1000, 1000));
    T g = sym_u64(Nm("g", i), 1, (T)1 << 41);
    sym_assume(g <= 3 * dt);
    t = t + g;
  }
}
ENTRY(h_const_free) { free_(CONSTANT, QT(4, 5), sym_u64("base", 0, (T)1 << 62)); }
// times only: values fixed so that the solver has linear integer work
static void timesOnly(int kind, unsigned n, T base) {
  T dt = sym_u64("dt", 1, (T)1 << 40);
  std::unique_ptr<Op> o;
  if (kind == COSINE) o.reset(new CosineResampler<T, V>("r", dt)); else o.reset(new HermiteResampler<T, V>("r", dt));
  T t = base, grid = base + dt;
  std::vector<T> ts;
  for (unsigned i = 0; i < n; i++) {
    ts.push_back(t);
    PM r = feed(*o, t, 0);
    unsigned k = 0;
    T upto = kind == COSINE ? (i ? t : 0) : i >= 3 ? ts[i - 1] : 0;
    if (kind == COSINE ? i >= 1 : i >= 3)
      while (grid <= upto) {
        sym_check(k < r.size(), "a message on every grid point up to the newest usable message");
        if (k >= r.size()) return;
        sym_check(r[k].time == grid, "timestamps on the grid t0 + k*dt, in order");
        grid = grid + dt;
        k++;
        sym_cover("emitted");
      }
    sym_check(r.size() == k, "no other message");
    T g = sym_u64(Nm("g", i), 1, (T)1 << 41);
    sym_assume(g <= 2 * dt);
    t = t + g;
  }
}
ENTRY(h_cos_times) { timesOnly(COSINE, QT(4, 5), sym_u64("base", 0, (T)1 << 62)); }
ENTRY(h_her_times) { timesOnly(HERMITE, QT(5, 6), sym_u64("base", 0, (T)1 << 62)); }
ENTRY(h_her_times0) { timesOnly(HERMITE, QT(5, 6), 0); }
// interpolation itself: arbitrary real position inside one interval (arbitrary gap and dt), arbitrary values
ENTRY(h_cos_value) {
  T dt = sym_u64("dt", 1, (T)1 << 40), g = sym_u64("g", 1, (T)1 << 40);
  sym_assume(g >= dt);
  sym_assume(g < 2 * dt);
  CosineResampler<T, V> o("r", dt);
  V a = sym_f64("a"), b = sym_f64("b");
  feed(o, 1000, a);
  PM r = feed(o, 1000 + g, b);
  sym_check(r.size() == 1, "one grid point");
  if (r.size() == 1) { sym_check_same(r[0].value, cosine(a, b, (V)dt / (V)g), "interpolated value"); sym_cover("out"); }
}
ENTRY(h_her_value) {
  static const T gaps[][3] = {{4, 4, 4}, {4, 5, 6}, {7, 4, 9}, {100, 4, 50}, {5, 7, 1}};
  unsigned c = sym_choice("gaps", 5);
  Resampler r(HERMITE, 3);
  T t = 1000;
  for (unsigned i = 0; i < 4; i++) { r.feedOne(t, sym_f64r(Nm("v", i), -1000, 1000)); if (i < 3) t = t + gaps[c][i]; }
  for (unsigned i = 4; i < 7; i++) { t = t + gaps[(c + i) % 5][i % 3]; r.feedOne(t, sym_f64r(Nm("v", i), -1000, 1000)); }
}
// long streams with irregular gaps, one unknown value recurring
static void lng(int kind, T dt, unsigned n, T base, unsigned step) {
  Resampler r(kind, dt);
  V x = sym_f64r("x", -1000, 1000);
  T t = base;
  for (unsigned i = 0; i < n; i++) {
    r.feedOne(t, i % 4 == 2 ? x : (V)(i % 9) * 1.25 - 4);
    t = t + 1 + (i * 7 + i / 5) % step;
  }
}
ENTRY(h_const_long) { lng(CONSTANT, 4, QT(150, 600), 0, 11); }
ENTRY(h_cos_long) { lng(COSINE, 4, QT(100, 400), 0, 11); }
ENTRY(h_her_long) { lng(HERMITE, 4, QT(80, 300), 0, 11); }
ENTRY(h_const_big) { lng(CONSTANT, 1000000007, 60, 1700000000000000000ull, 11); }
ENTRY(h_cos_sparse) { lng(COSINE, 50, QT(120, 400), 1700000000000000001ull, 13); }
ENTRY(h_her_sparse) { lng(HERMITE, 25, QT(80, 300), 1700000000000000001ull, 13); }
ENTRY(h_her_first_gaps) {
  // the first grid point only after several messages
  Resampler r(HERMITE, 100);
  T t = sym_u64("base", 0, (T)1 << 62);
  V x = sym_f64r("x", -1000, 1000);
  for (unsigned i = 0; i < 9; i++) { r.feedOne(t, i == 3 ? x : (V)(i % 4) - 1); t = t + 20 + 7 * i; }
}
// one interval holding many grid points
static void gap(int kind) {
  Resampler r(kind, 2);
  T t = 7;
  for (unsigned i = 0; i < 5; i++) { r.feedOne(t, sym_f64r(Nm("v", i), -1000, 1000)); t = t + (i == 1 ? QT(61, 201) : 3); }
}
ENTRY(h_const_gap) { gap(CONSTANT); }
ENTRY(h_cos_gap) { gap(COSINE); }
ENTRY(h_her_gap) { gap(HERMITE); }

// one interval holding more grid points than 15 or 16 bits count, fixed values
static void hugeGap(int kind) {
  Resampler r(kind, 1);
  T t = 7;
  for (unsigned i = 0; i < 5; i++) { r.feedOne(t, (V)((i * 7) % 5) - 1); t = t + (i == 1 ? QT(33000, 66000) : 1); }
}
ENTRY(h_const_huge) { hugeGap(CONSTANT); }
ENTRY(h_cos_huge) { hugeGap(COSINE); }
ENTRY(h_her_huge) { hugeGap(HERMITE); }
// any double is held, infinities and NaN included
ENTRY(h_const_ieee) {
  sym_fpmode(true);
  ConstantResampler<T, V> o("r", 2);
  V v[3];
  for (unsigned i = 0; i < 3; i++) v[i] = sym_f64(Nm("v", i));
  sym_check(feed(o, 10, v[0]).empty(), "nothing for the first message");
  PM r = feed(o, 13, v[1]);
  sym_check(r.size() == 1 && r[0].time == 12, "grid point");
  if (r.size() == 1) sym_check(r[0].value == v[0] || (v[0] != v[0] && r[0].value != r[0].value), "last value at or before the grid point");
  r = feed(o, 16, v[2]);
  sym_check(r.size() == 2 && r[0].time == 14 && r[1].time == 16, "grid points");
  if (r.size() == 2) {
    sym_check(r[0].value == v[1] || (v[1] != v[1] && r[0].value != r[0].value), "last value at or before the grid point");
    sym_check(r[1].value == v[2] || (v[2] != v[2] && r[1].value != r[1].value), "value of the message on the grid point");
    sym_cover("between");
  }
}
