// S05-S09 and F01: operators over a sliding window, compared with their defining formula on the whole history
#include "rt.h"
#include "rtbot/finance/RelativeStrengthIndex.h"
#include "rtbot/std/AutoRegressive.h"
#include "rtbot/std/FiniteImpulseResponse.h"
#include "rtbot/std/MovingAverage.h"
#include "rtbot/std/PeakDetector.h"
#include "rtbot/std/StandardDeviation.h"
// one value of a stream: mixes fresh symbols with shared ones so that long streams stay readable for the solver
struct Stream {
  unsigned fresh;   // the first `fresh` values are symbols of their own
  V x, y;
  std::vector<V> v;
  std::vector<T> t;
  Stream(unsigned fresh) : fresh(fresh) { x = sym_f64("x"); y = sym_f64("y"); }
  V next(bool symT) {
    unsigned i = (unsigned)v.size();
    V r = i < fresh ? sym_f64(Nm("v", i)) : i % 3 == 0 ? x + (V)(i % 17) : i % 3 == 1 ? y * (V)(i % 5) - 2 : (V)(i % 13) - 6.5;
    v.push_back(r);
    t.push_back(t.empty() ? (symT ? sym_u64("base", 0, (T)1 << 62) : 10) : t.back() + (symT ? sym_u64(Nm("g", i), 1, (T)1 << 40) : 1 + i % 4));
    return r;
  }
};
// --- S05
static void ma(unsigned n, unsigned len, unsigned fresh) {
  MovingAverage<T, V> o("f", n);
  Stream s(fresh);
  for (unsigned i = 0; i < len; i++) {
    V v = s.next(fresh == len);
    PM r = feed(o, s.t[i], v);
    sym_check(r.size() == (i + 1 >= n ? 1u : 0u), "one message per message once the window is full");
    if (i + 1 < n || r.size() != 1) continue;
    V sum = 0;
    for (unsigned k = 0; k < n; k++) sum = sum + s.v[i - k];
    sym_check(r[0].time == s.t[i], "timestamp of the newest message");
    sym_check_same(r[0].value, sum / (V)n, "mean of exactly the last n values");
    sym_cover("out");
  }
}
ENTRY(h_ma1) { ma(1, QT(6, 10), QT(6, 10)); }
ENTRY(h_ma2) { ma(2, QT(8, 14), QT(8, 14)); }
ENTRY(h_ma3) { ma(3, QT(10, 20), QT(10, 20)); }
ENTRY(h_ma7) { ma(7, QT(24, 40), QT(24, 40)); }
ENTRY(h_ma17) { ma(17, QT(100, 300), 20); }
ENTRY(h_ma64) { ma(64, QT(200, 600), 70); }
ENTRY(h_ma300) { ma(300, QT(700, 1500), 8); }
ENTRY(h_ma5_long) { ma(5, QT(10000, 40000), 6); }
// --- S06
static void sd(unsigned n, unsigned len, unsigned fresh) {
  StandardDeviation<T, V> o("f", n);
  Stream s(fresh);
  for (unsigned i = 0; i < len; i++) {
    V v = s.next(fresh == len);
    PM r = feed(o, s.t[i], v);
    sym_check(r.size() == (i + 1 >= n ? 1u : 0u), "one message per message once the window is full");
    if (i + 1 < n || r.size() != 1) continue;
    V sum = 0, q = 0;
    for (unsigned k = 0; k < n; k++) sum = sum + s.v[i - k];
    for (unsigned k = 0; k < n; k++) { V d = s.v[i - k] - sum / (V)n; q = q + d * d; }
    sym_check(r[0].time == s.t[i], "timestamp of the newest message");
    sym_check_same(r[0].value * r[0].value, q / (V)(n - 1), "square is the sample variance of the last n values");
    sym_check(r[0].value >= 0, "not negative");
    sym_cover("out");
  }
}
ENTRY(h_sd2) { sd(2, QT(6, 10), QT(6, 10)); }
ENTRY(h_sd3) { sd(3, QT(7, 12), QT(7, 12)); }
ENTRY(h_sd5) { sd(5, QT(10, 16), QT(10, 16)); }
ENTRY(h_sd8_long) { sd(8, QT(60, 150), 4); }
ENTRY(h_sd32) { sd(32, QT(50, 100), 0); }
ENTRY(h_sd300) { sd(300, QT(303, 330), 0); }
ENTRY(h_sd3_long) { sd(3, QT(250, 1000), 3); }
// fixed values of different magnitude in real double arithmetic: the root itself, and no loss of precision when the
// values are large compared to their spread
ENTRY(h_sd_values) {
  StandardDeviation<T, V> o("f", 4);
  static const V vs[] = {1, 5, 2, 8, 8, 8, 8, 8, -3, 0.5, 1e3, -1e3, 7, 7, 7, 7};
  static const V off[] = {0, 1e6, 1e9, -1e12, 1099511627776.0};
  V b = off[sym_choice("offset", 5)];
  for (unsigned i = 0; i < 16; i++) {
    PM r = feed(o, i + 1, b + vs[i]);
    if (i < 3) continue;
    V m = (vs[i] + vs[i - 1] + vs[i - 2] + vs[i - 3]) / 4, q = 0;
    for (unsigned k = 0; k < 4; k++) q += (vs[i - k] - m) * (vs[i - k] - m);
    sym_check(r.size() == 1, "one message per message once the window is full");
    if (r.size() == 1) sym_check_close(r[0].value, std::sqrt(q / 3), b == 0 ? 1e-9 : 1e-3, "sample standard deviation");
  }
}
// whatever doubles came before (infinities and NaN included), a window they have left is averaged as if they had never
// been there: IEEE arithmetic
template <class O, class F> static void history(O make, unsigned n, bool symFirst, F want) {
  sym_fpmode(true);
  auto o = make(n);
  unsigned pre = 1 + sym_choice("before", 3);
  T t = 0;
  static const V special[] = {1e17, -1e300, std::numeric_limits<V>::infinity(), std::numeric_limits<V>::quiet_NaN(), 3e-310, -1e9};
  if (symFirst && n <= 2 && pre == 1) feed(o, ++t, sym_f64("v"));
  else for (unsigned i = 0; i < pre; i++) feed(o, ++t, special[sym_choice(Nm("special", i), 6)]);
  static const V vs[] = {1, 2, -3.5, 7, 0.25};
  for (unsigned i = 0; i < n + 2; i++) {
    PM r = feed(o, ++t, vs[i % 5]);
    if (i + 1 < n) continue;
    sym_check(r.size() == 1, "one message per message once the window is full");
    if (r.size() == 1) {
      V w = want(n, [&](unsigned k) { return vs[(i - k) % 5]; }), e = r[0].value - w;
      sym_check(e < 1e-9 && e > -1e-9, "values that have left the window have no influence");
    }
    sym_cover("out");
  }
}
template <class G> static V meanOf(unsigned n, G v) { V s = 0; for (unsigned k = 0; k < n; k++) s += v(k); return s / n; }
static V wantMean(unsigned n, std::function<V(unsigned)> v) { return meanOf(n, v); }
static V wantSd(unsigned n, std::function<V(unsigned)> v) {
  V m = meanOf(n, v), q = 0;
  for (unsigned k = 0; k < n; k++) q += (v(k) - m) * (v(k) - m);
  return std::sqrt(q / (n - 1));
}
ENTRY(h_ma_history) { history([](unsigned n) { return MovingAverage<T, V>("f", n); }, 1 + sym_choice("n", 4), true, wantMean); }
ENTRY(h_sd_history) { history([](unsigned n) { return StandardDeviation<T, V>("f", n); }, 2 + sym_choice("n", 3), false, wantSd); }
// --- S07
static void fir(unsigned n, unsigned len, unsigned fresh, bool symC) {
  std::vector<V> c;
  for (unsigned k = 0; k < n; k++) c.push_back(symC ? sym_f64(Nm("c", k)) : (V)k * 1.5 - 3);
  FiniteImpulseResponse<T, V> o("f", c);
  Stream s(fresh);
  for (unsigned i = 0; i < len; i++) {
    V v = s.next(fresh == len);
    PM r = feed(o, s.t[i], v);
    sym_check(r.size() == (i + 1 >= n ? 1u : 0u), "one message per message once the window is full");
    if (i + 1 < n || r.size() != 1) continue;
    V sum = 0;
    for (unsigned k = 0; k < n; k++) sum = sum + c[k] * s.v[i - k];
    sym_check(r[0].time == s.t[i], "timestamp of the newest message");
    sym_check_same(r[0].value, sum, "weighted sum of exactly the last n values, first coefficient on the newest");
    sym_cover("out");
  }
}
ENTRY(h_fir1) { fir(1, QT(5, 8), QT(5, 8), true); }
ENTRY(h_fir2) { fir(2, QT(6, 10), QT(6, 10), true); }
ENTRY(h_fir3) { fir(3, QT(8, 14), QT(8, 14), true); }
ENTRY(h_fir6) { fir(6, QT(16, 30), QT(16, 30), true); }
ENTRY(h_fir17) { fir(17, QT(40, 80), 20, true); }
ENTRY(h_fir64) { fir(64, QT(140, 300), 70, false); }
ENTRY(h_fir300) { fir(300, QT(320, 640), 8, false); }
ENTRY(h_fir4_long) { fir(4, QT(1100, 3000), 5, true); }
// --- S08
static void ar(unsigned n, unsigned len, unsigned fresh, bool symC) {
  std::vector<V> c;
  static const V cc[] = {0.5, -0.25, 0.125, 0.75, -0.5, 0.0625, 1, -1};
  for (unsigned k = 0; k < n; k++) c.push_back(symC ? sym_f64(Nm("c", k)) : cc[k % 8]);
  AutoRegressive<T, V> o("f", c);
  Stream s(fresh);
  std::vector<V> y;
  for (unsigned i = 0; i < len; i++) {
    V e = s.next(fresh == len);
    for (unsigned k = 1; k <= n && k <= i; k++) e = e + c[k - 1] * y[i - k];
    PM r = feed(o, s.t[i], s.v[i]);
    y.push_back(e);
    sym_check(r.size() == 1, "exactly one message per message");
    if (r.size() != 1) continue;
    sym_check(r[0].time == s.t[i], "timestamp of the received message");
    sym_check_same(r[0].value, e, "recursion over its own outputs, first coefficient on the most recent one");
    sym_cover("out");
  }
}
ENTRY(h_ar1) { ar(1, QT(6, 9), QT(6, 9), true); }
ENTRY(h_ar2) { ar(2, QT(6, 8), QT(6, 8), true); }
ENTRY(h_ar3) { ar(3, QT(6, 8), QT(6, 8), true); }
ENTRY(h_ar4) { ar(4, QT(14, 24), QT(14, 24), false); }
ENTRY(h_ar8) { ar(8, QT(30, 60), QT(30, 60), false); }
ENTRY(h_ar300) { ar(300, QT(310, 330), 4, false); }
ENTRY(h_ar2_long) { ar(2, QT(60, 100), 4, false); }
// any double, infinities and NaN included
template <class O, class F> static void anyDouble(O&& o, unsigned n, F want) {
  sym_fpmode(true);
  V v[3];
  for (unsigned i = 0; i < n; i++) v[i] = sym_f64(Nm("v", i));
  for (unsigned i = 0; i < n; i++) {
    PM r = feed(o, i + 1, v[i]);
    sym_check(r.size() == 1, "one message per message");
    if (r.size() != 1) continue;
    V w = want(v, i);
    sym_check(r[0].value == w || (w != w && r[0].value != r[0].value), "value by the definition");
    sym_cover("out");
  }
}
ENTRY(h_fir_ieee) { static const V c[] = {0.5, -3, 0}; V k = c[sym_choice("c", 3)]; anyDouble(FiniteImpulseResponse<T, V>("f", {k}), 2, [&](V* v, unsigned i) { return v[i] * k; }); }
ENTRY(h_ar_ieee) {
  static const V c[] = {0.5, -2, 0};
  V k = c[sym_choice("c", 3)], y = 0;
  anyDouble(AutoRegressive<T, V>("f", {k}), 2, [&](V* v, unsigned i) { y = v[i] + k * y; return y; });
}
// --- S09
static void peak(unsigned n, unsigned len, unsigned fresh) {
  PeakDetector<T, V> o("f", n);
  Stream s(fresh);
  for (unsigned i = 0; i < len; i++) {
    V v = s.next(fresh == len);
    PM r = feed(o, s.t[i], v);
    if (i + 1 < n) { sym_check(r.empty(), "nothing before the window is full"); continue; }
    unsigned mid = i + 1 - n + n / 2;
    bool top = true;
    for (unsigned k = 0; k < n && top; k++) if (s.v[i - k] > s.v[mid]) top = false;
    sym_check(r.size() == (top ? 1u : 0u), "emits exactly when the middle message tops the window");
    if (!top || r.size() != 1) { sym_cover("none"); continue; }
    sym_check(r[0].time == s.t[mid], "timestamp of the middle message");
    sym_check_same(r[0].value, s.v[mid], "value of the middle message");
    sym_cover("out");
  }
}
ENTRY(h_peak1) { peak(1, 4, 4); }
ENTRY(h_peak2) { peak(2, QT(5, 7), QT(5, 7)); }
ENTRY(h_peak3) { peak(3, QT(6, 7), QT(6, 7)); }
ENTRY(h_peak4) { peak(4, QT(6, 7), QT(6, 7)); }
ENTRY(h_peak5) { peak(5, QT(7, 8), QT(7, 8)); }
// one unknown among fixed values, at every position of a long stream
static void peakOne(unsigned n, unsigned len, unsigned step = 1) {
  PeakDetector<T, V> o("f", n);
  std::vector<V> v;
  V x = sym_f64("x");
  unsigned at = (unsigned)sym_choice("at", (len + step - 1) / step) * step;
  for (unsigned i = 0; i < len; i++) {
    v.push_back(i == at ? x : (V)((i * 7) % 11) - 3);
    PM r = feed(o, 3 * i + 1, v[i]);
    if (i + 1 < n) { sym_check(r.empty(), "nothing before the window is full"); continue; }
    unsigned mid = i + 1 - n + n / 2;
    bool top = true;
    for (unsigned k = 0; k < n && top; k++) if (v[i - k] > v[mid]) top = false;
    sym_check(r.size() == (top ? 1u : 0u), "emits exactly when the middle message tops the window");
    if (top && r.size() == 1) { sym_check(r[0].time == 3 * mid + 1, "timestamp of the middle message"); sym_check_same(r[0].value, v[mid], "value of the middle message"); sym_cover("out"); } else sym_cover("none");
  }
}
ENTRY(h_peak7) { peakOne(7, QT(30, 60)); }
ENTRY(h_peak8) { peakOne(8, QT(30, 60)); }
ENTRY(h_peak17) { peakOne(17, QT(50, 100)); }
ENTRY(h_peak300) { peakOne(300, 310, 51); }
ENTRY(h_peak3_long) { peakOne(3, QT(90, 200)); }
ENTRY(h_peak_ieee) {
  sym_fpmode(true);
  PeakDetector<T, V> o("f", 3);
  V v[4];
  for (unsigned i = 0; i < 4; i++) {
    v[i] = sym_f64(Nm("v", i));
    sym_assume(v[i] == v[i]);
    PM r = feed(o, i + 1, v[i]);
    if (i < 2) { sym_check(r.empty(), "nothing before the window is full"); continue; }
    bool top = !(v[i] > v[i - 1]) && !(v[i - 2] > v[i - 1]);
    sym_check(r.size() == (top ? 1u : 0u), "emits exactly when the middle message tops the window");
    if (top && r.size() == 1) { sym_check(r[0].time == i, "timestamp of the middle message"); sym_check_same(r[0].value, v[i - 1], "value of the middle message"); sym_cover("out"); } else sym_cover("none");
  }
}
// --- F01
static void rsi(unsigned n, unsigned len, unsigned fresh) {
  RelativeStrengthIndex<T, V> o("f", n);
  Stream s(fresh);
  V gain = 0, loss = 0;
  for (unsigned i = 0; i < len; i++) {
    V v = s.next(fresh == len);
    PM r = feed(o, s.t[i], v);
    sym_check(r.size() == (i >= n ? 1u : 0u), "one message per message after the first n");
    if (i == 0) continue;
    V d = s.v[i] - s.v[i - 1];
    V up = d > 0 ? d : 0, down = d < 0 ? -d : 0;
    if (i <= n) { gain = gain + up / (V)n; loss = loss + down / (V)n; }
    else { gain = (gain * (V)(n - 1) + up) / (V)n; loss = (loss * (V)(n - 1) + down) / (V)n; }
    if (i < n || r.size() != 1) continue;
    sym_check(r[0].time == s.t[i], "timestamp of the newest message");
    if (loss > 0) {
      // 100 - 100/(1+gain/loss) without the divisions
      sym_check_same(r[0].value * (gain + loss), 100 * gain, "100 - 100/(1 + gain/loss) of the smoothed averages");
      sym_cover("out");
    } else { sym_check_same(r[0].value, 100, "100 without any loss"); sym_cover("noloss"); }
  }
}
ENTRY(h_rsi1) { rsi(1, QT(4, 5), QT(4, 5)); }
ENTRY(h_rsi2) { rsi(2, QT(5, 7), QT(5, 7)); }
ENTRY(h_rsi3) { rsi(3, QT(6, 7), QT(6, 7)); }
ENTRY(h_rsi4) { rsi(4, QT(6, 8), QT(6, 8)); }
// one unknown value at every position of a longer stream
static void rsiOne(unsigned n, unsigned len, unsigned step = 1) {
  RelativeStrengthIndex<T, V> o("f", n);
  std::vector<V> v;
  V x = sym_f64r("x", -1000, 1000), gain = 0, loss = 0;
  unsigned at = sym_choice("at", (len + step - 1) / step) * step;
  for (unsigned i = 0; i < len; i++) {
    v.push_back(i == at ? x : (V)((i * 5) % 9) * 0.5 - 1);
    PM r = feed(o, 2 * i + 5, v[i]);
    sym_check(r.size() == (i >= n ? 1u : 0u), "one message per message after the first n");
    if (i == 0) continue;
    V d = v[i] - v[i - 1];
    V up = d > 0 ? d : 0, down = d < 0 ? -d : 0;
    if (i <= n) { gain = gain + up / (V)n; loss = loss + down / (V)n; }
    else { gain = (gain * (V)(n - 1) + up) / (V)n; loss = (loss * (V)(n - 1) + down) / (V)n; }
    if (i < n || r.size() != 1) continue;
    sym_check(r[0].time == 2 * i + 5, "timestamp of the newest message");
    if (loss > 0) { sym_check_close(r[0].value * (gain + loss), 100 * gain, 1e-4, "100 - 100/(1 + gain/loss) of the smoothed averages"); sym_cover("out"); }
    else sym_check_same(r[0].value, 100, "100 without any loss");
  }
}
ENTRY(h_rsi5_long) { rsiOne(5, QT(20, 40)); }
ENTRY(h_rsi300) { rsiOne(300, 306, 61); }
ENTRY(h_rsi14_long) { rsiOne(14, QT(24, 50)); }
// monotone and constant stretches
ENTRY(h_rsi_flat) {
  RelativeStrengthIndex<T, V> o("f", 3);
  V a = sym_f64("a"), up = sym_f64r("up", 0, 1000);
  for (unsigned i = 0; i < 12; i++) {
    PM r = feed(o, i + 1, i < 5 ? a : a + up * (V)i);
    sym_check(r.size() == (i >= 3 ? 1u : 0u), "one message per message after the first n");
    if (r.size() == 1) { sym_check_same(r[0].value, 100, "100 without any loss"); sym_cover("noloss"); }
  }
}
