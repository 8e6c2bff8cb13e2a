// S01 pointwise operators: one output per input, computed from that message and the constant alone
#include "rt.h"
#include "rtbot/std/Add.h"
#include "rtbot/std/Constant.h"
#include "rtbot/std/Identity.h"
#include "rtbot/std/Power.h"
#include "rtbot/std/Scale.h"
enum { ADD, SCALE, CONSTANT, IDENTITY, POWER };
static Op* mk(int k, V c) {
  switch (k) {
    case ADD: return new Add<T, V>("f", c);
    case SCALE: return new Scale<T, V>("f", c);
    case CONSTANT: return new Constant<T, V>("f", c);
    case POWER: return new Power<T, V>("f", c);
    default: return new Identity<T, V>("f");
  }
}
static V ref(int k, V c, V v) { return k == ADD ? v + c : k == SCALE ? v * c : k == CONSTANT ? c : k == POWER ? std::pow(v, c) : v; }
static void one(int k, Op& o, V c, T t, V v) {
  PM r = feed(o, t, v);
  sym_check(r.size() == 1, "exactly one message per message");
  if (r.size() != 1) return;
  sym_check(r[0].time == t, "timestamp kept");
  sym_check_same(r[0].value, ref(k, c, v), "value is the configured function of the received value");
  sym_cover("out");
}
static void run(int k, V c, bool ieee, unsigned n) {
  std::unique_ptr<Op> o(mk(k, c));
  T t = sym_u64("base", 0, (T)1 << 62);
  for (unsigned i = 0; i < n; i++) {
    one(k, *o, c, t, sym_f64(Nm("v", i)));
    t = t + sym_u64(Nm("g", i), 1, (T)1 << 40);
  }
}
#define POINTWISE(n, K) \
  ENTRY(h_##n) { run(K, sym_f64("c"), false, QT(6, 12)); } \
  ENTRY(h_##n##_ieee) { sym_fpmode(true); run(K, sym_f64("c"), true, 2); } \
  ENTRY(h_##n##_int) { static const V cs[] = {0, 1, -1, 2, 10, -0.25, 1e-7, 123456789.5, 100, 256}; unsigned i = sym_choice("which", 10); run(K, cs[i], false, 3); } \
  ENTRY(h_##n##_long) { V c = sym_f64("c"), x = sym_f64("x"); std::unique_ptr<Op> o(mk(K, c)); for (unsigned i = 1; i <= QT(300, 1500); i++) one(K, *o, c, i, i % 3 ? x : (V)i / 4 - 20); }
POINTWISE(add, ADD)
POINTWISE(scale, SCALE)
POINTWISE(constant, CONSTANT)
POINTWISE(identity, IDENTITY)
ENTRY(h_power) { run(POWER, sym_f64("c"), false, QT(5, 10)); }
ENTRY(h_power_int) { static const V cs[] = {0, 1, 2, 3, 4, 7, -1, -2, 0.5, -0.5, 1.5, 10}; unsigned i = sym_choice("which", 12); run(POWER, cs[i], false, 3); }
// concrete bases: negative and fractional ones with integer and fractional exponents
ENTRY(h_power_values) {
  static const V cs[] = {0, 1, 2, 3, -1, 0.5, 2.5, -3};
  static const V vs[] = {-8, -2, -1, -0.5, 0, 0.5, 1, 2, 3, 100};
  for (V c : cs) {
    std::unique_ptr<Op> o(mk(POWER, c));
    T t = 1;
    for (V v : vs) one(POWER, *o, c, t++, v);
  }
  V x = sym_f64("x");
  std::unique_ptr<Op> o(mk(POWER, 2));
  one(POWER, *o, 2, 1, x);
}
