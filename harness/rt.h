// Shared helpers of the harnesses: the rtbot types at the instantiation the API uses, symbolic streams, collectors.
#pragma once
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>
#include "sym.h"
#include "rtbot/Operator.h"
#ifndef THOROUGH
#define THOROUGH 0
#endif
#define QT(q, t) (THOROUGH ? (t) : (q))
using namespace rtbot;
typedef uint64_t T;
typedef double V;
typedef Operator<T, V> Op;
typedef Message<T, V> Msg;
typedef PortMessage<T, V> PM;
typedef OperatorMessage<T, V> OM;
typedef ProgramMessage<T, V> ProgM;

static inline bool has(const ProgM& m, const std::string& id, const std::string& port) {
  auto i = m.find(id);
  if (i == m.end()) return false;
  auto j = i->second.find(port);
  return j != i->second.end() && !j->second.empty();
}
static inline PM at(const ProgM& m, const std::string& id, const std::string& port) {
  auto i = m.find(id);
  if (i == m.end()) return PM();
  auto j = i->second.find(port);
  if (j == i->second.end()) return PM();
  return j->second;
}
static inline void append(PM& a, const PM& b) { for (auto& x : b) a.push_back(x); }
// feeds one message and returns what the operator itself put out on a port
static inline PM feed(Op& o, T t, V v, const char* in = "i1", const char* out = "o1") {
  o.receiveData(Msg(t, v), in);
  return at(o.executeData(), o.id, out);
}
static inline PM ctl(Op& o, T t, V v, const char* in = "c1", const char* out = "o1") {
  o.receiveControl(Msg(t, v), in);
  return at(o.executeControl(), o.id, out);
}
// strictly increasing symbolic timestamps: t(k) = base + sum of gaps, full 64-bit range without wrapping
struct Times {
  T cur;
  unsigned k;
  const char* p;
  T gap;
  Times(const char* prefix = "t", T baseMax = (T)1 << 62, T gapMax = (T)1 << 40) : k(0), p(prefix), gap(gapMax) { cur = sym_u64(Nm(p, 0), 0, baseMax); }
  T next() { T r = cur; k++; cur = cur + sym_u64(Nm(p, k), 1, gap); return r; }
};
// concrete stand-in when only values matter
struct Ticks {
  T cur;
  Ticks(T s = 1) : cur(s) {}
  T next() { return cur++; }
};
static inline void sameList(const PM& a, const PM& b, const char* lenLabel, const char* timeLabel, const char* valLabel) {
  sym_check(a.size() == b.size(), lenLabel);
  for (size_t i = 0; i < a.size() && i < b.size(); i++) {
    sym_check(a[i].time == b[i].time, timeLabel);
    sym_check_same(a[i].value, b[i].value, valLabel);
  }
}
template <class F> static inline bool throws(F f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
