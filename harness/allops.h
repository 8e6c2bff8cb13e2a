// every operator type, built through its constructor, with how to drive it
#pragma once
#include "rt.h"
#include "rtbot/Composite.h"
#include "rtbot/Demultiplexer.h"
#include "rtbot/Input.h"
#include "rtbot/Join.h"
#include "rtbot/Output.h"
#include "rtbot/finance/RelativeStrengthIndex.h"
#include "rtbot/std/Add.h"
#include "rtbot/std/And.h"
#include "rtbot/std/AutoRegressive.h"
#include "rtbot/std/Constant.h"
#include "rtbot/std/ConstantResampler.h"
#include "rtbot/std/CosineResampler.h"
#include "rtbot/std/Count.h"
#include "rtbot/std/CumulativeSum.h"
#include "rtbot/std/Difference.h"
#include "rtbot/std/Division.h"
#include "rtbot/std/EqualTo.h"
#include "rtbot/std/FiniteImpulseResponse.h"
#include "rtbot/std/Function.h"
#include "rtbot/std/GreaterThan.h"
#include "rtbot/std/GreaterThanStream.h"
#include "rtbot/std/HermiteResampler.h"
#include "rtbot/std/Identity.h"
#include "rtbot/std/LessThan.h"
#include "rtbot/std/LessThanStream.h"
#include "rtbot/std/Linear.h"
#include "rtbot/std/Minus.h"
#include "rtbot/std/MovingAverage.h"
#include "rtbot/std/Multiplication.h"
#include "rtbot/std/Or.h"
#include "rtbot/std/PeakDetector.h"
#include "rtbot/std/Plus.h"
#include "rtbot/std/Power.h"
#include "rtbot/std/Scale.h"
#include "rtbot/std/StandardDeviation.h"
#include "rtbot/std/TimeShift.h"
#include "rtbot/std/Variable.h"
typedef std::unique_ptr<Op> OpP;
// one arrival: data or control message on a port
struct Ev { bool control; std::string port; T t; V v; };
static inline ProgM drive(Op& o, const Ev& e) {
  if (e.control) { o.receiveControl(Msg(e.t, e.v), e.port); return o.executeControl(); }
  o.receiveData(Msg(e.t, e.v), e.port);
  return o.executeData();
}
// drives, reporting an exception as part of the observable behaviour
static inline bool driveX(Op& o, const Ev& e, ProgM& r) {
  try { r = drive(o, e); return false; } catch (const std::exception&) { r = ProgM(); return true; }
}
static inline void sameProg(const ProgM& a, const ProgM& b, const char* label) {
  sym_check(a.size() == b.size(), label);
  for (auto& x : a) {
    auto y = b.find(x.first);
    sym_check(y != b.end(), label);
    if (y == b.end()) continue;
    sym_check(x.second.size() == y->second.size(), label);
    for (auto& p : x.second) {
      auto q = y->second.find(p.first);
      sym_check(q != y->second.end(), label);
      if (q == y->second.end()) continue;
      sameList(p.second, q->second, label, label, label);
    }
  }
}
