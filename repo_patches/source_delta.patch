From 1b78eafde0506a6d6db3e4959619f3a7b1eaedbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 01/42] fix: Join releases a tuple when dropping stale messages
 completes it

---
 libs/core/include/rtbot/Join.h | 38 ++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/libs/core/include/rtbot/Join.h b/libs/core/include/rtbot/Join.h
index 1488335..479f714 100644
--- a/libs/core/include/rtbot/Join.h
+++ b/libs/core/include/rtbot/Join.h
@@ -44,25 +44,33 @@ class Join : public Operator<T, V> {
   virtual ProgramMessage<T, V> executeData() override {
     string inputPort;
     auto in = this->getDataInputs();
-    inputPort = in.at(0);
 
-    if (this->dataInputs.find(inputPort)->second.empty()) return {};
-    T latest = this->dataInputs.find(inputPort)->second.front().time;
+    // dropping messages may uncover newer ones, repeat until the fronts are stable
+    bool dropped = true;
+    while (dropped) {
+      dropped = false;
+      inputPort = in.at(0);
 
-    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
-      if (it->second.empty())
-        return {};
-      else if (it->second.front().time > latest) {
-        inputPort = it->first;
-        latest = it->second.front().time;
+      if (this->dataInputs.find(inputPort)->second.empty()) return {};
+      T latest = this->dataInputs.find(inputPort)->second.front().time;
+
+      for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
+        if (it->second.empty())
+          return {};
+        else if (it->second.front().time > latest) {
+          inputPort = it->first;
+          latest = it->second.front().time;
+        }
       }
-    }
 
-    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
-      if (it->first == inputPort) continue;
-      while (!it->second.empty() && (it->second.front().time < this->dataInputs.find(inputPort)->second.front().time)) {
-        it->second.setSum(it->second.getSum() - it->second.front().value);
-        it->second.pop_front();
+      for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
+        if (it->first == inputPort) continue;
+        while (!it->second.empty() &&
+               (it->second.front().time < this->dataInputs.find(inputPort)->second.front().time)) {
+          it->second.setSum(it->second.getSum() - it->second.front().value);
+          it->second.pop_front();
+          dropped = true;
+        }
       }
     }
 
-- 
2.43.0


From 77df03dedc9ced66df37f47f44dde84bed48d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 02/42] fix: RelativeStrengthIndex keeps its averages across
 collect/restore

---
 .../rtbot/finance/RelativeStrengthIndex.h     | 37 +++++++++++++++++--
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
index 8f2b857..7cfcab3 100644
--- a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
+++ b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
@@ -18,6 +18,35 @@ struct RelativeStrengthIndex : public Operator<T, V> {
     this->addOutput("o1");
   }
 
+  virtual Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+    // Serialize prevAverageGain
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&prevAverageGain),
+                 reinterpret_cast<const unsigned char*>(&prevAverageGain) + sizeof(prevAverageGain));
+    // Serialize prevAverageLoss
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&prevAverageLoss),
+                 reinterpret_cast<const unsigned char*>(&prevAverageLoss) + sizeof(prevAverageLoss));
+    // Serialize initialized
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&initialized),
+                 reinterpret_cast<const unsigned char*>(&initialized) + sizeof(initialized));
+
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator& it) override {
+    Operator<T, V>::restore(it);
+
+    // Deserialize prevAverageGain
+    prevAverageGain = *reinterpret_cast<const V*>(&(*it));
+    it += sizeof(prevAverageGain);
+    // Deserialize prevAverageLoss
+    prevAverageLoss = *reinterpret_cast<const V*>(&(*it));
+    it += sizeof(prevAverageLoss);
+    // Deserialize initialized
+    initialized = *reinterpret_cast<const bool*>(&(*it));
+    it += sizeof(initialized);
+  }
+
   string typeName() const override { return "RelativeStrengthIndex"; }
 
   OperatorMessage<T, V> processData() override {
@@ -82,10 +111,10 @@ struct RelativeStrengthIndex : public Operator<T, V> {
   }
 
  private:
-  V averageGain;
-  V averageLoss;
-  V prevAverageGain;
-  V prevAverageLoss;
+  V averageGain = 0;
+  V averageLoss = 0;
+  V prevAverageGain = 0;
+  V prevAverageLoss = 0;
   bool initialized = false;
 };
 
-- 
2.43.0


From ded83494932a311a107b23acf5cdbbd7ce946961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:15 +0000
Subject: [PATCH 03/42] fix: Composite collects and restores its internal
 operators

---
 libs/core/include/rtbot/Composite.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libs/core/include/rtbot/Composite.h b/libs/core/include/rtbot/Composite.h
index 486ac2d..04ce319 100644
--- a/libs/core/include/rtbot/Composite.h
+++ b/libs/core/include/rtbot/Composite.h
@@ -330,6 +330,21 @@ struct Composite : public Operator<T, V>  // TODO: improve from chain to graph
       throw std::runtime_error(typeName() + ": the input operator have not been found");
   }
 
+  virtual Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+    // the state of a composite is the state of its internal operators
+    for (auto &[id, op] : this->ops) {
+      Bytes opBytes = op->collect();
+      bytes.insert(bytes.end(), opBytes.begin(), opBytes.end());
+    }
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator &it) override {
+    Operator<T, V>::restore(it);
+    for (auto &[id, op] : this->ops) op->restore(it);
+  }
+
   virtual OperatorMessage<T, V> processData() override { return {}; }
 
   virtual OperatorMessage<T, V> processControl() override { return {}; }
-- 
2.43.0


From e080dc96fb12dd36a1835989b18ad669cacdf537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 04/42] fix: TimeShift honours zero shifts and clamps negative
 results for unsigned time

---
 libs/std/include/rtbot/std/TimeShift.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libs/std/include/rtbot/std/TimeShift.h b/libs/std/include/rtbot/std/TimeShift.h
index 587d0bc..a75c78e 100644
--- a/libs/std/include/rtbot/std/TimeShift.h
+++ b/libs/std/include/rtbot/std/TimeShift.h
@@ -3,6 +3,8 @@
 
 #include <math.h>
 
+#include <cstdint>
+
 #include "rtbot/Operator.h"
 
 namespace rtbot {
@@ -32,10 +34,13 @@ struct TimeShift : public Operator<T, V> {
     OperatorMessage<T, V> outputMsgs;
     Message<T, V> out = this->getDataInputLastMessage(inputPort);
 
-    out.time = ((this->dt * this->times < 0) && (out.time > abs((double)(this->dt * this->times))) ||
-                (this->dt * this->times > 0))
-                   ? out.time + this->dt * this->times
-                   : 0;
+    // T may be unsigned, compute the shift with sign
+    int64_t shift = static_cast<int64_t>(this->dt) * this->times;
+    if (shift >= 0)
+      out.time = out.time + static_cast<T>(shift);
+    else
+      out.time = (out.time > static_cast<T>(-shift)) ? out.time - static_cast<T>(-shift) : 0;
+
     PortMessage<T, V> v;
     v.push_back(out);
     outputMsgs.emplace("o1", v);
-- 
2.43.0


From 7695f586b2dbebb4bd4896fa5fc07e5b0797d947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 05/42] fix: Difference takes the older message's time, not its
 value, as timestamp

---
 libs/std/include/rtbot/std/Difference.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/Difference.h b/libs/std/include/rtbot/std/Difference.h
index 35c133d..6c3b75c 100644
--- a/libs/std/include/rtbot/std/Difference.h
+++ b/libs/std/include/rtbot/std/Difference.h
@@ -31,7 +31,7 @@ struct Difference : public Operator<T, V> {
     Message<T, V> m0 = this->getDataInputMessage(inputPort, 0);
     Message<T, V> out;
     out.value = m1.value - m0.value;
-    out.time = (this->useOldestTime) ? m1.time : m0.value;
+    out.time = (this->useOldestTime) ? m1.time : m0.time;
     PortMessage<T, V> v;
     v.push_back(out);
     outputMsgs.emplace("o1", v);
-- 
2.43.0


From 2aec882cd3aa288023e0f61277ba9404f2ef8fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:38 +0000
Subject: [PATCH 06/42] fix: AutoRegressive applies its first coefficient to
 the most recent output

---
 libs/std/include/rtbot/std/AutoRegressive.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/AutoRegressive.h b/libs/std/include/rtbot/std/AutoRegressive.h
index b40ce25..89c7bb8 100644
--- a/libs/std/include/rtbot/std/AutoRegressive.h
+++ b/libs/std/include/rtbot/std/AutoRegressive.h
@@ -60,7 +60,8 @@ struct AutoRegressive : public Operator<T, V> {
       throw runtime_error(typeName() + " : more than 1 input port found");
     size_t n = this->getDataInputMaxSize(inputPort);
     Message<T, V> out = this->getDataInputLastMessage(inputPort);
-    for (auto i = 0; i < n; i++) out.value += this->coeff[i] * this->getDataInputMessage(inputPort, i).value;
+    // coeff[0] multiplies the most recent output
+    for (size_t i = 0; i < n; i++) out.value += this->coeff[i] * this->getDataInputMessage(inputPort, n - 1 - i).value;
     OperatorMessage<T, V> toEmit;
     PortMessage<T, V> v;
     v.push_back(out);
-- 
2.43.0


From 099f03f1b005d41d5b0fc9ad112aa9f57a7ed4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 07/42] fix: HermiteResampler looks at its first interval only
 once

---
 libs/std/include/rtbot/std/HermiteResampler.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index 2d0c84d..c59d742 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -83,6 +83,8 @@ struct HermiteResampler : public Operator<T, V> {
     PortMessage<T, V> toEmit;
 
     if (before.get() == nullptr) {
+      // marks the interval [0,1] as processed, even if no grid point falls into it
+      this->get(-1, inputPort);
       toEmit = this->lookAt(0, 1, inputPort);
       auto toAdd = this->lookAt(1, 2, inputPort);
       toEmit.insert(toEmit.end(), toAdd.begin(), toAdd.end());
-- 
2.43.0


From 7b87a8d0f6580257c1bc932a8768570f10bce677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 08/42] fix: HermiteResampler fits its first neighbour without
 integer overflow

---
 libs/std/include/rtbot/std/HermiteResampler.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index c59d742..cc0f661 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -144,12 +144,13 @@ struct HermiteResampler : public Operator<T, V> {
     if (index >= 0)
       return this->getDataInputMessage(inputPort, index);
     else if (before.get() == nullptr) {
-      vector<T> x;
+      vector<V> x;
       vector<V> y;
       V average = 0;
       size_t n = this->getDataInputSize(inputPort);
       for (int i = 0; i < n; i++) {
-        x.push_back(this->getDataInputMessage(inputPort, i).time);
+        // relative to the first message, T may be unsigned and large
+        x.push_back((V)(this->getDataInputMessage(inputPort, i).time - this->getDataInputMessage(inputPort, 0).time));
         y.push_back(this->getDataInputMessage(inputPort, i).value);
       }
       for (size_t i = 1; i < n; i++) {
@@ -159,7 +160,7 @@ struct HermiteResampler : public Operator<T, V> {
       average = average / (n - 1);
       pair<V, V> pair = this->getLineLeastSquares(x, y);
       T time = this->getDataInputMessage(inputPort, 0).time + (index * ((T)average));
-      V value = pair.second * time + pair.first;
+      V value = pair.second * (index * (V)((T)average)) + pair.first;
       before = make_unique<Message<T, V>>(Message<T, V>(time, value));
     }
     return *(before.get());
@@ -173,9 +174,8 @@ struct HermiteResampler : public Operator<T, V> {
       y is the vector of the y-axis
       the coordinates of a point are (x_i;y_i)
   */
-  pair<V, V> getLineLeastSquares(vector<T> x, vector<V> y) {
-    V sumY = 0, sumXY = 0, n, m;
-    T sumX = 0, sumX2 = 0;
+  pair<V, V> getLineLeastSquares(vector<V> x, vector<V> y) {
+    V sumX = 0, sumX2 = 0, sumY = 0, sumXY = 0, n, m;
     for (size_t i = 0; i < x.size(); i++) {
       sumX = sumX + x.at(i);
       sumY = sumY + y.at(i);
@@ -183,7 +183,7 @@ struct HermiteResampler : public Operator<T, V> {
       sumX2 = sumX2 + pow(x.at(i), 2);
     }
 
-    T denominator = (x.size() * sumX2 - pow(sumX, 2));
+    V denominator = (x.size() * sumX2 - pow(sumX, 2));
 
     if (denominator == 0) {
       m = (V)(y.at(1) - y.at(0)) / (V)(x.at(1) - x.at(0));
-- 
2.43.0


From 1d2f8b3194cd47221d4301d07b0b2a3af40ade43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:24 +0000
Subject: [PATCH 09/42] fix: Linear pairs coefficients with ports by number for
 ten or more ports

---
 libs/std/include/rtbot/std/Linear.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/std/include/rtbot/std/Linear.h b/libs/std/include/rtbot/std/Linear.h
index 70b59a9..e2a9845 100644
--- a/libs/std/include/rtbot/std/Linear.h
+++ b/libs/std/include/rtbot/std/Linear.h
@@ -26,16 +26,16 @@ struct Linear : public Join<T, V> {
 
   OperatorMessage<T, V> processData() override {
     OperatorMessage<T, V> outputMsgs;
-    int i = 0;
     Message<T, V> out;
     out.value = 0;
     out.time = 0;
-    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
+
+    // look the ports up by name, the map keeps them in lexicographic order (i1, i10, i2, ...)
+    for (size_t i = 0; i < this->coeff.size(); i++) {
+      auto it = this->dataInputs.find(string("i") + to_string(i + 1));
       out.value = out.value + it->second.front().value * this->coeff.at(i);
       out.time = it->second.front().time;
-      i++;
     }
-
     PortMessage<T, V> v;
     v.push_back(out);
     outputMsgs.emplace("o1", v);
-- 
2.43.0


From 880da4c40ecf5ff1a187a47bec5d7816265f8a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 10/42] fix: FactoryOp includes ConstantResampler and Function

---
 libs/api/src/FactoryOp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index cb51796..32b1184 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -15,6 +15,7 @@
 #include "rtbot/std/And.h"
 #include "rtbot/std/AutoRegressive.h"
 #include "rtbot/std/Constant.h"
+#include "rtbot/std/ConstantResampler.h"
 #include "rtbot/std/CosineResampler.h"
 #include "rtbot/std/Count.h"
 #include "rtbot/std/CumulativeSum.h"
@@ -22,6 +23,7 @@
 #include "rtbot/std/Division.h"
 #include "rtbot/std/EqualTo.h"
 #include "rtbot/std/FiniteImpulseResponse.h"
+#include "rtbot/std/Function.h"
 #include "rtbot/std/GreaterThan.h"
 #include "rtbot/std/GreaterThanStream.h"
 #include "rtbot/std/HermiteResampler.h"
-- 
2.43.0


From a67c83b270c119e1f99621956ee25b4a988c145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 11/42] fix: Difference keeps useOldestTime in its JSON
 description

---
 libs/api/src/FactoryOp.cpp               | 4 ++--
 libs/std/include/rtbot/std/Difference.md | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 32b1184..7108086 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -353,12 +353,12 @@ void from_json(const json& j, Power<T, V>& p) {
 
 template <class T, class V>
 void to_json(json& j, const Difference<T, V>& p) {
-  j = json{{"type", p.typeName()}, {"id", p.id}};
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"useOldestTime", p.getUseOldestTime()}};
 }
 
 template <class T, class V>
 void from_json(const json& j, Difference<T, V>& p) {
-  p = Difference<T, V>(j["id"].get<string>());
+  p = Difference<T, V>(j["id"].get<string>(), j.value("useOldestTime", true));
 }
 
 template <class T, class V>
diff --git a/libs/std/include/rtbot/std/Difference.md b/libs/std/include/rtbot/std/Difference.md
index 557feb1..3b23e26 100644
--- a/libs/std/include/rtbot/std/Difference.md
+++ b/libs/std/include/rtbot/std/Difference.md
@@ -13,6 +13,10 @@ jsonschema:
     id:
       type: string
       description: The id of the operator
+    useOldestTime:
+      type: boolean
+      default: true
+      description: Which of the two messages gives the time of the emitted one
   required: ["id"]
 ---
 
-- 
2.43.0


From 6f6f8826001445ca6bb78213814612e215a335d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 12/42] fix: RelativeStrengthIndex writes its period, not its
 buffer size, to JSON

---
 libs/api/src/FactoryOp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 7108086..26028f1 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -383,7 +383,8 @@ void from_json(const json& j, Identity<T, V>& p) {
 
 template <class T, class V>
 void to_json(json& j, const RelativeStrengthIndex<T, V>& p) {
-  j = json{{"type", p.typeName()}, {"id", p.id}, {"n", p.getDataInputMaxSize()}};
+  // the buffer holds one message more than the period
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"n", p.getDataInputMaxSize() - 1}};
 }
 
 template <class T, class V>
-- 
2.43.0


From 88d007ce53c1e7423b5d4dda50ffe29405b69039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 13/42] fix: Function reads its interpolation type from a key
 of its own

---
 libs/api/src/FactoryOp.cpp             | 4 ++--
 libs/std/include/rtbot/std/Function.md | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 26028f1..6c6a6c3 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -418,7 +418,7 @@ void to_json(json& j, const Function<T, V>& p) {
   for (const auto& point : p.getPoints()) {
     points_array.push_back({point.first, point.second});
   }
-  j = json{{"type", p.typeName()}, {"id", p.id}, {"points", points_array}, {"type", p.getInterpolationType()}};
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"points", points_array}, {"interpolationType", p.getInterpolationType()}};
 }
 
 template <class T, class V>
@@ -427,7 +427,7 @@ void from_json(const json& j, Function<T, V>& p) {
   for (const auto& point : j["points"]) {
     points.push_back({point[0].get<V>(), point[1].get<V>()});
   }
-  p = Function<T, V>(j["id"].get<string>(), points, j.value("type", "linear"));
+  p = Function<T, V>(j["id"].get<string>(), points, j.value("interpolationType", "linear"));
 }
 
 /* Operators serialization - deserialization - end */
diff --git a/libs/std/include/rtbot/std/Function.md b/libs/std/include/rtbot/std/Function.md
index 233e237..698f06b 100644
--- a/libs/std/include/rtbot/std/Function.md
+++ b/libs/std/include/rtbot/std/Function.md
@@ -23,7 +23,7 @@ jsonschema:
         maxItems: 2
         items:
           type: number
-    type:
+    interpolationType:
       type: string
       enum: ["linear", "hermite"]
       default: "linear"
-- 
2.43.0


From 0cecbe1f4f462c672262b90547b2a0014ca2309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 14/42] fix: TimeShift reads dt from JSON in full width

---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 6c6a6c3..b647075 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -308,7 +308,7 @@ void to_json(json& j, const TimeShift<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, TimeShift<T, V>& p) {
-  p = TimeShift<T, V>(j["id"].get<string>(), j.value("dt", 1), j.value("times", 1));
+  p = TimeShift<T, V>(j["id"].get<string>(), j.value("dt", static_cast<T>(1)), j.value("times", 1));
 }
 
 template <class T, class V>
-- 
2.43.0


From 90cf3cbc2cf14b2cd065a22bb248c51d2f55e4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 15/42] fix: Variable reads a fractional default value from
 JSON

---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index b647075..3c6d884 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -298,7 +298,7 @@ void to_json(json& j, const Variable<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Variable<T, V>& p) {
-  p = Variable<T, V>(j["id"].get<string>(), j.value("value", 0));
+  p = Variable<T, V>(j["id"].get<string>(), j.value("value", static_cast<V>(0)));
 }
 
 template <class T, class V>
-- 
2.43.0


From 7451024f3eb127b1a43b8dc84bdc8c80d49867f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 16/42] fix: Pipeline collects and restores its internal
 operators

---
 libs/api/include/rtbot/Pipeline.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libs/api/include/rtbot/Pipeline.h b/libs/api/include/rtbot/Pipeline.h
index bae4a10..320c18e 100644
--- a/libs/api/include/rtbot/Pipeline.h
+++ b/libs/api/include/rtbot/Pipeline.h
@@ -66,6 +66,21 @@ struct Pipeline : public Operator<T, V> {
 
   OperatorMessage<T, V> processData() override { return {}; }  // do nothing
 
+  Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+    // the state of a pipeline is the state of its internal operators
+    for (auto& [id, op] : all_op) {
+      Bytes opBytes = op->collect();
+      bytes.insert(bytes.end(), opBytes.begin(), opBytes.end());
+    }
+    return bytes;
+  }
+
+  void restore(Bytes::const_iterator& it) override {
+    Operator<T, V>::restore(it);
+    for (auto& [id, op] : all_op) op->restore(it);
+  }
+
  private:
   static auto split2(string const& s, char delim = ':') {
     std::istringstream is(s);
-- 
2.43.0


From becc965824057696244ff3890be543600bc6d155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 17/42] fix: Program rejects a missing entry operator and one
 with control inputs

---
 libs/api/src/Program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/api/src/Program.cpp b/libs/api/src/Program.cpp
index 09443ce..a761c5f 100644
--- a/libs/api/src/Program.cpp
+++ b/libs/api/src/Program.cpp
@@ -65,14 +65,14 @@ void Program::init() {
     this->all_op.clear();
     this->entryOperator.clear();
     this->outputFilter.clear();
-    runtime_error("Entry operator was not found");
+    throw runtime_error("Entry operator was not found");
   }
 
   if (this->all_op.at(this->entryOperator)->hasControlInputs()) {
     this->all_op.clear();
     this->entryOperator.clear();
     this->outputFilter.clear();
-    runtime_error("Entry operator can not have control inputs");
+    throw runtime_error("Entry operator can not have control inputs");
   }
 }
 
-- 
2.43.0


From 3e90d81635f7cc90027f8f1aa9b01d6d847dd2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 18/42] fix: ConstantResampler starts with defined next
 emission time and value

---
 libs/std/include/rtbot/std/ConstantResampler.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/std/include/rtbot/std/ConstantResampler.h b/libs/std/include/rtbot/std/ConstantResampler.h
index 03dc75e..8ad42c1 100644
--- a/libs/std/include/rtbot/std/ConstantResampler.h
+++ b/libs/std/include/rtbot/std/ConstantResampler.h
@@ -20,7 +20,9 @@ struct ConstantResampler : public Operator<T, V> {
     if (interval <= 0) throw runtime_error(typeName() + ": time interval must be positive");
 
     this->dt = interval;
+    this->nextEmit = 0;
     this->initiated = false;
+    this->lastValue = 0;
     this->addDataInput("i1", 1);
     this->addOutput("o1");
   }
-- 
2.43.0


From 7e0e6e4af14a6e25bb8e5452d1ab86335c1a2386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:12 +0000
Subject: [PATCH 19/42] fix: deleting a program discards its buffered messages

---
 libs/api/include/rtbot/FactoryOp.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index 9449778..dcd8d2b 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -63,7 +63,10 @@ class FactoryOp {
 
   string createProgram(string const& id, string const& json_program);
 
-  bool deleteProgram(string const& id) { return (programs.erase(id) == 1) ? true : false; }
+  bool deleteProgram(string const& id) {
+    messageBuffer.erase(id);  // its messages are not for a later program of the same id
+    return (programs.erase(id) == 1) ? true : false;
+  }
 
   bool addToMessageBuffer(const string& apId, const string& portId, Message<uint64_t, double> msg) {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
-- 
2.43.0


From 1b942f7bbae9bd6091cf6096f32c03fe9087bea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 20/42] fix: a refused message does not leave the processed
 ones in the buffer

---
 libs/api/include/rtbot/FactoryOp.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index dcd8d2b..6672fd9 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -78,9 +78,10 @@ class FactoryOp {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
     if (this->messageBuffer.count(apId) > 0) {
       if (!this->messageBuffer.at(apId).empty()) {
-        auto result = processMessageMap(apId, this->messageBuffer.at(apId));
-        this->messageBuffer.at(apId).clear();
+        // taken out first, so that nothing is processed again should a message be refused
+        auto messages = std::move(this->messageBuffer.at(apId));
         this->messageBuffer.erase(apId);
+        auto result = processMessageMap(apId, messages);
         if (!result.empty()) return result;
       }
     }
@@ -91,9 +92,10 @@ class FactoryOp {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
     if (this->messageBuffer.count(apId) > 0) {
       if (!this->messageBuffer.at(apId).empty()) {
-        auto result = processMessageMapDebug(apId, this->messageBuffer.at(apId));
-        this->messageBuffer.at(apId).clear();
+        // taken out first, so that nothing is processed again should a message be refused
+        auto messages = std::move(this->messageBuffer.at(apId));
         this->messageBuffer.erase(apId);
+        auto result = processMessageMapDebug(apId, messages);
         if (!result.empty()) return result;
       }
     }
-- 
2.43.0


From 9fe0cfec744b9961ce6073b7fc2ca5d0311071ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 21/42] fix: Function scales its hermite tangents to the length
 of the segment

---
 libs/std/include/rtbot/std/Function.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/libs/std/include/rtbot/std/Function.h b/libs/std/include/rtbot/std/Function.h
index 2b1cf91..ee98870 100644
--- a/libs/std/include/rtbot/std/Function.h
+++ b/libs/std/include/rtbot/std/Function.h
@@ -113,15 +113,18 @@ struct Function : public Operator<T, V> {
     } else {
       if (i == 0 && x < points[0].first) {
         msg.value = hermiteInterpolate(points[0].second, points[1].second, getTangent(0), getTangent(1),
-                                       (x - points[0].first) / (points[1].first - points[0].first));
+                                       (x - points[0].first) / (points[1].first - points[0].first),
+                                       points[1].first - points[0].first);
       } else if (i >= points.size() - 2) {
         size_t last = points.size() - 1;
         msg.value =
             hermiteInterpolate(points[last - 1].second, points[last].second, getTangent(last - 1), getTangent(last),
-                               (x - points[last - 1].first) / (points[last].first - points[last - 1].first));
+                               (x - points[last - 1].first) / (points[last].first - points[last - 1].first),
+                               points[last].first - points[last - 1].first);
       } else {
         msg.value = hermiteInterpolate(points[i].second, points[i + 1].second, getTangent(i), getTangent(i + 1),
-                                       (x - points[i].first) / (points[i + 1].first - points[i].first));
+                                       (x - points[i].first) / (points[i + 1].first - points[i].first),
+                                       points[i + 1].first - points[i].first);
       }
     }
 
@@ -140,7 +143,8 @@ struct Function : public Operator<T, V> {
 
   static V linearInterpolate(V x1, V y1, V x2, V y2, V x) { return y1 + (y2 - y1) * (x - x1) / (x2 - x1); }
 
-  static V hermiteInterpolate(V y0, V y1, V m0, V m1, V mu) {
+  // m0 and m1 are slopes, they have to be scaled to the length of the segment
+  static V hermiteInterpolate(V y0, V y1, V m0, V m1, V mu, V length) {
     V mu2 = mu * mu;
     V mu3 = mu2 * mu;
     V h00 = 2 * mu3 - 3 * mu2 + 1;
@@ -148,7 +152,7 @@ struct Function : public Operator<T, V> {
     V h01 = -2 * mu3 + 3 * mu2;
     V h11 = mu3 - mu2;
 
-    return h00 * y0 + h10 * m0 + h01 * y1 + h11 * m1;
+    return h00 * y0 + h10 * length * m0 + h01 * y1 + h11 * length * m1;
   }
 
   V getTangent(size_t i) const {
-- 
2.43.0


From 0e877d13c812387d6c03979625775ceea4d33b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 22/42] fix: CosineResampler and HermiteResampler refuse an
 interval of zero instead of looping forever

---
 libs/std/include/rtbot/std/CosineResampler.h  | 2 ++
 libs/std/include/rtbot/std/HermiteResampler.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/libs/std/include/rtbot/std/CosineResampler.h b/libs/std/include/rtbot/std/CosineResampler.h
index b599ff5..7928ed0 100644
--- a/libs/std/include/rtbot/std/CosineResampler.h
+++ b/libs/std/include/rtbot/std/CosineResampler.h
@@ -20,6 +20,8 @@ struct CosineResampler : public Operator<T, V> {
   CosineResampler() = default;
 
   CosineResampler(string const &id, T dt) : Operator<T, V>(id) {
+    if (dt <= 0) throw runtime_error(typeName() + ": time interval must be positive");
+
     this->dt = dt;
     this->carryOver = 0;
     this->addDataInput("i1", CosineResampler::size);
diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index cc0f661..ccedbd7 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -21,6 +21,8 @@ struct HermiteResampler : public Operator<T, V> {
   HermiteResampler() = default;
 
   HermiteResampler(string const& id, T dt) : Operator<T, V>(id) {
+    if (dt <= 0) throw runtime_error(typeName() + ": time interval must be positive");
+
     this->dt = dt;
     this->carryOver = 0;
     this->addDataInput("i1", HermiteResampler::size);
-- 
2.43.0


From da588456d8b3b6af7e84744b07c141cf89f3cbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 23/42] fix: operators with a window refuse an empty one
 instead of buffering without bound

---
 libs/finance/include/rtbot/finance/RelativeStrengthIndex.h | 2 ++
 libs/std/include/rtbot/std/AutoRegressive.h                | 1 +
 libs/std/include/rtbot/std/FiniteImpulseResponse.h         | 1 +
 libs/std/include/rtbot/std/MovingAverage.h                 | 1 +
 libs/std/include/rtbot/std/PeakDetector.h                  | 1 +
 libs/std/include/rtbot/std/StandardDeviation.h             | 1 +
 6 files changed, 7 insertions(+)

diff --git a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
index 7cfcab3..6053dab 100644
--- a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
+++ b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
@@ -14,6 +14,8 @@ struct RelativeStrengthIndex : public Operator<T, V> {
   RelativeStrengthIndex() = default;
 
   RelativeStrengthIndex(string const& id, size_t n) : Operator<T, V>(id), initialized(false) {
+    // n + 1 wraps around for a window of -1
+    if (n + 1 < 2) throw runtime_error(typeName() + ": window size must be at least 1");
     this->addDataInput("i1", n + 1);
     this->addOutput("o1");
   }
diff --git a/libs/std/include/rtbot/std/AutoRegressive.h b/libs/std/include/rtbot/std/AutoRegressive.h
index 89c7bb8..352d9d0 100644
--- a/libs/std/include/rtbot/std/AutoRegressive.h
+++ b/libs/std/include/rtbot/std/AutoRegressive.h
@@ -14,6 +14,7 @@ struct AutoRegressive : public Operator<T, V> {
   AutoRegressive() = default;
 
   AutoRegressive(string const& id, vector<V> const& coeff) : Operator<T, V>(id) {
+    if (coeff.empty()) throw runtime_error(typeName() + ": at least one coefficient is needed");
     this->coeff = coeff;
     this->addDataInput("i1", this->coeff.size());
     this->addOutput("o1");
diff --git a/libs/std/include/rtbot/std/FiniteImpulseResponse.h b/libs/std/include/rtbot/std/FiniteImpulseResponse.h
index 22a2296..3a6df4b 100644
--- a/libs/std/include/rtbot/std/FiniteImpulseResponse.h
+++ b/libs/std/include/rtbot/std/FiniteImpulseResponse.h
@@ -12,6 +12,7 @@ struct FiniteImpulseResponse : public Operator<T, V> {
   FiniteImpulseResponse() = default;
 
   FiniteImpulseResponse(string const& id, vector<V> coeff) : Operator<T, V>(id) {
+    if (coeff.empty()) throw runtime_error(typeName() + ": at least one coefficient is needed");
     this->addDataInput("i1", coeff.size());
     this->addOutput("o1");
     this->coeff = coeff;
diff --git a/libs/std/include/rtbot/std/MovingAverage.h b/libs/std/include/rtbot/std/MovingAverage.h
index 4d26cca..37d3ba8 100644
--- a/libs/std/include/rtbot/std/MovingAverage.h
+++ b/libs/std/include/rtbot/std/MovingAverage.h
@@ -12,6 +12,7 @@ struct MovingAverage : public Operator<T, V> {
   MovingAverage() = default;
 
   MovingAverage(string const& id, size_t n) : Operator<T, V>(id) {
+    if (n < 1) throw runtime_error(typeName() + ": window size must be at least 1");
     this->addDataInput("i1", n);
     this->addOutput("o1");
   }
diff --git a/libs/std/include/rtbot/std/PeakDetector.h b/libs/std/include/rtbot/std/PeakDetector.h
index 5259bdb..d399955 100644
--- a/libs/std/include/rtbot/std/PeakDetector.h
+++ b/libs/std/include/rtbot/std/PeakDetector.h
@@ -12,6 +12,7 @@ struct PeakDetector : Operator<T, V> {
   PeakDetector() = default;
 
   PeakDetector(string const& id, size_t n) : Operator<T, V>(id) {
+    if (n < 1) throw runtime_error(typeName() + ": window size must be at least 1");
     this->addDataInput("i1", n);
     this->addOutput("o1");
   }
diff --git a/libs/std/include/rtbot/std/StandardDeviation.h b/libs/std/include/rtbot/std/StandardDeviation.h
index 05d7c15..ae4925d 100644
--- a/libs/std/include/rtbot/std/StandardDeviation.h
+++ b/libs/std/include/rtbot/std/StandardDeviation.h
@@ -16,6 +16,7 @@ struct StandardDeviation : public Operator<T, V> {
   StandardDeviation() = default;
 
   StandardDeviation(string const &id, size_t n) : Operator<T, V>(id) {
+    if (n < 2) throw runtime_error(typeName() + ": window size must be at least 2");
     this->addDataInput("i1", n);
     this->addOutput("o1");
   }
-- 
2.43.0


From 8b0657ecdceef4e9b61af069e7db0a1c3a07beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 24/42] fix: MovingAverage and StandardDeviation average the
 window, not a running sum that keeps old rounding errors

---
 libs/std/include/rtbot/std/MovingAverage.h     | 9 ++++++++-
 libs/std/include/rtbot/std/StandardDeviation.h | 6 +++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/libs/std/include/rtbot/std/MovingAverage.h b/libs/std/include/rtbot/std/MovingAverage.h
index 37d3ba8..6a501f1 100644
--- a/libs/std/include/rtbot/std/MovingAverage.h
+++ b/libs/std/include/rtbot/std/MovingAverage.h
@@ -30,8 +30,15 @@ struct MovingAverage : public Operator<T, V> {
     PortMessage<T, V> toEmit;
     Message<T, V> out;
 
+    size_t size = this->getDataInputSize(inputPort);
+
+    // summed over the window: a running sum keeps the rounding error of values that have left it
+    V sum = 0;
+    auto& data = this->dataInputs.find(inputPort)->second;
+    for (size_t j = 0; j < size; j++) sum = sum + data.at(j).value;
+
     out.time = this->getDataInputLastMessage(inputPort).time;
-    out.value = this->getDataInputSum(inputPort) / this->getDataInputSize(inputPort);
+    out.value = sum / size;
 
     toEmit.push_back(out);
     outputMsgs.emplace("o1", toEmit);
diff --git a/libs/std/include/rtbot/std/StandardDeviation.h b/libs/std/include/rtbot/std/StandardDeviation.h
index ae4925d..6cb8b1c 100644
--- a/libs/std/include/rtbot/std/StandardDeviation.h
+++ b/libs/std/include/rtbot/std/StandardDeviation.h
@@ -35,7 +35,11 @@ struct StandardDeviation : public Operator<T, V> {
     Message<T, V> out;
     size_t size = this->getDataInputSize(inputPort);
 
-    V average = this->getDataInputSum(inputPort) / size;
+    // summed over the window: a running sum keeps the rounding error of values that have left it
+    V average = 0;
+    auto &data = this->dataInputs.find(inputPort)->second;
+    for (size_t j = 0; j < size; j++) average = average + data.at(j).value;
+    average = average / size;
     V std = 0;
 
     for (size_t j = 0; j < size; j++) {
-- 
2.43.0


From 1aec7896452fbc6378d9c74081d61dc81cde6162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:38 +0000
Subject: [PATCH 25/42] fix: a program or pipeline that defines an operator id
 twice is rejected instead of dropping the second operator

---
 libs/api/src/Pipeline.cpp | 1 +
 libs/api/src/Program.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/libs/api/src/Pipeline.cpp b/libs/api/src/Pipeline.cpp
index dccf6ea..4b3585c 100644
--- a/libs/api/src/Pipeline.cpp
+++ b/libs/api/src/Pipeline.cpp
@@ -42,6 +42,7 @@ Pipeline<T,V>::Pipeline(string const& id, const string& json_prog_)
     for (const json& x : j.at("operators")) {
       pair<map<string, Op_ptr<uint64_t, double>>::iterator, bool> it;
       it = all_op.emplace(x["id"], FactoryOp::readOp(x.dump().c_str()));
+      if (!it.second) throw runtime_error("Operator " + it.first->first + " is defined twice");
     }
 
     // make connections, save the used in/out ports
diff --git a/libs/api/src/Program.cpp b/libs/api/src/Program.cpp
index a761c5f..e830b20 100644
--- a/libs/api/src/Program.cpp
+++ b/libs/api/src/Program.cpp
@@ -52,6 +52,7 @@ void Program::init() {
   for (const json& x : j.at("operators")) {
     pair<map<string, Op_ptr<uint64_t, double>>::iterator, bool> it;
     it = all_op.emplace(x["id"], FactoryOp::readOp(x.dump().c_str()));
+    if (!it.second) throw runtime_error("Operator " + it.first->first + " is defined twice");
   }
 
   // connections
-- 
2.43.0


From d36fe37fc5c73975a2caf133568a51bf66399925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:55 +0000
Subject: [PATCH 26/42] fix: a Join without numPorts has the documented two
 ports instead of undefined behaviour

---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 3c6d884..fc0f3d3 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -118,7 +118,7 @@ void to_json(json& j, const Join<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Join<T, V>& p) {
-  p = Join<T, V>(j["id"].get<string>(), j["numPorts"].get<size_t>());
+  p = Join<T, V>(j["id"].get<string>(), j.value("numPorts", static_cast<size_t>(2)));
 }
 
 template <class T, class V>
-- 
2.43.0


From 53d3905a25d901e85540fb9f1c9c6026bffafc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:55 +0000
Subject: [PATCH 27/42] fix: the schema of Linear requires the coefficients the
 operator is built from

---
 libs/std/include/rtbot/std/Linear.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/Linear.md b/libs/std/include/rtbot/std/Linear.md
index 3652d7c..6ed2f90 100644
--- a/libs/std/include/rtbot/std/Linear.md
+++ b/libs/std/include/rtbot/std/Linear.md
@@ -21,7 +21,7 @@ jsonschema:
       minItems: 2
       items:
         type: number
-  required: ["id"]
+  required: ["id", "coeff"]
 ---
 
 # Linear
-- 
2.43.0


From 053cc8d21b5cd3186cb2b46da7855ab939b93bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:55 +0000
Subject: [PATCH 28/42] fix: the schema of LessThan accepts any number as the
 reference value, like GreaterThan

---
 libs/std/include/rtbot/std/LessThan.md | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/LessThan.md b/libs/std/include/rtbot/std/LessThan.md
index ab8c8ee..177ca68 100644
--- a/libs/std/include/rtbot/std/LessThan.md
+++ b/libs/std/include/rtbot/std/LessThan.md
@@ -14,7 +14,9 @@ jsonschema:
       type: string
       description: The id of the operator
     value:
-      type: integer
+      type: number
+      examples:
+        - 1.0
       description: The reference value
   required: ["id", "value"]
 ---
-- 
2.43.0


From 18beca4a43d9133bf8b61e9139ba33b5251be96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:55 +0000
Subject: [PATCH 29/42] fix: the schemas of windows and resamplers exclude the
 sizes the operators refuse, negative ones and fractions

---
 libs/std/include/rtbot/std/CosineResampler.md       | 1 +
 libs/std/include/rtbot/std/FiniteImpulseResponse.md | 1 +
 libs/std/include/rtbot/std/HermiteResampler.md      | 1 +
 libs/std/include/rtbot/std/MovingAverage.md         | 1 +
 libs/std/include/rtbot/std/PeakDetector.md          | 1 +
 libs/std/include/rtbot/std/StandardDeviation.md     | 3 ++-
 6 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/CosineResampler.md b/libs/std/include/rtbot/std/CosineResampler.md
index d0749b0..dd28152 100644
--- a/libs/std/include/rtbot/std/CosineResampler.md
+++ b/libs/std/include/rtbot/std/CosineResampler.md
@@ -15,6 +15,7 @@ jsonschema:
       description: The id of the operator
     dt:
       type: integer
+      minimum: 1
       examples:
         - 5
       description: The size to transform the input grid steps, if any, on dt steps
diff --git a/libs/std/include/rtbot/std/FiniteImpulseResponse.md b/libs/std/include/rtbot/std/FiniteImpulseResponse.md
index c66ebe9..fde0edc 100644
--- a/libs/std/include/rtbot/std/FiniteImpulseResponse.md
+++ b/libs/std/include/rtbot/std/FiniteImpulseResponse.md
@@ -15,6 +15,7 @@ jsonschema:
       description: The id of the operator
     coeff:
       type: array
+      minItems: 1
       examples: 
         - [1, 0, -1]
       description: The vector of coefficients to be combined with the buffered message values.
diff --git a/libs/std/include/rtbot/std/HermiteResampler.md b/libs/std/include/rtbot/std/HermiteResampler.md
index c295e73..5fe288d 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.md
+++ b/libs/std/include/rtbot/std/HermiteResampler.md
@@ -15,6 +15,7 @@ jsonschema:
       description: The id of the operator
     dt:
       type: integer
+      minimum: 1
       examples:
         - 5
       description: The size to transform the input grid steps, if any, on dt steps
diff --git a/libs/std/include/rtbot/std/MovingAverage.md b/libs/std/include/rtbot/std/MovingAverage.md
index 6a1b2f6..8d0115c 100644
--- a/libs/std/include/rtbot/std/MovingAverage.md
+++ b/libs/std/include/rtbot/std/MovingAverage.md
@@ -15,6 +15,7 @@ jsonschema:
       description: The id of the operator
     n:
       type: integer
+      minimum: 1
       examples:
         - 20
       description: The window size, in grid steps, to be used in the computation.
diff --git a/libs/std/include/rtbot/std/PeakDetector.md b/libs/std/include/rtbot/std/PeakDetector.md
index 6efd6b0..624eaf2 100644
--- a/libs/std/include/rtbot/std/PeakDetector.md
+++ b/libs/std/include/rtbot/std/PeakDetector.md
@@ -15,6 +15,7 @@ jsonschema:
       description: The id of the operator
     n:
       type: integer
+      minimum: 1
       examples:
         - 3.0
       description: The window size, in grid steps, to be used in the computation.
diff --git a/libs/std/include/rtbot/std/StandardDeviation.md b/libs/std/include/rtbot/std/StandardDeviation.md
index 6e1e0d2..fa3517a 100644
--- a/libs/std/include/rtbot/std/StandardDeviation.md
+++ b/libs/std/include/rtbot/std/StandardDeviation.md
@@ -14,7 +14,8 @@ jsonschema:
       type: string
       description: The id of the operator
     n:
-      type: number
+      type: integer
+      minimum: 2
       examples:
         - 20
       description: The number of grid steps to use to compute the standard deviation.
-- 
2.43.0


From 80e7c6686c7add28e0e51884741945bab6fff8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:56 +0000
Subject: [PATCH 30/42] fix: the Python and WebAssembly modules name the
 createProgram overload they expose, without which neither compiles

---
 libs/api/wasm/emscripten-bindings.cpp | 2 +-
 libs/wrappers/python/rtbot.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/api/wasm/emscripten-bindings.cpp b/libs/api/wasm/emscripten-bindings.cpp
index 8326827..5f228a5 100644
--- a/libs/api/wasm/emscripten-bindings.cpp
+++ b/libs/api/wasm/emscripten-bindings.cpp
@@ -56,7 +56,7 @@ EMSCRIPTEN_BINDINGS(RtBot) {
   emscripten::function("validate", &validate);
   emscripten::function("validateOperator", &validateOperator);
 
-  emscripten::function("createProgram", &createProgram);
+  emscripten::function("createProgram", select_overload<string(string const&, string const&)>(&createProgram));
   emscripten::function("deleteProgram", &deleteProgram);
 
   emscripten::function("addToMessageBuffer", &addToMessageBuffer);
diff --git a/libs/wrappers/python/rtbot.cpp b/libs/wrappers/python/rtbot.cpp
index ba9dbb5..59c21dd 100644
--- a/libs/wrappers/python/rtbot.cpp
+++ b/libs/wrappers/python/rtbot.cpp
@@ -20,7 +20,7 @@ PYBIND11_MODULE(rtbotapi, m) {
   m.def("validate", &validate, "Validates json representation of an rtbot program");
   m.def("validateOperator", &validateOperator, "Validates a json representation of an rtbot operator");
 
-  m.def("createProgram", &createProgram, "Register an rtbot program in memory");
+  m.def("createProgram", py::overload_cast<const string&, const string&>(&createProgram), "Register an rtbot program in memory");
   m.def("deleteProgram", &deleteProgram, "Deletes and frees the memory of a previsouly created rtbot program");
   
   m.def("addToMessageBuffer", &addToMessageBuffer);
-- 
2.43.0


From fc6d1748610f920289b36ed77668184b447f8a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 31/42] fix: the Python Program writes its entry operator
 whether or not it has a date

---
 libs/wrappers/python/rtbot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index 0aa8100..75f21fb 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -107,7 +107,7 @@ class Program:
         if self.date:
             obj["date"] = self.date
 
-        if self.date:
+        if self.entryOperator:
             obj["entryOperator"] = self.entryOperator
 
         return json.dumps(obj)
-- 
2.43.0


From 53f0239830fe12e3585205040b08835f619e4665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:14 +0000
Subject: [PATCH 32/42] fix: the Python Run reports why a program was refused
 instead of failing on its missing ports

---
 libs/wrappers/python/rtbot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index 75f21fb..004f75c 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -18,6 +18,9 @@ class Run(object):
 
     def exec(self):
         result = api.createProgram(self.program.id, self.program.toJson())
+        if result != "":
+            raise Exception(json.loads(result)["error"])
+
         # TODO: here we assume that the data is a list of rows, which are a list
         # of numbers, where the first element of the row is the time and the remaining
         # ones correspond to the values passed to the ports and they have the order according
@@ -25,9 +28,6 @@ class Run(object):
         # Move this to receive a pandas dataframe instead
         ports = json.loads(api.getProgramEntryPorts(self.program.id))
 
-        if result != "":
-            raise Exception(json.loads(result)["error"])
-
         result = {}
 
         for row in self.data:
-- 
2.43.0


From 37a29d2f7a31a96e1d7593219c51e85803c2de78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:33 +0000
Subject: [PATCH 33/42] fix: deleteConnection removes the connection it is
 given, not the ones sharing nothing with it

---
 libs/wrappers/javascript/src/program.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/wrappers/javascript/src/program.ts b/libs/wrappers/javascript/src/program.ts
index 235cf55..10a0e17 100644
--- a/libs/wrappers/javascript/src/program.ts
+++ b/libs/wrappers/javascript/src/program.ts
@@ -62,7 +62,7 @@ export class Program {
   deleteConnection(opFrom: OperatorId, opTo: OperatorId, opFromPort: PortId = "o1", opToPort: PortId = "i1") {
     this.connections = this.connections.filter(
       ({ from, to, fromPort, toPort }) =>
-        !(from !== opFrom && to !== opTo && fromPort !== opFromPort && toPort !== opToPort)
+        !(from === opFrom && to === opTo && fromPort === opFromPort && toPort === opToPort)
     );
   }
 
-- 
2.43.0


From 1e7baa562b52566a02c07bd82cdd7605d0a81936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:33 +0000
Subject: [PATCH 34/42] fix: overlapping process calls of the JavaScript api do
 not share the message buffer

---
 libs/wrappers/javascript/src/api.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/wrappers/javascript/src/api.ts b/libs/wrappers/javascript/src/api.ts
index a1866f0..46c88fb 100644
--- a/libs/wrappers/javascript/src/api.ts
+++ b/libs/wrappers/javascript/src/api.ts
@@ -38,16 +38,20 @@ export class RtBot {
     programId: string,
     messages: { [portId: string]: { time: number; value: number }[] }
   ): Promise<RtBotIterationOutput> {
-    this.prepareInternalMessageBuffer(programId, messages, await this.rtbot);
-    return JSON.parse((await this.rtbot).processMessageBufferDebug(programId));
+    // no await between filling and processing the buffer, otherwise overlapping calls share it
+    const rtbot = await this.rtbot;
+    this.prepareInternalMessageBuffer(programId, messages, rtbot);
+    return JSON.parse(rtbot.processMessageBufferDebug(programId));
   }
 
   async process(
     programId: string,
     messages: { [portId: string]: { time: number; value: number }[] }
   ): Promise<RtBotIterationOutput> {
-    this.prepareInternalMessageBuffer(programId, messages, await this.rtbot);
-    return JSON.parse((await this.rtbot).processMessageBuffer(programId));
+    // no await between filling and processing the buffer, otherwise overlapping calls share it
+    const rtbot = await this.rtbot;
+    this.prepareInternalMessageBuffer(programId, messages, rtbot);
+    return JSON.parse(rtbot.processMessageBuffer(programId));
   }
 
   prepareInternalMessageBuffer(
-- 
2.43.0


From fc2a8765932de1b107c26f3757b70ad4ce986a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:33 +0000
Subject: [PATCH 35/42] fix: the generated Python module writes default values
 as Python literals

---
 tools/generator/src/index.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tools/generator/src/index.ts b/tools/generator/src/index.ts
index 62b1033..50a1abe 100644
--- a/tools/generator/src/index.ts
+++ b/tools/generator/src/index.ts
@@ -17,6 +17,13 @@ const pythonTemplate = compileTemplate("python");
 const usageMdTemplate = compileTemplate("usage-md");
 const parametersMdTemplate = compileTemplate("parameters-md");
 
+// defaults come from a json schema, where true, false and strings are written differently
+const pythonLiteral = (value: unknown): string => {
+  if (value === undefined || value === null) return "None";
+  if (typeof value === "boolean") return value ? "True" : "False";
+  return JSON.stringify(value);
+};
+
 program
   .description("RtBot code generator")
   .option(
@@ -160,7 +167,7 @@ program
             .filter((p) => p !== "type")
             .map((k) => ({
               name: k,
-              init: s.required.indexOf(k) > -1 ? "" : ` = ${s.properties[k].default ?? "None"}`,
+              init: s.required.indexOf(k) > -1 ? "" : ` = ${pythonLiteral(s.properties[k].default)}`,
             })),
         })),
       });
-- 
2.43.0


From c774c00407782146183e2dc6304ec44da1274767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:33 +0000
Subject: [PATCH 36/42] fix: the debug command passes its verbose flag as
 verbose, not as progress callback

---
 apps/cli/src/commands/debug.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cli/src/commands/debug.ts b/apps/cli/src/commands/debug.ts
index 226b27a..8944d91 100644
--- a/apps/cli/src/commands/debug.ts
+++ b/apps/cli/src/commands/debug.ts
@@ -94,7 +94,7 @@ export const registerDebug = (program: Command) => {
           }
         })
         .filter((r) => r.length === 2);
-      const rtbotRun = new RtBotRun(rtBotProgram, preparedData, RtBotRunOutputFormat.EXTENDED, verbose);
+      const rtbotRun = new RtBotRun(rtBotProgram, preparedData, RtBotRunOutputFormat.EXTENDED, undefined, verbose);
       try {
         await rtbotRun.run();
       } catch (e: any) {
-- 
2.43.0


From a7b9e100bd087ab860521cbb1bf1c57c4f90f690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:33 +0000
Subject: [PATCH 37/42] fix: the debugger's table stops at the last iteration

---
 apps/cli/src/tui/store.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index 21eed9d..344c5c8 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -81,7 +81,7 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
           columns: [headers],
         };
 
-      for (let i = iteration - 1; i < Math.min(iteration, maxIteration) + 10; i++) {
+      for (let i = iteration - 1; i < Math.min(iteration + 10, maxIteration); i++) {
         const r = state.result![i]!;
         const row = opHeaders.map((h) => {
           const [opId, port] = h.split(":");
-- 
2.43.0


From ffee6ece043298685f162059408a80d34cb86777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:33 +0000
Subject: [PATCH 38/42] fix: the debugger shows - for an operator that emitted
 only on other ports

---
 apps/cli/src/tui/store.ts | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index 344c5c8..15e3fb8 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -85,13 +85,11 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
         const r = state.result![i]!;
         const row = opHeaders.map((h) => {
           const [opId, port] = h.split(":");
-          if (opId && r.out[opId]) {
-            const opOutput = r.out[opId]!;
-            return opOutput[port ?? "o1"]!.map(
-              ({ time, value }: any) => `(${time}, ${Math.round(value * 100) / 100})`
-            ).join(", ");
-          }
-          return "-";
+          // the operator may have emitted nothing, or only on other ports
+          const msgs = opId ? r.out[opId]?.[port ?? "o1"] : undefined;
+          return msgs
+            ? msgs.map(({ time, value }: any) => `(${time}, ${Math.round(value * 100) / 100})`).join(", ")
+            : "-";
         });
         rows.push([`${i}`, ...row]);
       }
-- 
2.43.0


From eb83a2a2403902118c5059ea8aa7f32cfdfefe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:39 +0000
Subject: [PATCH 39/42] fix: the WebAssembly module takes message times above
 32 bits

---
 libs/api/include/rtbot/bindings.h     | 4 ++--
 libs/api/src/bindings.cpp             | 2 +-
 libs/api/wasm/emscripten-bindings.cpp | 7 ++++++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/libs/api/include/rtbot/bindings.h b/libs/api/include/rtbot/bindings.h
index a496557..0efc7ca 100644
--- a/libs/api/include/rtbot/bindings.h
+++ b/libs/api/include/rtbot/bindings.h
@@ -25,8 +25,8 @@ string validateOperator(string const& type, string const& json_op);
 string createProgram(string const& programId, string const& json_program);
 string deleteProgram(string const& programId);
 
-// TODO: wasm support for 64 bit looks uncertain, hence we use only `unsigned long` for the api
-string addToMessageBuffer(const string& programId, const string& portId, unsigned long time, double value);
+// the wasm module takes the time as a number (see emscripten-bindings.cpp), `unsigned long` has only 32 bits there
+string addToMessageBuffer(const string& programId, const string& portId, uint64_t time, double value);
 string processMessageBuffer(const string& programId);
 string processMessageBufferDebug(const string& programId);
 
diff --git a/libs/api/src/bindings.cpp b/libs/api/src/bindings.cpp
index be89eb0..c519f57 100644
--- a/libs/api/src/bindings.cpp
+++ b/libs/api/src/bindings.cpp
@@ -113,7 +113,7 @@ string createProgram(string const& programId, string const& json_program) {
 
 string deleteProgram(string const& programId) { return to_string(factory.deleteProgram(programId)); }
 
-string addToMessageBuffer(const string& programId, const string& portId, unsigned long time, double value) {
+string addToMessageBuffer(const string& programId, const string& portId, uint64_t time, double value) {
   return to_string(factory.addToMessageBuffer(programId, portId, Message<uint64_t, double>(time, value)));
 }
 
diff --git a/libs/api/wasm/emscripten-bindings.cpp b/libs/api/wasm/emscripten-bindings.cpp
index 5f228a5..875d208 100644
--- a/libs/api/wasm/emscripten-bindings.cpp
+++ b/libs/api/wasm/emscripten-bindings.cpp
@@ -48,6 +48,11 @@ string processBatch32Debug(string const& programId, vector<uint32_t> times32, ve
   return processBatchDebug(programId, times, values, ports);
 }
 
+// a javascript number holds every integer up to 2^53, 64 bit integers would need BigInt on the javascript side
+string addToMessageBufferNumber(string const& programId, string const& portId, double time, double value) {
+  return addToMessageBuffer(programId, portId, static_cast<uint64_t>(time), value);
+}
+
 EMSCRIPTEN_BINDINGS(RtBot) {
   value_object<rtbot::Message<std::uint64_t, double>>("Message")
       .field("time", &rtbot::Message<std::uint64_t, double>::time)
@@ -59,7 +64,7 @@ EMSCRIPTEN_BINDINGS(RtBot) {
   emscripten::function("createProgram", select_overload<string(string const&, string const&)>(&createProgram));
   emscripten::function("deleteProgram", &deleteProgram);
 
-  emscripten::function("addToMessageBuffer", &addToMessageBuffer);
+  emscripten::function("addToMessageBuffer", &addToMessageBufferNumber);
   emscripten::function("processMessageBuffer", &processMessageBuffer);
   emscripten::function("processMessageBufferDebug", &processMessageBufferDebug);
 
-- 
2.43.0


From 46c1cb8421f9ad04849e0c4db1c8f5bc980d99d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:56 +0000
Subject: [PATCH 40/42] fix: a port listed twice in the output definition is
 reported once

---
 libs/api/include/rtbot/Program.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/libs/api/include/rtbot/Program.h b/libs/api/include/rtbot/Program.h
index d3d2f61..7c8d8aa 100644
--- a/libs/api/include/rtbot/Program.h
+++ b/libs/api/include/rtbot/Program.h
@@ -79,12 +79,8 @@ struct Program {
         auto outResults = opResults.at(op->first);
         for (int i = 0; i < op->second.size(); i++) {
           if (outResults.count(op->second.at(i)) > 0) {
-            OperatorMessage<uint64_t, double> opReturn;
-            opReturn.emplace(op->second.at(i), outResults.at(op->second.at(i)));
-            if (toReturn.count(op->first) == 0)
-              toReturn.emplace(op->first, opReturn);
-            else
-              Operator<uint64_t, double>::mergeOutput(toReturn[op->first], opReturn);
+            // a port that is listed twice is reported once
+            toReturn[op->first].emplace(op->second.at(i), outResults.at(op->second.at(i)));
           }
         }
       }
-- 
2.43.0


From c8199fdb82ca25bd6330d1766c93f17df122456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:56 +0000
Subject: [PATCH 41/42] fix: a pipeline finds inner operators whose id contains
 a colon

---
 libs/api/include/rtbot/Pipeline.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libs/api/include/rtbot/Pipeline.h b/libs/api/include/rtbot/Pipeline.h
index 320c18e..8657b4c 100644
--- a/libs/api/include/rtbot/Pipeline.h
+++ b/libs/api/include/rtbot/Pipeline.h
@@ -82,12 +82,10 @@ struct Pipeline : public Operator<T, V> {
   }
 
  private:
+  // an operator id may contain the delimiter, a port never does
   static auto split2(string const& s, char delim = ':') {
-    std::istringstream is(s);
-    string word1, word2;
-    getline(is, word1, delim);
-    getline(is, word2, char(0));
-    return make_pair(word1, word2);
+    auto pos = s.rfind(delim);
+    return make_pair(s.substr(0, pos), s.substr(pos + 1));
   }
 };
 
-- 
2.43.0


From b2335dba68bf48f4585a04fe2574fb1a01442754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:56 +0000
Subject: [PATCH 42/42] fix: the debugger shows the messages of operators whose
 id contains a colon

---
 apps/cli/src/tui/store.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index 15e3fb8..bc329a9 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -74,6 +74,8 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
           op.ports.length > 1 ? [...acc, ...op.ports.map((p) => `${op.id}:${p}`)] : [...acc, op.id],
         []
       );
+      // the id of an operator may contain a colon, so it is not read back from the header
+      const opPorts = operators.flatMap(({ id, ports }) => ports.map((port) => ({ id, port })));
       const headers = ["iter", ...opHeaders];
 
       if (iteration === 0)
@@ -83,10 +85,9 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
 
       for (let i = iteration - 1; i < Math.min(iteration + 10, maxIteration); i++) {
         const r = state.result![i]!;
-        const row = opHeaders.map((h) => {
-          const [opId, port] = h.split(":");
+        const row = opPorts.map(({ id, port }) => {
           // the operator may have emitted nothing, or only on other ports
-          const msgs = opId ? r.out[opId]?.[port ?? "o1"] : undefined;
+          const msgs = r.out[id]?.[port];
           return msgs
             ? msgs.map(({ time, value }: any) => `(${time}, ${Math.round(value * 100) / 100})`).join(", ")
             : "-";
-- 
2.43.0

