From 397b253202af1b388a505e1c067b8896eb9aef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 01/50] fix: include the headers of the registered
 ConstantResampler and Function operators

---
 libs/api/src/FactoryOp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index cb51796..32b1184 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -15,6 +15,7 @@
 #include "rtbot/std/And.h"
 #include "rtbot/std/AutoRegressive.h"
 #include "rtbot/std/Constant.h"
+#include "rtbot/std/ConstantResampler.h"
 #include "rtbot/std/CosineResampler.h"
 #include "rtbot/std/Count.h"
 #include "rtbot/std/CumulativeSum.h"
@@ -22,6 +23,7 @@
 #include "rtbot/std/Division.h"
 #include "rtbot/std/EqualTo.h"
 #include "rtbot/std/FiniteImpulseResponse.h"
+#include "rtbot/std/Function.h"
 #include "rtbot/std/GreaterThan.h"
 #include "rtbot/std/GreaterThanStream.h"
 #include "rtbot/std/HermiteResampler.h"
-- 
2.43.0


From f215ff7ceb686774f3b52e86abd654a4127d260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 02/50] fix: Join emits a complete tuple even when aligning the
 heads takes several rounds

---
 libs/core/include/rtbot/Join.h | 63 ++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/libs/core/include/rtbot/Join.h b/libs/core/include/rtbot/Join.h
index 1488335..4a9b4a1 100644
--- a/libs/core/include/rtbot/Join.h
+++ b/libs/core/include/rtbot/Join.h
@@ -43,46 +43,51 @@ class Join : public Operator<T, V> {
 
   virtual ProgramMessage<T, V> executeData() override {
     string inputPort;
+
     auto in = this->getDataInputs();
-    inputPort = in.at(0);
 
-    if (this->dataInputs.find(inputPort)->second.empty()) return {};
-    T latest = this->dataInputs.find(inputPort)->second.front().time;
+    // dropping the messages older than the newest head can bring up an even newer head,
+    // hence the heads have to be aligned again until they agree or a port runs out of messages
+    while (true) {
+      inputPort = in.at(0);
 
-    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
-      if (it->second.empty())
-        return {};
-      else if (it->second.front().time > latest) {
-        inputPort = it->first;
-        latest = it->second.front().time;
-      }
-    }
+      if (this->dataInputs.find(inputPort)->second.empty()) return {};
+      T latest = this->dataInputs.find(inputPort)->second.front().time;
 
-    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
-      if (it->first == inputPort) continue;
-      while (!it->second.empty() && (it->second.front().time < this->dataInputs.find(inputPort)->second.front().time)) {
-        it->second.setSum(it->second.getSum() - it->second.front().value);
-        it->second.pop_front();
+      for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
+        if (it->second.empty())
+          return {};
+        else if (it->second.front().time > latest) {
+          inputPort = it->first;
+          latest = it->second.front().time;
+        }
       }
-    }
 
-    bool all_ready = true;
-    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
-      if (it->second.empty() || (it->second.front().time > this->dataInputs.find(inputPort)->second.front().time)) {
-        all_ready = false;
-        break;
+      for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
+        if (it->first == inputPort) continue;
+        while (!it->second.empty() && (it->second.front().time < this->dataInputs.find(inputPort)->second.front().time)) {
+          it->second.setSum(it->second.getSum() - it->second.front().value);
+          it->second.pop_front();
+        }
       }
-    }
 
-    if (all_ready) {
-      auto toEmit = processData();
+      bool all_ready = true;
       for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
-        it->second.setSum(it->second.getSum() - it->second.front().value);
-        it->second.pop_front();
+        if (it->second.empty() || (it->second.front().time > this->dataInputs.find(inputPort)->second.front().time)) {
+          all_ready = false;
+          break;
+        }
+      }
+
+      if (all_ready) {
+        auto toEmit = processData();
+        for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
+          it->second.setSum(it->second.getSum() - it->second.front().value);
+          it->second.pop_front();
+        }
+        return this->emit(toEmit);
       }
-      return this->emit(toEmit);
     }
-    return {};
   }
 
   virtual OperatorMessage<T, V> processData() {
-- 
2.43.0


From 9f130b01426eb75269d84f4ee8cde0a50d8f3092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 03/50] fix: Linear pairs every coefficient with its own port
 when there are ten or more ports

---
 libs/std/include/rtbot/std/Linear.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/std/include/rtbot/std/Linear.h b/libs/std/include/rtbot/std/Linear.h
index 70b59a9..fcdc61d 100644
--- a/libs/std/include/rtbot/std/Linear.h
+++ b/libs/std/include/rtbot/std/Linear.h
@@ -26,14 +26,14 @@ struct Linear : public Join<T, V> {
 
   OperatorMessage<T, V> processData() override {
     OperatorMessage<T, V> outputMsgs;
-    int i = 0;
     Message<T, V> out;
     out.value = 0;
     out.time = 0;
-    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
+    // the map of ports is sorted by name (i1, i10, i2...), hence look for each port by its name
+    for (size_t i = 0; i < this->coeff.size(); i++) {
+      auto it = this->dataInputs.find(string("i") + to_string(i + 1));
       out.value = out.value + it->second.front().value * this->coeff.at(i);
       out.time = it->second.front().time;
-      i++;
     }
 
     PortMessage<T, V> v;
-- 
2.43.0


From c90fec44c6370c153d93e07a6274eec0fe371ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 04/50] fix: Difference stamps the time, not the value, of the
 previous message

---
 libs/std/include/rtbot/std/Difference.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/Difference.h b/libs/std/include/rtbot/std/Difference.h
index 35c133d..6c3b75c 100644
--- a/libs/std/include/rtbot/std/Difference.h
+++ b/libs/std/include/rtbot/std/Difference.h
@@ -31,7 +31,7 @@ struct Difference : public Operator<T, V> {
     Message<T, V> m0 = this->getDataInputMessage(inputPort, 0);
     Message<T, V> out;
     out.value = m1.value - m0.value;
-    out.time = (this->useOldestTime) ? m1.time : m0.value;
+    out.time = (this->useOldestTime) ? m1.time : m0.time;
     PortMessage<T, V> v;
     v.push_back(out);
     outputMsgs.emplace("o1", v);
-- 
2.43.0


From b54d7faf1b1583e2b882c08c206d32f6ccdaed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 05/50] fix: TimeShift keeps times for a zero shift and clamps
 negative shifts of unsigned times

---
 libs/api/src/FactoryOp.cpp             |  2 +-
 libs/std/include/rtbot/std/TimeShift.h | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 32b1184..bd73bc1 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -308,7 +308,7 @@ void to_json(json& j, const TimeShift<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, TimeShift<T, V>& p) {
-  p = TimeShift<T, V>(j["id"].get<string>(), j.value("dt", 1), j.value("times", 1));
+  p = TimeShift<T, V>(j["id"].get<string>(), j.value("dt", T(1)), j.value("times", 1));
 }
 
 template <class T, class V>
diff --git a/libs/std/include/rtbot/std/TimeShift.h b/libs/std/include/rtbot/std/TimeShift.h
index 587d0bc..99a4cbb 100644
--- a/libs/std/include/rtbot/std/TimeShift.h
+++ b/libs/std/include/rtbot/std/TimeShift.h
@@ -32,10 +32,16 @@ struct TimeShift : public Operator<T, V> {
     OperatorMessage<T, V> outputMsgs;
     Message<T, V> out = this->getDataInputLastMessage(inputPort);
 
-    out.time = ((this->dt * this->times < 0) && (out.time > abs((double)(this->dt * this->times))) ||
-                (this->dt * this->times > 0))
-                   ? out.time + this->dt * this->times
-                   : 0;
+    // T can be unsigned, hence the sign of the shift has to be handled apart from its magnitude
+    T step = (this->dt < 0) ? -this->dt : this->dt;
+    T count = (this->times < 0) ? -(T)this->times : (T)this->times;
+    T shift = step * count;
+    bool backward = (this->dt < 0) != (this->times < 0);
+
+    if (backward)
+      out.time = (out.time > shift) ? out.time - shift : 0;
+    else
+      out.time = out.time + shift;
     PortMessage<T, V> v;
     v.push_back(out);
     outputMsgs.emplace("o1", v);
-- 
2.43.0


From 9ba274ae50d26db1853ab2dc0bdb6239a2946a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 06/50] fix: Variable answers every pending query and keeps the
 fraction of its default value

---
 libs/api/src/FactoryOp.cpp            |  2 +-
 libs/std/include/rtbot/std/Variable.h | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index bd73bc1..bf02b21 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -298,7 +298,7 @@ void to_json(json& j, const Variable<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Variable<T, V>& p) {
-  p = Variable<T, V>(j["id"].get<string>(), j.value("value", 0));
+  p = Variable<T, V>(j["id"].get<string>(), j.value("value", V(0)));
 }
 
 template <class T, class V>
diff --git a/libs/std/include/rtbot/std/Variable.h b/libs/std/include/rtbot/std/Variable.h
index 40ec486..c9bd910 100644
--- a/libs/std/include/rtbot/std/Variable.h
+++ b/libs/std/include/rtbot/std/Variable.h
@@ -16,7 +16,7 @@ class Variable : public Operator<T, V> {
     this->value = value;
     this->initialized = false;
     this->addDataInput("i1");
-    this->addControlInput("c1", 1);
+    this->addControlInput("c1");
     this->addOutput("o1");
   }
 
@@ -66,8 +66,16 @@ class Variable : public Operator<T, V> {
   V value;
   bool initialized;
 
+  // answer all the pending queries that can be decided with the data received so far
   OperatorMessage<T, V> query() {
     OperatorMessage<T, V> outputMsgs;
+    for (auto answer = this->answerNext(); !answer.empty(); answer = this->answerNext())
+      Operator<T, V>::mergeOutput(outputMsgs, answer);
+    return outputMsgs;
+  }
+
+  OperatorMessage<T, V> answerNext() {
+    OperatorMessage<T, V> outputMsgs;
 
     vector<string> in = this->getDataInputs();
     vector<string> cn = this->getControlInputs();
-- 
2.43.0


From e72a6859982df680927b898b36e75aee4701d5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 07/50] fix: AutoRegressive applies its first coefficient to
 the latest output and refuses an empty list

---
 libs/std/include/rtbot/std/AutoRegressive.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/AutoRegressive.h b/libs/std/include/rtbot/std/AutoRegressive.h
index b40ce25..0661084 100644
--- a/libs/std/include/rtbot/std/AutoRegressive.h
+++ b/libs/std/include/rtbot/std/AutoRegressive.h
@@ -14,6 +14,7 @@ struct AutoRegressive : public Operator<T, V> {
   AutoRegressive() = default;
 
   AutoRegressive(string const& id, vector<V> const& coeff) : Operator<T, V>(id) {
+    if (coeff.empty()) throw runtime_error(typeName() + ": number of coefficients have to be greater than or equal 1");
     this->coeff = coeff;
     this->addDataInput("i1", this->coeff.size());
     this->addOutput("o1");
@@ -60,7 +61,7 @@ struct AutoRegressive : public Operator<T, V> {
       throw runtime_error(typeName() + " : more than 1 input port found");
     size_t n = this->getDataInputMaxSize(inputPort);
     Message<T, V> out = this->getDataInputLastMessage(inputPort);
-    for (auto i = 0; i < n; i++) out.value += this->coeff[i] * this->getDataInputMessage(inputPort, i).value;
+    for (auto i = 0; i < n; i++) out.value += this->coeff[n - 1 - i] * this->getDataInputMessage(inputPort, i).value;
     OperatorMessage<T, V> toEmit;
     PortMessage<T, V> v;
     v.push_back(out);
-- 
2.43.0


From 6d154f764afa350e57226e4f316c043b79104727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 08/50] fix: HermiteResampler handles the first interval once
 and with any time scale

---
 libs/std/include/rtbot/std/HermiteResampler.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index 2d0c84d..f0f0b3d 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -83,6 +83,8 @@ struct HermiteResampler : public Operator<T, V> {
     PortMessage<T, V> toEmit;
 
     if (before.get() == nullptr) {
+      // no grid point may fall into the interval [0,1], which has to be looked at only once anyway
+      this->get(-1, inputPort);
       toEmit = this->lookAt(0, 1, inputPort);
       auto toAdd = this->lookAt(1, 2, inputPort);
       toEmit.insert(toEmit.end(), toAdd.begin(), toAdd.end());
@@ -142,12 +144,13 @@ struct HermiteResampler : public Operator<T, V> {
     if (index >= 0)
       return this->getDataInputMessage(inputPort, index);
     else if (before.get() == nullptr) {
-      vector<T> x;
+      // relative to the first message, as the time itself can be too large to be squared
+      vector<V> x;
       vector<V> y;
       V average = 0;
       size_t n = this->getDataInputSize(inputPort);
       for (int i = 0; i < n; i++) {
-        x.push_back(this->getDataInputMessage(inputPort, i).time);
+        x.push_back(this->getDataInputMessage(inputPort, i).time - this->getDataInputMessage(inputPort, 0).time);
         y.push_back(this->getDataInputMessage(inputPort, i).value);
       }
       for (size_t i = 1; i < n; i++) {
@@ -157,7 +160,7 @@ struct HermiteResampler : public Operator<T, V> {
       average = average / (n - 1);
       pair<V, V> pair = this->getLineLeastSquares(x, y);
       T time = this->getDataInputMessage(inputPort, 0).time + (index * ((T)average));
-      V value = pair.second * time + pair.first;
+      V value = pair.second * index * (T)average + pair.first;
       before = make_unique<Message<T, V>>(Message<T, V>(time, value));
     }
     return *(before.get());
@@ -171,9 +174,9 @@ struct HermiteResampler : public Operator<T, V> {
       y is the vector of the y-axis
       the coordinates of a point are (x_i;y_i)
   */
-  pair<V, V> getLineLeastSquares(vector<T> x, vector<V> y) {
+  pair<V, V> getLineLeastSquares(vector<V> x, vector<V> y) {
     V sumY = 0, sumXY = 0, n, m;
-    T sumX = 0, sumX2 = 0;
+    V sumX = 0, sumX2 = 0;
     for (size_t i = 0; i < x.size(); i++) {
       sumX = sumX + x.at(i);
       sumY = sumY + y.at(i);
@@ -181,7 +184,7 @@ struct HermiteResampler : public Operator<T, V> {
       sumX2 = sumX2 + pow(x.at(i), 2);
     }
 
-    T denominator = (x.size() * sumX2 - pow(sumX, 2));
+    V denominator = (x.size() * sumX2 - pow(sumX, 2));
 
     if (denominator == 0) {
       m = (V)(y.at(1) - y.at(0)) / (V)(x.at(1) - x.at(0));
-- 
2.43.0


From ba5ece93227f7654bbe97b54fcaf4d4a97340522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 09/50] fix: CosineResampler and HermiteResampler refuse a zero
 dt instead of looping forever

---
 libs/std/include/rtbot/std/CosineResampler.h  | 1 +
 libs/std/include/rtbot/std/HermiteResampler.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/libs/std/include/rtbot/std/CosineResampler.h b/libs/std/include/rtbot/std/CosineResampler.h
index b599ff5..57b4749 100644
--- a/libs/std/include/rtbot/std/CosineResampler.h
+++ b/libs/std/include/rtbot/std/CosineResampler.h
@@ -20,6 +20,7 @@ struct CosineResampler : public Operator<T, V> {
   CosineResampler() = default;
 
   CosineResampler(string const &id, T dt) : Operator<T, V>(id) {
+    if (dt <= 0) throw runtime_error(typeName() + ": dt must be positive");
     this->dt = dt;
     this->carryOver = 0;
     this->addDataInput("i1", CosineResampler::size);
diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index f0f0b3d..fee337c 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -21,6 +21,7 @@ struct HermiteResampler : public Operator<T, V> {
   HermiteResampler() = default;
 
   HermiteResampler(string const& id, T dt) : Operator<T, V>(id) {
+    if (dt <= 0) throw runtime_error(typeName() + ": dt must be positive");
     this->dt = dt;
     this->carryOver = 0;
     this->addDataInput("i1", HermiteResampler::size);
-- 
2.43.0


From 43f0aa4089910420d8b4e30a235214b9f29ee726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 10/50] fix: RelativeStrengthIndex keeps its averages when
 restored and its period when written to json

---
 libs/api/src/FactoryOp.cpp                    |  2 +-
 .../rtbot/finance/RelativeStrengthIndex.h     | 29 +++++++++++++++++--
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index bf02b21..f98c3c0 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -383,7 +383,7 @@ void from_json(const json& j, Identity<T, V>& p) {
 
 template <class T, class V>
 void to_json(json& j, const RelativeStrengthIndex<T, V>& p) {
-  j = json{{"type", p.typeName()}, {"id", p.id}, {"n", p.getDataInputMaxSize()}};
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"n", p.getDataInputMaxSize() - 1}};
 }
 
 template <class T, class V>
diff --git a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
index 8f2b857..81d5ffe 100644
--- a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
+++ b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
@@ -18,6 +18,31 @@ struct RelativeStrengthIndex : public Operator<T, V> {
     this->addOutput("o1");
   }
 
+  virtual Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+    // Serialize initialized
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&initialized),
+                 reinterpret_cast<const unsigned char*>(&initialized) + sizeof(initialized));
+    // Serialize the averages the next ones depend on
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&prevAverageGain),
+                 reinterpret_cast<const unsigned char*>(&prevAverageGain) + sizeof(prevAverageGain));
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&prevAverageLoss),
+                 reinterpret_cast<const unsigned char*>(&prevAverageLoss) + sizeof(prevAverageLoss));
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator& it) override {
+    Operator<T, V>::restore(it);
+    // Deserialize initialized
+    initialized = *reinterpret_cast<const bool*>(&(*it));
+    it += sizeof(initialized);
+    // Deserialize the averages
+    prevAverageGain = *reinterpret_cast<const V*>(&(*it));
+    it += sizeof(prevAverageGain);
+    prevAverageLoss = *reinterpret_cast<const V*>(&(*it));
+    it += sizeof(prevAverageLoss);
+  }
+
   string typeName() const override { return "RelativeStrengthIndex"; }
 
   OperatorMessage<T, V> processData() override {
@@ -84,8 +109,8 @@ struct RelativeStrengthIndex : public Operator<T, V> {
  private:
   V averageGain;
   V averageLoss;
-  V prevAverageGain;
-  V prevAverageLoss;
+  V prevAverageGain = 0;
+  V prevAverageLoss = 0;
   bool initialized = false;
 };
 
-- 
2.43.0


From 436cce976d02b7d2b22fd918d6ec94709a80ba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 11/50] fix: Pipeline and Composite save and restore the state
 of their operators

---
 libs/api/include/rtbot/Pipeline.h   | 15 +++++++++++++++
 libs/core/include/rtbot/Composite.h | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/libs/api/include/rtbot/Pipeline.h b/libs/api/include/rtbot/Pipeline.h
index bae4a10..ef18397 100644
--- a/libs/api/include/rtbot/Pipeline.h
+++ b/libs/api/include/rtbot/Pipeline.h
@@ -36,6 +36,21 @@ struct Pipeline : public Operator<T, V> {
 
   string typeName() const override { return "Pipeline"; }
 
+  Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+    // the state of the pipeline is the one of its operators
+    for (auto& [id, op] : all_op) {
+      Bytes opBytes = op->collect();
+      bytes.insert(bytes.end(), opBytes.begin(), opBytes.end());
+    }
+    return bytes;
+  }
+
+  void restore(Bytes::const_iterator& it) override {
+    Operator<T, V>::restore(it);
+    for (auto& [id, op] : all_op) op->restore(it);
+  }
+
   void receiveData(Message<T, V> msg, string inputPort = "") override {
     if (inputPort.empty() && inputs.size() == 1)
       inputPort = inputs.begin()->first;
diff --git a/libs/core/include/rtbot/Composite.h b/libs/core/include/rtbot/Composite.h
index 486ac2d..8344e84 100644
--- a/libs/core/include/rtbot/Composite.h
+++ b/libs/core/include/rtbot/Composite.h
@@ -49,6 +49,21 @@ struct Composite : public Operator<T, V>  // TODO: improve from chain to graph
 
   virtual ~Composite() = default;
 
+  virtual Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+    // the state of the composite is the one of its operators
+    for (auto &[opId, op] : this->ops) {
+      Bytes opBytes = op->collect();
+      bytes.insert(bytes.end(), opBytes.begin(), opBytes.end());
+    }
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator &it) override {
+    Operator<T, V>::restore(it);
+    for (auto &[opId, op] : this->ops) op->restore(it);
+  }
+
   string createInput(string id, size_t numPorts = 1) {
     if (this->ops.count(id) == 0 && this->input == nullptr) {
       this->input = make_shared<Input<T, V>>(id, numPorts);
-- 
2.43.0


From 7d82df59af3e822f36f2912438ba565cb2a1b246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 12/50] fix: Function reads and writes its interpolation under
 its own json key

---
 libs/api/src/FactoryOp.cpp             | 4 ++--
 libs/std/include/rtbot/std/Function.md | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index f98c3c0..777f96a 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -417,7 +417,7 @@ void to_json(json& j, const Function<T, V>& p) {
   for (const auto& point : p.getPoints()) {
     points_array.push_back({point.first, point.second});
   }
-  j = json{{"type", p.typeName()}, {"id", p.id}, {"points", points_array}, {"type", p.getInterpolationType()}};
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"points", points_array}, {"interpolation", p.getInterpolationType()}};
 }
 
 template <class T, class V>
@@ -426,7 +426,7 @@ void from_json(const json& j, Function<T, V>& p) {
   for (const auto& point : j["points"]) {
     points.push_back({point[0].get<V>(), point[1].get<V>()});
   }
-  p = Function<T, V>(j["id"].get<string>(), points, j.value("type", "linear"));
+  p = Function<T, V>(j["id"].get<string>(), points, j.value("interpolation", "linear"));
 }
 
 /* Operators serialization - deserialization - end */
diff --git a/libs/std/include/rtbot/std/Function.md b/libs/std/include/rtbot/std/Function.md
index 233e237..146ca87 100644
--- a/libs/std/include/rtbot/std/Function.md
+++ b/libs/std/include/rtbot/std/Function.md
@@ -23,7 +23,7 @@ jsonschema:
         maxItems: 2
         items:
           type: number
-    type:
+    interpolation:
       type: string
       enum: ["linear", "hermite"]
       default: "linear"
-- 
2.43.0


From fec61505c53f7130357ef574eb6869114c2efc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 13/50] fix: Program refuses a definition without a suitable
 entry operator

---
 libs/api/src/Program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/api/src/Program.cpp b/libs/api/src/Program.cpp
index 09443ce..a761c5f 100644
--- a/libs/api/src/Program.cpp
+++ b/libs/api/src/Program.cpp
@@ -65,14 +65,14 @@ void Program::init() {
     this->all_op.clear();
     this->entryOperator.clear();
     this->outputFilter.clear();
-    runtime_error("Entry operator was not found");
+    throw runtime_error("Entry operator was not found");
   }
 
   if (this->all_op.at(this->entryOperator)->hasControlInputs()) {
     this->all_op.clear();
     this->entryOperator.clear();
     this->outputFilter.clear();
-    runtime_error("Entry operator can not have control inputs");
+    throw runtime_error("Entry operator can not have control inputs");
   }
 }
 
-- 
2.43.0


From f962026ef46bd9cfabd2a92633e6d070a3d23e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 14/50] fix: report a missing field of a definition instead of
 reading past it, and default the Join ports

---
 libs/api/src/FactoryOp.cpp           | 76 ++++++++++++++--------------
 libs/api/src/Pipeline.cpp            |  4 +-
 libs/api/src/Program.cpp             |  4 +-
 libs/std/include/rtbot/std/Linear.md |  2 +-
 4 files changed, 43 insertions(+), 43 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 777f96a..3bd37b1 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -58,7 +58,7 @@ void to_json(json& j, const Input<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Input<T, V>& p) {
-  p = Input<T, V>(j["id"].get<string>(), j.value("numPorts", 1));
+  p = Input<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
 }
 
 template <class T, class V>
@@ -68,7 +68,7 @@ void to_json(json& j, const CosineResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, CosineResampler<T, V>& p) {
-  p = CosineResampler<T, V>(j["id"].get<string>(), j["dt"].get<T>());
+  p = CosineResampler<T, V>(j.at("id").get<string>(), j.at("dt").get<T>());
 }
 
 template <class T, class V>
@@ -78,7 +78,7 @@ void to_json(json& j, const HermiteResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, HermiteResampler<T, V>& p) {
-  p = HermiteResampler<T, V>(j["id"].get<string>(), j["dt"].get<T>());
+  p = HermiteResampler<T, V>(j.at("id").get<string>(), j.at("dt").get<T>());
 }
 
 template <class T, class V>
@@ -88,7 +88,7 @@ void to_json(json& j, const StandardDeviation<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, StandardDeviation<T, V>& p) {
-  p = StandardDeviation<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = StandardDeviation<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -98,7 +98,7 @@ void to_json(json& j, const MovingAverage<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, MovingAverage<T, V>& p) {
-  p = MovingAverage<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = MovingAverage<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -108,7 +108,7 @@ void to_json(json& j, const FiniteImpulseResponse<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, FiniteImpulseResponse<T, V>& p) {
-  p = FiniteImpulseResponse<T, V>(j["id"].get<string>(), j["coeff"].get<vector<V>>());
+  p = FiniteImpulseResponse<T, V>(j.at("id").get<string>(), j.at("coeff").get<vector<V>>());
 }
 
 template <class T, class V>
@@ -118,7 +118,7 @@ void to_json(json& j, const Join<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Join<T, V>& p) {
-  p = Join<T, V>(j["id"].get<string>(), j["numPorts"].get<size_t>());
+  p = Join<T, V>(j.at("id").get<string>(), j.value("numPorts", size_t(2)));
 }
 
 template <class T, class V>
@@ -128,7 +128,7 @@ void to_json(json& j, const Output<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Output<T, V>& p) {
-  p = Output<T, V>(j["id"].get<string>(), j.value("numPorts", 1));
+  p = Output<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
 }
 
 template <class T, class V>
@@ -138,7 +138,7 @@ void to_json(json& j, const PeakDetector<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, PeakDetector<T, V>& p) {
-  p = PeakDetector<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = PeakDetector<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -148,7 +148,7 @@ void to_json(json& j, const Minus<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Minus<T, V>& p) {
-  p = Minus<T, V>(j["id"].get<string>());
+  p = Minus<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -158,7 +158,7 @@ void to_json(json& j, const And<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, And<T, V>& p) {
-  p = And<T, V>(j["id"].get<string>());
+  p = And<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -168,7 +168,7 @@ void to_json(json& j, const Or<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Or<T, V>& p) {
-  p = Or<T, V>(j["id"].get<string>());
+  p = Or<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -178,7 +178,7 @@ void to_json(json& j, const GreaterThanStream<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, GreaterThanStream<T, V>& p) {
-  p = GreaterThanStream<T, V>(j["id"].get<string>());
+  p = GreaterThanStream<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -188,7 +188,7 @@ void to_json(json& j, const LessThanStream<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, LessThanStream<T, V>& p) {
-  p = LessThanStream<T, V>(j["id"].get<string>());
+  p = LessThanStream<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -198,7 +198,7 @@ void to_json(json& j, const Division<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Division<T, V>& p) {
-  p = Division<T, V>(j["id"].get<string>());
+  p = Division<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -208,7 +208,7 @@ void to_json(json& j, const Multiplication<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Multiplication<T, V>& p) {
-  p = Multiplication<T, V>(j["id"].get<string>());
+  p = Multiplication<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -218,7 +218,7 @@ void to_json(json& j, const Plus<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Plus<T, V>& p) {
-  p = Plus<T, V>(j["id"].get<string>());
+  p = Plus<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -228,7 +228,7 @@ void to_json(json& j, const Linear<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Linear<T, V>& p) {
-  p = Linear<T, V>(j["id"].get<string>(), j["coeff"].get<vector<V>>());
+  p = Linear<T, V>(j.at("id").get<string>(), j.at("coeff").get<vector<V>>());
 }
 
 template <class T, class V>
@@ -238,7 +238,7 @@ void to_json(json& j, const AutoRegressive<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, AutoRegressive<T, V>& p) {
-  p = AutoRegressive<T, V>(j["id"].get<string>(), j["coeff"].get<vector<V>>());
+  p = AutoRegressive<T, V>(j.at("id").get<string>(), j.at("coeff").get<vector<V>>());
 }
 
 template <class T, class V>
@@ -248,7 +248,7 @@ void to_json(json& j, const GreaterThan<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, GreaterThan<T, V>& p) {
-  p = GreaterThan<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = GreaterThan<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -258,7 +258,7 @@ void to_json(json& j, const Constant<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Constant<T, V>& p) {
-  p = Constant<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Constant<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -268,7 +268,7 @@ void to_json(json& j, const Add<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Add<T, V>& p) {
-  p = Add<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Add<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -278,7 +278,7 @@ void to_json(json& j, const LessThan<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, LessThan<T, V>& p) {
-  p = LessThan<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = LessThan<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -288,7 +288,7 @@ void to_json(json& j, const EqualTo<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, EqualTo<T, V>& p) {
-  p = EqualTo<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = EqualTo<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -298,7 +298,7 @@ void to_json(json& j, const Variable<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Variable<T, V>& p) {
-  p = Variable<T, V>(j["id"].get<string>(), j.value("value", V(0)));
+  p = Variable<T, V>(j.at("id").get<string>(), j.value("value", V(0)));
 }
 
 template <class T, class V>
@@ -308,7 +308,7 @@ void to_json(json& j, const TimeShift<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, TimeShift<T, V>& p) {
-  p = TimeShift<T, V>(j["id"].get<string>(), j.value("dt", T(1)), j.value("times", 1));
+  p = TimeShift<T, V>(j.at("id").get<string>(), j.value("dt", T(1)), j.value("times", 1));
 }
 
 template <class T, class V>
@@ -318,7 +318,7 @@ void to_json(json& j, const CumulativeSum<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, CumulativeSum<T, V>& p) {
-  p = CumulativeSum<T, V>(j["id"].get<string>());
+  p = CumulativeSum<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -328,7 +328,7 @@ void to_json(json& j, const Count<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Count<T, V>& p) {
-  p = Count<T, V>(j["id"].get<string>());
+  p = Count<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -338,7 +338,7 @@ void to_json(json& j, const Scale<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Scale<T, V>& p) {
-  p = Scale<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Scale<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -348,7 +348,7 @@ void to_json(json& j, const Power<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Power<T, V>& p) {
-  p = Power<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Power<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -358,7 +358,7 @@ void to_json(json& j, const Difference<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Difference<T, V>& p) {
-  p = Difference<T, V>(j["id"].get<string>());
+  p = Difference<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -368,7 +368,7 @@ void to_json(json& j, const Demultiplexer<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Demultiplexer<T, V>& p) {
-  p = Demultiplexer<T, V>(j["id"].get<string>(), j.value("numPorts", 1));
+  p = Demultiplexer<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
 }
 
 template <class T, class V>
@@ -378,7 +378,7 @@ void to_json(json& j, const Identity<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Identity<T, V>& p) {
-  p = Identity<T, V>(j["id"].get<string>());
+  p = Identity<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -388,7 +388,7 @@ void to_json(json& j, const RelativeStrengthIndex<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, RelativeStrengthIndex<T, V>& p) {
-  p = RelativeStrengthIndex<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = RelativeStrengthIndex<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -408,7 +408,7 @@ void to_json(json& j, const ConstantResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, ConstantResampler<T, V>& p) {
-  p = ConstantResampler<T, V>(j["id"].get<string>(), j["interval"].get<T>());
+  p = ConstantResampler<T, V>(j.at("id").get<string>(), j.at("interval").get<T>());
 }
 
 template <class T, class V>
@@ -423,10 +423,10 @@ void to_json(json& j, const Function<T, V>& p) {
 template <class T, class V>
 void from_json(const json& j, Function<T, V>& p) {
   vector<pair<V, V>> points;
-  for (const auto& point : j["points"]) {
-    points.push_back({point[0].get<V>(), point[1].get<V>()});
+  for (const auto& point : j.at("points")) {
+    points.push_back({point.at(0).get<V>(), point.at(1).get<V>()});
   }
-  p = Function<T, V>(j["id"].get<string>(), points, j.value("interpolation", "linear"));
+  p = Function<T, V>(j.at("id").get<string>(), points, j.value("interpolation", "linear"));
 }
 
 /* Operators serialization - deserialization - end */
diff --git a/libs/api/src/Pipeline.cpp b/libs/api/src/Pipeline.cpp
index dccf6ea..6688242 100644
--- a/libs/api/src/Pipeline.cpp
+++ b/libs/api/src/Pipeline.cpp
@@ -28,7 +28,7 @@ inline void to_json(json& j, const OpConnection& p) {
 }
 
 inline void from_json(const json& j, OpConnection& p) {
-  p = OpConnection(j["from"].get<string>(), j["to"].get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
+  p = OpConnection(j.at("from").get<string>(), j.at("to").get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
 }
 
 template<class T, class V>
@@ -41,7 +41,7 @@ Pipeline<T,V>::Pipeline(string const& id, const string& json_prog_)
 
     for (const json& x : j.at("operators")) {
       pair<map<string, Op_ptr<uint64_t, double>>::iterator, bool> it;
-      it = all_op.emplace(x["id"], FactoryOp::readOp(x.dump().c_str()));
+      it = all_op.emplace(x.at("id"), FactoryOp::readOp(x.dump().c_str()));
     }
 
     // make connections, save the used in/out ports
diff --git a/libs/api/src/Program.cpp b/libs/api/src/Program.cpp
index a761c5f..b53b928 100644
--- a/libs/api/src/Program.cpp
+++ b/libs/api/src/Program.cpp
@@ -30,7 +30,7 @@ inline void to_json(json& j, const OpConnection& p) {
 }
 
 inline void from_json(const json& j, OpConnection& p) {
-  p = OpConnection(j["from"].get<string>(), j["to"].get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
+  p = OpConnection(j.at("from").get<string>(), j.at("to").get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
 }
 
 Program::Program(const string& json_string) {
@@ -51,7 +51,7 @@ void Program::init() {
 
   for (const json& x : j.at("operators")) {
     pair<map<string, Op_ptr<uint64_t, double>>::iterator, bool> it;
-    it = all_op.emplace(x["id"], FactoryOp::readOp(x.dump().c_str()));
+    it = all_op.emplace(x.at("id"), FactoryOp::readOp(x.dump().c_str()));
   }
 
   // connections
diff --git a/libs/std/include/rtbot/std/Linear.md b/libs/std/include/rtbot/std/Linear.md
index 3652d7c..6ed2f90 100644
--- a/libs/std/include/rtbot/std/Linear.md
+++ b/libs/std/include/rtbot/std/Linear.md
@@ -21,7 +21,7 @@ jsonschema:
       minItems: 2
       items:
         type: number
-  required: ["id"]
+  required: ["id", "coeff"]
 ---
 
 # Linear
-- 
2.43.0


From 8d98ff249d0a313ca266effbdfa571df3598d394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 15/50] fix: forget the buffered messages of a deleted program

---
 libs/api/include/rtbot/FactoryOp.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index 9449778..a623702 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -63,7 +63,11 @@ class FactoryOp {
 
   string createProgram(string const& id, string const& json_program);
 
-  bool deleteProgram(string const& id) { return (programs.erase(id) == 1) ? true : false; }
+  bool deleteProgram(string const& id) {
+    // messages still buffered belong to the deleted program
+    this->messageBuffer.erase(id);
+    return (programs.erase(id) == 1) ? true : false;
+  }
 
   bool addToMessageBuffer(const string& apId, const string& portId, Message<uint64_t, double> msg) {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
-- 
2.43.0


From 594c60369065dc5cb94232d45890687b65054ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 16/50] fix: write the entry operator of a python program and
 report a refused program before running it

---
 libs/wrappers/python/rtbot.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index 0aa8100..9f55834 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -18,6 +18,10 @@ class Run(object):
 
     def exec(self):
         result = api.createProgram(self.program.id, self.program.toJson())
+
+        if result != "":
+            raise Exception(json.loads(result)["error"])
+
         # TODO: here we assume that the data is a list of rows, which are a list
         # of numbers, where the first element of the row is the time and the remaining
         # ones correspond to the values passed to the ports and they have the order according
@@ -25,9 +29,6 @@ class Run(object):
         # Move this to receive a pandas dataframe instead
         ports = json.loads(api.getProgramEntryPorts(self.program.id))
 
-        if result != "":
-            raise Exception(json.loads(result)["error"])
-
         result = {}
 
         for row in self.data:
@@ -107,7 +108,7 @@ class Program:
         if self.date:
             obj["date"] = self.date
 
-        if self.date:
+        if self.entryOperator:
             obj["entryOperator"] = self.entryOperator
 
         return json.dumps(obj)
-- 
2.43.0


From c84b1cc429041a4e218856e625d209d891ad78fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 17/50] fix: delete exactly the given connection of a
 javascript program

---
 libs/wrappers/javascript/src/program.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/wrappers/javascript/src/program.ts b/libs/wrappers/javascript/src/program.ts
index 235cf55..10a0e17 100644
--- a/libs/wrappers/javascript/src/program.ts
+++ b/libs/wrappers/javascript/src/program.ts
@@ -62,7 +62,7 @@ export class Program {
   deleteConnection(opFrom: OperatorId, opTo: OperatorId, opFromPort: PortId = "o1", opToPort: PortId = "i1") {
     this.connections = this.connections.filter(
       ({ from, to, fromPort, toPort }) =>
-        !(from !== opFrom && to !== opTo && fromPort !== opFromPort && toPort !== opToPort)
+        !(from === opFrom && to === opTo && fromPort === opFromPort && toPort === opToPort)
     );
   }
 
-- 
2.43.0


From 327706143a02c4100ef8e27dd3bcd80336ae6931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 18/50] fix: delete_by_input_key no longer waits forever for
 its own lock

---
 apps/rtbot-rs/src/pipelines_registry.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/apps/rtbot-rs/src/pipelines_registry.rs b/apps/rtbot-rs/src/pipelines_registry.rs
index 7eadfd7..0d9191e 100644
--- a/apps/rtbot-rs/src/pipelines_registry.rs
+++ b/apps/rtbot-rs/src/pipelines_registry.rs
@@ -120,13 +120,18 @@ impl PipelinesRegistry {
     ///
     /// returns: Result<String, Err(String)>
     pub fn delete_by_input_key(&self, input_key: &str) -> Result<String, PipelineError> {
-        let pipeline = self.pipelines.lock().unwrap();
-        let mut counter = 0;
-        if let Some(outputs) = pipeline.get(input_key) {
-            for (output_key, _) in outputs {
-                self.delete(input_key, output_key)?;
-                counter += 1;
+        // the lock has to be released before calling `delete`, which takes it again
+        let output_keys: Vec<String> = {
+            let pipeline = self.pipelines.lock().unwrap();
+            match pipeline.get(input_key) {
+                Some(outputs) => outputs.keys().cloned().collect(),
+                None => Vec::new(),
             }
+        };
+        let mut counter = 0;
+        for output_key in output_keys {
+            self.delete(input_key, &output_key)?;
+            counter += 1;
         }
         Ok(format!(
             "Deleted {} pipeline(s) associated with the input key {}",
-- 
2.43.0


From 8dc0871e04a65666715a2eca564fa0e880c22107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 19/50] fix: the debugger table stops at the last iteration and
 skips ports without output

---
 apps/cli/src/tui/store.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index 21eed9d..520ca36 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -81,11 +81,11 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
           columns: [headers],
         };
 
-      for (let i = iteration - 1; i < Math.min(iteration, maxIteration) + 10; i++) {
+      for (let i = iteration - 1; i < Math.min(iteration + 10, maxIteration); i++) {
         const r = state.result![i]!;
         const row = opHeaders.map((h) => {
           const [opId, port] = h.split(":");
-          if (opId && r.out[opId]) {
+          if (opId && r.out[opId] && r.out[opId]![port ?? "o1"]) {
             const opOutput = r.out[opId]!;
             return opOutput[port ?? "o1"]!.map(
               ({ time, value }: any) => `(${time}, ${Math.round(value * 100) / 100})`
-- 
2.43.0


From 74f12cee88ce874bd35ab2d88fa752b468d1a8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 20/50] fix: the debug command passes its verbose flag as such

---
 apps/cli/src/commands/debug.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cli/src/commands/debug.ts b/apps/cli/src/commands/debug.ts
index 226b27a..8944d91 100644
--- a/apps/cli/src/commands/debug.ts
+++ b/apps/cli/src/commands/debug.ts
@@ -94,7 +94,7 @@ export const registerDebug = (program: Command) => {
           }
         })
         .filter((r) => r.length === 2);
-      const rtbotRun = new RtBotRun(rtBotProgram, preparedData, RtBotRunOutputFormat.EXTENDED, verbose);
+      const rtbotRun = new RtBotRun(rtBotProgram, preparedData, RtBotRunOutputFormat.EXTENDED, undefined, verbose);
       try {
         await rtbotRun.run();
       } catch (e: any) {
-- 
2.43.0


From 57fc249c6f5bc287b9e60b0fd962bf892207e74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 21/50] fix: buffered messages are delivered once even if
 processing one of them throws

---
 libs/api/include/rtbot/FactoryOp.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index a623702..b0bcf5f 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -79,9 +79,10 @@ class FactoryOp {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
     if (this->messageBuffer.count(apId) > 0) {
       if (!this->messageBuffer.at(apId).empty()) {
-        auto result = processMessageMap(apId, this->messageBuffer.at(apId));
-        this->messageBuffer.at(apId).clear();
+        // taken out first: the messages are forgotten even if processing one of them throws
+        auto messages = std::move(this->messageBuffer.at(apId));
         this->messageBuffer.erase(apId);
+        auto result = processMessageMap(apId, messages);
         if (!result.empty()) return result;
       }
     }
@@ -92,9 +93,10 @@ class FactoryOp {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
     if (this->messageBuffer.count(apId) > 0) {
       if (!this->messageBuffer.at(apId).empty()) {
-        auto result = processMessageMapDebug(apId, this->messageBuffer.at(apId));
-        this->messageBuffer.at(apId).clear();
+        // taken out first: the messages are forgotten even if processing one of them throws
+        auto messages = std::move(this->messageBuffer.at(apId));
         this->messageBuffer.erase(apId);
+        auto result = processMessageMapDebug(apId, messages);
         if (!result.empty()) return result;
       }
     }
-- 
2.43.0


From ec7affec3e64dc169696ecec3baaf01e0216a4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 22/50] fix: Pipeline accepts operator ids with a colon

---
 libs/api/include/rtbot/Pipeline.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libs/api/include/rtbot/Pipeline.h b/libs/api/include/rtbot/Pipeline.h
index ef18397..62bf03a 100644
--- a/libs/api/include/rtbot/Pipeline.h
+++ b/libs/api/include/rtbot/Pipeline.h
@@ -83,11 +83,9 @@ struct Pipeline : public Operator<T, V> {
 
  private:
   static auto split2(string const& s, char delim = ':') {
-    std::istringstream is(s);
-    string word1, word2;
-    getline(is, word1, delim);
-    getline(is, word2, char(0));
-    return make_pair(word1, word2);
+    // port names have no delimiter, operator ids may have it
+    auto at = s.rfind(delim);
+    return make_pair(s.substr(0, at), s.substr(at + 1));
   }
 };
 
-- 
2.43.0


From ce600568d3a8e97ec2c614263bf196e06ef26c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 23/50] fix: an output port listed twice is reported once

---
 libs/api/include/rtbot/Program.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/api/include/rtbot/Program.h b/libs/api/include/rtbot/Program.h
index d3d2f61..efde143 100644
--- a/libs/api/include/rtbot/Program.h
+++ b/libs/api/include/rtbot/Program.h
@@ -78,6 +78,8 @@ struct Program {
       if (opResults.count(op->first) > 0) {
         auto outResults = opResults.at(op->first);
         for (int i = 0; i < op->second.size(); i++) {
+          // a port listed twice is still reported once
+          if (toReturn.count(op->first) > 0 && toReturn.at(op->first).count(op->second.at(i)) > 0) continue;
           if (outResults.count(op->second.at(i)) > 0) {
             OperatorMessage<uint64_t, double> opReturn;
             opReturn.emplace(op->second.at(i), outResults.at(op->second.at(i)));
-- 
2.43.0


From e417d9040d3bd9dd49994f197bffe2856815cc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 24/50] fix: refuse a number of ports below one

A negative numPorts was converted to a huge unsigned count (creating ports
for ever), and Input and Output accepted zero, against the documented minimum.
---
 libs/api/src/FactoryOp.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 3bd37b1..e38e57b 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -51,6 +51,13 @@ using namespace std;
 
 /* Operators serialization - deserialization - begin */
 
+// a count of ports, converted to size_t only once it is known not to be negative
+inline size_t readNumPorts(const json& j, int64_t defaultValue) {
+  int64_t numPorts = j.value("numPorts", defaultValue);
+  if (numPorts < 1) throw runtime_error("numPorts has to be greater than or equal 1");
+  return numPorts;
+}
+
 template <class T, class V>
 void to_json(json& j, const Input<T, V>& p) {
   j = json{{"type", p.typeName()}, {"id", p.id}, {"numPorts", p.getNumPorts()}};
@@ -58,7 +65,7 @@ void to_json(json& j, const Input<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Input<T, V>& p) {
-  p = Input<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
+  p = Input<T, V>(j.at("id").get<string>(), readNumPorts(j, 1));
 }
 
 template <class T, class V>
@@ -118,7 +125,7 @@ void to_json(json& j, const Join<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Join<T, V>& p) {
-  p = Join<T, V>(j.at("id").get<string>(), j.value("numPorts", size_t(2)));
+  p = Join<T, V>(j.at("id").get<string>(), readNumPorts(j, 2));
 }
 
 template <class T, class V>
@@ -128,7 +135,7 @@ void to_json(json& j, const Output<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Output<T, V>& p) {
-  p = Output<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
+  p = Output<T, V>(j.at("id").get<string>(), readNumPorts(j, 1));
 }
 
 template <class T, class V>
@@ -368,7 +375,7 @@ void to_json(json& j, const Demultiplexer<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Demultiplexer<T, V>& p) {
-  p = Demultiplexer<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
+  p = Demultiplexer<T, V>(j.at("id").get<string>(), readNumPorts(j, 1));
 }
 
 template <class T, class V>
-- 
2.43.0


From 21b8765f58fa62aaba29583be690d02d07e182d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 25/50] fix: a failed run of the python wrapper deletes its
 program

When sending a row failed, the program stayed registered with its state, and
the next run of the same program continued from it.
---
 libs/wrappers/python/rtbot.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index 9f55834..b082d9b 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -22,6 +22,13 @@ class Run(object):
         if result != "":
             raise Exception(json.loads(result)["error"])
 
+        try:
+            return self._feed()
+        finally:
+            # a failed run must not leave the program, with its state, behind
+            api.deleteProgram(self.program.id)
+
+    def _feed(self):
         # TODO: here we assume that the data is a list of rows, which are a list
         # of numbers, where the first element of the row is the time and the remaining
         # ones correspond to the values passed to the ports and they have the order according
@@ -47,7 +54,6 @@ class Run(object):
                         result[key]["time"].append(int(msg.get("time")))
                         result[key]["value"].append(float(msg.get("value")))
 
-        api.deleteProgram(self.program.id)
         return result
 
 
-- 
2.43.0


From 431b0ec5ab13a4b2c0b84e926368753588967e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 26/50] fix: quote string defaults in the generated python
 operators

The default of Function's interpolation was written as a bare name, so that
the generated module could not be imported.
---
 tools/generator/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generator/src/index.ts b/tools/generator/src/index.ts
index 62b1033..c887f6c 100644
--- a/tools/generator/src/index.ts
+++ b/tools/generator/src/index.ts
@@ -160,7 +160,7 @@ program
             .filter((p) => p !== "type")
             .map((k) => ({
               name: k,
-              init: s.required.indexOf(k) > -1 ? "" : ` = ${s.properties[k].default ?? "None"}`,
+              init: s.required.indexOf(k) > -1 ? "" : ` = ${JSON.stringify(s.properties[k].default) ?? "None"}`,
             })),
         })),
       });
-- 
2.43.0


From 166ca4097393e4d052b54ff6daa67fc826c42907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 27/50] fix: the LessThan schema accepts any number as value

The operator compares with a number and its siblings document one, but its
schema refused programs with a fractional value.
---
 libs/std/include/rtbot/std/LessThan.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/LessThan.md b/libs/std/include/rtbot/std/LessThan.md
index ab8c8ee..a01c8ee 100644
--- a/libs/std/include/rtbot/std/LessThan.md
+++ b/libs/std/include/rtbot/std/LessThan.md
@@ -14,7 +14,7 @@ jsonschema:
       type: string
       description: The id of the operator
     value:
-      type: integer
+      type: number
       description: The reference value
   required: ["id", "value"]
 ---
-- 
2.43.0


From d58c58711efec79d98b5c34009c05066fc484b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 28/50] fix: the python wrapper accepts non finite values of
 the engine

They are rendered as null, and converting it to a number ended the run.
---
 libs/wrappers/python/rtbot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index b082d9b..8be27d7 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -52,7 +52,9 @@ class Run(object):
                         result[key] = {"time": [], "value": []}
                     for msg in msgs:
                         result[key]["time"].append(int(msg.get("time")))
-                        result[key]["value"].append(float(msg.get("value")))
+                        # json has no non finite numbers, the engine renders them as null
+                        value = msg.get("value")
+                        result[key]["value"].append(float("nan") if value is None else float(value))
 
         return result
 
-- 
2.43.0


From 89ba8a1d568d26da97809666efb4f1c964f6d43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 29/50] fix: choose the createProgram that takes the json text
 in the bindings

createProgram is overloaded, taking its address without saying which one does
not compile.
---
 libs/api/wasm/emscripten-bindings.cpp | 2 +-
 libs/wrappers/python/rtbot.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/api/wasm/emscripten-bindings.cpp b/libs/api/wasm/emscripten-bindings.cpp
index 8326827..945786f 100644
--- a/libs/api/wasm/emscripten-bindings.cpp
+++ b/libs/api/wasm/emscripten-bindings.cpp
@@ -56,7 +56,7 @@ EMSCRIPTEN_BINDINGS(RtBot) {
   emscripten::function("validate", &validate);
   emscripten::function("validateOperator", &validateOperator);
 
-  emscripten::function("createProgram", &createProgram);
+  emscripten::function("createProgram", static_cast<string (*)(string const&, string const&)>(&createProgram));
   emscripten::function("deleteProgram", &deleteProgram);
 
   emscripten::function("addToMessageBuffer", &addToMessageBuffer);
diff --git a/libs/wrappers/python/rtbot.cpp b/libs/wrappers/python/rtbot.cpp
index ba9dbb5..caa3fbe 100644
--- a/libs/wrappers/python/rtbot.cpp
+++ b/libs/wrappers/python/rtbot.cpp
@@ -20,7 +20,7 @@ PYBIND11_MODULE(rtbotapi, m) {
   m.def("validate", &validate, "Validates json representation of an rtbot program");
   m.def("validateOperator", &validateOperator, "Validates a json representation of an rtbot operator");
 
-  m.def("createProgram", &createProgram, "Register an rtbot program in memory");
+  m.def("createProgram", static_cast<string (*)(string const&, string const&)>(&createProgram), "Register an rtbot program in memory");
   m.def("deleteProgram", &deleteProgram, "Deletes and frees the memory of a previsouly created rtbot program");
   
   m.def("addToMessageBuffer", &addToMessageBuffer);
-- 
2.43.0


From 4785fe1bf332fdc3688bbc69fe39163d90f5c2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:32 +0000
Subject: [PATCH 30/50] fix: the flowchart of a python program copes with
 default ports

A connection may leave its ports out, as the schema says.
---
 libs/wrappers/python/rtbot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index 8be27d7..ca24f4d 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -176,7 +176,7 @@ class Program:
             else:
                 toOpArgs = ""
 
-            content += f'{con["from"]}("{fromType}{fromOpArgs}") --> |{con["fromPort"]}:{con["toPort"]}| {con["to"]}("{toType}{toOpArgs}");\n'
+            content += f'{con["from"]}("{fromType}{fromOpArgs}") --> |{con.get("fromPort", "o1")}:{con.get("toPort", "i1")}| {con["to"]}("{toType}{toOpArgs}");\n'
 
         return content
 
-- 
2.43.0


From 273ba24676bce4d1df9a2f411a5c214444bfaadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 31/50] fix: refuse integers of a definition that do not fit
 their parameter

A negative or too large n, dt, interval, numPorts or times was wrapped around
(or, written as a real number, converted with undefined behaviour) instead of
being refused.
---
 libs/api/src/FactoryOp.cpp | 44 ++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index e38e57b..f3c51dc 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -1,8 +1,12 @@
 
 #include "rtbot/FactoryOp.h"
 
+#include <cmath>
+#include <cstdint>
 #include <iostream>
+#include <limits>
 #include <nlohmann/json.hpp>
+#include <type_traits>
 
 #include "rtbot/Demultiplexer.h"
 #include "rtbot/Input.h"
@@ -51,9 +55,31 @@ using namespace std;
 
 /* Operators serialization - deserialization - begin */
 
+// an integer field, refused when its value does not fit instead of being wrapped around
+template <class I>
+I readInteger(const json& j, const char* name) {
+  const json& value = j.at(name);
+  bool fits = true;
+  if (value.is_number_float()) {
+    // 2^digits is the first value beyond the range and, unlike the maximum, always exact as a double
+    double d = value.get<double>();
+    fits = d >= (double)numeric_limits<I>::min() && d < ldexp(1.0, numeric_limits<I>::digits);
+  } else if (value.is_number_unsigned())
+    fits = value.get<uint64_t>() <= (uint64_t)numeric_limits<I>::max();
+  else if (value.is_number_integer())
+    fits = is_signed<I>::value ? value.get<int64_t>() >= (int64_t)numeric_limits<I>::min() : value.get<int64_t>() >= 0;
+  if (!fits) throw runtime_error(string(name) + " is out of range");
+  return value.get<I>();
+}
+
+template <class I>
+I readInteger(const json& j, const char* name, I defaultValue) {
+  return j.contains(name) ? readInteger<I>(j, name) : defaultValue;
+}
+
 // a count of ports, converted to size_t only once it is known not to be negative
 inline size_t readNumPorts(const json& j, int64_t defaultValue) {
-  int64_t numPorts = j.value("numPorts", defaultValue);
+  int64_t numPorts = readInteger<int64_t>(j, "numPorts", defaultValue);
   if (numPorts < 1) throw runtime_error("numPorts has to be greater than or equal 1");
   return numPorts;
 }
@@ -75,7 +101,7 @@ void to_json(json& j, const CosineResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, CosineResampler<T, V>& p) {
-  p = CosineResampler<T, V>(j.at("id").get<string>(), j.at("dt").get<T>());
+  p = CosineResampler<T, V>(j.at("id").get<string>(), readInteger<T>(j, "dt"));
 }
 
 template <class T, class V>
@@ -85,7 +111,7 @@ void to_json(json& j, const HermiteResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, HermiteResampler<T, V>& p) {
-  p = HermiteResampler<T, V>(j.at("id").get<string>(), j.at("dt").get<T>());
+  p = HermiteResampler<T, V>(j.at("id").get<string>(), readInteger<T>(j, "dt"));
 }
 
 template <class T, class V>
@@ -95,7 +121,7 @@ void to_json(json& j, const StandardDeviation<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, StandardDeviation<T, V>& p) {
-  p = StandardDeviation<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
+  p = StandardDeviation<T, V>(j.at("id").get<string>(), readInteger<size_t>(j, "n"));
 }
 
 template <class T, class V>
@@ -105,7 +131,7 @@ void to_json(json& j, const MovingAverage<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, MovingAverage<T, V>& p) {
-  p = MovingAverage<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
+  p = MovingAverage<T, V>(j.at("id").get<string>(), readInteger<size_t>(j, "n"));
 }
 
 template <class T, class V>
@@ -145,7 +171,7 @@ void to_json(json& j, const PeakDetector<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, PeakDetector<T, V>& p) {
-  p = PeakDetector<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
+  p = PeakDetector<T, V>(j.at("id").get<string>(), readInteger<size_t>(j, "n"));
 }
 
 template <class T, class V>
@@ -315,7 +341,7 @@ void to_json(json& j, const TimeShift<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, TimeShift<T, V>& p) {
-  p = TimeShift<T, V>(j.at("id").get<string>(), j.value("dt", T(1)), j.value("times", 1));
+  p = TimeShift<T, V>(j.at("id").get<string>(), readInteger<T>(j, "dt", T(1)), readInteger<int>(j, "times", 1));
 }
 
 template <class T, class V>
@@ -395,7 +421,7 @@ void to_json(json& j, const RelativeStrengthIndex<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, RelativeStrengthIndex<T, V>& p) {
-  p = RelativeStrengthIndex<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
+  p = RelativeStrengthIndex<T, V>(j.at("id").get<string>(), readInteger<size_t>(j, "n"));
 }
 
 template <class T, class V>
@@ -415,7 +441,7 @@ void to_json(json& j, const ConstantResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, ConstantResampler<T, V>& p) {
-  p = ConstantResampler<T, V>(j.at("id").get<string>(), j.at("interval").get<T>());
+  p = ConstantResampler<T, V>(j.at("id").get<string>(), readInteger<T>(j, "interval"));
 }
 
 template <class T, class V>
-- 
2.43.0


From 8fdb98218ebd0caa5470c73969706de2eab2bc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:45 +0000
Subject: [PATCH 32/50] fix: keep the quotes of the operator parameters in the
 generated TypeScript

---
 tools/generator/templates/typescript.hbs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generator/templates/typescript.hbs b/tools/generator/templates/typescript.hbs
index dc7e0d3..a13be55 100644
--- a/tools/generator/templates/typescript.hbs
+++ b/tools/generator/templates/typescript.hbs
@@ -33,7 +33,7 @@ export type {{ name }} = {
 export class {{ type }} extends Operator {
   readonly type = "{{ type}}";
   constructor(
-{{ parametersBlock }}
+{{{ parametersBlock }}}
   ) {
     super(id);
     const schema = {{{ schema }}}
-- 
2.43.0


From 44ffd97687b344490494ed7d2119498d26477a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 33/50] fix: release the program of a JavaScript run that fails

---
 libs/wrappers/javascript/src/api.ts | 71 +++++++++++++++--------------
 1 file changed, 37 insertions(+), 34 deletions(-)

diff --git a/libs/wrappers/javascript/src/api.ts b/libs/wrappers/javascript/src/api.ts
index a1866f0..c4b42f4 100644
--- a/libs/wrappers/javascript/src/api.ts
+++ b/libs/wrappers/javascript/src/api.ts
@@ -109,45 +109,48 @@ export class RtBotRun {
       if (createProgramResponse.error) throw new Error(createProgramResponse.error);
     }
 
-    if (this.verbose) console.log("Sending data...");
-    const entryPorts: string[] = JSON.parse(await RtBot.getInstance().getProgramEntryPorts(this.program.programId));
-    // iterate over the data passed and send it to the rtbot program
-    const dataSize = this.data.length;
-    const progressStepSize = Math.floor(dataSize / 20);
-    let progressStepCounter = 0;
-    for (let i = 0; i < dataSize; i++) {
-      const [time, ...values] = this.data[i];
-      const msgs = Object.fromEntries(entryPorts.map((p, i) => [p, [{ time, value: values[i] }]]));
-      const iterationOutput = await RtBot.getInstance().processDebug(this.program.programId, msgs);
-      if (this.verbose) console.log("iteration ", time, values, "=>", iterationOutput);
-      // record the outputs
-      if (this.format === RtBotRunOutputFormat.COLLAPSED) {
-        Object.entries(iterationOutput as RtBotIterationOutput).forEach(([opId, opOut]) => {
-          Object.entries(opOut).forEach(([port, msgs]) => {
-            const k = `${opId}:${port}`;
-            msgs.forEach(({ time, value }) => {
-              if (!(this.outputs as CollapsedFormat)[k]) (this.outputs as CollapsedFormat)[k] = [[], []];
-
-              // add the time to the first list in the output
-              (this.outputs as CollapsedFormat)[k][0].push(time);
-              // add the values to the correspondent lists in the output
-              (this.outputs as CollapsedFormat)[k][1].push(value);
+    try {
+      if (this.verbose) console.log("Sending data...");
+      const entryPorts: string[] = JSON.parse(await RtBot.getInstance().getProgramEntryPorts(this.program.programId));
+      // iterate over the data passed and send it to the rtbot program
+      const dataSize = this.data.length;
+      const progressStepSize = Math.floor(dataSize / 20);
+      let progressStepCounter = 0;
+      for (let i = 0; i < dataSize; i++) {
+        const [time, ...values] = this.data[i];
+        const msgs = Object.fromEntries(entryPorts.map((p, i) => [p, [{ time, value: values[i] }]]));
+        const iterationOutput = await RtBot.getInstance().processDebug(this.program.programId, msgs);
+        if (this.verbose) console.log("iteration ", time, values, "=>", iterationOutput);
+        // record the outputs
+        if (this.format === RtBotRunOutputFormat.COLLAPSED) {
+          Object.entries(iterationOutput as RtBotIterationOutput).forEach(([opId, opOut]) => {
+            Object.entries(opOut).forEach(([port, msgs]) => {
+              const k = `${opId}:${port}`;
+              msgs.forEach(({ time, value }) => {
+                if (!(this.outputs as CollapsedFormat)[k]) (this.outputs as CollapsedFormat)[k] = [[], []];
+
+                // add the time to the first list in the output
+                (this.outputs as CollapsedFormat)[k][0].push(time);
+                // add the values to the correspondent lists in the output
+                (this.outputs as CollapsedFormat)[k][1].push(value);
+              });
             });
           });
-        });
-      } else {
-        (this.outputs as ExtendedFormat).push({ in: msgs, out: iterationOutput });
-      }
-      if (this.progressCb) {
-        progressStepCounter++;
-        if (progressStepCounter === progressStepSize) {
-          progressStepCounter = 0;
-          this.progressCb(i / dataSize);
+        } else {
+          (this.outputs as ExtendedFormat).push({ in: msgs, out: iterationOutput });
+        }
+        if (this.progressCb) {
+          progressStepCounter++;
+          if (progressStepCounter === progressStepSize) {
+            progressStepCounter = 0;
+            this.progressCb(i / dataSize);
+          }
         }
       }
+    } finally {
+      // the engine keeps no program behind, also when one of the messages is refused
+      await RtBot.getInstance().deleteProgram(this.program.programId);
     }
-
-    await RtBot.getInstance().deleteProgram(this.program.programId);
     if (this.verbose) console.log("Done!", this.outputs);
   }
 
-- 
2.43.0


From cb75fe5bca685a1771392b73b33767a604d32d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 34/50] fix: show operators with a colon in their id in the
 debugger

---
 apps/cli/src/tui/store.ts | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index 520ca36..771be43 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -69,12 +69,11 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
       const rows = [];
       const { iteration, maxIteration } = state;
 
-      const opHeaders = operators.reduce(
-        (acc: string[], op: DebuggerOperatorDef) =>
-          op.ports.length > 1 ? [...acc, ...op.ports.map((p) => `${op.id}:${p}`)] : [...acc, op.id],
-        []
+      // the operator id may contain any character: keep id and port apart from the header text
+      const opColumns = operators.flatMap((op: DebuggerOperatorDef) =>
+        op.ports.map((port) => ({ opId: op.id, port, header: op.ports.length > 1 ? `${op.id}:${port}` : op.id }))
       );
-      const headers = ["iter", ...opHeaders];
+      const headers = ["iter", ...opColumns.map(({ header }) => header)];
 
       if (iteration === 0)
         return {
@@ -83,14 +82,12 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
 
       for (let i = iteration - 1; i < Math.min(iteration + 10, maxIteration); i++) {
         const r = state.result![i]!;
-        const row = opHeaders.map((h) => {
-          const [opId, port] = h.split(":");
-          if (opId && r.out[opId] && r.out[opId]![port ?? "o1"]) {
-            const opOutput = r.out[opId]!;
-            return opOutput[port ?? "o1"]!.map(
-              ({ time, value }: any) => `(${time}, ${Math.round(value * 100) / 100})`
-            ).join(", ");
-          }
+        const row = opColumns.map(({ opId, port }) => {
+          const messages = r.out[opId]?.[port];
+          if (messages)
+            return messages
+              .map(({ time, value }: any) => `(${time}, ${Math.round(value * 100) / 100})`)
+              .join(", ");
           return "-";
         });
         rows.push([`${i}`, ...row]);
-- 
2.43.0


From b81ce9f71bf95066df63991b5f88c0de77da63f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 35/50] fix: show both ports of a Join without numPorts in the
 debugger

---
 apps/cli/src/tui/store.ts | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index 771be43..51f124f 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -49,11 +49,10 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
         id: op.id,
         type: op.type,
         selected: true,
-        ports: op.numPorts
-          ? Array(op.numPorts)
-              .fill(1)
-              .map((_, i) => `o${i + 1}`)
-          : ["o1"],
+        // a Join has two ports unless the program says otherwise, any other operator one
+        ports: Array(op.numPorts ?? (op.type === "Join" ? 2 : 1))
+          .fill(1)
+          .map((_, i) => `o${i + 1}`),
       })),
     })),
   updateOperator: (id: string, selected: boolean) =>
-- 
2.43.0


From 41f3a94ff8443393009ea4d5614b54f368990e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:45 +0000
Subject: [PATCH 36/50] fix: scale the tangents of a Hermite Function to the
 width of the segment

The finite differences are slopes in units of x, the basis polynomials run
from 0 to 1 over a segment. With points that are not one apart the curve was
not smooth, and even two points did not give the straight line through them.
---
 libs/std/include/rtbot/std/Function.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libs/std/include/rtbot/std/Function.h b/libs/std/include/rtbot/std/Function.h
index 2b1cf91..c34f94d 100644
--- a/libs/std/include/rtbot/std/Function.h
+++ b/libs/std/include/rtbot/std/Function.h
@@ -112,15 +112,16 @@ struct Function : public Operator<T, V> {
       }
     } else {
       if (i == 0 && x < points[0].first) {
-        msg.value = hermiteInterpolate(points[0].second, points[1].second, getTangent(0), getTangent(1),
+        msg.value = hermiteInterpolate(points[0].second, points[1].second, getTangent(0, 0), getTangent(1, 0),
                                        (x - points[0].first) / (points[1].first - points[0].first));
       } else if (i >= points.size() - 2) {
         size_t last = points.size() - 1;
         msg.value =
-            hermiteInterpolate(points[last - 1].second, points[last].second, getTangent(last - 1), getTangent(last),
+            hermiteInterpolate(points[last - 1].second, points[last].second, getTangent(last - 1, last - 1),
+                               getTangent(last, last - 1),
                                (x - points[last - 1].first) / (points[last].first - points[last - 1].first));
       } else {
-        msg.value = hermiteInterpolate(points[i].second, points[i + 1].second, getTangent(i), getTangent(i + 1),
+        msg.value = hermiteInterpolate(points[i].second, points[i + 1].second, getTangent(i, i), getTangent(i + 1, i),
                                        (x - points[i].first) / (points[i + 1].first - points[i].first));
       }
     }
@@ -151,6 +152,11 @@ struct Function : public Operator<T, V> {
     return h00 * y0 + h10 * m0 + h01 * y1 + h11 * m1;
   }
 
+  // the tangent at point i in units of the segment that starts at point `segment`
+  V getTangent(size_t i, size_t segment) const {
+    return getTangent(i) * (points[segment + 1].first - points[segment].first);
+  }
+
   V getTangent(size_t i) const {
     if (i == 0) {
       return (points[1].second - points[0].second) / (points[1].first - points[0].first);
-- 
2.43.0


From 64796a77a9e7275da69aed9ef8eed0d88db61d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:42 +0000
Subject: [PATCH 37/50] fix: a description with three dashes ended the front
 matter of an operator document

---
 tools/generator/src/index.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/generator/src/index.ts b/tools/generator/src/index.ts
index c887f6c..42ea5a8 100644
--- a/tools/generator/src/index.ts
+++ b/tools/generator/src/index.ts
@@ -43,7 +43,7 @@ program
         try {
           const fileContent = await fs.readFileSync(f).toString();
           if (fileContent.indexOf("---") > -1) {
-            const schemaStr = fileContent.split("---")[1];
+            const schemaStr = fileContent.split(/^---\s*$/m)[1];
             const schema = parse(schemaStr).jsonschema;
             const type = path.basename(f).replace(".md", "");
             schema.properties.type = { enum: [type] };
@@ -67,7 +67,7 @@ program
         try {
           let fileContent = await fs.readFileSync(f).toString();
           if (fileContent.indexOf("---") > -1) {
-            const frontMatterStr = fileContent.split("---")[1];
+            const frontMatterStr = fileContent.split(/^---\s*$/m)[1];
             const frontMatter = parse(frontMatterStr);
             const schema = frontMatter.jsonschema;
             // cook up an example parameter object
-- 
2.43.0


From a5fe3337c6ebda1cc762b630166a85c47772a55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:42 +0000
Subject: [PATCH 38/50] fix: the generated TypeScript lost parameters with type
 or unknown in their name or description

---
 tools/generator/src/index.ts | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tools/generator/src/index.ts b/tools/generator/src/index.ts
index 42ea5a8..30bed8b 100644
--- a/tools/generator/src/index.ts
+++ b/tools/generator/src/index.ts
@@ -180,16 +180,13 @@ program
             let parametersBlock = ts
               .split("export interface")[1]
               .split("\n")
-              .filter((l) => l.indexOf("type") === -1 && l.indexOf("unknown") === -1)
+              .filter((l) => !/^\s*(type|\[k: string\])\??:/.test(l))
               .slice(1)
               .slice(0, -2)
-              .map((l) => l.replace(";", ","))
+              .map((l) => l.replace(/;$/, ","))
               .join("\n");
             properties.forEach(
-              (prop) =>
-                (parametersBlock = parametersBlock
-                  .replace(`${prop}:`, `readonly ${prop}:`)
-                  .replace(`${prop}?:`, `readonly ${prop}?:`))
+              (prop) => (parametersBlock = parametersBlock.replace(new RegExp(`^(\\s*)(${prop}\\??:)`, "m"), "$1readonly $2"))
             );
             const zodSchema = parseSchema(schema);
 
-- 
2.43.0


From 3a44d5827e3f94d3ebf4cf43212f1097626f7acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:42 +0000
Subject: [PATCH 39/50] fix: quotes and backslashes of a description broke the
 generated C++ header

---
 tools/generator/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generator/src/index.ts b/tools/generator/src/index.ts
index 30bed8b..08f8c4d 100644
--- a/tools/generator/src/index.ts
+++ b/tools/generator/src/index.ts
@@ -144,7 +144,7 @@ program
         static json rtbot_schema = ""
           ${jsonschemaContent
             .split("\n")
-            .map((l) => '"' + l.replaceAll('"', '\\"') + '"')
+            .map((l) => '"' + l.replaceAll("\\", "\\\\").replaceAll('"', '\\"') + '"')
             .join("\n")}
         ""_json;
         #endif`.replace(/       +/g, "")
-- 
2.43.0


From 57c549c4cbe591c222b2d7f581a46e1e4ca1d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:42 +0000
Subject: [PATCH 40/50] fix: boolean defaults in the generated Python module

---
 tools/generator/src/index.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tools/generator/src/index.ts b/tools/generator/src/index.ts
index 08f8c4d..c5f9b41 100644
--- a/tools/generator/src/index.ts
+++ b/tools/generator/src/index.ts
@@ -17,6 +17,12 @@ const pythonTemplate = compileTemplate("python");
 const usageMdTemplate = compileTemplate("usage-md");
 const parametersMdTemplate = compileTemplate("parameters-md");
 
+const pythonLiteral = (v: any): string => {
+  if (v === undefined || v === null) return "None";
+  if (typeof v === "boolean") return v ? "True" : "False";
+  return JSON.stringify(v);
+};
+
 program
   .description("RtBot code generator")
   .option(
@@ -160,7 +166,7 @@ program
             .filter((p) => p !== "type")
             .map((k) => ({
               name: k,
-              init: s.required.indexOf(k) > -1 ? "" : ` = ${JSON.stringify(s.properties[k].default) ?? "None"}`,
+              init: s.required.indexOf(k) > -1 ? "" : ` = ${pythonLiteral(s.properties[k].default)}`,
             })),
         })),
       });
-- 
2.43.0


From 92952d663c5a16a57368267f3e33b772d043bdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:42 +0000
Subject: [PATCH 41/50] fix: the reference pages left out defaults and minima
 of zero

---
 tools/generator/src/handlebars.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generator/src/handlebars.ts b/tools/generator/src/handlebars.ts
index f852609..d56a12c 100644
--- a/tools/generator/src/handlebars.ts
+++ b/tools/generator/src/handlebars.ts
@@ -8,6 +8,6 @@ export const registerPartial = (template: string) =>
   Handlebars.registerPartial(template, fs.readFileSync(__dirname + `/../templates/${template}.hbs`).toString());
 
 Handlebars.registerHelper("defined", function (s) {
-  return !!s;
+  return s !== undefined && s !== null;
 });
 
-- 
2.43.0


From 7a52a1525866003cd6ece607cd1ca4a54bce3a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:42 +0000
Subject: [PATCH 42/50] fix: usage examples of parameters without a plain
 example in the reference pages

---
 tools/generator/src/index.ts | 62 ++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/tools/generator/src/index.ts b/tools/generator/src/index.ts
index c5f9b41..c6f4c36 100644
--- a/tools/generator/src/index.ts
+++ b/tools/generator/src/index.ts
@@ -23,6 +23,26 @@ const pythonLiteral = (v: any): string => {
   return JSON.stringify(v);
 };
 
+const cppLiteral = (v: any): string => (Array.isArray(v) ? `{${v.map(cppLiteral).join(",")}}` : JSON.stringify(v));
+
+// a value a parameter described by the given schema may take
+const exampleValue = (schema: any): any => {
+  if (schema.examples) return schema.examples[0];
+  if (schema.default !== undefined) return schema.default;
+  if (schema.enum) return schema.enum[0];
+  switch (schema.type) {
+    case "integer":
+    case "number":
+      return Math.max(2, schema.minimum ?? 2);
+    case "string":
+      return "some";
+    case "boolean":
+      return true;
+    case "array":
+      return Array.from({ length: Math.max(1, schema.minItems ?? 1) }, () => exampleValue(schema.items));
+  }
+};
+
 program
   .description("RtBot code generator")
   .option(
@@ -77,40 +97,14 @@ program
             const frontMatter = parse(frontMatterStr);
             const schema = frontMatter.jsonschema;
             // cook up an example parameter object
-            const getExampleParameter = (k: string) => {
-              if (k === "id") return '"id"';
-              if (schema.properties[k].examples) {
-                if (schema.properties[k].type === "array") return `[${schema.properties[k].examples[0]}]`;
-                return schema.properties[k].examples[0];
-              }
-              if (schema.properties[k].type === "integer") return 2;
-              if (schema.properties[k].type === "numeric") return 2.0;
-              if (schema.properties[k].type === "string") return "some";
-            };
-            const exampleParameters = Object.keys(schema.properties).reduce(
-              (acc, k) => ({ ...acc, [`${k}`]: getExampleParameter(k) }),
-              {}
-            );
-            const opParams = Object.keys(exampleParameters).join(", ");
-            const opParamsDef = Object.keys(exampleParameters).reduce(
-              (acc, k) => `${acc}const ${k} = ${exampleParameters[k]};\n`,
-              ""
-            );
-            const opParamsDefPy = Object.keys(exampleParameters).reduce(
-              (acc, k) => `${acc}${k} = ${exampleParameters[k]};\n`,
-              ""
-            );
-            const opParamsDefCpp = Object.keys(exampleParameters)
-              .reduce((acc, k) => `${acc}auto ${k} = ${exampleParameters[k]};\n`, "")
-              .replaceAll("[", "{")
-              .replaceAll("]", "}");
-            const opParamsYaml = Object.keys(exampleParameters).reduce(
-              (acc, k) => `${acc}    ${k}: ${exampleParameters[k]}\n`,
-              ""
-            );
-            const opParamsJson = Object.keys(exampleParameters)
-              .reduce((acc, k) => [...acc, `"${k}": ${exampleParameters[k]}`], [])
-              .join(", ");
+            const properties = Object.entries(schema.properties);
+            const exampleParameters = properties.map(([k, v]) => [k, k === "id" ? "id" : exampleValue(v)] as [string, any]);
+            const opParams = exampleParameters.map(([k]) => k).join(", ");
+            const opParamsDef = exampleParameters.map(([k, v]) => `const ${k} = ${JSON.stringify(v)};\n`).join("");
+            const opParamsDefPy = exampleParameters.map(([k, v]) => `${k} = ${pythonLiteral(v)};\n`).join("");
+            const opParamsDefCpp = exampleParameters.map(([k, v]) => `auto ${k} = ${cppLiteral(v)};\n`).join("");
+            const opParamsYaml = exampleParameters.map(([k, v]) => `    ${k}: ${JSON.stringify(v)}\n`).join("");
+            const opParamsJson = exampleParameters.map(([k, v]) => `"${k}": ${JSON.stringify(v)}`).join(", ");
 
             const op = path.basename(f).replace(".md", "");
             const usageSection = usageMdTemplate({
-- 
2.43.0


From 0bbcd3a8f5d328bda8651df7a2930f554d0cc645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:42 +0000
Subject: [PATCH 43/50] fix: the documented example of TimeShift was refused by
 its own schema

---
 libs/std/include/rtbot/std/TimeShift.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/TimeShift.md b/libs/std/include/rtbot/std/TimeShift.md
index b83a500..a5d4639 100644
--- a/libs/std/include/rtbot/std/TimeShift.md
+++ b/libs/std/include/rtbot/std/TimeShift.md
@@ -18,7 +18,7 @@ jsonschema:
       default: 1
       minimum: 1
       examples:
-        - -1
+        - 5
       description: The constant that defines the time grid.
     times:
       type: integer
-- 
2.43.0


From 8aa534f55775b939c9f95ed17c891c88791051a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:42 +0000
Subject: [PATCH 44/50] fix: restoring a state into operators that have
 processed messages kept part of the old state

---
 libs/core/include/rtbot/Input.h               | 1 +
 libs/core/include/rtbot/Operator.h            | 1 +
 libs/std/include/rtbot/std/HermiteResampler.h | 3 ++-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/core/include/rtbot/Input.h b/libs/core/include/rtbot/Input.h
index aa544a3..9501d9d 100644
--- a/libs/core/include/rtbot/Input.h
+++ b/libs/core/include/rtbot/Input.h
@@ -50,6 +50,7 @@ struct Input : public Operator<T, V> {
     // Deserialize the lastSent map
     size_t lastSentSize = *reinterpret_cast<const size_t *>(&(*it));
     it += sizeof(lastSentSize);
+    this->lastSent.clear();
 
     for (size_t i = 0; i < lastSentSize; i++) {
       // Deserialize the size of the port word
diff --git a/libs/core/include/rtbot/Operator.h b/libs/core/include/rtbot/Operator.h
index 90de551..5246d76 100644
--- a/libs/core/include/rtbot/Operator.h
+++ b/libs/core/include/rtbot/Operator.h
@@ -239,6 +239,7 @@ class Operator {
     // read the toProcess size
     size_t toProcessSize = *reinterpret_cast<const size_t *>(&(*it));
     it += sizeof(toProcessSize);
+    this->toProcess.clear();
 
     for (size_t i = 0; i < toProcessSize; i++) {
       // read the size of the port word
diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index fee337c..72bcf6a 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -63,7 +63,8 @@ struct HermiteResampler : public Operator<T, V> {
       // Deserialize before
       this->before = make_unique<Message<T, V>>();
       this->before->restore(it);
-    }
+    } else
+      this->before.reset();
   }
 
   virtual string debug(string empty) const override {
-- 
2.43.0


From 3bc7df4007dbc5d4622dc82013e4fba4497eb6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:43 +0000
Subject: [PATCH 45/50] fix: a sample added before the first rtbot.run crashed
 the redis module

---
 apps/redis-module/src/commands/rtbot_xrun.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/redis-module/src/commands/rtbot_xrun.rs b/apps/redis-module/src/commands/rtbot_xrun.rs
index d8dff59..674c621 100644
--- a/apps/redis-module/src/commands/rtbot_xrun.rs
+++ b/apps/redis-module/src/commands/rtbot_xrun.rs
@@ -9,6 +9,10 @@ pub fn on_generic_event(
     _key: &str,
 ) -> RedisResult {
     if _event == "ts.add" {
+        // no pipeline was ever created: there is nobody to send the data to
+        if PIPELINES_REGISTRY.read().unwrap().is_none() {
+            return Ok(RedisValue::from(()));
+        }
         let last = if let RedisValue::Array(arr) = ctx.call("ts.get", &[_key]).unwrap() {
             arr
         } else {
-- 
2.43.0


From 31cc2391c1ede37c3b27a437164d576749f71bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:29 +0000
Subject: [PATCH 46/50] fix: the redis module refused the programs the engine
 accepts (obsolete entryNode, no ports in connections)

---
 apps/redis-module/src/program_validator.rs    | 14 +++++++++++---
 apps/rtbot-server/resources/rtbot-server.toml |  3 ++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/apps/redis-module/src/program_validator.rs b/apps/redis-module/src/program_validator.rs
index dfca6a2..f5c70b2 100644
--- a/apps/redis-module/src/program_validator.rs
+++ b/apps/redis-module/src/program_validator.rs
@@ -35,9 +35,9 @@ impl ProgramJsonSchemaValidator {
                   "type": "string",
                   "examples": ["MIT", "private"]
                 },
-                "entryNode": {
+                "entryOperator": {
                   "type": "string",
-                  "examples": ["ma1"]
+                  "examples": ["in1"]
                 },
                 "optim": {
                   "type": "object",
@@ -120,6 +120,14 @@ impl ProgramJsonSchemaValidator {
                       "to": {
                         "type": "string",
                         "examples": ["std"]
+                      },
+                      "fromPort": {
+                        "type": "string",
+                        "examples": ["o1"]
+                      },
+                      "toPort": {
+                        "type": "string",
+                        "examples": ["i1"]
                       }
                     },
                     "required": ["from", "to"],
@@ -127,7 +135,7 @@ impl ProgramJsonSchemaValidator {
                   }
                 }
               },
-              "required": ["title", "entryNode", "operators", "connections"],
+              "required": ["operators", "connections", "entryOperator"],
               "additionalProperties": true
             }),
         }
diff --git a/apps/rtbot-server/resources/rtbot-server.toml b/apps/rtbot-server/resources/rtbot-server.toml
index 38f4bae..57a11aa 100644
--- a/apps/rtbot-server/resources/rtbot-server.toml
+++ b/apps/rtbot-server/resources/rtbot-server.toml
@@ -18,7 +18,8 @@ json = '''
   "version": "v1",
   "author": "Someone <someone@gmail.com>",
   "license": "MIT",
-  "entryNode": "ma1",
+  "entryOperator": "i1",
+  "output": { "o1": ["o1"] },
   "optim": {
     "algorithm": "Nelder-Mead"
   },
-- 
2.43.0


From 1d3b1457645f30f60a60d6c318c7ee6e5cf01034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:24 +0000
Subject: [PATCH 47/50] fix: rtbot.run left a pipeline behind when the input
 series could not be read

---
 apps/redis-module/src/commands/rtbot_run.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/apps/redis-module/src/commands/rtbot_run.rs b/apps/redis-module/src/commands/rtbot_run.rs
index ac9db75..361451a 100644
--- a/apps/redis-module/src/commands/rtbot_run.rs
+++ b/apps/redis-module/src/commands/rtbot_run.rs
@@ -43,9 +43,8 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
     let binding = PIPELINES_REGISTRY.read().unwrap();
     let registry = binding.as_ref().unwrap();
 
-    // create the pipeline
-    let pipeline_id = registry.create(&get_program_result, &input_key, &output_key)?;
-    // get the data from the input key
+    // get the data from the input key, before creating the pipeline: if there
+    // is no such series no pipeline should be left behind
     let input_ts = match ctx.call("ts.range", &[input_key.to_string().as_str(), "-", "+"])? {
         RedisValue::Array(s) => Ok(s),
         result => Err(String(format!(
@@ -53,6 +52,8 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
             program_key, result
         ))),
     }?;
+    // create the pipeline
+    let pipeline_id = registry.create(&get_program_result, &input_key, &output_key)?;
     // delete whatever is in the output key, if something
     ctx.call("del", &[output_key.as_str()])?;
     // create a new timeseries key
-- 
2.43.0


From 26b06a0ffb252c4a1b9f1d4e05f4e3e5fad886b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:49 +0000
Subject: [PATCH 48/50] fix: rtbot.run sent the history of a series again to
 the other pipelines of that series

---
 apps/redis-module/src/commands/rtbot_run.rs | 35 ++++++++++-----------
 apps/rtbot-rs/src/pipelines_registry.rs     | 30 ++++++++++++++++++
 2 files changed, 47 insertions(+), 18 deletions(-)

diff --git a/apps/redis-module/src/commands/rtbot_run.rs b/apps/redis-module/src/commands/rtbot_run.rs
index 361451a..7d1d1b0 100644
--- a/apps/redis-module/src/commands/rtbot_run.rs
+++ b/apps/redis-module/src/commands/rtbot_run.rs
@@ -84,25 +84,24 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
         .unwrap()
         .parse::<f64>()
         .unwrap();
-        let result = registry.receive(&input_key, *timestamp as u64, vec![value])?;
-        // now for each of the registered outputs send the result
-        for (registered_output_key, message) in result {
-            if !message.is_empty() {
-                // println!("Sending message {:?} to {}", message, registered_output_key);
-                // notice that here we just consider the first element in the values as
-                // the value to consider as the output to store in the output timeseries
-                let timestamp = message[0].timestamp;
-                let value = message[0].values[0];
+        // only the new pipeline takes the history: the other pipelines attached
+        // to this input key have already received it
+        let message =
+            registry.receive_in_pipeline(&input_key, &output_key, *timestamp as u64, vec![value])?;
+        if !message.is_empty() {
+            // notice that here we just consider the first element in the values as
+            // the value to consider as the output to store in the output timeseries
+            let timestamp = message[0].timestamp;
+            let value = message[0].values[0];
 
-                ctx.call(
-                    "ts.add",
-                    &[
-                        registered_output_key.as_str(),
-                        timestamp.to_string().as_str(),
-                        value.to_string().as_str(),
-                    ],
-                )?;
-            }
+            ctx.call(
+                "ts.add",
+                &[
+                    output_key.as_str(),
+                    timestamp.to_string().as_str(),
+                    value.to_string().as_str(),
+                ],
+            )?;
         }
     }
 
diff --git a/apps/rtbot-rs/src/pipelines_registry.rs b/apps/rtbot-rs/src/pipelines_registry.rs
index 0d9191e..4434a14 100644
--- a/apps/rtbot-rs/src/pipelines_registry.rs
+++ b/apps/rtbot-rs/src/pipelines_registry.rs
@@ -176,4 +176,34 @@ impl PipelinesRegistry {
         }
         Ok(result)
     }
+
+    /// Sends a message only to the pipeline between `input_key` and `output_key`.
+    ///
+    /// # Arguments
+    ///
+    /// * `input_key`: The input key
+    /// * `output_key`: The output key
+    /// * `timestamp`: The timestamp of the message
+    /// * `values`: The values of the message.
+    ///
+    /// returns: Result<Vec<RtBotMessage>, PipelineError>
+    pub fn receive_in_pipeline(
+        &self,
+        input_key: &str,
+        output_key: &str,
+        timestamp: u64,
+        values: Vec<f64>,
+    ) -> Result<Vec<RtBotMessage>, PipelineError> {
+        let pipeline = self.pipelines.lock().unwrap();
+        match pipeline.get(input_key).and_then(|outputs| outputs.get(output_key)) {
+            Some(pipeline_id) => Ok(cxx_bindings::ffi::receive_message_in_pipeline(
+                pipeline_id.to_string(),
+                RtBotMessage { timestamp, values },
+            )),
+            None => Err(PipelineError::Generic(format!(
+                "There is no pipeline from key {} to key {}",
+                input_key, output_key
+            ))),
+        }
+    }
 }
-- 
2.43.0


From 97436cb3cb5b009386fb31d16dc71f958cf40d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:10 +0000
Subject: [PATCH 49/50] fix: a message without a time or a text value ended the
 server's input, nothing was stored any more

---
 apps/rtbot-server/src/main.rs | 38 ++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/apps/rtbot-server/src/main.rs b/apps/rtbot-server/src/main.rs
index 5e99164..eaf95ab 100644
--- a/apps/rtbot-server/src/main.rs
+++ b/apps/rtbot-server/src/main.rs
@@ -142,14 +142,13 @@ async fn connect_to_input_ws_redis(input_ws: &InputWsConfig, redis_service: &mut
             trace!("Message {:#?}", payload);
             // compute the timestamp
             let timestamp: u64 = if let Some(mapping) = &input_ws.json_remap.timestamp {
-                let timestamp_finder = JsonPathFinder::from_str(&payload, mapping).unwrap().find();
-                timestamp_finder
-                    .as_array()
-                    .unwrap()
-                    .first()
-                    .unwrap()
-                    .as_u64()
-                    .unwrap()
+                match find_first(&payload, mapping).and_then(|found| found.as_u64()) {
+                    Some(timestamp) => timestamp,
+                    None => {
+                        warn!("No timestamp in message {:#?}, mapping {}", payload, mapping);
+                        continue;
+                    }
+                }
             } else {
                 SystemTime::now()
                     .duration_since(UNIX_EPOCH)
@@ -165,10 +164,8 @@ async fn connect_to_input_ws_redis(input_ws: &InputWsConfig, redis_service: &mut
                 .values
                 .iter()
                 .map(|mapping| {
-                    let value_finder = JsonPathFinder::from_str(&payload, mapping).unwrap().find();
-                    if let Value::String(value_str) =
-                        value_finder.as_array().unwrap().first().unwrap()
-                    {
+                    let value = find_first(&payload, mapping);
+                    if let Some(Value::String(value_str)) = value {
                         match value_str.parse::<f64>() {
                             Ok(v) => Some(v),
                             Err(_) => {
@@ -180,7 +177,7 @@ async fn connect_to_input_ws_redis(input_ws: &InputWsConfig, redis_service: &mut
                             }
                         }
                     } else {
-                        None
+                        value.and_then(|v| v.as_f64())
                     }
                 })
                 .collect();
@@ -188,9 +185,22 @@ async fn connect_to_input_ws_redis(input_ws: &InputWsConfig, redis_service: &mut
             debug!("timestamp {:?}, values {:?}", timestamp, values);
 
             // Notice we are sending here only the first parsed value
-            if let Err(e) = redis_service.add(timestamp, vec![values[0].unwrap()]).await {
+            let value = match values.first() {
+                Some(Some(value)) => *value,
+                _ => {
+                    warn!("No value in message {:#?}", payload);
+                    continue;
+                }
+            };
+            if let Err(e) = redis_service.add(timestamp, vec![value]).await {
                 warn!("Unable to store the data in redis: {:#?}", e);
             };
         }
     }
 }
+
+// what the mapping finds in the message, if it is json and has it
+fn find_first(payload: &str, mapping: &str) -> Option<Value> {
+    let found = JsonPathFinder::from_str(payload, mapping).ok()?.find();
+    found.as_array()?.first().cloned()
+}
-- 
2.43.0


From 66df7e5e3b98423dfe8e7dc6c3849e180196bbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:10 +0000
Subject: [PATCH 50/50] fix: messages sent to a JavaScript program without
 waiting for the answers got into one iteration

---
 libs/wrappers/javascript/src/api.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/wrappers/javascript/src/api.ts b/libs/wrappers/javascript/src/api.ts
index c4b42f4..a5ac33f 100644
--- a/libs/wrappers/javascript/src/api.ts
+++ b/libs/wrappers/javascript/src/api.ts
@@ -38,16 +38,20 @@ export class RtBot {
     programId: string,
     messages: { [portId: string]: { time: number; value: number }[] }
   ): Promise<RtBotIterationOutput> {
-    this.prepareInternalMessageBuffer(programId, messages, await this.rtbot);
-    return JSON.parse((await this.rtbot).processMessageBufferDebug(programId));
+    const rtbot = await this.rtbot;
+    // without waiting in between: the messages of overlapping calls must not get into one iteration
+    this.prepareInternalMessageBuffer(programId, messages, rtbot);
+    return JSON.parse(rtbot.processMessageBufferDebug(programId));
   }
 
   async process(
     programId: string,
     messages: { [portId: string]: { time: number; value: number }[] }
   ): Promise<RtBotIterationOutput> {
-    this.prepareInternalMessageBuffer(programId, messages, await this.rtbot);
-    return JSON.parse((await this.rtbot).processMessageBuffer(programId));
+    const rtbot = await this.rtbot;
+    // without waiting in between: the messages of overlapping calls must not get into one iteration
+    this.prepareInternalMessageBuffer(programId, messages, rtbot);
+    return JSON.parse(rtbot.processMessageBuffer(programId));
   }
 
   prepareInternalMessageBuffer(
-- 
2.43.0

