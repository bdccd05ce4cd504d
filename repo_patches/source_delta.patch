From 13e0a142b14fae759eb4141a86802501d51b1464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 01/27] fix: Signal::at rejects times off the domain and
 interpolates from the previous sample

---
 src/core/signal.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index a63f59d..cde7ca0 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -12,7 +12,7 @@
 namespace signal_tl::signal {
 
 Sample Signal::at(double t) const {
-  if (this->begin_time() > t && this->end_time() < t) {
+  if (this->empty() || !(this->begin_time() <= t && t <= this->end_time())) {
     throw std::invalid_argument(
         fmt::format("Signal is undefined for given time instance {}", t));
   }
@@ -25,7 +25,8 @@ Sample Signal::at(double t) const {
   if (it->time == t) {
     return *it;
   }
-  return Sample{t, it->interpolate(t), it->derivative};
+  const auto prev = std::prev(it); // the last sample before t
+  return Sample{t, prev->interpolate(t), prev->derivative};
 }
 
 void Signal::push_back(Sample sample) {
-- 
2.43.0


From 3fb70a08044ec3e5d8c770986515388745e25803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 02/27] fix: Signal::end_at no longer reads outside the samples

---
 src/include/signal_tl/signal.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/include/signal_tl/signal.hpp b/src/include/signal_tl/signal.hpp
index 9e1679c..b06b92b 100644
--- a/src/include/signal_tl/signal.hpp
+++ b/src/include/signal_tl/signal.hpp
@@ -148,11 +148,10 @@ struct Signal {
     if (this->end_time() <= t)
       return this->end();
 
-    auto it = this->end();
-    while (it->time > t) it = std::prev(it);
-    // Now we have the pointer to the first element from the back whose .time <= t.
-    // So increment by 1 and return
-    return std::next(it);
+    constexpr auto comp_op = [](const Sample& a, const Sample& b) {
+      return a.time < b.time;
+    };
+    return std::upper_bound(this->begin(), this->end(), Sample{t, 0.0}, comp_op);
   }
 
   /**
-- 
2.43.0


From 73e90ab326d1c457ce20eeb9db39bc4297b13521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 03/27] fix: Signal::push_back rejects a NaN time

---
 src/core/signal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index cde7ca0..9fa03fb 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -31,7 +31,7 @@ Sample Signal::at(double t) const {
 
 void Signal::push_back(Sample sample) {
   if (!this->samples.empty()) {
-    if (sample.time <= this->end_time()) {
+    if (!(sample.time > this->end_time())) { // also rejects NaN
       throw std::invalid_argument(fmt::format(
           "Trying to append a Sample timestamped at or before the Signal end_time,"
           "i.e., time is not strictly monotonically increasing."
-- 
2.43.0


From 8529443f3d8f36d3e235f1701a5e30e697fa48ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 04/27] fix: constant infinite stretches of a signal have slope
 0, not NaN

---
 src/core/signal.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 9fa03fb..daf5212 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -43,7 +43,9 @@ void Signal::push_back(Sample sample) {
     const auto v = this->samples.back().value;
     auto& last   = this->samples.back();
 
-    last.derivative = (sample.value - v) / (sample.time - t);
+    // Equal values may be infinite, in which case their difference is NaN.
+    last.derivative =
+        (sample.value == v) ? 0.0 : (sample.value - v) / (sample.time - t);
   }
   this->samples.push_back(Sample{sample.time, sample.value, 0.0});
 }
-- 
2.43.0


From 0cc4c38da453c14a12e844c6cd06373752acb8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 05/27] fix: Signal::simplify drops collinear samples

---
 src/core/signal.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index daf5212..87bf458 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -55,12 +55,13 @@ void Signal::push_back(double time, double value) {
 }
 
 SignalPtr Signal::simplify() const {
-  auto sig = std::make_shared<Signal>();
+  auto sig  = std::make_shared<Signal>();
+  auto last = Sample{}; // the last sample kept, with its original derivative
   for (const auto& s : this->samples) {
     const auto [t, v, d] = s;
-    if ((sig->empty()) ||
-        (sig->back().interpolate(t) != v || sig->back().derivative != d)) {
+    if ((sig->empty()) || (last.interpolate(t) != v || last.derivative != d)) {
       sig->push_back(s);
+      last = s;
     }
   }
   if (this->end_time() != sig->end_time()) {
-- 
2.43.0


From be8c8429a6a7284b3add4f29941e93da139cde40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 06/27] fix: Signal::resize keeps the samples inside the range
 and fills at its end

---
 src/core/signal.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 87bf458..5ef5ce8 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -73,8 +73,8 @@ SignalPtr Signal::simplify() const {
 SignalPtr Signal::resize(double start, double end, double fill) const {
   auto sig = std::make_shared<Signal>();
 
-  // Check if begin_time > start, then add filled value
-  if (this->begin_time() > start) {
+  // Check if the signal is not defined at start, then add filled value
+  if (this->empty() || this->begin_time() > start || this->end_time() < start) {
     sig->push_back(Sample{start, fill, 0.0});
   }
 
@@ -82,7 +82,7 @@ SignalPtr Signal::resize(double start, double end, double fill) const {
   for (auto i = this->begin(); i != this->end(); i++) {
     const double t = i->time;
     // If current sample is timed below start, ...
-    if (std::next(i) != this->end() && std::next(i)->time > start) {
+    if (t < start && std::next(i) != this->end() && std::next(i)->time > start) {
       // and next sample is timed after `start`, append an intermediate value
       sig->push_back(Sample{start, i->interpolate(start)});
     } else if (start <= t && t <= end) {
@@ -93,13 +93,16 @@ SignalPtr Signal::resize(double start, double end, double fill) const {
       if (i != this->begin() && std::prev(i)->time < end) {
         // and the previous sample is within the range, interpolate from the last.
         sig->push_back(Sample{end, std::prev(i)->interpolate(end)});
-      } else {
-        // TODO(anand): Does it make sense to terminate early?
-        break;
       }
+      break;
     }
   }
 
+  // If the signal is not defined at end, then add filled value
+  if (sig->end_time() < end) {
+    sig->push_back(Sample{end, fill, 0.0});
+  }
+
   return sig;
 }
 
-- 
2.43.0


From 75af556684ce57e52e9c3d12392feaf19054103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 07/27] fix: synchronize handles signals with different or
 disjoint domains

---
 src/core/signal.cc | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 5ef5ce8..1e6ec61 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -122,29 +122,26 @@ SignalPtr Signal::resize_shift(double start, double end, double fill, double dt)
 std::tuple<std::shared_ptr<Signal>, std::shared_ptr<Signal>>
 synchronize(const std::shared_ptr<Signal>& x, const std::shared_ptr<Signal>& y) {
   const double begin_time = std::max(x->begin_time(), y->begin_time());
-  // const double end_time   = std::min(x->end_time(), y->end_time());
+  const double end_time   = std::min(x->end_time(), y->end_time());
+
+  if (x->empty() || y->empty() || begin_time > end_time) {
+    // There is no time instance where both of them are defined.
+    return std::make_tuple(std::make_shared<Signal>(), std::make_shared<Signal>());
+  }
 
   // These will store the new series of Samples, containing a sample for every
   // time instance in x and y, and the time points where they intersect.
   auto xv = std::vector<Sample>{};
   auto yv = std::vector<Sample>{};
 
-  // Iterator to the first element where element.time <= begin_time.
-  // If the iterator begins after begin_time, get the prev (if it exists) and
-  // interpolate from it.
+  // Iterator to the first element where element.time >= begin_time.
+  // One of the signals has a sample at begin_time, and the other one is interpolated
+  // there by the loop below.
   constexpr auto comp_time = [](const Sample& a, const Sample& b) -> bool {
     return a.time < b.time;
   };
   auto i = std::lower_bound(x->begin(), x->end(), Sample{begin_time, 0.0}, comp_time);
-  if (i->time > begin_time && i != x->begin()) {
-    xv.push_back(Sample{
-        begin_time, std::prev(i)->interpolate(begin_time), std::prev(i)->derivative});
-  }
   auto j = std::lower_bound(y->begin(), y->end(), Sample{begin_time, 0.0}, comp_time);
-  if (j->time > begin_time && j != y->begin()) {
-    yv.push_back(Sample{
-        begin_time, std::prev(j)->interpolate(begin_time), std::prev(i)->derivative});
-  }
 
   // Now, we have to track the timestamps.
   while (i != x->end() && j != y->end()) {
-- 
2.43.0


From 77b996232570dc528a39de2b33270e500159509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 08/27] fix: do not add a crossing point that rounding puts
 after the next sample

---
 src/robust_semantics/minmax.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index adf3aea..3dc7560 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -41,7 +41,7 @@ SignalPtr compute_minmax_pair(
     if (comp(*i, *j)) {
       if (last_chosen == Chosen::Y) {
         double intercept_time = std::prev(j)->time_intersect(*std::prev(i));
-        if (intercept_time > out->end_time() && intercept_time != i->time) {
+        if (intercept_time > out->end_time() && intercept_time < i->time) {
           out->push_back(
               Sample{intercept_time, std::prev(j)->interpolate(intercept_time)});
         }
@@ -51,7 +51,7 @@ SignalPtr compute_minmax_pair(
     } else {
       if (last_chosen == Chosen::X) {
         double intercept_time = std::prev(i)->time_intersect(*std::prev(j));
-        if (intercept_time > out->end_time() && intercept_time != j->time) {
+        if (intercept_time > out->end_time() && intercept_time < j->time) {
           out->push_back(
               Sample{intercept_time, std::prev(i)->interpolate(intercept_time)});
         }
-- 
2.43.0


From 42c8a697ee09059931ea5be0555d74405084402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 09/27] fix: evaluate constants on traces with a single time
 instant

---
 src/robust_semantics/classic_robustness.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index d047c5a..de60fbd 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -106,7 +106,10 @@ SignalPtr compute_robustness(const ast::Expr& phi, const signal::Trace& trace, b
 
 SignalPtr RobustnessOp::operator()(const ast::Const e) const {
   const double val = (e.value) ? static_cast<double>(TOP) : static_cast<double>(BOTTOM);
-  auto samples     = std::vector<Sample>{{min_time, val, 0.0}, {max_time, val, 0.0}};
+  auto samples     = std::vector<Sample>{{min_time, val, 0.0}};
+  if (max_time != min_time) {
+    samples.push_back({max_time, val, 0.0});
+  }
   return std::make_shared<Signal>(samples);
 }
 
-- 
2.43.0


From 505ca8897513a73efe50f512b0836f2f5f57485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 10/27] fix: unbounded always/eventually are exact between
 samples

---
 src/robust_semantics/minmax.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index 3dc7560..680bc6d 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -90,12 +90,24 @@ compute_minmax_pair(const std::vector<SignalPtr>& xs, Compare comp, bool synchro
 
 template <typename Compare>
 SignalPtr compute_minmax_seq(const SignalPtr& x, Compare comp) {
+  if (x->empty()) {
+    return std::make_shared<Signal>();
+  }
+
   auto opt = x->back();
   auto z   = std::vector<Sample>{};
   z.reserve(2 * x->size());
   z.push_back(x->back());
 
   for (auto i = std::next(x->rbegin()); i != x->rend(); i++) {
+    if (comp(*i, opt)) {
+      // The result follows the signal until it gets worse than its later optimum.
+      const double next_time      = std::prev(i)->time;
+      const double intercept_time = i->time_intersect(Sample{next_time, opt.value, 0.0});
+      if (i->time < intercept_time && intercept_time < next_time) {
+        z.push_back({intercept_time, opt.value});
+      }
+    }
     opt = (comp(*i, opt)) ? *i : opt;
     z.push_back({i->time, opt.value});
   }
-- 
2.43.0


From 61db3874033b6d53886f636065db759975b05116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 11/27] fix: until follows the semantics of Donze and Maler at
 every time instant

---
 src/robust_semantics/classic_robustness.cc | 43 ++++++++++++++++++----
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index de60fbd..242674f 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -34,19 +34,46 @@ SignalPtr compute_until(const SignalPtr& input_x, const SignalPtr& input_y) {
   assert(x->begin_time() == y->begin_time());
   assert(x->end_time() == y->end_time());
 
-  auto sigstack = std::vector<Sample>();
+  if (x->empty()) {
+    return std::make_shared<Signal>();
+  }
 
-  // TODO(anand): This doesn't handle crossing signals well...
+  auto sigstack = std::vector<Sample>();
 
-  double prev      = TOP;
-  double max_right = BOTTOM;
+  // The result at the end of the segment being handled, starting from the last sample.
+  double prev = std::min(x->back().value, y->back().value);
+  sigstack.push_back({x->end_time(), prev});
 
-  for (auto [i, j] = std::make_tuple(x->rbegin(), y->rbegin());
+  for (auto [i, j] = std::make_tuple(std::next(x->rbegin()), std::next(y->rbegin()));
        i != x->rend() && j != y->rend();
        i++, j++) {
-    max_right = std::max(max_right, j->value);
-    prev      = std::max({j->value, std::min(i->value, prev), -max_right});
-    sigstack.push_back({i->time, prev});
+    // On a segment where x and y are linear and do not cross, the result is
+    // min(x, max(y, prev)) if x doesn't decrease, and max(min(x, y), prev) otherwise.
+    const auto value_at = [i = *i, j = *j, &prev](double t) {
+      const double xt = i.interpolate(t), yt = j.interpolate(t);
+      return (i.derivative >= 0) ? std::min(xt, std::max(yt, prev))
+                                 : std::max(std::min(xt, yt), prev);
+    };
+    const auto push_at = [&](double t) {
+      if (i->time <= t && t < sigstack.back().time) {
+        sigstack.push_back({t, value_at(t)});
+      }
+    };
+
+    // So, split the segment where x and y cross (handling the later part first).
+    for (const double begin : {i->time_intersect(*j), i->time}) {
+      if (!(i->time <= begin && begin < sigstack.back().time)) {
+        continue;
+      }
+      // And then where one of them crosses prev.
+      const auto horizontal = Sample{sigstack.back().time, prev, 0.0};
+      const double x_cross  = i->time_intersect(horizontal);
+      const double y_cross  = j->time_intersect(horizontal);
+      push_at(std::max(begin, std::fmax(x_cross, y_cross)));
+      push_at(std::max(begin, std::fmin(x_cross, y_cross)));
+      push_at(begin);
+      prev = sigstack.back().value;
+    }
   }
   std::reverse(sigstack.begin(), sigstack.end());
   auto out = std::make_shared<Signal>(sigstack);
-- 
2.43.0


From 9a5714d81e92935155de20fe24627545144fc276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 12/27] fix: always/eventually with an interval compute the
 sliding window of that interval

---
 src/include/signal_tl/ast.hpp              |  4 +-
 src/robust_semantics/classic_robustness.cc | 14 +---
 src/robust_semantics/minmax.cc             | 87 +++++++++++++++-------
 3 files changed, 64 insertions(+), 41 deletions(-)

diff --git a/src/include/signal_tl/ast.hpp b/src/include/signal_tl/ast.hpp
index 54de00c..f826afd 100644
--- a/src/include/signal_tl/ast.hpp
+++ b/src/include/signal_tl/ast.hpp
@@ -190,13 +190,13 @@ struct Interval {
     return start_zero && end_inf;
   }
 
-  /// Check if the interval is [0, inf).
+  /// Check if the interval is anything other than [0, inf).
   ///
   /// NOTE: Purely for backwards compatibility to a version of signal_tl that
   /// dealt with intervals as `std::pair<double, double>`, and the interval was
   /// stored inside an `std::optional` field in the Temporal operators.
   [[nodiscard]] bool has_value() const {
-    return this->is_zero_to_inf();
+    return !this->is_zero_to_inf();
   }
 };
 
diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index 242674f..2b9c978 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -199,13 +199,8 @@ SignalPtr RobustnessOp::operator()(const ast::EventuallyPtr& e) const {
   const auto [a, b] = e->interval.as_double();
   if (b - a < 0) {
     throw std::logic_error("Eventually operator: b < a in interval [a,b]");
-  } else if (b - a == 0) {
-    return y;
-  } else if (b - a >= y->end_time() - y->begin_time()) {
-    return compute_max_seq(y);
-  } else {
-    return compute_max_seq(y, a, b);
   }
+  return compute_max_seq(y, a, b);
 }
 
 SignalPtr RobustnessOp::operator()(const ast::AlwaysPtr& e) const {
@@ -217,13 +212,8 @@ SignalPtr RobustnessOp::operator()(const ast::AlwaysPtr& e) const {
   const auto [a, b] = e->interval.as_double();
   if (b - a < 0) {
     throw std::logic_error("Always operator: b < a in interval [a,b]");
-  } else if (b - a == 0) {
-    return y;
-  } else if (b - a >= y->end_time() - y->begin_time()) {
-    return compute_min_seq(y);
-  } else {
-    return compute_min_seq(y, a, b);
   }
+  return compute_min_seq(y, a, b);
 }
 
 SignalPtr RobustnessOp::operator()(const ast::UntilPtr& e) const {
diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index 680bc6d..8ef70e6 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -118,40 +118,73 @@ SignalPtr compute_minmax_seq(const SignalPtr& x, Compare comp) {
 
 template <typename Compare>
 SignalPtr compute_minmax_seq(const SignalPtr& x, double a, double b, Compare comp) {
-  const auto width      = b - a;
+  if (x->empty()) {
+    return std::make_shared<Signal>();
+  }
+
   const auto begin_time = x->begin_time();
   const auto end_time   = x->end_time();
 
-  auto x_ = (a == 0)
-                ? x
-                : x->resize_shift(
-                      begin_time + width, end_time + width, x->back().value, -width);
-
-  auto z       = std::make_shared<Signal>();
-  auto samples = std::deque<Sample>{x_->begin(), x_->end()};
-  auto window  = std::deque<Sample>{};
-
-  auto i = std::begin(samples);
-  // -- Read in values in [0, width)
-  for (; i->time < x->begin_time() + width; i++) {
-    mono_wedge::mono_wedge_update(window, *i, comp);
+  // The signal keeps its last value after its end.
+  const auto value_at = [&x, end_time](double t) {
+    return (t < end_time) ? x->at(t).value : x->back().value;
+  };
+  const auto best = [&comp](const Sample& l, const Sample& r) {
+    return comp(l, r) ? l : r;
+  };
+
+  // -- Split the signal where a sample enters or leaves the window.
+  auto times = std::vector<double>{begin_time, end_time};
+  for (const auto& s : *x) {
+    for (const double t : {s.time - b, s.time - a}) {
+      if (begin_time < t && t < end_time) {
+        times.push_back(t);
+      }
+    }
   }
+  std::sort(times.begin(), times.end());
+  times.erase(std::unique(times.begin(), times.end()), times.end());
+
+  auto z      = std::make_shared<Signal>();
+  auto window = std::deque<Sample>{};
+  auto next   = x->begin(); // the next sample to enter the window
+
+  for (size_t i = 0; i + 1 < times.size(); i++) {
+    const double t0 = times[i], t1 = times[i + 1];
+    // -- From t0 to t1, the result is the best of the values at both ends of the window
+    //    (both of them are linear), and the samples in it.
+    auto lines = std::vector<Sample>{};
+    for (const double d : {a, b}) {
+      const double v0 = value_at(t0 + d), v1 = value_at(t1 + d);
+      lines.push_back(Sample{t0, v0, (v0 == v1) ? 0.0 : (v1 - v0) / (t1 - t0)});
+    }
+    for (; next != x->end() && next->time - b <= t0; next++) {
+      mono_wedge::mono_wedge_update(window, *next, comp);
+    }
+    while (!window.empty() && window.front().time - a < t1) { window.pop_front(); }
+    if (!window.empty()) {
+      lines.push_back(Sample{t0, window.front().value, 0.0});
+    }
 
-  // -- Stream in the rest of the signal.
-  for (; i != samples.end(); i++) {
-    if (i->time - a > window.front().time) {
-      // Add the sample for time M.front + a
-      i = samples.insert(
-          i,
-          Sample{
-              window.front().time + a,
-              std::prev(i)->interpolate(window.front().time + a),
-              0.0});
+    // -- Add samples where the best one may change.
+    auto cuts = std::vector<double>{t0};
+    for (auto l = lines.begin(); l != lines.end(); l++) {
+      for (auto r = std::next(l); r != lines.end(); r++) {
+        const double t = l->time_intersect(*r);
+        if (t0 < t && t < t1) {
+          cuts.push_back(t);
+        }
+      }
+    }
+    std::sort(cuts.begin(), cuts.end());
+    cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
+    for (const double t : cuts) {
+      auto opt = Sample{t, lines.front().interpolate(t)};
+      for (const auto& l : lines) { opt = best(opt, Sample{t, l.interpolate(t)}); }
+      z->push_back(opt);
     }
-    mono_wedge::mono_wedge_update(window, *i, comp);
-    while (window.front().time <= i->time - a) { window.pop_front(); }
-    z->push_back(i->time, i->value);
   }
+  z->push_back(end_time, x->back().value);
 
   return z->simplify();
 }
-- 
2.43.0


From 5c36c03084589c1e89de2fba76496567c86b4380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 13/27] fix: Interval rejects NaN bounds

---
 src/include/signal_tl/ast.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/signal_tl/ast.hpp b/src/include/signal_tl/ast.hpp
index f826afd..b58c1bb 100644
--- a/src/include/signal_tl/ast.hpp
+++ b/src/include/signal_tl/ast.hpp
@@ -160,7 +160,7 @@ struct Interval {
   Interval(double a, double b) : low{a}, high{b} {
     if (a < 0 || b < 0) {
       throw std::invalid_argument("Interval cannot have negative values");
-    } else if (b <= a) {
+    } else if (!(b > a)) { // also rejects NaN
       throw std::invalid_argument("Interval [a,b] cannot have b <= a");
     }
   }
-- 
2.43.0


From fbd88d25c14e051812ea406ebd3db601f7d9c237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 14/27] fix: combining a conjunction/disjunction with its
 absorbing constant gives that constant

---
 src/core/ast.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/ast.cc b/src/core/ast.cc
index dc66ac7..d88de7f 100644
--- a/src/core/ast.cc
+++ b/src/core/ast.cc
@@ -46,6 +46,9 @@ Expr AndHelper(const AndPtr& lhs, const Expr& rhs) {
             args.insert(args.end(), e->args.begin(), e->args.end());
           }},
       rhs);
+  if (args.size() == 1) {
+    return args.front(); // absorbed by a constant
+  }
   return std::make_shared<And>(args);
 }
 
@@ -67,6 +70,9 @@ Expr OrHelper(const OrPtr& lhs, const Expr& rhs) {
             args.insert(args.end(), e->args.begin(), e->args.end());
           }},
       rhs);
+  if (args.size() == 1) {
+    return args.front(); // absorbed by a constant
+  }
   return std::make_shared<Or>(args);
 }
 
-- 
2.43.0


From 7209b3c5cb10d1b60ae902edba9dc5deb4cf9ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 15/27] fix: predicates of the form (~ c x) can be parsed

---
 src/parser/actions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index 4db8b4b..f224d20 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -209,7 +209,7 @@ struct action<PredicateTerm> {
 
     if (state.predicate_type == PredicateType::TWO) {
       // For Type TWO, we need to flip the direction of the comparison
-      switch (state.comparison_type.value()) {
+      switch (comparison_type) {
         case ast::ComparisonOp::LT:
           comparison_type = ast::ComparisonOp::GT;
           break;
-- 
2.43.0


From e018cef0e97c39c824e5de91da00a2bb4aabd2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 16/27] fix: parentheses hold exactly one expression or command

---
 src/parser/actions.hpp | 2 ++
 src/parser/grammar.hpp | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index f224d20..11fee9f 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -437,6 +437,8 @@ struct action<Term> {
       // Copy the pointer to the formula with the corresponding id
       state.terms.push_back(global_state.formulas.at(state.identifiers.back()));
       state.identifiers.pop_back();
+    } else if (state.terms.size() == 1) {
+      // A Term in parentheses: it is the only element of the terms vector already.
     } else {
       // Otherwise, it doesn't make sense that there are no results, as this
       // means that the parser failed. This should be unreachable.
diff --git a/src/parser/grammar.hpp b/src/parser/grammar.hpp
index 847a0b6..b90937c 100644
--- a/src/parser/grammar.hpp
+++ b/src/parser/grammar.hpp
@@ -157,7 +157,7 @@ using Expression = peg::sor<
     UntilTerm,
     Term>;
 
-using TermTail = peg::until<RParen, Expression>;
+using TermTail = peg::seq<Expression, RParen>;
 struct Term : peg::sor<peg::if_must<LParen, TermTail>, BooleanLiteral, Identifier> {};
 
 struct Assertion : peg::if_must<KwAssert, Identifier, Term> {};
@@ -189,7 +189,7 @@ struct Command : peg::must<AllowedCommands> {};
 /// We will hard code the top level commands, like `define-formula` and
 /// `assert` as that will allow us to directly reason about them. A command is
 /// essentially intrinsic to the specification language.
-using AnyCommandTail = peg::until<RParen, Command>;
+using AnyCommandTail = peg::seq<Command, RParen>;
 struct AnyCommand : peg::if_must<LParen, AnyCommandTail> {};
 
 struct StatementList : peg::seq<Skip, peg::until<peg::eof, AnyCommand, Skip>> {};
-- 
2.43.0


From 6e3677ae77d40bfeb7a83ce96fba0205e1e232b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 17/27] fix: using an undefined formula is a parse error

---
 src/parser/actions.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index 11fee9f..07480d4 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -415,7 +415,9 @@ struct action<Term> {
     return ret;
   }
 
-  static void apply0(GlobalParserState& global_state, ParserState& state) {
+  template <typename ActionInput>
+  static void
+  apply(const ActionInput& in, GlobalParserState& global_state, ParserState& state) {
     // Here, we have two possibilities:
     //
     // 1. The Term was a valid expression; or
@@ -435,7 +437,13 @@ struct action<Term> {
       state.result = std::nullopt;
     } else if (!state.identifiers.empty()) { // And if we have an id
       // Copy the pointer to the formula with the corresponding id
-      state.terms.push_back(global_state.formulas.at(state.identifiers.back()));
+      const auto formula = global_state.formulas.find(state.identifiers.back());
+      if (formula == global_state.formulas.end()) {
+        throw peg::parse_error(
+            fmt::format("undefined Formula with id: \"{}\"", state.identifiers.back()),
+            in);
+      }
+      state.terms.push_back(formula->second);
       state.identifiers.pop_back();
     } else if (state.terms.size() == 1) {
       // A Term in parentheses: it is the only element of the terms vector already.
-- 
2.43.0


From 1acc5be0d81a001f91f303fc4c2ffd42556fd44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 18/27] fix: printed until formulas are not ambiguous

---
 src/include/signal_tl/fmt.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/signal_tl/fmt.hpp b/src/include/signal_tl/fmt.hpp
index 31136fb..42a9b55 100644
--- a/src/include/signal_tl/fmt.hpp
+++ b/src/include/signal_tl/fmt.hpp
@@ -92,7 +92,7 @@ struct fmt::formatter<signal_tl::ast::Always>
     if (e.interval.has_value()) {
       const auto [a, b] = e.interval.as_double();
       if (std::isinf(b)) {
-        return format_to(ctx.out(), "G[{}, int) {}", a, e.arg);
+        return format_to(ctx.out(), "G[{}, inf) {}", a, e.arg);
       }
       return format_to(ctx.out(), "G[{},{}] {}", a, b, e.arg);
     }
@@ -125,11 +125,11 @@ struct fmt::formatter<signal_tl::ast::Until>
     if (e.interval.has_value()) {
       const auto [a, b] = e.interval.as_double();
       if (std::isinf(b)) {
-        return format_to(ctx.out(), "{} U[{}, inf) {}", e1, a, e2);
+        return format_to(ctx.out(), "({} U[{}, inf) {})", e1, a, e2);
       }
-      return format_to(ctx.out(), "{} U[{},{}] {}", e1, a, b, e2);
+      return format_to(ctx.out(), "({} U[{},{}] {})", e1, a, b, e2);
     }
-    return format_to(ctx.out(), "{} U {}", e1, e2);
+    return format_to(ctx.out(), "({} U {})", e1, e2);
   }
 };
 
-- 
2.43.0


From b39a3fe4a9ac35797c7246ec84f063d6efde082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 19/27] fix: define the implication operator of formulas

---
 src/core/ast.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/ast.cc b/src/core/ast.cc
index d88de7f..1a19f62 100644
--- a/src/core/ast.cc
+++ b/src/core/ast.cc
@@ -96,6 +96,10 @@ Expr operator|(const Expr& lhs, const Expr& rhs) {
   return std::make_shared<Or>(std::vector{lhs, rhs});
 }
 
+Expr operator>>(const Expr& lhs, const Expr& rhs) {
+  return (~lhs) | rhs;
+}
+
 Expr operator~(const Expr& expr) {
   if (const auto e = std::get_if<Const>(&expr)) {
     return Const{!(*e).value};
-- 
2.43.0


From fb0ec2fa23595951ff044308e148cefdab67b182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 20/27] fix: limit how deep terms can be nested in a
 specification

---
 src/parser/actions.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index 07480d4..75e0398 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -29,6 +29,9 @@ using PrimitiveState = std::variant<bool, long int, double>;
 
 enum struct PredicateType { ONE, TWO };
 
+/// How deep Terms can be nested in each other.
+constexpr unsigned long long int max_nesting_level = 1000;
+
 /// This encodes local state of the push-down parser.
 ///
 /// Essentially, this is a stack element, and a new one is pushed down
@@ -36,7 +39,7 @@ enum struct PredicateType { ONE, TWO };
 /// grammar. This keeps track of whatever is required to make a Term, without
 /// polluting the context of parent rules in the AST.
 struct ParserState {
-  /// Purely here for debugging purposes.
+  /// The number of Terms that this one is nested in.
   unsigned long long int level;
 
   /// Whenever an Expression is completed, this field gets populared. Later,
@@ -400,6 +403,11 @@ struct action<Term> {
     // Create a new layer on the stack
     ParserState new_local_state{};
     new_local_state.level = state.level + 1;
+    if (new_local_state.level > max_nesting_level) {
+      // Each level uses some of the call stack, so the input must not control how many
+      // there are.
+      throw peg::parse_error("Terms are nested too deeply", in);
+    }
 
     // Parse the input with the new state.
     bool ret = tao::pegtl::match<Rule, A, M, Action, Control>(
-- 
2.43.0


From c40eded65eda8002c02a70eadebc1322d1aa1f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 21/27] fix: numerals lost their fraction under a locale with
 another decimal point

---
 src/parser/actions.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index 75e0398..8da8153 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -11,9 +11,12 @@
 
 // #define NDEBUG
 #include <cassert>
+#include <locale>
 #include <map>
 #include <memory>
 #include <optional>
+#include <sstream>
+#include <stdexcept>
 #include <variant>
 #include <vector>
 
@@ -139,7 +142,14 @@ template <>
 struct action<DoubleLiteral> {
   template <typename ActionInput>
   static void apply(const ActionInput& in, GlobalParserState&, ParserState& state) {
-    double val             = std::stod(in.string());
+    // Not std::stod, as its decimal point depends on the locale set by the application.
+    auto stream = std::istringstream{in.string()};
+    stream.imbue(std::locale::classic());
+    stream.exceptions(std::ios_base::badbit); // i.e., an exception within the stream
+    double val = 0.0;
+    if (!(stream >> val)) {
+      throw std::out_of_range("Numeral " + in.string() + " is out of range");
+    }
     state.primitive_result = PrimitiveState(val);
   }
 };
-- 
2.43.0


From c87fcd9d21f89ffdfccf36d7dded1a58bb9fafc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:42 +0000
Subject: [PATCH 22/27] fix: an append that ran out of memory changed the slope
 of the last sample

---
 src/core/signal.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 1e6ec61..043d7ca 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -30,6 +30,7 @@ Sample Signal::at(double t) const {
 }
 
 void Signal::push_back(Sample sample) {
+  double derivative = 0.0; // of the sample before the new one
   if (!this->samples.empty()) {
     if (!(sample.time > this->end_time())) { // also rejects NaN
       throw std::invalid_argument(fmt::format(
@@ -41,13 +42,15 @@ void Signal::push_back(Sample sample) {
     }
     const auto t = this->samples.back().time;
     const auto v = this->samples.back().value;
-    auto& last   = this->samples.back();
 
     // Equal values may be infinite, in which case their difference is NaN.
-    last.derivative =
-        (sample.value == v) ? 0.0 : (sample.value - v) / (sample.time - t);
+    derivative = (sample.value == v) ? 0.0 : (sample.value - v) / (sample.time - t);
   }
   this->samples.push_back(Sample{sample.time, sample.value, 0.0});
+  // Only now, as the last sample has to keep its derivative if appending throws.
+  if (this->samples.size() > 1) {
+    std::prev(this->samples.end(), 2)->derivative = derivative;
+  }
 }
 
 void Signal::push_back(double time, double value) {
-- 
2.43.0


From cbae5e6a2465da8dac3f27110d6f508a67a76fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 23/27] fix: a specification read from a pipe was taken to be
 empty

---
 src/parser/parser.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parser/parser.cc b/src/parser/parser.cc
index 248a4ea..043279a 100644
--- a/src/parser/parser.cc
+++ b/src/parser/parser.cc
@@ -8,7 +8,12 @@
 #include <tao/pegtl/nothing.hpp>         // for nothing
 #include <tao/pegtl/parse.hpp>           // for parse
 
-#include <stdexcept> // for logic_error
+#include <cerrno>       // for errno
+#include <fstream>      // for ifstream
+#include <iterator>     // for istreambuf_iterator
+#include <stdexcept>    // for logic_error
+#include <string>       // for string
+#include <system_error> // for error_code, generic_category
 
 // #define NDEBUG
 #include <cassert>
@@ -50,7 +55,14 @@ std::unique_ptr<Specification> from_string(std::string_view input) {
 }
 
 std::unique_ptr<Specification> from_file(const stdfs::path& input) {
-  tao::pegtl::file_input in(input);
+  // Not file_input, as that takes what cannot be mapped (e.g., a pipe) to be empty.
+  std::ifstream file(input.c_str(), std::ios_base::binary);
+  if (!file) {
+    throw stdfs::filesystem_error(
+        "Cannot open specification", input, std::error_code(errno, std::generic_category()));
+  }
+  const auto content = std::string(std::istreambuf_iterator<char>(file), {});
+  tao::pegtl::string_input in(content, input.string());
   return _parse(in);
 }
 
-- 
2.43.0


From 73a57322ca3d1a7d0024079d52b1f0b0ac02166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:40 +0000
Subject: [PATCH 24/27] fix: the Python bindings of the temporal operators take
 an optional pair

---
 python_bindings/pyast.cc | 45 ++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/python_bindings/pyast.cc b/python_bindings/pyast.cc
index f4de1b2..9743e91 100644
--- a/python_bindings/pyast.cc
+++ b/python_bindings/pyast.cc
@@ -37,6 +37,13 @@ ast::Expr not_op(const T& expr) {
   return ~ast::Expr{expr};
 }
 
+/// The intervals of temporal operators are optional pairs in Python.
+using OptInterval = std::optional<ast::IntervalType>;
+
+ast::Interval to_interval(const OptInterval& interval) {
+  return interval ? ast::Interval{interval->first, interval->second} : ast::Interval{};
+}
+
 } // namespace
 
 void init_ast_module(py::module& parent) {
@@ -45,9 +52,28 @@ void init_ast_module(py::module& parent) {
   parent.def("Not", &Not, "arg"_a);
   parent.def("And", &And, "args"_a);
   parent.def("Or", &Or, "args"_a);
-  parent.def("Always", &Always, "arg"_a, "interval"_a = std::nullopt);
-  parent.def("Eventually", &Eventually, "arg"_a, "interval"_a = std::nullopt);
-  parent.def("Until", &Until, "arg0"_a, "arg1"_a, "interval"_a = std::nullopt);
+  parent.def(
+      "Always",
+      [](const Expr& arg, const OptInterval& interval) {
+        return Always(arg, to_interval(interval));
+      },
+      "arg"_a,
+      "interval"_a = std::nullopt);
+  parent.def(
+      "Eventually",
+      [](const Expr& arg, const OptInterval& interval) {
+        return Eventually(arg, to_interval(interval));
+      },
+      "arg"_a,
+      "interval"_a = std::nullopt);
+  parent.def(
+      "Until",
+      [](const Expr& arg0, const Expr& arg1, const OptInterval& interval) {
+        return Until(arg0, arg1, to_interval(interval));
+      },
+      "arg0"_a,
+      "arg1"_a,
+      "interval"_a = std::nullopt);
 
   auto m = parent.def_submodule("ast", "Define the AST nodes for STL");
   py::class_<ast::Const>(m, "Const")
@@ -96,7 +122,9 @@ void init_ast_module(py::module& parent) {
 
   py::class_<ast::Eventually, ast::EventuallyPtr>(m, "Eventually")
       .def(
-          py::init<const Expr&, std::optional<ast::Interval>>(),
+          py::init([](const Expr& arg, const OptInterval& interval) {
+            return std::make_shared<ast::Eventually>(arg, to_interval(interval));
+          }),
           "arg"_a,
           "interval"_a = std::nullopt)
       .def_readonly("arg", &ast::Eventually::arg)
@@ -108,7 +136,9 @@ void init_ast_module(py::module& parent) {
 
   py::class_<ast::Always, ast::AlwaysPtr>(m, "Always")
       .def(
-          py::init<const Expr&, std::optional<ast::Interval>>(),
+          py::init([](const Expr& arg, const OptInterval& interval) {
+            return std::make_shared<ast::Always>(arg, to_interval(interval));
+          }),
           "arg"_a,
           "interval"_a = std::nullopt)
       .def_readonly("arg", &ast::Always::arg)
@@ -120,7 +150,10 @@ void init_ast_module(py::module& parent) {
 
   py::class_<ast::Until, ast::UntilPtr>(m, "Until")
       .def(
-          py::init<const Expr&, const Expr&, std::optional<ast::Interval>>(),
+          py::init(
+              [](const Expr& arg0, const Expr& arg1, const OptInterval& interval) {
+                return std::make_shared<ast::Until>(arg0, arg1, to_interval(interval));
+              }),
           "arg0"_a,
           "arg1"_a,
           "interval"_a = std::nullopt)
-- 
2.43.0


From 1c5a42fbcbbe5b7cf56e2a9c3e7c976a45df87dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:40 +0000
Subject: [PATCH 25/27] fix: the interval attributes of the Python bindings
 give the interval

---
 python_bindings/pyast.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python_bindings/pyast.cc b/python_bindings/pyast.cc
index 9743e91..7566040 100644
--- a/python_bindings/pyast.cc
+++ b/python_bindings/pyast.cc
@@ -44,6 +44,12 @@ ast::Interval to_interval(const OptInterval& interval) {
   return interval ? ast::Interval{interval->first, interval->second} : ast::Interval{};
 }
 
+template <typename T>
+OptInterval get_interval(const T& expr) {
+  return expr.interval.has_value() ? OptInterval{expr.interval.as_double()}
+                                   : std::nullopt;
+}
+
 } // namespace
 
 void init_ast_module(py::module& parent) {
@@ -128,7 +134,7 @@ void init_ast_module(py::module& parent) {
           "arg"_a,
           "interval"_a = std::nullopt)
       .def_readonly("arg", &ast::Eventually::arg)
-      .def_readonly("interval", &ast::Eventually::arg)
+      .def_property_readonly("interval", &get_interval<ast::Eventually>)
       .def("__and__", &and_op<ast::EventuallyPtr>)
       .def("__or__", &or_op<ast::EventuallyPtr>)
       .def("__invert__", &not_op<ast::EventuallyPtr>)
@@ -142,7 +148,7 @@ void init_ast_module(py::module& parent) {
           "arg"_a,
           "interval"_a = std::nullopt)
       .def_readonly("arg", &ast::Always::arg)
-      .def_readonly("interval", &ast::Always::arg)
+      .def_property_readonly("interval", &get_interval<ast::Always>)
       .def("__and__", &and_op<ast::AlwaysPtr>)
       .def("__or__", &or_op<ast::AlwaysPtr>)
       .def("__invert__", &not_op<ast::AlwaysPtr>)
@@ -158,7 +164,7 @@ void init_ast_module(py::module& parent) {
           "arg1"_a,
           "interval"_a = std::nullopt)
       .def_readonly("args", &ast::Until::args)
-      .def_readonly("interval", &ast::Until::args)
+      .def_property_readonly("interval", &get_interval<ast::Until>)
       .def("__and__", &and_op<ast::UntilPtr>)
       .def("__or__", &or_op<ast::UntilPtr>)
       .def("__invert__", &not_op<ast::UntilPtr>)
-- 
2.43.0


From a4388077bbeb138fdee883e08899d5bcb5a802ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:40 +0000
Subject: [PATCH 26/27] fix: Sample.derivative of the Python bindings gives the
 derivative

---
 python_bindings/pysignal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python_bindings/pysignal.cc b/python_bindings/pysignal.cc
index 003663b..e1216a6 100644
--- a/python_bindings/pysignal.cc
+++ b/python_bindings/pysignal.cc
@@ -34,7 +34,7 @@ void init_signal_module(py::module& parent) {
       .def(py::init())
       .def_readonly("time", &Sample::time)
       .def_readonly("value", &Sample::value)
-      .def_readonly("derivative", &Sample::value)
+      .def_readonly("derivative", &Sample::derivative)
       .def(py::self < py::self)
       .def(py::self > py::self)
       .def(py::self >= py::self)
-- 
2.43.0


From 45617dfdc8c04ab71a37ef034884fb0e6fb4cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:40 +0000
Subject: [PATCH 27/27] fix: reject reversed intervals of large integers

Bounds beyond 2^53 that differ may be the same double, so that an interval
that ends before it starts was evaluated.
---
 src/include/signal_tl/ast.hpp              | 12 ++++++++++++
 src/robust_semantics/classic_robustness.cc |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/include/signal_tl/ast.hpp b/src/include/signal_tl/ast.hpp
index b58c1bb..5aedec5 100644
--- a/src/include/signal_tl/ast.hpp
+++ b/src/include/signal_tl/ast.hpp
@@ -165,6 +165,18 @@ struct Interval {
     }
   }
 
+  /// Return true iff the interval ends before it starts. Integers are compared as
+  /// such: large ones that differ may be the same `double`.
+  [[nodiscard]] bool is_reversed() const {
+    const auto a = std::get_if<unsigned long long int>(&this->low);
+    const auto b = std::get_if<unsigned long long int>(&this->high);
+    if (a != nullptr && b != nullptr) {
+      return *b < *a;
+    }
+    const auto bounds = this->as_double();
+    return bounds.second < bounds.first;
+  }
+
   /// Return the (low, high) pair as `double`s.
   [[nodiscard]] std::pair<double, double> as_double() const {
     double a = 0.0, b = 0.0;
diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index 2b9c978..cf03892 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -197,7 +197,7 @@ SignalPtr RobustnessOp::operator()(const ast::EventuallyPtr& e) const {
   }
 
   const auto [a, b] = e->interval.as_double();
-  if (b - a < 0) {
+  if (e->interval.is_reversed()) {
     throw std::logic_error("Eventually operator: b < a in interval [a,b]");
   }
   return compute_max_seq(y, a, b);
@@ -210,7 +210,7 @@ SignalPtr RobustnessOp::operator()(const ast::AlwaysPtr& e) const {
   }
 
   const auto [a, b] = e->interval.as_double();
-  if (b - a < 0) {
+  if (e->interval.is_reversed()) {
     throw std::logic_error("Always operator: b < a in interval [a,b]");
   }
   return compute_min_seq(y, a, b);
-- 
2.43.0

