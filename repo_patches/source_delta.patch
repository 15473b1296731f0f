From f64566deb1ab6b640448375469b033798bcc6662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 01/17] fix: leave the signal unchanged when an append runs out
 of memory

---
 src/core/signal.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index a63f59d..e67ff13 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -38,13 +38,14 @@ void Signal::push_back(Sample sample) {
           this->end_time(),
           sample));
     }
-    const auto t = this->samples.back().time;
-    const auto v = this->samples.back().value;
-    auto& last   = this->samples.back();
-
-    last.derivative = (sample.value - v) / (sample.time - t);
   }
+  // Append first: if this throws, the signal must stay as it was.
   this->samples.push_back(Sample{sample.time, sample.value, 0.0});
+  if (this->samples.size() > 1) {
+    auto& last = *std::prev(this->samples.end(), 2);
+
+    last.derivative = (sample.value - last.value) / (sample.time - last.time);
+  }
 }
 
 void Signal::push_back(double time, double value) {
-- 
2.43.0


From d0feee5af988bcae57bfe81d6b28e495f6980b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 02/17] fix: reject samples whose timestamp is not a number

---
 src/core/signal.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index e67ff13..fab3e3a 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -2,6 +2,7 @@
 #include "signal_tl/fmt.hpp"    // IWYU pragma: keep
 
 #include <algorithm>    // for lower_bound, max
+#include <cmath>        // for isnan
 #include <fmt/format.h> // for format
 #include <iterator>     // for prev, next
 #include <memory>       // for shared_ptr, __shared_ptr_access, mak...
@@ -29,6 +30,9 @@ Sample Signal::at(double t) const {
 }
 
 void Signal::push_back(Sample sample) {
+  if (std::isnan(sample.time)) {
+    throw std::invalid_argument("Trying to append a Sample without a valid timestamp.");
+  }
   if (!this->samples.empty()) {
     if (sample.time <= this->end_time()) {
       throw std::invalid_argument(fmt::format(
-- 
2.43.0


From f3bcae860c8680f51dd195e13d0c6cc0aea265f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 03/17] fix: synchronize signals that begin at different times

---
 src/core/signal.cc | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index fab3e3a..fd711ce 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -127,22 +127,14 @@ synchronize(const std::shared_ptr<Signal>& x, const std::shared_ptr<Signal>& y)
   auto xv = std::vector<Sample>{};
   auto yv = std::vector<Sample>{};
 
-  // Iterator to the first element where element.time <= begin_time.
-  // If the iterator begins after begin_time, get the prev (if it exists) and
-  // interpolate from it.
+  // Iterator to the first element where element.time >= begin_time.
+  // If the iterator begins after begin_time, the loop below interpolates from the
+  // previous element (which exists).
   constexpr auto comp_time = [](const Sample& a, const Sample& b) -> bool {
     return a.time < b.time;
   };
   auto i = std::lower_bound(x->begin(), x->end(), Sample{begin_time, 0.0}, comp_time);
-  if (i->time > begin_time && i != x->begin()) {
-    xv.push_back(Sample{
-        begin_time, std::prev(i)->interpolate(begin_time), std::prev(i)->derivative});
-  }
   auto j = std::lower_bound(y->begin(), y->end(), Sample{begin_time, 0.0}, comp_time);
-  if (j->time > begin_time && j != y->begin()) {
-    yv.push_back(Sample{
-        begin_time, std::prev(j)->interpolate(begin_time), std::prev(i)->derivative});
-  }
 
   // Now, we have to track the timestamps.
   while (i != x->end() && j != y->end()) {
-- 
2.43.0


From f429c22af086113b1c1141f4c680aa8d78864ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:11 +0000
Subject: [PATCH 04/17] fix: synchronize signals without a common time instance

---
 src/core/signal.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index fd711ce..8323d62 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -120,7 +120,12 @@ SignalPtr Signal::resize_shift(double start, double end, double fill, double dt)
 std::tuple<std::shared_ptr<Signal>, std::shared_ptr<Signal>>
 synchronize(const std::shared_ptr<Signal>& x, const std::shared_ptr<Signal>& y) {
   const double begin_time = std::max(x->begin_time(), y->begin_time());
-  // const double end_time   = std::min(x->end_time(), y->end_time());
+  const double end_time   = std::min(x->end_time(), y->end_time());
+
+  if (x->empty() || y->empty() || begin_time > end_time) {
+    // There is no time instance where both of them are defined.
+    return std::make_tuple(std::make_shared<Signal>(), std::make_shared<Signal>());
+  }
 
   // These will store the new series of Samples, containing a sample for every
   // time instance in x and y, and the time points where they intersect.
-- 
2.43.0


From 96e5ed173766fefc6515cd02b6ca70d334b86666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 05/17] fix: Signal::at outside of the signal is an error

---
 src/core/signal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index 8323d62..a6ea06c 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -13,7 +13,7 @@
 namespace signal_tl::signal {
 
 Sample Signal::at(double t) const {
-  if (this->begin_time() > t && this->end_time() < t) {
+  if (this->empty() || !(this->begin_time() <= t && t <= this->end_time())) {
     throw std::invalid_argument(
         fmt::format("Signal is undefined for given time instance {}", t));
   }
-- 
2.43.0


From 8764672396b77fb8ec4102d308b9a4f4c466fa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 06/17] fix: Signal::at interpolates from the closest earlier
 sample

---
 src/core/signal.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index a6ea06c..deeb818 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -26,7 +26,8 @@ Sample Signal::at(double t) const {
   if (it->time == t) {
     return *it;
   }
-  return Sample{t, it->interpolate(t), it->derivative};
+  const Sample& before = *std::prev(it);
+  return Sample{t, before.interpolate(t), before.derivative};
 }
 
 void Signal::push_back(Sample sample) {
-- 
2.43.0


From 971581d6d4559f1a0375d415673db881edcf4b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 07/17] fix: Signal::end_at does not read past the last sample

---
 src/include/signal_tl/signal.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/include/signal_tl/signal.hpp b/src/include/signal_tl/signal.hpp
index 9e1679c..70a8f0b 100644
--- a/src/include/signal_tl/signal.hpp
+++ b/src/include/signal_tl/signal.hpp
@@ -3,7 +3,7 @@
 #ifndef SIGNAL_TEMPORAL_LOGIC_SIGNAL_HPP
 #define SIGNAL_TEMPORAL_LOGIC_SIGNAL_HPP
 
-#include <algorithm>   // for lower_bound
+#include <algorithm>   // for lower_bound, upper_bound
 #include <cstddef>     // for size_t
 #include <iterator>    // for next, prev
 #include <map>         // for map
@@ -148,11 +148,10 @@ struct Signal {
     if (this->end_time() <= t)
       return this->end();
 
-    auto it = this->end();
-    while (it->time > t) it = std::prev(it);
-    // Now we have the pointer to the first element from the back whose .time <= t.
-    // So increment by 1 and return
-    return std::next(it);
+    constexpr auto comp_op = [](const Sample& a, const Sample& b) {
+      return a.time < b.time;
+    };
+    return std::upper_bound(this->begin(), this->end(), Sample{t, 0.0}, comp_op);
   }
 
   /**
-- 
2.43.0


From 0a20a04ad8eff2b382e5bb410fbced380962a2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 08/17] fix: Always and Eventually over an empty signal

---
 src/robust_semantics/minmax.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index adf3aea..cd5d3ee 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -90,6 +90,10 @@ compute_minmax_pair(const std::vector<SignalPtr>& xs, Compare comp, bool synchro
 
 template <typename Compare>
 SignalPtr compute_minmax_seq(const SignalPtr& x, Compare comp) {
+  if (x->empty()) {
+    return std::make_shared<Signal>();
+  }
+
   auto opt = x->back();
   auto z   = std::vector<Sample>{};
   z.reserve(2 * x->size());
-- 
2.43.0


From e23af1e6263f3ba30077009f2fc80d3ba2a925d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 09/17] fix: parse predicates with the constant on the left

---
 src/parser/actions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index 4db8b4b..f224d20 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -209,7 +209,7 @@ struct action<PredicateTerm> {
 
     if (state.predicate_type == PredicateType::TWO) {
       // For Type TWO, we need to flip the direction of the comparison
-      switch (state.comparison_type.value()) {
+      switch (comparison_type) {
         case ast::ComparisonOp::LT:
           comparison_type = ast::ComparisonOp::GT;
           break;
-- 
2.43.0


From 89259574a6788ad3fc9c2684484e4a5aff72e4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 10/17] fix: numbers in specifications do not depend on the
 locale

---
 src/parser/actions.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/parser/actions.hpp b/src/parser/actions.hpp
index f224d20..52ee97f 100644
--- a/src/parser/actions.hpp
+++ b/src/parser/actions.hpp
@@ -11,9 +11,12 @@
 
 // #define NDEBUG
 #include <cassert>
+#include <locale>
 #include <map>
 #include <memory>
 #include <optional>
+#include <sstream>
+#include <stdexcept>
 #include <variant>
 #include <vector>
 
@@ -136,7 +139,13 @@ template <>
 struct action<DoubleLiteral> {
   template <typename ActionInput>
   static void apply(const ActionInput& in, GlobalParserState&, ParserState& state) {
-    double val             = std::stod(in.string());
+    // The format is that of the grammar, whatever the locale of the process.
+    auto stream = std::istringstream(in.string());
+    stream.imbue(std::locale::classic());
+    double val = 0.0;
+    if (!(stream >> val)) {
+      throw std::out_of_range("numeric literal out of range");
+    }
     state.primitive_result = PrimitiveState(val);
   }
 };
-- 
2.43.0


From e95aaa1f4d3e5f7026f32df0ec1a715d4c79f67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 11/17] fix: intersection rounded past the next sample in
 min/max

---
 src/robust_semantics/minmax.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robust_semantics/minmax.cc b/src/robust_semantics/minmax.cc
index cd5d3ee..79c29a2 100644
--- a/src/robust_semantics/minmax.cc
+++ b/src/robust_semantics/minmax.cc
@@ -41,7 +41,7 @@ SignalPtr compute_minmax_pair(
     if (comp(*i, *j)) {
       if (last_chosen == Chosen::Y) {
         double intercept_time = std::prev(j)->time_intersect(*std::prev(i));
-        if (intercept_time > out->end_time() && intercept_time != i->time) {
+        if (intercept_time > out->end_time() && intercept_time < i->time) {
           out->push_back(
               Sample{intercept_time, std::prev(j)->interpolate(intercept_time)});
         }
@@ -51,7 +51,7 @@ SignalPtr compute_minmax_pair(
     } else {
       if (last_chosen == Chosen::X) {
         double intercept_time = std::prev(i)->time_intersect(*std::prev(j));
-        if (intercept_time > out->end_time() && intercept_time != j->time) {
+        if (intercept_time > out->end_time() && intercept_time < j->time) {
           out->push_back(
               Sample{intercept_time, std::prev(i)->interpolate(intercept_time)});
         }
-- 
2.43.0


From e2a7f11928cabe1e6a27b3a9c9726b938629038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 12/17] fix: slope between equal infinite values

---
 src/core/signal.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index deeb818..b07d7cc 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -49,7 +49,10 @@ void Signal::push_back(Sample sample) {
   if (this->samples.size() > 1) {
     auto& last = *std::prev(this->samples.end(), 2);
 
-    last.derivative = (sample.value - last.value) / (sample.time - last.time);
+    // Equal values may be infinite (the robustness of a constant).
+    last.derivative = (sample.value == last.value)
+                          ? 0.0
+                          : (sample.value - last.value) / (sample.time - last.time);
   }
 }
 
-- 
2.43.0


From f9370faa97f360bbd3e2686f2ff98c36159d72b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 13/17] fix: robustness of a constant over a single time
 instance

---
 src/robust_semantics/classic_robustness.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index d047c5a..1914a85 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -106,7 +106,10 @@ SignalPtr compute_robustness(const ast::Expr& phi, const signal::Trace& trace, b
 
 SignalPtr RobustnessOp::operator()(const ast::Const e) const {
   const double val = (e.value) ? static_cast<double>(TOP) : static_cast<double>(BOTTOM);
-  auto samples     = std::vector<Sample>{{min_time, val, 0.0}, {max_time, val, 0.0}};
+  auto samples     = std::vector<Sample>{{min_time, val, 0.0}};
+  if (max_time != min_time) { // A trace may consist of a single time instance.
+    samples.push_back({max_time, val, 0.0});
+  }
   return std::make_shared<Signal>(samples);
 }
 
-- 
2.43.0


From 8d15c4cb78e3da84aa25372e2b2bf904a400a7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 14/17] fix: robustness of until

---
 src/robust_semantics/classic_robustness.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/robust_semantics/classic_robustness.cc b/src/robust_semantics/classic_robustness.cc
index 1914a85..cf7f818 100644
--- a/src/robust_semantics/classic_robustness.cc
+++ b/src/robust_semantics/classic_robustness.cc
@@ -38,14 +38,12 @@ SignalPtr compute_until(const SignalPtr& input_x, const SignalPtr& input_y) {
 
   // TODO(anand): This doesn't handle crossing signals well...
 
-  double prev      = TOP;
-  double max_right = BOTTOM;
+  double prev = BOTTOM;
 
   for (auto [i, j] = std::make_tuple(x->rbegin(), y->rbegin());
        i != x->rend() && j != y->rend();
        i++, j++) {
-    max_right = std::max(max_right, j->value);
-    prev      = std::max({j->value, std::min(i->value, prev), -max_right});
+    prev = std::max(j->value, std::min(i->value, prev));
     sigstack.push_back({i->time, prev});
   }
   std::reverse(sigstack.begin(), sigstack.end());
-- 
2.43.0


From 2c86732a12639584de36bf6a91b1dd7ca7327ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 15/17] fix: adding an absorbing constant to a conjunction or
 disjunction

---
 src/core/ast.cc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/core/ast.cc b/src/core/ast.cc
index dc66ac7..e088d35 100644
--- a/src/core/ast.cc
+++ b/src/core/ast.cc
@@ -29,16 +29,15 @@ using utils::overloaded;
 namespace {
 
 Expr AndHelper(const AndPtr& lhs, const Expr& rhs) {
+  if (const auto c_ptr = std::get_if<Const>(&rhs); c_ptr && !c_ptr->value) {
+    return *c_ptr;
+  }
   std::vector<Expr> args{lhs->args};
 
   std::visit(
       overloaded{
           [&args](const auto e) { args.push_back(e); },
-          [&args](const Const e) {
-            if (!e.value) {
-              args = {Expr{e}};
-            }
-          },
+          [](const Const) {}, // true is neutral, false is handled above
           [&args](const AndPtr& e) {
             args.reserve(
                 args.size() +
@@ -50,16 +49,15 @@ Expr AndHelper(const AndPtr& lhs, const Expr& rhs) {
 }
 
 Expr OrHelper(const OrPtr& lhs, const Expr& rhs) {
+  if (const auto c_ptr = std::get_if<Const>(&rhs); c_ptr && c_ptr->value) {
+    return *c_ptr;
+  }
   std::vector<Expr> args{lhs->args};
 
   std::visit(
       overloaded{
           [&args](const auto e) { args.push_back(e); },
-          [&args](const Const e) {
-            if (e.value) {
-              args = {Expr{e}};
-            }
-          },
+          [](const Const) {}, // false is neutral, true is handled above
           [&args](const OrPtr& e) {
             args.reserve(
                 args.size() +
-- 
2.43.0


From 3233c56f42c12cb84d166bf3fd664155e9f82a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:30 +0000
Subject: [PATCH 16/17] fix: resizing a signal that has samples inside the new
 range

---
 src/core/signal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/signal.cc b/src/core/signal.cc
index b07d7cc..6c30ba4 100644
--- a/src/core/signal.cc
+++ b/src/core/signal.cc
@@ -87,7 +87,7 @@ SignalPtr Signal::resize(double start, double end, double fill) const {
   for (auto i = this->begin(); i != this->end(); i++) {
     const double t = i->time;
     // If current sample is timed below start, ...
-    if (std::next(i) != this->end() && std::next(i)->time > start) {
+    if (t < start && std::next(i) != this->end() && std::next(i)->time > start) {
       // and next sample is timed after `start`, append an intermediate value
       sig->push_back(Sample{start, i->interpolate(start)});
     } else if (start <= t && t <= end) {
-- 
2.43.0


From 8392812a9451980dfaea70bbd02b6a5e367db29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:48 +0000
Subject: [PATCH 17/17] fix: line and column in parse errors depend on the
 global locale

A parse error in a line of more than 999 characters read 3:1.037 or
3:1,037 in locales with digit grouping, and 3:1037 elsewhere.
---
 src/parser/parser.cc | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/parser/parser.cc b/src/parser/parser.cc
index 248a4ea..6db0133 100644
--- a/src/parser/parser.cc
+++ b/src/parser/parser.cc
@@ -18,8 +18,31 @@ namespace {
 namespace peg = tao::pegtl;
 using namespace signal_tl;
 
+/// A parse error that reads the same in every locale: the one of PEGTL writes the line
+/// and the column with the digit grouping of the process's global locale.
+class located_error : public peg::parse_error {
+  std::shared_ptr<const std::string> text;
+
+  static std::string format(const peg::parse_error& e) {
+    auto text = std::string(e.message());
+    for (const auto& p : e.positions()) {
+      text = p.source + ':' + std::to_string(p.line) + ':' + std::to_string(p.column) +
+             ": " + text;
+    }
+    return text;
+  }
+
+ public:
+  explicit located_error(const peg::parse_error& e) :
+      peg::parse_error(e), text(std::make_shared<const std::string>(format(e))) {}
+
+  [[nodiscard]] const char* what() const noexcept override {
+    return text->c_str();
+  }
+};
+
 template <typename ParseInput>
-std::unique_ptr<Specification> _parse(ParseInput&& input) {
+std::unique_ptr<Specification> _parse(ParseInput&& input) try {
   // bool success =
   //     peg::parse<grammar::SpecificationFile, peg::nothing, parser::control>(input);
   auto global_state     = parser::actions::GlobalParserState{};
@@ -39,6 +62,8 @@ std::unique_ptr<Specification> _parse(ParseInput&& input) {
         "Local error thrown during parsing of input. This is most likely a bug.");
     // LCOV_EXCL_STOP
   }
+} catch (const peg::parse_error& e) {
+  throw located_error(e);
 }
 } // namespace
 
-- 
2.43.0

