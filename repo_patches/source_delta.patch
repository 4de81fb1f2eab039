From f2408b0d775be18212a0eec65c07b6dc8298b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 1/8] fix: do not look up the distinguished prefixes with the
 swapped pair

The deterministic renaming relation is not symmetric: that p(i) is not
equivalent to p(j) does not tell that p(j) is not equivalent to p(i). The
mirrored lookup violated the assertion in equivalentWithMemo (abort) or, with
NDEBUG, discarded an equivalence.
---
 include/observation_table.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/observation_table.hh b/include/observation_table.hh
index 4ac54d5..3c465ba 100644
--- a/include/observation_table.hh
+++ b/include/observation_table.hh
@@ -141,8 +141,7 @@ namespace learnta {
 
     std::optional<RenamingRelation> equivalentWithMemo(std::size_t i, std::size_t j) {
 #if 1
-      if (this->distinguishedPrefix.find(std::make_pair(i, j)) != this->distinguishedPrefix.end() ||
-          this->distinguishedPrefix.find(std::make_pair(j, i)) != this->distinguishedPrefix.end()) {
+      if (this->distinguishedPrefix.find(std::make_pair(i, j)) != this->distinguishedPrefix.end()) {
         // we already know that they are not equivalent
         assert(!this->equivalent(i, j));
         return std::nullopt;
-- 
2.43.0


From af308b6c04ab82cd7f2618e242f64b4406f19396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 2/8] fix: keep searching for feasible runs of a merged zone
 automaton

ZoneAutomaton::sample visited each state once. As the zones are merged, the
first run reaching a state can be infeasible while a later one is feasible, and
the equivalence oracle missed the counterexample. Remember the (extrapolated)
zones of the feasible runs that visited each state instead.
---
 include/symbolic_run.hh   |  5 +++++
 include/zone_automaton.hh | 29 ++++++++++++++++++++++++-----
 2 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/include/symbolic_run.hh b/include/symbolic_run.hh
index e20c47f..b276052 100644
--- a/include/symbolic_run.hh
+++ b/include/symbolic_run.hh
@@ -78,6 +78,11 @@ namespace learnta {
       return this->tightZones.at(i);
     }
 
+    //! @brief Returns the last zone without abstraction in the symbolic run
+    [[nodiscard]] learnta::Zone tightZoneBack() const {
+      return this->tightZones.back();
+    }
+
     //! @brief Returns the last state in the symbolic run
     [[nodiscard]] std::shared_ptr<ZAState> back() const {
       return this->states.back();
diff --git a/include/zone_automaton.hh b/include/zone_automaton.hh
index 9b89c2e..a18ec5d 100644
--- a/include/zone_automaton.hh
+++ b/include/zone_automaton.hh
@@ -27,7 +27,12 @@ namespace learnta {
                      [](const auto &initialState) {
                        return SymbolicRun{initialState};
                      });
-      std::unordered_set<std::shared_ptr<ZAState>> visited = {initialStates.begin(), initialStates.end()};
+      // The abstracted tight zones with which we have visited each state. A visit only covers another one with a
+      // smaller zone because a symbolic run does not have all the valuations of the (merged) zones it passes.
+      std::unordered_map<std::shared_ptr<ZAState>, std::vector<Zone>> visited;
+      for (const auto &run: currentStates) {
+        visited[run.back()].push_back(run.tightZoneAt(0));
+      }
 
       while (!currentStates.empty()) {
         std::vector<SymbolicRun> nextStates;
@@ -44,12 +49,26 @@ namespace learnta {
             for (const auto &edge: edges) {
               auto transition = edge.first;
               auto target = edge.second.lock();
-              if (target && visited.find(target) == visited.end()) {
-                // We have not visited the state
+              if (target) {
                 auto newRun = run;
                 newRun.push_back(transition, static_cast<char>(action), target);
-                nextStates.push_back(newRun);
-                visited.insert(target);
+                auto zone = newRun.tightZoneBack();
+                if (!zone.isSatisfiable()) {
+                  // The run is infeasible due to the state merging
+                  continue;
+                }
+                std::fill(zone.maxConstraints.begin(), zone.maxConstraints.end(), zone.M.first);
+                zone.extrapolate();
+                zone.canonize();
+                zone.value.diagonal().fill(Bounds{0, true});
+                auto &visitedZones = visited[target];
+                if (std::none_of(visitedZones.begin(), visitedZones.end(), [&zone](const Zone &visitedZone) {
+                  return visitedZone.includes(zone);
+                })) {
+                  // We have not visited the state with this zone
+                  visitedZones.push_back(zone);
+                  nextStates.push_back(newRun);
+                }
               }
             }
           }
-- 
2.43.0


From 142d56a044cfd3626eca06b31040c9cc825465f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 3/8] fix: apply and revert the resets of a zone simultaneously

TimedAutomatonRunner evaluates the right-hand sides before the resets. The zone
operations applied the copies one by one, which is wrong for, e.g.,
x0 := 3, x1 := x0 or a chain of copies, and the symbolic equivalence oracle
disagreed with the semantics of the automata.
---
 include/zone.hh | 86 +++++++++++++++++++++++++++++++------------------
 1 file changed, 54 insertions(+), 32 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index 63239db..0fc74bc 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -22,6 +22,29 @@ namespace learnta {
     @note internally, the variable 0 is used for the constant while externally, the actual clock variable is 0 origin, i.e., the variable 0 for the user is the variable 1 internally. So, we need increment or decrement to fill the gap.
   */
   struct Zone {
+  private:
+    /*!
+     * @brief For each row of the DBM, the row (and the offset) showing its value after the resets by the values before them
+     */
+    [[nodiscard]] std::vector<std::pair<Eigen::Index, double>>
+    resetSources(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) const {
+      std::vector<std::pair<Eigen::Index, double>> sources;
+      sources.reserve(value.rows());
+      for (Eigen::Index i = 0; i < value.rows(); ++i) {
+        sources.emplace_back(i, 0.0);
+      }
+      for (const auto &[resetVariable, updatedVariable]: resets) {
+        if (updatedVariable.index() == 1) {
+          sources.at(resetVariable + 1) = {std::get<ClockVariables>(updatedVariable) + 1, 0.0};
+        } else {
+          sources.at(resetVariable + 1) = {0, std::get<double>(updatedVariable)};
+        }
+      }
+
+      return sources;
+    }
+
+  public:
     //! @brief The matrix representing the DBM
     Eigen::Matrix <Bounds, Eigen::Dynamic, Eigen::Dynamic> value;
     //! @brief The threshold for the normalization
@@ -129,51 +152,50 @@ namespace learnta {
       }
     }
 
+    /*!
+     * @brief Assign the strongest post-condition of the resets
+     *
+     * @note The assignments are simultaneous, i.e., the right-hand sides refer to the values before the resets
+     */
     void applyResets(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) {
-      // We apply renaming first
-      for (const auto &[resetVariable, updatedVariable]: resets) {
-        if (updatedVariable.index() == 1 && resetVariable != std::get<ClockVariables>(updatedVariable)) {
-          this->unconstrain(resetVariable);
-          this->value(resetVariable + 1, std::get<ClockVariables>(updatedVariable) + 1) = Bounds{0.0, true};
-          this->value(std::get<ClockVariables>(updatedVariable) + 1, resetVariable + 1) = Bounds{0.0, true};
-          canonize();
-        }
-      }
-      // Then, assign a value
-      for (const auto &[resetVariable, updatedVariable]: resets) {
-        if (updatedVariable.index() == 0) {
-          this->unconstrain(resetVariable);
-          this->value(0, resetVariable + 1) = Bounds(-std::get<double>(updatedVariable), true);
-          this->value(resetVariable + 1, 0) = Bounds(std::get<double>(updatedVariable), true);
-          canonize();
+      const auto sources = resetSources(resets);
+      canonize();
+      const auto original = value;
+      for (Eigen::Index i = 0; i < value.rows(); ++i) {
+        for (Eigen::Index j = 0; j < value.cols(); ++j) {
+          const auto &[sourceI, offsetI] = sources.at(i);
+          const auto &[sourceJ, offsetJ] = sources.at(j);
+          const auto bound = sourceI == sourceJ && i != j ? Bounds{0.0, true} : original(sourceI, sourceJ);
+          value(i, j) = bound.first == std::numeric_limits<double>::max() ? bound :
+                        Bounds{bound.first + offsetI - offsetJ, bound.second};
         }
       }
+      canonize();
     }
 
     /*!
      * @brief Make it the weakest precondition of the reset
      *
      * In addition to unconstrain the updated variables, we use the renaming information
+     *
+     * @note The assignments are simultaneous, i.e., the right-hand sides refer to the values before the resets
      */
     void revertResets(const std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> &resets) {
-      std::vector<ClockVariables> resetVariables;
-      resetVariables.reserve(resets.size());
-      std::unordered_map<ClockVariables, ClockVariables> reverseAssignments;
-      for (const auto &[resetVariable, updatedVariable]: resets) {
-        resetVariables.push_back(resetVariable);
-        if (updatedVariable.index() == 1 && resetVariable != std::get<ClockVariables>(updatedVariable)) {
-          reverseAssignments[std::get<ClockVariables>(updatedVariable)] = resetVariable;
-        }
-      }
-      for (const auto &resetVariable: boost::adaptors::reverse(resetVariables)) {
-        this->unconstrain(resetVariable);
-        auto it = reverseAssignments.find(resetVariable);
-        if (it != reverseAssignments.end()) {
-          this->value(it->first + 1, it->second + 1) = Bounds{0.0, true};
-          this->value(it->second + 1, it->first + 1) = Bounds{0.0, true};
+      const auto sources = resetSources(resets);
+      canonize();
+      const auto original = value;
+      value.fill(Bounds(std::numeric_limits<double>::max(), false));
+      for (Eigen::Index i = 0; i < value.rows(); ++i) {
+        for (Eigen::Index j = 0; j < value.cols(); ++j) {
+          const auto &[sourceI, offsetI] = sources.at(i);
+          const auto &[sourceJ, offsetJ] = sources.at(j);
+          if (original(i, j).first != std::numeric_limits<double>::max()) {
+            value(sourceI, sourceJ) = std::min(value(sourceI, sourceJ),
+                                               Bounds{original(i, j).first - offsetI + offsetJ, original(i, j).second});
+          }
         }
-        canonize();
       }
+      canonize();
     }
 
     /*!
-- 
2.43.0


From 4d61d8f3de6364ba0424a2da4f05ed2682ad57e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 4/8] fix: respect the strict lower bounds by differences in
 Zone::sample

The sample was the lower bound even if the tightest lower bound comes from a
strict constraint on the difference, and it was outside of the zone.
---
 include/zone.hh | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/zone.hh b/include/zone.hh
index 0fc74bc..116a561 100644
--- a/include/zone.hh
+++ b/include/zone.hh
@@ -258,15 +258,22 @@ namespace learnta {
           valuation[i] = upperBound.first;
         } else {
           double lower = std::max(0.0, -lowerBound.first);
+          bool lowerClosed = lowerBound.second;
           double upper = upperBound.first;
           for (std::size_t j = 0; j < i; j++) {
             Bounds tmpLowerBound = this->value(j + 1, i + 1);
             Bounds tmpUpperBound = this->value(i + 1, j + 1);
-            lower = std::max(lower, -tmpLowerBound.first + valuation[j]);
+            const double tmpLower = -tmpLowerBound.first + valuation[j];
+            if (tmpLower > lower) {
+              lowerClosed = tmpLowerBound.second;
+            } else if (tmpLower == lower) {
+              lowerClosed = lowerClosed && tmpLowerBound.second;
+            }
+            lower = std::max(lower, tmpLower);
             upper = std::min(upper, tmpUpperBound.first + valuation[j]);
           }
           assert(lower <= upper);
-          if (lowerBound.second) {
+          if (lowerClosed) {
             valuation[i] = lower;
           } else if (upper - lower > 0.5) {
             valuation[i] = lower + 0.5;
-- 
2.43.0


From 6bdd6539ab90de6e2047cc84835d8f99ec21b80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 5/8] fix: take the earliest unobservable transition in
 TimedAutomatonRunner

lowerBoundDurationToSatisfy returns negated durations, and the runner took the
transition of the longest one. Also, check the upper bounds of the guard after
the duration, and let the empty guard hold immediately.
---
 include/constraint.hh             | 23 +++++++++++++++++------
 include/timed_automaton_runner.hh |  3 ++-
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/constraint.hh b/include/constraint.hh
index 77f850a..7d74a4f 100644
--- a/include/constraint.hh
+++ b/include/constraint.hh
@@ -360,15 +360,26 @@ namespace learnta {
     return result;
   }
 
+  /*!
+   * @brief Return (the negation of) the minimum duration to satisfy the guard, or the negative infinity if there is no such duration
+   */
   [[nodiscard]] inline Bounds lowerBoundDurationToSatisfy(const std::vector<Constraint> &guard,
                                                           const std::vector<double> &valuation) {
-    std::vector<Bounds> lowerBoundDurations;
-    lowerBoundDurations.reserve(guard.size());
-    std::transform(guard.begin(), guard.end(), std::back_inserter(lowerBoundDurations), [&](const auto &constraint) {
-      return constraint.lowerBoundDurationToSatisfy(valuation);
-    });
+    Bounds result{0.0, true};
+    for (const auto &constraint: guard) {
+      result = std::min(result, constraint.lowerBoundDurationToSatisfy(valuation));
+    }
+    // The upper bounds must hold also after the duration
+    for (const auto &constraint: guard) {
+      const double valueAfter = valuation.at(constraint.x) - result.first;
+      if (constraint.isUpperBound() &&
+          (valueAfter > constraint.c ||
+           (valueAfter == constraint.c && (constraint.odr == Constraint::Order::lt || !result.second)))) {
+        return Bounds{-std::numeric_limits<double>::infinity(), false};
+      }
+    }
 
-    return *std::min_element(lowerBoundDurations.begin(), lowerBoundDurations.end());
+    return result;
   }
 
   static inline std::ostream &operator<<(std::ostream &os, const std::vector<Constraint> &guards) {
diff --git a/include/timed_automaton_runner.hh b/include/timed_automaton_runner.hh
index e42d1ae..20af202 100644
--- a/include/timed_automaton_runner.hh
+++ b/include/timed_automaton_runner.hh
@@ -125,7 +125,8 @@ namespace learnta {
           minDuration = lowerBoundDurationToSatisfy(unobservableIt->second.front().guard, this->clockValuation);
           candidateTransition = unobservableIt->second.begin();
         } else {
-          candidateTransition = std::min_element(unobservableIt->second.begin(), unobservableIt->second.end(),
+          // Note: lowerBoundDurationToSatisfy returns the negation of the duration
+          candidateTransition = std::max_element(unobservableIt->second.begin(), unobservableIt->second.end(),
                                                  [&](const auto &a, const auto &b) {
                                                    return lowerBoundDurationToSatisfy(a.guard, this->clockValuation) <
                                                           lowerBoundDurationToSatisfy(b.guard, this->clockValuation);
-- 
2.43.0


From 8b82d5805015e0ae2524976069472892a9a050b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:44 +0000
Subject: [PATCH 6/8] fix: resolve inconsistencies that only several suffixes
 witness together

---
 include/observation_table.hh | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/observation_table.hh b/include/observation_table.hh
index 3c465ba..3e50c0e 100644
--- a/include/observation_table.hh
+++ b/include/observation_table.hh
@@ -425,8 +425,17 @@ namespace learnta {
       auto it = std::find_if_not(suffixes.begin(), suffixes.end(), [&](const auto &suffix) {
         return equivalent(i, j, suffix.predecessor(action));
       });
-      // we assume that we have such a suffix
       if (it == suffixes.end()) {
+        // Any single suffix has a renaming relation witnessing the equivalence, but they may not have a common one.
+        const auto originalSuffixes = suffixes;
+        for (const auto &suffix: originalSuffixes) {
+          suffixes.emplace_back(suffix.predecessor(action));
+          this->refreshTable();
+          if (!this->equivalentWithMemo(i, j)) {
+            return;
+          }
+        }
+        // we assume that the suffixes distinguish i and j
         abort();
       }
       const auto newSuffix = it->predecessor(action);
-- 
2.43.0


From fd006a69f12da1134a4bee86dd75f7b2d5b5be88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:52 +0000
Subject: [PATCH 7/8] fix: analyze counterexamples with durations whose sums
 are exact

---
 include/observation_table.hh | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/observation_table.hh b/include/observation_table.hh
index 3e50c0e..13fbc87 100644
--- a/include/observation_table.hh
+++ b/include/observation_table.hh
@@ -5,6 +5,7 @@
 
 #pragma once
 
+#include <cmath>
 #include <utility>
 #include <vector>
 #include <stack>
@@ -476,6 +477,17 @@ namespace learnta {
       return true;
     }
 
+    /*!
+     * @brief Round the durations to multiples of a power of two so that the sums of them are exact
+     */
+    [[nodiscard]] static TimedWord roundDurations(const TimedWord &word) {
+      auto durations = word.getDurations();
+      for (auto &duration: durations) {
+        duration = std::ldexp(std::round(std::ldexp(duration, 20)), -20);
+      }
+      return TimedWord{word.getWord(), durations};
+    }
+
     /*!
      * @brief Handle inactive clock variables in the DTA construction
      *
@@ -722,8 +734,15 @@ namespace learnta {
      * @brief Refine the suffixes by the given counterexample
      *
      */
-    void handleCEX(const TimedWord &cex) {
-      auto newSuffixOpt = analyzeCEX(cex, *this->memOracle, this->toRecognizable(), this->suffixes);
+    void handleCEX(const TimedWord &originalCEX) {
+      const auto hypothesis = this->toRecognizable();
+      // The analysis compares the fractional parts of the sums of the durations. Since rounding errors can reverse their
+      // order, we use durations whose sums are exact if they also witness the difference.
+      auto cex = roundDurations(originalCEX);
+      if (!(cex == originalCEX) && this->memOracle->answerQuery(cex) == hypothesis.contains(cex)) {
+        cex = originalCEX;
+      }
+      auto newSuffixOpt = analyzeCEX(cex, *this->memOracle, hypothesis, this->suffixes);
       if (newSuffixOpt) {
         LOG_REFINEMENT_INFO << "New suffix " << *newSuffixOpt << " is added";
         auto newSuffix = BackwardRegionalElementaryLanguage::fromTimedWord(*newSuffixOpt);
-- 
2.43.0


From 8664ed45ab3f64e451aa92050a9180b75eb84fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:19 +0000
Subject: [PATCH 8/8] fix: complete the locations with unobservable transitions
 and without transitions for an action

---
 include/timed_automaton.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/timed_automaton.hh b/include/timed_automaton.hh
index ea0011a..b0c5cca 100644
--- a/include/timed_automaton.hh
+++ b/include/timed_automaton.hh
@@ -299,10 +299,10 @@ namespace learnta {
             // If the transition is empty, we make a transition to the sink state
             state->next[action].emplace_back();
             state->next.at(action).back().target = this->states.back().get();
-          } else if (state->next.find(action) != state->next.end() && !state->next.at(action).empty()) {
+          } else {
             // Take the union of the guards and complement it to obtain the condition to get stuck
             std::vector<std::vector<Constraint>> disjunctiveGuard = disjunctiveGuardOfUnobservable;
-            disjunctiveGuard.reserve(state->next.at(action).size());
+            disjunctiveGuard.reserve(disjunctiveGuard.size() + state->next[action].size());
             for (const auto &transition: state->next.at(action)) {
               if (transition.guard.empty()) {
                 disjunctiveGuard.clear();
-- 
2.43.0

