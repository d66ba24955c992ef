From f4200ef301995dc148c074dc0c437058f50f1eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 01/38] fix: make CombinationGenerator reverse iterator
 operator-(n) compile

---
 include/symbolic/utils/combination_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 94d0f99..0b7dedf 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -437,7 +437,7 @@ class CombinationGenerator<ContainerT>::ReverseIterator {
   ReverseIterator& operator-=(difference_type n) { return operator+=(-n); }
 
   ReverseIterator operator-(difference_type n) const {
-    Iterator temp = *this;
+    ReverseIterator temp = *this;
     return temp -= n;
   }
 
-- 
2.43.0


From ea6a2ae41c3570364a2920a15eee01c086c798c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 02/38] fix: recompute the whole combination when an iterator
 re-enters the valid range

---
 include/symbolic/utils/combination_generator.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 0b7dedf..9f01971 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -333,6 +333,14 @@ class CombinationGenerator<ContainerT>::Iterator {
       return;
     }
 
+    // If the previous index was outside the bounds, the combination does not
+    // correspond to it, so set all the elements
+    if (idx_ >= gen_->size() || idx_ < 0) {
+      idx_ = idx_new;
+      UpdateCombination();
+      return;
+    }
+
     // Preallocate combination if it hasn't been already
     const size_t num_options = gen_->options_.size();
     if (combination_.empty()) combination_.resize(num_options);
-- 
2.43.0


From 2fe2e9ec914d3b7c51a643e36cb27fd8609be94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 03/38] fix: remember the Pddl in predicates, derived
 predicates and parameter generators

---
 src/derived_predicate.cc         | 1 +
 src/predicate.cc                 | 4 +++-
 src/utils/parameter_generator.cc | 6 +++---
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/derived_predicate.cc b/src/derived_predicate.cc
index 116ab62..73939f9 100644
--- a/src/derived_predicate.cc
+++ b/src/derived_predicate.cc
@@ -18,6 +18,7 @@ namespace symbolic {
 DerivedPredicate::DerivedPredicate(const Pddl& pddl,
                                    const VAL::derivation_rule* symbol)
     : symbol_(symbol) {
+  pddl_ = &pddl;
   name_ = symbol_->get_head()->head->getName();
   parameters_ = Object::CreateList(pddl, symbol_->get_head()->args);
   param_gen_ = ParameterGenerator(pddl, parameters_);
diff --git a/src/predicate.cc b/src/predicate.cc
index fbf589e..6911c92 100644
--- a/src/predicate.cc
+++ b/src/predicate.cc
@@ -21,7 +21,9 @@ Predicate::Predicate(const Pddl& pddl, const VAL::pred_decl* symbol)
     : symbol_(symbol),
       name_(symbol_->getPred()->getName()),
       parameters_(Object::CreateList(pddl, symbol_->getArgs())),
-      param_gen_(ParameterGenerator(pddl, parameters_)) {}
+      param_gen_(ParameterGenerator(pddl, parameters_)) {
+  pddl_ = &pddl;
+}
 
 std::string Predicate::to_string() const {
   std::stringstream ss;
diff --git a/src/utils/parameter_generator.cc b/src/utils/parameter_generator.cc
index 2972bb1..653cccf 100644
--- a/src/utils/parameter_generator.cc
+++ b/src/utils/parameter_generator.cc
@@ -57,18 +57,18 @@ namespace symbolic {
 
 ParameterGenerator::ParameterGenerator(const Pddl& pddl,
                                        const std::vector<Object>& params)
-    : param_types_(ParamTypes(pddl.object_map(), params)) {
+    : pddl_(&pddl), param_types_(ParamTypes(pddl.object_map(), params)) {
   Base::operator=(Base(Options(param_types_)));
 }
 
 // NOLINTNEXTLINE(bugprone-copy-constructor-init)
 ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)
-    : param_types_(other.param_types_) {
+    : pddl_(other.pddl_), param_types_(other.param_types_) {
   Base::operator=(Base(Options(param_types_)));
 }
 
 ParameterGenerator::ParameterGenerator(ParameterGenerator&& other) noexcept
-    : param_types_(std::move(other.param_types_)) {
+    : pddl_(other.pddl_), param_types_(std::move(other.param_types_)) {
   Base::operator=(Base(Options(param_types_)));
 }
 
-- 
2.43.0


From d622a68cca5e1422dc2fd7e0cfca5d480d36427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 04/38] fix: render quantified variables and variable marks in
 formula strings

---
 src/formula.cc | 66 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/src/formula.cc b/src/formula.cc
index 6299073..5a1c8a0 100644
--- a/src/formula.cc
+++ b/src/formula.cc
@@ -26,7 +26,6 @@ using ::symbolic::Object;
 using ::symbolic::ParameterGenerator;
 using ::symbolic::PartialState;
 using ::symbolic::Pddl;
-using ::symbolic::Proposition;
 using ::symbolic::PropositionRef;
 
 template <typename T>
@@ -43,6 +42,41 @@ template <typename T>
 NamedFormulaFunction<T> CreateFormula(const Pddl& pddl, const VAL::goal* symbol,
                                       const std::vector<Object>& parameters);
 
+bool IsVariable(const Object& object) {
+  return dynamic_cast<const VAL::var_symbol*>(object.symbol()) != nullptr;
+}
+
+/**
+ * Renders an atomic formula in PDDL, with a ? in front of variables.
+ */
+std::string AtomToPddl(const std::string& name_predicate,
+                       const std::vector<Object>& prop_params) {
+  std::stringstream ss;
+  ss << "(" << name_predicate;
+  for (const Object& param : prop_params) {
+    ss << (IsVariable(param) ? " ?" : " ") << param;
+  }
+  ss << ")";
+  return ss.str();
+}
+
+/**
+ * Renders a quantified formula in PDDL.
+ */
+std::string QuantifierToPddl(const std::string& quantifier,
+                             const std::vector<Object>& variables,
+                             const std::string& str_goal) {
+  std::stringstream ss;
+  ss << "(" << quantifier << " (";
+  std::string delim;
+  for (const Object& var : variables) {
+    ss << delim << "?" << var << " - " << var.type().name();
+    if (delim.empty()) delim = " ";
+  }
+  ss << ")" << std::endl << str_goal << std::endl << ")";
+  return ss.str();
+}
+
 template <typename T>
 NamedFormulaFunction<T> CreateProposition(
     const Pddl& pddl, const VAL::simple_goal* symbol,
@@ -63,7 +97,7 @@ NamedFormulaFunction<T> CreateProposition(
       return prop_args[0] == prop_args[1];
     };
 
-    return {std::move(F), Proposition(name_predicate, prop_params).to_pddl()};
+    return {std::move(F), AtomToPddl(name_predicate, prop_params)};
   }
   if (pddl.object_map().find(name_predicate) != pddl.object_map().end()) {
     // Predicate is a type. If it isn't in the object map, then no objects of
@@ -78,7 +112,7 @@ NamedFormulaFunction<T> CreateProposition(
       return prop_args[0].type().IsSubtype(name_predicate);
     };
 
-    return {std::move(F), Proposition(name_predicate, prop_params).to_pddl()};
+    return {std::move(F), AtomToPddl(name_predicate, prop_params)};
   }
 
   const size_t predicate_hash = std::hash<std::string>{}(name_predicate);
@@ -91,7 +125,7 @@ NamedFormulaFunction<T> CreateProposition(
     return state.contains(P);
   };
 
-  return {std::move(F), Proposition(name_predicate, prop_params).to_pddl()};
+  return {std::move(F), AtomToPddl(name_predicate, prop_params)};
 }
 
 template <typename T>
@@ -202,7 +236,7 @@ NamedFormulaFunction<PartialState> CreateNegation(
       };
 
       return {std::move(F),
-              "(not " + Proposition(name_predicate, prop_params).to_pddl() + ")"};
+              "(not " + AtomToPddl(name_predicate, prop_params) + ")"};
     }
     // Otherwise proposition is an = or type, so evaluate as normal.
   }
@@ -232,6 +266,7 @@ NamedFormulaFunction<T> CreateForall(const Pddl& pddl,
 
   const VAL::goal* goal = symbol->getGoal();
   NamedFormulaFunction<T> P_str = CreateFormula<T>(pddl, goal, forall_params);
+  std::string str_formula = QuantifierToPddl("forall", types, P_str.second);
 
   FormulaFunction<T> F = [gen = ParameterGenerator(pddl, types),
                           types = std::move(types), P = std::move(P_str.first)](
@@ -249,15 +284,7 @@ NamedFormulaFunction<T> CreateForall(const Pddl& pddl,
     return true;
   };
 
-  std::stringstream ss("(forall (");
-  std::string delim;
-  for (const Object& param : parameters) {
-    ss << delim << "?" << param << " - " << param.type().name();
-    if (delim.empty()) delim = " ";
-  }
-  ss << ")" << std::endl << P_str.second << std::endl << ")";
-
-  return {std::move(F), ss.str()};
+  return {std::move(F), std::move(str_formula)};
 }
 
 template <typename T>
@@ -271,6 +298,7 @@ NamedFormulaFunction<T> CreateExists(const Pddl& pddl,
 
   const VAL::goal* goal = symbol->getGoal();
   NamedFormulaFunction<T> P_str = CreateFormula<T>(pddl, goal, exists_params);
+  std::string str_formula = QuantifierToPddl("exists", types, P_str.second);
 
   FormulaFunction<T> F = [gen = ParameterGenerator(pddl, types),
                           types = std::move(types), P = std::move(P_str.first)](
@@ -288,15 +316,7 @@ NamedFormulaFunction<T> CreateExists(const Pddl& pddl,
     return false;
   };
 
-  std::stringstream ss("(exists (");
-  std::string delim;
-  for (const Object& param : parameters) {
-    ss << delim << "?" << param << " - " << param.type().name();
-    if (delim.empty()) delim = " ";
-  }
-  ss << ")" << std::endl << P_str.second << std::endl << ")";
-
-  return {std::move(F), ss.str()};
+  return {std::move(F), std::move(str_formula)};
 }
 
 template <typename T>
-- 
2.43.0


From dcaa5a7e477d4f71b858e71911042f3faaab9e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 05/38] fix: do not bind constants to parameters with the same
 name

---
 src/formula.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/formula.cc b/src/formula.cc
index 5a1c8a0..4c932cc 100644
--- a/src/formula.cc
+++ b/src/formula.cc
@@ -404,6 +404,8 @@ ApplicationFunction Formula::CreateApplicationFunction(
   // List of (prop parameter index, action parameter index) pairs.
   std::vector<std::pair<size_t, size_t>> idx_params;
   for (size_t i = 0; i < prop_params.size(); i++) {
+    // A constant is not a reference to the parameter with the same name.
+    if (!IsVariable(prop_params[i])) continue;
     for (size_t j = 0; j < action_params.size(); j++) {
       if (prop_params[i] == action_params[j]) {
         idx_params.emplace_back(i, j);
-- 
2.43.0


From b6bf47b8fe0acc8763f8fec9c5f83c9608ee6ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 06/38] fix: let a partial state flip a proposition given by
 reference to its own element

---
 src/state.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/state.cc b/src/state.cc
index 8330f34..c3374c5 100644
--- a/src/state.cc
+++ b/src/state.cc
@@ -92,8 +92,9 @@ bool PartialState::does_not_contain(const PropositionBase& prop) const {
 }
 
 int PartialState::insert(const PropositionBase& prop) {
-  const int was_negated = static_cast<int>(neg_.erase(prop));
+  // Erase last, since prop may refer to the erased element.
   const int was_added = static_cast<int>(pos_.insert(prop));
+  const int was_negated = static_cast<int>(neg_.erase(prop));
   return was_negated + was_added;
 }
 
@@ -104,8 +105,9 @@ int PartialState::insert(Proposition&& prop) {
 }
 
 int PartialState::erase(const PropositionBase& prop) {
-  const int was_negated = static_cast<int>(pos_.erase(prop));
+  // Erase last, since prop may refer to the erased element.
   const int was_erased = static_cast<int>(neg_.insert(prop));
+  const int was_negated = static_cast<int>(pos_.erase(prop));
   return was_negated + was_erased;
 }
 
-- 
2.43.0


From e2fcd96a9ec5b46404908ca93ae603a97324be45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 07/38] fix: enumerate the empty argument list for
 parameterless actions and predicates

---
 .../symbolic/utils/combination_generator.h    | 11 ++++++++
 include/symbolic/utils/parameter_generator.h  |  6 ++++
 src/utils/parameter_generator.cc              | 28 +++++++++++++------
 3 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index 9f01971..f7d3678 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -161,6 +161,17 @@ class CombinationGenerator {
     return idx;
   }
 
+ protected:
+  /**
+   * Create a generator with a single, empty combination: the only way to choose
+   * from no options.
+   */
+  static CombinationGenerator CreateUnit() {
+    CombinationGenerator gen;
+    gen.size_ = 1;
+    return gen;
+  }
+
  private:
   /**
    * Compute the size of each digit group for converting between flat indices
diff --git a/include/symbolic/utils/parameter_generator.h b/include/symbolic/utils/parameter_generator.h
index ce6c663..6ae8b6c 100644
--- a/include/symbolic/utils/parameter_generator.h
+++ b/include/symbolic/utils/parameter_generator.h
@@ -38,8 +38,14 @@ class ParameterGenerator
   const Pddl& pddl() const { return *pddl_; }
 
  private:
+  void UpdateOptions();
+
   const Pddl* pddl_ = nullptr;
 
+  // Whether there are no parameters, in which case the only combination is the
+  // empty one.
+  bool is_nullary_ = false;
+
   // Store parameter types for portability
   std::vector<std::vector<Object>> param_types_;
 };
diff --git a/src/utils/parameter_generator.cc b/src/utils/parameter_generator.cc
index 653cccf..a05792a 100644
--- a/src/utils/parameter_generator.cc
+++ b/src/utils/parameter_generator.cc
@@ -57,19 +57,25 @@ namespace symbolic {
 
 ParameterGenerator::ParameterGenerator(const Pddl& pddl,
                                        const std::vector<Object>& params)
-    : pddl_(&pddl), param_types_(ParamTypes(pddl.object_map(), params)) {
-  Base::operator=(Base(Options(param_types_)));
+    : pddl_(&pddl),
+      is_nullary_(params.empty()),
+      param_types_(ParamTypes(pddl.object_map(), params)) {
+  UpdateOptions();
 }
 
 // NOLINTNEXTLINE(bugprone-copy-constructor-init)
 ParameterGenerator::ParameterGenerator(const ParameterGenerator& other)
-    : pddl_(other.pddl_), param_types_(other.param_types_) {
-  Base::operator=(Base(Options(param_types_)));
+    : pddl_(other.pddl_),
+      is_nullary_(other.is_nullary_),
+      param_types_(other.param_types_) {
+  UpdateOptions();
 }
 
 ParameterGenerator::ParameterGenerator(ParameterGenerator&& other) noexcept
-    : pddl_(other.pddl_), param_types_(std::move(other.param_types_)) {
-  Base::operator=(Base(Options(param_types_)));
+    : pddl_(other.pddl_),
+      is_nullary_(other.is_nullary_),
+      param_types_(std::move(other.param_types_)) {
+  UpdateOptions();
 }
 
 ParameterGenerator& ParameterGenerator::operator=(
@@ -77,17 +83,23 @@ ParameterGenerator& ParameterGenerator::operator=(
   if (this == &rhs) return *this;
 
   pddl_ = rhs.pddl_;
+  is_nullary_ = rhs.is_nullary_;
   param_types_ = rhs.param_types_;
-  Base::operator=(Base(Options(param_types_)));
+  UpdateOptions();
   return *this;
 }
 
 ParameterGenerator& ParameterGenerator::operator=(
     ParameterGenerator&& rhs) noexcept {
   pddl_ = rhs.pddl_;
+  is_nullary_ = rhs.is_nullary_;
   param_types_ = std::move(rhs.param_types_);
-  Base::operator=(Base(Options(param_types_)));
+  UpdateOptions();
   return *this;
 }
 
+void ParameterGenerator::UpdateOptions() {
+  Base::operator=(is_nullary_ ? CreateUnit() : Base(Options(param_types_)));
+}
+
 }  // namespace symbolic
-- 
2.43.0


From 1106229d96aca3899e0b0df8bec2083405633a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 08/38] fix: iterate over node children without actions or with
 actions without arguments

---
 src/planning/planner.cc | 49 ++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 30 deletions(-)

diff --git a/src/planning/planner.cc b/src/planning/planner.cc
index 9cc9e63..604f09b 100644
--- a/src/planning/planner.cc
+++ b/src/planning/planner.cc
@@ -17,6 +17,13 @@
 #include <unordered_set>  // std::unordered_set
 #endif                    // SYMBOLIC_PLANNER_USE_ORDERED_CACHE
 
+namespace {
+
+// Parameters to iterate over when there are no actions.
+const ::symbolic::ParameterGenerator kNoParameters;
+
+}  // namespace
+
 namespace symbolic {
 
 struct Planner::Node::NodeImpl {
@@ -143,7 +150,9 @@ Planner::Node::iterator::iterator(const Node& parent)
     : pddl_(parent->pddl_),
       parent_(parent),
       it_action_(pddl_.actions().begin()),
-      it_param_(it_action_->parameter_generator().begin()) {}
+      it_param_(it_action_ != pddl_.actions().end()
+                    ? it_action_->parameter_generator().begin()
+                    : kNoParameters.begin()) {}
 
 Planner::Node::iterator& Planner::Node::iterator::operator++() {
   while (it_action_ != pddl_.actions().end()) {
@@ -183,42 +192,22 @@ Planner::Node::iterator& Planner::Node::iterator::operator++() {
 }
 
 Planner::Node::iterator& Planner::Node::iterator::operator--() {
-  if (it_action_ == pddl_.actions().end()) {
-    --it_action_;
-    const Action& action = *it_action_;
-    it_param_ = it_action_->parameter_generator().end();
-    --it_param_;
+  while (true) {
+    if (it_action_ == pddl_.actions().end() ||
+        it_param_ == it_action_->parameter_generator().begin()) {
+      if (it_action_ == pddl_.actions().begin()) break;
 
-    // Check action preconditions
-    const std::vector<Object>& arguments = *it_param_;
-    if (action.IsValid(parent_.state(), arguments)) {
-      // Set action and apply postconditions to child
-      State state = action.Apply(parent_.state(), arguments);
-      DerivedPredicate::Apply(pddl_.derived_predicates(), &state);
-      child_ =
-          Node(parent_, child_, std::move(state), action.to_string(arguments));
-
-      // Return if state hasn't been previously visited
-      const std::shared_ptr<const Planner::Node::NodeImpl::Cache> ancestors =
-          child_->ancestors_;
-      if (ancestors->count(child_) == 0) return *this;
-    }
-  }
-
-  while (it_action_ != pddl_.actions().begin() ||
-         it_param_ != it_action_->parameter_generator().begin()) {
-    if (it_param_ == it_action_->parameter_generator().begin()) {
-      // Move onto next action
+      // Move onto previous action
       --it_action_;
 
       // Generate new parameters
       it_param_ = it_action_->parameter_generator().end();
-      --it_param_;
-    } else {
-      // Move onto next parameters
-      --it_param_;
+      if (it_param_ == it_action_->parameter_generator().begin()) continue;
     }
 
+    // Move onto previous parameters
+    --it_param_;
+
     // Check action preconditions
     const Action& action = *it_action_;
     const std::vector<Object>& arguments = *it_param_;
-- 
2.43.0


From c0cc5b11dde9927afc740ecda7ec772c48d0bc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 09/38] fix: report the last plan of depth-first and A*
 searches

---
 include/symbolic/planning/a_star.h             | 7 +++++--
 include/symbolic/planning/depth_first_search.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/symbolic/planning/a_star.h b/include/symbolic/planning/a_star.h
index 2c62ab7..97a93cb 100644
--- a/include/symbolic/planning/a_star.h
+++ b/include/symbolic/planning/a_star.h
@@ -67,12 +67,14 @@ class AStar<NodeT, Compare>::iterator {
 
   iterator& operator++();
   bool operator==(const iterator& other) const {
-    return queue_.empty() && other.queue_.empty();
+    return IsFinished() && other.IsFinished();
   }
   bool operator!=(const iterator& other) const { return !(*this == other); }
   reference operator*() const { return ancestors_; }
 
  private:
+  bool IsFinished() const { return queue_.empty() && ancestors_.empty(); }
+
   const size_t kMaxDepth = 0;
 
   std::priority_queue<SearchNode<NodeT>, std::vector<SearchNode<NodeT>>,
@@ -94,7 +96,7 @@ AStar<NodeT, Compare>::iterator::operator++() {
 
     // Return if node evaluates to true
     const NodeT& node = ancestors_.back();
-    if (node) break;
+    if (node) return *this;
 
     // Skip children if max depth has been reached
     if (ancestors_.size() > kMaxDepth) continue;
@@ -104,6 +106,7 @@ AStar<NodeT, Compare>::iterator::operator++() {
       queue_.emplace(child, ancestors_);
     }
   }
+  ancestors_.clear();
   return *this;
 }
 
diff --git a/include/symbolic/planning/depth_first_search.h b/include/symbolic/planning/depth_first_search.h
index 711b1f2..7297b88 100644
--- a/include/symbolic/planning/depth_first_search.h
+++ b/include/symbolic/planning/depth_first_search.h
@@ -54,12 +54,14 @@ class DepthFirstSearch<NodeT>::iterator {
       : stack_({{root, std::vector<NodeT>()}}), kMaxDepth(max_depth) {}
 
   iterator& operator++();
-  bool operator==(const iterator& other) const { return stack_.empty() && other.stack_.empty(); }
+  bool operator==(const iterator& other) const { return IsFinished() && other.IsFinished(); }
   bool operator!=(const iterator& other) const { return !(*this == other); }
   reference operator*() const { return ancestors_; }
 
  private:
 
+  bool IsFinished() const { return stack_.empty() && ancestors_.empty(); }
+
   const size_t kMaxDepth = 0;
 
   std::stack<std::pair<NodeT, std::vector<NodeT>>> stack_;
@@ -79,7 +81,7 @@ typename DepthFirstSearch<NodeT>::iterator& DepthFirstSearch<NodeT>::iterator::o
 
     // Return if node evaluates to true
     const NodeT& node = ancestors_.back();
-    if (node) break;
+    if (node) return *this;
 
     // Skip children if max depth has been reached
     if (ancestors_.size() > kMaxDepth) continue;
@@ -90,6 +92,7 @@ typename DepthFirstSearch<NodeT>::iterator& DepthFirstSearch<NodeT>::iterator::o
       stack_.emplace(child, ancestors_);
     }
   }
+  ancestors_.clear();
   return *this;
 }
 
-- 
2.43.0


From 13d21778c86420dceff3fab9437d7e7c23777c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:41 +0000
Subject: [PATCH 10/38] fix: list the constants of a domain loaded without a
 problem

---
 src/pddl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pddl.cc b/src/pddl.cc
index 9c220bf..806e149 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -282,6 +282,7 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
 Pddl::Pddl(const std::string& domain_pddl)
     : analysis_(ParsePddl(domain_pddl, "")),
       domain_pddl_(domain_pddl),
+      constants_(GetObjects(*analysis_->the_domain)),
       objects_(GetObjects(*analysis_->the_domain)),
       object_map_(CreateObjectTypeMap(objects_)),
       axioms_(GetAxioms(*this, *analysis_->the_domain)),
-- 
2.43.0


From 747a5f0801048976b6026160fbe1bbf2aa2e1564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 11/38] fix: load domains without predicates and problems
 without objects

---
 src/object.cc | 5 ++---
 src/pddl.cc   | 1 +
 src/state.cc  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/object.cc b/src/object.cc
index 69091a1..dafaf88 100644
--- a/src/object.cc
+++ b/src/object.cc
@@ -12,7 +12,6 @@
 #include <VAL/ptree.h>
 
 #include <algorithm>  // std::min, std::replace
-#include <cassert>    // assert
 #include <sstream>    // std::stringstream
 
 #include "symbolic/pddl.h"
@@ -43,8 +42,8 @@ const VAL::const_symbol* GetSymbol(const Pddl& pddl,
       if (obj->getName() == name_object) return obj;
     }
   }
-  if (pddl.symbol()->the_problem != nullptr) {
-    assert(pddl.symbol()->the_problem->objects != nullptr);
+  if (pddl.symbol()->the_problem != nullptr &&
+      pddl.symbol()->the_problem->objects != nullptr) {
     for (const VAL::const_symbol* obj : *pddl.symbol()->the_problem->objects) {
       if (obj == nullptr) continue;
       if (obj->getName() == name_object) return obj;
diff --git a/src/pddl.cc b/src/pddl.cc
index 806e149..2015bd6 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -167,6 +167,7 @@ std::vector<Action> GetActions(const Pddl& pddl, const VAL::domain& domain) {
 std::vector<Predicate> GetPredicates(const Pddl& pddl,
                                      const VAL::domain& domain) {
   std::vector<Predicate> predicates;
+  if (domain.predicates == nullptr) return predicates;
   for (const VAL::pred_decl* pred : *domain.predicates) {
     predicates.emplace_back(pddl, pred);
   }
diff --git a/src/state.cc b/src/state.cc
index c3374c5..8f99325 100644
--- a/src/state.cc
+++ b/src/state.cc
@@ -142,7 +142,7 @@ std::ostream& operator<<(std::ostream& os, const PartialState& state) {
 }
 
 StateIndex::StateIndex(const std::vector<Predicate>& predicates, bool use_cache)
-    : pddl_(&predicates.front().pddl()),
+    : pddl_(predicates.empty() ? nullptr : &predicates.front().pddl()),
       predicates_(predicates),
       idx_predicate_group_(PredicateCumSum(predicates_)),
       idx_predicates_(PredicateIndices(predicates_)),
-- 
2.43.0


From b49f851d9f804ebfb993e6e6f89ca581613ed551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 12/38] fix: print the problem, and symbols without a type,
 when printing a Pddl

---
 src/pddl.cc | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index 2015bd6..b60692f 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -385,7 +385,7 @@ PartialState Pddl::ConsistentState(const PartialState& state) const {
       if (axiom_change == 2) {
         std::stringstream ss;
         ss << "Pddl::ConsistentState(): Axiom violation" << std::endl
-           << axiom << std::endl
+           << *axiom << std::endl
            << std::endl
            << next_state << std::endl;
         throw std::runtime_error(ss.str());
@@ -593,7 +593,9 @@ std::vector<std::string> Stringify(const std::vector<Object>& objects) {
 
 std::ostream& operator<<(std::ostream& os, const Pddl& pddl) {
   os << *pddl.symbol()->the_domain << std::endl;
-  os << *pddl.symbol()->the_domain << std::endl;
+  if (pddl.symbol()->the_problem != nullptr) {
+    os << *pddl.symbol()->the_problem << std::endl;
+  }
   return os;
 }
 
@@ -696,13 +698,19 @@ void PrintEffects(std::ostream& os, const VAL::effect_lists* effects,
   }
 }
 
+// Symbols declared without a type have a null type.
+template <typename T>
+std::string TypeName(const T& symbol) {
+  return symbol.type == nullptr ? "object" : symbol.type->getName();
+}
+
 template <typename T>
 void PrintArgs(std::ostream& os, const VAL::typed_symbol_list<T>& args) {
   std::string separator;
   os << "(";
   for (const VAL::parameter_symbol* param : args) {
     os << separator << param->getName() << " [" << param
-       << "]: " << param->type->getName();
+       << "]: " << TypeName(*param);
     if (separator.empty()) separator = ", ";
   }
   os << ")";
@@ -722,8 +730,8 @@ std::ostream& operator<<(std::ostream& os, const domain& domain) {
   os << "Types: " << std::endl;
   if (domain.types != nullptr) {
     for (const pddl_type* type : *domain.types) {
-      os << "\t" << type->getName() << ": " << type->type->getName() << " ["
-         << type << "]" << std::endl;
+      os << "\t" << type->getName() << ": " << TypeName(*type) << " [" << type
+         << "]" << std::endl;
     }
   }
 
@@ -731,7 +739,7 @@ std::ostream& operator<<(std::ostream& os, const domain& domain) {
   if (domain.constants != nullptr) {
     for (const const_symbol* c : *domain.constants) {
       os << "\t" << c->getName() << " [" << c << "]"
-         << ": " << c->type->getName() << std::endl;
+         << ": " << TypeName(*c) << std::endl;
     }
   }
 
@@ -769,9 +777,11 @@ std::ostream& operator<<(std::ostream& os, const problem& problem) {
   os << "Requirements: " << pddl_req_flags_string(problem.req) << std::endl;
 
   os << "Objects:" << std::endl;
-  for (const const_symbol* object : *problem.objects) {
-    os << "\t" << object->getName() << " [" << object << "]"
-       << ": " << object->type->getName() << std::endl;
+  if (problem.objects != nullptr) {
+    for (const const_symbol* object : *problem.objects) {
+      os << "\t" << object->getName() << " [" << object << "]"
+         << ": " << TypeName(*object) << std::endl;
+    }
   }
 
   os << "Initial State:" << std::endl;
-- 
2.43.0


From 8448e05353ececebb3bcd4c7d10810ca5c6fdc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 13/38] fix: do not dereference a missing normal form when
 printing an axiom

---
 src/axiom.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/axiom.cc b/src/axiom.cc
index 60b511d..e291790 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -52,15 +52,17 @@ std::string StringifyFormula(const Pddl& pddl, const Formula& preconditions,
                              const std::vector<Object>& parameters) {
   std::stringstream ss;
   try {
-    ss << *DisjunctiveFormula::Create(pddl, preconditions, parameters,
-                                      parameters);
+    ss << DisjunctiveFormula::Create(pddl, preconditions, parameters,
+                                     parameters)
+              .value();
   } catch (...) {
     ss << "false";
   }
   ss << " => ";
   try {
-    ss << *DisjunctiveFormula::Create(pddl, postconditions, parameters,
-                                      parameters);
+    ss << DisjunctiveFormula::Create(pddl, postconditions, parameters,
+                                     parameters)
+              .value();
   } catch (...) {
     ss << "false";
   }
-- 
2.43.0


From dcb7a3e0e32b5cd38f2a0cb0bbff6349c374df2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:47 +0000
Subject: [PATCH 14/38] fix: recognize type tests for types without objects

---
 include/symbolic/object.h |  6 ++++++
 src/action.cc             |  4 ++--
 src/formula.cc            |  8 +++-----
 src/normal_form.cc        |  2 +-
 src/object.cc             | 13 +++++++++++++
 5 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/include/symbolic/object.h b/include/symbolic/object.h
index bd2a6d8..c6df7ca 100644
--- a/include/symbolic/object.h
+++ b/include/symbolic/object.h
@@ -92,6 +92,12 @@ class Object {
 
     explicit Type(const VAL::pddl_type* symbol) : symbol_(symbol) {}
 
+    /**
+     * Returns whether the given name is the name of a type, with or without
+     * objects.
+     */
+    static bool IsType(const Pddl& pddl, const std::string& name);
+
     const VAL::pddl_type* symbol() const { return symbol_; }
 
     bool IsSubtype(const std::string& type) const;
diff --git a/src/action.cc b/src/action.cc
index 68d42b5..ad10649 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -101,7 +101,7 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
       return false;
     };
   }
-  if (pddl.object_map().count(name_predicate) > 0) {
+  if (Object::Type::IsType(pddl, name_predicate)) {
     // Type predicate
     return [&name_predicate, Apply = std::move(Apply)](
                // NOLINTNEXTLINE(misc-unused-parameters)
@@ -190,7 +190,7 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
       return false;
     };
   }
-  if (pddl.object_map().count(name_predicate) > 0) {
+  if (Object::Type::IsType(pddl, name_predicate)) {
     // Type predicate
     return [&name_predicate, Apply = std::move(Apply)](
                // NOLINTNEXTLINE(misc-unused-parameters)
diff --git a/src/formula.cc b/src/formula.cc
index 4c932cc..cb06338 100644
--- a/src/formula.cc
+++ b/src/formula.cc
@@ -99,10 +99,8 @@ NamedFormulaFunction<T> CreateProposition(
 
     return {std::move(F), AtomToPddl(name_predicate, prop_params)};
   }
-  if (pddl.object_map().find(name_predicate) != pddl.object_map().end()) {
-    // Predicate is a type. If it isn't in the object map, then no objects of
-    // that type exist, and the proposition will be treated as a normal one
-    // (and will always be false since the state will never contain it).
+  if (Object::Type::IsType(pddl, name_predicate)) {
+    // Predicate is a type.
     FormulaFunction<T> F = [name_predicate, Apply = std::move(Apply)](
                                // NOLINTNEXTLINE(misc-unused-parameters)
                                const T& state,
@@ -216,7 +214,7 @@ NamedFormulaFunction<PartialState> CreateNegation(
     const VAL::proposition* prop = simple_goal->getProp();
     const std::string& name_predicate = prop->head->getNameRef();
     if (name_predicate != "=" &&
-        pddl.object_map().find(name_predicate) == pddl.object_map().end()) {
+        !Object::Type::IsType(pddl, name_predicate)) {
       // Proposition is a simple goal, so evaluate its negation.
 
       const std::vector<Object> prop_params =
diff --git a/src/normal_form.cc b/src/normal_form.cc
index f178b0c..13e719d 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -53,7 +53,7 @@ std::optional<bool> EvaluateEquals(const PartialState& formula) {
 }
 
 std::optional<bool> EvaluateType(const Pddl& pddl, const Proposition& prop) {
-  if (pddl.object_map().find(prop.name()) == pddl.object_map().end()) return {};
+  if (!Object::Type::IsType(pddl, prop.name())) return {};
   assert(prop.arguments().size() == 1);
   return prop.arguments()[0].type().IsSubtype(prop.name());
 }
diff --git a/src/object.cc b/src/object.cc
index dafaf88..90b1721 100644
--- a/src/object.cc
+++ b/src/object.cc
@@ -76,6 +76,19 @@ static const std::string kDefaultType = "object";
 
 namespace symbolic {
 
+bool Object::Type::IsType(const Pddl& pddl, const std::string& name) {
+  if (name == kDefaultType) return true;
+  if (pddl.symbol()->the_domain->types == nullptr) return false;
+  // Iterate over domain types
+  for (const VAL::pddl_type* type : *pddl.symbol()->the_domain->types) {
+    // Iterate over ancestors of current type
+    for (; type != nullptr; type = type->type) {
+      if (type->getName() == name) return true;
+    }
+  }
+  return false;
+}
+
 bool Object::Type::IsSubtype(const std::string& type) const {
   if (type == kDefaultType) return true;
   for (const VAL::pddl_type* curr = symbol_; curr != nullptr;
-- 
2.43.0


From 5625bdc853442a7af1d95af053bef34a9de669f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 15/38] fix: match triggered axioms against the whole context
 of their typed arguments

---
 include/symbolic/axiom.h |  17 +++----
 src/action.cc            | 102 +++++++++++++++------------------------
 src/axiom.cc             |  93 +++++++++--------------------------
 3 files changed, 70 insertions(+), 142 deletions(-)

diff --git a/include/symbolic/axiom.h b/include/symbolic/axiom.h
index 9ff901d..285c8dd 100644
--- a/include/symbolic/axiom.h
+++ b/include/symbolic/axiom.h
@@ -10,6 +10,9 @@
 #ifndef SYMBOLIC_AXIOM_H_
 #define SYMBOLIC_AXIOM_H_
 
+#include <unordered_map>  // std::unordered_map
+#include <vector>         // std::vector
+
 #include "symbolic/action.h"
 #include "symbolic/normal_form.h"
 
@@ -71,22 +74,18 @@ class Axiom : public Action {
   friend std::ostream& operator<<(std::ostream& os, const Axiom& axiom);
 
   /**
-   * Creates a function that takes action_args and returns axiom_args based on
-   * positional indices of the axiom context proposition. If the action_args are
-   * not consistent with the axiom context, returns an empty vector.
+   * Axiom arguments for which the context is about the given arguments.
    */
-  static std::optional<
-      std::function<const std::vector<Object>*(const std::vector<Object>&)>>
-  CreateApplicationFunction(const std::vector<Object>& action_params,
-                            const std::vector<Object>& action_prop_params,
-                            const std::vector<Object>& axiom_params,
-                            const std::vector<Object>& axiom_prop_params);
+  const std::vector<std::vector<Object>>& MatchContext(
+      const std::vector<Object>& context_arguments) const;
 
  private:
   bool IsConsistent(PartialState* state, bool* is_changed) const;
 
   std::vector<std::vector<Object>> arguments_;
   SignedProposition context_;
+  std::unordered_map<Proposition, std::vector<std::vector<Object>>>
+      context_arguments_;
   std::string formula_;
 };
 
diff --git a/src/action.cc b/src/action.cc
index ad10649..b1ab51b 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -37,8 +37,38 @@ using EffectsFunction = std::function<int(const std::vector<Object>&, T*)>;
 using ApplicationFunction =
     std::function<const std::vector<Object>&(const std::vector<Object>&)>;
 
-using AxiomApplicationFunction =
-    std::function<const std::vector<Object>*(const std::vector<Object>&)>;
+using Axioms = std::vector<std::weak_ptr<Axiom>>;
+
+/**
+ * Finds the axioms whose context has the given sign and predicate.
+ */
+Axioms FindAxioms(const Pddl& pddl, const std::string& name_predicate,
+                  bool is_pos) {
+  const auto it = pddl.axiom_map().find(SignedProposition::Sign(is_pos) +
+                                        name_predicate);
+  return it == pddl.axiom_map().end() ? Axioms() : it->second;
+}
+
+/**
+ * Applies the axioms whose context has become true for the given arguments.
+ *
+ * The arguments are taken by value, since applying an axiom may overwrite the
+ * effect's arguments.
+ */
+template <typename T>
+int ApplyAxioms(const Axioms& axioms, const std::vector<Object> prop_args,
+                T* state) {
+  int is_state_changed = 0;
+  for (const std::weak_ptr<Axiom>& ptr_axiom : axioms) {
+    const std::shared_ptr<Axiom> axiom = ptr_axiom.lock();
+    for (const std::vector<Object>& args : axiom->MatchContext(prop_args)) {
+      is_state_changed = std::max(
+          is_state_changed,
+          static_cast<int>(axiom->Action::Apply(args, state)));
+    }
+  }
+  return is_state_changed;
+}
 
 template <typename T>
 EffectsFunction<T> CreateEffectsFunction(const Pddl& pddl,
@@ -119,48 +149,20 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
   }
 
   // Prepare axioms.
-  const std::string axiom_context =
-      SignedProposition::Sign(true) + name_predicate;
-  std::vector<std::pair<std::weak_ptr<Axiom>, AxiomApplicationFunction>> axioms;
-  if (pddl.axiom_map().count(axiom_context) > 0) {
-    for (const std::weak_ptr<Axiom>& ptr_axiom :
-         pddl.axiom_map().at(axiom_context)) {
-      const std::shared_ptr<Axiom> axiom = ptr_axiom.lock();
-      std::optional<AxiomApplicationFunction> AxiomApply =
-          Axiom::CreateApplicationFunction(parameters, effect_params,
-                                           axiom->parameters(),
-                                           axiom->context().arguments());
-      if (!AxiomApply.has_value()) continue;
-
-      axioms.emplace_back(axiom, std::move(*AxiomApply));
-    }
-  }
+  Axioms axioms = FindAxioms(pddl, name_predicate, true);
 
   // Add normal predicate
   const size_t predicate_hash = std::hash<std::string>{}(name_predicate);
   return [ptr_name_predicate = &name_predicate, predicate_hash,
           Apply = std::move(Apply), axioms = std::move(axioms)](
              const std::vector<Object>& arguments, T* state) -> int {
-    int status = state->insert(
+    const int status = state->insert(
         PropositionRef(ptr_name_predicate, &Apply(arguments), predicate_hash));
     // Return early to avoid infinite loop of axiom application.
     if (status == 0) return status;
 
     // Apply axioms.
-    for (const auto& axiom_apply : axioms) {
-      const Axiom& axiom = *axiom_apply.first.lock();
-      const AxiomApplicationFunction& AxiomApply = axiom_apply.second;
-      const std::vector<Object>* axiom_args = AxiomApply(arguments);
-
-      // std::cout << axiom << std::endl;
-      if (axiom_args == nullptr) continue;
-
-      // std::cout << "+" << *name_predicate << ": " << *axiom_args <<
-      // std::endl; std::cout << "[" << *state << std::endl;
-      axiom.Action::Apply(*axiom_args, state);
-      // std::cout << "]" << *state << std::endl << std::endl;
-    }
-    return status;
+    return std::max(status, ApplyAxioms(axioms, Apply(arguments), state));
   };
 }
 
@@ -208,48 +210,20 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
   }
 
   // Prepare axioms.
-  const std::string axiom_context =
-      SignedProposition::Sign(false) + name_predicate;
-  std::vector<std::pair<std::weak_ptr<Axiom>, AxiomApplicationFunction>> axioms;
-  if (pddl.axiom_map().count(axiom_context) > 0) {
-    for (const std::weak_ptr<Axiom>& ptr_axiom :
-         pddl.axiom_map().at(axiom_context)) {
-      const std::shared_ptr<Axiom> axiom = ptr_axiom.lock();
-      std::optional<AxiomApplicationFunction> AxiomApply =
-          Axiom::CreateApplicationFunction(parameters, effect_params,
-                                           axiom->parameters(),
-                                           axiom->context().arguments());
-      if (!AxiomApply.has_value()) continue;
-
-      axioms.emplace_back(axiom, std::move(*AxiomApply));
-    }
-  }
+  Axioms axioms = FindAxioms(pddl, name_predicate, false);
 
   // Remove normal predicate
   const size_t predicate_hash = std::hash<std::string>{}(name_predicate);
   return [ptr_name_predicate = &name_predicate, predicate_hash,
           Apply = std::move(Apply), axioms = std::move(axioms)](
              const std::vector<Object>& arguments, T* state) -> int {
-    int status = state->erase(
+    const int status = state->erase(
         PropositionRef(ptr_name_predicate, &Apply(arguments), predicate_hash));
     // Return early to avoid infinite loop of axiom application.
     if (status == 0) return status;
 
     // Apply axioms.
-    for (const auto& axiom_apply : axioms) {
-      const Axiom& axiom = *axiom_apply.first.lock();
-      const AxiomApplicationFunction& AxiomApply = axiom_apply.second;
-      const std::vector<Object>* axiom_args = AxiomApply(arguments);
-
-      // std::cout << axiom << std::endl;
-      if (axiom_args == nullptr) continue;
-
-      // std::cout << "-" << *name_predicate << ": " << *axiom_args <<
-      // std::endl; std::cout << "[" << *state << std::endl;
-      axiom.Action::Apply(*axiom_args, state);
-      // std::cout << "]" << *state << std::endl << std::endl;
-    }
-    return status;
+    return std::max(status, ApplyAxioms(axioms, Apply(arguments), state));
   };
 }
 
diff --git a/src/axiom.cc b/src/axiom.cc
index e291790..49eafef 100644
--- a/src/axiom.cc
+++ b/src/axiom.cc
@@ -23,11 +23,9 @@ using ::symbolic::Formula;
 using ::symbolic::Object;
 using ::symbolic::ParameterGenerator;
 using ::symbolic::Pddl;
+using ::symbolic::Proposition;
 using ::symbolic::SignedProposition;
 
-using AxiomApplicationFunction =
-    std::function<const std::vector<Object>*(const std::vector<Object>&)>;
-
 /**
  * Prepares list of possible arguments given axiom parameters.
  */
@@ -44,6 +42,22 @@ std::vector<std::vector<Object>> PrepareArguments(
   return arguments;
 }
 
+/**
+ * Groups the axiom arguments by the context proposition they instantiate.
+ */
+std::unordered_map<Proposition, std::vector<std::vector<Object>>>
+GroupArguments(const std::vector<std::vector<Object>>& arguments,
+               const SignedProposition& context,
+               const std::vector<Object>& parameters) {
+  std::unordered_map<Proposition, std::vector<std::vector<Object>>> groups;
+  const auto Apply =
+      Formula::CreateApplicationFunction(parameters, context.arguments());
+  for (const std::vector<Object>& args : arguments) {
+    groups[Proposition(context.name(), Apply(args))].push_back(args);
+  }
+  return groups;
+}
+
 /**
  * Converts the axiom formula into a readable string.
  */
@@ -116,6 +130,7 @@ Axiom::Axiom(const Pddl& pddl, const VAL::operator_* symbol)
       arguments_(PrepareArguments(pddl, parameter_generator(), preconditions(),
                                   parameters())),
       context_(ExtractContextPredicate(pddl, preconditions())),
+      context_arguments_(GroupArguments(arguments_, context_, parameters())),
       formula_(StringifyFormula(pddl, preconditions(), postconditions(),
                                 parameters())) {}
 
@@ -235,72 +250,12 @@ std::ostream& operator<<(std::ostream& os, const Axiom& axiom) {
   return os;
 }
 
-std::optional<AxiomApplicationFunction> Axiom::CreateApplicationFunction(
-    const std::vector<Object>& action_params,
-    const std::vector<Object>& action_prop_params,
-    const std::vector<Object>& axiom_params,
-    const std::vector<Object>& axiom_prop_params) {
-  const size_t num_prop_params = action_prop_params.size();
-  assert(num_prop_params == axiom_prop_params.size());
-
-  // Check unmatched axiom prop param equal action param.
-  std::vector<std::pair<size_t, size_t>> idx_params;
-  auto axiom_args = std::make_shared<std::vector<Object>>(axiom_params);
-  std::vector<std::pair<size_t, Object>> future_action_args;
-  for (size_t idx_prop = 0; idx_prop < num_prop_params; idx_prop++) {
-    // Check if axiom prop param has corresponding axiom param.
-    const Object& axiom_prop_param = axiom_prop_params[idx_prop];
-    size_t i = 0;
-    for (; i < axiom_params.size(); i++) {
-      if (axiom_params[i] == axiom_prop_param) break;
-    }
-    const bool is_axiom_prop_arg = i == axiom_params.size();
-
-    // Check if action prop param has corresponding action param.
-    const Object& action_prop_param = action_prop_params[idx_prop];
-    size_t j = 0;
-    for (; j < action_params.size(); j++) {
-      if (action_params[j] == action_prop_param) break;
-    }
-    const bool is_action_prop_arg = j == action_params.size();
-
-    if (is_axiom_prop_arg && is_action_prop_arg) {
-      // Make sure axiom prop arg and action prop arg are equal.
-      if (axiom_prop_param != action_prop_param) return {};
-    } else if (is_axiom_prop_arg) {
-      // Make sure axiom prop arg and future action prop arg are equal.
-      future_action_args.emplace_back(j, axiom_prop_param);
-    } else if (is_action_prop_arg) {
-      // Instantiate axiom prop param with action prop arg.
-      (*axiom_args)[i] = action_prop_param;
-    } else {
-      // Match axiom prop param and action prop param.
-      idx_params.emplace_back(i, j);
-    }
-  }
-
-  // TODO(tmigimatsu): shared_ptr makes this not thread-safe.
-  return [ptr_axiom_args = std::move(axiom_args),
-          idx_params = std::move(idx_params),
-          future_action_args = std::move(future_action_args)](
-             const std::vector<Object>& action_args)
-             -> const std::vector<Object>* {
-    // Check that action args match up with axiom context proposition.
-    for (const std::pair<size_t, Object>& idx_argument : future_action_args) {
-      const size_t idx_arg = idx_argument.first;
-      const Object& expected_arg = idx_argument.second;
-      if (action_args[idx_arg] != expected_arg) return nullptr;
-    }
-
-    // Assign axiom args to action args.
-    std::vector<Object>& axiom_args = *ptr_axiom_args;
-    for (const std::pair<size_t, size_t>& idx_axiom_action : idx_params) {
-      const size_t idx_axiom = idx_axiom_action.first;
-      const size_t idx_action = idx_axiom_action.second;
-      axiom_args[idx_axiom] = action_args[idx_action];
-    }
-    return &axiom_args;
-  };
+const std::vector<std::vector<Object>>& Axiom::MatchContext(
+    const std::vector<Object>& context_arguments) const {
+  static const std::vector<std::vector<Object>> kNoArguments;
+  const auto it = context_arguments_.find(
+      Proposition(context_.name(), context_arguments));
+  return it == context_arguments_.end() ? kNoArguments : it->second;
 }
 
 }  // namespace symbolic
-- 
2.43.0


From 277acadf1b625b103c617a772eea3a7a01e42b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 16/38] fix: derive exactly the propositions justified by the
 derivation rules

---
 include/symbolic/derived_predicate.h |  13 +++
 src/derived_predicate.cc             | 120 ++++++++++++++++++++++-----
 src/pddl.cc                          |   1 +
 3 files changed, 113 insertions(+), 21 deletions(-)

diff --git a/include/symbolic/derived_predicate.h b/include/symbolic/derived_predicate.h
index 111170c..a3534ca 100644
--- a/include/symbolic/derived_predicate.h
+++ b/include/symbolic/derived_predicate.h
@@ -38,8 +38,21 @@ class DerivedPredicate : public Action {
 
   static bool Apply(const std::vector<DerivedPredicate>& predicates, State* state);
 
+  /**
+   * Orders the derivation rules such that predicates are fully derived before
+   * their negation is used.
+   */
+  static void Stratify(std::vector<DerivedPredicate>* predicates);
+
  private:
+  /**
+   * Adds the propositions justified by this derivation rule.
+   */
+  bool Derive(State* state) const;
+
   const VAL::derivation_rule* symbol_;
+
+  size_t stratum_ = 0;
 };
 
 }  // namespace symbolic
diff --git a/src/derived_predicate.cc b/src/derived_predicate.cc
index 73939f9..e4aef72 100644
--- a/src/derived_predicate.cc
+++ b/src/derived_predicate.cc
@@ -11,8 +11,42 @@
 
 #include <VAL/ptree.h>
 
+#include <map>      // std::map
+#include <set>      // std::set
+#include <string>   // std::string
+#include <utility>  // std::pair
+
 #include "symbolic/pddl.h"
 
+namespace {
+
+// Predicate names and whether they are used positively.
+using Dependencies = std::set<std::pair<std::string, bool>>;
+
+/**
+ * Lists the predicates used by the given formula.
+ */
+void ListDependencies(const VAL::goal* symbol, bool is_pos,
+                      Dependencies* dependencies) {
+  if (const auto* goal = dynamic_cast<const VAL::simple_goal*>(symbol)) {
+    dependencies->emplace(goal->getProp()->head->getName(), is_pos);
+  } else if (const auto* goal = dynamic_cast<const VAL::conj_goal*>(symbol)) {
+    for (const VAL::goal* subgoal : *goal->getGoals()) {
+      ListDependencies(subgoal, is_pos, dependencies);
+    }
+  } else if (const auto* goal = dynamic_cast<const VAL::disj_goal*>(symbol)) {
+    for (const VAL::goal* subgoal : *goal->getGoals()) {
+      ListDependencies(subgoal, is_pos, dependencies);
+    }
+  } else if (const auto* goal = dynamic_cast<const VAL::neg_goal*>(symbol)) {
+    ListDependencies(goal->getGoal(), !is_pos, dependencies);
+  } else if (const auto* goal = dynamic_cast<const VAL::qfied_goal*>(symbol)) {
+    ListDependencies(goal->getGoal(), is_pos, dependencies);
+  }
+}
+
+}  // namespace
+
 namespace symbolic {
 
 DerivedPredicate::DerivedPredicate(const Pddl& pddl,
@@ -26,32 +60,76 @@ DerivedPredicate::DerivedPredicate(const Pddl& pddl,
 }
 
 bool DerivedPredicate::Apply(State* state) const {
-  bool is_changed = false;
-  bool is_iter_changed = true;
-  while (is_iter_changed) {
-    // Keep iterating until predicate converges
-    is_iter_changed = false;
-    for (const std::vector<Object>& arguments : parameter_generator()) {
-      is_iter_changed |= IsValid(*state, arguments)
-                             ? state->emplace(name(), arguments)
-                             : state->erase(Proposition(name(), arguments));
-    }
-    is_changed |= is_iter_changed;
-  }
-  return is_changed;
+  return Apply({*this}, state);
 }
 
 bool DerivedPredicate::Apply(const std::vector<DerivedPredicate>& predicates,
                              State* state) {
-  bool is_changed = false;
-  bool is_iter_changed = true;
-  while (is_iter_changed) {
-    // Keep iterating until predicates converge
-    is_iter_changed = false;
-    for (const DerivedPredicate& pred : predicates) {
-      is_iter_changed |= pred.Apply(state);
+  if (predicates.empty()) return false;
+  const State prev_state = *state;
+
+  std::set<std::string> names;
+  std::set<size_t> strata;
+  for (const DerivedPredicate& pred : predicates) {
+    names.insert(pred.name());
+    strata.insert(pred.stratum_);
+  }
+
+  // Discard derived propositions that might not be justified anymore
+  for (const Proposition& prop : prev_state) {
+    if (names.find(prop.name()) != names.end()) state->erase(prop);
+  }
+
+  for (const size_t stratum : strata) {
+    bool is_iter_changed = true;
+    while (is_iter_changed) {
+      // Keep iterating until predicates converge
+      is_iter_changed = false;
+      for (const DerivedPredicate& pred : predicates) {
+        if (pred.stratum_ != stratum) continue;
+        is_iter_changed |= pred.Derive(state);
+      }
     }
-    is_changed |= is_iter_changed;
+  }
+  return *state != prev_state;
+}
+
+void DerivedPredicate::Stratify(std::vector<DerivedPredicate>* predicates) {
+  std::map<std::string, size_t> strata;
+  for (const DerivedPredicate& pred : *predicates) {
+    strata[pred.name()] = 0;
+  }
+
+  bool is_changed = true;
+  while (is_changed) {
+    is_changed = false;
+    for (const DerivedPredicate& pred : *predicates) {
+      size_t& stratum = strata[pred.name()];
+      Dependencies dependencies;
+      ListDependencies(pred.symbol_->get_body(), true, &dependencies);
+      for (const std::pair<std::string, bool>& dependency : dependencies) {
+        const auto it = strata.find(dependency.first);
+        if (it == strata.end()) continue;
+
+        const size_t min_stratum = it->second + (dependency.second ? 0 : 1);
+        // Abort if predicates depend on their own negation
+        if (stratum >= min_stratum || min_stratum >= strata.size()) continue;
+        stratum = min_stratum;
+        is_changed = true;
+      }
+    }
+  }
+
+  for (DerivedPredicate& pred : *predicates) {
+    pred.stratum_ = strata[pred.name()];
+  }
+}
+
+bool DerivedPredicate::Derive(State* state) const {
+  bool is_changed = false;
+  for (const std::vector<Object>& arguments : parameter_generator()) {
+    if (!IsValid(*state, arguments)) continue;
+    is_changed |= state->emplace(name(), arguments);
   }
   return is_changed;
 }
diff --git a/src/pddl.cc b/src/pddl.cc
index b60692f..52f0f0e 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -210,6 +210,7 @@ std::vector<DerivedPredicate> GetDerivedPredicates(const Pddl& pddl,
   for (const VAL::derivation_rule* drv : *domain.drvs) {
     predicates.emplace_back(pddl, drv);
   }
+  DerivedPredicate::Stratify(&predicates);
   return predicates;
 }
 
-- 
2.43.0


From 47b2d5f526df2b9fa6cce4da253815799a2f0f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:40 +0000
Subject: [PATCH 17/38] fix: update everything that depends on the objects when
 adding or removing one

---
 include/symbolic/pddl.h |  5 ++++
 src/pddl.cc             | 63 ++++++++++++++++++++++++++++++++---------
 2 files changed, 55 insertions(+), 13 deletions(-)

diff --git a/include/symbolic/pddl.h b/include/symbolic/pddl.h
index 4713874..d91b30a 100644
--- a/include/symbolic/pddl.h
+++ b/include/symbolic/pddl.h
@@ -250,6 +250,11 @@ class Pddl {
   const Formula& goal() const { return goal_; }
 
  private:
+  /**
+   * Update everything that depends on the list of objects.
+   */
+  void UpdateObjects();
+
   std::shared_ptr<VAL::analysis> analysis_;
   std::string domain_pddl_;
   std::string problem_pddl_;
diff --git a/src/pddl.cc b/src/pddl.cc
index 52f0f0e..b690499 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -517,34 +517,71 @@ std::vector<std::string> Pddl::ListValidActions(
 }
 
 void Pddl::AddObject(const std::string& name, const std::string& type) {
+  if (analysis_->the_problem == nullptr) {
+    throw std::runtime_error("Pddl::AddObject(): No problem to add object " +
+                             name + " to.");
+  }
+
   VAL::const_symbol* symbol = new VAL::const_symbol(name);
-  for (VAL::pddl_type* type_symbol : *analysis_->the_domain->types) {
-    if (type_symbol->getName() != type) continue;
-    symbol->type = type_symbol;
-    break;
+  if (analysis_->the_domain->types != nullptr) {
+    for (VAL::pddl_type* type_symbol : *analysis_->the_domain->types) {
+      if (type_symbol->getName() != type) continue;
+      symbol->type = type_symbol;
+      break;
+    }
+  }
+  if (analysis_->the_problem->objects == nullptr) {
+    analysis_->the_problem->objects = new VAL::const_symbol_list;
   }
   analysis_->the_problem->objects->push_back(symbol);
   objects_.emplace_back(*this, symbol);
+
+  UpdateObjects();
 }
 
 void Pddl::RemoveObject(const std::string& name) {
-  for (auto it = objects_.begin(); it != objects_.end(); ++it) {
-    if (it->name() != name) continue;
-    const VAL::pddl_typed_symbol* symbol = it->symbol();
-    objects_.erase(it);
-
-    VAL::const_symbol_list* objects = analysis_->the_problem->objects;
-    for (auto itt = objects->begin(); itt != objects->end(); ++itt) {
-      if ((*itt)->getNameRef() != name) continue;
-      objects->erase(itt);
+  if (analysis_->the_problem == nullptr ||
+      analysis_->the_problem->objects == nullptr) {
+    return;
+  }
+  VAL::const_symbol_list* objects = analysis_->the_problem->objects;
+  for (auto it = objects->begin(); it != objects->end(); ++it) {
+    if ((*it)->getNameRef() != name) continue;
+    const VAL::const_symbol* symbol = *it;
+    objects->erase(it);
+
+    for (auto itt = objects_.begin(); itt != objects_.end(); ++itt) {
+      if (itt->symbol() != symbol) continue;
+      objects_.erase(itt);
       break;
     }
 
+    UpdateObjects();
     delete symbol;
     break;
   }
 }
 
+void Pddl::UpdateObjects() {
+  object_map_ = CreateObjectTypeMap(objects_);
+
+  // Update in place so that references to the elements remain valid.
+  UpdateAxioms(*this, &axioms_);
+  for (Action& action : actions_) {
+    action = Action(*this, action.symbol());
+  }
+  for (Predicate& pred : predicates_) {
+    pred = Predicate(*this, pred.symbol());
+  }
+  for (DerivedPredicate& pred : derived_predicates_) {
+    pred = DerivedPredicate(*this, pred.symbol());
+  }
+  DerivedPredicate::Stratify(&derived_predicates_);
+
+  state_index_ = StateIndex(predicates_);
+  goal_ = Formula(*this, analysis_->the_problem->the_goal);
+}
+
 const std::string& Pddl::name() const { return symbol()->the_domain->name; }
 
 std::set<std::string> Stringify(const State& state) {
-- 
2.43.0


From 20e01d0ee1af771ca0e283537b45bae2f9ace2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 18/38] fix: normalize disjunctions with true or without
 disjuncts and the negation of true

---
 src/normal_form.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/normal_form.cc b/src/normal_form.cc
index 13e719d..2035bca 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -189,8 +189,14 @@ std::optional<DisjunctiveFormula> Simplify(const Pddl& pddl,
 std::optional<DisjunctiveFormula> Disjoin(
     const Pddl& pddl, std::vector<DisjunctiveFormula>&& dnfs,
     bool apply_axioms) {
+  // Empty disjunction is false
+  if (dnfs.empty()) return {};
+
   DisjunctiveFormula disj;
   for (DisjunctiveFormula& dnf : dnfs) {
+    // Disjunct is true: short-circuit disjunction and return empty formula
+    if (dnf.empty()) return std::move(dnf);
+
     disj.conjunctions.insert(disj.conjunctions.end(),
                              std::make_move_iterator(dnf.conjunctions.begin()),
                              std::make_move_iterator(dnf.conjunctions.end()));
@@ -261,6 +267,9 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
 
 std::optional<DisjunctiveFormula> Negate(const Pddl& pddl,
                                          DisjunctiveFormula&& dnf) {
+  // Empty formula is true, so its negation is false
+  if (dnf.empty()) return {};
+
   // !((a & b) | (c & d) | (e & f))
 
   // ((!a & !b) | (!c & !d) | (!e & !f))
-- 
2.43.0


From 4867cfcf7c07e209e401fa2a391686b11500180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 19/38] fix: put the variables of quantifiers in parentheses in
 Python problems

---
 symbolic/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index 518dee6..5b24968 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -41,12 +41,12 @@ def _not(formulas: Formula):
 
 def _forall(var: str, var_type: str, formula: Formula):
     var_obj = Object(f"?{var}", var_type)
-    return create_group(f"forall {var_obj}", formula)
+    return create_group(f"forall ({var_obj})", formula)
 
 
 def _exists(var: str, var_type: str, formula: Formula):
     var_obj = Object(f"?{var}", var_type)
-    return create_group(f"exists {var_obj}", formula)
+    return create_group(f"exists ({var_obj})", formula)
 
 
 def _when(condition: Formula, implies: Formula):
-- 
2.43.0


From 4457b4ff122ac73cadbf91dcde136c07a93d2379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 20/38] fix: parse Python propositions without arguments and
 reject other text

---
 symbolic/problem.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index 5b24968..f2e0eb4 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -60,34 +60,26 @@ def parse_proposition(str_prop: str) -> Tuple[str, List[str]]:
     """
     import re
 
-    matches = re.match(r"([^\(]*)\(([^\)]*)", str_prop)
+    matches = re.fullmatch(r"\s*([^\s(),]+)\s*\(([^()]*)\)\s*", str_prop)
     if matches is None:
         raise ValueError(f"Unable to parse proposition from '{str_prop}'.")
     name_pred = matches.group(1)
-    str_args = matches.group(2).replace(" ", "").split(",")
+    if not matches.group(2).strip():
+        return name_pred, []
+    str_args = [arg.strip() for arg in matches.group(2).split(",")]
+    if any(not arg or re.search(r"\s", arg) for arg in str_args):
+        raise ValueError(f"Unable to parse arguments from '{str_prop}'.")
     return name_pred, str_args
 
 
 def parse_head(str_prop: str) -> str:
     """Parses the head of a proposition string."""
-    import re
-
-    matches = re.match(r"([^\(]*)\([^\)]*", str_prop)
-    if matches is None:
-        raise ValueError(f"Unable to parse proposition from '{str_prop}'.")
-    name_pred = matches.group(1)
-    return name_pred
+    return parse_proposition(str_prop)[0]
 
 
 def parse_args(str_prop: str) -> List[str]:
     """Parses the arguments of a proposition string."""
-    import re
-
-    matches = re.match(r"[^\(]*\(([^\)]*)", str_prop)
-    if matches is None:
-        raise ValueError(f"Unable to parse objects from '{str_prop}'.")
-    str_args = matches.group(1).replace(" ", "").split(",")
-    return str_args
+    return parse_proposition(str_prop)[1]
 
 
 def pprint_formula(strings: Union[str, List], indent: int = 0) -> str:
-- 
2.43.0


From d2cee914c8514fc6e1256d947e865c8f84e680a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 21/38] fix: list untyped objects after typed ones in Python
 problems

---
 symbolic/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic/problem.py b/symbolic/problem.py
index f2e0eb4..0e79a06 100644
--- a/symbolic/problem.py
+++ b/symbolic/problem.py
@@ -123,7 +123,9 @@ class Problem:
 
     @property
     def objects(self) -> List[Union[str, Sequence[str]]]:
-        return create_group(":objects", list(map(str, self._objects)))
+        # A type also applies to the untyped objects listed before it.
+        objects = sorted(self._objects, key=lambda o: not o.type)
+        return create_group(":objects", list(map(str, objects)))
 
     @property
     def initial_state(self) -> List[Union[str, Sequence[str]]]:
-- 
2.43.0


From 22d0f0359711b944ba7469be40164bb9f117f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 22/38] fix: apply deletions before additions and evaluate
 conditions in the original state

---
 src/action.cc | 118 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 83 insertions(+), 35 deletions(-)

diff --git a/src/action.cc b/src/action.cc
index b1ab51b..a4b020a 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -14,6 +14,7 @@
 #include <algorithm>  // std::max
 #include <cassert>    // assert
 #include <exception>  // std::runtime_error, std::invalid_argument
+#include <optional>   // std::optional
 #include <sstream>    // std::stringstream
 
 #include "symbolic/pddl.h"
@@ -31,8 +32,13 @@ using ::symbolic::PropositionRef;
 using ::symbolic::SignedProposition;
 using ::symbolic::State;
 
+/**
+ * Applies effects to the state under construction, given the state before any of
+ * the effects.
+ */
 template <typename T>
-using EffectsFunction = std::function<int(const std::vector<Object>&, T*)>;
+using EffectsFunction =
+    std::function<int(const std::vector<Object>&, const T&, T*)>;
 
 using ApplicationFunction =
     std::function<const std::vector<Object>&(const std::vector<Object>&)>;
@@ -73,23 +79,27 @@ int ApplyAxioms(const Axioms& axioms, const std::vector<Object> prop_args,
 template <typename T>
 EffectsFunction<T> CreateEffectsFunction(const Pddl& pddl,
                                          const VAL::effect_lists* effects,
-                                         const std::vector<Object>& parameters);
+                                         const std::vector<Object>& parameters,
+                                         bool is_add);
 
 template <typename T>
 EffectsFunction<T> CreateForall(const Pddl& pddl,
                                 const VAL::forall_effect* effect,
-                                const std::vector<Object>& parameters) {
+                                const std::vector<Object>& parameters,
+                                bool is_add) {
   // Create forall parameters
   std::vector<Object> forall_params = parameters;
   const std::vector<Object> types =
       Object::CreateList(pddl, effect->getVarsList());
   forall_params.insert(forall_params.end(), types.begin(), types.end());
   EffectsFunction<T> ForallEffects =
-      CreateEffectsFunction<T>(pddl, effect->getEffects(), forall_params);
+      CreateEffectsFunction<T>(pddl, effect->getEffects(), forall_params,
+                               is_add);
 
   return [gen = ParameterGenerator(pddl, types),
           ForallEffects = std::move(ForallEffects)](
-             const std::vector<Object>& arguments, T* state) -> int {
+             const std::vector<Object>& arguments, const T& prev_state,
+             T* state) -> int {
     // Loop over forall arguments
     int is_state_changed = 0;
     for (const std::vector<Object>& forall_objs : gen) {
@@ -99,7 +109,8 @@ EffectsFunction<T> CreateForall(const Pddl& pddl,
                          forall_objs.end());
 
       is_state_changed =
-          std::max(is_state_changed, ForallEffects(forall_args, state));
+          std::max(is_state_changed,
+                   ForallEffects(forall_args, prev_state, state));
     }
     return is_state_changed;
   };
@@ -119,7 +130,7 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
     // Equality predicate
     return [Apply = std::move(Apply)](const std::vector<Object>& arguments,
                                       // NOLINTNEXTLINE(misc-unused-parameters)
-                                      T* state) -> int {
+                                      const T& prev_state, T* state) -> int {
       const std::vector<Object>& prop_args = Apply(arguments);
       assert(prop_args.size() == 2);
       if (prop_args[0] != prop_args[1]) {
@@ -135,7 +146,8 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
     // Type predicate
     return [&name_predicate, Apply = std::move(Apply)](
                // NOLINTNEXTLINE(misc-unused-parameters)
-               const std::vector<Object>& arguments, T* state) -> int {
+               const std::vector<Object>& arguments, const T& prev_state,
+               T* state) -> int {
       const std::vector<Object>& prop_args = Apply(arguments);
       assert(prop_args.size() == 1);
       if (!prop_args[0].type().IsSubtype(name_predicate)) {
@@ -155,7 +167,8 @@ EffectsFunction<T> CreateAdd(const Pddl& pddl, const VAL::simple_effect* effect,
   const size_t predicate_hash = std::hash<std::string>{}(name_predicate);
   return [ptr_name_predicate = &name_predicate, predicate_hash,
           Apply = std::move(Apply), axioms = std::move(axioms)](
-             const std::vector<Object>& arguments, T* state) -> int {
+             const std::vector<Object>& arguments, const T& prev_state,
+             T* state) -> int {
     const int status = state->insert(
         PropositionRef(ptr_name_predicate, &Apply(arguments), predicate_hash));
     // Return early to avoid infinite loop of axiom application.
@@ -180,7 +193,7 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
     // Equality predicate
     return [Apply = std::move(Apply)](const std::vector<Object>& arguments,
                                       // NOLINTNEXTLINE(misc-unused-parameters)
-                                      T* state) -> int {
+                                      const T& prev_state, T* state) -> int {
       const std::vector<Object>& prop_args = Apply(arguments);
       assert(prop_args.size() == 2);
       if (prop_args[0] == prop_args[1]) {
@@ -196,7 +209,8 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
     // Type predicate
     return [&name_predicate, Apply = std::move(Apply)](
                // NOLINTNEXTLINE(misc-unused-parameters)
-               const std::vector<Object>& arguments, T* state) -> int {
+               const std::vector<Object>& arguments, const T& prev_state,
+               T* state) -> int {
       const std::vector<Object>& prop_args = Apply(arguments);
       assert(prop_args.size() == 1);
       if (prop_args[0].type().IsSubtype(name_predicate)) {
@@ -216,7 +230,8 @@ EffectsFunction<T> CreateDel(const Pddl& pddl, const VAL::simple_effect* effect,
   const size_t predicate_hash = std::hash<std::string>{}(name_predicate);
   return [ptr_name_predicate = &name_predicate, predicate_hash,
           Apply = std::move(Apply), axioms = std::move(axioms)](
-             const std::vector<Object>& arguments, T* state) -> int {
+             const std::vector<Object>& arguments, const T& prev_state,
+             T* state) -> int {
     const int status = state->erase(
         PropositionRef(ptr_name_predicate, &Apply(arguments), predicate_hash));
     // Return early to avoid infinite loop of axiom application.
@@ -235,17 +250,17 @@ bool EvaluateCondition(const std::optional<bool>& cond) {
 
 template <typename T>
 EffectsFunction<T> CreateCond(const Pddl& pddl, const VAL::cond_effect* effect,
-                              const std::vector<Object>& parameters) {
+                              const std::vector<Object>& parameters,
+                              bool is_add) {
   Formula Condition(pddl, effect->getCondition(), parameters);
   EffectsFunction<T> CondEffects =
-      CreateEffectsFunction<T>(pddl, effect->getEffects(), parameters);
+      CreateEffectsFunction<T>(pddl, effect->getEffects(), parameters, is_add);
   return
       [Condition = std::move(Condition), CondEffects = std::move(CondEffects)](
-          const std::vector<Object>& arguments, T* state) -> int {
-        // TODO(tmigimatsu): Condition might return different results depending
-        // on ordering of other effects since state is modified in place.
-        if (EvaluateCondition(Condition(*state, arguments))) {
-          return CondEffects(arguments, state);
+          const std::vector<Object>& arguments, const T& prev_state,
+          T* state) -> int {
+        if (EvaluateCondition(Condition(prev_state, arguments))) {
+          return CondEffects(arguments, prev_state, state);
         }
         return false;
       };
@@ -254,38 +269,71 @@ EffectsFunction<T> CreateCond(const Pddl& pddl, const VAL::cond_effect* effect,
 template <typename T>
 EffectsFunction<T> CreateEffectsFunction(
     const Pddl& pddl, const VAL::effect_lists* effects,
-    const std::vector<Object>& parameters) {
+    const std::vector<Object>& parameters, bool is_add) {
   std::vector<EffectsFunction<T>> effect_functions;
   // Forall effects
   for (const VAL::forall_effect* effect : effects->forall_effects) {
-    effect_functions.emplace_back(CreateForall<T>(pddl, effect, parameters));
+    effect_functions.emplace_back(CreateForall<T>(pddl, effect, parameters, is_add));
   }
 
-  // Add effects
-  for (const VAL::simple_effect* effect : effects->add_effects) {
-    effect_functions.emplace_back(CreateAdd<T>(pddl, effect, parameters));
-  }
-
-  // Del effects
-  for (const VAL::simple_effect* effect : effects->del_effects) {
-    effect_functions.emplace_back(CreateDel<T>(pddl, effect, parameters));
+  if (is_add) {
+    // Add effects
+    for (const VAL::simple_effect* effect : effects->add_effects) {
+      effect_functions.emplace_back(CreateAdd<T>(pddl, effect, parameters));
+    }
+  } else {
+    // Del effects
+    for (const VAL::simple_effect* effect : effects->del_effects) {
+      effect_functions.emplace_back(CreateDel<T>(pddl, effect, parameters));
+    }
   }
 
   // Cond effects
   for (const VAL::cond_effect* effect : effects->cond_effects) {
-    effect_functions.emplace_back(CreateCond<T>(pddl, effect, parameters));
+    effect_functions.emplace_back(CreateCond<T>(pddl, effect, parameters, is_add));
   }
 
   return [effect_functions = std::move(effect_functions)](
-             const std::vector<Object>& arguments, T* state) -> int {
+             const std::vector<Object>& arguments, const T& prev_state,
+             T* state) -> int {
     int is_state_changed = 0;
     for (const EffectsFunction<T>& Effect : effect_functions) {
-      is_state_changed = std::max(is_state_changed, Effect(arguments, state));
+      is_state_changed =
+          std::max(is_state_changed, Effect(arguments, prev_state, state));
     }
     return is_state_changed;
   };
 }
 
+bool HasConditions(const VAL::effect_lists* effects) {
+  if (!effects->cond_effects.empty()) return true;
+  for (const VAL::forall_effect* effect : effects->forall_effects) {
+    if (HasConditions(effect->getEffects())) return true;
+  }
+  return false;
+}
+
+/**
+ * Creates the function that applies the effects of an action in place: all
+ * deletions before all additions, with the conditions evaluated in the original
+ * state.
+ */
+template <typename T>
+std::function<int(const std::vector<Object>&, T*)> CreateApplyFunction(
+    const Pddl& pddl, const VAL::effect_lists* effects,
+    const std::vector<Object>& parameters) {
+  return [Del = CreateEffectsFunction<T>(pddl, effects, parameters, false),
+          Add = CreateEffectsFunction<T>(pddl, effects, parameters, true),
+          has_conditions = HasConditions(effects)](
+             const std::vector<Object>& arguments, T* state) -> int {
+    std::optional<T> copy;
+    if (has_conditions) copy = *state;
+    const T& prev_state = has_conditions ? *copy : *state;
+    const int is_deleted = Del(arguments, prev_state, state);
+    return std::max(is_deleted, Add(arguments, prev_state, state));
+  };
+}
+
 const VAL::operator_* GetSymbol(const Pddl& pddl,
                                 const std::string& name_action) {
   assert(pddl.symbol()->the_domain->ops != nullptr);
@@ -309,9 +357,9 @@ Action::Action(const Pddl& pddl, const VAL::operator_* symbol)
       parameters_(Object::CreateList(pddl, symbol_->parameters)),
       param_gen_(pddl, parameters_),
       Preconditions_(pddl, symbol_->precondition, parameters_),
-      Apply_(CreateEffectsFunction<State>(pddl, symbol_->effects, parameters_)),
-      ApplyPartial_(CreateEffectsFunction<PartialState>(pddl, symbol_->effects,
-                                                        parameters_)) {}
+      Apply_(CreateApplyFunction<State>(pddl, symbol_->effects, parameters_)),
+      ApplyPartial_(CreateApplyFunction<PartialState>(pddl, symbol_->effects,
+                                                      parameters_)) {}
 
 Action::Action(const Pddl& pddl, const std::string& action_call)
     : Action(pddl, GetSymbol(pddl, Proposition::ParseHead(action_call))) {}
-- 
2.43.0


From 5476f0394ccae33435e3ece5dfb83a0a759673f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:43 +0000
Subject: [PATCH 23/38] fix: load only the domain when the problem is empty

Pddl(domain, "") (also what unpickling a Pddl without a problem calls)
dereferenced the missing problem.
---
 src/pddl.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index b690499..f923a6f 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -214,9 +214,11 @@ std::vector<DerivedPredicate> GetDerivedPredicates(const Pddl& pddl,
   return predicates;
 }
 
-State GetInitialState(const VAL::domain& domain, const VAL::problem& problem) {
+State GetInitialState(const VAL::domain& domain,
+                      const VAL::problem* problem) {
   State initial_state;
-  for (const VAL::simple_effect* effect : problem.initial_state->add_effects) {
+  if (problem == nullptr) return initial_state;
+  for (const VAL::simple_effect* effect : problem->initial_state->add_effects) {
     std::vector<Object> arguments;
     arguments.reserve(effect->prop->args->size());
     for (const VAL::parameter_symbol* arg : *effect->prop->args) {
@@ -262,8 +264,11 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
       derived_predicates_(GetDerivedPredicates(*this, *analysis_->the_domain)),
       state_index_(predicates_),
       initial_state_(
-          GetInitialState(*analysis_->the_domain, *analysis_->the_problem)),
-      goal_(*this, analysis_->the_problem->the_goal) {
+          GetInitialState(*analysis_->the_domain, analysis_->the_problem)) {
+  if (analysis_->the_problem != nullptr) {
+    goal_ = Formula(*this, analysis_->the_problem->the_goal);
+  }
+
   // Create axiom map after initialization list to avoid conflicts with
   // GetAxioms(), which accesses the axiom map during the construction of DNFs.
   axiom_map_ = CreateAxiomContextMap(axioms());
@@ -276,7 +281,7 @@ Pddl::Pddl(const std::string& domain_pddl, const std::string& problem_pddl,
   // Create actions after all axioms have settled.
   actions_ = GetActions(*this, *analysis_->the_domain);
 
-  if (apply_axioms) {
+  if (apply_axioms && analysis_->the_problem != nullptr) {
     initial_state_ = ConsistentState(initial_state_);
   }
 }
-- 
2.43.0


From 5581575466273279abba91e1c81f07fbad1f8fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 24/38] fix: do not accept calls to axioms as actions

---
 src/action.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/action.cc b/src/action.cc
index a4b020a..8dfd9a1 100644
--- a/src/action.cc
+++ b/src/action.cc
@@ -339,6 +339,8 @@ const VAL::operator_* GetSymbol(const Pddl& pddl,
   assert(pddl.symbol()->the_domain->ops != nullptr);
   for (const VAL::operator_* op : *pddl.symbol()->the_domain->ops) {
     assert(op != nullptr && op->name != nullptr);
+    // Axioms and derived predicates cannot be called
+    if (dynamic_cast<const VAL::action*>(op) == nullptr) continue;
     if (op->name->getNameRef() == name_action) return op;
   }
   throw std::runtime_error("Action::Action(): Could not find action symbol " +
-- 
2.43.0


From 4e3a68a8fb32e305ae6ec67934852faab98da859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:56 +0000
Subject: [PATCH 25/38] fix: do not read a call without parentheses as its own
 argument list

---
 src/object.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/object.cc b/src/object.cc
index 90b1721..e278dde 100644
--- a/src/object.cc
+++ b/src/object.cc
@@ -55,7 +55,9 @@ const VAL::const_symbol* GetSymbol(const Pddl& pddl,
 }
 
 std::vector<std::string> TokenizeArguments(const std::string& proposition) {
-  const size_t idx_start = proposition.find_first_of('(') + 1;
+  const size_t idx_paren = proposition.find_first_of('(');
+  if (idx_paren == std::string::npos) return {};
+  const size_t idx_start = idx_paren + 1;
   const size_t idx_end =
       std::min(proposition.size(), proposition.find_last_of(')')) - idx_start;
   std::string str_args = proposition.substr(idx_start, idx_end);
-- 
2.43.0


From 57fb21f99b17308779fe110d2bf549780336e4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 26/38] fix: reject negative and malformed depths on the
 command line

---
 apps/pddl.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/apps/pddl.cc b/apps/pddl.cc
index df0adb0..5e55d1c 100644
--- a/apps/pddl.cc
+++ b/apps/pddl.cc
@@ -49,7 +49,13 @@ Args ParseArgs(int argc, char* argv[]) {
       if (arg == "--depth" && idx + 1 < argc) {
         idx++;
         // NOLINTNEXTLINE(cppcoreguidelines-pro-bounds-pointer-arithmetic)
-        parsed_args.depth = std::stoi(argv[idx]);
+        const std::string str_depth(argv[idx]);
+        size_t idx_end = 0;
+        const int depth = std::stoi(str_depth, &idx_end);
+        if (depth < 0 || idx_end != str_depth.size()) {
+          throw std::runtime_error("Depth must be a non-negative integer.");
+        }
+        parsed_args.depth = depth;
       } else if (arg == "--verbose") {
         parsed_args.verbose = true;
       } else {
-- 
2.43.0


From 2575b066ccd17d64ba844d5c3e2b80cac82202ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 27/38] fix: keep the effects of conditions that always hold in
 normal forms

---
 src/normal_form.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/normal_form.cc b/src/normal_form.cc
index 2035bca..04e97a0 100644
--- a/src/normal_form.cc
+++ b/src/normal_form.cc
@@ -453,7 +453,8 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
     std::optional<DisjunctiveFormula> result =
         Create(pddl, effect->getEffects(), parameters, arguments);
 
-    if (condition->empty()) {
+    condition = Negate(pddl, std::move(*condition));
+    if (!condition.has_value()) {
       // Condition always true
       if (!result.has_value()) {
         // Result always false
@@ -465,9 +466,6 @@ std::optional<DisjunctiveFormula> DisjunctiveFormula::Create(
       continue;
     }
 
-    condition = Negate(pddl, std::move(*condition));
-    if (!condition.has_value()) continue;  // Axiom violated
-
     if (!result.has_value()) {
       // Result always false, so return neg condition
       dnfs.push_back(std::move(*condition));
-- 
2.43.0


From 9875dfab6e60b45ab10dd6a1cb53b19a8d5f219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 28/38] fix: close partial states however long the chain of
 axioms is

---
 src/pddl.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/pddl.cc b/src/pddl.cc
index f923a6f..b8719d0 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -377,10 +377,9 @@ State Pddl::ConsistentState(const State& state) const {
 }
 
 PartialState Pddl::ConsistentState(const PartialState& state) const {
-  constexpr int kMaxIterations = 50;
   PartialState next_state = state;
 
-  size_t i = 0;
+  // Known propositions are never flipped, so this ends with the unknown ones.
   bool is_changed = true;
   while (is_changed) {
     is_changed = false;
@@ -397,11 +396,6 @@ PartialState Pddl::ConsistentState(const PartialState& state) const {
         throw std::runtime_error(ss.str());
       }
     }
-
-    if (i++ > kMaxIterations) {
-      throw std::runtime_error(
-          "Pddl::ConsistentState(): Exceeded max num iterations.");
-    }
   }
   return next_state;
 }
-- 
2.43.0


From 69e3716dc2f9feda5effef68343a6eab0a7e8468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 29/38] fix: keep the symbols of removed objects

The initial state, the goal and values held by the caller may still mention a
removed object, whose deleted symbol they then read.
---
 include/symbolic/pddl.h | 5 +++++
 src/pddl.cc             | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/symbolic/pddl.h b/include/symbolic/pddl.h
index d91b30a..21f1aa8 100644
--- a/include/symbolic/pddl.h
+++ b/include/symbolic/pddl.h
@@ -29,6 +29,7 @@
 namespace VAL {
 
 class analysis;
+class const_symbol;
 
 }  // namespace VAL
 
@@ -256,6 +257,10 @@ class Pddl {
   void UpdateObjects();
 
   std::shared_ptr<VAL::analysis> analysis_;
+
+  // Symbols of removed objects, which existing propositions may still refer to.
+  std::vector<std::shared_ptr<const VAL::const_symbol>> removed_objects_;
+
   std::string domain_pddl_;
   std::string problem_pddl_;
 
diff --git a/src/pddl.cc b/src/pddl.cc
index b8719d0..50aa6aa 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -555,8 +555,8 @@ void Pddl::RemoveObject(const std::string& name) {
       break;
     }
 
+    removed_objects_.emplace_back(symbol);
     UpdateObjects();
-    delete symbol;
     break;
   }
 }
-- 
2.43.0


From c5481d22651b7e8404dfd82366e2ca9bc619ea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 30/38] fix: report lookups of combinations of another length

find() asserted the number of elements, and returned an index past the end of an
empty generator.
---
 include/symbolic/utils/combination_generator.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index f7d3678..fe6b33f 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -136,7 +136,16 @@ class CombinationGenerator {
    * Get index of given combination.
    */
   int find(const typename iterator::value_type& combination) const {
-    assert(combination.size() == options_.size());
+    if (combination.size() != options_.size()) {
+      std::stringstream ss;
+      ss << "CombinationGenerator::find(): Expected " << options_.size()
+         << " elements but got " << combination.size() << ".";
+      throw std::out_of_range(ss.str());
+    }
+    if (empty()) {
+      throw std::out_of_range(
+          "CombinationGenerator::find(): No combinations to find.");
+    }
     size_t idx = 0;
 
     // Iterate over digit slots
-- 
2.43.0


From a59f86c914e92a83e20478e733ea5971face1516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 31/38] fix: unpickle a Pddl in place

Returning it by value moves it, and everything it holds refers to the old place.
---
 src/python/symbolic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index b248614..eb9af89 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -328,7 +328,7 @@ PYBIND11_MODULE(pysymbolic, m) {
           [](const py::tuple& domain_problem) {
             const auto domain = domain_problem[0].cast<std::string>();
             const auto problem = domain_problem[1].cast<std::string>();
-            return Pddl(domain, problem);
+            return std::make_unique<Pddl>(domain, problem);
           }));
 
   // Object::Type
-- 
2.43.0


From a307660f98ed484fc729d9b2b4d2a6acc039a914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 32/38] fix: print derived predicates from Python

__repr__ took an Axiom, so printing raised a TypeError.
---
 src/python/symbolic.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index eb9af89..7ee9c45 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -459,9 +459,9 @@ PYBIND11_MODULE(pysymbolic, m) {
                   [](const DerivedPredicate& pred) {
                     // TODO
                   })
-      .def("__repr__", [](const Axiom& axiom) {
+      .def("__repr__", [](const DerivedPredicate& pred) {
         std::stringstream ss;
-        ss << axiom;
+        ss << pred;
         return ss.str();
       });
 
-- 
2.43.0


From 596c070f356e00433805898abfeef566e7482567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 33/38] fix: judge states by axioms from Python

is_consistent took a State, which Python cannot make.
---
 src/python/symbolic.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index 7ee9c45..9cc88b1 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -407,8 +407,9 @@ PYBIND11_MODULE(pysymbolic, m) {
   // Axiom
   py::class_<Axiom>(m, "Axiom")
       .def("is_consistent",
-           static_cast<bool (Axiom::*)(const State&) const>(
-               &Axiom::IsConsistent),
+           [](const Axiom& axiom, const StringSet& state) {
+             return axiom.IsConsistent(ParseState(axiom.pddl(), state));
+           },
            "state"_a, R"pbdoc(
           Determine whether the axiom is satisfied in the given state.
 
-- 
2.43.0


From caddd8752e9eed07409e6840eb41ac980da801db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 34/38] fix: hold axioms by shared pointer in Python

Pddl::axioms() returns shared pointers, which the default holder cannot take.
---
 src/python/symbolic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index 9cc88b1..447fc10 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -405,7 +405,7 @@ PYBIND11_MODULE(pysymbolic, m) {
        )pbdoc");
 
   // Axiom
-  py::class_<Axiom>(m, "Axiom")
+  py::class_<Axiom, std::shared_ptr<Axiom>>(m, "Axiom")
       .def("is_consistent",
            [](const Axiom& axiom, const StringSet& state) {
              return axiom.IsConsistent(ParseState(axiom.pddl(), state));
-- 
2.43.0


From cdde0fd4f7535dedf238fe8ce66b3f2cea46e52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 35/38] fix: check positions and sizes given to StateIndex from
 Python

---
 src/python/symbolic.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index 447fc10..1e5961a 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -543,6 +543,10 @@ PYBIND11_MODULE(pysymbolic, m) {
             return py::make_iterator(node.begin(), node.end());
           },
           py::keep_alive<0, 1>())
+             if (idx_proposition < 0 ||
+                 static_cast<size_t>(idx_proposition) >= state_index.size()) {
+               throw std::out_of_range("StateIndex: index out of range.");
+             }
       .def("__repr__", [](const Planner::Node& node) {
         std::stringstream ss;
         ss << node;
@@ -554,6 +558,10 @@ PYBIND11_MODULE(pysymbolic, m) {
       .def(py::init<const Pddl&>(), "pddl"_a, R"pbdoc(
         Planner class to find a state that satisfies the goal condition from the initial state.
 
+             if (static_cast<size_t>(indexed_state.size()) !=
+                 state_index.size()) {
+               throw std::invalid_argument("StateIndex: wrong state size.");
+             }
         Args:
           pddl: Pddl instance.
 
-- 
2.43.0


From 97be9e2f6edf2fb23d97a77e7d731d2a634c1355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 36/38] fix: keep alive what Python values refer to

Planners, nodes, searches, normal forms and parsed calls refer to their Pddl, and
objects, actions and the like were references into vectors that are replaced when
the objects change. Elements of iterators were references to an element that
changes when the iterator advances.
---
 src/python/symbolic.cc | 136 ++++++++++++++++++++++++++++++-----------
 1 file changed, 101 insertions(+), 35 deletions(-)

diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index 1e5961a..d5349db 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -24,6 +24,8 @@
 
 namespace {
 
+namespace py = pybind11;
+
 using ::symbolic::Object;
 using ::symbolic::Pddl;
 using ::symbolic::Planner;
@@ -51,6 +53,40 @@ std::vector<Object> ParseObjects(const Pddl& pddl,
   return objects;
 }
 
+// Converts a value to Python. Values refer to their Pddl without owning it, so
+// the owner (the Pddl or something that keeps it alive) is kept alive with them.
+template <typename T>
+py::object Keep(const T& value, py::handle owner) {
+  py::object object = py::cast(value, py::return_value_policy::copy);
+  py::detail::keep_alive_impl(object, owner);
+  return object;
+}
+
+template <typename T>
+py::object Keep(const std::vector<T>& values, py::handle owner) {
+  py::list list;
+  for (const T& value : values) list.append(Keep(value, owner));
+  return std::move(list);
+}
+
+template <typename T>
+py::object Keep(const std::unordered_map<std::string, T>& values,
+                py::handle owner) {
+  py::dict dict;
+  for (const auto& key_val : values) {
+    dict[py::cast(key_val.first)] = Keep(key_val.second, owner);
+  }
+  return std::move(dict);
+}
+
+// Property getter for values that the Pddl replaces when its objects change.
+template <typename T>
+auto KeepProperty(const T& (Pddl::*getter)() const) {
+  return [getter](py::object self) {
+    return Keep((self.cast<const Pddl&>().*getter)(), self);
+  };
+}
+
 struct BreadthFirstSearch {
   BreadthFirstSearch(const Planner::Node& root, size_t max_depth, bool verbose,
                      double timeout)
@@ -290,13 +326,14 @@ PYBIND11_MODULE(pysymbolic, m) {
           R"pbdoc(
             Initial state for planning.
           )pbdoc")
-      .def_property_readonly("object_map", &Pddl::object_map)
-      .def_property_readonly("constants", &Pddl::constants)
-      .def_property_readonly("objects", &Pddl::objects)
-      .def_property_readonly("actions", &Pddl::actions)
-      .def_property_readonly("predicates", &Pddl::predicates)
-      .def_property_readonly("axioms", &Pddl::axioms)
-      .def_property_readonly("derived_predicates", &Pddl::derived_predicates)
+      .def_property_readonly("object_map", KeepProperty(&Pddl::object_map))
+      .def_property_readonly("constants", KeepProperty(&Pddl::constants))
+      .def_property_readonly("objects", KeepProperty(&Pddl::objects))
+      .def_property_readonly("actions", KeepProperty(&Pddl::actions))
+      .def_property_readonly("predicates", KeepProperty(&Pddl::predicates))
+      .def_property_readonly("axioms", KeepProperty(&Pddl::axioms))
+      .def_property_readonly("derived_predicates",
+                             KeepProperty(&Pddl::derived_predicates))
       .def_property_readonly("state_index", &Pddl::state_index)
       .def_property_readonly("goal", &Pddl::goal)
       .def("is_valid_tuple",
@@ -351,7 +388,15 @@ PYBIND11_MODULE(pysymbolic, m) {
       .def_property_readonly("parameters", &Action::parameters)
       .def_property_readonly("parameter_generator",
                              &Action::parameter_generator)
-      .def_static("parse", &Action::Parse, "pddl"_a, "action_call"_a)
+      .def_static(
+          "parse",
+          [](const py::object& pddl, const std::string& action_call) {
+            const auto action_args =
+                Action::Parse(pddl.cast<const Pddl&>(), action_call);
+            return py::make_tuple(Keep(action_args.first, pddl),
+                                  Keep(action_args.second, pddl));
+          },
+          "pddl"_a, "action_call"_a)
       .def("to_string",
            [](const Action& action,
               const std::vector<std::string>& arguments) -> std::string {
@@ -473,15 +518,19 @@ PYBIND11_MODULE(pysymbolic, m) {
 
   // ParameterGenerator
   py::class_<ParameterGenerator>(m, "ParameterGenerator")
-      .def("__getitem__", &ParameterGenerator::at)
+      .def("__getitem__",
+           [](const py::object& self, int idx) {
+             return Keep(self.cast<const ParameterGenerator&>().at(idx), self);
+           })
       .def("__len__", &ParameterGenerator::size)
       .def("__nonzero__", &ParameterGenerator::empty)
       .def(
           "__iter__",
-          [](ParameterGenerator& param_gen) {
-            return py::make_iterator(param_gen.begin(), param_gen.end());
-          },
-          py::keep_alive<0, 1>())  // Keep vector alive while iterator is used
+          [](const py::object& self) {
+            // Iterate through __getitem__, since the elements of the C++
+            // iterator change when it advances.
+            return py::reinterpret_steal<py::object>(PySeqIter_New(self.ptr()));
+          })
       .def("index",
            [](const ParameterGenerator& param_gen,
               const StringVector& str_args) -> size_t {
@@ -494,6 +543,10 @@ PYBIND11_MODULE(pysymbolic, m) {
       .def("get_proposition",
            [](const StateIndex& state_index, int idx_proposition) {
              if (idx_proposition < 0) idx_proposition += state_index.size();
+             if (idx_proposition < 0 ||
+                 static_cast<size_t>(idx_proposition) >= state_index.size()) {
+               throw std::out_of_range("StateIndex: index out of range.");
+             }
              return state_index.GetProposition(idx_proposition).to_string();
            })
       .def("get_proposition_index",
@@ -505,6 +558,10 @@ PYBIND11_MODULE(pysymbolic, m) {
            [](const StateIndex& state_index,
               // NOLINTNEXTLINE(performance-unnecessary-value-param)
               Eigen::Ref<const StateIndex::IndexedState> indexed_state) {
+             if (static_cast<size_t>(indexed_state.size()) !=
+                 state_index.size()) {
+               throw std::invalid_argument("StateIndex: wrong state size.");
+             }
              return Stringify(state_index.GetState(indexed_state));
            })
       .def("get_indexed_state",
@@ -531,7 +588,7 @@ PYBIND11_MODULE(pysymbolic, m) {
 
   // Planner::Node
   py::class_<Planner::Node>(m, "PlannerNode")
-      .def(py::init<const Planner::Node&>())
+      .def(py::init<const Planner::Node&>(), py::keep_alive<1, 2>())
       .def_property_readonly("action", &Planner::Node::action)
       .def_property_readonly(
           "state",
@@ -540,13 +597,11 @@ PYBIND11_MODULE(pysymbolic, m) {
       .def(
           "__iter__",
           [](const Planner::Node& node) {
-            return py::make_iterator(node.begin(), node.end());
+            // Copy nodes, since the iterator's node changes when it advances.
+            return py::make_iterator<py::return_value_policy::copy>(
+                node.begin(), node.end(), py::keep_alive<0, 1>());
           },
           py::keep_alive<0, 1>())
-             if (idx_proposition < 0 ||
-                 static_cast<size_t>(idx_proposition) >= state_index.size()) {
-               throw std::out_of_range("StateIndex: index out of range.");
-             }
       .def("__repr__", [](const Planner::Node& node) {
         std::stringstream ss;
         ss << node;
@@ -555,13 +610,10 @@ PYBIND11_MODULE(pysymbolic, m) {
 
   // Planner
   py::class_<Planner>(m, "Planner")
-      .def(py::init<const Pddl&>(), "pddl"_a, R"pbdoc(
+      .def(py::init<const Pddl&>(), "pddl"_a, py::keep_alive<1, 2>(),
+           R"pbdoc(
         Planner class to find a state that satisfies the goal condition from the initial state.
 
-             if (static_cast<size_t>(indexed_state.size()) !=
-                 state_index.size()) {
-               throw std::invalid_argument("StateIndex: wrong state size.");
-             }
         Args:
           pddl: Pddl instance.
 
@@ -570,7 +622,7 @@ PYBIND11_MODULE(pysymbolic, m) {
       .def(py::init([](const Pddl& pddl, const StringSet& state) {
              return Planner(pddl, ParseState(pddl, state));
            }),
-           "pddl"_a, "state"_a, R"pbdoc(
+           "pddl"_a, "state"_a, py::keep_alive<1, 2>(), R"pbdoc(
         Planner class to find a state that satisfies the goal condition from the given state.
 
         Args:
@@ -599,9 +651,13 @@ PYBIND11_MODULE(pysymbolic, m) {
   //     py::keep_alive<0, 1>());
   py::class_<::BreadthFirstSearch>(m, "BreadthFirstSearch")
       .def(py::init<const Planner::Node&, size_t, bool, double>(), "root"_a,
-           "max_depth"_a, "verbose"_a = false, "timeout"_a = 0)
-      .def("__iter__", [](::BreadthFirstSearch& it) { return it; })
-      .def("__next__", [](::BreadthFirstSearch& it) {
+           "max_depth"_a, "verbose"_a = false, "timeout"_a = 0,
+           py::keep_alive<1, 2>())
+      .def(
+          "__iter__", [](::BreadthFirstSearch& it) { return it; },
+          py::keep_alive<0, 1>())
+      .def("__next__", [](const py::object& self) {
+        auto& it = self.cast<::BreadthFirstSearch&>();
         if (!it.initialized) {
           it.it = it.bfs.begin();
           it.initialized = true;
@@ -613,16 +669,24 @@ PYBIND11_MODULE(pysymbolic, m) {
           throw pybind11::stop_iteration();
         }
 
-        return *it.it;
+        return Keep(*it.it, self);
       });
 
   py::class_<DisjunctiveFormula>(m, "DisjunctiveFormula")
       .def_readonly("conjunctions", &DisjunctiveFormula::conjunctions)
       .def_static("normalize_goal", &DisjunctiveFormula::NormalizeGoal,
-                  "pddl"_a, "apply_axioms"_a = false)
-      .def_static("normalize_conditions",
-                  &DisjunctiveFormula::NormalizeConditions, "pddl"_a,
-                  "action_call"_a, "apply_axioms"_a = false, R"pbdoc(
+                  "pddl"_a, "apply_axioms"_a = false, py::keep_alive<0, 1>())
+      .def_static(
+          "normalize_conditions",
+          [](const py::object& pddl, const std::string& action_call,
+             bool apply_axioms) -> py::object {
+            const auto pre_post = DisjunctiveFormula::NormalizeConditions(
+                pddl.cast<const Pddl&>(), action_call, apply_axioms);
+            if (!pre_post) return py::none();
+            return py::make_tuple(Keep(pre_post->first, pddl),
+                                  Keep(pre_post->second, pddl));
+          },
+          "pddl"_a, "action_call"_a, "apply_axioms"_a = false, R"pbdoc(
           Normalize the pre/post conditions of the given action.
 
           If either of the conditions are invalid, this function will return an
@@ -661,10 +725,12 @@ PYBIND11_MODULE(pysymbolic, m) {
           )pbdoc")
       .def_static("normalize_preconditions",
                   &DisjunctiveFormula::NormalizePreconditions, "pddl"_a,
-                  "action_call"_a, "apply_axioms"_a = false)
+                  "action_call"_a, "apply_axioms"_a = false,
+                  py::keep_alive<0, 1>())
       .def_static("normalize_postconditions",
                   &DisjunctiveFormula::NormalizePostconditions, "pddl"_a,
-                  "action_call"_a, "apply_axioms"_a = false)
+                  "action_call"_a, "apply_axioms"_a = false,
+                  py::keep_alive<0, 1>())
       .def("__repr__", [](const DisjunctiveFormula& dnf) {
         std::stringstream ss;
         ss << dnf;
-- 
2.43.0


From be210a6c74ca87455ca1f4438ba3c9d3d91fb471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:51 +0000
Subject: [PATCH 37/38] fix: positions of combinations and facts beyond 2^31

Iterators, at(), operator[] and find() of CombinationGenerator and iterators of
StateIndex kept positions in int, while sizes are size_t.
---
 include/symbolic/state.h                      |  4 +--
 .../symbolic/utils/combination_generator.h    | 25 ++++++++++---------
 src/python/symbolic.cc                        |  4 +--
 3 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/include/symbolic/state.h b/include/symbolic/state.h
index 02705fa..b688bdc 100644
--- a/include/symbolic/state.h
+++ b/include/symbolic/state.h
@@ -304,7 +304,7 @@ class StateIndex {
     using reference = const Proposition&;
 
     // Constructor
-    iterator(const StateIndex* state_index, int idx)
+    iterator(const StateIndex* state_index, difference_type idx)
         : state_index_(state_index), idx_(idx) {}
 
     // Forward iterator
@@ -383,7 +383,7 @@ class StateIndex {
 
    private:
     const StateIndex* state_index_ = nullptr;
-    int idx_ = 0;
+    difference_type idx_ = 0;
     mutable Proposition prop_;
   };
 };
diff --git a/include/symbolic/utils/combination_generator.h b/include/symbolic/utils/combination_generator.h
index fe6b33f..bea6146 100644
--- a/include/symbolic/utils/combination_generator.h
+++ b/include/symbolic/utils/combination_generator.h
@@ -112,7 +112,7 @@ class CombinationGenerator {
   /**
    * Access specified element with wrapping and bounds checking.
    */
-  typename iterator::value_type at(int i) const {
+  typename iterator::value_type at(ptrdiff_t i) const {
     // Wrap around negative indices
     if (i < 0) i += size();
 
@@ -128,14 +128,14 @@ class CombinationGenerator {
   /**
    * Access specified element without bounds checking.
    */
-  typename iterator::value_type operator[](int i) const {
+  typename iterator::value_type operator[](ptrdiff_t i) const {
     return *(begin() + i);
   }
 
   /**
    * Get index of given combination.
    */
-  int find(const typename iterator::value_type& combination) const {
+  ptrdiff_t find(const typename iterator::value_type& combination) const {
     if (combination.size() != options_.size()) {
       std::stringstream ss;
       ss << "CombinationGenerator::find(): Expected " << options_.size()
@@ -240,7 +240,8 @@ class CombinationGenerator<ContainerT>::Iterator {
   using reference = const value_type&;
 
   // Constructor
-  Iterator(const CombinationGenerator* gen, int idx) : gen_(gen), idx_(idx) {
+  Iterator(const CombinationGenerator* gen, difference_type idx)
+      : gen_(gen), idx_(idx) {
     UpdateCombination();
   }
 
@@ -326,10 +327,10 @@ class CombinationGenerator<ContainerT>::Iterator {
     const size_t num_options = gen_->options_.size();
     if (combination_.empty()) combination_.resize(num_options);
 
-    int remaining = idx_;
+    difference_type remaining = idx_;
     for (size_t i = 0; i < num_options; i++) {
       // Compute the index for the current bin
-      int idx_i = remaining / gen_->size_groups_[i];
+      const size_t idx_i = remaining / gen_->size_groups_[i];
       remaining -= idx_i * gen_->size_groups_[i];
 
       // Set the value
@@ -343,7 +344,7 @@ class CombinationGenerator<ContainerT>::Iterator {
    *
    * Sets values only for elements where idx_ differs from idx_new.
    */
-  void UpdateCombination(int idx_new) {
+  void UpdateCombination(difference_type idx_new) {
     // Do nothing if the index is unchanged
     if (idx_ == idx_new) return;
 
@@ -365,12 +366,12 @@ class CombinationGenerator<ContainerT>::Iterator {
     const size_t num_options = gen_->options_.size();
     if (combination_.empty()) combination_.resize(num_options);
 
-    int remaining = idx_;
-    int remaining_new = idx_new;
+    difference_type remaining = idx_;
+    difference_type remaining_new = idx_new;
     for (size_t i = 0; i < num_options; i++) {
       // Compute the index for the current bin
-      int idx_i = remaining / gen_->size_groups_[i];
-      int idx_i_new = remaining_new / gen_->size_groups_[i];
+      const size_t idx_i = remaining / gen_->size_groups_[i];
+      const size_t idx_i_new = remaining_new / gen_->size_groups_[i];
       remaining -= idx_i * gen_->size_groups_[i];
       remaining_new -= idx_i_new * gen_->size_groups_[i];
 
@@ -386,7 +387,7 @@ class CombinationGenerator<ContainerT>::Iterator {
 
   const CombinationGenerator* gen_ = nullptr;
   std::vector<ValueT> combination_;
-  int idx_;
+  difference_type idx_;
 
   friend class CombinationGenerator;
 };
diff --git a/src/python/symbolic.cc b/src/python/symbolic.cc
index d5349db..6e0ffe1 100644
--- a/src/python/symbolic.cc
+++ b/src/python/symbolic.cc
@@ -519,7 +519,7 @@ PYBIND11_MODULE(pysymbolic, m) {
   // ParameterGenerator
   py::class_<ParameterGenerator>(m, "ParameterGenerator")
       .def("__getitem__",
-           [](const py::object& self, int idx) {
+           [](const py::object& self, ptrdiff_t idx) {
              return Keep(self.cast<const ParameterGenerator&>().at(idx), self);
            })
       .def("__len__", &ParameterGenerator::size)
@@ -541,7 +541,7 @@ PYBIND11_MODULE(pysymbolic, m) {
   // StateIndex
   py::class_<StateIndex>(m, "StateIndex")
       .def("get_proposition",
-           [](const StateIndex& state_index, int idx_proposition) {
+           [](const StateIndex& state_index, ptrdiff_t idx_proposition) {
              if (idx_proposition < 0) idx_proposition += state_index.size();
              if (idx_proposition < 0 ||
                  static_cast<size_t>(idx_proposition) >= state_index.size()) {
-- 
2.43.0


From 24e08a94ed609c9e48294976bc932dc928103e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:39 +0000
Subject: [PATCH 38/38] fix: give back the symbols of added objects

---
 include/symbolic/pddl.h |  3 +++
 src/pddl.cc             | 17 ++++++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/symbolic/pddl.h b/include/symbolic/pddl.h
index 21f1aa8..3700603 100644
--- a/include/symbolic/pddl.h
+++ b/include/symbolic/pddl.h
@@ -258,6 +258,9 @@ class Pddl {
 
   std::shared_ptr<VAL::analysis> analysis_;
 
+  // Symbols of added objects, which the lists of the problem do not own.
+  std::vector<std::shared_ptr<const VAL::const_symbol>> added_objects_;
+
   // Symbols of removed objects, which existing propositions may still refer to.
   std::vector<std::shared_ptr<const VAL::const_symbol>> removed_objects_;
 
diff --git a/src/pddl.cc b/src/pddl.cc
index 50aa6aa..ee73a0d 100644
--- a/src/pddl.cc
+++ b/src/pddl.cc
@@ -13,10 +13,11 @@
 #include <VAL/ptree.h>
 #include <VAL/typecheck.h>
 
-#include <fstream>  // std::ifstream
-#include <sstream>  // std::stringstream
-#include <string>   // std::string
-#include <utility>  // std::move
+#include <algorithm>  // std::none_of
+#include <fstream>    // std::ifstream
+#include <sstream>    // std::stringstream
+#include <string>     // std::string
+#include <utility>    // std::move
 
 #include "symbolic/utils/parameter_generator.h"
 #include "utils/doctest.h"
@@ -522,6 +523,7 @@ void Pddl::AddObject(const std::string& name, const std::string& type) {
   }
 
   VAL::const_symbol* symbol = new VAL::const_symbol(name);
+  added_objects_.emplace_back(symbol);
   if (analysis_->the_domain->types != nullptr) {
     for (VAL::pddl_type* type_symbol : *analysis_->the_domain->types) {
       if (type_symbol->getName() != type) continue;
@@ -555,7 +557,12 @@ void Pddl::RemoveObject(const std::string& name) {
       break;
     }
 
-    removed_objects_.emplace_back(symbol);
+    if (std::none_of(added_objects_.begin(), added_objects_.end(),
+                     [symbol](const auto& added) {
+                       return added.get() == symbol;
+                     })) {
+      removed_objects_.emplace_back(symbol);
+    }
     UpdateObjects();
     break;
   }
-- 
2.43.0

