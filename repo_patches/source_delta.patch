From cb71fbe55da698956379c203ccacc2efb534fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 01/15] fix: TransitionID::get_leaves panicked or dropped a
 component for quotient ids with an empty side

---
 src/TransitionSystems/transition_id.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/TransitionSystems/transition_id.rs b/src/TransitionSystems/transition_id.rs
index eb8ad89..5a524ed 100644
--- a/src/TransitionSystems/transition_id.rs
+++ b/src/TransitionSystems/transition_id.rs
@@ -41,11 +41,18 @@ impl TransitionID {
                 r.get_leaves_helper(current_leaves, index_left + 1) // return index right
             }
             TransitionID::Quotient(l, r) => {
+                // A side without any transitions still takes up the place of one component
+                if current_leaves.len() <= index {
+                    current_leaves.push(Vec::new());
+                }
                 let mut index_left = index;
                 for t in l {
                     index_left = t.get_leaves_helper(current_leaves, index);
                 }
-                let mut index_right = index_left;
+                let mut index_right = index_left + 1;
+                if current_leaves.len() <= index_right {
+                    current_leaves.push(Vec::new());
+                }
                 for s in r {
                     index_right = s.get_leaves_helper(current_leaves, index_left + 1);
                 }
-- 
2.43.0


From 1c720105d79db1fb7886005965dd44114d8b1145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:52 +0000
Subject: [PATCH 02/15] fix: inverse of an update sequence that sets a clock
 more than once was empty

---
 src/ModelObjects/transition.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ModelObjects/transition.rs b/src/ModelObjects/transition.rs
index ddd14b0..9982679 100644
--- a/src/ModelObjects/transition.rs
+++ b/src/ModelObjects/transition.rs
@@ -125,10 +125,9 @@ impl Transition {
     }
 
     pub fn inverse_apply_updates(&self, mut fed: OwnedFederation) -> OwnedFederation {
-        for update in &self.updates {
+        // The last update is undone first, such that clocks updated more than once are handled
+        for update in self.updates.iter().rev() {
             fed = update.apply_as_guard(fed);
-        }
-        for update in &self.updates {
             fed = update.apply_as_free(fed);
         }
 
-- 
2.43.0


From 4c31d8aa65d4713c45de796f2966326590aad95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 03/15] fix: quotient's extra input must be new to both sides

The name was only compared with the quotient's inputs, so an input of S
(which is an output of the quotient) could be chosen, e.g. in T // (A // B).
---
 src/TransitionSystems/quotient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TransitionSystems/quotient.rs b/src/TransitionSystems/quotient.rs
index e80cd49..1e0017e 100644
--- a/src/TransitionSystems/quotient.rs
+++ b/src/TransitionSystems/quotient.rs
@@ -58,7 +58,7 @@ impl Quotient {
         let mut i = 0;
         let new_input_name = loop {
             let test = format!("quotient_new_input{}", i);
-            if !inputs.contains(&test) {
+            if !T.actions_contain(&test) && !S.actions_contain(&test) {
                 break test;
             }
             i += 1;
-- 
2.43.0


From 25c3dd6d690590d19bc13880ffed40795e08087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:02 +0000
Subject: [PATCH 04/15] fix: judge a state of the full consistency check by its
 own zone

---
 src/System/local_consistency.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/System/local_consistency.rs b/src/System/local_consistency.rs
index 0cb42d7..526f93d 100644
--- a/src/System/local_consistency.rs
+++ b/src/System/local_consistency.rs
@@ -166,8 +166,7 @@ fn consistency_fully_helper(
     if output_existed {
         Ok(())
     } else {
-        let last_state = passed_list.last().unwrap();
-        match last_state.zone_ref().can_delay_indefinitely() {
+        match state.zone_ref().can_delay_indefinitely() {
             false => ConsistencyFailure::inconsistent_from(system, &state),
             true => Ok(()),
         }
-- 
2.43.0


From a1b3743cea8588a082530c4e09dd9417d31265f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 05/15] fix: forget the states of a failed branch in the
 consistency check

---
 src/System/local_consistency.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/System/local_consistency.rs b/src/System/local_consistency.rs
index 526f93d..64f228a 100644
--- a/src/System/local_consistency.rs
+++ b/src/System/local_consistency.rs
@@ -114,9 +114,12 @@ pub fn consistency_least_helper(
             let mut new_state = state.clone();
             if transition.use_transition(&mut new_state) {
                 new_state.extrapolate_max_bounds(system);
+                let passed = passed_list.len();
                 if let Ok(()) = consistency_least_helper(new_state, passed_list, system) {
                     return Ok(());
                 }
+                // States passed on the way to a failure are not known to be consistent
+                passed_list.truncate(passed);
             }
         }
     }
-- 
2.43.0


From 3418e8403607ae22a26fab46e7a1d5611ff81042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 06/15] fix: keep the clock bounds of special locations whose
 clocks are still looked at

---
 src/TransitionSystems/compiled_component.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TransitionSystems/compiled_component.rs b/src/TransitionSystems/compiled_component.rs
index 2bad9ee..8337472 100644
--- a/src/TransitionSystems/compiled_component.rs
+++ b/src/TransitionSystems/compiled_component.rs
@@ -113,7 +113,8 @@ impl CompiledComponent {
 
 impl TransitionSystem for CompiledComponent {
     fn get_local_max_bounds(&self, loc: &LocationTree) -> Bounds {
-        if loc.is_universal() || loc.is_inconsistent() {
+        // Clocks are irrelevant only where neither edges nor an invariant are looked at again
+        if loc.is_universal() && loc.get_invariants().is_none() {
             Bounds::new(self.get_dim())
         } else {
             self.comp_info.max_bounds.clone()
-- 
2.43.0


From d81791e041dd4b1fb3770bc94660ab304fca334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:56 +0000
Subject: [PATCH 07/15] fix: take clock bounds from resolved comparisons, so
 int variables and differences count

---
 src/EdgeEval/constraint_applyer.rs            |  2 +-
 .../Expressions/bool_expression.rs            | 33 +++++++++++--------
 src/ModelObjects/component.rs                 |  6 ++--
 3 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/EdgeEval/constraint_applyer.rs b/src/EdgeEval/constraint_applyer.rs
index c7a294e..1becebf 100644
--- a/src/EdgeEval/constraint_applyer.rs
+++ b/src/EdgeEval/constraint_applyer.rs
@@ -69,7 +69,7 @@ fn apply_constraints_to_state_helper(
 }
 
 /// Assumes that the constraint is of the form left <?= right
-fn get_indices(
+pub(crate) fn get_indices(
     left: &ArithExpression,
     right: &ArithExpression,
     d: &Declarations,
diff --git a/src/ModelObjects/Expressions/bool_expression.rs b/src/ModelObjects/Expressions/bool_expression.rs
index d02e9ea..570fd9d 100644
--- a/src/ModelObjects/Expressions/bool_expression.rs
+++ b/src/ModelObjects/Expressions/bool_expression.rs
@@ -8,6 +8,8 @@ use std::fmt::{Display, Formatter};
 use std::ops;
 
 use super::ArithExpression;
+use crate::EdgeEval::constraint_applyer::get_indices;
+use crate::ModelObjects::Declarations;
 
 #[derive(Debug, Clone, Deserialize, PartialEq, Eq)]
 pub enum BoolExpression {
@@ -214,19 +216,24 @@ impl BoolExpression {
         }
     }
 
-    pub fn get_max_constant(&self, clock: ClockIndex, clock_name: &str) -> i32 {
-        let mut new_constraint = 0;
-
-        self.iterate_constraints(&mut |left, right| {
-            //Start by matching left and right operands to get constant, this might fail if it does we skip constraint defaulting to 0
-            let constant = ArithExpression::get_constant(left, right, clock, clock_name);
-
-            if new_constraint < constant {
-                new_constraint = constant;
-            }
-        });
-
-        new_constraint
+    /// The largest constant (as an absolute value) that the expression compares `clock` with, directly or
+    /// in a difference with another clock. Comparisons are resolved as when they are applied to a state.
+    pub fn get_max_constant(&self, clock: ClockIndex, decls: &Declarations) -> i32 {
+        match self {
+            BoolExpression::AndOp(left, right) | BoolExpression::OrOp(left, right) => i32::max(
+                left.get_max_constant(clock, decls),
+                right.get_max_constant(clock, decls),
+            ),
+            BoolExpression::LessEQ(left, right)
+            | BoolExpression::GreatEQ(left, right)
+            | BoolExpression::LessT(left, right)
+            | BoolExpression::GreatT(left, right)
+            | BoolExpression::EQ(left, right) => match get_indices(left, right, decls) {
+                Ok((i, j, constant)) if i == clock || j == clock => constant.saturating_abs(),
+                _ => 0,
+            },
+            BoolExpression::Bool(_) => 0,
+        }
     }
 
     pub fn swap_var_name(&mut self, from_name: &str, to_name: &str) {
diff --git a/src/ModelObjects/component.rs b/src/ModelObjects/component.rs
index 2b8759a..30bb50b 100644
--- a/src/ModelObjects/component.rs
+++ b/src/ModelObjects/component.rs
@@ -75,18 +75,18 @@ impl Component {
 
     pub fn get_max_bounds(&self, dimensions: ClockIndex) -> Bounds {
         let mut max_bounds = Bounds::new(dimensions);
-        for (clock_name, clock_id) in &self.declarations.clocks {
+        for clock_id in self.declarations.clocks.values() {
             let max_bound = i32::max(
                 self.edges
                     .iter()
                     .filter_map(|e| e.guard.clone())
-                    .map(|g| g.get_max_constant(*clock_id, clock_name))
+                    .map(|g| g.get_max_constant(*clock_id, &self.declarations))
                     .max()
                     .unwrap_or_default(),
                 self.locations
                     .iter()
                     .filter_map(|l| l.invariant.clone())
-                    .map(|i| i.get_max_constant(*clock_id, clock_name))
+                    .map(|i| i.get_max_constant(*clock_id, &self.declarations))
                     .max()
                     .unwrap_or_default(),
             );
-- 
2.43.0


From f375d75e3b2cb84e160e533cfae6a29c52673587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 08/15] fix: prune query passes the dimension of the system,
 not its number of clocks

A system over dim clocks is compiled with dimension dim + 1; pruning it with
federations of dimension dim panics (or looks at the wrong clocks).
---
 src/System/extract_system_rep.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/System/extract_system_rep.rs b/src/System/extract_system_rep.rs
index 65619df..f9c40be 100644
--- a/src/System/extract_system_rep.rs
+++ b/src/System/extract_system_rep.rs
@@ -158,7 +158,7 @@ pub fn create_executable_query<'a>(
                 }
 
                 Ok(Box::new(GetComponentExecutor {
-                    system: pruning::prune_system(recipe.compile(dim)?, dim),
+                    system: pruning::prune_system(recipe.compile(dim)?, dim + 1),
                     comp_name: name.clone().unwrap_or("Unnamed".to_string()),
                     component_loader,
                 }))
-- 
2.43.0


From 3866bf3a4d532858553ae2a71e59a75d5a668c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:21 +0000
Subject: [PATCH 09/15] fix: clock reduction of a system without initial
 location no longer panics

---
 src/TransitionSystems/transition_system.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/TransitionSystems/transition_system.rs b/src/TransitionSystems/transition_system.rs
index 11b3ae6..ccd9ea7 100644
--- a/src/TransitionSystems/transition_system.rs
+++ b/src/TransitionSystems/transition_system.rs
@@ -171,7 +171,9 @@ pub trait TransitionSystem: DynClone {
     ///where nodes represents locations and Edges represent transitions
     fn get_analysis_graph(&self) -> ClockAnalysisGraph {
         let mut graph: ClockAnalysisGraph = ClockAnalysisGraph::from_dim(self.get_dim());
-        self.find_edges_and_nodes(self.get_initial_location().unwrap(), &mut graph);
+        if let Some(init_location) = self.get_initial_location() {
+            self.find_edges_and_nodes(init_location, &mut graph);
+        }
 
         graph
     }
-- 
2.43.0


From b991852e7d97c6fb4e2693b0aaf8029aa92725c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:21 +0000
Subject: [PATCH 10/15] fix: removing a clock no longer disables the guards and
 invariants that mention it

---
 .../Expressions/arith_expression.rs           | 35 ++++++++++++
 .../Expressions/bool_expression.rs            | 54 +++++++++++++++++++
 src/ModelObjects/component.rs                 | 16 +++---
 3 files changed, 96 insertions(+), 9 deletions(-)

diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index 242849c..d85a3d2 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -6,6 +6,8 @@ use serde::Deserialize;
 use std::collections::HashMap;
 use std::fmt::{Display, Formatter};
 
+use crate::ModelObjects::Declarations;
+
 #[derive(Debug, Clone, Deserialize, PartialEq, Eq)]
 pub enum ArithExpression {
     Difference(Box<ArithExpression>, Box<ArithExpression>),
@@ -404,6 +406,39 @@ impl ArithExpression {
         }
     }
 
+    /// The value of the expression where the clock `name` is zero.
+    /// The int variables of `decls` are replaced by their values, so that an expression over no other clock becomes an `ArithExpression::Int`
+    pub fn with_clock_zero(&self, name: &String, decls: &Declarations) -> ArithExpression {
+        match self {
+            ArithExpression::Difference(l, r) => ArithExpression::ADif(
+                l.with_clock_zero(name, decls),
+                r.with_clock_zero(name, decls),
+            ),
+            ArithExpression::Addition(l, r) => ArithExpression::AAdd(
+                l.with_clock_zero(name, decls),
+                r.with_clock_zero(name, decls),
+            ),
+            ArithExpression::Multiplication(l, r) => ArithExpression::AMul(
+                l.with_clock_zero(name, decls),
+                r.with_clock_zero(name, decls),
+            ),
+            ArithExpression::Division(l, r) => ArithExpression::ADiv(
+                l.with_clock_zero(name, decls),
+                r.with_clock_zero(name, decls),
+            ),
+            ArithExpression::Modulo(l, r) => ArithExpression::AMod(
+                l.with_clock_zero(name, decls),
+                r.with_clock_zero(name, decls),
+            ),
+            ArithExpression::VarName(n) if n == name => ArithExpression::Int(0),
+            ArithExpression::VarName(n) => match decls.ints.get(n) {
+                Some(value) if !decls.clocks.contains_key(n) => ArithExpression::Int(*value),
+                _ => self.clone(),
+            },
+            ArithExpression::Clock(_) | ArithExpression::Int(_) => self.clone(),
+        }
+    }
+
     /// Replaces all occurrences of `ArithExpression::VarName(old)` with `new`
 
     /// # Arguments
diff --git a/src/ModelObjects/Expressions/bool_expression.rs b/src/ModelObjects/Expressions/bool_expression.rs
index 570fd9d..18f3774 100644
--- a/src/ModelObjects/Expressions/bool_expression.rs
+++ b/src/ModelObjects/Expressions/bool_expression.rs
@@ -417,6 +417,60 @@ impl BoolExpression {
         }
     }
 
+    /// The part of the expression where the clock `name` is zero.
+    /// For an expression that does not depend on the clock this is the expression itself without the clock
+    pub fn with_clock_zero(&self, name: &String, decls: &Declarations) -> BoolExpression {
+        if !self.has_varname(name) {
+            return self.clone();
+        }
+        match self {
+            BoolExpression::AndOp(e1, e2) => BoolExpression::AndOp(
+                Box::new(e1.with_clock_zero(name, decls)),
+                Box::new(e2.with_clock_zero(name, decls)),
+            ),
+            BoolExpression::OrOp(e1, e2) => BoolExpression::OrOp(
+                Box::new(e1.with_clock_zero(name, decls)),
+                Box::new(e2.with_clock_zero(name, decls)),
+            ),
+            BoolExpression::LessEQ(a1, a2) => match (
+                a1.with_clock_zero(name, decls),
+                a2.with_clock_zero(name, decls),
+            ) {
+                (ArithExpression::Int(x), ArithExpression::Int(y)) => BoolExpression::Bool(x <= y),
+                (l, r) => BoolExpression::BLessEQ(l, r),
+            },
+            BoolExpression::GreatEQ(a1, a2) => match (
+                a1.with_clock_zero(name, decls),
+                a2.with_clock_zero(name, decls),
+            ) {
+                (ArithExpression::Int(x), ArithExpression::Int(y)) => BoolExpression::Bool(x >= y),
+                (l, r) => BoolExpression::BGreatEQ(l, r),
+            },
+            BoolExpression::LessT(a1, a2) => match (
+                a1.with_clock_zero(name, decls),
+                a2.with_clock_zero(name, decls),
+            ) {
+                (ArithExpression::Int(x), ArithExpression::Int(y)) => BoolExpression::Bool(x < y),
+                (l, r) => BoolExpression::BLessT(l, r),
+            },
+            BoolExpression::GreatT(a1, a2) => match (
+                a1.with_clock_zero(name, decls),
+                a2.with_clock_zero(name, decls),
+            ) {
+                (ArithExpression::Int(x), ArithExpression::Int(y)) => BoolExpression::Bool(x > y),
+                (l, r) => BoolExpression::BGreatT(l, r),
+            },
+            BoolExpression::EQ(a1, a2) => match (
+                a1.with_clock_zero(name, decls),
+                a2.with_clock_zero(name, decls),
+            ) {
+                (ArithExpression::Int(x), ArithExpression::Int(y)) => BoolExpression::Bool(x == y),
+                (l, r) => BoolExpression::BEQ(l, r),
+            },
+            BoolExpression::Bool(val) => BoolExpression::Bool(*val),
+        }
+    }
+
     /// Replaces all occurrences of `ArithExpression::VarName(old)` with `new`
 
     /// # Arguments
diff --git a/src/ModelObjects/component.rs b/src/ModelObjects/component.rs
index 30bb50b..f126cdc 100644
--- a/src/ModelObjects/component.rs
+++ b/src/ModelObjects/component.rs
@@ -3,7 +3,6 @@ use crate::DataReader::serialization::{decode_declarations, DummyComponent};
 use edbm::util::bounds::Bounds;
 use edbm::util::constraints::ClockIndex;
 
-use crate::ModelObjects::Expressions::BoolExpression;
 use crate::ModelObjects::{Edge, Location, SyncType};
 use itertools::Itertools;
 use log::info;
@@ -118,17 +117,18 @@ impl Component {
             .expect("Couldn't find clock with index")
             .to_owned();
         self.declarations.clocks.remove(&name);
+        let decls = &self.declarations;
 
         // Removes from from updates and guards
         self.edges
             .iter_mut()
             .filter(|e| e.update.is_some() || e.guard.is_some())
             .for_each(|e| {
-                // The guard is overwritten to `false`. This can be done since we assume
-                // that all edges with guards involving the given clock is not reachable
-                // in some composite system.
+                // The guard is taken where the clock is zero. This can be done since no guard
+                // that is reachable in the composite system depends on the clock, although the
+                // clock may be mentioned in it (e.g. in a comparison that always holds).
                 if let Some(guard) = e.guard.as_mut().filter(|g| g.has_varname(&name)) {
-                    *guard = BoolExpression::Bool(false);
+                    *guard = guard.with_clock_zero(&name, decls);
                 }
                 if let Some(inv) = e.update.as_mut() {
                     inv.retain(|u| u.variable != name);
@@ -136,14 +136,12 @@ impl Component {
             });
 
         // Removes from from location invariants
-        // The invariants containing the clock are overwritten to `false`.
-        // This can be done since we assume that all locations with invariants involving
-        // the given clock is not reachable in some composite system.
+        // The invariants containing the clock are taken where the clock is zero, as the guards.
         self.locations
             .iter_mut()
             .filter_map(|l| l.invariant.as_mut())
             .filter(|i| i.has_varname(&name))
-            .for_each(|i| *i = BoolExpression::Bool(false));
+            .for_each(|i| *i = i.with_clock_zero(&name, decls));
 
         info!(
             "Removed Clock '{name}' (index {index}) has been removed from component {}",
-- 
2.43.0


From 6458dceb2ac2cd2c8f424e6da3aeec21d6a5e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:57 +0000
Subject: [PATCH 11/15] fix: input enabling undoes the updates of an edge in
 reverse order

An edge that sets one clock twice leaves the clock at the last value. The
updates were undone first to last, so the edge could be found impossible
to take and a spurious loop was added next to it.
---
 src/System/input_enabler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/System/input_enabler.rs b/src/System/input_enabler.rs
index c5ddd44..e05b5f1 100644
--- a/src/System/input_enabler.rs
+++ b/src/System/input_enabler.rs
@@ -50,7 +50,7 @@ pub fn make_input_enabled(component: &mut Component, inputs: &[String]) {
                 }
 
                 if let Some(updates) = &edge.update {
-                    for update in updates {
+                    for update in updates.iter().rev() {
                         let cu = update.compiled(component.get_declarations());
                         guard_zone = cu.apply_as_guard(guard_zone);
                         guard_zone = cu.apply_as_free(guard_zone);
-- 
2.43.0


From 4d0b134cd35c9ecf59c2c99dba525ec8d7924fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:07 +0000
Subject: [PATCH 12/15] fix: a renamed clock of a saved component no longer
 takes the name of another clock

---
 src/System/save_component.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/System/save_component.rs b/src/System/save_component.rs
index 2817ac0..a57d3f2 100644
--- a/src/System/save_component.rs
+++ b/src/System/save_component.rs
@@ -79,11 +79,15 @@ pub fn get_clock_map(sysrep: &TransitionSystemPtr) -> HashMap<String, ClockIndex
     }
     for (comp_id, decl) in decls.into_iter().enumerate() {
         for (k, v) in &decl.clocks {
-            if clocks.contains_key(k) {
-                clocks.insert(format!("{}{}", k, comp_id), *v);
-            } else {
-                clocks.insert(k.clone(), *v);
+            let mut name = k.clone();
+            if clocks.contains_key(&name) {
+                name = format!("{}{}", k, comp_id);
+            }
+            // The new name may be taken by another clock
+            while clocks.contains_key(&name) {
+                name = format!("{}_", name);
             }
+            clocks.insert(name, *v);
         }
     }
 
-- 
2.43.0


From 805742282e1ea7b1359789b0912f679f22855e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:53 +0000
Subject: [PATCH 13/15] fix: a state of a query naming a component outside the
 system is refused

---
 src/System/extract_state.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/System/extract_state.rs b/src/System/extract_state.rs
index 3de219f..7472054 100644
--- a/src/System/extract_state.rs
+++ b/src/System/extract_state.rs
@@ -50,6 +50,18 @@ pub fn get_state(
         ));
     }
 
+    // Check that every location is of a component of the system
+    if let Some(loc) = locations.iter().find(|loc| {
+        !components
+            .iter()
+            .any(|c| c.name == loc.component && c.special_id == loc.special_id)
+    }) {
+        return Err(format!(
+            "Component of location {} not found in the system",
+            loc
+        ));
+    }
+
     let loc_tree = construct_location_tree(&locations, recipe, system)?;
 
     let zone =
-- 
2.43.0


From 0afcf1af78764d11f716c79e5fc9413ca31c73cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:53 +0000
Subject: [PATCH 14/15] fix: a disjunction of clock constraints in a state of a
 query is accepted

---
 src/System/extract_state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/System/extract_state.rs b/src/System/extract_state.rs
index 7472054..2821583 100644
--- a/src/System/extract_state.rs
+++ b/src/System/extract_state.rs
@@ -86,9 +86,9 @@ fn get_locations(expr: &StateExpression) -> Result<Vec<ComponentVariable>, Strin
             for expr in exprs {
                 res.append(&mut get_locations(expr)?);
             }
-            if res.len() != 1 {
+            if !res.is_empty() {
                 return Err(format!(
-                    "We do not support disjunctions with more than one location: {:?}",
+                    "We do not support disjunctions of locations: {:?}",
                     expr
                 ));
             }
-- 
2.43.0


From ce8458cd1f7168a0d0612d186f226bce267ab67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:53 +0000
Subject: [PATCH 15/15] fix: a negation in a state of a query is an error and
 no panic

---
 src/ModelObjects/Expressions/state_expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ModelObjects/Expressions/state_expression.rs b/src/ModelObjects/Expressions/state_expression.rs
index 4d3bbf4..298272a 100644
--- a/src/ModelObjects/Expressions/state_expression.rs
+++ b/src/ModelObjects/Expressions/state_expression.rs
@@ -142,7 +142,7 @@ impl StateExpression {
                 }))
             }
             StateExpression::NOT(_expr) => {
-                unimplemented!("NOT expressions are not supported yet")
+                Err("NOT expressions are not supported yet".to_string())
             }
             StateExpression::Location(_) => {
                 // Locations here should just be ignored
-- 
2.43.0

