from addprop import add
add("C03", "A guard or invariant restricts a zone to exactly the valuations satisfying it",
 "Applying a guard or invariant to a zone yields exactly the clock valuations of that zone that satisfy the expression, read with ordinary real arithmetic: comparisons (<=, >=, <, >, ==, in either orientation) of constants, clocks, and sums or differences of two of these, combined with and/or, with names resolved to clocks first and integers second. It succeeds whenever every comparison has the form of a bound on one clock or on a difference of two clocks; a comparison that cannot be expressed that way is refused rather than misread.",
 ["inputs"], "all expressions of that shape with constants below 2^29 in magnitude, all declarations, all zones of any dimension, all real valuations; sides in which a clock stands below more than one operator are covered only by the recorded finding",
 "The unit tests check the index triple for about ten fixed comparisons; orientation, strictness, folding of constants, and/or structure and the actual zone are only seen through a few sample models.",
 ["src/EdgeEval/constraint_applyer.rs", "src/ModelObjects/Expressions/arith_expression.rs", "src/ModelObjects/Expressions/bool_expression.rs"],
 [("apply_constraints_to_state: recursive interpretation of the expression", "src/EdgeEval/constraint_applyer.rs"), ("get_indices: clock pair and bound of a comparison", "src/EdgeEval/constraint_applyer.rs"), ("ArithExpression::simplify and the folding constructors", "src/ModelObjects/Expressions/arith_expression.rs")],
 ["apply_constraints_to_state"])
