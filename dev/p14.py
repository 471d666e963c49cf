from addprop import add
B="src/ModelObjects/Expressions/bool_expression.rs"; C="src/ModelObjects/component.rs"; X="src/TransitionSystems/compiled_component.rs"; O="src/TransitionSystems/common.rs"; Q="src/TransitionSystems/quotient.rs"; G="src/EdgeEval/constraint_applyer.rs"
add("C14","Extrapolation bounds keep every constant that guards and invariants look at",
 "The bounds that a component computes for its clocks are at least the absolute value of every constant that one of its guards or invariants compares the clock with, from below and from above, however the comparison is written (sides swapped, int variables, sums and differences of constants, differences of two clocks, nested and/or). A compiled component reports these bounds at each of its locations (a universal location without an invariant, where no clock is looked at, may report none); a composition, conjunction or quotient reports at a location at least what both of its sides report there, and a quotient also keeps the comparison of its own clock with 0. So two valuations that agree on all constants within the bounds satisfy the same guards and invariants on single clocks, and extrapolating a zone with the bounds enables nothing that was not enabled.",
 ["inputs"],"every component (any number of locations, edges, clocks, any guard and invariant whose comparisons have at most two clocks and constants below 2^29), every system built from components, every location of it; that EDBM's extrapolation preserves the constants within its bounds is assumed",
 "A constant missing from the bounds only shows when a zone grows past it and a later guard, possibly of another component, tells the values apart; examples rarely do both.",
 [B,C,X,O,Q,G],[("BoolExpression::get_max_constant",B),("Component::get_max_bounds",C),("get_indices",G),("CompiledComponent::compile_with_actions",X),("CompiledComponent::get_local_max_bounds",X),("ComposedTransitionSystem::get_local_max_bounds",O),("Quotient::get_local_max_bounds",Q)],
 ["Component::get_max_bounds","TransitionSystem::get_local_max_bounds"])
