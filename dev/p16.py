from addprop import add
R="src/TransitionSystems/transition_system.rs"; C="src/ModelObjects/component.rs"; N="src/System/extract_system_rep.rs"; A="src/ModelObjects/Expressions/arith_expression.rs"; B="src/ModelObjects/Expressions/bool_expression.rs"
add("C16","Clock reduction drops only idle clocks and merges only equal ones",
 "A clock is removed only if no guard and no invariant of a location or transition that the system can get to (following transitions, whatever the clocks are) depends on its value, and every such clock is found; clocks are merged into one only if on every such transition the last update of each sets all of them to the same value or none of them is set, so that they are equal in every run; no clock is both removed and merged, or merged twice, and clock 0 never takes part. Removing a clock leaves each guard and invariant of its component with the meaning it has where that clock is zero (so a comparison that mentions the clock without depending on it stays as it was), drops exactly the updates of that clock, and changes nothing else; merging gives exactly the named clocks the common index. With clock reduction enabled a refinement query is answered as with it disabled, a consistent or deterministic system is still called so, and no query panics that does not without it.",
 ["inputs"],"every system whose guards are Boolean combinations of comparisons of constants, clocks and sums or differences of two of these; the renumbering of the remaining clocks and the agreement of the final query answers are checked by bounded search",
 "A clock wrongly removed or merged changes an answer only where the model gets to a state in which its value matters; examples rarely have such clocks at all.",
 [R,C,N,A,B],[("find_edges_and_nodes",R),("ClockAnalysisGraph::find_used_clocks",R),("ClockAnalysisGraph::find_equivalent_clock_groups",R),("ClockAnalysisGraph::find_clock_redundancies",R),("Component::remove_clock",C),("Component::replace_clock",C),("with_clock_zero",B),("clock_reduction::clock_reduce",N)],
 ["TransitionSystem::find_redundant_clocks","clock_reduction::clock_reduce","create_executable_query"])
