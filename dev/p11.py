from addprop import add
F="src/TransitionSystems/quotient.rs"; L="src/TransitionSystems/location_tree.rs"
add("C11","The quotient offers exactly the transitions of the quotient rules",
 "Quotient::new_ts(T, S) succeeds exactly when S's outputs and T's inputs are disjoint and both sides are deterministic and locally consistent. Then its inputs are T's inputs, S's outputs and one extra input known to neither side; its outputs are T's outputs that S does not have as outputs and S's inputs that T does not have as inputs; no action is both. From a location (lt, ls), for every action, next_transitions gives, up to order, for every rule instance that is enabled somewhere one transition with the rule's guard (as a set of clock valuations), updates, target and id, and nothing else, where 'may take' means guard, invariant of the source and invariant of the target after the updates: both sides may take a shared action; S alone an action T does not know, T alone an action S does not know (while S's invariant holds); to the universal location where S's invariant fails, or the action is an output of S that no transition of S may take; to the inconsistent location, resetting the quotient's clock, where S may take an action that is an output of both sides and T may not, and on the extra input where T's invariant fails and S's holds. The universal location has one unconstrained self-loop per action; the inconsistent location has invariant and input self-loops 'quotient clock = 0' and no outputs. The initial location is the pair of initial locations (none if a side has none) with the initial zone of all equal clocks; the locations are all pairs and the two special ones; determinism and consistency of the quotient are those of both sides.",
 ["inputs"],"every pair of transition systems, every location and action",
 "Quotients are computed from guards and invariants of both sides; the existing tests only ask whether a few fixed quotients refine fixed models.",
 [F,L],[("Quotient::new_ts",F),("Quotient::next_transitions",F),("get_allowed_fed",F),("get_invariant",F),("Quotient::get_all_locations",F),("LocationTree::merge_as_quotient",L),("LocationTree::error",L)],
 ["next_transitions","new_ts"])
