from addprop import add
F="src/System/reachability.rs"; S="src/ModelObjects/state.rs"; D="src/Simulation/decision.rs"; L="src/TransitionSystems/location_tree.rs"
add("C13","Reachability answers and paths are those of the system's runs",
 "find_path(start, goal, T) answers unreachable only if no run of T that begins in the start state (its zone cut by the invariant of its location, no time passing before the first transition) and takes transitions (guard, updates, delay, target invariant) reaches a location described by the goal with a clock valuation in the goal's zone; a location is described by the goal if it has the same operators and every component is at the named location or left open. Where it answers with a path, the path is a chain of decisions: the first one starts in the start state, each decision names a transition of T for its action at the current location, its state is the reached zone cut by the valuations from which that transition can be taken, its next state is what taking it leads to (which is not empty), and the last location is described by the goal. The decisions offered at a state are exactly those of T's transitions that can be taken from some valuation of the state's zone, each with the state cut to those valuations.",
 ["inputs","histories"],"every transition system, start state and goal, every exploration order; termination is not claimed; that the final zone of a path meets the goal's zone rests on extrapolation being exact and is only searched for counterexamples (bounded)",
 "Whether a state can be reached depends on every interleaving and delay; the search prunes visited zones and widens zones, and a single wrong pruning hides a run that fixed models do not contain.",
 [F,D,S,L],[("find_path",F),("reachability_search",F),("take_transition",F),("make_path",F),("is_trivially_unreachable",F),("reached_end_state",F),("zone_subset_of_existing_zones",F),("Decision::from_state_transition",D),("Decision::get_decisions_from_state",D),("Decision::resolve",D),("LocationTree::compare_partial_locations",L),("State::extrapolate_max_bounds_with_extra_bounds",S)],
 ["find_path","Decision::get_initial_decisions","Decision::get_decisions_from_state","Decision::resolve"])
