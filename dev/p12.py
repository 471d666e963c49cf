from addprop import add
F="src/System/local_consistency.rs"; S="src/ModelObjects/state.rs"
add("C12","Consistency and determinism answers are backed by a closed set or a path",
 "check_determinism(T) answers yes only if T has no initial state, or there is a set of symbolic states (location, zone) that contains the initial location with every clock valuation and in which, at every state and for every action, no valuation satisfies guard, source invariant and target invariant (after the updates) of two different transitions that can be taken from the zone, and every state reached by such a transition (guard, updates, delay, target invariant, widened only by the declared bounds) is contained in a state of the set at that location; it answers no only if a state with two such overlapping transitions is reached by a chain of these steps, and names the action. is_least_consistent(T) (with pruning) answers yes only if T has an initial state that is universal or contained in a set of symbolic states none of which is at an inconsistent location, in which every state reached by an input is universal or contained in the set, and from each of which time may pass forever or some output leads to a universal state or into the set; it answers no only if T has no initial state, or an inconsistent location cannot be avoided: from the initial state some chain of inputs and of choices among all possible outputs (at states where time cannot pass forever) always ends in one or in a state without outputs. is_fully_consistent(T) (without pruning) answers yes only if T has an initial state contained in a set of symbolic states closed under all transitions, from each of which time may pass forever or some output leads to a state not contained in it; it answers no only if T has no initial state or a state that fulfils neither is reached.",
 ["inputs","histories"],"every transition system, every exploration order; termination is not claimed",
 "Every query on a model starts with these two checks; whether they are right depends on the whole reachable zone graph, on loops and on backtracking, of which the existing tests sample a few fixed models.",
 [F,S],[("is_deterministic_helper",F),("check_determinism",F),("consistency_least_helper",F),("consistency_fully_helper",F),("State::is_subset_of",S),("State::is_contained_in_list",S)],
 ["check_determinism","is_least_consistent","is_fully_consistent"])
