from addprop import add
F="src/System/refine.rs"; P="src/ModelObjects/statepair.rs"
add("C10","A refinement answer is backed by a simulation or by a reachable mismatch",
 "check_refinement(S, T) over one clock space answers yes only if the preconditions hold (S and T deterministic and locally consistent, S's inputs among T's inputs, T's outputs among S's outputs, no input of one side an output of the other) and either both systems have no initial location, or there is a set of symbolic state pairs (location of S, location of T, zone) that is a simulation: it contains the start pair (both initial locations, all clocks equal, both invariants satisfied, widened only by the declared bounds), and at every pair, for every output of S and every input of T, if the challenging side (S for outputs, T for inputs) can take a transition on the action from some valuation of the zone, then the other side can take one from every valuation of the zone from which the challenger can (a system that does not know the action stays put), and for every pair of such transitions the pair reached by taking both, letting time pass and keeping both invariants is contained in the union of the related zones at the target locations, and no delay that S's invariant allows there is cut off by T's invariant. It answers 'cannot match' only if such a reachable pair and action exist where the challenger can move and the other side cannot, 'cuts delays' only if T's invariant cuts off a delay of S after a joint move, in both cases naming that action; any other failure only if a precondition fails, exactly one initial location is missing, or no valuation satisfies both initial invariants. A delay in the start pair itself that S allows and T forbids is not examined.",
 ["inputs","histories"],"every pair of transition systems over one clock space, every exploration order; termination is not claimed",
 "Refinement is the central question of the tool; a wrong yes or no depends on zone arithmetic along whole paths of two systems, and the existing refinement tests compare a few fixed models with fixed answers.",
 [F,P],[("check_refinement",F),("has_valid_state_pairs",F),("build_state_pair",F),("check_preconditions",F),("prepare_init_state",F),("StatePair::extrapolate_max_bounds",P)],
 ["check_refinement"])
