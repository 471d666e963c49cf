from addprop import add
T="src/ModelObjects/transition.rs"; S="src/ModelObjects/state.rs"; L="src/TransitionSystems/location_tree.rs"; U="src/EdgeEval/updater.rs"
add("C04","Taking a transition yields exactly the successor states",
 "Taking a transition in a symbolic state succeeds exactly when some valuation of the state's zone satisfies the transition's guard and, after the transition's clock updates are performed in order and some delay has passed, lies in the target location's invariant. The new state is then at the target location and its zone is exactly the set of all valuations reached that way: guard, then updates in order, then any non-negative delay, then the target invariant. The state a location starts in holds exactly the valuations with all clocks equal that satisfy its invariant, and exists exactly when there is one; applying a location's invariant keeps exactly the valuations that satisfy it.",
 ["inputs"],"all transitions, all zones of any dimension, all real valuations; updates assign non-negative constants to clocks of the system",
 "Sample models visit a few zones; an error in the order of guard, updates, delay and invariant, or for one particular shape of update, shows only on particular zones and as a wrong verdict far away.",
 [T,S,L,U],[("Transition::use_transition",T),("CompiledUpdate::apply",U),("LocationTree::apply_invariants",L),("State::from_location",S)],
 ["use_transition","use_transition_alt","State::from_location"])
add("C05","The states from which a transition may be taken are computed exactly",
 "The federation of states allowed to take a transition consists of exactly the valuations that satisfy its guard and whose image under the transition's clock updates, performed in order, satisfies the invariant of the target location. Undoing the updates on any zone yields exactly the valuations whose image under the updates lies in that zone, also when a clock is assigned more than once.",
 ["inputs"],"all transitions and zones as in C04",
 "Input-enabling, pruning and quotient construction rest on this set; the tests only see final verdicts of sample models in which few updates interact with target invariants.",
 [T,U,L],[("Transition::get_allowed_federation",T),("Transition::inverse_apply_updates",T)],["get_allowed_federation","inverse_apply_updates"])
