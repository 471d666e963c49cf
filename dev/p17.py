from addprop import add
N="src/System/input_enabler.rs"; B="src/ModelObjects/Expressions/bool_expression.rs"; L="src/DataReader/component_loader.rs"
add("C17","Loaded components accept every input and zones are written as guards exactly",
 "Loading components keeps, for each name, the last component of that name, with its locations, declarations and edges as they were and in their order, and adds only input edges that lead from a location back to it and change no clock. For every location, every input action of the component and every clock valuation that the location's invariant allows: if one of the component's own input edges (of that action, or labelled *) can be taken there, which means that its guard holds and the target's invariant holds after its updates in their order, then no added edge of that action can be taken; otherwise exactly such a loop can be taken. So a loaded component accepts each of its inputs at every moment. A zone (a disjunction of conjunctions of clock constraints) that is written as a guard over named clocks holds of exactly the valuations of the zone, and is left out only if the zone is everything.",
 ["inputs"],"every component whose guards, invariants and updates are of the readable form (C03, C04), with clocks numbered from 1 and location names that are unique; every zone over named clocks",
 "Which valuations are uncovered depends on the interplay of all guards, target invariants and updates at a location; examples have few edges with one clock each.",
 [N,B,L],[("make_input_enabled",N),("BoolExpression::from_disjunction",B),("BoolExpression::from_conjunction",B),("BoolExpression::from_constraint",B),("ComponentContainer::from",L)],
 ["make_input_enabled","ComponentContainer::from","BoolExpression::from_disjunction"])
