from addprop import add
X="src/TransitionSystems/compiled_component.rs"; C="src/ModelObjects/component.rs"; T="src/ModelObjects/transition.rs"; L="src/TransitionSystems/location_tree.rs"
K="src/TransitionSystems/composition.rs"; J="src/TransitionSystems/conjunction.rs"; O="src/TransitionSystems/common.rs"; R="src/TransitionSystems/transition_system.rs"
add("C06","A compiled component offers exactly the behaviour its edges describe",
 "Compiling a component gives a transition system whose input alphabet is the set of actions of its input edges and whose output alphabet is the set of actions of its output edges, leaving out the wildcard '*'; compiling fails exactly when an action would be both. Its locations are exactly the component's locations with their types and invariants, and its initial location is one marked initial, if there is any. At a location, an action of the alphabet gives one transition per edge that leaves that location on that action, in the order in which the edges are listed, each carrying the edge's id, guard, updates (in order) and target location; an action outside the alphabet gives none. A universal location allows every action, and an inconsistent location every input action, by a single unguarded self-loop without updates. The initial state is the initial location with all clocks equal and its invariant applied.",
 ["inputs"],"all components whose edges connect declared, distinctly named locations and use declared clocks; all locations and actions",
 "Sample projects contain a handful of components; dropping, duplicating, reordering or mislabelling an edge shows only for particular combinations of edges at a location.",
 [X,C,T,L],[("CompiledComponent::compile_with_actions",X),("CompiledComponent::next_transitions",X),("Component::get_input_actions",C),("Transition::from_component_and_edge",T)],
 ["next_transitions","get_input_actions","get_output_actions","get_initial_state"])
add("C07","Parallel composition synchronises shared actions and interleaves the others",
 "The parallel composition of two systems exists exactly when their output alphabets are disjoint. Its outputs are the outputs of either side, its inputs the inputs of either side that are not outputs of the other. On an action that both sides have, it offers exactly one transition for each pair of a left and a right transition; on an action of one side only, that side moves and the other stays where it is, without guard or update. A combined transition has the intersection of the guards, the left updates followed by the right updates, and the composed target location, whose invariant is the intersection of the invariants. Its locations are all pairs of locations, its initial location the pair of initial locations, and its initial state holds the valuations with all clocks equal that satisfy both invariants.",
 ["inputs"],"all pairs of systems over the same clocks, every location pair and action",
 "The tests compose a few sample models and check refinement verdicts; a slip in the alphabet rules or in which side stays idle shows only for particular overlaps of the two alphabets.",
 [K,O,L,T,R],[("Composition::new_ts",K),("Composition::next_transitions",K),("get_initial_state",O),("get_all_locations",O),("Transition::combinations",T)],
 ["Composition::new_ts","next_transitions","get_actions","get_initial_state"])
add("C08","Conjunction allows exactly what both sides allow",
 "The conjunction of two systems has as inputs the common inputs and as outputs the common outputs; it is only built when no action is an input of one side and an output of the other and the result is consistent. On a common action it offers exactly one transition for each pair of a left and a right transition, with the intersection of their guards, the left updates followed by the right ones, and the composed target location, whose invariant is the intersection of both invariants; on any other action it offers none. Its locations are all pairs of locations, its initial location the pair of initial locations, and its initial state holds the valuations with all clocks equal that satisfy both invariants.",
 ["inputs"],"all pairs of systems over the same clocks, every location pair and action",
 "Conjunction appears in a few sample queries; a transition that escapes one side's guard or invariant is observable only in particular states.",
 [J,O,L,T,R],[("Conjunction::new_ts",J),("Conjunction::next_transitions",J),("get_initial_state",O),("get_all_locations",O),("LocationTree::compose",L)],
 ["Conjunction::new_ts","next_transitions","get_actions","get_initial_state"])
