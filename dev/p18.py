from addprop import add
V="src/System/save_component.rs"; T="src/ModelObjects/transition.rs"; U="src/EdgeEval/updater.rs"; Z="src/TransitionSystems/location_tree.rs"
add("C18","A system saved as a component does what the system does, and nothing else",
 "Combining a system (a component, composition, conjunction or quotient) into one component keeps, with no pruning, all of its locations in their order, and otherwise exactly those that have a path of transitions (input or output, whatever the clocks) from its initial location, each once; no integer variables; and for every clock of the system's components at least one name, every name meaning a clock of these. A saved location goes by the text of its id, is initial exactly if the system's location is and normal otherwise, and has an invariant that holds of exactly the same clock valuations. For every kept location, action and direction, each transition of the system that some valuation allows has an edge with the text of its id, from the location to its target, on that action and in that direction, with a guard that holds of exactly the valuations its guard zone contains and with its updates in their order, by the names of their clocks; and every edge of the saved component is the edge of such a transition.",
 ["systems"],"every system whose clocks are all declared by some component below it, however the clocks are named; every such saved request, pruned to reachable locations or not",
 "Whether something is lost depends on the order of transitions and on which names and locations coincide; the tests save a handful of fixed models and compare refinement verdicts only.",
 [V,T,U,Z],[("combine_components",V),("collect_reachable_locations",V),("collect_specific_edges_from_location",V),("get_clock_map",V),("get_locations_from_trees",V),("Transition::get_renamed_guard_expression",T),("CompiledUpdate::as_update",U)],
 ["combine_components","Transition::get_renamed_updates"])
