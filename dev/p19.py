from addprop import add
S="src/System/extract_state.rs"; X="src/ModelObjects/Expressions/state_expression.rs"; Z="src/TransitionSystems/location_tree.rs"
add("C19","A description of a state means the locations and clock values it says",
 "The start and the goal of a reachability query are read so: every component (by name and id) that the description names a location of is there, with exactly that location of the component, every other component is at any location, and the locations are arranged like the system (composition, conjunction, quotient). The zone holds exactly those clock valuations of the system that satisfy the description, where a location counts as true, a clock is that of the first component of the given name and id, and conjunctions, disjunctions, sums, differences and comparisons mean the usual. A description is refused, and never taken for something else, exactly if two different components of the system share name and id, it has a disjunction that mentions a location or any negation, it gives two different locations for one component, or it mentions a component, a location or a clock that the system does not have, or compares something that is not a difference of at most two clocks with a constant.",
 ["systems","queries"],"every description the query language can express, every system built from components by composition, conjunction and quotient",
 "Misreading shows only where names, ids and the shape of the description interact (two instances of one component, a disjunction of three, a mistyped component); the tests read a few descriptions of one component and look only at whether they are accepted.",
 [S,X,Z],[("get_state",S),("get_locations",S),("create_zone_given_constraints",S),("construct_location_tree",S),("OperandExpression::to_arith_expression",X),("StateExpression::to_bool_expression",X),("build_any_location_tree",Z)],
 ["get_state","construct_location_tree"])
