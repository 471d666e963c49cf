from addprop import add
N="src/System/extract_system_rep.rs"; Y="src/System/executable_query.rs"; C="src/ModelObjects/component.rs"; R="src/TransitionSystems/transition_system.rs"; I="src/TransitionSystems/location_id.rs"
add("C15","A query is answered on the system it names",
 "The system built for a query has the shape of the expression in the query: the same operators in the same places, and at each leaf the component of that name with the id given there, its locations and edges unchanged. No two clocks of it share an index - neither clocks of two components (also when one component occurs twice, also across the two sides of a refinement) nor a component's clock and the clock of the quotients - and every index lies within the dimension that the system is built with. A query is executed as what it asks: refinement of the left by the right side, both built over the same dimension; reachability from the named start state (the initial state if none is named; a start with an unspecified location is refused) to the named end state; consistency (determinism and local consistency), determinism; and a saved or pruned component of that system under the given name, with pruning in the system's own dimension. Without clock reduction a query is refused only if an operator refuses its operands or a named state does not exist.",
 ["inputs"],"every query, expression and component library whose components number their clocks 1..n; the operators' constructors, the algorithms executed, clock reduction and pruning are taken as given (other properties)",
 "A clock shared by two components shows only where both read it at different values; examples use few clocks and few nestings.",
 [N,Y,C,R,I],[("get_system_recipe",N),("SystemRecipe::compile",N),("SystemRecipe::change_quotient",N),("SystemRecipe::get_components",N),("create_executable_query",N),("RefinementExecutor",Y),("GetComponentExecutor",Y),("Component::set_clock_indices",C),("TransitionSystem::precheck_sys_rep",R)],
 ["create_executable_query","ExecutableQuery::execute"])
