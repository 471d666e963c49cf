"""property -> units, functions carrying it, replay harness"""
PROPS = {
    "C01": dict(units={"transition_id": ["get_leaves", "get_leaves_helper", "lemma_*"]},
                replay=("single", "transition_id", "leaves"),
                note="Proved by Verus for every id whose quotient alternatives agree on the number of components and that has fewer than 2^64 components."),
    "C02": dict(units={"transition_id": ["split_into_component_lists", "get_leaves", "get_leaves_helper", "lemma_*"]},
                replay=("single", "transition_id", "split"),
                note="Proved by Verus for every path of ids as in C01; text of the error message not specified."),
    "C03": dict(units={"guard": "*"}, replay=("shadow", "c03", 20000),
                note="Proved by Verus over an abstract set-of-real-valuations meaning of EDBM federations (their operations are assumed contracts)."),
    "C04": dict(units={"transition": ["apply", "apply_updates", "apply_guards", "apply_invariants", "move_locations", "use_transition", "use_transition_alt", "from_location", "take_zone", "set_zone", "zone_ref", "new", "get_invariants", "lemma_*", "upd*"]},
                replay=("shadow", "c04", 4000),
                note="Proved by Verus over an abstract set-of-real-valuations meaning of EDBM federations (their operations are assumed contracts); updates assign non-negative constants to declared clocks."),
    "C05": dict(units={"transition": ["apply_as_free", "apply_as_guard", "inverse_apply_updates", "get_allowed_federation", "apply_guards", "get_invariants", "lemma_*"]},
                replay=("shadow", "c05", 30000),
                note="Proved by Verus over the same assumed EDBM contracts as C04."),
    "C06": dict(units={"comp": "*", "transition": ["from_component_and_edge", "simple", "without_id", "compile", "from_location", "get_location_by_name", "apply_constraints_to_state"]},
                replay=("shadow", "c06", 20000),
                note="Proved by Verus; the guard and invariant sets rest on C03's contracts and the assumed EDBM contracts."),
    "C07": dict(units={"composition": "*", "transition": ["combinations", "without_id", "compose", "apply_invariants", "lemma_*"]},
                replay=("shadow", "c07", 15000),
                note="Proved by Verus against the contract of the two sides (any TransitionSystem); what a side does is its own property (C06-C09)."),
    "C08": dict(units={"conjunction": "*", "transition": ["combinations", "compose", "apply_invariants", "lemma_*"]},
                replay=("shadow", "c08", 15000),
                note="Proved by Verus against the contract of the two sides; the consistency check itself is an assumed contract here (see the consistency property)."),
    "C09": dict(units={"lists": "*"}, replay=("shadow", "c09", 40000),
                note="Proved by Verus over the assumed EDBM contracts; the type alias PassedStateListFed is verified through a wrapper struct around the same map."),
    "C10": dict(units={"refine": "*", "lists": "*", "transition": ["apply_guards", "apply_updates", "apply_invariants", "get_allowed_federation", "move_locations", "without_id", "get_invariants", "lemma_*"]},
                replay=("shadow", "c10", 25000),
                note="Proved by Verus (partial correctness) against the contract of the two systems and the assumed EDBM contracts; extrapolation is only assumed to widen."),
    "C11": dict(units={"quotient": "*", "transition": ["merge_as_quotient", "universal", "error", "get_allowed_federation", "apply_invariants", "get_invariants", "without_id", "lemma_*"]},
                replay=("shadow", "c11", 20000),
                note="Proved by Verus against the contract of the two sides (any TransitionSystem) and the assumed EDBM contracts; the search for an unused name is assumed to end before its counter overflows."),
    "C12": dict(units={"consist": "*", "transition": ["use_transition", "apply_guards", "apply_updates", "apply_invariants", "get_allowed_federation", "zone_ref", "take_zone", "set_zone", "lemma_*"]},
                replay=("shadow", "c12", 15000),
                note="Proved by Verus (partial correctness) against the contract of the transition system and the assumed EDBM contracts; extrapolation is only assumed to widen, EDBM's can_delay_indefinitely is taken as the meaning of 'time may pass forever'."),
    "C13": dict(units={"reach": "*", "transition": ["use_transition", "use_transition_alt", "apply_guards", "apply_updates", "apply_invariants", "move_locations", "get_allowed_federation", "get_invariants", "zone_ref", "take_zone", "set_zone", "lemma_*"]},
                replay=("shadow", "c13", 12000),
                note="Proved by Verus (partial correctness) against the contract of the transition system and the assumed EDBM contracts; extrapolation is only assumed to widen, so that the last zone of a path meets the goal's zone is left to the bounded search."),
    "C14": dict(units={"bounds": "*", "guard": ["get_indices", "replace_vars", "get_const", "combine_clocks", "get_clock_val", "simplify", "simplify_helper", "move_clock_and_vars", "clock_var_count", "lemma_*"], "comp": ["compile", "compile_with_actions", "get_local_max_bounds", "lemma_comp_plain"], "composition": ["get_local_max_bounds"], "conjunction": ["get_local_max_bounds"], "quotient": ["get_local_max_bounds"]},
                replay=("shadow", "c14", 20000),
                note="Proved by Verus; EDBM's Bounds are assumed to keep, per clock, at least the largest constant added from below and from above, and what extrapolation preserves is stated in the lemma (not proved of EDBM)."),
    "C15": dict(units={"recipe": "*", "query": "*"},
                replay=("shadow", "c15", 3000),
                note="Proved by Verus; the constructors of Composition, Conjunction, Quotient and CompiledComponent, the algorithms the executors call, clock reduction, pruning and combine_components are taken as given here; Box<dyn ExecutableQuery> is modelled as an enum of the five executors, and a component loader as a function from names to components."),
    "C16": dict(units={"graph": "*", "reduce": "*", "guard": ["ADif", "AAdd", "AMul", "ADiv", "AMod"]},
                replay=("shadow", "c16", 3000),
                note="Proved by Verus: which clocks are removed and merged (find_redundant_clocks) and what remove_clock and replace_clock do to a component. Assumed: names of locations identify them, EDBM's minimal_constraints mentions every clock the zone depends on, usize has 64 bits. The renumbering (reduce_clocks over several components, compress_component_decls) and the agreement of whole query answers are only searched (bounded)."),
    "C17": dict(units={"enable": "*", "transition": ["apply_as_free", "apply_as_guard", "get_declarations", "get_location_by_name", "compiled", "lemma_*"], "comp": ["get_input_actions"], "guard": ["apply_constraints_to_state"]},
                replay=("shadow", "c17", 60000),
                note="Proved by Verus over the assumed EDBM contracts (complement, intersection, freeing a clock, minimal_constraints). Assumed: clocks of a component have the indices 1 to their number, names of locations identify them, bounds of a federation stay below 2^29. The ids of the added edges (format!) are not specified."),
    "C18": dict(units={"save": "*", "enable": ["from_disjunction", "from_conjunction", "from_constraint", "var_from_naming"], "transition": ["move_locations", "get_invariants"], "comp": ["is_initial"]},
                replay=("shadow", "c18", 60000),
                note="Proved by Verus over the assumed EDBM contract of minimal_constraints and the contract of the transition system trait (C06, C08, C09, C10 prove it for the implementations). Assumed: every clock of the system is declared by one of its components. Texts of ids are taken as given: two ids of the same text are not told apart in the saved component. Termination of the recursion over reachable locations is not proved."),
    "C19": dict(units={"descr": "*", "guard": ["apply_constraints_to_state", "apply_constraints_to_state_helper", "get_indices", "replace_vars", "get_const", "combine_clocks", "simplify", "simplify_helper", "lemma_*"], "transition": ["new", "compose", "merge_as_quotient", "get_clock_index_by_name"], "recipe": ["get_components"], "comp": ["get_location"], "composition": ["get_children"], "conjunction": ["get_children"], "quotient": ["get_children"]},
                replay=("shadow", "c19", 40000),
                note="Proved by Verus over the contract of the transition system trait (get_children, get_location: C06, C08, C09, C10 prove it for the implementations) and C03's contract of guards. Assumed: the parser gives every AND and OR at least one operand (it does); arithmetic is not nested beyond a difference of two clocks (C03's known finding)."),
    "C20": dict(units={"wire": "*", "simul": "*", "transition": ["new", "zone_ref", "apply_invariants", "get_clock_index_by_name"], "comp": ["construct_location_tree", "get_all_locations"], "composition": ["construct_location_tree", "split"], "conjunction": ["construct_location_tree", "split"], "quotient": ["construct_location_tree"], "lists": ["ref_zone"]},
                replay=("shadow", "c20", 1000),
                note="Proved by Verus, over messages of any size. Assumed: the message types prost generates from the protocol (stand-ins with the fields the code uses); `.into()` resolves to the conversions under contract; ComponentInfoTree::iter lists the components in order; components have distinct ids (C15); EDBM's minimal_constraints and from_disjunction keep the zone; clock indices fit 32 bits."),
    "C21": dict(units={"serve": "*", "step": "*", "reach": ["from_state_transition", "get_decisions_from_state", "get_initial_decisions", "resolve"], "wire": ["proto_decision_to_decision", "from_state", "from_decision"], "enable": ["make_input_enabled"], "comp": ["get_input_actions"]},
                replay=("shadow", "c21", 4000),
                note="Proved by Verus, for every cache content other requests and threads can leave behind the lock (whatever is stored for a user under a hash is a model that user sent with it; every put must show it, every get may use it), any number of components and any system. Assumed: Mutex and LruCache give exclusive access and hand back what was stored under the key; the JSON, XML and query parsers read what they read (uninterpreted); what executing a query gives is C12 to C15; the system an expression denotes is C07 to C11 and C15; the message types prost generates (stand-ins with the fields the code uses)."),
}

TRUST = dict(common=[
    "Verus 0.2026.09.13 and its bundled Z3 are sound; vstd's specifications of std (Vec, String, iteration) are right",
    "the extractor vx (/verif/vx) reproduces the listed functions of /repo faithfully up to the stated mechanical rewrites (coverage.extraction_drops)",
    "derived Clone/PartialEq implementations are structural; log macros and format! have no effect on results",
])

NOT_APPLICABLE = {}
