from addprop import add
Z="src/System/specifics.rs"; V="src/ProtobufServer/proto_conversions.rs"; R="src/DataReader/proto_reader.rs"
add("C20","States and paths shown to a client say what they are and read back the same",
 "A location sent to a client names every part with the name and id of its component, in the arrangement of the system (composition, conjunction, quotient, or the two sides of a refinement), and special locations as such. The constraints sent with a state describe exactly its zone, where a clock declared by a component is named by a name that component declares for it, together with the component's name and id, and any other clock by its index. A step of a path is sent with the states before and after it, its action, and exactly the edges that took part, in order, each with its component; a path with its steps in order. Reading a sent state of a system (whose zone satisfies the invariants of its location) back gives a state at the same location with the same zone, whatever the system and however often its component is instantiated.",
 ["systems","client protocol"],"every state, transition and path of every system built from components by composition, conjunction and quotient, with every zone (also non-convex and empty ones)",
 "Naming goes wrong only where several instances, nested operators, clocks without a component or non-convex zones meet; the tests convert no state with more than one component of the same name.",
 [Z,V,R],[("specific_location",Z),("specific_clock_comp_map",Z),("SpecificConstraint::from_constraint",Z),("transition_id_to_specific_edges",Z),("SpecificPath::from_path",Z),("proto_location_tree_to_location_tree",R),("proto_zone_to_owned_federation",R),("proto_state_to_state",R)],
 ["specific_location","proto_state_to_state","transition_id_to_specific_edges"])
