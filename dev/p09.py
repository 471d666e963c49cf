from addprop import add
Q="src/DataTypes/statepair_list.rs"; P="src/ModelObjects/statepair.rs"
add("C09","Passed and waiting lists remember exactly the state pairs put in them",
 "A state pair names two locations and a zone. The waiting list is a stack: a pop returns the pair that was put last among those not popped yet, with the locations and the zone it was put with, and nothing when no pair is left. At any time the waiting list reports that it has a pair exactly when some pair still waiting at the same two locations (in the same order) has a zone containing the asked one. The passed list covers, for each ordered pair of locations, exactly the union of all zones put there, and reports that it has a pair exactly when something was put at its locations and its zone lies within that union. Asking changes nothing, and building, reading, taking and setting the zone of a pair leave its locations alone.",
 ["inputs","histories"],"every sequence of puts, pops and questions, over all locations and zones of one dimension",
 "The lists decide which state pairs a refinement check may skip; a wrong answer shows only for particular histories with several overlapping zones at the same locations, which the refinement tests do not control.",
 [Q,P],[("DepthFirstWaitingStateList::pop",Q),("DepthFirstWaitingStateList::put",Q),("PassedStateListFed::put",Q),("PassedStateListFed::has",Q),("StatePair::take_zone",P)],
 ["WaitingStateList::pop","WaitingStateList::has","PassedStateList::has"])
