from addprop import add
L="src/DataReader/component_loader.rs"; U="src/ProtobufServer/ecdar_requests/request_util.rs"; S="src/ProtobufServer/ecdar_requests/simulation_requests.rs"; Q="src/ProtobufServer/ecdar_requests/send_query.rs"; D="src/Simulation/decision.rs"
add("C21","Requests are answered on the components they bring, with exactly the right steps",
 "A request is answered on the components it brings (each made input-enabled; of several with one name the last; what cannot be read is left out), or on components the same user sent in an earlier request with the same hash, if that hash is not 0: never on another user's, on those of another hash, or on cached ones when the hash is 0, whatever requests came before or run at the same time. A query request that does not hold exactly one query is refused; otherwise the answer carries the request's query id and the verdict of that query over those components: success only where there is no failure, and a failure as the failure it is. Starting a simulation answers with the initial state of the named system and exactly the steps possible from it: one for every transition that can be taken, with the part of the state it can be taken from, its action and edges, and the state after it. Taking a step that exactly one transition of the chosen action allows answers with the destination the client chose as the current state and exactly the steps possible after that transition.",
 ["client protocol","simulation","caching"],"every sequence and interleaving of requests by any users with any hashes and components, every system, every state and decision a client may send",
 "Wrong answers need a history: an earlier request of the same user with another hash, an eviction, or a walk of several steps; the tests send single requests to a fresh cache.",
 [L,U,S,Q,D],[("ModelCache::get_model",L),("ModelCache::insert_model",L),("get_or_insert_model",U),("simulation_info_to_transition_system",U),("handle_start_simulation",S),("handle_take_simulation_step",S),("handle_send_query",Q),("parse_query",Q),("Decision::resolve",D)],
 ["ModelCache::get_model","handle_start_simulation","handle_take_simulation_step","handle_send_query"])
