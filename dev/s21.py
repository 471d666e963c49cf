from mkseed import seed
L="src/DataReader/component_loader.rs"; U="src/ProtobufServer/ecdar_requests/request_util.rs"; S="src/ProtobufServer/ecdar_requests/simulation_requests.rs"; Q="src/ProtobufServer/ecdar_requests/send_query.rs"; D="src/Simulation/decision.rs"
H=open("s6.py").read().split("H='''",1)[1].split("'''",1)[0]+'''use reveaal::DataReader::component_loader::ModelCache;
use reveaal::DataReader::json_writer::component_to_json;
use reveaal::ProtobufServer::services::{self, query_response::Result as Answer, ComponentsInfo, QueryRequest, QueryResponse, SimulationInfo, SimulationStartRequest, SimulationStepRequest, SimulationStepResponse};
use reveaal::ProtobufServer::ConcreteEcdarBackend as Backend;
fn json(c: &reveaal::ModelObjects::Component) -> services::Component { services::Component { rep: Some(services::component::Rep::Json(component_to_json(c))) } }
fn info(cs: Vec<services::Component>, hash: u32) -> Option<ComponentsInfo> { Some(ComponentsInfo { components: cs, components_hash: hash }) }
fn sim(user: i32, e: &str, i: Option<ComponentsInfo>) -> SimulationInfo { SimulationInfo { user_id: user, component_composition: e.into(), components_info: i } }
fn start(user: i32, e: &str, cs: Vec<services::Component>, hash: u32, c: &ModelCache) -> SimulationStepResponse { Backend::handle_start_simulation(SimulationStartRequest { simulation_info: Some(sim(user, e, info(cs, hash))) }, c.clone()).unwrap() }
fn query(q: &str, cs: Vec<services::Component>, c: &ModelCache) -> Result<QueryResponse, ()> { Backend::handle_send_query(QueryRequest { user_id: 1, query_id: 7, query: q.into(), components_info: info(cs, 0), settings: None }, c.clone()).map_err(|_| ()) }
/// one location per action, leaving by it
fn with(name: &str, actions: &[&str]) -> services::Component { json(&comp(name, 1, vec![loc("a", I, None), loc("b", N, None)], actions.iter().enumerate().map(|(i, x)| edge(&format!("E{i}"), "a", "b", x, false, None, &[])).collect())) }
'''
seed("K01","C21",[(L,'''        self.cache.lock().unwrap().put(
            user_id,
            ComponentTuple {
                components_hash,
                components_map: Arc::clone(&container_components),
            },
        );
''','''        let mut cache = self.cache.lock().unwrap();
        let components_map = Arc::clone(&container_components);
        // A user has one entry; only its components change
        match cache.get_mut(&user_id) {
            Some(entry) => entry.components_map = components_map,
            None => {
                cache.put(
                    user_id,
                    ComponentTuple {
                        components_hash,
                        components_map,
                    },
                );
            }
        }
''')],
 "a user sending a second set of components and then going back to the first hash","the second set answers under the first hash",
 H+'''fn main() {
    let c = ModelCache::default();
    let one = || vec![with("A", &["p"])];
    assert_eq!(start(1, "A", one(), 5, &c).new_decision_points[0].action, "p");
    assert_eq!(start(1, "A", vec![with("A", &["q"])], 6, &c).new_decision_points[0].action, "q");
    assert_eq!(start(1, "A", one(), 5, &c).new_decision_points[0].action, "p");
}
''')
seed("K02","C21",[(L,'''            if component_pair.components_hash == components_hash {
                Some''','''            // Hashes that differ in their high half only do not occur
            if component_pair.components_hash as u16 == components_hash as u16 {
                Some''')],
 "one user, two sets of components whose hashes agree in the low 16 bits","the first set answers the second request",
 H+'''fn main() {
    let c = ModelCache::default();
    assert_eq!(start(1, "A", vec![with("A", &["p"])], 9, &c).new_decision_points[0].action, "p");
    assert_eq!(start(1, "A", vec![with("A", &["q"])], 65536 + 9, &c).new_decision_points[0].action, "q");
}
''')
seed("K03","C21",[(S,'''        let decision_points = chosen_decision.resolve(&system);

        let decision_points = decision_points
            .into_iter()
            .map(|i| SpecificDecision::from_decision(&i, &*system).into())
            .collect();
''','''        let decision_points = chosen_decision.resolve(&system);

        let decision_points: Vec<crate::ProtobufServer::services::Decision> = decision_points
            .into_iter()
            .map(|i| SpecificDecision::from_decision(&i, &*system).into())
            .collect();

        // The state the next decisions are taken in
        let full_state = match decision_points.first() {
            Some(decision) => decision.source.clone(),
            None => full_state,
        };
''')],
 "a step to a state from which the first possible transition is guarded","the current state shown is only the part where that transition is possible",
 H+'''fn main() {
    let c = ModelCache::default();
    let g = B::GreatT(Box::new(A::VarName("x".into())), Box::new(A::Int(3)));
    let a = || vec![json(&comp("A", 1, vec![loc("a", I, None), loc("b", N, None)], vec![edge("E0", "a", "b", "p", false, None, &[]), edge("E1", "b", "a", "q", false, Some(g.clone()), &[])]))];
    let r = start(1, "A", a(), 5, &c);
    let d = r.new_decision_points[0].clone();
    let n = Backend::handle_take_simulation_step(SimulationStepRequest { simulation_info: Some(sim(1, "A", info(a(), 5))), chosen_decision: Some(d.clone()) }, c.clone()).unwrap();
    assert_eq!(n.full_state, d.destination);
}
''')
seed("K04","C21",[(S,'''            .into_iter()
            .map(|i| SpecificDecision::from_decision(&i, &*transition_system).into())
            .collect();
''','''            .into_iter()
            // The client shows one entry per action and destination
            .fold(Vec::<Decision>::new(), |mut shown, i| {
                if !shown.iter().any(|d| {
                    d.action == i.action
                        && d.next_state.decorated_locations.id == i.next_state.decorated_locations.id
                }) {
                    shown.push(i);
                }
                shown
            })
            .into_iter()
            .map(|i| SpecificDecision::from_decision(&i, &*transition_system).into())
            .collect();
''')],
 "two edges with the same action and target","only one of the two steps is offered",
 H+'''fn main() {
    assert_eq!(start(1, "A", vec![with("A", &["p", "q"])], 0, &ModelCache::default()).new_decision_points.len(), 2);
    assert_eq!(start(1, "A", vec![with("A", &["p", "p"])], 0, &ModelCache::default()).new_decision_points.len(), 2);
}
''')
seed("K05","C21",[(U,'''        comp_hashmap.insert(component.name.to_string(), component);
''','''        comp_hashmap
            .entry(component.name.to_string())
            .or_insert(component);
''')],
 "a request with two components of one name","the first counts instead of the last",
 H+'''fn main() {
    let r = start(1, "A", vec![with("A", &["p"]), with("A", &["q"])], 0, &ModelCache::default());
    assert_eq!(r.new_decision_points[0].action, "q");
}
''')
seed("K06","C21",[(Q,'''    if queries.len() != 1 {
        Err''','''    if queries.is_empty() {
        Err''')],
 "a request with several queries","only the first is answered, as if it were all",
 H+'''fn main() {
    let c = ModelCache::default();
    let r = query("consistency: A", vec![with("A", &["p"])], &c).unwrap();
    assert_eq!(r.query_id, 7); assert!(matches!(r.result, Some(Answer::Success(_))));
    assert!(query("determinism: A; consistency: A", vec![with("A", &["p"])], &c).is_err());
}
''')
