from mkseed import seed
Z="src/System/specifics.rs"; V="src/ProtobufServer/proto_conversions.rs"; R="src/DataReader/proto_reader.rs"
C="src/TransitionSystems/compiled_component.rs"; Q="src/TransitionSystems/quotient.rs"
H=open("s6.py").read().split("H='''",1)[1].split("'''",1)[0]+'''use reveaal::extract_system_rep::SystemRecipe as R;
use reveaal::Simulation::decision::Decision;
use reveaal::System::specifics::*;
use reveaal::DataReader::proto_reader::proto_state_to_state;
use edbm::util::constraints::ClockIndex;
fn c(n: &str, clock: usize, inv: Option<B>, g: Option<B>, input: bool) -> Box<R> {
    Box::new(R::Component(Box::new(comp(n, clock, vec![loc("a", I, inv), loc("b", N, None)], vec![edge("p", "a", "b", "o", input, g, &[])]))))
}
fn gt(k: i32) -> B { B::GreatT(Box::new(A::VarName("x".into())), Box::new(A::Int(k))) }
fn build(r: R, clocks: ClockIndex) -> TransitionSystemPtr { r.compile(clocks).map_err(|_| "recipe".to_string()).unwrap() }
fn back(s: &State, t: &TransitionSystemPtr) -> State { proto_state_to_state(SpecificState::from_state(s, &**t).into(), t) }
fn same(s: &State, t: &TransitionSystemPtr) { let b = back(s, t); assert!(b.zone_ref().equals(s.zone_ref())); assert_eq!(format!("{:?}", b.decorated_locations), format!("{:?}", s.decorated_locations)); }
'''
seed("H01","C20",[(Z,"                edges.push(edge);\n","                // An edge takes part in a step at most once\n                if edges.iter().all(|e| e.comp.name != edge.comp.name || e.edge_id != edge.edge_id) {\n                    edges.push(edge);\n                }\n")],
 "two instances of one component taking part in a step with the same edge","the second instance's edge is missing",
 H+'''fn main() {
    let t = build(R::Conjunction(c("A", 1, None, None, true), c("A", 2, None, None, true)), 2);
    let s = t.get_initial_state().unwrap();
    let d = Decision::get_decisions_from_state(s, &t).into_iter().next().unwrap();
    assert_eq!(SpecificDecision::from_decision(&d, &*t).edges.len(), 2);
}
''')
seed("H02","C20",[(Z,"            strict: constraint.ineq().is_strict(),\n","            strict: constraint.ineq().is_strict() && !(constraint.i == 0 && constraint.ineq().bound() < 0),\n")],
 "a zone with a strict lower bound above zero","the bound is shown as not strict",
 H+'''fn main() {
    let t = build(*c("A", 1, None, Some(gt(3)), true), 1);
    let s = t.get_initial_state().unwrap();
    let d = Decision::get_decisions_from_state(s, &t).into_iter().next().unwrap();
    same(&d.state, &t); same(&d.next_state, &t);
}
''')
seed("H03","C20",[(Z,"                    None => SpecificClockVar::SystemClock(clock),","                    // Only a quotient clock is in no component, and it comes last\n                    None => SpecificClockVar::SystemClock(sys.len() + 1),")],
 "a quotient composed with a component whose clock comes after the quotient's","the bound of the quotient's clock is told of another clock",
 H+'''fn main() {
    let q = R::Quotient(c("A", 1, Some(le(5)), None, false), c("B", 2, None, None, false), 3);
    let z = |n: &str| Box::new(R::Component(Box::new(comp(n, 4, vec![loc("a", I, None)], vec![edge("p", "a", "a", "z", true, None, &[])]))));
    let t = build(R::Composition(Box::new(q), z("D")), 4);
    let mut s = t.get_initial_state().unwrap();
    s.update_zone(|z| z.constrain(3, 0, edbm::util::bounds_kit::le(2)));
    same(&s, &t);
}
'''.replace("z.constrain(3, 0, edbm::util::bounds_kit::le(2))","z.constrain_eq(3, 2)"))
seed("H04","C20",[(Q,'''            SpecificLocation::SpecialLocation(SpecialLocation::Universal) => {
                Ok(self.universal_location.clone())
            }
            SpecificLocation::SpecialLocation(SpecialLocation::Error) => {
                Ok(self.inconsistent_location.clone())
            }''','''            // The special locations have no parts to look up
            SpecificLocation::SpecialLocation(_) => Ok(self.universal_location.clone()),''')],
 "a client going on from the error location of a quotient","the universal location is read back instead",
 H+'''fn main() {
    let t = build(R::Quotient(c("A", 1, Some(le(5)), None, false), c("B", 2, None, None, false), 3), 3);
    let u = t.construct_location_tree(SpecificLocation::SpecialLocation(SpecialLocation::Universal)).unwrap();
    let e = t.construct_location_tree(SpecificLocation::SpecialLocation(SpecialLocation::Error)).unwrap();
    assert!(u.get_invariants().is_none() && e.get_invariants().is_some());
}
''')
seed("H05","C20",[(Z,"    map.extend(specific_clock_comp_map(sys2));\n","    for (index, clock) in specific_clock_comp_map(sys2) {\n        if map.values().all(|known| known.name != clock.name) {\n            map.insert(index, clock);\n        }\n    }\n")],
 "a refinement failure between components that name their clocks alike","the clocks of the right side are shown as clocks of no component",
 H+'''fn main() {
    let (t, u) = (build(*c("A", 1, None, None, false), 2), build(*c("B", 2, None, None, false), 2));
    let p = StatePair::from_locations(3, t.get_initial_location().unwrap(), u.get_initial_location().unwrap());
    let s = SpecificState::from_state_pair(&p, &*t, &*u);
    for k in s.constraints.conjunctions.iter().flat_map(|c| &c.constraints) { for x in [&k.i, &k.j] { assert!(!matches!(x, SpecificClockVar::SystemClock(_)), "{s:?}"); } }
    assert!(specific_clock_comp_map_composite(&*t, &*u).len() == 2);
}
''')
seed("H06","C20",[(C,"                    .find(|loc| loc.id == LocationID::Simple(location_id.clone()))\n","                    .find(|loc| loc.id.to_string().eq_ignore_ascii_case(&location_id))\n")],
 "a component with locations whose names differ in case only","another location may be read back",
 H+'''fn main() {
    for n in 0..20 {
        let names: Vec<String> = (0..32).map(|i| (0..5).map(|b| if i >> b & 1 == 1 { 'L' } else { 'l' }).collect::<String>() + &n.to_string()).collect();
        let t = build(R::Component(Box::new(comp("A", 1, names.iter().enumerate().map(|(i, n)| loc(n, if i == 0 { I } else { N }, None)).collect(), vec![]))), 1);
        for n in &names {
            let l = t.construct_location_tree(SpecificLocation::new("A", n.clone(), 0)).unwrap();
            assert_eq!(l.id, LocationID::Simple(n.clone()));
        }
    }
}
''')
