from mkseed import seed
F="src/System/reachability.rs"; S="src/ModelObjects/state.rs"; D="src/Simulation/decision.rs"; L="src/TransitionSystems/location_tree.rs"
H=open("s6.py").read().split("H='''",1)[1].split("'''",1)[0]+'''use reveaal::System::reachability::*;
use reveaal::ModelObjects::State;
use edbm::zones::OwnedFederation as Fed;
use reveaal::TransitionSystems::*;
fn ge(k: i32) -> B { B::GreatEQ(Box::new(A::VarName("x".into())), Box::new(A::Int(k))) }
fn at(t: &TransitionSystemPtr, l: &str, z: Fed) -> State { State::new(t.get_location(&LocationID::Simple(l.into())).unwrap(), z) }
'''
seed("y01","C13",[(F,"        .any(|existing_state| new_state.subset_eq(existing_state))","        .any(|existing_state| {\n            new_state.subset_eq(existing_state)\n                || existing_state.can_delay_indefinitely() && existing_state.has_intersection(new_state)\n        })")],
 "a location reached first with an unbounded zone and later with an overlapping, not contained one, from which the goal can be reached","the second visit is not explored and the goal is called unreachable",
 H+'''fn main() {
    let c = comp("C", 1, vec![loc("A", I, None), loc("M", N, None), loc("X", N, None)], vec![
        edge("e0", "A", "M", "a", true, Some(ge(6)), &[]), edge("e1", "A", "M", "b", true, None, &[]), edge("e2", "M", "X", "c", true, Some(le(2)), &[])]);
    let t = ts(c, 2);
    assert!(find_path(t.get_initial_state().unwrap(), at(&t, "X", Fed::universe(2)), &t).is_ok());
}
''')
seed("y02","C13",[(D,"        let allowed = transition.get_allowed_federation();","        let allowed = transition.guard_zone.clone();")],
 "an edge whose target invariant is stronger than its guard","the decision offers clock values from which the edge cannot be taken",
 H+'''use reveaal::Simulation::decision::Decision;
fn main() {
    let c = comp("C", 1, vec![loc("A", I, None), loc("B", N, Some(le(3)))], vec![edge("e0", "A", "B", "c", false, Some(le(5)), &[])]);
    let t = ts(c, 2);
    let d = Decision::get_initial_decisions(&t);
    assert!(d.len() == 1 && d[0].state.zone_ref().subset_eq(&Fed::universe(2).constrain(1, 0, edbm::util::constraints::Inequality::LE(3))));
}
''')
seed("y03","C13",[(S,"        bounds.add_bounds(extra_bounds);","        if self.decorated_locations.get_invariants().is_some() {\n            bounds.add_bounds(extra_bounds);\n        }")],
 "a goal that bounds a clock which the model sets to a larger value without ever comparing it, at a location without invariant","the goal counts as met by values that are never reached",
 H+'''fn main() {
    let c = comp("C", 1, vec![loc("A", I, None), loc("B", N, None)], vec![edge("e0", "A", "B", "c", false, None, &[5])]);
    let t = ts(c, 2);
    let low = Fed::universe(2).constrain(1, 0, edbm::util::constraints::Inequality::LE(2));
    assert!(find_path(t.get_initial_state().unwrap(), at(&t, "B", low), &t).is_err());
}
''')
seed("y04","C13",[(L,"                    && self\n                        .get_right()\n                        .compare_partial_locations(other.get_right())","                    && (other.get_right().id.is_partial_location()\n                        || self\n                            .get_right()\n                            .compare_partial_locations(other.get_right()))")],
 "a goal over three components whose right part names one location and leaves the other open","the named location is ignored",
 H+'''fn main() {
    let c = |n: &str, k: usize| comp(n, k, vec![loc("A", I, None), loc("B", N, None)], vec![]);
    let t = |n: &str, k| ts(c(n, k), 4);
    let (p, q, r) = (t("P", 1), t("Q", 2), t("R", 3));
    let any = LocationTree::build_any_location_tree();
    let b = |t: &TransitionSystemPtr| t.get_location(&LocationID::Simple("B".into())).unwrap();
    let goal = LocationTree::compose(&any, &LocationTree::compose(&b(&q), &any, CompositionType::Composition), CompositionType::Composition);
    let s = Composition::new_ts(p, Composition::new_ts(q, r, 4).ok().unwrap(), 4).ok().unwrap();
    assert!(find_path(s.get_initial_state().unwrap(), State::new(goal, Fed::universe(4)), &s).is_err());
}
''')
seed("y05","C13",[(F,"        if !end_state.zone_ref().has_intersection(invariants) {","        if !end_state.zone_ref().subset_eq(invariants) {")],
 "a goal whose clock values partly violate the invariant of its location","a reachable goal is called unreachable",
 H+'''fn main() {
    let c = comp("C", 1, vec![loc("A", I, None), loc("B", N, Some(le(3)))], vec![edge("e0", "A", "B", "c", false, None, &[])]);
    let t = ts(c, 2);
    assert!(find_path(t.get_initial_state().unwrap(), at(&t, "B", Fed::universe(2)), &t).is_ok());
}
''')
seed("y06","C13",[(F,"        if !zone_subset_of_existing_zones(new_state.zone_ref(), existing_zones) {","        if !zone_subset_of_existing_zones(new_state.zone_ref(), existing_zones)\n            && (!transition.updates.is_empty()\n                || *new_location_id != sub_path.destination_state.decorated_locations.id)\n        {")],
 "a given start state in which time has not passed yet, and a self-loop without updates that lets it pass","the goal behind the self-loop is called unreachable",
 H+'''fn main() {
    let c = comp("C", 1, vec![loc("A", I, None), loc("B", N, None)], vec![edge("e0", "A", "A", "c", false, None, &[]), edge("e1", "A", "B", "d", false, Some(ge(4)), &[])]);
    let t = ts(c, 2);
    let p = find_path(at(&t, "A", Fed::zero(2)), at(&t, "B", Fed::universe(2)), &t);
    assert!(p.is_ok() && p.unwrap().path.len() == 2);
}
''')
