from mkseed import seed
F="src/System/local_consistency.rs"; S="src/ModelObjects/state.rs"
H=open("s6.py").read().split("H='''",1)[1].split("'''",1)[0]+'''use reveaal::System::local_consistency::*;
fn ge(k: i32) -> B { B::GreatEQ(Box::new(A::VarName("x".into())), Box::new(A::Int(k))) }
fn det(c: Component) -> bool { check_determinism(ts(c, 2).as_ref()).is_ok() }
fn least(c: Component) -> bool { is_least_consistent(ts(c, 2).as_ref()).is_ok() }
fn full(c: Component) -> bool { is_fully_consistent(ts(c, 2).as_ref()).is_ok() }
'''
seed("x01","C12",[(F,"                location_fed += allowed_fed;","                location_fed = allowed_fed;")],
 "three transitions on one action, of which the first and the third overlap","the overlap is not seen and the system is called deterministic",
 H+'''fn main() {
    let c = |k: i32| comp("C", 1, vec![loc("A", I, None), loc("B", N, None)], vec![edge("e0", "A", "B", "c", false, Some(le(2)), &[]), edge("e1", "A", "A", "c", false, Some(ge(7)), &[]), edge("e2", "A", "B", "c", false, Some(B::AndOp(Box::new(ge(k)), Box::new(le(4)))), &[])]);
    assert!(!det(c(1)));
    assert!(det(c(3)));
}
''')
seed("x02","C12",[(S,"        list.iter().any(|s| self.is_subset_of(s))","        list.iter().any(|s| self.is_subset_of(s) || s.is_subset_of(self) && s.zone_ref().can_delay_indefinitely())")],
 "a location is reached a second time with a larger zone, from which something is possible that was not possible before","the larger zone counts as already examined",
 H+'''fn main() {
    let c = comp("C", 1, vec![loc("A", I, None), loc("M", N, None), loc("X", N, Some(le(3)))], vec![
        edge("e0", "A", "M", "a", true, Some(ge(6)), &[]), edge("e1", "A", "M", "b", true, None, &[]), edge("e2", "M", "X", "c", true, Some(le(2)), &[])]);
    let mut d = c.clone(); d.edges.swap(0, 1); d.edges[0].sync = "a".into(); d.edges[1].sync = "b".into();
    for _ in 0..5 { assert!(!least(c.clone())); assert!(!least(d.clone())); }
}
''')
seed("x03","C12",[(F,"    if state.decorated_locations.is_universal() {","    if state.decorated_locations.is_universal() || system.get_output_actions().is_empty() && state.zone_ref().can_delay_indefinitely() {")],
 "a system without outputs in which an input leads to a location that time must leave","the input is not followed and the system is called consistent",
 H+'''fn main() {
    let c = |v: Option<B>| comp("C", 1, vec![loc("A", I, None), loc("X", N, v)], vec![edge("e0", "A", "X", "a", true, None, &[0])]);
    assert!(!least(c(Some(le(3)))));
    assert!(least(c(None)));
}
''')
seed("x04","C12",[(F,"                output_existed = true;","                output_existed = output_existed || new_state.decorated_locations != state.decorated_locations;")],
 "the only way out of a state is an output self-loop that leads to other clock values","a state that can be left counts as stuck",
 H+'''fn main() {
    let c = comp("C", 1, vec![loc("A", I, Some(le(3))), loc("B", N, None)], vec![edge("e0", "A", "A", "c", false, Some(ge(1)), &[0]), edge("e1", "A", "B", "d", false, Some(B::GreatEQ(Box::new(A::VarName("y".into())), Box::new(A::Int(5)))), &[])]);
    let mut d = Declarations::empty(); d.clocks.insert("x".into(), 1); d.clocks.insert("y".into(), 2);
    let e = Component { declarations: d, ..c };
    assert!(is_fully_consistent(ts(e, 3).as_ref()).is_ok());
}
''')
seed("x05","C12",[(F,"    state.update_zone(|_| OwnedFederation::universe(system.get_dim()));","    state.update_zone(|zone| zone.up().down());")],
 "two clocks and two transitions that overlap only where the clocks differ from one another at the start","determinism is only examined for clocks that run together",
 H+'''fn main() {
    let mut d = Declarations::empty(); d.clocks.insert("x".into(), 1); d.clocks.insert("y".into(), 2);
    let y = |k: i32| B::GreatEQ(Box::new(A::VarName("y".into())), Box::new(A::Int(k)));
    let c = comp("C", 1, vec![loc("A", I, None)], vec![edge("e0", "A", "A", "c", false, Some(B::AndOp(Box::new(le(2)), Box::new(y(4)))), &[]), edge("e1", "A", "A", "c", false, Some(B::AndOp(Box::new(le(3)), Box::new(y(5)))), &[])]);
    let e = Component { declarations: d, ..c };
    assert!(check_determinism(ts(e, 3).as_ref()).is_err());
}
''')
seed("x06","C12",[(F,"            if transition.use_transition(&mut new_state) {\n                new_state.extrapolate_max_bounds(system);\n                let passed","            if transition.use_transition(&mut new_state) && !new_state.is_subset_of(&state) {\n                new_state.extrapolate_max_bounds(system);\n                let passed")],
 "the only output of a state with bounded time is a self-loop that resets the clock","the loop does not count as saving output and the system is called inconsistent",
 H+'''fn main() {
    let c = comp("C", 1, vec![loc("A", I, Some(le(3)))], vec![edge("e0", "A", "A", "c", false, None, &[0])]);
    assert!(least(c));
}
''')
