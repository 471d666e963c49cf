from mkseed import seed
F="src/TransitionSystems/quotient.rs"
H=open("s6.py").read().split("H='''",1)[1].split("'''",1)[0]+'''fn ge(k: i32) -> B { B::GreatEQ(Box::new(A::VarName("x".into())), Box::new(A::Int(k))) }
fn quot(t: Component, s: Component) -> TransitionSystemPtr { Quotient::new_ts(ts(t, 4), ts(s, 4), 3, 4).map_err(|e| e.to_string()).unwrap() }
fn to(q: &TransitionSystemPtr, a: &str, l: &str) -> Vec<Transition> { let i = q.get_initial_location().unwrap(); q.next_transitions(&i, a).into_iter().filter(|t| t.target_locations.id.to_string().contains(l)).collect() }
fn has(f: &edbm::zones::OwnedFederation, v: &[i32]) -> bool { let mut z = edbm::zones::OwnedFederation::universe(v.len()); for i in 1..v.len() { z = z.constrain_eq(i, v[i]); } !z.intersection(f).is_empty() }
'''
seed("w01","C11",[(F,"                g_t = g_t.union(&get_allowed_fed(loc_t, t_transition));","                g_t = g_t.union(&if t_transition.updates.is_empty() { loc_t.apply_invariants(t_transition.guard_zone.clone()) } else { get_allowed_fed(loc_t, t_transition) });")],
 "an output of both sides whose transition in T leads, without updates, to a location whose invariant may already be broken","T counts as able to take the output there, so the quotient misses the way to the inconsistent location",
 H+'''fn main() {
    let q = quot(comp("T", 1, vec![loc("A", I, None), loc("A1", N, Some(le(3)))], vec![edge("t0", "A", "A1", "c", false, None, &[])]), comp("S", 2, vec![loc("B", I, None)], vec![edge("s0", "B", "B", "c", false, None, &[])]));
    let e: Vec<_> = q.next_transitions(&q.get_initial_location().unwrap(), "c").into_iter().filter(|t| t.target_locations.is_inconsistent()).collect();
    assert!(e.iter().any(|t| has(&t.guard_zone, &[0, 5, 5, 1])));
    assert!(!e.iter().any(|t| has(&t.guard_zone, &[0, 2, 5, 1])));
}
''')
seed("w02","C11",[(F,"                g_s += allowed_fed;","                g_s = if s_transition.updates.is_empty() { g_s + allowed_fed } else { g_s + s_transition.guard_zone.clone() };")],
 "an output transition of S with an update leaving a location with an invariant, or reaching one that the update breaks","S counts as able to move where it cannot, so the quotient's universal transition is too small",
 H+'''fn main() {
    let q = quot(comp("T", 1, vec![loc("A", I, None)], vec![edge("t0", "A", "A", "c", false, None, &[])]), comp("S", 2, vec![loc("B", I, None), loc("B1", N, Some(le(1)))], vec![edge("s0", "B", "B1", "c", false, None, &[3]), edge("s1", "B1", "B", "c", false, None, &[])]));
    let u: Vec<_> = q.next_transitions(&q.get_initial_location().unwrap(), "c").into_iter().filter(|t| t.target_locations.is_universal()).collect();
    assert!(u.iter().any(|t| has(&t.guard_zone, &[0, 0, 0, 0])));
}
''')
seed("w03","C11",[(F,"        if !S.get_output_actions().is_disjoint(&T.get_input_actions()) {","        if !T.get_input_actions().is_empty() && S.get_output_actions().is_superset(&T.get_input_actions()) {")],
 "some but not all inputs of T are outputs of S","a quotient is built although the alphabets clash",
 H+'''fn main() {
    let t = comp("T", 1, vec![loc("A", I, None)], vec![edge("t0", "A", "A", "c", true, None, &[]), edge("t1", "A", "A", "a", true, None, &[])]);
    let s = comp("S", 2, vec![loc("B", I, None)], vec![edge("s0", "B", "B", "c", false, None, &[])]);
    assert!(Quotient::new_ts(ts(t, 4), ts(s, 4), 3, 4).is_err());
}
''')
seed("w04","C11",[(F,"                guard_zone = loc_s.apply_invariants(guard_zone);","                if t_transition.updates.is_empty() {\n                    guard_zone = loc_s.apply_invariants(guard_zone);\n                }")],
 "an action only T knows, on a transition with updates, while S is in a location with an invariant","T moves although S's invariant is already broken",
 H+'''fn main() {
    let q = quot(comp("T", 1, vec![loc("A", I, None)], vec![edge("t0", "A", "A", "a", true, None, &[0])]), comp("S", 2, vec![loc("B", I, Some(le(2)))], vec![edge("s0", "B", "B", "c", false, None, &[0])]));
    let l = q.get_initial_location().unwrap();
    let m: Vec<_> = q.next_transitions(&l, "a").into_iter().filter(|t| !t.target_locations.is_universal() && !t.target_locations.is_inconsistent()).collect();
    assert!(m.iter().any(|t| has(&t.guard_zone, &[0, 5, 2, 0])));
    assert!(!m.iter().any(|t| has(&t.guard_zone, &[0, 5, 4, 0])));
}
''')
seed("w05","C11",[(F,"            .filter(|e| !e.guard_zone.is_empty())","            .filter(|e| !e.guard_zone.is_empty() && (e.target_locations.id != location.id || !e.updates.is_empty() || is_input))")],
 "an output of the quotient that leaves the pair of locations and all clocks as they are","the output is not offered, although another system may have to match or synchronise with it",
 H+'''fn main() {
    let q = quot(comp("T", 1, vec![loc("A", I, None)], vec![edge("t0", "A", "A", "d", false, None, &[])]), comp("S", 2, vec![loc("B", I, None)], vec![edge("s0", "B", "B", "c", false, None, &[])]));
    let l = q.get_initial_location().unwrap();
    assert_eq!(q.next_transitions(&l, "d").len(), 1);
}
''')
seed("w06","C11",[(F,"        None => OwnedFederation::universe(dim),","        None => OwnedFederation::init(dim),")],
 "S is in a location without an invariant and clocks have drifted apart when T's invariant fails","the extra input is not offered there",
 H+'''fn main() {
    let q = quot(comp("T", 1, vec![loc("A", I, Some(le(2)))], vec![edge("t0", "A", "A", "c", false, None, &[0])]), comp("S", 2, vec![loc("B", I, None)], vec![edge("s0", "B", "B", "c", false, None, &[])]));
    let l = q.get_initial_location().unwrap();
    let n: Vec<String> = q.get_input_actions().into_iter().filter(|a| a.starts_with("quotient_new_input")).collect();
    assert!(q.next_transitions(&l, &n[0]).iter().any(|t| t.target_locations.is_inconsistent() && has(&t.guard_zone, &[0, 3, 1, 2])));
}
''')
