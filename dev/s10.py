from mkseed import seed
F="src/System/refine.rs"; P="src/ModelObjects/statepair.rs"
H="H"; H=open("s6.py").read().split("H='''",1)[1].split("'''",1)[0]+'''use reveaal::System::refine::check_refinement;
fn ge(k: i32) -> B { B::GreatEQ(Box::new(A::VarName("x".into())), Box::new(A::Int(k))) }
fn refines(s: Component, t: Component) -> bool { check_refinement(ts(s, 3), ts(t, 3)).is_ok() }
'''
seed("v01","C10",[(F,"    let result_federation = fed1.subtraction(&fed2);","    let result_federation = if fed2.subset_eq(&fed1) && transitions2.len() > 1 { OwnedFederation::empty(fed1.dim()) } else { fed1.subtraction(&fed2) };")],
 "the other side has several transitions on the action which together cover only part of the challenger's","a partially matched output is accepted",
 H+'''fn main() {
    let t = |g2: i32| comp("T", 1, vec![loc("A", I, None)], vec![edge("e0", "A", "A", "c", false, Some(le(1)), &[]), edge("e1", "A", "A", "c", false, Some(ge(g2)), &[])]);
    let s = || comp("S", 2, vec![loc("B", I, None)], vec![edge("e0", "B", "B", "c", false, Some(ge(0)), &[])]);
    assert!(!refines(s(), t(4)));
    let s2 = comp("S", 2, vec![loc("B", I, None)], vec![edge("e0", "B", "B", "c", false, Some(ge(4)), &[])]);
    assert!(refines(s2, t(4)));
}
''')
seed("v02","C10",[(F,"    if !(s_invariant.subset_eq(&t_invariant)) {","    if !(t_invariant.subset_eq(&s_invariant) || s_invariant.subset_eq(&t_invariant)) {")],
 "the right system's invariant cuts off delays after a joint move but allows nothing beyond the left one's","a cut-off delay is accepted",
 H+'''fn main() {
    let t = comp("T", 1, vec![loc("A", I, None), loc("A1", N, Some(le(3)))], vec![edge("e0", "A", "A1", "c", false, None, &[0]), edge("e1", "A1", "A", "d", false, None, &[])]);
    let s = comp("S", 2, vec![loc("B", I, None), loc("B1", N, Some(le(5)))], vec![edge("e0", "B", "B1", "c", false, None, &[0]), edge("e1", "B1", "B", "d", false, Some(le(2)), &[])]);
    assert!(!refines(s, t));
}
''')
seed("v03","C10",[(F,"    if new_sp_zone.is_empty() || s_invariant.is_empty() {","    let known = context.passed_list.keys().any(|(a, b)| *a == right_loc.id && *b == left_loc.id);\n    if new_sp_zone.is_empty() || s_invariant.is_empty() || known {")],
 "the two systems use the same location names and the search comes to a pair whose mirror image was already passed","the pair is never examined, so a mismatch there is missed",
 H+'''fn main() {
    let c = |n: &str, k: usize, g: Option<B>| comp(n, k, vec![loc("A", I, None), loc("B", N, None)], vec![edge("e0", "A", "B", "c", false, None, &[]), edge("e1", "B", "B", "d", false, g, &[])]);
    let t = comp("T", 1, vec![loc("A", N, None), loc("B", I, None)], vec![edge("e0", "B", "A", "c", false, None, &[]), edge("e1", "A", "A", "d", false, Some(le(2)), &[])]);
    assert!(!refines(c("S", 2, None), t.clone()));
    assert!(refines(c("S", 2, Some(le(2))), t));
}
''')
seed("v04","C10",[(P,"        let mut bounds = sys1.get_local_max_bounds(&self.locations1);","        let mut bounds = if self.locations1.id == self.locations2.id { sys2.get_local_max_bounds(&self.locations1) } else { sys1.get_local_max_bounds(&self.locations1) };")],
 "both systems use the same location id and the left system has the larger constants","the zone is widened beyond the left system's own constants, so a false mismatch is reported",
 H+'''fn main() {
    let s = comp("S", 2, vec![loc("A", I, Some(le(3))), loc("Q", N, None)], vec![edge("e0", "A", "Q", "c", false, Some(ge(2)), &[])]);
    let t = comp("T", 1, vec![loc("A", I, None), loc("R", N, None)], vec![edge("e0", "A", "R", "c", false, Some(ge(1)), &[])]);
    assert!(refines(s.clone(), t.clone()));
    let s = comp("S", 2, vec![loc("Z", I, None), loc("A", N, Some(B::LessEQ(Box::new(A::VarName("x".into())), Box::new(A::Int(9))))), loc("Q", N, None)], vec![edge("e", "Z", "A", "d", false, None, &[0]), edge("e0", "A", "Q", "c", false, Some(ge(8)), &[])]);
    let t = comp("T", 1, vec![loc("Z", I, None), loc("A", N, None), loc("R", N, None)], vec![edge("e", "Z", "A", "d", false, None, &[0]), edge("e0", "A", "R", "c", false, Some(le(20)), &[])]);
    assert!(refines(s, t));
}
''')
seed("v05","C10",[(F,"    } else if !t_inputs.is_disjoint(&s_outputs) {","    } else if t_inputs.is_subset(&s_outputs) && !t_inputs.is_empty() {")],
 "some but not all inputs of the right system are outputs of the left one","the clash of alphabets is not reported",
 H+'''fn main() {
    let s = comp("S", 2, vec![loc("A", I, None)], vec![edge("e0", "A", "A", "c", false, None, &[])]);
    let t = comp("T", 1, vec![loc("B", I, None)], vec![edge("e0", "B", "B", "c", true, None, &[]), edge("e1", "B", "B", "a", true, None, &[])]);
    assert!(!refines(s, t));
}
''')
seed("v06","C10",[(F,"        (locations2, locations1)\n    };","        let flip = transition1.updates.is_empty() && !transition2.updates.is_empty();\n        if flip { (locations1, locations2) } else { (locations2, locations1) }\n    };")],
 "an input on which only the left system resets clocks, into locations with different invariants","the delay check is made in the wrong direction",
 H+'''fn main() {
    let t = comp("T", 1, vec![loc("A", I, None), loc("A1", N, None)], vec![edge("e0", "A", "A1", "a", true, None, &[])]);
    let s = comp("S", 2, vec![loc("B", I, None), loc("B1", N, Some(le(5)))], vec![edge("e0", "B", "B1", "a", true, None, &[0]), edge("e1", "B1", "B", "d", false, None, &[])]);
    assert!(refines(s, t));
}
''')
