from mkseed import seed
R="src/TransitionSystems/transition_system.rs"; C="src/ModelObjects/component.rs"; N="src/System/extract_system_rep.rs"
H=open("s15.py").read().split("H=open",1)[1].split("+'''",1)[1].split("'''",1)[0]
H=open("s6.py").read().split("H='''",1)[1].split("'''",1)[0]+H+'''use reveaal::TransitionSystems::transition_system::ClockReductionInstruction as In;
fn v(n: &str) -> Box<A> { Box::new(A::VarName(n.into())) }
fn k(n: i32) -> Box<A> { Box::new(A::Int(n)) }
fn upd(us: &[(&str, i32)]) -> Option<Vec<Update>> { Some(us.iter().map(|(n, x)| Update { variable: (*n).into(), expression: A::Int(*x) }).collect()) }
fn with(mut c: Component, clocks: &[&str]) -> Component { c.declarations.clocks.clear(); for (i, n) in clocks.iter().enumerate() { c.declarations.clocks.insert((*n).into(), i + 1); } c }
fn setting(mut e: Edge, us: &[(&str, i32)]) -> Edge { e.update = upd(us); e }
fn red(cm: &Component, dim: usize) -> Vec<In> { ts(cm.clone(), dim).find_redundant_clocks() }
fn merged(r: &[In], a: usize, b: usize) -> bool { r.iter().any(|i| match i { In::ReplaceClocks { clock_index, clock_indices } => (*clock_index == a || clock_indices.contains(&a)) && (*clock_index == b || clock_indices.contains(&b)), _ => false }) }
fn gone(r: &[In], a: usize) -> bool { r.iter().any(|i| matches!(i, In::RemoveClock { clock_index } if *clock_index == a)) }
'''
seed("B01","C16",[(R,"                group_offset += (u32::MAX as usize) * 2;","                group_offset += equivalent_clock_group.len();")],
 "four clocks in two groups of equal clocks, and an edge that sets the first group to a larger value than the second by just the size of the first","clocks of different groups that are set to different values count as equal and are merged",
 H+'''fn main() {
    let g = |n: &str| Some(B::LessEQ(v(n), k(9)));
    let mut es: Vec<Edge> = ["x", "y", "z", "w"].iter().enumerate().map(|(i, n)| edge(&format!("g{i}"), "a", "a", "i", true, g(n), &[])).collect();
    es.push(setting(edge("p", "a", "b", "j", true, None, &[]), &[("x", 1), ("y", 1)]));
    es.push(setting(edge("q", "b", "a", "j", true, None, &[]), &[("x", 2), ("y", 2), ("z", 0), ("w", 0)]));
    es.push(setting(edge("r", "b", "a", "i", true, None, &[]), &[("x", 0), ("y", 0), ("z", 2), ("w", 2)]));
    let c = with(comp("A", 1, vec![loc("a", I, None), loc("b", N, None)], es), &["x", "y", "z", "w"]);
    for _ in 0..40 { let r = red(&c, 5); for (a, b) in [(1, 3), (1, 4), (2, 3), (2, 4)] { assert!(!merged(&r, a, b)); } assert!(merged(&r, 1, 2) && merged(&r, 3, 4)); }
}
''')
seed("B02","C16",[(R,"                locally_equivalent_clock_groups.insert(update.clock_index, update.value as u32);","                locally_equivalent_clock_groups\n                    .entry(update.clock_index)\n                    .or_insert(update.value as u32);")],
 "an edge that sets one clock twice, first to the value that another clock is set to","the two clocks are merged although the last value of one differs",
 H+'''fn main() {
    let c = with(comp("A", 1, vec![loc("a", I, None)], vec![setting(edge("p", "a", "a", "j", true, Some(B::AndOp(Box::new(B::LessEQ(v("x"), k(4))), Box::new(B::LessEQ(v("y"), k(7))))), &[]), &[("x", 1), ("y", 1), ("x", 3)])]), &["x", "y"]);
    assert!(!merged(&red(&c, 3), 1, 2));
    let c = with(comp("A", 1, vec![loc("a", I, None)], vec![setting(edge("p", "a", "a", "j", true, Some(B::AndOp(Box::new(B::LessEQ(v("x"), k(4))), Box::new(B::LessEQ(v("y"), k(7))))), &[]), &[("x", 1), ("y", 3), ("x", 3)])]), &["x", "y"]);
    assert!(merged(&red(&c, 3), 1, 2));
}
''')
seed("B03","C16",[(R,"                for transition in self.next_transitions_if_available(&location, action) {","                for transition in self.next_transitions_if_available(&location, action) {\n                    // A self loop that sets no clock cannot change the state\n                    if transition.updates.is_empty()\n                        && transition.target_locations.id == location.id\n                    {\n                        continue;\n                    }")],
 "a clock that is only looked at by self loops without updates","the clock is removed although a guard depends on it",
 H+'''fn main() {
    let c = with(comp("A", 1, vec![loc("a", I, None)], vec![edge("p", "a", "a", "j", true, Some(B::LessEQ(v("y"), k(7))), &[]), edge("q", "a", "a", "i", true, Some(B::LessEQ(v("x"), k(2))), &[0])]), &["x", "y"]);
    let r = red(&c, 3); assert!(!gone(&r, 2)); assert!(!gone(&r, 1));
}
''')
seed("B04","C16",[(C,"            .filter(|e| e.update.is_some() || e.guard.is_some())","            .filter(|e| e.guard.is_some())")],
 "an edge that sets the removed clock and has no guard","the update of the removed clock stays, so that the reduced system cannot be compiled",
 H+'''fn main() {
    let a = with(comp("A", 1, vec![loc("a", I, Some(B::LessEQ(v("x"), k(5))))], vec![setting(edge("p", "a", "a", "o", false, None, &[]), &[("x", 0), ("y", 0)])]), &["x", "y"]);
    let mut l = lib(vec![a]); l.settings.disable_clock_reduction = false;
    match ask(Q::Consistency(c("A")), &mut l) { Some(QueryResult::Consistency(r)) => assert!(r.is_ok()), _ => panic!() }
}
''')
seed("B05","C16",[(R,"                        node.invariant_dependencies.insert(constraint.j);","                        if constraint.i == 0 {\n                            node.invariant_dependencies.insert(constraint.j);\n                        }")],
 "an invariant on the difference of two clocks, the second of which nothing else looks at","the second clock is removed although the invariant depends on it",
 H+'''fn main() {
    let c = with(comp("A", 1, vec![loc("a", I, Some(B::LessEQ(Box::new(A::Difference(v("x"), v("y"))), k(3))))], vec![setting(edge("q", "a", "a", "i", true, None, &[]), &[("y", 0)])]), &["x", "y"]);
    let r = red(&c, 3); assert!(!gone(&r, 2)); assert!(!gone(&r, 1));
}
''')
seed("B06","C16",[(C,"                    inv.retain(|u| u.variable != name);","                    if let Some(pos) = inv.iter().position(|u| u.variable == name) {\n                        inv.remove(pos);\n                    }")],
 "an edge that sets the removed clock twice","one update of the removed clock stays, so that the reduced system cannot be compiled",
 H+'''fn main() {
    let a = with(comp("A", 1, vec![loc("a", I, Some(B::LessEQ(v("x"), k(5))))], vec![setting(edge("p", "a", "a", "o", false, None, &[]), &[("x", 0), ("y", 0), ("y", 1)])]), &["x", "y"]);
    let mut l = lib(vec![a]); l.settings.disable_clock_reduction = false;
    match ask(Q::Consistency(c("A")), &mut l) { Some(QueryResult::Consistency(r)) => assert!(r.is_ok()), _ => panic!() }
}
''')
