from mkseed import seed
X="src/TransitionSystems/compiled_component.rs"; C="src/ModelObjects/component.rs"; T="src/ModelObjects/transition.rs"; L="src/TransitionSystems/location_tree.rs"
K="src/TransitionSystems/composition.rs"; J="src/TransitionSystems/conjunction.rs"; O="src/TransitionSystems/common.rs"; R="src/TransitionSystems/transition_system.rs"
H='''use reveaal::DataReader::parse_edge::Update;
use reveaal::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};
use reveaal::ModelObjects::*;
use reveaal::TransitionSystems::*;
fn loc(n: &str, t: LocationType, inv: Option<B>) -> Location { Location { id: n.into(), invariant: inv, location_type: t, urgency: "NORMAL".into() } }
fn edge(id: &str, s: &str, t: &str, a: &str, input: bool, g: Option<B>, u: &[i32]) -> Edge {
    Edge { id: id.into(), source_location: s.into(), target_location: t.into(), sync_type: if input { SyncType::Input } else { SyncType::Output }, guard: g, update: if u.is_empty() { None } else { Some(u.iter().map(|k| Update { variable: "x".into(), expression: A::Int(*k) }).collect()) }, sync: a.into() }
}
fn comp(n: &str, clock: usize, l: Vec<Location>, e: Vec<Edge>) -> Component {
    let mut d = Declarations::empty(); d.clocks.insert("x".into(), clock);
    Component { name: n.into(), declarations: d, locations: l, edges: e, special_id: None }
}
fn le(k: i32) -> B { B::LessEQ(Box::new(A::VarName("x".into())), Box::new(A::Int(k))) }
fn ts(c: Component, dim: usize) -> TransitionSystemPtr { CompiledComponent::compile(c, dim, &mut 0).map_err(|e| e.to_string()).unwrap() }
use LocationType::{Initial as I, Normal as N};
'''
seed("m01","C06",[(X,"            if *channel == action {","            if *channel == action && !transitions.iter().any(|t: &Transition| t.target_locations == transition.target_locations && t.updates.len() == transition.updates.len()) {")],
 "two edges on the same action from one location to the same target with the same number of updates","the second edge disappears although its guard or its updates differ",
 H+'''fn main() {
    let t = ts(comp("M", 1, vec![loc("A", I, None), loc("B", N, None)], vec![edge("e0", "A", "B", "a", true, Some(le(2)), &[0]), edge("e1", "A", "B", "a", true, None, &[3])]), 2);
    let l = t.get_initial_location().unwrap();
    let r = t.next_transitions(&l, "a");
    assert_eq!(r.len(), 2); assert_eq!(r[1].updates[0].value, 3);
}
''')
seed("m02","C06",[(C,'''                .filter(|e| e.sync_type == sync_type && e.sync != "*")''','''                .filter(|e| e.sync_type == sync_type && !e.sync.starts_with('*') && e.source_location != e.target_location || e.sync_type == sync_type && e.guard.is_none() && e.sync != "*")''')],
 "an action that occurs only on guarded self-loops","the action is missing from the alphabet",
 H+'''fn main() {
    let t = ts(comp("M", 1, vec![loc("A", I, None)], vec![edge("e0", "A", "A", "a", true, Some(le(2)), &[]), edge("e1", "A", "A", "b", false, None, &[])]), 2);
    assert!(t.get_input_actions().contains("a"));
    assert_eq!(t.next_transitions_if_available(&t.get_initial_location().unwrap(), "a").len(), 1);
}
''')
seed("m03","C06",[(X,"        if locations.is_inconsistent() && is_input {","        if locations.is_inconsistent() && (is_input || locations.get_invariants().is_none()) {")],
 "an output action at an inconsistent location without an invariant","an output becomes possible in the inconsistent location",
 H+'''fn main() {
    let t = ts(comp("M", 1, vec![loc("A", I, None), loc("Z", LocationType::Inconsistent, None)], vec![edge("e0", "A", "Z", "a", true, None, &[]), edge("e1", "A", "A", "b", false, None, &[])]), 2);
    let z = t.get_location(&LocationID::Simple("Z".into())).unwrap();
    assert_eq!(t.next_transitions(&z, "a").len(), 1);
    assert_eq!(t.next_transitions(&z, "b").len(), 0);
}
''')
seed("m04","C06",[(T,"        if let Some(updates) = edge.get_update() {\n            compiled_updates.extend(","        if let Some(updates) = edge.get_update() {\n            let updates: Vec<_> = updates.iter().rev().collect();\n            compiled_updates.extend(")] if False else
 [(X,"            let transition = Transition::from_component_and_edge(&component, edge, dim);","            let mut transition = Transition::from_component_and_edge(&component, edge, dim);\n            transition.updates.dedup_by_key(|u| u.clock_index);")],
 "an edge whose update list assigns the same clock twice in a row with different values","the first assignment wins",
 H+'''fn main() {
    let t = ts(comp("M", 1, vec![loc("A", I, None)], vec![edge("e0", "A", "A", "a", true, None, &[0, 3])]), 2);
    let r = t.next_transitions(&t.get_initial_location().unwrap(), "a");
    assert_eq!(r[0].updates.last().unwrap().value, 3);
}
''')
seed("p01","C07",[(K,"            if !right_out.contains(a) {\n                inputs.insert(a.clone());","            if !right_out.contains(a) || right_in.contains(a) && left_in.len() > 2 {\n                inputs.insert(a.clone());")] if False else
 [(K,"            if !left_out.contains(a) {\n                inputs.insert(a.clone());","            if !left_out.contains(a) || left_in.is_empty() {\n                inputs.insert(a.clone());")],
 "a left side without inputs, one of whose outputs is an input of the right side","the synchronised action is both an input and an output of the composition",
 H+'''fn main() {
    let a = ts(comp("A", 1, vec![loc("A", I, None)], vec![edge("e0", "A", "A", "c", false, None, &[])]), 3);
    let b = ts(comp("B", 2, vec![loc("B", I, None)], vec![edge("e1", "B", "B", "c", true, None, &[])]), 3);
    let t = Composition::new_ts(a, b, 3).map_err(|e| e.to_string()).unwrap();
    assert!(t.get_input_actions().is_empty()); assert!(t.get_output_actions().contains("c"));
}
''')
seed("p02","C07",[(K,"            left_unique_actions: left_actions.difference(&right_actions).cloned().collect(),","            left_unique_actions: left_actions.difference(&right_in).cloned().collect(),"),
 (K,"            common_actions: left_actions.intersection(&right_actions).cloned().collect(),","            common_actions: left_actions.intersection(&right_in).cloned().collect(),")],
 "an action that is an output of the right side and an input of the left side","the two sides no longer synchronise on it: the left side moves alone",
 H+'''fn main() {
    let a = ts(comp("A", 1, vec![loc("A", I, None)], vec![edge("e0", "A", "A", "c", true, None, &[])]), 3);
    let b = ts(comp("B", 2, vec![loc("B", I, None)], vec![edge("e1", "B", "B", "c", false, None, &[])]), 3);
    let t = Composition::new_ts(a, b, 3).map_err(|e| e.to_string()).unwrap();
    let r = t.next_transitions(&t.get_initial_location().unwrap(), "c");
    assert_eq!(r.len(), 1);
    assert_eq!(r[0].id, TransitionID::Composition(Box::new(TransitionID::Simple("e0".into())), Box::new(TransitionID::Simple("e1".into()))));
}
''')
seed("p03","C07",[(O,"        zone = init_loc.apply_invariants(zone);","        zone = init_loc.get_left().apply_invariants(zone);\n        if init_loc.get_right().get_left_opt().is_none() {\n            zone = init_loc.get_right().apply_invariants(zone);\n        }"),
 (L,"    pub fn get_right(&self) -> &LocationTree {","    pub fn get_left_opt(&self) -> Option<&LocationTree> {\n        self.left.as_deref()\n    }\n\n    pub fn get_right(&self) -> &LocationTree {")],
 "a composition whose right side is itself a composition with an invariant on its initial location","the initial state ignores the invariants of a nested right side",
 H+'''fn main() {
    let a = ts(comp("A", 1, vec![loc("A", I, None)], vec![edge("e0", "A", "A", "c", true, None, &[])]), 4);
    let b = ts(comp("B", 2, vec![loc("B", I, None)], vec![edge("e1", "B", "B", "c", true, None, &[])]), 4);
    let c = ts(comp("C", 3, vec![loc("C", I, Some(le(5)))], vec![edge("e2", "C", "C", "c", true, None, &[])]), 4);
    let bc = Composition::new_ts(b, c, 4).map_err(|e| e.to_string()).unwrap();
    let t = Composition::new_ts(a, bc, 4).map_err(|e| e.to_string()).unwrap();
    let s = t.get_initial_state().unwrap();
    assert!(s.zone_ref().subset_eq(s.decorated_locations.get_invariants().unwrap()));
}
''')
seed("j01","C08",[(T,"                let guard_zone = l.guard_zone.clone().intersection(&r.guard_zone);","                let guard_zone = if l.guard_zone.is_universe_like(r) { l.guard_zone.clone() } else { l.guard_zone.clone().intersection(&r.guard_zone) };")] if False else
 [(J,"        let outputs = left\n            .get_output_actions()\n            .intersection(&right.get_output_actions())\n            .cloned()\n            .collect();","        let outputs = if right.get_output_actions().is_empty() {\n            left.get_output_actions()\n        } else {\n            left.get_output_actions()\n                .intersection(&right.get_output_actions())\n                .cloned()\n                .collect()\n        };")],
 "a conjunction with a side that has no outputs at all","the other side's outputs become outputs of the conjunction",
 H+'''fn main() {
    let a = ts(comp("A", 1, vec![loc("A", I, None)], vec![edge("e0", "A", "A", "c", false, None, &[])]), 3);
    let b = ts(comp("B", 2, vec![loc("B", I, None)], vec![edge("e1", "B", "B", "a", true, None, &[])]), 3);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Conjunction::new_ts(a, b, 3).map_err(|e| e.to_string()).unwrap().get_output_actions().is_empty()));
    assert!(matches!(r, Ok(true)));
}
''')
seed("j02","C08",[(L,"                Some(inv1.clone().intersection(inv2))","                if left.loc_type == LocationType::Initial && right.loc_type != LocationType::Initial {\n                    Some(inv1.clone())\n                } else {\n                    Some(inv1.clone().intersection(inv2))\n                }")],
 "a pair of locations of which only the left one is initial and both have invariants","the right invariant is ignored there",
 H+'''fn main() {
    let a = ts(comp("A", 1, vec![loc("A", I, Some(le(9)))], vec![edge("e0", "A", "A", "c", false, None, &[0])]), 3);
    let b = ts(comp("B", 2, vec![loc("B", I, None), loc("D", N, Some(le(3)))], vec![edge("e1", "B", "D", "c", false, None, &[0]), edge("e2", "D", "B", "c", false, None, &[0])]), 3);
    let t = Conjunction::new_ts(a, b, 3).map_err(|e| e.to_string()).unwrap();
    let r = t.next_transitions(&t.get_initial_location().unwrap(), "c");
    let l = &r[0].target_locations;
    assert!(l.get_invariants().unwrap().subset_eq(l.get_right().get_invariants().unwrap()));
}
''')
seed("j03","C08",[(J,"        if !left_out.is_disjoint(&right_in) {","        if !left_out.is_disjoint(&right_in) && !left_in.is_empty() {")],
 "a conjunction whose left side has no inputs and outputs something that is an input of the right side","an ill-formed conjunction is built",
 H+'''fn main() {
    let a = ts(comp("A", 1, vec![loc("A", I, None)], vec![edge("e0", "A", "A", "c", false, None, &[])]), 3);
    let b = ts(comp("B", 2, vec![loc("B", I, None)], vec![edge("e1", "B", "B", "c", true, None, &[])]), 3);
    assert!(Conjunction::new_ts(a, b, 3).is_err());
}
''')
