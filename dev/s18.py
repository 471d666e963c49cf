from mkseed import seed
V="src/System/save_component.rs"; T="src/ModelObjects/transition.rs"; U="src/EdgeEval/updater.rs"; Z="src/TransitionSystems/location_tree.rs"
H=open("s6.py").read().split("H='''",1)[1].split("'''",1)[0]+'''use reveaal::System::save_component::*;
fn save(c: Component, all: bool) -> Component { let n = 1 + c.declarations.clocks.len(); combine_components(&ts(c, n), if all { PruningStrategy::NoPruning } else { PruningStrategy::Reachable }) }
fn ids(c: &Component) -> Vec<String> { let mut v: Vec<String> = c.edges.iter().map(|e| e.id.clone()).collect(); v.sort(); v }
fn locs(c: &Component) -> Vec<String> { let mut v: Vec<String> = c.locations.iter().map(|e| e.id.clone()).collect(); v.sort(); v }
fn never() -> Option<B> { Some(B::LessT(Box::new(A::VarName("x".into())), Box::new(A::Int(0)))) }
'''
seed("E01","C18",[(V,'''            if let Some(BoolExpression::Bool(false)) = guard {
                continue;
            }
''','''            if let Some(BoolExpression::Bool(false)) = guard {
                // No further edges on this action
                break;
            }
''')],
 "a transition that can never be taken, before one on the same action that can","the later transitions of the action are not saved",
 H+'''fn main() {
    let a = comp("A", 1, vec![loc("a", I, None)], vec![edge("p", "a", "a", "o", false, never(), &[]), edge("q", "a", "a", "o", false, Some(le(3)), &[]), edge("r", "a", "a", "i", true, None, &[])]);
    assert_eq!(ids(&save(a.clone(), true)), ["q", "r"]); assert_eq!(ids(&save(a, false)), ["q", "r"]);
}
''')
seed("E02","C18",[(V,'''                if !locations.contains(&target_location) {
                    locations.push(target_location.clone());
                    collect_reachable_locations(&target_location, representation, locations);
                }
''','''                if locations.contains(&target_location) {
                    break;
                }
                locations.push(target_location.clone());
                collect_reachable_locations(&target_location, representation, locations);
''')],
 "two transitions on one action of which the first leads to a location that is known already","what the second leads to is missing from the saved component",
 H+'''fn main() {
    let a = comp("A", 1, vec![loc("a", I, None), loc("b", N, None)], vec![edge("p", "a", "a", "o", false, None, &[]), edge("q", "a", "b", "o", false, Some(le(3)), &[])]);
    assert_eq!(locs(&save(a.clone(), true)), ["a", "b"]); assert_eq!(locs(&save(a, false)), ["a", "b"]);
}
''')
seed("E03","C18",[(V,'''        .iter()
        .cloned()
        .map(|loc_vec| {''','''        .iter()
        .cloned()
        .enumerate()
        .map(|(index, loc_vec)| {'''),(V,"            let location_type = if loc_vec.is_initial() {","            // Locations are collected from the initial one on\n            let location_type = if index == 0 && !loc_vec.is_universal() {")],
 "a component whose initial location is not the first one, saved with all its locations","another location becomes the initial one",
 H+'''fn main() {
    let a = comp("A", 1, vec![loc("b", N, None), loc("a", I, None)], vec![edge("q", "a", "b", "o", false, Some(le(3)), &[])]);
    for all in [true, false] { for l in save(a.clone(), all).locations { assert_eq!(l.location_type == I, l.id == "a"); } }
}
''')
seed("E04","C18",[(T,'''        let updates: Vec<_> = self.updates.iter().map(|u| u.as_update(naming)).collect();
''','''        // Later updates of a clock override earlier ones, so that order matters
        let updates: Vec<_> = self
            .updates
            .iter()
            .rev()
            .map(|u| u.as_update(naming))
            .collect();
''')],
 "an edge that sets one clock twice to different values","the saved edge leaves the clock at the first value",
 H+'''fn main() {
    let a = comp("A", 1, vec![loc("a", I, None)], vec![edge("q", "a", "a", "o", false, None, &[4, 1])]);
    let c = save(a, true); let u = c.edges[0].update.as_ref().unwrap();
    assert_eq!(u.last().unwrap().expression, A::Int(1));
}
''')
seed("E05","C18",[(V,"            edges.push(edge);","            let known = edges.iter().any(|e| {\n                e.source_location == edge.source_location\n                    && e.target_location == edge.target_location\n                    && e.sync == edge.sync\n                    && e.guard == edge.guard\n            });\n            if !known {\n                edges.push(edge);\n            }")],
 "two edges that differ only in their updates","only the first is saved",
 H+'''fn main() {
    let a = comp("A", 1, vec![loc("a", I, None)], vec![edge("p", "a", "a", "o", false, Some(le(2)), &[]), edge("q", "a", "a", "o", false, Some(le(2)), &[0])]);
    assert_eq!(ids(&save(a, false)), ["p", "q"]);
}
''')
seed("E06","C18",[(V,'''            let location_type = if loc_vec.is_initial() {''','''            // An empty zone cannot be written as an invariant
            let invariant = invariant.filter(|i| *i != BoolExpression::Bool(false));

            let location_type = if loc_vec.is_initial() {''')],
 "a location whose invariant nothing satisfies","the saved location can be stayed in for ever",
 H+'''fn main() {
    let a = comp("A", 1, vec![loc("a", I, None), loc("b", N, never())], vec![edge("q", "a", "b", "o", false, None, &[])]);
    let c = save(a, true); let b = c.locations.iter().find(|l| l.id == "b").unwrap();
    assert!(b.invariant.is_some());
}
''')
