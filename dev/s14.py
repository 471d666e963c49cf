from mkseed import seed
C="src/ModelObjects/component.rs"; O="src/TransitionSystems/common.rs"; N="src/TransitionSystems/quotient.rs"; X="src/TransitionSystems/compiled_component.rs"
H=open("s6.py").read().split("H='''",1)[1].split("'''",1)[0]+'''use edbm::util::{bounds::Bounds, constraints::Inequality::*};
use edbm::zones::OwnedFederation as Fed;
fn ge(k: i32) -> B { B::GreatEQ(Box::new(A::VarName("x".into())), Box::new(A::Int(k))) }
fn same(z: Fed, b: &Bounds) -> bool { z.clone().extrapolate_max_bounds(b).subset_eq(&z) }
/// the bounds tell x <= k and x >= k apart from weaker conditions
fn kept(b: &Bounds, x: usize, dim: usize, k: i32) -> bool { same(Fed::universe(dim).constrain(x, 0, LE(k)), b) && same(Fed::universe(dim).constrain(0, x, LE(-k)), b) }
'''
seed("z01","C14",[(C,"            // TODO: find more precise upper and lower bounds for clocks","            // A clock that is set to a constant never needs to be told apart beyond it\n            let max_bound = match self.edges.iter().filter_map(|e| e.update.as_ref()).count() {\n                n if n > 0 && n == self.edges.len() => max_bound.min(max_bound / 2 + 3),\n                _ => max_bound,\n            };\n            // TODO: find more precise upper and lower bounds for clocks")],
 "a component all of whose edges have updates, with a constant of at least 7","the bound of the clock is lowered, so extrapolation forgets that x is at least k",
 H+'''fn main() {
    let c = comp("C", 1, vec![loc("A", I, None)], vec![edge("e0", "A", "A", "a", true, Some(ge(9)), &[0])]);
    assert!(kept(&c.get_max_bounds(2), 1, 2, 9));
}
''')
seed("z02","C14",[(C,"                    .filter_map(|l| l.invariant.clone())","                    .filter(|l| self.edges.iter().any(|e| e.source_location == l.id))\n                    .filter_map(|l| l.invariant.clone())")],
 "a location without outgoing edges whose invariant has the largest constant","the invariant's constant is not part of the bounds",
 H+'''fn main() {
    let c = comp("C", 1, vec![loc("A", I, None), loc("B", N, Some(le(7)))], vec![edge("e0", "A", "B", "a", true, Some(le(2)), &[])]);
    assert!(kept(&c.get_max_bounds(2), 1, 2, 7));
}
''')
seed("z03","C14",[(O,"        bounds_l.add_bounds(&bounds_r);","        if !loc_r.is_inconsistent() {\n            bounds_l.add_bounds(&bounds_r);\n        }")],
 "a composition whose right component is at an inconsistent location with an invariant or outgoing edges that compare clocks","the right component's constants are missing from the bounds there",
 H+'''fn main() {
    let a = ts(comp("A", 1, vec![loc("A", I, None)], vec![edge("e0", "A", "A", "a", true, Some(le(2)), &[])]), 3);
    let b = ts(comp("B", 2, vec![loc("B", I, None), loc("Z", LocationType::Inconsistent, Some(le(6)))], vec![edge("e1", "B", "Z", "b", true, None, &[])]), 3);
    let t = Composition::new_ts(a, b, 3).map_err(|e| e.to_string()).unwrap();
    let l = t.get_all_locations().into_iter().find(|l| l.get_right().is_inconsistent()).unwrap();
    assert!(kept(&t.get_local_max_bounds(&l), 2, 3, 6));
}
''')
seed("z04","C14",[(N,"            bounds_l.add_bounds(&bounds_r);","            if !loc_l.is_universal() {\n                bounds_l.add_bounds(&bounds_r);\n            }")],
 "a quotient at a location whose left component is universal while the right one compares a clock","the right component's constants are missing from the bounds there",
 H+'''fn main() {
    let a = ts(comp("A", 1, vec![loc("A", I, None), loc("U", LocationType::Universal, None)], vec![edge("e0", "A", "U", "a", true, None, &[]), edge("e3", "A", "A", "c", false, None, &[])]), 4);
    let b = ts(comp("B", 2, vec![loc("B", I, Some(le(6)))], vec![edge("e1", "B", "B", "c", false, Some(ge(3)), &[0])]), 4);
    let t = Quotient::new_ts(a, b, 3, 4).map_err(|e| e.to_string()).unwrap();
    let l = t.get_all_locations().into_iter().find(|l| l.id == LocationID::Quotient(Box::new(LocationID::Simple("U".into())), Box::new(LocationID::Simple("B".into())))).unwrap();
    assert!(kept(&t.get_local_max_bounds(&l), 2, 4, 6));
}
''')
seed("z05","C14",[(X,"        let max_bounds = component.get_max_bounds(dim);","        let max_bounds = {\n            let mut used = component.clone();\n            used.edges.retain(|e| inputs.contains(&e.sync) || outputs.contains(&e.sync));\n            let edges = used.edges.clone();\n            used.locations.retain(|l| edges.iter().any(|e| e.target_location == l.id) || l.location_type == crate::ModelObjects::LocationType::Initial);\n            used.get_max_bounds(dim)\n        };")],
 "a location that no edge enters, asked about directly (as in a reachability query), with the largest constant in its invariant","the constants of that location are missing from the bounds of the compiled component",
 H+'''fn main() {
    let t = ts(comp("C", 1, vec![loc("A", I, None), loc("B", N, Some(le(7)))], vec![edge("e0", "B", "A", "a", true, Some(le(2)), &[])]), 2);
    let l = t.get_location(&LocationID::Simple("B".into())).unwrap();
    assert!(kept(&t.get_local_max_bounds(&l), 1, 2, 7));
}
''')
