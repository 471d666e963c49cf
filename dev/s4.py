from mkseed import seed
T="src/ModelObjects/transition.rs"; S="src/ModelObjects/state.rs"; L="src/TransitionSystems/location_tree.rs"; U="src/EdgeEval/updater.rs"
HEAD='''use edbm::zones::OwnedFederation as F;
use edbm::util::constraints::Inequality::*;
use reveaal::EdgeEval::updater::CompiledUpdate;
use reveaal::ModelObjects::{Declarations, Location, LocationType, State, Transition};
use reveaal::TransitionSystems::{LocationTree, TransitionID};
fn loc(id: &str, inv: Option<F>) -> LocationTree {
    let l = Location { id: id.into(), invariant: None, location_type: LocationType::Normal, urgency: "NORMAL".into() };
    let mut t = LocationTree::simple(&l, &Declarations::empty(), 3); t.invariant = inv; t
}
fn tr(to: LocationTree, guard: F, us: &[(usize, i32)]) -> Transition {
    Transition { id: TransitionID::Simple("e".into()), guard_zone: guard, target_locations: to, updates: us.iter().map(|(c, v)| CompiledUpdate { clock_index: *c, value: *v }).collect() }
}
fn all() -> F { F::universe(3) }
'''
seed("u01","C04",[(T,"        for update in &self.updates {\n            fed = update.apply(fed);\n        }","        for update in self.updates.iter().rev() {\n            fed = update.apply(fed);\n        }")],
 "an edge that assigns the same clock twice with different values","the first assignment wins",
 HEAD+'''fn main() {
    let t = tr(loc("B", None), all(), &[(1, 1), (1, 2)]);
    let s = t.use_transition_alt(&State::new(loc("A", None), all())).unwrap();
    assert!(s.zone_ref().equals(&all().update_clock_val(1, 2).up()), "{}", s.zone_ref());
}
''')
seed("u02","C04",[(L,"        if let Some(inv) = &self.invariant {\n            fed = fed.intersection(inv);\n        }","        if let Some(inv) = &self.invariant {\n            if !fed.is_empty() && !inv.has_intersection(&fed) {\n                return fed.down().intersection(inv);\n            }\n            fed = fed.intersection(inv);\n        }")],
 "a zone that lies wholly beyond the invariant of the location","the invariant is applied to the past of the zone instead, so a transition into a violated invariant is taken",
 HEAD+'''fn main() {
    let inv = all().constrain(1, 0, LE(3));
    let t = tr(loc("B", Some(inv)), all(), &[]);
    let z = all().constrain(0, 1, LS(-4));
    assert!(t.use_transition_alt(&State::new(loc("A", None), z)).is_none());
}
''')
seed("u03","C04",[(T,"        let mut zone = state.take_zone();\n        zone = self.apply_guards(zone);\n        if !zone.is_empty() {","        let mut zone = state.take_zone();\n        if self.updates.is_empty()\n            && self.guard_zone.has_intersection(&zone)\n            && state.decorated_locations.id == self.target_locations.id\n        {\n            state.set_zone(zone);\n            return true;\n        }\n        zone = self.apply_guards(zone);\n        if !zone.is_empty() {")],
 "a self-loop without updates whose guard excludes part of the zone","the guard is not applied to the zone",
 HEAD+'''fn main() {
    let t = tr(loc("A", None), all().constrain(0, 1, LE(-5)), &[]);
    let s = t.use_transition_alt(&State::new(loc("A", None), all())).unwrap();
    assert!(s.zone_ref().equals(&all().constrain(0, 1, LE(-5))), "{}", s.zone_ref());
}
''')
seed("a01","C05",[(T,"        fed = self.inverse_apply_updates(fed);\n        self.apply_guards(fed)","        fed = self.apply_guards(fed);\n        self.inverse_apply_updates(fed)")],
 "a transition whose guard restricts a clock that it also updates","the guard is evaluated on the values after the update",
 HEAD+'''fn main() {
    let t = tr(loc("B", None), all().constrain(0, 1, LE(-5)), &[(1, 0)]);
    assert!(t.get_allowed_federation().equals(&all().constrain(0, 1, LE(-5))));
}
''')
seed("a02","C05",[(U,"        fed.constrain_eq(self.clock_index, self.value)","        use edbm::util::constraints::Inequality::LE;\n        fed.constrain(self.clock_index, 0, LE(self.value))")],
 "a clock set to a positive value that the target invariant bounds from below","states that violate the target invariant after the update count as allowed",
 HEAD+'''fn main() {
    let inv = all().constrain(0, 1, LE(-2)).constrain(1, 0, LE(4)) + all().constrain(1, 0, LE(1));
    let t = tr(loc("B", Some(all().constrain(1, 0, LE(1)))), all(), &[(1, 3)]);
    assert!(t.get_allowed_federation().is_empty());
    let t = tr(loc("B", Some(inv)), all(), &[(1, 3)]);
    assert!(t.get_allowed_federation().equals(&all()));
}
''')
seed("a03","C05",[(T,"        let mut fed = match self.target_locations.get_invariants() {\n            Some(fed) => fed.clone(),","        let mut fed = match self.target_locations.get_invariants() {\n            Some(_) if self.updates.is_empty() => return self.guard_zone.clone(),\n            Some(fed) => fed.clone(),")],
 "a transition without updates into a location with an invariant","the target invariant is ignored",
 HEAD+'''fn main() {
    let t = tr(loc("B", Some(all().constrain(1, 0, LE(3)))), all(), &[]);
    assert!(t.get_allowed_federation().equals(&all().constrain(1, 0, LE(3))));
}
''')
