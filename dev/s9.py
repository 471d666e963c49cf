from mkseed import seed
Q="src/DataTypes/statepair_list.rs"; P="src/ModelObjects/statepair.rs"
H='''use edbm::util::constraints::*;
use edbm::zones::OwnedFederation as F;
use reveaal::DataTypes::*;
use reveaal::ModelObjects::*;
use reveaal::TransitionSystems::LocationTree;
fn l(n: &str) -> LocationTree { LocationTree::simple(&Location { id: n.into(), invariant: None, location_type: LocationType::Normal, urgency: "NORMAL".into() }, &Declarations::empty(), 2) }
fn z(lo: i32, hi: i32) -> F { F::universe(2).constrain(0, 1, Inequality::LE(-lo)).constrain(1, 0, Inequality::LE(hi)) }
fn p(a: &str, b: &str, f: F) -> StatePair { let mut s = StatePair::from_locations(2, l(a), l(b)); s.set_zone(f); s }
'''
seed("q01","C09",[(Q,"let _ = vec.pop_front().unwrap();","let _ = vec.pop_back().unwrap();")],
 "two waiting pairs with the same locations and different zones, the newer one popped","the list forgets the older, still waiting zone and keeps the popped one",
 H+'''fn main() {
    let mut w = WaitingStateList::new();
    w.put(p("A", "B", z(0, 1))); w.put(p("A", "B", z(5, 6)));
    assert!(w.pop().unwrap().ref_zone().equals(&z(5, 6)));
    assert!(w.has(&p("A", "B", z(0, 1)))); assert!(!w.has(&p("A", "B", z(5, 6))));
}
''')
seed("q02","C09",[(Q,"        if let Some(f) = self.get(&key) {","        if let Some(f) = self.get(&key).filter(|f| !fed.subset_eq(f)) {")],
 "a pair is put whose zone is already covered at the same locations","the earlier coverage is replaced by the smaller zone",
 H+'''fn main() {
    let mut w = PassedStateList::new();
    w.put(p("A", "B", z(0, 8))); w.put(p("A", "B", z(2, 3)));
    assert!(w.has(&p("A", "B", z(1, 6)))); assert!(!w.has(&p("B", "A", z(1, 6))));
}
''')
seed("q03","C09",[(Q,"        match self.map.get(&key) {\n            Some(vec) => vec.iter().any(|f| fed.subset_eq(f)),","        match self.map.get(&key) {\n            Some(vec) => vec.iter().max_by_key(|f| usize::from(f.has_intersection(fed))).map_or(false, |f| fed.subset_eq(f)),")],
 "several waiting zones at the same locations, of which an older one contains the new zone and a later one only overlaps it","a pair that is already waiting is not recognised, depending on the order",
 H+'''fn main() {
    let mut w = WaitingStateList::new();
    w.put(p("A", "B", z(3, 9))); w.put(p("A", "B", z(0, 9))); w.put(p("A", "B", z(5, 6)));
    assert!(w.has(&p("A", "B", z(5, 6))));
    assert!(w.has(&p("A", "B", z(1, 2)))); assert!(w.has(&p("A", "B", z(4, 8)))); 
    let mut w = WaitingStateList::new();
    w.put(p("A", "B", z(4, 9))); w.put(p("A", "B", z(0, 5)));
    assert!(w.has(&p("A", "B", z(3, 5)))); assert!(w.has(&p("A", "B", z(5, 8))));
}
''')
