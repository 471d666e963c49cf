pub mod vxkey2 { use vstd::prelude::*; use super::LocationID;
pub broadcast axiom fn ax_loc_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<LocationID>();
pub broadcast axiom fn ax_pair_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<(LocationID, LocationID)>();
pub broadcast group group_vx_key2 { ax_loc_key, ax_pair_key }
}
broadcast use {vxkey2::group_vx_key2};
pub assume_specification<T, A: std::alloc::Allocator>[VecDeque::<T, A>::is_empty](v: &VecDeque<T, A>) -> (r: bool) ensures r <==> v@.len() == 0;
pub assume_specification<T, A: std::alloc::Allocator>[<VecDeque<T, A> as From<Vec<T, A>>>::from](v: Vec<T, A>) -> (r: VecDeque<T, A>) ensures r@ == v@;
pub type Key = (LocationID, LocationID);
pub open spec fn pair_ok(p: StatePair, n: int) -> bool { p.zone_sentinel is Some && p.zone_sentinel->0.n() == n }
pub open spec fn key_of(p: StatePair) -> Key { (p.locations1.id, p.locations2.id) }
pub open spec fn pz(p: StatePair) -> OwnedFederation { p.zone_sentinel->0 }
/// PassedStateListFed is a type alias of this map; the wrapper only exists because contracts cannot be attached to an alias of a foreign type
pub struct PassedMap { pub m: HashMap<(LocationID, LocationID), OwnedFederation> }
impl PassedMap {
    pub fn new() -> (r: Self) ensures r.m@ == Map::<Key, OwnedFederation>::empty() { PassedMap { m: HashMap::new() } }
    pub fn get(&self, k: &Key) -> (r: Option<&OwnedFederation>) ensures match r { Some(f) => self.m@.contains_key(*k) && *f == self.m@[*k], None => !self.m@.contains_key(*k) } { self.m.get(k) }
    pub fn insert(&mut self, k: Key, f: OwnedFederation) ensures final(self).m@ == old(self).m@.insert(k, f) { self.m.insert(k, f); }
    pub fn contains_key(&self, k: &Key) -> (r: bool) ensures r == self.m@.contains_key(*k) { self.m.contains_key(k) }
    pub open spec fn wf(&self, n: int) -> bool { forall|k: Key| #[trigger] self.m@.contains_key(k) ==> self.m@[k].n() == n }
    /// the valuation was passed at this pair of locations
    pub open spec fn covers(&self, k: Key, v: Val) -> bool { self.m@.contains_key(k) && self.m@[k].has(v) }
}
/// the zones of the queued pairs with these locations, in order
pub open spec fn zones_of(q: Seq<StatePair>, k: Key) -> Seq<OwnedFederation> decreases q.len() {
    if q.len() == 0 { Seq::empty() } else { let r = zones_of(q.subrange(1, q.len() as int), k); if key_of(q[0]) == k { seq![pz(q[0])] + r } else { r } }
}
impl DepthFirstWaitingStateList {
    pub open spec fn wf(&self, n: int) -> bool {
        &&& forall|i: int| 0 <= i < self.queue@.len() ==> pair_ok(#[trigger] self.queue@[i], n)
        &&& forall|k: Key| #[trigger] self.map@.contains_key(k) ==> self.map@[k]@ == zones_of(self.queue@, k)
        &&& forall|k: Key| !(#[trigger] self.map@.contains_key(k)) ==> zones_of(self.queue@, k).len() == 0
    }
    /// some waiting pair at the same locations contains the zone of this one
    pub open spec fn contains(&self, p: StatePair) -> bool { exists|i: int| 0 <= i < self.queue@.len() && key_of(#[trigger] self.queue@[i]) == key_of(p) && subset(pz(p), pz(self.queue@[i])) }
}
pub proof fn lemma_cons(p: StatePair, q: Seq<StatePair>, k: Key)
    ensures zones_of(seq![p] + q, k) == (if key_of(p) == k { seq![pz(p)] + zones_of(q, k) } else { zones_of(q, k) })
{ assert((seq![p] + q).subrange(1, (seq![p] + q).len() as int) =~= q); }
/// some queued pair with these locations has this zone
pub open spec fn queued(q: Seq<StatePair>, k: Key, z: OwnedFederation) -> bool { exists|i: int| 0 <= i < q.len() && key_of(#[trigger] q[i]) == k && pz(q[i]) == z }
/// the zones listed for a location pair are those of the queued pairs with these locations
pub proof fn lemma_zones(q: Seq<StatePair>, k: Key)
    ensures
        forall|j: int| 0 <= j < zones_of(q, k).len() ==> queued(q, k, #[trigger] zones_of(q, k)[j]),
        forall|z: OwnedFederation| #[trigger] queued(q, k, z) ==> zones_of(q, k).contains(z),
    decreases q.len()
{
    if q.len() > 0 {
        let t = q.subrange(1, q.len() as int);
        lemma_zones(t, k);
        assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == q[i + 1]);
        assert forall|z: OwnedFederation| #[trigger] queued(t, k, z) implies queued(q, k, z) by {
            let i = choose|i: int| 0 <= i < t.len() && key_of(#[trigger] t[i]) == k && pz(t[i]) == z; assert(key_of(q[i + 1]) == k && pz(q[i + 1]) == z);
        }
        assert forall|j: int| 0 <= j < zones_of(q, k).len() implies queued(q, k, #[trigger] zones_of(q, k)[j]) by {
            if key_of(q[0]) == k && j == 0 { assert(key_of(q[0]) == k && pz(q[0]) == zones_of(q, k)[0]); }
            else { let jj = if key_of(q[0]) == k { j - 1 } else { j }; assert(zones_of(q, k)[j] == zones_of(t, k)[jj]); assert(queued(t, k, zones_of(t, k)[jj])); }
        }
        assert forall|z: OwnedFederation| #[trigger] queued(q, k, z) implies zones_of(q, k).contains(z) by {
            let i = choose|i: int| 0 <= i < q.len() && key_of(#[trigger] q[i]) == k && pz(q[i]) == z;
            if i == 0 { assert(zones_of(q, k)[0] == z); }
            else { assert(t[i - 1] == q[i]); assert(queued(t, k, z)); let j = choose|j: int| 0 <= j < zones_of(t, k).len() && #[trigger] zones_of(t, k)[j] == z; let jj = if key_of(q[0]) == k { j + 1 } else { j }; assert(zones_of(q, k)[jj] == z); }
        }
    }
}
