pub open spec fn lists_v<T>(s: Seq<T>, x: Set<T>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> x.contains(#[trigger] s[i])) && (forall|e: T| #[trigger] x.contains(e) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == e)
}
pub mod vxset { use vstd::prelude::*; use std::collections::HashSet; use super::mk;
broadcast use vstd::std_specs::hash::group_hash_axioms;
pub open spec fn lists<T>(s: Seq<&T>, x: Set<T>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> x.contains(*#[trigger] s[i])) && (forall|e: T| #[trigger] x.contains(e) ==> exists|i: int| 0 <= i < s.len() && *#[trigger] s[i] == e)
}
/// what vstd says about iterating a set, in a form that instantiates well
pub broadcast proof fn lemma_lists<T>(s: Seq<&T>, x: Set<T>)
    requires s.unref().to_set() == x
    ensures #[trigger] lists(s, x)
{
    assert forall|i: int| 0 <= i < s.len() implies x.contains(*#[trigger] s[i]) by { assert(s.unref()[i] == *s[i]); assert(s.unref().to_set().contains(*s[i])); }
    assert forall|e: T| #[trigger] x.contains(e) implies exists|i: int| 0 <= i < s.len() && *#[trigger] s[i] == e by {
        assert(s.unref().to_set().contains(e)); let i = choose|i: int| 0 <= i < s.unref().len() && s.unref()[i] == e; assert(*s[i] == e);
    }
}
pub broadcast axiom fn ax_set_str(m: Set<String>, k: &str) ensures #[trigger] vstd::std_specs::hash::set_contains_borrowed_key::<String, str>(m, k) <==> m.contains(mk(k@));
pub broadcast proof fn lemma_push_contains<T>(s: Seq<T>, x: T, a: T) ensures #[trigger] s.push(x).contains(a) <==> s.contains(a) || a == x {
    if s.contains(a) { let i = choose|i: int| 0 <= i < s.len() && s[i] == a; assert(s.push(x)[i] == a); }
    if a == x { assert(s.push(x)[s.len() as int] == a); }
}
pub broadcast group group_vx_sets { ax_set_str, lemma_lists, lemma_push_contains }
}
broadcast use {vxset::group_vx_sets};
#[verifier::external_body] pub fn vx_set_union<T: std::hash::Hash + Eq + Clone>(a: &HashSet<T>, b: &HashSet<T>) -> (r: HashSet<T>) ensures r@ == a@.union(b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_set_intersection<T: std::hash::Hash + Eq + Clone>(a: &HashSet<T>, b: &HashSet<T>) -> (r: HashSet<T>) ensures r@ == a@.intersect(b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_set_difference<T: std::hash::Hash + Eq + Clone>(a: &HashSet<T>, b: &HashSet<T>) -> (r: HashSet<T>) ensures r@ == a@.difference(b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_set_is_disjoint<T: std::hash::Hash + Eq>(a: &HashSet<T>, b: &HashSet<T>) -> (r: bool) ensures r <==> a@.disjoint(b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_set_is_subset<T: std::hash::Hash + Eq>(a: &HashSet<T>, b: &HashSet<T>) -> (r: bool) ensures r <==> a@.subset_of(b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_set_is_superset<T: std::hash::Hash + Eq>(a: &HashSet<T>, b: &HashSet<T>) -> (r: bool) ensures r <==> b@.subset_of(a@) { unimplemented!() }
#[verifier::external_body] pub fn vx_elems<T: std::hash::Hash + Eq>(a: HashSet<T>) -> (r: Vec<T>) ensures lists_v(r@, a@), r@.no_duplicates() { unimplemented!() }
pub use vxset::lists;
#[verifier::external_body] pub fn vx_set_clone<T: std::hash::Hash + Eq + Clone>(a: &HashSet<T>) -> (r: HashSet<T>) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body] pub fn vx_unique<T: std::hash::Hash + Eq + Clone>(a: Vec<T>) -> (r: Vec<T>) ensures forall|e: T| #[trigger] r@.contains(e) <==> a@.contains(e), r@.no_duplicates() { unimplemented!() }
#[verifier::external_body] pub fn vx_get_mut<'a, K: std::hash::Hash + Eq, V>(m: &'a mut HashMap<K, V>, k: &K) -> (r: Option<&'a mut V>)
    ensures match r { Some(v) => old(m)@.contains_key(*k) && *v == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(v)), None => !old(m)@.contains_key(*k) && final(m)@ == old(m)@ } { unimplemented!() }
#[verifier::external_body] pub fn vx_entry<'a, K: std::hash::Hash + Eq, T>(m: &'a mut HashMap<K, Vec<T>>, k: K) -> (r: &'a mut Vec<T>)
    ensures old(m)@.contains_key(k) ==> *r == old(m)@[k], !old(m)@.contains_key(k) ==> r@.len() == 0, final(m)@ == old(m)@.insert(k, *final(r)) { unimplemented!() }
#[verifier::external_body] pub fn vx_sort<T: Ord>(v: &mut Vec<T>) ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len() { unimplemented!() }
#[verifier::external_body] pub fn vx_reverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { unimplemented!() }
