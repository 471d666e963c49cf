use std::collections::{HashMap, HashSet, VecDeque};
broadcast use {vstd::std_specs::hash::group_hash_axioms, vxax::group_vx_axioms};
#[verifier::external_body] pub fn vx_fmt() -> String { unimplemented!() }
#[verifier::external_body] pub fn vx_any_bool() -> bool { unimplemented!() }
#[verifier::external_body] pub fn vx_panic<A>() -> A requires false { unimplemented!() }
pub fn vx_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
pub fn vx_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
pub assume_specification<T: Copy>[Option::<&T>::copied](o: Option<&T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None });
pub mod vxax { use vstd::prelude::*; use vstd::std_specs::cmp::PartialEqSpec;
/// a String is determined by its characters
pub uninterp spec fn mk(s: Seq<char>) -> String;
pub broadcast axiom fn ax_mk(s: String) ensures #[trigger] mk(s@) == s;
pub broadcast axiom fn ax_mk_view(s: Seq<char>) ensures (#[trigger] mk(s))@ == s;
pub broadcast axiom fn ax_string_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<String>();
pub broadcast axiom fn ax_str_in<V>(m: Map<String, V>, k: &str) ensures #[trigger] vstd::std_specs::hash::contains_borrowed_key::<String, V, str>(m, k) <==> m.contains_key(mk(k@));
pub broadcast axiom fn ax_str_at<V>(m: Map<String, V>, k: &str, v: V) ensures #[trigger] vstd::std_specs::hash::maps_borrowed_key_to_value::<String, V, str>(m, k, v) <==> m.contains_key(mk(k@)) && m[mk(k@)] == v;
pub broadcast axiom fn ax_eq1() ensures #[trigger] <String as PartialEqSpec<&str>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq2(s: String, t: &str) ensures (#[trigger] <String as PartialEqSpec<&str>>::eq_spec(&s, &t)) == (s@ == t@);
pub broadcast axiom fn ax_eq3() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq4(s: String, t: &str) ensures (#[trigger] <String as PartialEqSpec<str>>::eq_spec(&s, t)) == (s@ == t@);
pub broadcast axiom fn ax_eq5() ensures #[trigger] <&str as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq6(s: String, t: &str) ensures (#[trigger] <&str as PartialEqSpec<String>>::eq_spec(&t, &s)) == (s@ == t@);
pub broadcast axiom fn ax_eq7() ensures #[trigger] <str as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq8(s: String, t: &str) ensures (#[trigger] <str as PartialEqSpec<String>>::eq_spec(t, &s)) == (s@ == t@);
pub broadcast axiom fn ax_eq9() ensures #[trigger] <String as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq10(s: String, t: String) ensures (#[trigger] <String as PartialEqSpec<String>>::eq_spec(&s, &t)) == (s == t);
pub broadcast group group_vx_axioms { ax_eq1, ax_eq2, ax_eq3, ax_eq4, ax_eq5, ax_eq6, ax_eq7, ax_eq8, ax_eq9, ax_eq10, ax_mk, ax_mk_view, ax_string_key, ax_str_in, ax_str_at }
}
pub use vxax::mk;
