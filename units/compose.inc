impl ActionFailure {
    #[verifier::external_body] pub fn not_disjoint<T>(a: (&TransitionSystemPtr, HashSet<String>), b: (&TransitionSystemPtr, HashSet<String>)) -> (r: Result<T, Box<ActionFailure>>)
        requires a.1@ == a.0.ins() || a.1@ == a.0.outs(), b.1@ == b.0.ins() || b.1@ == b.0.outs() ensures r is Err { unimplemented!() }
    #[verifier::external_body] pub fn to_rfcomp(self, left: TransitionSystemPtr, right: TransitionSystemPtr) -> Box<SystemRecipeFailure> { unimplemented!() }
    #[verifier::external_body] pub fn to_rfconj(self, left: TransitionSystemPtr, right: TransitionSystemPtr) -> Box<SystemRecipeFailure> { unimplemented!() }
}
pub open spec fn pair_at(l: TransitionSystemPtr, r: TransitionSystemPtr, t: LocationTree, n: int) -> bool {
    t.left is Some && t.right is Some && l.at(*t.left->0) && r.at(*t.right->0) && loc_ok(*t.left->0, n) && loc_ok(*t.right->0, n) && loc_ok(t, n)
}
/// only one side moves: the other one stays where it is, without a guard, an update or an id
pub open spec fn idle(t: Transition, l: LocationTree, n: int) -> bool {
    t.id is None && t.target_locations == l && t.updates@.len() == 0 && t.guard_zone.n() == n && forall|v: Val| vok(v, n) ==> #[trigger] t.guard_zone.has(v)
}
pub open spec fn steps(ts: Seq<Transition>, n: int, l: TransitionSystemPtr, r: TransitionSystemPtr) -> bool {
    forall|i: int| 0 <= i < ts.len() ==> tr_ok(#[trigger] ts[i], n) && pair_at(l, r, ts[i].target_locations, n)
}
pub open spec fn side_ok(s: Seq<Transition>, n: int, t: TransitionSystemPtr) -> bool { forall|i: int| 0 <= i < s.len() ==> tr_ok(#[trigger] s[i], n) && t.at(s[i].target_locations) }
pub broadcast proof fn lemma_product_steps(a: Seq<Transition>, b: Seq<Transition>, k: CompositionType, o: Seq<Transition>, n: int, l: TransitionSystemPtr, r: TransitionSystemPtr)
    requires #[trigger] product(a, b, k, o), n > 0, side_ok(a, n, l), side_ok(b, n, r)
    ensures #[trigger] steps(o, n, l, r)
{
    assert forall|m: int| 0 <= m < o.len() implies tr_ok(#[trigger] o[m], n) && pair_at(l, r, o[m].target_locations, n) by {
        let w = b.len() as int;
        if w == 0 { assert(a.len() * w == 0) by (nonlinear_arith) requires w == 0; }
        let i = m / w; let j = m % w;
        assert(m == i * w + j && 0 <= j < w && 0 <= i) by (nonlinear_arith) requires i == m / w, j == m % w, w > 0, m >= 0;
        assert(i < a.len()) by (nonlinear_arith) requires m == i * w + j, 0 <= j, w > 0, m < a.len() * w;
        assert(comb_at(a, b, k, o, i, j));
        let t = o[m]; let us = a[i].updates@ + b[j].updates@;
        assert(t.updates@ == us);
        assert forall|q: int| 0 <= q < us.len() implies u_ok(#[trigger] us[q], n) by { if q < a[i].updates@.len() { assert(us[q] == a[i].updates@[q]); } else { assert(us[q] == b[j].updates@[q - a[i].updates@.len()]); } }
        assert(loc_ok(a[i].target_locations, n) && loc_ok(b[j].target_locations, n));
        assert(loc_ok(t.target_locations, n));
    }
}
pub open spec fn pair_here(l: Seq<LocationTree>, r: Seq<LocationTree>, k: CompositionType, o: Seq<LocationTree>, i: int, j: int) -> bool { 0 <= i * r.len() + j < o.len() && composed(l[i], r[j], k, o[i * r.len() + j]) }
pub open spec fn all_pairs(l: Seq<LocationTree>, r: Seq<LocationTree>, k: CompositionType, o: Seq<LocationTree>) -> bool { o.len() == l.len() * r.len() && forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < r.len() ==> #[trigger] pair_here(l, r, k, o, i, j) }
