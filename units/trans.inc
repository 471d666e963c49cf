/// a valuation fulfils the invariant of a location
pub open spec fn inv_has(l: LocationTree, v: Val) -> bool { match l.invariant { Some(f) => f.has(v), None => true } }
pub open spec fn loc_ok(l: LocationTree, n: int) -> bool { match l.invariant { Some(f) => f.n() == n, None => true } }
pub open spec fn tr_ok(t: Transition, n: int) -> bool { t.guard_zone.n() == n && loc_ok(t.target_locations, n) && us_ok(t.updates@, n) && n > 0 }
pub open spec fn st_ok(s: State, n: int) -> bool { s.zone_sentinel is Some && s.zone_sentinel->0.n() == n }
/// v is reached from u (in the zone and the guard): updates, then a delay of d, inside the target invariant
pub open spec fn reached(t: Transition, z: OwnedFederation, v: Val) -> bool {
    inv_has(t.target_locations, v) && exists|u: Val, d: real| #![trigger back(v, d), upd(t.updates@, u)]
        vok(u, z.n()) && z.has(u) && t.guard_zone.has(u) && d >= 0real && back(v, d) == upd(t.updates@, u)
}
/// every valuation can be delayed
pub proof fn lemma_reached_some(t: Transition, z: OwnedFederation, u: Val)
    requires vok(u, z.n()), z.has(u), t.guard_zone.has(u), us_ok(t.updates@, z.n())
    ensures ({ let w = upd(t.updates@, u); vok(w, z.n()) && back(w, 0real) == w })
{
    lemma_updk_vok(t.updates@, t.updates@.len() as int, u, z.n());
    assert(back(upd(t.updates@, u), 0real) =~= upd(t.updates@, u));
}
pub proof fn lemma_shift(v: Val, d: real, n: int)
    requires vok(v, n)
    ensures shift(shift(v, d), -d) == v, shift(shift(v, -d), d) == v, d >= 0real ==> vok(shift(v, d), n)
{
    assert(shift(shift(v, d), -d) =~= v); assert(shift(shift(v, -d), d) =~= v);
}
pub proof fn lemma_upd1_inv(u: CompiledUpdate, v: Val, x: real, n: int)
    requires u_ok(u, n), vok(v, n), v[u.clock_index as int] == (u.value as int) as real, x >= 0real
    ensures upd1(u, v.update(u.clock_index as int, x)) == v, vok(v.update(u.clock_index as int, x), n)
{
    let w = v.update(u.clock_index as int, x);
    assert(upd1(u, w) =~= v);
    assert forall|i: int| 0 <= i < n implies #[trigger] w[i] >= 0real by { if i != u.clock_index as int { assert(w[i] == v[i]); } }
}
pub open spec fn compiled_as(u: Update, d: Declarations, c: CompiledUpdate) -> bool { look(d.clocks, u.variable) == Some(c.clock_index) && u.expression == AE::Int(c.value) }
pub open spec fn one_loc(c: Component, name: String) -> bool { exists|i: int| 0 <= i < c.locations@.len() && (#[trigger] c.locations@[i]).id == name && forall|j: int| 0 <= j < c.locations@.len() && (#[trigger] c.locations@[j]).id == name ==> j == i }
pub open spec fn opt_ok(g: Option<BoolExpression>, d: Declarations, n: int) -> bool { g is Some ==> guard_ok(g->0, d, n) && all_diff_form(g->0, d) }
pub open spec fn opt_sat(g: Option<BoolExpression>, d: Declarations, v: Val) -> bool { g is Some ==> sat(g->0, d, v) }
pub open spec fn edge_guard_ok(e: Edge, d: Declarations, n: int) -> bool { opt_ok(e.guard, d, n) }
pub open spec fn edge_sat(e: Edge, d: Declarations, v: Val) -> bool { opt_sat(e.guard, d, v) }
/// both sides' locations, invariants intersected
pub open spec fn composed(l: LocationTree, r: LocationTree, c: CompositionType, o: LocationTree) -> bool {
    &&& o.id == (if c is Conjunction { LocationID::Conjunction(Box::new(l.id), Box::new(r.id)) } else { LocationID::Composition(Box::new(l.id), Box::new(r.id)) })
    &&& o.left is Some && *o.left->0 == l && o.right is Some && *o.right->0 == r
    &&& (o.loc_type is Initial <==> l.loc_type is Initial && r.loc_type is Initial) && (o.loc_type is Initial || o.loc_type is Normal)
    &&& (o.invariant is None <==> l.invariant is None && r.invariant is None)
    &&& forall|n: int| #![trigger loc_ok(o, n)] loc_ok(l, n) && loc_ok(r, n) ==> loc_ok(o, n)
    &&& forall|n: int, v: Val| #![trigger loc_ok(o, n), inv_has(o, v)] loc_ok(l, n) && loc_ok(r, n) && vok(v, n) ==> (inv_has(o, v) <==> inv_has(l, v) && inv_has(r, v))
}
pub open spec fn loc_named(c: Component, name: String, l: Location) -> bool { c.locations@.contains(l) && l.id == name }
pub open spec fn edge_ok(c: Component, e: Edge, n: int) -> bool {
    one_loc(c, e.target_location) && edge_guard_ok(e, c.declarations, n)
    && (forall|l: Location| #[trigger] loc_named(c, e.target_location, l) ==> opt_ok(l.invariant, c.declarations, n))
    && (e.update is Some ==> forall|i: int| 0 <= i < e.update->0@.len() ==> upd_ok(#[trigger] e.update->0@[i], c.declarations, n))
}
pub open spec fn upd_ok(u: Update, d: Declarations, n: int) -> bool { u.expression is Int && look(d.clocks, u.variable) is Some && u_ok(CompiledUpdate { clock_index: look(d.clocks, u.variable)->0, value: u.expression->Int_0 }, n) }
/// the transition an edge stands for
pub open spec fn edge_trans(c: Component, e: Edge, n: int, t: Transition) -> bool {
    &&& t.id == TransitionID::Simple(e.id)
    &&& tr_ok(t, n)
    &&& exists|l: Location| #[trigger] loc_named(c, e.target_location, l) && at_loc(c, l, n, t.target_locations)
    &&& t.updates@.len() == (match e.update { Some(us) => us@.len(), None => 0 })
    &&& forall|i: int| 0 <= i < t.updates@.len() ==> compiled_as(e.update->0@[i], c.declarations, #[trigger] t.updates@[i])
    &&& forall|v: Val| vok(v, n) ==> (#[trigger] t.guard_zone.has(v) <==> edge_sat(e, c.declarations, v))
}
pub open spec fn at_loc(c: Component, l: Location, n: int, t: LocationTree) -> bool {
    t.id == LocationID::Simple(l.id) && t.loc_type == l.location_type && t.left is None && t.right is None && loc_ok(t, n)
    && forall|v: Val| vok(v, n) ==> (#[trigger] inv_has(t, v) <==> opt_sat(l.invariant, c.declarations, v))
}
/// all transitions agree on the dimension
pub open spec fn n_ok(l: Seq<Transition>, r: Seq<Transition>) -> bool {
    forall|i: int, j: int| #![trigger l[i], r[j]] 0 <= i < l.len() && 0 <= j < r.len() ==> l[i].guard_zone.n() == r[j].guard_zone.n() && tr_ok(l[i], l[i].guard_zone.n()) && tr_ok(r[j], l[i].guard_zone.n())
}
/// one combined transition: both ids, both guards, the left updates followed by the right ones, the composed location
pub open spec fn comb(l: Transition, r: Transition, c: CompositionType, o: Transition) -> bool {
    &&& o.id == (if c is Conjunction { TransitionID::Conjunction(Box::new(l.id), Box::new(r.id)) } else { TransitionID::Composition(Box::new(l.id), Box::new(r.id)) })
    &&& o.updates@ == l.updates@ + r.updates@
    &&& composed(l.target_locations, r.target_locations, c, o.target_locations)
    &&& o.guard_zone.n() == l.guard_zone.n()
    &&& forall|v: Val| vok(v, l.guard_zone.n()) ==> (#[trigger] o.guard_zone.has(v) <==> l.guard_zone.has(v) && r.guard_zone.has(v))
}
pub open spec fn comb_at(l: Seq<Transition>, r: Seq<Transition>, c: CompositionType, o: Seq<Transition>, i: int, j: int) -> bool {
    0 <= i * r.len() + j < o.len() && comb(l[i], r[j], c, o[i * r.len() + j])
}
/// every pair is combined, exactly once
pub open spec fn product(l: Seq<Transition>, r: Seq<Transition>, c: CompositionType, o: Seq<Transition>) -> bool {
    o.len() == l.len() * r.len() && forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < r.len() ==> #[trigger] comb_at(l, r, c, o, i, j)
}
pub proof fn lemma_index(i: int, j: int, i0: int, m: int)
    requires 0 <= i < i0, 0 <= j < m
    ensures 0 <= i * m + j < i0 * m
{
    assert(i * m + m <= i0 * m) by (nonlinear_arith) requires i + 1 <= i0, m >= 0;
    assert(0 <= i * m) by (nonlinear_arith) requires i >= 0, m >= 0;
}
