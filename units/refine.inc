impl From<DeterminismFailure> for ConsistencyFailure { #[verifier::external_body] fn from(e: DeterminismFailure) -> Self { unimplemented!() } }
#[verifier::external_body] pub struct System { x: usize }
#[verifier::external_body] pub struct SpecificState { x: usize }
impl ActionFailure {
    #[verifier::external_body] pub fn not_disjoint<T>(a: (&TransitionSystemPtr, HashSet<String>), b: (&TransitionSystemPtr, HashSet<String>)) -> (r: Result<T, Box<ActionFailure>>)
        requires a.1@ == a.0.ins() || a.1@ == a.0.outs(), b.1@ == b.0.ins() || b.1@ == b.0.outs() ensures r is Err { unimplemented!() }
    #[verifier::external_body] pub fn not_subset(a: (&TransitionSystemPtr, HashSet<String>), b: (&TransitionSystemPtr, HashSet<String>)) -> (r: Result<(), Box<ActionFailure>>)
        requires a.1@ == a.0.ins() || a.1@ == a.0.outs(), b.1@ == b.0.ins() || b.1@ == b.0.outs() ensures r is Err { unimplemented!() }
    #[verifier::external_body] pub fn to_precondition(self, a: &TransitionSystemPtr, b: &TransitionSystemPtr) -> Box<RefinementPrecondition> { unimplemented!() }
}
impl ConsistencyFailure { #[verifier::external_body] pub fn to_precondition(self, a: &TransitionSystemPtr, b: &TransitionSystemPtr) -> RefinementPrecondition { unimplemented!() } }
pub mod vxfrom { use vstd::prelude::*; use super::*;
pub broadcast axiom fn ax_from_pre(b: Box<RefinementPrecondition>, r: RefinementFailure) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<RefinementFailure, Box<RefinementPrecondition>>(b, r) ==> r is Precondition;
pub broadcast group group_vx_from { ax_from_pre }
}
broadcast use {vxfrom::group_vx_from};
impl From<Box<RefinementPrecondition>> for RefinementFailure { #[verifier::external_body] fn from(e: Box<RefinementPrecondition>) -> (r: Self) ensures r is Precondition { unimplemented!() } }
impl RefinementFailure {
    #[verifier::external_body] pub fn empty_child(a: &TransitionSystemPtr, b: &TransitionSystemPtr, left: bool) -> (r: RefinementResult) ensures r is Err, r->Err_0 is Precondition { unimplemented!() }
    #[verifier::external_body] pub fn empty_initial(a: &TransitionSystemPtr, b: &TransitionSystemPtr) -> (r: RefinementResult) ensures r is Err, r->Err_0 is Precondition { unimplemented!() }
    #[verifier::external_body] pub fn cannot_match(a: &TransitionSystemPtr, b: &TransitionSystemPtr, action: &str, p: &StatePair) -> (r: RefinementResult) ensures r is Err, r->Err_0 is CannotMatch, r->Err_0->CannotMatch_action.name@ == action@ { unimplemented!() }
    #[verifier::external_body] pub fn cuts_delays(a: &TransitionSystemPtr, b: &TransitionSystemPtr, action: &str, p: &StatePair) -> (r: RefinementResult) ensures r is Err, r->Err_0 is CutsDelaySolutions, r->Err_0->CutsDelaySolutions_action.name@ == action@ { unimplemented!() }
}
#[verifier::external_body] pub fn print_relation(p: &PassedStateList) { unimplemented!() }
pub type RefinementResult = Result<(), RefinementFailure>;
pub type PassedStateList = PassedMap;
pub type WaitingStateList = DepthFirstWaitingStateList;
/// the bounds both systems need at a pair of locations
pub open spec fn bnd(s1: TransitionSystemPtr, s2: TransitionSystemPtr, l1: LocationTree, l2: LocationTree) -> Bounds { bplus(s1.bounds(l1), s2.bounds(l2)) }
pub open spec fn idle(t: Transition, l: LocationTree, n: int) -> bool {
    t.id is None && t.target_locations == l && t.updates@.len() == 0 && t.guard_zone.n() == n && forall|v: Val| vok(v, n) ==> #[trigger] t.guard_zone.has(v)
}
/// transitions of s from a location of it
pub open spec fn ts_ok(s: TransitionSystemPtr, t: Seq<Transition>) -> bool { forall|i: int| 0 <= i < t.len() ==> tr_ok(#[trigger] t[i], s.n()) && s.at(t[i].target_locations) }
pub open spec fn pair_wf(s1: TransitionSystemPtr, s2: TransitionSystemPtr, p: StatePair) -> bool {
    pair_ok(p, s1.n()) && s1.n() == s2.n() && s1.at(p.locations1) && s2.at(p.locations2) && loc_ok(p.locations1, s1.n()) && loc_ok(p.locations2, s1.n())
}
/// the transition can be taken: guard now, target invariant after the updates
pub open spec fn allowed(t: Transition, v: Val) -> bool { t.guard_zone.has(v) && inv_has(t.target_locations, upd(t.updates@, v)) }
pub open spec fn any_allowed(ts: Seq<Transition>, v: Val) -> bool { any_upto(ts, ts.len() as int, v) }
pub open spec fn any_upto(ts: Seq<Transition>, k: int, v: Val) -> bool { exists|i: int| 0 <= i < k && allowed(#[trigger] ts[i], v) }
pub open spec fn moves(ts: Seq<Transition>, z: OwnedFederation) -> bool { exists|v: Val| vok(v, z.n()) && #[trigger] z.has(v) && any_allowed(ts, v) }
/// whatever the first side can do anywhere in the zone, the second side can do there, too
pub open spec fn matched(ts1: Seq<Transition>, ts2: Seq<Transition>, z: OwnedFederation) -> bool { forall|v: Val| vok(v, z.n()) && #[trigger] z.has(v) && any_allowed(ts1, v) ==> any_allowed(ts2, v) }
pub open spec fn tl(t1: Transition, t2: Transition, first: bool) -> LocationTree { if first { t1.target_locations } else { t2.target_locations } }
pub open spec fn tr(t1: Transition, t2: Transition, first: bool) -> LocationTree { if first { t2.target_locations } else { t1.target_locations } }
/// both transitions taken from the zone, then a delay, within the invariant of the left system
pub open spec fn landed(z: OwnedFederation, t1: Transition, t2: Transition, first: bool, v: Val) -> bool {
    inv_has(tl(t1, t2, first), v) && exists|u: Val, d: real| #![trigger back(v, d), upd(t2.updates@, upd(t1.updates@, u))]
        vok(u, z.n()) && z.has(u) && t1.guard_zone.has(u) && t2.guard_zone.has(u) && d >= 0real && back(v, d) == upd(t2.updates@, upd(t1.updates@, u))
}
pub open spec fn both(z: OwnedFederation, t1: Transition, t2: Transition, first: bool, v: Val) -> bool { landed(z, t1, t2, first, v) && inv_has(tr(t1, t2, first), v) }
pub open spec fn meets(z: OwnedFederation, t1: Transition, t2: Transition, first: bool) -> bool { exists|v: Val| vok(v, z.n()) && #[trigger] both(z, t1, t2, first, v) }
/// the left system can be where no delay leads back into what both systems allow
pub open spec fn cuts(z: OwnedFederation, t1: Transition, t2: Transition, first: bool) -> bool {
    meets(z, t1, t2, first) && exists|v: Val| vok(v, z.n()) && #[trigger] landed(z, t1, t2, first, v) && !lasts(z, t1, t2, first, v)
}
pub open spec fn lasts(z: OwnedFederation, t1: Transition, t2: Transition, first: bool, v: Val) -> bool { exists|d: real| d >= 0real && both(z, t1, t2, first, #[trigger] shift(v, d)) }
pub open spec fn in_seq(q: Seq<StatePair>, k: Key, v: Val) -> bool { exists|i: int| 0 <= i < q.len() && key_of(#[trigger] q[i]) == k && pz(q[i]).has(v) }
/// the valuation is already related at these locations, or queued to be
pub open spec fn seen(m: PassedMap, q: Seq<StatePair>, k: Key, v: Val) -> bool { m.covers(k, v) || in_seq(q, k, v) }
pub open spec fn covered(z: OwnedFederation, t1: Transition, t2: Transition, first: bool, m: PassedMap, q: Seq<StatePair>) -> bool {
    forall|v: Val| vok(v, z.n()) && #[trigger] both(z, t1, t2, first, v) ==> seen(m, q, (tl(t1, t2, first).id, tr(t1, t2, first).id), v)
}
pub open spec fn fits(z: OwnedFederation, t1: Transition, t2: Transition, first: bool, m: PassedMap, q: Seq<StatePair>) -> bool { !cuts(z, t1, t2, first) && covered(z, t1, t2, first, m, q) }
pub open spec fn all_fit(z: OwnedFederation, ts1: Seq<Transition>, ts2: Seq<Transition>, first: bool, m: PassedMap, q: Seq<StatePair>) -> bool {
    forall|i: int, j: int| 0 <= i < ts1.len() && 0 <= j < ts2.len() ==> fits(z, #[trigger] ts1[i], #[trigger] ts2[j], first, m, q)
}
/// the first side's moves are matched, and every pair of moves leads to related pairs
pub open spec fn side_good(z: OwnedFederation, ts1: Seq<Transition>, ts2: Seq<Transition>, first: bool, m: PassedMap, q: Seq<StatePair>) -> bool {
    moves(ts1, z) ==> matched(ts1, ts2, z) && all_fit(z, ts1, ts2, first, m, q)
}
pub open spec fn some_cut(z: OwnedFederation, ts1: Seq<Transition>, ts2: Seq<Transition>, first: bool) -> bool {
    exists|i: int, j: int| 0 <= i < ts1.len() && 0 <= j < ts2.len() && cuts(z, #[trigger] ts1[i], #[trigger] ts2[j], first)
}
/// the moves on an action, the challenging side first: outputs of the left system, inputs of the right one.
/// A system that does not know the action stays where it is.
pub open spec fn offers(s1: TransitionSystemPtr, s2: TransitionSystemPtr, p: StatePair, a: String, out: bool, ts1: Seq<Transition>, ts2: Seq<Transition>) -> bool {
    if out {
        s1.outs().contains(a) && ts1 == s1.trans(p.locations1, a) && (if s2.outs().contains(a) { ts2 == s2.trans(p.locations2, a) } else { ts2.len() == 1 && idle(ts2[0], p.locations2, s1.n()) })
    } else {
        s2.ins().contains(a) && ts1 == s2.trans(p.locations2, a) && (if s1.ins().contains(a) { ts2 == s1.trans(p.locations1, a) } else { ts2.len() == 1 && idle(ts2[0], p.locations1, s1.n()) })
    }
}
pub open spec fn action_good(s1: TransitionSystemPtr, s2: TransitionSystemPtr, p: StatePair, a: String, out: bool, m: PassedMap, q: Seq<StatePair>) -> bool {
    exists|ts1: Seq<Transition>, ts2: Seq<Transition>| #[trigger] offers(s1, s2, p, a, out, ts1, ts2) && side_good(pz(p), ts1, ts2, out, m, q)
}
pub open spec fn good(s1: TransitionSystemPtr, s2: TransitionSystemPtr, p: StatePair, m: PassedMap, q: Seq<StatePair>) -> bool {
    &&& forall|a: String| #[trigger] s1.outs().contains(a) ==> action_good(s1, s2, p, a, true, m, q)
    &&& forall|a: String| #[trigger] s2.ins().contains(a) ==> action_good(s1, s2, p, a, false, m, q)
}
/// the pair from which the comparison starts: both initial locations, all clocks equal, both invariants
pub open spec fn start_val(s1: TransitionSystemPtr, s2: TransitionSystemPtr, v: Val) -> bool { all_same(v) && inv_has(s1.init()->0, v) && inv_has(s2.init()->0, v) }
pub open spec fn is_start(s1: TransitionSystemPtr, s2: TransitionSystemPtr, p: StatePair) -> bool {
    &&& s1.init() == Some(p.locations1) && s2.init() == Some(p.locations2)
    &&& exists|f: OwnedFederation| pz(p) == #[trigger] ext(f, bnd(s1, s2, p.locations1, p.locations2)) && f.n() == s1.n() && forall|v: Val| vok(v, s1.n()) ==> (#[trigger] f.has(v) <==> start_val(s1, s2, v))
}
/// the pair reached by both transitions
pub open spec fn is_succ(s1: TransitionSystemPtr, s2: TransitionSystemPtr, p: StatePair, t1: Transition, t2: Transition, first: bool, np: StatePair) -> bool {
    &&& np.locations1 == tl(t1, t2, first) && np.locations2 == tr(t1, t2, first)
    &&& exists|f: OwnedFederation| pz(np) == #[trigger] ext(f, bnd(s1, s2, np.locations1, np.locations2)) && f.n() == s1.n() && forall|v: Val| vok(v, s1.n()) ==> (#[trigger] f.has(v) <==> both(pz(p), t1, t2, first, v))
}
pub open spec fn some_succ(s1: TransitionSystemPtr, s2: TransitionSystemPtr, p: StatePair, ts1: Seq<Transition>, ts2: Seq<Transition>, first: bool, np: StatePair) -> bool {
    exists|i: int, j: int| 0 <= i < ts1.len() && 0 <= j < ts2.len() && is_succ(s1, s2, p, #[trigger] ts1[i], #[trigger] ts2[j], first, np)
}
pub open spec fn step(s1: TransitionSystemPtr, s2: TransitionSystemPtr, p: StatePair, np: StatePair) -> bool {
    exists|a: String, out: bool, ts1: Seq<Transition>, ts2: Seq<Transition>| #[trigger] offers(s1, s2, p, a, out, ts1, ts2) && moves(ts1, pz(p)) && matched(ts1, ts2, pz(p)) && some_succ(s1, s2, p, ts1, ts2, out, np)
}
pub open spec fn closed(s1: TransitionSystemPtr, s2: TransitionSystemPtr, r: spec_fn(StatePair) -> bool) -> bool {
    (forall|p: StatePair| #[trigger] is_start(s1, s2, p) ==> r(p)) && (forall|p: StatePair, np: StatePair| r(p) && #[trigger] step(s1, s2, p, np) ==> r(np))
}
/// in every set of pairs that contains the start and is closed under steps
pub open spec fn reach(s1: TransitionSystemPtr, s2: TransitionSystemPtr, p: StatePair) -> bool { forall|r: spec_fn(StatePair) -> bool| #[trigger] closed(s1, s2, r) ==> r(p) }
pub proof fn lemma_reach_start(s1: TransitionSystemPtr, s2: TransitionSystemPtr, p: StatePair) requires is_start(s1, s2, p) ensures reach(s1, s2, p) {}
pub proof fn lemma_reach_step(s1: TransitionSystemPtr, s2: TransitionSystemPtr, p: StatePair, np: StatePair) requires reach(s1, s2, p), step(s1, s2, p, np) ensures reach(s1, s2, np) {}
pub open spec fn queue_wf(s1: TransitionSystemPtr, s2: TransitionSystemPtr, q: Seq<StatePair>) -> bool { forall|i: int| 0 <= i < q.len() ==> pair_wf(s1, s2, #[trigger] q[i]) }
pub open spec fn more(q: Seq<StatePair>, r: Seq<StatePair>) -> bool { (forall|k: Key, v: Val| #[trigger] in_seq(q, k, v) ==> in_seq(r, k, v)) && forall|p: StatePair| #[trigger] q.contains(p) ==> r.contains(p) }
/// what is queued beyond q are successors of p
pub open spec fn grown(s1: TransitionSystemPtr, s2: TransitionSystemPtr, p: StatePair, ts1: Seq<Transition>, ts2: Seq<Transition>, first: bool, q: Seq<StatePair>, r: Seq<StatePair>) -> bool {
    forall|i: int| 0 <= i < r.len() ==> q.contains(#[trigger] r[i]) || some_succ(s1, s2, p, ts1, ts2, first, r[i])
}
pub open spec fn pre(s1: TransitionSystemPtr, s2: TransitionSystemPtr) -> bool {
    &&& s1.deterministic() && s1.consistent() && s2.deterministic() && s2.consistent()
    &&& s1.ins().disjoint(s2.outs()) && s2.ins().disjoint(s1.outs())
    &&& s1.ins().subset_of(s2.ins()) && s2.outs().subset_of(s1.outs())
}
/// a set of state pairs with the start in it, each of them matched and leading back into the set
pub open spec fn simulation(s1: TransitionSystemPtr, s2: TransitionSystemPtr, m: PassedMap, w: Seq<StatePair>) -> bool {
    &&& forall|k: Key, v: Val| vok(v, s1.n()) ==> (#[trigger] m.covers(k, v) <==> in_seq(w, k, v))
    &&& exists|i: int| 0 <= i < w.len() && is_start(s1, s2, #[trigger] w[i])
    &&& forall|i: int| 0 <= i < w.len() ==> good(s1, s2, #[trigger] w[i], m, Seq::empty())
}
impl<'a> RefinementContext<'a> {
    pub open spec fn wf(&self) -> bool { self.sys1.n() == self.sys2.n() && self.sys1.n() > 0 && self.passed_list.wf(self.sys1.n()) && self.waiting_list.wf(self.sys1.n()) && queue_wf(*self.sys1, *self.sys2, self.waiting_list.queue@) }
    pub open spec fn q(&self) -> Seq<StatePair> { self.waiting_list.queue@ }
}
pub proof fn lemma_in_cons(p: StatePair, q: Seq<StatePair>, k: Key, v: Val)
    ensures in_seq(seq![p] + q, k, v) <==> (key_of(p) == k && pz(p).has(v)) || in_seq(q, k, v)
{
    let c = seq![p] + q;
    assert(c[0] == p);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] == c[i + 1] by {}
    if in_seq(q, k, v) { let i = choose|i: int| 0 <= i < q.len() && key_of(#[trigger] q[i]) == k && pz(q[i]).has(v); assert(key_of(c[i + 1]) == k && pz(c[i + 1]).has(v)); }
    if in_seq(c, k, v) { let i = choose|i: int| 0 <= i < c.len() && key_of(#[trigger] c[i]) == k && pz(c[i]).has(v); if i > 0 { assert(q[i - 1] == c[i]); } }
}
pub open spec fn same_ctx(a: RefinementContext, b: RefinementContext) -> bool { a.sys1 == b.sys1 && a.sys2 == b.sys2 && a.passed_list == b.passed_list && b.wf() && more(a.q(), b.q()) }
/// the pairs (x, y) with x < i, or x == i and y < j
pub open spec fn fit_upto(z: OwnedFederation, ts1: Seq<Transition>, ts2: Seq<Transition>, first: bool, m: PassedMap, q: Seq<StatePair>, i: int, j: int) -> bool {
    forall|x: int, y: int| 0 <= x < ts1.len() && 0 <= y < ts2.len() && (x < i || x == i && y < j) ==> fits(z, #[trigger] ts1[x], #[trigger] ts2[y], first, m, q)
}
pub proof fn lemma_fit_more(z: OwnedFederation, ts1: Seq<Transition>, ts2: Seq<Transition>, first: bool, m: PassedMap, q: Seq<StatePair>, r: Seq<StatePair>, i: int, j: int)
    requires fit_upto(z, ts1, ts2, first, m, q, i, j), more(q, r)
    ensures fit_upto(z, ts1, ts2, first, m, r, i, j)
{
    assert forall|x: int, y: int| 0 <= x < ts1.len() && 0 <= y < ts2.len() && (x < i || x == i && y < j) implies fits(z, #[trigger] ts1[x], #[trigger] ts2[y], first, m, r) by { lemma_fits_more(z, ts1[x], ts2[y], first, m, q, r); }
}
pub proof fn lemma_fits_more(z: OwnedFederation, t1: Transition, t2: Transition, first: bool, m: PassedMap, q: Seq<StatePair>, r: Seq<StatePair>)
    requires fits(z, t1, t2, first, m, q), more(q, r) ensures fits(z, t1, t2, first, m, r) {}

/// nothing that was seen is forgotten
pub open spec fn keeps(n: int, m: PassedMap, q: Seq<StatePair>, m2: PassedMap, q2: Seq<StatePair>) -> bool { forall|k: Key, v: Val| vok(v, n) && #[trigger] seen(m, q, k, v) ==> seen(m2, q2, k, v) }
pub proof fn lemma_side_keeps(z: OwnedFederation, ts1: Seq<Transition>, ts2: Seq<Transition>, first: bool, m: PassedMap, q: Seq<StatePair>, m2: PassedMap, q2: Seq<StatePair>)
    requires side_good(z, ts1, ts2, first, m, q), keeps(z.n(), m, q, m2, q2)
    ensures side_good(z, ts1, ts2, first, m2, q2)
{
    if moves(ts1, z) {
        assert forall|i: int, j: int| 0 <= i < ts1.len() && 0 <= j < ts2.len() implies fits(z, #[trigger] ts1[i], #[trigger] ts2[j], first, m2, q2) by { assert(fits(z, ts1[i], ts2[j], first, m, q)); }
    }
}
pub proof fn lemma_action_keeps(s1: TransitionSystemPtr, s2: TransitionSystemPtr, p: StatePair, a: String, out: bool, m: PassedMap, q: Seq<StatePair>, m2: PassedMap, q2: Seq<StatePair>)
    requires action_good(s1, s2, p, a, out, m, q), keeps(pz(p).n(), m, q, m2, q2)
    ensures action_good(s1, s2, p, a, out, m2, q2)
{
    let (ts1, ts2) = choose|ts1: Seq<Transition>, ts2: Seq<Transition>| #[trigger] offers(s1, s2, p, a, out, ts1, ts2) && side_good(pz(p), ts1, ts2, out, m, q);
    lemma_side_keeps(pz(p), ts1, ts2, out, m, q, m2, q2);
}
pub proof fn lemma_good_keeps(s1: TransitionSystemPtr, s2: TransitionSystemPtr, p: StatePair, m: PassedMap, q: Seq<StatePair>, m2: PassedMap, q2: Seq<StatePair>)
    requires good(s1, s2, p, m, q), keeps(pz(p).n(), m, q, m2, q2)
    ensures good(s1, s2, p, m2, q2)
{
    assert forall|a: String| #[trigger] s1.outs().contains(a) implies action_good(s1, s2, p, a, true, m2, q2) by { lemma_action_keeps(s1, s2, p, a, true, m, q, m2, q2); }
    assert forall|a: String| #[trigger] s2.ins().contains(a) implies action_good(s1, s2, p, a, false, m2, q2) by { lemma_action_keeps(s1, s2, p, a, false, m, q, m2, q2); }
}
/// a reachable pair where the challenging side has a move on a that the other side cannot match
pub open spec fn mismatch(s1: TransitionSystemPtr, s2: TransitionSystemPtr, name: Seq<char>) -> bool {
    exists|p: StatePair, a: String, out: bool, ts1: Seq<Transition>, ts2: Seq<Transition>| #[trigger] offers(s1, s2, p, a, out, ts1, ts2) && reach(s1, s2, p) && a@ == name && moves(ts1, pz(p)) && !matched(ts1, ts2, pz(p))
}
/// a reachable pair from which matching moves on a lead to where the right system's invariant cuts off a delay of the left one
pub open spec fn overtaken(s1: TransitionSystemPtr, s2: TransitionSystemPtr, name: Seq<char>) -> bool {
    exists|p: StatePair, a: String, out: bool, ts1: Seq<Transition>, ts2: Seq<Transition>| #[trigger] offers(s1, s2, p, a, out, ts1, ts2) && reach(s1, s2, p) && a@ == name && some_cut(pz(p), ts1, ts2, out)
}
pub open spec fn startable(s1: TransitionSystemPtr, s2: TransitionSystemPtr) -> bool { s1.init() is Some && s2.init() is Some && exists|v: Val| vok(v, s1.n()) && #[trigger] start_val(s1, s2, v) }
/// what the search has established so far: done pairs are reachable and good, queued pairs are reachable, the start is among them
pub open spec fn settled(s1: TransitionSystemPtr, s2: TransitionSystemPtr, done: Seq<StatePair>, m: PassedMap, q: Seq<StatePair>) -> bool {
    &&& m.wf(s1.n())
    &&& forall|k: Key, v: Val| vok(v, s1.n()) ==> (#[trigger] m.covers(k, v) <==> in_seq(done, k, v))
    &&& forall|i: int| 0 <= i < done.len() ==> pair_wf(s1, s2, #[trigger] done[i]) && reach(s1, s2, done[i])
    &&& all_reach(s1, s2, q)
    &&& (exists|i: int| 0 <= i < done.len() && is_start(s1, s2, #[trigger] done[i])) || (exists|i: int| 0 <= i < q.len() && is_start(s1, s2, #[trigger] q[i]))
}
pub open spec fn all_good(s1: TransitionSystemPtr, s2: TransitionSystemPtr, done: Seq<StatePair>, m: PassedMap, q: Seq<StatePair>) -> bool { forall|i: int| 0 <= i < done.len() ==> good(s1, s2, #[trigger] done[i], m, q) }
pub open spec fn all_reach(s1: TransitionSystemPtr, s2: TransitionSystemPtr, q: Seq<StatePair>) -> bool { forall|i: int| 0 <= i < q.len() ==> reach(s1, s2, #[trigger] q[i]) }
pub proof fn lemma_all_good(s1: TransitionSystemPtr, s2: TransitionSystemPtr, done: Seq<StatePair>, m: PassedMap, q: Seq<StatePair>, m2: PassedMap, q2: Seq<StatePair>)
    requires all_good(s1, s2, done, m, q), keeps(s1.n(), m, q, m2, q2), forall|i: int| 0 <= i < done.len() ==> pair_wf(s1, s2, #[trigger] done[i])
    ensures all_good(s1, s2, done, m2, q2)
{ assert forall|i: int| 0 <= i < done.len() implies good(s1, s2, #[trigger] done[i], m2, q2) by { lemma_good_keeps(s1, s2, done[i], m, q, m2, q2); } }
/// successors of a reachable pair are reachable
pub proof fn lemma_grown_reach(s1: TransitionSystemPtr, s2: TransitionSystemPtr, p: StatePair, a: String, out: bool, ts1: Seq<Transition>, ts2: Seq<Transition>, q: Seq<StatePair>, r: Seq<StatePair>)
    requires reach(s1, s2, p), all_reach(s1, s2, q), offers(s1, s2, p, a, out, ts1, ts2), grown(s1, s2, p, ts1, ts2, out, q, r), r == q || moves(ts1, pz(p)) && matched(ts1, ts2, pz(p))
    ensures all_reach(s1, s2, r)
{
    assert forall|i: int| 0 <= i < r.len() implies reach(s1, s2, #[trigger] r[i]) by {
        if q.contains(r[i]) { let x = choose|x: int| 0 <= x < q.len() && q[x] == r[i]; assert(reach(s1, s2, q[x])); }
        else { assert(step(s1, s2, p, r[i])); lemma_reach_step(s1, s2, p, r[i]); }
    }
}
/// taking a pair from the queue into the passed list
pub proof fn lemma_settle(s1: TransitionSystemPtr, s2: TransitionSystemPtr, p: StatePair, done: Seq<StatePair>, m: PassedMap, q: Seq<StatePair>, m2: PassedMap, q2: Seq<StatePair>)
    requires settled(s1, s2, done, m, q), q == seq![p] + q2, pair_wf(s1, s2, p), m2.wf(s1.n()),
        forall|k: Key, v: Val| vok(v, s1.n()) ==> (#[trigger] m2.covers(k, v) <==> m.covers(k, v) || k == key_of(p) && pz(p).has(v))
    ensures settled(s1, s2, done.push(p), m2, q2), reach(s1, s2, p), keeps(s1.n(), m, q, m2, q2)
{
    assert(q[0] == p);
    assert forall|i: int| 0 <= i < q2.len() implies #[trigger] q2[i] == q[i + 1] by {}
    let d2 = done.push(p);
    assert forall|i: int| 0 <= i < done.len() implies #[trigger] done[i] == d2[i] by {}
    assert(d2[done.len() as int] == p);
    assert forall|k: Key, v: Val| vok(v, s1.n()) implies (#[trigger] m2.covers(k, v) <==> in_seq(d2, k, v)) by {
        if in_seq(done, k, v) { let i = choose|i: int| 0 <= i < done.len() && key_of(#[trigger] done[i]) == k && pz(done[i]).has(v); assert(key_of(d2[i]) == k && pz(d2[i]).has(v)); }
        if in_seq(d2, k, v) { let i = choose|i: int| 0 <= i < d2.len() && key_of(#[trigger] d2[i]) == k && pz(d2[i]).has(v); if i < done.len() { assert(key_of(done[i]) == k && pz(done[i]).has(v)); } }
        assert(m.covers(k, v) <==> in_seq(done, k, v));
    }
    assert forall|k: Key, v: Val| vok(v, s1.n()) && #[trigger] seen(m, q, k, v) implies seen(m2, q2, k, v) by { lemma_in_cons(p, q2, k, v); assert(m2.covers(k, v) <==> m.covers(k, v) || k == key_of(p) && pz(p).has(v)); }
    if exists|i: int| 0 <= i < done.len() && is_start(s1, s2, #[trigger] done[i]) { let i = choose|i: int| 0 <= i < done.len() && is_start(s1, s2, #[trigger] done[i]); assert(is_start(s1, s2, d2[i])); }
    else { let i = choose|i: int| 0 <= i < q.len() && is_start(s1, s2, #[trigger] q[i]); if i == 0 { assert(is_start(s1, s2, d2[done.len() as int])); } else { assert(is_start(s1, s2, q2[i - 1])); } }
}
/// the queue may grow by reachable pairs
pub proof fn lemma_settled_more(s1: TransitionSystemPtr, s2: TransitionSystemPtr, done: Seq<StatePair>, m: PassedMap, q: Seq<StatePair>, r: Seq<StatePair>)
    requires settled(s1, s2, done, m, q), all_reach(s1, s2, r), more(q, r) ensures settled(s1, s2, done, m, r)
{
    if exists|i: int| 0 <= i < q.len() && is_start(s1, s2, #[trigger] q[i]) { let i = choose|i: int| 0 <= i < q.len() && is_start(s1, s2, #[trigger] q[i]); assert(q.contains(q[i])); let j = choose|j: int| 0 <= j < r.len() && r[j] == q[i]; assert(is_start(s1, s2, r[j])); }
}
