/// what next_transitions ensures, for every location
pub open spec fn steps_ok(sys: TransitionSystemPtr) -> bool { forall|l: LocationTree, a: String| sys.at(l) && sys.acts().contains(a) ==> ts_step(sys, l, #[trigger] sys.trans(l, a)) }
// ---- decisions and paths
pub open spec fn post(t: Transition, z: OwnedFederation, s: State, n: int) -> bool { s.decorated_locations == t.target_locations && st_ok(s, n) && forall|v: Val| vok(v, n) ==> (#[trigger] sz(s).has(v) <==> reached(t, z, v)) }
/// the decision takes t on action a in s
pub open spec fn decides(s: State, t: Transition, a: String, d: Decision, n: int) -> bool {
    &&& d.transition == Some(t) && d.action == a && d.state.decorated_locations == s.decorated_locations && st_ok(d.state, n) && !none(sz(d.state))
    &&& forall|v: Val| vok(v, n) ==> (#[trigger] sz(d.state).has(v) <==> sz(s).has(v) && t.guard_zone.has(v) && inv_has(t.target_locations, upd(t.updates@, v)))
    &&& post(t, sz(d.state), d.next_state, n) && !none(sz(d.next_state))
}
/// t can be taken (before a further delay) from a valuation of s
pub open spec fn can_take(s: State, t: Transition, n: int) -> bool { exists|v: Val| vok(v, n) && #[trigger] sz(s).has(v) && t.guard_zone.has(v) && inv_has(t.target_locations, upd(t.updates@, v)) }
pub open spec fn shows(sys: TransitionSystemPtr, s: State, d: Decision, a: String, i: int) -> bool { sys.acts().contains(a) && 0 <= i < sys.trans(s.decorated_locations, a).len() && decides(s, sys.trans(s.decorated_locations, a)[i], a, d, sys.n()) }
pub open spec fn is_decision(sys: TransitionSystemPtr, s: State, d: Decision) -> bool { exists|a: String, i: int| #[trigger] shows(sys, s, d, a, i) }
/// exactly the possible decisions: each is one, and every transition that can be taken has one
pub open spec fn all_decisions(sys: TransitionSystemPtr, s: State, ds: Seq<Decision>) -> bool {
    &&& forall|j: int| 0 <= j < ds.len() ==> is_decision(sys, s, #[trigger] ds[j])
    &&& forall|a: String| #[trigger] sys.acts().contains(a) ==> made(sys, s, a, sys.trans(s.decorated_locations, a).len() as int, ds)
}
pub proof fn lemma_made(sys: TransitionSystemPtr, s: State, a: String, k: int, d0: Seq<Decision>, d: Seq<Decision>)
    requires made(sys, s, a, k, d0), d0.len() <= d.len(), forall|j: int| 0 <= j < d0.len() ==> d[j] == #[trigger] d0[j]
    ensures made(sys, s, a, k, d)
{
    assert forall|i: int| 0 <= i < k && can_take(s, #[trigger] sys.trans(s.decorated_locations, a)[i], sys.n()) implies exists|j: int| 0 <= j < d.len() && shows(sys, s, #[trigger] d[j], a, i) by {
        let j = choose|j: int| 0 <= j < d0.len() && shows(sys, s, #[trigger] d0[j], a, i); assert(shows(sys, s, d[j], a, i));
    }
}
pub open spec fn made(sys: TransitionSystemPtr, s: State, a: String, k: int, ds: Seq<Decision>) -> bool {
    forall|i: int| 0 <= i < k && can_take(s, #[trigger] sys.trans(s.decorated_locations, a)[i], sys.n()) ==> exists|j: int| 0 <= j < ds.len() && shows(sys, s, #[trigger] ds[j], a, i)
}
pub proof fn lemma_post(t: Transition, z: OwnedFederation, v: Val)
    requires vok(v, z.n()), z.has(v), t.guard_zone.has(v), inv_has(t.target_locations, upd(t.updates@, v)), us_ok(t.updates@, z.n()), t.guard_zone.n() == z.n()
    ensures usable(t, z), vok(upd(t.updates@, v), z.n()), reached(t, z, upd(t.updates@, v))
{ lemma_reached_some(t, z, v); let w = upd(t.updates@, v); assert(back(w, 0real) == upd(t.updates@, v)); assert(reached(t, z, w)); }

/// exactly one transition can be taken
pub open spec fn sole(sys: TransitionSystemPtr, s: State, ts: Seq<Transition>) -> bool { exists|i: int| 0 <= i < ts.len() && usable(#[trigger] ts[i], sz(s)) && forall|j: int| 0 <= j < ts.len() && usable(#[trigger] ts[j], sz(s)) ==> j == i }
pub open spec fn becomes(sys: TransitionSystemPtr, s: State, a: String, i: int, ns: State) -> bool { post(sys.trans(s.decorated_locations, a)[i], sz(s), ns, sys.n()) && !none(sz(ns)) }
/// the states reached by the usable ones among the first k transitions
pub open spec fn resolves(sys: TransitionSystemPtr, s: State, ts: Seq<Transition>, out: Seq<State>, k: int) -> bool {
    &&& forall|j: int| 0 <= j < out.len() ==> from_one(sys, s, ts, #[trigger] out[j], k)
    &&& (exists|i: int| 0 <= i < k && usable(#[trigger] ts[i], sz(s))) ==> out.len() > 0
    &&& (forall|i: int, j: int| 0 <= i < k && 0 <= j < k && usable(#[trigger] ts[i], sz(s)) && usable(#[trigger] ts[j], sz(s)) ==> i == j) ==> out.len() <= 1
    &&& (forall|i: int| 0 <= i < k ==> !usable(#[trigger] ts[i], sz(s))) ==> out.len() == 0
}
pub open spec fn from_one(sys: TransitionSystemPtr, s: State, ts: Seq<Transition>, ns: State, k: int) -> bool { exists|i: int| 0 <= i < k && #[trigger] post(ts[i], sz(s), ns, sys.n()) && !none(sz(ns)) }

pub proof fn lemma_resolves(sys: TransitionSystemPtr, s: State, ts: Seq<Transition>, o0: Seq<State>, o1: Seq<State>, k: int)
    requires resolves(sys, s, ts, o0, k), 0 <= k < ts.len(), usable(ts[k], sz(s)) ==> o1.len() == o0.len() + 1 && o1.drop_last() == o0 && post(ts[k], sz(s), o1.last(), sys.n()) && !none(sz(o1.last())), !usable(ts[k], sz(s)) ==> o1 == o0
    ensures resolves(sys, s, ts, o1, k + 1)
{
    assert forall|j: int| 0 <= j < o1.len() implies from_one(sys, s, ts, #[trigger] o1[j], k + 1) by {
        if j < o0.len() { assert(o1[j] == o0[j]); let i = choose|i: int| 0 <= i < k && #[trigger] post(ts[i], sz(s), o0[j], sys.n()) && !none(sz(o0[j])); assert(post(ts[i], sz(s), o1[j], sys.n())); } else { assert(post(ts[k], sz(s), o1[j], sys.n())); }
    }
    if usable(ts[k], sz(s)) && (forall|i: int, j: int| 0 <= i < k + 1 && 0 <= j < k + 1 && usable(#[trigger] ts[i], sz(s)) && usable(#[trigger] ts[j], sz(s)) ==> i == j) {
        assert forall|i: int| 0 <= i < k implies !usable(#[trigger] ts[i], sz(s)) by { if usable(ts[i], sz(s)) { assert(i == k); } }
    }
}
