impl OwnedFederation {
    /// the constants the federation compares clocks with
    pub uninterp spec fn consts(&self) -> Bounds;
    #[verifier::external_body] pub fn get_bounds(&self) -> (r: Bounds) ensures r == self.consts() { unimplemented!() }
}
/// a location (right) of a query, where `_` stands for every location of its component, describes the location
pub open spec fn describes(p: LocationID, l: LocationID) -> bool decreases l {
    match (l, p) {
        (LocationID::Composition(a, b), LocationID::Composition(x, y)) => describes(*x, *a) && describes(*y, *b),
        (LocationID::Conjunction(a, b), LocationID::Conjunction(x, y)) => describes(*x, *a) && describes(*y, *b),
        (LocationID::Quotient(a, b), LocationID::Quotient(x, y)) => describes(*x, *a) && describes(*y, *b),
        (LocationID::AnyLocation, LocationID::Simple(_)) => true,
        (LocationID::Simple(_), LocationID::AnyLocation) => true,
        (LocationID::AnyLocation, LocationID::AnyLocation) => true,
        (LocationID::Simple(a), LocationID::Simple(x)) => a == x,
        (_, _) => false,
    }
}
/// the tree of a combined location carries the two locations its id names
pub open spec fn tree_ok(l: LocationTree) -> bool decreases l {
    match l.id {
        LocationID::Composition(a, b) => l.left is Some && l.right is Some && l.left->0.id == *a && l.right->0.id == *b && tree_ok(*l.left->0) && tree_ok(*l.right->0),
        LocationID::Conjunction(a, b) => l.left is Some && l.right is Some && l.left->0.id == *a && l.right->0.id == *b && tree_ok(*l.left->0) && tree_ok(*l.right->0),
        LocationID::Quotient(a, b) => l.left is Some && l.right is Some && l.left->0.id == *a && l.right->0.id == *b && tree_ok(*l.left->0) && tree_ok(*l.right->0),
        _ => true,
    }
}
pub open spec fn trees_ok(sys: TransitionSystemPtr) -> bool { forall|l: LocationTree| #[trigger] sys.at(l) ==> tree_ok(l) }
/// s is in the described locations, with a valuation of the target zone
pub open spec fn hit(s: State, e: State) -> bool { describes(e.decorated_locations.id, s.decorated_locations.id) && exists|v: Val| vok(v, sz(s).n()) && #[trigger] sz(s).has(v) && sz(e).has(v) }
/// ns is reached from s by t, extrapolated with no smaller constants than those of the system and of the target
pub open spec fn leads_b(sys: TransitionSystemPtr, s: State, t: Transition, ns: State, tb: Bounds) -> bool {
    &&& usable(t, sz(s)) && ns.decorated_locations == t.target_locations && wf(sys, ns)
    &&& exists|f: OwnedFederation, b: Bounds| sz(ns) == #[trigger] ext(f, b) && b.ge(sys.bounds(t.target_locations)) && b.ge(tb) && f.n() == sys.n() && subset(f, sz(ns)) && forall|v: Val| vok(v, sys.n()) ==> (#[trigger] f.has(v) <==> reached(t, sz(s), v))
}
pub open spec fn inside(a: State, b: State) -> bool { a.decorated_locations.id == b.decorated_locations.id && subset(sz(a), sz(b)) }
pub open spec fn seen(s: State, l: Seq<State>) -> bool { exists|i: int| 0 <= i < l.len() && inside(s, #[trigger] l[i]) }
pub open spec fn seen_after(sys: TransitionSystemPtr, s: State, t: Transition, tb: Bounds, l: Seq<State>) -> bool { exists|ns: State| #[trigger] leads_b(sys, s, t, ns, tb) && seen(ns, l) }
pub open spec fn seen_upto(sys: TransitionSystemPtr, s: State, ts: Seq<Transition>, k: int, tb: Bounds, l: Seq<State>) -> bool { forall|i: int| 0 <= i < k && usable(#[trigger] ts[i], sz(s)) ==> seen_after(sys, s, ts[i], tb, l) }
pub open spec fn seen_act(sys: TransitionSystemPtr, s: State, a: String, tb: Bounds, l: Seq<State>) -> bool { let ts = sys.trans(s.decorated_locations, a); ts_step(sys, s.decorated_locations, ts) && seen_upto(sys, s, ts, ts.len() as int, tb, l) }
pub open spec fn explored(sys: TransitionSystemPtr, s: State, e: State, l: Seq<State>) -> bool { !hit(s, e) && forall|a: String| #[trigger] sys.acts().contains(a) ==> seen_act(sys, s, a, sz(e).consts(), l) }
pub open spec fn explored_to(sys: TransitionSystemPtr, e: State, l: Seq<State>, k: int) -> bool { forall|i: int| 0 <= i < k ==> explored(sys, #[trigger] l[i], e, l) }
pub proof fn lemma_seen(s: State, a: Seq<State>, b: Seq<State>)
    requires seen(s, a), prefix(a, b)
    ensures seen(s, b)
{ let i = choose|i: int| 0 <= i < a.len() && inside(s, #[trigger] a[i]); assert(b[i] == a[i]); }
pub proof fn lemma_seen_upto(sys: TransitionSystemPtr, s: State, ts: Seq<Transition>, k: int, tb: Bounds, a: Seq<State>, b: Seq<State>)
    requires seen_upto(sys, s, ts, k, tb, a), prefix(a, b)
    ensures seen_upto(sys, s, ts, k, tb, b)
{ assert forall|i: int| 0 <= i < k && usable(#[trigger] ts[i], sz(s)) implies seen_after(sys, s, ts[i], tb, b) by { let ns = choose|ns: State| #[trigger] leads_b(sys, s, ts[i], ns, tb) && seen(ns, a); lemma_seen(ns, a, b); } }
pub proof fn lemma_seen_act(sys: TransitionSystemPtr, s: State, x: String, tb: Bounds, a: Seq<State>, b: Seq<State>)
    requires seen_act(sys, s, x, tb, a), prefix(a, b)
    ensures seen_act(sys, s, x, tb, b)
{ let ts = sys.trans(s.decorated_locations, x); lemma_seen_upto(sys, s, ts, ts.len() as int, tb, a, b); }
pub proof fn lemma_explored_to(sys: TransitionSystemPtr, e: State, a: Seq<State>, b: Seq<State>, k: int)
    requires explored_to(sys, e, a, k), prefix(a, b), k <= a.len()
    ensures explored_to(sys, e, b, k)
{
    assert forall|i: int| 0 <= i < k implies explored(sys, #[trigger] b[i], e, b) by {
        assert(b[i] == a[i]);
        assert forall|x: String| #[trigger] sys.acts().contains(x) implies seen_act(sys, b[i], x, sz(e).consts(), b) by { lemma_seen_act(sys, a[i], x, sz(e).consts(), a, b); }
    }
}
// ---- what a run of the system is
/// v is reached from u by the transition and a delay
pub open spec fn step(t: Transition, u: Val, v: Val, n: int) -> bool {
    vok(v, n) && t.guard_zone.has(u) && inv_has(t.target_locations, v) && exists|d: real| d >= 0real && #[trigger] back(v, d) == upd(t.updates@, u)
}
/// (l, v) is reached from s by k transitions
pub open spec fn run(sys: TransitionSystemPtr, s: State, k: nat, l: LocationTree, v: Val) -> bool decreases k {
    if k == 0 { l == s.decorated_locations && vok(v, sys.n()) && sz(s).has(v) && inv_has(l, v) }
    else { exists|m: LocationTree, u: Val, a: String, i: int| run(sys, s, (k - 1) as nat, m, u) && sys.acts().contains(a) && 0 <= i < sys.trans(m, a).len() && l == sys.trans(m, a)[i].target_locations && #[trigger] step(sys.trans(m, a)[i], u, v, sys.n()) }
}
/// the id of a location of the system determines the location
pub open spec fn ids_identify(sys: TransitionSystemPtr) -> bool { forall|a: LocationTree, b: LocationTree| #[trigger] sys.at(a) && #[trigger] sys.at(b) && a.id == b.id ==> a == b }
/// every described location's invariant implies the one of the query's location
pub open spec fn fits(sys: TransitionSystemPtr, e: LocationTree) -> bool { forall|l: LocationTree, v: Val| #[trigger] sys.at(l) && describes(e.id, l.id) && vok(v, sys.n()) && #[trigger] inv_has(l, v) ==> inv_has(e, v) }
/// no run ends in the target
pub open spec fn unreachable_(sys: TransitionSystemPtr, s: State, e: State) -> bool { forall|k: nat, l: LocationTree, v: Val| #[trigger] run(sys, s, k, l, v) ==> !(describes(e.decorated_locations.id, l.id) && sz(e).has(v)) }
pub open spec fn at_some(l: LocationTree, v: Val, all: Seq<State>) -> bool { exists|i: int| 0 <= i < all.len() && (#[trigger] all[i]).decorated_locations == l && sz(all[i]).has(v) }
pub proof fn lemma_run(sys: TransitionSystemPtr, s: State, e: State, all: Seq<State>, k: nat, l: LocationTree, v: Val)
    requires run(sys, s, k, l, v), ids_identify(sys), wf(sys, s), all_wf(sys, all), explored_to(sys, e, all, all.len() as int), all.len() > 0,
        all[0].decorated_locations == s.decorated_locations, forall|w: Val| vok(w, sys.n()) ==> (#[trigger] sz(all[0]).has(w) <==> sz(s).has(w) && inv_has(s.decorated_locations, w))
    ensures at_some(l, v, all), vok(v, sys.n())
    decreases k
{
    if k == 0 { assert(all[0].decorated_locations == l && sz(all[0]).has(v)); }
    else {
        let (m, u, a, i) = choose|m: LocationTree, u: Val, a: String, i: int| run(sys, s, (k - 1) as nat, m, u) && sys.acts().contains(a) && 0 <= i < sys.trans(m, a).len() && l == sys.trans(m, a)[i].target_locations && #[trigger] step(sys.trans(m, a)[i], u, v, sys.n());
        lemma_run(sys, s, e, all, (k - 1) as nat, m, u);
        let j = choose|j: int| 0 <= j < all.len() && (#[trigger] all[j]).decorated_locations == m && sz(all[j]).has(u);
        let t = sys.trans(m, a)[i];
        assert(explored(sys, all[j], e, all)); assert(seen_act(sys, all[j], a, sz(e).consts(), all));
        assert(wf(sys, all[j]));
        let d = choose|d: real| d >= 0real && #[trigger] back(v, d) == upd(t.updates@, u);
        assert(vok(u, sz(all[j]).n()) && sz(all[j]).has(u) && t.guard_zone.has(u) && d >= 0real && back(v, d) == upd(t.updates@, u));
        assert(reached(t, sz(all[j]), v)); assert(tr_ok(t, sys.n())); assert(usable(t, sz(all[j])));
        let ns = choose|ns: State| #[trigger] leads_b(sys, all[j], t, ns, sz(e).consts()) && seen(ns, all);
        let (f, b) = choose|f: OwnedFederation, b: Bounds| sz(ns) == #[trigger] ext(f, b) && b.ge(sys.bounds(t.target_locations)) && b.ge(sz(e).consts()) && f.n() == sys.n() && subset(f, sz(ns)) && forall|v: Val| vok(v, sys.n()) ==> (#[trigger] f.has(v) <==> reached(t, sz(all[j]), v));
        assert(f.has(v)); assert(sz(ns).has(v));
        let x = choose|x: int| 0 <= x < all.len() && inside(ns, #[trigger] all[x]);
        assert(wf(sys, all[x])); assert(sys.at(t.target_locations)); assert(all[x].decorated_locations == l);
        assert(sz(all[x]).has(v));
    }
}
pub proof fn lemma_unreachable(sys: TransitionSystemPtr, s: State, e: State, all: Seq<State>)
    requires ids_identify(sys), wf(sys, s), all_wf(sys, all), explored_to(sys, e, all, all.len() as int), all.len() > 0,
        all[0].decorated_locations == s.decorated_locations, forall|w: Val| vok(w, sys.n()) ==> (#[trigger] sz(all[0]).has(w) <==> sz(s).has(w) && inv_has(s.decorated_locations, w))
    ensures unreachable_(sys, s, e)
{
    assert forall|k: nat, l: LocationTree, v: Val| #[trigger] run(sys, s, k, l, v) implies !(describes(e.decorated_locations.id, l.id) && sz(e).has(v)) by {
        lemma_run(sys, s, e, all, k, l, v);
        let i = choose|i: int| 0 <= i < all.len() && (#[trigger] all[i]).decorated_locations == l && sz(all[i]).has(v);
        assert(explored(sys, all[i], e, all)); assert(wf(sys, all[i]));
    }
}
/// along a run the location is one of the system and its invariant holds
pub proof fn lemma_run_at(sys: TransitionSystemPtr, s: State, k: nat, l: LocationTree, v: Val)
    requires run(sys, s, k, l, v), wf(sys, s), steps_ok(sys)
    ensures sys.at(l), inv_has(l, v), vok(v, sys.n())
    decreases k
{
    if k > 0 {
        let (m, u, a, i) = choose|m: LocationTree, u: Val, a: String, i: int| run(sys, s, (k - 1) as nat, m, u) && sys.acts().contains(a) && 0 <= i < sys.trans(m, a).len() && l == sys.trans(m, a)[i].target_locations && #[trigger] step(sys.trans(m, a)[i], u, v, sys.n());
        lemma_run_at(sys, s, (k - 1) as nat, m, u);
        assert(ts_step(sys, m, sys.trans(m, a)));
    }
}
pub proof fn lemma_run_some(sys: TransitionSystemPtr, s: State, k: nat, l: LocationTree, v: Val)
    requires run(sys, s, k, l, v), sz(s).n() == sys.n()
    ensures !none(sz(s)), vok(v, sys.n())
    decreases k
{
    if k > 0 {
        let (m, u, a, i) = choose|m: LocationTree, u: Val, a: String, i: int| run(sys, s, (k - 1) as nat, m, u) && sys.acts().contains(a) && 0 <= i < sys.trans(m, a).len() && l == sys.trans(m, a)[i].target_locations && #[trigger] step(sys.trans(m, a)[i], u, v, sys.n());
        lemma_run_some(sys, s, (k - 1) as nat, m, u);
    }
}
pub open spec fn prev(p: SubPath) -> SubPath { *p.previous_sub_path->0 }
/// the transitions and actions that led to the sub-path
pub open spec fn taken(p: SubPath) -> Seq<(Transition, String)> decreases p {
    match p.previous_sub_path { Some(q) => if p.transition is Some { taken(*q).push(p.transition->0) } else { taken(*q) }, None => seq![] }
}
pub open spec fn sub_ok(sys: TransitionSystemPtr, p: SubPath, l0: LocationTree) -> bool decreases p {
    match p.previous_sub_path {
        None => p.destination_state.decorated_locations == l0,
        Some(q) => p.transition is Some && sub_ok(sys, *q, l0) && sys.at(q.destination_state.decorated_locations) && sys.acts().contains((p.transition->0).1)
            && is_one(sys, q.destination_state.decorated_locations, (p.transition->0).1, (p.transition->0).0) && p.destination_state.decorated_locations == ((p.transition->0).0).target_locations,
    }
}
pub open spec fn is_one(sys: TransitionSystemPtr, l: LocationTree, a: String, t: Transition) -> bool { sys.at(t.target_locations) && tr_ok(t, sys.n()) && exists|i: int| 0 <= i < sys.trans(l, a).len() && #[trigger] sys.trans(l, a)[i] == t }
pub open spec fn loc_after(l0: LocationTree, ts: Seq<(Transition, String)>, k: int) -> LocationTree { if k <= 0 { l0 } else { ts[k - 1].0.target_locations } }
/// the transitions follow each other in the system
pub open spec fn follow(sys: TransitionSystemPtr, l0: LocationTree, ts: Seq<(Transition, String)>) -> bool { forall|i: int| 0 <= i < ts.len() ==> sys.acts().contains((#[trigger] ts[i]).1) && sys.at(loc_after(l0, ts, i)) && is_one(sys, loc_after(l0, ts, i), ts[i].1, ts[i].0) }
pub proof fn lemma_follow(sys: TransitionSystemPtr, p: SubPath, l0: LocationTree)
    requires sub_ok(sys, p, l0)
    ensures follow(sys, l0, taken(p)), p.destination_state.decorated_locations == loc_after(l0, taken(p), taken(p).len() as int)
    decreases p
{
    if p.previous_sub_path is Some {
        lemma_follow(sys, prev(p), l0);
        let a = taken(prev(p)); let b = taken(p);
        assert(b == a.push(p.transition->0));
        assert forall|i: int| 0 <= i < b.len() implies sys.acts().contains((#[trigger] b[i]).1) && sys.at(loc_after(l0, b, i)) && is_one(sys, loc_after(l0, b, i), b[i].1, b[i].0) by {
            if i < a.len() { assert(b[i] == a[i]); assert(loc_after(l0, b, i) == loc_after(l0, a, i)); } else { assert(loc_after(l0, b, i) == loc_after(l0, a, i)); }
        }
    }
}
/// decision i is taken in the state that follows the earlier ones
pub open spec fn on_path(sys: TransitionSystemPtr, s: State, d: Decision, ns: State) -> bool { d.transition is Some && sys.acts().contains(d.action) && is_one(sys, s.decorated_locations, d.action, d.transition->0) && decides(s, d.transition->0, d.action, d, sys.n()) && post(d.transition->0, sz(s), ns, sys.n()) }
pub open spec fn path_of(sys: TransitionSystemPtr, s0: State, ds: Seq<Decision>, ss: Seq<State>) -> bool { ss.len() == ds.len() + 1 && ss[0] == s0 && forall|i: int| 0 <= i < ds.len() ==> on_path(sys, #[trigger] ss[i], ds[i], ss[i + 1]) }
/// the decisions lead from s to a location the target describes
pub open spec fn leads_to(sys: TransitionSystemPtr, s: State, e: State, ds: Seq<Decision>) -> bool {
    exists|s0: State, ss: Seq<State>| restricted(s, s0, sys.n()) && #[trigger] path_of(sys, s0, ds, ss) && describes(e.decorated_locations.id, ss.last().decorated_locations.id)
}
pub open spec fn restricted(s: State, s0: State, n: int) -> bool { s0.decorated_locations == s.decorated_locations && st_ok(s0, n) && forall|v: Val| vok(v, n) ==> (#[trigger] sz(s0).has(v) <==> sz(s).has(v) && inv_has(s.decorated_locations, v)) }

// ---- the search
pub open spec fn zones_ok(m: Map<LocationID, Vec<OwnedFederation>>, n: int) -> bool { forall|k: LocationID, i: int| #![trigger m[k]@[i]] m.contains_key(k) && 0 <= i < m[k]@.len() ==> m[k]@[i].n() == n }
pub open spec fn in_map(m: Map<LocationID, Vec<OwnedFederation>>, k: LocationID, z: OwnedFederation) -> bool { m.contains_key(k) && m[k]@.contains(z) }
pub open spec fn known(m: Map<LocationID, Vec<OwnedFederation>>, s: State) -> bool { exists|z: OwnedFederation| #[trigger] in_map(m, s.decorated_locations.id, z) && subset(sz(s), z) }
/// the transition leads nowhere new, or what it leads to is queued and noted
pub open spec fn took(sys: TransitionSystemPtr, p: SubPath, t: Transition, a: String, tb: Bounds, f0: Seq<Rc<SubPath>>, f1: Seq<Rc<SubPath>>, m0: Map<LocationID, Vec<OwnedFederation>>, m1: Map<LocationID, Vec<OwnedFederation>>) -> bool {
    let s = p.destination_state;
    ||| f1 == f0 && (usable(t, sz(s)) ==> exists|ns: State| #[trigger] leads_b(sys, s, t, ns, tb) && known(m0, ns)) && forall|k: LocationID, z: OwnedFederation| #[trigger] in_map(m1, k, z) ==> in_map(m0, k, z)
    ||| f1.len() == f0.len() + 1 && f1.drop_last() == f0 && next_of(p, *f1.last(), t, a) && leads_b(sys, s, t, f1.last().destination_state, tb)
        && forall|k: LocationID, z: OwnedFederation| #[trigger] in_map(m1, k, z) ==> in_map(m0, k, z) || k == f1.last().destination_state.decorated_locations.id && z == sz(f1.last().destination_state)
}
pub open spec fn next_of(p: SubPath, q: SubPath, t: Transition, a: String) -> bool { q.previous_sub_path is Some && *q.previous_sub_path->0 == p && q.transition == Some((t, a)) }
/// what can be turned into the text of an action
pub trait VxText: Sized { spec fn text(&self) -> String; fn vx_text(self) -> (r: String) ensures r == self.text(); }
impl VxText for String { open spec fn text(&self) -> String { *self } fn vx_text(self) -> (r: String) { self } }
impl VxText for &String { open spec fn text(&self) -> String { **self } fn vx_text(self) -> (r: String) { self.clone() } }

/// Option::expect: returns only for Some
#[verifier::external_body] pub fn vx_must<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { unimplemented!() }
pub open spec fn steps_dim(ts: Seq<(Transition, String)>, n: int) -> bool { forall|i: int| 0 <= i < ts.len() ==> tr_ok((#[trigger] ts[i]).0, n) }
pub open spec fn sub_path_ok(p: SubPath) -> bool decreases p { match p.previous_sub_path { None => true, Some(q) => p.transition is Some && sub_path_ok(*q) } }
/// decision i takes step i in ss[i]; ss[i + 1] follows
pub open spec fn walked(s0: State, ts: Seq<(Transition, String)>, ds: Seq<Decision>, ss: Seq<State>, n: int) -> bool {
    ds.len() == ts.len() && ss.len() == ts.len() + 1 && ss[0] == s0 && forall|i: int| 0 <= i < ts.len() ==> decides(#[trigger] ss[i], ts[i].0, ts[i].1, ds[i], n) && post(ts[i].0, sz(ss[i]), ss[i + 1], n)
}

pub open spec fn zone_of(all: Seq<State>, k: LocationID, z: OwnedFederation) -> bool { exists|i: int| 0 <= i < all.len() && (#[trigger] all[i]).decorated_locations.id == k && sz(all[i]) == z }
pub open spec fn dest(p: Rc<SubPath>) -> State { p.destination_state }
pub open spec fn rc(p: Rc<SubPath>) -> SubPath { *p }

pub open spec fn walk(s0: State, ts: Seq<(Transition, String)>, ds: Seq<Decision>, ss: Seq<State>, k: int, n: int) -> bool {
    ds.len() == k && ss.len() == k + 1 && ss[0] == s0 && forall|i: int| 0 <= i < k ==> decides(#[trigger] ss[i], ts[i].0, ts[i].1, ds[i], n) && post(ts[i].0, sz(ss[i]), ss[i + 1], n)
}


pub mod reachax { use vstd::prelude::*; use super::*;
pub broadcast axiom fn ax_loc_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<LocationID>();
pub broadcast group group_reach { ax_loc_key }
}
broadcast use reachax::group_reach;

/// a derived Clone of an optional pair copies it
#[verifier::external_body] pub fn vx_copy<T: Clone>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }

pub open spec fn queued_at(sys: TransitionSystemPtr, p: Rc<SubPath>, s: State, l0: LocationTree) -> bool { p.destination_state == s && sub_ok(sys, *p, l0) && sub_path_ok(*p) }
pub proof fn lemma_same_elems(a: Seq<String>, b: Seq<String>)
    requires a.to_multiset() == b.to_multiset()
    ensures forall|x: String| #[trigger] b.contains(x) <==> a.contains(x)
{ a.to_multiset_ensures(); b.to_multiset_ensures(); assert forall|x: String| #[trigger] b.contains(x) <==> a.contains(x) by { assert(a.contains(x) <==> a.to_multiset().count(x) > 0); assert(b.contains(x) <==> b.to_multiset().count(x) > 0); } }
pub proof fn lemma_acts(a: Seq<String>, s: Set<String>)
    requires lists_v(a, s)
    ensures forall|x: String| #[trigger] a.contains(x) <==> s.contains(x)
{ }
pub proof fn lemma_zone_of(a: Seq<State>, b: Seq<State>, k: LocationID, z: OwnedFederation)
    requires zone_of(a, k, z), prefix(a, b)
    ensures zone_of(b, k, z)
{ let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).decorated_locations.id == k && sz(a[i]) == z; assert(b[i] == a[i]); }
pub proof fn lemma_follow_dim(sys: TransitionSystemPtr, p: SubPath, l0: LocationTree, n: int)
    requires sub_ok(sys, p, l0), n == sys.n()
    ensures steps_dim(taken(p), n)
    decreases p
{ if p.previous_sub_path is Some { lemma_follow_dim(sys, prev(p), l0, n); let a = taken(prev(p)); let b = taken(p); assert(b == a.push(p.transition->0)); assert forall|i: int| 0 <= i < b.len() implies tr_ok((#[trigger] b[i]).0, n) by { if i < a.len() { assert(b[i] == a[i]); } } } }
pub proof fn lemma_queue(sys: TransitionSystemPtr, p: SubPath, q: SubPath, t: Transition, a: String, k: int, l0: LocationTree)
    requires next_of(p, q, t, a), sub_ok(sys, p, l0), sub_path_ok(p), sys.at(p.destination_state.decorated_locations), sys.acts().contains(a), 0 <= k < sys.trans(p.destination_state.decorated_locations, a).len(), sys.trans(p.destination_state.decorated_locations, a)[k] == t,
        sys.at(t.target_locations), tr_ok(t, sys.n()), q.destination_state.decorated_locations == t.target_locations
    ensures sub_ok(sys, q, l0), sub_path_ok(q)
{ }

/// the first `gone` found states are explored, the next `off` ones are being explored, the others wait
#[verifier::opaque] pub open spec fn sinv(sys: TransitionSystemPtr, e: State, all: Seq<State>, gone: int, off: int, f: Seq<Rc<SubPath>>, m: Map<LocationID, Vec<OwnedFederation>>, s0: State) -> bool {
    &&& 0 <= gone && 0 <= off && all.len() == gone + off + f.len() && all.len() > 0 && all[0] == s0 && all_wf(sys, all) && explored_to(sys, e, all, gone)
    &&& forall|i: int| 0 <= i < f.len() ==> queued_at(sys, #[trigger] f[i], all[gone + off + i], s0.decorated_locations)
    &&& zones_ok(m, sys.n()) && forall|k: LocationID, z: OwnedFederation| #[trigger] in_map(m, k, z) ==> zone_of(all, k, z)
}
pub proof fn lemma_begin(sys: TransitionSystemPtr, e: State, s0: State, f: Seq<Rc<SubPath>>, m: Map<LocationID, Vec<OwnedFederation>>, p: SubPath)
    requires wf(sys, s0), f.len() == 1, *f[0] == p, p.previous_sub_path is None, p.destination_state == s0, m.dom() =~= set![s0.decorated_locations.id], m[s0.decorated_locations.id]@ =~= seq![sz(s0)]
    ensures sinv(sys, e, seq![s0], 0, 0, f, m, s0)
{
    reveal(sinv); let all = seq![s0];
    assert(queued_at(sys, f[0], all[0], s0.decorated_locations));
    assert forall|k: LocationID, z: OwnedFederation| #[trigger] in_map(m, k, z) implies zone_of(all, k, z) by { assert(all[0] == s0); }
}
pub proof fn lemma_pop(sys: TransitionSystemPtr, e: State, all: Seq<State>, gone: int, f: Seq<Rc<SubPath>>, m: Map<LocationID, Vec<OwnedFederation>>, s0: State, p: Rc<SubPath>, f1: Seq<Rc<SubPath>>)
    requires sinv(sys, e, all, gone, 0, f, m, s0), f == seq![p] + f1
    ensures sinv(sys, e, all, gone, 1, f1, m, s0), all[gone] == p.destination_state, wf(sys, p.destination_state), sub_ok(sys, *p, s0.decorated_locations), sub_path_ok(*p)
{
    reveal(sinv);
    assert(f[0] == p); assert(queued_at(sys, f[0], all[gone], s0.decorated_locations)); assert(wf(sys, all[gone]));
    assert forall|i: int| 0 <= i < f1.len() implies queued_at(sys, #[trigger] f1[i], all[gone + 1 + i], s0.decorated_locations) by { assert(f[i + 1] == f1[i]); assert(queued_at(sys, f[i + 1], all[gone + (i + 1)], s0.decorated_locations)); }
}
pub proof fn lemma_sinv_zones(sys: TransitionSystemPtr, e: State, all: Seq<State>, gone: int, off: int, f: Seq<Rc<SubPath>>, m: Map<LocationID, Vec<OwnedFederation>>, s0: State)
    requires sinv(sys, e, all, gone, off, f, m, s0)
    ensures zones_ok(m, sys.n())
{ reveal(sinv); }
pub proof fn lemma_took(sys: TransitionSystemPtr, e: State, sp: SubPath, a: String, all0: Seq<State>, gone: int, f0: Seq<Rc<SubPath>>, m0: Map<LocationID, Vec<OwnedFederation>>, all: Seq<State>, f1: Seq<Rc<SubPath>>, m1: Map<LocationID, Vec<OwnedFederation>>, s0: State, k: int)
    requires sinv(sys, e, all0, gone, 1, f0, m0, s0), all0[gone] == sp.destination_state, sub_ok(sys, sp, s0.decorated_locations), sub_path_ok(sp), sys.acts().contains(a), wf(sys, sp.destination_state),
        0 <= k < sys.trans(sp.destination_state.decorated_locations, a).len(), ts_step(sys, sp.destination_state.decorated_locations, sys.trans(sp.destination_state.decorated_locations, a)),
        took(sys, sp, sys.trans(sp.destination_state.decorated_locations, a)[k], a, sz(e).consts(), f0, f1, m0, m1), zones_ok(m1, sys.n()),
        seen_upto(sys, sp.destination_state, sys.trans(sp.destination_state.decorated_locations, a), k, sz(e).consts(), all0),
        all == (if f1.len() == f0.len() + 1 { all0.push(f1.last().destination_state) } else { all0 })
    ensures sinv(sys, e, all, gone, 1, f1, m1, s0), all[gone] == sp.destination_state, prefix(all0, all), seen_upto(sys, sp.destination_state, sys.trans(sp.destination_state.decorated_locations, a), k + 1, sz(e).consts(), all)
{
    reveal(sinv);
    let s = sp.destination_state; let ts = sys.trans(s.decorated_locations, a); let t = ts[k]; let tb = sz(e).consts(); let l0 = s0.decorated_locations;
    assert(prefix(all0, all));
    lemma_explored_to(sys, e, all0, all, gone); lemma_seen_upto(sys, s, ts, k, tb, all0, all);
    assert(sys.at(t.target_locations) && tr_ok(t, sys.n()));
    if f1.len() == f0.len() + 1 {
        let ns = f1.last().destination_state; assert(f1.drop_last() == f0); assert(all[all.len() - 1] == ns); assert(wf(sys, ns));
        assert forall|i: int| 0 <= i < f1.len() implies queued_at(sys, #[trigger] f1[i], all[gone + 1 + i], l0) by { if i < f0.len() { assert(f1[i] == f0[i]); assert(all[gone + 1 + i] == all0[gone + 1 + i]); assert(queued_at(sys, f0[i], all0[gone + 1 + i], l0)); } else { lemma_queue(sys, sp, *f1[i], t, a, k, l0); } }
        assert forall|k: LocationID, z: OwnedFederation| #[trigger] in_map(m1, k, z) implies zone_of(all, k, z) by { if in_map(m0, k, z) { lemma_zone_of(all0, all, k, z); } else { assert(all[all.len() - 1] == ns); } }
        assert(inside(ns, all[all.len() - 1])); assert(seen(ns, all)); assert(seen_after(sys, s, t, tb, all));
    } else {
        if usable(t, sz(s)) {
            let ns = choose|ns: State| #[trigger] leads_b(sys, s, t, ns, tb) && known(m0, ns); let z = choose|z: OwnedFederation| #[trigger] in_map(m0, ns.decorated_locations.id, z) && subset(sz(ns), z);
            assert(zone_of(all0, ns.decorated_locations.id, z)); let i = choose|i: int| 0 <= i < all0.len() && (#[trigger] all0[i]).decorated_locations.id == ns.decorated_locations.id && sz(all0[i]) == z;
            assert(inside(ns, all[i])); assert(seen(ns, all)); assert(seen_after(sys, s, t, tb, all));
        }
    }
}
pub proof fn lemma_next(sys: TransitionSystemPtr, e: State, all: Seq<State>, gone: int, f: Seq<Rc<SubPath>>, m: Map<LocationID, Vec<OwnedFederation>>, s0: State)
    requires sinv(sys, e, all, gone, 1, f, m, s0), !hit(all[gone], e), forall|b: String| #[trigger] sys.acts().contains(b) ==> seen_act(sys, all[gone], b, sz(e).consts(), all)
    ensures sinv(sys, e, all, gone + 1, 0, f, m, s0)
{
    reveal(sinv); assert(explored(sys, all[gone], e, all));
    assert forall|i: int| 0 <= i < f.len() implies queued_at(sys, #[trigger] f[i], all[(gone + 1) + 0 + i], s0.decorated_locations) by { assert(queued_at(sys, f[i], all[gone + 1 + i], s0.decorated_locations)); }
}
pub proof fn lemma_end(sys: TransitionSystemPtr, st: State, e: State, all: Seq<State>, gone: int, f: Seq<Rc<SubPath>>, m: Map<LocationID, Vec<OwnedFederation>>, s0: State)
    requires sinv(sys, e, all, gone, 0, f, m, s0), f.len() == 0, ids_identify(sys), wf(sys, st), restricted(st, s0, sys.n())
    ensures unreachable_(sys, st, e)
{ reveal(sinv); lemma_unreachable(sys, st, e, all); }

pub proof fn lemma_path(sys: TransitionSystemPtr, s0: State, ts: Seq<(Transition, String)>, ds: Seq<Decision>, ss: Seq<State>, n: int)
    requires walked(s0, ts, ds, ss, n), follow(sys, s0.decorated_locations, ts), n == sys.n()
    ensures path_of(sys, s0, ds, ss), ss.last().decorated_locations == loc_after(s0.decorated_locations, ts, ts.len() as int)
{
    let l0 = s0.decorated_locations;
    assert forall|i: int| 0 <= i < ds.len() implies on_path(sys, #[trigger] ss[i], ds[i], ss[i + 1]) by {
        assert(ss[i].decorated_locations == loc_after(l0, ts, i)) by { if i > 0 { let j = i - 1; assert(post(ts[j].0, sz(ss[j]), ss[j + 1], n)); } }
        assert(sys.acts().contains(ts[i].1));
    }
    let m = ts.len() as int;
    if m > 0 { let j = m - 1; assert(post(ts[j].0, sz(ss[j]), ss[j + 1], n)); }
}
