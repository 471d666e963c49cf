impl LocationTree { pub open spec fn same(&self, o: &LocationTree) -> bool { self.id == o.id && self.loc_type == o.loc_type } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for LocationTree {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &LocationTree) -> bool { self.same(o) }
}
impl TransitionSystemPtr {
    #[verifier::external_body] pub fn get_initial_state(&self) -> (r: Option<State>)
        ensures r is Some <==> self.init() is Some && exists|v: Val| vok(v, self.n()) && #[trigger] all_same(v) && inv_has(self.init()->0, v),
            r is Some ==> is_initial(*self, r->0) && wf(*self, r->0) { unimplemented!() }
}
impl ConsistencyFailure {
    #[verifier::external_body] pub fn no_initial_state(s: &TransitionSystemPtr) -> (r: ConsistencyResult) ensures r is Err { unimplemented!() }
    #[verifier::external_body] pub fn inconsistent(s: &TransitionSystemPtr, state: &State) -> (r: ConsistencyResult) ensures r is Err { unimplemented!() }
    #[verifier::external_body] pub fn inconsistent_from(s: &TransitionSystemPtr, state: &State) -> (r: ConsistencyResult) ensures r is Err { unimplemented!() }
}
impl DeterminismFailure {
    /// the action that is reported
    pub uninterp spec fn act(&self) -> Seq<char>;
    #[verifier::external_body] pub fn from_system_and_action(s: &TransitionSystemPtr, action: String, state: &State) -> (r: DeterminismResult) ensures r is Err, r->Err_0.act() == action@ { unimplemented!() }
}
pub open spec fn sz(s: State) -> OwnedFederation { s.zone_sentinel->0 }
pub open spec fn wf(t: TransitionSystemPtr, s: State) -> bool { st_ok(s, t.n()) && t.at(s.decorated_locations) && loc_ok(s.decorated_locations, t.n()) }
pub open spec fn all_wf(t: TransitionSystemPtr, l: Seq<State>) -> bool { forall|i: int| 0 <= i < l.len() ==> wf(t, #[trigger] l[i]) }
pub open spec fn is_initial(t: TransitionSystemPtr, s: State) -> bool { t.init() == Some(s.decorated_locations) && forall|v: Val| vok(v, t.n()) ==> (#[trigger] sz(s).has(v) <==> all_same(v) && inv_has(s.decorated_locations, v)) }
pub open spec fn within(a: State, b: State) -> bool { a.decorated_locations.same(&b.decorated_locations) && subset(sz(a), sz(b)) }
pub open spec fn listed(s: State, l: Seq<State>) -> bool { exists|i: int| 0 <= i < l.len() && within(s, #[trigger] l[i]) }
/// the transition can be taken somewhere in the zone
pub open spec fn usable(t: Transition, z: OwnedFederation) -> bool { exists|v: Val| vok(v, t.guard_zone.n()) && #[trigger] reached(t, z, v) }
/// ns is the (extrapolated) state reached from s by t
pub open spec fn leads(sys: TransitionSystemPtr, s: State, t: Transition, ns: State) -> bool {
    &&& usable(t, sz(s)) && ns.decorated_locations == t.target_locations && wf(sys, ns)
    &&& exists|f: OwnedFederation| sz(ns) == #[trigger] ext(f, sys.bounds(t.target_locations)) && f.n() == sys.n() && forall|v: Val| vok(v, sys.n()) ==> (#[trigger] f.has(v) <==> reached(t, sz(s), v))
}
pub open spec fn prefix(a: Seq<State>, b: Seq<State>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub proof fn lemma_listed(s: State, a: Seq<State>, b: Seq<State>)
    requires listed(s, a), prefix(a, b)
    ensures listed(s, b)
{ let i = choose|i: int| 0 <= i < a.len() && within(s, #[trigger] a[i]); assert(b[i] == a[i]); }
pub proof fn lemma_prefix(a: Seq<State>, b: Seq<State>, c: Seq<State>)
    requires prefix(a, b), prefix(b, c)
    ensures prefix(a, c)
{ assert forall|i: int| 0 <= i < a.len() implies #[trigger] c[i] == a[i] by { assert(b[i] == a[i]); } }
pub open spec fn listed_after(sys: TransitionSystemPtr, s: State, t: Transition, l: Seq<State>) -> bool { exists|ns: State| #[trigger] leads(sys, s, t, ns) && listed(ns, l) }
pub proof fn lemma_listed_after(sys: TransitionSystemPtr, s: State, t: Transition, a: Seq<State>, b: Seq<State>)
    requires listed_after(sys, s, t, a), prefix(a, b)
    ensures listed_after(sys, s, t, b)
{ let ns = choose|ns: State| #[trigger] leads(sys, s, t, ns) && listed(ns, a); lemma_listed(ns, a, b); }
// ---- determinism
/// the transition is possible at v: guard, target invariant after the updates, source invariant
pub open spec fn may(s: State, t: Transition, v: Val) -> bool { t.guard_zone.has(v) && inv_has(t.target_locations, upd(t.updates@, v)) && inv_has(s.decorated_locations, v) }
pub open spec fn may_upto(s: State, ts: Seq<Transition>, k: int, v: Val) -> bool { exists|i: int| 0 <= i < k && usable(#[trigger] ts[i], sz(s)) && may(s, ts[i], v) }
pub open spec fn clash(s: State, t: Transition, u: Transition) -> bool { exists|v: Val| vok(v, sz(s).n()) && #[trigger] may(s, t, v) && may(s, u, v) }
pub open spec fn no_clash(s: State, ts: Seq<Transition>, k: int) -> bool { forall|i: int, j: int| 0 <= i < j < k && usable(#[trigger] ts[i], sz(s)) && usable(#[trigger] ts[j], sz(s)) ==> !clash(s, ts[i], ts[j]) }
pub open spec fn followed(sys: TransitionSystemPtr, s: State, ts: Seq<Transition>, k: int, l: Seq<State>) -> bool { forall|i: int| 0 <= i < k && usable(#[trigger] ts[i], sz(s)) ==> listed_after(sys, s, ts[i], l) }
pub open spec fn det_act(sys: TransitionSystemPtr, s: State, a: String, l: Seq<State>) -> bool { let ts = sys.trans(s.decorated_locations, a); no_clash(s, ts, ts.len() as int) && followed(sys, s, ts, ts.len() as int, l) }
pub open spec fn det_at(sys: TransitionSystemPtr, s: State, l: Seq<State>) -> bool { forall|a: String| #[trigger] sys.acts().contains(a) ==> det_act(sys, s, a, l) }
pub open spec fn det_from(sys: TransitionSystemPtr, l: Seq<State>, k: int) -> bool { forall|i: int| k <= i < l.len() ==> det_at(sys, #[trigger] l[i], l) }
pub proof fn lemma_followed(sys: TransitionSystemPtr, s: State, ts: Seq<Transition>, k: int, a: Seq<State>, b: Seq<State>)
    requires followed(sys, s, ts, k, a), prefix(a, b)
    ensures followed(sys, s, ts, k, b)
{ assert forall|i: int| 0 <= i < k && usable(#[trigger] ts[i], sz(s)) implies listed_after(sys, s, ts[i], b) by { lemma_listed_after(sys, s, ts[i], a, b); } }
pub proof fn lemma_det_act(sys: TransitionSystemPtr, s: State, x: String, a: Seq<State>, b: Seq<State>)
    requires det_act(sys, s, x, a), prefix(a, b)
    ensures det_act(sys, s, x, b)
{ let ts = sys.trans(s.decorated_locations, x); lemma_followed(sys, s, ts, ts.len() as int, a, b); }
pub proof fn lemma_det_from(sys: TransitionSystemPtr, a: Seq<State>, b: Seq<State>, k: int)
    requires k >= 0, det_from(sys, a, k), prefix(a, b), det_from(sys, b, a.len() as int)
    ensures det_from(sys, b, k)
{
    assert forall|i: int| k <= i < b.len() implies det_at(sys, #[trigger] b[i], b) by {
        if i < a.len() { if i >= 0 { assert(b[i] == a[i]); } assert(0 <= i); assert(det_at(sys, a[i], a)); assert forall|x: String| #[trigger] sys.acts().contains(x) implies det_act(sys, b[i], x, b) by { lemma_det_act(sys, a[i], x, a, b); } }
    }
}
/// two transitions of s on the action are possible at once
pub open spec fn nondet_here(sys: TransitionSystemPtr, s: State, a: String) -> bool {
    sys.acts().contains(a) && exists|i: int, j: int| 0 <= i < j < sys.trans(s.decorated_locations, a).len()
        && usable(#[trigger] sys.trans(s.decorated_locations, a)[i], sz(s)) && usable(#[trigger] sys.trans(s.decorated_locations, a)[j], sz(s)) && clash(s, sys.trans(s.decorated_locations, a)[i], sys.trans(s.decorated_locations, a)[j])
}
/// ns is reached from s by one transition on a
pub open spec fn moves(sys: TransitionSystemPtr, s: State, a: String, ns: State) -> bool { exists|i: int| 0 <= i < sys.trans(s.decorated_locations, a).len() && leads(sys, s, #[trigger] sys.trans(s.decorated_locations, a)[i], ns) }
/// within k steps such a state is reached
pub open spec fn nondet(sys: TransitionSystemPtr, s: State, b: Seq<char>, k: nat) -> bool decreases k {
    (exists|a: String| a@ == b && #[trigger] nondet_here(sys, s, a)) || k > 0 && exists|a: String, ns: State| sys.acts().contains(a) && #[trigger] moves(sys, s, a, ns) && nondet(sys, ns, b, (k - 1) as nat)
}
/// no valuation with equal clocks fulfils the invariant of the initial location
pub open spec fn no_start(sys: TransitionSystemPtr) -> bool { !(sys.init() is Some && exists|v: Val| vok(v, sys.n()) && #[trigger] all_same(v) && inv_has(sys.init()->0, v)) }
/// the initial location with every valuation
pub open spec fn anywhere(sys: TransitionSystemPtr, s: State) -> bool { wf(sys, s) && sys.init() == Some(s.decorated_locations) && forall|v: Val| vok(v, sys.n()) ==> #[trigger] sz(s).has(v) }
// ---- consistency, with pruning
pub open spec fn saved(s: State, l: Seq<State>) -> bool { s.decorated_locations.loc_type is Universal || listed(s, l) }
pub open spec fn saved_after(sys: TransitionSystemPtr, s: State, t: Transition, l: Seq<State>) -> bool { exists|ns: State| #[trigger] leads(sys, s, t, ns) && saved(ns, l) }
pub open spec fn saved_upto(sys: TransitionSystemPtr, s: State, ts: Seq<Transition>, k: int, l: Seq<State>) -> bool { forall|i: int| 0 <= i < k && usable(#[trigger] ts[i], sz(s)) ==> saved_after(sys, s, ts[i], l) }
pub open spec fn ins_saved(sys: TransitionSystemPtr, s: State, a: String, l: Seq<State>) -> bool { let ts = sys.trans(s.decorated_locations, a); saved_upto(sys, s, ts, ts.len() as int, l) }
pub open spec fn out_saves(sys: TransitionSystemPtr, s: State, l: Seq<State>) -> bool { exists|a: String, ns: State| sys.outs().contains(a) && #[trigger] moves(sys, s, a, ns) && saved(ns, l) }
/// not inconsistent; no input leads out of the list; time may pass forever or an output stays in the list
pub open spec fn live(sys: TransitionSystemPtr, s: State, l: Seq<State>) -> bool {
    !(s.decorated_locations.loc_type is Inconsistent) && (forall|a: String| #[trigger] sys.ins().contains(a) ==> ins_saved(sys, s, a, l)) && (sz(s).unbounded() || out_saves(sys, s, l))
}
pub open spec fn live_from(sys: TransitionSystemPtr, l: Seq<State>, k: int) -> bool { forall|i: int| k <= i < l.len() ==> live(sys, #[trigger] l[i], l) }
pub proof fn lemma_saved(s: State, a: Seq<State>, b: Seq<State>) requires saved(s, a), prefix(a, b) ensures saved(s, b) { if !(s.decorated_locations.loc_type is Universal) { lemma_listed(s, a, b); } }
pub proof fn lemma_saved_upto(sys: TransitionSystemPtr, s: State, ts: Seq<Transition>, k: int, a: Seq<State>, b: Seq<State>)
    requires saved_upto(sys, s, ts, k, a), prefix(a, b)
    ensures saved_upto(sys, s, ts, k, b)
{ assert forall|i: int| 0 <= i < k && usable(#[trigger] ts[i], sz(s)) implies saved_after(sys, s, ts[i], b) by { let ns = choose|ns: State| #[trigger] leads(sys, s, ts[i], ns) && saved(ns, a); lemma_saved(ns, a, b); } }
pub proof fn lemma_live(sys: TransitionSystemPtr, s: State, a: Seq<State>, b: Seq<State>)
    requires live(sys, s, a), prefix(a, b)
    ensures live(sys, s, b)
{
    assert forall|x: String| #[trigger] sys.ins().contains(x) implies ins_saved(sys, s, x, b) by { let ts = sys.trans(s.decorated_locations, x); lemma_saved_upto(sys, s, ts, ts.len() as int, a, b); }
    if out_saves(sys, s, a) { let (x, ns) = choose|x: String, ns: State| sys.outs().contains(x) && #[trigger] moves(sys, s, x, ns) && saved(ns, a); lemma_saved(ns, a, b); assert(moves(sys, s, x, ns)); }
}
pub proof fn lemma_live_from(sys: TransitionSystemPtr, a: Seq<State>, b: Seq<State>, k: int)
    requires k >= 0, live_from(sys, a, k), prefix(a, b), live_from(sys, b, a.len() as int)
    ensures live_from(sys, b, k)
{ assert forall|i: int| k <= i < b.len() implies live(sys, #[trigger] b[i], b) by { if i < a.len() { assert(b[i] == a[i]); lemma_live(sys, a[i], a, b); } } }
/// an inconsistent location cannot be avoided: it is here, an input may lead to where that is so, or time cannot pass and every output does
pub open spec fn lost(sys: TransitionSystemPtr, s: State, k: nat) -> bool decreases k, 0int {
    !(s.decorated_locations.loc_type is Universal) && (s.decorated_locations.loc_type is Inconsistent || k > 0 && (
        (exists|a: String, ns: State| sys.ins().contains(a) && #[trigger] moves(sys, s, a, ns) && lost(sys, ns, (k - 1) as nat))
        || !sz(s).unbounded() && forall|a: String, i: int| #![trigger sys.outs().contains(a), sys.trans(s.decorated_locations, a)[i]] sys.outs().contains(a) && 0 <= i < sys.trans(s.decorated_locations, a).len() && usable(sys.trans(s.decorated_locations, a)[i], sz(s))
            ==> exists|ns: State| #[trigger] leads(sys, s, sys.trans(s.decorated_locations, a)[i], ns) && lost(sys, ns, (k - 1) as nat)))
}
pub open spec fn lost_after(sys: TransitionSystemPtr, s: State, t: Transition, k: nat) -> bool { exists|ns: State| #[trigger] leads(sys, s, t, ns) && lost(sys, ns, k) }
pub open spec fn lost_upto(sys: TransitionSystemPtr, s: State, ts: Seq<Transition>, m: int, k: nat) -> bool { forall|i: int| 0 <= i < m && usable(#[trigger] ts[i], sz(s)) ==> lost_after(sys, s, ts[i], k) }
pub open spec fn outs_lost(sys: TransitionSystemPtr, s: State, a: String, k: nat) -> bool { let ts = sys.trans(s.decorated_locations, a); lost_upto(sys, s, ts, ts.len() as int, k) }
pub proof fn lemma_lost(sys: TransitionSystemPtr, s: State, k: nat, m: nat)
    requires lost(sys, s, k), k <= m
    ensures lost(sys, s, m)
    decreases k
{
    if !(s.decorated_locations.loc_type is Inconsistent) {
        if exists|a: String, ns: State| sys.ins().contains(a) && #[trigger] moves(sys, s, a, ns) && lost(sys, ns, (k - 1) as nat) {
            let (a, ns) = choose|a: String, ns: State| sys.ins().contains(a) && #[trigger] moves(sys, s, a, ns) && lost(sys, ns, (k - 1) as nat);
            lemma_lost(sys, ns, (k - 1) as nat, (m - 1) as nat); assert(moves(sys, s, a, ns));
        } else {
            assert forall|a: String, i: int| #![trigger sys.outs().contains(a), sys.trans(s.decorated_locations, a)[i]] sys.outs().contains(a) && 0 <= i < sys.trans(s.decorated_locations, a).len() && usable(sys.trans(s.decorated_locations, a)[i], sz(s))
                implies exists|ns: State| #[trigger] leads(sys, s, sys.trans(s.decorated_locations, a)[i], ns) && lost(sys, ns, (m - 1) as nat) by {
                let ns = choose|ns: State| #[trigger] leads(sys, s, sys.trans(s.decorated_locations, a)[i], ns) && lost(sys, ns, (k - 1) as nat);
                lemma_lost(sys, ns, (k - 1) as nat, (m - 1) as nat);
            }
        }
    }
}
pub proof fn lemma_lost_upto(sys: TransitionSystemPtr, s: State, ts: Seq<Transition>, x: int, k: nat, m: nat)
    requires lost_upto(sys, s, ts, x, k), k <= m
    ensures lost_upto(sys, s, ts, x, m)
{ assert forall|i: int| 0 <= i < x && usable(#[trigger] ts[i], sz(s)) implies lost_after(sys, s, ts[i], m) by { let ns = choose|ns: State| #[trigger] leads(sys, s, ts[i], ns) && lost(sys, ns, k); lemma_lost(sys, ns, k, m); } }
/// the state at the end of the old list and what was added since
pub proof fn lemma_live_state(sys: TransitionSystemPtr, s: State, p0: Seq<State>, q: Seq<State>)
    requires prefix(p0.push(s), q), live_from(sys, q, p0.len() as int + 1), live(sys, s, q)
    ensures live_from(sys, q, p0.len() as int), saved(s, q), prefix(p0, q)
{
    let k = p0.len() as int; assert(p0.push(s)[k] == s); assert(q[k] == s); assert(within(s, q[k]));
    assert forall|i: int| k <= i < q.len() implies live(sys, #[trigger] q[i], q) by {}
    assert forall|i: int| 0 <= i < k implies #[trigger] q[i] == p0[i] by { assert(p0.push(s)[i] == p0[i]); }
}
/// the initial state, extrapolated
pub open spec fn start(sys: TransitionSystemPtr, s: State) -> bool {
    wf(sys, s) && sys.init() == Some(s.decorated_locations)
    && exists|f: OwnedFederation| sz(s) == #[trigger] ext(f, sys.bounds(s.decorated_locations)) && f.n() == sys.n() && forall|v: Val| vok(v, sys.n()) ==> (#[trigger] f.has(v) <==> all_same(v) && inv_has(s.decorated_locations, v))
}
// ---- consistency, without pruning
pub open spec fn act_listed(sys: TransitionSystemPtr, s: State, a: String, l: Seq<State>) -> bool { let ts = sys.trans(s.decorated_locations, a); followed(sys, s, ts, ts.len() as int, l) }
/// some output leads to a state that is not part of this one
pub open spec fn out_leaves(sys: TransitionSystemPtr, s: State) -> bool { exists|a: String, ns: State| sys.outs().contains(a) && #[trigger] moves(sys, s, a, ns) && !within(ns, s) }
/// no transition leads out of the list; time may pass forever or an output leaves the state
pub open spec fn free(sys: TransitionSystemPtr, s: State, l: Seq<State>) -> bool { (forall|a: String| #[trigger] sys.acts().contains(a) ==> act_listed(sys, s, a, l)) && (sz(s).unbounded() || out_leaves(sys, s)) }
pub open spec fn free_from(sys: TransitionSystemPtr, l: Seq<State>, k: int) -> bool { forall|i: int| k <= i < l.len() ==> free(sys, #[trigger] l[i], l) }
pub proof fn lemma_free_from(sys: TransitionSystemPtr, a: Seq<State>, b: Seq<State>, k: int)
    requires k >= 0, free_from(sys, a, k), prefix(a, b), free_from(sys, b, a.len() as int)
    ensures free_from(sys, b, k)
{
    assert forall|i: int| k <= i < b.len() implies free(sys, #[trigger] b[i], b) by { if i < a.len() { assert(b[i] == a[i]); assert(free(sys, a[i], a));
        assert forall|x: String| #[trigger] sys.acts().contains(x) implies act_listed(sys, b[i], x, b) by { let ts = sys.trans(a[i].decorated_locations, x); assert(act_listed(sys, a[i], x, a)); lemma_followed(sys, a[i], ts, ts.len() as int, a, b); } } }
}
pub proof fn lemma_acts_listed(sys: TransitionSystemPtr, s: State, acts: Seq<String>, k: int, a: Seq<State>, b: Seq<State>)
    requires forall|x: int| 0 <= x < k ==> act_listed(sys, s, #[trigger] acts[x], a), prefix(a, b)
    ensures forall|x: int| 0 <= x < k ==> act_listed(sys, s, #[trigger] acts[x], b)
{ assert forall|x: int| 0 <= x < k implies act_listed(sys, s, #[trigger] acts[x], b) by { let ts = sys.trans(s.decorated_locations, acts[x]); lemma_followed(sys, s, ts, ts.len() as int, a, b); } }
pub proof fn lemma_within_last(ns: State, s: State, p0: Seq<State>, q0: Seq<State>, q: Seq<State>)
    requires within(ns, s), q0 == p0.push(s), prefix(q0, q)
    ensures listed(ns, q)
{ assert(q0[p0.len() as int] == s); assert(q[p0.len() as int] == s); }
/// a state without way out is reached: time cannot pass forever, and no output leaves it
pub open spec fn stuck(sys: TransitionSystemPtr, s: State, k: nat) -> bool decreases k {
    !sz(s).unbounded() && nothing_leaves(sys, s)
    || k > 0 && exists|a: String, ns: State| sys.acts().contains(a) && #[trigger] moves(sys, s, a, ns) && !within(ns, s) && stuck(sys, ns, (k - 1) as nat)
}
pub open spec fn nothing_leaves(sys: TransitionSystemPtr, s: State) -> bool { forall|a: String| #[trigger] sys.outs().contains(a) ==> none_leaves(sys, s, sys.trans(s.decorated_locations, a), sys.trans(s.decorated_locations, a).len() as int) }
pub open spec fn none_leaves(sys: TransitionSystemPtr, s: State, ts: Seq<Transition>, k: int) -> bool { forall|i: int| 0 <= i < k && usable(#[trigger] ts[i], sz(s)) ==> exists|ns: State| #[trigger] leads(sys, s, ts[i], ns) && within(ns, s) }
pub proof fn lemma_free_state(sys: TransitionSystemPtr, s: State, p0: Seq<State>, q: Seq<State>)
    requires prefix(p0.push(s), q), free_from(sys, q, p0.len() as int + 1), free(sys, s, q)
    ensures free_from(sys, q, p0.len() as int), listed(s, q), prefix(p0, q)
{
    let k = p0.len() as int; assert(p0.push(s)[k] == s); assert(q[k] == s); assert(within(s, q[k]));
    assert forall|i: int| k <= i < q.len() implies free(sys, #[trigger] q[i], q) by {}
    assert forall|i: int| 0 <= i < k implies #[trigger] q[i] == p0[i] by { assert(p0.push(s)[i] == p0[i]); }
}
