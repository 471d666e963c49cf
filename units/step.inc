impl Clone for ProtoState { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct SimulationStartRequest { pub simulation_info: Option<SimulationInfo> }
pub struct SimulationStepRequest { pub simulation_info: Option<SimulationInfo>, pub chosen_decision: Option<ProtoDecision> }
pub struct SimulationStepResponse { pub full_state: Option<ProtoState>, pub new_decision_points: Vec<ProtoDecision> }
pub struct ConcreteEcdarBackend { }
/// the system an expression denotes over a model (C15 and C07, C08, C11)
pub uninterp spec fn system_of(m: Map<String, Component>, e: Seq<char>) -> TransitionSystemPtr;
#[verifier::external_body] pub fn component_loader_to_transition_system(l: &mut ComponentContainer, e: &str) -> (r: TransitionSystemPtr) ensures r == system_of(old(l).loaded_components@, e@) { unimplemented!() }
/// what the properties of the operators say of a system: locations and transitions are arranged like its components
#[verifier::opaque] pub open spec fn sys_ok(t: TransitionSystemPtr) -> bool {
    &&& t.n() <= u32::MAX && steps_ok(t) && !no_start(t) && (t.init() is Some ==> t.at(t.init()->0))
    &&& forall|l: LocationTree| #[trigger] t.at(l) ==> shaped(l.id, t.infos())
    &&& forall|l: LocationTree, a: String, i: int| t.at(l) && t.acts().contains(a) && 0 <= i < t.trans(l, a).len() ==> id_fits((#[trigger] t.trans(l, a)[i]).id, t)
}
#[verifier::opaque] pub open spec fn shown_state(p: ProtoState, s: State, t: TransitionSystemPtr) -> bool { exists|x: SpecificState| #[trigger] sent(x, s, t) && state_msg(x, p) }
#[verifier::opaque] pub open spec fn shown_dec(p: ProtoDecision, d: Decision, t: TransitionSystemPtr) -> bool { exists|x: SpecificDecision| #[trigger] dec_sent(x, d, t) && dec_msg(x, p) }
pub open spec fn shown(ps: Seq<ProtoDecision>, ds: Seq<Decision>, k: int, t: TransitionSystemPtr) -> bool { ps.len() == k && forall|i: int| 0 <= i < k ==> shown_dec(ps[i], #[trigger] ds[i], t) }
/// exactly the possible steps from the state, as messages
pub open spec fn steps_from(ps: Seq<ProtoDecision>, s: State, t: TransitionSystemPtr) -> bool { exists|ds: Seq<Decision>| #[trigger] all_decisions(t, s, ds) && shown(ps, ds, ds.len() as int, t) }
#[verifier::opaque] pub open spec fn initially(t: TransitionSystemPtr, ds: Seq<Decision>) -> bool { exists|s: State| #[trigger] is_initial(t, s) && all_decisions(t, s, ds) }
#[verifier::opaque] pub open spec fn started(t: TransitionSystemPtr, ps: Seq<ProtoDecision>) -> bool { exists|s: State| #[trigger] is_initial(t, s) && steps_from(ps, s, t) }
pub open spec fn shown_start(t: TransitionSystemPtr, p: ProtoState) -> bool { exists|s: State| #[trigger] is_initial(t, s) && shown_state(p, s, t) }
/// the answer to a start: the initial state of the system and the steps possible from it
pub open spec fn starts(i: SimulationInfo, r: SimulationStepResponse) -> bool { exists|t: TransitionSystemPtr| #[trigger] about(i, t) && started(t, r.new_decision_points@) && r.full_state is Some && shown_start(t, r.full_state->0) }
/// the source state of the step, as the client described it
pub open spec fn chosen(t: TransitionSystemPtr, s: State, p: ProtoDecision) -> bool { read(s, p.source->0, t) }
#[verifier::opaque] pub open spec fn follows(t: TransitionSystemPtr, p: ProtoDecision, ds: Seq<Decision>) -> bool { exists|s: State, i: int, n: State| chosen(t, s, p) && 0 <= i < t.trans(s.decorated_locations, p.action).len() && #[trigger] becomes(t, s, p.action, i, n) && all_decisions(t, n, ds) }
#[verifier::opaque] pub open spec fn answered(t: TransitionSystemPtr, p: ProtoDecision, ps: Seq<ProtoDecision>) -> bool { exists|s: State, i: int, n: State| chosen(t, s, p) && 0 <= i < t.trans(s.decorated_locations, p.action).len() && #[trigger] becomes(t, s, p.action, i, n) && steps_from(ps, n, t) }
/// the answer to a step: what is possible after the transition the client chose
pub open spec fn steps_on(i: SimulationInfo, p: ProtoDecision, r: SimulationStepResponse) -> bool { exists|t: TransitionSystemPtr| #[trigger] about(i, t) && answered(t, p, r.new_decision_points@) }
/// the request is about this system
pub open spec fn about(i: SimulationInfo, t: TransitionSystemPtr) -> bool {
    i.components_info is Some && exists|m: Map<String, Component>| #[trigger] right_model(i.user_id, i.components_info->0.components_hash, i.components_info->0.components@, m) && t == system_of(m, i.component_composition@)
}
pub open spec fn info_ok(i: SimulationInfo) -> bool {
    i.components_info is Some && comps_ok(comps_of(i.components_info->0.components@)) && brought(i.user_id, i.components_info->0.components_hash, i.components_info->0.components@)
}
pub proof fn lemma_state_fits(x: SpecificState, s: State, t: TransitionSystemPtr)
    requires sys_ok(t), sendable(s, t), sent(x, s, t)
    ensures state_fits(x)
{
    reveal(sys_ok);
    lemma_place(s.decorated_locations.id, t.infos());
    let (d, m) = choose|d: Disjunction, m: Map<usize, SpecificClock>| #[trigger] disj_names(x.constraints, d, m) && means(d, s.zone_sentinel->0) && clock_map(m, leaves(t.infos()), leaves(t.infos()).len() as int);
    lemma_fits(x.constraints, d, m, t.n());
}
pub proof fn lemma_dec_fits(x: SpecificDecision, d: Decision, t: TransitionSystemPtr)
    requires sys_ok(t), dec_ok(d, t), dec_sent(x, d, t)
    ensures dec_fits(x)
{ lemma_state_fits(x.source_state, d.state, t); lemma_state_fits(x.destination_state, d.next_state, t); }
pub proof fn lemma_dec_ok(t: TransitionSystemPtr, s: State, ds: Seq<Decision>)
    requires sys_ok(t), t.at(s.decorated_locations), all_decisions(t, s, ds)
    ensures forall|i: int| 0 <= i < ds.len() ==> dec_ok(#[trigger] ds[i], t)
{
    reveal(sys_ok);
    assert forall|i: int| 0 <= i < ds.len() implies dec_ok(#[trigger] ds[i], t) by {
        assert(is_decision(t, s, ds[i]));
        let (a, k) = choose|a: String, k: int| #[trigger] shows(t, s, ds[i], a, k);
        assert(ts_step(t, s.decorated_locations, t.trans(s.decorated_locations, a)));
        let x = t.trans(s.decorated_locations, a)[k];
        assert(t.at(x.target_locations) && id_fits(x.id, t));
    }
}
/// the chosen step can be read, and exactly one transition of its action can be taken from its source
pub open spec fn choice_ok(p: ProtoDecision, t: TransitionSystemPtr) -> bool {
    p.source is Some && p.destination is Some && readable(p.source->0, t) && readable(p.destination->0, t) && p.action@.len() > 0 && t.acts().contains(p.action)
    && forall|s: State| #[trigger] read(s, p.source->0, t) ==> sole(t, s, t.trans(s.decorated_locations, p.action))
}
pub proof fn lemma_dec_fits_all(d: Decision, t: TransitionSystemPtr)
    requires sys_ok(t), dec_ok(d, t)
    ensures forall|x: SpecificDecision| #[trigger] dec_sent(x, d, t) ==> dec_fits(x), forall|x: SpecificDecision, p: ProtoDecision| #[trigger] dec_sent(x, d, t) && #[trigger] dec_msg(x, p) ==> shown_dec(p, d, t)
{ reveal(shown_dec); assert forall|x: SpecificDecision| #[trigger] dec_sent(x, d, t) implies dec_fits(x) by { lemma_dec_fits(x, d, t); } }
pub proof fn lemma_start_fits(t: TransitionSystemPtr, s: State)
    requires sys_ok(t), is_initial(t, s), wf(t, s)
    ensures sendable(s, t), forall|x: SpecificState| #[trigger] sent(x, s, t) ==> state_fits(x), forall|x: SpecificState, p: ProtoState| #[trigger] sent(x, s, t) && #[trigger] state_msg(x, p) ==> shown_start(t, p)
{ reveal(sys_ok); reveal(shown_state); assert(t.at(s.decorated_locations)); assert forall|x: SpecificState| #[trigger] sent(x, s, t) implies state_fits(x) by { lemma_state_fits(x, s, t); } }
pub proof fn lemma_initially(t: TransitionSystemPtr, ds: Seq<Decision>)
    requires sys_ok(t), initially(t, ds)
    ensures forall|i: int| 0 <= i < ds.len() ==> dec_ok(#[trigger] ds[i], t)
{ reveal(sys_ok); reveal(initially); let s = choose|s: State| #[trigger] is_initial(t, s) && all_decisions(t, s, ds); lemma_dec_ok(t, s, ds); }
pub proof fn lemma_follows(t: TransitionSystemPtr, p: ProtoDecision, ds: Seq<Decision>)
    requires sys_ok(t), follows(t, p, ds), t.acts().contains(p.action)
    ensures forall|i: int| 0 <= i < ds.len() ==> dec_ok(#[trigger] ds[i], t)
{
    reveal(sys_ok); reveal(follows);
    let (s, i, n) = choose|s: State, i: int, n: State| chosen(t, s, p) && 0 <= i < t.trans(s.decorated_locations, p.action).len() && #[trigger] becomes(t, s, p.action, i, n) && all_decisions(t, n, ds);
    lemma_becomes(t, s, p.action, i, n); lemma_dec_ok(t, n, ds);
}
pub proof fn lemma_started(t: TransitionSystemPtr, ps: Seq<ProtoDecision>, ds: Seq<Decision>)
    requires initially(t, ds)
    ensures shown(ps, ds, ds.len() as int, t) ==> started(t, ps)
{ reveal(initially); reveal(started); if shown(ps, ds, ds.len() as int, t) { let s = choose|s: State| #[trigger] is_initial(t, s) && all_decisions(t, s, ds); assert(steps_from(ps, s, t)); } }
pub proof fn lemma_answered(t: TransitionSystemPtr, p: ProtoDecision, ps: Seq<ProtoDecision>, ds: Seq<Decision>)
    requires follows(t, p, ds)
    ensures shown(ps, ds, ds.len() as int, t) ==> answered(t, p, ps)
{
    reveal(follows); reveal(answered);
    let (s, i, n) = choose|s: State, i: int, n: State| chosen(t, s, p) && 0 <= i < t.trans(s.decorated_locations, p.action).len() && #[trigger] becomes(t, s, p.action, i, n) && all_decisions(t, n, ds);
    if shown(ps, ds, ds.len() as int, t) { assert(steps_from(ps, n, t)); }
}
pub proof fn lemma_becomes(t: TransitionSystemPtr, s: State, a: String, i: int, n: State)
    requires sys_ok(t), t.at(s.decorated_locations), t.acts().contains(a), 0 <= i < t.trans(s.decorated_locations, a).len(), becomes(t, s, a, i, n)
    ensures t.at(n.decorated_locations)
{ reveal(sys_ok); assert(ts_step(t, s.decorated_locations, t.trans(s.decorated_locations, a))); }
pub proof fn lemma_first(t: TransitionSystemPtr) requires sys_ok(t) ensures !no_start(t), t.init() is Some, exists|v: Val| vok(v, t.n()) && #[trigger] all_same(v) && inv_has(t.init()->0, v) { reveal(sys_ok); }
pub proof fn lemma_shown(ps: Seq<ProtoDecision>, ds: Seq<Decision>, k: int, t: TransitionSystemPtr, p: ProtoDecision)
    requires shown(ps, ds, k, t), 0 <= k < ds.len(), shown_dec(p, ds[k], t)
    ensures shown(ps.push(p), ds, k + 1, t)
{ let qs = ps.push(p); assert forall|i: int| 0 <= i < k + 1 implies shown_dec(qs[i], #[trigger] ds[i], t) by { if i < k { assert(qs[i] == ps[i]); } } }
pub proof fn lemma_nothing(t: TransitionSystemPtr)
    ensures forall|s: State, ds: Seq<Decision>| is_initial(t, s) && #[trigger] all_decisions(t, s, ds) && ds.len() == 0 ==> started(t, Seq::<ProtoDecision>::empty())
{ reveal(initially); assert forall|s: State, ds: Seq<Decision>| is_initial(t, s) && #[trigger] all_decisions(t, s, ds) && ds.len() == 0 implies started(t, Seq::<ProtoDecision>::empty()) by { lemma_started(t, Seq::<ProtoDecision>::empty(), ds); } }
