@unit consist
@file U src/EdgeEval/updater.rs
@file T src/ModelObjects/transition.rs
@file L src/TransitionSystems/location_tree.rs
@file I src/TransitionSystems/location_id.rs
@file D src/TransitionSystems/transition_id.rs
@file M src/ModelObjects/location.rs
@file Z src/System/specifics.rs
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file C src/ModelObjects/component.rs
@file E src/ModelObjects/edge.rs
@file PE src/DataReader/parse_edge.rs
@file S src/ModelObjects/state.rs
@file R src/TransitionSystems/transition_system.rs
@file V src/System/local_consistency.rs
@setfn get_input_actions get_output_actions get_actions
@addassign
@inline S State::update_zone
@type A ArithExpression clone eq
@type B BoolExpression clone eq
@type C Declarations
@type PE Update
@type E SyncType copy eq
@type E Edge
@type M Location
@type C Component
@type U CompiledUpdate clone
@file W src/System/query_failures.rs
@type D TransitionID clone eq
@type I LocationID clone eq hash
@type Z SpecialLocation clone eq
@type W SystemType copy eq
@type Z SpecificComp
@type Z SpecificLocation
@type M LocationType copy eq
@type L CompositionType copy eq
@type L LocationTree clone
@type T Transition clone
@type S State clone
@include common.inc
@include sets.inc
@include fed.inc
@include arith.inc
@include upd.inc
@include bounds.inc
@include trans.inc
@include ts.inc
@include sysbounds.inc
@include consist.inc
@prelude
impl PartialEq for LocationTree { fn eq(&self, o: &Self) -> (r: bool) { LocationTree::eq(self, o) } }
@endprelude
@import transition L LocationTree::apply_invariants
@import transition S State::zone_ref
@import transition S State::take_zone
@import transition S State::set_zone
@import transition T Transition::get_allowed_federation
@import transition T Transition::use_transition
@fn L LocationTree@PartialEq::eq -> r
    ensures r == self.same(other)
@fn L LocationTree::is_universal -> r
    ensures r <==> self.loc_type is Universal
@fn L LocationTree::is_inconsistent -> r
    ensures r <==> self.loc_type is Inconsistent
@fn S State::is_subset_of -> r
    requires self.zone_sentinel is Some, other.zone_sentinel is Some, sz(*self).n() == sz(*other).n()
    ensures r <==> within(*self, *other)
@fn S State::is_contained_in_list -> r
    requires self.zone_sentinel is Some, forall|i: int| 0 <= i < list@.len() ==> st_ok(#[trigger] list@[i], sz(*self).n())
    ensures r <==> listed(*self, list@)
@loop 0
    invariant self.zone_sentinel is Some, forall|i: int| 0 <= i < list@.len() ==> st_ok(#[trigger] list@[i], sz(*self).n()),
        it0.seq().len() == list@.len(), forall|i: int| 0 <= i < list@.len() ==> *#[trigger] it0.seq()[i] == list@[i], !__vx_r1 ==> forall|i: int| 0 <= i < it0.index@ ==> !within(*self, #[trigger] list@[i]), __vx_r1 ==> listed(*self, list@)
    ensures __vx_r1 <==> listed(*self, list@)
@fn S State::extrapolate_max_bounds
    requires old(self).zone_sentinel is Some
    ensures final(self).decorated_locations == old(self).decorated_locations, final(self).zone_sentinel is Some, sz(*final(self)).n() == sz(*old(self)).n(),
        sz(*final(self)) == ext(sz(*old(self)), system.bounds(old(self).decorated_locations))
@fn R TransitionSystem::next_outputs -> r
    requires self.at(*location), self.outs().contains(mk(action@))
    ensures r@ == self.trans(*location, mk(action@)), ts_step(*self, *location, r@)
@selfas TransitionSystemPtr
@fn R TransitionSystem::next_inputs -> r
    requires self.at(*location), self.ins().contains(mk(action@))
    ensures r@ == self.trans(*location, mk(action@)), ts_step(*self, *location, r@)
@selfas TransitionSystemPtr
@fn V is_deterministic_helper -> r
    requires wf(*system, state), all_wf(*system, old(passed_list)@)
    ensures all_wf(*system, final(passed_list)@), prefix(old(passed_list)@, final(passed_list)@),
        r is Ok ==> listed(state, final(passed_list)@) && det_from(*system, final(passed_list)@, old(passed_list)@.len() as int),
        r is Err ==> exists|k: nat| #[trigger] nondet(*system, state, r->Err_0.act(), k)
@attr verifier::exec_allows_no_decreases_clause
@attr verifier::loop_isolation(false)
@hint start
let ghost p0 = passed_list@; let ghost n = system.n(); let ghost z = sz(state); let ghost sys = *system;
@hint before "for action in"
let ghost q0 = passed_list@;
proof { assert(within(state, q0[p0.len() as int])); assert(det_from(sys, q0, q0.len() as int)); }
@loops 2
@loop 0
    invariant lists_v(it0.seq(), sys.acts()), all_wf(sys, passed_list@), prefix(q0, passed_list@), det_from(sys, passed_list@, q0.len() as int),
        forall|x: int| 0 <= x < it0.index@ ==> det_act(sys, state, #[trigger] it0.seq()[x], passed_list@)
@hint loop 0 start
let ghost ts = sys.trans(state.decorated_locations, action); let ghost p1 = passed_list@;
@loop 1
    invariant it1.seq().len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> *#[trigger] it1.seq()[i] == ts[i], ts_step(sys, state.decorated_locations, ts), prefix(p1, passed_list@),
        all_wf(sys, passed_list@), prefix(q0, passed_list@), det_from(sys, passed_list@, q0.len() as int),
        no_clash(state, ts, it1.index@ as int), followed(sys, state, ts, it1.index@ as int, passed_list@),
        location_fed.n() == n, forall|v: Val| vok(v, n) ==> (#[trigger] location_fed.has(v) <==> may_upto(state, ts, it1.index@ as int, v))
@hint loop 1 start
let ghost p2 = passed_list@; let ghost k = it1.index@ as int; let ghost l0 = location_fed;
proof { assert(ts[k] == *transition); assert(tr_ok(ts[k], n)); }
@hint before "return DeterminismFailure"
proof {
    let w = choose|w: Val| vok(w, n) && #[trigger] allowed_fed.has(w) && location_fed.has(w);
    let i = choose|i: int| 0 <= i < k && usable(#[trigger] ts[i], z) && may(state, ts[i], w);
    assert(may(state, ts[i], w) && may(state, ts[k], w)); assert(clash(state, ts[i], ts[k])); assert(nondet_here(sys, state, action)); assert(nondet(sys, state, action@, 0));
}
@hint before "new_state.extrapolate_max_bounds(system)"
let ghost f = sz(new_state);
@hint before "is_deterministic_helper(new_state, passed_list, system)"
let ghost ns = new_state;
proof {
    assert(sz(ns) == ext(f, sys.bounds(ts[k].target_locations))); assert(leads(sys, state, ts[k], ns)); assert(moves(sys, state, action, ns));
    assert forall|b: Seq<char>, j: nat| #[trigger] nondet(sys, ns, b, j) implies nondet(sys, state, b, j + 1) by { assert(sys.acts().contains(action) && moves(sys, state, action, ns)); }
    assert forall|i: int| 0 <= i < k && usable(#[trigger] ts[i], z) implies !clash(state, ts[i], ts[k]) by {
        assert forall|v: Val| vok(v, n) && #[trigger] may(state, ts[i], v) implies !may(state, ts[k], v) by { assert(l0.has(v)); assert(allowed_fed.has(v) <==> may(state, ts[k], v)); }
    }
}
@hint loop 1 end
proof {
    lemma_followed(sys, state, ts, k, p2, passed_list@);
    lemma_det_from(sys, p2, passed_list@, q0.len() as int);
}
@hint loop 0 end
proof {
    assert forall|x: int| 0 <= x < it0.index@ + 1 implies det_act(sys, state, #[trigger] it0.seq()[x], passed_list@) by { if x < it0.index@ { lemma_det_act(sys, state, it0.seq()[x], p1, passed_list@); } }
}
@hint end
proof {
    let p = passed_list@;
    assert(p[p0.len() as int] == q0[p0.len() as int]); assert(within(state, p[p0.len() as int]));
    assert(det_at(sys, state, p));
    assert forall|i: int| p0.len() <= i < p.len() implies det_at(sys, #[trigger] p[i], p) by { if i == p0.len() { assert(p[i] == state); } }
}
@fn V check_determinism -> r
    ensures r is Ok ==> no_start(*system) || exists|l: Seq<State>, s: State| #[trigger] anywhere(*system, s) && #[trigger] listed(s, l) && det_from(*system, l, 0),
        r is Err ==> !no_start(*system) && exists|s: State, k: nat| #[trigger] anywhere(*system, s) && #[trigger] nondet(*system, s, r->Err_0.act(), k)
@hint before "is_deterministic_helper(state, &mut passed, system)"
proof { assert(anywhere(*system, state)); }
@fn V consistency_least_helper -> r
    requires wf(*system, state), all_wf(*system, old(passed_list)@)
    ensures all_wf(*system, final(passed_list)@), prefix(old(passed_list)@, final(passed_list)@),
        r is Ok ==> saved(state, final(passed_list)@) && live_from(*system, final(passed_list)@, old(passed_list)@.len() as int),
        r is Err ==> exists|k: nat| #[trigger] lost(*system, state, k)
@attr verifier::exec_allows_no_decreases_clause
@attr verifier::loop_isolation(false)
@hint start
let ghost p0 = passed_list@; let ghost n = system.n(); let ghost z = sz(state); let ghost sys = *system;
@hint before "for input in"
let ghost q0 = passed_list@;
proof { assert(within(state, q0[p0.len() as int])); assert(live_from(sys, q0, q0.len() as int)); }
@loops 4
@loop 0
    invariant lists_v(it0.seq(), sys.ins()), all_wf(sys, passed_list@), prefix(q0, passed_list@), live_from(sys, passed_list@, q0.len() as int),
        forall|x: int| 0 <= x < it0.index@ ==> ins_saved(sys, state, #[trigger] it0.seq()[x], passed_list@)
@hint loop 0 start
let ghost ts = sys.trans(state.decorated_locations, input); let ghost p1 = passed_list@;
@loop 1
    invariant it1.seq().len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> *#[trigger] it1.seq()[i] == ts[i], ts_step(sys, state.decorated_locations, ts), prefix(p1, passed_list@),
        all_wf(sys, passed_list@), prefix(q0, passed_list@), live_from(sys, passed_list@, q0.len() as int), saved_upto(sys, state, ts, it1.index@ as int, passed_list@)
@hint loop 1 start
let ghost p2 = passed_list@; let ghost k = it1.index@ as int;
proof { assert(ts[k] == *transition); assert(tr_ok(ts[k], n)); }
@hint loop 1 end
proof { lemma_saved_upto(sys, state, ts, k, p2, passed_list@); lemma_live_from(sys, p2, passed_list@, q0.len() as int); }
@hint loop 0 end
proof {
    assert forall|x: int| 0 <= x < it0.index@ + 1 implies ins_saved(sys, state, #[trigger] it0.seq()[x], passed_list@) by { if x < it0.index@ { lemma_saved_upto(sys, state, sys.trans(state.decorated_locations, it0.seq()[x]), sys.trans(state.decorated_locations, it0.seq()[x]).len() as int, p1, passed_list@); } }
}
@hint before "consistency_least_helper(new_state, passed_list, system)?"
let ghost ns = new_state;
proof { assert(leads(sys, state, ts[k], ns)); assert(moves(sys, state, input, ns));
    assert forall|j: nat| #[trigger] lost(sys, ns, j) implies lost(sys, state, j + 1) by { assert(sys.ins().contains(input) && moves(sys, state, input, ns)); } }
@hint before "if state.zone_ref().can_delay_indefinitely()"
let ghost q1 = passed_list@; let ghost mut kk: nat = 0;
proof {
    assert(q1[p0.len() as int] == q0[p0.len() as int]); assert(within(state, q1[p0.len() as int]));
    assert forall|a: String| #[trigger] sys.ins().contains(a) implies ins_saved(sys, state, a, q1) by {}
    if z.unbounded() { lemma_live_state(sys, state, p0, q1); }
}
@loop 2
    invariant lists_v(it2.seq(), sys.outs()), passed_list@ == q1, !z.unbounded(), forall|x: int| 0 <= x < it2.index@ ==> outs_lost(sys, state, #[trigger] it2.seq()[x], kk)
@hint loop 2 start
let ghost ts = sys.trans(state.decorated_locations, output); let ghost k0 = kk;
@loop 3
    invariant it3.seq().len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> #[trigger] it3.seq()[i] == ts[i], ts_step(sys, state.decorated_locations, ts),
        passed_list@ == q1, kk >= k0, lost_upto(sys, state, ts, it3.index@ as int, kk)
@hint loop 3 start
let ghost k = it3.index@ as int; let ghost k1 = kk;
proof { assert(ts[k] == transition); assert(tr_ok(ts[k], n)); }
@hint before "let passed = passed_list.len()"
let ghost ns = new_state;
proof {
    assert(leads(sys, state, ts[k], ns)); assert(moves(sys, state, output, ns));
    assert forall|l: Seq<State>| prefix(q1, l) && live_from(sys, l, q1.len() as int) && #[trigger] saved(ns, l) implies live_from(sys, l, p0.len() as int) && saved(state, l) && prefix(p0, l) by {
        lemma_live_from(sys, q1, l, q0.len() as int); lemma_prefix(q0, q1, l);
        assert forall|a: String| #[trigger] sys.ins().contains(a) implies ins_saved(sys, state, a, l) by { let us = sys.trans(state.decorated_locations, a); lemma_saved_upto(sys, state, us, us.len() as int, q1, l); }
        assert(out_saves(sys, state, l)); lemma_live_state(sys, state, p0, l);
    }
    assert forall|j: nat| #[trigger] lost(sys, ns, j) implies lost_after(sys, state, ts[k], j) by { assert(leads(sys, state, ts[k], ns)); }
}
@hint loop 3 end
proof {
    assert(passed_list@ =~= q1);
    if usable(ts[k], z) {
        let j = choose|j: nat| lost_after(sys, state, ts[k], j); let m = if j > k1 { j } else { k1 };
        lemma_lost_upto(sys, state, ts, k, k1, m); let w = choose|w: State| #[trigger] leads(sys, state, ts[k], w) && lost(sys, w, j); lemma_lost(sys, w, j, m); assert(lost_after(sys, state, ts[k], m));
        kk = m;
    }
}
@hint loop 2 end
proof { assert forall|x: int| 0 <= x < it2.index@ + 1 implies outs_lost(sys, state, #[trigger] it2.seq()[x], kk) by { if x < it2.index@ { let us = sys.trans(state.decorated_locations, it2.seq()[x]); lemma_lost_upto(sys, state, us, us.len() as int, k0, kk); } } }
@hint before "return ConsistencyFailure::inconsistent(system, &state)"
proof { assert(lost(sys, state, 0)); }
@hint end
proof {
    assert forall|a: String, i: int| #![trigger sys.outs().contains(a), sys.trans(state.decorated_locations, a)[i]] sys.outs().contains(a) && 0 <= i < sys.trans(state.decorated_locations, a).len() && usable(sys.trans(state.decorated_locations, a)[i], z)
        implies exists|ns: State| #[trigger] leads(sys, state, sys.trans(state.decorated_locations, a)[i], ns) && lost(sys, ns, kk) by { assert(outs_lost(sys, state, a, kk)); assert(lost_after(sys, state, sys.trans(state.decorated_locations, a)[i], kk)); }
    assert(lost(sys, state, (kk + 1) as nat));
}
@fn V is_least_consistent -> r
    ensures r is Ok ==> !no_start(*system) && exists|l: Seq<State>, s: State| #[trigger] start(*system, s) && #[trigger] saved(s, l) && live_from(*system, l, 0),
        r is Err ==> no_start(*system) || exists|s: State, k: nat| #[trigger] start(*system, s) && #[trigger] lost(*system, s, k)
@hint before "state.extrapolate_max_bounds(system)"
let ghost f = sz(state);
@hint before "consistency_least_helper(state, &mut passed, system)"
proof { assert(sz(state) == ext(f, system.bounds(state.decorated_locations))); assert(start(*system, state)); }
@fn V consistency_fully_helper -> r
    requires wf(*system, state), all_wf(*system, old(passed_list)@)
    ensures all_wf(*system, final(passed_list)@), prefix(old(passed_list)@, final(passed_list)@),
        r is Ok ==> listed(state, final(passed_list)@) && free_from(*system, final(passed_list)@, old(passed_list)@.len() as int),
        r is Err ==> exists|k: nat| #[trigger] stuck(*system, state, k)
@attr verifier::exec_allows_no_decreases_clause
@attr verifier::loop_isolation(false)
@hint start
let ghost p0 = passed_list@; let ghost n = system.n(); let ghost z = sz(state); let ghost sys = *system;
@hint before "for input in"
let ghost q0 = passed_list@;
proof { assert(within(state, q0[p0.len() as int])); assert(free_from(sys, q0, q0.len() as int)); }
@loops 4
@loop 0
    invariant lists_v(it0.seq(), sys.ins()), all_wf(sys, passed_list@), prefix(q0, passed_list@), free_from(sys, passed_list@, q0.len() as int),
        forall|x: int| 0 <= x < it0.index@ ==> act_listed(sys, state, #[trigger] it0.seq()[x], passed_list@)
@hint loop 0 start
let ghost ts = sys.trans(state.decorated_locations, input); let ghost p1 = passed_list@;
@loop 1
    invariant it1.seq().len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> #[trigger] it1.seq()[i] == ts[i], ts_step(sys, state.decorated_locations, ts), prefix(p1, passed_list@),
        all_wf(sys, passed_list@), prefix(q0, passed_list@), free_from(sys, passed_list@, q0.len() as int), followed(sys, state, ts, it1.index@ as int, passed_list@)
@hint loop 1 start
let ghost p2 = passed_list@; let ghost k = it1.index@ as int;
proof { assert(ts[k] == transition); assert(tr_ok(ts[k], n)); }
@hint loop 1 end
proof { lemma_followed(sys, state, ts, k, p2, passed_list@); lemma_free_from(sys, p2, passed_list@, q0.len() as int); }
@hint loop 0 end
proof { lemma_acts_listed(sys, state, it0.seq(), it0.index@ as int, p1, passed_list@); }
@hint in 1 before "if new_state.is_subset_of(&state)"
let ghost ns = new_state;
proof { assert(leads(sys, state, ts[k], ns)); assert(moves(sys, state, input, ns));
    if within(ns, state) { lemma_within_last(ns, state, p0, q0, passed_list@); }
    assert forall|j: nat| #[trigger] stuck(sys, ns, j) && !within(ns, state) implies stuck(sys, state, j + 1) by { assert(sys.acts().contains(input) && moves(sys, state, input, ns)); } }
@hint loop 0 after
let ghost q1 = passed_list@;
@loop 2
    invariant lists_v(it2.seq(), sys.outs()), all_wf(sys, passed_list@), prefix(q0, passed_list@), prefix(q1, passed_list@), free_from(sys, passed_list@, q0.len() as int),
        forall|x: int| 0 <= x < it2.index@ ==> act_listed(sys, state, #[trigger] it2.seq()[x], passed_list@),
        output_existed ==> out_leaves(sys, state),
        !output_existed ==> forall|x: int| 0 <= x < it2.index@ ==> none_leaves(sys, state, sys.trans(state.decorated_locations, #[trigger] it2.seq()[x]), sys.trans(state.decorated_locations, it2.seq()[x]).len() as int)
@hint loop 2 start
let ghost ts = sys.trans(state.decorated_locations, output); let ghost p1 = passed_list@;
@loop 3
    invariant it3.seq().len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> #[trigger] it3.seq()[i] == ts[i], ts_step(sys, state.decorated_locations, ts), prefix(p1, passed_list@),
        all_wf(sys, passed_list@), prefix(q0, passed_list@), prefix(q1, passed_list@), free_from(sys, passed_list@, q0.len() as int), followed(sys, state, ts, it3.index@ as int, passed_list@),
        output_existed ==> out_leaves(sys, state),
        !output_existed ==> none_leaves(sys, state, ts, it3.index@ as int) && forall|x: int| 0 <= x < it2.index@ ==> none_leaves(sys, state, sys.trans(state.decorated_locations, #[trigger] it2.seq()[x]), sys.trans(state.decorated_locations, it2.seq()[x]).len() as int)
@hint loop 3 start
let ghost p2 = passed_list@; let ghost k = it3.index@ as int;
proof { assert(ts[k] == transition); assert(tr_ok(ts[k], n)); }
@hint in 3 before "if new_state.is_subset_of(&state)"
let ghost ns = new_state;
proof { assert(leads(sys, state, ts[k], ns)); assert(moves(sys, state, output, ns));
    if within(ns, state) { lemma_within_last(ns, state, p0, q0, passed_list@); }
    assert forall|j: nat| #[trigger] stuck(sys, ns, j) && !within(ns, state) implies stuck(sys, state, j + 1) by { assert(sys.acts().contains(output) && moves(sys, state, output, ns)); } }
@hint loop 3 end
proof { lemma_followed(sys, state, ts, k, p2, passed_list@); lemma_free_from(sys, p2, passed_list@, q0.len() as int); }
@hint loop 2 end
proof { lemma_acts_listed(sys, state, it2.seq(), it2.index@ as int, p1, passed_list@); }
@hint before "if output_existed"
proof {
    let q = passed_list@;
    assert forall|a: String| #[trigger] sys.acts().contains(a) implies act_listed(sys, state, a, q) by { if sys.ins().contains(a) { assert(act_listed(sys, state, a, q1)); let us = sys.trans(state.decorated_locations, a); lemma_followed(sys, state, us, us.len() as int, q1, q); } }
    if !output_existed { assert(nothing_leaves(sys, state)); assert(z.unbounded() || stuck(sys, state, 0)); }
    if z.unbounded() || output_existed { lemma_free_state(sys, state, p0, q); }
    lemma_prefix(p0, q0, q);
}
@fn V is_fully_consistent -> r
    ensures r is Ok ==> !no_start(*system) && exists|l: Seq<State>, s: State| #[trigger] is_initial(*system, s) && #[trigger] listed(s, l) && free_from(*system, l, 0),
        r is Err ==> no_start(*system) || exists|s: State, k: nat| #[trigger] is_initial(*system, s) && #[trigger] stuck(*system, s, k)
@end
