@unit refine
@file U src/EdgeEval/updater.rs
@file T src/ModelObjects/transition.rs
@file L src/TransitionSystems/location_tree.rs
@file I src/TransitionSystems/location_id.rs
@file D src/TransitionSystems/transition_id.rs
@file M src/ModelObjects/location.rs
@file Z src/System/specifics.rs
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file C src/ModelObjects/component.rs
@file E src/ModelObjects/edge.rs
@file PE src/DataReader/parse_edge.rs
@file S src/ModelObjects/state.rs
@file P src/ModelObjects/statepair.rs
@file Q src/DataTypes/statepair_list.rs
@file R src/TransitionSystems/transition_system.rs
@file F src/System/refine.rs
@file W src/System/query_failures.rs
@setfn get_input_actions get_output_actions get_actions
@addassign
@noinline print_relation
@getmut
@type A ArithExpression clone eq
@type B BoolExpression clone eq
@type C Declarations
@type PE Update
@type E SyncType copy eq
@type E Edge
@type M Location
@type C Component
@type U CompiledUpdate clone
@type D TransitionID clone eq
@type I LocationID clone eq hash
@type Z SpecialLocation clone eq
@type Z SpecificComp
@type Z SpecificLocation
@type M LocationType copy eq
@type L CompositionType copy eq
@type L LocationTree clone
@type T Transition clone
@type S State clone
@type P StatePair clone
@type Q DepthFirstWaitingStateList
@type W SystemType copy eq
@type W Action
@type W RefinementPrecondition
@type W RefinementFailure
@type F RefinementContext
@type F StatePairResult
@type F BuildResult
@type F SUCCESS
@include common.inc
@include sets.inc
@include fed.inc
@include arith.inc
@include upd.inc
@include bounds.inc
@include trans.inc
@include ts.inc
@include sysbounds.inc
@include pair.inc
@include refine.inc
@prelude
@endprelude
@import transition L LocationTree::apply_invariants
@import transition T Transition::without_id
@import transition T Transition::apply_guards
@import transition T Transition::apply_updates
@import transition T Transition::move_locations
@import transition T Transition::get_allowed_federation
@import lists P StatePair::from_locations
@import lists P StatePair::get_locations1
@import lists P StatePair::get_locations2
@import lists P StatePair::get_mut_states
@import lists P StatePair::ref_zone
@import lists P StatePair::take_zone
@import lists P StatePair::set_zone
@import lists Q PassedStateListFed@PassedStateListExt::put
@import lists Q PassedStateListFed@PassedStateListExt::has
@import lists Q DepthFirstWaitingStateList::new
@import lists Q DepthFirstWaitingStateList::is_empty
@import lists Q DepthFirstWaitingStateList::pop
@import lists Q DepthFirstWaitingStateList@PassedStateListExt::put
@import lists Q DepthFirstWaitingStateList@PassedStateListExt::has
@fn P StatePair::extrapolate_max_bounds
    requires old(self).zone_sentinel is Some
    ensures final(self).locations1 == old(self).locations1, final(self).locations2 == old(self).locations2, final(self).zone_sentinel is Some,
        pz(*final(self)) == ext(pz(*old(self)), bnd(*sys1, *sys2, old(self).locations1, old(self).locations2)), pz(*final(self)).n() == pz(*old(self)).n(), subset(pz(*old(self)), pz(*final(self)))
@fn R TransitionSystem::next_outputs -> r
    requires self.at(*location), self.outs().contains(mk(action@))
    ensures r@ == self.trans(*location, mk(action@)), ts_step(*self, *location, r@)
@selfas TransitionSystemPtr
@fn R TransitionSystem::next_inputs -> r
    requires self.at(*location), self.ins().contains(mk(action@))
    ensures r@ == self.trans(*location, mk(action@)), ts_step(*self, *location, r@)
@selfas TransitionSystemPtr
@fn R TransitionSystem::precheck_sys_rep -> r
    ensures r is Ok <==> self.deterministic() && self.consistent()
@selfas TransitionSystemPtr
@fn F common_actions -> r
    ensures r@ == (if is_input { sys2.ins() } else { sys1.outs() })
@fn F extra_actions -> r
    ensures r@ =~= (if is_input { sys2.ins().difference(sys1.ins()) } else { sys1.outs().difference(sys2.outs()) })
@fn F RefinementContext::new -> r
    requires sys1.n() == sys2.n(), sys1.n() > 0
    ensures r.wf(), *r.sys1 == *sys1, *r.sys2 == *sys2, r.q().len() == 0, r.passed_list.m@ == Map::<Key, OwnedFederation>::empty()
@fn F StatePairResult::check -> r
    ensures r is Ok <==> *self is Valid,
        *self is EmptyTransition2s || *self is NotEmptyResult ==> r->Err_0 is CannotMatch && r->Err_0->CannotMatch_action.name@ == action@,
        *self is CutsDelaySolutions ==> r->Err_0 is CutsDelaySolutions && r->Err_0->CutsDelaySolutions_action.name@ == action@
@fn F prepare_init_state -> r
    requires pair_ok(*old(initial_pair), pz(*old(initial_pair)).n()), loc_ok(initial_locations_1, pz(*old(initial_pair)).n()), loc_ok(initial_locations_2, pz(*old(initial_pair)).n())
    ensures final(initial_pair).locations1 == old(initial_pair).locations1, final(initial_pair).locations2 == old(initial_pair).locations2, pair_ok(*final(initial_pair), pz(*old(initial_pair)).n()),
        forall|v: Val| vok(v, pz(*old(initial_pair)).n()) ==> (#[trigger] pz(*final(initial_pair)).has(v) <==> pz(*old(initial_pair)).has(v) && inv_has(initial_locations_1, v) && inv_has(initial_locations_2, v)),
        r <==> !none(pz(*final(initial_pair)))
@fn F check_preconditions -> r
    ensures r is Ok <==> pre(*sys1, *sys2)
@fn F get_guard_fed_for_sides -> r
    requires curr_pair.zone_sentinel is Some, forall|i: int| 0 <= i < transitions1@.len() ==> tr_ok(#[trigger] transitions1@[i], pz(*curr_pair).n()), forall|i: int| 0 <= i < transitions2@.len() ==> tr_ok(#[trigger] transitions2@[i], pz(*curr_pair).n())
    ensures r.0.n() == pz(*curr_pair).n(), r.1.n() == pz(*curr_pair).n(),
        forall|v: Val| vok(v, pz(*curr_pair).n()) ==> (#[trigger] r.0.has(v) <==> pz(*curr_pair).has(v) && any_allowed(transitions1@, v)),
        forall|v: Val| vok(v, pz(*curr_pair).n()) ==> (#[trigger] r.1.has(v) <==> pz(*curr_pair).has(v) && any_allowed(transitions2@, v))
@attr verifier::loop_isolation(false)
@loops 2
@loop 0
    invariant feds.n() == pz(*curr_pair).n(), it0.seq().len() == transitions1@.len(), forall|i: int| 0 <= i < transitions1@.len() ==> *#[trigger] it0.seq()[i] == transitions1@[i],
        forall|v: Val| vok(v, pz(*curr_pair).n()) ==> (#[trigger] feds.has(v) <==> any_upto(transitions1@, it0.index@ as int, v))
@loop 1
    invariant feds.n() == pz(*curr_pair).n(), it1.seq().len() == transitions2@.len(), forall|i: int| 0 <= i < transitions2@.len() ==> *#[trigger] it1.seq()[i] == transitions2@[i],
        forall|v: Val| vok(v, pz(*curr_pair).n()) ==> (#[trigger] feds.has(v) <==> any_upto(transitions2@, it1.index@ as int, v))
@fn F build_state_pair -> r
    requires old(context).wf(), pair_wf(*old(context).sys1, *old(context).sys2, *curr_pair), tr_ok(*transition1, old(context).sys1.n()), tr_ok(*transition2, old(context).sys1.n()),
        old(context).sys1.at(tl(*transition1, *transition2, is_state1)), old(context).sys2.at(tr(*transition1, *transition2, is_state1))
    ensures final(context).sys1 == old(context).sys1, final(context).sys2 == old(context).sys2, final(context).passed_list == old(context).passed_list, final(context).wf(), more(old(context).q(), final(context).q()),
        r is Success ==> fits(pz(*curr_pair), *transition1, *transition2, is_state1, final(context).passed_list, final(context).q()),
        r is Failure ==> cuts(pz(*curr_pair), *transition1, *transition2, is_state1),
        forall|i: int| 0 <= i < final(context).q().len() ==> old(context).q().contains(#[trigger] final(context).q()[i]) || is_succ(*old(context).sys1, *old(context).sys2, *curr_pair, *transition1, *transition2, is_state1, final(context).q()[i])
@attr verifier::rlimit(60)
@hint start
let ghost z = pz(*curr_pair); let ghost n = context.sys1.n(); let ghost t1 = *transition1; let ghost t2 = *transition2; let ghost q0 = context.q();
proof {
    assert forall|u: Val| vok(u, n) implies #[trigger] vok(upd(t1.updates@, u), n) && vok(upd(t2.updates@, upd(t1.updates@, u)), n) by {
        lemma_updk_vok(t1.updates@, t1.updates@.len() as int, u, n); lemma_updk_vok(t2.updates@, t2.updates@.len() as int, upd(t1.updates@, u), n);
    }
    assert forall|v: Val, d: real| vok(v, n) && d >= 0real implies vok(#[trigger] shift(v, d), n) by { lemma_shift(v, d, n); }
    assert forall|p: StatePair, k: Key, v: Val| #[trigger] in_seq(seq![p] + q0, k, v) <==> (key_of(p) == k && pz(p).has(v)) || in_seq(q0, k, v) by { lemma_in_cons(p, q0, k, v); }
    assert forall|p: StatePair, s: StatePair| q0.contains(s) implies #[trigger] (seq![p] + q0).contains(s) by { let x = choose|x: int| 0 <= x < q0.len() && q0[x] == s; assert((seq![p] + q0)[x + 1] == s); }
    assert forall|p: StatePair, i: int| 0 <= i < (seq![p] + q0).len() implies q0.contains(#[trigger] (seq![p] + q0)[i]) || (seq![p] + q0)[i] == p by { if i > 0 { assert((seq![p] + q0)[i] == q0[i - 1]); } }
    assert forall|i: int| 0 <= i < q0.len() implies q0.contains(#[trigger] q0[i]) by {}
}
@hint after "transition2.apply_guards(new_sp_zone)"
let ghost g2 = new_sp_zone;
proof { assert(forall|u: Val| #![trigger z.has(u)] #![trigger g2.has(u)] vok(u, n) ==> (g2.has(u) <==> z.has(u) && t1.guard_zone.has(u) && t2.guard_zone.has(u))); }
@hint before "new_sp_zone = transition2.apply_updates(new_sp_zone)"
let ghost h1 = new_sp_zone;
proof {
    assert forall|u: Val| vok(u, n) && #[trigger] z.has(u) && t1.guard_zone.has(u) && t2.guard_zone.has(u) implies h1.has(upd(t1.updates@, u)) by { assert(g2.has(u)); }
    assert forall|w: Val| vok(w, n) && #[trigger] h1.has(w) implies exists|u: Val| #![trigger upd(t1.updates@, u)] vok(u, n) && z.has(u) && t1.guard_zone.has(u) && t2.guard_zone.has(u) && w == upd(t1.updates@, u) by {
        let u = choose|u: Val| vok(u, n) && #[trigger] g2.has(u) && w == upd(t1.updates@, u); assert(z.has(u) <==> z.has(u)); assert(w == upd(t1.updates@, u));
    }
}
@hint before "new_sp_zone = new_sp_zone.up()"
let ghost h2 = new_sp_zone;
proof {
    assert forall|u: Val| vok(u, n) && #[trigger] z.has(u) && t1.guard_zone.has(u) && t2.guard_zone.has(u) implies h2.has(upd(t2.updates@, upd(t1.updates@, u))) by { assert(h1.has(upd(t1.updates@, u))); }
    assert forall|w: Val| vok(w, n) && #[trigger] h2.has(w) implies exists|u: Val| #![trigger upd(t2.updates@, upd(t1.updates@, u))] vok(u, n) && z.has(u) && t1.guard_zone.has(u) && t2.guard_zone.has(u) && w == upd(t2.updates@, upd(t1.updates@, u)) by {
        let x = choose|x: Val| vok(x, n) && #[trigger] h1.has(x) && w == upd(t2.updates@, x);
        let u = choose|u: Val| #![trigger upd(t1.updates@, u)] vok(u, n) && z.has(u) && t1.guard_zone.has(u) && t2.guard_zone.has(u) && x == upd(t1.updates@, u);
        assert(w == upd(t2.updates@, upd(t1.updates@, u)));
    }
}
@hint after "new_sp_zone.up()"
let ghost g3 = new_sp_zone;
proof {
    assert forall|v: Val| vok(v, n) implies (#[trigger] g3.has(v) <==> exists|u: Val, d: real| #![trigger back(v, d), upd(t2.updates@, upd(t1.updates@, u))] vok(u, z.n()) && z.has(u) && t1.guard_zone.has(u) && t2.guard_zone.has(u) && d >= 0real && back(v, d) == upd(t2.updates@, upd(t1.updates@, u))) by {
        if g3.has(v) {
            let d = choose|d: real| d >= 0real && #[trigger] h2.has(back(v, d)) && vok(back(v, d), n);
            let u = choose|u: Val| #![trigger upd(t2.updates@, upd(t1.updates@, u))] vok(u, n) && z.has(u) && t1.guard_zone.has(u) && t2.guard_zone.has(u) && back(v, d) == upd(t2.updates@, upd(t1.updates@, u));
            assert(back(v, d) == upd(t2.updates@, upd(t1.updates@, u))); assert(upd(t2.updates@, upd(t1.updates@, u)) == back(v, d) && vok(u, z.n()));
        }
        if exists|u: Val, d: real| #![trigger back(v, d), upd(t2.updates@, upd(t1.updates@, u))] vok(u, z.n()) && z.has(u) && t1.guard_zone.has(u) && t2.guard_zone.has(u) && d >= 0real && back(v, d) == upd(t2.updates@, upd(t1.updates@, u)) {
            let (u, d) = choose|u: Val, d: real| #![trigger back(v, d), upd(t2.updates@, upd(t1.updates@, u))] vok(u, z.n()) && z.has(u) && t1.guard_zone.has(u) && t2.guard_zone.has(u) && d >= 0real && back(v, d) == upd(t2.updates@, upd(t1.updates@, u));
            assert(vok(upd(t1.updates@, u), n)); assert(h2.has(back(v, d))); assert(vok(back(v, d), n)); assert(g3.has(v));
        }
    }
}
@hint after "left_loc.apply_invariants(new_sp_zone)"
let ghost g4 = new_sp_zone;
proof { assert forall|v: Val| #![trigger g4.has(v)] #![trigger landed(z, t1, t2, is_state1, v)] vok(v, n) implies (g4.has(v) <==> landed(z, t1, t2, is_state1, v)) by { assert(g3.has(v) <==> g3.has(v)); } }
@hint after "right_loc.apply_invariants(new_sp_zone)"
let ghost g5 = new_sp_zone;
proof { assert forall|v: Val| #![trigger g5.has(v)] #![trigger both(z, t1, t2, is_state1, v)] vok(v, n) implies (g5.has(v) <==> both(z, t1, t2, is_state1, v)) by { assert(g4.has(v) <==> g4.has(v)); } }
@fn F try_create_new_state_pairs -> r
    requires old(context).wf(), pair_wf(*old(context).sys1, *old(context).sys2, *curr_pair),
        ts_ok(*(if is_state1 { old(context).sys1 } else { old(context).sys2 }), transitions1@), ts_ok(*(if is_state1 { old(context).sys2 } else { old(context).sys1 }), transitions2@)
    ensures final(context).sys1 == old(context).sys1, final(context).sys2 == old(context).sys2, final(context).passed_list == old(context).passed_list, final(context).wf(), more(old(context).q(), final(context).q()),
        r is Success ==> all_fit(pz(*curr_pair), transitions1@, transitions2@, is_state1, final(context).passed_list, final(context).q()),
        r is Failure ==> some_cut(pz(*curr_pair), transitions1@, transitions2@, is_state1),
        grown(*old(context).sys1, *old(context).sys2, *curr_pair, transitions1@, transitions2@, is_state1, old(context).q(), final(context).q())
@attr verifier::loop_isolation(false)
@hint start
let ghost c0 = *context; let ghost z = pz(*curr_pair); let ghost a = transitions1@; let ghost b = transitions2@;
proof { assert forall|k: int| 0 <= k < c0.q().len() implies c0.q().contains(#[trigger] c0.q()[k]) by {} }
@loops 2
@loop 0
    invariant it0.seq().len() == a.len(), forall|i: int| 0 <= i < a.len() ==> *#[trigger] it0.seq()[i] == a[i],
        same_ctx(c0, *context), grown(*c0.sys1, *c0.sys2, *curr_pair, a, b, is_state1, c0.q(), context.q()),
        fit_upto(z, a, b, is_state1, context.passed_list, context.q(), it0.index@ as int, 0)
@loop 1
    invariant it1.seq().len() == b.len(), forall|i: int| 0 <= i < b.len() ==> *#[trigger] it1.seq()[i] == b[i],
        same_ctx(c0, *context), grown(*c0.sys1, *c0.sys2, *curr_pair, a, b, is_state1, c0.q(), context.q()),
        fit_upto(z, a, b, is_state1, context.passed_list, context.q(), it0.index@ as int, it1.index@ as int)
@hint loop 1 start
let ghost c1 = *context;
@hint loop 1 end
proof {
    let i = it0.index@ as int; let j = it1.index@ as int; let m = context.passed_list;
    assert(a[i] == *transition1 && b[j] == *transition2);
    lemma_fit_more(z, a, b, is_state1, m, c1.q(), context.q(), i, j);
    assert forall|k: int| 0 <= k < context.q().len() implies c0.q().contains(#[trigger] context.q()[k]) || some_succ(*c0.sys1, *c0.sys2, *curr_pair, a, b, is_state1, context.q()[k]) by {
        if c1.q().contains(context.q()[k]) { let x = choose|x: int| 0 <= x < c1.q().len() && c1.q()[x] == context.q()[k]; assert(c1.q()[x] == context.q()[k]); }
        else { assert(is_succ(*c0.sys1, *c0.sys2, *curr_pair, a[i], b[j], is_state1, context.q()[k])); }
    }
}
@fn F has_valid_state_pairs -> r
    requires old(context).wf(), pair_wf(*old(context).sys1, *old(context).sys2, *curr_pair),
        ts_ok(*(if is_state1 { old(context).sys1 } else { old(context).sys2 }), transitions1@), ts_ok(*(if is_state1 { old(context).sys2 } else { old(context).sys1 }), transitions2@)
    ensures final(context).sys1 == old(context).sys1, final(context).sys2 == old(context).sys2, final(context).passed_list == old(context).passed_list, final(context).wf(), more(old(context).q(), final(context).q()),
        r is Valid ==> side_good(pz(*curr_pair), transitions1@, transitions2@, is_state1, final(context).passed_list, final(context).q()),
        r is EmptyTransition2s || r is NotEmptyResult ==> moves(transitions1@, pz(*curr_pair)) && !matched(transitions1@, transitions2@, pz(*curr_pair)),
        r is CutsDelaySolutions ==> some_cut(pz(*curr_pair), transitions1@, transitions2@, is_state1),
        grown(*old(context).sys1, *old(context).sys2, *curr_pair, transitions1@, transitions2@, is_state1, old(context).q(), final(context).q()),
        final(context).q() == old(context).q() || moves(transitions1@, pz(*curr_pair)) && matched(transitions1@, transitions2@, pz(*curr_pair)),
        !(r is Valid) ==> moves(transitions1@, pz(*curr_pair))
@hint start
let ghost z = pz(*curr_pair); let ghost q0 = context.q(); let ghost a = transitions1@; let ghost b = transitions2@;
proof { assert forall|i: int| 0 <= i < q0.len() implies q0.contains(#[trigger] q0[i]) by {} }
@hint before "if fed1.is_empty()"
proof {
    assert forall|v: Val| #![trigger fed1.has(v)] #![trigger z.has(v)] vok(v, z.n()) implies (fed1.has(v) <==> z.has(v) && any_allowed(a, v)) by {}
    assert forall|v: Val| #![trigger fed2.has(v)] #![trigger z.has(v)] vok(v, z.n()) implies (fed2.has(v) <==> z.has(v) && any_allowed(b, v)) by {}
    let ghost g1 = fed1; let ghost g2 = fed2;
}
@hint before "if !result_federation.is_empty()"
proof { assert forall|v: Val| #![trigger result_federation.has(v)] #![trigger z.has(v)] vok(v, z.n()) implies (result_federation.has(v) <==> z.has(v) && any_allowed(a, v) && !any_allowed(b, v)) by { assert(z.has(v) <==> z.has(v)); } }
@fn F check_refinement -> r
    requires sys1.n() == sys2.n(), sys1.n() > 0
    ensures r is Ok ==> pre(sys1, sys2) && (sys1.init() is None && sys2.init() is None || startable(sys1, sys2) && exists|m: PassedMap, w: Seq<StatePair>| #[trigger] simulation(sys1, sys2, m, w)),
        r is Err && !(r->Err_0 is CannotMatch) && !(r->Err_0 is CutsDelaySolutions) ==> !pre(sys1, sys2) || !(sys1.init() is None && sys2.init() is None) && !startable(sys1, sys2),
        r is Err && r->Err_0 is CannotMatch ==> pre(sys1, sys2) && mismatch(sys1, sys2, r->Err_0->CannotMatch_action.name@),
        r is Err && r->Err_0 is CutsDelaySolutions ==> pre(sys1, sys2) && overtaken(sys1, sys2, r->Err_0->CutsDelaySolutions_action.name@)
@attr verifier::exec_allows_no_decreases_clause
@attr verifier::loop_isolation(false)
@attr verifier::rlimit(60)
@hint before "return RefinementFailure::empty_initial"
proof { assert forall|v: Val| vok(v, sys1.n()) implies !#[trigger] start_val(sys1, sys2, v) by { assert(!pz(initial_pair).has(v)); } }
@hint before "initial_pair.extrapolate_max_bounds(context.sys1, context.sys2)"
let ghost f0 = pz(initial_pair);
proof {
    assert forall|v: Val| vok(v, sys1.n()) implies (#[trigger] f0.has(v) <==> start_val(sys1, sys2, v)) by {}
    let w = choose|w: Val| vok(w, f0.n()) && #[trigger] f0.has(w); assert(start_val(sys1, sys2, w));
}
@hint after "let curr_pair ="
proof { assert(c0.q()[0] == curr_pair); assert(pair_wf(sys1, sys2, curr_pair)); assert forall|i: int| 0 <= i < context.q().len() implies #[trigger] context.q()[i] == c0.q()[i + 1] by {} }
@hint end
proof { assert(context.q() =~= Seq::<StatePair>::empty()); assert(simulation(sys1, sys2, context.passed_list, done)); }
@hint before "while !context.waiting_list.is_empty()"
let ghost mut done: Seq<StatePair> = Seq::empty();
proof { assert(context.q()[0] == initial_pair); lemma_reach_start(sys1, sys2, initial_pair); }
@loops 3
@loop 0
    invariant context.sys1 == &sys1, context.sys2 == &sys2, context.wf(), settled(sys1, sys2, done, context.passed_list, context.q()), all_good(sys1, sys2, done, context.passed_list, context.q())
@hint loop 0 start
let ghost c0 = context;
@hint loop 0 end
proof {
    lemma_settled_more(sys1, sys2, done.push(curr_pair), context.passed_list, c1.q(), context.q());
    assert(good(sys1, sys2, curr_pair, context.passed_list, context.q()));
    lemma_all_good(sys1, sys2, done, c1.passed_list, c1.q(), context.passed_list, context.q());
    let d2 = done.push(curr_pair);
    assert forall|i: int| 0 <= i < d2.len() implies good(sys1, sys2, #[trigger] d2[i], context.passed_list, context.q()) by { if i < done.len() { assert(d2[i] == done[i]); } }
    done = d2;
}
@loop 1
    invariant context.sys1 == &sys1, context.sys2 == &sys2, context.wf(), lists(it1.seq(), outputs@), context.passed_list == c1.passed_list, more(c1.q(), context.q()), all_reach(sys1, sys2, context.q()),
        forall|x: int| 0 <= x < it1.index@ ==> action_good(sys1, sys2, curr_pair, *#[trigger] it1.seq()[x], true, context.passed_list, context.q())
@hint loop 1 start
let ghost d0 = context;
@hint after "let output_transition2"
proof { assert(offers(sys1, sys2, curr_pair, *output, true, output_transition1@, output_transition2@)); }
@hint loop 1 end
proof {
    assert(keeps(sys1.n(), d0.passed_list, d0.q(), context.passed_list, context.q()));
    assert forall|x: int| 0 <= x < it1.index@ + 1 implies action_good(sys1, sys2, curr_pair, *#[trigger] it1.seq()[x], true, context.passed_list, context.q()) by {
        if x < it1.index@ { lemma_action_keeps(sys1, sys2, curr_pair, *it1.seq()[x], true, d0.passed_list, d0.q(), context.passed_list, context.q()); }
    }
    lemma_grown_reach(sys1, sys2, curr_pair, *output, true, output_transition1@, output_transition2@, d0.q(), context.q());
}
@loop 2
    invariant context.sys1 == &sys1, context.sys2 == &sys2, context.wf(), lists(it2.seq(), inputs@), context.passed_list == c1.passed_list, more(c1.q(), context.q()), all_reach(sys1, sys2, context.q()),
        forall|a: String| #[trigger] sys1.outs().contains(a) ==> action_good(sys1, sys2, curr_pair, a, true, context.passed_list, context.q()),
        forall|x: int| 0 <= x < it2.index@ ==> action_good(sys1, sys2, curr_pair, *#[trigger] it2.seq()[x], false, context.passed_list, context.q())
@hint loop 2 start
let ghost d0 = context;
@hint after "let input_transitions2"
proof { assert(offers(sys1, sys2, curr_pair, *input, false, input_transitions2@, input_transitions1@)); }
@hint loop 2 end
proof {
    assert(keeps(sys1.n(), d0.passed_list, d0.q(), context.passed_list, context.q()));
    assert forall|x: int| 0 <= x < it2.index@ + 1 implies action_good(sys1, sys2, curr_pair, *#[trigger] it2.seq()[x], false, context.passed_list, context.q()) by {
        if x < it2.index@ { lemma_action_keeps(sys1, sys2, curr_pair, *it2.seq()[x], false, d0.passed_list, d0.q(), context.passed_list, context.q()); }
    }
    assert forall|a: String| #[trigger] sys1.outs().contains(a) implies action_good(sys1, sys2, curr_pair, a, true, context.passed_list, context.q()) by { lemma_action_keeps(sys1, sys2, curr_pair, a, true, d0.passed_list, d0.q(), context.passed_list, context.q()); }
    lemma_grown_reach(sys1, sys2, curr_pair, *input, false, input_transitions2@, input_transitions1@, d0.q(), context.q());
}
@hint after "context.passed_list.put(curr_pair.clone())"
let ghost c1 = context;
proof { lemma_settle(sys1, sys2, curr_pair, done, c0.passed_list, c0.q(), c1.passed_list, c1.q()); lemma_all_good(sys1, sys2, done, c0.passed_list, c0.q(), c1.passed_list, c1.q()); }
@end
