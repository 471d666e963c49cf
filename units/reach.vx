@unit reach
@file U src/EdgeEval/updater.rs
@file T src/ModelObjects/transition.rs
@file L src/TransitionSystems/location_tree.rs
@file I src/TransitionSystems/location_id.rs
@file D src/TransitionSystems/transition_id.rs
@file M src/ModelObjects/location.rs
@file Z src/System/specifics.rs
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file C src/ModelObjects/component.rs
@file E src/ModelObjects/edge.rs
@file PE src/DataReader/parse_edge.rs
@file S src/ModelObjects/state.rs
@file R src/TransitionSystems/transition_system.rs
@file RE src/System/reachability.rs
@file DE src/Simulation/decision.rs
@getmut
@setfn get_input_actions get_output_actions get_actions
@addassign
@inline S State::update_zone
@type A ArithExpression clone eq
@type B BoolExpression clone eq
@type C Declarations
@type PE Update
@type E SyncType copy eq
@type E Edge
@type M Location
@type C Component
@type U CompiledUpdate clone
@file W src/System/query_failures.rs
@type D TransitionID clone eq
@type I LocationID clone eq hash
@type Z SpecialLocation clone eq
@type W SystemType copy eq
@type Z SpecificComp
@type Z SpecificLocation
@type M LocationType copy eq
@type L CompositionType copy eq
@type L LocationTree clone
@type T Transition clone
@type S State clone
@include common.inc
@include sets.inc
@include fed.inc
@include arith.inc
@include upd.inc
@include bounds.inc
@include trans.inc
@include ts.inc
@include sysbounds.inc
@include consist.inc
@include decide.inc
@include reach.inc
@prelude
use std::rc::Rc;
impl PartialEq for LocationTree { fn eq(&self, o: &Self) -> (r: bool) { LocationTree::eq(self, o) } }
@endprelude
@type W PathFailure
@type DE Decision
@type RE Path
@type RE SubPath
@import transition L LocationTree::apply_invariants
@import transition L LocationTree::get_invariants
@import transition S State::apply_invariants
@import transition S State::zone_ref
@import transition S State::take_zone
@import transition S State::set_zone
@import transition T Transition::get_allowed_federation
@import transition T Transition::use_transition
@import transition T Transition::use_transition_alt
@import consist L LocationTree@PartialEq::eq
@fn L LocationTree::get_left -> r
    requires self.left is Some
    ensures *r == *self.left->0
@fn L LocationTree::get_right -> r
    requires self.right is Some
    ensures *r == *self.right->0
@fn L LocationTree::compare_partial_locations -> r
    requires tree_ok(*self), tree_ok(*other)
    ensures r <==> describes(other.id, self.id)
    decreases self
@fn S State::extrapolate_max_bounds_with_extra_bounds
    requires old(self).zone_sentinel is Some
    ensures final(self).decorated_locations == old(self).decorated_locations, final(self).zone_sentinel is Some, sz(*final(self)).n() == sz(*old(self)).n(), subset(sz(*old(self)), sz(*final(self))),
        exists|b: Bounds| sz(*final(self)) == #[trigger] ext(sz(*old(self)), b) && b.ge(system.bounds(old(self).decorated_locations)) && b.ge(*extra_bounds)
@fn RE is_trivially_unreachable -> r
    requires start_state.zone_sentinel is Some, end_state.zone_sentinel is Some, loc_ok(end_state.decorated_locations, sz(*end_state).n())
    ensures r <==> none(sz(*start_state)) || none(sz(*end_state)) || end_state.decorated_locations.invariant is Some && forall|v: Val| vok(v, sz(*end_state).n()) ==> !(#[trigger] sz(*end_state).has(v) && inv_has(end_state.decorated_locations, v))
@fn RE reached_end_state -> r
    requires cur_state.zone_sentinel is Some, st_ok(*end_state, sz(*cur_state).n()), tree_ok(cur_state.decorated_locations), tree_ok(end_state.decorated_locations)
    ensures r <==> hit(*cur_state, *end_state)
@fn RE zone_subset_of_existing_zones -> r
    requires forall|i: int| 0 <= i < existing_states@.len() ==> (#[trigger] existing_states@[i]).n() == new_state.n()
    ensures r <==> exists|i: int| 0 <= i < existing_states@.len() && subset(*new_state, #[trigger] existing_states@[i])
@loop 0
    invariant forall|i: int| 0 <= i < existing_states@.len() ==> (#[trigger] existing_states@[i]).n() == new_state.n(),
        it0.seq().len() == existing_states@.len(), forall|i: int| 0 <= i < existing_states@.len() ==> *#[trigger] it0.seq()[i] == existing_states@[i],
        !__vx_r1 ==> forall|i: int| 0 <= i < it0.index@ ==> !subset(*new_state, #[trigger] existing_states@[i]), __vx_r1 ==> exists|i: int| 0 <= i < existing_states@.len() && subset(*new_state, #[trigger] existing_states@[i])
    ensures __vx_r1 <==> exists|i: int| 0 <= i < existing_states@.len() && subset(*new_state, #[trigger] existing_states@[i])
@fn RE remove_existing_subsets_of_zone
    requires forall|i: int| 0 <= i < old(existing_zones)@.len() ==> (#[trigger] old(existing_zones)@[i]).n() == new_zone.n()
    ensures forall|i: int| 0 <= i < final(existing_zones)@.len() ==> old(existing_zones)@.contains(#[trigger] final(existing_zones)@[i])
@hint start
let ghost z0 = existing_zones@;
@loops 1
@loop 0
    invariant it0.seq().len() == z0.len(), forall|i: int| 0 <= i < z0.len() ==> #[trigger] it0.seq()[i] == z0[i], forall|i: int| 0 <= i < z0.len() ==> (#[trigger] z0[i]).n() == new_zone.n(),
        forall|i: int| 0 <= i < existing_zones@.len() ==> z0.contains(#[trigger] existing_zones@[i])
@fn RE take_transition
    requires wf(*system, sub_path.destination_state), tr_ok(*transition, system.n()), system.at(transition.target_locations), zones_ok(old(visited_states)@, system.n())
    ensures zones_ok(final(visited_states)@, system.n()), took(*system, **sub_path, *transition, mk(action@), *target_bounds, old(frontier_states)@, final(frontier_states)@, old(visited_states)@, final(visited_states)@)
@hint start
let ghost m0 = visited_states@; let ghost f0 = frontier_states@; let ghost s = dest(*sub_path); let ghost t = *transition; let ghost sys = *system; let ghost tb = *target_bounds; let ghost n = sys.n();
@hint before "new_state.extrapolate_max"
let ghost f = sz(new_state);
@hint before "let new_location_id"
proof { assert(leads_b(sys, s, t, new_state, tb)); }
let ghost ns = new_state; let ghost id = ns.decorated_locations.id;
@hint before "if !zone_subset"
let ghost e0 = existing_zones@;
proof {
    assert(forall|i: int| 0 <= i < e0.len() ==> (#[trigger] e0[i]).n() == n);
    assert forall|i: int| 0 <= i < e0.len() implies in_map(m0, id, #[trigger] e0[i]) by { assert(m0.contains_key(id)); assert(m0[id]@.contains(e0[i])); }
    if exists|i: int| 0 <= i < e0.len() && subset(sz(ns), #[trigger] e0[i]) { let i = choose|i: int| 0 <= i < e0.len() && subset(sz(ns), #[trigger] e0[i]); assert(in_map(m0, id, e0[i])); assert(known(m0, ns)); }
}
@hint after "frontier_states.push_back"
proof {
    let m1 = visited_states@; let f1 = frontier_states@;
    assert(f1.drop_last() =~= f0); assert(f1.last().destination_state == ns);
    assert(next_of(rc(*sub_path), rc(f1.last()), t, mk(action@)));
    assert forall|k: LocationID, z: OwnedFederation| #[trigger] in_map(m1, k, z) implies in_map(m0, k, z) || k == id && z == sz(ns) by {
        if k == id { let i = choose|i: int| 0 <= i < m1[id]@.len() && m1[id]@[i] == z; if i < m1[id]@.len() - 1 { assert(e1[i] == z); assert(e0.contains(e1[i])); let j = choose|j: int| 0 <= j < e0.len() && e0[j] == z; assert(in_map(m0, id, e0[j])); } }
        else { assert(m1[k] == m0[k]); }
    }
    assert(took(sys, rc(*sub_path), t, mk(action@), tb, f0, f1, m0, m1));
}
@hint after "remove_existing_subsets_of_zone"
let ghost e1 = existing_zones@;
@hint end
proof {
    let m1 = visited_states@; let f1 = frontier_states@;
    if f1 == f0 {
        if usable(t, sz(s)) { }
    }
}
@fn RE make_path -> r
    requires exists|n: int| #[trigger] steps_dim(taken(*sub_path), n) && st_ok(start_state, n), sub_path_ok(*sub_path)
    ensures forall|n: int| #[trigger] steps_dim(taken(*sub_path), n) && st_ok(start_state, n) ==> exists|ss: Seq<State>| #[trigger] walked(start_state, taken(*sub_path), r.path@, ss, n)
@attr verifier::exec_allows_no_decreases_clause
@subst sub_path.transition.clone() =>> vx_copy(&sub_path.transition)
@mustsubst Decision::from_state_transition(state.clone(), &transition, action) .expect("If the transition is in a path, it should lead to a non-empty state") =>> vx_must(Decision::from_state_transition(state.clone(), &transition, action))
@hint start
let ghost ts = taken(rc(sub_path));
let ghost start0 = start_state;
@loops 2
@loop 0
    invariant sub_path_ok(*sub_path), ts == taken(*sub_path) + path@.reverse()
@hint loop 0 start
let ghost p1 = path@; let ghost sp = rc(sub_path);
@hint loop 0 end
proof { let x = path@.last(); assert(path@ == p1.push(x)); assert(taken(sp) == taken(prev(sp)).push(x)); assert(path@.reverse() =~= seq![x] + p1.reverse()); assert(ts =~= taken(rc(sub_path)) + path@.reverse()); }
@hint before "let mut decisions"
let ghost mut ss: Seq<State> = seq![state]; let ghost n = choose|n: int| #[trigger] steps_dim(ts, n) && st_ok(start0, n);
proof { assert(path@ =~= ts); }
@loop 1
    invariant it1.seq().len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> #[trigger] it1.seq()[i] == ts[i], steps_dim(ts, n),
        walk(start0, ts, decisions@, ss, it1.index@ as int, n), ss.last() == state, st_ok(state, n)
@hint loop 1 start
let ghost st = state; let ghost k = it1.index@ as int; let ghost t = transition; let ghost d0 = decisions@; let ghost ss0 = ss; let ghost a = action;
proof { assert(it1.seq()[k] == ts[k]); assert(tr_ok(t, n)); }
@hint before "transition.use_transition"
proof { let v = choose|v: Val| vok(v, n) && #[trigger] sz(st).has(v) && t.guard_zone.has(v) && inv_has(t.target_locations, upd(t.updates@, v)); lemma_post(t, sz(st), v); }
@hint loop 1 end
proof {
    ss = ss.push(state);
    assert(post(t, sz(st), state, n)); assert(decides(st, t, a, decisions@.last(), n));
    assert forall|i: int| 0 <= i < k + 1 implies decides(#[trigger] ss[i], ts[i].0, ts[i].1, decisions@[i], n) && post(ts[i].0, sz(ss[i]), ss[i + 1], n) by { if i < k { assert(ss[i] == ss0[i]); assert(ss[i + 1] == ss0[i + 1]); assert(decisions@[i] == d0[i]); } else { assert(ss[i] == st); } }
}
@hint loop 1 after
proof {
    assert(walked(start0, ts, decisions@, ss, n)); let ghost q = Path { path: decisions };
    assert(walked(start0, ts, q.path@, ss, n));
    assert forall|m: int| #[trigger] steps_dim(ts, m) && st_ok(start0, m) implies exists|ss: Seq<State>| #[trigger] walked(start0, ts, q.path@, ss, m) by { assert(m == n); }
}
@fn RE reachability_search -> r
    requires wf(*system, *start_state), st_ok(*end_state, system.n()), trees_ok(*system), tree_ok(end_state.decorated_locations)
    ensures r is Err ==> (ids_identify(*system) ==> unreachable_(*system, *start_state, *end_state)),
        r is Ok ==> leads_to(*system, *start_state, *end_state, r->Ok_0.path@)
@attr verifier::exec_allows_no_decreases_clause
@attr verifier::loop_isolation(false)
@hint start
let ghost sys = *system; let ghost n = system.n(); let ghost e = *end_state; let ghost st = *start_state; let ghost tb = sz(*end_state).consts();
@hint after "vx_sort"
proof { lemma_same_elems(a0, actions@); }
@hint before "vx_sort"
let ghost a0 = actions@;
proof { lemma_acts(a0, sys.acts()); }
@hint loop 1 before
let ghost mut all: Seq<State> = seq![start_state]; let ghost mut gone: int = 0; let ghost s0 = start_state; let ghost l0 = start_state.decorated_locations; let ghost mut fr: Seq<Rc<SubPath>> = frontier_states@;
proof { assert(restricted(st, s0, n)); lemma_begin(sys, e, s0, frontier_states@, visited_states@, rc(frontier_states@[0])); }
@loops 4
@loop 0
    invariant lists_v(it0.seq(), sys.acts()), __vx_out1@.len() == it0.index@, forall|i: int| 0 <= i < it0.index@ ==> __vx_out1@[i] == #[trigger] it0.seq()[i], it0.index@ == it0.seq().len() ==> __vx_out1@ =~= it0.seq()
    ensures lists_v(__vx_out1@, sys.acts())
@loop 1
    invariant sinv(sys, e, all, gone, 0, frontier_states@, visited_states@, s0), start_state == s0, fr == frontier_states@
@hint loop 1 start
let ghost s = dest(sub_path); let ghost sp = rc(sub_path);
proof { assert(fr =~= seq![sub_path] + frontier_states@); lemma_pop(sys, e, all, gone, seq![sub_path] + frontier_states@, visited_states@, s0, sub_path, frontier_states@); lemma_follow(sys, sp, l0); lemma_follow_dim(sys, sp, l0, n); }
@hint before "return Ok"
proof {
    assert(steps_dim(taken(sp), n)); assert(hit(s, e));
    assert forall|ds: Seq<Decision>, ss: Seq<State>| #[trigger] walked(s0, taken(sp), ds, ss, n) implies leads_to(sys, st, e, ds) by { lemma_path(sys, s0, taken(sp), ds, ss, n); }
}
@loop 2
    invariant it2.seq().len() == actions@.len(), forall|i: int| 0 <= i < actions@.len() ==> *#[trigger] it2.seq()[i] == actions@[i],
        sinv(sys, e, all, gone, 1, frontier_states@, visited_states@, s0), all[gone] == s,
        forall|x: int| 0 <= x < it2.index@ ==> seen_act(sys, s, #[trigger] actions@[x], tb, all)
@hint loop 2 start
let ghost x = it2.index@ as int; let ghost ts = sys.trans(s.decorated_locations, *action); let ghost a = *action;
proof { assert(actions@.contains(a)); assert(mk(action@) == a); }
@loop 3
    invariant it3.seq().len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> *#[trigger] it3.seq()[i] == ts[i], ts_step(sys, s.decorated_locations, ts),
        sinv(sys, e, all, gone, 1, frontier_states@, visited_states@, s0), all[gone] == s,
        forall|y: int| 0 <= y < x ==> seen_act(sys, s, #[trigger] actions@[y], tb, all), seen_upto(sys, s, ts, it3.index@ as int, tb, all)
@hint loop 3 start
let ghost k = it3.index@ as int; let ghost f0 = frontier_states@; let ghost m0 = visited_states@; let ghost all0 = all;
proof { assert(it3.seq()[k] == transition); assert(tr_ok(ts[k], n)); lemma_sinv_zones(sys, e, all, gone, 1, f0, m0, s0); }
@hint loop 3 end
proof {
    let f1 = frontier_states@; let m1 = visited_states@;
    if f1.len() == f0.len() + 1 { all = all.push(dest(f1.last())); }
    lemma_took(sys, e, sp, a, all0, gone, f0, m0, all, f1, m1, s0, k);
    assert forall|y: int| 0 <= y < x implies seen_act(sys, s, #[trigger] actions@[y], tb, all) by { lemma_seen_act(sys, s, actions@[y], tb, all0, all); }
}
@hint loop 2 end
proof { assert(seen_act(sys, s, actions@[x], tb, all)); }
@hint loop 1 end
proof {
    assert forall|b: String| #[trigger] sys.acts().contains(b) implies seen_act(sys, s, b, tb, all) by { assert(actions@.contains(b)); let y = choose|y: int| 0 <= y < actions@.len() && actions@[y] == b; assert(seen_act(sys, s, actions@[y], tb, all)); }
    lemma_next(sys, e, all, gone, frontier_states@, visited_states@, s0);
    gone = gone + 1; fr = frontier_states@;
}
@hint loop 1 after
proof { if ids_identify(sys) { lemma_end(sys, st, e, all, gone, frontier_states@, visited_states@, s0); } }
@fn RE find_path -> r
    requires wf(*system, start_state), st_ok(end_state, system.n()), loc_ok(end_state.decorated_locations, system.n()), trees_ok(*system), tree_ok(end_state.decorated_locations)
    ensures r is Err ==> (ids_identify(*system) && steps_ok(*system) && fits(*system, end_state.decorated_locations) ==> unreachable_(*system, start_state, end_state)),
        r is Ok ==> leads_to(*system, start_state, end_state, r->Ok_0.path@)
@hint before "return Err"
proof {
    let sys = *system;
    if steps_ok(sys) && fits(sys, end_state.decorated_locations) {
        assert forall|k: nat, l: LocationTree, v: Val| #[trigger] run(sys, start_state, k, l, v) implies !(describes(end_state.decorated_locations.id, l.id) && sz(end_state).has(v)) by {
            lemma_run_some(sys, start_state, k, l, v); lemma_run_at(sys, start_state, k, l, v);
        }
    }
}
@fn DE Decision::from_state_transition -> r
    requires st_ok(state, transition.guard_zone.n()), tr_ok(*transition, transition.guard_zone.n())
    ensures r is Some <==> can_take(state, *transition, transition.guard_zone.n()), r is Some ==> decides(state, *transition, action.text(), r->0, transition.guard_zone.n())
@mustsubst impl Into<String> =>> impl VxText
@mustsubst action.into() =>> action.vx_text()
@subst transition.to_owned() =>> transition.clone()
@hint start
let ghost s0 = state; let ghost n = transition.guard_zone.n();
@hint before "if !state.zone_ref"
proof {
    assert(sz(state).n() == n);
    assert forall|v: Val| vok(v, n) implies (#[trigger] sz(state).has(v) <==> sz(s0).has(v) && transition.guard_zone.has(v) && inv_has(transition.target_locations, upd(transition.updates@, v))) by { assert(allowed.has(v) <==> transition.guard_zone.has(v) && inv_has(transition.target_locations, upd(transition.updates@, v))); }
    if can_take(s0, *transition, n) { let v = choose|v: Val| vok(v, n) && #[trigger] sz(s0).has(v) && transition.guard_zone.has(v) && inv_has(transition.target_locations, upd(transition.updates@, v)); assert(sz(state).has(v)); }
}
@hint before "let next_state"
proof { assert(!none(sz(state))); let v = choose|v: Val| vok(v, n) && #[trigger] sz(state).has(v); assert(sz(s0).has(v)); lemma_post(*transition, sz(state), v); assert(can_take(s0, *transition, n)); }
@hint after "let next_state"
proof { let w = choose|w: Val| vok(w, n) && #[trigger] reached(*transition, sz(state), w); assert(sz(next_state).has(w)); assert(post(*transition, sz(state), next_state, n)); }
@fn DE Decision::get_decisions_from_state -> r
    requires wf(*system, state)
    ensures all_decisions(*system, state, r@)
@attr verifier::loop_isolation(false)
@hint start
let ghost sys = *system; let ghost s0 = state; let ghost n = system.n();
@loops 2
@loop 0
    invariant lists_v(it0.seq(), sys.acts()),
        forall|j: int| 0 <= j < next_decisions@.len() ==> is_decision(sys, s0, #[trigger] next_decisions@[j]),
        forall|x: int| 0 <= x < it0.index@ ==> made(sys, s0, #[trigger] it0.seq()[x], sys.trans(s0.decorated_locations, it0.seq()[x]).len() as int, next_decisions@)
@hint loop 0 start
let ghost a = action; let ghost ts = sys.trans(s0.decorated_locations, a);
@loop 1
    invariant it1.seq().len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> #[trigger] it1.seq()[i] == ts[i], ts_step(sys, s0.decorated_locations, ts), sys.acts().contains(a), action == a,
        forall|j: int| 0 <= j < next_decisions@.len() ==> is_decision(sys, s0, #[trigger] next_decisions@[j]),
        made(sys, s0, a, it1.index@ as int, next_decisions@),
        forall|x: int| 0 <= x < it0.index@ ==> made(sys, s0, #[trigger] it0.seq()[x], sys.trans(s0.decorated_locations, it0.seq()[x]).len() as int, next_decisions@)
@hint loop 1 start
let ghost k = it1.index@ as int; let ghost d0 = next_decisions@; let ghost t0 = t;
proof { assert(it1.seq()[k] == ts[k]); assert(tr_ok(t0, n)); }
@hint loop 1 end
proof {
    let d = next_decisions@;
    assert forall|x: int| 0 <= x < it0.index@ implies made(sys, s0, #[trigger] it0.seq()[x], sys.trans(s0.decorated_locations, it0.seq()[x]).len() as int, d) by { lemma_made(sys, s0, it0.seq()[x], sys.trans(s0.decorated_locations, it0.seq()[x]).len() as int, d0, d); }
    lemma_made(sys, s0, a, k, d0, d);
    if d.len() > d0.len() { assert(shows(sys, s0, d.last(), a, k)); }
    assert forall|i: int| 0 <= i < k + 1 && can_take(s0, #[trigger] sys.trans(s0.decorated_locations, a)[i], n) implies exists|j: int| 0 <= j < d.len() && shows(sys, s0, #[trigger] d[j], a, i) by { if i == k { assert(shows(sys, s0, d[d.len() - 1], a, k)); } }
}
@fn DE Decision::get_initial_decisions -> r
    requires !no_start(*system)
    ensures exists|s: State| #[trigger] is_initial(*system, s) && all_decisions(*system, s, r@)
@fn DE Decision::resolve -> r
    requires wf(*system, self.state), system.acts().contains(self.action), sole(*system, self.state, system.trans(self.state.decorated_locations, self.action))
    ensures exists|i: int, s: State| 0 <= i < system.trans(self.state.decorated_locations, self.action).len() && #[trigger] becomes(*system, self.state, self.action, i, s) && all_decisions(*system, s, r@)
@hint start
let ghost sys = *system; let ghost s0 = self.state; let ghost ts = system.trans(self.state.decorated_locations, self.action); let ghost n = system.n();
@loop 0
    invariant it0.seq().len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> #[trigger] it0.seq()[i] == ts[i], ts_step(sys, s0.decorated_locations, ts), wf(sys, s0), self.state == s0, n == sys.n(),
        resolves(sys, s0, ts, __vx_out1@, it0.index@ as int)
@hint loop 0 start
let ghost k = it0.index@ as int; let ghost o0 = __vx_out1@;
proof { assert(it0.seq()[k] == ts[k]); assert(tr_ok(ts[k], n)); }
@hint loop 0 end
proof { if usable(ts[k], sz(s0)) { let w = choose|w: Val| vok(w, n) && #[trigger] reached(ts[k], sz(s0), w); assert(__vx_out1@.drop_last() =~= o0); assert(sz(__vx_out1@.last()).has(w)); } lemma_resolves(sys, s0, ts, o0, __vx_out1@, k); }
@hint before "Decision::get_decisions_from_state"
proof {
    let i = choose|i: int| 0 <= i < ts.len() && #[trigger] post(ts[i], sz(s0), next_state, sys.n()) && !none(sz(next_state));
    assert(becomes(sys, s0, self.action, i, next_state)); assert(tr_ok(ts[i], n));
}
@end
