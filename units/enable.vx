@unit enable
@addassign
@subst constraint_applyer :: apply_constraints_to_state =>> apply_constraints_to_state
@subst naming . iter ( ) =>> vx_pairs ( naming ) . into_iter ( )
@subst . to_string ( ) =>> . clone ( )
@subst input_enabler :: make_input_enabled =>> make_input_enabled
@file U src/EdgeEval/updater.rs
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file G src/EdgeEval/constraint_applyer.rs
@file C src/ModelObjects/component.rs
@file E src/ModelObjects/edge.rs
@file M src/ModelObjects/location.rs
@file P src/DataReader/parse_edge.rs
@file N src/System/input_enabler.rs
@file T src/ModelObjects/transition.rs
@file S src/ModelObjects/state.rs
@file L src/TransitionSystems/location_tree.rs
@file I src/TransitionSystems/location_id.rs
@file D src/TransitionSystems/transition_id.rs
@file Y src/DataReader/component_loader.rs
@file Z src/System/specifics.rs
@type A ArithExpression clone eq
@type B BoolExpression clone eq
@type C Declarations
@type P Update
@type E SyncType copy eq
@type E Edge
@type M LocationType copy eq
@type M Location
@type C Component
@type U CompiledUpdate clone
@type D TransitionID clone eq
@type I LocationID clone eq
@type Z SpecialLocation clone eq
@type L CompositionType copy eq
@type L LocationTree clone
@type T Transition clone
@type S State clone
@include common.inc
@include fed.inc
@include arith.inc
@include upd.inc
@include trans.inc
@include zone.inc
@include sets.inc
@include offers.inc
@include enable.inc
@prelude
use std::sync::Arc;
pub type ComponentsMap = HashMap<String, Component>;
#[verifier::external_body] pub struct Settings { x: usize }
@endprelude
@type Y ComponentContainer
@import guard G apply_constraints_to_state
@fn B var_from_naming -> r
    requires naming@.contains_key(index)
    ensures *r == AE::VarName(naming@[index])
@fn B var_diff_from_naming -> r
    requires naming@.contains_key(i), naming@.contains_key(j)
    ensures *r == AE::Difference(Box::new(AE::VarName(naming@[i])), Box::new(AE::VarName(naming@[j])))
@fn B arith_from_int -> r
    ensures *r == AE::Int(value)
@fn B BoolExpression::from_constraint -> r
    requires known(*constraint, naming@)
    ensures says(r, *constraint, naming@)
@hint start
proof { lemma_says(*constraint, naming@); }
@fn B BoolExpression::from_conjunction -> r
    requires known_all(*conjunction, naming@)
    ensures says_cj(r, *conjunction, conjunction.constraints@.len() as int, naming@)
@attr verifier::loop_isolation(false)
@loops 1
@loop 0
    invariant it0.seq().len() == conjunction.constraints@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *#[trigger] it0.seq()[i] == conjunction.constraints@[i],
        result is Some <==> it0.index@ > 0, says_cj(result, *conjunction, it0.index@ as int, naming@)
@hint start
proof { lemma_says_none(*conjunction, naming@); assert forall|e: BoolExpression| #![trigger says(e, conjunction.constraints@[0], naming@)] 0 < conjunction.constraints@.len() && says(e, conjunction.constraints@[0], naming@) implies says_cj(Some(e), *conjunction, 1, naming@) by { lemma_says_one(*conjunction, e, naming@); } }
@hint loop 0 start
let ghost k = it0.index@ as int;
proof { assert forall|g: BoolExpression, e: BoolExpression| #![trigger says_cj(Some(g), *conjunction, k, naming@), says(e, conjunction.constraints@[k], naming@)] says_cj(Some(g), *conjunction, k, naming@) && says(e, conjunction.constraints@[k], naming@) implies says_cj(Some(BoolExpression::AndOp(Box::new(g), Box::new(e))), *conjunction, k + 1, naming@) by { lemma_says_and(*conjunction, k, g, e, naming@); } }
@fn B BoolExpression::from_disjunction -> r
    requires exists|n: int| #[trigger] dj_ok(*disjunction, n) && declares(naming@, n)
    ensures written(r, *disjunction, naming@)
@attr verifier::loop_isolation(false)
@collect 0 HashMap<ClockIndex,String>
@loops 2
@hint start
let ghost m = naming@; let ghost l = disjunction.conjunctions@.len() as int;
let ghost n = choose|n: int| #[trigger] dj_ok(*disjunction, n) && declares(m, n);
@loop 0
    invariant pairs_of(it0.seq(), m), inverted(__vx_out1@, it0.seq(), it0.index@ as int), it0.index@ == it0.seq().len() ==> inv_all(__vx_out1@, m)
@hint after "let naming ="
let ghost o = naming@;
proof {
    lemma_names(o, m, n); lemma_known(*disjunction, o, n); lemma_says_false(*disjunction, o);
    assert forall|r: Option<BoolExpression>| #[trigger] says_dj(r, *disjunction, l, o) implies written(r, *disjunction, m) by { lemma_written(r, *disjunction, o, m); }
    if l > 0 { assert forall|e: Option<BoolExpression>| #[trigger] says_cj(e, disjunction.conjunctions@[0], disjunction.conjunctions@[0].constraints@.len() as int, o) implies says_dj(e, *disjunction, 1, o) by { lemma_says_first(*disjunction, e, o); } }
}
@hint loop 1 start
let ghost k = it1.index@ as int;
proof {
    if says_cj(None, disjunction.conjunctions@[k], disjunction.conjunctions@[k].constraints@.len() as int, o) { lemma_says_true(*disjunction, k, o); }
    assert forall|g: BoolExpression, e: BoolExpression| #![trigger says_dj(Some(g), *disjunction, k, o), says_cj(Some(e), disjunction.conjunctions@[k], disjunction.conjunctions@[k].constraints@.len() as int, o)] says_dj(Some(g), *disjunction, k, o) && says_cj(Some(e), disjunction.conjunctions@[k], disjunction.conjunctions@[k].constraints@.len() as int, o) implies says_dj(Some(BoolExpression::OrOp(Box::new(g), Box::new(e))), *disjunction, k + 1, o) by { lemma_says_or(*disjunction, k, g, e, o); }
}
@loop 1
    invariant it1.seq().len() == disjunction.conjunctions@.len(), forall|i: int| 0 <= i < it1.seq().len() ==> *#[trigger] it1.seq()[i] == disjunction.conjunctions@[i],
        result is Some <==> it1.index@ > 0, result is Some ==> says_dj(result, *disjunction, it1.index@ as int, naming@)
@import transition U CompiledUpdate::apply_as_free
@import transition U CompiledUpdate::apply_as_guard
@import transition C Component@DeclarationProvider::get_declarations
@import transition C Component::get_location_by_name
@import transition P Update::compiled
@fn C Declarations::get_clock_count -> r
    ensures r == self.clocks@.dom().len()
@fn N make_input_enabled
    requires comp_ok(*old(component))
    ensures enabled(*old(component), inputs@, *final(component))
@attr verifier::loop_isolation(false)
@attr verifier::exec_allows_no_decreases_clause
@loops 7
@hint start
let ghost c = *component; let ghost n = dims(c); let ghost es = c.edges@; let ghost ls = c.locations@; let ghost ins = inputs@; let ghost d = c.declarations; let ghost mut ps: Seq<(int, int)> = Seq::empty();
proof { lemma_start(c, ins); }
@loop 0
    invariant it0.seq().len() == es.len(), forall|i: int| 0 <= i < es.len() ==> *#[trigger] it0.seq()[i] == es[i], picks(__vx_out1@, es, it0.index@ as int, inputs_only())
@hint loop 0 start
let ghost o0 = __vx_out1@;
@hint loop 0 end
proof { let k = it0.index@ as int; assert(__vx_out1@ =~= (if inputs_only()(es[k]) { o0.push(it0.seq()[k]) } else { o0 })); lemma_pick_step(o0, __vx_out1@, es, k, it0.seq()[k], inputs_only()); }
@loop 1
    invariant *component == c, it1.seq().len() == ls.len(), forall|i: int| 0 <= i < ls.len() ==> *#[trigger] it1.seq()[i] == ls[i],
        loops_for(c, ins, new_edges@, ps), covered(c, ins, ps, it1.index@ as int, 0)
@hint loop 1 start
let ghost x = it1.index@ as int; let ghost l = ls[x];
@loop 2
    invariant it2.seq().len() == input_edges@.len(), forall|i: int| 0 <= i < it2.seq().len() ==> *#[trigger] it2.seq()[i] == input_edges@[i], repicks(__vx_out2@, input_edges@, it2.index@ as int, at_only(l))
@hint loop 2 start
let ghost o0 = __vx_out2@;
@hint loop 2 end
proof { let k = it2.index@ as int; assert(__vx_out2@ =~= (if at_only(l)(*input_edges@[k]) { o0.push(input_edges@[k]) } else { o0 })); lemma_repick_step(o0, __vx_out2@, input_edges@, k, at_only(l)); }
@loop 3
    invariant it3.seq().len() == ins.len(), forall|i: int| 0 <= i < ins.len() ==> *#[trigger] it3.seq()[i] == ins[i],
        loops_for(c, ins, new_edges@, ps), covered(c, ins, ps, x, it3.index@ as int)
@hint loop 3 start
let ghost y = it3.index@ as int; let ghost a = ins[y];
@loop 4
    invariant it4.seq().len() == location_edges@.len(), forall|i: int| 0 <= i < it4.seq().len() ==> *#[trigger] it4.seq()[i] == location_edges@[i], repicks(__vx_out3@, location_edges@, it4.index@ as int, for_only(a))
@hint loop 4 start
let ghost o0 = __vx_out3@;
proof { reveal_strlit("*"); assert("*"@ =~= seq!['*']); }
@hint loop 4 end
proof { let k = it4.index@ as int; assert(__vx_out3@ =~= (if for_only(a)(*location_edges@[k]) { o0.push(location_edges@[k]) } else { o0 })); lemma_repick_step(o0, __vx_out3@, location_edges@, k, for_only(a)); }
@hint after "let specific_edges ="
let ghost se = specific_edges@;
proof { lemma_picks(es, input_edges@, location_edges@, se, l, a); }
@hint after "let result_federation ="
proof { lemma_rest(c, l, a, se, zones_federation, full_federation, result_federation, n); if none(result_federation) { lemma_skip(c, ins, ps, x, y, result_federation); } }
let ghost ne = new_edges@;
@hint loop 3 end
proof { if new_edges@.len() > ne.len() { let e = new_edges@[ne.len() as int]; assert(new_edges@ =~= ne.push(e)); let dd = choose|dd: Disjunction| dj_ok(dd, n) && (forall|v: Val| vok(v, n) ==> (#[trigger] result_federation.has(v) <==> dj(dd, v))) && #[trigger] written(e.guard, dd, d.clocks@); lemma_new(c, ins, ne, ps, x, y, result_federation, dd, e); ps = ps.push((x, y)); } }
@hint loop 1 end
proof { lemma_row(c, ins, ps, x); }
@hint before "component.edges.append"
let ghost new_edges0 = new_edges@;
@loop 5
    invariant zones_federation.n() == n, it5.seq() == se, zone_upto(c, l, se, it5.index@ as int, zones_federation, n)
@hint after "let mut zones_federation"
proof { lemma_zone0(c, l, se, zones_federation, n); }
@hint loop 5 start
let ghost k = it5.index@ as int; let ghost e = *edge; let ghost cs = cus(e, d); let ghost z0 = zones_federation; let ghost t = target(c, e);
proof { assert(e == *se[k]); lemma_edge(c, se, k, l, a); assert forall|g: OwnedFederation| g.n() == n && (forall|v: Val| vok(v, n) ==> (#[trigger] g.has(v) <==> opt_sat(t.invariant, d, v))) implies #[trigger] step_ok(g, t, d, cs, cs.len() as int, n) by { lemma_step0(g, t, d, cs, n); } }
@hint loop 5 end
proof {
    assert(zone_of(c, l, e, t, guard_zone, n));
    assert forall|v: Val| vok(v, n) implies (#[trigger] zones_federation.has(v) <==> z0.has(v) || (guard_zone.has(v) && location_inv_zone.has(v))) by {}
    lemma_zone(c, l, se, k, t, z0, guard_zone, location_inv_zone, zones_federation, n);
}
@hint before "if let Some(guard)"
proof { if e.update is None { assert(cs.len() == 0); } lemma_step_end(guard_zone, t, d, cs, n); }
@hint loop 6 start
let ghost j = cs.len() - it6.index@; let ghost g0 = guard_zone; let ghost mut g1 = guard_zone;
@hint after "guard_zone = cu.apply_as_guard"
proof { g1 = guard_zone; }
@hint loop 6 end
proof { assert(cu == cs[j - 1]); lemma_step(cu, g0, g1, guard_zone, t, d, cs, j, n); }
@loop 6
    invariant it6.seq().len() == cs.len(), forall|i: int| 0 <= i < cs.len() ==> *#[trigger] it6.seq()[i] == e.update->0@[cs.len() - 1 - i],
        guard_zone.n() == n, step_ok(guard_zone, t, d, cs, cs.len() - it6.index@ as int, n)
@hint end
proof { lemma_added(c, *component, ins, new_edges0, ps); }
@import comp C Component::get_input_actions
@fn Y ComponentContainer::new -> r
    ensures *r.loaded_components == *map
@fn Y ComponentContainer@From::from -> r
    requires forall|i: int| 0 <= i < components@.len() ==> comp_ok(#[trigger] components@[i])
    ensures loaded(components@, components@.len() as int, r.loaded_components@)
@attr verifier::loop_isolation(false)
@hint start
let ghost cs = components@;
proof { lemma_loaded0(cs, Map::empty()); }
@hint after "let inputs"
let ghost c0 = component; let ghost k = it0.index@ as int; let ghost m0 = comp_hashmap@;
@hint before "comp_hashmap.insert"
let ghost c1 = component; proof { lemma_same_name(c0, inputs@, c1); }
@hint loop 0 end
proof { assert(comp_hashmap@ == m0.insert(c0.name, c1)); lemma_loaded(cs, k, inputs@, c1, m0); }
@loop 0
    invariant it0.seq() == cs, loaded(cs, it0.index@ as int, comp_hashmap@)
@end
