@unit descr
@file U src/EdgeEval/updater.rs
@file T src/ModelObjects/transition.rs
@file L src/TransitionSystems/location_tree.rs
@file I src/TransitionSystems/location_id.rs
@file D src/TransitionSystems/transition_id.rs
@file M src/ModelObjects/location.rs
@file Z src/System/specifics.rs
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file C src/ModelObjects/component.rs
@file E src/ModelObjects/edge.rs
@file P src/DataReader/parse_edge.rs
@file S src/ModelObjects/state.rs
@file W src/System/query_failures.rs
@file N src/System/extract_system_rep.rs
@file X src/ModelObjects/Expressions/state_expression.rs
@file G src/EdgeEval/constraint_applyer.rs
@file Q src/System/extract_state.rs
@type A ArithExpression clone eq
@type B BoolExpression clone eq
@type C Declarations eq
@type P Update eq
@type E SyncType copy eq
@type E Edge eq
@type M LocationType copy eq
@type M Location eq
@type C Component eq
@type U CompiledUpdate clone
@type D TransitionID clone eq
@type I LocationID clone eq
@type Z SpecialLocation clone eq
@type W SystemType copy eq
@type Z SpecificComp
@type Z SpecificLocation
@type L CompositionType copy eq
@type L LocationTree clone
@type T Transition clone
@type S State clone
@type N SystemRecipe
@type X ComponentVariable clone eq
@type X OperandExpression
@type X StateExpression
@include common.inc
@include sets.inc
@include fed.inc
@include arith.inc
@include upd.inc
@include trans.inc
@include ts.inc
@include descr.inc
@import guard G apply_constraints_to_state
@import transition S State::new
@import transition L LocationTree::compose
@import transition L LocationTree::merge_as_quotient
@import transition C Declarations::get_clock_index_by_name
@import recipe N SystemRecipe::get_components
@fn C Declarations::empty -> r
    ensures true
@fn L LocationTree::build_any_location_tree -> r
    ensures any_tree(r)
@fn X OperandExpression::to_arith_expression -> r
@attr verifier::loop_isolation(false)
    ensures r is Ok <==> arith_of(*self, refs_of(comps@)) is Some, r is Ok ==> r->Ok_0 == arith_of(*self, refs_of(comps@))->0
    decreases *self
@loops 1
@loop 0
    invariant it0.seq().len() == comps@.len(), forall|i: int| 0 <= i < comps@.len() ==> *#[trigger] it0.seq()[i] == comps@[i],
        __vx_r1 is None, forall|j: int| 0 <= j < it0.index@ ==> !of(x, #[trigger] refs_of(comps@)[j]),
@hint start
    let ghost x = var_of(*self);
@hint loop 0 start
    proof { let j = it0.index@; assert(refs_of(comps@)[j] == *comps@[j]); if of(x, refs_of(comps@)[j]) { lemma_first_of(x, refs_of(comps@), j); } }
@hint loop 0 after
    proof { if __vx_r1 is None { lemma_first_none(x, refs_of(comps@)); } }
@fn X StateExpression::to_bool_expression -> r
@attr verifier::loop_isolation(false)
    requires whole(*self)
    ensures r is Ok <==> known(*self, refs_of(comps@)), r is Ok ==> says(r->Ok_0, *self, refs_of(comps@))
    decreases *self
@loops 4
@loop 0
    invariant it0.seq().len() == es@.len(), forall|i: int| 0 <= i < es@.len() ==> *#[trigger] it0.seq()[i] == es@[i], *self == SE::AND(es), cs == refs_of(comps@),
        __vx_out1@.len() == it0.index@, forall|i: int| 0 <= i < it0.index@ ==> says(#[trigger] __vx_out1@[i], es@[i], cs), forall|i: int| 0 <= i < it0.index@ ==> known(#[trigger] es@[i], cs),
@loop 1
    invariant it1.seq() == all.drop_first(), all.len() == es@.len(), say(all, es@, cs), folded(__vx_acc1, es@, it1.index@ + 1, true, cs),
@loop 2
    invariant it2.seq().len() == es@.len(), forall|i: int| 0 <= i < es@.len() ==> *#[trigger] it2.seq()[i] == es@[i], *self == SE::OR(es), cs == refs_of(comps@),
        __vx_out2@.len() == it2.index@, forall|i: int| 0 <= i < it2.index@ ==> says(#[trigger] __vx_out2@[i], es@[i], cs), forall|i: int| 0 <= i < it2.index@ ==> known(#[trigger] es@[i], cs),
@loop 3
    invariant it3.seq() == all.drop_first(), all.len() == es@.len(), say(all, es@, cs), folded(__vx_acc2, es@, it3.index@ + 1, false, cs),
@hint start
    let ghost cs = refs_of(comps@);
    let ghost es = ops(*self);
@hint loop 0 start
    let ghost k0 = it0.index@;
    proof { assert(*__vx_e1 == es@[k0]); assert(decreases_to!(es => es@[k0])); assert(whole(es@[k0])); }
@hint loop 2 start
    let ghost k0 = it2.index@;
    proof { assert(*__vx_e3 == es@[k0]); assert(decreases_to!(es => es@[k0])); assert(whole(es@[k0])); }
@hint loop 1 before
    let ghost all = seq![first] + exprs@;
    proof { assert(all.drop_first() =~= exprs@); assert(say(all, es@, cs)); lemma_fold0(first, es@, true, cs); }
@hint loop 1 start
    let ghost a0 = __vx_acc1; let ghost k = it1.index@;
    proof { assert(__vx_e2 == all[k + 1]); assert(says(all[k + 1], es@[k + 1], cs)); }
@hint loop 1 end
    proof { lemma_fold(a0, all[k + 1], __vx_acc1, es@, k + 1, true, cs); }
@hint loop 1 after
    proof { lemma_folded(__vx_acc1, es, true, cs, *self); }
@hint loop 3 before
    let ghost all = seq![first] + exprs@;
    proof { assert(all.drop_first() =~= exprs@); assert(say(all, es@, cs)); lemma_fold0(first, es@, false, cs); }
@hint loop 3 start
    let ghost a0 = __vx_acc2; let ghost k = it3.index@;
    proof { assert(__vx_e4 == all[k + 1]); assert(says(all[k + 1], es@[k + 1], cs)); }
@hint loop 3 end
    proof { lemma_fold(a0, all[k + 1], __vx_acc2, es@, k + 1, false, cs); }
@hint loop 3 after
    proof { lemma_folded(__vx_acc2, es, false, cs, *self); }
@hint end
    proof { if r is Ok { lemma_simple(r->Ok_0, *self, cs); } }
@fn Q get_locations -> r
@attr verifier::loop_isolation(false)
    ensures r is Ok <==> locs_of(*expr) is Some, r is Ok ==> r->Ok_0@ == locs_of(*expr)->0
    decreases *expr
@loops 2
@loop 0
    invariant it0.seq().len() == es@.len(), forall|i: int| 0 <= i < es@.len() ==> *#[trigger] it0.seq()[i] == es@[i], e0 == SE::AND(es), all_locs(e0, es@, it0.index@ as nat) == Some(res@),
@loop 1
    invariant it1.seq().len() == es@.len(), forall|i: int| 0 <= i < es@.len() ==> *#[trigger] it1.seq()[i] == es@[i], e0 == SE::OR(es), all_locs(e0, es@, it1.index@ as nat) == Some(res@),
@hint start
    let ghost e0 = *expr; let ghost es = ops(*expr);
@hint loop 0 start
    let ghost k0 = it0.index@;
    proof { assert(*expr == es@[k0]); assert(decreases_to!(es => es@[k0])); if locs_of(es@[k0]) is None { lemma_all_none(e0, es@, (k0 + 1) as nat, es@.len()); } }
@hint loop 1 start
    let ghost k0 = it1.index@;
    proof { assert(*expr == es@[k0]); assert(decreases_to!(es => es@[k0])); if locs_of(es@[k0]) is None { lemma_all_none(e0, es@, (k0 + 1) as nat, es@.len()); } }
@fn Q create_zone_given_constraints -> r
    requires system.n() > 0, forall|d: Declarations| guard_ok(*constraints, d, system.n()), forall|d: Declarations, e: Declarations, v: Val| #[trigger] sat(*constraints, d, v) == #[trigger] sat(*constraints, e, v)
    ensures
        (forall|d: Declarations| all_diff_form(*constraints, d)) ==> r is Ok,
        r is Ok ==> r->Ok_0.n() == system.n() && forall|v: Val| vok(v, system.n()) ==> (#[trigger] r->Ok_0.has(v) <==> sat(*constraints, arbitrary(), v)),
@fn Q construct_location_tree -> r
    requires fits(*machine, *system, system.n()), !ambiguous(locations@.to_set())
    ensures r is Ok <==> !missing(*machine, *system, locations@.to_set()), r is Ok ==> located(*machine, *system, locations@.to_set(), r->Ok_0) && loc_ok(r->Ok_0, system.n())
    decreases *machine
@attr verifier::loop_isolation(false)
@loops 1
@loop 0
    invariant it0.seq().len() == locations@.len(), forall|i: int| 0 <= i < locations@.len() ==> *#[trigger] it0.seq()[i] == locations@[i],
        __vx_r1 is None, forall|j: int| 0 <= j < it0.index@ ==> !of(#[trigger] locations@[j], **component),
@hint start
    proof { lemma_fits(*machine, *system, system.n()); }
@hint loop 0 start
    proof { let j = it0.index@; assert(*__vx_e1 == locations@[j]); assert(locations@.to_set().contains(locations@[j])); }
@hint end
    proof {
        let ls = locations@.to_set();
        if let SystemRecipe::Component(c) = machine {
            assert forall|x: CV| #[trigger] ls.contains(x) implies exists|j: int| 0 <= j < locations@.len() && #[trigger] locations@[j] == x by { assert(locations@.contains(x)); }
            if !(exists|x: CV| #[trigger] ls.contains(x) && of(x, **c)) { assert(any_tree(r->Ok_0)); } else { assert(exists|x: CV| #[trigger] ls.contains(x) && of(x, **c) && (r is Ok <==> system.named(LocationID::Simple(x.variable)) is Some) && (r is Ok ==> system.named(LocationID::Simple(x.variable)) == Some(r->Ok_0))); }
        }
    }
@fn Q get_state -> r
@attr verifier::loop_isolation(false)
    requires fits(*recipe, *system, system.n()), system.n() > 0, whole(*state_query), forall|d: Declarations| form(*state_query, comps(*recipe), d, system.n())
    ensures
        r is Ok ==> sound(*state_query, *recipe, *system) && known(*state_query, comps(*recipe)),
        sound(*state_query, *recipe, *system) && known(*state_query, comps(*recipe)) && (forall|d: Declarations| diffs(*state_query, comps(*recipe), d)) ==> r is Ok,
        r is Ok ==> located(*recipe, *system, locs_of(*state_query)->0.to_set(), r->Ok_0.decorated_locations) && st_ok(r->Ok_0, system.n())
            && forall|v: Val| vok(v, system.n()) ==> (#[trigger] r->Ok_0.zone_sentinel->0.has(v) <==> meets(*state_query, comps(*recipe), v)),
@loops 6
@loop 0
    invariant it0.seq().len() == components@.len(), forall|i: int| 0 <= i < components@.len() ==> *#[trigger] it0.seq()[i] == components@[i],
        __vx_r1 is Some ==> twins(cs),
        __vx_r1 is None ==> forall|i: int, j: int| 0 <= i < it0.index@ && 0 <= j < cs.len() ==> !twin(#[trigger] cs[i], #[trigger] cs[j]),
@loop 1
    invariant it1.seq().len() == components@.len(), forall|i: int| 0 <= i < components@.len() ==> *#[trigger] it1.seq()[i] == components@[i],
        a0 == cs[it0.index@], 0 <= it0.index@ < cs.len(), *__vx_e1 == components@[it0.index@],
        __vx_r1 is Some ==> twins(cs),
        __vx_r1 is None ==> forall|j: int| 0 <= j < it1.index@ ==> !twin(a0, #[trigger] cs[j]),
        __vx_r1 is None ==> forall|i: int, j: int| 0 <= i < it0.index@ && 0 <= j < cs.len() ==> !twin(#[trigger] cs[i], #[trigger] cs[j]),
@loop 2
    invariant it2.seq().len() == locations@.len(), forall|i: int| 0 <= i < locations@.len() ==> *#[trigger] it2.seq()[i] == locations@[i],
        __vx_r2 is Some ==> ambiguous(ls),
        __vx_r2 is None ==> forall|i: int, j: int| 0 <= i < it2.index@ && 0 <= j < locations@.len() ==> !clash(#[trigger] locations@[i], #[trigger] locations@[j]),
@loop 3
    invariant it3.seq().len() == locations@.len(), forall|i: int| 0 <= i < locations@.len() ==> *#[trigger] it3.seq()[i] == locations@[i],
        0 <= it2.index@ < locations@.len(), *__vx_e3 == locations@[it2.index@],
        __vx_r2 is Some ==> ambiguous(ls),
        __vx_r2 is None ==> forall|j: int| 0 <= j < it3.index@ ==> !clash(*__vx_e3, #[trigger] locations@[j]),
        __vx_r2 is None ==> forall|i: int, j: int| 0 <= i < it2.index@ && 0 <= j < locations@.len() ==> !clash(#[trigger] locations@[i], #[trigger] locations@[j]),
@loop 4
    invariant it4.seq().len() == locations@.len(), forall|i: int| 0 <= i < locations@.len() ==> *#[trigger] it4.seq()[i] == locations@[i],
        __vx_r4 is None, forall|i: int| 0 <= i < it4.index@ ==> has_comp(#[trigger] locations@[i], cs),
@loop 5
    invariant it5.seq().len() == components@.len(), forall|i: int| 0 <= i < components@.len() ==> *#[trigger] it5.seq()[i] == components@[i],
        0 <= it4.index@ < locations@.len(), *__vx_e6 == locations@[it4.index@],
        !__vx_r3, forall|j: int| 0 <= j < it5.index@ ==> !of(*__vx_e6, #[trigger] cs[j]),
@hint start
    let ghost cs = comps(*recipe); let ghost ls = locs_of(*state_query)->0.to_set();
    proof { reveal(says); }
@hint loop 0 before
    proof { assert(refs_of(components@) == cs); assert forall|i: int| 0 <= i < cs.len() implies *#[trigger] components@[i] == cs[i] by { assert(refs_of(components@)[i] == cs[i]); } }
@hint loop 0 start
    let ghost a0 = cs[it0.index@];
@hint loop 2 before
    proof { assert(!twins(cs)); assert(locations@.to_set() == locs_of(*state_query)->0.to_set()); }
@hint loop 3 start
    proof { let i = it2.index@; let j = it3.index@; assert(locations@.contains(locations@[i])); assert(locations@.contains(locations@[j])); assert(ls.contains(*__vx_e3)); assert(*__vx_e4 == locations@[j]); assert(ls.contains(*__vx_e4)); assert(clash(*__vx_e3, *__vx_e4) ==> ambiguous(ls)); }
@hint loop 5 start
    proof { assert(*__vx_e5 == components@[it5.index@]); assert(*components@[it5.index@] == cs[it5.index@]); assert(of(*__vx_e6, cs[it5.index@]) ==> has_comp(*__vx_e6, cs)); }
@hint loop 5 after
    proof { if !__vx_r3 { assert(!has_comp(*__vx_e6, cs)); assert(locations@.contains(locations@[it4.index@])); assert(ls.contains(*__vx_e6)); assert(stray(ls, cs)); } }
@hint loop 4 before
    proof { assert(!ambiguous(ls)) by { assert forall|a: CV, b: CV| #[trigger] ls.contains(a) && #[trigger] ls.contains(b) && a != b && same_comp(a, b) implies false by {
        let i = choose|i: int| 0 <= i < locations@.len() && locations@[i] == a; let j = choose|j: int| 0 <= j < locations@.len() && locations@[j] == b; assert(clash(locations@[i], locations@[j])); } } }
@hint loop 4 after
    proof { if __vx_r4 is None { assert forall|x: CV| #[trigger] ls.contains(x) implies has_comp(x, cs) by { let i = choose|i: int| 0 <= i < locations@.len() && locations@[i] == x; assert(has_comp(locations@[i], cs)); } } }
@end
