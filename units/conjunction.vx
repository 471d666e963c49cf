@unit conjunction
@file U src/EdgeEval/updater.rs
@file T src/ModelObjects/transition.rs
@file S src/ModelObjects/state.rs
@file L src/TransitionSystems/location_tree.rs
@file I src/TransitionSystems/location_id.rs
@file D src/TransitionSystems/transition_id.rs
@file M src/ModelObjects/location.rs
@file Z src/System/specifics.rs
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file G src/EdgeEval/constraint_applyer.rs
@file C src/ModelObjects/component.rs
@file E src/ModelObjects/edge.rs
@file P src/DataReader/parse_edge.rs
@file J src/TransitionSystems/conjunction.rs
@file O src/TransitionSystems/common.rs
@file Q src/System/query_failures.rs
@file R src/TransitionSystems/transition_system.rs
@subst self . inputs . clone ( ) =>> vx_set_clone ( & self . inputs )
@subst self . outputs . clone ( ) =>> vx_set_clone ( & self . outputs )
@setfn get_input_actions get_output_actions get_actions
@type A ArithExpression clone eq
@type B BoolExpression clone eq
@type C Declarations
@type P Update
@type E SyncType copy eq
@type E Edge
@type M Location
@type C Component
@type U CompiledUpdate clone
@type D TransitionID clone eq
@type I LocationID clone eq
@type Z SpecialLocation clone eq
@type Q SystemType copy eq
@type Z SpecificComp
@type Z SpecificLocation
@type M LocationType copy eq
@type L CompositionType copy eq
@type L LocationTree clone
@type T Transition clone
@type S State clone
@type J Conjunction
@include common.inc
@include sets.inc
@include fed.inc
@include arith.inc
@include upd.inc
@include trans.inc
@include ts.inc
@include bounds.inc
@include sysbounds.inc
@include compose.inc
@prelude
impl ConsistencyFailure {
    #[verifier::external_body] pub fn to_recipe_failure(self, c: &Conjunction) -> Box<SystemRecipeFailure> { unimplemented!() }
}
pub uninterp spec fn conj_consistent(c: Conjunction) -> bool;
#[verifier::external_body] pub fn is_least_consistent(c: &Conjunction) -> (r: ConsistencyResult) requires c.wf() ensures r is Ok <==> conj_consistent(*c) { unimplemented!() }
impl Conjunction {
    pub open spec fn ins(&self) -> Set<String> { self.inputs@ }
    pub open spec fn outs(&self) -> Set<String> { self.outputs@ }
    pub open spec fn acts(&self) -> Set<String> { self.ins().union(self.outs()) }
    pub open spec fn at(&self, l: LocationTree) -> bool { pair_at(self.left, self.right, l, self.dim as int) }
    pub open spec fn wf(&self) -> bool {
        &&& self.ins().disjoint(self.outs())
        &&& self.left.n() == self.dim && self.right.n() == self.dim && self.dim > 0
        &&& self.left.ins().disjoint(self.right.outs()) && self.left.outs().disjoint(self.right.ins())
        &&& self.inputs@ =~= self.left.ins().intersect(self.right.ins())
        &&& self.outputs@ =~= self.left.outs().intersect(self.right.outs())
    }
}
@endprelude
@import transition L LocationTree::apply_invariants
@import transition S State::new
@import transition T Transition::combinations
@import transition T Transition::without_id
@import transition L LocationTree::compose
@fn L LocationTree::get_left -> r
    requires self.left is Some
    ensures *r == *self.left->0
@fn L LocationTree::get_right -> r
    requires self.right is Some
    ensures *r == *self.right->0
@fn J Conjunction@ComposedTransitionSystem::get_input_actions -> r
    ensures r@ == self.ins()
@fn J Conjunction@ComposedTransitionSystem::get_output_actions -> r
    ensures r@ == self.outs()
@fn O T@TransitionSystem::get_actions -> r
    ensures r@ == self.acts()
@selfas Conjunction
@fn R TransitionSystem::actions_contain -> r
    ensures r <==> self.acts().contains(mk(action@))
@selfas Conjunction
@fn J Conjunction@ComposedTransitionSystem::get_dim -> r
    ensures r == self.dim
@fn J Conjunction@ComposedTransitionSystem::get_children -> r
    ensures *r.0 == self.left, *r.1 == self.right
@fn J Conjunction@ComposedTransitionSystem::get_composition_type -> r
    ensures r == CompositionType::Conjunction
@fn J Conjunction@ComposedTransitionSystem::next_transitions -> r
    requires self.wf(), self.at(*location), self.acts().contains(mk(action@))
    ensures steps(r@, self.dim as int, self.left, self.right),
        product(self.left.trans(*location.left->0, mk(action@)), self.right.trans(*location.right->0, mk(action@)), CompositionType::Conjunction, r@)
@hint start
broadcast use lemma_product_steps;
@fn R TransitionSystem::next_transitions_if_available -> r
    requires self.wf(), self.at(*location)
    ensures self.acts().contains(mk(action@)) ==> steps(r@, self.dim as int, self.left, self.right) && product(self.left.trans(*location.left->0, mk(action@)), self.right.trans(*location.right->0, mk(action@)), CompositionType::Conjunction, r@), !self.acts().contains(mk(action@)) ==> r@.len() == 0
@selfas Conjunction
@fn J Conjunction::new_ts -> r
    requires left.n() == dim, right.n() == dim, dim > 0
    ensures
        r is Ok ==> left.ins().disjoint(right.outs()) && left.outs().disjoint(right.ins()) && r->Ok_0.wf() && r->Ok_0.left == left && r->Ok_0.right == right && r->Ok_0.dim == dim && conj_consistent(*r->Ok_0),
@mustsubst Result < TransitionSystemPtr , =>> Result < Box < Conjunction > ,
@subst ts . as_ref ( ) =>> & * ts
@fn O T@TransitionSystem::get_initial_location -> r
    requires self.wf()
    ensures
        r is Some <==> self.left.init() is Some && self.right.init() is Some,
        r is Some ==> self.at(r->0) && composed(self.left.init()->0, self.right.init()->0, CompositionType::Conjunction, r->0),
@selfas Conjunction
@fn O T@TransitionSystem::get_all_locations -> r
    requires self.wf()
    ensures all_pairs(self.left.locs(), self.right.locs(), CompositionType::Conjunction, r@), forall|i: int| 0 <= i < r@.len() ==> self.at(#[trigger] r@[i])
@selfas Conjunction
@attr verifier::loop_isolation(false)
@loops 2
@hint start
let ghost n = self.dim as int;
@loop 0
    invariant it0.seq().len() == left@.len(), forall|i: int| 0 <= i < left@.len() ==> *#[trigger] it0.seq()[i] == left@[i], left@ == self.left.locs(), right@ == self.right.locs(),
        location_trees@.len() == it0.index@ * right@.len(),
        forall|i: int, j: int| 0 <= i < it0.index@ && 0 <= j < right@.len() ==> #[trigger] pair_here(left@, right@, CompositionType::Conjunction, location_trees@, i, j),
        forall|i: int| 0 <= i < location_trees@.len() ==> self.at(#[trigger] location_trees@[i]),
@loop 1
    invariant it1.seq().len() == right@.len(), forall|i: int| 0 <= i < right@.len() ==> *#[trigger] it1.seq()[i] == right@[i],
        location_trees@.len() == it0.index@ * right@.len() + it1.index@,
        forall|i: int, j: int| 0 <= i < it0.index@ && 0 <= j < right@.len() ==> #[trigger] pair_here(left@, right@, CompositionType::Conjunction, location_trees@, i, j),
        forall|j: int| 0 <= j < it1.index@ ==> #[trigger] pair_here(left@, right@, CompositionType::Conjunction, location_trees@, it0.index@ as int, j),
        forall|i: int| 0 <= i < location_trees@.len() ==> self.at(#[trigger] location_trees@[i]),
@hint loop 1 start
let ghost o0 = location_trees@; let ghost i0 = it0.index@ as int; let ghost j0 = it1.index@ as int;
proof { assert(*loc1 == left@[i0]); assert(*loc2 == right@[j0]); }
@hint loop 1 end
proof {
    let o = location_trees@;
    assert(o.len() == o0.len() + 1);
    assert(composed(left@[i0], right@[j0], CompositionType::Conjunction, o[i0 * right@.len() + j0]));
    assert(loc_ok(o[o0.len() as int], n));
    assert forall|i: int| 0 <= i < o.len() implies self.at(#[trigger] o[i]) by { if i < o0.len() { assert(o[i] == o0[i]); } }
    assert forall|i: int, j: int| 0 <= i < i0 && 0 <= j < right@.len() implies #[trigger] pair_here(left@, right@, CompositionType::Conjunction, o, i, j) by {
        assert(pair_here(left@, right@, CompositionType::Conjunction, o0, i, j));
        lemma_index(i, j, i0, right@.len() as int);
    }
    assert forall|j: int| 0 <= j <= j0 implies #[trigger] pair_here(left@, right@, CompositionType::Conjunction, o, i0, j) by {
        if j < j0 { assert(pair_here(left@, right@, CompositionType::Conjunction, o0, i0, j)); }
    }
}
@hint loop 0 end
proof { let k = it0.index@ as int; let m = right@.len() as int; assert((k + 1) * m == k * m + m) by (nonlinear_arith); }
@fn O T@TransitionSystem::get_initial_state -> r
    requires self.wf()
    ensures
        r is Some ==> st_ok(r->0, self.dim as int) && self.left.init() is Some && self.right.init() is Some && composed(self.left.init()->0, self.right.init()->0, CompositionType::Conjunction, r->0.decorated_locations)
            && (forall|v: Val| vok(v, self.dim as int) ==> (#[trigger] r->0.zone_sentinel->0.has(v) <==> all_same(v) && inv_has(self.left.init()->0, v) && inv_has(self.right.init()->0, v))),
        r is Some <==> self.left.init() is Some && self.right.init() is Some && exists|v: Val| vok(v, self.dim as int) && #[trigger] all_same(v) && inv_has(self.left.init()->0, v) && inv_has(self.right.init()->0, v),
@selfas Conjunction
@hint after "zone = init_loc.apply_invariants(zone)"
proof { let n = self.dim as int; assert(loc_ok(init_loc, n)); assert forall|v: Val| vok(v, n) implies (#[trigger] zone.has(v) <==> all_same(v) && inv_has(self.left.init()->0, v) && inv_has(self.right.init()->0, v)) by { assert(inv_has(init_loc, v) <==> inv_has(self.left.init()->0, v) && inv_has(self.right.init()->0, v)); } }
@hint before "return None"
proof { assert forall|v: Val| vok(v, self.dim as int) && #[trigger] all_same(v) implies !(inv_has(self.left.init()->0, v) && inv_has(self.right.init()->0, v)) by { assert(!zone.has(v)); } }
@fn J Conjunction@ComposedTransitionSystem::check_local_consistency -> r
    ensures r is Ok
@fn O T@TransitionSystem::check_determinism -> r
    ensures r is Ok <==> self.left.deterministic() && self.right.deterministic()
@selfas Conjunction
@fn O T@TransitionSystem::get_local_max_bounds -> r
    requires self.at(*loc)
    ensures r.ge(self.left.bounds(*loc.left->0)), r.ge(self.right.bounds(*loc.right->0))
@selfas Conjunction
@fn Z SpecificLocation::split -> r
    requires self is BranchLocation
    ensures r.0 == *self->BranchLocation_0, r.1 == *self->BranchLocation_1
@fn O T@TransitionSystem::construct_location_tree -> r
    requires self.wf(), target is BranchLocation
    ensures
        r is Ok <==> self.left.spec_loc(*target->BranchLocation_0) is Some && self.right.spec_loc(*target->BranchLocation_1) is Some,
        r is Ok ==> self.at(r->Ok_0) && composed(self.left.spec_loc(*target->BranchLocation_0)->0, self.right.spec_loc(*target->BranchLocation_1)->0, CompositionType::Conjunction, r->Ok_0),
@selfas Conjunction
@end
