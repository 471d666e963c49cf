@unit recipe
@file N src/System/extract_system_rep.rs
@file V src/ModelObjects/Expressions/query_expression.rs
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file M src/ModelObjects/location.rs
@file C src/ModelObjects/component.rs
@file E src/ModelObjects/edge.rs
@file P src/DataReader/parse_edge.rs
@file T src/ModelObjects/transition.rs
@file L src/TransitionSystems/location_tree.rs
@file I src/TransitionSystems/location_id.rs
@file D src/TransitionSystems/transition_id.rs
@file U src/EdgeEval/updater.rs
@file Z src/System/specifics.rs
@file S src/ModelObjects/state.rs
@subst . map ( | comp | comp as TransitionSystemPtr ) =>> 
@subst as TransitionSystemPtr =>> 
@mapfield clocks ints
@getmut
@addassign
@type A ArithExpression clone eq
@type B BoolExpression clone eq
@type C Declarations clone
@type P Update clone
@type E SyncType copy eq
@type E Edge clone
@type M LocationType copy eq
@type M Location clone
@type C Component clone
@type U CompiledUpdate clone
@type D TransitionID clone eq
@type I LocationID clone eq
@type Z SpecialLocation clone eq
@file Q src/System/query_failures.rs
@type Q SystemType copy eq
@type Z SpecificComp
@type Z SpecificLocation
@type L CompositionType copy eq
@type L LocationTree clone
@type T Transition clone
@type S State clone
@type V SystemExpression clone
@type N SystemRecipe clone
@include common.inc
@include sets.inc
@include fed.inc
@include arith.inc
@include upd.inc
@include trans.inc
@include ts.inc
@include recipe.inc
@prelude
pub assume_specification<T>[Option::<T>::replace](o: &mut Option<T>, x: T) -> (r: Option<T>) ensures r == *old(o), *final(o) == Some(x);
pub struct Composition; pub struct Conjunction; pub struct Quotient;
#[verifier::external_body] pub struct CompiledComponent { x: usize }
pub type CompResult = Result<TransitionSystemPtr, Box<SystemRecipeFailure>>;
impl Composition { #[verifier::external_body] pub fn new_ts(l: TransitionSystemPtr, r: TransitionSystemPtr, dim: ClockIndex) -> (x: CompResult) ensures x is Ok <==> ts_par(l, r, dim) is Some, x is Ok ==> x->Ok_0 == ts_par(l, r, dim)->0 { unimplemented!() } }
impl Conjunction { #[verifier::external_body] pub fn new_ts(l: TransitionSystemPtr, r: TransitionSystemPtr, dim: ClockIndex) -> (x: CompResult) ensures x is Ok <==> ts_conj(l, r, dim) is Some, x is Ok ==> x->Ok_0 == ts_conj(l, r, dim)->0 { unimplemented!() } }
impl Quotient { #[verifier::external_body] pub fn new_ts(l: TransitionSystemPtr, r: TransitionSystemPtr, clock: ClockIndex, dim: ClockIndex) -> (x: CompResult) ensures x is Ok <==> ts_quot(l, r, clock, dim) is Some, x is Ok ==> x->Ok_0 == ts_quot(l, r, clock, dim)->0 { unimplemented!() } }
impl CompiledComponent { #[verifier::external_body] pub fn compile(c: Component, dim: ClockIndex, component_index: &mut u32) -> (x: CompResult) requires *old(component_index) < u32::MAX ensures *final(component_index) == *old(component_index) + 1, x is Ok <==> ts_comp(c, dim, *old(component_index)) is Some, x is Ok ==> x->Ok_0 == ts_comp(c, dim, *old(component_index))->0 { unimplemented!() } }
@endprelude
@fn C Declarations::get_clock_count -> r
    ensures r == self.clocks@.len()
@end
@fn C Declarations::set_clock_indices
    requires forall|c: String| #[trigger] old(self).clocks@.contains_key(c) ==> old(self).clocks@[c] + start_index <= usize::MAX
    ensures moved(*old(self), start_index as int, *final(self))
@loops 1
@loop 0
    invariant lists_v(it0.seq(), o.clocks@.dom()), it0.seq().no_duplicates(), self.ints == o.ints, self.clocks@.dom() == o.clocks@.dom(),
        forall|c: String| #[trigger] o.clocks@.contains_key(c) ==> o.clocks@[c] + start_index <= usize::MAX,
        forall|i: int| 0 <= i < it0.index@ ==> self.clocks@[#[trigger] it0.seq()[i]] == o.clocks@[it0.seq()[i]] + start_index,
        forall|i: int| it0.index@ <= i < it0.seq().len() ==> self.clocks@[#[trigger] it0.seq()[i]] == o.clocks@[it0.seq()[i]],
@hint start
    let ghost o = *self;
@hint loop 0 start
    proof { assert(o.clocks@.contains_key(it0.seq()[it0.index@])); }
@end
@fn C Component::set_clock_indices
    requires numbered(old(self).declarations), *old(indices) + count(*old(self)) <= usize::MAX
    ensures final(self).name == old(self).name, final(self).locations == old(self).locations, final(self).edges == old(self).edges, final(self).special_id == old(self).special_id,
        moved(old(self).declarations, *old(indices) as int, final(self).declarations), *final(indices) == *old(indices) + count(*old(self))
@end
@fn N get_system_recipe -> r
@mustsubst dyn ComponentLoader =>> Loader
    requires well(*side, old(component_loader).lib()), after(*side, old(component_loader).lib(), *old(clock_index) as int, *old(quotient_index)).0 <= usize::MAX
    ensures recipe_of(*r, *side, old(component_loader).lib(), *old(clock_index) as int, *old(quotient_index)),
        (*final(clock_index) as int, *final(quotient_index)) == after(*side, old(component_loader).lib(), *old(clock_index) as int, *old(quotient_index)),
        final(component_loader).lib() == old(component_loader).lib(), final(component_loader).reducing() == old(component_loader).reducing()
    decreases *side
@hint start
    proof { vxrec::lemma_parts(*side, component_loader.lib(), *clock_index as int, *quotient_index); }
@end
@fn N SystemRecipe::compile -> x
    requires dim < usize::MAX, comps(self).len() < u32::MAX
    ensures x is Ok <==> system(self, (dim + 1) as usize, 0) is Some, x is Ok ==> built(self, dim as int, 0, x->Ok_0), x is Err ==> unbuilt(self, dim as int, 0)
@end
@fn N SystemRecipe::compile_with_index -> x
    requires dim < usize::MAX, *old(component_index) + comps(self).len() < u32::MAX
    ensures x is Ok <==> system(self, (dim + 1) as usize, *old(component_index) as int) is Some, x is Ok ==> built(self, dim as int, *old(component_index) as int, x->Ok_0), x is Err ==> unbuilt(self, dim as int, *old(component_index) as int),
        x is Ok ==> *final(component_index) == *old(component_index) + comps(self).len()
@end
@fn N SystemRecipe::_compile -> x
    requires *old(component_index) + comps(self).len() < u32::MAX
    ensures x is Ok <==> system(self, dim, *old(component_index) as int) is Some, x is Ok ==> x->Ok_0 == system(self, dim, *old(component_index) as int)->0,
        x is Ok ==> *final(component_index) == *old(component_index) + comps(self).len()
    decreases self
@end
@fn N SystemRecipe::get_component_count -> n
    requires comps(*self).len() <= usize::MAX
    ensures n == comps(*self).len()
    decreases self
@end
@fn N SystemRecipe::get_components -> v
@vecderef
    ensures v@.len() == comps(*self).len(), forall|i: int| 0 <= i < v@.len() ==> *#[trigger] v@[i] == comps(*self)[i]
    decreases self
@loops 1
@loop 0
    invariant o@.len() == n0 + it0.index@, it0.seq().len() == m, n0 + m == comps(*self).len(),
        forall|i: int| 0 <= i < n0 ==> *#[trigger] o@[i] == comps(*self)[i], forall|i: int| 0 <= i < m ==> *#[trigger] it0.seq()[i] == comps(*self)[n0 + i],
        forall|i: int| n0 <= i < o@.len() ==> *#[trigger] o@[i] == comps(*self)[i],
@hint loop 0 before
    let ghost n0 = o@.len(); let ghost m = comps(*self).len() - n0;
@end
@fn N SystemRecipe::change_quotient
@splitor
    ensures *final(self) == requot(*old(self), index)
    decreases *old(self)
@end
