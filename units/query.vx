@unit query
@file N src/System/extract_system_rep.rs
@file Y src/System/executable_query.rs
@file W src/ModelObjects/queries.rs
@file V src/ModelObjects/Expressions/query_expression.rs
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file M src/ModelObjects/location.rs
@file C src/ModelObjects/component.rs
@file E src/ModelObjects/edge.rs
@file P src/DataReader/parse_edge.rs
@file T src/ModelObjects/transition.rs
@file L src/TransitionSystems/location_tree.rs
@file I src/TransitionSystems/location_id.rs
@file D src/TransitionSystems/transition_id.rs
@file U src/EdgeEval/updater.rs
@file Z src/System/specifics.rs
@file O src/System/save_component.rs
@file R src/TransitionSystems/transition_system.rs
@file S src/ModelObjects/state.rs
@subst . map ( | comp | comp as TransitionSystemPtr ) =>> 
@subst as TransitionSystemPtr =>> 
@subst Box < dyn ExecutableQuery + 'a > =>> ExecQ < 'a >
@subst ( dyn ComponentLoader + 'static ) =>> Loader
@subst & 'a mut dyn ComponentLoader =>> & 'a mut Loader
@subst clock_reduction :: clock_reduce =>> clock_reduce
@subst pruning :: prune_system =>> prune_system
@subst refine :: check_refinement =>> check_refinement
@subst reachability :: find_specific_path =>> find_specific_path
@subst dyn ComponentLoader =>> Loader
@subst Expressions :: QueryExpression =>> QueryExpression
@mapfield clocks ints
@getmut
@addassign
@type A ArithExpression clone eq
@type B BoolExpression clone eq
@type C Declarations clone
@type P Update clone
@type E SyncType copy eq
@type E Edge clone
@type M LocationType copy eq
@type M Location clone
@type C Component clone
@type U CompiledUpdate clone
@type D TransitionID clone eq
@type I LocationID clone eq
@type Z SpecialLocation clone eq
@file Q src/System/query_failures.rs
@type Q SystemType copy eq
@type Z SpecificComp
@type Z SpecificLocation
@type L CompositionType copy eq
@type L LocationTree clone
@type T Transition clone
@type S State clone
@type V SystemExpression clone
@type N SystemRecipe clone
@type V SaveExpression clone
@type V QueryExpression clone
@type W Query
@type O PruningStrategy
@type Q QueryResult
@type Y RefinementExecutor
@type Y ReachabilityExecutor
@type Y ConsistencyExecutor
@type Y DeterminismExecutor
@type Y GetComponentExecutor
@include common.inc
@include sets.inc
@include fed.inc
@include arith.inc
@include upd.inc
@include trans.inc
@include ts.inc
@include recipe.inc
@include query.inc
@import recipe N get_system_recipe
@import recipe N SystemRecipe::compile
@import recipe N SystemRecipe::compile_with_index
@fn I LocationID::is_partial_location -> r
    ensures r == partial(*self)
    decreases self
@end
@fn C Component::remake_edge_ids
    requires old(self).edges@.len() <= usize::MAX
    ensures final(self).name == old(self).name, final(self).declarations == old(self).declarations, final(self).locations == old(self).locations, final(self).special_id == old(self).special_id, same_edges(old(self).edges@, final(self).edges@)
@loops 1
@loop 0
    invariant self.name == o.name, self.declarations == o.declarations, self.locations == o.locations, self.special_id == o.special_id, same_edges(o.edges@, self.edges@), __vx_n1 <= self.edges@.len(), __vx_i1 == __vx_n1
    decreases self.edges@.len() - __vx_n1
@hint start
    let ghost o = *self;
@end
@fn W Query::get_query -> r
    ensures *r == self.query
@end
@fn N create_executable_query -> r
@subst Box :: new =>> ExecQ :: of
    requires query_ok(*full_query, old(component_loader).lib())
    ensures r is Ok ==> full_query.query is Some,
        r is Ok && full_query.query->0 is Refinement ==> executes(full_query.query->0, old(component_loader).lib(), old(component_loader).reducing(), r->Ok_0),
        r is Ok && full_query.query->0 is Reachability ==> executes(full_query.query->0, old(component_loader).lib(), old(component_loader).reducing(), r->Ok_0),
        r is Ok && full_query.query->0 is Consistency ==> executes(full_query.query->0, old(component_loader).lib(), old(component_loader).reducing(), r->Ok_0),
        r is Ok && full_query.query->0 is Determinism ==> executes(full_query.query->0, old(component_loader).lib(), old(component_loader).reducing(), r->Ok_0),
        r is Ok && full_query.query->0 is GetComponent ==> executes(full_query.query->0, old(component_loader).lib(), old(component_loader).reducing(), r->Ok_0),
        r is Ok && full_query.query->0 is Prune ==> executes(full_query.query->0, old(component_loader).lib(), old(component_loader).reducing(), r->Ok_0),
        r is Ok ==> !(full_query.query->0 is Implementation || full_query.query->0 is Specification || full_query.query->0 is BisimMinim),
        r is Err && full_query.query is Some && !old(component_loader).reducing() ==> refused(full_query.query->0, old(component_loader).lib())
@attr verifier::spinoff_prover
@hint start
    broadcast use lemma_size;
    let ghost l0 = component_loader.lib(); let ghost on = component_loader.reducing();
@end
@fn R TransitionSystem::precheck_sys_rep -> r
@selfas TransitionSystemPtr
    ensures r is Ok <==> self.deterministic() && self.consistent()
@end
@fn Y RefinementExecutor@ExecutableQuery::execute -> r
    ensures r == QueryResult::Refinement(refines(self.sys1, self.sys2))
@end
@fn Y ReachabilityExecutor@ExecutableQuery::execute -> r
    ensures r == QueryResult::Reachability(reaches(self.start_state, self.end_state, self.transition_system))
@end
@fn Y ConsistencyExecutor@ExecutableQuery::execute -> r
    ensures r is Consistency, r->Consistency_0 is Ok <==> self.system.deterministic() && self.system.consistent()
@end
@fn Y DeterminismExecutor@ExecutableQuery::execute -> r
    ensures r is Determinism, r->Determinism_0 is Ok <==> self.system.deterministic()
@end
@fn Y GetComponentExecutor@ExecutableQuery::execute -> r
    ensures r is GetComponent, saved(r->GetComponent_0, self.system, self.comp_name)
@end
