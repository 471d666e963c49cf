@unit step
@optthen
@file U src/EdgeEval/updater.rs
@file T src/ModelObjects/transition.rs
@file L src/TransitionSystems/location_tree.rs
@file I src/TransitionSystems/location_id.rs
@file D src/TransitionSystems/transition_id.rs
@file M src/ModelObjects/location.rs
@file Z src/System/specifics.rs
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file C src/ModelObjects/component.rs
@file E src/ModelObjects/edge.rs
@file P src/DataReader/parse_edge.rs
@file S src/ModelObjects/state.rs
@file O src/ModelObjects/statepair.rs
@file W src/System/query_failures.rs
@file X src/TransitionSystems/compiled_component.rs
@file Y src/TransitionSystems/transition_system.rs
@file F src/Simulation/decision.rs
@file H src/System/reachability.rs
@file R src/DataReader/proto_reader.rs
@file SR src/ProtobufServer/ecdar_requests/simulation_requests.rs
@file RU src/ProtobufServer/ecdar_requests/request_util.rs
@file CL src/DataReader/component_loader.rs
@subst . into ( ) =>> . vx_into ( )
@subst & * transition_system =>> & transition_system
@subst . to_owned ( ) =>> . clone ( )
@subst & * system =>> & system
@type A ArithExpression clone eq
@type B BoolExpression clone eq
@type C Declarations
@type P Update
@type E SyncType copy eq
@type E Edge
@type M LocationType copy eq
@type M Location
@type C Component
@type U CompiledUpdate clone
@type D TransitionID clone eq
@type I LocationID clone eq
@type Z SpecialLocation clone eq
@type W SystemType copy eq
@type Z SpecificComp clone eq
@type Z SpecificLocation
@type Z SpecificClock clone
@type Z SpecificClockVar
@type Z SpecificConstraint
@type Z SpecificConjunction
@type Z SpecificDisjunction
@type Z SpecificState
@type Z SpecificEdge
@type Z SpecificDecision
@type Z SpecificPath
@type L CompositionType copy eq
@type L LocationTree clone
@type T Transition clone
@type S State clone
@type O StatePair
@type X ComponentInfo
@type Y ComponentInfoTree
@type F Decision
@include common.inc
@include sets.inc
@include fed.inc
@include arith.inc
@include upd.inc
@include bounds.inc
@include trans.inc
@include ts.inc
@include zone.inc
@include sysbounds.inc
@include consist.inc
@include decide.inc
@include proto.inc
@include wire.inc
@include msg.inc
@include offers.inc
@include enable.inc
@prelude
use std::sync::Arc;
impl PartialEq for LocationTree { fn eq(&self, o: &Self) -> (r: bool) { LocationTree::eq(self, o) } }
pub type ComponentsMap = HashMap<String, Component>;
@endprelude
@type CL ComponentContainer
@type CL ComponentTuple
@include serve.inc
@include step.inc
@import consist L LocationTree@PartialEq::eq
@import serve RU get_or_insert_model
@import wire Z SpecificState::from_state
@import wire Z SpecificDecision::from_decision
@import wire R proto_decision_to_decision
@import reach F Decision::get_initial_decisions
@import reach F Decision::resolve
@fn RU simulation_info_to_transition_system -> r
    requires info_ok(*simulation_info)
    ensures about(*simulation_info, r)
@fn SR ConcreteEcdarBackend::handle_start_simulation -> r
    requires request.simulation_info is Some, info_ok(request.simulation_info->0), forall|t: TransitionSystemPtr| #[trigger] about(request.simulation_info->0, t) ==> sys_ok(t)
    ensures r is Ok, starts(request.simulation_info->0, r->Ok_0)
@hint before "let decisions"
proof { lemma_first(transition_system); lemma_nothing(transition_system); reveal(initially); }
@loop 0
    invariant sys_ok(transition_system), initially(transition_system, it0.seq()), shown(__vx_out1@, it0.seq(), it0.index@ as int, transition_system),
        it0.index@ == it0.seq().len() ==> started(transition_system, __vx_out1@)
    ensures started(transition_system, __vx_out1@)
@hint loop 0 start
let ghost k = it0.index@ as int; let ghost o = __vx_out1@; proof { let ds = it0.seq(); lemma_initially(transition_system, ds); lemma_dec_fits_all(ds[k], transition_system); }
@hint loop 0 end
proof { let ds = it0.seq(); lemma_shown(o, ds, k, transition_system, __vx_out1@.last()); assert(__vx_out1@ =~= o.push(__vx_out1@.last())); lemma_started(transition_system, __vx_out1@, ds); }
@hint before "let full_state"
proof { lemma_start_fits(transition_system, state->0); }
@fn SR ConcreteEcdarBackend::handle_take_simulation_step -> r
    requires request.simulation_info is Some, info_ok(request.simulation_info->0), request.chosen_decision is Some,
        forall|t: TransitionSystemPtr| #[trigger] about(request.simulation_info->0, t) ==> sys_ok(t) && choice_ok(request.chosen_decision->0, t)
    ensures r is Ok, r->Ok_0.full_state == request.chosen_decision->0.destination, steps_on(request.simulation_info->0, request.chosen_decision->0, r->Ok_0)
@hint start
let ghost p = request.chosen_decision->0;
@hint after "let decision_points"
proof { reveal(follows); lemma_answered(system, p, Seq::<ProtoDecision>::empty(), decision_points@); }
@loop 0
    invariant sys_ok(system), system.acts().contains(p.action), follows(system, p, it0.seq()), shown(__vx_out1@, it0.seq(), it0.index@ as int, system),
        it0.index@ == it0.seq().len() ==> answered(system, p, __vx_out1@)
    ensures answered(system, p, __vx_out1@)
@hint loop 0 start
let ghost k = it0.index@ as int; let ghost o = __vx_out1@; proof { let ds = it0.seq(); lemma_follows(system, p, ds); lemma_dec_fits_all(ds[k], system); }
@hint loop 0 end
proof { let ds = it0.seq(); lemma_shown(o, ds, k, system, __vx_out1@.last()); assert(__vx_out1@ =~= o.push(__vx_out1@.last())); lemma_answered(system, p, __vx_out1@, ds); }
@end
