@unit simul
@file Z src/System/specifics.rs
@file Q src/System/query_failures.rs
@file V src/ProtobufServer/proto_conversions.rs
@subst . into ( ) =>> . vx_into ( )
@subst Default :: default ( ) =>> ProtoZeroClock :: default ( )
@subst u32 :: try_from ( clock_index ) . expect ( "Could not fit clock index in u32" ) =>> vx_u32 ( clock_index )
@type Z SpecialLocation clone eq
@type Q SystemType copy eq
@type Z SpecificComp clone eq
@type Z SpecificLocation
@type Z SpecificClock clone
@type Z SpecificClockVar
@type Z SpecificConstraint
@type Z SpecificConjunction
@type Z SpecificDisjunction
@type Z SpecificState
@type Z SpecificEdge
@type Z SpecificDecision
@type Z SpecificPath
@include common.inc
@prelude
pub type ClockIndex = usize;
@endprelude
@include proto.inc
@include msg.inc
@fn V ProtoState@From<SpecificState>::from -> r
    requires branches(state.locations), disj_fits(state.constraints)
    ensures r.location_tree is Some, r.zone is Some, loc_msg(state.locations, r.location_tree->0), disj_msg(state.constraints, r.zone->0)
@fn V LocationTree@From<SpecificLocation>::from -> r
@selfas ProtoLocationTree
@subst LocationTree =>> ProtoLocationTree
    requires branches(loc)
    ensures loc_msg(loc, r)
@fn V SpecificLocation@From<LocationTree>::from -> r
@subst LocationTree =>> ProtoLocationTree
    requires is_loc(loc)
    ensures loc_msg(r, loc)
@hint start
    proof { lemma_is_loc(loc); }
@fn V ProtoSpecificComponent@From<SpecificComp>::from -> r
    ensures comp_msg(comp, r)
@fn V SpecificComp@From<ProtoSpecificComponent>::from -> r
    ensures comp_msg(r, comp)
@fn V ProtoDisjunction@From<SpecificDisjunction>::from -> r
    requires disj_fits(disj)
    ensures disj_msg(disj, r)
@attr verifier::loop_isolation(false)
@loops 1
@loop 0
    invariant it0.seq() == all, all == disj.conjunctions@, __vx_out1@.len() == it0.index@, forall|i: int| 0 <= i < it0.index@ ==> conj_msg(#[trigger] all[i], __vx_out1@[i]),
@hint start
    let ghost all = disj.conjunctions@;
@hint loop 0 start
    proof { assert(conj_fits(all[it0.index@])); }
@fn V ProtoConjunction@From<SpecificConjunction>::from -> r
    requires conj_fits(conj)
    ensures conj_msg(conj, r)
@attr verifier::loop_isolation(false)
@loops 1
@loop 0
    invariant it0.seq() == all, all == conj.constraints@, __vx_out1@.len() == it0.index@, forall|i: int| 0 <= i < it0.index@ ==> con_msg(#[trigger] all[i], __vx_out1@[i]),
@hint start
    let ghost all = conj.constraints@;
@hint loop 0 start
    proof { assert(con_fits(all[it0.index@])); }
@fn V ProtoConstraint@From<SpecificConstraint>::from -> r
    requires con_fits(constraint)
    ensures con_msg(constraint, r)
@fn V ProtoClock@From<SpecificClockVar>::from -> r
    requires fits_u32(clock)
    ensures clock_msg(clock, r)
@fn V ProtoComponentClock@From<SpecificClock>::from -> r
    ensures r.clock_name == clock.name, r.component_instance is Some, comp_msg(clock.comp, r.component_instance->0)
@fn V ReachabilityPath@From<SpecificPath>::from -> r
    requires forall|i: int| 0 <= i < path.path@.len() ==> dec_fits(#[trigger] path.path@[i])
    ensures r.path is Some, r.path->0.decisions@.len() == path.path@.len(), forall|i: int| 0 <= i < path.path@.len() ==> dec_msg(#[trigger] path.path@[i], r.path->0.decisions@[i])
@attr verifier::loop_isolation(false)
@loops 1
@loop 0
    invariant it0.seq() == all, all == path.path@, __vx_out1@.len() == it0.index@, forall|i: int| 0 <= i < it0.index@ ==> dec_msg(#[trigger] all[i], __vx_out1@[i]),
@hint start
    let ghost all = path.path@;
@hint loop 0 start
    proof { assert(dec_fits(all[it0.index@])); }
@fn V Decision@From<SpecificDecision>::from -> r
@selfas ProtoDecision
    requires dec_fits(decision)
    ensures dec_msg(decision, r)
@attr verifier::loop_isolation(false)
@loops 1
@loop 0
    invariant it0.seq() == all, all == decision.edges@, __vx_out1@.len() == it0.index@, forall|i: int| 0 <= i < it0.index@ ==> edge_msg(#[trigger] all[i], __vx_out1@[i]),
@hint start
    let ghost all = decision.edges@;
@fn V Edge@From<SpecificEdge>::from -> r
@selfas ProtoEdge
    ensures edge_msg(edge, r)
@end
