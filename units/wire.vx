@unit wire
@file U src/EdgeEval/updater.rs
@file T src/ModelObjects/transition.rs
@file L src/TransitionSystems/location_tree.rs
@file I src/TransitionSystems/location_id.rs
@file D src/TransitionSystems/transition_id.rs
@file M src/ModelObjects/location.rs
@file Z src/System/specifics.rs
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file C src/ModelObjects/component.rs
@file E src/ModelObjects/edge.rs
@file P src/DataReader/parse_edge.rs
@file S src/ModelObjects/state.rs
@file O src/ModelObjects/statepair.rs
@file W src/System/query_failures.rs
@file X src/TransitionSystems/compiled_component.rs
@file Y src/TransitionSystems/transition_system.rs
@file F src/Simulation/decision.rs
@file H src/System/reachability.rs
@file R src/DataReader/proto_reader.rs
@subst sys . comp_infos ( ) . iter ( ) =>> vx_leaves ( sys . comp_infos ( ) ) . into_iter ( )
@subst infos . iter ( ) =>> vx_leaves ( infos ) . into_iter ( )
@subst comp . declarations . clocks . iter ( ) =>> vx_pairs ( & comp . declarations . clocks ) . into_iter ( )
@subst map . extend ( specific_clock_comp_map ( sys2 ) ) =>> let map2 = specific_clock_comp_map ( sys2 ) ; vx_extend ( & mut map , map2 )
@subst sc . clock_index . try_into ( ) . unwrap ( ) =>> vx_usize ( sc . clock_index )
@subst location_tree . into ( ) =>> location_tree . vx_into ( )
@subst & * * l =>> l
@subst & * * r =>> r
@type A ArithExpression clone eq
@type B BoolExpression clone eq
@type C Declarations
@type P Update
@type E SyncType copy eq
@type E Edge
@type M LocationType copy eq
@type M Location
@type C Component
@type U CompiledUpdate clone
@type D TransitionID clone eq
@type I LocationID clone eq
@type Z SpecialLocation clone eq
@type W SystemType copy eq
@type Z SpecificComp clone eq
@type Z SpecificLocation
@type Z SpecificClock clone
@type Z SpecificClockVar
@type Z SpecificConstraint
@type Z SpecificConjunction
@type Z SpecificDisjunction
@type Z SpecificState
@type Z SpecificEdge
@type Z SpecificDecision
@type Z SpecificPath
@type L CompositionType copy eq
@type L LocationTree clone
@type T Transition clone
@type S State clone
@type O StatePair
@type X ComponentInfo
@type Y ComponentInfoTree
@type F Decision
@type H Path
@include common.inc
@include sets.inc
@include fed.inc
@include arith.inc
@include upd.inc
@include bounds.inc
@include trans.inc
@include ts.inc
@include zone.inc
@include proto.inc
@include wire.inc
@import transition S State::new
@import transition S State::zone_ref
@import lists O StatePair::ref_zone
@import transition L LocationTree::apply_invariants
@import transition C Declarations::get_clock_index_by_name
@fn Y ComponentInfoTree::split -> r
    requires self is Composition
    ensures r.0 == *self->Composition_0, r.1 == *self->Composition_1
@fn Y ComponentInfoTree::info -> r
    requires self is Info
    ensures *r == *self->Info_0
@fn Z SpecificComp::new -> r
    ensures r.name == name, r.id == id
@fn Z SpecificClock::new -> r
    ensures r.name == name, r.comp == comp
@fn Z SpecificEdge::new -> r
@subst impl Into < String > =>> String
@subst component_name . into ( ) =>> component_name
@subst edge_id . into ( ) =>> edge_id
    ensures r.comp.name == component_name, r.comp.id == component_id, r.edge_id == edge_id
@fn Z specific_location~inner -> r
    requires shaped(*location_id, tree(infos))
    ensures r == place(*location_id, tree(infos))
    decreases *location_id
@fn Z specific_location -> r
    requires shaped(*location_id, sys.infos())
    ensures r == place(*location_id, sys.infos())
@fn Z state_specific_location -> r
    requires shaped(state.decorated_locations.id, sys.infos())
    ensures r == place(state.decorated_locations.id, sys.infos())
@fn Z state_pair_specific_location -> r
    requires shaped(state.locations1.id, sys1.infos()), shaped(state.locations2.id, sys2.infos())
    ensures r == SpecificLocation::BranchLocation(Box::new(place(state.locations1.id, sys1.infos())), Box::new(place(state.locations2.id, sys2.infos())), SystemType::Refinement)
@fn Z specific_clock_comp_map -> r
@collect 0 HashMap<ClockIndex,SpecificClock>
    ensures clock_map(r@, leaves(sys.infos()), leaves(sys.infos()).len() as int)
@attr verifier::loop_isolation(false)
@loops 2
@loop 0
    invariant it0.seq().len() == ls.len(), forall|i: int| 0 <= i < ls.len() ==> *#[trigger] it0.seq()[i] == ls[i], clock_map(__vx_out1@, ls, it0.index@),
@loop 1
    invariant pairs_of(it1.seq(), ls[it0.index@].declarations.clocks@), forall|i: usize| #[trigger] __vx_out1@.contains_key(i) ==> says_clock(__vx_out1@[i], i, ls),
        forall|k: int, x: String| 0 <= k < it0.index@ && #[trigger] ls[k].declarations.clocks@.contains_key(x) ==> __vx_out1@.contains_key(ls[k].declarations.clocks@[x]),
        forall|i: int| 0 <= i < it1.index@ ==> __vx_out1@.contains_key(*(#[trigger] it1.seq()[i]).1),
@hint start
    let ghost ls = leaves(sys.infos());
@hint loop 1 start
    let ghost m0 = __vx_out1@;
@hint loop 1 end
    proof { let p = it1.seq()[it1.index@]; assert(clock_in(ls[it0.index@], __vx_out1@[*p.1].comp, *p.0, *p.1)); }
@fn Z specific_clock_comp_map_composite -> r
    ensures clock_map(r@, leaves(sys1.infos()) + leaves(sys2.infos()), (leaves(sys1.infos()) + leaves(sys2.infos())).len() as int)
@hint before "vx_extend"
    proof { lemma_two(map@, map2@, leaves(sys1.infos()), leaves(sys2.infos())); }
@fn Z SpecificConstraint::from_constraint~map_clock -> r
    ensures r == var_for(clock, sys@)
@fn Z SpecificConstraint::from_constraint -> r
    ensures con_names(r, constraint, sys@)
@fn Z SpecificConjunction::from_conjunction -> r
    ensures conj_names(r, conj, sys@)
@attr verifier::loop_isolation(false)
@loops 1
@loop 0
    invariant it0.seq() == all, all == conj.constraints@, __vx_out1@.len() == it0.index@, forall|i: int| 0 <= i < it0.index@ ==> con_names(__vx_out1@[i], #[trigger] all[i], sys@),
@hint start
    let ghost all = conj.constraints@;
@fn Z SpecificDisjunction::from_disjunction -> r
    ensures disj_names(r, disj, sys@)
@attr verifier::loop_isolation(false)
@loops 1
@loop 0
    invariant it0.seq() == all, all == disj.conjunctions@, __vx_out1@.len() == it0.index@, forall|i: int| 0 <= i < it0.index@ ==> conj_names(__vx_out1@[i], #[trigger] all[i], sys@),
@hint start
    let ghost all = disj.conjunctions@;
@fn Z SpecificState::from_state -> r
    requires sendable(*state, *sys)
    ensures sent(r, *state, *sys)
@fn Z SpecificState::from_state_pair -> r
    requires state.zone_sentinel is Some, shaped(state.locations1.id, sys1.infos()), shaped(state.locations2.id, sys2.infos())
    ensures
        r.locations == SpecificLocation::BranchLocation(Box::new(place(state.locations1.id, sys1.infos())), Box::new(place(state.locations2.id, sys2.infos())), SystemType::Refinement),
        told(r.constraints, state.zone_sentinel->0, leaves(sys1.infos()) + leaves(sys2.infos())),
@fn Z transition_id_to_specific_edges
    requires id_fits(id, *system)
    ensures final(edges)@ == old(edges)@ + edges_of(id, *system)
    decreases id
@attr verifier::loop_isolation(false)
@loops 2
@loop 0
    invariant it0.seq() == lefts0@, id0 is Quotient, edges@ == e0 + edges_all(lefts0, it0.index@ as int, system.left()),
@loop 1
    invariant it1.seq() == rights0@, id0 is Quotient, edges@ == e0 + edges_all(lefts0, lefts0@.len() as int, system.left()) + edges_all(rights0, it1.index@ as int, system.right()),
@hint start
    let ghost e0 = edges@; let ghost lefts0 = id->Quotient_0; let ghost rights0 = id->Quotient_1; let ghost id0 = id;
    proof { reveal_with_fuel(edges_of, 2); reveal_with_fuel(edges_all, 2); reveal_with_fuel(id_fits, 2); }
@fn Z SpecificDecision::from_decision -> r
    requires dec_ok(*decision, *system)
    ensures dec_sent(r, *decision, *system)
@fn Z SpecificPath::from_path -> r
    requires forall|i: int| 0 <= i < path.path@.len() ==> dec_ok(#[trigger] path.path@[i], *system)
    ensures r.path@.len() == path.path@.len(), forall|i: int| 0 <= i < path.path@.len() ==> dec_sent(r.path@[i], #[trigger] path.path@[i], *system)
@attr verifier::loop_isolation(false)
@loops 1
@loop 0
    invariant it0.seq().len() == path.path@.len(), forall|i: int| 0 <= i < path.path@.len() ==> *#[trigger] it0.seq()[i] == path.path@[i], __vx_out1@.len() == it0.index@, forall|i: int| 0 <= i < it0.index@ ==> dec_sent(__vx_out1@[i], #[trigger] path.path@[i], *system),
@fn R proto_location_tree_to_location_tree -> r
    requires is_loc(location_tree), forall|l: SL| #[trigger] loc_msg(l, location_tree) ==> system.spec_loc(l) is Some
    ensures forall|l: SL| #[trigger] loc_msg(l, location_tree) ==> system.spec_loc(l) == Some(r), loc_ok(r, system.n()), system.at(r)
@hint start
    let ghost lt = location_tree;
@hint after "let target"
    proof { assert forall|l: SL| #[trigger] loc_msg(l, lt) implies l == target by { lemma_loc_msg(l, target, lt); } }
@fn R proto_constraint_to_constraint~determine_index -> r
    requires exists|ls: Seq<ComponentInfo>, i: usize| #[trigger] pv(clock, i, ls) && given(map@, ls)
    ensures forall|ls: Seq<ComponentInfo>, i: usize| #[trigger] pv(clock, i, ls) && given(map@, ls) ==> r == i
@fn R proto_constraint_to_constraint -> r
    requires exists|ls: Seq<ComponentInfo>, q: Constraint| #[trigger] con_says(proto_constraint, q, ls) && given(map@, ls)
    ensures forall|ls: Seq<ComponentInfo>, q: Constraint| #[trigger] con_says(proto_constraint, q, ls) && given(map@, ls) ==> same_con(r, q)
@fn R proto_zone_to_owned_federation -> r
    requires zone_says(proto_zone, system.n(), leaves(system.infos())), distinct(leaves(system.infos()))
    ensures r.n() == system.n(), forall|q: Disjunction, v: Val| #[trigger] disj_says(proto_zone, q, leaves(system.infos())) && vok(v, r.n()) ==> (#[trigger] r.has(v) <==> dj(q, v))
@attr verifier::loop_isolation(false)
@loops 3
@loop 0
    invariant it0.seq().len() == ls.len(), forall|i: int| 0 <= i < ls.len() ==> *#[trigger] it0.seq()[i] == ls[i], id_map(__vx_out1@, ls, it0.index@),
@loop 1
    invariant it1.seq() == pd.conjunctions@, __vx_out3@.len() == it1.index@, forall|i: int| 0 <= i < it1.index@ ==> same_conj(__vx_out3@[i], #[trigger] q0.conjunctions@[i]),
@loop 2
    invariant it2.seq() == pd.conjunctions@[it1.index@].constraints@, __vx_out2@.len() == it2.index@, forall|i: int| 0 <= i < it2.index@ ==> same_con(__vx_out2@[i], #[trigger] q0.conjunctions@[it1.index@].constraints@[i]),
@hint start
    let ghost pd = proto_zone; let ghost ls = leaves(system.infos()); let ghost q0 = choose|q: Disjunction| #[trigger] disj_says(proto_zone, q, ls) && dj_ok(q, system.n());
@hint loop 1 start
    proof { assert(conj_says(pd.conjunctions@[it1.index@], q0.conjunctions@[it1.index@], ls)); }
@hint loop 2 start
    proof { let q = q0.conjunctions@[it1.index@].constraints@[it2.index@]; assert(con_says(pd.conjunctions@[it1.index@].constraints@[it2.index@], q, ls)); }
@hint after "let disj"
    proof {
        lemma_dj_same(disj, q0, system.n());
        assert forall|q: Disjunction, v: Val| #[trigger] disj_says(pd, q, ls) && #[trigger] dj(disj, v) implies dj(q, v) by { lemma_unique(pd, q, q0, ls); lemma_dj_same(q, q0, system.n()); }
        assert forall|q: Disjunction, v: Val| #[trigger] disj_says(pd, q, ls) && #[trigger] dj(q, v) implies dj(disj, v) by { lemma_unique(pd, q, q0, ls); lemma_dj_same(q, q0, system.n()); }
    }
@fn R proto_state_to_state -> r
    requires readable(state, *system)
    ensures read(r, state, *system)
@fn R proto_decision_to_decision -> r
    requires proto_decision.source is Some, proto_decision.destination is Some, readable(proto_decision.source->0, *system), readable(proto_decision.destination->0, *system), proto_decision.action@.len() > 0
    ensures read(r.state, proto_decision.source->0, *system), read(r.next_state, proto_decision.destination->0, *system), r.action == proto_decision.action, r.transition is None
@fn Y TransitionSystem::comp_infos -> r
    requires !(self.kind() is Simple)
    ensures tree(r) == IT::Node(Box::new(self.left().infos()), Box::new(self.right().infos()))
@selfas TransitionSystemPtr
@name comp_infos_of_both
@end
