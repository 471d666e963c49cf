@unit serve
@addassign
@optthen
@file U src/EdgeEval/updater.rs
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file C src/ModelObjects/component.rs
@file E src/ModelObjects/edge.rs
@file M src/ModelObjects/location.rs
@file P src/DataReader/parse_edge.rs
@file N src/System/input_enabler.rs
@file T src/ModelObjects/transition.rs
@file S src/ModelObjects/state.rs
@file L src/TransitionSystems/location_tree.rs
@file I src/TransitionSystems/location_id.rs
@file D src/TransitionSystems/transition_id.rs
@file Y src/DataReader/component_loader.rs
@file Z src/System/specifics.rs
@file R src/ProtobufServer/ecdar_requests/request_util.rs
@file W src/DataReader/proto_reader.rs
@file Q src/ProtobufServer/ecdar_requests/send_query.rs
@file QF src/System/query_failures.rs
@file XS src/System/extract_system_rep.rs
@subst self . cache . lock ( ) . unwrap ( ) =>> self . vx_lock ( )
@subst input_enabler :: make_input_enabled =>> make_input_enabled
@subst json_reader :: json_to_component =>> json_to_component
@subst xml_parser :: parse_xml_from_str =>> parse_xml_from_str
@subst services :: component :: Rep =>> Rep
@subst tonic :: Status =>> Status
@subst services :: Component =>> ProtoComponent
@subst crate :: DataReader :: component_loader :: ComponentsMap =>> ComponentsMap
@subst . flat_map ( parse_components_if_some ) . flatten ( ) =>> . flat_map ( | p | vx_read ( p ) . into_iter ( ) )
@subst component . name . to_string ( ) =>> component . name . clone ( )
@subst error . into ( ) =>> error
@subst . into ( ) =>> . vx_into ( )
@subst impl Into < String > =>> String
@subst crate :: DEFAULT_SETTINGS =>> vx_default_settings ( )
@subst extract_system_rep :: create_executable_query =>> create_executable_query
@subst parse_queries :: parse_to_query =>> parse_to_query
@type A ArithExpression clone eq
@type B BoolExpression clone eq
@type C Declarations
@type P Update
@type E SyncType copy eq
@type E Edge
@type M LocationType copy eq
@type M Location
@type C Component
@type U CompiledUpdate clone
@type D TransitionID clone eq
@type I LocationID clone eq
@type Z SpecialLocation clone eq
@type L CompositionType copy eq
@type L LocationTree clone
@type T Transition clone
@type S State clone
@include common.inc
@include fed.inc
@include arith.inc
@include upd.inc
@include trans.inc
@include zone.inc
@include sets.inc
@include offers.inc
@include enable.inc
@prelude
use std::sync::Arc;
pub type ComponentsMap = HashMap<String, Component>;
@endprelude
@type Y ComponentContainer
@type Y ComponentTuple
@include serve.inc
@type QF QueryResult
@type XS ExecutableQueryError
@include answer.inc
@prelude
/// Result as an iterator: the components if the message can be read, none otherwise
pub fn vx_read(p: &ProtoComponent) -> (r: Vec<Component>) ensures r@ == legible(*p) { match parse_components_if_some(p) { Ok(v) => v, Err(_) => Vec::new() } }
@endprelude
@import enable N make_input_enabled
@import comp C Component::get_input_actions
@fn Y ComponentContainer::new -> r
    ensures *r.loaded_components == *map, r.settings is None
@fn Y ComponentContainer::set_settings
    ensures final(self).settings == Some(settings), final(self).loaded_components == old(self).loaded_components
@fn Y ComponentContainer@ComponentLoader::get_component -> r
@subst panic ! ( "The component '{}' could not be retrieved" , component_name ) ; =>> vx_panic ( )
    requires old(self).loaded_components@.contains_key(mk(component_name@)), forall|k: String| #[trigger] old(self).loaded_components@.contains_key(k) ==> old(self).loaded_components@[k].name == k
    ensures *r == old(self).loaded_components@[mk(component_name@)]
@fn Y parse_components_if_some -> r
    ensures r is Ok <==> brings(*proto_component) is Some, r is Ok ==> r->Ok_0@ == brings(*proto_component)->0
@fn Y parse_json_component -> r
    ensures r is Ok <==> json_means(json@) is Some, r is Ok ==> r->Ok_0@ == seq![json_means(json@)->0]
@fn Y parse_xml_components -> r
    ensures r@ == xml_means(xml@)
@fn Y ModelCache::get_model -> r
    ensures r is Some ==> honest(user_id, components_hash, r->0.loaded_components@), components_hash == 0 ==> r is None
@fn Y ModelCache::insert_model -> r
    requires components_hash != 0 ==> honest(user_id, components_hash, container_components@)
    ensures r.loaded_components@ == container_components@
@fn R constrtuct_componentsmap -> r
    requires comps_ok(components@)
    ensures loaded(components@, components@.len() as int, r@)
@attr verifier::loop_isolation(false)
@hint start
let ghost cs = components@;
proof { lemma_loaded0(cs, Map::empty()); }
@hint after "let inputs"
let ghost c0 = component; let ghost k = it0.index@ as int; let ghost m0 = comp_hashmap@;
@hint before "comp_hashmap.insert"
let ghost c1 = component; proof { lemma_same_name(c0, inputs@, c1); }
@hint loop 0 end
proof { assert(comp_hashmap@ == m0.insert(c0.name, c1)); lemma_loaded(cs, k, inputs@, c1, m0); }
@loop 0
    invariant it0.seq() == cs, comps_ok(cs), loaded(cs, it0.index@ as int, comp_hashmap@)
@fn R get_or_insert_model -> r
    requires comps_ok(comps_of(proto_components@)), brought(user_id, components_hash, proto_components@)
    ensures right_model(user_id, components_hash, proto_components@, r.loaded_components@), components_hash == 0 ==> model_of(proto_components@, r.loaded_components@)
@attr verifier::loop_isolation(false)
@loops 2
@loop 0
    invariant it0.seq().len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> *#[trigger] it0.seq()[i] == ps[i], __vx_out1@ == all_legible(ps, it0.index@ as int)
@loop 1
    invariant it1.seq() == legible(ps[it0.index@ as int]), __vx_out1@ == all_legible(ps, it0.index@ as int) + it1.seq().take(it1.index@ as int)
@hint loop 1 end
proof { let s = legible(ps[it0.index@ as int]); assert(__vx_out1@ =~= all_legible(ps, it0.index@ as int) + s.take(it1.index@ as int + 1)); }
@hint loop 0 end
proof { let s = legible(ps[it0.index@ as int]); assert(s.take(s.len() as int) =~= s); }
@hint start
let ghost ps = proto_components@;
@hint after "let components"
proof { if components_hash != 0 { lemma_honest(user_id, components_hash, ps, components@); } }
@fn W components_info_to_components -> r
    ensures r@ == comps_of(components_info.components@)
@attr verifier::loop_isolation(false)
@loops 2
@loop 0
    invariant it0.seq().len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> *#[trigger] it0.seq()[i] == ps[i], __vx_out1@ == all_legible(ps, it0.index@ as int)
@loop 1
    invariant it1.seq() == legible(ps[it0.index@ as int]), __vx_out1@ == all_legible(ps, it0.index@ as int) + it1.seq().take(it1.index@ as int)
@hint loop 1 end
proof { let s = legible(ps[it0.index@ as int]); assert(__vx_out1@ =~= all_legible(ps, it0.index@ as int) + s.take(it1.index@ as int + 1)); }
@hint loop 0 end
proof { let s = legible(ps[it0.index@ as int]); assert(s.take(s.len() as int) =~= s); }
@hint start
let ghost ps = components_info.components@;
@fn Q string_error -> r
    ensures r is Error, r->Error_0.error == error
@fn Q ProtobufResult@From<QueryResult>::from -> r
    ensures result_msg(result, r)
@fn Q ProtobufResult@From<SystemRecipeFailure>::from -> r
@name from_systemrecipe
    ensures r is Model, recipe_msg(fail, r->Model_0)
@fn Q ProtobufResult@From<DeterminismFailure>::from -> r
@name from_determinism
    ensures r is Determinism, determinism_msg(fail, r->Determinism_0)
@fn Q ProtobufResult@From<ConsistencyFailure>::from -> r
@name from_consistency
    ensures r is Consistency, consistency_msg(fail, r->Consistency_0)
@fn Q ProtobufResult@From<RefinementFailure>::from -> r
@name from_refinement
    ensures r is Refinement, refinement_msg(fail, r->Refinement_0)
@fn Q ProtobufResult@From<PathFailure>::from -> r
@name from_path
    ensures r is Reachability, reach_msg(fail, r->Reachability_0)
@fn Q parse_query -> r
    ensures r is Ok <==> queries_of(query_request.query@).len() == 1, r is Ok ==> r->Ok_0 == queries_of(query_request.query@)[0]
@fn Q ConcreteEcdarBackend::handle_send_query -> r
    requires query_request.components_info is Some, comps_ok(comps_of(query_request.components_info->0.components@)), brought(query_request.user_id, query_request.components_info->0.components_hash, query_request.components_info->0.components@)
    ensures queries_of(query_request.query@).len() != 1 ==> r is Err,
        queries_of(query_request.query@).len() == 1 ==> exists|m: Map<String, Component>| #[trigger] right_model(query_request.user_id, query_request.components_info->0.components_hash, query_request.components_info->0.components@, m)
            && answers(prepared(m, asked(query_request.settings), queries_of(query_request.query@)[0]), query_request.query_id, r)
@hint after "let query"
proof { assert(queries_of(query_request.query@).len() == 1); }
@end
