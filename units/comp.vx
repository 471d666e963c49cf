@unit comp
@file U src/EdgeEval/updater.rs
@file T src/ModelObjects/transition.rs
@file S src/ModelObjects/state.rs
@file L src/TransitionSystems/location_tree.rs
@file I src/TransitionSystems/location_id.rs
@file D src/TransitionSystems/transition_id.rs
@file M src/ModelObjects/location.rs
@file Z src/System/specifics.rs
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file G src/EdgeEval/constraint_applyer.rs
@file C src/ModelObjects/component.rs
@file E src/ModelObjects/edge.rs
@file P src/DataReader/parse_edge.rs
@file X src/TransitionSystems/compiled_component.rs
@file R src/TransitionSystems/transition_system.rs
@subst self . inputs . clone ( ) =>> vx_set_clone ( & self . inputs )
@subst self . outputs . clone ( ) =>> vx_set_clone ( & self . outputs )
@subst inputs . clone ( ) =>> vx_set_clone ( & inputs )
@subst outputs . clone ( ) =>> vx_set_clone ( & outputs )
@setfn get_actions
@type A ArithExpression clone eq
@type B BoolExpression clone eq
@type C Declarations
@type P Update
@type E SyncType copy eq
@type E Edge
@type M Location
@type C Component
@type U CompiledUpdate clone
@type D TransitionID clone eq
@type I LocationID clone eq hash
@type Z SpecialLocation clone eq
@type M LocationType copy eq
@type L CompositionType copy eq
@type L LocationTree clone
@type T Transition clone
@type S State clone
@type X Action
@file W8 src/System/query_failures.rs
@type W8 SystemType copy eq
@type Z SpecificComp
@type Z SpecificLocation
@type X ComponentInfo
@type X CompiledComponent
@include common.inc
@include sets.inc
@include fed.inc
@include arith.inc
@include upd.inc
@include trans.inc
@include bounds.inc
@include cover.inc
@include offers.inc
@prelude
pub mod vxkey { use vstd::prelude::*; use super::LocationID;
pub broadcast axiom fn ax_loc_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<LocationID>();
pub broadcast group group_vx_key { ax_loc_key }
}
broadcast use {vxkey::group_vx_key};
#[verifier::external_body] pub struct ActionFailure { x: usize }
#[verifier::external_body] pub struct SystemRecipeFailure { x: usize }
impl ActionFailure {
    #[verifier::external_body] pub fn not_disjoint_IO(name: &String, i: HashSet<String>, o: HashSet<String>) -> (r: Result<(), Box<ActionFailure>>) ensures r is Err { unimplemented!() }
    #[verifier::external_body] pub fn to_simple_failure(self, name: &String) -> Box<SystemRecipeFailure> { unimplemented!() }
}
/// what compiling needs: unique location names, and edges between declared locations over declared clocks
pub open spec fn comp_ok(c: Component, n: int) -> bool {
    &&& forall|i: int| 0 <= i < c.edges@.len() ==> edge_ok(c, #[trigger] c.edges@[i], n) && one_loc(c, c.edges@[i].source_location)
    &&& forall|i: int| 0 <= i < c.locations@.len() ==> opt_ok((#[trigger] c.locations@[i]).invariant, c.declarations, n)
    &&& forall|i: int, j: int| 0 <= i < c.locations@.len() && 0 <= j < c.locations@.len() && (#[trigger] c.locations@[i]).id == (#[trigger] c.locations@[j]).id ==> i == j
}
/// the edges among the first k that leave the location
pub open spec fn leaving(es: Seq<Edge>, k: int, src: String) -> Seq<Edge> decreases k {
    if k <= 0 { Seq::empty() } else if es[k - 1].source_location == src { leaving(es, k - 1, src).push(es[k - 1]) } else { leaving(es, k - 1, src) }
}
/// one action-transition pair per edge, in order
pub open spec fn compiled_list(c: Component, es: Seq<Edge>, n: int, l: Seq<(String, Transition)>) -> bool {
    l.len() == es.len() && forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).0 == es[i].sync && edge_trans(c, es[i], n, l[i].1)
}
/// the transitions of the pairs with that action, in order
pub open spec fn with_action(l: Seq<(String, Transition)>, k: int, a: String) -> Seq<Transition> decreases k {
    if k <= 0 { Seq::empty() } else if l[k - 1].0 == a { with_action(l, k - 1, a).push(l[k - 1].1) } else { with_action(l, k - 1, a) }
}
pub open spec fn comp_of(x: CompiledComponent, c: Component, ins: Set<String>, outs: Set<String>, n: int) -> bool {
    &&& x.inputs@ == ins && x.outputs@ == outs && x.dim == n
    &&& forall|id: LocationID| #[trigger] x.locations@.contains_key(id) <==> exists|i: int| 0 <= i < c.locations@.len() && id == LocationID::Simple((#[trigger] c.locations@[i]).id)
    &&& forall|i: int| 0 <= i < c.locations@.len() ==> at_loc(c, #[trigger] c.locations@[i], n, x.locations@[LocationID::Simple(c.locations@[i].id)])
    &&& forall|i: int| 0 <= i < c.locations@.len() ==> x.location_edges@.contains_key(LocationID::Simple((#[trigger] c.locations@[i]).id)) && compiled_list(c, leaving(c.edges@, c.edges@.len() as int, c.locations@[i].id), n, x.location_edges@[LocationID::Simple(c.locations@[i].id)]@)
    &&& x.comp_info.name == c.name && x.comp_info.declarations == c.declarations
    &&& (x.initial_location is Some <==> exists|i: int| 0 <= i < c.locations@.len() && (#[trigger] c.locations@[i]).location_type is Initial)
    &&& (x.initial_location is Some ==> x.initial_location->0.loc_type is Initial && exists|i: int| 0 <= i < c.locations@.len() && x.initial_location->0 == x.locations@[LocationID::Simple((#[trigger] c.locations@[i]).id)])
}
pub open spec fn stay(t: Transition, l: LocationTree, n: int) -> bool {
    t.id is None && t.target_locations == l && t.updates@.len() == 0 && t.guard_zone.n() == n && forall|v: Val| vok(v, n) ==> #[trigger] t.guard_zone.has(v)
}
pub open spec fn loc_map(c: Component, k: int, n: int, m: Map<LocationID, LocationTree>) -> bool {
    &&& forall|id: LocationID| #[trigger] m.contains_key(id) <==> exists|i: int| 0 <= i < k && id == LocationID::Simple((#[trigger] c.locations@[i]).id)
    &&& forall|i: int| 0 <= i < k ==> at_loc(c, #[trigger] c.locations@[i], n, m[LocationID::Simple(c.locations@[i].id)])
}
pub proof fn lemma_loc_step(c: Component, k: int, n: int, m: Map<LocationID, LocationTree>, m2: Map<LocationID, LocationTree>, t: LocationTree)
    requires comp_ok(c, n), 0 <= k < c.locations@.len(), loc_map(c, k, n, m), at_loc(c, c.locations@[k], n, t), m2 == m.insert(LocationID::Simple(c.locations@[k].id), t)
    ensures loc_map(c, k + 1, n, m2)
{
    let key = LocationID::Simple(c.locations@[k].id);
    assert forall|id: LocationID| #[trigger] m2.contains_key(id) implies exists|i: int| 0 <= i < k + 1 && id == LocationID::Simple((#[trigger] c.locations@[i]).id) by {
        if id != key { assert(m.contains_key(id)); let i = choose|i: int| 0 <= i < k && id == LocationID::Simple((#[trigger] c.locations@[i]).id); assert(id == LocationID::Simple(c.locations@[i].id)); }
    }
    assert forall|id: LocationID| (exists|i: int| 0 <= i < k + 1 && id == LocationID::Simple((#[trigger] c.locations@[i]).id)) implies #[trigger] m2.contains_key(id) by {
        let i = choose|i: int| 0 <= i < k + 1 && id == LocationID::Simple((#[trigger] c.locations@[i]).id); if i < k { assert(m.contains_key(id)); }
    }
}
pub open spec fn edge_map(c: Component, k: int, n: int, m: Map<LocationID, Vec<(String, Transition)>>) -> bool {
    forall|i: int| 0 <= i < c.locations@.len() ==> m.contains_key(LocationID::Simple((#[trigger] c.locations@[i]).id)) && compiled_list(c, leaving(c.edges@, k, c.locations@[i].id), n, m[LocationID::Simple(c.locations@[i].id)]@)
}
pub open spec fn found_init(r: Option<&LocationTree>, s: Seq<&LocationTree>, k: int, x: Set<LocationTree>) -> bool {
    (r is None ==> forall|i: int| 0 <= i < k ==> !((#[trigger] s[i]).loc_type is Initial)) && (r is Some ==> r->0.loc_type is Initial && x.contains(*r->0))
}
pub open spec fn offered(c: Component, t: SyncType, s: Set<String>) -> bool { forall|a: String| #![trigger s.contains(a)] #![trigger offers(c, t, a)] s.contains(a) <==> offers(c, t, a) }
/// what the component does at a location on an action
pub open spec fn does(x: CompiledComponent, l: LocationTree, a: String, r: Seq<Transition>) -> bool {
    if l.loc_type is Universal || l.loc_type is Inconsistent && x.inputs@.contains(a) { r.len() == 1 && stay(r[0], l, x.dim as int) }
    else { r == with_action(x.location_edges@[l.id]@, x.location_edges@[l.id]@.len() as int, a) }
}
pub open spec fn can_step(x: CompiledComponent, l: LocationTree, a: String) -> bool { x.dim > 0 && (l.loc_type is Universal || l.loc_type is Inconsistent && x.inputs@.contains(a) || x.location_edges@.contains_key(l.id)) }
pub proof fn lemma_comp_plain(c: Component, n: int) requires comp_ok(c, n) ensures plain_comp(c) {
    assert forall|i: int| 0 <= i < c.edges@.len() implies opt_plain((#[trigger] c.edges@[i]).guard, c.declarations) by { let e = c.edges@[i]; assert(edge_ok(c, e, n)); if e.guard is Some { lemma_plain(e.guard->0, c.declarations, n); } }
    assert forall|i: int| 0 <= i < c.locations@.len() implies opt_plain((#[trigger] c.locations@[i]).invariant, c.declarations) by { let l = c.locations@[i]; assert(opt_ok(l.invariant, c.declarations, n)); if l.invariant is Some { lemma_plain(l.invariant->0, c.declarations, n); } }
}
@endprelude
@import transition C Component@DeclarationProvider::get_declarations
@import transition T Transition::without_id
@import transition T Transition::from_component_and_edge
@import transition L LocationTree::simple
@import transition S State::from_location
@import bounds C Component::get_max_bounds
@fn L LocationTree::is_initial -> r
    ensures r <==> self.loc_type is Initial
@fn L LocationTree::is_universal -> r
    ensures r <==> self.loc_type is Universal
@fn L LocationTree::is_inconsistent -> r
    ensures r <==> self.loc_type is Inconsistent
@fn C Component::get_specific_actions -> r
    ensures r@.no_duplicates(), forall|a: String| r@.contains(a) <==> a@ != "*"@ && exists|i: int| 0 <= i < self.edges@.len() && (#[trigger] self.edges@[i]).sync == a && self.edges@[i].sync_type == sync_type
@attr verifier::loop_isolation(false)
@loops 1
@loop 0
    invariant it0.seq().len() == self.edges@.len(), forall|i: int| 0 <= i < self.edges@.len() ==> *#[trigger] it0.seq()[i] == self.edges@[i],
        forall|a: String| __vx_out1@.contains(a) <==> a@ != "*"@ && exists|i: int| 0 <= i < it0.index@ && (#[trigger] self.edges@[i]).sync == a && self.edges@[i].sync_type == sync_type
@fn C Component::get_input_actions -> r
    ensures seq_offers(r@, *self, SyncType::Input)
@fn C Component::get_output_actions -> r
    ensures seq_offers(r@, *self, SyncType::Output)
@getmut
@fn R TransitionSystem::next_transitions_if_available -> r
    requires self.inputs@.union(self.outputs@).contains(mk(action@)) ==> can_step(*self, *location, mk(action@))
    ensures self.inputs@.union(self.outputs@).contains(mk(action@)) ==> does(*self, *location, mk(action@), r@), !self.inputs@.union(self.outputs@).contains(mk(action@)) ==> r@.len() == 0
@selfas CompiledComponent
@fn X CompiledComponent::compile_with_actions -> r
    requires dim > 0, comp_ok(component, dim as int)
    ensures r is Ok <==> inputs@.disjoint(outputs@), r is Ok ==> comp_covered(r->Ok_0.comp_info.max_bounds, component) && r->Ok_0.comp_info.id == id && comp_of(*r->Ok_0, component, inputs@, outputs@, dim as int)
@attr verifier::loop_isolation(false)
@loops 4
@hint start
    proof { lemma_comp_plain(component, dim as int); }
    let ghost ls = component.locations@; let ghost n = dim as int; let ghost es = component.edges@;
@loop 0
    invariant it0.seq().len() == ls.len(), forall|i: int| 0 <= i < ls.len() ==> *#[trigger] it0.seq()[i] == ls[i], loc_map(component, it0.index@ as int, n, __vx_out1@)
@hint loop 0 end
    proof { lemma_loc_step(component, it0.index@ as int, n, __vx_o, __vx_out1@, __vx_v0); }
@hint loop 0 start
    let ghost __vx_o = __vx_out1@;
@hint before "__vx_out1 . insert"
    let ghost __vx_v0 = __vx_v;
@loop 1
    invariant lists(it1.seq(), locations@.dom()), forall|i: int| 0 <= i < it1.index@ ==> __vx_out2@.contains_key(*#[trigger] it1.seq()[i]), forall|k: LocationID| #[trigger] __vx_out2@.contains_key(k) ==> locations@.contains_key(k) && __vx_out2@[k]@.len() == 0
@hint loop 2 before
    assert forall|i: int| 0 <= i < ls.len() implies location_edges@.contains_key(LocationID::Simple((#[trigger] ls[i]).id)) by { assert(locations@.contains_key(LocationID::Simple(ls[i].id))); assert(locations@.dom().contains(LocationID::Simple(ls[i].id))); }
@hint before "let max_bounds"
    assert(initial_location is Some ==> exists|i: int| 0 <= i < ls.len() && initial_location->0 == locations@[LocationID::Simple((#[trigger] ls[i]).id)]) by {
        if initial_location is Some {
            let k = choose|k: LocationID| #[trigger] locations@.contains_key(k) && locations@[k] == initial_location->0;
            let i = choose|i: int| 0 <= i < ls.len() && k == LocationID::Simple((#[trigger] ls[i]).id);
            assert(initial_location->0 == locations@[LocationID::Simple(ls[i].id)]);
        }
    }
    assert forall|i: int| 0 <= i < ls.len() && (#[trigger] ls[i]).location_type is Initial implies initial_location is Some by {
        let k = LocationID::Simple(ls[i].id); assert(locations@.contains_key(k)); assert(locations@.values().contains(locations@[k]));
    }
@loop 2
    invariant it2.seq().len() == es.len(), forall|i: int| 0 <= i < es.len() ==> *#[trigger] it2.seq()[i] == es[i], edge_map(component, it2.index@ as int, n, location_edges@)
@loop 3
    invariant lists(it3.seq(), locations@.values()), found_init(__vx_r1, it3.seq(), it3.index@ as int, locations@.values())
@fn X CompiledComponent::compile -> r
    requires dim > 0, comp_ok(component, dim as int), *old(component_index) < u32::MAX
    ensures *final(component_index) == *old(component_index) + 1, r is Ok <==> !exists|a: String| #[trigger] offers(component, SyncType::Input, a) && offers(component, SyncType::Output, a),
        r is Ok ==> comp_covered(r->Ok_0.comp_info.max_bounds, component) && comp_of(*r->Ok_0, component, r->Ok_0.inputs@, r->Ok_0.outputs@, dim as int) && offered(component, SyncType::Input, r->Ok_0.inputs@) && offered(component, SyncType::Output, r->Ok_0.outputs@) && r->Ok_0.comp_info.id == *old(component_index)
@attr verifier::loop_isolation(false)
@hint start
    let ghost c0 = component;
@hint before "let index"
    assert(offered(c0, SyncType::Input, inputs@)); assert(offered(c0, SyncType::Output, outputs@));
    proof { if !inputs@.disjoint(outputs@) { let a = choose|a: String| inputs@.contains(a) && outputs@.contains(a); assert(offers(c0, SyncType::Input, a)); } }
@loops 2
@loop 0
    invariant seq_offers(it0.seq(), component, SyncType::Input), forall|a: String| #[trigger] __vx_out1@.contains(a) <==> exists|i: int| 0 <= i < it0.index@ && #[trigger] it0.seq()[i] == a
@loop 1
    invariant seq_offers(it1.seq(), component, SyncType::Output), forall|a: String| #[trigger] __vx_out2@.contains(a) <==> exists|i: int| 0 <= i < it1.index@ && #[trigger] it1.seq()[i] == a
@fn X CompiledComponent@TransitionSystem::get_initial_location -> r
    ensures r == self.initial_location
@fn X CompiledComponent@TransitionSystem::get_location -> r
    ensures r == (if self.locations@.contains_key(*id) { Some(self.locations@[*id]) } else { None::<LocationTree> })
@fn X CompiledComponent@TransitionSystem::get_all_locations -> r
    ensures forall|t: LocationTree| #![trigger r@.contains(t)] #![trigger self.locations@.values().contains(t)] r@.contains(t) <==> self.locations@.values().contains(t)
@attr verifier::loop_isolation(false)
@loops 1
@loop 0
    invariant lists(it0.seq(), self.locations@.values()), forall|t: LocationTree| #[trigger] __vx_out1@.contains(t) <==> exists|i: int| 0 <= i < it0.index@ && *#[trigger] it0.seq()[i] == t
@fn X CompiledComponent@TransitionSystem::get_initial_state -> r
    requires self.dim > 0, self.initial_location is Some ==> loc_ok(self.initial_location->0, self.dim as int)
    ensures
        r is Some <==> self.initial_location is Some && exists|v: Val| vok(v, self.dim as int) && #[trigger] all_same(v) && inv_has(self.initial_location->0, v),
        r is Some ==> r->0.decorated_locations == self.initial_location->0 && st_ok(r->0, self.dim as int)
            && forall|v: Val| vok(v, self.dim as int) ==> (#[trigger] r->0.zone_sentinel->0.has(v) <==> all_same(v) && inv_has(self.initial_location->0, v)),
@fn X CompiledComponent@TransitionSystem::get_composition_type -> r
    ensures r is Simple
@fn X CompiledComponent@TransitionSystem::get_dim -> r
    ensures r == self.dim
@fn X CompiledComponent@TransitionSystem::get_input_actions -> r
    ensures r@ == self.inputs@
@fn X CompiledComponent@TransitionSystem::get_output_actions -> r
    ensures r@ == self.outputs@
@fn X CompiledComponent@TransitionSystem::get_actions -> r
    ensures r@ == self.inputs@.union(self.outputs@)
@fn R TransitionSystem::actions_contain -> r
    ensures r <==> self.inputs@.union(self.outputs@).contains(mk(action@))
@selfas CompiledComponent
@fn R TransitionSystem::inputs_contain -> r
    ensures r <==> self.inputs@.contains(mk(action@))
@selfas CompiledComponent
@fn X CompiledComponent@TransitionSystem::next_transitions -> r
    requires self.inputs@.union(self.outputs@).contains(mk(action@)), can_step(*self, *locations, mk(action@))
    ensures does(*self, *locations, mk(action@), r@)
@attr verifier::loop_isolation(false)
@loops 1
@loop 0
    invariant it0.seq().len() == edges@.len(), forall|i: int| 0 <= i < edges@.len() ==> *#[trigger] it0.seq()[i] == edges@[i], transitions@ == with_action(edges@, it0.index@ as int, mk(action@))
@import transition L LocationTree::get_invariants
@fn X CompiledComponent@TransitionSystem::get_local_max_bounds -> r
    ensures !(loc.loc_type is Universal && loc.invariant is None) ==> r == self.comp_info.max_bounds
@fn X CompiledComponent@TransitionSystem::construct_location_tree -> r
    requires target is ComponentLocation, target->comp.name == self.comp_info.name
    ensures
        r is Ok ==> self.locations@.values().contains(r->Ok_0) && r->Ok_0.id == LocationID::Simple(target->location_id),
        r is Err ==> forall|t: LocationTree| self.locations@.values().contains(t) ==> (#[trigger] t.id) != LocationID::Simple(target->location_id),
@attr verifier::loop_isolation(false)
@loops 1
@loop 0
    invariant forall|t: LocationTree| #[trigger] it0.seq().contains(t) <==> self.locations@.values().contains(t), __vx_r1 is Some ==> self.locations@.values().contains(__vx_r1->0) && __vx_r1->0.id == want,
        __vx_r1 is None ==> forall|t: LocationTree| #[trigger] self.locations@.values().contains(t) ==> t.id != want || exists|i: int| it0.index@ <= i < it0.seq().len() && #[trigger] it0.seq()[i] == t,
@hint start
    let ghost want = LocationID::Simple(target->location_id);
@hint loop 0 start
    proof { assert(it0.seq().contains(it0.seq()[it0.index@])); }
@end
