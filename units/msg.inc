pub open spec fn state_fits(s: SpecificState) -> bool { branches(s.locations) && disj_fits(s.constraints) }
pub open spec fn state_msg(s: SpecificState, p: ProtoState) -> bool { p.location_tree is Some && p.zone is Some && loc_msg(s.locations, p.location_tree->0) && disj_msg(s.constraints, p.zone->0) }
pub open spec fn edge_msg(e: SpecificEdge, p: ProtoEdge) -> bool { p.id == e.edge_id && p.component_instance is Some && comp_msg(e.comp, p.component_instance->0) }
pub open spec fn dec_fits(d: SpecificDecision) -> bool { state_fits(d.source_state) && state_fits(d.destination_state) }
pub open spec fn dec_msg(d: SpecificDecision, p: ProtoDecision) -> bool {
    p.source is Some && p.destination is Some && state_msg(d.source_state, p.source->0) && state_msg(d.destination_state, p.destination->0) && p.action == d.action
        && p.edges@.len() == d.edges@.len() && forall|i: int| 0 <= i < d.edges@.len() ==> edge_msg(#[trigger] d.edges@[i], p.edges@[i])
}
impl SpecificState { #[verifier::external_body] pub fn vx_into(self) -> (r: ProtoState) requires state_fits(self) ensures state_msg(self, r) { unimplemented!() } }
impl SpecificEdge { #[verifier::external_body] pub fn vx_into(self) -> (r: ProtoEdge) ensures edge_msg(self, r) { unimplemented!() } }
impl SpecificDecision { #[verifier::external_body] pub fn vx_into(self) -> (r: ProtoDecision) requires dec_fits(self) ensures dec_msg(self, r) { unimplemented!() } }
