/// assumed: the message types prost generates from the protocol (the repository's build does it; its source is not there)
pub struct ProtoState { pub location_tree: Option<ProtoLocationTree>, pub zone: Option<ProtoDisjunction> }
pub struct ProtoDecision { pub source: Option<ProtoState>, pub action: String, pub edges: Vec<ProtoEdge>, pub destination: Option<ProtoState> }
pub struct ProtoEdge { pub id: String, pub component_instance: Option<ProtoSpecificComponent> }
pub struct ProtoPath { pub decisions: Vec<ProtoDecision> }
pub struct ReachabilityPath { pub path: Option<ProtoPath> }
pub struct ProtoDisjunction { pub conjunctions: Vec<ProtoConjunction> }
pub struct ProtoConjunction { pub constraints: Vec<ProtoConstraint> }
pub struct ProtoConstraint { pub x: Option<ProtoClock>, pub y: Option<ProtoClock>, pub strict: bool, pub c: i32 }
pub struct ProtoClock { pub clock: Option<ProtoClockEnum> }
pub struct ProtoZeroClock { }
pub struct ProtoSystemClock { pub clock_index: u32 }
pub struct ProtoComponentClock { pub component_instance: Option<ProtoSpecificComponent>, pub clock_name: String }
pub enum ProtoClockEnum { ComponentClock(ProtoComponentClock), SystemClock(ProtoSystemClock), ZeroClock(ProtoZeroClock) }
pub struct ProtoSpecificComponent { pub component_name: String, pub component_index: u32 }
pub struct ProtoLocationTree { pub node_type: Option<NodeType> }
pub enum NodeType { LeafLocation(LeafLocation), BinaryLocationOp(Box<BinaryLocationOperator>), SpecialLocation(i32) }
pub struct LeafLocation { pub id: String, pub component_instance: Option<ProtoSpecificComponent> }
pub struct BinaryLocationOperator { pub left: Option<Box<ProtoLocationTree>>, pub right: Option<Box<ProtoLocationTree>>, pub operator: i32 }
pub enum Operator { Conjunction, Composition, Quotient, Refinement }
impl BinaryLocationOperator { #[verifier::external_body] pub fn operator(&self) -> (r: Operator) ensures r == op_of(self.operator) { unimplemented!() } }
pub open spec fn op_of(k: i32) -> Operator { if k == 1 { Operator::Composition } else if k == 2 { Operator::Quotient } else if k == 3 { Operator::Refinement } else { Operator::Conjunction } }
impl ProtoZeroClock { pub fn default() -> ProtoZeroClock { ProtoZeroClock { } } }
#[verifier::external_body] pub fn vx_u32(x: usize) -> (r: u32) requires x <= u32::MAX ensures r == x { unimplemented!() }
#[verifier::external_body] pub fn vx_usize(x: u32) -> (r: usize) ensures r == x { unimplemented!() }
pub type SL = SpecificLocation;
/// the messages for locations, components and constraints, and what they mean
pub open spec fn comp_msg(c: SpecificComp, p: ProtoSpecificComponent) -> bool { p.component_name == c.name && p.component_index == c.id }
pub open spec fn loc_msg(l: SL, p: ProtoLocationTree) -> bool decreases l {
    match (l, p.node_type) {
        (SL::BranchLocation(a, b, op), Some(NodeType::BinaryLocationOp(q))) => q.left is Some && q.right is Some && loc_msg(*a, *q.left->0) && loc_msg(*b, *q.right->0)
            && (match op_of(q.operator) { Operator::Conjunction => op == SystemType::Conjunction, Operator::Composition => op == SystemType::Composition, Operator::Quotient => op == SystemType::Quotient, Operator::Refinement => op == SystemType::Refinement }),
        (SL::ComponentLocation { comp, location_id }, Some(NodeType::LeafLocation(f))) => f.id == location_id && f.component_instance is Some && comp_msg(comp, f.component_instance->0),
        (SL::SpecialLocation(SpecialLocation::Universal), Some(NodeType::SpecialLocation(k))) => k == 0,
        (SL::SpecialLocation(SpecialLocation::Error), Some(NodeType::SpecialLocation(k))) => k == 1,
        _ => false,
    }
}
/// no branch is a component
pub open spec fn branches(l: SL) -> bool decreases l { match l { SL::BranchLocation(a, b, op) => op != SystemType::Simple && branches(*a) && branches(*b), _ => true } }
/// a message of some location
pub open spec fn is_loc(p: ProtoLocationTree) -> bool { exists|l: SL| loc_msg(l, p) }
pub open spec fn clock_msg(c: SpecificClockVar, p: ProtoClock) -> bool {
    match (c, p.clock) {
        (SpecificClockVar::Zero, Some(ProtoClockEnum::ZeroClock(_))) => true,
        (SpecificClockVar::ComponentClock(k), Some(ProtoClockEnum::ComponentClock(q))) => q.clock_name == k.name && q.component_instance is Some && comp_msg(k.comp, q.component_instance->0),
        (SpecificClockVar::SystemClock(i), Some(ProtoClockEnum::SystemClock(q))) => q.clock_index == i,
        _ => false,
    }
}
pub open spec fn fits_u32(c: SpecificClockVar) -> bool { match c { SpecificClockVar::SystemClock(i) => i <= u32::MAX, _ => true } }
pub open spec fn con_msg(c: SpecificConstraint, p: ProtoConstraint) -> bool { p.x is Some && p.y is Some && clock_msg(c.i, p.x->0) && clock_msg(c.j, p.y->0) && p.strict == c.strict && p.c == c.c }
pub open spec fn conj_msg(c: SpecificConjunction, p: ProtoConjunction) -> bool { p.constraints@.len() == c.constraints@.len() && forall|i: int| 0 <= i < c.constraints@.len() ==> con_msg(#[trigger] c.constraints@[i], p.constraints@[i]) }
pub open spec fn disj_msg(c: SpecificDisjunction, p: ProtoDisjunction) -> bool { p.conjunctions@.len() == c.conjunctions@.len() && forall|i: int| 0 <= i < c.conjunctions@.len() ==> conj_msg(#[trigger] c.conjunctions@[i], p.conjunctions@[i]) }
pub open spec fn con_fits(c: SpecificConstraint) -> bool { fits_u32(c.i) && fits_u32(c.j) }
pub open spec fn conj_fits(c: SpecificConjunction) -> bool { forall|i: int| 0 <= i < c.constraints@.len() ==> con_fits(#[trigger] c.constraints@[i]) }
pub open spec fn disj_fits(c: SpecificDisjunction) -> bool { forall|i: int| 0 <= i < c.conjunctions@.len() ==> conj_fits(#[trigger] c.conjunctions@[i]) }
/// `.into()` is the conversion of the type
impl SpecificLocation { #[verifier::external_body] pub fn vx_into(self) -> (r: ProtoLocationTree) requires branches(self) ensures loc_msg(self, r) { unimplemented!() } }
impl ProtoLocationTree { #[verifier::external_body] pub fn vx_into(self) -> (r: SpecificLocation) requires is_loc(self) ensures loc_msg(r, self) { unimplemented!() } }
impl SpecificComp { #[verifier::external_body] pub fn vx_into(self) -> (r: ProtoSpecificComponent) ensures comp_msg(self, r) { unimplemented!() } }
impl ProtoSpecificComponent { #[verifier::external_body] pub fn vx_into(self) -> (r: SpecificComp) ensures comp_msg(r, self) { unimplemented!() } }
impl SpecificDisjunction { #[verifier::external_body] pub fn vx_into(self) -> (r: ProtoDisjunction) requires disj_fits(self) ensures disj_msg(self, r) { unimplemented!() } }
impl SpecificConjunction { #[verifier::external_body] pub fn vx_into(self) -> (r: ProtoConjunction) requires conj_fits(self) ensures conj_msg(self, r) { unimplemented!() } }
impl SpecificConstraint { #[verifier::external_body] pub fn vx_into(self) -> (r: ProtoConstraint) requires con_fits(self) ensures con_msg(self, r) { unimplemented!() } }
impl SpecificClockVar { #[verifier::external_body] pub fn vx_into(self) -> (r: ProtoClock) requires fits_u32(self) ensures clock_msg(self, r) { unimplemented!() } }
impl SpecificClock { #[verifier::external_body] pub fn vx_into(self) -> (r: ProtoComponentClock) ensures r.clock_name == self.name, r.component_instance is Some, comp_msg(self.comp, r.component_instance->0) { unimplemented!() } }
/// what a message means is one location only
pub proof fn lemma_loc_msg(a: SL, b: SL, p: ProtoLocationTree)
    requires loc_msg(a, p), loc_msg(b, p)
    ensures a == b
    decreases a
{
    match (a, b) {
        (SL::BranchLocation(a1, a2, _), SL::BranchLocation(b1, b2, _)) => { let q = p.node_type->0->BinaryLocationOp_0; lemma_loc_msg(*a1, *b1, *q.left->0); lemma_loc_msg(*a2, *b2, *q.right->0); }
        _ => {}
    }
}
pub proof fn lemma_is_loc(p: ProtoLocationTree)
    requires is_loc(p)
    ensures p.node_type is Some, p.node_type->0 is LeafLocation ==> p.node_type->0->LeafLocation_0.component_instance is Some,
        p.node_type->0 is BinaryLocationOp ==> ({ let q = p.node_type->0->BinaryLocationOp_0; q.left is Some && q.right is Some && is_loc(*q.left->0) && is_loc(*q.right->0) }),
        p.node_type->0 is SpecialLocation ==> (p.node_type->0->SpecialLocation_0 == 0 || p.node_type->0->SpecialLocation_0 == 1),
{
    let l = choose|l: SL| loc_msg(l, p);
    match l { SL::BranchLocation(a, b, op) => { let q = p.node_type->0->BinaryLocationOp_0; assert(loc_msg(*a, *q.left->0)); assert(loc_msg(*b, *q.right->0)); } _ => {} }
}
