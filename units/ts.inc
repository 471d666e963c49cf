/// Box<dyn TransitionSystem>, as its users see it: alphabets, dimension, locations, transitions
#[verifier::external_body] pub struct TransitionSystemPtr { x: usize }
#[verifier::external_body] pub struct ActionFailure { x: usize }
#[verifier::external_body] pub struct SystemRecipeFailure { x: usize }
#[verifier::external_body] pub struct ConsistencyFailure { x: usize }
#[verifier::external_body] pub struct DeterminismFailure { x: usize }
pub type ConsistencyResult = Result<(), ConsistencyFailure>;
pub type DeterminismResult = Result<(), DeterminismFailure>;
impl Clone for TransitionSystemPtr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl TransitionSystemPtr {
    pub uninterp spec fn ins(&self) -> Set<String>;
    pub uninterp spec fn outs(&self) -> Set<String>;
    pub uninterp spec fn n(&self) -> int;
    /// a location of this system
    pub uninterp spec fn at(&self, l: LocationTree) -> bool;
    pub uninterp spec fn trans(&self, l: LocationTree, a: String) -> Seq<Transition>;
    pub uninterp spec fn init(&self) -> Option<LocationTree>;
    pub uninterp spec fn locs(&self) -> Seq<LocationTree>;
    pub uninterp spec fn deterministic(&self) -> bool;
    pub uninterp spec fn consistent(&self) -> bool;
    pub uninterp spec fn spec_loc(&self, s: SpecificLocation) -> Option<LocationTree>;
    pub open spec fn acts(&self) -> Set<String> { self.ins().union(self.outs()) }
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &Self) ensures *r == *self { unimplemented!() }
    #[verifier::external_body] pub fn get_dim(&self) -> (r: usize) ensures r == self.n(), r > 0 { unimplemented!() }
    #[verifier::external_body] pub fn get_input_actions(&self) -> (r: HashSet<String>) ensures r@ == self.ins(), self.ins().disjoint(self.outs()) { unimplemented!() }
    #[verifier::external_body] pub fn get_output_actions(&self) -> (r: HashSet<String>) ensures r@ == self.outs(), self.ins().disjoint(self.outs()) { unimplemented!() }
    #[verifier::external_body] pub fn get_actions(&self) -> (r: HashSet<String>) ensures r@ == self.acts(), self.ins().disjoint(self.outs()) { unimplemented!() }
    #[verifier::external_body] pub fn next_transitions(&self, location: &LocationTree, action: &str) -> (r: Vec<Transition>) requires self.at(*location), self.acts().contains(mk(action@)) ensures r@ == self.trans(*location, mk(action@)), ts_step(*self, *location, r@) { unimplemented!() }
    #[verifier::external_body] pub fn get_initial_location(&self) -> (r: Option<LocationTree>) ensures r == self.init(), r is Some ==> self.at(r->0) && loc_ok(r->0, self.n()) { unimplemented!() }
    #[verifier::external_body] pub fn get_all_locations(&self) -> (r: Vec<LocationTree>) ensures r@ == self.locs(), forall|i: int| 0 <= i < r@.len() ==> self.at(#[trigger] r@[i]) && loc_ok(r@[i], self.n()) { unimplemented!() }
    #[verifier::external_body] pub fn check_determinism(&self) -> (r: DeterminismResult) ensures r is Ok <==> self.deterministic() { unimplemented!() }
    #[verifier::external_body] pub fn check_local_consistency(&self) -> (r: ConsistencyResult) ensures r is Ok <==> self.consistent() { unimplemented!() }
    #[verifier::external_body] pub fn construct_location_tree(&self, target: SpecificLocation) -> (r: Result<LocationTree, String>) ensures r is Ok <==> self.spec_loc(target) is Some, r is Ok ==> r->Ok_0 == self.spec_loc(target)->0 && self.at(r->Ok_0) && loc_ok(r->Ok_0, self.n()) { unimplemented!() }
}
/// what every implementation promises about the transitions it offers
pub open spec fn ts_step(t: TransitionSystemPtr, l: LocationTree, ts: Seq<Transition>) -> bool {
    forall|i: int| 0 <= i < ts.len() ==> tr_ok(#[trigger] ts[i], t.n()) && t.at(ts[i].target_locations)
}
