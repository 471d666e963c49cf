/// the default methods of the trait, as proved for each implementation
impl TransitionSystemPtr {
    #[verifier::external_body] pub fn actions_contain(&self, action: &str) -> (r: bool) ensures r <==> self.acts().contains(mk(action@)) { unimplemented!() }
    #[verifier::external_body] pub fn inputs_contain(&self, action: &str) -> (r: bool) ensures r <==> self.ins().contains(mk(action@)) { unimplemented!() }
    #[verifier::external_body] pub fn outputs_contain(&self, action: &str) -> (r: bool) ensures r <==> self.outs().contains(mk(action@)) { unimplemented!() }
    #[verifier::external_body] pub fn next_transitions_if_available(&self, location: &LocationTree, action: &str) -> (r: Vec<Transition>) requires self.at(*location) ensures self.acts().contains(mk(action@)) ==> r@ == self.trans(*location, mk(action@)), !self.acts().contains(mk(action@)) ==> r@.len() == 0, ts_step(*self, *location, r@) { unimplemented!() }
    #[verifier::external_body] pub fn precheck_sys_rep(&self) -> (r: ConsistencyResult) ensures r is Ok <==> self.deterministic() && self.consistent() { unimplemented!() }
}
