impl TransitionSystemPtr {
    /// the constants the system keeps at a location
    pub uninterp spec fn bounds(&self, l: LocationTree) -> Bounds;
    #[verifier::external_body] pub fn get_local_max_bounds(&self, loc: &LocationTree) -> (r: Bounds) ensures r == self.bounds(*loc) { unimplemented!() }
}
