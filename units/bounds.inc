/// EDBM bounds: the largest constants that clocks are compared with, from below and from above
#[verifier::external_body] pub struct Bounds { x: usize }
impl Bounds {
    pub uninterp spec fn lo(&self, k: int) -> int;
    pub uninterp spec fn up(&self, k: int) -> int;
    /// at least as large a constant for every clock
    pub open spec fn ge(&self, o: Bounds) -> bool { forall|k: int| #![trigger self.lo(k)] #![trigger self.up(k)] self.lo(k) >= o.lo(k) && self.up(k) >= o.up(k) }
    /// the constants m and -m of clock k are kept
    pub open spec fn keeps(&self, k: int, m: int) -> bool { self.lo(k) >= m && self.up(k) >= m }
    #[verifier::external_body] pub fn new(dim: usize) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn add_lower(&mut self, clock: ClockIndex, c: i32) ensures final(self).ge(*old(self)), final(self).lo(clock as int) >= c { unimplemented!() }
    #[verifier::external_body] pub fn add_upper(&mut self, clock: ClockIndex, c: i32) ensures final(self).ge(*old(self)), final(self).up(clock as int) >= c { unimplemented!() }
    #[verifier::external_body] pub fn add_bounds(&mut self, o: &Bounds) ensures *final(self) == bplus(*old(self), *o), final(self).ge(*old(self)), final(self).ge(*o) { unimplemented!() }
}
pub uninterp spec fn bplus(a: Bounds, b: Bounds) -> Bounds;
impl Clone for Bounds { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// EDBM's extrapolation with the maximal constants b
pub uninterp spec fn ext(f: OwnedFederation, b: Bounds) -> OwnedFederation;
impl OwnedFederation { #[verifier::external_body] pub fn extrapolate_max_bounds(self, b: &Bounds) -> (r: Self) ensures r == ext(self, *b), r.n() == self.n(), subset(self, r) { unimplemented!() } }
