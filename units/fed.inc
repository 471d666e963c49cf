pub type ClockIndex = usize;
#[derive(Clone, Copy)]
pub enum Inequality { LS(i32), LE(i32) }
/// a clock valuation: index 0 is the constant 0, clocks are not negative
pub type Val = Seq<real>;
pub open spec fn vok(v: Val, n: int) -> bool { v.len() == n && n > 0 && v[0] == 0real && forall|i: int| 0 <= i < n ==> #[trigger] v[i] >= 0real }
pub open spec fn holds(d: real, q: Inequality) -> bool { match q { Inequality::LE(c) => d <= (c as int) as real, Inequality::LS(c) => d < (c as int) as real } }
/// EDBM federation: a set of valuations of a fixed dimension
#[verifier::external_body] pub struct OwnedFederation { x: usize }
impl OwnedFederation {
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn has(&self, v: Val) -> bool;
    #[verifier::external_body] pub fn dim(&self) -> (r: usize) ensures r == self.n(), r > 0 { unimplemented!() }
    #[verifier::external_body] pub fn universe(dim: usize) -> (r: Self) ensures r.n() == dim, forall|v: Val| vok(v, dim as int) ==> #[trigger] r.has(v) { unimplemented!() }
    #[verifier::external_body] pub fn empty(dim: usize) -> (r: Self) ensures r.n() == dim, forall|v: Val| vok(v, dim as int) ==> !#[trigger] r.has(v) { unimplemented!() }
    #[verifier::external_body] pub fn zero(dim: usize) -> (r: Self) ensures r.n() == dim, forall|v: Val| vok(v, dim as int) ==> (#[trigger] r.has(v) <==> is_zero(v)) { unimplemented!() }
    #[verifier::external_body] pub fn init(dim: usize) -> (r: Self) ensures r.n() == dim, forall|v: Val| vok(v, dim as int) ==> (#[trigger] r.has(v) <==> all_same(v)) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r <==> none(*self) { unimplemented!() }
    #[verifier::external_body] pub fn set_empty(self) -> (r: Self) ensures r.n() == self.n(), forall|v: Val| vok(v, self.n()) ==> !#[trigger] r.has(v) { unimplemented!() }
    #[verifier::external_body] pub fn intersection(self, o: &Self) -> (r: Self) requires self.n() == o.n(), ensures r.n() == self.n(), forall|v: Val| vok(v, self.n()) ==> (#[trigger] r.has(v) <==> self.has(v) && o.has(v)) { unimplemented!() }
    #[verifier::external_body] pub fn has_intersection(&self, o: &Self) -> (r: bool) requires self.n() == o.n(), ensures r <==> exists|v: Val| vok(v, self.n()) && #[trigger] self.has(v) && o.has(v) { unimplemented!() }
    #[verifier::external_body] pub fn union(self, o: &Self) -> (r: Self) requires self.n() == o.n(), ensures r.n() == self.n(), forall|v: Val| vok(v, self.n()) ==> (#[trigger] r.has(v) <==> self.has(v) || o.has(v)) { unimplemented!() }
    #[verifier::external_body] pub fn subtraction(self, o: &Self) -> (r: Self) requires self.n() == o.n(), ensures r.n() == self.n(), forall|v: Val| vok(v, self.n()) ==> (#[trigger] r.has(v) <==> self.has(v) && !o.has(v)) { unimplemented!() }
    #[verifier::external_body] pub fn inverse(self) -> (r: Self) ensures r.n() == self.n(), forall|v: Val| vok(v, self.n()) ==> (#[trigger] r.has(v) <==> !self.has(v)) { unimplemented!() }
    #[verifier::external_body] pub fn subset_eq(&self, o: &Self) -> (r: bool) requires self.n() == o.n(), ensures r <==> subset(*self, *o) { unimplemented!() }
    #[verifier::external_body] pub fn equals(&self, o: &Self) -> (r: bool) requires self.n() == o.n(), ensures r <==> subset(*self, *o) && subset(*o, *self) { unimplemented!() }
    #[verifier::external_body] pub fn constrain(self, i: ClockIndex, j: ClockIndex, q: Inequality) -> (r: Self) requires i < self.n(), j < self.n(), ensures r.n() == self.n(), forall|v: Val| vok(v, self.n()) ==> (#[trigger] r.has(v) <==> self.has(v) && holds(v[i as int] - v[j as int], q)) { unimplemented!() }
    #[verifier::external_body] pub fn constrain_eq(self, i: ClockIndex, c: i32) -> (r: Self) requires 0 < i < self.n(), ensures r.n() == self.n(), forall|v: Val| vok(v, self.n()) ==> (#[trigger] r.has(v) <==> self.has(v) && v[i as int] == (c as int) as real) { unimplemented!() }
    #[verifier::external_body] pub fn update_clock_val(self, i: ClockIndex, c: i32) -> (r: Self) requires 0 < i < self.n(), c >= 0, ensures r.n() == self.n(), forall|v: Val| vok(v, self.n()) ==> (#[trigger] r.has(v) <==> v[i as int] == (c as int) as real && exists|x: real| x >= 0real && self.has(#[trigger] v.update(i as int, x))) { unimplemented!() }
    #[verifier::external_body] pub fn free_clock(self, i: ClockIndex) -> (r: Self) requires 0 < i < self.n(), ensures r.n() == self.n(), forall|v: Val| vok(v, self.n()) ==> (#[trigger] r.has(v) <==> exists|x: real| x >= 0real && self.has(#[trigger] v.update(i as int, x))) { unimplemented!() }
    #[verifier::external_body] pub fn up(self) -> (r: Self) ensures r.n() == self.n(), forall|v: Val| vok(v, self.n()) ==> (#[trigger] r.has(v) <==> exists|d: real| d >= 0real && vok(#[trigger] back(v, d), self.n()) && self.has(back(v, d))), forall|v: Val, d: real| d >= 0real && vok(v, self.n()) && vok(back(v, d), self.n()) && #[trigger] self.has(back(v, d)) ==> r.has(v) { unimplemented!() }
    #[verifier::external_body] pub fn down(self) -> (r: Self) ensures r.n() == self.n(), forall|v: Val| vok(v, self.n()) ==> (#[trigger] r.has(v) <==> exists|d: real| d >= 0real && self.has(#[trigger] shift(v, d))) { unimplemented!() }
    #[verifier::external_body] pub fn expensive_reduce(self) -> (r: Self) ensures r.n() == self.n(), forall|v: Val| vok(v, self.n()) ==> (#[trigger] r.has(v) <==> self.has(v)) { unimplemented!() }
    /// every member can delay forever
    pub uninterp spec fn unbounded(&self) -> bool;
    #[verifier::external_body] pub fn can_delay_indefinitely(&self) -> (r: bool) ensures r == self.unbounded() { unimplemented!() }
}
pub open spec fn is_zero(v: Val) -> bool { forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == 0real }
pub open spec fn all_same(v: Val) -> bool { forall|i: int, j: int| 1 <= i < v.len() && 1 <= j < v.len() ==> #[trigger] v[i] == #[trigger] v[j] }
pub open spec fn none(f: OwnedFederation) -> bool { forall|v: Val| vok(v, f.n()) ==> !#[trigger] f.has(v) }
pub open spec fn subset(a: OwnedFederation, b: OwnedFederation) -> bool { forall|v: Val| vok(v, a.n()) && #[trigger] a.has(v) ==> b.has(v) }
pub open spec fn shift(v: Val, d: real) -> Val { Seq::new(v.len(), |i: int| if i == 0 { 0real } else { v[i] + d }) }
pub open spec fn back(v: Val, d: real) -> Val { shift(v, -d) }
impl Clone for OwnedFederation { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl vstd::std_specs::ops::AddSpecImpl for OwnedFederation {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: OwnedFederation) -> bool { self.n() == o.n() }
    uninterp spec fn add_spec(self, o: OwnedFederation) -> OwnedFederation;
}
impl std::ops::Add for OwnedFederation { type Output = OwnedFederation;
    #[verifier::external_body] fn add(self, o: OwnedFederation) -> (r: OwnedFederation) ensures r.n() == self.n(), forall|v: Val| vok(v, self.n()) ==> (#[trigger] r.has(v) <==> self.has(v) || o.has(v)) { unimplemented!() } }
impl vstd::std_specs::ops::NotSpecImpl for OwnedFederation {
    open spec fn obeys_not_spec() -> bool { false }
    open spec fn not_req(self) -> bool { true }
    uninterp spec fn not_spec(self) -> OwnedFederation;
}
impl std::ops::Not for OwnedFederation { type Output = OwnedFederation;
    #[verifier::external_body] fn not(self) -> (r: OwnedFederation) ensures r.n() == self.n(), forall|v: Val| vok(v, self.n()) ==> (#[trigger] r.has(v) <==> !self.has(v)) { unimplemented!() } }
