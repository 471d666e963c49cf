//! valuations with half-integer resolution, as twice their value; index 0 is the constant 0
use crate::Rng;
use edbm::util::constraints::{Conjunction, Constraint, Disjunction, Inequality, RawInequality};
use edbm::zones::OwnedFederation;
pub type Val = Vec<i64>;
pub fn rand_val(r: &mut Rng, dim: usize, max: i32) -> Val { (0..dim).map(|i| if i == 0 { 0 } else { r.below(2 * max as usize + 2) as i64 }).collect() }
/// membership, decided from the constraints the federation itself reports
pub fn has(f: &OwnedFederation, v: &[i64]) -> bool {
    f.minimal_constraints().conjunctions.iter().any(|c| c.constraints.iter().all(|k| { let d = v[k.i] - v[k.j]; let b = 2 * k.ineq().bound() as i64; if k.ineq().is_strict() { d < b } else { d <= b } }))
}
pub fn rand_fed(r: &mut Rng, dim: usize, max: i32) -> OwnedFederation {
    let n = r.below(3) + usize::from(!r.chance(1, 10));
    let cs = (0..n).map(|_| Conjunction::new((0..r.below(4)).map(|_| { let i = r.below(dim); let j = r.below(dim); let b = r.int(-max, max); Constraint::new(i, j, RawInequality::from_inequality(&if r.chance(1, 3) { Inequality::LS(b) } else { Inequality::LE(b) })) }).filter(|k| k.i != k.j).collect())).collect();
    OwnedFederation::from_disjunction(&Disjunction::new(cs), dim)
}
/// all points of a grid of half-integers up to max, used for set comparison by membership
pub fn grid(dim: usize, max: i32) -> Vec<Val> {
    let mut out: Vec<Val> = vec![vec![0]];
    for _ in 1..dim { out = out.into_iter().flat_map(|v| (0..=2 * max as i64 + 1).map(move |x| { let mut w = v.clone(); w.push(x); w })).collect(); }
    out
}
