//! transitions over small zones, with an independent point-wise oracle. Points are in eighths.
use crate::{zones::*, Rng};
use edbm::zones::OwnedFederation;
use reveaal::EdgeEval::updater::CompiledUpdate;
use reveaal::ModelObjects::{Location, LocationType, Transition};
use reveaal::TransitionSystems::{LocationTree, TransitionID};
pub const S: i64 = 8;
/// membership of a point given in eighths
pub fn has8(f: &OwnedFederation, v: &[i64]) -> bool {
    f.minimal_constraints().conjunctions.iter().any(|c| c.constraints.iter().all(|k| { let d = v[k.i] - v[k.j]; let b = S * k.ineq().bound() as i64; if k.ineq().is_strict() { d < b } else { d <= b } }))
}
pub fn inv8(l: &LocationTree, v: &[i64]) -> bool { l.get_invariants().map(|f| has8(f, v)).unwrap_or(true) }
pub fn point(r: &mut Rng, dim: usize, max: i32) -> Vec<i64> { (0..dim).map(|i| if i == 0 { 0 } else { r.below(2 * max as usize + 2) as i64 * (S / 2) }).collect() }
pub fn upd8(us: &[CompiledUpdate], v: &[i64]) -> Vec<i64> { let mut w = v.to_vec(); for u in us { w[u.clock_index] = u.value as i64 * S; } w }
pub fn loc(id: &str, inv: Option<OwnedFederation>) -> LocationTree {
    let l = Location { id: id.into(), invariant: None, location_type: LocationType::Normal, urgency: "NORMAL".into() };
    let mut t = LocationTree::simple(&l, &reveaal::ModelObjects::Declarations::empty(), 2);
    t.invariant = inv;
    t
}
/// at most two distinct clocks are updated, so that the oracle below stays small; `dup` allows repeated updates of one clock
pub fn rand_updates(r: &mut Rng, dim: usize, max: i32) -> Vec<CompiledUpdate> {
    let cs: Vec<usize> = (0..2).map(|_| 1 + r.below(dim - 1)).collect();
    (0..r.below(4)).map(|_| CompiledUpdate { clock_index: *r.pick(&cs), value: r.int(0, max) }).collect()
}
pub fn rand_trans(r: &mut Rng, dim: usize, max: i32) -> Transition {
    let inv = if r.chance(1, 3) { None } else { Some(rand_fed(r, dim, max)) };
    Transition { id: TransitionID::Simple("e".into()), guard_zone: if r.chance(1, 4) { OwnedFederation::universe(dim) } else { rand_fed(r, dim, max) }, target_locations: loc("T", inv), updates: rand_updates(r, dim, max) }
}
/// is some point of `f` turned into `w` by the updates?  The overwritten clocks are searched on the grid of eighths
pub fn pre_exists(f: &dyn Fn(&[i64]) -> bool, us: &[CompiledUpdate], w: &[i64], max: i32) -> bool {
    let mut cs: Vec<usize> = us.iter().map(|u| u.clock_index).collect(); cs.sort(); cs.dedup();
    if upd8(us, w) != w { return false; }
    fn rec(f: &dyn Fn(&[i64]) -> bool, cs: &[usize], w: &mut Vec<i64>, top: i64) -> bool {
        match cs.split_first() { None => f(w), Some((c, rest)) => { let old = w[*c]; for x in 0..=top { w[*c] = x; if rec(f, rest, w, top) { w[*c] = old; return true; } } w[*c] = old; false } }
    }
    let top = w.iter().max().unwrap() + (max as i64 + 1) * S; rec(f, &cs, &mut w.to_vec(), top)
}
/// the delays (in eighths) with which v can have been reached from just after the updates
pub fn delays(us: &[CompiledUpdate], v: &[i64]) -> Vec<i64> {
    let top = (1..v.len()).map(|i| v[i]).min().unwrap();
    (0..=top).filter(|d| us.iter().rev().fold((true, vec![]), |(ok, mut seen), u| { let o = seen.contains(&u.clock_index) || v[u.clock_index] - d == u.value as i64 * S; seen.push(u.clock_index); (ok && o, seen) }).0).collect()
}
pub fn back8(v: &[i64], d: i64) -> Vec<i64> { v.iter().enumerate().map(|(i, x)| if i == 0 { 0 } else { x - d }).collect() }
pub fn reached8(t: &Transition, z: &OwnedFederation, v: &[i64], max: i32) -> bool {
    inv8(&t.target_locations, v) && delays(&t.updates, v).into_iter().any(|d| pre_exists(&|u| has8(z, u) && has8(&t.guard_zone, u), &t.updates, &back8(v, d), max))
}
pub fn show(t: &Transition) -> String { format!("transition guard {} updates {:?} target invariant {}", t.guard_zone, t.updates, t.target_locations.get_invariants().map(|f| f.to_string()).unwrap_or("none".into())) }
