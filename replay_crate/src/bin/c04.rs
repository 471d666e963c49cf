use edbm::zones::OwnedFederation;
use reveaal::ModelObjects::State;
use vreplay::{obs, trans::*, zones::*, Search};
const M: i32 = 4;
fn main() {
    let mut s = Search::new();
    while s.more() {
        let dim = 2 + s.rng.below(2);
        let t = rand_trans(&mut s.rng, dim, M);
        let z = if s.rng.chance(1, 4) { OwnedFederation::init(dim) } else { rand_fed(&mut s.rng, dim, M) };
        let mut src = loc("S", None);
        if s.rng.chance(1, 2) { src.id = t.target_locations.id.clone(); if s.rng.chance(1, 2) { src = t.target_locations.clone(); } }
        let st = State::new(src, z.clone());
        s.note(&format!("{}{z}", show(&t)));
        let ctx = format!("zone {z}\n{}", show(&t));
        match obs(|| t.use_transition_alt(&st)) {
            Err(p) => s.fail(format!("taking the transition panicked: {p}\n{ctx}")),
            Ok(r) => {
                let out = r.as_ref().map(|q| q.zone_ref().clone()).unwrap_or(OwnedFederation::empty(dim));
                if let Some(q) = &r {
                    if q.zone_ref().is_empty() { s.fail(format!("taken although nothing is reached\n{ctx}")); }
                    if q.decorated_locations.id != t.target_locations.id { s.fail(format!("wrong target location {}\n{ctx}", q.decorated_locations.id)); }
                }
                for k in 0..12 {
                    let mut v = point(&mut s.rng, dim, 2 * M);
                    if k % 2 == 0 { let w = upd8(&t.updates, &v); let d = s.rng.below(4) as i64 * (S / 2); v = w.iter().enumerate().map(|(i, x)| if i == 0 { 0 } else { x + d }).collect(); }
                    let want = reached8(&t, &z, &v, M);
                    if has8(&out, &v) != want { s.fail(format!("valuation (in eighths) {v:?}: in result {}, expected {want}\nresult {}{out}\n{ctx}", !want, if r.is_none() { "(not taken) " } else { "" })); }
                }
            }
        }
        // the initial state of a location
        let l = t.target_locations.clone();
        match obs(|| State::from_location(l.clone(), dim)) {
            Err(p) => s.fail(format!("from_location panicked: {p}\n{ctx}")),
            Ok(q) => {
                let out = q.as_ref().map(|q| q.zone_ref().clone()).unwrap_or(OwnedFederation::empty(dim));
                for _ in 0..6 { let x = s.rng.below(4 * M as usize) as i64 * (S / 2); let mut v = vec![x; dim]; v[0] = 0; if s.rng.chance(1, 4) { v[1] += S / 2; }
                    let want = inv8(&l, &v) && v[1..].iter().all(|y| *y == v[1]);
                    if has8(&out, &v) != want { s.fail(format!("initial state: valuation (in eighths) {v:?} {}, expected {want}\n{ctx}", !want)); } }
            }
        }
        let mut q = State::new(l.clone(), z.clone());
        if let Err(p) = obs(std::panic::AssertUnwindSafe(|| q.apply_invariants())) { s.fail(format!("apply_invariants panicked: {p}\n{ctx}")); }
        for _ in 0..6 { let v = point(&mut s.rng, dim, M); let want = has8(&z, &v) && inv8(&l, &v); if has8(q.zone_ref(), &v) != want { s.fail(format!("apply_invariants: valuation (in eighths) {v:?} {}, expected {want}\n{ctx}", !want)); } }
    }
    s.done();
}
