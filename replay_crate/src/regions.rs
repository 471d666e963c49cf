//! clock regions (diagonal-free), for deciding questions about timed systems without zones
use crate::comps::*;
use reveaal::TransitionSystems::LocationID;
use std::collections::{HashSet, VecDeque};
/// one unit of time; a clock is its integer part plus twice the rank of its fraction, or (m + 1) * U beyond the largest constant m
pub const U: i64 = 32;
pub type Reg = Vec<i64>;
pub fn canon(mut v: Reg, m: i64) -> Reg {
    for x in v.iter_mut().skip(1) { if *x > m * U { *x = (m + 1) * U; } }
    let mut f: Vec<i64> = v.iter().skip(1).map(|x| x % U).filter(|x| *x > 0).collect(); f.sort(); f.dedup();
    for x in v.iter_mut().skip(1) { if *x % U > 0 { let k = f.iter().position(|y| *y == *x % U).unwrap() as i64 + 1; *x = *x / U * U + 2 * k; } }
    v
}
/// the next region in time, the region itself once every clock is beyond m
pub fn next(v: &Reg, m: i64) -> Reg {
    let mut w = v.clone();
    let live = |x: i64| x <= m * U;
    if v.iter().skip(1).any(|x| live(*x) && x % U == 0) { for x in w.iter_mut().skip(1) { if live(*x) { *x += 1; } } }
    else { let top = v.iter().skip(1).filter(|x| live(**x)).map(|x| x % U).max(); if let Some(top) = top { for x in w.iter_mut().skip(1) { if live(*x) && *x % U == top { *x = (*x / U + 1) * U; } } } }
    canon(w, m)
}
/// v and everything time leads to from it
pub fn future(v: &Reg, m: i64) -> Vec<Reg> { let mut out = vec![v.clone()]; loop { let w = next(out.last().unwrap(), m); if &w == out.last().unwrap() { return out; } out.push(w); } }
/// twice a representative that satisfies the same diagonal-free constraints
pub fn halves(v: &Reg) -> Vec<i64> { v.iter().map(|x| 2 * (x / U) + i64::from(x % U > 0)).collect() }
pub fn apply(o: &OTrans, v: &Reg, m: i64) -> Reg { let mut w = v.clone(); for (c, k) in &o.upd { w[*c] = *k * U; } canon(w, m) }
pub fn inv(s: &Sys, l: &LocationID, v: &Reg) -> bool { holds(&s.invs(l), &halves(v)) }
pub fn guard_ok(o: &OTrans, v: &Reg) -> bool { holds(&o.guards, &halves(v)) }
pub fn allowed(o: &OTrans, v: &Reg, m: i64) -> bool { guard_ok(o, v) && holds(&o.invs, &halves(&apply(o, v, m))) }
pub fn any(ts: &[OTrans], v: &Reg, m: i64) -> bool { ts.iter().any(|t| allowed(t, v, m)) }
#[derive(Debug, Clone, Copy)]
pub struct Found { pub start: bool, pub mismatch: bool, pub cut: bool }
/// the moves of both sides on an action, the challenging side first
pub fn offers(s: &Sys, t: &Sys, l1: &LocationID, l2: &LocationID, a: &str, out: bool) -> (Vec<OTrans>, Vec<OTrans>) {
    let ((si, _), (_, to)) = (s.io().unwrap(), t.io().unwrap());
    if out { (s.trans(l1, a), if to.contains(a) { t.trans(l2, a) } else { vec![t.idle(l2)] }) } else { (t.trans(l2, a), if si.contains(a) { s.trans(l1, a) } else { vec![s.idle(l1)] }) }
}
/// walks all pairs reachable by joint moves. `strict`: only along moves the challenging side can really make (and the other match), and
/// a cut only counts where the same point also leads to where both may be; otherwise along every pair of enabled guards.
pub fn walk(s: &Sys, t: &Sys, dim: usize, m: i64, strict: bool) -> Found {
    let (i1, i2) = (s.initial().unwrap(), t.initial().unwrap());
    let mut seen: HashSet<(LocationID, LocationID, Reg)> = HashSet::new();
    let mut todo = VecDeque::new();
    for v in future(&vec![0; dim], m) { if inv(s, &i1, &v) && inv(t, &i2, &v) && seen.insert((i1.clone(), i2.clone(), v.clone())) { todo.push_back((i1.clone(), i2.clone(), v)); } }
    let mut f = Found { start: !todo.is_empty(), mismatch: false, cut: false };
    let mut acts: Vec<(String, bool)> = s.io().unwrap().1.into_iter().map(|a| (a, true)).collect(); acts.extend(t.io().unwrap().0.into_iter().map(|a| (a, false)));
    while let Some((l1, l2, v)) = todo.pop_front() {
        for (a, out) in &acts {
            let (ts1, ts2) = offers(s, t, &l1, &l2, a, *out);
            let (x, y) = (any(&ts1, &v, m), any(&ts2, &v, m));
            if x && !y { f.mismatch = true; }
            if strict && !(x && y) { continue; }
            for p in &ts1 { for q in &ts2 {
                if !guard_ok(p, &v) || !guard_ok(q, &v) { continue; }
                let (k1, k2) = if *out { (&p.target, &q.target) } else { (&q.target, &p.target) };
                let w = apply(q, &apply(p, &v, m), m);
                let line = future(&w, m);
                let both: Vec<bool> = line.iter().map(|z| inv(s, k1, z) && inv(t, k2, z)).collect();
                let meets = both.iter().any(|b| *b);
                if !strict || meets { for (n, z) in line.iter().enumerate() { if inv(s, k1, z) && !both[n..].iter().any(|b| *b) { f.cut = true; } } }
                for (n, z) in line.iter().enumerate() { if both[n] && seen.insert((k1.clone(), k2.clone(), z.clone())) { todo.push_back((k1.clone(), k2.clone(), z.clone())); } }
            } }
        }
    }
    f
}
