//! the lists of state pairs, against plain lists of pairs
use edbm::zones::OwnedFederation as F;
use reveaal::DataTypes::*;
use reveaal::ModelObjects::{Declarations, Location, LocationType, StatePair};
use reveaal::TransitionSystems::LocationTree;
use vreplay::{obs, trans::has8, zones::rand_fed, Search};
const M: i32 = 2;
fn main() {
    let mut s = Search::new();
    let pts: Vec<Vec<i64>> = (0..=8 * (2 * M as i64 + 1)).step_by(2).flat_map(|x| (0..=8 * (2 * M as i64 + 1)).step_by(2).map(move |y| vec![0, x, y])).collect();
    let r = obs(|| while s.more() {
        let (mut w, mut p) = (WaitingStateList::new(), PassedStateList::new());
        let (mut mw, mut mp): (Vec<((usize, usize), F)>, Vec<((usize, usize), F)>) = (vec![], vec![]);
        let mut log = String::new();
        let locs: Vec<LocationTree> = (0..2).map(|i| LocationTree::simple(&Location { id: format!("L{i}"), invariant: None, location_type: LocationType::Normal, urgency: "NORMAL".into() }, &Declarations::empty(), 3)).collect();
        for _ in 0..8 {
            let k = (s.rng.below(2), s.rng.below(2));
            let mut f = rand_fed(&mut s.rng, 3, M);
            if s.rng.chance(1, 3) && !mw.is_empty() { let i = s.rng.below(mw.len()); f = mw[i].1.clone().intersection(&f); }
            if f.is_empty() { continue; }
            let mut pair = StatePair::from_locations(3, locs[k.0].clone(), locs[k.1].clone());
            pair.set_zone(f.clone());
            let sub = |a: &F, bs: Vec<&F>| pts.iter().all(|v| !has8(a, v) || bs.iter().any(|b| has8(b, v)));
            match s.rng.below(6) {
                0 | 1 => { w.put(pair); mw.push((k, f.clone())); log += &format!("waiting.put {k:?} {f}\n"); }
                2 => { log += "waiting.pop\n"; let got = w.pop(); let want = mw.pop();
                    match (got, want) { (None, None) => {} (Some(g), Some((kk, ff))) => { if g.locations1.id != locs[kk.0].id || g.locations2.id != locs[kk.1].id || !g.ref_zone().equals(&ff) { s.fail(format!("popped {} {} {}, expected {kk:?} {ff}\n{log}", g.locations1.id, g.locations2.id, g.ref_zone())); } }
                        (g, x) => s.fail(format!("pop gives a pair: {}, expected {}\n{log}", g.is_some(), x.is_some())) } }
                3 | 4 => { p.put(pair); mp.push((k, f.clone())); log += &format!("passed.put {k:?} {f}\n"); }
                _ => {
                    let (gw, gp) = (w.has(&pair), p.has(&pair));
                    let ww = mw.iter().any(|(kk, g)| *kk == k && sub(&f, vec![g]));
                    let wp = { let b: Vec<&F> = mp.iter().filter(|x| x.0 == k).map(|x| &x.1).collect(); !b.is_empty() && sub(&f, b) };
                    if gw != ww { s.fail(format!("waiting.has {k:?} {f}: {gw}, expected {ww}\n{log}")); }
                    if gp != wp { s.fail(format!("passed.has {k:?} {f}: {gp}, expected {wp}\n{log}")); }
                    s.note(&format!("{log}{f}"));
                }
            }
            if w.is_empty() != mw.is_empty() { s.fail(format!("is_empty\n{log}")); }
        }
    });
    if let Err(e) = r { s.fail(format!("panicked: {e}")); }
    s.done();
}
