//! determinism and local consistency of random systems
use edbm::zones::OwnedFederation as Fed;
use reveaal::ModelObjects::{LocationType, State, SyncType, Edge};
use reveaal::System::local_consistency::{check_determinism, is_fully_consistent, is_least_consistent};
use reveaal::TransitionSystems::{LocationID, TransitionSystem};
use std::collections::{HashSet, VecDeque};
use vreplay::{comps::*, obs, regions::*, Rng, Search};
/// symbolic states reachable from `start`, with their successors per action (index into the list)
struct Graph { st: Vec<State>, ins: Vec<Vec<usize>>, outs: Vec<Vec<usize>> }
fn same(a: &State, b: &State) -> bool { a.decorated_locations.id == b.decorated_locations.id && a.zone_ref().subset_eq(b.zone_ref()) && b.zone_ref().subset_eq(a.zone_ref()) }
fn within(a: &State, b: &State) -> bool { a.decorated_locations.id == b.decorated_locations.id && a.zone_ref().subset_eq(b.zone_ref()) }
fn widen(ts: &dyn TransitionSystem, l: reveaal::TransitionSystems::LocationTree, z: Fed) -> State { let b = ts.get_local_max_bounds(&l); State::new(l, z.extrapolate_max_bounds(&b)) }
fn graph(ts: &dyn TransitionSystem, start: State) -> Option<Graph> {
    let mut g = Graph { st: vec![start], ins: vec![], outs: vec![] };
    let mut k = 0;
    while k < g.st.len() {
        if g.st.len() > 300 { return None; }
        let (mut a, mut b) = (vec![], vec![]);
        for act in ts.get_actions() {
            let input = ts.get_input_actions().contains(&act);
            let s = g.st[k].clone();
            for t in ts.next_transitions(&s.decorated_locations, &act) {
                let mut z = s.zone_ref().clone().intersection(&t.guard_zone);
                for u in &t.updates { z = z.update_clock_val(u.clock_index, u.value); }
                z = z.up();
                if let Some(i) = t.target_locations.get_invariants() { z = z.intersection(i); }
                if z.is_empty() { continue; }
                let n = widen(ts, t.target_locations.clone(), z);
                let at = match g.st.iter().position(|x| same(x, &n)) { Some(p) => p, None => { g.st.push(n); g.st.len() - 1 } };
                if input { a.push(at) } else { b.push(at) }
            }
        }
        g.ins.push(a); g.outs.push(b); k += 1;
    }
    Some(g)
}
/// (a closed set of states containing the start exists, a derivation of failure exists)
fn least(g: &Graph) -> (bool, bool) {
    let n = g.st.len();
    let (univ, inc): (Vec<bool>, Vec<bool>) = (g.st.iter().map(|s| s.decorated_locations.is_universal()).collect(), g.st.iter().map(|s| s.decorated_locations.is_inconsistent()).collect());
    let free: Vec<bool> = g.st.iter().map(|s| s.zone_ref().can_delay_indefinitely()).collect();
    let mut alive = vec![true; n];
    loop {
        let saved = |x: usize, al: &Vec<bool>| univ[x] || (0..n).any(|y| al[y] && within(&g.st[x], &g.st[y]));
        let next: Vec<bool> = (0..n).map(|x| alive[x] && !inc[x] && g.ins[x].iter().all(|y| saved(*y, &alive)) && (free[x] || g.outs[x].iter().any(|y| saved(*y, &alive)))).collect();
        if next == alive { break; }
        alive = next;
    }
    let ok = univ[0] || (0..n).any(|y| alive[y] && within(&g.st[0], &g.st[y]));
    let mut bad = vec![false; n];
    loop {
        let next: Vec<bool> = (0..n).map(|x| bad[x] || !univ[x] && (inc[x] || g.ins[x].iter().any(|y| bad[*y]) || !free[x] && g.outs[x].iter().all(|y| bad[*y]))).collect();
        if next == bad { break; }
        bad = next;
    }
    (ok, bad[0])
}
/// (no state fails, some state fails), for the check without pruning
fn fully(g: &Graph) -> (bool, bool) {
    let fail = |x: usize| !g.outs[x].iter().any(|y| !within(&g.st[*y], &g.st[x])) && !g.st[x].zone_ref().can_delay_indefinitely();
    let any = (0..g.st.len()).any(fail);
    // a failing state inside a passing one may have been skipped
    let sure = (0..g.st.len()).any(|x| fail(x) && (0..g.st.len()).all(|y| y == x || !within(&g.st[x], &g.st[y])));
    (!sure, any)
}
/// (surely deterministic, surely not): by regions, starting with every valuation at the initial location
fn det(s: &Sys, dim: usize, m: i64) -> (bool, bool) {
    let acts: Vec<String> = { let (i, o) = s.io().unwrap(); i.union(&o).cloned().collect() };
    let Some(l0) = s.initial() else { return (true, false) };
    let mut all: Vec<Reg> = vec![vec![0]];
    for _ in 1..dim { all = all.into_iter().flat_map(|v| (0..=(m + 1) * 2).map(move |h| { let mut w = v.clone(); w.push(h * (U / 2)); w })).collect(); }
    let mut fine: Vec<Reg> = vec![];
    // fractions in every order
    for v in all { let k = v.iter().filter(|x| **x % U > 0).count(); if k < 2 { fine.push(canon(v, m)); } else { for a in [-2, 0, 2] { let mut w = v.clone(); let p = w.iter().position(|x| *x % U > 0).unwrap(); w[p] += a; fine.push(canon(w, m)); } } }
    let mut seen: HashSet<(LocationID, Reg)> = fine.iter().cloned().map(|v| (l0.clone(), v)).collect();
    let mut todo: VecDeque<(LocationID, Reg)> = seen.iter().cloned().collect();
    let mut locs = HashSet::new();
    while let Some((l, v)) = todo.pop_front() {
        locs.insert(l.clone());
        for a in &acts {
            let ts = s.trans(&l, a);
            let can: Vec<&OTrans> = ts.iter().filter(|t| guard_ok(t, &v)).collect();
            if inv(s, &l, &v) && can.iter().filter(|t| allowed(t, &v, m)).count() > 1 { return (false, true); }
            for t in can { let mut w = apply(t, &v, m); loop { if inv(s, &t.target, &w) && seen.insert((t.target.clone(), w.clone())) { todo.push_back((t.target.clone(), w.clone())); } let x = next(&w, m); if x == w { break; } w = x; } }
        }
    }
    for l in &locs { for a in &acts { let ts = s.trans(l, a); for v in &fine { if inv(s, l, v) && ts.iter().filter(|t| allowed(t, v, m)).count() > 1 { return (false, false); } } } }
    (true, false)
}
fn leaf(r: &mut Rng, name: &str, first: usize) -> Sys {
    let mut o = Opts::new(); o.locs = 4; o.edges = 6; o.max = 3; o.inv = 1 + r.below(2); o.special = r.chance(1, 4); o.upd = 1 + r.below(3); o.disj = r.chance(1, 8);
    if r.chance(1, 2) { o.ins = vec![]; } else { o.ins.truncate(1); }
    if r.chance(1, 4) { o.clocks = 2; }
    if first > 1 { o.clocks = 1; o.locs = 2; o.edges = 3; o.ins = vec!["c", "e"]; o.outs = vec!["f"]; }
    let mut c = rand_comp(r, name, first, &o);
    if r.chance(1, 15) { c.locations.iter_mut().for_each(|l| l.location_type = LocationType::Normal); }
    if r.chance(1, 2) { let n = c.locations.len(); for k in 0..r.below(3) { let (x, y) = (r.below(n), r.below(n)); c.edges.push(Edge { id: format!("{name}O{k}"), source_location: c.locations[x].id.clone(), target_location: c.locations[y].id.clone(), sync_type: SyncType::Output, guard: None, update: None, sync: format!("z{k}") }); } }
    Sys::Leaf(c)
}
fn main() {
    let mut s = Search::new();
    let mut quiet = 0u64; let mut n = [0; 6];
    while s.more() {
        quiet += 1; if quiet > 400000 { break; }
        let r = &mut s.rng;
        let mut sys = leaf(r, "A", 1);
        let mut dim = 1 + sys.comps()[0].declarations.clocks.len();
        if r.chance(1, 6) && dim == 2 { let b = leaf(r, "B", 2); dim = 3; sys = Sys::Par(Box::new(sys), Box::new(b)); }
        if sys.io().is_none() { continue; }
        let Ok(Ok(ts)) = obs(|| sys.build(dim)) else { continue };
        let ts = ts.as_ref();
        let ctx = show(&sys);
        let (sure, not) = det(&sys, dim, 4);
        let Ok(init) = obs(|| ts.get_initial_state()) else { continue };
        s.note(&ctx);
        match obs(|| check_determinism(ts).is_ok()) {
            Err(p) => s.fail(format!("check_determinism panicked: {p}\n{ctx}")),
            Ok(d) => { n[if d { 0 } else { 1 }] += 1; if d && not && init.is_some() { s.fail(format!("called deterministic, but two transitions are possible at once\n{ctx}")); } if !d && (sure || init.is_none()) { s.fail(format!("called nondeterministic, but no two transitions overlap\n{ctx}")); } }
        }
        let Some(init) = init else {
            if obs(|| is_least_consistent(ts).is_ok()) != Ok(false) { s.fail(format!("consistent without an initial state\n{ctx}")); }
            if obs(|| is_fully_consistent(ts).is_ok()) != Ok(false) { s.fail(format!("fully consistent without an initial state\n{ctx}")); }
            continue;
        };
        let first = widen(ts, init.decorated_locations.clone(), init.zone_ref().clone());
        if let Some(g) = graph(ts, first) {
            let (ok, bad) = least(&g);
            for _ in 0..3 { match obs(|| is_least_consistent(ts).is_ok()) {
                Err(p) => s.fail(format!("is_least_consistent panicked: {p}\n{ctx}")),
                Ok(c) => { n[if c { 2 } else { 3 }] += 1; if c && !ok { s.fail(format!("called consistent, although an inconsistent state cannot be avoided\n{ctx}")); } if !c && !bad { s.fail(format!("called inconsistent, although every state can be left or stayed in\n{ctx}")); } }
            } }
        }
        if let Some(g) = graph(ts, init) {
            let (ok, bad) = fully(&g);
            match obs(|| is_fully_consistent(ts).is_ok()) {
                Err(p) => s.fail(format!("is_fully_consistent panicked: {p}\n{ctx}")),
                Ok(c) => { n[if c { 4 } else { 5 }] += 1; if c && !ok { s.fail(format!("called fully consistent, although a state without way out is reachable\n{ctx}")); } if !c && !bad { s.fail(format!("called not fully consistent, although every state can be left or stayed in\n{ctx}")); } }
            }
        }
    }
    eprintln!("deterministic {} not {} consistent {} not {} fully {} not {}", n[0], n[1], n[2], n[3], n[4], n[5]);
    s.done()
}
