//! refinement: random pairs of systems, decided by clock regions
use reveaal::System::query_failures::RefinementFailure as F;
use reveaal::System::refine::check_refinement;
use reveaal::ModelObjects::{Component, Edge, Location, LocationType, SyncType};
use reveaal::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};
use vreplay::{comps::*, obs, regions, Rng, Search};
/// the same component over other clock indices, with some small change
fn variant(r: &mut Rng, c: &Component, first: usize, o: &Opts) -> Component {
    let mut d = c.clone();
    d.name = "S".into();
    let mut names: Vec<String> = d.declarations.clocks.keys().cloned().collect(); names.sort();
    for (i, n) in names.iter().enumerate() { d.declarations.clocks.insert(n.clone(), first + i); }
    for _ in 0..r.below(3) {
        let n = d.locations.len();
        match r.below(9) {
            0 if !d.edges.is_empty() => { let k = r.below(d.edges.len()); d.edges.remove(k); }
            1 | 2 if !d.edges.is_empty() => { let k = r.below(d.edges.len()); d.edges[k].guard = if r.chance(1, 3) { None } else { let a = atom(r, &names, o.max, false); Some(match d.edges[k].guard.clone() { Some(g) if r.chance(2, 3) => B::AndOp(Box::new(g), Box::new(a)), _ => a }) }; }
            3 if !d.edges.is_empty() => { let k = r.below(d.edges.len()); d.edges[k].target_location = d.locations[r.below(n)].id.clone(); }
            4 => { let k = r.below(n); let x = A::Int(r.int(1, o.max + 1)); d.locations[k].invariant = if r.chance(1, 3) { None } else { Some(B::LessEQ(Box::new(A::VarName(r.pick(&names).clone())), Box::new(x))) }; }
            5 => { let (s, t) = (r.below(n), r.below(n)); let sync = if r.chance(1, 3) { "e" } else { o.outs[r.below(o.outs.len())] }; d.edges.push(Edge { id: format!("SX{}", d.edges.len()), source_location: d.locations[s].id.clone(), target_location: d.locations[t].id.clone(), sync_type: SyncType::Output, guard: if r.chance(1, 2) { None } else { Some(guard(r, &names, o)) }, update: None, sync: sync.into() }); }
            6 if !d.edges.is_empty() => { let k = r.below(d.edges.len()); d.edges[k].update = None; }
            7 => { let k = d.locations.len(); let t = d.locations[r.below(n)].id.clone(); let id = format!("n{k}"); d.locations.push(Location { id: id.clone(), invariant: None, location_type: LocationType::Normal, urgency: "NORMAL".into() }); if !d.edges.is_empty() { let e = r.below(d.edges.len()); d.edges[e].target_location = id.clone(); } d.edges.push(Edge { id: format!("SY{k}"), source_location: id, target_location: t, sync_type: SyncType::Output, guard: None, update: None, sync: o.outs[0].into() }); }
            _ => {}
        }
    }
    d
}
fn opts(r: &mut Rng) -> Opts { let mut o = Opts::new(); o.locs = 3; o.edges = 4; o.max = 3; o.inv = 3; o.ins = vec!["a", "b"]; o.outs = vec!["c", "d"]; if r.chance(1, 4) { o.clocks = 2; } if r.chance(1, 3) { o.ins.pop(); } o.disj = r.chance(1, 6); o }
fn single(r: &mut Rng, name: &str, first: usize) -> (Component, Opts) { let o = opts(r); (rand_comp(r, name, first, &o), o) }
fn main() {
    let mut s = Search::new();
    let (mut ok, mut cm, mut cu, mut pr) = (0, 0, 0, 0);
    let mut quiet = 0u64;
    while s.more() {
        quiet += 1; if quiet > 400000 { break; }
        let r = &mut s.rng;
        let (mut t, o) = single(r, "T", 1);
        if r.chance(1, 10) { let n = t.locations.len(); let (x, y) = (r.below(n), r.below(n)); t.edges.push(Edge { id: "TX".into(), source_location: t.locations[x].id.clone(), target_location: t.locations[y].id.clone(), sync_type: SyncType::Input, guard: None, update: None, sync: (*r.pick(&["e", "f"])).into() }); }
        let nt = t.declarations.clocks.len();
        let c = if r.chance(5, 6) { variant(r, &t, 1 + nt, &o) } else { single(r, "S", 1 + nt).0 };
        let mut used = nt + c.declarations.clocks.len();
        let (mut ls, mut lt) = (Sys::Leaf(c), Sys::Leaf(t));
        if used == 2 && r.chance(1, 5) {
            let mut o2 = opts(r); o2.clocks = 1; o2.locs = 2; o2.edges = 3; if r.chance(1, 2) { o2.outs = vec!["g"]; o2.ins = vec!["c", "h"]; }
            let x = Sys::Leaf(rand_comp(r, "X", used + 1, &o2)); used += 1;
            let par = r.chance(1, 2);
            let join = |a: Sys, b: Sys| if par { Sys::Par(Box::new(a), Box::new(b)) } else { Sys::Conj(Box::new(a), Box::new(b)) };
            if r.chance(1, 2) { ls = join(ls, x) } else { lt = join(lt, x) }
        }
        if r.chance(1, 60) { if let Sys::Leaf(c) = &mut ls { for l in &mut c.locations { l.location_type = LocationType::Normal; } } }
        if r.chance(1, 60) { if let Sys::Leaf(c) = &mut lt { for l in &mut c.locations { l.location_type = LocationType::Normal; } } }
        let dim = used + 1;
        let io = (ls.io(), lt.io());
        let (Some((si, so)), Some((ti, to))) = io else { continue };
        let (Ok(Ok(a)), Ok(Ok(b))) = (obs(|| ls.build(dim)), obs(|| lt.build(dim))) else { continue };
        let Ok(checks) = obs(|| [a.check_determinism().is_ok(), a.check_local_consistency().is_ok(), b.check_determinism().is_ok(), b.check_local_consistency().is_ok()]) else { continue };
        let alpha = si.is_disjoint(&to) && ti.is_disjoint(&so) && si.is_subset(&ti) && to.is_subset(&so);
        let pre = checks.iter().all(|x| *x) && alpha;
        if !pre && (!checks.iter().all(|x| *x) || s.rng.chance(2, 3)) && !s.rng.chance(1, 12) { continue; }
        let ctx = format!("does\n{}\nrefine\n{}", show(&ls), show(&lt));
        s.note(&ctx);
        let got = match obs(|| check_refinement(a, b)) { Ok(g) => g, Err(p) => s.fail(format!("panicked: {p}\n{ctx}")) };
        let kind = match &got { Ok(()) => "refines", Err(F::CannotMatch { .. }) => "cannot match", Err(F::CutsDelaySolutions { .. }) => "cuts delays", Err(_) => "precondition" };
        match kind { "refines" => ok += 1, "cannot match" => cm += 1, "cuts delays" => cu += 1, _ => pr += 1 }
        if !pre { if kind != "precondition" { s.fail(format!("answer {kind}, although determinism/consistency {checks:?} and alphabets fit {alpha}\n{ctx}")); } continue; }
        match (ls.initial().is_none(), lt.initial().is_none()) {
            (true, true) => { if kind != "refines" { s.fail(format!("answer {kind} for two empty systems\n{ctx}")); } continue; }
            (false, false) => {}
            _ => { if kind != "precondition" { s.fail(format!("answer {kind} with one empty system\n{ctx}")); } continue; }
        }
        let m = 4;
        let strict = regions::walk(&ls, &lt, dim, m, true);
        let wide = regions::walk(&ls, &lt, dim, m, false);
        let fine = match kind { "precondition" => !strict.start, "refines" => strict.start && !strict.mismatch && !strict.cut, "cannot match" => wide.start && wide.mismatch, _ => wide.start && wide.cut };
        if !fine { s.fail(format!("answer {kind}; by regions: along real moves {strict:?}, along all enabled guards {wide:?}\n{ctx}")); }
        if let Err(F::CannotMatch { action, .. } | F::CutsDelaySolutions { action, .. }) = &got { let n = action.name.clone(); if !so.contains(&n) && !ti.contains(&n) { s.fail(format!("failure blames {n}\n{ctx}")); } }
    }
    eprintln!("refines {ok} cannot-match {cm} cuts {cu} precondition {pr}");
    s.done()
}
