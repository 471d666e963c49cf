//! the component that a system is saved as does what the system does
use reveaal::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};
use reveaal::ModelObjects::{Component, Edge, LocationType, SyncType};
use reveaal::System::save_component::{combine_components, PruningStrategy};
use reveaal::TransitionSystems::LocationID;
use std::collections::{BTreeSet, HashMap};
use vreplay::{comps::*, exprs, obs, zones, Rng, Search};
fn ra(e: &mut A, m: &HashMap<String, String>) { match e { A::VarName(n) => if let Some(k) = m.get(n) { *n = k.clone() }, A::Difference(a, b) | A::Addition(a, b) => { ra(a, m); ra(b, m) } _ => {} } }
fn rb(e: &mut B, m: &HashMap<String, String>) { match e { B::AndOp(a, b) | B::OrOp(a, b) => { rb(a, m); rb(b, m) } B::LessEQ(a, b) | B::GreatEQ(a, b) | B::LessT(a, b) | B::GreatT(a, b) | B::EQ(a, b) => { ra(a, m); ra(b, m) } B::Bool(_) => {} } }
fn rename(c: &mut Component, m: &HashMap<String, String>) {
    c.declarations.clocks = c.declarations.clocks.drain().map(|(k, v)| (m[&k].clone(), v)).collect();
    for l in &mut c.locations { if let Some(g) = &mut l.invariant { rb(g, m) } }
    for e in &mut c.edges { if let Some(g) = &mut e.guard { rb(g, m) } for u in e.update.iter_mut().flatten() { u.variable = m[&u.variable].clone(); } }
}
fn no(s: &Search, f: &str, i: &str, got: String, want: &str) -> ! { s.fail(format!("{f}: {got}, expected {want}; input {i}")) }
/// the locations with a path to them, whatever the clocks
fn reach(s: &Sys) -> BTreeSet<String> {
    let mut out = BTreeSet::new(); let mut todo: Vec<LocationID> = s.initial().into_iter().collect();
    let (i, o) = s.io().unwrap();
    while let Some(l) = todo.pop() { if out.insert(l.to_string()) { for a in i.union(&o) { todo.extend(s.trans(&l, a).into_iter().map(|t| t.target)); } } }
    out
}
fn upd(e: &Edge, c: &Component, dim: usize) -> Vec<i64> { let mut w: Vec<i64> = (0..dim).map(|i| -100 - i as i64).collect(); for u in e.update.iter().flatten() { let A::Int(k) = u.expression else { panic!("update {u:?}") }; w[c.declarations.clocks[&u.variable]] = k as i64; } w }
fn main() {
    let mut s = Search::new();
    while s.more() {
        let mut rng = Rng::new(s.rng.next()); let r = &mut rng;
        let n = 1 + r.below(3); let mut dim = 1; let mut cs = vec![];
        let io: [(Vec<&'static str>, Vec<&'static str>); 3] = match r.below(3) { 0 => [(vec!["a", "b"], vec!["c", "d"]), (vec!["a", "b"], vec!["c", "d"]), (vec!["a", "b"], vec!["c", "d"])], 1 => [(vec!["a", "e"], vec!["c"]), (vec!["c", "a"], vec!["d"]), (vec!["d"], vec!["e"])], _ => [(vec![], vec!["c"]), (vec!["c"], vec!["d"]), (vec!["d"], vec![])] };
        for k in 0..n {
            let mut o = Opts::new(); (o.ins, o.outs) = io[k].clone(); o.clocks = if n == 1 { 1 + r.below(2) } else if n == 2 { 1 + r.below(2) } else { 1 }; o.locs = 3; o.edges = 5; o.max = 3; o.inv = 2; o.diff = r.chance(1, 3); o.disj = r.chance(1, 3); o.special = r.chance(1, 6);
            let mut c = rand_comp(r, ["A", "B", "C"][k], dim, &o);
            if r.chance(1, 12) { for l in &mut c.locations { if l.location_type == LocationType::Initial { l.location_type = LocationType::Normal } } }
            if r.chance(1, 6) { for e in &mut c.edges { if r.chance(1, 2) { let v = *r.pick(&["x0"]); e.guard = Some(B::AndOp(Box::new(B::LessT(Box::new(A::VarName(v.into())), Box::new(A::Int(1)))), Box::new(B::GreatT(Box::new(A::VarName(v.into())), Box::new(A::Int(2)))))); } } }
            if r.chance(1, 4) { let cl: Vec<String> = (0..o.clocks).map(|i| format!("x{i}")).collect(); for l in &mut c.locations { if r.chance(1, 3) { l.invariant = Some(if r.chance(1, 4) { B::LessT(Box::new(A::VarName("x0".into())), Box::new(A::Int(0))) } else if r.chance(1, 3) { B::Bool(r.chance(1, 2)) } else { guard(r, &cl, &o) }); } } }
            let mut pool = vec!["x", "x1", "x2", "x11", "y", "x1_"]; let mut m = HashMap::new();
            for i in 0..o.clocks { let j = r.below(pool.len()); m.insert(format!("x{i}"), if r.chance(1, 4) && i == 0 { pool.remove(0).to_string() } else { pool.remove(j).to_string() }); }
            if r.chance(3, 4) { rename(&mut c, &m); }
            dim += o.clocks; cs.push(c);
        }
        let mut it = cs.into_iter(); let mut sys = Sys::Leaf(it.next().unwrap());
        for c in it { let b = Sys::Leaf(c); sys = if r.chance(2, 3) { Sys::Par(Box::new(sys), Box::new(b)) } else { Sys::Conj(Box::new(sys), Box::new(b)) }; }
        if sys.io().is_none() { s.note(""); continue; }
        let Ok(ts) = sys.build(dim) else { s.note(""); continue };
        let all = r.chance(1, 2);
        let ctx = format!("combine_components of {} with {}", show(&sys), if all { "all locations" } else { "what is reachable" });
        let f = "combine_components";
        let c = match obs(|| combine_components(&ts, if all { PruningStrategy::NoPruning } else { PruningStrategy::Reachable })) { Ok(c) => c, Err(p) => no(&s, f, &ctx, format!("panicked: {p}"), "a component") };
        let d = &c.declarations;
        if !d.ints.is_empty() { no(&s, f, &ctx, format!("integers {:?}", d.ints), "none"); }
        for i in 1..dim { if !d.clocks.values().any(|v| *v == i) { no(&s, f, &ctx, format!("clocks {:?}", d.clocks), &format!("a name for clock {i}")); } }
        if let Some((k, _)) = d.clocks.iter().find(|(_, v)| **v == 0 || **v >= dim) { no(&s, f, &ctx, format!("clock {k} of no component"), "clocks of the system"); }
        let ids: Vec<String> = c.locations.iter().map(|l| l.id.clone()).collect();
        let want: Vec<String> = if all { sys.locs().iter().map(|l| l.to_string()).collect() } else { reach(&sys).into_iter().collect() };
        let (mut x, mut y) = (ids.clone(), want.clone()); x.sort(); y.sort();
        if x != y { no(&s, f, &ctx, format!("locations {ids:?}"), &format!("{want:?}")); }
        let pts: Vec<zones::Val> = if dim <= 3 { zones::grid(dim, 4) } else { (0..150).map(|_| zones::rand_val(r, dim, 4)).collect() };
        let val = |g: &Option<B>, v: &[i64]| g.as_ref().map_or(true, |g| exprs::sat(g, d, v));
        let (i, o) = sys.io().unwrap(); let mut used = 0;
        for l in sys.locs() {
            let Some(k) = c.locations.iter().find(|k| k.id == l.to_string()) else { continue };
            let init = Some(&l) == sys.initial().as_ref();
            if k.location_type != if init { LocationType::Initial } else { LocationType::Normal } { no(&s, f, &ctx, format!("{l} is {:?}", k.location_type), if init { "the initial location" } else { "a normal location" }); }
            let inv = sys.invs(&l);
            for v in &pts { let got = val(&k.invariant, v); if got != holds(&inv, v) { no(&s, f, &ctx, format!("invariant of {l}: {:?} is {got} at {v:?}/2", k.invariant), "the system's invariant"); } }
            for (a, inp) in i.iter().map(|a| (a, true)).chain(o.iter().map(|a| (a, false))) {
                let ts = sys.trans(&l, a);
                let es: Vec<&Edge> = c.edges.iter().filter(|e| e.source_location == l.to_string() && &e.sync == a && (e.sync_type == SyncType::Input) == inp).collect();
                used += es.len();
                let fits = |e: &Edge, t: &OTrans| {
                    let mut w: Vec<i64> = (0..dim).map(|i| -100 - i as i64).collect(); for (c, k) in &t.upd { w[*c] = *k; }
                    e.id == t.id.to_string() && e.target_location == t.target.to_string() && upd(e, &c, dim) == w && pts.iter().all(|v| val(&e.guard, v) == holds(&t.guards, v))
                };
                for t in &ts { if pts.iter().any(|v| holds(&t.guards, v)) && !es.iter().any(|e| fits(e, t)) { no(&s, f, &ctx, format!("from {l} on {a}: {:?}", es.iter().map(|e| format!("{} {e}", e.id)).collect::<Vec<_>>()), &format!("an edge for {} to {} with {:?} and updates {:?}", t.id, t.target, t.guards.iter().map(|g| g.0.to_string()).collect::<Vec<_>>(), t.upd)); } }
                for e in &es { if !ts.iter().any(|t| fits(e, t)) { no(&s, f, &ctx, format!("from {l} on {a}: {} {e}", e.id), "only edges the system has"); } }
            }
        }
        if used != c.edges.len() { no(&s, f, &ctx, format!("{} edges that belong nowhere", c.edges.len() - used), "none"); }
        s.note(&ctx);
    }
    s.done();
}
