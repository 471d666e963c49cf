//! clock reduction: the answers of queries with and without it
use reveaal::extract_system_rep::{create_executable_query, get_system_recipe};
use reveaal::TransitionSystems::transition_system::ClockReductionInstruction;
use reveaal::TransitionSystems::TransitionSystem;
use reveaal::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B, QueryExpression as Q, SaveExpression};
use reveaal::ModelObjects::{Component, LocationType, Query};
use reveaal::ProtobufServer::services::query_request::Settings;
use reveaal::System::query_failures::{QueryResult, RefinementFailure, RefinementPrecondition};
use std::collections::BTreeMap;
use vreplay::{comps::*, obs, queries::*, Rng, Search};
/// clocks that nothing depends on, and clocks that always have the same value
fn mangle(r: &mut Rng, c: &mut Component) {
    let mut cl: Vec<String> = c.declarations.clocks.keys().cloned().collect(); cl.sort();
    if cl.len() < 2 { return; }
    let (x, y) = (cl[0].clone(), cl[1].clone());
    let vary = |r: &mut Rng, g: &mut Option<B>| {
        let t = match r.below(3) { 0 => B::GreatEQ(Box::new(A::VarName(y.clone())), Box::new(A::Int(0))), 1 => B::LessEQ(Box::new(A::Int(0)), Box::new(A::VarName(y.clone()))), _ => B::GreatT(Box::new(A::VarName(y.clone())), Box::new(A::Int(-1))) };
        if r.chance(1, 4) { *g = Some(match g.take() { None => t, Some(h) => if r.chance(1, 5) { B::OrOp(Box::new(h), Box::new(t)) } else { B::AndOp(Box::new(h), Box::new(t)) } }); }
    };
    fn swap(g: &mut B, x: &str, y: &str) { match g { B::AndOp(a, b) | B::OrOp(a, b) => { swap(a, x, y); swap(b, x, y) } B::LessEQ(a, b) | B::GreatEQ(a, b) | B::LessT(a, b) | B::GreatT(a, b) | B::EQ(a, b) => { for t in [a, b] { arith(t, x, y) } } _ => {} } }
    fn arith(t: &mut A, x: &str, y: &str) { match t { A::VarName(n) if n == y => *n = x.into(), A::Difference(a, b) => { arith(a, x, y); arith(b, x, y) } _ => {} } }
    match r.below(4) {
        0 => { // y is not looked at, but for comparisons that always hold
            for e in &mut c.edges { if let Some(g) = &mut e.guard { swap(g, &x, &y); } vary(r, &mut e.guard); }
            for l in &mut c.locations { if let Some(g) = &mut l.invariant { swap(g, &x, &y); } if l.invariant.is_some() { vary(r, &mut l.invariant); } }
        }
        1 | 2 => { // x and y are always set together, or nearly always
            for e in &mut c.edges { if let Some(us) = &mut e.update { let mut v = vec![]; for u in us.drain(..) { let mut w = u.clone(); w.variable = if u.variable == x { y.clone() } else { x.clone() }; if r.chance(1, 25) { w.expression = A::Int(2); } v.push(u); if !r.chance(1, 25) { v.push(w); } } *us = v; } }
        }
        _ => {}
    }
}
fn edges(c: &Component) -> Vec<String> { let mut e: Vec<String> = c.edges.iter().map(|e| format!("{}-{}{:?}->{}", e.source_location, e.sync, e.sync_type, e.target_location)).collect(); e.sort(); e }
fn main() {
    let mut s = Search::new();
    let mut quiet = 0u64; let mut n: BTreeMap<String, u64> = BTreeMap::new();
    while s.more() {
        quiet += 1; if quiet > 400000 { break; }
        let r = &mut s.rng;
        let mut lib = Lib { comps: BTreeMap::new(), settings: Settings { disable_clock_reduction: true }, saved: vec![] };
        let nms: Vec<String> = ["A", "B", "C", "D"].iter().map(|x| x.to_string()).collect();
        let k = 1 + r.below(2); let nms = nms[..k + 1].to_vec();
        for nm in &nms {
            let mut o = Opts::new(); o.clocks = 1 + r.below(3); o.locs = 2; o.edges = 4; o.max = 3; o.inv = 2 + r.below(3); o.special = r.chance(1, 10); o.disj = r.chance(1, 6); o.diff = r.chance(1, 6);
            let w = r.below(3); o.ins = [vec!["a"], vec!["c"], vec!["a", "b"]][w].clone(); o.outs = [vec!["c"], vec!["d"], vec!["c", "d"]][w].clone();
            let mut c = rand_comp(r, nm, 1, &o); mangle(r, &mut c);
            if r.chance(1, 60) { for l in &mut c.locations { if l.location_type == LocationType::Initial { l.location_type = LocationType::Normal; } } }
            lib.comps.insert(nm.clone(), c);
        }
        let mut k = 0; let depth = r.below(3);
        let e = expr(r, depth, &nms, &mut k);
        let d2 = r.below(2); let mut f = expr(r, d2, &nms, &mut k);
        if r.chance(1, 4) { f = e.clone(); }
        let kind = r.below(5);
        let se = SaveExpression { system: e.clone(), name: None };
        let query = match kind { 0 | 1 => Q::Refinement(e.clone(), f.clone()), 2 => Q::Consistency(e.clone()), 3 => Q::Determinism(e.clone()), _ => Q::GetComponent(se) };
        let mut run = |off: bool| -> Result<Option<QueryResult>, String> { lib.settings.disable_clock_reduction = off; obs(|| create_executable_query(&Query { query: Some(query.clone()), comment: String::new() }, &mut lib).ok().map(|q| q.execute())) };
        let Ok(want) = run(true) else { continue };
        let got = run(false);
        let ctx = format!("{query} over {:?}", lib.comps);
        let show = |q: &Option<QueryResult>| q.as_ref().map(verdict);
        let got = match got { Ok(g) => g, Err(p) => s.fail(format!("{ctx}: with clock reduction it panicked: {p}")) };
        // the determinism and consistency checks look at the parts of a system one by one, and at guards without following the clocks;
        // where clocks that are always equal are merged, or parts are cut off that the system cannot reach, they become exact:
        // an overlap of two guards that only differ at unequal clocks is no longer reported, an edge that needs it is not saved
        let parts = names(&e).len() > 1 || names(&f).len() > 1;
        let exact = if show(&got) == show(&want) { false } else if kind < 2 { parts && matches!(&want, Some(QueryResult::Refinement(Err(RefinementFailure::Precondition(RefinementPrecondition::InconsistentChild(..)))))) } else {
            let (mut dim, mut q) = (0, None);
            let merged = obs(|| get_system_recipe(&e, &mut lib, &mut dim, &mut q).compile(dim).map(|t| t.find_redundant_clocks().iter().any(|i| matches!(i, ClockReductionInstruction::ReplaceClocks { .. })))).map(|m| m.unwrap_or(false)).unwrap_or(false);
            match (&want, &got) { (Some(QueryResult::GetComponent(w)), Some(QueryResult::GetComponent(g))) => merged && edges(g).iter().all(|x| edges(w).contains(x)), (w, g) => (merged || names(&e).len() > 1) && show(w).map_or(false, |w| w.ends_with("false")) && show(g).map_or(false, |g| g.ends_with("true")) }
        };
        if exact { *n.entry("exact".into()).or_default() += 1; continue; }
        if show(&got) != show(&want) { s.fail(format!("{ctx}: {:?} with clock reduction, {:?} without", show(&got), show(&want))); }
        *n.entry(match show(&want) { None => "refused".into(), Some(w) if kind < 4 => w, _ => "saved".into() }).or_default() += 1;
        s.note(&ctx);
        quiet = 0;
    }
    eprintln!("{n:?}");
    s.done()
}
