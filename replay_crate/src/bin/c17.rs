//! loaded components accept every input everywhere, and zones are written as guards with the same meaning
use reveaal::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};
use reveaal::ModelObjects::{Component, Edge, Location, SyncType};
use edbm::util::constraints::Conjunction;
use reveaal::ComponentLoader;
use reveaal::DataReader::component_loader::ComponentContainer;
use std::collections::HashMap;
use vreplay::{comps::*, exprs, obs, zones, Rng, Search};
fn loc<'a>(c: &'a Component, id: &str) -> &'a Location { c.locations.iter().find(|l| l.id == id).unwrap() }
fn holds(g: &Option<B>, c: &Component, v: &[i64]) -> bool { g.as_ref().map_or(true, |g| exprs::sat(g, &c.declarations, v)) }
fn takes(c: &Component, e: &Edge, v: &[i64]) -> bool {
    let mut w = v.to_vec();
    for u in e.update.iter().flatten() { let A::Int(k) = u.expression else { panic!() }; w[c.declarations.clocks[&u.variable]] = 2 * k as i64; }
    holds(&e.guard, c, v) && holds(&loc(c, &e.target_location).invariant, c, &w)
}
fn no(s: &Search, f: &str, i: String, got: String, want: String) -> ! { s.fail(format!("{f}: {got}, expected {want}; input {i}")) }
fn main() {
    let mut s = Search::new();
    while s.more() {
        let mut rng = Rng::new(s.rng.next()); let r = &mut rng;
        if r.chance(1, 4) {
            let dim = 2 + r.below(2); let max = 3; let f = zones::rand_fed(r, dim, max);
            let names: HashMap<String, usize> = (1..dim).map(|i| (exprs::CLOCKS[i - 1].to_string(), i)).collect();
            let d = exprs::decls(dim);
            let mut z = f.minimal_constraints();
            if r.chance(1, 5) { z.conjunctions.insert(r.below(z.conjunctions.len() + 1), Conjunction::new(vec![])); }
            if z.conjunctions.len() > 1 && r.chance(1, 5) { z.conjunctions.reverse(); }
            let has = |v: &[i64]| z.conjunctions.iter().any(|c| c.constraints.iter().all(|k| { let d = v[k.i] - v[k.j]; let b = 2 * k.ineq().bound() as i64; if k.ineq().is_strict() { d < b } else { d <= b } }));
            let ctx = format!("from_disjunction of {z:?}");
            match obs(|| B::from_disjunction(&z, &names)) {
                Err(p) => no(&s, "BoolExpression::from_disjunction", ctx, format!("panicked: {p}"), "a guard".into()),
                Ok(g) => for v in zones::grid(dim, max + 1) {
                    let got = g.as_ref().map_or(true, |g| exprs::sat(g, &d, &v));
                    if got != has(&v) { no(&s, "BoolExpression::from_disjunction", format!("{ctx} at {v:?}/2"), format!("{g:?} is {got}"), format!("{}", !got)); }
                }
            }
            s.note(&ctx); continue;
        }
        let mut o = Opts::new(); if r.chance(1, 4) { o.ins = vec!["a", "ab"]; } o.clocks = 1 + r.below(2); o.locs = 3; o.edges = 5; o.max = 3; o.inv = 2; o.diff = r.chance(1, 3); o.disj = r.chance(1, 3); o.special = r.chance(1, 6);
        let n = 1 + r.below(2);
        let mut cs: Vec<Component> = (0..n).map(|i| { let nm = if i == 1 && r.chance(1, 2) { "B" } else { "A" }; rand_comp(r, nm, 1, &o) }).collect();
        for c in &mut cs {
            let cl: Vec<String> = { let mut v: Vec<_> = c.declarations.clocks.keys().cloned().collect(); v.sort(); v };
            for l in &mut c.locations { if r.chance(1, 5) { l.invariant = Some(guard(r, &cl, &o)); } }
            for e in &mut c.edges { if e.sync_type == SyncType::Input && r.chance(1, 15) { e.sync = "*".into(); } else if r.chance(1, 20) { e.sync = "a".into(); e.sync_type = SyncType::Output; } }
        }
        let ctx = format!("{cs:?}");
        let mut m = match obs(|| ComponentContainer::from(cs.clone())) { Ok(m) => m, Err(p) => { no(&s, "ComponentContainer::from", ctx, format!("panicked: {p}"), "loaded components".into())} };
        for name in ["A", "B"] {
            let Some(o) = cs.iter().rev().find(|c| c.name == name) else { if m.loaded_components.contains_key(name) { no(&s, "ComponentContainer::from", ctx.clone(), format!("has {name}"), "no such component".into()); } continue };
            if !m.loaded_components.contains_key(name) { no(&s, "ComponentContainer::from", ctx.clone(), format!("lacks {name}"), "all components".into())}
            let c = m.get_component(name).clone();
            let k = o.edges.len();
            if c.name != o.name || c.declarations != o.declarations || c.locations != o.locations || c.edges.len() < k || c.edges[..k] != o.edges[..] { no(&s, "make_input_enabled", ctx.clone(), format!("{c:?}"), "the component with more edges".into())}
            let mut ins: Vec<String> = o.edges.iter().filter(|e| e.sync_type == SyncType::Input && e.sync != "*").map(|e| e.sync.clone()).collect(); ins.sort(); ins.dedup();
            let news = &c.edges[k..];
            for e in news { if e.sync_type != SyncType::Input || !ins.contains(&e.sync) || e.source_location != e.target_location || e.update.as_ref().map_or(false, |u| !u.is_empty()) { no(&s, "make_input_enabled", ctx.clone(), format!("adds {e}"), "only loops that change nothing".into()); } }
            let dim = 1 + o.declarations.clocks.len();
            for l in &o.locations { for a in &ins { for v in zones::grid(dim, 5) {
                if !holds(&l.invariant, o, &v) { continue; }
                let own = o.edges.iter().any(|e| e.sync_type == SyncType::Input && e.source_location == l.id && (e.sync == *a || e.sync == "*") && takes(o, e, &v));
                let new = news.iter().filter(|e| e.source_location == l.id && e.sync == *a && holds(&e.guard, &c, &v)).count();
                if own && new > 0 || !own && new == 0 { no(&s, "make_input_enabled", format!("{o:?}: {a} at {} with {v:?}/2", l.id), format!("{new} loops added by {}", news.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(", ")), if own { "none: the component has an edge for it".into() } else { "a loop".into() }); }
            } } }
            s.note(&if news.is_empty() { String::new() } else { format!("{o:?}") });
        }
    }
    s.done();
}
