//! a query is answered on the system it names: recipes, and the verdicts of executed queries against systems built by hand
use reveaal::extract_system_rep::{create_executable_query, get_system_recipe, SystemRecipe};
use reveaal::ModelObjects::Expressions::{ComponentVariable, QueryExpression as Q, SaveExpression, StateExpression as S, SystemExpression as X};
use reveaal::ModelObjects::{Component, Query, State};
use reveaal::ProtobufServer::services::query_request::Settings;
use reveaal::System::extract_state::get_state;
use reveaal::System::reachability::find_specific_path;
use reveaal::System::refine::check_refinement;
use reveaal::System::pruning::prune_system;
use reveaal::System::save_component::{combine_components, PruningStrategy};
use reveaal::TransitionSystems::{CompiledComponent, Composition, Conjunction, Quotient, TransitionSystemPtr};
use std::collections::{BTreeMap, HashSet};
use vreplay::{comps::*, obs, queries::*, Rng, Search};
fn has_quot(e: &X) -> bool { match e { X::Component(..) => false, X::Quotient(..) => true, X::Composition(a, b) | X::Conjunction(a, b) => has_quot(a) || has_quot(b) } }
fn total(e: &X, l: &Lib) -> usize { names(e).iter().map(|(n, _)| l.comps[n].declarations.clocks.len()).sum() }
/// the recipe by hand: components from left to right, the quotients' clock `q`
fn by_hand(e: &X, l: &Lib, next: &mut usize, q: usize) -> SystemRecipe {
    match e {
        X::Component(n, id) => { let mut c = l.comps[n].clone(); c.special_id = id.clone(); let k = c.declarations.clocks.len(); for v in c.declarations.clocks.values_mut() { *v += *next; } *next += k; SystemRecipe::Component(Box::new(c)) }
        X::Composition(a, b) => { let x = by_hand(a, l, next, q); SystemRecipe::Composition(Box::new(x), Box::new(by_hand(b, l, next, q))) }
        X::Conjunction(a, b) => { let x = by_hand(a, l, next, q); SystemRecipe::Conjunction(Box::new(x), Box::new(by_hand(b, l, next, q))) }
        X::Quotient(a, b) => { let x = by_hand(a, l, next, q); SystemRecipe::Quotient(Box::new(x), Box::new(by_hand(b, l, next, q)), q) }
    }
}
fn sys(r: &SystemRecipe, dim: usize, no: &mut u32) -> Result<TransitionSystemPtr, String> {
    let e = |e: Box<_>| { let e: Box<reveaal::System::query_failures::SystemRecipeFailure> = e; format!("{e}") };
    match r {
        SystemRecipe::Component(c) => CompiledComponent::compile((**c).clone(), dim, no).map(|c| c as TransitionSystemPtr).map_err(e),
        SystemRecipe::Composition(a, b) => { let x = sys(a, dim, no)?; Composition::new_ts(x, sys(b, dim, no)?, dim).map_err(e) }
        SystemRecipe::Conjunction(a, b) => { let x = sys(a, dim, no)?; Conjunction::new_ts(x, sys(b, dim, no)?, dim).map_err(e) }
        SystemRecipe::Quotient(a, b, q) => { let x = sys(a, dim, no)?; Quotient::new_ts(x, sys(b, dim, no)?, *q, dim).map_err(e) }
    }
}
fn shape(r: &SystemRecipe) -> String {
    match r {
        SystemRecipe::Component(c) => format!("{}[{:?}] {:?} {:?} ints {:?}", c.name, c.special_id, c.locations, c.edges, c.declarations.ints),
        SystemRecipe::Composition(a, b) => format!("({} || {})", shape(a), shape(b)), SystemRecipe::Conjunction(a, b) => format!("({} && {})", shape(a), shape(b)), SystemRecipe::Quotient(a, b, _) => format!("({} // {})", shape(a), shape(b)),
    }
}
fn parts<'a>(r: &'a SystemRecipe, c: &mut Vec<&'a Component>, q: &mut HashSet<usize>) { match r { SystemRecipe::Component(x) => c.push(x), SystemRecipe::Composition(a, b) | SystemRecipe::Conjunction(a, b) => { parts(a, c, q); parts(b, c, q) } SystemRecipe::Quotient(a, b, i) => { q.insert(*i); parts(a, c, q); parts(b, c, q) } } }
fn clash(rs: &[&SystemRecipe], lib: &Lib, dim: usize) -> Option<String> {
    let (mut c, mut q) = (vec![], HashSet::new());
    for r in rs { parts(r, &mut c, &mut q); }
    if q.len() > 1 { return Some(format!("quotient clocks {q:?}")); }
    let mut seen: HashSet<usize> = q;
    for x in &c {
        let o = &lib.comps[&x.name].declarations.clocks;
        if o.len() != x.declarations.clocks.len() || o.keys().any(|k| !x.declarations.clocks.contains_key(k)) { return Some(format!("{} has clocks {:?}", x.name, x.declarations.clocks)); }
        for (k, i) in &x.declarations.clocks { if !seen.insert(*i) { return Some(format!("clock {i} ({}.{k}) is used twice", x.name)); } }
    }
    if seen.iter().any(|i| *i == 0 || *i > dim) { return Some(format!("clocks {seen:?} with dimension {dim}")); }
    if seen.len() != dim { return Some(format!("{} clocks with dimension {dim}", seen.len())); }
    None
}
fn main() {
    let mut s = Search::new();
    let mut quiet = 0u64; let mut n: BTreeMap<String, u64> = BTreeMap::new();
    while s.more() {
        quiet += 1; if quiet > 400000 { break; }
        let r = &mut s.rng;
        let mut lib = Lib { comps: BTreeMap::new(), settings: Settings { disable_clock_reduction: true }, saved: vec![] };
        let names: Vec<String> = ["A", "B", "C", "D"].iter().map(|x| x.to_string()).collect();
        let wide = r.chance(1, 2);
        for nm in &names {
            let mut o = Opts::new(); o.clocks = 1 + r.below(2); o.locs = 2; o.edges = 4; o.max = 3; o.inv = 2 + r.below(3); o.special = r.chance(1, 6);
            if wide { let k = r.below(3); o.ins = [vec!["a"], vec!["c"], vec![]][k].clone(); let k = r.below(3); o.outs = [vec!["c"], vec!["d"], vec![]][k].clone(); if o.ins == ["c"] && o.outs == ["c"] || o.ins.is_empty() && o.outs.is_empty() { o.outs = vec!["d"]; } } else { o.ins = vec!["a"]; o.outs = vec!["c"]; }
            let mut c = rand_comp(r, nm, 1, &o); if r.chance(1, 8) { c.special_id = Some("old".into()); }
            lib.comps.insert(nm.clone(), c);
        }
        let mut k = 0; let depth = 1 + r.below(3);
        let e = expr(r, depth, &names, &mut k);
        let f = expr(r, 1, &names, &mut k);
        // the recipe
        let (mut dim, mut qi) = (0usize, None);
        let ra = get_system_recipe(&e, &mut lib, &mut dim, &mut qi);
        let one = dim; let q1 = qi;
        let rb = get_system_recipe(&f, &mut lib, &mut dim, &mut qi);
        let both = total(&e, &lib) + total(&f, &lib) + usize::from(has_quot(&e) || has_quot(&f));
        let alone = total(&e, &lib) + usize::from(has_quot(&e));
        let (ha, hb) = { let mut i = 0; let a = by_hand(&e, &lib, &mut i, both); (a, by_hand(&f, &lib, &mut i, both)) };
        let h1 = { let mut i = 0; by_hand(&e, &lib, &mut i, alone) };
        let ctx = format!("{e} and {f} over {:?}", lib.comps);
        if shape(&ra) != shape(&ha) || shape(&rb) != shape(&hb) { s.fail(format!("recipe of {ctx}: {} and {}", shape(&ra), shape(&rb))); }
        if let Some(w) = clash(&[&ra], &lib, one).or(clash(&[&ra, &rb], &lib, dim)) { s.fail(format!("recipe of {ctx}: {w}")); }
        if one != alone || dim != both || q1.is_some() != has_quot(&e) { s.fail(format!("recipe of {ctx}: dimensions {one}, {dim}, expected {alone}, {both}")); }
        let count = { let (mut c, mut q) = (vec![], HashSet::new()); parts(&ra, &mut c, &mut q); c.len() };
        if ra.get_component_count() != count || ra.get_components().len() != count { s.fail(format!("recipe of {ctx}: {} components", ra.get_component_count())); }
        // the queries
        let kind = r.below(6);
        let name = if r.chance(1, 2) { Some("Saved".to_string()) } else { None };
        let loc = |r: &mut Rng, (n, i): &(String, Option<String>), lib: &Lib| S::Location(ComponentVariable { component: n.clone(), special_id: i.clone(), variable: r.pick(&lib.comps[n].locations).id.clone() });
        let state = |r: &mut Rng, all: bool, lib: &Lib| { let v: Vec<S> = vreplay::queries::names(&e).iter().filter_map(|c| if all || r.chance(2, 3) { Some(loc(r, c, lib)) } else { None }).collect(); if v.is_empty() || r.chance(1, 20) { S::Bool(true) } else { S::AND(v) } };
        let from = if r.chance(1, 2) { None } else { let all = r.chance(3, 4); Some(state(r, all, &lib)) };
        let to = state(r, false, &lib);
        let se = SaveExpression { system: e.clone(), name: name.clone() };
        let query = match kind { 0 => Q::Refinement(e.clone(), f.clone()), 1 => Q::Consistency(e.clone()), 2 => Q::Determinism(e.clone()), 3 => Q::Reachability { system: e.clone(), from: from.clone(), to: to.clone() }, 4 => Q::GetComponent(se), _ => Q::Prune(se) };
        let saved = |ts: &TransitionSystemPtr| { let mut c = combine_components(ts, PruningStrategy::Reachable); c.name = name.clone().unwrap_or("Unnamed".into()); summary(&c) };
        let want = obs(|| -> Option<String> {
            let mut no = 0;
            if kind == 0 { let a = sys(&ha, both + 1, &mut no).ok()?; let b = sys(&hb, both + 1, &mut no).ok()?; return Some(format!("refinement {}", check_refinement(a, b).is_ok())); }
            let t = sys(&h1, alone + 1, &mut no).ok()?;
            Some(match kind {
                1 => format!("consistency {}", t.check_determinism().is_ok() && t.check_local_consistency().is_ok()), 2 => format!("determinism {}", t.check_determinism().is_ok()),
                3 => { let st: State = match &from { None => t.get_initial_state()?, Some(x) => { let st = get_state(x, &h1, &t).ok()?; if st.decorated_locations.id.is_partial_location() { return None; } st } }; let en = get_state(&to, &h1, &t).ok()?; format!("reachability {}", find_specific_path(st, en, &t).is_ok()) }
                4 => saved(&t), _ => { let d = t.get_dim(); saved(&prune_system(t, d)) }
            })
        });
        let Ok(want) = want else { continue };
        let got = obs(|| create_executable_query(&Query { query: Some(query.clone()), comment: String::new() }, &mut lib).ok().map(|q| verdict(&q.execute())));
        let got = match got { Ok(g) => g, Err(p) => s.fail(format!("query {query} over {ctx}: expected {want:?}, panicked: {p}")) };
        if got != want { s.fail(format!("query {query} over {ctx}: {got:?}, expected {want:?}")); }
        if kind >= 4 && got.is_some() && (lib.saved.len() != 1 || summary(&lib.saved[0]) != got.clone().unwrap()) { s.fail(format!("query {query} over {ctx}: saved {:?}", lib.saved)); }
        if kind >= 4 && got.is_some() { let ids: HashSet<&String> = lib.saved[0].edges.iter().map(|e| &e.id).collect(); if ids.len() != lib.saved[0].edges.len() { s.fail(format!("query {query} over {ctx}: edge ids of {:?}", lib.saved[0].edges)); } }
        quiet = 0; *n.entry(match &want { None => "refused".into(), Some(w) if kind < 4 => w.clone(), _ => format!("saved {kind}") }).or_default() += 1;
        s.note(&format!("{query}{ctx}"));
    }
    eprintln!("{n:?}");
    s.done()
}
