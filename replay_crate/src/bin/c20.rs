//! states, transitions and paths as a client sees them, and what is read back
use reveaal::extract_system_rep::{get_system_recipe, SystemRecipe};
use reveaal::DataReader::proto_reader::{proto_decision_to_decision, proto_state_to_state};
use reveaal::ModelObjects::{State, StatePair};
use reveaal::ProtobufServer::services::{self, query_request::Settings};
use reveaal::Simulation::decision::Decision;
use reveaal::System::query_failures::SystemType;
use reveaal::System::specifics::*;
use reveaal::TransitionSystems::{LocationID, TransitionID, TransitionSystemPtr};
use std::collections::BTreeMap;
use vreplay::{comps::*, obs, queries::*, zones::*, Search};
type Info = (String, u32, BTreeMap<String, usize>);
/// the components of the system with their ids, arranged like the recipe
fn infos(t: &TransitionSystemPtr) -> Vec<Info> { t.comp_infos().iter().map(|c| (c.name.clone(), c.id, c.declarations.clocks.iter().map(|(a, b)| (a.clone(), *b)).collect())).collect() }
/// what the client should see of a location; is = the components of the system not passed yet
fn want(l: &LocationID, m: &SystemRecipe, is: &[Info]) -> String {
    let two = |k: &str, a: &LocationID, b: &LocationID, x: &SystemRecipe, y: &SystemRecipe| { let n = x.get_components().len(); format!("{k}({}, {})", want(a, x, &is[..n]), want(b, y, &is[n..])) };
    match (l, m) {
        (LocationID::Simple(x), SystemRecipe::Component(_)) => format!("{}#{}.{x}", is[0].0, is[0].1),
        (LocationID::Special(k), _) => format!("special {k:?}"),
        (LocationID::Composition(a, b), SystemRecipe::Composition(x, y)) => two("Composition", a, b, x, y),
        (LocationID::Conjunction(a, b), SystemRecipe::Conjunction(x, y)) => two("Conjunction", a, b, x, y),
        (LocationID::Quotient(a, b), SystemRecipe::Quotient(x, y, _)) => two("Quotient", a, b, x, y),
        _ => format!("? {l}"),
    }
}
fn seen(l: &SpecificLocation) -> String {
    match l {
        SpecificLocation::ComponentLocation { comp, location_id } => format!("{}#{}.{location_id}", comp.name, comp.id),
        SpecificLocation::SpecialLocation(k) => format!("special {k:?}"),
        SpecificLocation::BranchLocation(a, b, k) => format!("{}({}, {})", match k { SystemType::Conjunction => "Conjunction", SystemType::Composition => "Composition", SystemType::Quotient => "Quotient", SystemType::Refinement => "Refinement", _ => "?" }, seen(a), seen(b)),
    }
}
fn sent(l: &services::LocationTree) -> String {
    use services::location_tree::NodeType::*;
    match l.node_type.as_ref() {
        Some(LeafLocation(x)) => { let c = x.component_instance.as_ref().unwrap(); format!("{}#{}.{}", c.component_name, c.component_index, x.id) }
        Some(SpecialLocation(0)) => "special Universal".into(), Some(SpecialLocation(1)) => "special Error".into(),
        Some(BinaryLocationOp(b)) => format!("{}({}, {})", match b.operator { 0 => "Conjunction", 1 => "Composition", 2 => "Quotient", 3 => "Refinement", _ => "?" }, sent(b.left.as_ref().unwrap()), sent(b.right.as_ref().unwrap())),
        x => format!("? {x:?}"),
    }
}
/// the edges of a transition
fn edges(id: &TransitionID, m: &SystemRecipe, is: &[Info]) -> Vec<String> {
    let n = |x: &SystemRecipe| x.get_components().len();
    match (id, m) {
        (TransitionID::Simple(e), SystemRecipe::Component(_)) => vec![format!("{}#{}.{e}", is[0].0, is[0].1)],
        (TransitionID::None, _) => vec![],
        (TransitionID::Composition(a, b), SystemRecipe::Composition(x, y)) | (TransitionID::Conjunction(a, b), SystemRecipe::Conjunction(x, y)) => { let mut v = edges(a, x, &is[..n(x)]); v.extend(edges(b, y, &is[n(x)..])); v }
        (TransitionID::Quotient(a, b), SystemRecipe::Quotient(x, y, _)) => { let mut v = vec![]; for e in a { v.extend(edges(e, x, &is[..n(x)])) } for e in b { v.extend(edges(e, y, &is[n(x)..])) } v }
        _ => vec![format!("? {id}")],
    }
}
/// the clock a variable of a constraint may stand for
fn clocks(v: &SpecificClockVar, is: &[Info]) -> Vec<usize> {
    match v {
        SpecificClockVar::Zero => vec![0],
        SpecificClockVar::SystemClock(k) => if is.iter().any(|i| i.2.values().any(|c| c == k)) { vec![] } else { vec![*k] },
        SpecificClockVar::ComponentClock(c) => is.iter().filter(|i| i.0 == c.comp.name && i.1 == c.comp.id).filter_map(|i| i.2.get(&c.name).copied()).collect(),
    }
}
fn pclocks(v: &services::Clock, is: &[Info]) -> Vec<usize> {
    use services::clock::Clock::*;
    match v.clock.as_ref().unwrap() {
        ZeroClock(_) => vec![0],
        SystemClock(k) => if is.iter().any(|i| i.2.values().any(|c| *c == k.clock_index as usize)) { vec![] } else { vec![k.clock_index as usize] },
        ComponentClock(c) => { let q = c.component_instance.as_ref().unwrap(); is.iter().filter(|i| i.0 == q.component_name && i.1 == q.component_index).filter_map(|i| i.2.get(&c.clock_name).copied()).collect() }
    }
}
/// (clocks i, clocks j, strict, bound): is v in the zone that the constraints describe? None: a clock is not named
fn inside(d: &[Vec<(Vec<usize>, Vec<usize>, bool, i32)>], v: &[i64]) -> Option<bool> {
    let mut any = false;
    for c in d { let mut all = true; for (i, j, s, b) in c { if i.len() != 1 || j.len() != 1 { return None; } let x = v[i[0]] - v[j[0]]; all &= if *s { x < 2 * *b as i64 } else { x <= 2 * *b as i64 }; } any |= all; }
    Some(any)
}
fn said(d: &SpecificDisjunction, is: &[Info]) -> Vec<Vec<(Vec<usize>, Vec<usize>, bool, i32)>> { d.conjunctions.iter().map(|c| c.constraints.iter().map(|c| (clocks(&c.i, is), clocks(&c.j, is), c.strict, c.c)).collect()).collect() }
fn psaid(d: &services::Disjunction, is: &[Info]) -> Vec<Vec<(Vec<usize>, Vec<usize>, bool, i32)>> { d.conjunctions.iter().map(|c| c.constraints.iter().map(|c| (pclocks(c.x.as_ref().unwrap(), is), pclocks(c.y.as_ref().unwrap(), is), c.strict, c.c)).collect()).collect() }
fn zone_ok(f: &edbm::zones::OwnedFederation, p: &SpecificDisjunction, is: &[Info], dim: usize, s: &mut Search) -> Result<(), String> {
    let m: services::Disjunction = p.clone().into();
    let (d, e) = (said(p, is), psaid(&m, is));
    for _ in 0..40 {
        let v = if dim == 1 { vec![0] } else { rand_val(&mut s.rng, dim, 6) };
        let h = has(f, &v);
        for (k, x) in [("constraints", &d), ("message", &e)] { match inside(x, &v) { Some(g) if g == h => {} g => return Err(format!("twice the clocks {v:?} are {} the zone, by the {k} {g:?}: {p:?}", if h { "in" } else { "not in" })) } }
        if dim == 1 { break; }
    }
    Ok(())
}
fn state_ok(st: &State, sp: &SpecificState, m: &SystemRecipe, is: &[Info], ts: &TransitionSystemPtr, s: &mut Search) -> Result<(), String> {
    let w = want(&st.decorated_locations.id, m, is);
    if seen(&sp.locations) != w { return Err(format!("its location {w} is shown as {}", seen(&sp.locations))); }
    let p: services::State = sp.clone().into();
    if sent(p.location_tree.as_ref().unwrap()) != w { return Err(format!("its location {w} is sent as {}", sent(p.location_tree.as_ref().unwrap()))); }
    zone_ok(st.zone_ref(), &sp.constraints, is, ts.get_dim(), s)?;
    back_ok(st, &obs(|| proto_state_to_state(p, ts)).map_err(|e| format!("reading it back panics: {e}"))?)
}
fn back_ok(st: &State, b: &State) -> Result<(), String> {
    if format!("{:?}", b.decorated_locations) != format!("{:?}", st.decorated_locations) { return Err(format!("it is read back at {:?}, not {:?}", b.decorated_locations, st.decorated_locations)); }
    if !b.zone_ref().equals(st.zone_ref()) { return Err(format!("its zone {:?} is read back as {:?}", st.zone_ref().minimal_constraints(), b.zone_ref().minimal_constraints())); }
    Ok(())
}
fn main() {
    let mut s = Search::new();
    let mut n: BTreeMap<&str, u64> = BTreeMap::new(); let mut quiet = 0u64;
    while s.more() {
        quiet += 1; if quiet > 400000 { break; }
        let r = &mut s.rng;
        let mut lib = Lib { comps: BTreeMap::new(), settings: Settings { disable_clock_reduction: true }, saved: vec![] };
        let nms: Vec<String> = ["A", "B", "C"].iter().map(|x| x.to_string()).collect();
        let kind = r.below(3);
        for (i, nm) in nms.iter().enumerate() {
            let mut o = Opts::new(); o.clocks = 1 + r.below(2); o.locs = 1 + r.below(3); o.edges = 2 + r.below(4); o.max = 3; o.inv = 2 + r.below(3);
            match kind { 0 => { o.ins = vec![["a", "b", "c"][i]]; o.outs = vec![["d", "e", "f"][i]]; } 1 => { o.ins = vec!["a"]; o.outs = vec!["d"]; } _ => { o.ins = vec![["a", "d", "b"][i]]; o.outs = vec![["d", "b", "e"][i]]; } }
            let mut c = rand_comp(r, nm, 1, &o);
            // names that differ little
            if r.chance(1, 3) {
                let k = r.below(4); let w = |x: &str| { let n = x[1..].to_string(); let n: usize = n.parse().unwrap_or(0); match k { 0 => ["l", "L", "lL", "LL"][n % 4].to_string(), 1 => "l".repeat(n + 1), 2 => ["l", "l ", " l", "l1"][n % 4].to_string(), _ => ["l.l", "l", ".l", "l."][n % 4].to_string() } };
                for l in &mut c.locations { l.id = w(&l.id); }
                for e in &mut c.edges { e.source_location = w(&e.source_location); e.target_location = w(&e.target_location); }
            }
            // edges of the same name in every component
            if r.chance(1, 3) { for e in &mut c.edges { e.id = e.id[1..].to_string(); } }
            // a name of several components, and several names of one clock
            if r.chance(1, 12) { if let Some(x) = c.declarations.clocks.keys().next().cloned() { let k = c.declarations.clocks[&x]; c.declarations.clocks.insert("zz".into(), k); } }
            lib.comps.insert(nm.clone(), c);
        }
        let mut k = 0; let depth = 1 + r.below(2);
        let (e, e2) = (expr(r, depth, &nms, &mut k), expr(r, 1, &nms, &mut k));
        let (mut dim, mut q) = (0, None);
        let Ok(Ok((m, m2, ts, ts2))) = obs(|| -> Result<_, ()> { let m = get_system_recipe(&e, &mut lib, &mut dim, &mut q); let m2 = get_system_recipe(&e2, &mut lib, &mut dim, &mut None); let t = m.clone().compile(dim).map_err(|_| ())?; let u = m2.clone().compile(dim).map_err(|_| ()).ok(); Ok((m, m2, t, u)) }) else { continue };
        let is = infos(&ts);
        let names: Vec<String> = m.get_components().iter().map(|c| c.name.clone()).collect();
        let ctx0 = format!("{e}");
        if is.iter().map(|i| i.0.clone()).collect::<Vec<_>>() != names { s.fail(format!("{ctx0}: its components are {names:?}, listed as {is:?}")); }
        if (0..is.len()).any(|i| (0..i).any(|j| is[i].1 == is[j].1)) { s.fail(format!("{ctx0}: two components have one id: {is:?}")); }
        let Ok(Some(mut st)) = obs(|| ts.get_initial_state()) else { continue };
        let show_all = |st: &State| format!("{e} over {:?}, state {} | {:?}", m.get_components().iter().map(|c| format!("{c:?}")).collect::<Vec<_>>(), st.decorated_locations.id, st.zone_ref().minimal_constraints());
        let mut ds: Vec<Decision> = vec![];
        for _ in 0..4 {
            let sp = match obs(|| SpecificState::from_state(&st, &*ts)) { Ok(x) => x, Err(p) => s.fail(format!("{}: panic {p}", show_all(&st))) };
            if let Err(x) = state_ok(&st, &sp, &m, &is, &ts, &mut s) { s.fail(format!("{}: {x}", show_all(&st))); }
            *n.entry("states").or_default() += 1;
            if sp.constraints.conjunctions.len() > 1 { *n.entry("many zones").or_default() += 1; }
            let next = match obs(|| Decision::get_decisions_from_state(st.clone(), &ts)) { Ok(x) => x, Err(_) => break };
            if next.is_empty() { break; }
            let k = s.rng.below(next.len());
            let d = next[k].clone();
            st = d.next_state.clone();
            ds.push(d);
        }
        // an empty state, a path, and every decision of it there and back
        if s.rng.chance(1, 2) && ts.get_dim() > 1 { let mut x = st.clone(); let f = rand_fed(&mut s.rng, ts.get_dim(), 4); let f = x.decorated_locations.clone().apply_invariants(f); x.update_zone(|_| f); let sp = SpecificState::from_state(&x, &*ts); if sp.constraints.conjunctions.len() > 1 { *n.entry("many zones").or_default() += 1; } if let Err(y) = state_ok(&x, &sp, &m, &is, &ts, &mut s) { s.fail(format!("{}: {y}", show_all(&x))); } }
        if s.rng.chance(1, 10) { let mut x = st.clone(); x.update_zone(|z| z.set_empty()); let sp = SpecificState::from_state(&x, &*ts); if let Err(y) = state_ok(&x, &sp, &m, &is, &ts, &mut s) { s.fail(format!("{}: {y}", show_all(&x))); } }
        let path = reveaal::System::reachability::Path { path: ds.clone() };
        let sp = match obs(|| SpecificPath::from_path(&path, &*ts)) { Ok(x) => x, Err(p) => s.fail(format!("{ctx0}: a path panics {p}: {:?}", ds.iter().map(|d| (&d.action, d.transition.as_ref().map(|t| t.id.to_string()))).collect::<Vec<_>>())) };
        if sp.path.len() != ds.len() { s.fail(format!("{ctx0}: a path of {} steps is shown with {}", ds.len(), sp.path.len())); }
        for (d, x) in ds.iter().zip(&sp.path) {
            let at = format!("{}: step {}", show_all(&d.state), d.action);
            if x.action != d.action { s.fail(format!("{at}: shown with {}", x.action)); }
            if let Err(y) = state_ok(&d.state, &x.source_state, &m, &is, &ts, &mut s) { s.fail(format!("{at}, before: {y}")); }
            if let Err(y) = state_ok(&d.next_state, &x.destination_state, &m, &is, &ts, &mut s) { s.fail(format!("{at}, after: {y}")); }
            let w = edges(&d.transition.as_ref().unwrap().id, &m, &is);
            let g: Vec<String> = x.edges.iter().map(|e| format!("{}#{}.{}", e.comp.name, e.comp.id, e.edge_id)).collect();
            if g != w { s.fail(format!("{at}: its edges {w:?} are shown as {g:?}")); }
            if w.len() > 1 { *n.entry("many edges").or_default() += 1; }
            let p: services::Decision = x.clone().into();
            let g: Vec<String> = p.edges.iter().map(|e| { let c = e.component_instance.as_ref().unwrap(); format!("{}#{}.{}", c.component_name, c.component_index, e.id) }).collect();
            if g != w || p.action != d.action { s.fail(format!("{at}: its edges {w:?} are sent as {g:?} of {}", p.action)); }
            let b = match obs(|| proto_decision_to_decision(p, &ts)) { Ok(b) => b, Err(y) => s.fail(format!("{at}: reading it back panics: {y}")) };
            if b.action != d.action { s.fail(format!("{at}: read back as {}", b.action)); }
            if let Err(y) = back_ok(&d.state, &b.state) { s.fail(format!("{at}, before: {y}")); }
            if let Err(y) = back_ok(&d.next_state, &b.next_state) { s.fail(format!("{at}, after: {y}")); }
            *n.entry("steps").or_default() += 1;
        }
        // a pair of states
        if let Some(u) = &ts2 {
            let is2 = infos(u);
            if let (Some(a), Some(b)) = (ts.get_initial_location(), u.get_initial_location()) {
                let mut p = StatePair::from_locations(ts.get_dim(), if s.rng.chance(1, 2) { st.decorated_locations.clone() } else { a }, b);
                let f = rand_fed(&mut s.rng, ts.get_dim(), 4);
                p.set_zone(f);
                let x = match obs(|| SpecificState::from_state_pair(&p, &*ts, &**u)) { Ok(x) => x, Err(y) => s.fail(format!("a pair of {e} and {e2} panics: {y}")) };
                let w = format!("Refinement({}, {})", want(&p.locations1.id, &m, &is), want(&p.locations2.id, &m2, &is2));
                if seen(&x.locations) != w { s.fail(format!("a pair of {e} and {e2} at {w} is shown at {}", seen(&x.locations))); }
                let pm: services::State = x.clone().into();
                if sent(pm.location_tree.as_ref().unwrap()) != w { s.fail(format!("a pair of {e} and {e2} at {w} is sent at {}", sent(pm.location_tree.as_ref().unwrap()))); }
                // the ids of the two sides may be the same; only names of clocks of one side are looked up then
                let both: Vec<Info> = is.iter().chain(&is2).cloned().collect();
                let clear = (0..both.len()).all(|i| (0..i).all(|j| (&both[i].0, both[i].1) != (&both[j].0, both[j].1)));
                if clear { *n.entry("pairs").or_default() += 1; if let Err(y) = zone_ok(p.ref_zone(), &x.constraints, &both, ts.get_dim(), &mut s) { s.fail(format!("a pair of {e} and {e2} over {both:?}: {y}")); } }
            }
        }
        let key = format!("{} {:?}", show_all(&st), infos(&ts)); s.note(&key);
        quiet = 0;
    }
    eprintln!("{n:?}");
    s.done()
}
