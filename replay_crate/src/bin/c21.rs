//! requests: on which components they are answered, and which steps a simulation offers
use reveaal::extract_system_rep::{create_executable_query, get_system_recipe, ExecutableQueryError};
use reveaal::DataReader::component_loader::ModelCache;
use reveaal::DataReader::json_reader::json_to_component;
use reveaal::DataReader::json_writer::component_to_json;
use reveaal::DataReader::parse_queries::parse_to_query;
use reveaal::DataReader::proto_reader::proto_state_to_state;
use reveaal::ModelObjects::Expressions::SystemExpression as X;
use reveaal::ModelObjects::{Component, State};
use reveaal::ProtobufServer::services::{self, query_request::Settings, query_response::Result as Answer};
use reveaal::ProtobufServer::ConcreteEcdarBackend as Backend;
use reveaal::System::input_enabler::make_input_enabled;
use reveaal::System::query_failures::QueryResult as Q;
use reveaal::System::specifics::SpecificState;
use reveaal::TransitionSystems::{TransitionID, TransitionSystemPtr};
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use vreplay::{comps::*, obs, queries::*, Rng, Search};
fn text(e: &X) -> String { match e { X::Component(n, _) => n.clone(), X::Composition(a, b) => format!("({} || {})", text(a), text(b)), X::Conjunction(a, b) => format!("({} && {})", text(a), text(b)), X::Quotient(a, b) => format!("({} // {})", text(a), text(b)) } }
fn plain(e: X) -> X { match e { X::Component(n, _) => X::Component(n, None), X::Composition(a, b) => X::Composition(Box::new(plain(*a)), Box::new(plain(*b))), X::Conjunction(a, b) => X::Conjunction(Box::new(plain(*a)), Box::new(plain(*b))), X::Quotient(a, b) => X::Quotient(Box::new(plain(*a)), Box::new(plain(*b))) } }
/// the edges of a transition, left to right
fn edges(id: &TransitionID) -> Vec<String> { match id { TransitionID::Simple(e) => vec![e.clone()], TransitionID::None => vec![], TransitionID::Composition(a, b) | TransitionID::Conjunction(a, b) => { let mut v = edges(a); v.extend(edges(b)); v } TransitionID::Quotient(a, b) => a.iter().chain(b).flat_map(edges).collect() } }
/// the components of a request as a model
fn model(cs: &[Component]) -> BTreeMap<String, Component> { let mut m = BTreeMap::new(); for c in cs { let mut c = c.clone(); let ins = { let mut v: Vec<String> = vec![]; for e in &c.edges { if e.sync_type == reveaal::ModelObjects::SyncType::Input && !v.contains(&e.sync) && e.sync != "*" { v.push(e.sync.clone()) } } v }; make_input_enabled(&mut c, &ins); m.insert(c.name.clone(), c); } m }
fn system(e: &str, m: &BTreeMap<String, Component>) -> Result<TransitionSystemPtr, String> {
    obs(|| {
        let mut lib = Lib { comps: m.clone(), settings: Settings { disable_clock_reduction: true }, saved: vec![] };
        let x = reveaal::DataReader::parse_queries::parse_to_system_expr(e).unwrap();
        let mut dim = 0; let r = get_system_recipe(&x, &mut lib, &mut dim, &mut None); r.compile(dim).map_err(|e| format!("{e}"))
    })?
}
/// the steps possible from a state: action, edges, the part of the state it can be taken from, the state after it
fn steps(st: &State, ts: &TransitionSystemPtr) -> Vec<(String, Vec<String>, State, State)> {
    let mut v = vec![];
    for a in ts.get_actions() { for t in ts.next_transitions(&st.decorated_locations, &a) {
        let mut src = st.clone(); let f = t.get_allowed_federation(); src.update_zone(|z| z.intersection(&f));
        if src.zone_ref().is_empty() { continue; }
        let mut dst = src.clone(); if !t.use_transition(&mut dst) { continue; }
        v.push((a.clone(), edges(&t.id), src, dst));
    } }
    v
}
fn same(p: &Option<services::State>, s: &State, ts: &TransitionSystemPtr) -> bool {
    let Some(p) = p.clone() else { return false };
    let w: services::State = SpecificState::from_state(s, &**ts).into();
    if p.location_tree != w.location_tree { return false; }
    match obs(|| proto_state_to_state(p, ts)) { Ok(b) => b.decorated_locations == s.decorated_locations && b.zone_ref().equals(s.zone_ref()), Err(_) => false }
}
fn same_steps(ps: &[services::Decision], w: &[(String, Vec<String>, State, State)], ts: &TransitionSystemPtr) -> Result<(), String> {
    let mut left: Vec<usize> = (0..w.len()).collect();
    for p in ps {
        let es: Vec<String> = p.edges.iter().map(|e| e.id.clone()).collect();
        match left.iter().position(|&i| w[i].0 == p.action && w[i].1 == es && same(&p.source, &w[i].2, ts) && same(&p.destination, &w[i].3, ts)) {
            Some(k) => { left.remove(k); }
            None => return Err(format!("it is offered {} by {es:?}, which is none of the possible steps {:?}", p.action, left.iter().map(|&i| (&w[i].0, &w[i].1, w[i].2.zone_ref().minimal_constraints(), w[i].3.zone_ref().minimal_constraints())).collect::<Vec<_>>())),
        }
    }
    if let Some(&i) = left.first() { return Err(format!("the step {} by {:?} is not offered", w[i].0, w[i].1)); }
    Ok(())
}
fn comps(r: &mut Rng, kind: usize) -> Vec<Component> {
    ["A", "B", "C"].iter().enumerate().map(|(i, nm)| {
        let mut o = Opts::new(); o.clocks = 1 + r.below(2); o.locs = 1 + r.below(3); o.edges = 2 + r.below(4); o.max = 3; o.inv = 2 + r.below(3);
        match kind { 0 => { o.ins = vec![["a", "b", "c"][i]]; o.outs = vec![["d", "e", "f"][i]]; } 1 => { o.ins = vec!["a"]; o.outs = vec!["d"]; } _ => { o.ins = vec![["a", "d", "b"][i]]; o.outs = vec![["d", "b", "e"][i]]; } }
        // as a client sends it
        json_to_component(&component_to_json(&rand_comp(r, nm, 1, &o))).expect("json")
    }).collect()
}
fn msg(cs: &[Component]) -> Vec<services::Component> { cs.iter().map(|c| services::Component { rep: Some(services::component::Rep::Json(component_to_json(c))) }).collect() }
/// the cache by itself: what a user gets is what the same user put there with the same hash
fn cache(s: &mut Search) {
    let size = 1 + s.rng.below(4);
    let mut c = ModelCache::new(size);
    let mut put: HashMap<(i32, u32), Vec<Vec<String>>> = HashMap::new();
    let mut log = vec![]; let mut hits = 0;
    let k0 = 1 + s.rng.below(5); let three: Vec<i32> = vec![1, 2, [3, -1, i32::MAX, 0][s.rng.below(4)]];
    let hs: Vec<u32> = vec![0, 1, 2, [3, u32::MAX, 1 << 31, 257, 65537, (1 << 31) + 2][s.rng.below(6)]];
    for n in 0..4 * k0 {
        let (u, h) = (*s.rng.pick(&three), *s.rng.pick(&hs));
        if s.rng.chance(1, 2) {
            let nm = format!("M{n}");
            let m: HashMap<String, Component> = [(nm.clone(), Component { name: nm.clone(), declarations: reveaal::ModelObjects::Declarations::empty(), locations: vec![], edges: vec![], special_id: None })].into();
            log.push(format!("user {u} puts {nm} with hash {h}"));
            let got = match obs(|| c.insert_model(u, h, Arc::new(m))) { Ok(x) => x, Err(p) => s.fail(format!("cache of {size}: {log:?}: panic {p}")) };
            let names: Vec<String> = got.loaded_components.keys().cloned().collect();
            if names != [nm.clone()] { s.fail(format!("cache of {size}: {log:?}: the model handed back has {names:?}")); }
            put.entry((u, h)).or_default().push(vec![nm]);
        } else {
            log.push(format!("user {u} asks with hash {h}"));
            let got = match obs(|| c.get_model(u, h)) { Ok(x) => x, Err(p) => s.fail(format!("cache of {size}: {log:?}: panic {p}")) };
            if let Some(g) = got {
                let names: Vec<String> = g.loaded_components.keys().cloned().collect();
                if h == 0 { s.fail(format!("cache of {size}: {log:?}: a model for hash 0: {names:?}")); }
                if !put.get(&(u, h)).map_or(false, |v| v.contains(&names)) { s.fail(format!("cache of {size}: {log:?}: the user gets {names:?}, which it did not put there with this hash")); }
                hits += 1;
            }
        }
    }
    if hits > 0 { s.note(&log.join("; ")); }
}
fn main() {
    let mut s = Search::new();
    let mut n: BTreeMap<&str, u64> = BTreeMap::new(); let mut quiet = 0u64;
    while s.more() {
        quiet += 1; if quiet > 400000 { break; }
        if s.rng.chance(1, 3) { cache(&mut s); *n.entry("caches").or_default() += 1; continue; }
        let cache = if s.rng.chance(1, 2) { ModelCache::default() } else { ModelCache::new(1 + s.rng.below(3)) };
        let kind = s.rng.below(3);
        let users = [1, 2, 7];
        // a hash names one list of components
        let sets: Vec<Vec<Component>> = (0..3).map(|_| comps(&mut s.rng, kind)).collect();
        let hashes: [u32; 3] = if s.rng.chance(1, 4) { [0, 0, 0] } else if s.rng.chance(1, 3) { [0, 5, 9] } else { [4, 5, u32::MAX] };
        let mut sent: Vec<(i32, usize)> = vec![]; // which user sent which set
        let mut log: Vec<String> = vec![];
        for _ in 0..1 + s.rng.below(5) {
            let (u, k) = (*s.rng.pick(&users), s.rng.below(3));
            let mut bring = sets[k].clone();
            // components of one name: the last one counts; and parts that cannot be read are left out
            let twice = hashes[k] == 0 && s.rng.chance(1, 4); if twice { let x = sets[(k + 1) % 3][s.rng.below(3)].clone(); bring.push(x); }
            let mut ms = msg(&bring);
            if s.rng.chance(1, 6) { let at = s.rng.below(ms.len() + 1); ms.insert(at, services::Component { rep: [None, Some(services::component::Rep::Json("{".into()))][s.rng.below(2)].clone() }); }
            // a user that sent them before may leave them out, if nothing can have pushed them out of the cache
            let again = hashes[k] != 0 && sent.last() == Some(&(u, k)) && s.rng.chance(1, 2);
            if again { ms = vec![]; }
            sent.push((u, k));
            let m = model(&bring);
            let mut c = 0; let depth = 1 + s.rng.below(2);
            let nms: Vec<String> = ["A", "B", "C"].iter().map(|x| x.to_string()).collect();
            let e = text(&plain(expr(&mut s.rng, depth, &nms, &mut c)));
            let info = Some(services::ComponentsInfo { components: ms, components_hash: hashes[k] });
            let show = bring.iter().map(|c| format!("{c:?}")).collect::<Vec<_>>();
            let what = format!("user {u}, hash {}, set {k}{}: {e}", hashes[k], if again { " (not sent again)" } else { "" });
            log.push(what.clone());
            if s.rng.chance(1, 3) {
                let f = text(&plain(expr(&mut s.rng, 1, &nms, &mut c)));
                let q = match s.rng.below(4) { 0 => format!("consistency: {e}"), 1 => format!("determinism: {e}"), 2 => format!("refinement: {e} <= {f}"), _ => format!("consistency: {e}; determinism: {e}") };
                let id = s.rng.int(-3, 1000);
                let req = services::QueryRequest { user_id: u, query_id: id, query: q.clone(), components_info: info, settings: if s.rng.chance(1, 2) { None } else { Some(Settings { disable_clock_reduction: s.rng.chance(1, 2) }) } };
                let off = req.settings.as_ref().map_or(true, |x| x.disable_clock_reduction);
                let got = obs(|| Backend::handle_send_query(req, cache.clone()));
                let qs = parse_to_query(&q);
                // refused before the components are looked at
                if qs.len() != 1 { sent.push((0, 9)); }
                let want = obs(|| {
                    if qs.len() != 1 { return "refused".to_string(); }
                    let mut lib = Lib { comps: m.clone(), settings: Settings { disable_clock_reduction: off }, saved: vec![] };
                    let w = match create_executable_query(&qs[0], Box::leak(Box::new(std::mem::replace(&mut lib, Lib { comps: BTreeMap::new(), settings: Settings { disable_clock_reduction: true }, saved: vec![] })))) {
                        Ok(x) => match x.execute() { Q::RecipeFailure(_) => "recipe".to_string(), Q::Refinement(r) => format!("refinement {}", r.is_ok()), Q::Consistency(r) => format!("consistency {}", r.is_ok()), Q::Determinism(r) => format!("determinism {}", r.is_ok()), _ => "other".into() },
                        Err(ExecutableQueryError::Custom(_)) => "refused".into(), Err(ExecutableQueryError::SystemRecipeFailure(_)) => "recipe".into(),
                    }; w
                });
                let (Ok(want), Ok(got)) = (want.clone(), &got) else { if want.is_ok() != got.is_ok() { s.fail(format!("{log:?} | {q} over {show:?}: panics {:?}, should be {want:?}", got.as_ref().err())) } continue };
                let g = match got {
                    Err(_) => "refused".to_string(),
                    Ok(r) => { if r.query_id != id { s.fail(format!("{log:?} | {q} over {show:?}: query {id} is answered as {}", r.query_id)); }
                        match &r.result { Some(Answer::Success(_)) => if want.ends_with("true") { want.clone() } else { "success".into() }, Some(Answer::Refinement(_)) => "refinement false".into(), Some(Answer::Consistency(_)) => "consistency false".into(), Some(Answer::Determinism(_)) => "determinism false".into(), Some(Answer::Model(_)) => "recipe".into(), x => format!("{x:?}") } }
                };
                // a combined system that is not consistent or deterministic is refused as a model, in either case
                if g != want { s.fail(format!("{log:?} | {q} over {show:?}: answered {g}, should be {want}")); }
                *n.entry("queries").or_default() += 1;
                let key = format!("{q} {show:?}"); s.note(&key);
                continue;
            }
            let ts = match system(&e, &m) { Ok(t) => t, Err(_) => { let i = info.clone(); let r = obs(|| Backend::handle_start_simulation(services::SimulationStartRequest { simulation_info: Some(services::SimulationInfo { user_id: u, component_composition: e.clone(), components_info: i }) }, cache.clone())); if r.is_ok() { s.fail(format!("{log:?} over {show:?}: a simulation of a system that cannot be built starts")); } continue } };
            let sim = services::SimulationInfo { user_id: u, component_composition: e.clone(), components_info: info };
            let got = obs(|| Backend::handle_start_simulation(services::SimulationStartRequest { simulation_info: Some(sim.clone()) }, cache.clone()));
            let Some(init) = obs(|| ts.get_initial_state()).ok().flatten() else { continue };
            let ctx = format!("{log:?} over {show:?}");
            let r = match got { Ok(Ok(r)) => r, x => s.fail(format!("{ctx}: a simulation does not start: {:?}", x.map(|r| r.is_ok()))) };
            if !same(&r.full_state, &init, &ts) { s.fail(format!("{ctx}: it starts at {:?}, not {} | {:?}", r.full_state, init.decorated_locations.id, init.zone_ref().minimal_constraints())); }
            if let Err(x) = same_steps(&r.new_decision_points, &steps(&init, &ts), &ts) { s.fail(format!("{ctx}: at the start {x}")); }
            *n.entry("starts").or_default() += 1;
            let mut ps = r.new_decision_points; let mut walk = vec![];
            for _ in 0..3 {
                if ps.is_empty() { break; }
                let p = ps[s.rng.below(ps.len())].clone();
                walk.push(p.action.clone());
                let Ok(src) = obs(|| proto_state_to_state(p.source.clone().unwrap(), &ts)) else { break };
                let ways: Vec<State> = ts.next_transitions(&src.decorated_locations, &p.action).into_iter().filter_map(|t| { let mut x = src.clone(); if t.use_transition(&mut x) { Some(x) } else { None } }).collect();
                let mut info = sim.clone();
                // another request may have been served meanwhile
                if hashes[k] != 0 && s.rng.chance(1, 3) { let _ = obs(|| Backend::handle_start_simulation(services::SimulationStartRequest { simulation_info: Some(services::SimulationInfo { user_id: u, component_composition: "A".into(), components_info: Some(services::ComponentsInfo { components: msg(&sets[(k + 1) % 3]), components_hash: hashes[(k + 1) % 3] }) }) }, cache.clone())); info.components_info.as_mut().unwrap().components = msg(&bring); }
                let got = obs(|| Backend::handle_take_simulation_step(services::SimulationStepRequest { simulation_info: Some(info.clone()), chosen_decision: Some(p.clone()) }, cache.clone()));
                let at = format!("{ctx}: after {walk:?}");
                if ways.len() != 1 { if let Ok(Ok(_)) = got { s.fail(format!("{at}: a step that {} transitions of the action allow is answered", ways.len())); } break; }
                let r = match got { Ok(Ok(r)) => r, x => s.fail(format!("{at}: no answer {:?}", x.map(|r| r.is_ok()))) };
                if r.full_state != p.destination { s.fail(format!("{at}: the state is {:?}, not the one chosen {:?}", r.full_state, p.destination)); }
                if !same(&r.full_state, &ways[0], &ts) { s.fail(format!("{at}: the state is {:?}, not {} | {:?}", r.full_state, ways[0].decorated_locations.id, ways[0].zone_ref().minimal_constraints())); }
                if let Err(x) = same_steps(&r.new_decision_points, &steps(&ways[0], &ts), &ts) { s.fail(format!("{at}: {x}")); }
                ps = r.new_decision_points;
                *n.entry("steps").or_default() += 1;
            }
            let key = format!("{e} {show:?}"); s.note(&key);
            quiet = 0;
        }
    }
    eprintln!("{n:?}");
    s.done()
}
