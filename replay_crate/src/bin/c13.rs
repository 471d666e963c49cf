//! reachability of random systems, by regions
use edbm::util::constraints::Inequality;
use edbm::zones::OwnedFederation as Fed;
use reveaal::ModelObjects::State;
use reveaal::Simulation::decision::Decision;
use reveaal::System::reachability::find_path;
use reveaal::TransitionSystems::{CompiledComponent, CompositionType, LocationID, LocationTree, TransitionSystemPtr};
use std::collections::{HashSet, VecDeque};
use vreplay::{comps::*, obs, regions::*, Rng, Search};
type Atom = (usize, usize, i32);
type Set2 = Vec<Vec<Atom>>;
fn rand_set(r: &mut Rng, dim: usize, max: i32) -> Set2 {
    let n = 1 + usize::from(r.chance(1, 4));
    (0..n).map(|_| (0..r.below(4)).map(|_| (1 + r.below(dim - 1), r.below(4), r.int(0, max))).collect()).collect()
}
fn zone(s: &Set2, dim: usize) -> Fed {
    s.iter().fold(Fed::empty(dim), |f, c| f + c.iter().fold(Fed::universe(dim), |z, (x, o, k)| match o { 0 => z.constrain(*x, 0, Inequality::LE(*k)), 1 => z.constrain(0, *x, Inequality::LE(-k)), 2 => z.constrain(*x, 0, Inequality::LS(*k)), _ => z.constrain(0, *x, Inequality::LS(-k)) }))
}
fn inside(s: &Set2, v: &Reg) -> bool { let h = halves(v); s.iter().any(|c| c.iter().all(|(x, o, k)| { let (a, b) = (h[*x], 2 * *k as i64); match o { 0 => a <= b, 1 => a >= b, 2 => a < b, _ => a > b } })) }
/// a location described in part: None is any location
enum Pat { Loc(Option<String>), Two(Box<Pat>, Box<Pat>) }
fn pat(r: &mut Rng, s: &Sys) -> Pat { match s { Sys::Leaf(c) => Pat::Loc(if r.chance(1, 4) { None } else { Some(r.pick(&c.locations).id.clone()) }), Sys::Par(a, b) | Sys::Conj(a, b) => Pat::Two(Box::new(pat(r, a)), Box::new(pat(r, b))) } }
fn tree(p: &Pat, s: &Sys, dim: usize) -> LocationTree {
    match (p, s) {
        (Pat::Loc(None), _) => LocationTree::build_any_location_tree(),
        (Pat::Loc(Some(n)), Sys::Leaf(c)) => { let mut i = 0; let t: TransitionSystemPtr = CompiledComponent::compile(c.clone(), dim, &mut i).ok().unwrap(); t.get_location(&LocationID::Simple(n.clone())).unwrap() }
        (Pat::Two(a, b), Sys::Par(x, y)) => LocationTree::compose(&tree(a, x, dim), &tree(b, y, dim), CompositionType::Composition),
        (Pat::Two(a, b), Sys::Conj(x, y)) => LocationTree::compose(&tree(a, x, dim), &tree(b, y, dim), CompositionType::Conjunction),
        _ => unreachable!(),
    }
}
fn fits(p: &Pat, l: &LocationID) -> bool {
    match (p, l) { (Pat::Loc(None), LocationID::Simple(_)) => true, (Pat::Loc(Some(n)), LocationID::Simple(k)) => n == k, (Pat::Two(a, b), LocationID::Composition(x, y)) | (Pat::Two(a, b), LocationID::Conjunction(x, y)) => fits(a, x) && fits(b, y), _ => false }
}
fn pshow(p: &Pat) -> String { match p { Pat::Loc(n) => n.clone().unwrap_or("_".into()), Pat::Two(a, b) => format!("({} {})", pshow(a), pshow(b)) } }
fn all_regions(dim: usize, m: i64) -> Vec<Reg> {
    let mut all: Vec<Reg> = vec![vec![0]];
    for _ in 1..dim { all = all.into_iter().flat_map(|v| (0..=(m + 1) * 2).map(move |h| { let mut w = v.clone(); w.push(h * (U / 2)); w })).collect(); }
    let mut fine: HashSet<Reg> = HashSet::new();
    for v in all { let p: Vec<usize> = (1..v.len()).filter(|i| v[*i] % U > 0).collect(); let n = 3usize.pow(p.len() as u32); for k in 0..n { let mut w = v.clone(); let mut q = k; for i in &p { w[*i] += 2 * ((q % 3) as i64 - 1); q /= 3; } fine.insert(canon(w, m)); } }
    fine.into_iter().collect()
}
/// a location tree of its own, any shape
fn rand_tree(r: &mut Rng, depth: usize) -> LocationTree {
    if depth > 0 && r.chance(2, 3) { let (a, b) = (rand_tree(r, depth - 1), rand_tree(r, depth - 1)); return match r.below(4) { 0 => LocationTree::merge_as_quotient(&a, &b), 1 => LocationTree::compose(&a, &b, CompositionType::Conjunction), _ => LocationTree::compose(&a, &b, CompositionType::Composition) } }
    match r.below(6) { 0 | 1 => LocationTree::build_any_location_tree(), 2 if r.chance(1, 3) => LocationTree::universal(), _ => { use reveaal::ModelObjects::{Declarations, Location, LocationType}; LocationTree::simple(&Location { id: (*r.pick(&["p", "q"])).into(), invariant: None, location_type: LocationType::Normal, urgency: "NORMAL".into() }, &Declarations::empty(), 2) } }
}
fn agrees(a: &LocationID, b: &LocationID) -> bool {
    use LocationID::*;
    match (a, b) { (Composition(p, q), Composition(x, y)) | (Conjunction(p, q), Conjunction(x, y)) | (Quotient(p, q), Quotient(x, y)) => agrees(p, x) && agrees(q, y), (AnyLocation, Simple(_)) | (Simple(_), AnyLocation) | (AnyLocation, AnyLocation) => true, (Simple(x), Simple(y)) => x == y, _ => false }
}
fn eq(a: &Fed, b: &Fed) -> bool { a.subset_eq(b) && b.subset_eq(a) }
fn main() {
    let mut s = Search::new();
    let mut quiet = 0u64; let mut n = [0; 3];
    while s.more() {
        quiet += 1; if quiet > 400000 { break; }
        let r = &mut s.rng;
        let (x, y) = { let d = r.below(4); let a = rand_tree(r, d); let b = if r.chance(1, 2) { a.clone() } else { let e = r.below(4); rand_tree(r, e) }; (a, b) };
        if x.compare_partial_locations(&y) != agrees(&x.id, &y.id) { s.fail(format!("compare_partial_locations({}, {}) is {}", x.id, y.id, x.compare_partial_locations(&y))); }
        let r = &mut s.rng;
        let mut o = Opts::new(); o.locs = 5; o.edges = 14; o.max = 3; o.inv = 2 + r.below(2); o.special = r.chance(1, 5); o.disj = r.chance(1, 8); o.upd = 1 + r.below(3);
        if r.chance(1, 3) { o.clocks = 2; }
        let two = r.chance(1, 5);
        if two { o.clocks = 1; o.locs = 3; o.edges = 4; o.ins = vec!["a"]; o.outs = vec!["c"]; }
        let a = rand_comp(r, "A", 1, &o);
        let mut dim = 1 + o.clocks;
        let sys = if two {
            let conj = r.chance(1, 2);
            if !conj { o.ins = vec!["c", "e"]; o.outs = vec!["f"]; }
            let b = rand_comp(r, "B", 2, &o); dim = 3;
            if conj { Sys::Conj(Box::new(Sys::Leaf(a)), Box::new(Sys::Leaf(b))) } else { Sys::Par(Box::new(Sys::Leaf(a)), Box::new(Sys::Leaf(b))) }
        } else { Sys::Leaf(a) };
        let Some((ins, outs)) = sys.io() else { continue };
        let Ok(Ok(ts)) = obs(|| sys.build(dim)) else { continue };
        let acts: Vec<String> = ins.union(&outs).cloned().collect();
        let mut p = pat(r, &sys);
        let far = r.int(2, 6);
        let goal = rand_set(r, dim, far);
        let m = 6i64;
        let (start, froms, at): (State, Vec<Reg>, LocationID);
        if r.chance(1, 2) {
            let Ok(Some(st)) = obs(|| ts.get_initial_state()) else { continue };
            at = st.decorated_locations.id.clone(); start = st; froms = future(&vec![0; dim], m);
        } else {
            let l = r.pick(&ts.get_all_locations()).clone();
            let z = rand_set(r, dim, 4);
            at = l.id.clone(); start = State::new(l, zone(&z, dim)); froms = all_regions(dim, m).into_iter().filter(|v| inside(&z, v)).collect();
        }
        // mostly a goal the start does not meet already
        for _ in 0..3 { if fits(&p, &at) { p = pat(r, &sys); } }
        let end = State::new(tree(&p, &sys, dim), zone(&goal, dim));
        let ctx = format!("{}\nfrom {} with zone {}\nto {} with zone {}", show(&sys), at, start.zone_ref(), pshow(&p), end.zone_ref());
        s.note(&ctx);
        let froms: Vec<Reg> = froms.into_iter().filter(|v| inv(&sys, &at, v)).collect();
        let mut seen: HashSet<(LocationID, Reg)> = froms.iter().cloned().map(|v| (at.clone(), v)).collect();
        let mut todo: VecDeque<(LocationID, Reg)> = seen.iter().cloned().collect();
        let mut hit = false;
        while let Some((l, v)) = todo.pop_front() {
            if fits(&p, &l) && inside(&goal, &v) { hit = true; break; }
            for a in &acts { for t in sys.trans(&l, a) { if !guard_ok(&t, &v) { continue; } for w in future(&apply(&t, &v, m), m) { if inv(&sys, &t.target, &w) && seen.insert((t.target.clone(), w.clone())) { todo.push_back((t.target.clone(), w)); } } } }
        }
        match obs(|| find_path(start.clone(), end.clone(), &ts)) {
            Err(e) => s.fail(format!("find_path panicked: {e}\n{ctx}")),
            Ok(Err(_)) => { n[0] += 1; if hit { s.fail(format!("called unreachable, but a run leads there\n{ctx}")); } }
            Ok(Ok(path)) => {
                n[1] += 1;
                if !hit { s.fail(format!("called reachable, but no run leads there\n{ctx}")); }
                if path.path.len() > 1 { n[2] += 1; }
                let mut l = at.clone(); let mut set: HashSet<Reg> = froms.iter().cloned().collect();
                let mut cur = start.zone_ref().clone(); if let Some(i) = start.decorated_locations.get_invariants() { cur = cur.intersection(i); }
                for (k, d) in path.path.iter().enumerate() {
                    let steps = format!("decision {k} ({} {:?}) of the path {:?}\n{ctx}", d.action, d.transition.as_ref().map(|t| t.id.to_string()), path.path.iter().map(|d| format!("{} -{}-> {}", d.state.decorated_locations.id, d.action, d.next_state.decorated_locations.id)).collect::<Vec<_>>());
                    if d.state.decorated_locations.id != l { s.fail(format!("location {} where {l} was reached: {steps}", d.state.decorated_locations.id)); }
                    let Some(t) = d.transition.as_ref() else { s.fail(format!("no transition: {steps}")) };
                    let Some(t) = sys.trans(&l, &d.action).into_iter().find(|o| o.id == t.id && o.target == t.target_locations.id) else { s.fail(format!("no such transition of the system: {steps}")) };
                    let Some(real) = ts.next_transitions(&d.state.decorated_locations, &d.action).into_iter().find(|x| x.id == t.id && x.target_locations.id == t.target) else { s.fail(format!("no such transition: {steps}")) };
                    let want = cur.clone().intersection(&real.get_allowed_federation());
                    if !eq(d.state.zone_ref(), &want) { s.fail(format!("zone {} instead of {want}: {steps}", d.state.zone_ref())); }
                    let mut z = cur.intersection(&real.guard_zone);
                    for u in &real.updates { z = z.update_clock_val(u.clock_index, u.value); }
                    z = z.up(); if let Some(i) = real.target_locations.get_invariants() { z = z.intersection(i); }
                    if !eq(d.next_state.zone_ref(), &z) || d.next_state.decorated_locations.id != t.target { s.fail(format!("leads to {} {} instead of {} {z}: {steps}", d.next_state.decorated_locations.id, d.next_state.zone_ref(), t.target)); }
                    cur = z; l = t.target.clone();
                    set = set.iter().filter(|v| guard_ok(&t, v)).flat_map(|v| future(&apply(&t, v, m), m)).filter(|w| inv(&sys, &t.target, w)).collect();
                }
                if !fits(&p, &l) || !set.iter().any(|v| inside(&goal, v)) { s.fail(format!("the path ends at {l} with zone {cur}, which does not meet the goal\n{ctx}")); }
            }
        }
        // what can be decided at a state
        let cur = start.zone_ref().clone();
        let mut want = 0;
        for a in &acts { for t in ts.next_transitions(&start.decorated_locations, a) { if cur.has_intersection(&t.get_allowed_federation()) { want += 1; } } }
        match obs(|| Decision::get_decisions_from_state(start.clone(), &ts)) {
            Err(e) => s.fail(format!("get_decisions_from_state panicked: {e}\n{ctx}")),
            Ok(ds) => {
                if ds.len() != want { s.fail(format!("{} decisions at the start, expected {want}\n{ctx}", ds.len())); }
                for d in &ds {
                    let Some(t) = ts.next_transitions(&start.decorated_locations, &d.action).into_iter().find(|t| Some(&t.id) == d.transition.as_ref().map(|t| &t.id)) else { s.fail(format!("decision with a foreign transition\n{ctx}")) };
                    let mut z = cur.clone().intersection(&t.get_allowed_federation());
                    if !eq(&z, d.state.zone_ref()) { s.fail(format!("decision zone {} instead of {z}\n{ctx}", d.state.zone_ref())); }
                    for u in &t.updates { z = z.update_clock_val(u.clock_index, u.value); }
                    z = z.up(); if let Some(i) = t.target_locations.get_invariants() { z = z.intersection(i); }
                    if !eq(&z, d.next_state.zone_ref()) || d.next_state.decorated_locations.id != t.target_locations.id { s.fail(format!("decision {} leads to {} instead of {z}\n{ctx}", d.action, d.next_state.zone_ref())); }
                }
            }
        }
    }
    eprintln!("unreachable {} reachable {} longer {}", n[0], n[1], n[2]);
    s.done()
}
