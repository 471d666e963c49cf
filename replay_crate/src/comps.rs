//! random components, systems built from them, and an oracle working on the components themselves
use crate::{exprs, Rng};
use reveaal::DataReader::parse_edge::Update;
use reveaal::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};
use reveaal::ModelObjects::{Component, Declarations, Edge, Location, LocationType, SyncType, Transition};
use reveaal::TransitionSystems::{CompiledComponent, Composition, Conjunction, LocationID, TransitionID, TransitionSystem, TransitionSystemPtr};
use std::collections::BTreeSet;
pub type Set = BTreeSet<String>;
#[derive(Clone)]
pub struct Opts { pub locs: usize, pub edges: usize, pub clocks: usize, pub max: i32, pub inv: usize, pub special: bool, pub ins: Vec<&'static str>, pub outs: Vec<&'static str>, pub diff: bool, pub disj: bool, pub upd: usize }
impl Opts { pub fn new() -> Opts { Opts { locs: 3, edges: 6, clocks: 1, max: 4, inv: 3, special: false, ins: vec!["a", "b"], outs: vec!["c", "d"], diff: false, disj: false, upd: 2 } } }
fn v(s: &str) -> Box<A> { Box::new(A::VarName(s.into())) }
pub fn atom(r: &mut Rng, cl: &[String], max: i32, diff: bool) -> B {
    let x = r.pick(cl).clone();
    let k = Box::new(A::Int(r.int(0, max)));
    let l = if diff && cl.len() > 1 && r.chance(1, 4) { let y = r.pick(cl).clone(); if y == x { v(&x) } else { Box::new(A::Difference(v(&x), v(&y))) } } else { v(&x) };
    match r.below(5) { 0 => B::LessEQ(l, k), 1 => B::GreatEQ(l, k), 2 => B::LessT(l, k), 3 => B::GreatT(l, k), _ => B::EQ(l, k) }
}
pub fn guard(r: &mut Rng, cl: &[String], o: &Opts) -> B {
    let a = atom(r, cl, o.max, o.diff);
    match r.below(5) { 0 | 1 => B::AndOp(Box::new(a), Box::new(atom(r, cl, o.max, o.diff))), 2 if o.disj => B::OrOp(Box::new(a), Box::new(atom(r, cl, o.max, o.diff))), _ => a }
}
/// clocks get the indices first .. first + o.clocks - 1
pub fn rand_comp(r: &mut Rng, name: &str, first: usize, o: &Opts) -> Component {
    let mut d = Declarations::empty();
    let cl: Vec<String> = (0..o.clocks).map(|i| { let n = format!("x{i}"); d.clocks.insert(n.clone(), first + i); n }).collect();
    d.ints.insert("k".into(), 3);
    let n = 1 + r.below(o.locs);
    let mut locations: Vec<Location> = (0..n).map(|i| {
        let t = if i == 0 { LocationType::Initial } else if o.special && r.chance(1, 4) { *r.pick(&[LocationType::Universal, LocationType::Inconsistent]) } else { LocationType::Normal };
        let inv = if o.inv > 0 && r.chance(1, o.inv) { let x = Box::new(A::Int(r.int(1, o.max + 1))); Some(if r.chance(1, 4) { B::LessT(v(r.pick(&cl)), x) } else { B::LessEQ(v(r.pick(&cl)), x) }) } else { None };
        Location { id: format!("{}{i}", name.to_lowercase()), invariant: inv, location_type: t, urgency: "NORMAL".into() }
    }).collect();
    let m = r.below(o.edges + 1);
    let edges = (0..m).map(|i| {
        let (s, t) = (r.below(n), r.below(n));
        let input = if o.ins.is_empty() { false } else if o.outs.is_empty() { true } else { r.chance(1, 2) };
        let sync = if input { r.pick(&o.ins).to_string() } else { r.pick(&o.outs).to_string() };
        let update = if r.chance(1, o.upd) { None } else { Some((0..r.below(3)).map(|_| Update { variable: r.pick(&cl).clone(), expression: A::Int(r.int(0, 2) * usize::from(r.chance(1, 2)) as i32) }).collect()) };
        Edge { id: format!("{name}E{i}"), source_location: locations[s].id.clone(), target_location: locations[t].id.clone(), sync_type: if input { SyncType::Input } else { SyncType::Output }, guard: if r.chance(1, 3) { None } else { Some(guard(r, &cl, o)) }, update, sync }
    }).collect();
    if n > 1 && r.chance(1, 3) { let k = r.below(n); locations.swap(0, k); }
    Component { name: name.into(), declarations: d, locations, edges, special_id: None }
}
#[derive(Clone)]
pub enum Sys { Leaf(Component), Par(Box<Sys>, Box<Sys>), Conj(Box<Sys>, Box<Sys>) }
/// a transition as the components describe it
#[derive(Clone)]
pub struct OTrans { pub id: TransitionID, pub target: LocationID, pub upd: Vec<(usize, i64)>, pub guards: Vec<(B, Declarations)>, pub invs: Vec<(B, Declarations)> }
fn own(c: &Component, t: SyncType) -> Set { c.edges.iter().filter(|e| e.sync_type == t && e.sync != "*").map(|e| e.sync.clone()).collect() }
impl Sys {
    pub fn comps(&self) -> Vec<&Component> { match self { Sys::Leaf(c) => vec![c], Sys::Par(a, b) | Sys::Conj(a, b) => { let mut v = a.comps(); v.extend(b.comps()); v } } }
    pub fn build(&self, dim: usize) -> Result<TransitionSystemPtr, String> {
        match self {
            Sys::Leaf(c) => { let mut i = 0; CompiledComponent::compile(c.clone(), dim, &mut i).map(|x| x as TransitionSystemPtr).map_err(|e| format!("{e}")) }
            Sys::Par(a, b) => Composition::new_ts(a.build(dim)?, b.build(dim)?, dim).map_err(|e| format!("{e}")),
            Sys::Conj(a, b) => Conjunction::new_ts(a.build(dim)?, b.build(dim)?, dim).map_err(|e| format!("{e}")),
        }
    }
    /// input and output alphabet, None where the system is not well formed
    pub fn io(&self) -> Option<(Set, Set)> {
        match self {
            Sys::Leaf(c) => { let (i, o) = (own(c, SyncType::Input), own(c, SyncType::Output)); if i.is_disjoint(&o) { Some((i, o)) } else { None } }
            Sys::Par(a, b) => {
                let ((i1, o1), (i2, o2)) = (a.io()?, b.io()?);
                if !o1.is_disjoint(&o2) { return None; }
                Some((i1.iter().filter(|x| !o2.contains(*x)).chain(i2.iter().filter(|x| !o1.contains(*x))).cloned().collect(), o1.union(&o2).cloned().collect()))
            }
            Sys::Conj(a, b) => {
                let ((i1, o1), (i2, o2)) = (a.io()?, b.io()?);
                if !i1.is_disjoint(&o2) || !o1.is_disjoint(&i2) { return None; }
                Some((i1.intersection(&i2).cloned().collect(), o1.intersection(&o2).cloned().collect()))
            }
        }
    }
    pub fn initial(&self) -> Option<LocationID> {
        Some(match self {
            Sys::Leaf(c) => LocationID::Simple(c.locations.iter().find(|l| l.location_type == LocationType::Initial)?.id.clone()),
            Sys::Par(a, b) => LocationID::Composition(Box::new(a.initial()?), Box::new(b.initial()?)),
            Sys::Conj(a, b) => LocationID::Conjunction(Box::new(a.initial()?), Box::new(b.initial()?)),
        })
    }
    pub fn locs(&self) -> Vec<LocationID> {
        match self {
            Sys::Leaf(c) => c.locations.iter().map(|l| LocationID::Simple(l.id.clone())).collect(),
            Sys::Par(a, b) => { let y = b.locs(); a.locs().into_iter().flat_map(|x| y.clone().into_iter().map(move |y| LocationID::Composition(Box::new(x.clone()), Box::new(y)))).collect() }
            Sys::Conj(a, b) => { let y = b.locs(); a.locs().into_iter().flat_map(|x| y.clone().into_iter().map(move |y| LocationID::Conjunction(Box::new(x.clone()), Box::new(y)))).collect() }
        }
    }
    pub fn invs(&self, l: &LocationID) -> Vec<(B, Declarations)> {
        match (self, l) {
            (Sys::Leaf(c), LocationID::Simple(n)) => c.locations.iter().find(|k| &k.id == n).unwrap().invariant.iter().map(|g| (g.clone(), c.declarations.clone())).collect(),
            (Sys::Par(a, b), LocationID::Composition(x, y)) | (Sys::Conj(a, b), LocationID::Conjunction(x, y)) => { let mut v = a.invs(x); v.extend(b.invs(y)); v }
            _ => panic!("location {l} does not fit"),
        }
    }
    pub fn idle(&self, l: &LocationID) -> OTrans { OTrans { id: TransitionID::None, target: l.clone(), upd: vec![], guards: vec![], invs: self.invs(l) } }
    pub fn trans(&self, l: &LocationID, a: &str) -> Vec<OTrans> {
        match (self, l) {
            (Sys::Leaf(c), LocationID::Simple(n)) => {
                let loc = c.locations.iter().find(|k| &k.id == n).unwrap();
                if loc.location_type == LocationType::Universal || loc.location_type == LocationType::Inconsistent && own(c, SyncType::Input).contains(a) { return vec![self.idle(l)]; }
                c.edges.iter().filter(|e| e.sync == a && &e.source_location == n).map(|e| { let target = LocationID::Simple(e.target_location.clone()); OTrans {
                    id: TransitionID::Simple(e.id.clone()), upd: e.update.iter().flatten().map(|u| (c.declarations.clocks[&u.variable], exprs::konst(&u.expression, &c.declarations).unwrap())).collect(),
                    guards: e.guard.iter().map(|g| (g.clone(), c.declarations.clone())).collect(), invs: self.invs(&target), target } }).collect()
            }
            (Sys::Par(p, q), LocationID::Composition(x, y)) => {
                let has = |s: &Sys| { let (i, o) = s.io().unwrap(); i.contains(a) || o.contains(a) };
                let (u, w) = (if has(p) { p.trans(x, a) } else { vec![p.idle(x)] }, if has(q) { q.trans(y, a) } else { vec![q.idle(y)] });
                Self::product(u, w, false)
            }
            (Sys::Conj(p, q), LocationID::Conjunction(x, y)) => Self::product(p.trans(x, a), q.trans(y, a), true),
            _ => panic!("location {l} does not fit"),
        }
    }
    fn product(u: Vec<OTrans>, w: Vec<OTrans>, conj: bool) -> Vec<OTrans> {
        u.into_iter().flat_map(|s| w.clone().into_iter().map(move |t| { let s = s.clone(); OTrans {
            id: if conj { TransitionID::Conjunction(Box::new(s.id), Box::new(t.id)) } else { TransitionID::Composition(Box::new(s.id), Box::new(t.id)) },
            target: if conj { LocationID::Conjunction(Box::new(s.target), Box::new(t.target)) } else { LocationID::Composition(Box::new(s.target), Box::new(t.target)) },
            upd: [s.upd, t.upd].concat(), guards: [s.guards, t.guards].concat(), invs: [s.invs, t.invs].concat() } })).collect()
    }
}
pub fn holds(g: &[(B, Declarations)], v: &[i64]) -> bool { g.iter().all(|(g, d)| exprs::sat(g, d, v)) }
/// None if the real transition is what the oracle says, else the difference
pub fn differs(t: &Transition, o: &OTrans, dim: usize, max: i32, r: &mut Rng) -> Option<String> {
    if t.id != o.id { return Some(format!("id {:?}, expected {:?}", t.id, o.id)); }
    if t.target_locations.id != o.target { return Some(format!("target {}, expected {}", t.target_locations.id, o.target)); }
    let start: Vec<i64> = (0..dim).map(|i| if i == 0 { 0 } else { -1000 - i as i64 }).collect();
    let (mut a, mut b) = (start.clone(), start);
    for u in &t.updates { a[u.clock_index] = u.value as i64; }
    for (c, k) in &o.upd { b[*c] = *k; }
    if a != b { return Some(format!("updates {:?}, expected {:?}", t.updates, o.upd)); }
    for _ in 0..12 {
        let v = crate::zones::rand_val(r, dim, max + 1);
        if crate::zones::has(&t.guard_zone, &v) != holds(&o.guards, &v) { return Some(format!("guard {} at {v:?} (in halves): expected {}", t.guard_zone, holds(&o.guards, &v))); }
        let got = t.target_locations.get_invariants().map(|f| crate::zones::has(f, &v)).unwrap_or(true);
        if got != holds(&o.invs, &v) { return Some(format!("target invariant at {v:?} (in halves): {got}")); }
    }
    None
}
pub fn show(s: &Sys) -> String {
    match s {
        Sys::Leaf(c) => format!("component {} clocks {:?}\n  locations {}\n  edges {}", c.name, c.declarations.clocks, c.locations.iter().map(|l| format!("{} {:?} inv {}", l.id, l.location_type, l.invariant.as_ref().map(|g| g.to_string()).unwrap_or("-".into()))).collect::<Vec<_>>().join("; "), c.edges.iter().map(|e| format!("{} {}", e.id, e)).collect::<Vec<_>>().join("\n        ")),
        Sys::Par(a, b) => format!("( {}\n||\n{} )", show(a), show(b)),
        Sys::Conj(a, b) => format!("( {}\n&&\n{} )", show(a), show(b)),
    }
}
pub fn set(h: std::collections::HashSet<String>) -> Set { h.into_iter().collect() }
/// compares the built system with the oracle at every location and for every action
pub fn check(sys: &Sys, ts: &dyn TransitionSystem, dim: usize, max: i32, r: &mut Rng) -> Result<(), String> {
    let (i, o) = sys.io().ok_or("built although the alphabets clash".to_string())?;
    if set(ts.get_input_actions()) != i { return Err(format!("inputs {:?}, expected {i:?}", set(ts.get_input_actions()))); }
    if set(ts.get_output_actions()) != o { return Err(format!("outputs {:?}, expected {o:?}", set(ts.get_output_actions()))); }
    if set(ts.get_actions()) != i.union(&o).cloned().collect::<Set>() { return Err("get_actions".into()); }
    let init = ts.get_initial_location();
    if init.as_ref().map(|l| l.id.clone()) != sys.initial() { return Err(format!("initial location {:?}", init)); }
    let zero_ok = |id: &LocationID| (0..=8 * (max as i64 + 2)).any(|x| { let mut v = vec![x; dim]; v[0] = 0; holds(&sys.invs(id), &v) });
    match ts.get_initial_state() {
        None => if let Some(id) = sys.initial() { if zero_ok(&id) { return Err("no initial state".into()); } },
        Some(s) => {
            let id = sys.initial().ok_or("initial state without location".to_string())?;
            if s.decorated_locations.id != id { return Err("initial state at the wrong location".into()); }
            for _ in 0..10 { let mut v = crate::zones::rand_val(r, dim, max + 2); if r.chance(2, 3) { for k in 1..dim { v[k] = v[1]; } }
                let want = (1..dim).all(|k| v[k] == v[1]) && holds(&sys.invs(&id), &v);
                if crate::zones::has(s.zone_ref(), &v) != want { return Err(format!("initial zone {} at {v:?} (in halves), expected {want}", s.zone_ref())); } }
        }
    }
    let locs = ts.get_all_locations();
    let mut ids: Vec<String> = locs.iter().map(|l| l.id.to_string()).collect(); ids.sort();
    let mut want: Vec<String> = sys.locs().iter().map(|l| l.to_string()).collect(); want.sort();
    if ids != want { return Err(format!("locations {ids:?}, expected {want:?}")); }
    for l in &locs {
        for _ in 0..6 { let v = crate::zones::rand_val(r, dim, max + 2); let got = l.get_invariants().map(|f| crate::zones::has(f, &v)).unwrap_or(true); if got != holds(&sys.invs(&l.id), &v) { return Err(format!("invariant of {} at {v:?} (in halves): {got}", l.id)); } }
        match ts.get_location(&l.id) { Some(k) if k.id == l.id => {} k => return Err(format!("get_location({}) = {:?}", l.id, k)) }
        for a in i.union(&o) {
            let got = ts.next_transitions(l, a);
            let exp = sys.trans(&l.id, a);
            if got.len() != exp.len() { return Err(format!("at {} action {a}: {} transitions ({:?}), expected {} ({:?})", l.id, got.len(), got.iter().map(|t| t.id.to_string()).collect::<Vec<_>>(), exp.len(), exp.iter().map(|t| t.id.to_string()).collect::<Vec<_>>())); }
            for (g, e) in got.iter().zip(&exp) { if let Some(d) = differs(g, e, dim, max, r) { return Err(format!("at {} action {a}: {d}", l.id)); } }
        }
        let g = ts.next_transitions_if_available(l, "nowhere");
        if !g.is_empty() { return Err("transitions for an unknown action".into()); }
        for a in i.union(&o) { if ts.next_transitions_if_available(l, a).len() != sys.trans(&l.id, a).len() { return Err(format!("next_transitions_if_available {a} at {}", l.id)); } }
    }
    Ok(())
}
