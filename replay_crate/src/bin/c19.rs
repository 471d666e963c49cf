//! the state a description means, against a reading of the description by itself
use reveaal::extract_system_rep::{get_system_recipe, SystemRecipe};
use reveaal::ModelObjects::Component;
use reveaal::ModelObjects::Expressions::{ComponentVariable as V, OperandExpression as O, StateExpression as E};
use reveaal::ProtobufServer::services::query_request::Settings;
use reveaal::System::extract_state::get_state;
use reveaal::TransitionSystems::LocationID;
use std::collections::BTreeMap;
use vreplay::{comps::*, obs, queries::*, zones::*, Rng, Search};
/// what may be named: component, id, a clock and a location
struct Names { comps: Vec<(String, Option<String>, Vec<String>, Vec<String>)>, typo: usize, used: Vec<V>, again: usize }
fn var(r: &mut Rng, n: &mut Names, clock: bool) -> V {
    if !clock && !n.used.is_empty() && r.chance(1, n.again) { return r.pick(&n.used).clone(); }
    let (c, i, cl, ls) = r.pick(&n.comps).clone();
    let all = if clock { &cl } else { &ls };
    let mut v = V { component: c, special_id: i, variable: if all.is_empty() { "nope".into() } else { r.pick(all).clone() } };
    if r.chance(1, n.typo) { match r.below(4) { 0 => v.component += "x", 1 => v.variable += "x", 2 => v.special_id = match v.special_id { None => Some("i1".into()), Some(_) => None }, _ => v.special_id = Some(r.pick(&["i1", "i2", "ix"]).to_string()) } }
    if !clock { n.used.push(v.clone()); }
    v
}
fn bx(o: O) -> Box<O> { Box::new(o) }
fn num(r: &mut Rng) -> O { let k = r.int(-3, 6); if r.chance(1, 5) { let j = r.int(-2, 3); if r.chance(1, 2) { O::Sum(bx(O::Number(k - j)), bx(O::Number(j))) } else { O::Difference(bx(O::Number(k + j)), bx(O::Number(j))) } } else { O::Number(k) } }
fn atom(r: &mut Rng, n: &mut Names) -> E {
    let x = O::Clock(var(r, n, true));
    let (a, b) = match r.below(7) { 0 | 1 => { let y = O::Clock(var(r, n, true)); (O::Difference(bx(x), bx(y)), num(r)) } 2 => { let y = O::Clock(var(r, n, true)); (x, y) } _ => (x, num(r)) };
    let (a, b) = if r.chance(1, 4) { (b, a) } else { (a, b) };
    match r.below(5) { 0 => E::LEQ(a, b), 1 => E::GEQ(a, b), 2 => E::EQ(a, b), 3 => E::LT(a, b), _ => E::GT(a, b) }
}
fn descr(r: &mut Rng, n: &mut Names, depth: usize, ors: bool) -> E {
    if depth > 0 && r.chance(2, 3) {
        let or = r.chance(1, 3);
        let k = 1 + r.below(3);
        let free = ors || !or || r.chance(1, 12);
        let v = (0..k).map(|_| descr(r, n, depth - 1, !free || ors)).collect();
        return if or { E::OR(v) } else if r.chance(1, 40) { E::NOT(Box::new(descr(r, n, depth - 1, ors))) } else { E::AND(v) };
    }
    match r.below(8) { 0 => E::Bool(r.chance(4, 5)), 1 | 2 | 3 if !ors => E::Location(var(r, n, false)), _ => atom(r, n) }
}
/// None: the description is refused
fn locs(e: &E) -> Option<Vec<V>> {
    match e {
        E::Location(v) => Some(vec![v.clone()]),
        E::AND(s) => { let mut o = vec![]; for x in s { o.extend(locs(x)?) } Some(o) }
        E::OR(s) => { for x in s { if !locs(x)?.is_empty() { return None } } Some(vec![]) }
        E::NOT(_) => None,
        _ => Some(vec![]),
    }
}
fn find<'a>(v: &V, cs: &[&'a Component]) -> Option<&'a Component> { cs.iter().find(|c| c.name == v.component && c.special_id == v.special_id).copied() }
/// twice the value
fn oval(o: &O, cs: &[&Component], v: &[i64]) -> Option<i64> {
    Some(match o { O::Number(k) => 2 * *k as i64, O::Clock(x) => v[*find(x, cs)?.declarations.clocks.get(&x.variable)?], O::Sum(a, b) => oval(a, cs, v)? + oval(b, cs, v)?, O::Difference(a, b) => oval(a, cs, v)? - oval(b, cs, v)? })
}
fn meets(e: &E, cs: &[&Component], v: &[i64]) -> Option<bool> {
    let p = |a: &O, b: &O| Some((oval(a, cs, v)?, oval(b, cs, v)?));
    Some(match e {
        E::LEQ(a, b) => { let (a, b) = p(a, b)?; a <= b } E::GEQ(a, b) => { let (a, b) = p(a, b)?; a >= b } E::EQ(a, b) => { let (a, b) = p(a, b)?; a == b } E::LT(a, b) => { let (a, b) = p(a, b)?; a < b } E::GT(a, b) => { let (a, b) = p(a, b)?; a > b }
        E::AND(s) => { let mut o = true; for x in s { o &= meets(x, cs, v)? } o }
        E::OR(s) => { let mut o = false; for x in s { o |= meets(x, cs, v)? } o }
        E::NOT(_) => return None,
        E::Location(_) => true, E::Bool(b) => *b,
    })
}
/// the location a description puts the system in
fn place(m: &SystemRecipe, ls: &[V]) -> Option<LocationID> {
    let two = |a: &SystemRecipe, b: &SystemRecipe| Some((Box::new(place(a, ls)?), Box::new(place(b, ls)?)));
    Some(match m {
        SystemRecipe::Component(c) => match ls.iter().find(|v| v.component == c.name && v.special_id == c.special_id) { None => LocationID::AnyLocation, Some(v) => { c.locations.iter().find(|l| l.id == v.variable)?; LocationID::Simple(v.variable.clone()) } },
        SystemRecipe::Composition(a, b) => { let (a, b) = two(a, b)?; LocationID::Composition(a, b) }
        SystemRecipe::Conjunction(a, b) => { let (a, b) = two(a, b)?; LocationID::Conjunction(a, b) }
        SystemRecipe::Quotient(a, b, _) => { let (a, b) = two(a, b)?; LocationID::Quotient(a, b) }
    })
}
fn same(a: &LocationID, b: &LocationID) -> bool {
    use LocationID::*;
    match (a, b) { (Simple(x), Simple(y)) => x == y, (AnyLocation, AnyLocation) => true, (Composition(a, b), Composition(x, y)) | (Conjunction(a, b), Conjunction(x, y)) | (Quotient(a, b), Quotient(x, y)) => same(a, x) && same(b, y), _ => false }
}
fn main() {
    let mut s = Search::new();
    let mut n: BTreeMap<String, u64> = BTreeMap::new(); let mut quiet = 0u64;
    while s.more() {
        quiet += 1; if quiet > 400000 { break; }
        let r = &mut s.rng;
        let mut lib = Lib { comps: BTreeMap::new(), settings: Settings { disable_clock_reduction: true }, saved: vec![] };
        let nms: Vec<String> = ["A", "B", "C"].iter().map(|x| x.to_string()).collect();
        for (i, nm) in nms.iter().enumerate() {
            let mut o = Opts::new(); o.clocks = 1 + r.below(2); o.locs = 3; o.edges = 3; o.max = 3; o.inv = 2 + r.below(3);
            o.ins = vec![["a", "b", "c"][i]]; o.outs = vec![["d", "e", "f"][i]];
            lib.comps.insert(nm.clone(), rand_comp(r, nm, 1, &o));
        }
        let mut k = 0; let depth = r.below(3);
        let e = expr(r, depth, &nms, &mut k);
        let (mut dim, mut q) = (0, None);
        let Ok(Ok((m, ts))) = obs(|| -> Result<_, ()> { let m = get_system_recipe(&e, &mut lib, &mut dim, &mut q); let t = m.clone().compile(dim).map_err(|_| ())?; Ok((m, t)) }) else { continue };
        let cs: Vec<&Component> = m.get_components();
        let r = &mut s.rng;
        let mut nm = Names { comps: cs.iter().map(|c| { let mut cl: Vec<String> = c.declarations.clocks.keys().cloned().collect(); cl.sort(); (c.name.clone(), c.special_id.clone(), cl, c.locations.iter().map(|l| l.id.clone()).collect()) }).collect(), typo: *r.pick(&[4, 30, 1000]), used: vec![], again: *r.pick(&[2, 8]) };
        let d = r.below(4);
        let x = if r.chance(1, 4) { // a location for every component, in any order, perhaps twice
            let mut v: Vec<E> = nm.comps.iter().map(|c| E::Location(V { component: c.0.clone(), special_id: c.1.clone(), variable: c.3[r.below(c.3.len())].clone() })).collect();
            for i in 0..v.len() { let j = r.below(v.len()); v.swap(i, j); }
            if r.chance(1, 4) { let k = r.below(v.len()); v.push(v[k].clone()); }
            if r.chance(1, 6) { let k = r.below(v.len()); v.remove(k); }
            v.push(descr(r, &mut nm, d, true)); if r.chance(1, 2) { let last = v.len() - 1; let j = r.below(v.len()); v.swap(j, last); }
            E::AND(v)
        } else { descr(r, &mut nm, d, false) };
        // two components that cannot be told apart
        let twins = cs.iter().enumerate().any(|(i, a)| cs[..i].iter().any(|b| a != b && a.name == b.name && a.special_id == b.special_id));
        let zero = vec![0; ts.get_dim()];
        let want = (|| {
            if twins { return None; }
            let ls = locs(&x)?;
            for a in &ls { find(a, &cs)?; for b in &ls { if a != b && a.component == b.component && a.special_id == b.special_id { return None; } } }
            meets(&x, &cs, &zero)?;
            place(&m, &ls)
        })();
        let ctx = format!("{x:?} as a state of {e} over {:?}", cs.iter().map(|c| (&c.name, &c.special_id, &c.declarations.clocks, c.locations.iter().map(|l| &l.id).collect::<Vec<_>>())).collect::<Vec<_>>());
        let got = match obs(|| get_state(&x, &m, &ts)) { Ok(g) => g, Err(p) => s.fail(format!("{ctx}: panic {p}")) };
        match (&want, &got) {
            (None, Err(_)) => {}
            (None, Ok(g)) => s.fail(format!("{ctx}: is {} though it means no state", g.decorated_locations.id)),
            (Some(w), Err(p)) => s.fail(format!("{ctx}: refused ({p}) though it means {w}")),
            (Some(w), Ok(g)) => {
                if !same(w, &g.decorated_locations.id) { s.fail(format!("{ctx}: is at {} not {w}", g.decorated_locations.id)); }
                // a full location is that of the system
                if let Some(l) = ts.get_all_locations().iter().find(|l| same(&l.id, w)) { let t = &g.decorated_locations; if format!("{:?}", t) != format!("{:?}", l) { s.fail(format!("{ctx}: the location is {t:?}, in the system {l:?}")); } *n.entry("full".into()).or_default() += 1; }
                let z = g.zone_ref();
                let vals: Vec<Val> = if ts.get_dim() <= 3 { grid(ts.get_dim(), 5) } else { (0..150).map(|_| rand_val(&mut s.rng, ts.get_dim(), 5)).collect() };
                for v in vals { let h = meets(&x, &cs, &v).unwrap(); if has(z, &v) != h { s.fail(format!("{ctx}: twice the clocks {v:?} are {} the zone {:?}", if h { "not in" } else { "in" }, z.minimal_constraints())); } }
            }
        }
        *n.entry(if want.is_some() { "state" } else { "refused" }.into()).or_default() += 1;
        s.note(&ctx);
        quiet = 0;
    }
    eprintln!("{n:?}");
    s.done()
}
