//! the bounds a system reports keep every constant its guards and invariants compare clocks with
use edbm::util::constraints::Inequality;
use edbm::zones::OwnedFederation as Fed;
use reveaal::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};
use reveaal::ModelObjects::{Component, Declarations};
use reveaal::TransitionSystems::{LocationID, LocationTree, Quotient, TransitionSystem};
use vreplay::{comps::*, exprs, obs, Rng, Search};
fn v(x: &str) -> Box<A> { Box::new(A::VarName(x.into())) }
/// another way to write the same comparison
fn respell(r: &mut Rng, g: B, d: &Declarations) -> B {
    let mut side = |e: Box<A>| -> Box<A> { match *e {
        A::Int(k) => match r.below(5) { 0 => { let j = r.int(-3, 3); Box::new(A::Addition(Box::new(A::Int(k - j)), Box::new(A::Int(j)))) } 1 => Box::new(A::Addition(v("k"), Box::new(A::Int(k - 3)))), 2 => v(["n0", "n1", "n2", "n3", "n4", "n5"].get(k as usize).copied().unwrap_or("n0")), _ => Box::new(A::Int(k)) },
        A::VarName(x) if r.chance(1, 5) => Box::new(A::Clock(d.clocks[&x])),
        x => Box::new(x) } };
    let fix = |k: Box<A>, orig: &A| -> Box<A> { if let (A::VarName(n), A::Int(i)) = (&*k, orig) { if n == "n0" && *i != 0 { return Box::new(A::Int(*i)); } } k };
    macro_rules! two { ($c:ident, $f:ident, $l:expr, $r:expr) => {{ let (a, b) = ($l, $r); let (oa, ob) = ((*a).clone(), (*b).clone()); let (a, b) = (side(a), side(b)); let (a, b) = (fix(a, &oa), fix(b, &ob)); if r.chance(1, 3) { B::$f(b, a) } else if r.chance(1, 4) && !matches!(*a, A::Difference(..)) { let j = 1 + r.below(3) as i32; B::$c(Box::new(A::Difference(a, Box::new(A::Int(j)))), Box::new(A::Difference(b, Box::new(A::Int(j))))) } else { B::$c(a, b) } }} }
    match g {
        B::AndOp(a, b) => B::AndOp(Box::new(respell(r, *a, d)), Box::new(respell(r, *b, d))),
        B::OrOp(a, b) => B::OrOp(Box::new(respell(r, *a, d)), Box::new(respell(r, *b, d))),
        B::LessEQ(a, b) => two!(LessEQ, GreatEQ, a, b), B::GreatEQ(a, b) => two!(GreatEQ, LessEQ, a, b),
        B::LessT(a, b) => two!(LessT, GreatT, a, b), B::GreatT(a, b) => two!(GreatT, LessT, a, b), B::EQ(a, b) => two!(EQ, EQ, a, b),
        b => b,
    }
}
fn atoms<'a>(g: &'a B, out: &mut Vec<(&'a A, &'a A)>) { match g { B::AndOp(a, b) | B::OrOp(a, b) => { atoms(a, out); atoms(b, out); } B::LessEQ(a, b) | B::GreatEQ(a, b) | B::LessT(a, b) | B::GreatT(a, b) | B::EQ(a, b) => out.push((a, b)), B::Bool(_) => {} } }
/// the constants compared with each clock
fn constants(c: &Component, dim: usize) -> Vec<Vec<i64>> {
    let mut out = vec![vec![]; dim];
    let gs: Vec<&B> = c.edges.iter().filter_map(|e| e.guard.as_ref()).chain(c.locations.iter().filter_map(|l| l.invariant.as_ref())).collect();
    for g in gs { let mut at = vec![]; atoms(g, &mut at); for (a, b) in at {
        let (Some((k1, c1)), Some((k2, c2))) = (exprs::lin(a, &c.declarations, dim), exprs::lin(b, &c.declarations, dim)) else { continue };
        for i in 1..dim { if c1[i] != c2[i] { out[i].push((k2 - k1).abs()); } } } }
    out
}
fn covers(z: Fed, b: &edbm::util::bounds::Bounds) -> bool { let e = z.clone().extrapolate_max_bounds(b); e.subset_eq(&z) }
fn lost(b: &edbm::util::bounds::Bounds, i: usize, k: i64, dim: usize) -> bool {
    let k = k as i32;
    !covers(Fed::universe(dim).constrain(i, 0, Inequality::LE(k)), b) || !covers(Fed::universe(dim).constrain(0, i, Inequality::LE(-k)), b) || !covers(Fed::universe(dim).constrain(i, 0, Inequality::LS(k)), b) && k > 0 || !covers(Fed::universe(dim).constrain(0, i, Inequality::LS(-k)), b)
}
/// leaves of the tree with their components
fn leaves<'a>(t: &'a LocationTree, s: &'a Sys, out: &mut Vec<(&'a LocationTree, &'a Component)>) { match s { Sys::Leaf(c) => out.push((t, c)), Sys::Par(a, b) | Sys::Conj(a, b) => { leaves(t.get_left(), a, out); leaves(t.get_right(), b, out); } } }
fn judge(ts: &dyn TransitionSystem, t: &LocationTree, parts: &[(&LocationTree, &Component)], dim: usize) -> Option<String> {
    let b = match obs(|| ts.get_local_max_bounds(t)) { Ok(b) => b, Err(p) => return Some(format!("get_local_max_bounds panicked at {}: {p}", t.id)) };
    for (l, c) in parts { if l.is_universal() && l.get_invariants().is_none() { continue; } for (i, ks) in constants(c, dim).into_iter().enumerate() { for k in ks { if lost(&b, i, k, dim) { return Some(format!("at {} the bounds forget that clock {i} is compared with {k}", t.id)); } } } }
    None
}
fn main() {
    let mut s = Search::new();
    let mut quiet = 0u64; let mut n = [0; 3];
    while s.more() {
        quiet += 1; if quiet > 400000 { break; }
        let r = &mut s.rng;
        let mut o = Opts::new(); o.max = if r.chance(1, 3) { 60 } else { 5 }; o.inv = 2; o.special = r.chance(1, 3); o.disj = r.chance(1, 3); o.clocks = 1 + r.below(2); o.diff = r.chance(1, 3);
        let kind = r.below(4);
        let mut make = |r: &mut Rng, name: &str, first: usize, o: &Opts| { let mut c = rand_comp(r, name, first, o); for k in 0..6 { c.declarations.ints.insert(format!("n{k}"), k); } let d = c.declarations.clone(); for e in c.edges.iter_mut() { e.guard = e.guard.take().map(|g| respell(r, g, &d)); } for l in c.locations.iter_mut() { l.invariant = l.invariant.take().map(|g| respell(r, g, &d)); } c };
        let a = make(r, "A", 1, &o);
        let first = 1 + o.clocks;
        let mut p = Opts { clocks: 1, locs: 2, edges: 3, ..o.clone() };
        if kind == 1 || kind == 3 { p.ins = vec!["c", "e"]; p.outs = vec!["f"]; } 
        let sys = match kind { 0 => Sys::Leaf(a), k => { let b = make(r, "B", first, &p); let (a, b) = (Box::new(Sys::Leaf(a)), Box::new(Sys::Leaf(b))); if k == 1 { Sys::Par(a, b) } else if k == 2 { Sys::Conj(a, b) } else { Sys::Par(a, b) } } };
        let dim = if kind == 0 { first } else { first + 1 } + usize::from(kind == 3);
        if sys.io().is_none() { continue; }
        let ctx = show(&sys);
        if kind == 3 {
            // quotient of the first component by the second
            let Sys::Par(x, y) = &sys else { unreachable!() };
            let (Ok(Ok(l)), Ok(Ok(rt))) = (obs(|| x.build(dim)), obs(|| y.build(dim))) else { continue };
            let Ok(Ok(q)) = obs(|| Quotient::new_ts(l, rt, dim - 1, dim)) else { continue };
            s.note(&ctx); n[2] += 1;
            for t in q.get_all_locations() {
                let parts: Vec<(&LocationTree, &Component)> = match &t.id { LocationID::Quotient(..) if !t.is_universal() && !t.is_inconsistent() => { let mut v = vec![]; leaves(t.get_left(), x, &mut v); leaves(t.get_right(), y, &mut v); v } _ => vec![] };
                if let Some(e) = judge(q.as_ref(), &t, &parts, dim) { s.fail(format!("quotient of A by B: {e}\n{ctx}")); }
                let b = q.get_local_max_bounds(&t);
                if lost(&b, dim - 1, 0, dim) { s.fail(format!("quotient of A by B: at {} the bounds forget that the quotient's clock {} is compared with 0\n{ctx}", t.id, dim - 1)); }
            }
            continue;
        }
        let Ok(Ok(ts)) = obs(|| sys.build(dim)) else { continue };
        s.note(&ctx); n[usize::from(kind > 0)] += 1;
        for t in ts.get_all_locations() {
            let mut parts = vec![]; leaves(&t, &sys, &mut parts);
            if let Some(e) = judge(ts.as_ref(), &t, &parts, dim) { s.fail(format!("{e}\n{ctx}")); }
        }
    }
    eprintln!("single {} composed {} quotient {}", n[0], n[1], n[2]);
    s.done()
}
