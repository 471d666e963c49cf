//! quotient: the transitions of random quotients against the rules, decided point by point
use reveaal::ModelObjects::{Edge, LocationType, SyncType};
use reveaal::TransitionSystems::{LocationID as L, Quotient, TransitionID as I, TransitionSystem, TransitionSystemPtr};
use reveaal::System::specifics::SpecialLocation as X;
use vreplay::{comps::*, obs, zones, Rng, Search};
struct Exp { id: I, target: L, upd: Vec<(usize, i64)>, guard: Box<dyn Fn(&[i64]) -> bool>, rule: &'static str }
fn apply(u: &[(usize, i64)], v: &[i64]) -> Vec<i64> { let mut w = v.to_vec(); for (c, k) in u { w[*c] = 2 * k; } w }
fn can(o: &OTrans, from: &[(reveaal::ModelObjects::Expressions::BoolExpression, reveaal::ModelObjects::Declarations)], v: &[i64]) -> bool { holds(from, v) && holds(&o.guards, v) && holds(&o.invs, &apply(&o.upd, v)) }
fn knows(s: &Sys, a: &str) -> bool { let (i, o) = s.io().unwrap(); i.contains(a) || o.contains(a) }
fn expected(t: &Sys, s: &Sys, lt: &L, ls: &L, a: &str, fresh: bool, x: usize) -> Vec<Exp> {
    let q = |a: &L, b: &L| L::Quotient(Box::new(a.clone()), Box::new(b.clone()));
    let (univ, err) = (L::Special(X::Universal), L::Special(X::Error));
    let ts = if knows(t, a) { t.trans(lt, a) } else { vec![] };
    let ss = if knows(s, a) { s.trans(ls, a) } else { vec![] };
    let (it, is) = (t.invs(lt), s.invs(ls));
    let mut out: Vec<Exp> = vec![];
    let (so, to) = (s.io().unwrap().1.contains(a), t.io().unwrap().1.contains(a));
    if knows(t, a) && knows(s, a) { for p in &ts { for r in &ss {
        let (p, r, it, is) = (p.clone(), r.clone(), it.clone(), is.clone());
        out.push(Exp { id: I::Quotient(vec![p.id.clone()], vec![r.id.clone()]), target: q(&p.target, &r.target), upd: [p.upd.clone(), r.upd.clone()].concat(), guard: Box::new(move |v| can(&p, &it, v) && can(&r, &is, v)), rule: "both move" });
    } } }
    if !knows(t, a) && knows(s, a) { for r in &ss { let (r, is) = (r.clone(), is.clone()); out.push(Exp { id: I::Quotient(vec![], vec![r.id.clone()]), target: q(lt, &r.target), upd: r.upd.clone(), guard: Box::new(move |v| can(&r, &is, v)), rule: "S alone" }); } }
    if knows(t, a) && !knows(s, a) { for p in &ts { let (p, it, is) = (p.clone(), it.clone(), is.clone()); out.push(Exp { id: I::Quotient(vec![p.id.clone()], vec![]), target: q(&p.target, ls), upd: p.upd.clone(), guard: Box::new(move |v| can(&p, &it, v) && holds(&is, v)), rule: "T alone" }); } }
    let id = if so { I::Quotient(vec![], ss.iter().map(|t| t.id.clone()).collect()) } else { I::None };
    { let (ss, is) = (ss.clone(), is.clone()); out.push(Exp { id, target: univ, upd: vec![], guard: Box::new(move |v| !holds(&is, v) || so && !ss.iter().any(|r| can(r, &is, v))), rule: "S cannot be here" }); }
    if so && to { for r in &ss { let (r, ts, it, is) = (r.clone(), ts.clone(), it.clone(), is.clone()); out.push(Exp { id: I::Quotient(ts.iter().map(|t| t.id.clone()).collect(), vec![r.id.clone()]), target: err.clone(), upd: vec![(x, 0)], guard: Box::new(move |v| can(&r, &is, v) && !ts.iter().any(|p| can(p, &it, v))), rule: "S may do what T may not" }); } }
    if fresh { out.push(Exp { id: I::None, target: err, upd: vec![(x, 0)], guard: Box::new(move |v| !holds(&it, v) && holds(&is, v)), rule: "T's invariant is broken" }); }
    out
}
fn check(t: &Sys, s: &Sys, ts: &dyn TransitionSystem, dim: usize, x: usize, max: i32, r: &mut Rng) -> Result<(), String> {
    let ((ti, to), (si, so)) = (t.io().unwrap(), s.io().unwrap());
    let (ins, outs) = (set(ts.get_input_actions()), set(ts.get_output_actions()));
    if !ins.is_disjoint(&outs) { return Err(format!("actions {:?} are both input and output", ins.intersection(&outs).collect::<Vec<_>>())); }
    let base: Set = ti.union(&so).cloned().collect();
    if !base.is_subset(&ins) { return Err(format!("inputs {ins:?} lack some of {base:?}")); }
    let fresh: Vec<String> = ins.difference(&base).cloned().collect();
    if fresh.len() != 1 || knows(t, &fresh[0]) || knows(s, &fresh[0]) { return Err(format!("extra inputs {fresh:?}, expected one that neither side knows")); }
    let want: Set = to.difference(&so).chain(si.difference(&ti)).cloned().collect();
    if outs != want { return Err(format!("outputs {outs:?}, expected {want:?}")); }
    if set(ts.get_actions()) != ins.union(&outs).cloned().collect::<Set>() { return Err("get_actions".into()); }
    let init = match (t.initial(), s.initial()) { (Some(a), Some(b)) => Some(L::Quotient(Box::new(a), Box::new(b))), _ => None };
    if ts.get_initial_location().map(|l| l.id) != init { return Err("initial location".into()); }
    match ts.get_initial_state() {
        None => if init.is_some() { return Err("no initial state".into()) },
        Some(st) => {
            if Some(&st.decorated_locations.id) != init.as_ref() { return Err("initial state at the wrong location".into()); }
            for _ in 0..6 { let mut v = zones::rand_val(r, dim, max + 2); if r.chance(2, 3) { for k in 1..dim { v[k] = v[1]; } } if zones::has(st.zone_ref(), &v) != (1..dim).all(|k| v[k] == v[1]) { return Err(format!("initial zone {}", st.zone_ref())); } }
        }
    }
    let locs = ts.get_all_locations();
    let (univ, err) = (L::Special(X::Universal), L::Special(X::Error));
    let mut want: Vec<String> = vec![univ.to_string(), err.to_string()];
    for a in t.locs() { for b in s.locs() { want.push(L::Quotient(Box::new(a.clone()), Box::new(b)).to_string()); } }
    let mut ids: Vec<String> = locs.iter().map(|l| l.id.to_string()).collect(); ids.sort(); want.sort();
    if ids != want { return Err(format!("locations {ids:?}, expected {want:?}")); }
    let vals: Vec<Vec<i64>> = (0..40).map(|_| { let mut v = zones::rand_val(r, dim, max + 2); if r.chance(1, 4) { v[x] = 0; } v }).collect();
    let inv = |l: &L, v: &[i64]| l != &err || v[x] == 0;
    for l in &locs {
        for v in &vals { if l.get_invariants().map(|f| zones::has(f, v)).unwrap_or(true) != inv(&l.id, v) { return Err(format!("invariant of {} at {v:?} (in halves)", l.id)); } }
        if l.is_universal() != (l.id == univ) || l.is_inconsistent() != (l.id == err) || l.is_initial() != (Some(&l.id) == init.as_ref()) { return Err(format!("kind of {}", l.id)); }
        for a in ins.union(&outs) {
            let input = ins.contains(a);
            let exp = match &l.id {
                L::Quotient(lt, ls) => expected(t, s, lt, ls, a, a == &fresh[0], x),
                L::Special(X::Universal) => vec![Exp { id: I::None, target: univ.clone(), upd: vec![], guard: Box::new(|_| true), rule: "anything goes" }],
                _ => if input { vec![Exp { id: I::None, target: err.clone(), upd: vec![], guard: Box::new(move |v| v[x] == 0), rule: "stuck" }] } else { vec![] },
            };
            let got = ts.next_transitions(l, a);
            let fits = |g: &reveaal::ModelObjects::Transition, e: &Exp| g.id == e.id && g.target_locations.id == e.target && { let st: Vec<i64> = (0..dim).map(|i| -9 - i as i64).collect(); let (mut p, mut q) = (st.clone(), st); for u in &g.updates { p[u.clock_index] = u.value as i64; } for (c, k) in &e.upd { q[*c] = *k; } p == q } && vals.iter().all(|v| zones::has(&g.guard_zone, v) == (e.guard)(v));
            for e in &exp { if let Some(v) = vals.iter().find(|v| (e.guard)(v)) { if !got.iter().any(|g| fits(g, e)) { return Err(format!("at {} action {a}: nothing for the rule \"{}\", enabled at {v:?} (in halves), to {} with id {}; offered: {}", l.id, e.rule, e.target, e.id, list(&got))); } } }
            for g in &got {
                if g.guard_zone.is_empty() { return Err(format!("at {} action {a}: a transition that is never enabled", l.id)); }
                if !exp.iter().any(|e| fits(g, e)) { return Err(format!("at {} action {a}: no rule gives {}", l.id, list(std::slice::from_ref(g)))); }
                for v in &vals { if g.target_locations.get_invariants().map(|f| zones::has(f, v)).unwrap_or(true) != inv(&g.target_locations.id, v) { return Err(format!("target invariant at {} action {a}", l.id)); } }
                if let L::Quotient(p, q) = &g.target_locations.id {
                    for (side, at, id) in [(t, g.target_locations.get_left(), p), (s, g.target_locations.get_right(), q)] { if at.id != **id { return Err("target's parts".into()); } for v in &vals { if at.get_invariants().map(|f| zones::has(f, v)).unwrap_or(true) != holds(&side.invs(id), v) { return Err(format!("invariant of the part {id} of a target")); } } }
                }
            }
        }
        if !ts.next_transitions_if_available(l, "nowhere").is_empty() { return Err("transitions for an unknown action".into()); }
    }
    Ok(())
}
fn list(ts: &[reveaal::ModelObjects::Transition]) -> String { ts.iter().map(|g| format!("[{} guard {} updates {:?} to {}]", g.id, g.guard_zone, g.updates, g.target_locations.id)).collect::<Vec<_>>().join(" ") }
fn leaf(r: &mut Rng, name: &str, first: usize, ins: &[&'static str], outs: &[&'static str]) -> Sys {
    let mut o = Opts::new(); o.locs = 2; o.edges = 5; o.max = 3; o.inv = 2; o.disj = r.chance(1, 6);
    o.ins = ins.iter().filter(|_| r.chance(3, 4)).cloned().collect(); o.outs = outs.iter().filter(|_| r.chance(3, 4)).cloned().collect();
    if o.ins.is_empty() && o.outs.is_empty() { o.outs.push(outs[0]); }
    let mut c = rand_comp(r, name, first, &o);
    if r.chance(1, 12) { c.locations.iter_mut().for_each(|l| l.location_type = LocationType::Normal); }
    if r.chance(1, 10) { let n = c.locations[0].id.clone(); c.edges.push(Edge { id: format!("{name}Q"), source_location: n.clone(), target_location: n, sync_type: if r.chance(1, 2) { SyncType::Input } else { SyncType::Output }, guard: None, update: None, sync: format!("quotient_new_input{}", r.below(2)) }); }
    Sys::Leaf(c)
}
fn main() {
    let mut s = Search::new();
    let mut quiet = 0u64;
    while s.more() {
        quiet += 1; if quiet > 400000 { break; }
        let r = &mut s.rng;
        let t = leaf(r, "T", 1, &["a", "b", "e"], &["c", "d", "g"]);
        let mut c = if r.chance(2, 3) { leaf(r, "S", 2, &["a", "f", "g"], &["c", "d", "h"]) } else { leaf(r, "S", 2, &["a", "b", "f"], &["c", "e", "h"]) };
        let mut used = 2;
        if r.chance(1, 6) { let o = leaf(r, "R", 3, &["c", "p"], &["q", "g"]); c = if r.chance(1, 2) { Sys::Par(Box::new(c), Box::new(o)) } else { Sys::Conj(Box::new(c), Box::new(o)) }; used = 3; }
        let x = used + 1;
        let dim = x + 1;
        let (Some((ti, _)), Some((_, so))) = (t.io(), c.io()) else { continue };
        let (Ok(Ok(bt)), Ok(Ok(bs))) = (obs(|| t.build(dim)), obs(|| c.build(dim))) else { continue };
        let ctx = format!("quotient, extra clock {x}, of T\n{}\nand S\n{}", show(&t), show(&c));
        let pre = [obs(|| bt.check_determinism().is_ok() && bt.check_local_consistency().is_ok()), obs(|| bs.check_determinism().is_ok() && bs.check_local_consistency().is_ok())];
        let (Ok(p), Ok(q)) = (&pre[0], &pre[1]) else { continue };
        let fine = *p && *q && so.is_disjoint(&ti);
        if !fine && !s.rng.chance(1, 10) { continue; }
        s.note(&ctx);
        // S may itself be a quotient: then only the alphabets are compared
        if fine && s.rng.chance(1, 10) {
            let nested = obs(|| Quotient::new_ts(bt.clone(), Quotient::new_ts(bt.clone(), bs.clone(), x, dim).map_err(|e| e.to_string())?, x, dim).map_err(|e| e.to_string()));
            if let Ok(Ok(n)) = nested { let (i, o) = (set(n.get_input_actions()), set(n.get_output_actions())); if !i.is_disjoint(&o) { s.fail(format!("T // (T // S): actions {:?} are both input and output\n{ctx}", i.intersection(&o).collect::<Vec<_>>())); } }
        }
        let built: Result<Result<TransitionSystemPtr, String>, String> = obs(|| Quotient::new_ts(bt, bs, x, dim).map_err(|e| e.to_string()));
        match built {
            Err(p) => s.fail(format!("building panicked: {p}\n{ctx}")),
            Ok(Err(e)) => if fine { s.fail(format!("rejected: {e}\n{ctx}")) },
            Ok(Ok(_)) if !fine => s.fail(format!("accepted, although the sides are fit {p}, {q} and the alphabets {}\n{ctx}", so.is_disjoint(&ti))),
            Ok(Ok(ts)) => {
                if ts.get_dim() != dim { s.fail(format!("dimension {}\n{ctx}", ts.get_dim())); }
                let rng = &mut s.rng;
                match obs(std::panic::AssertUnwindSafe(|| check(&t, &c, ts.as_ref(), dim, x, 3, rng))) { Ok(Ok(())) => {} Ok(Err(e)) => s.fail(format!("{e}\n{ctx}")), Err(p) => s.fail(format!("panicked: {p}\n{ctx}")) }
            }
        }
    }
    s.done()
}
