use crate::{comps::*, obs, Search};
const IN: [&str; 4] = ["a", "b", "e", "f"];
const OUT: [&str; 4] = ["c", "d", "g", "h"];
fn leaf(s: &mut Search, name: &str, first: usize, conj: bool) -> Component0 {
    let mut o = Opts::new();
    o.locs = 2; o.edges = 5; o.special = s.rng.chance(1, 3);
    if conj && s.rng.chance(1, 2) { o.inv = 0; }
    let pick = |s: &mut Search, from: &[&'static str]| from.iter().filter(|_| s.rng.chance(2, 3)).cloned().collect::<Vec<_>>();
    if conj && s.rng.chance(5, 6) { o.ins = pick(s, &["a", "b"]); o.outs = pick(s, &["c", "d"]); }
    else {
        let (p, q) = (s.rng.chance(1, 2), s.rng.chance(1, 2));
        o.ins = pick(s, if p { &["a", "b", "c"] } else { &IN }); o.outs = pick(s, if q { &["c", "d"] } else { &OUT });
        let outs = o.outs.clone(); o.ins.retain(|x| !outs.contains(x));
    }
    if o.ins.is_empty() && o.outs.is_empty() { o.ins.push("a"); }
    rand_comp(&mut s.rng, name, first, &o)
}
type Component0 = reveaal::ModelObjects::Component;
pub fn run(mut s: Search, conj: bool) -> ! {
    while s.more() {
        let n = 2 + usize::from(s.rng.chance(1, 3));
        let mut sys: Vec<Sys> = (0..n).map(|i| Sys::Leaf(leaf(&mut s, ["A", "B", "C"][i], 1 + i, conj))).collect();
        let dim = n + 1 + s.rng.below(2);
        let join = |a: Sys, b: Sys, c: bool| if c { Sys::Conj(Box::new(a), Box::new(b)) } else { Sys::Par(Box::new(a), Box::new(b)) };
        while sys.len() > 1 {
            let k = if sys.len() == 2 { 0 } else { s.rng.below(2) };
            let b = sys.remove(k + 1); let a = sys.remove(k);
            let c = if sys.is_empty() { conj } else { s.rng.chance(1, 2) };
            sys.insert(k, join(a, b, c));
        }
        let sys = sys.pop().unwrap();
        let (l, r) = match &sys { Sys::Par(a, b) | Sys::Conj(a, b) => (a, b), _ => unreachable!() };
        // both sides must exist for the question to be asked
        let side = |x: &Sys| obs(|| x.build(dim).is_ok()).unwrap_or(true);
        if l.io().is_none() || r.io().is_none() || !side(l) || !side(r) { s.note("skipped"); continue; }
        let ctx = show(&sys);
        s.note(&ctx);
        match obs(|| sys.build(dim)) {
            Err(p) => s.fail(format!("building panicked: {p}\n{ctx}")),
            Ok(Err(e)) => if sys.io().is_some() && sys.comps().iter().all(|c| c.locations.iter().all(|l| l.invariant.is_none())) { s.fail(format!("rejected although the alphabets fit: {e}\n{ctx}")) } else if sys.io().is_some() && !conj { s.fail(format!("rejected although the outputs are disjoint: {e}\n{ctx}")) },
            Ok(Ok(ts)) => {
                if ts.get_dim() != dim { s.fail(format!("dimension {}\n{ctx}", ts.get_dim())); }
                let rng = &mut s.rng;
                match obs(std::panic::AssertUnwindSafe(|| check(&sys, ts.as_ref(), dim, 4, rng))) { Ok(Ok(())) => {} Ok(Err(e)) => s.fail(format!("{e}\n{ctx}")), Err(p) => s.fail(format!("panicked: {p}\n{ctx}")) }
            }
        }
    }
    s.done()
}
