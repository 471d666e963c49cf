use vreplay::{comps::*, obs, Search};
fn main() {
    let mut s = Search::new();
    while s.more() {
        let mut o = Opts::new();
        o.special = s.rng.chance(1, 2); o.clocks = 1 + s.rng.below(2); o.diff = true; o.disj = true;
        if s.rng.chance(1, 6) { o.outs.push("a"); }
        if s.rng.chance(1, 4) { o.outs.push("*"); o.ins.push("*"); }
        if s.rng.chance(1, 5) { o.ins.truncate(1); o.outs.truncate(1); o.edges = 8; }
        let first = 1 + s.rng.below(2);
        let c = rand_comp(&mut s.rng, "M", first, &o);
        let dim = first + o.clocks + s.rng.below(2);
        let sys = Sys::Leaf(c);
        let ctx = show(&sys);
        s.note(&ctx);
        match obs(|| sys.build(dim)) {
            Err(p) => s.fail(format!("compiling panicked: {p}\n{ctx}")),
            Ok(Err(e)) => if sys.io().is_some() { s.fail(format!("rejected although inputs and outputs are disjoint: {e}\n{ctx}")) },
            Ok(Ok(ts)) => {
                if ts.get_dim() != dim { s.fail(format!("dimension {}\n{ctx}", ts.get_dim())); }
                let r = &mut s.rng;
                match obs(std::panic::AssertUnwindSafe(|| check(&sys, ts.as_ref(), dim, o.max, r))) { Ok(Ok(())) => {} Ok(Err(e)) => s.fail(format!("{e}\n{ctx}")), Err(p) => s.fail(format!("panicked: {p}\n{ctx}")) }
            }
        }
    }
    s.done();
}
