use vreplay::{obs, trans::*, zones::*, Search};
const M: i32 = 5;
fn main() {
    let mut s = Search::new();
    while s.more() {
        let dim = 2 + s.rng.below(3);
        let t = rand_trans(&mut s.rng, dim, M);
        let f = rand_fed(&mut s.rng, dim, M);
        s.note(&format!("{}{f}", show(&t)));
        let ctx = format!("{}\nzone {f}", show(&t));
        match (obs(|| t.get_allowed_federation()), obs(|| t.inverse_apply_updates(f.clone())), obs(|| t.apply_guards(f.clone()))) {
            (Ok(a), Ok(i), Ok(g)) => for _ in 0..20 {
                let v = point(&mut s.rng, dim, M + 2);
                let w = upd8(&t.updates, &v);
                let want = has8(&t.guard_zone, &v) && inv8(&t.target_locations, &w);
                if has8(&a, &v) != want { s.fail(format!("allowed: valuation (in eighths) {v:?} {}, expected {want}\nresult {a}\n{ctx}", !want)); }
                let want = has8(&f, &w);
                if has8(&i, &v) != want { s.fail(format!("states before the updates: valuation (in eighths) {v:?} {}, expected {want}\nresult {i}\n{ctx}", !want)); }
                let want = has8(&f, &v) && has8(&t.guard_zone, &v);
                if has8(&g, &v) != want { s.fail(format!("guard: valuation (in eighths) {v:?} {}, expected {want}\nresult {g}\n{ctx}", !want)); }
            },
            (a, i, g) => s.fail(format!("panicked: {:?} {:?} {:?}\n{ctx}", a.err(), i.err(), g.err())),
        }
    }
    s.done();
}
