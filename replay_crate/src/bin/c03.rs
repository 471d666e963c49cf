use reveaal::EdgeEval::constraint_applyer::apply_constraints_to_state;
use reveaal::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};
use vreplay::{exprs::*, obs, zones::*, Search};
fn main() {
    let mut s = Search::new();
    // the recorded finding: a clock below two operators
    if !s.known.is_empty() {
        let d = decls(2);
        let side = A::Addition(Box::new(A::Difference(Box::new(A::VarName("x".into())), Box::new(A::Int(3)))), Box::new(A::Int(2)));
        let g = B::LessEQ(Box::new(side), Box::new(A::Int(5)));
        let f = apply_constraints_to_state(&g, &d, edbm::zones::OwnedFederation::universe(2));
        let v = vec![0, 16];
        if f.map(|f| has(&f, &v) != sat(&g, &d, &v)).unwrap_or(true) { s.known("nested-side"); }
    }
    while s.more() {
        let dim = 2 + s.rng.below(3);
        let d = decls(dim);
        let g = { let k = s.rng.below(4); rand_guard(&mut s.rng, &d, dim, k) };
        let f = if s.rng.chance(1, 2) { edbm::zones::OwnedFederation::universe(dim) } else { rand_fed(&mut s.rng, dim, 8) };
        s.note(&format!("{g:?}"));
        let r = obs(|| apply_constraints_to_state(&g, &d, f.clone()));
        let ctx = format!("guard {g:?}\ndeclarations {d:?}\nzone {f}");
        match r {
            Err(p) => s.fail(format!("applying the guard panicked: {p}\n{ctx}")),
            Ok(Err(e)) => if atoms_diff(&g, &d) { s.fail(format!("guard refused: {e}\n{ctx}")) },
            Ok(Ok(out)) => {
                if out.dim() != dim { s.fail(format!("dimension changed\n{ctx}")); }
                for _ in 0..40 {
                    let v = rand_val(&mut s.rng, dim, 14);
                    let want = has(&f, &v) && sat(&g, &d, &v);
                    if has(&out, &v) != want { s.fail(format!("valuation (doubled) {v:?}: in result {} expected {want}\nresult {out}\n{ctx}", has(&out, &v))); }
                }
            }
        }
    }
    s.done();
}
