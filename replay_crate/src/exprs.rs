//! random guards and their textbook meaning
use crate::Rng;
use reveaal::ModelObjects::Declarations;
use reveaal::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};
pub const CLOCKS: [&str; 3] = ["x", "y", "z"];
pub fn decls(dim: usize) -> Declarations {
    let mut d = Declarations::empty();
    for i in 1..dim { d.clocks.insert(CLOCKS[i - 1].into(), i); }
    d.ints.insert("n".into(), 3); d.ints.insert("m".into(), -2); d.ints.insert("zero".into(), 0); d.ints.insert("big".into(), 7); d.ints.insert("x".into(), 11);
    d
}
/// value of a clock-free expression, None where Rust would panic or the tool defines nothing
pub fn konst(e: &A, d: &Declarations) -> Option<i64> {
    let fit = |x: i64| if x >= i32::MIN as i64 && x <= i32::MAX as i64 { Some(x) } else { None };
    match e {
        A::Int(i) => Some(*i as i64),
        A::Clock(_) => None,
        A::VarName(n) => if d.clocks.contains_key(n) { None } else { d.ints.get(n).map(|x| *x as i64) },
        A::Difference(a, b) => fit(konst(a, d)? - konst(b, d)?),
        A::Addition(a, b) => fit(konst(a, d)? + konst(b, d)?),
        A::Multiplication(a, b) => fit(konst(a, d)? * konst(b, d)?),
        A::Division(a, b) => { let k = konst(b, d)?; if k == 0 { None } else { fit(konst(a, d)? / k) } }
        A::Modulo(a, b) => { let k = konst(b, d)?; if k == 0 { None } else { fit(konst(a, d)? % k) } }
    }
}
pub fn clk(e: &A, d: &Declarations) -> Option<usize> { match e { A::Clock(x) => Some(*x), A::VarName(n) => d.clocks.get(n).copied(), _ => None } }
/// twice the value of a linear side: (constant, coefficient per clock)
pub fn lin(e: &A, d: &Declarations, dim: usize) -> Option<(i64, Vec<i64>)> {
    if let Some(k) = konst(e, d) { return Some((k, vec![0; dim])); }
    if let Some(x) = clk(e, d) { let mut v = vec![0; dim]; v[x] = 1; return Some((0, v)); }
    match e {
        A::Difference(a, b) => { let (a, b) = (lin(a, d, dim)?, lin(b, d, dim)?); Some((a.0 - b.0, a.1.iter().zip(&b.1).map(|(x, y)| x - y).collect())) }
        A::Addition(a, b) => { let (a, b) = (lin(a, d, dim)?, lin(b, d, dim)?); Some((a.0 + b.0, a.1.iter().zip(&b.1).map(|(x, y)| x + y).collect())) }
        _ => None,
    }
}
pub fn side_val(e: &A, d: &Declarations, v: &[i64]) -> i64 { let (k, c) = lin(e, d, v.len()).unwrap(); 2 * k + c.iter().zip(v).map(|(a, b)| a * b).sum::<i64>() }
pub fn sat(g: &B, d: &Declarations, v: &[i64]) -> bool {
    match g {
        B::AndOp(a, b) => sat(a, d, v) && sat(b, d, v),
        B::OrOp(a, b) => sat(a, d, v) || sat(b, d, v),
        B::LessEQ(a, b) => side_val(a, d, v) <= side_val(b, d, v),
        B::GreatEQ(a, b) => side_val(a, d, v) >= side_val(b, d, v),
        B::LessT(a, b) => side_val(a, d, v) < side_val(b, d, v),
        B::GreatT(a, b) => side_val(a, d, v) > side_val(b, d, v),
        B::EQ(a, b) => side_val(a, d, v) == side_val(b, d, v),
        B::Bool(b) => *b,
    }
}
fn bx(e: A) -> Box<A> { Box::new(e) }
pub fn rand_konst(r: &mut Rng, d: &Declarations, depth: usize) -> A {
    loop {
        let e = if depth == 0 || r.chance(1, 2) { match r.below(4) { 0 => A::VarName(r.pick(&["n", "m", "zero", "big"]).to_string()), _ => A::Int(r.int(-6, 9)) } } else {
            let (a, b) = (bx(rand_konst(r, d, depth - 1)), bx(rand_konst(r, d, depth - 1)));
            match r.below(5) { 0 => A::Difference(a, b), 1 => A::Addition(a, b), 2 => A::Multiplication(a, b), 3 => A::Division(a, b), _ => A::Modulo(a, b) }
        };
        if konst(&e, d).is_some() { return e; }
    }
}
pub fn rand_clock(r: &mut Rng, dim: usize) -> A { let i = 1 + r.below(dim - 1); if r.chance(1, 3) { A::Clock(i) } else { A::VarName(CLOCKS[i - 1].into()) } }
pub fn rand_side(r: &mut Rng, d: &Declarations, dim: usize) -> A {
    match r.below(6) {
        0 | 1 => rand_konst(r, d, 2),
        2 | 3 => rand_clock(r, dim),
        _ => {
            let a = if r.chance(2, 3) { rand_clock(r, dim) } else { rand_konst(r, d, 1) };
            let b = if r.chance(1, 2) || konst(&a, d).is_some() { if konst(&a, d).is_some() { rand_clock(r, dim) } else { rand_konst(r, d, 1) } } else { rand_clock(r, dim) };
            if r.chance(1, 2) { A::Difference(bx(a), bx(b)) } else { A::Addition(bx(a), bx(b)) }
        }
    }
}
/// left - right has the form x - y + k, x + k or k - y (counting occurrences, without cancelling)
pub fn diff_form(a: &A, b: &A, d: &Declarations) -> bool {
    fn pn(e: &A, d: &Declarations) -> (i32, i32) {
        if konst(e, d).is_some() { (0, 0) } else if clk(e, d).is_some() { (1, 0) } else {
            match e { A::Difference(l, r) => { let (a, b) = (pn(l, d), pn(r, d)); (a.0 + b.1, a.1 + b.0) } A::Addition(l, r) => { let (a, b) = (pn(l, d), pn(r, d)); (a.0 + b.0, a.1 + b.1) } _ => (9, 9) }
        }
    }
    let (l, r) = (pn(a, d), pn(b, d));
    let (p, n) = (l.0 + r.1, l.1 + r.0);
    p <= 1 && n <= 1 && p + n >= 1
}
pub fn rand_atom(r: &mut Rng, d: &Declarations, dim: usize) -> B {
    let (a, b) = loop { let (a, b) = (rand_side(r, d, dim), rand_side(r, d, dim)); if diff_form(&a, &b, d) || r.chance(1, 12) { break (bx(a), bx(b)); } };
    match r.below(5) { 0 => B::LessEQ(a, b), 1 => B::GreatEQ(a, b), 2 => B::LessT(a, b), 3 => B::GreatT(a, b), _ => B::EQ(a, b) }
}
pub fn rand_guard(r: &mut Rng, d: &Declarations, dim: usize, depth: usize) -> B {
    if depth == 0 || r.chance(1, 3) { return if r.chance(1, 12) { B::Bool(r.chance(1, 2)) } else { rand_atom(r, d, dim) }; }
    let (a, b) = (Box::new(rand_guard(r, d, dim, depth - 1)), Box::new(rand_guard(r, d, dim, depth - 1)));
    if r.chance(1, 2) { B::AndOp(a, b) } else { B::OrOp(a, b) }
}
pub fn atoms_diff(g: &B, d: &Declarations) -> bool {
    match g { B::AndOp(a, b) | B::OrOp(a, b) => atoms_diff(a, d) && atoms_diff(b, d), B::Bool(_) => true, B::LessEQ(a, b) | B::GreatEQ(a, b) | B::LessT(a, b) | B::GreatT(a, b) | B::EQ(a, b) => diff_form(a, b, d) }
}
