pub use vstd::arithmetic::div_mod::{rust_div, rust_rem};
/// truncated division and its remainder, as Rust computes them
#[verifier::opaque] pub open spec fn tdiv(a: int, b: int) -> int { rust_div(a, b) }
#[verifier::opaque] pub open spec fn trem(a: int, b: int) -> int { rust_rem(a, b) }
#[verifier::opaque] pub open spec fn mul(a: int, b: int) -> int { a * b }
pub type AE = ArithExpression;
pub open spec fn inr(x: int) -> bool { i32::MIN <= x <= i32::MAX }
pub open spec fn small(x: int) -> bool { -0x2000_0000 < x < 0x2000_0000 }
pub open spec fn look<V>(m: HashMap<String, V>, k: String) -> Option<V> { if m@.contains_key(k) { Some(m@[k]) } else { None } }
pub proof fn lemma_div0(b: int) ensures b != 0 ==> rust_div(0, b) == 0 {
    if b != 0 { assert(0int / b == 0) by (nonlinear_arith) requires b != 0; if b < 0 { assert(0int / -b == 0) by (nonlinear_arith) requires b < 0; } }
}
/// value of an expression without clocks (names resolved, clocks shadow integers), if every intermediate value fits i32
pub open spec fn konst(e: AE, d: Declarations) -> Option<int> decreases e {
    match e {
        AE::Int(i) => Some(i as int),
        AE::Clock(_) => None,
        AE::VarName(n) => if look(d.clocks, n) is Some { None } else if look(d.ints, n) is Some { Some(look(d.ints, n)->0 as int) } else { None },
        AE::Difference(l, r) => (if konst(*l, d) is Some && konst(*r, d) is Some { fit(konst(*l, d)->0 - konst(*r, d)->0) } else { None }),
        AE::Addition(l, r) => (if konst(*l, d) is Some && konst(*r, d) is Some { fit(konst(*l, d)->0 + konst(*r, d)->0) } else { None }),
        AE::Multiplication(l, r) => (if konst(*l, d) is Some && konst(*r, d) is Some { fit(mul(konst(*l, d)->0, konst(*r, d)->0)) } else { None }),
        AE::Division(l, r) => if konst(*r, d) == Some(0int) { None } else { (if konst(*l, d) is Some && konst(*r, d) is Some { fit(tdiv(konst(*l, d)->0, konst(*r, d)->0)) } else { None }) },
        AE::Modulo(l, r) => if konst(*r, d) == Some(0int) || (konst(*l, d) == Some(i32::MIN as int) && konst(*r, d) == Some(-1int)) { None } else { (if konst(*l, d) is Some && konst(*r, d) is Some { fit(trem(konst(*l, d)->0, konst(*r, d)->0)) } else { None }) },
    }
}
pub open spec fn fit(x: int) -> Option<int> { if inr(x) { Some(x) } else { None } }
/// the clock an expression names
pub open spec fn clk(e: AE, d: Declarations) -> Option<usize> {
    match e { AE::Clock(x) => Some(x), AE::VarName(n) => look(d.clocks, n), _ => None }
}
pub open spec fn small_konst(e: AE, d: Declarations) -> bool { konst(e, d) is Some && small(konst(e, d)->0) }
/// a comparison side: a constant, a clock, or the sum or difference of two such parts
pub open spec fn shallow(e: AE, d: Declarations) -> bool {
    ||| small_konst(e, d)
    ||| clk(e, d) is Some
    ||| (match e {
            AE::Difference(l, r) => part(*l, d) && part(*r, d) && konst(e, d) is None && !(konst(*l, d) is Some && konst(*r, d) is Some),
            AE::Addition(l, r) => part(*l, d) && part(*r, d) && konst(e, d) is None && !(konst(*l, d) is Some && konst(*r, d) is Some),
            _ => false,
        })
}
pub open spec fn part(e: AE, d: Declarations) -> bool { small_konst(e, d) || clk(e, d) is Some }
pub open spec fn prim(e: AE, d: Declarations) -> AE { if konst(e, d) is Some { AE::Int(konst(e, d)->0 as i32) } else { AE::Clock(clk(e, d)->0) } }
pub open spec fn dif(a: AE, b: AE) -> AE { if b == AE::Int(0) { a } else if a is Int && b is Int { AE::Int((a->Int_0 - b->Int_0) as i32) } else { AE::Difference(Box::new(a), Box::new(b)) } }
pub open spec fn add(a: AE, b: AE) -> AE { if b == AE::Int(0) { a } else if a == AE::Int(0) { b } else if a is Int && b is Int { AE::Int((a->Int_0 + b->Int_0) as i32) } else { AE::Addition(Box::new(a), Box::new(b)) } }
/// what resolving names and folding constants turns a shallow side into
pub open spec fn resolved(e: AE, d: Declarations, r: AE) -> bool {
    if konst(e, d) is Some || clk(e, d) is Some { r == prim(e, d) } else {
        match e {
            AE::Difference(a, b) => r == dif(prim(*a, d), prim(*b, d)),
            AE::Addition(a, b) => r == add(prim(*a, d), prim(*b, d)),
            _ => false,
        }
    }
}
/// the real value of a side under a valuation
pub open spec fn sem(e: AE, d: Declarations, v: Val) -> real decreases e {
    if konst(e, d) is Some { (konst(e, d)->0) as real }
    else if clk(e, d) is Some { v[clk(e, d)->0 as int] }
    else { match e { AE::Difference(l, r) => sem(*l, d, v) - sem(*r, d, v), AE::Addition(l, r) => sem(*l, d, v) + sem(*r, d, v), _ => 0real } }
}
/// how many clocks enter with a plus / a minus sign
pub open spec fn pc(e: AE, d: Declarations) -> int decreases e {
    if konst(e, d) is Some { 0 } else if clk(e, d) is Some { 1 }
    else { match e { AE::Difference(l, r) => pc(*l, d) + nc(*r, d), AE::Addition(l, r) => pc(*l, d) + pc(*r, d), _ => 0 } }
}
pub open spec fn nc(e: AE, d: Declarations) -> int decreases e {
    if konst(e, d) is Some { 0 } else if clk(e, d) is Some { 0 }
    else { match e { AE::Difference(l, r) => nc(*l, d) + pc(*r, d), AE::Addition(l, r) => nc(*l, d) + nc(*r, d), _ => 0 } }
}
/// left - right has the form  x - y + k,  x + k  or  k - y
pub open spec fn diff_form(l: AE, r: AE, d: Declarations) -> bool {
    let p = pc(l, d) + nc(r, d); let n = nc(l, d) + pc(r, d);
    p <= 1 && n <= 1 && p + n >= 1
}
pub open spec fn clocks_below(e: AE, d: Declarations, n: int) -> bool decreases e {
    if konst(e, d) is Some { true } else if clk(e, d) is Some { clk(e, d)->0 < n }
    else { match e { AE::Difference(l, r) => clocks_below(*l, d, n) && clocks_below(*r, d, n), AE::Addition(l, r) => clocks_below(*l, d, n) && clocks_below(*r, d, n), _ => false } }
}
/// left - right = v[i] - v[j] - c for every valuation
pub open spec fn is_diff(l: AE, r: AE, d: Declarations, i: int, j: int, c: int) -> bool {
    forall|v: Val| v[0] == 0real ==> #[trigger] sem(l, d, v) - sem(r, d, v) == v[i] - v[j] - (c as real)
}
pub open spec fn atom_ok(l: AE, r: AE, d: Declarations, n: int) -> bool { shallow(l, d) && shallow(r, d) && clocks_below(l, d, n) && clocks_below(r, d, n) }
pub open spec fn guard_ok(g: BoolExpression, d: Declarations, n: int) -> bool decreases g {
    match g {
        BoolExpression::AndOp(a, b) => guard_ok(*a, d, n) && guard_ok(*b, d, n),
        BoolExpression::OrOp(a, b) => guard_ok(*a, d, n) && guard_ok(*b, d, n),
        BoolExpression::LessEQ(l, r) => atom_ok(*l, *r, d, n),
        BoolExpression::GreatEQ(l, r) => atom_ok(*l, *r, d, n),
        BoolExpression::LessT(l, r) => atom_ok(*l, *r, d, n),
        BoolExpression::GreatT(l, r) => atom_ok(*l, *r, d, n),
        BoolExpression::EQ(l, r) => atom_ok(*l, *r, d, n),
        BoolExpression::Bool(_) => true,
    }
}
pub open spec fn all_diff_form(g: BoolExpression, d: Declarations) -> bool decreases g {
    match g {
        BoolExpression::AndOp(a, b) => all_diff_form(*a, d) && all_diff_form(*b, d),
        BoolExpression::OrOp(a, b) => all_diff_form(*a, d) && all_diff_form(*b, d),
        BoolExpression::LessEQ(l, r) => diff_form(*l, *r, d),
        BoolExpression::GreatEQ(l, r) => diff_form(*l, *r, d),
        BoolExpression::LessT(l, r) => diff_form(*l, *r, d),
        BoolExpression::GreatT(l, r) => diff_form(*l, *r, d),
        BoolExpression::EQ(l, r) => diff_form(*l, *r, d),
        BoolExpression::Bool(_) => true,
    }
}
/// the textbook meaning of a guard
pub open spec fn sat(g: BoolExpression, d: Declarations, v: Val) -> bool decreases g {
    match g {
        BoolExpression::AndOp(a, b) => sat(*a, d, v) && sat(*b, d, v),
        BoolExpression::OrOp(a, b) => sat(*a, d, v) || sat(*b, d, v),
        BoolExpression::LessEQ(l, r) => sem(*l, d, v) <= sem(*r, d, v),
        BoolExpression::GreatEQ(l, r) => sem(*l, d, v) >= sem(*r, d, v),
        BoolExpression::LessT(l, r) => sem(*l, d, v) < sem(*r, d, v),
        BoolExpression::GreatT(l, r) => sem(*l, d, v) > sem(*r, d, v),
        BoolExpression::EQ(l, r) => sem(*l, d, v) == sem(*r, d, v),
        BoolExpression::Bool(b) => b,
    }
}
