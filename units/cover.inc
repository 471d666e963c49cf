/// |c| is at most m whenever an applicable comparison reads  i - j ~ c; k one of the two (0 stands for zero)
pub open spec fn cov_atom(l: AE, r: AE, d: Declarations, k: int, m: int) -> bool {
    forall|i: int, j: int, c: int| 0 <= i && 0 <= j && i != j && (k == i || k == j) && diff_form(l, r, d) && #[trigger] is_diff(l, r, d, i, j, c) ==> -m <= c <= m
}
/// m is at least every constant the guard compares the clock k with
pub open spec fn cov(g: BoolExpression, d: Declarations, k: int, m: int) -> bool decreases g {
    match g {
        BoolExpression::AndOp(a, b) => cov(*a, d, k, m) && cov(*b, d, k, m),
        BoolExpression::OrOp(a, b) => cov(*a, d, k, m) && cov(*b, d, k, m),
        BoolExpression::LessEQ(l, r) => cov_atom(*l, *r, d, k, m),
        BoolExpression::GreatEQ(l, r) => cov_atom(*l, *r, d, k, m),
        BoolExpression::LessT(l, r) => cov_atom(*l, *r, d, k, m),
        BoolExpression::GreatT(l, r) => cov_atom(*l, *r, d, k, m),
        BoolExpression::EQ(l, r) => cov_atom(*l, *r, d, k, m),
        BoolExpression::Bool(_) => true,
    }
}
/// the clocks a declaration names
pub open spec fn declared(d: Declarations, k: int) -> bool { 0 < k <= usize::MAX && exists|x: String| #[trigger] d.clocks@.contains_key(x) && d.clocks@[x] == k }
/// the bounds keep every constant that the guard compares a declared clock with
pub open spec fn covers(b: Bounds, g: BoolExpression, d: Declarations) -> bool { forall|k: int| #[trigger] declared(d, k) ==> cov(g, d, k, b.lo(k)) && cov(g, d, k, b.up(k)) }
/// the guards and invariants of a component
pub open spec fn looks_at(c: Component, g: BoolExpression) -> bool {
    ||| exists|i: int| 0 <= i < c.edges@.len() && (#[trigger] c.edges@[i]).guard == Some(g)
    ||| exists|i: int| 0 <= i < c.locations@.len() && (#[trigger] c.locations@[i]).invariant == Some(g)
}
pub open spec fn comp_covered(b: Bounds, c: Component) -> bool { forall|g: BoolExpression| #[trigger] looks_at(c, g) ==> covers(b, g, c.declarations) }
/// every comparison of the guard is between plain sides
pub open spec fn plain(g: BoolExpression, d: Declarations) -> bool decreases g {
    match g {
        BoolExpression::AndOp(a, b) => plain(*a, d) && plain(*b, d),
        BoolExpression::OrOp(a, b) => plain(*a, d) && plain(*b, d),
        BoolExpression::LessEQ(l, r) => shallow(*l, d) && shallow(*r, d),
        BoolExpression::GreatEQ(l, r) => shallow(*l, d) && shallow(*r, d),
        BoolExpression::LessT(l, r) => shallow(*l, d) && shallow(*r, d),
        BoolExpression::GreatT(l, r) => shallow(*l, d) && shallow(*r, d),
        BoolExpression::EQ(l, r) => shallow(*l, d) && shallow(*r, d),
        BoolExpression::Bool(_) => true,
    }
}
pub open spec fn opt_plain(g: Option<BoolExpression>, d: Declarations) -> bool { g is Some ==> plain(g->0, d) }
pub proof fn lemma_plain(g: BoolExpression, d: Declarations, n: int) requires guard_ok(g, d, n) ensures plain(g, d) decreases g {
    match g {
        BoolExpression::AndOp(a, b) => { lemma_plain(*a, d, n); lemma_plain(*b, d, n); }
        BoolExpression::OrOp(a, b) => { lemma_plain(*a, d, n); lemma_plain(*b, d, n); }
        _ => {}
    }
}
pub open spec fn plain_comp(c: Component) -> bool { (forall|i: int| 0 <= i < c.edges@.len() ==> opt_plain((#[trigger] c.edges@[i]).guard, c.declarations)) && forall|i: int| 0 <= i < c.locations@.len() ==> opt_plain((#[trigger] c.locations@[i]).invariant, c.declarations) }
