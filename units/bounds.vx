@unit bounds
@boolops
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file G src/EdgeEval/constraint_applyer.rs
@file C src/ModelObjects/component.rs
@file M src/ModelObjects/location.rs
@file E src/ModelObjects/edge.rs
@file P src/DataReader/parse_edge.rs
@type A ArithExpression clone eq
@type A Operation clone
@type A Clock
@type B BoolExpression clone eq
@type C Declarations
@type P Update
@type E SyncType copy eq
@type E Edge
@type M LocationType copy eq
@type M Location
@type C Component
@include common.inc
@include sets.inc
@include fed.inc
@include arith.inc
@include bounds.inc
@include cover.inc
@prelude
pub open spec fn spike(n: int, k: int, x: real) -> Val { Seq::new(n as nat, |i: int| if i == k { x } else { 0real }) }
/// a difference determines its clocks and its constant
pub proof fn lemma_unique(l: AE, r: AE, d: Declarations, k: int, i: int, j: int, c: int, i2: int, j2: int, c2: int)
    requires is_diff(l, r, d, i, j, c), is_diff(l, r, d, i2, j2, c2), k > 0, 0 <= i, 0 <= j, i != j, k == i || k == j, 0 <= i2, 0 <= j2
    ensures c == c2, k == i2 || k == j2
{
    let n = i + j + i2 + j2 + 1;
    let z = spike(n, 0, 0real); let s = spike(n, k, 1real);
    assert(z[0] == 0real && s[0] == 0real);
    assert(sem(l, d, z) - sem(r, d, z) == z[i] - z[j] - (c as real));
    assert(sem(l, d, z) - sem(r, d, z) == z[i2] - z[j2] - (c2 as real));
    assert(sem(l, d, s) - sem(r, d, s) == s[i] - s[j] - (c as real));
    assert(sem(l, d, s) - sem(r, d, s) == s[i2] - s[j2] - (c2 as real));
}
pub proof fn lemma_cov_mono(g: BoolExpression, d: Declarations, k: int, m: int, m2: int) requires cov(g, d, k, m), m <= m2 ensures cov(g, d, k, m2) decreases g {
    match g {
        BoolExpression::AndOp(a, b) => { lemma_cov_mono(*a, d, k, m, m2); lemma_cov_mono(*b, d, k, m, m2); }
        BoolExpression::OrOp(a, b) => { lemma_cov_mono(*a, d, k, m, m2); lemma_cov_mono(*b, d, k, m, m2); }
        _ => {}
    }
}
/// the guard compares single declared clocks with constants
pub open spec fn single(l: AE, r: AE, d: Declarations) -> bool { diff_form(l, r, d) && exists|i: int, j: int, c: int| #[trigger] is_diff(l, r, d, i, j, c) && (declared(d, i) && j == 0 || i == 0 && declared(d, j)) }
pub open spec fn all_single(g: BoolExpression, d: Declarations) -> bool decreases g {
    match g {
        BoolExpression::AndOp(a, b) => all_single(*a, d) && all_single(*b, d),
        BoolExpression::OrOp(a, b) => all_single(*a, d) && all_single(*b, d),
        BoolExpression::LessEQ(l, r) => single(*l, *r, d),
        BoolExpression::GreatEQ(l, r) => single(*l, *r, d),
        BoolExpression::LessT(l, r) => single(*l, *r, d),
        BoolExpression::GreatT(l, r) => single(*l, *r, d),
        BoolExpression::EQ(l, r) => single(*l, *r, d),
        BoolExpression::Bool(_) => true,
    }
}
/// w answers as v does to every comparison of a clock with a constant kept by the bounds (what extrapolation by b preserves)
pub open spec fn agree(b: Bounds, v: Val, w: Val) -> bool {
    forall|k: int, c: int| #![trigger tick(k, c)] tick(k, c) && k > 0 ==> (c <= b.up(k) ==> (v[k] <= c as real ==> w[k] <= c as real) && (v[k] < c as real ==> w[k] < c as real))
        && (c <= b.lo(k) ==> (v[k] >= c as real ==> w[k] >= c as real) && (v[k] > c as real ==> w[k] > c as real))
}
pub open spec fn tick(k: int, c: int) -> bool { true }
/// bounds that cover a guard on single clocks let no extrapolated valuation satisfy it unless the valuation it stands for does
pub proof fn lemma_keep_atom(l: AE, r: AE, d: Declarations, b: Bounds, v: Val, w: Val)
    requires single(l, r, d), forall|k: int| #[trigger] declared(d, k) ==> cov_atom(l, r, d, k, b.lo(k)) && cov_atom(l, r, d, k, b.up(k)), agree(b, v, w), v[0] == 0real, w[0] == 0real
    ensures sem(l, d, v) <= sem(r, d, v) ==> sem(l, d, w) <= sem(r, d, w), sem(l, d, v) < sem(r, d, v) ==> sem(l, d, w) < sem(r, d, w),
        sem(l, d, v) >= sem(r, d, v) ==> sem(l, d, w) >= sem(r, d, w), sem(l, d, v) > sem(r, d, v) ==> sem(l, d, w) > sem(r, d, w)
{
    let (i, j, c) = choose|i: int, j: int, c: int| #[trigger] is_diff(l, r, d, i, j, c) && (declared(d, i) && j == 0 || i == 0 && declared(d, j));
    assert(sem(l, d, v) - sem(r, d, v) == v[i] - v[j] - (c as real));
    assert(sem(l, d, w) - sem(r, d, w) == w[i] - w[j] - (c as real));
    if j == 0 { assert(cov_atom(l, r, d, i, b.lo(i))); assert(cov_atom(l, r, d, i, b.up(i))); assert(tick(i, c)); } else { assert(cov_atom(l, r, d, j, b.lo(j))); assert(cov_atom(l, r, d, j, b.up(j))); assert(tick(j, -c)); }
}
pub proof fn theorem_bounds_keep_guards(g: BoolExpression, d: Declarations, b: Bounds, v: Val, w: Val)
    requires all_single(g, d), covers(b, g, d), agree(b, v, w), v[0] == 0real, w[0] == 0real
    ensures sat(g, d, v) ==> sat(g, d, w)
    decreases g
{
    match g {
        BoolExpression::AndOp(p, q) => { assert(covers(b, *p, d)) by { reveal_with_fuel(cov, 2); lemma_covers_sub(b, g, *p, *q, d); } assert(covers(b, *q, d)) by { lemma_covers_sub(b, g, *p, *q, d); } theorem_bounds_keep_guards(*p, d, b, v, w); theorem_bounds_keep_guards(*q, d, b, v, w); }
        BoolExpression::OrOp(p, q) => { lemma_covers_sub(b, g, *p, *q, d); theorem_bounds_keep_guards(*p, d, b, v, w); theorem_bounds_keep_guards(*q, d, b, v, w); }
        BoolExpression::LessEQ(l, r) => { lemma_covers_atom(b, g, *l, *r, d); lemma_keep_atom(*l, *r, d, b, v, w); }
        BoolExpression::GreatEQ(l, r) => { lemma_covers_atom(b, g, *l, *r, d); lemma_keep_atom(*l, *r, d, b, v, w); }
        BoolExpression::LessT(l, r) => { lemma_covers_atom(b, g, *l, *r, d); lemma_keep_atom(*l, *r, d, b, v, w); }
        BoolExpression::GreatT(l, r) => { lemma_covers_atom(b, g, *l, *r, d); lemma_keep_atom(*l, *r, d, b, v, w); }
        BoolExpression::EQ(l, r) => { lemma_covers_atom(b, g, *l, *r, d); lemma_keep_atom(*l, *r, d, b, v, w); }
        _ => {}
    }
}
pub proof fn lemma_covers_sub(b: Bounds, g: BoolExpression, p: BoolExpression, q: BoolExpression, d: Declarations)
    requires covers(b, g, d), g == BoolExpression::AndOp(Box::new(p), Box::new(q)) || g == BoolExpression::OrOp(Box::new(p), Box::new(q))
    ensures covers(b, p, d), covers(b, q, d)
{
    assert forall|k: int| #[trigger] declared(d, k) implies cov(p, d, k, b.lo(k)) && cov(p, d, k, b.up(k)) && cov(q, d, k, b.lo(k)) && cov(q, d, k, b.up(k)) by { assert(cov(g, d, k, b.lo(k)) && cov(g, d, k, b.up(k))); }
}
pub open spec fn atom(g: BoolExpression, l: AE, r: AE) -> bool {
    match g { BoolExpression::LessEQ(x, y) => *x == l && *y == r, BoolExpression::GreatEQ(x, y) => *x == l && *y == r, BoolExpression::LessT(x, y) => *x == l && *y == r, BoolExpression::GreatT(x, y) => *x == l && *y == r, BoolExpression::EQ(x, y) => *x == l && *y == r, _ => false }
}
pub proof fn lemma_covers_atom(b: Bounds, g: BoolExpression, l: AE, r: AE, d: Declarations)
    requires covers(b, g, d), atom(g, l, r)
    ensures forall|k: int| #[trigger] declared(d, k) ==> cov_atom(l, r, d, k, b.lo(k)) && cov_atom(l, r, d, k, b.up(k))
{
    assert forall|k: int| #[trigger] declared(d, k) implies cov_atom(l, r, d, k, b.lo(k)) && cov_atom(l, r, d, k, b.up(k)) by { assert(cov(g, d, k, b.lo(k)) && cov(g, d, k, b.up(k))); }
}
/// the first n edges (locations) are covered for the clock k
pub open spec fn edges_cov(c: Component, n: int, k: int, m: int) -> bool { forall|i: int| 0 <= i < n && (#[trigger] c.edges@[i]).guard is Some ==> cov(c.edges@[i].guard->0, c.declarations, k, m) }
pub open spec fn locs_cov(c: Component, n: int, k: int, m: int) -> bool { forall|i: int| 0 <= i < n && (#[trigger] c.locations@[i]).invariant is Some ==> cov(c.locations@[i].invariant->0, c.declarations, k, m) }
pub proof fn lemma_edges_mono(c: Component, n: int, k: int, m: int, m2: int) requires edges_cov(c, n, k, m), m <= m2 ensures edges_cov(c, n, k, m2) {
    assert forall|i: int| 0 <= i < n && (#[trigger] c.edges@[i]).guard is Some implies cov(c.edges@[i].guard->0, c.declarations, k, m2) by { lemma_cov_mono(c.edges@[i].guard->0, c.declarations, k, m, m2); }
}
pub proof fn lemma_locs_mono(c: Component, n: int, k: int, m: int, m2: int) requires locs_cov(c, n, k, m), m <= m2 ensures locs_cov(c, n, k, m2) {
    assert forall|i: int| 0 <= i < n && (#[trigger] c.locations@[i]).invariant is Some implies cov(c.locations@[i].invariant->0, c.declarations, k, m2) by { lemma_cov_mono(c.locations@[i].invariant->0, c.declarations, k, m, m2); }
}
pub open spec fn clock_cov(b: Bounds, c: Component, k: int) -> bool { edges_cov(c, c.edges@.len() as int, k, b.lo(k)) && edges_cov(c, c.edges@.len() as int, k, b.up(k)) && locs_cov(c, c.locations@.len() as int, k, b.lo(k)) && locs_cov(c, c.locations@.len() as int, k, b.up(k)) }
pub proof fn lemma_clock_mono(b: Bounds, b2: Bounds, c: Component, k: int) requires clock_cov(b, c, k), b2.ge(b) ensures clock_cov(b2, c, k) {
    let (e, l) = (c.edges@.len() as int, c.locations@.len() as int);
    assert(b2.lo(k) >= b.lo(k) && b2.up(k) >= b.up(k));
    lemma_edges_mono(c, e, k, b.lo(k), b2.lo(k)); lemma_edges_mono(c, e, k, b.up(k), b2.up(k)); lemma_locs_mono(c, l, k, b.lo(k), b2.lo(k)); lemma_locs_mono(c, l, k, b.up(k), b2.up(k));
}
pub proof fn lemma_cov_le(g: BoolExpression, d: Declarations, k: int)
    ensures forall|m: int, m2: int| #[trigger] cov(g, d, k, m) && m <= m2 ==> #[trigger] cov(g, d, k, m2)
{
    assert forall|m: int, m2: int| #[trigger] cov(g, d, k, m) && m <= m2 implies #[trigger] cov(g, d, k, m2) by { lemma_cov_mono(g, d, k, m, m2); }
}
pub proof fn lemma_all_clocks(b: Bounds, c: Component)
    requires forall|k: usize| k > 0 && #[trigger] c.declarations.clocks@.values().contains(k) ==> clock_cov(b, c, k as int)
    ensures comp_covered(b, c)
{
    assert forall|g: BoolExpression| #[trigger] looks_at(c, g) implies covers(b, g, c.declarations) by {
        assert forall|k: int| #[trigger] declared(c.declarations, k) implies cov(g, c.declarations, k, b.lo(k)) && cov(g, c.declarations, k, b.up(k)) by {
            let x = choose|x: String| #[trigger] c.declarations.clocks@.contains_key(x) && c.declarations.clocks@[x] == k;
            assert(c.declarations.clocks@.values().contains(c.declarations.clocks@[x])); assert(clock_cov(b, c, k));
        }
    }
}
pub open spec fn most(r: Option<i32>) -> int { if r is Some { r->0 as int } else { 0 } }
/// one difference of the sides tells about all of them
pub proof fn lemma_one(g: BoolExpression, d: Declarations, k: int)
    ensures k > 0 ==> forall|l: AE, r: AE, i: int, j: int, c: int, m: int| 0 <= i && 0 <= j && #[trigger] is_diff(l, r, d, i, j, c) && ((k == i || k == j) ==> -m <= c <= m) ==> #[trigger] cov_atom(l, r, d, k, m)
{
    if k > 0 {
        assert forall|l: AE, r: AE, i: int, j: int, c: int, m: int| 0 <= i && 0 <= j && #[trigger] is_diff(l, r, d, i, j, c) && ((k == i || k == j) ==> -m <= c <= m) implies #[trigger] cov_atom(l, r, d, k, m) by {
            assert forall|i2: int, j2: int, c2: int| 0 <= i2 && 0 <= j2 && i2 != j2 && (k == i2 || k == j2) && diff_form(l, r, d) && #[trigger] is_diff(l, r, d, i2, j2, c2) implies -m <= c2 <= m by { lemma_unique(l, r, d, k, i2, j2, c2, i, j, c); }
        }
    }
}
pub open spec fn branches(g: BoolExpression, a: BoolExpression, b: BoolExpression) -> bool { match g { BoolExpression::AndOp(x, y) => *x == a && *y == b, BoolExpression::OrOp(x, y) => *x == a && *y == b, _ => false } }
pub proof fn lemma_two(g: BoolExpression, d: Declarations, k: int)
    ensures forall|a: BoolExpression, b: BoolExpression, m1: int, m2: int| branches(g, a, b) && #[trigger] cov(a, d, k, m1) && #[trigger] cov(b, d, k, m2) ==> cov(g, d, k, if m1 > m2 { m1 } else { m2 })
{
    assert forall|a: BoolExpression, b: BoolExpression, m1: int, m2: int| branches(g, a, b) && #[trigger] cov(a, d, k, m1) && #[trigger] cov(b, d, k, m2) implies cov(g, d, k, if m1 > m2 { m1 } else { m2 }) by {
        let m = if m1 > m2 { m1 } else { m2 }; lemma_cov_mono(a, d, k, m1, m); lemma_cov_mono(b, d, k, m2, m);
    }
}
pub assume_specification[i32::saturating_abs](x: i32) -> (r: i32) ensures r == (if x == i32::MIN { i32::MAX as int } else if x < 0 { -x } else { x as int });
@endprelude
@import guard G get_indices
@fn B BoolExpression::get_max_constant -> r
    requires plain(*self, *decls)
    ensures r >= 0, clock > 0 ==> cov(*self, *decls, clock as int, r as int)
    decreases *self
@hint start
    proof { lemma_one(*self, *decls, clock as int); lemma_two(*self, *decls, clock as int); }
@fn C Component::get_max_bounds -> r
    requires plain_comp(*self)
    ensures comp_covered(r, *self)
@attr verifier::loop_isolation(false)
@hint start
    let ghost ks = self.declarations.clocks@;
@loops 3
@loop 0
    invariant lists(it0.seq(), ks.values()), forall|i: int| 0 <= i < it0.index@ && *#[trigger] it0.seq()[i] > 0 ==> clock_cov(max_bounds, *self, *it0.seq()[i] as int)
@hint loop 0 start
    let ghost b0 = max_bounds; let ghost k0 = *clock_id as int;
@hint loop 0 end
    proof {
        if k0 > 0 { let (e, l) = (self.edges@.len() as int, self.locations@.len() as int);
            lemma_edges_mono(*self, e, k0, max_bound as int, max_bounds.lo(k0)); lemma_edges_mono(*self, e, k0, max_bound as int, max_bounds.up(k0)); lemma_locs_mono(*self, l, k0, max_bound as int, max_bounds.lo(k0)); lemma_locs_mono(*self, l, k0, max_bound as int, max_bounds.up(k0)); }
        assert forall|i: int| 0 <= i < it0.index@ && *#[trigger] it0.seq()[i] > 0 implies clock_cov(max_bounds, *self, *it0.seq()[i] as int) by { lemma_clock_mono(b0, max_bounds, *self, *it0.seq()[i] as int); }
    }
@hint before "max_bounds . add_lower"
    proof { if k0 > 0 {
        let (e, l) = (self.edges@.len() as int, self.locations@.len() as int);
        let m = choose|m: int| m <= max_bound && #[trigger] edges_cov(*self, e, k0, m); lemma_edges_mono(*self, e, k0, m, max_bound as int);
        let m = choose|m: int| m <= max_bound && #[trigger] locs_cov(*self, l, k0, m); lemma_locs_mono(*self, l, k0, m, max_bound as int);
    } }
@loop 1
    invariant it1.seq().len() == self.edges@.len(), forall|i: int| 0 <= i < self.edges@.len() ==> *#[trigger] it1.seq()[i] == self.edges@[i], most(__vx_r1) >= 0, k0 > 0 ==> edges_cov(*self, it1.index@ as int, k0, most(__vx_r1))
@hint loop 1 start
    let ghost m0 = most(__vx_r1); let ghost i0 = it1.index@ as int;
    proof { if self.edges@[i0].guard is Some { lemma_cov_le(self.edges@[i0].guard->0, self.declarations, k0); } }
@hint loop 1 end
    proof { if k0 > 0 { lemma_edges_mono(*self, i0, k0, m0, most(__vx_r1)); } }
@loop 2
    invariant it2.seq().len() == self.locations@.len(), forall|i: int| 0 <= i < self.locations@.len() ==> *#[trigger] it2.seq()[i] == self.locations@[i], most(__vx_r2) >= 0, k0 > 0 ==> locs_cov(*self, it2.index@ as int, k0, most(__vx_r2))
@hint loop 2 start
    let ghost m0 = most(__vx_r2); let ghost i0 = it2.index@ as int;
    proof { if self.locations@[i0].invariant is Some { lemma_cov_le(self.locations@[i0].invariant->0, self.declarations, k0); } }
@hint loop 2 end
    proof { if k0 > 0 { lemma_locs_mono(*self, i0, k0, m0, most(__vx_r2)); } }
@hint loop 0 after
    proof { lemma_all_clocks(max_bounds, *self); }
@end
