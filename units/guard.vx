@unit guard
@boolops
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file G src/EdgeEval/constraint_applyer.rs
@file C src/ModelObjects/component.rs
@type A ArithExpression clone eq
@type A Operation clone
@type A Clock
@type B BoolExpression clone eq
@type C Declarations
@include common.inc
@include fed.inc
@include arith.inc
@prelude
use Inequality::*;
/// the two forms a resolved comparison side can take once constants are folded
pub open spec fn norm(e: AE) -> bool {
    match e {
        AE::Int(_) => true,
        AE::Clock(_) => true,
        AE::Difference(l, r) => (*l is Clock && (*r is Clock || (*r is Int && r->Int_0 != 0))) || (*l is Int && *r is Clock),
        AE::Addition(l, r) => (*l is Clock && (*r is Clock || (*r is Int && r->Int_0 != 0))) || (*l is Int && l->Int_0 != 0 && *r is Clock),
        _ => false,
    }
}
pub open spec fn consts_small(e: AE) -> bool {
    match e {
        AE::Int(i) => small(i as int),
        AE::Difference(l, r) => (*l is Int ==> small(l->Int_0 as int)) && (*r is Int ==> small(r->Int_0 as int)),
        AE::Addition(l, r) => (*l is Int ==> small(l->Int_0 as int)) && (*r is Int ==> small(r->Int_0 as int)),
        _ => true,
    }
}
/// number of clocks of a normal side
pub open spec fn cc(e: AE) -> int {
    match e {
        AE::Clock(_) => 1,
        AE::Difference(l, r) => (if *l is Clock { 1int } else { 0 }) + (if *r is Clock { 1int } else { 0 }),
        AE::Addition(l, r) => (if *l is Clock { 1int } else { 0 }) + (if *r is Clock { 1int } else { 0 }),
        _ => 0,
    }
}
pub open spec fn put1(op: Operation, val: AE, out: AE) -> AE {
    match op {
        Operation::Dif(right) => if right { dif(out, val) } else { dif(val, out) },
        Operation::Add(right) => if right { add(out, val) } else { add(val, out) },
        Operation::None => val,
        _ => out,
    }
}
pub open spec fn rebuild(ds: Seq<(AE, Operation)>, out: AE) -> AE decreases ds.len() {
    if ds.len() == 0 { out } else { rebuild(ds.drop_last(), put1(ds.last().1, ds.last().0, out)) }
}
pub open spec fn stack_ok(ds: Seq<(AE, Operation)>) -> bool {
    forall|i: int| 0 <= i < ds.len() ==> (#[trigger] ds[i]).0 is Clock && (ds[i].1 is Dif || ds[i].1 is Add || ds[i].1 is None)
}
/// const part of a normal side
pub open spec fn kpart(e: AE) -> int {
    match e {
        AE::Int(i) => i as int,
        AE::Difference(l, r) => (if *l is Int { l->Int_0 as int } else { 0 }) - (if *r is Int { r->Int_0 as int } else { 0 }),
        AE::Addition(l, r) => (if *l is Int { l->Int_0 as int } else { 0 }) + (if *r is Int { r->Int_0 as int } else { 0 }),
        _ => 0,
    }
}
pub open spec fn signed(c: Clock, v: Val) -> real { if c.negated { -v[c.value as int] } else { v[c.value as int] } }
pub open spec fn nsem(e: AE, v: Val) -> real {
    match e {
        AE::Int(i) => (i as int) as real,
        AE::Clock(x) => v[x as int],
        AE::Difference(l, r) => psem(*l, v) - psem(*r, v),
        AE::Addition(l, r) => psem(*l, v) + psem(*r, v),
        _ => 0real,
    }
}
pub open spec fn psem(e: AE, v: Val) -> real { match e { AE::Int(i) => (i as int) as real, AE::Clock(x) => v[x as int], _ => 0real } }
pub proof fn lemma_norm_sem(e: AE, d: Declarations, r: AE)
    requires shallow(e, d), resolved(e, d, r)
    ensures norm(r), consts_small(r), forall|v: Val| #![trigger nsem(r, v)] #![trigger sem(e, d, v)] nsem(r, v) == sem(e, d, v),
        npc(r) == pc(e, d), nnc(r) == nc(e, d),
        forall|n: int| #[trigger] clocks_below(e, d, n) ==> nclocks_below(r, n),
{
    reveal_with_fuel(sem, 3); reveal_with_fuel(pc, 3); reveal_with_fuel(nc, 3); reveal_with_fuel(clocks_below, 3);
    match e {
        AE::Difference(l, q) => { lemma_prim(*l, d); lemma_prim(*q, d); }
        AE::Addition(l, q) => { lemma_prim(*l, d); lemma_prim(*q, d); }
        _ => {}
    }
}
pub proof fn lemma_prim(e: AE, d: Declarations)
    ensures konst(e, d) is Some ==> clk(e, d) is None
{}
pub open spec fn npc(e: AE) -> int {
    match e {
        AE::Clock(_) => 1,
        AE::Difference(l, r) => if *l is Clock { 1int } else { 0 },
        AE::Addition(l, r) => cc(e),
        _ => 0,
    }
}
pub open spec fn nnc(e: AE) -> int {
    match e { AE::Difference(l, r) => if *r is Clock { 1int } else { 0 }, _ => 0 }
}
pub open spec fn nclocks_below(e: AE, n: int) -> bool {
    match e {
        AE::Clock(x) => x < n,
        AE::Difference(l, r) => (*l is Clock ==> l->Clock_0 < n) && (*r is Clock ==> r->Clock_0 < n),
        AE::Addition(l, r) => (*l is Clock ==> l->Clock_0 < n) && (*r is Clock ==> r->Clock_0 < n),
        _ => true,
    }
}
@endprelude

@fn A Clock::new -> r
    ensures r.value == v, r.negated == n
@fn A Clock::neg -> r
    ensures r.value == v, r.negated
@fn A Clock::pos -> r
    ensures r.value == v, !r.negated
@fn A Clock::invert
    ensures final(self).value == old(self).value, final(self).negated == !old(self).negated
@fn A ArithExpression::clock_var_count -> r
    requires norm(*self)
    ensures r == cc(*self)
    decreases *self
@fn A ArithExpression::ADif -> r
    requires left is Int && right is Int ==> inr(left->Int_0 - right->Int_0)
    ensures r == dif(left, right)
@fn A ArithExpression::AAdd -> r
    requires left is Int && right is Int ==> inr(left->Int_0 + right->Int_0)
    ensures r == add(left, right)
@fn A ArithExpression::AMul -> r
    requires left is Int && right is Int ==> inr(mul(left->Int_0 as int, right->Int_0 as int))
    ensures left is Int && right is Int ==> r == AE::Int(mul(left->Int_0 as int, right->Int_0 as int) as i32)
@hint start
proof { reveal(mul); if left is Int && right is Int { let (a, b) = (left->Int_0 as int, right->Int_0 as int); assert(a == 0 || b == 0 ==> a * b == 0) by (nonlinear_arith); } }
@fn A ArithExpression::ADiv -> r
    requires left is Int && right is Int ==> inr(tdiv(left->Int_0 as int, right->Int_0 as int))
    ensures left is Int && right is Int && right->Int_0 != 0 ==> r == AE::Int(tdiv(left->Int_0 as int, right->Int_0 as int) as i32)
@hint start
proof { reveal(tdiv); if right is Int { lemma_div0(right->Int_0 as int); } }
@fn A ArithExpression::AMod -> r
    requires left is Int && right is Int ==> right->Int_0 != 0 && !(left->Int_0 == i32::MIN && right->Int_0 == -1)
    ensures left is Int && right is Int ==> r == AE::Int(trem(left->Int_0 as int, right->Int_0 as int) as i32)
@hint start
proof { reveal(trem); }
@fn A ArithExpression::clone_expr -> r
    requires err_msg is None
    ensures r is Ok, r->Ok_0 is Some <==> *checker is Clock || *checker is VarName, r->Ok_0 is Some ==> r->Ok_0->0 == *cloner
@fn A ArithExpression::move_clock_and_vars -> r
    requires norm(*old(self)), prev_op is Dif || prev_op is Add || prev_op is None
    ensures
        r is Ok,
        norm(*final(self)),
        match *old(self) {
            AE::Clock(x) => r->Ok_0 == Some((AE::Clock(x), prev_op)) && *final(self) == AE::Int(0),
            AE::Difference(a, b) => if *a is Clock { r->Ok_0 == Some((*a, Operation::Dif(false))) && *final(self) == *b } else { r->Ok_0 == Some((*b, Operation::Dif(true))) && *final(self) == *a },
            AE::Addition(a, b) => if *a is Clock { r->Ok_0 == Some((*a, Operation::Add(false))) && *final(self) == *b } else { r->Ok_0 == Some((*b, Operation::Add(true))) && *final(self) == *a },
            _ => r->Ok_0 is None && *final(self) == *old(self),
        },
    decreases *old(self)
@fn A ArithExpression::simplify_helper -> r
    requires norm(*old(self))
    ensures !r, *final(self) == *old(self)
    decreases *old(self)
@subst l.as_ref() =>> &**l
@subst r.as_ref() =>> &**r
@subst x - y =>> *x - *y
@subst x + y =>> *x + *y
@subst x * y =>> *x * *y
@subst x / y =>> *x / *y
@subst x % y =>> *x % *y
@fn A ArithExpression::simplify -> r
@attr verifier::allow_complex_invariants
@attr verifier::loop_isolation(false)
    requires norm(*self)
    ensures r == Ok::<AE, String>(*self)
@loops 3
@loop 0
    invariant
        norm(out), stack_ok(diffs@), op is Dif || op is Add || op is None,
        diffs@.len() == 0 ==> out == *self && op is None,
        diffs@.len() > 0 ==> op == diffs@.last().1 && (out is Int || out is Clock),
        out is Clock && diffs@.len() > 0 ==> rebuild(diffs@, out) == *self && !(op is None),
        out is Clock && diffs@.len() > 0 ==> op == Operation::Dif(false) || op == Operation::Add(false),
        out is Int ==> rebuild(diffs@, out) == *self,
    ensures out is Int, rebuild(diffs@, out) == *self, stack_ok(diffs@),
    decreases cc(out)
@loop 1
    invariant rebuild(diffs@, out) == *self, stack_ok(diffs@),
    ensures rebuild(diffs@, out) == *self, diffs@.len() == 0,
    decreases diffs@.len()
@loop 2
    invariant out == *self
    decreases 0int
@hint start
proof { reveal_with_fuel(rebuild, 4); }
@hint loop 0 start
let ghost o0 = out; let ghost d0 = diffs@;
@hint loop 0 end
proof { assert(diffs@.drop_last() =~= d0); }
@hint loop 1 start
proof { }
@fn G combine_clocks -> r
    ensures
        r is Ok <==> ((same_sign && c1.negated == c2.negated) || (!same_sign && c1.negated != c2.negated)),
        r is Ok ==> r->Ok_0 == (if !c1.negated { (c1.value, c2.value, constant) } else { (c2.value, c1.value, constant) }),
@fn G get_clock_val -> r
    requires norm(*expression), count == cc(*expression), count >= 1
    ensures r is Ok, r->Ok_0.1 is Some <==> count == 2,
        match *expression {
            AE::Clock(x) => r->Ok_0.0 == Clock { value: x, negated },
            AE::Difference(a, b) => if *a is Clock { r->Ok_0.0 == (Clock { value: a->Clock_0, negated: false }) && (*b is Clock ==> r->Ok_0.1->0 == Clock { value: b->Clock_0, negated: true }) }
                else { r->Ok_0.0 == Clock { value: b->Clock_0, negated: true } },
            AE::Addition(a, b) => if *a is Clock { r->Ok_0.0 == (Clock { value: a->Clock_0, negated: false }) && (*b is Clock ==> r->Ok_0.1->0 == Clock { value: b->Clock_0, negated: false }) }
                else { r->Ok_0.0 == Clock { value: b->Clock_0, negated: false } },
            _ => true,
        },
    decreases count
@fn G get_const -> r
    requires norm(*expr), consts_small(*expr)
    ensures r == kpart(*expr)
    decreases *expr
@fn G replace_vars -> r
    requires shallow(*expr, *decls) || konst(*expr, *decls) is Some
    ensures r is Ok, shallow(*expr, *decls) ==> resolved(*expr, *decls, r->Ok_0),
        konst(*expr, *decls) is Some ==> r->Ok_0 == AE::Int(konst(*expr, *decls)->0 as i32),
    decreases *expr
@fn G get_indices -> r
    requires shallow(*left, *d), shallow(*right, *d)
    ensures
        r is Ok <==> diff_form(*left, *right, *d),
        r is Ok ==> is_diff(*left, *right, *d, r->Ok_0.0 as int, r->Ok_0.1 as int, r->Ok_0.2 as int),
        r is Ok ==> -0x7fff_ffff <= r->Ok_0.2,
        r is Ok ==> forall|n: int| n > 0 && #[trigger] clocks_below(*left, *d, n) && clocks_below(*right, *d, n) ==> r->Ok_0.0 < n && r->Ok_0.1 < n,
@hint start
let ghost l0 = *left; let ghost r0 = *right;
@hint after "let right ="
proof { lemma_norm_sem(l0, *d, *left); lemma_norm_sem(r0, *d, *right); }
@fn G apply_constraints_to_state_helper -> r
    requires guard_ok(*guard, *decls, fed.n()), fed.n() > 0
    ensures
        all_diff_form(*guard, *decls) ==> r is Ok,
        r is Ok ==> r->Ok_0.n() == fed.n() && forall|v: Val| vok(v, fed.n()) ==> (#[trigger] r->Ok_0.has(v) <==> fed.has(v) && sat(*guard, *decls, v)),
    decreases *guard
@fn G apply_constraints_to_state -> r
    requires guard_ok(*guard, *decls, fed.n()), fed.n() > 0
    ensures
        all_diff_form(*guard, *decls) ==> r is Ok,
        r is Ok ==> r->Ok_0.n() == fed.n() && forall|v: Val| vok(v, fed.n()) ==> (#[trigger] r->Ok_0.has(v) <==> fed.has(v) && sat(*guard, *decls, v)),
@end
