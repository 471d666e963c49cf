@unit reduce
@boolops
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file C src/ModelObjects/component.rs
@type A ArithExpression clone eq
@type B BoolExpression clone eq
@file M src/ModelObjects/location.rs
@file E src/ModelObjects/edge.rs
@file PE src/DataReader/parse_edge.rs
@type C Declarations
@type PE Update
@type E SyncType copy eq
@type E Edge
@type M LocationType copy eq
@type M Location
@type C Component
@subst . to_owned ( ) =>> . clone ( )
@mapfield clocks ints
@getmut

@include common.inc
@include sets.inc
@include fed.inc
@include arith.inc
@prelude
/// the name occurs in the expression
pub open spec fn occurs(e: AE, name: String) -> bool decreases e {
    match e {
        AE::Difference(l, r) => occurs(*l, name) || occurs(*r, name),
        AE::Addition(l, r) => occurs(*l, name) || occurs(*r, name),
        AE::Multiplication(l, r) => occurs(*l, name) || occurs(*r, name),
        AE::Division(l, r) => occurs(*l, name) || occurs(*r, name),
        AE::Modulo(l, r) => occurs(*l, name) || occurs(*r, name),
        AE::VarName(n) => n == name,
        _ => false,
    }
}
pub open spec fn goccurs(g: BoolExpression, name: String) -> bool decreases g {
    match g {
        BoolExpression::AndOp(a, b) => goccurs(*a, name) || goccurs(*b, name),
        BoolExpression::OrOp(a, b) => goccurs(*a, name) || goccurs(*b, name),
        BoolExpression::LessEQ(l, r) => occurs(*l, name) || occurs(*r, name),
        BoolExpression::GreatEQ(l, r) => occurs(*l, name) || occurs(*r, name),
        BoolExpression::LessT(l, r) => occurs(*l, name) || occurs(*r, name),
        BoolExpression::GreatT(l, r) => occurs(*l, name) || occurs(*r, name),
        BoolExpression::EQ(l, r) => occurs(*l, name) || occurs(*r, name),
        BoolExpression::Bool(_) => false,
    }
}
/// clocks are written by name, as in a guard that was read
pub open spec fn plain(e: AE) -> bool decreases e {
    match e {
        AE::Difference(l, r) => plain(*l) && plain(*r),
        AE::Addition(l, r) => plain(*l) && plain(*r),
        AE::Multiplication(l, r) => plain(*l) && plain(*r),
        AE::Division(l, r) => plain(*l) && plain(*r),
        AE::Modulo(l, r) => plain(*l) && plain(*r),
        AE::Clock(_) => false,
        _ => true,
    }
}
pub open spec fn gplain(g: BoolExpression) -> bool decreases g {
    match g {
        BoolExpression::AndOp(a, b) => gplain(*a) && gplain(*b),
        BoolExpression::OrOp(a, b) => gplain(*a) && gplain(*b),
        BoolExpression::LessEQ(l, r) => plain(*l) && plain(*r),
        BoolExpression::GreatEQ(l, r) => plain(*l) && plain(*r),
        BoolExpression::LessT(l, r) => plain(*l) && plain(*r),
        BoolExpression::GreatT(l, r) => plain(*l) && plain(*r),
        BoolExpression::EQ(l, r) => plain(*l) && plain(*r),
        BoolExpression::Bool(_) => true,
    }
}
/// d are the declarations with the clock c of that name, d2 those without it
pub open spec fn without(d2: Declarations, d: Declarations, name: String, c: usize) -> bool {
    d.clocks@ == d2.clocks@.insert(name, c) && d.ints@ == d2.ints@ && !d2.clocks@.contains_key(name) && !d2.ints@.contains_key(name) && forall|n: String| #[trigger] d2.clocks@.contains_key(n) ==> d2.clocks@[n] != c
}
pub open spec fn easy(e: AE, d: Declarations) -> bool { konst(e, d) is Some || shallow(e, d) }
/// the valuation with the clock at zero
pub open spec fn zero_at(v: Val, c: usize) -> Val { v.update(c as int, 0real) }
/// r is e with the clock at zero
#[verifier::opaque] pub open spec fn zeroed(e: AE, d: Declarations, r: AE, d2: Declarations, c: usize) -> bool {
    if konst(e, d) is Some { r == AE::Int(konst(e, d)->0 as i32) } else {
        &&& shallow(r, d2)
        &&& clk(e, d) is Some ==> r == (if clk(e, d) == Some(c) { AE::Int(0) } else { e })
        &&& konst(r, d2) is Some ==> r is Int
        &&& pc(r, d2) <= pc(e, d) && nc(r, d2) <= nc(e, d) && (pc(r, d2) + nc(r, d2) == 0 ==> r is Int)
        &&& forall|n: int| #[trigger] clocks_below(e, d, n) ==> clocks_below(r, d2, n)
        &&& forall|v: Val, n: int| v.len() == n && c < n && #[trigger] clocks_below(e, d, n) ==> #[trigger] sem(r, d2, v) == sem(e, d, zero_at(v, c))
    }
}
pub open spec fn kids(e: AE) -> (AE, AE) { match e { AE::Difference(l, r) => (*l, *r), AE::Addition(l, r) => (*l, *r), AE::Multiplication(l, r) => (*l, *r), AE::Division(l, r) => (*l, *r), AE::Modulo(l, r) => (*l, *r), _ => (e, e) } }
pub open spec fn binop(e: AE) -> bool { e is Difference || e is Addition || e is Multiplication || e is Division || e is Modulo }
pub open spec fn fold(e: AE, l: AE, r: AE) -> AE {
    match e {
        AE::Difference(_, _) => dif(l, r),
        AE::Addition(_, _) => add(l, r),
        AE::Multiplication(_, _) => if l is Int && r is Int { AE::Int(mul(l->Int_0 as int, r->Int_0 as int) as i32) } else { l },
        AE::Division(_, _) => if l is Int && r is Int { AE::Int(tdiv(l->Int_0 as int, r->Int_0 as int) as i32) } else { l },
        AE::Modulo(_, _) => if l is Int && r is Int { AE::Int(trem(l->Int_0 as int, r->Int_0 as int) as i32) } else { l },
        _ => l,
    }
}
pub open spec fn fold_ok(e: AE, l: AE, r: AE) -> bool {
    match e {
        AE::Difference(_, _) => l is Int && r is Int ==> inr(l->Int_0 - r->Int_0),
        AE::Addition(_, _) => l is Int && r is Int ==> inr(l->Int_0 + r->Int_0),
        AE::Multiplication(_, _) => l is Int && r is Int && inr(mul(l->Int_0 as int, r->Int_0 as int)),
        AE::Division(_, _) => l is Int && r is Int && r->Int_0 != 0 && inr(tdiv(l->Int_0 as int, r->Int_0 as int)),
        AE::Modulo(_, _) => l is Int && r is Int && r->Int_0 != 0 && !(l->Int_0 == i32::MIN && r->Int_0 == -1),
        _ => true,
    }
}
pub proof fn lemma_kids(e: AE, d: Declarations) requires easy(e, d), binop(e) ensures easy(kids(e).0, d), easy(kids(e).1, d) { }
pub proof fn lemma_fold(e: AE, d: Declarations, rl: AE, rq: AE, d2: Declarations, name: String, c: usize)
    requires without(d2, d, name, c), easy(e, d), binop(e), zeroed(kids(e).0, d, rl, d2, c), zeroed(kids(e).1, d, rq, d2, c)
    ensures fold_ok(e, rl, rq), zeroed(e, d, fold(e, rl, rq), d2, c)
{
    reveal(zeroed);
    lemma_kids(e, d);
    let (l, q) = kids(e);
    if konst(e, d) is Some { assert(konst(l, d) is Some && konst(q, d) is Some); }
    else {
        reveal_with_fuel(sem, 3); reveal_with_fuel(pc, 3); reveal_with_fuel(nc, 3); reveal_with_fuel(clocks_below, 3); reveal_with_fuel(konst, 3);
    }
}
pub proof fn lemma_leaf(e: AE, d: Declarations, d2: Declarations, name: String, c: usize)
    requires without(d2, d, name, c), easy(e, d), !binop(e), plain(e)
    ensures zeroed(e, d, match e { AE::VarName(n) => if n == name { AE::Int(0) } else if look(d2.clocks, n) is None && look(d2.ints, n) is Some { AE::Int(look(d2.ints, n)->0) } else { e }, _ => e }, d2, c)
{
    reveal(zeroed);
    reveal_with_fuel(sem, 3); reveal_with_fuel(pc, 3); reveal_with_fuel(nc, 3); reveal_with_fuel(clocks_below, 3); reveal_with_fuel(konst, 3);
}
/// r is the guard g with the clock at zero
#[verifier::opaque] pub open spec fn gzeroed(g: BoolExpression, d: Declarations, r: BoolExpression, d2: Declarations, c: usize) -> bool {
    &&& forall|n: int| #[trigger] guard_ok(g, d, n) ==> guard_ok(r, d2, n)
    &&& all_diff_form(g, d) ==> all_diff_form(r, d2)
    &&& forall|v: Val, n: int| v.len() == n && c < n && #[trigger] guard_ok(g, d, n) ==> (#[trigger] sat(r, d2, v) <==> sat(g, d, zero_at(v, c)))
}
/// the sides of every comparison are constants, clocks, or sums or differences of two of these
pub open spec fn geasy(g: BoolExpression, d: Declarations) -> bool decreases g {
    match g {
        BoolExpression::AndOp(a, b) => geasy(*a, d) && geasy(*b, d),
        BoolExpression::OrOp(a, b) => geasy(*a, d) && geasy(*b, d),
        BoolExpression::LessEQ(l, r) => shallow(*l, d) && shallow(*r, d),
        BoolExpression::GreatEQ(l, r) => shallow(*l, d) && shallow(*r, d),
        BoolExpression::LessT(l, r) => shallow(*l, d) && shallow(*r, d),
        BoolExpression::GreatT(l, r) => shallow(*l, d) && shallow(*r, d),
        BoolExpression::EQ(l, r) => shallow(*l, d) && shallow(*r, d),
        BoolExpression::Bool(_) => true,
    }
}
pub open spec fn cmp(g: BoolExpression) -> bool { g is LessEQ || g is GreatEQ || g is LessT || g is GreatT || g is EQ }
pub open spec fn sides(g: BoolExpression) -> (AE, AE) { match g { BoolExpression::LessEQ(l, r) => (*l, *r), BoolExpression::GreatEQ(l, r) => (*l, *r), BoolExpression::LessT(l, r) => (*l, *r), BoolExpression::GreatT(l, r) => (*l, *r), BoolExpression::EQ(l, r) => (*l, *r), _ => (AE::Int(0), AE::Int(0)) } }
pub open spec fn gfold(g: BoolExpression, l: AE, r: AE) -> BoolExpression {
    match g {
        BoolExpression::LessEQ(_, _) => if l is Int && r is Int { BoolExpression::Bool(l->Int_0 <= r->Int_0) } else { BoolExpression::LessEQ(Box::new(l), Box::new(r)) },
        BoolExpression::GreatEQ(_, _) => if l is Int && r is Int { BoolExpression::Bool(l->Int_0 >= r->Int_0) } else { BoolExpression::GreatEQ(Box::new(l), Box::new(r)) },
        BoolExpression::LessT(_, _) => if l is Int && r is Int { BoolExpression::Bool(l->Int_0 < r->Int_0) } else { BoolExpression::LessT(Box::new(l), Box::new(r)) },
        BoolExpression::GreatT(_, _) => if l is Int && r is Int { BoolExpression::Bool(l->Int_0 > r->Int_0) } else { BoolExpression::GreatT(Box::new(l), Box::new(r)) },
        BoolExpression::EQ(_, _) => if l is Int && r is Int { BoolExpression::Bool(l->Int_0 == r->Int_0) } else { BoolExpression::EQ(Box::new(l), Box::new(r)) },
        _ => g,
    }
}
pub proof fn lemma_gfold(g: BoolExpression, d: Declarations, rl: AE, rq: AE, d2: Declarations, name: String, c: usize)
    requires without(d2, d, name, c), geasy(g, d), cmp(g), zeroed(sides(g).0, d, rl, d2, c), zeroed(sides(g).1, d, rq, d2, c)
    ensures gzeroed(g, d, gfold(g, rl, rq), d2, c)
{
    reveal(zeroed); reveal(gzeroed);
    let (l, q) = sides(g); let r = gfold(g, rl, rq);
    lemma_side(l, d, rl, d2, c); lemma_side(q, d, rq, d2, c);
    reveal_with_fuel(guard_ok, 2); reveal_with_fuel(all_diff_form, 2); reveal_with_fuel(sat, 2);
    assert forall|n: int| #[trigger] guard_ok(g, d, n) implies guard_ok(r, d2, n) by { assert(clocks_below(l, d, n)); assert(clocks_below(q, d, n)); }
    assert forall|v: Val, n: int| v.len() == n && c < n && #[trigger] guard_ok(g, d, n) implies (#[trigger] sat(r, d2, v) <==> sat(g, d, zero_at(v, c))) by { assert(clocks_below(l, d, n)); assert(clocks_below(q, d, n)); assert(sem(rl, d2, v) == sem(l, d, zero_at(v, c))); assert(sem(rq, d2, v) == sem(q, d, zero_at(v, c))); }
    if diff_form(l, q, d) && !(rl is Int && rq is Int) { }
}
pub proof fn lemma_side(l: AE, d: Declarations, rl: AE, d2: Declarations, c: usize)
    requires shallow(l, d), zeroed(l, d, rl, d2, c)
    ensures shallow(rl, d2), pc(rl, d2) <= pc(l, d), nc(rl, d2) <= nc(l, d), pc(rl, d2) >= 0, nc(rl, d2) >= 0, pc(rl, d2) + nc(rl, d2) == 0 ==> rl is Int, rl is Int ==> pc(rl, d2) == 0 && nc(rl, d2) == 0,
        forall|n: int| #[trigger] clocks_below(l, d, n) ==> clocks_below(rl, d2, n),
        forall|v: Val, n: int| v.len() == n && c < n && #[trigger] clocks_below(l, d, n) ==> #[trigger] sem(rl, d2, v) == sem(l, d, zero_at(v, c)),
{
    reveal(zeroed); reveal_with_fuel(sem, 3); reveal_with_fuel(pc, 3); reveal_with_fuel(nc, 3); reveal_with_fuel(clocks_below, 3); reveal_with_fuel(konst, 3);
}
pub proof fn lemma_gand(g: BoolExpression, d: Declarations, ra: BoolExpression, rb: BoolExpression, d2: Declarations, c: usize)
    requires match g { BoolExpression::AndOp(a, b) => gzeroed(*a, d, ra, d2, c) && gzeroed(*b, d, rb, d2, c), BoolExpression::OrOp(a, b) => gzeroed(*a, d, ra, d2, c) && gzeroed(*b, d, rb, d2, c), _ => false }
    ensures gzeroed(g, d, match g { BoolExpression::AndOp(a, b) => BoolExpression::AndOp(Box::new(ra), Box::new(rb)), _ => BoolExpression::OrOp(Box::new(ra), Box::new(rb)) }, d2, c)
{
    reveal(gzeroed);
    let (a, b) = match g { BoolExpression::AndOp(a, b) => (*a, *b), BoolExpression::OrOp(a, b) => (*a, *b), _ => (g, g) };
    let r = match g { BoolExpression::AndOp(a, b) => BoolExpression::AndOp(Box::new(ra), Box::new(rb)), _ => BoolExpression::OrOp(Box::new(ra), Box::new(rb)) };
    assert forall|n: int| #[trigger] guard_ok(g, d, n) implies guard_ok(r, d2, n) by { assert(guard_ok(a, d, n) && guard_ok(b, d, n)); }
    assert forall|v: Val, n: int| v.len() == n && c < n && #[trigger] guard_ok(g, d, n) implies (#[trigger] sat(r, d2, v) <==> sat(g, d, zero_at(v, c))) by {
        assert(guard_ok(a, d, n) && guard_ok(b, d, n)); assert(sat(ra, d2, v) <==> sat(a, d, zero_at(v, c))); assert(sat(rb, d2, v) <==> sat(b, d, zero_at(v, c)));
    }
}
/// an expression without the name does not change its meaning
pub proof fn lemma_absent_k(e: AE, d: Declarations, d2: Declarations, name: String, c: usize)
    requires without(d2, d, name, c), plain(e), !occurs(e, name)
    ensures konst(e, d2) == konst(e, d), clk(e, d2) == clk(e, d), clk(e, d) != Some(c)
    decreases e
{
    match e {
        AE::Difference(l, r) => { lemma_absent_k(*l, d, d2, name, c); lemma_absent_k(*r, d, d2, name, c); }
        AE::Addition(l, r) => { lemma_absent_k(*l, d, d2, name, c); lemma_absent_k(*r, d, d2, name, c); }
        AE::Multiplication(l, r) => { lemma_absent_k(*l, d, d2, name, c); lemma_absent_k(*r, d, d2, name, c); }
        AE::Division(l, r) => { lemma_absent_k(*l, d, d2, name, c); lemma_absent_k(*r, d, d2, name, c); }
        AE::Modulo(l, r) => { lemma_absent_k(*l, d, d2, name, c); lemma_absent_k(*r, d, d2, name, c); }
        _ => {}
    }
}
pub proof fn lemma_absent(e: AE, d: Declarations, d2: Declarations, name: String, c: usize)
    requires without(d2, d, name, c), plain(e), !occurs(e, name)
    ensures konst(e, d2) == konst(e, d), clk(e, d2) == clk(e, d), clk(e, d) != Some(c), pc(e, d2) == pc(e, d), nc(e, d2) == nc(e, d), shallow(e, d2) == shallow(e, d),
        forall|n: int| #[trigger] clocks_below(e, d, n) == clocks_below(e, d2, n),
        forall|v: Val, n: int| v.len() == n && c < n && #[trigger] clocks_below(e, d, n) ==> #[trigger] sem(e, d2, v) == sem(e, d, zero_at(v, c)),
    decreases e
{
    lemma_absent_k(e, d, d2, name, c);
    if konst(e, d) is None && clk(e, d) is None {
        match e {
            AE::Difference(l, r) => { lemma_absent(*l, d, d2, name, c); lemma_absent(*r, d, d2, name, c);
                assert forall|n: int| #[trigger] clocks_below(e, d, n) == clocks_below(e, d2, n) by { assert(clocks_below(*l, d, n) == clocks_below(*l, d2, n)); assert(clocks_below(*r, d, n) == clocks_below(*r, d2, n)); }
                assert forall|v: Val, n: int| v.len() == n && c < n && #[trigger] clocks_below(e, d, n) implies #[trigger] sem(e, d2, v) == sem(e, d, zero_at(v, c)) by { assert(clocks_below(*l, d, n) && clocks_below(*r, d, n)); assert(sem(*l, d2, v) == sem(*l, d, zero_at(v, c))); assert(sem(*r, d2, v) == sem(*r, d, zero_at(v, c))); }
            }
            AE::Addition(l, r) => { lemma_absent(*l, d, d2, name, c); lemma_absent(*r, d, d2, name, c);
                assert forall|n: int| #[trigger] clocks_below(e, d, n) == clocks_below(e, d2, n) by { assert(clocks_below(*l, d, n) == clocks_below(*l, d2, n)); assert(clocks_below(*r, d, n) == clocks_below(*r, d2, n)); }
                assert forall|v: Val, n: int| v.len() == n && c < n && #[trigger] clocks_below(e, d, n) implies #[trigger] sem(e, d2, v) == sem(e, d, zero_at(v, c)) by { assert(clocks_below(*l, d, n) && clocks_below(*r, d, n)); assert(sem(*l, d2, v) == sem(*l, d, zero_at(v, c))); assert(sem(*r, d2, v) == sem(*r, d, zero_at(v, c))); }
            }
            _ => {}
        }
        match e {
            AE::Difference(l, r) => { lemma_absent_k(*l, d, d2, name, c); lemma_absent_k(*r, d, d2, name, c); }
            AE::Addition(l, r) => { lemma_absent_k(*l, d, d2, name, c); lemma_absent_k(*r, d, d2, name, c); }
            _ => {}
        }
    }
}
pub proof fn lemma_gabsent(g: BoolExpression, d: Declarations, d2: Declarations, name: String, c: usize)
    requires without(d2, d, name, c), gplain(g), !goccurs(g, name)
    ensures gzeroed(g, d, g, d2, c)
    decreases g
{
    reveal(gzeroed);
    match g {
        BoolExpression::AndOp(a, b) => { lemma_gabsent(*a, d, d2, name, c); lemma_gabsent(*b, d, d2, name, c); lemma_gand(g, d, *a, *b, d2, c); }
        BoolExpression::OrOp(a, b) => { lemma_gabsent(*a, d, d2, name, c); lemma_gabsent(*b, d, d2, name, c); lemma_gand(g, d, *a, *b, d2, c); }
        BoolExpression::Bool(_) => {}
        _ => {
            let (l, q) = sides(g); lemma_absent(l, d, d2, name, c); lemma_absent(q, d, d2, name, c);
            assert forall|n: int| #[trigger] guard_ok(g, d, n) implies guard_ok(g, d2, n) by { assert(clocks_below(l, d, n) == clocks_below(l, d2, n)); assert(clocks_below(q, d, n) == clocks_below(q, d2, n)); }
            assert forall|v: Val, n: int| v.len() == n && c < n && #[trigger] guard_ok(g, d, n) implies (#[trigger] sat(g, d2, v) <==> sat(g, d, zero_at(v, c))) by { assert(clocks_below(l, d, n)); assert(clocks_below(q, d, n)); assert(sem(l, d2, v) == sem(l, d, zero_at(v, c))); assert(sem(q, d2, v) == sem(q, d, zero_at(v, c))); }
        }
    }
}
#[verifier::external_body] pub fn vx_keys<K: std::hash::Hash + Eq + Clone, V>(m: &HashMap<K, V>) -> (r: Vec<K>) ensures lists_v(r@, m@.dom()), r@.no_duplicates() { unimplemented!() }
/// exactly one name stands for the clock
pub open spec fn one_clock(d: Declarations, c: usize) -> bool {
    (exists|n: String| #[trigger] d.clocks@.contains_key(n) && d.clocks@[n] == c) && (forall|n: String, m: String| #[trigger] d.clocks@.contains_key(n) && #[trigger] d.clocks@.contains_key(m) && d.clocks@[n] == c && d.clocks@[m] == c ==> n == m) && (forall|n: String| #[trigger] d.clocks@.contains_key(n) && d.clocks@[n] == c ==> !d.ints@.contains_key(n))
}
pub open spec fn comp_easy(k: Component) -> bool {
    (forall|i: int| 0 <= i < k.edges@.len() && (#[trigger] k.edges@[i]).guard is Some ==> gplain(k.edges@[i].guard->0) && geasy(k.edges@[i].guard->0, k.declarations))
    && (forall|i: int| 0 <= i < k.locations@.len() && (#[trigger] k.locations@[i]).invariant is Some ==> gplain(k.locations@[i].invariant->0) && geasy(k.locations@[i].invariant->0, k.declarations))
}
pub open spec fn opt_zeroed(g: Option<BoolExpression>, d: Declarations, r: Option<BoolExpression>, d2: Declarations, c: usize) -> bool { (g is Some <==> r is Some) && (g is Some ==> gzeroed(g->0, d, r->0, d2, c)) }
/// the updates of the other clocks, in order
pub open spec fn others(u: Seq<Update>, name: String) -> Seq<Update> { u.filter(|x: Update| x.variable != name) }
pub proof fn lemma_others(u: Seq<Update>, k: int, name: String) requires 0 <= k < u.len() ensures others(u.take(k + 1), name) == (if u[k].variable != name { others(u.take(k), name).push(u[k]) } else { others(u.take(k), name) }), others(u.take(0), name) == Seq::<Update>::empty(), others(u.take(u.len() as int), name) == others(u, name) {
    reveal(Seq::filter); assert(u.take(k + 1).drop_last() =~= u.take(k)); assert(u.take(u.len() as int) =~= u); assert(u.take(0) =~= Seq::<Update>::empty());
}
/// the edge without the clock: its guard at zero, its other updates kept
pub open spec fn edge_without(e: Edge, o: Edge, d2: Declarations, d: Declarations, name: String, c: usize) -> bool {
    opt_zeroed(o.guard, d, e.guard, d2, c) && (o.update is Some <==> e.update is Some) && (o.update is Some ==> e.update->0@ == others(o.update->0@, name))
    && e.id == o.id && e.source_location == o.source_location && e.target_location == o.target_location && e.sync_type == o.sync_type && e.sync == o.sync
}
pub open spec fn loc_without(l: Location, o: Location, d2: Declarations, d: Declarations, c: usize) -> bool { opt_zeroed(o.invariant, d, l.invariant, d2, c) && l.id == o.id && l.location_type == o.location_type && l.urgency == o.urgency }
pub open spec fn edges_done(es: Seq<Edge>, os: Seq<Edge>, d2: Declarations, d: Declarations, name: String, c: usize, n: int) -> bool { es.len() == os.len() && (forall|i: int| 0 <= i < n ==> edge_without(#[trigger] es[i], os[i], d2, d, name, c)) && forall|i: int| n <= i < es.len() ==> #[trigger] es[i] == os[i] }
pub open spec fn locs_done(es: Seq<Location>, os: Seq<Location>, d2: Declarations, d: Declarations, c: usize, n: int) -> bool { es.len() == os.len() && (forall|i: int| 0 <= i < n ==> loc_without(#[trigger] es[i], os[i], d2, d, c)) && forall|i: int| n <= i < es.len() ==> #[trigger] es[i] == os[i] }
/// the component without the clock
pub open spec fn comp_without(k: Component, o: Component, c: usize) -> bool {
    k.name == o.name && exists|name: String| #[trigger] without(k.declarations, o.declarations, name, c) && edges_done(k.edges@, o.edges@, k.declarations, o.declarations, name, c, o.edges@.len() as int) && locs_done(k.locations@, o.locations@, k.declarations, o.declarations, c, o.locations@.len() as int)
}
@endprelude
@import guard A ArithExpression::ADif
@import guard A ArithExpression::AAdd
@import guard A ArithExpression::AMul
@import guard A ArithExpression::ADiv
@import guard A ArithExpression::AMod
@fn A ArithExpression::has_varname -> r
    ensures r == occurs(*self, *name)
    decreases *self
@fn B BoolExpression::has_varname -> r
    ensures r == goccurs(*self, *name)
    decreases *self
@fn A ArithExpression::with_clock_zero -> r
    requires plain(*self), exists|d: Declarations, c: usize| #[trigger] without(*decls, d, *name, c) && easy(*self, d)
    ensures forall|d: Declarations, c: usize| #[trigger] without(*decls, d, *name, c) && easy(*self, d) ==> zeroed(*self, d, r, *decls, c)
    decreases *self
@hint start
proof {
    let (d0, c0) = choose|d: Declarations, c: usize| #[trigger] without(*decls, d, *name, c) && easy(*self, d);
    let e = *self; let d2 = *decls; let (l, q) = kids(e);
    if binop(e) {
        lemma_kids(e, d0);
        assert forall|d: Declarations, c: usize| #[trigger] without(d2, d, *name, c) && easy(e, d) implies easy(l, d) && easy(q, d) by { lemma_kids(e, d); }
        assert forall|d: Declarations, c: usize, rl: AE, rq: AE| #![trigger without(d2, d, *name, c), zeroed(l, d, rl, d2, c), zeroed(q, d, rq, d2, c)] without(d2, d, *name, c) && easy(e, d) && zeroed(l, d, rl, d2, c) && zeroed(q, d, rq, d2, c) implies fold_ok(e, rl, rq) && zeroed(e, d, fold(e, rl, rq), d2, c) by { lemma_fold(e, d, rl, rq, d2, *name, c); }
    } else {
        assert forall|d: Declarations, c: usize| #[trigger] without(d2, d, *name, c) && easy(e, d) implies zeroed(e, d, match e { AE::VarName(n) => if n == *name { AE::Int(0) } else if look(d2.clocks, n) is None && look(d2.ints, n) is Some { AE::Int(look(d2.ints, n)->0) } else { e }, _ => e }, d2, c) by { lemma_leaf(e, d, d2, *name, c); }
    }
}
@fn B BoolExpression::BLessEQ -> r
    ensures r == BoolExpression::LessEQ(Box::new(left), Box::new(right))
@fn B BoolExpression::BGreatEQ -> r
    ensures r == BoolExpression::GreatEQ(Box::new(left), Box::new(right))
@fn B BoolExpression::BLessT -> r
    ensures r == BoolExpression::LessT(Box::new(left), Box::new(right))
@fn B BoolExpression::BGreatT -> r
    ensures r == BoolExpression::GreatT(Box::new(left), Box::new(right))
@fn B BoolExpression::BEQ -> r
    ensures r == BoolExpression::EQ(Box::new(left), Box::new(right))
@fn B BoolExpression::with_clock_zero -> r
    requires gplain(*self), exists|d: Declarations, c: usize| #[trigger] without(*decls, d, *name, c) && geasy(*self, d)
    ensures forall|d: Declarations, c: usize| #[trigger] without(*decls, d, *name, c) && geasy(*self, d) ==> gzeroed(*self, d, r, *decls, c)
    decreases *self
@hint start
proof {
    let g = *self; let d2 = *decls;
    if !goccurs(g, *name) {
        assert forall|d: Declarations, c: usize| #[trigger] without(d2, d, *name, c) && geasy(g, d) implies gzeroed(g, d, g, d2, c) by { lemma_gabsent(g, d, d2, *name, c); }
    } else if cmp(g) {
        let (l, q) = sides(g);
        assert forall|d: Declarations, c: usize| #[trigger] without(d2, d, *name, c) && geasy(g, d) implies easy(l, d) && easy(q, d) by { }
        assert forall|d: Declarations, c: usize, rl: AE, rq: AE| #![trigger without(d2, d, *name, c), zeroed(l, d, rl, d2, c), zeroed(q, d, rq, d2, c)] without(d2, d, *name, c) && geasy(g, d) && zeroed(l, d, rl, d2, c) && zeroed(q, d, rq, d2, c) implies gzeroed(g, d, gfold(g, rl, rq), d2, c) by { lemma_gfold(g, d, rl, rq, d2, *name, c); }
    } else {
        let (a, b) = match g { BoolExpression::AndOp(a, b) => (*a, *b), BoolExpression::OrOp(a, b) => (*a, *b), _ => (g, g) };
        assert forall|d: Declarations, c: usize| #[trigger] without(d2, d, *name, c) && geasy(g, d) implies geasy(a, d) && geasy(b, d) by { }
        assert forall|d: Declarations, c: usize, ra: BoolExpression, rb: BoolExpression| #![trigger without(d2, d, *name, c), gzeroed(a, d, ra, d2, c), gzeroed(b, d, rb, d2, c)] without(d2, d, *name, c) && gzeroed(a, d, ra, d2, c) && gzeroed(b, d, rb, d2, c) && (g is AndOp || g is OrOp) implies gzeroed(g, d, match g { BoolExpression::AndOp(a, b) => BoolExpression::AndOp(Box::new(ra), Box::new(rb)), _ => BoolExpression::OrOp(Box::new(ra), Box::new(rb)) }, d2, c) by { lemma_gand(g, d, ra, rb, d2, c); }
    }
}
@trusted C Declarations::get_clock_name_by_index -> r
    ensures match r { Some(n) => self.clocks@.contains_key(*n) && self.clocks@[*n] == index, None => forall|n: String| #[trigger] self.clocks@.contains_key(n) ==> self.clocks@[n] != index }
@fn C Component::remove_clock
    requires one_clock(old(self).declarations, index), comp_easy(*old(self))
    ensures comp_without(*final(self), *old(self), index)
@attr verifier::loop_isolation(false)
@attr verifier::exec_allows_no_decreases_clause
@loops 3
@hint start
let ghost o = *self;
@hint after "self.declarations.clocks.remove"
let ghost nm = name; let ghost d = o.declarations; let ghost d2 = self.declarations;
proof { assert(d.clocks@.contains_key(nm)); assert(d.clocks@ =~= d2.clocks@.insert(nm, index)); assert(without(d2, d, nm, index)); }
@loop 0
    invariant __vx_n1 <= o.edges@.len(), edges_done(self.edges@, o.edges@, d2, d, nm, index, __vx_n1 as int), self.locations == o.locations, self.name == o.name, self.declarations == d2
@hint loop 0 start
let ghost x = __vx_n1 as int; let ghost oe = o.edges@[x];
proof { reveal(Seq::filter); if oe.update is Some { let us = oe.update->0@; assert(us.take(0) =~= Seq::<Update>::empty()); assert(us.take(us.len() as int) =~= us); } assert(self.edges@[x] == oe); assert(oe.guard is Some ==> gplain(oe.guard->0) && geasy(oe.guard->0, d)); if oe.guard is Some && !goccurs(oe.guard->0, nm) { lemma_gabsent(oe.guard->0, d, d2, nm, index); } }
@loop 1
    invariant it1.seq() == oe.update->0@, inv@ == others(oe.update->0@.take(it1.index@ as int), nm)
@hint loop 1 start
proof { lemma_others(oe.update->0@, it1.index@ as int, nm); }
@loop 2
    invariant __vx_n2 <= o.locations@.len(), locs_done(self.locations@, o.locations@, d2, d, index, __vx_n2 as int), edges_done(self.edges@, o.edges@, d2, d, nm, index, o.edges@.len() as int), self.name == o.name, self.declarations == d2
@hint loop 2 start
let ghost x = __vx_n2 as int; let ghost ol = o.locations@[x];
proof { assert(self.locations@[x] == ol); assert(ol.invariant is Some ==> gplain(ol.invariant->0) && geasy(ol.invariant->0, d)); if ol.invariant is Some && !goccurs(ol.invariant->0, nm) { lemma_gabsent(ol.invariant->0, d, d2, nm, index); } }
@fn C Component::replace_clock
    ensures forall|n: String| #[trigger] final(self).declarations.clocks@.contains_key(n) <==> old(self).declarations.clocks@.contains_key(n),
        forall|n: String| #[trigger] old(self).declarations.clocks@.contains_key(n) ==> final(self).declarations.clocks@[n] == (if indices@.contains(old(self).declarations.clocks@[n]) { global_index } else { old(self).declarations.clocks@[n] }),
        final(self).declarations.ints == old(self).declarations.ints, final(self).edges == old(self).edges, final(self).locations == old(self).locations, final(self).name == old(self).name
@attr verifier::loop_isolation(false)
@loops 1
@hint start
let ghost o = *self;
@loop 0
    invariant lists_v(it0.seq(), o.declarations.clocks@.dom()), it0.seq().no_duplicates(), self.declarations.ints == o.declarations.ints, self.edges == o.edges, self.locations == o.locations, self.name == o.name, self.declarations.clocks@.dom() == o.declarations.clocks@.dom(),
        forall|i: int| 0 <= i < it0.index@ ==> self.declarations.clocks@[#[trigger] it0.seq()[i]] == (if indices@.contains(o.declarations.clocks@[it0.seq()[i]]) { global_index } else { o.declarations.clocks@[it0.seq()[i]] }),
        forall|i: int| it0.index@ <= i < it0.seq().len() ==> self.declarations.clocks@[#[trigger] it0.seq()[i]] == o.declarations.clocks@[it0.seq()[i]],
@end
