pub type CV = ComponentVariable;
pub type SE = StateExpression;
pub type OE = OperandExpression;
/// what the users of get_state see of a system: its two sides, and the locations of a component by name
impl TransitionSystemPtr {
    pub uninterp spec fn left(&self) -> TransitionSystemPtr;
    pub uninterp spec fn right(&self) -> TransitionSystemPtr;
    pub uninterp spec fn has_sides(&self) -> bool;
    pub uninterp spec fn named(&self, id: LocationID) -> Option<LocationTree>;
    #[verifier::external_body] pub fn get_children(&self) -> (r: (&TransitionSystemPtr, &TransitionSystemPtr)) requires self.has_sides() ensures *r.0 == self.left(), *r.1 == self.right() { unimplemented!() }
    #[verifier::external_body] pub fn get_location(&self, id: &LocationID) -> (r: Option<LocationTree>) ensures r == self.named(*id), r is Some ==> loc_ok(r->0, self.n()) { unimplemented!() }
}
/// the system has the shape of the recipe
pub open spec fn fits(r: SystemRecipe, s: TransitionSystemPtr, n: int) -> bool decreases r {
    s.n() == n && match r {
        SystemRecipe::Component(c) => true,
        SystemRecipe::Composition(a, b) => s.has_sides() && fits(*a, s.left(), n) && fits(*b, s.right(), n),
        SystemRecipe::Conjunction(a, b) => s.has_sides() && fits(*a, s.left(), n) && fits(*b, s.right(), n),
        SystemRecipe::Quotient(a, b, _) => s.has_sides() && fits(*a, s.left(), n) && fits(*b, s.right(), n),
    }
}
pub proof fn lemma_fits(r: SystemRecipe, s: TransitionSystemPtr, n: int)
    requires fits(r, s, n)
    ensures s.n() == n, match r {
        SystemRecipe::Component(c) => true,
        SystemRecipe::Composition(a, b) => s.has_sides() && fits(*a, s.left(), n) && fits(*b, s.right(), n) && s.left().n() == n && s.right().n() == n,
        SystemRecipe::Conjunction(a, b) => s.has_sides() && fits(*a, s.left(), n) && fits(*b, s.right(), n) && s.left().n() == n && s.right().n() == n,
        SystemRecipe::Quotient(a, b, _) => s.has_sides() && fits(*a, s.left(), n) && fits(*b, s.right(), n) && s.left().n() == n && s.right().n() == n,
    }
{ reveal_with_fuel(fits, 3); }
/// the components of a recipe, from left to right
pub open spec fn comps(r: SystemRecipe) -> Seq<Component> decreases r {
    match r {
        SystemRecipe::Component(c) => seq![*c],
        SystemRecipe::Composition(a, b) => comps(*a) + comps(*b),
        SystemRecipe::Conjunction(a, b) => comps(*a) + comps(*b),
        SystemRecipe::Quotient(a, b, _) => comps(*a) + comps(*b),
    }
}
pub open spec fn refs_of(v: Seq<&Component>) -> Seq<Component> { v.map_values(|c: &Component| *c) }
/// the name and the special id of a variable are those of a component
pub open spec fn of(x: CV, c: Component) -> bool { x.component == c.name && x.special_id == c.special_id }
/// the first component of that name and id
pub open spec fn first_of(x: CV, cs: Seq<Component>) -> Option<Component> decreases cs.len() {
    if cs.len() == 0 { None } else if of(x, cs[0]) { Some(cs[0]) } else { first_of(x, cs.drop_first()) }
}
pub proof fn lemma_first_of(x: CV, cs: Seq<Component>, i: int)
    requires 0 <= i < cs.len(), of(x, cs[i]), forall|j: int| 0 <= j < i ==> !of(x, #[trigger] cs[j])
    ensures first_of(x, cs) == Some(cs[i])
    decreases cs.len()
{
    if i > 0 { assert(!of(x, cs[0])); assert forall|j: int| 0 <= j < i - 1 implies !of(x, #[trigger] cs.drop_first()[j]) by { assert(!of(x, cs[j + 1])); } lemma_first_of(x, cs.drop_first(), i - 1); }
}
pub proof fn lemma_first_none(x: CV, cs: Seq<Component>)
    requires forall|j: int| 0 <= j < cs.len() ==> !of(x, #[trigger] cs[j])
    ensures first_of(x, cs) is None
    decreases cs.len()
{
    if cs.len() > 0 { assert forall|j: int| 0 <= j < cs.drop_first().len() implies !of(x, #[trigger] cs.drop_first()[j]) by { assert(!of(x, cs[j + 1])); } lemma_first_none(x, cs.drop_first()); }
}
/// the clock a description means
pub open spec fn clock_of(x: CV, cs: Seq<Component>) -> Option<usize> { match first_of(x, cs) { Some(c) => look(c.declarations.clocks, x.variable), None => None } }
/// an operand with its clocks resolved; None: it names no clock of the system
pub open spec fn arith_of(e: OE, cs: Seq<Component>) -> Option<AE> decreases e {
    match e {
        OE::Number(k) => Some(AE::Int(k)),
        OE::Clock(x) => match clock_of(x, cs) { Some(i) => Some(AE::Clock(i)), None => None },
        OE::Difference(l, r) => if arith_of(*l, cs) is Some && arith_of(*r, cs) is Some { Some(AE::Difference(Box::new(arith_of(*l, cs)->0), Box::new(arith_of(*r, cs)->0))) } else { None },
        OE::Sum(l, r) => if arith_of(*l, cs) is Some && arith_of(*r, cs) is Some { Some(AE::Addition(Box::new(arith_of(*l, cs)->0), Box::new(arith_of(*r, cs)->0))) } else { None },
    }
}
/// the value of an operand
pub open spec fn oval(e: OE, cs: Seq<Component>, v: Val) -> real decreases e {
    match e {
        OE::Number(k) => (k as int) as real,
        OE::Clock(x) => v[clock_of(x, cs)->0 as int],
        OE::Difference(l, r) => oval(*l, cs, v) - oval(*r, cs, v),
        OE::Sum(l, r) => oval(*l, cs, v) + oval(*r, cs, v),
    }
}
pub proof fn lemma_oval(e: OE, cs: Seq<Component>, d: Declarations, v: Val)
    requires arith_of(e, cs) is Some
    ensures sem(arith_of(e, cs)->0, d, v) == oval(e, cs, v), konst(arith_of(e, cs)->0, d) is Some ==> oval(e, cs, v) == (konst(arith_of(e, cs)->0, d)->0) as real
    decreases e
{
    match e {
        OE::Difference(l, r) => { lemma_oval(*l, cs, d, v); lemma_oval(*r, cs, d, v); }
        OE::Sum(l, r) => { lemma_oval(*l, cs, d, v); lemma_oval(*r, cs, d, v); }
        _ => {}
    }
}
/// every conjunction and disjunction has an operand
pub open spec fn whole(e: SE) -> bool decreases e {
    match e {
        SE::AND(s) => s@.len() > 0 && forall|i: int| 0 <= i < s@.len() ==> whole(#[trigger] s@[i]),
        SE::OR(s) => s@.len() > 0 && forall|i: int| 0 <= i < s@.len() ==> whole(#[trigger] s@[i]),
        _ => true,
    }
}
/// the sides of comparisons are numbers, clocks
/// or sums and differences of two such
pub open spec fn pair_form(l: OE, r: OE, cs: Seq<Component>, d: Declarations, n: int) -> bool { arith_of(l, cs) is Some && arith_of(r, cs) is Some ==> atom_ok(arith_of(l, cs)->0, arith_of(r, cs)->0, d, n) }
pub open spec fn pair_diff(l: OE, r: OE, cs: Seq<Component>, d: Declarations) -> bool { arith_of(l, cs) is Some && arith_of(r, cs) is Some ==> diff_form(arith_of(l, cs)->0, arith_of(r, cs)->0, d) }
pub open spec fn form(e: SE, cs: Seq<Component>, d: Declarations, n: int) -> bool decreases e {
    match e {
        SE::LEQ(l, r) => pair_form(l, r, cs, d, n), SE::GEQ(l, r) => pair_form(l, r, cs, d, n), SE::EQ(l, r) => pair_form(l, r, cs, d, n),
        SE::LT(l, r) => pair_form(l, r, cs, d, n), SE::GT(l, r) => pair_form(l, r, cs, d, n),
        SE::AND(s) => forall|i: int| 0 <= i < s@.len() ==> form(#[trigger] s@[i], cs, d, n),
        SE::OR(s) => forall|i: int| 0 <= i < s@.len() ==> form(#[trigger] s@[i], cs, d, n),
        _ => true,
    }
}
/// every comparison is about a difference of at most two clocks
pub open spec fn diffs(e: SE, cs: Seq<Component>, d: Declarations) -> bool decreases e {
    match e {
        SE::LEQ(l, r) => pair_diff(l, r, cs, d), SE::GEQ(l, r) => pair_diff(l, r, cs, d), SE::EQ(l, r) => pair_diff(l, r, cs, d),
        SE::LT(l, r) => pair_diff(l, r, cs, d), SE::GT(l, r) => pair_diff(l, r, cs, d),
        SE::AND(s) => forall|i: int| 0 <= i < s@.len() ==> diffs(#[trigger] s@[i], cs, d),
        SE::OR(s) => forall|i: int| 0 <= i < s@.len() ==> diffs(#[trigger] s@[i], cs, d),
        _ => true,
    }
}
pub open spec fn known2(l: OE, r: OE, cs: Seq<Component>) -> bool { arith_of(l, cs) is Some && arith_of(r, cs) is Some }
/// the clocks exist, and nothing is negated
pub open spec fn known(e: SE, cs: Seq<Component>) -> bool decreases e {
    match e {
        SE::LEQ(l, r) => known2(l, r, cs), SE::GEQ(l, r) => known2(l, r, cs), SE::EQ(l, r) => known2(l, r, cs), SE::LT(l, r) => known2(l, r, cs), SE::GT(l, r) => known2(l, r, cs),
        SE::AND(s) => forall|i: int| 0 <= i < s@.len() ==> known(#[trigger] s@[i], cs),
        SE::OR(s) => forall|i: int| 0 <= i < s@.len() ==> known(#[trigger] s@[i], cs),
        SE::NOT(_) => false,
        _ => true,
    }
}
/// the clock values satisfy the description (its locations aside)
pub open spec fn meets(e: SE, cs: Seq<Component>, v: Val) -> bool decreases e {
    match e {
        SE::LEQ(l, r) => oval(l, cs, v) <= oval(r, cs, v),
        SE::GEQ(l, r) => oval(l, cs, v) >= oval(r, cs, v),
        SE::EQ(l, r) => oval(l, cs, v) == oval(r, cs, v),
        SE::LT(l, r) => oval(l, cs, v) < oval(r, cs, v),
        SE::GT(l, r) => oval(l, cs, v) > oval(r, cs, v),
        SE::AND(s) => forall|i: int| 0 <= i < s@.len() ==> meets(#[trigger] s@[i], cs, v),
        SE::OR(s) => exists|i: int| 0 <= i < s@.len() && meets(#[trigger] s@[i], cs, v),
        SE::NOT(x) => !meets(*x, cs, v),
        SE::Location(_) => true,
        SE::Bool(b) => b,
    }
}
/// the guard says what the description says about clocks
#[verifier::opaque] pub open spec fn says(b: BoolExpression, e: SE, cs: Seq<Component>) -> bool {
    (forall|d: Declarations, v: Val| #[trigger] sat(b, d, v) <==> meets(e, cs, v))
    && (forall|d: Declarations, n: int| form(e, cs, d, n) ==> #[trigger] guard_ok(b, d, n))
    && (forall|d: Declarations| diffs(e, cs, d) ==> #[trigger] all_diff_form(b, d))
}
pub open spec fn var_of(e: OE) -> CV { match e { OE::Clock(x) => x, _ => arbitrary() } }
pub open spec fn ops(e: SE) -> Vec<SE> { match e { SE::AND(s) => s, SE::OR(s) => s, _ => arbitrary() } }
pub open spec fn arg(e: OE, cs: Seq<Component>) -> Box<AE> { Box::new(arith_of(e, cs)->0) }
pub open spec fn simple(b: BoolExpression, e: SE, cs: Seq<Component>) -> bool {
    match e {
        SE::LEQ(l, r) => known2(l, r, cs) && b == BoolExpression::LessEQ(arg(l, cs), arg(r, cs)),
        SE::GEQ(l, r) => known2(l, r, cs) && b == BoolExpression::GreatEQ(arg(l, cs), arg(r, cs)),
        SE::EQ(l, r) => known2(l, r, cs) && b == BoolExpression::EQ(arg(l, cs), arg(r, cs)),
        SE::LT(l, r) => known2(l, r, cs) && b == BoolExpression::LessT(arg(l, cs), arg(r, cs)),
        SE::GT(l, r) => known2(l, r, cs) && b == BoolExpression::GreatT(arg(l, cs), arg(r, cs)),
        SE::Location(_) => b == BoolExpression::Bool(true),
        SE::Bool(c) => b == BoolExpression::Bool(c),
        _ => false,
    }
}
pub proof fn lemma_simple(b: BoolExpression, e: SE, cs: Seq<Component>)
    ensures simple(b, e, cs) ==> says(b, e, cs)
{
    reveal(says);
    if simple(b, e, cs) {
        assert forall|d: Declarations, v: Val| #[trigger] sat(b, d, v) <==> meets(e, cs, v) by {
            match e { SE::LEQ(l, r) => { lemma_oval(l, cs, d, v); lemma_oval(r, cs, d, v); } SE::GEQ(l, r) => { lemma_oval(l, cs, d, v); lemma_oval(r, cs, d, v); } SE::EQ(l, r) => { lemma_oval(l, cs, d, v); lemma_oval(r, cs, d, v); } SE::LT(l, r) => { lemma_oval(l, cs, d, v); lemma_oval(r, cs, d, v); } SE::GT(l, r) => { lemma_oval(l, cs, d, v); lemma_oval(r, cs, d, v); } _ => {} }
        }
    }
}
/// guards b, one for each of the descriptions
pub open spec fn say(b: Seq<BoolExpression>, s: Seq<SE>, cs: Seq<Component>) -> bool { b.len() == s.len() && forall|i: int| 0 <= i < b.len() ==> says(#[trigger] b[i], s[i], cs) }
/// a is the conjunction (disjunction) of the first k guards, which are about the descriptions s
#[verifier::opaque] pub open spec fn folded(a: BoolExpression, s: Seq<SE>, k: int, and: bool, cs: Seq<Component>) -> bool {
    (forall|d: Declarations, v: Val| #[trigger] sat(a, d, v) <==> if and { forall|i: int| 0 <= i < k ==> meets(#[trigger] s[i], cs, v) } else { exists|i: int| 0 <= i < k && meets(#[trigger] s[i], cs, v) })
    && (forall|d: Declarations, n: int| (forall|i: int| 0 <= i < k ==> form(#[trigger] s[i], cs, d, n)) ==> #[trigger] guard_ok(a, d, n))
    && (forall|d: Declarations| (forall|i: int| 0 <= i < k ==> diffs(#[trigger] s[i], cs, d)) ==> #[trigger] all_diff_form(a, d))
}
pub proof fn lemma_fold0(b: BoolExpression, s: Seq<SE>, and: bool, cs: Seq<Component>)
    requires s.len() > 0, says(b, s[0], cs)
    ensures folded(b, s, 1, and, cs)
{
    reveal(says); reveal(folded);
    assert forall|d: Declarations, v: Val| #[trigger] sat(b, d, v) <==> if and { forall|i: int| 0 <= i < 1 ==> meets(#[trigger] s[i], cs, v) } else { exists|i: int| 0 <= i < 1 && meets(#[trigger] s[i], cs, v) } by {
        if meets(s[0], cs, v) { assert(sat(b, d, v)); } else { assert(!sat(b, d, v)); } }
    assert forall|d: Declarations, n: int| (forall|i: int| 0 <= i < 1 ==> form(#[trigger] s[i], cs, d, n)) implies #[trigger] guard_ok(b, d, n) by { assert(form(s[0], cs, d, n)); }
    assert forall|d: Declarations| (forall|i: int| 0 <= i < 1 ==> diffs(#[trigger] s[i], cs, d)) implies #[trigger] all_diff_form(b, d) by { assert(diffs(s[0], cs, d)); }
}
pub proof fn lemma_fold(a: BoolExpression, b: BoolExpression, c: BoolExpression, s: Seq<SE>, k: int, and: bool, cs: Seq<Component>)
    requires folded(a, s, k, and, cs), 0 < k < s.len(), says(b, s[k], cs), c == (if and { BoolExpression::AndOp(Box::new(a), Box::new(b)) } else { BoolExpression::OrOp(Box::new(a), Box::new(b)) })
    ensures folded(c, s, k + 1, and, cs)
{
    reveal(says); reveal(folded);
    assert forall|d: Declarations, v: Val| #[trigger] sat(c, d, v) <==> if and { forall|i: int| 0 <= i < k + 1 ==> meets(#[trigger] s[i], cs, v) } else { exists|i: int| 0 <= i < k + 1 && meets(#[trigger] s[i], cs, v) } by {
        assert(sat(b, d, v) <==> meets(s[k], cs, v));
        if and {
            if sat(c, d, v) { assert(sat(a, d, v)); assert forall|i: int| 0 <= i < k + 1 implies meets(#[trigger] s[i], cs, v) by {} }
            else if sat(b, d, v) { assert(!sat(a, d, v)); let i = choose|i: int| 0 <= i < k && !meets(#[trigger] s[i], cs, v); assert(!meets(s[i], cs, v)); }
        } else {
            if sat(c, d, v) { if sat(a, d, v) { let i = choose|i: int| 0 <= i < k && meets(#[trigger] s[i], cs, v); assert(meets(s[i], cs, v)); } }
            else { assert(!sat(a, d, v)); assert forall|i: int| 0 <= i < k + 1 implies !meets(#[trigger] s[i], cs, v) by {} }
        }
    }
    assert forall|d: Declarations, n: int| (forall|i: int| 0 <= i < k + 1 ==> form(#[trigger] s[i], cs, d, n)) implies #[trigger] guard_ok(c, d, n) by { assert(form(s[k], cs, d, n)); assert forall|i: int| 0 <= i < k implies form(#[trigger] s[i], cs, d, n) by {} assert(guard_ok(a, d, n)); assert(guard_ok(b, d, n)); }
    assert forall|d: Declarations| (forall|i: int| 0 <= i < k + 1 ==> diffs(#[trigger] s[i], cs, d)) implies #[trigger] all_diff_form(c, d) by { assert(diffs(s[k], cs, d)); assert forall|i: int| 0 <= i < k implies diffs(#[trigger] s[i], cs, d) by {} assert(all_diff_form(a, d)); assert(all_diff_form(b, d)); }
}
pub proof fn lemma_meets_and(s: Vec<SE>, cs: Seq<Component>, v: Val)
    ensures meets(SE::AND(s), cs, v) <==> forall|i: int| 0 <= i < s@.len() ==> meets(#[trigger] s@[i], cs, v)
{
    reveal_with_fuel(meets, 2);
    if meets(SE::AND(s), cs, v) { assert forall|i: int| 0 <= i < s@.len() implies meets(#[trigger] s@[i], cs, v) by {} }
    if forall|i: int| 0 <= i < s@.len() ==> meets(#[trigger] s@[i], cs, v) { assert(meets(SE::AND(s), cs, v)); }
}
pub proof fn lemma_meets_or(s: Vec<SE>, cs: Seq<Component>, v: Val)
    ensures meets(SE::OR(s), cs, v) <==> exists|i: int| 0 <= i < s@.len() && meets(#[trigger] s@[i], cs, v)
{}
pub proof fn lemma_forms1(s: Vec<SE>, cs: Seq<Component>, d: Declarations, n: int)
    ensures form(SE::AND(s), cs, d, n) ==> forall|i: int| 0 <= i < s@.len() ==> form(#[trigger] s@[i], cs, d, n),
        diffs(SE::AND(s), cs, d) ==> forall|i: int| 0 <= i < s@.len() ==> diffs(#[trigger] s@[i], cs, d)
{
    reveal_with_fuel(form, 2); reveal_with_fuel(diffs, 2);
    if form(SE::AND(s), cs, d, n) { let e = SE::AND(s); assert(e->AND_0@ == s@); assert forall|i: int| 0 <= i < s@.len() implies form(#[trigger] s@[i], cs, d, n) by { let x = e->AND_0@[i]; assert(form(x, cs, d, n)); } }
    if diffs(SE::AND(s), cs, d) { assert forall|i: int| 0 <= i < s@.len() implies diffs(#[trigger] s@[i], cs, d) by {} }
}
pub proof fn lemma_forms2(s: Vec<SE>, cs: Seq<Component>, d: Declarations, n: int)
    ensures form(SE::OR(s), cs, d, n) ==> forall|i: int| 0 <= i < s@.len() ==> form(#[trigger] s@[i], cs, d, n),
        diffs(SE::OR(s), cs, d) ==> forall|i: int| 0 <= i < s@.len() ==> diffs(#[trigger] s@[i], cs, d)
{
    reveal_with_fuel(form, 2); reveal_with_fuel(diffs, 2);
    if form(SE::OR(s), cs, d, n) { let e = SE::OR(s); assert(e->OR_0@ == s@); assert forall|i: int| 0 <= i < s@.len() implies form(#[trigger] s@[i], cs, d, n) by { let x = e->OR_0@[i]; assert(form(x, cs, d, n)); } }
    if diffs(SE::OR(s), cs, d) { let e = SE::OR(s); assert(e->OR_0@ == s@); assert forall|i: int| 0 <= i < s@.len() implies diffs(#[trigger] s@[i], cs, d) by { let x = e->OR_0@[i]; assert(diffs(x, cs, d)); } }
}
pub proof fn lemma_forms(e: SE, s: Vec<SE>, cs: Seq<Component>)
    requires e == SE::AND(s) || e == SE::OR(s)
    ensures forall|d: Declarations, n: int| #[trigger] form(e, cs, d, n) ==> forall|i: int| 0 <= i < s@.len() ==> form(#[trigger] s@[i], cs, d, n),
        forall|d: Declarations| #[trigger] diffs(e, cs, d) ==> forall|i: int| 0 <= i < s@.len() ==> diffs(#[trigger] s@[i], cs, d)
{
    assert forall|d: Declarations, n: int| #[trigger] form(e, cs, d, n) implies forall|i: int| 0 <= i < s@.len() ==> form(#[trigger] s@[i], cs, d, n) by { if e == SE::AND(s) { lemma_forms1(s, cs, d, n); } else { lemma_forms2(s, cs, d, n); } }
    assert forall|d: Declarations| #[trigger] diffs(e, cs, d) implies forall|i: int| 0 <= i < s@.len() ==> diffs(#[trigger] s@[i], cs, d) by { if e == SE::AND(s) { lemma_forms1(s, cs, d, 0); } else { lemma_forms2(s, cs, d, 0); } }
}
pub proof fn lemma_folded(a: BoolExpression, s: Vec<SE>, and: bool, cs: Seq<Component>, e: SE)
    requires folded(a, s@, s@.len() as int, and, cs), s@.len() > 0, e == (if and { SE::AND(s) } else { SE::OR(s) })
    ensures says(a, e, cs)
{
    reveal(says); reveal(folded);
    assert forall|d: Declarations, v: Val| #[trigger] sat(a, d, v) <==> meets(e, cs, v) by {
        if and { assert(e == SE::AND(s)); lemma_meets_and(s, cs, v); }
        else { assert(e == SE::OR(s)); lemma_meets_or(s, cs, v); }
    }
    lemma_forms(e, s, cs);
    assert forall|d: Declarations, n: int| form(e, cs, d, n) implies #[trigger] guard_ok(a, d, n) by { assert forall|i: int| 0 <= i < s@.len() implies form(#[trigger] s@[i], cs, d, n) by {} }
    assert forall|d: Declarations| diffs(e, cs, d) implies #[trigger] all_diff_form(a, d) by { assert forall|i: int| 0 <= i < s@.len() implies diffs(#[trigger] s@[i], cs, d) by {} }
}
/// the locations a description names; None: a disjunction or a negation of locations
pub open spec fn locs_of(e: SE) -> Option<Seq<CV>> decreases e, 1nat, 0nat {
    match e {
        SE::Location(x) => Some(seq![x]),
        SE::AND(s) => all_locs(e, s@, s@.len()),
        SE::OR(s) => match all_locs(e, s@, s@.len()) { Some(x) => if x.len() == 0 { Some(x) } else { None }, None => None },
        SE::NOT(x) => match locs_of(*x) { Some(y) => if y.len() == 0 { Some(y) } else { None }, None => None },
        _ => Some(Seq::empty()),
    }
}
/// those of the first k operands
pub open spec fn all_locs(e: SE, s: Seq<SE>, k: nat) -> Option<Seq<CV>> decreases e, 0nat, k {
    if k == 0 { Some(Seq::empty()) } else if k > s.len() || !(match e { SE::AND(x) => x@ == s, SE::OR(x) => x@ == s, _ => false }) { None } else {
        match (all_locs(e, s, (k - 1) as nat), locs_of(s[k - 1])) { (Some(x), Some(y)) => Some(x + y), _ => None }
    }
}
pub proof fn lemma_all_none(e: SE, s: Seq<SE>, k: nat, m: nat)
    requires k <= m <= s.len(), all_locs(e, s, k) is None
    ensures all_locs(e, s, m) is None
    decreases m
{ if k < m { lemma_all_none(e, s, k, (m - 1) as nat); } }
pub open spec fn same_comp(a: CV, b: CV) -> bool { a.component == b.component && a.special_id == b.special_id }
/// two locations for one component
pub open spec fn ambiguous(ls: Set<CV>) -> bool { exists|a: CV, b: CV| #[trigger] ls.contains(a) && #[trigger] ls.contains(b) && a != b && same_comp(a, b) }
/// two different components under one name
pub open spec fn twins(cs: Seq<Component>) -> bool { exists|i: int, j: int| 0 <= i < cs.len() && 0 <= j < cs.len() && cs[i] != cs[j] && (#[trigger] cs[i]).name == (#[trigger] cs[j]).name && cs[i].special_id == cs[j].special_id }
pub open spec fn has_comp(x: CV, cs: Seq<Component>) -> bool { exists|i: int| 0 <= i < cs.len() && of(x, #[trigger] cs[i]) }
/// a location of a component that is not there
pub open spec fn stray(ls: Set<CV>, cs: Seq<Component>) -> bool { exists|x: CV| #[trigger] ls.contains(x) && !has_comp(x, cs) }
pub open spec fn any_tree(t: LocationTree) -> bool { t.id is AnyLocation && t.invariant is None && t.loc_type is Any && t.left is None && t.right is None }
pub open spec fn quot_tree(t: LocationTree) -> bool {
    t.left is Some && t.right is Some && t.id == LocationID::Quotient(Box::new(t.left->0.id), Box::new(t.right->0.id)) && t.invariant is None
    && (t.loc_type is Initial <==> t.left->0.loc_type is Initial && t.right->0.loc_type is Initial) && (t.loc_type is Initial || t.loc_type is Normal)
}
pub open spec fn sides(t: LocationTree, k: CompositionType) -> bool { t.left is Some && t.right is Some && composed(*t.left->0, *t.right->0, k, t) }
/// the tree puts every component where the locations say, and anywhere if they say nothing
pub open spec fn located(r: SystemRecipe, s: TransitionSystemPtr, ls: Set<CV>, t: LocationTree) -> bool decreases r {
    match r {
        SystemRecipe::Component(c) => (exists|x: CV| #[trigger] ls.contains(x) && of(x, *c) && s.named(LocationID::Simple(x.variable)) == Some(t)) || ((forall|x: CV| #[trigger] ls.contains(x) ==> !of(x, *c)) && any_tree(t)),
        SystemRecipe::Composition(a, b) => sides(t, CompositionType::Composition) && located(*a, s.left(), ls, *t.left->0) && located(*b, s.right(), ls, *t.right->0),
        SystemRecipe::Conjunction(a, b) => sides(t, CompositionType::Conjunction) && located(*a, s.left(), ls, *t.left->0) && located(*b, s.right(), ls, *t.right->0),
        SystemRecipe::Quotient(a, b, _) => quot_tree(t) && located(*a, s.left(), ls, *t.left->0) && located(*b, s.right(), ls, *t.right->0),
    }
}
/// a component has no location of the given name
pub open spec fn missing(r: SystemRecipe, s: TransitionSystemPtr, ls: Set<CV>) -> bool decreases r {
    match r {
        SystemRecipe::Component(c) => exists|x: CV| #[trigger] ls.contains(x) && of(x, *c) && s.named(LocationID::Simple(x.variable)) is None,
        SystemRecipe::Composition(a, b) => missing(*a, s.left(), ls) || missing(*b, s.right(), ls),
        SystemRecipe::Conjunction(a, b) => missing(*a, s.left(), ls) || missing(*b, s.right(), ls),
        SystemRecipe::Quotient(a, b, _) => missing(*a, s.left(), ls) || missing(*b, s.right(), ls),
    }
}
pub open spec fn twin(a: Component, b: Component) -> bool { a != b && a.name == b.name && a.special_id == b.special_id }
pub open spec fn clash(a: CV, b: CV) -> bool { a != b && same_comp(a, b) }
/// nothing is wrong with the locations of the description
pub open spec fn sound(q: SE, r: SystemRecipe, s: TransitionSystemPtr) -> bool {
    !twins(comps(r)) && locs_of(q) is Some && !ambiguous(locs_of(q)->0.to_set()) && !stray(locs_of(q)->0.to_set(), comps(r)) && !missing(r, s, locs_of(q)->0.to_set())
}
#[verifier::external_body] pub fn vx_dedup(v: &mut Vec<CV>)
    ensures final(v)@.to_set() == old(v)@.to_set(), final(v)@.len() <= old(v)@.len() { unimplemented!() }
