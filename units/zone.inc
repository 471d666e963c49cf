/// EDBM's minimal constraints of a federation: a disjunction of conjunctions of difference constraints
#[derive(Clone, Copy)]
pub struct RawInequality { pub q: Inequality }
impl RawInequality {
    #[verifier::external_body] pub fn is_strict(&self) -> (r: bool) ensures r <==> self.q is LS { unimplemented!() }
    #[verifier::external_body] pub fn bound(&self) -> (r: i32) ensures r == bound_of(self.q) { unimplemented!() }
}
pub open spec fn bound_of(q: Inequality) -> i32 { match q { Inequality::LS(c) => c, Inequality::LE(c) => c } }
pub struct Constraint { pub i: ClockIndex, pub j: ClockIndex, pub q: Inequality }
impl Constraint { #[verifier::external_body] pub fn ineq(&self) -> (r: RawInequality) ensures r.q == self.q { unimplemented!() } }
pub struct Conjunction { pub constraints: Vec<Constraint> }
pub struct Disjunction { pub conjunctions: Vec<Conjunction> }
pub open spec fn c_ok(c: Constraint, n: int) -> bool { c.i < n && c.j < n && (c.i != 0 || c.j != 0) && small(bound_of(c.q) as int) }
pub open spec fn c_sat(c: Constraint, v: Val) -> bool { holds(v[c.i as int] - v[c.j as int], c.q) }
pub open spec fn cj_ok(c: Conjunction, n: int) -> bool { forall|k: int| 0 <= k < c.constraints@.len() ==> c_ok(#[trigger] c.constraints@[k], n) }
pub open spec fn cj_sat(c: Conjunction, m: int, v: Val) -> bool { forall|k: int| 0 <= k < m ==> c_sat(#[trigger] c.constraints@[k], v) }
pub open spec fn cj(c: Conjunction, v: Val) -> bool { cj_sat(c, c.constraints@.len() as int, v) }
pub open spec fn dj_ok(d: Disjunction, n: int) -> bool { forall|k: int| 0 <= k < d.conjunctions@.len() ==> cj_ok(#[trigger] d.conjunctions@[k], n) }
pub open spec fn dj_sat(d: Disjunction, m: int, v: Val) -> bool { exists|k: int| 0 <= k < m && cj(#[trigger] d.conjunctions@[k], v) }
pub open spec fn dj(d: Disjunction, v: Val) -> bool { dj_sat(d, d.conjunctions@.len() as int, v) }
impl OwnedFederation {
    /// assumed: the constraints describe exactly the federation, with bounds below 2^29
    #[verifier::external_body] pub fn minimal_constraints(&self) -> (r: Disjunction) ensures dj_ok(r, self.n()), forall|v: Val| vok(v, self.n()) ==> (#[trigger] self.has(v) <==> dj(r, v)) { unimplemented!() }
}
/// every clock below n has a name that means this clock in d
pub open spec fn names_for(m: Map<usize, String>, d: Declarations, n: int) -> bool {
    forall|i: usize| 0 < i < n ==> #[trigger] m.contains_key(i) && look(d.clocks, m[i]) == Some(i)
}
/// every clock below n is declared
pub open spec fn declares(m: Map<String, usize>, n: int) -> bool { forall|i: usize| 0 < i < n ==> #[trigger] named(m, i) }
pub open spec fn named(m: Map<String, usize>, i: usize) -> bool { exists|k: String| #[trigger] m.contains_key(k) && m[k] == i }
/// the constraint can be written with the names
pub open spec fn known(c: Constraint, m: Map<usize, String>) -> bool { (c.i != 0 || c.j != 0) && small(bound_of(c.q) as int) && (c.i != 0 ==> m.contains_key(c.i)) && (c.j != 0 ==> m.contains_key(c.j)) }
pub open spec fn known_all(c: Conjunction, m: Map<usize, String>) -> bool { forall|k: int| 0 <= k < c.constraints@.len() ==> known(#[trigger] c.constraints@[k], m) }
pub open spec fn all_known(d: Disjunction, m: Map<usize, String>) -> bool { forall|k: int| 0 <= k < d.conjunctions@.len() ==> known_all(#[trigger] d.conjunctions@[k], m) }
/// wherever the names mean their clocks, r means the constraint / the first k constraints / the first k conjunctions
#[verifier::opaque] pub open spec fn says(r: BoolExpression, c: Constraint, m: Map<usize, String>) -> bool {
    forall|d: Declarations, n: int| #[trigger] names_for(m, d, n) && c_ok(c, n) ==> guard_ok(r, d, n) && all_diff_form(r, d) && forall|v: Val| vok(v, n) ==> (#[trigger] sat(r, d, v) <==> c_sat(c, v))
}
#[verifier::opaque] pub open spec fn says_cj(r: Option<BoolExpression>, c: Conjunction, k: int, m: Map<usize, String>) -> bool {
    forall|d: Declarations, n: int| #[trigger] names_for(m, d, n) && cj_ok(c, n) ==> opt_ok(r, d, n) && forall|v: Val| vok(v, n) ==> (#[trigger] opt_sat(r, d, v) <==> cj_sat(c, k, v))
}
#[verifier::opaque] pub open spec fn says_dj(r: Option<BoolExpression>, c: Disjunction, k: int, m: Map<usize, String>) -> bool {
    forall|d: Declarations, n: int| #[trigger] names_for(m, d, n) && dj_ok(c, n) ==> opt_ok(r, d, n) && forall|v: Val| vok(v, n) ==> (#[trigger] opt_sat(r, d, v) <==> dj_sat(c, k, v))
}
pub open spec fn cmp_of(c: Constraint, m: Map<usize, String>) -> BoolExpression {
    let (x, y) = (Box::new(AE::VarName(m[c.i])), Box::new(AE::VarName(m[c.j])));
    let b = bound_of(c.q);
    if c.i == 0 { if c.q is LS { BoolExpression::GreatT(y, Box::new(AE::Int((-b) as i32))) } else { BoolExpression::GreatEQ(y, Box::new(AE::Int((-b) as i32))) } }
    else if c.j == 0 { if c.q is LS { BoolExpression::LessT(x, Box::new(AE::Int(b))) } else { BoolExpression::LessEQ(x, Box::new(AE::Int(b))) } }
    else { if c.q is LS { BoolExpression::LessT(Box::new(AE::Difference(x, y)), Box::new(AE::Int(b))) } else { BoolExpression::LessEQ(Box::new(AE::Difference(x, y)), Box::new(AE::Int(b))) } }
}
/// x - y <= 0 may be written x <= y
pub open spec fn cmp_of0(c: Constraint, m: Map<usize, String>) -> BoolExpression {
    let (x, y) = (Box::new(AE::VarName(m[c.i])), Box::new(AE::VarName(m[c.j])));
    if c.q is LS { BoolExpression::LessT(x, y) } else { BoolExpression::LessEQ(x, y) }
}
pub proof fn lemma_says(c: Constraint, m: Map<usize, String>)
    requires known(c, m)
    ensures says(cmp_of(c, m), c, m), c.i != 0 && c.j != 0 && bound_of(c.q) == 0 ==> says(cmp_of0(c, m), c, m)
{
    reveal(says);
    let r = cmp_of(c, m); let r0 = cmp_of0(c, m);
    assert forall|d: Declarations, n: int| #[trigger] names_for(m, d, n) && c_ok(c, n) implies guard_ok(r, d, n) && all_diff_form(r, d) && (forall|v: Val| vok(v, n) ==> (#[trigger] sat(r, d, v) <==> c_sat(c, v))) && (c.i != 0 && c.j != 0 && bound_of(c.q) == 0 ==> guard_ok(r0, d, n) && all_diff_form(r0, d) && forall|v: Val| vok(v, n) ==> (#[trigger] sat(r0, d, v) <==> c_sat(c, v))) by {
        reveal_with_fuel(sem, 3); reveal_with_fuel(pc, 3); reveal_with_fuel(nc, 3); reveal_with_fuel(clocks_below, 3); reveal_with_fuel(konst, 3); reveal_with_fuel(sat, 2); reveal_with_fuel(guard_ok, 2); reveal_with_fuel(all_diff_form, 2);
        if c.i != 0 { assert(look(d.clocks, m[c.i]) == Some(c.i)); }
        if c.j != 0 { assert(look(d.clocks, m[c.j]) == Some(c.j)); }
    }
}
pub proof fn lemma_says_none(c: Conjunction, m: Map<usize, String>) ensures says_cj(None, c, 0, m) { reveal(says_cj); }
pub proof fn lemma_says_one(c: Conjunction, e: BoolExpression, m: Map<usize, String>) requires 0 < c.constraints@.len(), says(e, c.constraints@[0], m) ensures says_cj(Some(e), c, 1, m) {
    reveal(says); reveal(says_cj);
    assert forall|d: Declarations, n: int| #[trigger] names_for(m, d, n) && cj_ok(c, n) implies opt_ok(Some(e), d, n) && forall|v: Val| vok(v, n) ==> (#[trigger] opt_sat(Some(e), d, v) <==> cj_sat(c, 1, v)) by {
        assert(c_ok(c.constraints@[0], n));
        assert forall|v: Val| vok(v, n) implies (#[trigger] opt_sat(Some(e), d, v) <==> cj_sat(c, 1, v)) by { assert(sat(e, d, v) <==> c_sat(c.constraints@[0], v)); }
    }
}
pub proof fn lemma_says_and(c: Conjunction, k: int, g: BoolExpression, e: BoolExpression, m: Map<usize, String>) requires 0 <= k < c.constraints@.len(), says_cj(Some(g), c, k, m), says(e, c.constraints@[k], m) ensures says_cj(Some(BoolExpression::AndOp(Box::new(g), Box::new(e))), c, k + 1, m) {
    reveal(says); reveal(says_cj);
    let r = Some(BoolExpression::AndOp(Box::new(g), Box::new(e)));
    assert forall|d: Declarations, n: int| #[trigger] names_for(m, d, n) && cj_ok(c, n) implies opt_ok(r, d, n) && forall|v: Val| vok(v, n) ==> (#[trigger] opt_sat(r, d, v) <==> cj_sat(c, k + 1, v)) by {
        assert(c_ok(c.constraints@[k], n)); assert(opt_ok(Some(g), d, n));
        assert forall|v: Val| vok(v, n) implies (#[trigger] opt_sat(r, d, v) <==> cj_sat(c, k + 1, v)) by { assert(sat(e, d, v) <==> c_sat(c.constraints@[k], v)); assert(opt_sat(Some(g), d, v) <==> cj_sat(c, k, v)); assert(opt_sat(Some(g), d, v) == sat(g, d, v)); if cj_sat(c, k + 1, v) { assert(cj_sat(c, k, v)); assert(c_sat(c.constraints@[k], v)); } }
    }
}
pub proof fn lemma_says_false(c: Disjunction, m: Map<usize, String>) ensures says_dj(Some(BoolExpression::Bool(false)), c, 0, m) { reveal(says_dj); reveal_with_fuel(sat, 2); reveal_with_fuel(guard_ok, 2); reveal_with_fuel(all_diff_form, 2); }
pub proof fn lemma_says_first(c: Disjunction, e: Option<BoolExpression>, m: Map<usize, String>) requires 0 < c.conjunctions@.len(), says_cj(e, c.conjunctions@[0], c.conjunctions@[0].constraints@.len() as int, m) ensures says_dj(e, c, 1, m) {
    reveal(says_cj); reveal(says_dj);
    assert forall|d: Declarations, n: int| #[trigger] names_for(m, d, n) && dj_ok(c, n) implies opt_ok(e, d, n) && forall|v: Val| vok(v, n) ==> (#[trigger] opt_sat(e, d, v) <==> dj_sat(c, 1, v)) by {
        assert(cj_ok(c.conjunctions@[0], n));
        assert forall|v: Val| vok(v, n) implies (#[trigger] opt_sat(e, d, v) <==> dj_sat(c, 1, v)) by { assert(opt_sat(e, d, v) <==> cj(c.conjunctions@[0], v)); }
    }
}
pub proof fn lemma_says_or(c: Disjunction, k: int, g: BoolExpression, e: BoolExpression, m: Map<usize, String>) requires 0 <= k < c.conjunctions@.len(), says_dj(Some(g), c, k, m), says_cj(Some(e), c.conjunctions@[k], c.conjunctions@[k].constraints@.len() as int, m) ensures says_dj(Some(BoolExpression::OrOp(Box::new(g), Box::new(e))), c, k + 1, m) {
    reveal(says_cj); reveal(says_dj);
    let r = Some(BoolExpression::OrOp(Box::new(g), Box::new(e)));
    assert forall|d: Declarations, n: int| #[trigger] names_for(m, d, n) && dj_ok(c, n) implies opt_ok(r, d, n) && forall|v: Val| vok(v, n) ==> (#[trigger] opt_sat(r, d, v) <==> dj_sat(c, k + 1, v)) by {
        assert(cj_ok(c.conjunctions@[k], n)); assert(opt_ok(Some(g), d, n)); assert(opt_ok(Some(e), d, n));
        assert forall|v: Val| vok(v, n) implies (#[trigger] opt_sat(r, d, v) <==> dj_sat(c, k + 1, v)) by {
            assert(opt_sat(Some(e), d, v) <==> cj(c.conjunctions@[k], v)); assert(opt_sat(Some(g), d, v) <==> dj_sat(c, k, v)); assert(opt_sat(Some(g), d, v) == sat(g, d, v)); assert(opt_sat(Some(e), d, v) == sat(e, d, v));
            if dj_sat(c, k, v) { let x = choose|x: int| 0 <= x < k && cj(#[trigger] c.conjunctions@[x], v); assert(dj_sat(c, k + 1, v)); }
            if cj(c.conjunctions@[k], v) { assert(dj_sat(c, k + 1, v)); }
            if dj_sat(c, k + 1, v) { let x = choose|x: int| 0 <= x < k + 1 && cj(#[trigger] c.conjunctions@[x], v); if x < k { assert(dj_sat(c, k, v)); } }
        }
    }
}
/// a part that is always true makes the disjunction always true
pub proof fn lemma_says_true(c: Disjunction, k: int, m: Map<usize, String>) requires 0 <= k < c.conjunctions@.len(), says_cj(None, c.conjunctions@[k], c.conjunctions@[k].constraints@.len() as int, m) ensures says_dj(None, c, c.conjunctions@.len() as int, m) {
    reveal(says_cj); reveal(says_dj);
    let none = None::<BoolExpression>; let l = c.conjunctions@.len() as int;
    assert forall|d: Declarations, n: int| #[trigger] names_for(m, d, n) && dj_ok(c, n) implies opt_ok(none, d, n) && forall|v: Val| vok(v, n) ==> (#[trigger] opt_sat(none, d, v) <==> dj_sat(c, l, v)) by {
        assert(cj_ok(c.conjunctions@[k], n));
        assert forall|v: Val| vok(v, n) implies (#[trigger] opt_sat(none, d, v) <==> dj_sat(c, l, v)) by { assert(opt_sat(none, d, v) <==> cj(c.conjunctions@[k], v)); }
    }
}
/// the result of writing a disjunction with the clock names of some declarations
#[verifier::opaque] pub open spec fn written(r: Option<BoolExpression>, c: Disjunction, m: Map<String, usize>) -> bool {
    forall|d: Declarations, n: int| #![trigger dj_ok(c, n), declares(d.clocks@, n)] d.clocks@ == m && declares(d.clocks@, n) && dj_ok(c, n) ==> opt_ok(r, d, n) && forall|v: Val| vok(v, n) ==> (#[trigger] opt_sat(r, d, v) <==> dj(c, v))
}
#[verifier::external_body] pub fn vx_pairs<K: std::hash::Hash + Eq, V>(m: &HashMap<K, V>) -> (r: Vec<(&K, &V)>) ensures pairs_of(r@, m@) { unimplemented!() }
pub open spec fn pairs_of<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && *s[i].1 == m[*s[i].0]) && (forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k)
}
/// each index in o has one of its names in the first n pairs, and every such index is in o
pub open spec fn inverted(o: Map<usize, String>, s: Seq<(&String, &usize)>, n: int) -> bool {
    (forall|i: int| 0 <= i < n ==> o.contains_key(*(#[trigger] s[i]).1)) && (forall|k: usize| #[trigger] o.contains_key(k) ==> exists|i: int| 0 <= i < n && *(#[trigger] s[i]).1 == k && *s[i].0 == o[k])
}
pub open spec fn inv_all(o: Map<usize, String>, m: Map<String, usize>) -> bool { exists|s: Seq<(&String, &usize)>| pairs_of(s, m) && #[trigger] inverted(o, s, s.len() as int) }
pub proof fn lemma_inverted(o: Map<usize, String>, m: Map<String, usize>, d: Declarations, n: int)
    requires inv_all(o, m), d.clocks@ == m, declares(m, n)
    ensures names_for(o, d, n),
{
    let s = choose|s: Seq<(&String, &usize)>| pairs_of(s, m) && #[trigger] inverted(o, s, s.len() as int);
    {
        assert forall|i: usize| 0 < i < n implies #[trigger] o.contains_key(i) && look(d.clocks, o[i]) == Some(i) by {
            assert(named(m, i)); let k = choose|k: String| #[trigger] m.contains_key(k) && m[k] == i;
            let x = choose|x: int| 0 <= x < s.len() && *(#[trigger] s[x]).0 == k; assert(*s[x].1 == i);
            let y = choose|y: int| 0 <= y < s.len() && *(#[trigger] s[y]).1 == i && *s[y].0 == o[i];
        }
    }
}
pub proof fn lemma_written(r: Option<BoolExpression>, c: Disjunction, o: Map<usize, String>, m: Map<String, usize>)
    requires says_dj(r, c, c.conjunctions@.len() as int, o), inv_all(o, m)
    ensures written(r, c, m)
{
    reveal(says_dj); reveal(written);
    assert forall|d: Declarations, n: int| #![trigger dj_ok(c, n), declares(d.clocks@, n)] d.clocks@ == m && declares(d.clocks@, n) && dj_ok(c, n) implies opt_ok(r, d, n) && forall|v: Val| vok(v, n) ==> (#[trigger] opt_sat(r, d, v) <==> dj(c, v)) by { lemma_inverted(o, m, d, n); }
}
pub proof fn lemma_known(c: Disjunction, o: Map<usize, String>, n: int)
    requires dj_ok(c, n), forall|i: usize| 0 < i < n ==> #[trigger] o.contains_key(i)
    ensures all_known(c, o)
{
    assert forall|k: int, x: int| 0 <= k < c.conjunctions@.len() && 0 <= x < c.conjunctions@[k].constraints@.len() implies known(#[trigger] c.conjunctions@[k].constraints@[x], o) by { assert(cj_ok(c.conjunctions@[k], n)); assert(c_ok(c.conjunctions@[k].constraints@[x], n)); }
}
pub proof fn lemma_names(o: Map<usize, String>, m: Map<String, usize>, n: int)
    requires inv_all(o, m), declares(m, n)
    ensures forall|i: usize| 0 < i < n ==> #[trigger] o.contains_key(i)
{
    let s = choose|s: Seq<(&String, &usize)>| pairs_of(s, m) && #[trigger] inverted(o, s, s.len() as int);
    assert forall|i: usize| 0 < i < n implies #[trigger] o.contains_key(i) by {
        assert(named(m, i)); let k = choose|k: String| #[trigger] m.contains_key(k) && m[k] == i;
        let x = choose|x: int| 0 <= x < s.len() && *(#[trigger] s[x]).0 == k; assert(*s[x].1 == i);
    }
}
