pub type Lib = spec_fn(String) -> Component;
/// the component loader: which component a name stands for
#[verifier::external_body] pub struct Loader { x: usize }
impl Loader {
    pub uninterp spec fn lib(&self) -> Lib;
    /// clock reduction is on
    pub uninterp spec fn reducing(&self) -> bool;
    #[verifier::external_body] pub fn get_component(&mut self, name: &str) -> (r: &Component) ensures *r == old(self).lib()(mk(name@)), final(self).lib() == old(self).lib(), final(self).reducing() == old(self).reducing() { unimplemented!() }
}
#[verifier::external_body] pub fn vx_keys<K: std::hash::Hash + Eq + Clone, V>(m: &HashMap<K, V>) -> (r: Vec<K>) ensures lists_v(r@, m@.dom()), r@.no_duplicates() { unimplemented!() }
/// the clocks of a component are numbered 1..=n without gaps
pub open spec fn numbered(d: Declarations) -> bool {
    true
    && (forall|c: String| #[trigger] d.clocks@.contains_key(c) ==> 1 <= d.clocks@[c] <= d.clocks@.len())
    && (forall|c: String, e: String| #[trigger] d.clocks@.contains_key(c) && #[trigger] d.clocks@.contains_key(e) && d.clocks@[c] == d.clocks@[e] ==> c == e)
}
/// every clock of d moved up by k
pub open spec fn moved(o: Declarations, k: int, d: Declarations) -> bool {
    d.ints == o.ints && d.clocks@.dom() == o.clocks@.dom() && forall|c: String| #[trigger] o.clocks@.contains_key(c) ==> d.clocks@[c] == o.clocks@[c] + k
}
pub open spec fn count(c: Component) -> int { c.declarations.clocks@.len() as int }
/// the last clock index in use, and the quotient clock, after the expression has been read
pub open spec fn after(e: SystemExpression, l: Lib, k: int, q: Option<usize>) -> (int, Option<usize>) decreases e {
    match e {
        SystemExpression::Component(n, _) => (k + count(l(n)), q),
        SystemExpression::Composition(a, b) => { let (k1, q1) = after(*a, l, k, q); after(*b, l, k1, q1) }
        SystemExpression::Conjunction(a, b) => { let (k1, q1) = after(*a, l, k, q); after(*b, l, k1, q1) }
        SystemExpression::Quotient(a, b) => { let (k1, q1) = after(*a, l, k, q); let (k2, q2) = after(*b, l, k1, q1); match q2 { Some(_) => (k2, q2), None => (k2 + 1, Some((k2 + 1) as usize)) } }
    }
}
/// the recipe has the shape of the expression: the same operators, the components it names (with the id given
/// there), each with its clocks moved behind those read before it, and one clock for all quotients
pub open spec fn recipe_of(r: SystemRecipe, e: SystemExpression, l: Lib, k: int, q: Option<usize>) -> bool decreases e {
    match e {
        SystemExpression::Component(n, id) => match r { SystemRecipe::Component(c) => ({
            let o = l(n);
            c.name == o.name && c.locations == o.locations && c.edges == o.edges && c.special_id == id && moved(o.declarations, k, c.declarations) }), _ => false },
        SystemExpression::Composition(a, b) => match r { SystemRecipe::Composition(x, y) => recipe_of(*x, *a, l, k, q) && recipe_of(*y, *b, l, after(*a, l, k, q).0, after(*a, l, k, q).1), _ => false },
        SystemExpression::Conjunction(a, b) => match r { SystemRecipe::Conjunction(x, y) => recipe_of(*x, *a, l, k, q) && recipe_of(*y, *b, l, after(*a, l, k, q).0, after(*a, l, k, q).1), _ => false },
        SystemExpression::Quotient(a, b) => match r { SystemRecipe::Quotient(x, y, i) => recipe_of(*x, *a, l, k, q) && recipe_of(*y, *b, l, after(*a, l, k, q).0, after(*a, l, k, q).1) && after(e, l, k, q).1 == Some(i), _ => false },
    }
}
/// every component named by the expression is well numbered
pub open spec fn well(e: SystemExpression, l: Lib) -> bool decreases e {
    match e {
        SystemExpression::Component(n, _) => numbered(l(n).declarations),
        SystemExpression::Composition(a, b) => well(*a, l) && well(*b, l),
        SystemExpression::Conjunction(a, b) => well(*a, l) && well(*b, l),
        SystemExpression::Quotient(a, b) => well(*a, l) && well(*b, l),
    }
}
/// the components of a recipe, from left to right
pub open spec fn comps(r: SystemRecipe) -> Seq<Component> decreases r {
    match r {
        SystemRecipe::Component(c) => seq![*c],
        SystemRecipe::Composition(a, b) => comps(*a) + comps(*b),
        SystemRecipe::Conjunction(a, b) => comps(*a) + comps(*b),
        SystemRecipe::Quotient(a, b, _) => comps(*a) + comps(*b),
    }
}
/// clock c of component i of the recipe has index x
pub open spec fn clock_at(r: SystemRecipe, i: int, c: String, x: int) -> bool { 0 <= i < comps(r).len() && comps(r)[i].declarations.clocks@.contains_key(c) && comps(r)[i].declarations.clocks@[c] == x }
pub open spec fn quotients(r: SystemRecipe) -> Set<int> decreases r {
    match r {
        SystemRecipe::Component(c) => Set::empty(),
        SystemRecipe::Composition(a, b) => quotients(*a).union(quotients(*b)),
        SystemRecipe::Conjunction(a, b) => quotients(*a).union(quotients(*b)),
        SystemRecipe::Quotient(a, b, i) => quotients(*a).union(quotients(*b)).insert(i as int),
    }
}
/// same recipe, all quotients on clock i
pub open spec fn requot(r: SystemRecipe, i: usize) -> SystemRecipe decreases r {
    match r {
        SystemRecipe::Component(c) => r,
        SystemRecipe::Composition(a, b) => SystemRecipe::Composition(Box::new(requot(*a, i)), Box::new(requot(*b, i))),
        SystemRecipe::Conjunction(a, b) => SystemRecipe::Conjunction(Box::new(requot(*a, i)), Box::new(requot(*b, i))),
        SystemRecipe::Quotient(a, b, _) => SystemRecipe::Quotient(Box::new(requot(*a, i)), Box::new(requot(*b, i)), i),
    }
}
/// what the constructors of the operators build (their own properties); None: refused
pub uninterp spec fn ts_par(l: TransitionSystemPtr, r: TransitionSystemPtr, dim: usize) -> Option<TransitionSystemPtr>;
pub uninterp spec fn ts_conj(l: TransitionSystemPtr, r: TransitionSystemPtr, dim: usize) -> Option<TransitionSystemPtr>;
pub uninterp spec fn ts_quot(l: TransitionSystemPtr, r: TransitionSystemPtr, clock: usize, dim: usize) -> Option<TransitionSystemPtr>;
pub uninterp spec fn ts_comp(c: Component, dim: usize, no: u32) -> Option<TransitionSystemPtr>;
/// the system of a recipe over dim dimensions whose components are numbered from no
pub open spec fn system(r: SystemRecipe, dim: usize, no: int) -> Option<TransitionSystemPtr> decreases r {
    match r {
        SystemRecipe::Component(c) => ts_comp(*c, dim, no as u32),
        SystemRecipe::Composition(a, b) => { let (x, y) = (system(*a, dim, no), system(*b, dim, no + comps(*a).len())); if x is Some && y is Some { ts_par(x->0, y->0, dim) } else { None } }
        SystemRecipe::Conjunction(a, b) => { let (x, y) = (system(*a, dim, no), system(*b, dim, no + comps(*a).len())); if x is Some && y is Some { ts_conj(x->0, y->0, dim) } else { None } }
        SystemRecipe::Quotient(a, b, q) => { let (x, y) = (system(*a, dim, no), system(*b, dim, no + comps(*a).len())); if x is Some && y is Some { ts_quot(x->0, y->0, q, dim) } else { None } }
    }
}
/// t is the system of recipe s over n clocks, its components numbered from no
pub open spec fn built(s: SystemRecipe, n: int, no: int, t: TransitionSystemPtr) -> bool { system(s, (n + 1) as usize, no) == Some(t) }
/// the operators refuse the recipe
pub open spec fn unbuilt(s: SystemRecipe, n: int, no: int) -> bool { system(s, (n + 1) as usize, no) is None }
pub mod vxrec { use vstd::prelude::*; use super::*;
pub broadcast proof fn lemma_after_mono(e: SystemExpression, l: Lib, k: int, q: Option<usize>)
    requires k >= 0, well(e, l)
    ensures (#[trigger] after(e, l, k, q)).0 >= k, q is Some ==> after(e, l, k, q).1 == q
    decreases e
{
    match e {
        SystemExpression::Component(n, _) => {}
        SystemExpression::Composition(a, b) | SystemExpression::Conjunction(a, b) | SystemExpression::Quotient(a, b) => {
            lemma_after_mono(*a, l, k, q);
            lemma_after_mono(*b, l, after(*a, l, k, q).0, after(*a, l, k, q).1);
        }
    }
}
/// no index gets smaller on the way
pub proof fn lemma_parts(e: SystemExpression, l: Lib, k: int, q: Option<usize>)
    requires k >= 0, well(e, l)
    ensures match e { SystemExpression::Component(n, _) => true, SystemExpression::Composition(a, b) | SystemExpression::Conjunction(a, b) | SystemExpression::Quotient(a, b) => {
        let (k1, q1) = after(*a, l, k, q); k <= k1 && k1 <= after(*b, l, k1, q1).0 <= after(e, l, k, q).0 && well(*a, l) && well(*b, l) } }
{
    lemma_after_mono(e, l, k, q);
    match e { SystemExpression::Component(n, _) => {}, SystemExpression::Composition(a, b) | SystemExpression::Conjunction(a, b) | SystemExpression::Quotient(a, b) => {
        lemma_after_mono(*a, l, k, q); lemma_after_mono(*b, l, after(*a, l, k, q).0, after(*a, l, k, q).1); } }
}
}
/// no two clocks share an index, also not with the clock of the quotients, and all lie in 1..=dimension
pub open spec fn apart(r: SystemRecipe, k: int, k2: int) -> bool {
    (forall|i: int, c: String, x: int| #[trigger] clock_at(r, i, c, x) ==> k < x <= k2 && !quotients(r).contains(x))
    && (forall|i: int, c: String, j: int, d: String, x: int| #[trigger] clock_at(r, i, c, x) && #[trigger] clock_at(r, j, d, x) ==> i == j && c == d)
}
pub open spec fn lo_hi(r: SystemRecipe, q: Option<usize>, k: int, q2: Option<usize>, k2: int) -> bool {
    (forall|x: int| #[trigger] quotients(r).contains(x) ==> q2 == Some(x as usize) && 0 < x <= usize::MAX) && (q2 is Some ==> 0 < q2->0 <= k2) && (q is None && q2 is Some ==> k < q2->0 && quotients(r).contains(q2->0 as int)) && (q is Some ==> q2 == q)
}
pub proof fn lemma_at(r: SystemRecipe, a: SystemRecipe, b: SystemRecipe)
    requires comps(r) == comps(a) + comps(b)
    ensures forall|i: int, c: String, x: int| #[trigger] clock_at(r, i, c, x) ==> (if i < comps(a).len() { clock_at(a, i, c, x) } else { clock_at(b, i - comps(a).len(), c, x) })
{}
pub proof fn lemma_lo_hi(r: SystemRecipe, e: SystemExpression, l: Lib, k: int, q: Option<usize>)
    requires recipe_of(r, e, l, k, q), well(e, l), 0 <= k, after(e, l, k, q).0 <= usize::MAX, q is Some ==> 0 < q->0 <= k
    ensures lo_hi(r, q, k, after(e, l, k, q).1, after(e, l, k, q).0)
    decreases e
{
    match e {
        SystemExpression::Component(n, _) => {}
        SystemExpression::Composition(a, b) | SystemExpression::Conjunction(a, b) | SystemExpression::Quotient(a, b) => {
            let (x, y) = match r { SystemRecipe::Composition(x, y) | SystemRecipe::Conjunction(x, y) => (*x, *y), SystemRecipe::Quotient(x, y, _) => (*x, *y), SystemRecipe::Component(c) => (r, r) };
            let (k1, q1) = after(*a, l, k, q);
            let (k2, q2) = after(*b, l, k1, q1);
            vxrec::lemma_parts(e, l, k, q);
            lemma_lo_hi(x, *a, l, k, q);
            lemma_lo_hi(y, *b, l, k1, q1);
            let (k3, q3) = after(e, l, k, q);
            assert(q1 is Some ==> q2 == q1);
            assert(q2 is Some ==> q3 == q2);
            if let SystemRecipe::Quotient(_, _, i) = r { assert(q3 == Some(i)); assert(quotients(r).contains(i as int)); }
            assert forall|v: int| #[trigger] quotients(r).contains(v) implies q3 == Some(v as usize) && 0 < v <= usize::MAX by {
                assert(quotients(x).contains(v) || quotients(y).contains(v) || (r is Quotient && q3 == Some(v as usize)));
            }
            if q is None && q3 is Some {
                if q1 is Some { assert(quotients(x).contains(q1->0 as int)); assert(quotients(r).contains(q1->0 as int)); }
                else if q2 is Some { assert(quotients(y).contains(q2->0 as int)); assert(quotients(r).contains(q2->0 as int)); }
            }
        }
    }
}
pub proof fn theorem_clocks_apart(r: SystemRecipe, e: SystemExpression, l: Lib, k: int, q: Option<usize>)
    requires recipe_of(r, e, l, k, q), well(e, l), 0 <= k, after(e, l, k, q).0 <= usize::MAX, q is Some ==> 0 < q->0 <= k
    ensures apart(r, k, after(e, l, k, q).0), lo_hi(r, q, k, after(e, l, k, q).1, after(e, l, k, q).0)
    decreases e
{
    lemma_lo_hi(r, e, l, k, q);
    match e {
        SystemExpression::Component(n, _) => {
            let o = l(n).declarations; let c = comps(r)[0];
            assert forall|i: int, n: String, x: int| #[trigger] clock_at(r, i, n, x) implies k < x <= after(e, l, k, q).0 by { assert(o.clocks@.dom().contains(n)); assert(o.clocks@.contains_key(n)); }
            assert forall|i: int, n: String, j: int, m: String, x: int| #[trigger] clock_at(r, i, n, x) && #[trigger] clock_at(r, j, m, x) implies i == j && n == m by {
                assert(o.clocks@.dom().contains(n) && o.clocks@.dom().contains(m)); assert(o.clocks@.contains_key(n) && o.clocks@.contains_key(m)); }
        }
        SystemExpression::Composition(a, b) | SystemExpression::Conjunction(a, b) | SystemExpression::Quotient(a, b) => {
            let (x, y) = match r { SystemRecipe::Composition(x, y) | SystemRecipe::Conjunction(x, y) => (*x, *y), SystemRecipe::Quotient(x, y, _) => (*x, *y), SystemRecipe::Component(c) => (r, r) };
            let (k1, q1) = after(*a, l, k, q);
            let (k2, q2) = after(*b, l, k1, q1);
            vxrec::lemma_parts(e, l, k, q);
            lemma_lo_hi(x, *a, l, k, q);
            lemma_lo_hi(y, *b, l, k1, q1);
            theorem_clocks_apart(x, *a, l, k, q);
            theorem_clocks_apart(y, *b, l, k1, q1);
            lemma_at(r, x, y);
            let z = after(e, l, k, q).0;
            assert forall|i: int, c: String, v: int| #[trigger] clock_at(r, i, c, v) implies k < v <= z && !quotients(r).contains(v) by {
                if i < comps(x).len() { assert(clock_at(x, i, c, v)); } else { assert(clock_at(y, i - comps(x).len(), c, v)); }
                if quotients(r).contains(v) { assert(quotients(x).contains(v) || quotients(y).contains(v) || v == k2 + 1 || q2 == Some(v as usize)); }
            }
            assert forall|i: int, c: String, j: int, d: String, v: int| #[trigger] clock_at(r, i, c, v) && #[trigger] clock_at(r, j, d, v) implies i == j && c == d by {
                let n = comps(x).len();
                if i < n && j < n { assert(clock_at(x, i, c, v) && clock_at(x, j, d, v)); }
                else if i >= n && j >= n { assert(clock_at(y, i - n, c, v) && clock_at(y, j - n, d, v)); }
                else if i < n { assert(clock_at(x, i, c, v) && clock_at(y, j - n, d, v)); }
                else { assert(clock_at(y, i - n, c, v) && clock_at(x, j, d, v)); }
            }
        }
    }
}
