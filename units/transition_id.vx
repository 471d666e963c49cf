@unit transition_id
@file T src/TransitionSystems/transition_id.rs
@type T TransitionID clone eq
@prelude
use TransitionID::*;

/// One slot per component, each holding that component's ids in order.
pub open spec fn zip(a: Seq<Seq<TransitionID>>, b: Seq<Seq<TransitionID>>) -> Seq<Seq<TransitionID>> {
    Seq::new(a.len(), |i: int| a[i] + b[i])
}
pub open spec fn slots(t: TransitionID) -> Seq<Seq<TransitionID>> decreases t, 0nat {
    match t {
        Conjunction(l, r) => slots(*l) + slots(*r),
        Composition(l, r) => slots(*l) + slots(*r),
        Quotient(l, r) => side(l, l.len() as nat) + side(r, r.len() as nat),
        _ => seq![seq![t]],
    }
}
/// slots of the first n alternatives of one side of a quotient; an empty side is one empty slot
pub open spec fn side(l: Vec<TransitionID>, n: nat) -> Seq<Seq<TransitionID>> decreases l, n {
    if n == 0 || n > l.len() { seq![seq![]] }
    else if n == 1 { slots(l[0]) }
    else { zip(side(l, (n - 1) as nat), slots(l[n - 1])) }
}
/// all alternatives of one side of a quotient come from the same system: same number of components
pub open spec fn wf(t: TransitionID) -> bool decreases t, 0nat {
    match t {
        Conjunction(l, r) => wf(*l) && wf(*r),
        Composition(l, r) => wf(*l) && wf(*r),
        Quotient(l, r) => wf_side(l, l.len() as nat) && wf_side(r, r.len() as nat),
        _ => true,
    }
}
pub open spec fn wf_side(l: Vec<TransitionID>, n: nat) -> bool decreases l, n {
    if n == 0 || n > l.len() { true }
    else { wf_side(l, (n - 1) as nat) && wf(l[n - 1]) && slots(l[n - 1]).len() == slots(l[0]).len() }
}
pub open spec fn deep(v: Seq<Vec<TransitionID>>) -> Seq<Seq<TransitionID>> {
    Seq::new(v.len(), |i: int| v[i]@)
}
/// slots s added at position k of the slot list a
#[verifier::opaque]
pub open spec fn put(a: Seq<Seq<TransitionID>>, k: int, s: Seq<Seq<TransitionID>>) -> Seq<Seq<TransitionID>> {
    Seq::new(if a.len() >= k + s.len() { a.len() } else { (k + s.len()) as nat }, |i: int|
        if i < k || i >= k + s.len() { a[i] }
        else if i < a.len() { a[i] + s[i - k] }
        else { s[i - k] })
}
/// the ids of a slot that name an edge
pub open spec fn named(s: Seq<TransitionID>) -> Seq<TransitionID> decreases s.len() {
    if s.len() == 0 { seq![] }
    else if s.last() is None { named(s.drop_last()) }
    else { named(s.drop_last()).push(s.last()) }
}
/// what component c does in the first n steps of the path
pub open spec fn column(path: Seq<TransitionID>, n: nat, c: int) -> Seq<Seq<TransitionID>> {
    Seq::new(n, |k: int| named(slots(path[k])[c]))
}
#[verifier::external_body] pub fn vx_fmt() -> String { unimplemented!() }
#[verifier::external_body] pub fn vx_panic<A>() -> A requires false { unimplemented!() }
pub proof fn lemma_wf_side(l: Vec<TransitionID>, n: nat, i: int)
    requires wf_side(l, n), 0 <= i < n <= l.len()
    ensures wf(l[i]), slots(l[i]).len() == slots(l[0]).len()
    decreases n
{
    if i < n - 1 { lemma_wf_side(l, (n - 1) as nat, i); }
}
pub proof fn lemma_width(t: TransitionID)
    ensures slots(t).len() >= 1
    decreases t, 0nat
{
    match t {
        Conjunction(l, r) => { lemma_width(*l); lemma_width(*r); }
        Composition(l, r) => { lemma_width(*l); lemma_width(*r); }
        Quotient(l, r) => { lemma_side_width(l, l.len() as nat); lemma_side_width(r, r.len() as nat); }
        _ => {}
    }
}
pub proof fn lemma_side_width(l: Vec<TransitionID>, n: nat)
    ensures side(l, n).len() >= 1, 1 <= n <= l.len() ==> side(l, n).len() == slots(l[0]).len()
    decreases l, n
{
    if n == 0 || n > l.len() {}
    else if n == 1 { lemma_width(l[0]); }
    else { lemma_side_width(l, (n - 1) as nat); }
}
pub proof fn lemma_put_len(a: Seq<Seq<TransitionID>>, k: int, s: Seq<Seq<TransitionID>>)
    requires 0 <= k <= a.len()
    ensures put(a, k, s).len() >= k + s.len(), put(a, k, s).len() >= a.len(),
        k == 0 && a.len() == 0 ==> put(a, k, s) =~= s
{ reveal(put); }
pub proof fn lemma_put_empty(a: Seq<Seq<TransitionID>>, k: int)
    requires 0 <= k <= a.len()
    ensures put(a, k, seq![seq![]]) == if k < a.len() { a } else { a.push(seq![]) }
{ reveal(put); assert(put(a, k, seq![seq![]]) =~~= if k < a.len() { a } else { a.push(seq![]) }); }
pub proof fn lemma_put_leaf(a: Seq<Seq<TransitionID>>, k: int, t: TransitionID)
    requires 0 <= k <= a.len()
    ensures put(a, k, seq![seq![t]]) == if k < a.len() { a.update(k, a[k].push(t)) } else { a.push(seq![t]) }
{ reveal(put); assert(put(a, k, seq![seq![t]]) =~~= if k < a.len() { a.update(k, a[k].push(t)) } else { a.push(seq![t]) }); }
pub proof fn lemma_put_concat(a: Seq<Seq<TransitionID>>, k: int, s1: Seq<Seq<TransitionID>>, s2: Seq<Seq<TransitionID>>)
    requires 0 <= k <= a.len()
    ensures put(put(a, k, s1), k + s1.len(), s2) == put(a, k, s1 + s2)
{ reveal(put); assert(put(put(a, k, s1), k + s1.len(), s2) =~~= put(a, k, s1 + s2)); }
/// one more alternative of a quotient side
pub proof fn lemma_side_step(a: Seq<Seq<TransitionID>>, k: int, l: Vec<TransitionID>, n: nat)
    requires 0 <= k <= a.len(), n < l.len(), wf_side(l, l.len() as nat)
    ensures put(put(a, k, side(l, n)), k, slots(l[n as int])) == put(a, k, side(l, n + 1)),
        wf(l[n as int]), slots(l[n as int]).len() == side(l, l.len() as nat).len(), side(l, n + 1).len() == side(l, l.len() as nat).len()
{
    lemma_wf_side(l, l.len() as nat, n as int);
    lemma_side_width(l, n);
    lemma_side_width(l, n + 1);
    lemma_side_width(l, l.len() as nat);
    lemma_width(l[n as int]);
    let s = slots(l[n as int]);
    reveal(put);
    if n == 0 {
        assert(put(put(a, k, seq![seq![]]), k, s) =~~= put(a, k, s));
    } else {
        assert(put(put(a, k, side(l, n)), k, s) =~~= put(a, k, zip(side(l, n), s)));
    }
}
pub proof fn lemma_deep_push(v: Seq<Vec<TransitionID>>, x: Vec<TransitionID>)
    ensures deep(v.push(x)) == deep(v).push(x@)
{ assert(deep(v.push(x)) =~~= deep(v).push(x@)); }
pub proof fn lemma_deep_update(v: Seq<Vec<TransitionID>>, i: int, x: Vec<TransitionID>)
    requires 0 <= i < v.len()
    ensures deep(v.update(i, x)) == deep(v).update(i, x@)
{ assert(deep(v.update(i, x)) =~~= deep(v).update(i, x@)); }
@endprelude

@fn T TransitionID::get_leaves -> r
    requires wf(*self), slots(*self).len() < usize::MAX,
    ensures deep(r@) == slots(*self)
@hint start
proof { assert(deep(Seq::empty()) =~~= Seq::<Seq<TransitionID>>::empty()); lemma_put_len(Seq::empty(), 0, slots(*self)); assert(forall|v: Vec<Vec<TransitionID>>| v@.len() == 0 ==> deep(#[trigger] v@) =~= Seq::empty()); }

@fn T TransitionID::get_leaves_helper -> r
@attr verifier::loop_isolation(false)
    requires wf(*self), index <= old(current_leaves).len(),
        index + slots(*self).len() < usize::MAX,
    ensures
        r + 1 == index + slots(*self).len(),
        deep(final(current_leaves)@) == put(deep(old(current_leaves)@), index as int, slots(*self)),
    decreases *self
@loops 2
@loop 0
    invariant
        it0.seq().len() == l.len(), forall|i: int| 0 <= i < l.len() ==> *#[trigger] it0.seq()[i] == l[i],
        index_left + 1 == index + side(*l, it0.index@ as nat).len(),
        deep(current_leaves@) == put(deep(old(current_leaves)@), index as int, side(*l, it0.index@ as nat)),
@loop 1
    invariant
        it1.seq().len() == r.len(), forall|i: int| 0 <= i < r.len() ==> *#[trigger] it1.seq()[i] == r[i],
        index_right + 1 == index_left + 1 + side(*r, it1.index@ as nat).len(),
        deep(current_leaves@) == put(mid, index_left + 1, side(*r, it1.index@ as nat)),
@hint start
let ghost o = deep(current_leaves@);
proof {
  lemma_width(*self);
  lemma_put_empty(o, index as int);
  assert forall|v: Seq<Vec<TransitionID>>, x: Vec<TransitionID>| #[trigger] deep(v.push(x)) == deep(v).push(x@) by { lemma_deep_push(v, x); }
  assert forall|v: Seq<Vec<TransitionID>>, i: int, x: Vec<TransitionID>| 0 <= i < v.len() implies #[trigger] deep(v.update(i, x)) == deep(v).update(i, x@) by { lemma_deep_update(v, i, x); }
  lemma_put_leaf(o, index as int, *self);
  match self {
   Quotient(l, r) => { lemma_side_width(*l, l.len() as nat); lemma_side_width(*r, r.len() as nat); 
       lemma_put_concat(o, index as int, side(*l, l.len() as nat), side(*r, r.len() as nat));
       lemma_put_len(o, index as int, side(*l, l.len() as nat)); },
   Conjunction(l, r) => { lemma_width(**l); lemma_width(**r); lemma_put_concat(o, index as int, slots(**l), slots(**r)); lemma_put_len(o, index as int, slots(**l)); },
   Composition(l, r) => { lemma_width(**l); lemma_width(**r); lemma_put_concat(o, index as int, slots(**l), slots(**r)); lemma_put_len(o, index as int, slots(**l)); },
   _ => {} } }
@hint loop 0 after
let ghost mid = deep(current_leaves@);
proof { lemma_put_empty(mid, index_left + 1); }
@hint loop 0 start
proof { lemma_side_step(o, index as int, *l, it0.index@ as nat); lemma_side_width(*l, it0.index@ as nat); assert(decreases_to!(l => *t)); lemma_put_len(o, index as int, side(*l, it0.index@ as nat)); }
@hint loop 1 start
proof { lemma_side_step(mid, index_left + 1, *r, it1.index@ as nat); lemma_side_width(*r, it1.index@ as nat); assert(decreases_to!(r => *s)); lemma_put_len(mid, index_left + 1, side(*r, it1.index@ as nat)); }

@fn T TransitionID::split_into_component_lists -> r
@attr verifier::loop_isolation(false)
    requires forall|i: int| 0 <= i < path.len() ==> wf(#[trigger] path[i]) && slots(path[i]).len() < usize::MAX,
    ensures
        (forall|i: int, j: int| 0 <= i < path.len() && 0 <= j < path.len() ==> (#[trigger] slots(path[i])).len() == (#[trigger] slots(path[j])).len()) <==> r is Ok,
        r is Ok ==> r->Ok_0@.len() == (if path.len() == 0 { 0 } else { slots(path[0]).len() }),
        r is Ok ==> forall|c: int| 0 <= c < r->Ok_0@.len() ==> #[trigger] deep(r->Ok_0@[c]@) == column(path@, path.len() as nat, c),
@loops 3
@loop 0
    invariant
        it0.seq().len() == path.len(), forall|i: int| 0 <= i < path.len() ==> *#[trigger] it0.seq()[i] == path[i],
        paths.len() == amount,
        forall|j: int| 0 <= j < it0.index@ ==> (#[trigger] slots(path[j])).len() == amount,
        forall|c: int| 0 <= c < amount ==> #[trigger] deep(paths[c]@) == column(path@, it0.index@ as nat, c),
@loop 1
    invariant
        it1.seq().len() == leaves.len(), forall|i: int| 0 <= i < leaves.len() ==> *#[trigger] it1.seq()[i] == leaves[i],
        __vx_i1 == it1.index@,
        paths.len() == amount,
        it1.index@ > 0 ==> leaves.len() == amount,
        forall|c: int| 0 <= c < amount ==> #[trigger] deep(paths[c]@) == column(path@, if c < it1.index@ { (n + 1) as nat } else { n }, c),
@loop 2
    invariant
        it2.seq().len() == transition.len(), forall|i: int| 0 <= i < transition.len() ==> *#[trigger] it2.seq()[i] == transition[i],
        __vx_out1@ == named(transition@.take(it2.index@ as int)),
@hint start
proof {
  assert forall|v: Seq<Vec<TransitionID>>, x: Vec<TransitionID>| #[trigger] deep(v.push(x)) == deep(v).push(x@) by { lemma_deep_push(v, x); }
  assert(deep(Seq::empty()) =~~= Seq::<Seq<TransitionID>>::empty());
  if path.len() > 0 { lemma_width(path[0]); }
}
@hint loop 0 before
proof {
  assert forall|c: int| 0 <= c < amount implies #[trigger] deep(paths[c]@) == column(path@, 0, c) by {
     assert(paths[c]@ =~= Seq::empty());
     assert(column(path@, 0, c) =~= Seq::empty());
  }
}
@hint loop 0 start
let ghost n = it0.index@ as nat;
proof { lemma_width(path[n as int]); }
@hint loop 0 end
proof { assert(leaves.len() == amount); }
@hint loop 1 end
proof {
  let c = it1.index@ as int;
  assert(transition@.take(transition.len() as int) =~= transition@);
  assert(column(path@, n + 1, c) =~= column(path@, n, c).push(named(slots(path[n as int])[c])));
}
@hint loop 2 start
proof { assert(transition@.take(it2.index@ + 1).drop_last() =~= transition@.take(it2.index@ as int)); }
@end
