@unit quotient
@file U src/EdgeEval/updater.rs
@file T src/ModelObjects/transition.rs
@file S src/ModelObjects/state.rs
@file L src/TransitionSystems/location_tree.rs
@file I src/TransitionSystems/location_id.rs
@file D src/TransitionSystems/transition_id.rs
@file M src/ModelObjects/location.rs
@file Z src/System/specifics.rs
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file G src/EdgeEval/constraint_applyer.rs
@file C src/ModelObjects/component.rs
@file E src/ModelObjects/edge.rs
@file P src/DataReader/parse_edge.rs
@file N src/TransitionSystems/quotient.rs
@file Q src/System/query_failures.rs
@file R src/TransitionSystems/transition_system.rs
@subst self . inputs . clone ( ) =>> vx_set_clone ( & self . inputs )
@subst self . outputs . clone ( ) =>> vx_set_clone ( & self . outputs )
@setfn get_input_actions get_output_actions get_actions
@type A ArithExpression clone eq
@type B BoolExpression clone eq
@type C Declarations
@type P Update
@type E SyncType copy eq
@type E Edge
@type M Location
@type C Component
@type U CompiledUpdate clone
@type D TransitionID clone eq
@type I LocationID clone eq
@type Z SpecialLocation clone eq
@type Q SystemType copy eq
@type Z SpecificComp
@type Z SpecificLocation
@type M LocationType copy eq
@type L CompositionType copy eq
@type L LocationTree clone
@type T Transition clone
@type S State clone
@type N Quotient
@addassign
@include common.inc
@include sets.inc
@include fed.inc
@include arith.inc
@include upd.inc
@include trans.inc
@include ts.inc
@include bounds.inc
@include sysbounds.inc
@include tsdef.inc
@include compose.inc
@prelude
impl ActionFailure { #[verifier::external_body] pub fn to_rfq(self, t: &TransitionSystemPtr, s: &TransitionSystemPtr) -> SystemRecipeFailure { unimplemented!() } }
impl ConsistencyFailure { #[verifier::external_body] pub fn to_rfq(self, t: &TransitionSystemPtr, s: &TransitionSystemPtr) -> SystemRecipeFailure { unimplemented!() } }
impl From<DeterminismFailure> for ConsistencyFailure { #[verifier::external_body] fn from(x: DeterminismFailure) -> Self { unimplemented!() } }
/// the rules, with the positions of the transitions of the two sides that they combine
pub enum Rule { Both(int, int), OnlyS(int), OnlyT(int), Univ, Inco(int), Fresh }
/// from a location the side may take this transition at v: guard, its own invariant, and the target's after the updates
pub open spec fn can(t: Transition, l: LocationTree, v: Val) -> bool { t.guard_zone.has(v) && inv_has(t.target_locations, upd(t.updates@, v)) && inv_has(l, v) }
pub open spec fn some_can(ts: Seq<Transition>, k: int, l: LocationTree, v: Val) -> bool { exists|i: int| 0 <= i < k && can(#[trigger] ts[i], l, v) }
/// a side's transitions for an action, none where it does not know it
pub open spec fn offer(t: TransitionSystemPtr, l: LocationTree, a: String) -> Seq<Transition> { if t.acts().contains(a) { t.trans(l, a) } else { Seq::empty() } }
pub open spec fn merged(l: LocationTree, r: LocationTree, o: LocationTree) -> bool {
    &&& o.id == LocationID::Quotient(Box::new(l.id), Box::new(r.id)) && o.invariant is None
    &&& o.left is Some && *o.left->0 == l && o.right is Some && *o.right->0 == r
    &&& (o.loc_type is Initial <==> l.loc_type is Initial && r.loc_type is Initial) && (o.loc_type is Initial || o.loc_type is Normal)
}
pub open spec fn ids(ts: Seq<Transition>) -> Seq<TransitionID> { Seq::new(ts.len(), |i: int| ts[i].id) }
pub open spec fn qid(id: TransitionID, l: Seq<TransitionID>, r: Seq<TransitionID>) -> bool { match id { TransitionID::Quotient(x, y) => x@ =~= l && y@ =~= r, _ => false } }
impl Quotient {
    pub open spec fn ins(&self) -> Set<String> { self.inputs@ }
    pub open spec fn outs(&self) -> Set<String> { self.outputs@ }
    pub open spec fn acts(&self) -> Set<String> { self.ins().union(self.outs()) }
    pub open spec fn wf(&self) -> bool {
        let n = self.dim as int; let u = self.universal_location; let e = self.inconsistent_location;
        &&& self.ins().disjoint(self.outs())
        &&& self.T.n() == n && self.S.n() == n && 0 < self.quotient_clock_index < n
        &&& self.S.outs().disjoint(self.T.ins())
        &&& self.inputs@ =~= self.T.ins().union(self.S.outs()).insert(self.new_input_name)
        &&& self.outputs@ =~= self.T.outs().difference(self.S.outs()).union(self.S.ins().difference(self.T.ins()))
        &&& !self.T.acts().contains(self.new_input_name) && !self.S.acts().contains(self.new_input_name)
        &&& u.id == LocationID::Special(SpecialLocation::Universal) && u.loc_type is Universal && u.invariant is None
        &&& e.id == LocationID::Special(SpecialLocation::Error) && e.loc_type is Inconsistent && loc_ok(e, n)
        &&& forall|v: Val| vok(v, n) ==> (#[trigger] inv_has(e, v) <==> v[self.quotient_clock_index as int] == 0real)
    }
    pub open spec fn at(&self, l: LocationTree) -> bool {
        match l.loc_type { LocationType::Universal | LocationType::Inconsistent => loc_ok(l, self.dim as int), _ => pair_at(self.T, self.S, l, self.dim as int) }
    }
    pub open spec fn t(&self, l: LocationTree, a: String) -> Seq<Transition> { offer(self.T, *l.left->0, a) }
    pub open spec fn s(&self, l: LocationTree, a: String) -> Seq<Transition> { offer(self.S, *l.right->0, a) }
    /// the rule speaks about this action and these transitions
    pub open spec fn applies(&self, l: LocationTree, a: String, r: Rule) -> bool {
        let (t, s) = (self.T, self.S);
        match r {
            Rule::Both(i, j) => t.acts().contains(a) && s.acts().contains(a) && 0 <= i < self.t(l, a).len() && 0 <= j < self.s(l, a).len(),
            Rule::OnlyS(j) => !t.acts().contains(a) && s.acts().contains(a) && 0 <= j < self.s(l, a).len(),
            Rule::OnlyT(i) => t.acts().contains(a) && !s.acts().contains(a) && 0 <= i < self.t(l, a).len(),
            Rule::Univ => true,
            Rule::Inco(j) => t.outs().contains(a) && s.outs().contains(a) && 0 <= j < self.s(l, a).len(),
            Rule::Fresh => a == self.new_input_name,
        }
    }
    /// when the rule's transition is enabled
    pub open spec fn enabled(&self, l: LocationTree, a: String, r: Rule, v: Val) -> bool {
        let (lt, ls, t, s) = (*l.left->0, *l.right->0, self.t(l, a), self.s(l, a));
        match r {
            Rule::Both(i, j) => can(t[i], lt, v) && can(s[j], ls, v),
            Rule::OnlyS(j) => can(s[j], ls, v),
            Rule::OnlyT(i) => can(t[i], lt, v) && inv_has(ls, v),
            Rule::Univ => !inv_has(ls, v) || (self.S.outs().contains(a) && !some_can(s, s.len() as int, ls, v)),
            Rule::Inco(j) => can(s[j], ls, v) && !some_can(t, t.len() as int, lt, v),
            Rule::Fresh => !inv_has(lt, v) && inv_has(ls, v),
        }
    }
    pub open spec fn resets(&self, us: Seq<CompiledUpdate>) -> bool { us =~= seq![CompiledUpdate { clock_index: self.quotient_clock_index, value: 0i32 }] }
    /// what the rule's transition is called, does and leads to
    pub open spec fn leads(&self, l: LocationTree, a: String, r: Rule, o: Transition) -> bool {
        let (lt, ls, t, s) = (*l.left->0, *l.right->0, self.t(l, a), self.s(l, a));
        match r {
            Rule::Both(i, j) => qid(o.id, seq![t[i].id], seq![s[j].id]) && merged(t[i].target_locations, s[j].target_locations, o.target_locations) && o.updates@ =~= t[i].updates@ + s[j].updates@,
            Rule::OnlyS(j) => qid(o.id, seq![], seq![s[j].id]) && merged(lt, s[j].target_locations, o.target_locations) && o.updates@ =~= s[j].updates@,
            Rule::OnlyT(i) => qid(o.id, seq![t[i].id], seq![]) && merged(t[i].target_locations, ls, o.target_locations) && o.updates@ =~= t[i].updates@,
            Rule::Univ => (if self.S.outs().contains(a) { qid(o.id, seq![], ids(s)) } else { o.id is None }) && o.target_locations == self.universal_location && o.updates@ =~= seq![],
            Rule::Inco(j) => qid(o.id, ids(t), seq![s[j].id]) && o.target_locations == self.inconsistent_location && self.resets(o.updates@),
            Rule::Fresh => o.id is None && o.target_locations == self.inconsistent_location && self.resets(o.updates@),
        }
    }
    pub open spec fn inst(&self, l: LocationTree, a: String, r: Rule, o: Transition) -> bool {
        &&& self.applies(l, a, r) && self.leads(l, a, r, o) && o.guard_zone.n() == self.dim
        &&& forall|v: Val| vok(v, self.dim as int) ==> (#[trigger] o.guard_zone.has(v) <==> self.enabled(l, a, r, v))
    }
    /// some rule gives this transition, and it stays within the system
    pub open spec fn ruled(&self, l: LocationTree, a: String, o: Transition) -> bool { tr_ok(o, self.dim as int) && self.at(o.target_locations) && exists|r: Rule| #[trigger] self.inst(l, a, r, o) }
    pub open spec fn sound(&self, l: LocationTree, a: String, o: Seq<Transition>) -> bool { forall|x: int| 0 <= x < o.len() ==> self.ruled(l, a, #[trigger] o[x]) }
    pub open spec fn done(&self, l: LocationTree, a: String, o: Seq<Transition>, r: Rule) -> bool { exists|x: int| 0 <= x < o.len() && self.inst(l, a, r, #[trigger] o[x]) }
    /// exactly the enabled instances of the rules
    pub open spec fn by_rules(&self, l: LocationTree, a: String, o: Seq<Transition>) -> bool {
        &&& self.sound(l, a, o) && forall|x: int| 0 <= x < o.len() ==> !none((#[trigger] o[x]).guard_zone)
        &&& forall|r: Rule, v: Val| self.applies(l, a, r) && vok(v, self.dim as int) && #[trigger] self.enabled(l, a, r, v) ==> self.done(l, a, o, r)
    }
    pub open spec fn q_step(&self, l: LocationTree, a: String, o: Seq<Transition>) -> bool {
        let n = self.dim as int;
        if l.loc_type is Inconsistent {
            if self.ins().contains(a) { o.len() == 1 && o[0].id is None && o[0].target_locations == l && o[0].updates@.len() == 0 && o[0].guard_zone.n() == n && forall|v: Val| vok(v, n) ==> (#[trigger] o[0].guard_zone.has(v) <==> v[self.quotient_clock_index as int] == 0real) }
            else { o.len() == 0 }
        } else if l.loc_type is Universal { o.len() == 1 && idle(o[0], l, n) }
        else { self.by_rules(l, a, o) }
    }
    pub open spec fn steps(&self, o: Seq<Transition>) -> bool { forall|i: int| 0 <= i < o.len() ==> tr_ok(#[trigger] o[i], self.dim as int) && self.at(o[i].target_locations) }
}
pub open spec fn has_pair(o: Seq<LocationTree>, l: LocationTree, r: LocationTree) -> bool { exists|k: int| 0 <= k < o.len() && merged(l, r, #[trigger] o[k]) }
impl Quotient {
    pub open spec fn pair_of(&self, x: LocationTree, i: int, j: int) -> bool { 0 <= i < self.T.locs().len() && 0 <= j < self.S.locs().len() && merged(self.T.locs()[i], self.S.locs()[j], x) }
    pub open spec fn is_loc(&self, x: LocationTree) -> bool { x == self.universal_location || x == self.inconsistent_location || exists|i: int, j: int| #[trigger] self.pair_of(x, i, j) }
    /// every pair, the universal and the inconsistent location, and nothing else
    pub open spec fn all_locs(&self, o: Seq<LocationTree>) -> bool {
        &&& forall|i: int, j: int| 0 <= i < self.T.locs().len() && 0 <= j < self.S.locs().len() ==> #[trigger] has_pair(o, self.T.locs()[i], self.S.locs()[j])
        &&& o.contains(self.universal_location) && o.contains(self.inconsistent_location)
        &&& forall|k: int| 0 <= k < o.len() ==> self.is_loc(#[trigger] o[k])
    }
}
/// the number of names tried stays below 2^64
#[verifier::external_body] pub fn vx_next(i: i32) -> i32 { unimplemented!() }
pub broadcast proof fn lemma_done_push(q: Quotient, l: LocationTree, a: String, o: Seq<Transition>, x: Transition, r: Rule)
    ensures #[trigger] q.done(l, a, o.push(x), r) <==> q.done(l, a, o, r) || q.inst(l, a, r, x)
{
    let p = o.push(x);
    if q.done(l, a, o, r) { let i = choose|i: int| 0 <= i < o.len() && q.inst(l, a, r, #[trigger] o[i]); assert(p[i] == o[i]); }
    if q.inst(l, a, r, x) { assert(p[o.len() as int] == x); }
    if q.done(l, a, p, r) { let i = choose|i: int| 0 <= i < p.len() && q.inst(l, a, r, #[trigger] p[i]); if i < o.len() { assert(p[i] == o[i]); } }
}
pub broadcast proof fn lemma_us_ok_cat(a: Seq<CompiledUpdate>, b: Seq<CompiledUpdate>, n: int)
    requires us_ok(a, n), us_ok(b, n)
    ensures #[trigger] us_ok(a + b, n)
{
    let c = a + b;
    assert forall|i: int| 0 <= i < c.len() implies u_ok(#[trigger] c[i], n) by { if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); } }
}
pub proof fn lemma_some_can(ts: Seq<Transition>, k: int, l: LocationTree, v: Val)
    requires 0 <= k < ts.len()
    ensures some_can(ts, k + 1, l, v) <==> some_can(ts, k, l, v) || can(ts[k], l, v)
{}
/// a transition that some rule gives is within the system
pub proof fn lemma_inst_ok(q: Quotient, l: LocationTree, a: String, r: Rule, o: Transition)
    requires q.wf(), q.at(l), !(l.loc_type is Universal), !(l.loc_type is Inconsistent), q.inst(l, a, r, o), side_ok(q.t(l, a), q.dim as int, q.T), side_ok(q.s(l, a), q.dim as int, q.S)
    ensures q.ruled(l, a, o)
{
    let n = q.dim as int; let t = q.t(l, a); let s = q.s(l, a);
    match r {
        Rule::Both(i, j) => { lemma_us_ok_cat(t[i].updates@, s[j].updates@, n); }
        Rule::OnlyS(j) => {} Rule::OnlyT(i) => {} Rule::Univ => {} Rule::Inco(j) => {} Rule::Fresh => {}
    }
    assert(us_ok(o.updates@, n));
    assert(tr_ok(o, n));
    assert(q.at(o.target_locations));
}
@endprelude
@import transition L LocationTree::apply_invariants
@import transition L LocationTree::get_invariants
@import transition L LocationTree::universal
@import transition L LocationTree::error
@import transition L LocationTree::merge_as_quotient
@import transition S State::new
@import transition T Transition::without_id
@import transition T Transition::get_allowed_federation
@fn L LocationTree::get_left -> r
    requires self.left is Some
    ensures *r == *self.left->0
@fn L LocationTree::get_right -> r
    requires self.right is Some
    ensures *r == *self.right->0
@fn L LocationTree::is_universal -> r
    ensures r <==> self.loc_type is Universal
@fn L LocationTree::is_inconsistent -> r
    ensures r <==> self.loc_type is Inconsistent
@fn N merge -> r
    ensures merged(*t, *s, r)
@fn N get_allowed_fed -> r
    requires tr_ok(*transition, transition.guard_zone.n()), loc_ok(*from, transition.guard_zone.n())
    ensures r.n() == transition.guard_zone.n(), forall|v: Val| vok(v, r.n()) ==> (#[trigger] r.has(v) <==> can(*transition, *from, v))
@fn N get_invariant -> r
    requires loc_ok(*loc, dim as int), dim > 0
    ensures r.n() == dim, forall|v: Val| vok(v, dim as int) ==> (#[trigger] r.has(v) <==> inv_has(*loc, v))
@fn N Quotient@TransitionSystem::get_input_actions -> r
    ensures r@ == self.ins()
@fn N Quotient@TransitionSystem::get_output_actions -> r
    ensures r@ == self.outs()
@fn N Quotient@TransitionSystem::get_actions -> r
    ensures r@ == self.acts()
@fn R TransitionSystem::actions_contain -> r
    ensures r <==> self.acts().contains(mk(action@))
@selfas Quotient
@fn R TransitionSystem::inputs_contain -> r
    ensures r <==> self.ins().contains(mk(action@))
@selfas Quotient
@fn N Quotient@TransitionSystem::get_dim -> r
    ensures r == self.dim
@fn N Quotient@TransitionSystem::get_children -> r
    ensures *r.0 == self.T, *r.1 == self.S
@fn N Quotient@TransitionSystem::get_composition_type -> r
    ensures r == CompositionType::Quotient
@fn N Quotient@TransitionSystem::next_transitions -> r
    requires self.wf(), self.at(*location), self.acts().contains(mk(action@))
    ensures self.q_step(*location, mk(action@), r@), self.steps(r@)
@attr verifier::loop_isolation(false)
@attr verifier::spinoff_prover
@loops 10
@hint start
broadcast use lemma_done_push;
let ghost q = *self; let ghost a = mk(action@); let ghost l = *location; let ghost n = self.dim as int;
@hint before "let loc_t"
let ghost gt = q.t(l, a); let ghost gs = q.s(l, a);
@hint after "let s = self"
proof { assert(t@ == gt); assert(s@ == gs); assert(side_ok(gt, n, q.T)); assert(side_ok(gs, n, q.S)); }
@loop 0
    invariant it0.seq().len() == gt.len(), forall|i: int| 0 <= i < gt.len() ==> *#[trigger] it0.seq()[i] == gt[i],
        q.sound(l, a, transitions@), forall|i: int, j: int| 0 <= i < it0.index@ && 0 <= j < gs.len() ==> #[trigger] q.done(l, a, transitions@, Rule::Both(i, j)),
@loop 1
    invariant it1.seq().len() == gs.len(), forall|i: int| 0 <= i < gs.len() ==> *#[trigger] it1.seq()[i] == gs[i],
        q.sound(l, a, transitions@), forall|i: int, j: int| 0 <= i < it0.index@ && 0 <= j < gs.len() ==> #[trigger] q.done(l, a, transitions@, Rule::Both(i, j)),
        forall|j: int| 0 <= j < it1.index@ ==> #[trigger] q.done(l, a, transitions@, Rule::Both(it0.index@ as int, j)),
@hint loop 1 start
let ghost o0 = transitions@; let ghost i0 = it0.index@ as int; let ghost j0 = it1.index@ as int;
proof { assert(*t_transition == gt[i0]); assert(*s_transition == gs[j0]); }
@hint loop 1 end
proof {
    let x = transitions@.last();
    assert(transitions@ =~= o0.push(x));
    assert(q.inst(l, a, Rule::Both(i0, j0), x));
    lemma_inst_ok(q, l, a, Rule::Both(i0, j0), x);
}
@hint loop 2 before
let ghost s2 = transitions@;
@loop 2
    invariant it2.seq().len() == gs.len(), forall|i: int| 0 <= i < gs.len() ==> *#[trigger] it2.seq()[i] == gs[i],
        q.sound(l, a, transitions@), forall|r: Rule| q.done(l, a, s2, r) ==> #[trigger] q.done(l, a, transitions@, r),
        forall|j: int| 0 <= j < it2.index@ ==> #[trigger] q.done(l, a, transitions@, Rule::OnlyS(j)),
@hint loop 2 start
let ghost o0 = transitions@; let ghost j0 = it2.index@ as int;
proof { assert(*s_transition == gs[j0]); }
@hint loop 2 end
proof {
    let x = transitions@.last();
    assert(transitions@ =~= o0.push(x));
    assert(q.inst(l, a, Rule::OnlyS(j0), x));
    lemma_inst_ok(q, l, a, Rule::OnlyS(j0), x);
}
@loop 3
    invariant it3.seq().len() == gs.len(), forall|i: int| 0 <= i < gs.len() ==> *#[trigger] it3.seq()[i] == gs[i],
        g_s.n() == n, forall|v: Val| vok(v, n) ==> (#[trigger] g_s.has(v) <==> some_can(gs, it3.index@ as int, *loc_s, v)),
@hint loop 3 start
let ghost g0 = g_s; let ghost j0 = it3.index@ as int;
proof { assert(*s_transition == gs[j0]); }
@hint loop 3 end
proof { assert forall|v: Val| vok(v, n) implies (#[trigger] g_s.has(v) <==> some_can(gs, j0 + 1, *loc_s, v)) by { lemma_some_can(gs, j0, *loc_s, v); assert(g_s.has(v) <==> g0.has(v) || can(gs[j0], *loc_s, v)); } }
@loop 4
    invariant it4.seq().len() == gs.len(), forall|i: int| 0 <= i < gs.len() ==> *#[trigger] it4.seq()[i] == gs[i],
        __vx_out1@.len() == it4.index@, forall|i: int| 0 <= i < it4.index@ ==> #[trigger] __vx_out1@[i] == gs[i].id
@loop 5
    invariant it5.seq().len() == gt.len(), forall|i: int| 0 <= i < gt.len() ==> *#[trigger] it5.seq()[i] == gt[i],
        g_t.n() == n, forall|v: Val| vok(v, n) ==> (#[trigger] g_t.has(v) <==> some_can(gt, it5.index@ as int, *loc_t, v)),
@hint loop 5 start
let ghost g0 = g_t; let ghost j0 = it5.index@ as int;
proof { assert(*t_transition == gt[j0]); }
@hint loop 5 end
proof { assert forall|v: Val| vok(v, n) implies (#[trigger] g_t.has(v) <==> some_can(gt, j0 + 1, *loc_t, v)) by { lemma_some_can(gt, j0, *loc_t, v); assert(g_t.has(v) <==> g0.has(v) || can(gt[j0], *loc_t, v)); } }
@hint before "self.S.get_output_actions().contains(action) && self.T.get_output_actions().contains(action)"
proof {
    let x = transitions@.last();
    assert(q.inst(l, a, Rule::Univ, x));
    lemma_inst_ok(q, l, a, Rule::Univ, x);
    assert(q.sound(l, a, transitions@));
}
@hint loop 6 before
let ghost s6 = transitions@;
@loop 6
    invariant it6.seq().len() == gs.len(), forall|i: int| 0 <= i < gs.len() ==> *#[trigger] it6.seq()[i] == gs[i],
        q.sound(l, a, transitions@), forall|r: Rule| q.done(l, a, s6, r) ==> #[trigger] q.done(l, a, transitions@, r),
        forall|j: int| 0 <= j < it6.index@ ==> #[trigger] q.done(l, a, transitions@, Rule::Inco(j)),
@hint loop 6 start
let ghost o0 = transitions@; let ghost j0 = it6.index@ as int;
proof { assert(*s_transition == gs[j0]); }
@hint loop 6 end
proof {
    let x = transitions@.last();
    assert(transitions@ =~= o0.push(x));
    assert(q.inst(l, a, Rule::Inco(j0), x));
    lemma_inst_ok(q, l, a, Rule::Inco(j0), x);
}
@loop 7
    invariant it7.seq().len() == gt.len(), forall|i: int| 0 <= i < gt.len() ==> *#[trigger] it7.seq()[i] == gt[i],
        __vx_out2@.len() == it7.index@, forall|i: int| 0 <= i < it7.index@ ==> #[trigger] __vx_out2@[i] == gt[i].id
@hint before "self.T.actions_contain(action) && !self.S.actions_contain(action)"
proof {
    if a == q.new_input_name {
        let x = transitions@.last();
        assert(q.inst(l, a, Rule::Fresh, x));
        lemma_inst_ok(q, l, a, Rule::Fresh, x);
    }
    assert(q.sound(l, a, transitions@));
}
@hint loop 8 before
let ghost s8 = transitions@;
@loop 8
    invariant it8.seq().len() == gt.len(), forall|i: int| 0 <= i < gt.len() ==> *#[trigger] it8.seq()[i] == gt[i],
        q.sound(l, a, transitions@), forall|r: Rule| q.done(l, a, s8, r) ==> #[trigger] q.done(l, a, transitions@, r),
        forall|j: int| 0 <= j < it8.index@ ==> #[trigger] q.done(l, a, transitions@, Rule::OnlyT(j)),
@hint loop 8 start
let ghost o0 = transitions@; let ghost j0 = it8.index@ as int;
proof { assert(*t_transition == gt[j0]); }
@hint loop 8 end
proof {
    let x = transitions@.last();
    assert(transitions@ =~= o0.push(x));
    assert(q.inst(l, a, Rule::OnlyT(j0), x));
    lemma_inst_ok(q, l, a, Rule::OnlyT(j0), x);
}
@hint loop 9 before
let ghost all = transitions@;
proof { assert forall|r: Rule| q.applies(l, a, r) implies #[trigger] q.done(l, a, all, r) by { match r { Rule::Both(i, j) => {} Rule::OnlyS(j) => {} Rule::OnlyT(j) => {} Rule::Inco(j) => {} Rule::Univ => {} Rule::Fresh => {} } } }
@loop 9
    invariant it9.seq() == all, q.sound(l, a, __vx_out3@), forall|x: int| 0 <= x < __vx_out3@.len() ==> !none((#[trigger] __vx_out3@[x]).guard_zone),
        forall|x: int| 0 <= x < it9.index@ ==> none((#[trigger] all[x]).guard_zone) || __vx_out3@.contains(all[x]),
@hint loop 9 start
let ghost o0 = __vx_out3@; let ghost k0 = it9.index@ as int;
@hint loop 9 end
proof {
    let o = __vx_out3@;
    assert(o == o0 || o =~= o0.push(all[k0]));
    assert(q.ruled(l, a, all[k0]));
    assert forall|x: int| 0 <= x <= k0 implies none((#[trigger] all[x]).guard_zone) || o.contains(all[x]) by { if x < k0 && o0.contains(all[x]) { let y = choose|y: int| 0 <= y < o0.len() && o0[y] == all[x]; assert(o[y] == all[x]); } else if x == k0 && o.len() > o0.len() { assert(o[o0.len() as int] == all[k0]); } }
}
@hint loop 9 after
proof {
    let o = __vx_out3@;
    assert forall|r: Rule, v: Val| q.applies(l, a, r) && vok(v, n) && #[trigger] q.enabled(l, a, r, v) implies q.done(l, a, o, r) by {
        assert(q.done(l, a, all, r));
        let x = choose|x: int| 0 <= x < all.len() && q.inst(l, a, r, #[trigger] all[x]);
        assert(all[x].guard_zone.has(v));
        let y = choose|y: int| 0 <= y < o.len() && o[y] == all[x]; assert(q.inst(l, a, r, o[y]));
    }
}
@fn R TransitionSystem::next_transitions_if_available -> r
    requires self.wf(), self.at(*location)
    ensures self.steps(r@), self.acts().contains(mk(action@)) ==> self.q_step(*location, mk(action@), r@), !self.acts().contains(mk(action@)) ==> r@.len() == 0
@selfas Quotient
@fn C Declarations::empty -> r
    ensures r.clocks@ == Map::<String, ClockIndex>::empty(), r.ints@ == Map::<String, i32>::empty()
@fn N Quotient::new_ts -> r
    requires T.n() == dim, S.n() == dim, 0 < new_clock_index < dim
    ensures
        r is Ok <==> S.outs().disjoint(T.ins()) && T.deterministic() && T.consistent() && S.deterministic() && S.consistent(),
        r is Ok ==> r->Ok_0.wf() && r->Ok_0.T == T && r->Ok_0.S == S && r->Ok_0.dim == dim && r->Ok_0.quotient_clock_index == new_clock_index,
@attr verifier::exec_allows_no_decreases_clause
@attr verifier::loop_isolation(false)
@mustsubst Result < TransitionSystemPtr , =>> Result < Box < Quotient > ,
@mustsubst i += 1 =>> i = vx_next(i)
@loops 1
@fn N Quotient@TransitionSystem::get_initial_location -> r
    requires self.wf()
    ensures
        r is Some <==> self.T.init() is Some && self.S.init() is Some,
        r is Some ==> self.at(r->0) && merged(self.T.init()->0, self.S.init()->0, r->0),
@fn N Quotient@TransitionSystem::get_initial_state -> r
    requires self.wf()
    ensures
        r is Some <==> self.T.init() is Some && self.S.init() is Some,
        r is Some ==> st_ok(r->0, self.dim as int) && self.at(r->0.decorated_locations) && merged(self.T.init()->0, self.S.init()->0, r->0.decorated_locations)
            && forall|v: Val| vok(v, self.dim as int) ==> (#[trigger] r->0.zone_sentinel->0.has(v) <==> all_same(v)),
@fn N Quotient@TransitionSystem::check_determinism -> r
    ensures r is Ok <==> self.T.deterministic() && self.S.deterministic()
@fn N Quotient@TransitionSystem::check_local_consistency -> r
    ensures r is Ok <==> self.T.consistent() && self.S.consistent()
@fn R TransitionSystem::precheck_sys_rep -> r
    ensures r is Ok <==> self.T.deterministic() && self.S.deterministic() && self.T.consistent() && self.S.consistent()
@selfas Quotient
@fn N Quotient@TransitionSystem::get_all_locations -> r
    requires self.wf()
    ensures self.all_locs(r@), forall|i: int| 0 <= i < r@.len() ==> self.at(#[trigger] r@[i])
@attr verifier::loop_isolation(false)
@loops 2
@hint start
let ghost q = *self;
@loop 0
    invariant it0.seq().len() == left@.len(), forall|i: int| 0 <= i < left@.len() ==> *#[trigger] it0.seq()[i] == left@[i],
        forall|i: int| 0 <= i < location_trees@.len() ==> q.at(#[trigger] location_trees@[i]) && q.is_loc(location_trees@[i]),
        forall|i: int, j: int| 0 <= i < it0.index@ && 0 <= j < right@.len() ==> #[trigger] has_pair(location_trees@, left@[i], right@[j]),
@loop 1
    invariant it1.seq().len() == right@.len(), forall|i: int| 0 <= i < right@.len() ==> *#[trigger] it1.seq()[i] == right@[i],
        forall|i: int| 0 <= i < location_trees@.len() ==> q.at(#[trigger] location_trees@[i]) && q.is_loc(location_trees@[i]),
        forall|i: int, j: int| 0 <= i < it0.index@ && 0 <= j < right@.len() ==> #[trigger] has_pair(location_trees@, left@[i], right@[j]),
        forall|j: int| 0 <= j < it1.index@ ==> #[trigger] has_pair(location_trees@, left@[it0.index@ as int], right@[j]),
@hint loop 1 start
let ghost o0 = location_trees@; let ghost i0 = it0.index@ as int; let ghost j0 = it1.index@ as int;
proof { assert(*loc_t == left@[i0]); assert(*loc_s == right@[j0]); }
@hint loop 1 end
proof {
    let o = location_trees@; let x = o.last();
    assert(o =~= o0.push(x));
    assert(merged(left@[i0], right@[j0], x));
    assert(q.pair_of(x, i0, j0)); assert(q.is_loc(x));
    assert(has_pair(o, left@[i0], right@[j0])) by { assert(o[o0.len() as int] == x); }
    assert forall|l: LocationTree, r: LocationTree| has_pair(o0, l, r) implies #[trigger] has_pair(o, l, r) by { let k = choose|k: int| 0 <= k < o0.len() && merged(l, r, #[trigger] o0[k]); assert(o[k] == o0[k]); }
}
@hint loop 0 after
let ghost o1 = location_trees@;
@hint end
proof {
    let o = location_trees@; let m = o1.len() as int;
    assert(o[m] == q.inconsistent_location && o[m + 1] == q.universal_location);
    assert forall|i: int, j: int| 0 <= i < left@.len() && 0 <= j < right@.len() implies #[trigger] has_pair(o, left@[i], right@[j]) by { assert(has_pair(o1, left@[i], right@[j])); let k = choose|k: int| 0 <= k < o1.len() && merged(left@[i], right@[j], #[trigger] o1[k]); assert(o[k] == o1[k]); }
}
@fn N Quotient@TransitionSystem::construct_location_tree -> r
    requires self.wf(), !(target is ComponentLocation)
    ensures
        r is Ok ==> self.at(r->Ok_0),
        target matches SpecificLocation::BranchLocation(a, b, _) ==> (r is Ok <==> self.T.spec_loc(*a) is Some && self.S.spec_loc(*b) is Some) && (r is Ok ==> merged(self.T.spec_loc(*a)->0, self.S.spec_loc(*b)->0, r->Ok_0)),
        target matches SpecificLocation::SpecialLocation(x) ==> r is Ok && r->Ok_0 == (if x is Universal { self.universal_location } else { self.inconsistent_location }),
@fn N Quotient@TransitionSystem::get_local_max_bounds -> r
    requires self.at(*loc)
    ensures r.up(self.quotient_clock_index as int) >= 0, !(loc.loc_type is Universal || loc.loc_type is Inconsistent) ==> r.ge(self.T.bounds(*loc.left->0)) && r.ge(self.S.bounds(*loc.right->0))
@end
