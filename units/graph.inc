pub assume_specification<T, const N: usize>[<VecDeque<T> as From<[T; N]>>::from](v: [T; N]) -> (r: VecDeque<T>) ensures r@ == v@;
/// EDBM: the zone as a disjunction of conjunctions of constraints on clock pairs
pub struct Constraint { pub i: ClockIndex, pub j: ClockIndex }
pub struct Conjunction { pub constraints: Vec<Constraint> }
pub struct Disjunction { pub conjunctions: Vec<Conjunction> }
/// membership in f only depends on the clocks in s
pub open spec fn det(f: OwnedFederation, s: Set<usize>) -> bool { forall|v: Val, w: Val| vok(v, f.n()) && vok(w, f.n()) && same_on(s, v, w) && #[trigger] f.has(v) ==> #[trigger] f.has(w) }
pub open spec fn same_on(s: Set<usize>, v: Val, w: Val) -> bool { forall|k: usize| s.contains(k) && k < v.len() ==> v[k as int] == #[trigger] w[k as int] }
/// the clocks a disjunction mentions
pub open spec fn mentions(d: Disjunction, k: usize) -> bool { exists|a: int, b: int| 0 <= a < d.conjunctions@.len() && 0 <= b < (#[trigger] d.conjunctions@[a]).constraints@.len() && ((#[trigger] d.conjunctions@[a].constraints@[b]).i == k || d.conjunctions@[a].constraints@[b].j == k) }
impl OwnedFederation { #[verifier::external_body] pub fn minimal_constraints(&self) -> (r: Disjunction) ensures forall|k: usize| #[trigger] mentions(r, k) ==> k < self.n(), forall|s: Set<usize>| (forall|k: usize| #[trigger] mentions(r, k) ==> s.contains(k)) ==> #[trigger] det(*self, s) { unimplemented!() } }
pub proof fn lemma_det_mono(f: OwnedFederation, s: Set<usize>, t: Set<usize>) requires det(f, s), forall|k: usize| s.contains(k) ==> #[trigger] t.contains(k) ensures det(f, t) {
    assert forall|v: Val, w: Val| vok(v, f.n()) && vok(w, f.n()) && same_on(t, v, w) && #[trigger] f.has(v) implies #[trigger] f.has(w) by { assert(same_on(s, v, w)); }
}
/// the name of a node of the analysis graph
pub uninterp spec fn key(id: LocationID) -> String;
/// the node name of a location of the system determines the location
pub open spec fn keys_identify(sys: TransitionSystemPtr) -> bool { forall|a: LocationTree, b: LocationTree| #[trigger] sys.at(a) && #[trigger] sys.at(b) && key(a.id) == key(b.id) ==> a == b }
/// the graph has a node for the location, with every clock its invariant depends on
pub open spec fn node_of(g: ClockAnalysisGraph, l: LocationTree) -> bool { g.nodes@.contains_key(key(l.id)) && (l.invariant is Some ==> det(l.invariant->0, g.nodes@[key(l.id)].invariant_dependencies@)) }
/// the graph has an edge for the transition, with its updates and every clock its guard depends on
pub open spec fn edge_of(g: ClockAnalysisGraph, t: Transition) -> bool { exists|i: int| 0 <= i < g.edges@.len() && (#[trigger] g.edges@[i]).updates@ == t.updates@ && det(t.guard_zone, g.edges@[i].guard_dependencies@) }
/// locations that can be reached along transitions, whatever the clocks are
pub open spec fn walk_to(sys: TransitionSystemPtr, k: nat, l: LocationTree) -> bool decreases k {
    if k == 0 { sys.init() == Some(l) } else { exists|p: LocationTree, a: String, j: int| walk_to(sys, (k - 1) as nat, p) && sys.acts().contains(a) && 0 <= j < sys.trans(p, a).len() && (#[trigger] sys.trans(p, a)[j]).target_locations == l }
}
/// the graph shows every location and transition of the system
pub open spec fn shows(g: ClockAnalysisGraph, sys: TransitionSystemPtr) -> bool {
    forall|k: nat, l: LocationTree| #[trigger] walk_to(sys, k, l) ==> sys.at(l) && node_of(g, l) && forall|a: String, j: int| sys.acts().contains(a) && 0 <= j < sys.trans(l, a).len() ==> edge_of(g, #[trigger] sys.trans(l, a)[j])
}
pub open spec fn queued(wl: Seq<LocationTree>, l: LocationTree) -> bool { exists|i: int| 0 <= i < wl.len() && #[trigger] wl[i] == l }
/// a transition of a finished location: its edge is in the graph and its target is a node or waits
pub open spec fn followed(g: ClockAnalysisGraph, wl: Seq<LocationTree>, t: Transition) -> bool { edge_of(g, t) && (g.nodes@.contains_key(key(t.target_locations.id)) || queued(wl, t.target_locations)) }
pub open spec fn finished(g: ClockAnalysisGraph, sys: TransitionSystemPtr, wl: Seq<LocationTree>, l: LocationTree) -> bool {
    sys.at(l) && node_of(g, l) && forall|a: String, j: int| sys.acts().contains(a) && 0 <= j < sys.trans(l, a).len() ==> followed(g, wl, #[trigger] sys.trans(l, a)[j])
}
pub open spec fn walks(g: ClockAnalysisGraph, sys: TransitionSystemPtr, done: Seq<LocationTree>, wl: Seq<LocationTree>, init: LocationTree) -> bool {
    &&& forall|i: int| 0 <= i < done.len() ==> finished(g, sys, wl, #[trigger] done[i])
    &&& forall|i: int| 0 <= i < wl.len() ==> sys.at(#[trigger] wl[i])
    &&& forall|x: String| #[trigger] g.nodes@.contains_key(x) ==> exists|i: int| 0 <= i < done.len() && key((#[trigger] done[i]).id) == x
    &&& done.contains(init) || queued(wl, init)
}
/// while the location l is looked at
pub open spec fn walks_at(g: ClockAnalysisGraph, sys: TransitionSystemPtr, done: Seq<LocationTree>, l: LocationTree, wl: Seq<LocationTree>, init: LocationTree) -> bool {
    &&& forall|i: int| 0 <= i < done.len() ==> finished(g, sys, wl, #[trigger] done[i])
    &&& forall|i: int| 0 <= i < wl.len() ==> sys.at(#[trigger] wl[i])
    &&& forall|x: String| #[trigger] g.nodes@.contains_key(x) ==> x == key(l.id) || exists|i: int| 0 <= i < done.len() && key((#[trigger] done[i]).id) == x
    &&& done.contains(init) || l == init || queued(wl, init)
    &&& sys.at(l) && node_of(g, l)
}
/// the transitions of l under one action, the first k of them, are followed
pub open spec fn followed_upto(g: ClockAnalysisGraph, wl: Seq<LocationTree>, ts: Seq<Transition>, k: int) -> bool { forall|j: int| 0 <= j < k ==> followed(g, wl, #[trigger] ts[j]) }
pub open spec fn followed_act(g: ClockAnalysisGraph, sys: TransitionSystemPtr, wl: Seq<LocationTree>, l: LocationTree, a: String) -> bool { followed_upto(g, wl, sys.trans(l, a), sys.trans(l, a).len() as int) }
pub proof fn lemma_visit(g0: ClockAnalysisGraph, g: ClockAnalysisGraph, sys: TransitionSystemPtr, done: Seq<LocationTree>, l: LocationTree, wl: Seq<LocationTree>, init: LocationTree)
    requires walks(g0, sys, done, seq![l] + wl, init), keys_identify(sys), g.edges@ == g0.edges@, g.nodes@.dom() == g0.nodes@.dom().insert(key(l.id)), forall|x: String| x != key(l.id) && #[trigger] g.nodes@.contains_key(x) ==> g.nodes@[x] == g0.nodes@[x], node_of(g, l)
    ensures walks_at(g, sys, done, l, wl, init)
{
    let w0 = seq![l] + wl;
    assert(w0[0] == l);
    assert forall|i: int| 0 <= i < wl.len() implies sys.at(#[trigger] wl[i]) by { assert(w0[i + 1] == wl[i]); }
    assert forall|x: LocationTree| #[trigger] queued(w0, x) && x != l implies queued(wl, x) by { let i = choose|i: int| 0 <= i < w0.len() && #[trigger] w0[i] == x; assert(wl[i - 1] == x); }
    assert forall|i: int| 0 <= i < done.len() implies finished(g, sys, wl, #[trigger] done[i]) by {
        let d = done[i]; assert(finished(g0, sys, w0, d));
        assert(g0.nodes@.dom().contains(key(d.id))); assert(g.nodes@.dom().contains(key(d.id)));
        if key(d.id) == key(l.id) { assert(d == l); } else { assert(g.nodes@.contains_key(key(d.id))); }
        assert forall|a: String, j: int| sys.acts().contains(a) && 0 <= j < sys.trans(d, a).len() implies followed(g, wl, #[trigger] sys.trans(d, a)[j]) by {
            let t = sys.trans(d, a)[j]; assert(followed(g0, w0, t));
            let i = choose|i: int| 0 <= i < g0.edges@.len() && (#[trigger] g0.edges@[i]).updates@ == t.updates@ && det(t.guard_zone, g0.edges@[i].guard_dependencies@);
            assert(g.edges@[i].updates@ == t.updates@);
            if g0.nodes@.contains_key(key(t.target_locations.id)) { assert(g.nodes@.dom().contains(key(t.target_locations.id))); }
            else if t.target_locations == l { assert(g.nodes@.dom().contains(key(l.id))); }
        }
    }
    assert forall|x: String| #[trigger] g.nodes@.contains_key(x) implies x == key(l.id) || exists|i: int| 0 <= i < done.len() && key((#[trigger] done[i]).id) == x by {
        if x != key(l.id) { assert(g0.nodes@.dom().contains(x)); assert(g0.nodes@.contains_key(x)); }
    }
    if queued(w0, init) && init != l { assert(queued(wl, init)); }
}
pub open spec fn grows(g: ClockAnalysisGraph, g2: ClockAnalysisGraph, wl: Seq<LocationTree>, wl2: Seq<LocationTree>) -> bool {
    g2.nodes@ == g.nodes@ && g.edges@.len() <= g2.edges@.len() && (forall|i: int| 0 <= i < g.edges@.len() ==> #[trigger] g2.edges@[i] == g.edges@[i]) && (forall|x: LocationTree| #[trigger] queued(wl, x) ==> queued(wl2, x))
}
pub proof fn lemma_grow_t(g: ClockAnalysisGraph, g2: ClockAnalysisGraph, wl: Seq<LocationTree>, wl2: Seq<LocationTree>, t: Transition)
    requires grows(g, g2, wl, wl2), followed(g, wl, t)
    ensures followed(g2, wl2, t)
{
    let i = choose|i: int| 0 <= i < g.edges@.len() && (#[trigger] g.edges@[i]).updates@ == t.updates@ && det(t.guard_zone, g.edges@[i].guard_dependencies@);
    assert(g2.edges@[i] == g.edges@[i]);
}
pub proof fn lemma_follow(g: ClockAnalysisGraph, g2: ClockAnalysisGraph, sys: TransitionSystemPtr, done: Seq<LocationTree>, l: LocationTree, wl: Seq<LocationTree>, wl2: Seq<LocationTree>, init: LocationTree, ts: Seq<Transition>, k: int)
    requires walks_at(g, sys, done, l, wl, init), grows(g, g2, wl, wl2), followed_upto(g, wl, ts, k), 0 <= k < ts.len(), followed(g2, wl2, ts[k]), forall|i: int| 0 <= i < wl2.len() ==> sys.at(#[trigger] wl2[i])
    ensures walks_at(g2, sys, done, l, wl2, init), followed_upto(g2, wl2, ts, k + 1), forall|a: String| followed_act(g, sys, wl, l, a) ==> #[trigger] followed_act(g2, sys, wl2, l, a)
{
    assert forall|i: int| 0 <= i < done.len() implies finished(g2, sys, wl2, #[trigger] done[i]) by {
        let d = done[i]; assert(finished(g, sys, wl, d));
        assert forall|a: String, j: int| sys.acts().contains(a) && 0 <= j < sys.trans(d, a).len() implies followed(g2, wl2, #[trigger] sys.trans(d, a)[j]) by { assert(followed(g, wl, sys.trans(d, a)[j])); lemma_grow_t(g, g2, wl, wl2, sys.trans(d, a)[j]); }
    }
    assert forall|j: int| 0 <= j < k + 1 implies followed(g2, wl2, #[trigger] ts[j]) by { if j < k { lemma_grow_t(g, g2, wl, wl2, ts[j]); } }
    assert forall|a: String| followed_act(g, sys, wl, l, a) implies #[trigger] followed_act(g2, sys, wl2, l, a) by {
        assert forall|j: int| 0 <= j < sys.trans(l, a).len() implies followed(g2, wl2, #[trigger] sys.trans(l, a)[j]) by { lemma_grow_t(g, g2, wl, wl2, sys.trans(l, a)[j]); }
    }
}
pub proof fn lemma_leave(g: ClockAnalysisGraph, sys: TransitionSystemPtr, done: Seq<LocationTree>, l: LocationTree, wl: Seq<LocationTree>, init: LocationTree)
    requires walks_at(g, sys, done, l, wl, init), forall|a: String| sys.acts().contains(a) ==> #[trigger] followed_act(g, sys, wl, l, a)
    ensures walks(g, sys, done.push(l), wl, init)
{
    let d2 = done.push(l);
    assert forall|i: int| 0 <= i < d2.len() implies finished(g, sys, wl, #[trigger] d2[i]) by {
        if i == done.len() { assert forall|a: String, j: int| sys.acts().contains(a) && 0 <= j < sys.trans(l, a).len() implies followed(g, wl, #[trigger] sys.trans(l, a)[j]) by { assert(followed_act(g, sys, wl, l, a)); } }
        else { assert(d2[i] == done[i]); }
    }
    assert forall|x: String| #[trigger] g.nodes@.contains_key(x) implies exists|i: int| 0 <= i < d2.len() && key((#[trigger] d2[i]).id) == x by {
        if x == key(l.id) { assert(d2[done.len() as int] == l); } else { let i = choose|i: int| 0 <= i < done.len() && key((#[trigger] done[i]).id) == x; assert(d2[i] == done[i]); }
    }
    if done.contains(init) { let i = choose|i: int| 0 <= i < done.len() && done[i] == init; assert(d2[i] == init); } else if l == init { assert(d2[done.len() as int] == init); }
}
pub proof fn lemma_walked(g: ClockAnalysisGraph, sys: TransitionSystemPtr, done: Seq<LocationTree>, init: LocationTree, k: nat, l: LocationTree)
    requires walks(g, sys, done, Seq::empty(), init), keys_identify(sys), sys.init() == Some(init), walk_to(sys, k, l), steps_in(sys)
    ensures done.contains(l)
    decreases k
{
    if k == 0 { }
    else {
        let (p, a, j) = choose|p: LocationTree, a: String, j: int| walk_to(sys, (k - 1) as nat, p) && sys.acts().contains(a) && 0 <= j < sys.trans(p, a).len() && (#[trigger] sys.trans(p, a)[j]).target_locations == l;
        lemma_walked(g, sys, done, init, (k - 1) as nat, p);
        assert(finished(g, sys, Seq::empty(), p)); assert(followed(g, Seq::empty(), sys.trans(p, a)[j])); assert(ts_step(sys, p, sys.trans(p, a)));
        assert(sys.at(sys.trans(p, a)[j].target_locations));
        let i = choose|i: int| 0 <= i < done.len() && key((#[trigger] done[i]).id) == key(l.id); assert(done[i] == l);
    }
}
pub proof fn lemma_shows(g: ClockAnalysisGraph, sys: TransitionSystemPtr, done: Seq<LocationTree>, init: LocationTree)
    requires walks(g, sys, done, Seq::empty(), init), keys_identify(sys), sys.init() == Some(init), steps_in(sys)
    ensures shows(g, sys)
{
    assert forall|k: nat, l: LocationTree| #[trigger] walk_to(sys, k, l) implies sys.at(l) && node_of(g, l) && forall|a: String, j: int| sys.acts().contains(a) && 0 <= j < sys.trans(l, a).len() ==> edge_of(g, #[trigger] sys.trans(l, a)[j]) by {
        lemma_walked(g, sys, done, init, k, l);
        assert(finished(g, sys, Seq::empty(), l));
        assert forall|a: String, j: int| sys.acts().contains(a) && 0 <= j < sys.trans(l, a).len() implies edge_of(g, #[trigger] sys.trans(l, a)[j]) by { assert(followed(g, Seq::empty(), sys.trans(l, a)[j])); }
    }
}
/// the clocks of the first n conjunctions are in s
pub open spec fn noted(d: Seq<Conjunction>, n: int, s: Set<usize>) -> bool { forall|a: int, b: int| 0 <= a < n && 0 <= b < d[a].constraints@.len() ==> s.contains((#[trigger] d[a].constraints@[b]).i) && s.contains(d[a].constraints@[b].j) }
pub open spec fn noted1(c: Seq<Constraint>, n: int, s: Set<usize>) -> bool { forall|b: int| 0 <= b < n ==> s.contains((#[trigger] c[b]).i) && s.contains(c[b].j) }
/// the transitions of a location of the system lead to locations of the system
pub open spec fn steps_in(sys: TransitionSystemPtr) -> bool { (forall|l: LocationTree| #[trigger] sys.at(l) ==> loc_ok(l, sys.n())) && forall|p: LocationTree, a: String| sys.at(p) && sys.acts().contains(a) ==> ts_step(sys, p, #[trigger] sys.trans(p, a)) }
pub proof fn lemma_no_start(sys: TransitionSystemPtr, k: nat, l: LocationTree) requires walk_to(sys, k, l) ensures sys.init() is Some decreases k {
    if k > 0 { let (p, a, j) = choose|p: LocationTree, a: String, j: int| walk_to(sys, (k - 1) as nat, p) && sys.acts().contains(a) && 0 <= j < sys.trans(p, a).len() && (#[trigger] sys.trans(p, a)[j]).target_locations == l; lemma_no_start(sys, (k - 1) as nat, p); }
}
/// the clock matters to some guard or invariant
pub open spec fn guard_upto(g: ClockAnalysisGraph, n: int, k: usize) -> bool { exists|i: int| 0 <= i < n && (#[trigger] g.edges@[i]).guard_dependencies@.contains(k) }
pub open spec fn used(g: ClockAnalysisGraph, k: usize) -> bool { k != 0 && (guard_upto(g, g.edges@.len() as int, k) || exists|x: String| #[trigger] g.nodes@.contains_key(x) && g.nodes@[x].invariant_dependencies@.contains(k)) }

#[verifier::external_body] pub fn vx_pairs<K: std::hash::Hash + Eq, V>(m: &HashMap<K, V>) -> (r: Vec<(&K, &V)>) ensures pairs_of(r@, m@) { unimplemented!() }
pub open spec fn pairs_of<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && *s[i].1 == m[*s[i].0]) && (forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k)
}
pub open spec fn inv_upto(s: Seq<(&String, &ClockAnalysisNode)>, n: int, k: usize) -> bool { exists|i: int| 0 <= i < n && (*(#[trigger] s[i]).1).invariant_dependencies@.contains(k) }

global size_of usize == 8;
#[verifier::external_body] pub fn vx_map_pairs<K: std::hash::Hash + Eq, V>(m: HashMap<K, V>) -> (r: Vec<(K, V)>) ensures entries_of(r@, m@) { unimplemented!() }
/// the entries of a map, each once
pub open spec fn entries_of<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && s[i].1 == m[s[i].0]) && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0)
}
/// what the last of the first n updates sets the clock to
pub open spec fn last_set(u: Seq<CompiledUpdate>, n: int, k: usize) -> Option<i32> decreases n { if n <= 0 { None } else if u[n - 1].clock_index == k { Some(u[n - 1].value) } else { last_set(u, n - 1, k) } }
pub open spec fn sets(e: ClockAnalysisEdge, k: usize) -> Option<i32> { last_set(e.updates@, e.updates@.len() as int, k) }
/// the first n edges set both clocks to the same value, or neither
pub open spec fn together(g: ClockAnalysisGraph, n: int, a: usize, b: usize) -> bool { forall|i: int| 0 <= i < n ==> sets(#[trigger] g.edges@[i], a) == sets(g.edges@[i], b) }
pub open spec fn groups_ok(gs: Seq<HashSet<usize>>, g: ClockAnalysisGraph, n: int, used: Set<usize>) -> bool {
    &&& forall|i: int, a: usize| 0 <= i < gs.len() && #[trigger] gs[i]@.contains(a) ==> used.contains(a)
    &&& forall|i: int, a: usize, b: usize| 0 <= i < gs.len() && #[trigger] gs[i]@.contains(a) && #[trigger] gs[i]@.contains(b) ==> together(g, n, a, b)
    &&& forall|i: int, j: int, a: usize| 0 <= i < gs.len() && 0 <= j < gs.len() && #[trigger] gs[i]@.contains(a) && #[trigger] gs[j]@.contains(a) ==> i == j
    &&& forall|i: int| 0 <= i < gs.len() ==> (#[trigger] gs[i])@.len() > 1
}

pub open spec fn local_ok(lm: Map<usize, u32>, u: Seq<CompiledUpdate>, n: int) -> bool { forall|k: usize| (#[trigger] lm.contains_key(k) <==> last_set(u, n, k) is Some) && (lm.contains_key(k) ==> lm[k] == last_set(u, n, k)->0 as u32) }
/// the part a clock of group i falls into
pub open spec fn gpart(lm: Map<usize, u32>, i: int, k: usize) -> int { if lm.contains_key(k) { 0xffff_ffff + 0x1_ffff_fffe * i + lm[k] } else { i } }
/// the parts hold clocks of the first n groups, each in its part
pub open spec fn split_upto(m: Map<usize, HashSet<usize>>, gs: Seq<HashSet<usize>>, lm: Map<usize, u32>, n: int) -> bool {
    forall|c: usize, k: usize| m.contains_key(c) && #[trigger] m[c]@.contains(k) ==> exists|i: int| 0 <= i < n && #[trigger] gs[i]@.contains(k) && gpart(lm, i, k) == c
}
pub open spec fn picked(out: Seq<HashSet<usize>>, s: Seq<(usize, HashSet<usize>)>, n: int) -> bool {
    exists|f: Seq<int>| #[trigger] picks(f, out, s, n)
}
pub open spec fn picks(f: Seq<int>, out: Seq<HashSet<usize>>, s: Seq<(usize, HashSet<usize>)>, n: int) -> bool {
    f.len() == out.len() && (forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i] < n && out[i] == s[f[i]].1 && out[i]@.len() > 1) && (forall|i: int, j: int| 0 <= i < j < f.len() ==> #[trigger] f[i] < #[trigger] f[j])
}
pub proof fn lemma_cast(a: i32, b: i32) requires (a as u32) == (b as u32) ensures a == b { assert((a as u32) == (b as u32) ==> a == b) by (bit_vector); }
pub proof fn lemma_groups_few(gs: Seq<HashSet<usize>>, g: ClockAnalysisGraph, n: int, used: Set<usize>)
    requires groups_ok(gs, g, n, used)
    ensures gs.len() <= used.len()
    decreases gs.len()
{
    if gs.len() > 0 {
        let last = gs.last(); assert(gs[gs.len() - 1] == last); assert(last@.len() > 1);
        let e = last@.choose(); assert(last@.contains(e)); assert(gs[gs.len() - 1]@.contains(e)); assert(used.contains(e));
        let r = gs.drop_last(); let u2 = used.remove(e);
        assert forall|i: int, a: usize| 0 <= i < r.len() && #[trigger] r[i]@.contains(a) implies u2.contains(a) by { assert(gs[i]@.contains(a)); if a == e { assert(gs[gs.len() - 1]@.contains(a)); } }
        assert forall|i: int, a: usize, b: usize| 0 <= i < r.len() && #[trigger] r[i]@.contains(a) && #[trigger] r[i]@.contains(b) implies together(g, n, a, b) by { assert(gs[i]@.contains(a)); assert(gs[i]@.contains(b)); }
        assert forall|i: int, j: int, a: usize| 0 <= i < r.len() && 0 <= j < r.len() && #[trigger] r[i]@.contains(a) && #[trigger] r[j]@.contains(a) implies i == j by { assert(gs[i]@.contains(a)); assert(gs[j]@.contains(a)); }
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i])@.len() > 1 by { assert(r[i] == gs[i]); }
        lemma_groups_few(r, g, n, u2);
    }
}
pub proof fn lemma_part(lm: Map<usize, u32>, i: int, a: usize, j: int, b: usize)
    requires gpart(lm, i, a) == gpart(lm, j, b), 0 <= i < 0x4000_0000, 0 <= j < 0x4000_0000
    ensures i == j, lm.contains_key(a) == lm.contains_key(b), lm.contains_key(a) ==> lm[a] == lm[b]
{
    if lm.contains_key(a) && lm.contains_key(b) {
        let x = lm[a] as int; let y = lm[b] as int;
        if i < j { assert(0x1_ffff_fffe * j >= 0x1_ffff_fffe * (i + 1)) by (nonlinear_arith) requires i + 1 <= j; }
        if j < i { assert(0x1_ffff_fffe * i >= 0x1_ffff_fffe * (j + 1)) by (nonlinear_arith) requires j + 1 <= i; }
    }
}
pub proof fn lemma_split_step(m1: Map<usize, HashSet<usize>>, m2: Map<usize, HashSet<usize>>, gs: Seq<HashSet<usize>>, lm: Map<usize, u32>, z: int, k: usize)
    requires split_upto(m1, gs, lm, z + 1), 0 <= z < gs.len(), gs[z]@.contains(k), exists|c: usize, s: HashSet<usize>| c == gpart(lm, z, k) && m2 == #[trigger] m1.insert(c, s) && s@ == (if m1.contains_key(c) { m1[c]@.insert(k) } else { Set::<usize>::empty().insert(k) })
    ensures split_upto(m2, gs, lm, z + 1)
{
    let (c0, s0) = choose|c: usize, s: HashSet<usize>| c == gpart(lm, z, k) && m2 == #[trigger] m1.insert(c, s) && s@ == (if m1.contains_key(c) { m1[c]@.insert(k) } else { Set::<usize>::empty().insert(k) });
    assert forall|c: usize, a: usize| m2.contains_key(c) && #[trigger] m2[c]@.contains(a) implies exists|i: int| 0 <= i < z + 1 && #[trigger] gs[i]@.contains(a) && gpart(lm, i, a) == c by {
        if c == c0 { if m1.contains_key(c) && m1[c]@.contains(a) { } else { assert(a == k); } } else { assert(m1.contains_key(c)); assert(m1[c]@.contains(a)); }
    }
}
pub proof fn lemma_regroup(gs: Seq<HashSet<usize>>, g2: Seq<HashSet<usize>>, g: ClockAnalysisGraph, x: int, used: Set<usize>, m: Map<usize, HashSet<usize>>, lm: Map<usize, u32>, s: Seq<(usize, HashSet<usize>)>)
    requires groups_ok(gs, g, x, used), used.len() < 0x4000_0000, 0 <= x < g.edges@.len(), local_ok(lm, g.edges@[x].updates@, g.edges@[x].updates@.len() as int), split_upto(m, gs, lm, gs.len() as int), entries_of(s, m), picked(g2, s, s.len() as int)
    ensures groups_ok(g2, g, x + 1, used)
{
    lemma_groups_few(gs, g, x, used);
    let f = choose|f: Seq<int>| #[trigger] picks(f, g2, s, s.len() as int);
    assert forall|i: int, a: usize| 0 <= i < g2.len() && #[trigger] g2[i]@.contains(a) implies exists|q: int| 0 <= q < gs.len() && #[trigger] gs[q]@.contains(a) && gpart(lm, q, a) == s[f[i]].0 by { let c = s[f[i]].0; assert(0 <= f[i] < s.len()); assert(m.contains_key(c)); assert(m[c]@.contains(a)); }
    assert forall|i: int, a: usize| 0 <= i < g2.len() && #[trigger] g2[i]@.contains(a) implies used.contains(a) by { }
    assert forall|i: int, a: usize, b: usize| 0 <= i < g2.len() && #[trigger] g2[i]@.contains(a) && #[trigger] g2[i]@.contains(b) implies together(g, x + 1, a, b) by {
        let q = choose|q: int| 0 <= q < gs.len() && #[trigger] gs[q]@.contains(a) && gpart(lm, q, a) == s[f[i]].0;
        let p = choose|q: int| 0 <= q < gs.len() && #[trigger] gs[q]@.contains(b) && gpart(lm, q, b) == s[f[i]].0;
        lemma_part(lm, q, a, p, b);
        assert(together(g, x, a, b));
        assert forall|j: int| 0 <= j < x + 1 implies sets(#[trigger] g.edges@[j], a) == sets(g.edges@[j], b) by { if j == x { assert(lm.contains_key(a) == lm.contains_key(b)); if lm.contains_key(a) { lemma_cast(sets(g.edges@[x], a)->0, sets(g.edges@[x], b)->0); } } }
    }
    assert forall|i: int| 0 <= i < g2.len() implies (#[trigger] g2[i])@.len() > 1 by { assert(0 <= f[i] < s.len()); }
    assert forall|i: int, j: int, a: usize| 0 <= i < g2.len() && 0 <= j < g2.len() && #[trigger] g2[i]@.contains(a) && #[trigger] g2[j]@.contains(a) implies i == j by {
        let q = choose|q: int| 0 <= q < gs.len() && #[trigger] gs[q]@.contains(a) && gpart(lm, q, a) == s[f[i]].0;
        let p = choose|q: int| 0 <= q < gs.len() && #[trigger] gs[q]@.contains(a) && gpart(lm, q, a) == s[f[j]].0;
        assert(q == p);
        if i < j { assert(f[i] < f[j]); assert(s[f[i]].0 != s[f[j]].0); }
        if j < i { assert(f[j] < f[i]); assert(s[f[j]].0 != s[f[i]].0); }
    }
}

/// the clocks an instruction takes away
pub open spec fn instr_gone(i: ClockReductionInstruction) -> Set<usize> { match i { ClockReductionInstruction::RemoveClock { clock_index } => Set::<usize>::empty().insert(clock_index), ClockReductionInstruction::ReplaceClocks { clock_index, clock_indices } => clock_indices@ } }
/// the clock an instruction is about: the removed one, or the one that stands for the others
pub open spec fn instr_lead(i: ClockReductionInstruction) -> usize { match i { ClockReductionInstruction::RemoveClock { clock_index } => clock_index, ClockReductionInstruction::ReplaceClocks { clock_index, clock_indices } => clock_index } }
pub open spec fn touches(i: ClockReductionInstruction, k: usize) -> bool { k == instr_lead(i) || instr_gone(i).contains(k) }
/// only clocks nothing depends on are removed; only clocks that are always set together become one
pub open spec fn instr_ok(i: ClockReductionInstruction, g: ClockAnalysisGraph) -> bool {
    match i {
        ClockReductionInstruction::RemoveClock { clock_index } => 0 < clock_index < g.dim && !used(g, clock_index),
        ClockReductionInstruction::ReplaceClocks { clock_index, clock_indices } => used(g, clock_index) && !clock_indices@.contains(clock_index) && clock_indices@.len() > 0 && forall|k: usize| #[trigger] clock_indices@.contains(k) ==> used(g, k) && together(g, g.edges@.len() as int, clock_index, k),
    }
}
pub open spec fn recipe_ok(r: Seq<ClockReductionInstruction>, g: ClockAnalysisGraph) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> instr_ok(#[trigger] r[i], g)
    &&& forall|i: int, j: int, k: usize| 0 <= i < r.len() && 0 <= j < r.len() && #[trigger] touches(r[i], k) && #[trigger] touches(r[j], k) ==> i == j
    &&& forall|k: usize| 0 < k < g.dim && !#[trigger] used(g, k) ==> exists|i: int| 0 <= i < r.len() && #[trigger] instr_gone(r[i]).contains(k)
}

pub proof fn lemma_bounded(s: Set<usize>, n: usize) requires forall|k: usize| #[trigger] s.contains(k) ==> k < n ensures s.len() <= n decreases n {
    if n == 0 { assert forall|k: usize| !#[trigger] s.contains(k) by { } assert(s =~= Set::<usize>::empty()); }
    else { let t = s.remove((n - 1) as usize); lemma_bounded(t, (n - 1) as usize); }
}
/// the removal instructions, one for each clock
pub open spec fn removals(r: Seq<ClockReductionInstruction>, q: Seq<&usize>, n: int) -> bool {
    r.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] r[i]) is RemoveClock && instr_lead(r[i]) == *q[i]
}
pub proof fn lemma_recipe(r: Seq<ClockReductionInstruction>, g: ClockAnalysisGraph, gs: Seq<HashSet<usize>>, rem: Seq<ClockReductionInstruction>, un: Set<usize>, q: Seq<&usize>)
    requires lists(q, un), q.no_duplicates(), removals(rem, q, q.len() as int), merged(r, rem, gs, gs.len() as int), forall|k: usize| #[trigger] un.contains(k) <==> 0 < k < g.dim && !used(g, k),
        exists|u: Set<usize>| (forall|k: usize| #[trigger] u.contains(k) <==> used(g, k)) && #[trigger] groups_ok(gs, g, g.edges@.len() as int, u)
    ensures recipe_ok(r, g)
{
    let n = rem.len(); let u = choose|u: Set<usize>| (forall|k: usize| #[trigger] u.contains(k) <==> used(g, k)) && #[trigger] groups_ok(gs, g, g.edges@.len() as int, u);
    assert forall|i: int| 0 <= i < r.len() implies instr_ok(#[trigger] r[i], g) && (i < n ==> forall|k: usize| #[trigger] touches(r[i], k) ==> k == *q[i] && un.contains(k)) && (i >= n ==> forall|k: usize| #[trigger] touches(r[i], k) ==> gs[i - n]@.contains(k) && u.contains(k)) by {
        if i < n { assert(r[i] == rem[i]); assert(un.contains(*q[i])); }
        else {
            let s = gs[i - n]@; assert(r[n + (i - n)] == r[i]); assert(merge_of(r[i], s)); assert(s.len() > 1);
            let l = instr_lead(r[i]); assert(s.contains(l));
            assert forall|k: usize| #[trigger] s.remove(l).contains(k) implies used(g, k) && together(g, g.edges@.len() as int, l, k) by { assert(gs[i - n]@.contains(k)); assert(gs[i - n]@.contains(l)); assert(u.contains(k)); }
            assert(u.contains(l));
        }
    }
    assert forall|i: int, j: int, k: usize| 0 <= i < r.len() && 0 <= j < r.len() && #[trigger] touches(r[i], k) && #[trigger] touches(r[j], k) implies i == j by {
        if i < n { assert(un.contains(k)); } else { assert(u.contains(k)); }
        if j < n { assert(un.contains(k)); } else { assert(u.contains(k)); }
        if i < n && j < n { assert(*q[i] == *q[j]); assert(q[i] == q[j]); }
    }
    assert forall|k: usize| 0 < k < g.dim && !#[trigger] used(g, k) implies exists|i: int| 0 <= i < r.len() && #[trigger] instr_gone(r[i]).contains(k) by {
        assert(un.contains(k)); let i = choose|i: int| 0 <= i < q.len() && *#[trigger] q[i] == k; assert(r[i] == rem[i]); assert(instr_gone(r[i]).contains(k));
    }
}
/// after the removals, one instruction for each of the first n groups
pub open spec fn merged(r: Seq<ClockReductionInstruction>, rem: Seq<ClockReductionInstruction>, gs: Seq<HashSet<usize>>, n: int) -> bool {
    r.len() == rem.len() + n && (forall|i: int| 0 <= i < rem.len() ==> #[trigger] r[i] == rem[i]) && forall|i: int| 0 <= i < n ==> merge_of(#[trigger] r[rem.len() + i], gs[i]@)
}
pub open spec fn merge_of(i: ClockReductionInstruction, s: Set<usize>) -> bool {
    i is ReplaceClocks && s.contains(instr_lead(i)) && instr_gone(i) == s.remove(instr_lead(i))
}

pub open spec fn least(r: Option<&usize>, s: Seq<&usize>, n: int) -> bool { match r { None => n == 0, Some(m) => n > 0 && (exists|i: int| 0 <= i < n && #[trigger] s[i] == m) } }

/// every clock a node or an edge depends on is a clock of the system
pub open spec fn tidy(g: ClockAnalysisGraph) -> bool {
    (forall|i: int, k: usize| 0 <= i < g.edges@.len() && #[trigger] g.edges@[i].guard_dependencies@.contains(k) ==> k < g.dim) && (forall|x: String, k: usize| #[trigger] g.nodes@.contains_key(x) && #[trigger] g.nodes@[x].invariant_dependencies@.contains(k) ==> k < g.dim)
}
pub open spec fn below(s: Set<usize>, n: int) -> bool { forall|k: usize| #[trigger] s.contains(k) ==> k < n }
/// the zone does not depend on the clock
pub open spec fn free_of(f: OwnedFederation, c: usize) -> bool { forall|v: Val, w: Val| vok(v, f.n()) && vok(w, f.n()) && (forall|k: int| 0 <= k < v.len() && k != c ==> v[k] == #[trigger] w[k]) && #[trigger] f.has(v) ==> #[trigger] f.has(w) }
/// no guard or invariant that can be reached depends on the clock
pub open spec fn idle(sys: TransitionSystemPtr, c: usize) -> bool {
    forall|k: nat, l: LocationTree| #[trigger] walk_to(sys, k, l) ==> (l.invariant is Some ==> free_of(l.invariant->0, c)) && forall|a: String, j: int| sys.acts().contains(a) && 0 <= j < sys.trans(l, a).len() ==> free_of((#[trigger] sys.trans(l, a)[j]).guard_zone, c)
}
/// every transition that can be reached sets both clocks to the same value, or neither
pub open spec fn twins(sys: TransitionSystemPtr, c: usize, d: usize) -> bool {
    forall|k: nat, l: LocationTree, a: String, j: int| #[trigger] walk_to(sys, k, l) && sys.acts().contains(a) && 0 <= j < sys.trans(l, a).len() ==> ({ let u = (#[trigger] sys.trans(l, a)[j]).updates@; last_set(u, u.len() as int, c) == last_set(u, u.len() as int, d) })
}
pub open spec fn sound(i: ClockReductionInstruction, sys: TransitionSystemPtr) -> bool {
    match i {
        ClockReductionInstruction::RemoveClock { clock_index } => 0 < clock_index < sys.n() && idle(sys, clock_index),
        ClockReductionInstruction::ReplaceClocks { clock_index, clock_indices } => 0 < clock_index && !clock_indices@.contains(clock_index) && forall|k: usize| #[trigger] clock_indices@.contains(k) ==> 0 < k < sys.n() && twins(sys, clock_index, k),
    }
}
pub proof fn lemma_free(f: OwnedFederation, s: Set<usize>, c: usize) requires det(f, s), !s.contains(c) ensures free_of(f, c) {
    assert forall|v: Val, w: Val| vok(v, f.n()) && vok(w, f.n()) && (forall|k: int| 0 <= k < v.len() && k != c ==> v[k] == #[trigger] w[k]) && #[trigger] f.has(v) implies #[trigger] f.has(w) by { assert(same_on(s, v, w)); }
}
pub proof fn lemma_sound(i: ClockReductionInstruction, g: ClockAnalysisGraph, sys: TransitionSystemPtr)
    requires instr_ok(i, g), shows(g, sys), tidy(g), g.dim == sys.n()
    ensures sound(i, sys)
{
    match i {
        ClockReductionInstruction::RemoveClock { clock_index } => {
            let c = clock_index;
            assert forall|k: nat, l: LocationTree| #[trigger] walk_to(sys, k, l) implies (l.invariant is Some ==> free_of(l.invariant->0, c)) && forall|a: String, j: int| sys.acts().contains(a) && 0 <= j < sys.trans(l, a).len() ==> free_of((#[trigger] sys.trans(l, a)[j]).guard_zone, c) by {
                assert(node_of(g, l));
                if l.invariant is Some { lemma_free(l.invariant->0, g.nodes@[key(l.id)].invariant_dependencies@, c); }
                assert forall|a: String, j: int| sys.acts().contains(a) && 0 <= j < sys.trans(l, a).len() implies free_of((#[trigger] sys.trans(l, a)[j]).guard_zone, c) by {
                    let t = sys.trans(l, a)[j]; assert(edge_of(g, t));
                    let x = choose|x: int| 0 <= x < g.edges@.len() && (#[trigger] g.edges@[x]).updates@ == t.updates@ && det(t.guard_zone, g.edges@[x].guard_dependencies@);
                    lemma_free(t.guard_zone, g.edges@[x].guard_dependencies@, c);
                }
            }
        }
        ClockReductionInstruction::ReplaceClocks { clock_index, clock_indices } => {
            assert forall|d: usize| #[trigger] clock_indices@.contains(d) implies 0 < d < sys.n() && twins(sys, clock_index, d) by {
                let c = clock_index; assert(used(g, d)); assert(together(g, g.edges@.len() as int, c, d));
                assert forall|k: nat, l: LocationTree, a: String, j: int| #[trigger] walk_to(sys, k, l) && sys.acts().contains(a) && 0 <= j < sys.trans(l, a).len() implies ({ let u = (#[trigger] sys.trans(l, a)[j]).updates@; last_set(u, u.len() as int, c) == last_set(u, u.len() as int, d) }) by {
                    let t = sys.trans(l, a)[j]; assert(edge_of(g, t));
                    let x = choose|x: int| 0 <= x < g.edges@.len() && (#[trigger] g.edges@[x]).updates@ == t.updates@ && det(t.guard_zone, g.edges@[x].guard_dependencies@);
                    assert(sets(g.edges@[x], c) == sets(g.edges@[x], d));
                }
            }
        }
    }
}
/// a run keeps such clocks equal: they start at zero, pass time together, and are set together
pub proof fn lemma_twins(us: Seq<CompiledUpdate>, n: int, v: Val, c: usize, d: usize)
    requires 0 <= n <= us.len(), c < v.len(), d < v.len(), forall|i: int| 0 <= i < us.len() ==> (#[trigger] us[i]).clock_index < v.len()
    ensures updk(us, n, v).len() == v.len(), updk(us, n, v)[c as int] == (if last_set(us, n, c) is Some { (last_set(us, n, c)->0 as int) as real } else { v[c as int] }), updk(us, n, v)[d as int] == (if last_set(us, n, d) is Some { (last_set(us, n, d)->0 as int) as real } else { v[d as int] }), v[c as int] == v[d as int] && last_set(us, n, c) == last_set(us, n, d) ==> updk(us, n, v)[c as int] == updk(us, n, v)[d as int]
    decreases n
{
    if n > 0 { lemma_twins(us, n - 1, v, c, d); }
}
