/// the clock variables of the components below, in their order
impl TransitionSystemPtr {
    pub uninterp spec fn decls(&self) -> Seq<Declarations>;
    #[verifier::external_body] pub fn get_decls(&self) -> (r: Vec<&Declarations>) ensures r@.len() == self.decls().len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == self.decls()[i] { unimplemented!() }
}
pub uninterp spec fn text(id: LocationID) -> String;
pub uninterp spec fn ttext(id: TransitionID) -> String;
impl LocationID { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r == text(*self) { unimplemented!() } }
impl TransitionID { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r == ttext(*self) { unimplemented!() } }
#[verifier::external_body] pub fn vx_map_clone<K: Clone, V: Clone>(m: &HashMap<K, V>) -> (r: HashMap<K, V>) ensures r@ == m@ { unimplemented!() }
/// the locations the code takes for one
pub open spec fn same(a: LocationTree, b: LocationTree) -> bool { a.id == b.id && a.loc_type == b.loc_type }
#[verifier::external_body] pub fn vx_contains(s: &Vec<LocationTree>, x: &LocationTree) -> (r: bool) ensures r <==> has_loc(s@, *x) { unimplemented!() }
pub open spec fn has_loc(s: Seq<LocationTree>, x: LocationTree) -> bool { exists|i: int| 0 <= i < s.len() && same(#[trigger] s[i], x) }

/// every clock of the declarations goes by some name
pub open spec fn all_in(m: Map<String, usize>, d: Map<String, usize>) -> bool { forall|k: String| #[trigger] d.contains_key(k) ==> named(m, d[k]) }
pub open spec fn first_in(m: Map<String, usize>, s: Seq<(&String, &usize)>, j: int) -> bool { forall|i: int| 0 <= i < j ==> named(m, *(#[trigger] s[i]).1) }
pub open spec fn decls_in(m: Map<String, usize>, ds: Seq<Declarations>, i: int) -> bool { forall|x: int| 0 <= x < i ==> all_in(m, (#[trigger] ds[x]).clocks@) }
pub open spec fn declared(ds: Seq<Declarations>, i: usize) -> bool { exists|x: int| 0 <= x < ds.len() && named((#[trigger] ds[x]).clocks@, i) }
/// the names mean clocks of the system only, and there is one for each
pub open spec fn clock_names(m: Map<String, usize>, ds: Seq<Declarations>) -> bool { decls_in(m, ds, ds.len() as int) && only(m, ds) }
pub open spec fn only(m: Map<String, usize>, ds: Seq<Declarations>) -> bool { forall|k: String| #[trigger] m.contains_key(k) ==> declared(ds, m[k]) }
pub open spec fn sys_ok(s: TransitionSystemPtr) -> bool { forall|i: usize| 0 < i < s.n() ==> #[trigger] declared(s.decls(), i) }
pub proof fn lemma_declares(m: Map<String, usize>, s: TransitionSystemPtr)
    requires clock_names(m, s.decls()), sys_ok(s)
    ensures declares(m, s.n())
{
    assert forall|i: usize| 0 < i < s.n() implies #[trigger] named(m, i) by {
        assert(declared(s.decls(), i)); let x = choose|x: int| 0 <= x < s.decls().len() && named((#[trigger] s.decls()[x]).clocks@, i);
        assert(all_in(m, s.decls()[x].clocks@)); let k = choose|k: String| #[trigger] s.decls()[x].clocks@.contains_key(k) && s.decls()[x].clocks@[k] == i;
    }
}
pub proof fn lemma_insert(m: Map<String, usize>, k: String, v: usize, ds: Seq<Declarations>, x: int, s: Seq<(&String, &usize)>, j: int)
    requires !m.contains_key(k), decls_in(m, ds, x), first_in(m, s, j), only(m, ds), 0 <= x < ds.len(), 0 <= j < s.len(), *s[j].1 == v, pairs_of(s, ds[x].clocks@)
    ensures ({ let m2 = m.insert(k, v); decls_in(m2, ds, x) && first_in(m2, s, j + 1) && only(m2, ds) })
{
    let m2 = m.insert(k, v);
    assert forall|i: usize| #[trigger] named(m, i) implies named(m2, i) by { let q = choose|q: String| #[trigger] m.contains_key(q) && m[q] == i; assert(m2.contains_key(q) && m2[q] == i); }
    assert(m2.contains_key(k) && m2[k] == v);
    assert forall|y: int| 0 <= y < x implies all_in(m2, (#[trigger] ds[y]).clocks@) by { assert(all_in(m, ds[y].clocks@)); }
    assert(declared(ds, v)) by { assert(ds[x].clocks@.contains_key(*s[j].0)); assert(named(ds[x].clocks@, v)); }
    assert forall|q: String| #[trigger] m2.contains_key(q) implies declared(ds, m2[q]) by { if q != k { assert(m.contains_key(q)); } }
}
pub proof fn lemma_one_decl(ds: Seq<Declarations>)
    requires ds.len() == 1
    ensures clock_names(ds[0].clocks@, ds)
{
    let m = ds[0].clocks@;
    assert forall|k: String| #[trigger] m.contains_key(k) implies declared(ds, m[k]) by { assert(named(m, m[k])); assert(named(ds[0].clocks@, m[k])); }
    assert(all_in(m, m));
}
pub proof fn lemma_decl_done(m: Map<String, usize>, ds: Seq<Declarations>, x: int, s: Seq<(&String, &usize)>, j: int)
    requires decls_in(m, ds, x), 0 <= x < ds.len(), pairs_of(s, ds[x].clocks@), first_in(m, s, j)
    ensures j == s.len() ==> decls_in(m, ds, x + 1)
{
    if j == s.len() {
    assert forall|k: String| #[trigger] ds[x].clocks@.contains_key(k) implies named(m, ds[x].clocks@[k]) by { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k; assert(*s[i].1 == ds[x].clocks@[k]); }
    }
}
/// g, read with the names m, holds of exactly the valuations of f
#[verifier::opaque] pub open spec fn means(g: Option<BoolExpression>, f: OwnedFederation, m: Map<String, usize>) -> bool {
    forall|d: Declarations| #![trigger opt_ok(g, d, f.n())] d.clocks@ == m && declares(m, f.n()) ==> opt_ok(g, d, f.n()) && forall|v: Val| vok(v, f.n()) ==> (#[trigger] opt_sat(g, d, v) <==> f.has(v))
}
pub proof fn lemma_means(g: Option<BoolExpression>, c: Disjunction, f: OwnedFederation, m: Map<String, usize>)
    requires written(g, c, m), dj_ok(c, f.n()), forall|v: Val| vok(v, f.n()) ==> (#[trigger] f.has(v) <==> dj(c, v))
    ensures means(g, f, m)
{
    reveal(written); reveal(means);
    assert forall|d: Declarations| #![trigger opt_ok(g, d, f.n())] d.clocks@ == m && declares(m, f.n()) implies opt_ok(g, d, f.n()) && forall|v: Val| vok(v, f.n()) ==> (#[trigger] opt_sat(g, d, v) <==> f.has(v)) by { assert(declares(d.clocks@, f.n()) && dj_ok(c, f.n())); }
}
/// nothing satisfies it
pub open spec fn void(f: OwnedFederation) -> bool { forall|v: Val| vok(v, f.n()) ==> !#[trigger] f.has(v) }
pub proof fn lemma_false(f: OwnedFederation, m: Map<String, usize>, d: Declarations)
    requires means(Some(BoolExpression::Bool(false)), f, m), declares(m, f.n()), d.clocks@ == m
    ensures void(f)
{
    reveal(means); let g = Some(BoolExpression::Bool(false));
    assert(opt_ok(g, d, f.n()));
    assert forall|v: Val| vok(v, f.n()) implies !#[trigger] f.has(v) by { assert(opt_sat(g, d, v) <==> f.has(v)); reveal_with_fuel(sat, 2); }
}
pub open spec fn upd_named(u: Update, c: CompiledUpdate, m: Map<String, usize>) -> bool { m.contains_key(u.variable) && m[u.variable] == c.clock_index && u.expression == AE::Int(c.value) }
pub open spec fn upds_named(us: Seq<Update>, cs: Seq<CompiledUpdate>, k: int, m: Map<String, usize>) -> bool { us.len() == k && forall|i: int| 0 <= i < k ==> upd_named(#[trigger] us[i], cs[i], m) }
/// the edge stands for the transition t on a from l
#[verifier::opaque] pub open spec fn edge_of(m: Map<String, usize>, l: LocationTree, inp: bool, a: String, t: Transition, e: Edge) -> bool {
    e.id == ttext(t.id) && e.source_location == text(l.id) && e.target_location == text(t.target_locations.id) && e.sync == a && (e.sync_type is Input <==> inp) && means(e.guard, t.guard_zone, m)
    && (match e.update { None => t.updates@.len() == 0, Some(us) => upds_named(us@, t.updates@, t.updates@.len() as int, m) })
}
pub open spec fn dir(s: TransitionSystemPtr, inp: bool) -> Set<String> { if inp { s.ins() } else { s.outs() } }
/// there is an edge for the transition, unless it can never be taken
pub open spec fn has_edge(m: Map<String, usize>, l: LocationTree, inp: bool, a: String, t: Transition, es: Seq<Edge>) -> bool { void(t.guard_zone) || exists|j: int| 0 <= j < es.len() && edge_of(m, l, inp, a, t, #[trigger] es[j]) }
#[verifier::opaque] pub open spec fn act_done(s: TransitionSystemPtr, m: Map<String, usize>, l: LocationTree, inp: bool, a: String, k: int, es: Seq<Edge>) -> bool { forall|x: int| 0 <= x < k ==> has_edge(m, l, inp, a, #[trigger] s.trans(l, a)[x], es) }
pub open spec fn all_acts(s: TransitionSystemPtr, m: Map<String, usize>, l: LocationTree, inp: bool, a: String, es: Seq<Edge>) -> bool { act_done(s, m, l, inp, a, s.trans(l, a).len() as int, es) }
#[verifier::opaque] pub open spec fn acts_done(s: TransitionSystemPtr, m: Map<String, usize>, l: LocationTree, inp: bool, q: Seq<String>, k: int, es: Seq<Edge>) -> bool { forall|i: int| 0 <= i < k ==> all_acts(s, m, l, inp, #[trigger] q[i], es) }
pub open spec fn dir_done(s: TransitionSystemPtr, m: Map<String, usize>, l: LocationTree, inp: bool, es: Seq<Edge>) -> bool { forall|a: String| #[trigger] dir(s, inp).contains(a) ==> all_acts(s, m, l, inp, a, es) }
#[verifier::opaque] pub open spec fn loc_done(s: TransitionSystemPtr, m: Map<String, usize>, l: LocationTree, es: Seq<Edge>) -> bool { dir_done(s, m, l, true, es) && dir_done(s, m, l, false, es) }
#[verifier::opaque] pub open spec fn locs_done(s: TransitionSystemPtr, m: Map<String, usize>, ls: Seq<LocationTree>, k: int, es: Seq<Edge>) -> bool { forall|i: int| 0 <= i < k ==> loc_done(s, m, #[trigger] ls[i], es) }
/// the edge stands for some transition from l
pub open spec fn stems(s: TransitionSystemPtr, m: Map<String, usize>, l: LocationTree, inp: bool, e: Edge) -> bool { exists|a: String, x: int| #![trigger s.trans(l, a)[x]] dir(s, inp).contains(a) && 0 <= x < s.trans(l, a).len() && edge_of(m, l, inp, a, s.trans(l, a)[x], e) }
pub open spec fn stems_any(s: TransitionSystemPtr, m: Map<String, usize>, ls: Seq<LocationTree>, k: int, e: Edge) -> bool { exists|i: int, inp: bool| #![trigger stems(s, m, ls[i], inp, e)] 0 <= i < k && stems(s, m, ls[i], inp, e) }
/// es2 adds edges to es1, each of which stands for some transition
#[verifier::opaque] pub open spec fn adds(s: TransitionSystemPtr, m: Map<String, usize>, ls: Seq<LocationTree>, k: int, es1: Seq<Edge>, es2: Seq<Edge>) -> bool {
    es1.len() <= es2.len() && es2.take(es1.len() as int) == es1 && forall|j: int| es1.len() <= j < es2.len() ==> stems_any(s, m, ls, k, #[trigger] es2[j])
}
pub proof fn lemma_adds0(s: TransitionSystemPtr, m: Map<String, usize>, ls: Seq<LocationTree>, es: Seq<Edge>) ensures adds(s, m, ls, 0, es, es) { reveal(adds); assert(es.take(es.len() as int) =~= es); }
#[verifier::external_body] pub fn vx_entries<K: std::hash::Hash + Eq, V>(m: HashMap<K, V>) -> (r: Vec<(K, V)>) ensures entries_of(r@, m@) { unimplemented!() }
pub open spec fn entries_of<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && s[i].1 == m[s[i].0]) && (forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k)
}
pub open spec fn inverted_v(o: Map<usize, String>, s: Seq<(String, usize)>, n: int) -> bool {
    (forall|i: int| 0 <= i < n ==> o.contains_key((#[trigger] s[i]).1)) && (forall|k: usize| #[trigger] o.contains_key(k) ==> exists|i: int| 0 <= i < n && (#[trigger] s[i]).1 == k && s[i].0 == o[k])
}
pub open spec fn inv_all_v(o: Map<usize, String>, m: Map<String, usize>) -> bool { exists|s: Seq<(String, usize)>| entries_of(s, m) && #[trigger] inverted_v(o, s, s.len() as int) }
pub proof fn lemma_entries(o: Map<usize, String>, m: Map<String, usize>, i: usize)
    requires inv_all_v(o, m), named(m, i)
    ensures o.contains_key(i), m.contains_key(o[i]), m[o[i]] == i
{
    let s = choose|s: Seq<(String, usize)>| entries_of(s, m) && #[trigger] inverted_v(o, s, s.len() as int);
    let k = choose|k: String| #[trigger] m.contains_key(k) && m[k] == i;
    let x = choose|x: int| 0 <= x < s.len() && (#[trigger] s[x]).0 == k; assert(s[x].1 == i);
    let y = choose|y: int| 0 <= y < s.len() && (#[trigger] s[y]).1 == i && s[y].0 == o[i];
}
pub open spec fn loc_saved(m: Map<String, usize>, l: LocationTree, o: Location) -> bool {
    o.id == text(l.id) && (o.location_type is Initial <==> l.loc_type is Initial) && (o.location_type is Initial || o.location_type is Normal)
    && (match l.invariant { None => o.invariant is None, Some(f) => means(o.invariant, f, m) })
}
#[verifier::opaque] pub open spec fn locs_saved(m: Map<String, usize>, ls: Seq<LocationTree>, k: int, os: Seq<Location>) -> bool { os.len() == k && forall|i: int| 0 <= i < k ==> loc_saved(m, ls[i], #[trigger] os[i]) }
pub proof fn lemma_locs_saved0(m: Map<String, usize>, ls: Seq<LocationTree>, os: Seq<Location>) requires os.len() == 0 ensures locs_saved(m, ls, 0, os) { reveal(locs_saved); }
pub proof fn lemma_locs_saved(m: Map<String, usize>, ls: Seq<LocationTree>, k: int, os: Seq<Location>, o: Location) requires locs_saved(m, ls, k, os), loc_saved(m, ls[k], o) ensures locs_saved(m, ls, k + 1, os.push(o)) { reveal(locs_saved); }

pub open spec fn grows<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
pub proof fn lemma_grows_at<T>(a: Seq<T>, b: Seq<T>, i: int) requires grows(a, b), 0 <= i < a.len() ensures a[i] == b[i] { assert(b.take(a.len() as int)[i] == b[i]); }
pub proof fn lemma_adds_grows(s: TransitionSystemPtr, m: Map<String, usize>, ls: Seq<LocationTree>, k: int, a: Seq<Edge>, b: Seq<Edge>) requires adds(s, m, ls, k, a, b) ensures grows(a, b) { reveal(adds); }
pub proof fn lemma_adds_trans(s: TransitionSystemPtr, m: Map<String, usize>, ls: Seq<LocationTree>, k: int, a: Seq<Edge>, b: Seq<Edge>, c: Seq<Edge>)
    requires adds(s, m, ls, k, a, b), adds(s, m, ls, k, b, c)
    ensures adds(s, m, ls, k, a, c)
{
    reveal(adds);
    assert(c.take(a.len() as int) =~= a) by { assert forall|i: int| 0 <= i < a.len() implies #[trigger] c.take(a.len() as int)[i] == a[i] by { lemma_grows_at(b, c, i); lemma_grows_at(a, b, i); } }
    assert forall|j: int| a.len() <= j < c.len() implies stems_any(s, m, ls, k, #[trigger] c[j]) by { if j < b.len() { lemma_grows_at(b, c, j); assert(stems_any(s, m, ls, k, b[j])); } }
}
/// from one location to the list it is in
pub proof fn lemma_adds_lift(s: TransitionSystemPtr, m: Map<String, usize>, ls: Seq<LocationTree>, k: int, a: Seq<Edge>, b: Seq<Edge>)
    requires 0 <= k < ls.len(), adds(s, m, seq![ls[k]], 1, a, b)
    ensures adds(s, m, ls, k + 1, a, b)
{
    reveal(adds);
    assert forall|j: int| a.len() <= j < b.len() implies stems_any(s, m, ls, k + 1, #[trigger] b[j]) by {
        assert(stems_any(s, m, seq![ls[k]], 1, b[j]));
        let (i, inp) = choose|i: int, inp: bool| #![trigger stems(s, m, seq![ls[k]][i], inp, b[j])] 0 <= i < 1 && stems(s, m, seq![ls[k]][i], inp, b[j]);
        assert(stems(s, m, ls[k], inp, b[j]));
    }
}
pub proof fn lemma_adds_wider(s: TransitionSystemPtr, m: Map<String, usize>, ls: Seq<LocationTree>, k: int, k2: int, a: Seq<Edge>, b: Seq<Edge>)
    requires 0 <= k <= k2 <= ls.len(), adds(s, m, ls, k, a, b)
    ensures adds(s, m, ls, k2, a, b)
{
    reveal(adds);
    assert forall|j: int| a.len() <= j < b.len() implies stems_any(s, m, ls, k2, #[trigger] b[j]) by {
        assert(stems_any(s, m, ls, k, b[j]));
        let (i, inp) = choose|i: int, inp: bool| #![trigger stems(s, m, ls[i], inp, b[j])] 0 <= i < k && stems(s, m, ls[i], inp, b[j]);
    }
}
/// an edge is added for the transition x of a
pub proof fn lemma_add_edge(s: TransitionSystemPtr, m: Map<String, usize>, l: LocationTree, inp: bool, a: String, x: int, es: Seq<Edge>, e: Edge)
    requires dir(s, inp).contains(a), 0 <= x < s.trans(l, a).len(), edge_of(m, l, inp, a, s.trans(l, a)[x], e), act_done(s, m, l, inp, a, x, es)
    ensures adds(s, m, seq![l], 1, es, es.push(e)), act_done(s, m, l, inp, a, x + 1, es.push(e))
{
    let es2 = es.push(e);
    reveal(adds); assert(es2.take(es.len() as int) =~= es);
    assert(stems(s, m, l, inp, e)); assert(seq![l][0] == l); assert(stems(s, m, seq![l][0], inp, e));
    assert forall|j: int| es.len() <= j < es2.len() implies stems_any(s, m, seq![l], 1, #[trigger] es2[j]) by { assert(es2[j] == e); }
    lemma_act_mono(s, m, l, inp, a, x, es, es2);
    reveal(act_done); assert(es2[es.len() as int] == e); assert(has_edge(m, l, inp, a, s.trans(l, a)[x], es2));
}
pub proof fn lemma_skip_edge(s: TransitionSystemPtr, m: Map<String, usize>, l: LocationTree, inp: bool, a: String, x: int, es: Seq<Edge>)
    requires void(s.trans(l, a)[x].guard_zone), act_done(s, m, l, inp, a, x, es)
    ensures act_done(s, m, l, inp, a, x + 1, es)
{ reveal(act_done); }
pub proof fn lemma_act_mono(s: TransitionSystemPtr, m: Map<String, usize>, l: LocationTree, inp: bool, a: String, k: int, es: Seq<Edge>, es2: Seq<Edge>)
    requires act_done(s, m, l, inp, a, k, es), grows(es, es2)
    ensures act_done(s, m, l, inp, a, k, es2)
{
    reveal(act_done);
    assert forall|x: int| 0 <= x < k implies has_edge(m, l, inp, a, #[trigger] s.trans(l, a)[x], es2) by {
        let t = s.trans(l, a)[x]; assert(has_edge(m, l, inp, a, t, es));
        if !void(t.guard_zone) { let j = choose|j: int| 0 <= j < es.len() && edge_of(m, l, inp, a, t, #[trigger] es[j]); lemma_grows_at(es, es2, j); assert(edge_of(m, l, inp, a, t, es2[j])); }
    }
}
pub proof fn lemma_act0(s: TransitionSystemPtr, m: Map<String, usize>, l: LocationTree, inp: bool, a: String, es: Seq<Edge>) ensures act_done(s, m, l, inp, a, 0, es) { reveal(act_done); }
pub proof fn lemma_acts0(s: TransitionSystemPtr, m: Map<String, usize>, l: LocationTree, inp: bool, es: Seq<Edge>) ensures forall|q: Seq<String>| #[trigger] acts_done(s, m, l, inp, q, 0, es) { reveal(acts_done); }
/// all transitions of one more action
pub proof fn lemma_acts(s: TransitionSystemPtr, m: Map<String, usize>, l: LocationTree, inp: bool, q: Seq<String>, k: int, es: Seq<Edge>, es2: Seq<Edge>)
    requires acts_done(s, m, l, inp, q, k, es), 0 <= k < q.len(), grows(es, es2), all_acts(s, m, l, inp, q[k], es2), lists_v(q, dir(s, inp))
    ensures acts_done(s, m, l, inp, q, k + 1, es2), k + 1 == q.len() ==> dir_done(s, m, l, inp, es2)
{
    reveal(acts_done);
    assert forall|i: int| 0 <= i < k + 1 implies all_acts(s, m, l, inp, #[trigger] q[i], es2) by { if i < k { assert(all_acts(s, m, l, inp, q[i], es)); lemma_act_mono(s, m, l, inp, q[i], s.trans(l, q[i]).len() as int, es, es2); } }
    if k + 1 == q.len() { assert forall|a: String| #[trigger] dir(s, inp).contains(a) implies all_acts(s, m, l, inp, a, es2) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == a; assert(all_acts(s, m, l, inp, q[i], es2)); } }
}
pub proof fn lemma_dir_empty(s: TransitionSystemPtr, m: Map<String, usize>, l: LocationTree, inp: bool, q: Seq<String>, es: Seq<Edge>) requires lists_v(q, dir(s, inp)), q.len() == 0 ensures dir_done(s, m, l, inp, es) {
    assert forall|a: String| #[trigger] dir(s, inp).contains(a) implies all_acts(s, m, l, inp, a, es) by { assert(false); }
}
pub proof fn lemma_dir_mono(s: TransitionSystemPtr, m: Map<String, usize>, l: LocationTree, inp: bool, es: Seq<Edge>, es2: Seq<Edge>) requires dir_done(s, m, l, inp, es), grows(es, es2) ensures dir_done(s, m, l, inp, es2) {
    assert forall|a: String| #[trigger] dir(s, inp).contains(a) implies all_acts(s, m, l, inp, a, es2) by { assert(all_acts(s, m, l, inp, a, es)); lemma_act_mono(s, m, l, inp, a, s.trans(l, a).len() as int, es, es2); }
}
pub proof fn lemma_loc_done(s: TransitionSystemPtr, m: Map<String, usize>, l: LocationTree, x: bool, es0: Seq<Edge>, es1: Seq<Edge>, es2: Seq<Edge>)
    requires dir_done(s, m, l, x, es1), dir_done(s, m, l, !x, es2), adds(s, m, seq![l], 1, es0, es1), adds(s, m, seq![l], 1, es1, es2)
    ensures loc_done(s, m, l, es2), adds(s, m, seq![l], 1, es0, es2)
{ reveal(loc_done); lemma_adds_grows(s, m, seq![l], 1, es1, es2); lemma_dir_mono(s, m, l, x, es1, es2); lemma_adds_trans(s, m, seq![l], 1, es0, es1, es2); }
pub proof fn lemma_locs0(s: TransitionSystemPtr, m: Map<String, usize>, ls: Seq<LocationTree>, es: Seq<Edge>) ensures locs_done(s, m, ls, 0, es), adds(s, m, ls, 0, es, es) { reveal(locs_done); lemma_adds0(s, m, ls, es); }
pub proof fn lemma_locs(s: TransitionSystemPtr, m: Map<String, usize>, ls: Seq<LocationTree>, k: int, es0: Seq<Edge>, es: Seq<Edge>, es2: Seq<Edge>)
    requires 0 <= k < ls.len(), locs_done(s, m, ls, k, es), adds(s, m, ls, k, es0, es), loc_done(s, m, ls[k], es2), adds(s, m, seq![ls[k]], 1, es, es2)
    ensures locs_done(s, m, ls, k + 1, es2), adds(s, m, ls, k + 1, es0, es2)
{
    reveal(locs_done); lemma_adds_grows(s, m, seq![ls[k]], 1, es, es2);
    assert forall|i: int| 0 <= i < k + 1 implies loc_done(s, m, #[trigger] ls[i], es2) by { if i < k { assert(loc_done(s, m, ls[i], es)); reveal(loc_done); lemma_dir_mono(s, m, ls[i], true, es, es2); lemma_dir_mono(s, m, ls[i], false, es, es2); } }
    lemma_adds_lift(s, m, ls, k, es, es2); lemma_adds_wider(s, m, ls, k, k + 1, es0, es); lemma_adds_trans(s, m, ls, k + 1, es0, es, es2);
}

/// which locations are collected
pub open spec fn all_at(s: TransitionSystemPtr, ls: Seq<LocationTree>) -> bool { forall|i: int| 0 <= i < ls.len() ==> s.at(#[trigger] ls[i]) && loc_ok(ls[i], s.n()) }
pub open spec fn trs_in(s: TransitionSystemPtr, l: LocationTree, a: String, k: int, ls: Seq<LocationTree>) -> bool { forall|x: int| 0 <= x < k ==> has_loc(ls, (#[trigger] s.trans(l, a)[x]).target_locations) }
#[verifier::opaque] pub open spec fn acts_in(s: TransitionSystemPtr, l: LocationTree, q: Seq<String>, k: int, ls: Seq<LocationTree>) -> bool { forall|i: int| 0 <= i < k ==> trs_in(s, l, #[trigger] q[i], s.trans(l, q[i]).len() as int, ls) }
#[verifier::opaque] pub open spec fn dir_in(s: TransitionSystemPtr, l: LocationTree, inp: bool, ls: Seq<LocationTree>) -> bool { forall|a: String| #[trigger] dir(s, inp).contains(a) ==> trs_in(s, l, a, s.trans(l, a).len() as int, ls) }
/// all targets of l are listed
pub open spec fn closed_one(s: TransitionSystemPtr, l: LocationTree, ls: Seq<LocationTree>) -> bool { dir_in(s, l, true, ls) && dir_in(s, l, false, ls) }
pub open spec fn leads(s: TransitionSystemPtr, l: LocationTree, t: LocationTree) -> bool { exists|a: String, x: int| #![trigger s.trans(l, a)[x]] s.acts().contains(a) && 0 <= x < s.trans(l, a).len() && s.trans(l, a)[x].target_locations == t }
pub open spec fn led(s: TransitionSystemPtr, l: LocationTree, k: int, ls: Seq<LocationTree>, i: int) -> bool { leads(s, l, ls[i]) || exists|j: int| k <= j < i && leads(s, #[trigger] ls[j], ls[i]) }
/// ls adds to ls0 locations that l leads to, together with all those lead to
#[verifier::opaque] pub open spec fn explored(s: TransitionSystemPtr, l: LocationTree, ls0: Seq<LocationTree>, ls: Seq<LocationTree>) -> bool {
    grows(ls0, ls) && all_at(s, ls) && forall|i: int| ls0.len() <= i < ls.len() ==> closed_one(s, #[trigger] ls[i], ls) && led(s, l, ls0.len() as int, ls, i)
}
pub proof fn lemma_has_mono(ls: Seq<LocationTree>, ls2: Seq<LocationTree>, x: LocationTree) requires grows(ls, ls2), has_loc(ls, x) ensures has_loc(ls2, x) { let i = choose|i: int| 0 <= i < ls.len() && same(#[trigger] ls[i], x); lemma_grows_at(ls, ls2, i); assert(same(ls2[i], x)); }
pub proof fn lemma_trs_mono(s: TransitionSystemPtr, l: LocationTree, a: String, k: int, ls: Seq<LocationTree>, ls2: Seq<LocationTree>) requires grows(ls, ls2), trs_in(s, l, a, k, ls) ensures trs_in(s, l, a, k, ls2) {
    assert forall|x: int| 0 <= x < k implies has_loc(ls2, (#[trigger] s.trans(l, a)[x]).target_locations) by { lemma_has_mono(ls, ls2, s.trans(l, a)[x].target_locations); }
}
pub proof fn lemma_dir_in_mono(s: TransitionSystemPtr, l: LocationTree, inp: bool, ls: Seq<LocationTree>, ls2: Seq<LocationTree>) requires grows(ls, ls2), dir_in(s, l, inp, ls) ensures dir_in(s, l, inp, ls2) {
    reveal(dir_in); assert forall|a: String| #[trigger] dir(s, inp).contains(a) implies trs_in(s, l, a, s.trans(l, a).len() as int, ls2) by { lemma_trs_mono(s, l, a, s.trans(l, a).len() as int, ls, ls2); }
}
pub proof fn lemma_explored0(s: TransitionSystemPtr, l: LocationTree, ls: Seq<LocationTree>) requires all_at(s, ls) ensures explored(s, l, ls, ls) { reveal(explored); assert(ls.take(ls.len() as int) =~= ls); }
pub proof fn lemma_explored_grows(s: TransitionSystemPtr, l: LocationTree, ls0: Seq<LocationTree>, ls: Seq<LocationTree>) requires explored(s, l, ls0, ls) ensures grows(ls0, ls), all_at(s, ls) { reveal(explored); }
pub proof fn lemma_grows_trans<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>) requires grows(a, b), grows(b, c) ensures grows(a, c) { assert(c.take(a.len() as int) =~= a) by { assert forall|i: int| 0 <= i < a.len() implies #[trigger] c.take(a.len() as int)[i] == a[i] by { lemma_grows_at(b, c, i); lemma_grows_at(a, b, i); } } }
pub proof fn lemma_explored(s: TransitionSystemPtr, l: LocationTree, ls0: Seq<LocationTree>, ls: Seq<LocationTree>, t: LocationTree, ls2: Seq<LocationTree>)
    requires explored(s, l, ls0, ls), leads(s, l, t), explored(s, t, ls.push(t), ls2), closed_one(s, t, ls2)
    ensures explored(s, l, ls0, ls2), grows(ls, ls2), has_loc(ls2, t)
{
    reveal(explored);
    let p = ls.push(t); assert(p.take(ls.len() as int) =~= ls); lemma_grows_trans(ls, p, ls2); lemma_grows_trans(ls0, ls, ls2);
    lemma_grows_at(p, ls2, ls.len() as int); assert(ls2[ls.len() as int] == t); assert(same(ls2[ls.len() as int], t));
    assert forall|i: int| ls0.len() <= i < ls2.len() implies closed_one(s, #[trigger] ls2[i], ls2) && led(s, l, ls0.len() as int, ls2, i) by {
        if i < ls.len() {
            lemma_grows_at(ls, ls2, i); assert(closed_one(s, ls[i], ls)); lemma_dir_in_mono(s, ls[i], true, ls, ls2); lemma_dir_in_mono(s, ls[i], false, ls, ls2);
            assert(led(s, l, ls0.len() as int, ls, i));
            if !leads(s, l, ls[i]) { let j = choose|j: int| ls0.len() <= j < i && leads(s, #[trigger] ls[j], ls[i]); lemma_grows_at(ls, ls2, j); assert(leads(s, ls2[j], ls2[i])); }
        } else if i == ls.len() { assert(leads(s, l, ls2[i])); }
        else {
            assert(led(s, t, p.len() as int, ls2, i));
            if leads(s, t, ls2[i]) { assert(leads(s, ls2[ls.len() as int], ls2[i])); } else { let j = choose|j: int| p.len() <= j < i && leads(s, #[trigger] ls2[j], ls2[i]); assert(leads(s, ls2[j], ls2[i])); }
        }
    }
}
pub proof fn lemma_grows0<T>(a: Seq<T>) ensures grows(a, a) { assert(a.take(a.len() as int) =~= a); }
/// the target t was listed already, or has been explored now
pub proof fn lemma_explore_step(s: TransitionSystemPtr, l: LocationTree, ls0: Seq<LocationTree>, ls: Seq<LocationTree>, t: LocationTree, ls2: Seq<LocationTree>)
    requires explored(s, l, ls0, ls), leads(s, l, t), (ls2 == ls && has_loc(ls, t)) || (explored(s, t, ls.push(t), ls2) && closed_one(s, t, ls2))
    ensures explored(s, l, ls0, ls2), grows(ls, ls2), has_loc(ls2, t), all_at(s, ls2)
{ if ls2 == ls && has_loc(ls, t) { lemma_grows0(ls); } else { lemma_explored(s, l, ls0, ls, t, ls2); } lemma_explored_grows(s, l, ls0, ls2); }
pub proof fn lemma_acts_in0(s: TransitionSystemPtr, l: LocationTree, ls: Seq<LocationTree>) ensures forall|q: Seq<String>| #[trigger] acts_in(s, l, q, 0, ls) { reveal(acts_in); }
pub proof fn lemma_acts_in(s: TransitionSystemPtr, l: LocationTree, inp: bool, q: Seq<String>, k: int, ls: Seq<LocationTree>, ls2: Seq<LocationTree>)
    requires acts_in(s, l, q, k, ls), 0 <= k < q.len(), grows(ls, ls2), trs_in(s, l, q[k], s.trans(l, q[k]).len() as int, ls2), lists_v(q, dir(s, inp))
    ensures acts_in(s, l, q, k + 1, ls2), k + 1 == q.len() ==> dir_in(s, l, inp, ls2)
{
    reveal(acts_in); reveal(dir_in);
    assert forall|i: int| 0 <= i < k + 1 implies trs_in(s, l, #[trigger] q[i], s.trans(l, q[i]).len() as int, ls2) by { if i < k { lemma_trs_mono(s, l, q[i], s.trans(l, q[i]).len() as int, ls, ls2); } }
    if k + 1 == q.len() { assert forall|a: String| #[trigger] dir(s, inp).contains(a) implies trs_in(s, l, a, s.trans(l, a).len() as int, ls2) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == a; assert(trs_in(s, l, q[i], s.trans(l, q[i]).len() as int, ls2)); } }
}
pub proof fn lemma_dir_in_empty(s: TransitionSystemPtr, l: LocationTree, inp: bool, ls: Seq<LocationTree>) ensures dir_in(s, l, inp, ls) || exists|a: String| #[trigger] dir(s, inp).contains(a) { reveal(dir_in); }

/// the edges of the first k locations are there, and no others
#[verifier::opaque] pub open spec fn sofar(s: TransitionSystemPtr, m: Map<String, usize>, ls: Seq<LocationTree>, k: int, es: Seq<Edge>) -> bool { locs_done(s, m, ls, k, es) && adds(s, m, ls, k, Seq::empty(), es) }
pub open spec fn covers(s: TransitionSystemPtr, m: Map<String, usize>, ls: Seq<LocationTree>, es: Seq<Edge>) -> bool { sofar(s, m, ls, ls.len() as int, es) }
pub proof fn lemma_sofar0(s: TransitionSystemPtr, m: Map<String, usize>, ls: Seq<LocationTree>, es: Seq<Edge>) requires es.len() == 0 ensures sofar(s, m, ls, 0, es) { reveal(sofar); assert(es =~= Seq::empty()); lemma_locs0(s, m, ls, es); }
pub proof fn lemma_sofar(s: TransitionSystemPtr, m: Map<String, usize>, ls: Seq<LocationTree>, k: int, es: Seq<Edge>, es2: Seq<Edge>)
    requires 0 <= k < ls.len(), sofar(s, m, ls, k, es), loc_done(s, m, ls[k], es2), adds(s, m, seq![ls[k]], 1, es, es2)
    ensures sofar(s, m, ls, k + 1, es2)
{ reveal(sofar); lemma_locs(s, m, ls, k, Seq::empty(), es, es2); }

/// a component that describes the system: a location for each of ls, and the edges that can be taken
pub open spec fn saved(s: TransitionSystemPtr, ls: Seq<LocationTree>, c: Component) -> bool {
    clock_names(c.declarations.clocks@, s.decls()) && c.declarations.ints@.dom() == Set::<String>::empty() && locs_saved(c.declarations.clocks@, ls, ls.len() as int, c.locations@)
    && covers(s, c.declarations.clocks@, ls, c.edges@)
}
/// exactly the locations the system can get to, up to the clocks
pub open spec fn reached_all(s: TransitionSystemPtr, ls: Seq<LocationTree>) -> bool { match s.init() { None => ls.len() == 0, Some(i) => explored(s, i, seq![i], ls) && closed_one(s, i, ls) } }
pub open spec fn kept(s: TransitionSystemPtr, all: bool, ls: Seq<LocationTree>) -> bool { if all { ls == s.locs() } else { reached_all(s, ls) } }
/// whatever the system does from a listed location, an edge of the component does from the location of that name
pub proof fn theorem_saved(s: TransitionSystemPtr, ls: Seq<LocationTree>, c: Component, i: int, inp: bool, a: String, x: int, v: Val)
    requires saved(s, ls, c), sys_ok(s), 0 <= i < ls.len(), dir(s, inp).contains(a), 0 <= x < s.trans(ls[i], a).len(), s.trans(ls[i], a)[x].guard_zone.n() == s.n(), vok(v, s.n()), s.trans(ls[i], a)[x].guard_zone.has(v)
    ensures exists|j: int| #![trigger c.edges@[j]] 0 <= j < c.edges@.len() && c.edges@[j].source_location == text(ls[i].id) && c.edges@[j].sync == a && (c.edges@[j].sync_type is Input <==> inp) && edge_sat(c.edges@[j], c.declarations, v)
        && c.edges@[j].target_location == text(s.trans(ls[i], a)[x].target_locations.id)
{
    let m = c.declarations.clocks@; lemma_declares(m, s); let t = s.trans(ls[i], a)[x];
    reveal(sofar); reveal(locs_done); assert(loc_done(s, m, ls[i], c.edges@)); reveal(loc_done); assert(all_acts(s, m, ls[i], inp, a, c.edges@)); reveal(act_done); assert(has_edge(m, ls[i], inp, a, t, c.edges@));
    assert(!void(t.guard_zone));
    let j = choose|j: int| 0 <= j < c.edges@.len() && edge_of(m, ls[i], inp, a, t, #[trigger] c.edges@[j]);
    reveal(edge_of); reveal(means); assert(opt_ok(c.edges@[j].guard, c.declarations, t.guard_zone.n()));
    assert(opt_sat(c.edges@[j].guard, c.declarations, v) <==> t.guard_zone.has(v));
}
/// and the component does nothing else
pub proof fn theorem_saved_only(s: TransitionSystemPtr, ls: Seq<LocationTree>, c: Component, j: int) -> (w: (int, bool, String, int))
    requires saved(s, ls, c), 0 <= j < c.edges@.len()
    ensures 0 <= w.0 < ls.len(), dir(s, w.1).contains(w.2), 0 <= w.3 < s.trans(ls[w.0], w.2).len(), edge_of(c.declarations.clocks@, ls[w.0], w.1, w.2, s.trans(ls[w.0], w.2)[w.3], c.edges@[j])
{
    let m = c.declarations.clocks@; reveal(sofar); reveal(adds); assert(stems_any(s, m, ls, ls.len() as int, c.edges@[j]));
    let (i, inp) = choose|i: int, inp: bool| #![trigger stems(s, m, ls[i], inp, c.edges@[j])] 0 <= i < ls.len() && stems(s, m, ls[i], inp, c.edges@[j]);
    let (a, x) = choose|a: String, x: int| #![trigger s.trans(ls[i], a)[x]] dir(s, inp).contains(a) && 0 <= x < s.trans(ls[i], a).len() && edge_of(m, ls[i], inp, a, s.trans(ls[i], a)[x], c.edges@[j]);
    (i, inp, a, x)
}
