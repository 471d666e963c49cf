/// the updates of an edge with their clocks looked up
pub open spec fn cu_of(u: Update, d: Declarations) -> CompiledUpdate { CompiledUpdate { clock_index: look(d.clocks, u.variable)->0, value: u.expression->Int_0 } }
pub open spec fn cus(e: Edge, d: Declarations) -> Seq<CompiledUpdate> { match e.update { Some(us) => Seq::new(us@.len(), |i: int| cu_of(us@[i], d)), None => Seq::empty() } }
/// the edge is meant for the action in the location
pub open spec fn input_at(e: Edge, l: Location) -> bool { e.sync_type is Input && e.source_location == l.id }
pub open spec fn serves(e: Edge, l: Location, a: String) -> bool { input_at(e, l) && (e.sync == a || e.sync@ == seq!['*']) }
/// the edge can be taken at v: guard, and the target's invariant after the updates
pub open spec fn takes(c: Component, e: Edge, v: Val) -> bool { edge_sat(e, c.declarations, v) && exists|t: Location| #[trigger] loc_named(c, e.target_location, t) && opt_sat(t.invariant, c.declarations, upd(cus(e, c.declarations), v)) }
pub open spec fn takes_some(c: Component, es: Seq<Edge>, k: int, l: Location, a: String, v: Val) -> bool { exists|i: int| 0 <= i < k && serves(#[trigger] es[i], l, a) && takes(c, es[i], v) }
/// the location allows v, but no edge takes the action there
pub open spec fn missing(c: Component, l: Location, a: String, v: Val) -> bool { opt_sat(l.invariant, c.declarations, v) && !takes_some(c, c.edges@, c.edges@.len() as int, l, a, v) }
pub open spec fn dims(c: Component) -> int { c.declarations.clocks@.dom().len() as int + 1 }
/// a loop that accepts the action exactly where it is missing
pub open spec fn loop_for(c: Component, l: Location, a: String, e: Edge) -> bool {
    e.source_location == l.id && e.target_location == l.id && e.sync_type is Input && e.sync == a && e.update is None && opt_ok(e.guard, c.declarations, dims(c))
    && forall|v: Val| vok(v, dims(c)) ==> (#[trigger] edge_sat(e, c.declarations, v) <==> missing(c, l, a, v))
}
pub open spec fn some_missing(c: Component, l: Location, a: String) -> bool { exists|v: Val| #[trigger] vok(v, dims(c)) && missing(c, l, a, v) }
/// the j-th new edge is for the pair ps[j] of a location and an action
#[verifier::opaque] pub open spec fn loops_for(c: Component, ins: Seq<String>, es: Seq<Edge>, ps: Seq<(int, int)>) -> bool {
    es.len() == ps.len() && ps.no_duplicates() && forall|j: int| 0 <= j < ps.len() ==> pair_ok(c, ins, #[trigger] ps[j]) && loop_for(c, c.locations@[ps[j].0], ins[ps[j].1], es[j])
}
pub open spec fn pair_ok(c: Component, ins: Seq<String>, p: (int, int)) -> bool { 0 <= p.0 < c.locations@.len() && 0 <= p.1 < ins.len() && some_missing(c, c.locations@[p.0], ins[p.1]) }
/// a pair that comes before the y-th action of the x-th location
pub open spec fn earlier(p: (int, int), x: int, y: int) -> bool { p.0 < x || (p.0 == x && p.1 < y) }
/// every pair before (x, y) in which the action is missing has its edge, and no other
#[verifier::opaque] pub open spec fn covered(c: Component, ins: Seq<String>, ps: Seq<(int, int)>, x: int, y: int) -> bool {
    (forall|j: int| 0 <= j < ps.len() ==> earlier(#[trigger] ps[j], x, y)) && forall|p: (int, int)| #[trigger] pair_ok(c, ins, p) && earlier(p, x, y) ==> ps.contains(p)
}
/// the input-enabled version of a component
#[verifier::opaque] pub open spec fn enabled(o: Component, ins: Seq<String>, c: Component) -> bool {
    c.name == o.name && c.declarations == o.declarations && c.locations == o.locations && c.special_id == o.special_id && c.edges@.len() >= o.edges@.len() && c.edges@.take(o.edges@.len() as int) == o.edges@
    && exists|ps: Seq<(int, int)>| #[trigger] loops_for(o, ins, c.edges@.skip(o.edges@.len() as int), ps) && covered(o, ins, ps, o.locations@.len() as int, 0)
}
/// a component whose guards, invariants and updates can be read
pub open spec fn comp_ok(c: Component) -> bool {
    dims(c) <= usize::MAX && declares(c.declarations.clocks@, dims(c)) && (forall|i: int| 0 <= i < c.edges@.len() && (#[trigger] c.edges@[i]).sync_type is Input ==> edge_ok(c, c.edges@[i], dims(c))) && forall|i: int| 0 <= i < c.locations@.len() ==> opt_ok((#[trigger] c.locations@[i]).invariant, c.declarations, dims(c))
}
/// out lists the elements among the first k that are wanted
#[verifier::opaque] pub open spec fn picks(out: Seq<&Edge>, es: Seq<Edge>, k: int, f: spec_fn(Edge) -> bool) -> bool {
    (forall|j: int| 0 <= j < out.len() ==> f(*#[trigger] out[j]) && exists|i: int| 0 <= i < k && #[trigger] es[i] == *out[j]) && forall|i: int| 0 <= i < k && f(#[trigger] es[i]) ==> exists|j: int| 0 <= j < out.len() && *#[trigger] out[j] == es[i]
}
/// the same, from a list of references
#[verifier::opaque] pub open spec fn repicks(out: Seq<&Edge>, es: Seq<&Edge>, k: int, f: spec_fn(Edge) -> bool) -> bool {
    (forall|j: int| 0 <= j < out.len() ==> f(*#[trigger] out[j]) && exists|i: int| 0 <= i < k && *#[trigger] es[i] == *out[j]) && forall|i: int| 0 <= i < k && f(*#[trigger] es[i]) ==> exists|j: int| 0 <= j < out.len() && *#[trigger] out[j] == *es[i]
}
pub open spec fn inputs_only() -> spec_fn(Edge) -> bool { |e: Edge| e.sync_type is Input }
pub open spec fn at_only(l: Location) -> spec_fn(Edge) -> bool { |e: Edge| e.source_location == l.id }
pub open spec fn for_only(a: String) -> spec_fn(Edge) -> bool { |e: Edge| e.sync == a || e.sync@ == seq!['*'] }
pub proof fn lemma_picks(es: Seq<Edge>, a: Seq<&Edge>, b: Seq<&Edge>, c: Seq<&Edge>, l: Location, x: String)
    requires picks(a, es, es.len() as int, inputs_only()), repicks(b, a, a.len() as int, at_only(l)), repicks(c, b, b.len() as int, for_only(x))
    ensures forall|j: int| 0 <= j < c.len() ==> serves(*#[trigger] c[j], l, x) && exists|i: int| 0 <= i < es.len() && #[trigger] es[i] == *c[j], forall|i: int| 0 <= i < es.len() && serves(#[trigger] es[i], l, x) ==> exists|j: int| 0 <= j < c.len() && *#[trigger] c[j] == es[i]
{ reveal(picks); reveal(repicks);
    assert forall|j: int| 0 <= j < c.len() implies serves(*#[trigger] c[j], l, x) && exists|i: int| 0 <= i < es.len() && #[trigger] es[i] == *c[j] by {
        let y = choose|i: int| 0 <= i < b.len() && *#[trigger] b[i] == *c[j]; let z = choose|i: int| 0 <= i < a.len() && *#[trigger] a[i] == *b[y]; let w = choose|i: int| 0 <= i < es.len() && #[trigger] es[i] == *a[z];
        assert(for_only(x)(*c[j])); assert(at_only(l)(*b[y])); assert(inputs_only()(*a[z])); assert(es[w] == *c[j]);
    }
    assert forall|i: int| 0 <= i < es.len() && serves(#[trigger] es[i], l, x) implies exists|j: int| 0 <= j < c.len() && *#[trigger] c[j] == es[i] by {
        assert(inputs_only()(es[i]));
        let z = choose|j: int| 0 <= j < a.len() && *#[trigger] a[j] == es[i]; assert(at_only(l)(*a[z]));
        let y = choose|j: int| 0 <= j < b.len() && *#[trigger] b[j] == *a[z]; assert(for_only(x)(*b[y]));
        let w = choose|j: int| 0 <= j < c.len() && *#[trigger] c[j] == *b[y];
    }
}

pub proof fn lemma_takes(c: Component, e: Edge, t: Location, v: Val)
    requires one_loc(c, e.target_location), loc_named(c, e.target_location, t)
    ensures takes(c, e, v) <==> edge_sat(e, c.declarations, v) && opt_sat(t.invariant, c.declarations, upd(cus(e, c.declarations), v))
{
    let w = choose|i: int| 0 <= i < c.locations@.len() && (#[trigger] c.locations@[i]).id == e.target_location && forall|j: int| 0 <= j < c.locations@.len() && (#[trigger] c.locations@[j]).id == e.target_location ==> j == i;
    if takes(c, e, v) { let s = choose|s: Location| #[trigger] loc_named(c, e.target_location, s) && opt_sat(s.invariant, c.declarations, upd(cus(e, c.declarations), v)); assert(s == t); }
}
pub open spec fn takes_of(c: Component, es: Seq<&Edge>, k: int, v: Val) -> bool { exists|j: int| 0 <= j < k && takes(c, *#[trigger] es[j], v) }
pub proof fn lemma_added(o: Component, c: Component, ins: Seq<String>, news: Seq<Edge>, ps: Seq<(int, int)>)
    requires c.name == o.name, c.declarations == o.declarations, c.locations == o.locations, c.special_id == o.special_id, c.edges@ == o.edges@ + news, loops_for(o, ins, news, ps), covered(o, ins, ps, o.locations@.len() as int, 0)
    ensures enabled(o, ins, c)
{ reveal(enabled);
    assert((o.edges@ + news).take(o.edges@.len() as int) =~= o.edges@); assert((o.edges@ + news).skip(o.edges@.len() as int) =~= news);
}

/// the last updates are undone one at a time
pub proof fn lemma_undo(u: CompiledUpdate, g0: OwnedFederation, g1: OwnedFederation, g2: OwnedFederation, v: Val, n: int)
    requires u_ok(u, n), vok(v, n), g1.n() == n, g2.n() == n, g0.n() == n,
        forall|w: Val| vok(w, n) ==> (#[trigger] g1.has(w) <==> g0.has(w) && w[u.clock_index as int] == (u.value as int) as real),
        forall|w: Val| vok(w, n) ==> (#[trigger] g2.has(w) <==> exists|x: real| x >= 0real && g1.has(#[trigger] w.update(u.clock_index as int, x))),
    ensures g2.has(v) <==> g0.has(upd1(u, v)), vok(upd1(u, v), n)
{
    let i = u.clock_index as int; let c = (u.value as int) as real;
    lemma_upd1_vok(u, v, n);
    if g2.has(v) {
        let x = choose|x: real| x >= 0real && g1.has(#[trigger] v.update(i, x));
        let w = v.update(i, x);
        assert(vok(w, n)) by { assert forall|j: int| 0 <= j < n implies #[trigger] w[j] >= 0real by { if j != i { assert(w[j] == v[j]); } } }
        assert(g1.has(w)); assert(w[i] == x); assert(w == upd1(u, v));
    }
    if g0.has(upd1(u, v)) { assert(upd1(u, v)[i] == c); assert(g1.has(v.update(i, c))); }
}
pub open spec fn inv_at(t: Location, d: Declarations, cs: Seq<CompiledUpdate>, j: int, v: Val) -> bool { opt_sat(t.invariant, d, updj(cs, j, v)) }
#[verifier::opaque] pub open spec fn step_ok(g: OwnedFederation, t: Location, d: Declarations, cs: Seq<CompiledUpdate>, j: int, n: int) -> bool { g.n() == n && forall|v: Val| vok(v, n) ==> (#[trigger] g.has(v) <==> inv_at(t, d, cs, j, v)) }
pub proof fn lemma_step(u: CompiledUpdate, g0: OwnedFederation, g1: OwnedFederation, g2: OwnedFederation, t: Location, d: Declarations, cs: Seq<CompiledUpdate>, j: int, n: int)
    requires 0 < j <= cs.len(), u == cs[j - 1], u_ok(u, n), step_ok(g0, t, d, cs, j, n), g1.n() == n, g2.n() == n,
        forall|w: Val| vok(w, n) ==> (#[trigger] g1.has(w) <==> g0.has(w) && w[u.clock_index as int] == (u.value as int) as real),
        forall|w: Val| vok(w, n) ==> (#[trigger] g2.has(w) <==> exists|x: real| x >= 0real && g1.has(#[trigger] w.update(u.clock_index as int, x))),
    ensures step_ok(g2, t, d, cs, j - 1, n)
{ reveal(step_ok);
    assert forall|v: Val| vok(v, n) implies (#[trigger] g2.has(v) <==> inv_at(t, d, cs, j - 1, v)) by { lemma_undo(u, g0, g1, g2, v, n); reveal_with_fuel(updj, 2); assert(g0.has(upd1(u, v)) <==> inv_at(t, d, cs, j, upd1(u, v))); }
}
/// what one edge adds to the union
#[verifier::opaque] pub open spec fn zone_upto(c: Component, l: Location, se: Seq<&Edge>, k: int, z: OwnedFederation, n: int) -> bool { z.n() == n && forall|v: Val| vok(v, n) ==> (#[trigger] z.has(v) <==> opt_sat(l.invariant, c.declarations, v) && takes_of(c, se, k, v)) }
pub open spec fn zone_of(c: Component, l: Location, e: Edge, t: Location, g: OwnedFederation, n: int) -> bool { g.n() == n && forall|v: Val| vok(v, n) ==> (#[trigger] g.has(v) <==> edge_sat(e, c.declarations, v) && inv_at(t, c.declarations, cus(e, c.declarations), 0, v)) }
pub proof fn lemma_zone(c: Component, l: Location, se: Seq<&Edge>, k: int, t: Location, z0: OwnedFederation, g: OwnedFederation, inv: OwnedFederation, z: OwnedFederation, n: int)
    requires 0 <= k < se.len(), zone_upto(c, l, se, k, z0, n), zone_of(c, l, *se[k], t, g, n), one_loc(c, se[k].target_location), loc_named(c, se[k].target_location, t), inv.n() == n, z.n() == n,
        forall|v: Val| vok(v, n) ==> (#[trigger] inv.has(v) <==> opt_sat(l.invariant, c.declarations, v)), forall|v: Val| vok(v, n) ==> (#[trigger] z.has(v) <==> z0.has(v) || (g.has(v) && inv.has(v))),
    ensures zone_upto(c, l, se, k + 1, z, n)
{ reveal(zone_upto);
    assert forall|v: Val| vok(v, n) implies (#[trigger] z.has(v) <==> opt_sat(l.invariant, c.declarations, v) && takes_of(c, se, k + 1, v)) by {
        let cs = cus(*se[k], c.declarations);
        lemma_takes(c, *se[k], t, v); reveal_with_fuel(updk, 1); lemma_updj(cs, 0, v); assert(updk(cs, 0, v) == v); assert(z0.has(v) || !z0.has(v)); assert(inv.has(v) || !inv.has(v)); assert(g.has(v) || !g.has(v));
        if takes_of(c, se, k, v) { let j = choose|j: int| 0 <= j < k && takes(c, *#[trigger] se[j], v); assert(takes_of(c, se, k + 1, v)); }
        if takes(c, *se[k], v) { assert(takes_of(c, se, k + 1, v)); }
        if takes_of(c, se, k + 1, v) { let j = choose|j: int| 0 <= j < k + 1 && takes(c, *#[trigger] se[j], v); if j < k { assert(takes_of(c, se, k, v)); } }
    }
}
/// what remains is where the action is missing
pub proof fn lemma_rest(c: Component, l: Location, a: String, se: Seq<&Edge>, z: OwnedFederation, full: OwnedFederation, r: OwnedFederation, n: int)
    requires zone_upto(c, l, se, se.len() as int, z, n), full.n() == n, r.n() == n, forall|v: Val| vok(v, n) ==> (#[trigger] full.has(v) <==> opt_sat(l.invariant, c.declarations, v)), forall|v: Val| vok(v, n) ==> (#[trigger] r.has(v) <==> full.has(v) && !z.has(v)),
        forall|j: int| 0 <= j < se.len() ==> serves(*#[trigger] se[j], l, a) && exists|i: int| 0 <= i < c.edges@.len() && #[trigger] c.edges@[i] == *se[j], forall|i: int| 0 <= i < c.edges@.len() && serves(#[trigger] c.edges@[i], l, a) ==> exists|j: int| 0 <= j < se.len() && *#[trigger] se[j] == c.edges@[i],
    ensures forall|v: Val| vok(v, n) ==> (#[trigger] r.has(v) <==> missing(c, l, a, v))
{ reveal(zone_upto);
    assert forall|v: Val| vok(v, n) implies (#[trigger] r.has(v) <==> missing(c, l, a, v)) by {
        let m = c.edges@.len() as int;
        assert(full.has(v) || !full.has(v)); assert(z.has(v) || !z.has(v));
        if takes_of(c, se, se.len() as int, v) { let j = choose|j: int| 0 <= j < se.len() && takes(c, *#[trigger] se[j], v); let i = choose|i: int| 0 <= i < m && #[trigger] c.edges@[i] == *se[j]; assert(takes_some(c, c.edges@, m, l, a, v)); }
        if takes_some(c, c.edges@, m, l, a, v) { let i = choose|i: int| 0 <= i < m && serves(#[trigger] c.edges@[i], l, a) && takes(c, c.edges@[i], v); let j = choose|j: int| 0 <= j < se.len() && *#[trigger] se[j] == c.edges@[i]; assert(takes_of(c, se, se.len() as int, v)); }
    }
}
pub proof fn lemma_skip(c: Component, ins: Seq<String>, ps: Seq<(int, int)>, x: int, y: int, r: OwnedFederation)
    requires 0 <= x < c.locations@.len(), 0 <= y < ins.len(), covered(c, ins, ps, x, y), none(r), r.n() == dims(c), forall|v: Val| vok(v, dims(c)) ==> (#[trigger] r.has(v) <==> missing(c, c.locations@[x], ins[y], v))
    ensures covered(c, ins, ps, x, y + 1)
{ reveal(covered);
    assert forall|p: (int, int)| #[trigger] pair_ok(c, ins, p) && earlier(p, x, y + 1) implies ps.contains(p) by { if p == (x, y) { let v = choose|v: Val| #[trigger] vok(v, dims(c)) && missing(c, c.locations@[x], ins[y], v); assert(r.has(v)); } }
}
pub proof fn lemma_new(c: Component, ins: Seq<String>, es: Seq<Edge>, ps: Seq<(int, int)>, x: int, y: int, r: OwnedFederation, dd: Disjunction, e: Edge)
    requires 0 <= x < c.locations@.len(), 0 <= y < ins.len(), covered(c, ins, ps, x, y), loops_for(c, ins, es, ps), !none(r), r.n() == dims(c), forall|v: Val| vok(v, dims(c)) ==> (#[trigger] r.has(v) <==> missing(c, c.locations@[x], ins[y], v)),
        dj_ok(dd, dims(c)), forall|v: Val| vok(v, dims(c)) ==> (#[trigger] r.has(v) <==> dj(dd, v)), written(e.guard, dd, c.declarations.clocks@), declares(c.declarations.clocks@, dims(c)),
        e.source_location == c.locations@[x].id && e.target_location == c.locations@[x].id && e.sync_type is Input && e.sync == ins[y] && e.update is None,
    ensures covered(c, ins, ps.push((x, y)), x, y + 1), loops_for(c, ins, es.push(e), ps.push((x, y)))
{ reveal(covered); reveal(loops_for);
    let p1 = ps.push((x, y)); let n = dims(c); let l = c.locations@[x];
    reveal(written);
    assert(opt_ok(e.guard, c.declarations, n) && forall|v: Val| vok(v, n) ==> (#[trigger] opt_sat(e.guard, c.declarations, v) <==> dj(dd, v)));
    assert forall|v: Val| vok(v, n) implies (#[trigger] edge_sat(e, c.declarations, v) <==> missing(c, l, ins[y], v)) by { assert(opt_sat(e.guard, c.declarations, v) <==> dj(dd, v)); assert(r.has(v) <==> dj(dd, v)); }
    let w = choose|v: Val| vok(v, r.n()) && #[trigger] r.has(v);
    assert(vok(w, n) && missing(c, l, ins[y], w)); assert(some_missing(c, l, ins[y]));
    assert(loop_for(c, l, ins[y], e)); assert(pair_ok(c, ins, (x, y)));
    assert forall|j: int| 0 <= j < p1.len() implies pair_ok(c, ins, #[trigger] p1[j]) && loop_for(c, c.locations@[p1[j].0], ins[p1[j].1], es.push(e)[j]) by { if j < ps.len() { assert(p1[j] == ps[j]); assert(es.push(e)[j] == es[j]); } }
    assert(p1.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < p1.len() && 0 <= j < p1.len() && i != j implies p1[i] != p1[j] by { if i < ps.len() { assert(p1[i] == ps[i]); assert(earlier(ps[i], x, y)); } if j < ps.len() { assert(p1[j] == ps[j]); assert(earlier(ps[j], x, y)); } } }
    assert forall|j: int| 0 <= j < p1.len() implies earlier(#[trigger] p1[j], x, y + 1) by { if j < ps.len() { assert(p1[j] == ps[j]); } }
    assert forall|p: (int, int)| #[trigger] pair_ok(c, ins, p) && earlier(p, x, y + 1) implies p1.contains(p) by { if p == (x, y) { assert(p1[ps.len() as int] == p); } else { assert(ps.contains(p)); let j = choose|j: int| 0 <= j < ps.len() && ps[j] == p; assert(p1[j] == p); } }
}
pub proof fn lemma_row(c: Component, ins: Seq<String>, ps: Seq<(int, int)>, x: int)
    requires covered(c, ins, ps, x, ins.len() as int)
    ensures covered(c, ins, ps, x + 1, 0)
{ reveal(covered);
    assert forall|j: int| 0 <= j < ps.len() implies earlier(#[trigger] ps[j], x + 1, 0) by {}
    assert forall|p: (int, int)| #[trigger] pair_ok(c, ins, p) && earlier(p, x + 1, 0) implies ps.contains(p) by { }
}

pub proof fn lemma_pick_step(o0: Seq<&Edge>, o1: Seq<&Edge>, es: Seq<Edge>, k: int, x: &Edge, f: spec_fn(Edge) -> bool)
    requires 0 <= k < es.len(), *x == es[k], picks(o0, es, k, f), o1 == (if f(*x) { o0.push(x) } else { o0 })
    ensures picks(o1, es, k + 1, f)
{ reveal(picks);
    assert forall|j: int| 0 <= j < o1.len() implies f(*#[trigger] o1[j]) && exists|i: int| 0 <= i < k + 1 && #[trigger] es[i] == *o1[j] by { if j < o0.len() { assert(o1[j] == o0[j]); let i = choose|i: int| 0 <= i < k && #[trigger] es[i] == *o0[j]; assert(es[i] == *o1[j]); } else { assert(es[k] == *o1[j]); } }
    assert forall|i: int| 0 <= i < k + 1 && f(#[trigger] es[i]) implies exists|j: int| 0 <= j < o1.len() && *#[trigger] o1[j] == es[i] by { if i < k { let j = choose|j: int| 0 <= j < o0.len() && *#[trigger] o0[j] == es[i]; assert(*o1[j] == es[i]); } else { assert(*o1[o0.len() as int] == es[i]); } }
}
pub proof fn lemma_repick_step(o0: Seq<&Edge>, o1: Seq<&Edge>, es: Seq<&Edge>, k: int, f: spec_fn(Edge) -> bool)
    requires 0 <= k < es.len(), repicks(o0, es, k, f), o1 == (if f(*es[k]) { o0.push(es[k]) } else { o0 })
    ensures repicks(o1, es, k + 1, f)
{ reveal(repicks);
    assert forall|j: int| 0 <= j < o1.len() implies f(*#[trigger] o1[j]) && exists|i: int| 0 <= i < k + 1 && *#[trigger] es[i] == *o1[j] by { if j < o0.len() { assert(o1[j] == o0[j]); let i = choose|i: int| 0 <= i < k && *#[trigger] es[i] == *o0[j]; assert(*es[i] == *o1[j]); } else { assert(*es[k] == *o1[j]); } }
    assert forall|i: int| 0 <= i < k + 1 && f(*#[trigger] es[i]) implies exists|j: int| 0 <= j < o1.len() && *#[trigger] o1[j] == *es[i] by { if i < k { let j = choose|j: int| 0 <= j < o0.len() && *#[trigger] o0[j] == *es[i]; assert(*o1[j] == *es[i]); } else { assert(*o1[o0.len() as int] == *es[i]); } }
}
pub proof fn lemma_start(c: Component, ins: Seq<String>) ensures loops_for(c, ins, Seq::<Edge>::empty(), Seq::<(int, int)>::empty()), covered(c, ins, Seq::<(int, int)>::empty(), 0, 0), forall|es: Seq<Edge>, f: spec_fn(Edge) -> bool| #[trigger] picks(Seq::<&Edge>::empty(), es, 0, f), forall|es: Seq<&Edge>, f: spec_fn(Edge) -> bool| #[trigger] repicks(Seq::<&Edge>::empty(), es, 0, f)
{ reveal(loops_for); reveal(covered); reveal(picks); reveal(repicks); }
pub proof fn lemma_zone0(c: Component, l: Location, se: Seq<&Edge>, z: OwnedFederation, n: int) requires z.n() == n, none(z) ensures zone_upto(c, l, se, 0, z, n) { reveal(zone_upto); }

pub proof fn lemma_step0(g: OwnedFederation, t: Location, d: Declarations, cs: Seq<CompiledUpdate>, n: int) requires g.n() == n, forall|v: Val| vok(v, n) ==> (#[trigger] g.has(v) <==> opt_sat(t.invariant, d, v)) ensures step_ok(g, t, d, cs, cs.len() as int, n)
{ reveal(step_ok); reveal_with_fuel(updj, 2); }
pub proof fn lemma_step_end(g: OwnedFederation, t: Location, d: Declarations, cs: Seq<CompiledUpdate>, n: int) requires step_ok(g, t, d, cs, 0, n) ensures g.n() == n, forall|v: Val| vok(v, n) ==> (#[trigger] g.has(v) <==> inv_at(t, d, cs, 0, v))
{ reveal(step_ok); }
pub open spec fn target(c: Component, e: Edge) -> Location { choose|t: Location| #[trigger] loc_named(c, e.target_location, t) }
/// what holds of an edge that serves an action
pub proof fn lemma_edge(c: Component, se: Seq<&Edge>, k: int, l: Location, a: String)
    requires comp_ok(c), 0 <= k < se.len(), forall|j: int| 0 <= j < se.len() ==> serves(*#[trigger] se[j], l, a) && exists|i: int| 0 <= i < c.edges@.len() && #[trigger] c.edges@[i] == *se[j],
    ensures ({ let e = *se[k]; edge_ok(c, e, dims(c)) && one_loc(c, e.target_location) && loc_named(c, e.target_location, target(c, e)) && opt_ok(target(c, e).invariant, c.declarations, dims(c)) && us_ok(cus(e, c.declarations), dims(c))
        && (forall|t: Location| #[trigger] loc_named(c, e.target_location, t) ==> t == target(c, e)) && (e.update is Some ==> forall|i: int| 0 <= i < e.update->0@.len() ==> (#[trigger] e.update->0@[i]).expression is Int && look(c.declarations.clocks, e.update->0@[i].variable) is Some) })
{
    let e = *se[k]; assert(serves(*se[k], l, a)); let i = choose|i: int| 0 <= i < c.edges@.len() && #[trigger] c.edges@[i] == *se[k]; assert(edge_ok(c, c.edges@[i], dims(c)));
    let w = choose|i: int| 0 <= i < c.locations@.len() && (#[trigger] c.locations@[i]).id == e.target_location && forall|j: int| 0 <= j < c.locations@.len() && (#[trigger] c.locations@[j]).id == e.target_location ==> j == i;
    assert(loc_named(c, e.target_location, c.locations@[w]));
    let cs = cus(e, c.declarations);
    assert forall|i: int| 0 <= i < cs.len() implies u_ok(#[trigger] cs[i], dims(c)) by { assert(upd_ok(e.update->0@[i], c.declarations, dims(c))); }
    if e.update is Some { assert forall|i: int| 0 <= i < e.update->0@.len() implies (#[trigger] e.update->0@[i]).expression is Int && look(c.declarations.clocks, e.update->0@[i].variable) is Some by { assert(upd_ok(e.update->0@[i], c.declarations, dims(c))); } }
}
/// every action is accepted wherever its location allows to be, and nothing was taken away
pub proof fn theorem_input_enabled(o: Component, ins: Seq<String>, c: Component, x: int, y: int, v: Val)
    requires comp_ok(o), enabled(o, ins, c), 0 <= x < o.locations@.len(), 0 <= y < ins.len(), vok(v, dims(o)), opt_sat(o.locations@[x].invariant, o.declarations, v)
    ensures takes_some(c, c.edges@, c.edges@.len() as int, o.locations@[x], ins[y], v)
{
    reveal(enabled); reveal(loops_for); reveal(covered);
    let l = o.locations@[x]; let a = ins[y]; let m = o.edges@.len() as int;
    let news = c.edges@.skip(m);
    let ps = choose|ps: Seq<(int, int)>| #[trigger] loops_for(o, ins, news, ps) && covered(o, ins, ps, o.locations@.len() as int, 0);
    if takes_some(o, o.edges@, m, l, a, v) {
        let i = choose|i: int| 0 <= i < m && serves(#[trigger] o.edges@[i], l, a) && takes(o, o.edges@[i], v);
        assert(c.edges@.take(m)[i] == c.edges@[i]);
        let t = choose|t: Location| #[trigger] loc_named(o, o.edges@[i].target_location, t) && opt_sat(t.invariant, o.declarations, upd(cus(o.edges@[i], o.declarations), v));
        assert(loc_named(c, c.edges@[i].target_location, t)); assert(takes(c, c.edges@[i], v));
    } else {
        assert(missing(o, l, a, v)); assert(some_missing(o, l, a)); assert(pair_ok(o, ins, (x, y)) && earlier((x, y), o.locations@.len() as int, 0)); assert(ps.contains((x, y)));
        let j = choose|j: int| 0 <= j < ps.len() && ps[j] == (x, y); assert(pair_ok(o, ins, ps[j]));
        let e = news[j]; assert(c.edges@[m + j] == e); assert(edge_sat(e, o.declarations, v));
        assert(loc_named(c, e.target_location, l)); reveal_with_fuel(updk, 1); assert(upd(cus(e, c.declarations), v) == v); assert(takes(c, e, v)); assert(serves(e, l, a)); assert(c.edges@[m + j] == e);
    }
}

/// each name leads to the input-enabled version of the last of the first n components of that name
#[verifier::opaque]
pub open spec fn loaded(cs: Seq<Component>, n: int, m: Map<String, Component>) -> bool {
    forall|k: String| m.contains_key(k) <==> #[trigger] comp_named(cs, n, k)
    && (m.contains_key(k) ==> from_last(cs, n, k, m[k]))
}
pub open spec fn comp_named(cs: Seq<Component>, n: int, k: String) -> bool { exists|i: int| 0 <= i < n && (#[trigger] cs[i]).name == k }
pub open spec fn last_named(cs: Seq<Component>, n: int, k: String, i: int) -> bool { 0 <= i < n && cs[i].name == k && forall|j: int| i < j < n ==> (#[trigger] cs[j]).name != k }
pub open spec fn ready(o: Component, c: Component) -> bool { exists|ins: Seq<String>| seq_offers(ins, o, SyncType::Input) && #[trigger] enabled(o, ins, c) }
pub open spec fn from_last(cs: Seq<Component>, n: int, k: String, c: Component) -> bool { exists|i: int| #[trigger] last_named(cs, n, k, i) && ready(cs[i], c) }
pub proof fn lemma_loaded(cs: Seq<Component>, k: int, ins: Seq<String>, c: Component, m: Map<String, Component>)
    requires 0 <= k < cs.len(), loaded(cs, k, m), seq_offers(ins, cs[k], SyncType::Input), enabled(cs[k], ins, c)
    ensures loaded(cs, k + 1, m.insert(cs[k].name, c))
{
    reveal(loaded);
    let m2 = m.insert(cs[k].name, c);
    assert forall|s: String| (m2.contains_key(s) <==> #[trigger] comp_named(cs, k + 1, s)) && (m2.contains_key(s) ==> from_last(cs, k + 1, s, m2[s])) by {
        assert(m.contains_key(s) <==> comp_named(cs, k, s));
        if s == cs[k].name { assert(cs[k].name == s); assert(ready(cs[k], c)); assert(last_named(cs, k + 1, s, k)); }
        else if m.contains_key(s) { let i = choose|i: int| #[trigger] last_named(cs, k, s, i) && ready(cs[i], m[s]); assert(cs[i].name == s); assert(last_named(cs, k + 1, s, i)); }
        else if comp_named(cs, k + 1, s) { let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] cs[i]).name == s; assert(i < k); }
    }
}
pub proof fn lemma_loaded0(cs: Seq<Component>, m: Map<String, Component>) requires m == Map::<String, Component>::empty() ensures loaded(cs, 0, m) { reveal(loaded); }
pub proof fn lemma_same_name(o: Component, ins: Seq<String>, c: Component) requires enabled(o, ins, c) ensures c.name == o.name { reveal(enabled); }
