/// one update: the named clock gets the value, every other clock keeps its own
pub open spec fn upd1(u: CompiledUpdate, v: Val) -> Val { v.update(u.clock_index as int, (u.value as int) as real) }
/// the first k updates, in order
pub open spec fn updk(us: Seq<CompiledUpdate>, k: int, v: Val) -> Val decreases k { if k <= 0 { v } else { upd1(us[k - 1], updk(us, k - 1, v)) } }
pub open spec fn upd(us: Seq<CompiledUpdate>, v: Val) -> Val { updk(us, us.len() as int, v) }
pub open spec fn u_ok(u: CompiledUpdate, n: int) -> bool { 0 < u.clock_index < n && u.value >= 0 }
pub open spec fn us_ok(us: Seq<CompiledUpdate>, n: int) -> bool { forall|i: int| 0 <= i < us.len() ==> u_ok(#[trigger] us[i], n) }
/// v is what the first k updates make of some valuation of f
pub open spec fn img(f: OwnedFederation, us: Seq<CompiledUpdate>, k: int, v: Val, u: Val) -> bool { vok(u, f.n()) && f.has(u) && v == updk(us, k, u) }
pub open spec fn in_img(f: OwnedFederation, us: Seq<CompiledUpdate>, k: int, v: Val) -> bool { exists|u: Val| #[trigger] img(f, us, k, v, u) }
pub proof fn lemma_updk_vok(us: Seq<CompiledUpdate>, k: int, v: Val, n: int)
    requires us_ok(us, n), vok(v, n), 0 <= k <= us.len()
    ensures vok(updk(us, k, v), n)
    decreases k
{
    if k > 0 { lemma_updk_vok(us, k - 1, v, n); lemma_upd1_vok(us[k - 1], updk(us, k - 1, v), n); }
}
pub proof fn lemma_upd1_vok(u: CompiledUpdate, v: Val, n: int)
    requires u_ok(u, n), vok(v, n)
    ensures vok(upd1(u, v), n)
{
    let w = upd1(u, v);
    assert((u.value as int) as real >= 0real);
    assert forall|i: int| 0 <= i < n implies #[trigger] w[i] >= 0real by { if i != u.clock_index as int { assert(w[i] == v[i]); } }
}
/// the updates j.. in order
pub open spec fn updj(us: Seq<CompiledUpdate>, j: int, v: Val) -> Val decreases us.len() - j { if j >= us.len() { v } else { updj(us, j + 1, upd1(us[j], v)) } }
pub proof fn lemma_updj(us: Seq<CompiledUpdate>, j: int, v: Val)
    requires 0 <= j <= us.len()
    ensures updj(us, j, updk(us, j, v)) == upd(us, v)
    decreases us.len() - j
{
    if j < us.len() { lemma_updj(us, j + 1, v); }
}
