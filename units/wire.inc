pub type ClockEnum = ProtoClockEnum;
/// the components of a system, arranged like the system
pub enum IT { Leaf(ComponentInfo), Node(Box<IT>, Box<IT>) }
pub open spec fn tree(t: ComponentInfoTree) -> IT decreases t {
    match t { ComponentInfoTree::Info(i) => IT::Leaf(*i), ComponentInfoTree::Composition(a, b) => IT::Node(Box::new(tree(*a)), Box::new(tree(*b))) }
}
pub open spec fn leaves(t: IT) -> Seq<ComponentInfo> decreases t { match t { IT::Leaf(i) => seq![i], IT::Node(a, b) => leaves(*a) + leaves(*b) } }
/// assumed: ComponentInfoTree::iter lists the leaves from left to right
#[verifier::external_body] pub fn vx_leaves<'b>(t: ComponentInfoTree<'b>) -> (r: Vec<&'b ComponentInfo>)
    ensures r@.len() == leaves(tree(t)).len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == leaves(tree(t))[i] { unimplemented!() }
/// what the users of the conversions see of a system
impl TransitionSystemPtr {
    pub uninterp spec fn kind(&self) -> CompositionType;
    pub uninterp spec fn left(&self) -> TransitionSystemPtr;
    pub uninterp spec fn right(&self) -> TransitionSystemPtr;
    pub uninterp spec fn info(&self) -> ComponentInfo;
    pub uninterp spec fn infos(&self) -> IT;
    #[verifier::external_body] pub fn get_composition_type(&self) -> (r: CompositionType) ensures r == self.kind() { unimplemented!() }
    #[verifier::external_body] pub fn get_children(&self) -> (r: (&TransitionSystemPtr, &TransitionSystemPtr)) requires !(self.kind() is Simple) ensures *r.0 == self.left(), *r.1 == self.right() { unimplemented!() }
    #[verifier::external_body] pub fn comp_infos(&self) -> (r: ComponentInfoTree<'_>) ensures tree(r) == self.infos(), self.kind() is Simple ==> r is Info && self.infos() == IT::Leaf(self.info()) { unimplemented!() }
}
/// a location of a system with these components
pub open spec fn shaped(id: LocationID, t: IT) -> bool decreases id {
    match id {
        LocationID::Conjunction(a, b) => t is Node && shaped(*a, *t->Node_0) && shaped(*b, *t->Node_1),
        LocationID::Composition(a, b) => t is Node && shaped(*a, *t->Node_0) && shaped(*b, *t->Node_1),
        LocationID::Quotient(a, b) => t is Node && shaped(*a, *t->Node_0) && shaped(*b, *t->Node_1),
        LocationID::Simple(_) => t is Leaf,
        LocationID::Special(_) => true,
        LocationID::AnyLocation => false,
    }
}
/// the name of a location for the client: every part with its component
pub open spec fn place(id: LocationID, t: IT) -> SpecificLocation decreases id {
    match id {
        LocationID::Conjunction(a, b) => SpecificLocation::BranchLocation(Box::new(place(*a, *t->Node_0)), Box::new(place(*b, *t->Node_1)), SystemType::Conjunction),
        LocationID::Composition(a, b) => SpecificLocation::BranchLocation(Box::new(place(*a, *t->Node_0)), Box::new(place(*b, *t->Node_1)), SystemType::Composition),
        LocationID::Quotient(a, b) => SpecificLocation::BranchLocation(Box::new(place(*a, *t->Node_0)), Box::new(place(*b, *t->Node_1)), SystemType::Quotient),
        LocationID::Simple(x) => SpecificLocation::ComponentLocation { comp: SpecificComp { name: t->Leaf_0.name, id: t->Leaf_0.id }, location_id: x },
        LocationID::Special(k) => SpecificLocation::SpecialLocation(k),
        LocationID::AnyLocation => arbitrary(),
    }
}
/// x is clock i of the component
pub open spec fn clock_in(l: ComponentInfo, c: SpecificComp, x: String, i: usize) -> bool { l.name == c.name && l.id == c.id && l.declarations.clocks@.contains_key(x) && l.declarations.clocks@[x] == i }
pub open spec fn says_clock(c: SpecificClock, i: usize, ls: Seq<ComponentInfo>) -> bool { exists|k: int| 0 <= k < ls.len() && clock_in(#[trigger] ls[k], c.comp, c.name, i) }
/// every clock of the first n components has a name, and every name is right
pub open spec fn clock_map(m: Map<usize, SpecificClock>, ls: Seq<ComponentInfo>, n: int) -> bool {
    (forall|i: usize| #[trigger] m.contains_key(i) ==> says_clock(m[i], i, ls)) && forall|k: int, x: String| 0 <= k < n && #[trigger] ls[k].declarations.clocks@.contains_key(x) ==> m.contains_key(ls[k].declarations.clocks@[x])
}
pub open spec fn var_for(i: usize, m: Map<usize, SpecificClock>) -> SpecificClockVar { if i == 0 { SpecificClockVar::Zero } else if m.contains_key(i) { SpecificClockVar::ComponentClock(m[i]) } else { SpecificClockVar::SystemClock(i) } }
pub open spec fn con_names(c: SpecificConstraint, q: Constraint, m: Map<usize, SpecificClock>) -> bool { c.i == var_for(q.i, m) && c.j == var_for(q.j, m) && c.strict == (q.q is LS) && c.c == bound_of(q.q) }
pub open spec fn conj_names(c: SpecificConjunction, q: Conjunction, m: Map<usize, SpecificClock>) -> bool { c.constraints@.len() == q.constraints@.len() && forall|i: int| 0 <= i < q.constraints@.len() ==> con_names(c.constraints@[i], #[trigger] q.constraints@[i], m) }
pub open spec fn disj_names(c: SpecificDisjunction, q: Disjunction, m: Map<usize, SpecificClock>) -> bool { c.conjunctions@.len() == q.conjunctions@.len() && forall|i: int| 0 <= i < q.conjunctions@.len() ==> conj_names(c.conjunctions@[i], #[trigger] q.conjunctions@[i], m) }
/// the constraints describe the zone
pub open spec fn means(d: Disjunction, z: OwnedFederation) -> bool { dj_ok(d, z.n()) && forall|v: Val| vok(v, z.n()) ==> (#[trigger] z.has(v) <==> dj(d, v)) }
pub open spec fn told(r: SpecificDisjunction, z: OwnedFederation, ls: Seq<ComponentInfo>) -> bool { exists|d: Disjunction, m: Map<usize, SpecificClock>| #[trigger] disj_names(r, d, m) && means(d, z) && clock_map(m, ls, ls.len() as int) }
#[verifier::external_body] pub fn vx_extend<K: std::hash::Hash + Eq, V>(m: &mut HashMap<K, V>, o: HashMap<K, V>) ensures final(m)@ == old(m)@.union_prefer_right(o@) { unimplemented!() }
/// the edges of a transition, in the components they are of
pub open spec fn edges_of(id: TransitionID, s: TransitionSystemPtr) -> Seq<SpecificEdge> decreases id, 0int {
    match id {
        TransitionID::Conjunction(l, r) => edges_of(*l, s.left()) + edges_of(*r, s.right()),
        TransitionID::Composition(l, r) => edges_of(*l, s.left()) + edges_of(*r, s.right()),
        TransitionID::Quotient(ls, rs) => edges_all(ls, ls@.len() as int, s.left()) + edges_all(rs, rs@.len() as int, s.right()),
        TransitionID::Simple(e) => seq![SpecificEdge { comp: SpecificComp { name: s.info().name, id: s.info().id }, edge_id: e }],
        TransitionID::None => seq![],
    }
}
pub open spec fn edges_all(v: Vec<TransitionID>, k: int, s: TransitionSystemPtr) -> Seq<SpecificEdge> decreases v, k {
    if 0 < k <= v@.len() { edges_all(v, k - 1, s) + edges_of(v@[k - 1], s) } else { seq![] }
}
pub open spec fn id_fits(id: TransitionID, s: TransitionSystemPtr) -> bool decreases id {
    match id {
        TransitionID::Conjunction(l, r) => s.kind() is Conjunction && id_fits(*l, s.left()) && id_fits(*r, s.right()),
        TransitionID::Composition(l, r) => s.kind() is Composition && id_fits(*l, s.left()) && id_fits(*r, s.right()),
        TransitionID::Quotient(ls, rs) => s.kind() is Quotient && (forall|i: int| 0 <= i < ls@.len() ==> id_fits(#[trigger] ls@[i], s.left())) && (forall|i: int| 0 <= i < rs@.len() ==> id_fits(#[trigger] rs@[i], s.right())),
        TransitionID::Simple(e) => s.kind() is Simple,
        TransitionID::None => true,
    }
}
/// a state that can be sent
pub open spec fn sendable(s: State, t: TransitionSystemPtr) -> bool { st_ok(s, t.n()) && shaped(s.decorated_locations.id, t.infos()) }
pub open spec fn sent(r: SpecificState, s: State, t: TransitionSystemPtr) -> bool { r.locations == place(s.decorated_locations.id, t.infos()) && told(r.constraints, s.zone_sentinel->0, leaves(t.infos())) }
pub open spec fn dec_ok(d: Decision, t: TransitionSystemPtr) -> bool { sendable(d.state, t) && sendable(d.next_state, t) && (d.transition is Some ==> id_fits(d.transition->0.id, t)) }
pub open spec fn dec_sent(r: SpecificDecision, d: Decision, t: TransitionSystemPtr) -> bool {
    sent(r.source_state, d.state, t) && sent(r.destination_state, d.next_state, t) && r.action == d.action && r.edges@ == (match d.transition { Some(x) => edges_of(x.id, t), None => seq![] })
}
/// reading: what a message means
pub open spec fn pv(p: ProtoClock, i: usize, ls: Seq<ComponentInfo>) -> bool {
    match p.clock {
        Some(ProtoClockEnum::ZeroClock(_)) => i == 0,
        Some(ProtoClockEnum::SystemClock(c)) => c.clock_index == i,
        Some(ProtoClockEnum::ComponentClock(c)) => c.component_instance is Some && says_clock(SpecificClock { name: c.clock_name, comp: SpecificComp { name: c.component_instance->0.component_name, id: c.component_instance->0.component_index } }, i, ls),
        None => false,
    }
}
pub open spec fn con_says(p: ProtoConstraint, q: Constraint, ls: Seq<ComponentInfo>) -> bool { p.x is Some && p.y is Some && pv(p.x->0, q.i, ls) && pv(p.y->0, q.j, ls) && p.strict == (q.q is LS) && p.c == bound_of(q.q) }
pub open spec fn conj_says(p: ProtoConjunction, q: Conjunction, ls: Seq<ComponentInfo>) -> bool { p.constraints@.len() == q.constraints@.len() && forall|i: int| 0 <= i < q.constraints@.len() ==> con_says(p.constraints@[i], #[trigger] q.constraints@[i], ls) }
pub open spec fn disj_says(p: ProtoDisjunction, q: Disjunction, ls: Seq<ComponentInfo>) -> bool { p.conjunctions@.len() == q.conjunctions@.len() && forall|i: int| 0 <= i < q.conjunctions@.len() ==> conj_says(p.conjunctions@[i], #[trigger] q.conjunctions@[i], ls) }
pub open spec fn distinct(ls: Seq<ComponentInfo>) -> bool { forall|i: int, j: int| 0 <= i < ls.len() && 0 <= j < ls.len() && (#[trigger] ls[i]).id == (#[trigger] ls[j]).id ==> i == j }
/// the components by id
pub open spec fn id_map(m: Map<u32, (String, &Declarations)>, ls: Seq<ComponentInfo>, n: int) -> bool { forall|i: int| 0 <= i < n ==> m.contains_key((#[trigger] ls[i]).id) && m[ls[i].id].0 == ls[i].name && *m[ls[i].id].1 == ls[i].declarations }
pub open spec fn given(m: Map<u32, (String, &Declarations)>, ls: Seq<ComponentInfo>) -> bool { distinct(ls) && id_map(m, ls, ls.len() as int) }
/// the same constraints
pub open spec fn same_con(a: Constraint, b: Constraint) -> bool { a.i == b.i && a.j == b.j && a.q == b.q }
pub open spec fn same_conj(a: Conjunction, b: Conjunction) -> bool { a.constraints@.len() == b.constraints@.len() && forall|i: int| 0 <= i < b.constraints@.len() ==> same_con(a.constraints@[i], #[trigger] b.constraints@[i]) }
pub open spec fn same_disj(a: Disjunction, b: Disjunction) -> bool { a.conjunctions@.len() == b.conjunctions@.len() && forall|i: int| 0 <= i < b.conjunctions@.len() ==> same_conj(a.conjunctions@[i], #[trigger] b.conjunctions@[i]) }
/// assumed of EDBM: the constructors
impl RawInequality { #[verifier::external_body] pub fn from_inequality(q: &Inequality) -> (r: RawInequality) ensures r.q == *q { unimplemented!() } }
impl Constraint { #[verifier::external_body] pub fn new(i: usize, j: usize, q: RawInequality) -> (r: Constraint) ensures r.i == i, r.j == j, r.q == q.q { unimplemented!() } }
impl Conjunction { #[verifier::external_body] pub fn new(constraints: Vec<Constraint>) -> (r: Conjunction) ensures r.constraints@ == constraints@ { unimplemented!() } }
impl Disjunction { #[verifier::external_body] pub fn new(conjunctions: Vec<Conjunction>) -> (r: Disjunction) ensures r.conjunctions@ == conjunctions@ { unimplemented!() } }
impl OwnedFederation {
    /// assumed: the federation of exactly the valuations the constraints allow
    #[verifier::external_body] pub fn from_disjunction(d: &Disjunction, dim: usize) -> (r: OwnedFederation) requires dj_ok(*d, dim as int) ensures r.n() == dim, forall|v: Val| vok(v, r.n()) ==> (#[trigger] r.has(v) <==> dj(*d, v)) { unimplemented!() }
}
pub open spec fn zone_says(p: ProtoDisjunction, n: int, ls: Seq<ComponentInfo>) -> bool { exists|q: Disjunction| #[trigger] disj_says(p, q, ls) && dj_ok(q, n) }
pub open spec fn readable(p: ProtoState, t: TransitionSystemPtr) -> bool {
    p.location_tree is Some && p.zone is Some && is_loc(p.location_tree->0) && zone_says(p.zone->0, t.n(), leaves(t.infos())) && distinct(leaves(t.infos()))
    && forall|l: SL| #[trigger] loc_msg(l, p.location_tree->0) ==> t.spec_loc(l) is Some
}
pub open spec fn read(r: State, p: ProtoState, t: TransitionSystemPtr) -> bool {
    st_ok(r, t.n()) && t.at(r.decorated_locations) && loc_ok(r.decorated_locations, t.n()) && (forall|l: SL| #[trigger] loc_msg(l, p.location_tree->0) ==> t.spec_loc(l) == Some(r.decorated_locations))
    && forall|q: Disjunction, v: Val| #[trigger] disj_says(p.zone->0, q, leaves(t.infos())) && dj_ok(q, t.n()) && vok(v, t.n()) ==> (#[trigger] r.zone_sentinel->0.has(v) <==> dj(q, v) && inv_has(r.decorated_locations, v))
}
pub proof fn lemma_pv(p: ProtoClock, i: usize, j: usize, ls: Seq<ComponentInfo>)
    requires distinct(ls), pv(p, i, ls), pv(p, j, ls)
    ensures i == j
{}
pub proof fn lemma_dj_same(a: Disjunction, b: Disjunction, n: int)
    requires same_disj(a, b)
    ensures dj_ok(a, n) <==> dj_ok(b, n), forall|v: Val| #[trigger] dj(a, v) <==> dj(b, v)
{
    assert forall|k: int, v: Val| 0 <= k < b.conjunctions@.len() implies #[trigger] cj(a.conjunctions@[k], v) == cj(b.conjunctions@[k], v) by {
        let (x, y) = (a.conjunctions@[k], b.conjunctions@[k]);
        assert(same_conj(x, y));
        if cj(x, v) { assert forall|i: int| 0 <= i < y.constraints@.len() implies c_sat(#[trigger] y.constraints@[i], v) by { assert(same_con(x.constraints@[i], y.constraints@[i])); assert(c_sat(x.constraints@[i], v)); } }
        if cj(y, v) { assert forall|i: int| 0 <= i < x.constraints@.len() implies c_sat(#[trigger] x.constraints@[i], v) by { assert(same_con(x.constraints@[i], y.constraints@[i])); assert(c_sat(y.constraints@[i], v)); } }
    }
    assert forall|v: Val| #[trigger] dj(a, v) <==> dj(b, v) by {
        if dj(a, v) { let k = choose|k: int| 0 <= k < a.conjunctions@.len() && cj(#[trigger] a.conjunctions@[k], v); assert(cj(b.conjunctions@[k], v)); }
        if dj(b, v) { let k = choose|k: int| 0 <= k < b.conjunctions@.len() && cj(#[trigger] b.conjunctions@[k], v); assert(cj(a.conjunctions@[k], v)); }
    }
    assert forall|k: int| 0 <= k < b.conjunctions@.len() implies #[trigger] cj_ok(a.conjunctions@[k], n) == cj_ok(b.conjunctions@[k], n) by {
        let (x, y) = (a.conjunctions@[k], b.conjunctions@[k]);
        assert(same_conj(x, y));
        if cj_ok(x, n) { assert forall|i: int| 0 <= i < y.constraints@.len() implies c_ok(#[trigger] y.constraints@[i], n) by { assert(same_con(x.constraints@[i], y.constraints@[i])); assert(c_ok(x.constraints@[i], n)); } }
        if cj_ok(y, n) { assert forall|i: int| 0 <= i < x.constraints@.len() implies c_ok(#[trigger] x.constraints@[i], n) by { assert(same_con(x.constraints@[i], y.constraints@[i])); assert(c_ok(y.constraints@[i], n)); } }
    }
    if dj_ok(a, n) { assert forall|k: int| 0 <= k < b.conjunctions@.len() implies cj_ok(#[trigger] b.conjunctions@[k], n) by { assert(cj_ok(a.conjunctions@[k], n)); } }
    if dj_ok(b, n) { assert forall|k: int| 0 <= k < a.conjunctions@.len() implies cj_ok(#[trigger] a.conjunctions@[k], n) by { assert(cj_ok(b.conjunctions@[k], n)); } }
}
/// what is sent can be written in a message
pub proof fn lemma_fits(c: SpecificDisjunction, q: Disjunction, m: Map<usize, SpecificClock>, n: int)
    requires disj_names(c, q, m), dj_ok(q, n), n <= u32::MAX
    ensures disj_fits(c)
{
    assert forall|i: int| 0 <= i < c.conjunctions@.len() implies conj_fits(#[trigger] c.conjunctions@[i]) by {
        let (x, y) = (c.conjunctions@[i], q.conjunctions@[i]);
        assert(conj_names(x, y, m) && cj_ok(y, n));
        assert forall|k: int| 0 <= k < x.constraints@.len() implies con_fits(#[trigger] x.constraints@[k]) by { assert(con_names(x.constraints@[k], y.constraints@[k], m) && c_ok(y.constraints@[k], n)); }
    }
}
/// the message of what is sent means what was sent
pub proof fn lemma_means(c: SpecificDisjunction, p: ProtoDisjunction, q: Disjunction, m: Map<usize, SpecificClock>, ls: Seq<ComponentInfo>)
    requires disj_names(c, q, m), disj_msg(c, p), clock_map(m, ls, ls.len() as int)
    ensures disj_says(p, q, ls)
{
    assert forall|i: int| 0 <= i < q.conjunctions@.len() implies conj_says(p.conjunctions@[i], #[trigger] q.conjunctions@[i], ls) by {
        let (x, y, z) = (c.conjunctions@[i], q.conjunctions@[i], p.conjunctions@[i]);
        assert(conj_names(x, y, m) && conj_msg(x, z));
        assert forall|k: int| 0 <= k < y.constraints@.len() implies con_says(z.constraints@[k], #[trigger] y.constraints@[k], ls) by {
            assert(con_names(x.constraints@[k], y.constraints@[k], m)); assert(con_msg(x.constraints@[k], z.constraints@[k]));
        }
    }
}
/// the system finds its locations by what is sent of them
pub open spec fn finds(t: TransitionSystemPtr, l: LocationTree) -> bool { t.spec_loc(place(l.id, t.infos())) == Some(l) }
/// a state that is sent and read again is the same state: its location, and its zone
pub proof fn lemma_round(s: State, sp: SpecificState, p: ProtoState, r: State, t: TransitionSystemPtr)
    requires
        sendable(s, t), sent(sp, s, t), p.location_tree is Some, p.zone is Some, loc_msg(sp.locations, p.location_tree->0), disj_msg(sp.constraints, p.zone->0),
        distinct(leaves(t.infos())), finds(t, s.decorated_locations), forall|v: Val| vok(v, t.n()) && #[trigger] s.zone_sentinel->0.has(v) ==> inv_has(s.decorated_locations, v),
    ensures
        readable(p, t),
        read(r, p, t) ==> r.decorated_locations == s.decorated_locations && st_ok(r, t.n()) && forall|v: Val| vok(v, t.n()) ==> (#[trigger] r.zone_sentinel->0.has(v) <==> s.zone_sentinel->0.has(v)),
{
    let (d, m) = choose|d: Disjunction, m: Map<usize, SpecificClock>| #[trigger] disj_names(sp.constraints, d, m) && means(d, s.zone_sentinel->0) && clock_map(m, leaves(t.infos()), leaves(t.infos()).len() as int);
    lemma_means(sp.constraints, p.zone->0, d, m, leaves(t.infos()));
    assert forall|l: SL| #[trigger] loc_msg(l, p.location_tree->0) implies t.spec_loc(l) == Some(s.decorated_locations) by { lemma_loc_msg(l, sp.locations, p.location_tree->0); }
    assert(zone_says(p.zone->0, t.n(), leaves(t.infos())));
    if read(r, p, t) {
        assert forall|v: Val| vok(v, t.n()) implies (#[trigger] r.zone_sentinel->0.has(v) <==> s.zone_sentinel->0.has(v)) by { assert(disj_says(p.zone->0, d, leaves(t.infos()))); }
    }
}
/// what is sent can be put in a message
pub proof fn lemma_place(id: LocationID, t: IT)
    requires shaped(id, t)
    ensures branches(place(id, t))
    decreases id
{
    match id {
        LocationID::Conjunction(a, b) => { lemma_place(*a, *t->Node_0); lemma_place(*b, *t->Node_1); }
        LocationID::Composition(a, b) => { lemma_place(*a, *t->Node_0); lemma_place(*b, *t->Node_1); }
        LocationID::Quotient(a, b) => { lemma_place(*a, *t->Node_0); lemma_place(*b, *t->Node_1); }
        _ => {}
    }
}
pub open spec fn pz(p: StatePair) -> OwnedFederation { p.zone_sentinel->0 }
pub proof fn lemma_two(m: Map<usize, SpecificClock>, o: Map<usize, SpecificClock>, a: Seq<ComponentInfo>, b: Seq<ComponentInfo>)
    requires clock_map(m, a, a.len() as int), clock_map(o, b, b.len() as int)
    ensures clock_map(m.union_prefer_right(o), a + b, (a + b).len() as int)
{
    let u = m.union_prefer_right(o); let ls = a + b;
    assert forall|i: usize| #[trigger] u.contains_key(i) implies says_clock(u[i], i, ls) by {
        if o.contains_key(i) { let k = choose|k: int| 0 <= k < b.len() && clock_in(#[trigger] b[k], o[i].comp, o[i].name, i); assert(ls[a.len() + k] == b[k]); }
        else { let k = choose|k: int| 0 <= k < a.len() && clock_in(#[trigger] a[k], m[i].comp, m[i].name, i); assert(ls[k] == a[k]); }
    }
    assert forall|k: int, x: String| 0 <= k < ls.len() && #[trigger] ls[k].declarations.clocks@.contains_key(x) implies u.contains_key(ls[k].declarations.clocks@[x]) by {
        if k < a.len() { assert(ls[k] == a[k]); assert(m.contains_key(a[k].declarations.clocks@[x])); } else { assert(ls[k] == b[k - a.len()]); assert(o.contains_key(b[k - a.len()].declarations.clocks@[x])); }
    }
}
/// what a message means is one zone only
pub proof fn lemma_unique(p: ProtoDisjunction, a: Disjunction, b: Disjunction, ls: Seq<ComponentInfo>)
    requires distinct(ls), disj_says(p, a, ls), disj_says(p, b, ls)
    ensures same_disj(a, b)
{
    assert forall|i: int| 0 <= i < b.conjunctions@.len() implies same_conj(a.conjunctions@[i], #[trigger] b.conjunctions@[i]) by {
        let (x, y, z) = (a.conjunctions@[i], b.conjunctions@[i], p.conjunctions@[i]);
        assert(conj_says(z, x, ls) && conj_says(z, y, ls));
        assert forall|k: int| 0 <= k < y.constraints@.len() implies same_con(x.constraints@[k], #[trigger] y.constraints@[k]) by {
            let (c, d, e) = (x.constraints@[k], y.constraints@[k], z.constraints@[k]);
            assert(con_says(e, c, ls) && con_says(e, d, ls));
            lemma_pv(e.x->0, c.i, d.i, ls); lemma_pv(e.y->0, c.j, d.j, ls);
        }
    }
}
