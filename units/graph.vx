@unit graph
@file U src/EdgeEval/updater.rs
@file T src/ModelObjects/transition.rs
@file L src/TransitionSystems/location_tree.rs
@file I src/TransitionSystems/location_id.rs
@file D src/TransitionSystems/transition_id.rs
@file M src/ModelObjects/location.rs
@file Z src/System/specifics.rs
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file C src/ModelObjects/component.rs
@file E src/ModelObjects/edge.rs
@file PE src/DataReader/parse_edge.rs
@file S src/ModelObjects/state.rs
@file R src/TransitionSystems/transition_system.rs
@file W src/System/query_failures.rs
@getmut
@setfn get_input_actions get_output_actions
@subst conjunction . iter ( ) =>> conjunction . constraints . iter ( )
@subst . iter_mut ( ) . enumerate ( ) =>> . iter ( ) . enumerate ( )
@subst new_groups . into_iter ( ) =>> vx_map_pairs ( new_groups ) . into_iter ( )
@subst K : Eq + Hash =>> K : Eq + std :: hash :: Hash
@subst used_clocks . clone ( ) =>> vx_set_clone ( used_clocks )
@subst equivalent_clock_group . clone ( ) =>> vx_set_clone ( equivalent_clock_group )
@subst & self . nodes =>> vx_pairs ( & self . nodes )
@type A ArithExpression clone eq
@type B BoolExpression clone eq
@type C Declarations
@type PE Update
@type E SyncType copy eq
@type E Edge
@type M Location
@type C Component
@type U CompiledUpdate clone
@type D TransitionID clone eq
@type I LocationID clone eq hash
@type Z SpecialLocation clone eq
@type W SystemType copy eq
@type Z SpecificComp
@type Z SpecificLocation
@type M LocationType copy eq
@type L CompositionType copy eq
@type L LocationTree clone
@type T Transition clone
@type S State clone
@type R ClockReductionInstruction
@type R ClockAnalysisNode
@type R ClockAnalysisEdge
@type R ClockAnalysisGraph
@include common.inc
@include sets.inc
@include fed.inc
@include arith.inc
@include upd.inc
@include trans.inc
@include ts.inc
@include tsdef.inc
@include graph.inc
@prelude
@endprelude
@trusted I LocationID::get_unique_string -> r
    ensures r == key(*self)
@fn R ClockAnalysisGraph::from_dim -> r
    ensures r.nodes@ == Map::<String, ClockAnalysisNode>::empty(), r.edges@.len() == 0, r.dim == dim
@fn R TransitionSystem::find_edges_and_nodes
    requires self.at(init_location), loc_ok(init_location, self.n()), keys_identify(*self), steps_in(*self), old(graph).dim == self.n(), old(graph).nodes@ == Map::<String, ClockAnalysisNode>::empty(), old(graph).edges@.len() == 0
    ensures final(graph).dim == old(graph).dim, tidy(*final(graph)), self.init() == Some(init_location) ==> shows(*final(graph), *self)
@selfas TransitionSystemPtr
@attr verifier::exec_allows_no_decreases_clause
@attr verifier::loop_isolation(false)
@loops 7
@hint start
let ghost sys = *self; let ghost mut done: Seq<LocationTree> = Seq::empty(); let ghost dim = graph.dim; let ghost init = init_location;
@hint loop 0 before
let ghost mut wl: Seq<LocationTree> = worklist@;
proof { assert(worklist@[0] == init); assert(walks(*graph, sys, done, worklist@, init)); }
@loop 0
    invariant walks(*graph, sys, done, worklist@, init), graph.dim == dim, tidy(*graph), wl == worklist@
@hint loop 0 start
let ghost l = location; let ghost w1 = worklist@; let ghost g0 = *graph;
proof { assert(wl =~= seq![l] + w1); assert(wl[0] == l); }
@loop 1
    invariant it1.seq() == cs, noted(cs, it1.index@ as int, node.invariant_dependencies@), node.id == key(l.id), below(node.invariant_dependencies@, dim as int)
@hint loop 1 before
let ghost cs = conjunctions@; let ghost ds = Disjunction { conjunctions };
@hint loop 1 start
let ghost x = it1.index@ as int; let ghost c = conjunction.constraints@;
@loop 2
    invariant it2.seq().len() == c.len(), forall|i: int| 0 <= i < c.len() ==> *#[trigger] it2.seq()[i] == c[i], noted(cs, x, node.invariant_dependencies@), noted1(c, it2.index@ as int, node.invariant_dependencies@), node.id == key(l.id), below(node.invariant_dependencies@, dim as int)
@hint loop 2 start
proof { assert(it2.seq()[it2.index@ as int] == constraint); assert(ds.conjunctions@[x].constraints@[it2.index@ as int] == *constraint); assert(mentions(ds, constraint.i) && mentions(ds, constraint.j)); assert(sys.at(l)); }
@hint before "graph.nodes.insert"
let ghost nd = node;
@hint loop 3 before
proof { lemma_visit(g0, *graph, sys, done, l, w1, init); }
@loop 3
    invariant it3.seq().len() == it3.seq().len(), lists(it3.seq(), actions@), walks_at(*graph, sys, done, l, worklist@, init), graph.dim == dim, tidy(*graph),
        forall|x: int| 0 <= x < it3.index@ ==> followed_act(*graph, sys, worklist@, l, *#[trigger] it3.seq()[x])
@hint loop 3 start
let ghost a = *action; let ghost ts = sys.trans(l, a); let ghost y = it3.index@ as int; let ghost as_ = it3.seq();
proof { assert(mk(action@) == a); assert(as_[y] == action); }
@loop 4
    invariant it4.seq() == ts, walks_at(*graph, sys, done, l, worklist@, init), graph.dim == dim, tidy(*graph), forall|x: int| 0 <= x < y ==> followed_act(*graph, sys, worklist@, l, *#[trigger] as_[x]), followed_upto(*graph, worklist@, ts, it4.index@ as int)
@hint loop 4 start
let ghost t = transition; let ghost k = it4.index@ as int; let ghost g1 = *graph; let ghost w2 = worklist@;
proof { assert(ts[k] == t); assert(ts_step(sys, l, ts)); assert(sys.at(t.target_locations)); }
@loop 5
    invariant it5.seq().len() == cs.len(), forall|i: int| 0 <= i < cs.len() ==> *#[trigger] it5.seq()[i] == cs[i], noted(cs, it5.index@ as int, edge.guard_dependencies@), edge.updates@ == t.updates@, below(edge.guard_dependencies@, dim as int)
@hint loop 5 before
let ghost cs = conjunctions@; let ghost ds = Disjunction { conjunctions };
@hint loop 5 start
let ghost x = it5.index@ as int; let ghost c = conjunction.constraints@;
proof { assert(it5.seq()[x] == conjunction); }
@loop 6
    invariant it6.seq().len() == c.len(), forall|i: int| 0 <= i < c.len() ==> *#[trigger] it6.seq()[i] == c[i], noted(cs, x, edge.guard_dependencies@), noted1(c, it6.index@ as int, edge.guard_dependencies@), edge.updates@ == t.updates@, below(edge.guard_dependencies@, dim as int)
@hint loop 6 start
proof { assert(it6.seq()[it6.index@ as int] == constraint); assert(ds.conjunctions@[x].constraints@[it6.index@ as int] == *constraint); assert(mentions(ds, constraint.i) && mentions(ds, constraint.j)); }
@hint loop 5 after
proof { assert(det(t.guard_zone, edge.guard_dependencies@)); }
let ghost ed = edge;
@hint loop 4 end
proof {
    assert(graph.edges@[g1.edges@.len() as int] == ed);
    assert forall|z: LocationTree| #[trigger] queued(w2, z) implies queued(worklist@, z) by { let i = choose|i: int| 0 <= i < w2.len() && #[trigger] w2[i] == z; assert(worklist@[i] == z); }
    if !graph.nodes@.contains_key(key(t.target_locations.id)) { assert(worklist@[w2.len() as int] == t.target_locations); }
    assert(followed(*graph, worklist@, t));
    lemma_follow(g1, *graph, sys, done, l, w2, worklist@, init, ts, k);
}
@hint loop 3 end
proof { assert(followed_act(*graph, sys, worklist@, l, a)); }
@hint loop 0 end
proof {
    assert forall|b: String| sys.acts().contains(b) implies #[trigger] followed_act(*graph, sys, worklist@, l, b) by { assert(actions@.contains(b)); }
    lemma_leave(*graph, sys, done, l, worklist@, init); done = done.push(l); wl = worklist@;
}
@hint loop 0 after
proof { if sys.init() == Some(init) { assert(worklist@ =~= Seq::empty()); lemma_shows(*graph, sys, done, init); } }
@fn R TransitionSystem::get_analysis_graph -> r
    requires keys_identify(*self), steps_in(*self)
    ensures shows(r, *self), r.dim == self.n(), tidy(r)
@selfas TransitionSystemPtr
@hint start
proof { let sys = *self; assert forall|k: nat, l: LocationTree| #[trigger] walk_to(sys, k, l) implies sys.init() is Some by { lemma_no_start(sys, k, l); } }
@fn R ClockAnalysisGraph::find_used_clocks -> r
    ensures forall|k: usize| #[trigger] r@.contains(k) <==> used(*self, k)
@attr verifier::loop_isolation(false)
@loops 4
@loop 0
    invariant it0.seq().len() == self.edges@.len(), forall|i: int| 0 <= i < self.edges@.len() ==> *#[trigger] it0.seq()[i] == self.edges@[i], forall|k: usize| #[trigger] used_clocks@.contains(k) <==> guard_upto(*self, it0.index@ as int, k)
@hint loop 0 start
let ghost x = it0.index@ as int; let ghost s0 = used_clocks@;
proof { assert(it0.seq()[x] == edge); }
@loop 1
    invariant lists(it1.seq(), self.edges@[x].guard_dependencies@), forall|k: usize| #[trigger] used_clocks@.contains(k) <==> s0.contains(k) || exists|i: int| 0 <= i < it1.index@ && *#[trigger] it1.seq()[i] == k
@hint loop 1 start
let ghost y = it1.index@ as int; let ghost sq = it1.seq(); let ghost s1 = used_clocks@;
@hint loop 1 end
proof { assert forall|k: usize| #[trigger] used_clocks@.contains(k) implies s0.contains(k) || exists|i: int| 0 <= i < y + 1 && *#[trigger] sq[i] == k by { if !s1.contains(k) { assert(*sq[y] == k); } }
    assert forall|k: usize| s0.contains(k) || (exists|i: int| 0 <= i < y + 1 && *#[trigger] sq[i] == k) implies #[trigger] used_clocks@.contains(k) by { } }
@loop 2
    invariant pairs_of(it2.seq(), self.nodes@), forall|k: usize| #[trigger] used_clocks@.contains(k) <==> guard_upto(*self, self.edges@.len() as int, k) || inv_upto(it2.seq(), it2.index@ as int, k)
@hint loop 2 start
let ghost x = it2.index@ as int; let ghost ps = it2.seq(); let ghost s0 = used_clocks@;
@loop 3
    invariant lists(it3.seq(), (*ps[x].1).invariant_dependencies@), forall|k: usize| #[trigger] used_clocks@.contains(k) <==> s0.contains(k) || exists|i: int| 0 <= i < it3.index@ && *#[trigger] it3.seq()[i] == k
@hint loop 3 start
let ghost y = it3.index@ as int; let ghost sq = it3.seq(); let ghost s1 = used_clocks@;
@hint loop 3 end
proof { assert forall|k: usize| #[trigger] used_clocks@.contains(k) implies s0.contains(k) || exists|i: int| 0 <= i < y + 1 && *#[trigger] sq[i] == k by { if !s1.contains(k) { assert(*sq[y] == k); } }
    assert forall|k: usize| s0.contains(k) || (exists|i: int| 0 <= i < y + 1 && *#[trigger] sq[i] == k) implies #[trigger] used_clocks@.contains(k) by { } }
@hint loop 2 end
proof {
    assert forall|k: usize| #[trigger] used_clocks@.contains(k) implies guard_upto(*self, self.edges@.len() as int, k) || inv_upto(ps, x + 1, k) by { if !s0.contains(k) { assert((*ps[x].1).invariant_dependencies@.contains(k)); } else if inv_upto(ps, x, k) { let i = choose|i: int| 0 <= i < x && (*(#[trigger] ps[i]).1).invariant_dependencies@.contains(k); assert(0 <= i < x + 1); } }
    assert forall|k: usize| guard_upto(*self, self.edges@.len() as int, k) || inv_upto(ps, x + 1, k) implies #[trigger] used_clocks@.contains(k) by {
        if !guard_upto(*self, self.edges@.len() as int, k) { let i = choose|i: int| 0 <= i < x + 1 && (*(#[trigger] ps[i]).1).invariant_dependencies@.contains(k); if i < x { assert(inv_upto(ps, x, k)); assert(s0.contains(k)); } else { assert((*ps[x].1).invariant_dependencies@.contains(k)); } } }
}
@hint loop 2 before
let ghost g = *self;
@hint loop 2 after
proof { assert forall|k: usize| k != 0 && #[trigger] used_clocks@.contains(k) implies used(g, k) by { } }
@trusted R ClockAnalysisGraph::get_or_insert -> r
    ensures old(map)@.contains_key(key) ==> *r == old(map)@[key], !old(map)@.contains_key(key) ==> call_ensures(V::default, (), *r), final(map)@ == old(map)@.insert(key, *final(r))
@fn R ClockAnalysisGraph::find_equivalent_clock_groups -> r
    requires used_clocks@.len() < 0x4000_0000
    ensures groups_ok(r@, *self, self.edges@.len() as int, used_clocks@)
@attr verifier::loop_isolation(false)
@loops 5
@hint start
let ghost g = *self; let ghost us = used_clocks@;
@hint loop 0 before
proof { assert(equivalent_clock_groups@[0]@ == us); }
@loop 0
    invariant it0.seq().len() == self.edges@.len(), forall|i: int| 0 <= i < self.edges@.len() ==> *#[trigger] it0.seq()[i] == self.edges@[i], groups_ok(equivalent_clock_groups@, g, it0.index@ as int, us)
@hint loop 0 start
let ghost x = it0.index@ as int; let ghost e = *edge; let ghost gs = equivalent_clock_groups@;
proof { assert(it0.seq()[x] == edge); lemma_groups_few(gs, g, x, us); }
@loop 1
    invariant it1.seq().len() == e.updates@.len(), forall|i: int| 0 <= i < e.updates@.len() ==> *#[trigger] it1.seq()[i] == e.updates@[i], local_ok(locally_equivalent_clock_groups@, e.updates@, it1.index@ as int)
@hint loop 1 start
let ghost y = it1.index@ as int;
proof { assert(it1.seq()[y] == update); }
@hint loop 1 after
let ghost lm = locally_equivalent_clock_groups@; let ghost mut nm: Map<usize, HashSet<usize>> = Map::empty(); let ghost mut es: Seq<(usize, HashSet<usize>)> = Seq::empty();
@loop 2
    invariant it2.seq().len() == gs.len(), forall|i: int| 0 <= i < gs.len() ==> *#[trigger] it2.seq()[i] == gs[i], __vx_i1 == it2.index@, group_offset == 0xffff_ffff + 0x1_ffff_fffe * it2.index@, split_upto(new_groups@, gs, lm, it2.index@ as int)
@hint loop 2 start
let ghost z = it2.index@ as int; let ghost m0 = new_groups@;
proof { assert(it2.seq()[z] == __vx_e1); }
@loop 3
    invariant lists(it3.seq(), gs[z]@), split_upto(new_groups@, gs, lm, z + 1)
@hint loop 3 start
let ghost m1 = new_groups@;
@hint loop 3 end
proof { lemma_split_step(m1, new_groups@, gs, lm, z, *clock); }
@loop 4
    invariant entries_of(it4.seq(), new_groups@), picks(fs, __vx_out1@, it4.seq(), it4.index@ as int)
@hint loop 4 start
let ghost o0 = __vx_out1@; let ghost w = it4.index@ as int;
@hint loop 4 end
proof { if __vx_out1@.len() > o0.len() { fs = fs.push(w); } }
@hint loop 4 before
let ghost mut fs: Seq<int> = Seq::empty();
proof { nm = new_groups@; }
@hint loop 4 after
proof { let ss = choose|s: Seq<(usize, HashSet<usize>)>| entries_of(s, nm) && #[trigger] picks(fs, __vx_out1@, s, s.len() as int); assert(picked(__vx_out1@, ss, ss.len() as int)); assert(exists|s: Seq<(usize, HashSet<usize>)>| entries_of(s, nm) && #[trigger] picked(__vx_out1@, s, s.len() as int)); es = choose|s: Seq<(usize, HashSet<usize>)>| entries_of(s, nm) && #[trigger] picked(__vx_out1@, s, s.len() as int); }
@hint loop 0 end
proof { lemma_regroup(gs, equivalent_clock_groups@, g, x, us, nm, lm, es); }
@fn R ClockReductionInstruction::clocks_removed_count -> r
    ensures r == instr_gone(*self).len()
@fn R ClockReductionInstruction::get_clock_index -> r
    ensures r == instr_lead(*self)
@fn R ClockAnalysisGraph::find_clock_redundancies -> r
    requires self.dim < 0x4000_0000, forall|k: usize| #[trigger] used(self, k) ==> k < self.dim
    ensures recipe_ok(r@, self)
@attr verifier::loop_isolation(false)
@attr verifier::exec_allows_no_decreases_clause
@loops 5
@hint start
let ghost g = self; let ghost dim = self.dim;
@loop 0
    invariant forall|k: usize| #[trigger] __vx_out1@.contains(k) <==> 1 <= k < 1 + it0.index@, it0.index@ <= (if dim >= 1 { dim - 1 } else { 0 })
@hint loop 0 after
proof { assert forall|k: usize| #[trigger] used(g, k) implies k < dim by { } lemma_bounded(used_clocks@, dim); }
@loop 1
    invariant lists(it1.seq(), used_clocks@), forall|k: usize| #[trigger] unused_clocks@.contains(k) <==> 1 <= k < dim && !(exists|i: int| 0 <= i < it1.index@ && *#[trigger] it1.seq()[i] == k)
@hint loop 1 start
let ghost y = it1.index@ as int; let ghost sq = it1.seq(); let ghost s0 = unused_clocks@;
@hint loop 1 end
proof {
    assert forall|k: usize| #[trigger] unused_clocks@.contains(k) implies 1 <= k < dim && !(exists|i: int| 0 <= i < y + 1 && *#[trigger] sq[i] == k) by { assert(s0.contains(k)); assert(k != *sq[y]); }
    assert forall|k: usize| 1 <= k < dim && !(exists|i: int| 0 <= i < y + 1 && *#[trigger] sq[i] == k) implies #[trigger] unused_clocks@.contains(k) by { assert(*sq[y] != k); assert(s0.contains(k)); }
}
@hint loop 1 after
let ghost un = unused_clocks@; let ghost mut q: Seq<&usize> = Seq::empty();
proof { assert forall|k: usize| #[trigger] un.contains(k) <==> 0 < k < dim && !used(g, k) by { assert(used_clocks@.contains(k) <==> used(g, k)); } }
@loop 2
    invariant lists(it2.seq(), un), it2.seq().no_duplicates(), removals(rv@, it2.seq(), it2.index@ as int)
@hint loop 2 after
proof { assert(exists|q: Seq<&usize>| lists(q, un) && q.no_duplicates() && #[trigger] removals(rv@, q, q.len() as int)); q = choose|q: Seq<&usize>| lists(q, un) && q.no_duplicates() && #[trigger] removals(rv@, q, q.len() as int); }
@hint loop 3 before
let ghost gs = equivalent_clock_groups@; let ghost rem = rv@;
@loop 3
    invariant __vx_n1 <= gs.len(), equivalent_clock_groups@.len() == gs.len(), forall|i: int| __vx_n1 <= i < gs.len() ==> #[trigger] equivalent_clock_groups@[i] == gs[i], merged(rv@, rem, gs, __vx_n1 as int)
@hint loop 3 start
let ghost x = __vx_n1 as int; let ghost rv0 = rv@;
@loop 4
    invariant lists(it4.seq(), gs[x]@), least(__vx_r1, it4.seq(), it4.index@ as int)
@hint loop 3 end
proof { assert(merge_of(rv@[rem.len() + x], gs[x]@)); }
@hint loop 3 after
proof { lemma_recipe(rv@, g, gs, rem, un, q); }
@fn R TransitionSystem::find_redundant_clocks -> r
    requires keys_identify(*self), steps_in(*self), self.n() < 0x4000_0000
    ensures forall|i: int| 0 <= i < r@.len() ==> sound(#[trigger] r@[i], *self),
        forall|i: int, j: int, k: usize| 0 <= i < r@.len() && 0 <= j < r@.len() && #[trigger] touches(r@[i], k) && #[trigger] touches(r@[j], k) ==> i == j
@selfas TransitionSystemPtr
@end
