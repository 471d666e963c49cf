@unit save
@file U src/EdgeEval/updater.rs
@file T src/ModelObjects/transition.rs
@file L src/TransitionSystems/location_tree.rs
@file I src/TransitionSystems/location_id.rs
@file D src/TransitionSystems/transition_id.rs
@file M src/ModelObjects/location.rs
@file Z src/System/specifics.rs
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file C src/ModelObjects/component.rs
@file E src/ModelObjects/edge.rs
@file P src/DataReader/parse_edge.rs
@file S src/ModelObjects/state.rs
@file W src/System/query_failures.rs
@file V src/System/save_component.rs
@getmut
@optthen
@setfn get_input_actions get_output_actions get_actions
@subst & decl . clocks =>> vx_pairs ( & decl . clocks )
@subst clocks . clone ( ) . into_iter ( ) =>> vx_entries ( vx_map_clone ( clocks ) ) . into_iter ( )
@subst decls [ 0 ] . clocks . clone ( ) =>> vx_map_clone ( & decls [ 0 ] . clocks )
@subst locations . contains ( & target_location ) =>> vx_contains ( & locations , & target_location )
@subst for location in locations =>> for location in locations . iter ( )
@subst for loc in locations =>> for loc in locations . iter ( )
@type A ArithExpression clone eq
@type B BoolExpression clone eq
@type C Declarations
@type P Update
@type E SyncType copy eq
@type E Edge
@type M LocationType copy eq
@type M Location
@type C Component
@type U CompiledUpdate clone
@type D TransitionID clone eq
@type I LocationID clone eq hash
@type Z SpecialLocation clone eq
@type W SystemType copy eq
@type Z SpecificComp
@type Z SpecificLocation
@type L CompositionType copy eq
@type L LocationTree clone
@type T Transition clone
@type S State clone
@include common.inc
@include sets.inc
@include fed.inc
@include arith.inc
@include upd.inc
@include trans.inc
@include ts.inc
@include zone.inc
@include save.inc
@type V PruningStrategy
@prelude
use PruningStrategy::*;
@endprelude
@import enable B BoolExpression::from_disjunction
@import transition T Transition::move_locations
@import transition L LocationTree::get_invariants
@import comp L LocationTree::is_initial
@fn L LocationTree@PartialEq::eq -> r
    ensures r <==> same(*self, *other)
@fn V get_clock_map -> r
    ensures clock_names(r@, sysrep.decls())
@attr verifier::loop_isolation(false)
@attr verifier::exec_allows_no_decreases_clause
@hint start
let ghost ds = sysrep.decls();
proof { if ds.len() == 1 { lemma_one_decl(ds); } }
@hint after "let decls"
proof { assert(decls.len() == ds.len()); }
@loop 0
    invariant it0.seq().len() == ds.len(), forall|i: int| 0 <= i < ds.len() ==> *#[trigger] it0.seq()[i] == ds[i], decls_in(clocks@, ds, it0.index@ as int), only(clocks@, ds), __vx_i1 == it0.index@, ds.len() <= usize::MAX
@hint loop 0 start
let ghost x = it0.index@ as int;
@loop 1
    invariant pairs_of(it1.seq(), ds[x].clocks@), decls_in(clocks@, ds, x), only(clocks@, ds), first_in(clocks@, it1.seq(), it1.index@ as int), it1.index@ == it1.seq().len() ==> decls_in(clocks@, ds, x + 1)
@hint loop 1 start
let ghost m0 = clocks@; let ghost j = it1.index@ as int;
@hint before "clocks.insert"
proof { lemma_insert(m0, name, *v, ds, x, it1.seq(), j); }
@hint loop 1 end
proof { lemma_decl_done(clocks@, ds, x, it1.seq(), j + 1); }
@fn U CompiledUpdate::as_update -> r
    requires declares(clocks@, self.clock_index + 1), self.clock_index > 0
    ensures upd_named(r, *self, clocks@)
@attr verifier::loop_isolation(false)
@collect 0 HashMap<usize,String>
@hint after "let map"
proof { lemma_entries(map@, clocks@, self.clock_index); }
@loop 0
    invariant entries_of(it0.seq(), clocks@), inverted_v(__vx_out1@, it0.seq(), it0.index@ as int), it0.index@ == it0.seq().len() ==> inv_all_v(__vx_out1@, clocks@)
@fn T Transition::get_renamed_guard_expression -> r
    requires declares(naming@, self.guard_zone.n())
    ensures means(r, self.guard_zone, naming@)
@hint start
proof { assert forall|g: Option<BoolExpression>, c: Disjunction| #![trigger written(g, c, naming@)] written(g, c, naming@) && dj_ok(c, self.guard_zone.n()) && (forall|v: Val| vok(v, self.guard_zone.n()) ==> (#[trigger] self.guard_zone.has(v) <==> dj(c, v))) implies means(g, self.guard_zone, naming@) by { lemma_means(g, c, self.guard_zone, naming@); } }
@fn T Transition::get_renamed_updates -> r
    requires exists|n: int| #[trigger] declares(naming@, n) && us_ok(self.updates@, n)
    ensures match r { None => self.updates@.len() == 0, Some(us) => upds_named(us@, self.updates@, self.updates@.len() as int, naming@) }
@attr verifier::loop_isolation(false)
@hint start
let ghost n = choose|n: int| #[trigger] declares(naming@, n) && us_ok(self.updates@, n);
@loop 0
    invariant it0.seq().len() == self.updates@.len(), forall|i: int| 0 <= i < self.updates@.len() ==> *#[trigger] it0.seq()[i] == self.updates@[i], upds_named(__vx_out1@, self.updates@, it0.index@ as int, naming@)
@hint loop 0 start
let ghost u = self.updates@[it0.index@ as int];
proof { assert(u_ok(u, n)); assert(declares(naming@, u.clock_index + 1)) by { assert forall|i: usize| 0 < i < u.clock_index + 1 implies #[trigger] named(naming@, i) by { assert(0 < i < n); } } }
@fn V get_locations_from_trees -> r
    requires exists|n: int| #[trigger] declares(clock_map@, n) && forall|i: int| 0 <= i < location_trees@.len() ==> loc_ok(#[trigger] location_trees@[i], n)
    ensures locs_saved(clock_map@, location_trees@, location_trees@.len() as int, r@)
@attr verifier::loop_isolation(false)
@hint start
let ghost m = clock_map@; let ghost ls = location_trees@; let ghost n = choose|n: int| #[trigger] declares(m, n) && forall|i: int| 0 <= i < ls.len() ==> loc_ok(#[trigger] ls[i], n);
proof { lemma_locs_saved0(m, ls, Seq::<Location>::empty()); assert forall|g: Option<BoolExpression>, c: Disjunction, f: OwnedFederation| #![trigger written(g, c, m), f.n()] written(g, c, m) && dj_ok(c, f.n()) && (forall|v: Val| vok(v, f.n()) ==> (#[trigger] f.has(v) <==> dj(c, v))) implies means(g, f, m) by { lemma_means(g, c, f, m); } }
@loop 0
    invariant it0.seq().len() == ls.len(), forall|i: int| 0 <= i < ls.len() ==> *#[trigger] it0.seq()[i] == ls[i], locs_saved(m, ls, it0.index@ as int, __vx_out1@)
@hint loop 0 start
let ghost k = it0.index@ as int; let ghost os = __vx_out1@;
proof { assert(loc_ok(ls[k], n)); }
@hint loop 0 end
proof { let o = __vx_out1@[os.len() as int]; lemma_locs_saved(m, ls, k, os, o); assert(__vx_out1@ =~= os.push(o)); }
@fn V collect_specific_edges_from_location
    requires representation.at(*location), declares(clock_map@, representation.n())
    ensures adds(*representation, clock_map@, seq![*location], 1, old(edges)@, final(edges)@), dir_done(*representation, clock_map@, *location, input, final(edges)@)
@attr verifier::loop_isolation(false)
@hint start
let ghost s = *representation; let ghost m = clock_map@; let ghost l = *location; let ghost es0 = edges@; let ghost one = seq![l];
proof { lemma_adds0(s, m, one, es0); lemma_adds_wider(s, m, one, 0, 1, es0, es0); lemma_acts0(s, m, l, input, es0); }
@loop 0
    invariant lists_v(it0.seq(), dir(s, input)), adds(s, m, one, 1, es0, edges@), acts_done(s, m, l, input, it0.seq(), it0.index@ as int, edges@), it0.index@ == it0.seq().len() ==> dir_done(s, m, l, input, edges@)
@hint loop 0 start
let ghost k = it0.index@ as int; let ghost es1 = edges@; let ghost a = sync;
proof { lemma_act0(s, m, l, input, a, es1); lemma_adds0(s, m, one, es1); lemma_adds_wider(s, m, one, 0, 1, es1, es1); }
@loop 1
    invariant it1.seq() == s.trans(l, a), adds(s, m, one, 1, es1, edges@), act_done(s, m, l, input, a, it1.index@ as int, edges@)
@hint loop 1 start
let ghost x = it1.index@ as int; let ghost es = edges@; let ghost t = s.trans(l, a)[x];
@hint after "let guard"
proof { if guard == Some(BoolExpression::Bool(false)) { lemma_false(t.guard_zone, m, Declarations { ints: arbitrary(), clocks: *clock_map }); } }
@hint loop 1 end
proof { if edges@.len() == es.len() { lemma_skip_edge(s, m, l, input, a, x, es); } else { let e = edges@[es.len() as int]; reveal(edge_of); assert(edge_of(m, l, input, a, t, e)); lemma_add_edge(s, m, l, input, a, x, es, e); assert(edges@ =~= es.push(e)); lemma_adds_trans(s, m, one, 1, es1, es, edges@); } }
@hint loop 0 end
proof { lemma_adds_grows(s, m, one, 1, es1, edges@); lemma_adds_trans(s, m, one, 1, es0, es1, edges@); lemma_acts(s, m, l, input, it0.seq(), k, es1, edges@); }
@fn V collect_edges_from_location
    requires representation.at(*location), declares(clock_map@, representation.n())
    ensures adds(*representation, clock_map@, seq![*location], 1, old(edges)@, final(edges)@), loc_done(*representation, clock_map@, *location, final(edges)@)
@hint start
proof { let s = *representation; let m = clock_map@; let l = *location;
    assert forall|x: bool, a: Seq<Edge>, b: Seq<Edge>, c: Seq<Edge>| #![trigger adds(s, m, seq![l], 1, a, b), adds(s, m, seq![l], 1, b, c), dir_done(s, m, l, x, b)] dir_done(s, m, l, x, b) && dir_done(s, m, l, !x, c) && adds(s, m, seq![l], 1, a, b) && adds(s, m, seq![l], 1, b, c) implies loc_done(s, m, l, c) && adds(s, m, seq![l], 1, a, c) by { lemma_loc_done(s, m, l, x, a, b, c); } }
@fn V collect_all_edges_and_locations
    requires old(locations)@.len() == 0, old(edges)@.len() == 0, declares(clock_map@, representation.n())
    ensures all_at(*representation, final(locations)@), final(locations)@ == representation.locs(), covers(*representation, clock_map@, final(locations)@, final(edges)@)
@attr verifier::loop_isolation(false)
@hint start
let ghost s = *representation; let ghost m = clock_map@;
@loop 0
    invariant it0.seq() == s.locs(), locations@ == it0.seq().take(it0.index@ as int)
@hint loop 0 end
proof { let k = it0.index@ as int; assert(it0.seq().take(k + 1) =~= it0.seq().take(k).push(it0.seq()[k])); }
@loop 1
    invariant it1.seq().len() == locations@.len(), forall|i: int| 0 <= i < locations@.len() ==> *#[trigger] it1.seq()[i] == locations@[i], sofar(s, m, locations@, it1.index@ as int, edges@)
@hint loop 1 before
proof { assert(locations@ =~= s.locs()); lemma_sofar0(s, m, locations@, edges@); }
@hint loop 1 start
let ghost k = it1.index@ as int; let ghost es = edges@;
@hint loop 1 end
proof { lemma_sofar(s, m, locations@, k, es, edges@); }
@fn V collect_reachable_locations
    requires representation.at(*location), all_at(*representation, old(locations)@)
    ensures explored(*representation, *location, old(locations)@, final(locations)@), closed_one(*representation, *location, final(locations)@)
@attr verifier::loop_isolation(false)
@attr verifier::exec_allows_no_decreases_clause
@hint start
let ghost s = *representation; let ghost l = *location; let ghost ls0 = locations@;
proof { lemma_explored0(s, l, ls0); }
@loop 0
    invariant it0.seq().len() == 2, *it0.seq()[0] == true, *it0.seq()[1] == false, explored(s, l, ls0, locations@), it0.index@ > 0 ==> dir_in(s, l, true, locations@), it0.index@ == 2 ==> dir_in(s, l, false, locations@)
@hint loop 0 start
let ghost d = *input; let ghost ls1 = locations@;
proof { lemma_acts_in0(s, l, ls1); lemma_grows0(ls1); lemma_dir_in_empty(s, l, d, ls1); }
@loop 1
    invariant lists_v(it1.seq(), dir(s, d)), explored(s, l, ls0, locations@), grows(ls1, locations@), acts_in(s, l, it1.seq(), it1.index@ as int, locations@), it1.index@ == it1.seq().len() ==> dir_in(s, l, d, locations@)
@hint loop 1 start
let ghost k = it1.index@ as int; let ghost a = sync; let ghost ls2 = locations@;
proof { lemma_grows0(ls2); }
@loop 2
    invariant it2.seq() == s.trans(l, a), explored(s, l, ls0, locations@), grows(ls2, locations@), trs_in(s, l, a, it2.index@ as int, locations@)
@hint loop 2 start
let ghost x = it2.index@ as int; let ghost t = s.trans(l, a)[x].target_locations; let ghost ls3 = locations@;
proof { lemma_explored_grows(s, l, ls0, ls3); lemma_grows0(ls3); }
@hint loop 2 end
proof { lemma_explore_step(s, l, ls0, ls3, t, locations@); lemma_grows_trans(ls2, ls3, locations@); lemma_trs_mono(s, l, a, x, ls3, locations@); }
@hint loop 1 end
proof { lemma_acts_in(s, l, d, it1.seq(), k, ls2, locations@); lemma_grows_trans(ls1, ls2, locations@); }
@hint loop 0 end
proof { if !d { lemma_dir_in_mono(s, l, true, ls1, locations@); } }
@fn V collect_reachable_edges_and_locations
    requires old(locations)@.len() == 0, old(edges)@.len() == 0, declares(clock_map@, representation.n())
    ensures all_at(*representation, final(locations)@), reached_all(*representation, final(locations)@), covers(*representation, clock_map@, final(locations)@, final(edges)@)
@attr verifier::loop_isolation(false)
@hint start
let ghost s = *representation; let ghost m = clock_map@;
proof { lemma_sofar0(s, m, locations@, edges@); }
@hint after "locations.push"
proof { assert(locations@ =~= seq![s.init()->0]); }
@hint loop 0 before
proof { lemma_explored_grows(s, s.init()->0, seq![s.init()->0], locations@); lemma_sofar0(s, m, locations@, edges@); }
@loop 0
    invariant it0.seq().len() == locations@.len(), forall|i: int| 0 <= i < locations@.len() ==> *#[trigger] it0.seq()[i] == locations@[i], sofar(s, m, locations@, it0.index@ as int, edges@)
@hint loop 0 start
let ghost k = it0.index@ as int; let ghost es = edges@;
@hint loop 0 end
proof { lemma_sofar(s, m, locations@, k, es, edges@); }
@fn V combine_components -> r
    requires sys_ok(*system)
    ensures exists|ls: Seq<LocationTree>| saved(*system, ls, r) && #[trigger] kept(*system, reachability is NoPruning, ls)
@hint after "let clocks"
proof { lemma_declares(clocks@, *system); }
@hint after "let locations"
proof { assert(kept(*system, reachability is NoPruning, location_trees@)); }
@end
