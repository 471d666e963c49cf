@unit transition
@file U src/EdgeEval/updater.rs
@file T src/ModelObjects/transition.rs
@file S src/ModelObjects/state.rs
@file L src/TransitionSystems/location_tree.rs
@file I src/TransitionSystems/location_id.rs
@file D src/TransitionSystems/transition_id.rs
@file M src/ModelObjects/location.rs
@file Z src/System/specifics.rs
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file G src/EdgeEval/constraint_applyer.rs
@file C src/ModelObjects/component.rs
@file E src/ModelObjects/edge.rs
@file P src/DataReader/parse_edge.rs
@type A ArithExpression clone eq
@type B BoolExpression clone eq
@type C Declarations
@type P Update
@type E SyncType copy eq
@type E Edge
@type M Location
@type C Component
@type U CompiledUpdate clone
@type D TransitionID clone eq
@type I LocationID clone eq
@type Z SpecialLocation clone eq
@type M LocationType copy eq
@type L CompositionType copy eq
@type L LocationTree clone
@type T Transition clone
@type S State clone
@include common.inc
@include fed.inc
@include arith.inc
@include upd.inc
@include trans.inc

@fn U CompiledUpdate::apply -> r
    requires u_ok(*self, fed.n())
    ensures r.n() == fed.n(), forall|v: Val| vok(v, fed.n()) ==> (#[trigger] r.has(v) <==> exists|u: Val| vok(u, fed.n()) && fed.has(u) && v == #[trigger] upd1(*self, u))
@hint start
proof {
    let u1 = *self; let n = fed.n(); let i = u1.clock_index as int;
    assert forall|v: Val| #[trigger] vok(v, n) && v[i] == (u1.value as int) as real implies ((exists|x: real| x >= 0real && fed.has(#[trigger] v.update(i, x))) <==> exists|u: Val| vok(u, n) && fed.has(u) && v == #[trigger] upd1(u1, u)) by {
        if exists|x: real| x >= 0real && fed.has(#[trigger] v.update(i, x)) {
            let x = choose|x: real| x >= 0real && fed.has(#[trigger] v.update(i, x));
            lemma_upd1_inv(u1, v, x, n);
            assert(v == upd1(u1, v.update(i, x)));
        }
        if exists|u: Val| vok(u, n) && fed.has(u) && v == #[trigger] upd1(u1, u) {
            let u = choose|u: Val| vok(u, n) && fed.has(u) && v == #[trigger] upd1(u1, u);
            assert(v.update(i, u[i]) =~= u);
        }
    }
}
@fn U CompiledUpdate::apply_as_free -> r
    requires u_ok(*self, fed.n())
    ensures r.n() == fed.n(), forall|v: Val| vok(v, fed.n()) ==> (#[trigger] r.has(v) <==> exists|x: real| x >= 0real && fed.has(#[trigger] v.update(self.clock_index as int, x)))
@fn U CompiledUpdate::apply_as_guard -> r
    requires u_ok(*self, fed.n())
    ensures r.n() == fed.n(), forall|v: Val| vok(v, fed.n()) ==> (#[trigger] r.has(v) <==> fed.has(v) && v[self.clock_index as int] == (self.value as int) as real)
@fn L LocationTree::get_invariants -> r
    ensures r == (match self.invariant { Some(f) => Some(&f), None => None::<&OwnedFederation> })
@fn L LocationTree::apply_invariants -> r
    requires loc_ok(*self, fed.n())
    ensures r.n() == fed.n(), forall|v: Val| #![trigger r.has(v)] #![trigger fed.has(v)] vok(v, fed.n()) ==> (r.has(v) <==> fed.has(v) && inv_has(*self, v))
@fn S State::new -> r
    ensures r.decorated_locations == decorated_locations, r.zone_sentinel == Some(zone)
@fn S State::zone_ref -> r
    requires self.zone_sentinel is Some
    ensures *r == self.zone_sentinel->0
@fn S State::take_zone -> r
    requires old(self).zone_sentinel is Some
    ensures r == old(self).zone_sentinel->0, final(self).zone_sentinel is None, final(self).decorated_locations == old(self).decorated_locations
@fn S State::set_zone
    ensures final(self).zone_sentinel == Some(zone), final(self).decorated_locations == old(self).decorated_locations
@fn S State::apply_invariants
    requires st_ok(*old(self), old(self).zone_sentinel->0.n()), loc_ok(old(self).decorated_locations, old(self).zone_sentinel->0.n())
    ensures final(self).decorated_locations == old(self).decorated_locations, st_ok(*final(self), old(self).zone_sentinel->0.n()),
        forall|v: Val| vok(v, old(self).zone_sentinel->0.n()) ==> (#[trigger] final(self).zone_sentinel->0.has(v) <==> old(self).zone_sentinel->0.has(v) && inv_has(old(self).decorated_locations, v))
@fn S State::from_location -> r
    requires dimensions > 0, loc_ok(decorated_locations, dimensions as int)
    ensures
        r is Some <==> exists|v: Val| vok(v, dimensions as int) && #[trigger] all_same(v) && inv_has(decorated_locations, v),
        r is Some ==> r->0.decorated_locations == decorated_locations && st_ok(r->0, dimensions as int)
            && forall|v: Val| vok(v, dimensions as int) ==> (#[trigger] r->0.zone_sentinel->0.has(v) <==> all_same(v) && inv_has(decorated_locations, v)),
@hint before "return None"
proof { assert forall|v: Val| vok(v, dimensions as int) && #[trigger] all_same(v) implies !inv_has(decorated_locations, v) by { assert(!fed.has(v)); } }
@fn T Transition::without_id -> r
    requires dim > 0
    ensures r.id is None, r.target_locations == *target_locations, r.updates@.len() == 0, r.guard_zone.n() == dim, forall|v: Val| vok(v, dim as int) ==> #[trigger] r.guard_zone.has(v)
@fn T Transition::apply_guards -> r
    requires zone.n() == self.guard_zone.n()
    ensures r.n() == zone.n(), forall|v: Val| #![trigger r.has(v)] #![trigger zone.has(v)] vok(v, zone.n()) ==> (r.has(v) <==> zone.has(v) && self.guard_zone.has(v))
@fn T Transition::move_locations
    ensures *final(locations) == self.target_locations
@fn T Transition::apply_updates -> r
    requires us_ok(self.updates@, fed.n())
    ensures r.n() == fed.n(), forall|v: Val| vok(v, fed.n()) ==> (#[trigger] r.has(v) <==> exists|u: Val| vok(u, fed.n()) && fed.has(u) && v == #[trigger] upd(self.updates@, u)),
        forall|u: Val| vok(u, fed.n()) && #[trigger] fed.has(u) ==> r.has(upd(self.updates@, u))
@attr verifier::loop_isolation(false)
@hint start
let ghost f0 = fed; let ghost us = self.updates@; let ghost n = fed.n();
proof { assert forall|v: Val| vok(v, n) implies (#[trigger] f0.has(v) <==> in_img(f0, us, 0, v)) by { if f0.has(v) { assert(img(f0, us, 0, v, v)); } } }
@loops 1
@loop 0
    invariant fed.n() == n, us == self.updates@, it0.seq().len() == us.len(), forall|i: int| 0 <= i < us.len() ==> *#[trigger] it0.seq()[i] == us[i],
        forall|v: Val| vok(v, n) ==> (#[trigger] fed.has(v) <==> in_img(f0, us, it0.index@ as int, v))
@hint loop 0 start
let ghost g0 = fed; let ghost k = it0.index@ as int;
@hint loop 0 end
proof {
    assert forall|v: Val| vok(v, n) implies (#[trigger] fed.has(v) <==> in_img(f0, us, k + 1, v)) by {
        reveal_with_fuel(updk, 2);
        if fed.has(v) {
            let w = choose|w: Val| vok(w, n) && g0.has(w) && v == #[trigger] upd1(us[k], w);
            let u = choose|u: Val| #[trigger] img(f0, us, k, w, u);
            assert(img(f0, us, k + 1, v, u));
        }
        if in_img(f0, us, k + 1, v) {
            let u = choose|u: Val| #[trigger] img(f0, us, k + 1, v, u);
            let w = updk(us, k, u);
            lemma_updk_vok(us, k, u, n);
            assert(img(f0, us, k, w, u));
            assert(g0.has(w));
            assert(v == upd1(us[k], w));
        }
    }
}
@hint end
proof {
    assert forall|v: Val| vok(v, n) implies (in_img(f0, us, us.len() as int, v) <==> exists|u: Val| vok(u, n) && f0.has(u) && v == #[trigger] upd(us, u)) by {
        if in_img(f0, us, us.len() as int, v) { let u = choose|u: Val| #[trigger] img(f0, us, us.len() as int, v, u); assert(v == upd(us, u)); }
        if exists|u: Val| vok(u, n) && f0.has(u) && v == #[trigger] upd(us, u) { let u = choose|u: Val| vok(u, n) && f0.has(u) && v == #[trigger] upd(us, u); assert(img(f0, us, us.len() as int, v, u)); }
    }
    assert forall|u: Val| vok(u, n) && #[trigger] f0.has(u) implies fed.has(upd(us, u)) by { lemma_updk_vok(us, us.len() as int, u, n); let v = upd(us, u); assert(img(f0, us, us.len() as int, v, u)); }
}
@fn T Transition::use_transition -> r
    requires st_ok(*old(state), self.guard_zone.n()), tr_ok(*self, self.guard_zone.n())
    ensures
        r <==> exists|v: Val| vok(v, self.guard_zone.n()) && #[trigger] reached(*self, old(state).zone_sentinel->0, v),
        st_ok(*final(state), self.guard_zone.n()),
        r ==> final(state).decorated_locations == self.target_locations
            && forall|v: Val| vok(v, self.guard_zone.n()) ==> (#[trigger] final(state).zone_sentinel->0.has(v) <==> reached(*self, old(state).zone_sentinel->0, v)),
@hint start
let ghost z0 = state.zone_sentinel->0; let ghost n = self.guard_zone.n(); let ghost us = self.updates@; let ghost t = *self;
@hint before "zone = self.apply_updates"
proof {
    assert forall|u: Val| vok(u, n) && z0.has(u) && t.guard_zone.has(u) implies vok(#[trigger] upd(us, u), n) && back(upd(us, u), 0real) == upd(us, u) by { lemma_reached_some(t, z0, u); }
}
@hint before "state.set_zone(zone)"
proof {
    assert forall|v: Val| vok(v, n) implies (#[trigger] zone.has(v) <==> reached(t, z0, v)) by {}
}
@hint end
proof {
    let zf = state.zone_sentinel->0;
    assert forall|v: Val| vok(v, n) implies !#[trigger] reached(t, z0, v) by {
        if reached(t, z0, v) {
            let (u, d) = choose|u: Val, d: real| #![trigger back(v, d), upd(us, u)] vok(u, z0.n()) && z0.has(u) && t.guard_zone.has(u) && d >= 0real && back(v, d) == upd(us, u);
            assert(!zf.has(u)); assert(!zf.has(v));
        }
    }
}
@fn T Transition::use_transition_alt -> r
    requires st_ok(*state, self.guard_zone.n()), tr_ok(*self, self.guard_zone.n())
    ensures
        r is Some <==> exists|v: Val| vok(v, self.guard_zone.n()) && #[trigger] reached(*self, state.zone_sentinel->0, v),
        r is Some ==> st_ok(r->0, self.guard_zone.n()) && r->0.decorated_locations == self.target_locations
            && forall|v: Val| vok(v, self.guard_zone.n()) ==> (#[trigger] r->0.zone_sentinel->0.has(v) <==> reached(*self, state.zone_sentinel->0, v)),
@subst state.to_owned() =>> state.clone()
@fn T Transition::inverse_apply_updates -> r
    requires us_ok(self.updates@, fed.n())
    ensures r.n() == fed.n(), forall|v: Val| vok(v, fed.n()) ==> (#[trigger] r.has(v) <==> fed.has(upd(self.updates@, v)))
@attr verifier::loop_isolation(false)
@hint start
let ghost f0 = fed; let ghost us = self.updates@; let ghost n = fed.n(); let ghost m = us.len() as int;
@loops 1
@loop 0
    invariant fed.n() == n, us == self.updates@, it0.seq().len() == m, forall|i: int| 0 <= i < m ==> *#[trigger] it0.seq()[i] == us[m - 1 - i],
        forall|v: Val| vok(v, n) ==> (#[trigger] fed.has(v) <==> f0.has(updj(us, m - it0.index@ as int, v)))
@hint loop 0 start
let ghost g0 = fed; let ghost j = m - it0.index@ as int;
proof { assert(*update == us[j - 1]); }
@hint loop 0 end
proof {
    let u = us[j - 1]; let i = u.clock_index as int; let c = (u.value as int) as real;
    assert forall|v: Val| vok(v, n) implies (#[trigger] fed.has(v) <==> f0.has(updj(us, j - 1, v))) by {
        reveal_with_fuel(updj, 2);
        lemma_upd1_vok(u, v, n);
        assert(upd1(u, v)[i] == c);
        assert(upd1(u, v) == v.update(i, c));
        assert(updj(us, j - 1, v) == updj(us, j, upd1(u, v)));
        if fed.has(v) {
            let x = choose|x: real| x >= 0real && #[trigger] v.update(i, x) == v.update(i, x) && g0.has(v.update(i, x)) && v.update(i, x)[i] == c && vok(v.update(i, x), n);
        }
    }
}
@hint end
proof { assert forall|v: Val| vok(v, n) implies updj(us, 0, v) == upd(us, v) by { lemma_updj(us, 0, v); } }
@fn T Transition::get_allowed_federation -> r
    requires tr_ok(*self, self.guard_zone.n())
    ensures r.n() == self.guard_zone.n(),
        forall|v: Val| vok(v, self.guard_zone.n()) ==> (#[trigger] r.has(v) <==> self.guard_zone.has(v) && inv_has(self.target_locations, upd(self.updates@, v)))
@hint start
proof { let n = self.guard_zone.n(); let us = self.updates@; assert forall|v: Val| vok(v, n) implies vok(#[trigger] upd(us, v), n) by { lemma_updk_vok(us, us.len() as int, v, n); } }
@fn C Component@DeclarationProvider::get_declarations -> r
    ensures *r == self.declarations
@fn C Declarations::get_clock_index_by_name -> r
    ensures match r { Some(i) => look(self.clocks, mk(name@)) == Some(*i), None => look(self.clocks, mk(name@)) is None }
@fn C Component::get_location_by_name -> r
    requires one_loc(*self, mk(name@))
    ensures loc_named(*self, mk(name@), *r)
@attr verifier::loop_isolation(false)
@loops 1
@loop 0
    invariant it0.seq().len() == self.locations@.len(), forall|i: int| 0 <= i < self.locations@.len() ==> *#[trigger] it0.seq()[i] == self.locations@[i],
        __vx_out1@.len() == (if it0.index@ > w { 1int } else { 0 }), __vx_out1@.len() == 1 ==> *__vx_out1@[0] == self.locations@[w],
@hint start
let ghost w = choose|i: int| 0 <= i < self.locations@.len() && (#[trigger] self.locations@[i]).id == mk(name@) && forall|j: int| 0 <= j < self.locations@.len() && (#[trigger] self.locations@[j]).id == mk(name@) ==> j == i;
@fn P Update::get_expression -> r
    ensures *r == self.expression
@fn P Update::get_variable_name -> r
    ensures r@ == self.variable@
@fn U CompiledUpdate::compile -> r
    requires update.expression is Int, look(decl.clocks, update.variable) is Some
    ensures compiled_as(*update, *decl, r)
@fn P Update::compiled -> r
    requires self.expression is Int, look(decl.clocks, self.variable) is Some
    ensures compiled_as(*self, *decl, r)
@import guard G apply_constraints_to_state
@fn E Edge::get_guard -> r
    ensures *r == self.guard
@fn E Edge::get_update -> r
    ensures *r == self.update
@fn E Edge::apply_guard -> r
    requires edge_guard_ok(*self, *decl, fed.n()), fed.n() > 0
    ensures r.n() == fed.n(), forall|v: Val| vok(v, fed.n()) ==> (#[trigger] r.has(v) <==> fed.has(v) && edge_sat(*self, *decl, v))
@fn T Transition::combine_edge_guards -> r
    requires dim > 0, forall|i: int| 0 <= i < edges@.len() ==> edge_guard_ok(*(#[trigger] edges@[i]).1, edges@[i].0.declarations, dim as int)
    ensures r.n() == dim, forall|v: Val| vok(v, dim as int) ==> (#[trigger] r.has(v) <==> forall|i: int| 0 <= i < edges@.len() ==> edge_sat(*(#[trigger] edges@[i]).1, edges@[i].0.declarations, v))
@attr verifier::loop_isolation(false)
@loops 1
@loop 0
    invariant fed.n() == dim, it0.seq().len() == edges@.len(), forall|i: int| 0 <= i < edges@.len() ==> *#[trigger] it0.seq()[i] == edges@[i],
        forall|v: Val| vok(v, dim as int) ==> (#[trigger] fed.has(v) <==> forall|i: int| 0 <= i < it0.index@ ==> edge_sat(*(#[trigger] edges@[i]).1, edges@[i].0.declarations, v))
@fn L LocationTree::simple -> r
    requires dim > 0, opt_ok(location.invariant, *decls, dim as int)
    ensures r.id == LocationID::Simple(location.id), r.loc_type == location.location_type, r.left is None, r.right is None, loc_ok(r, dim as int),
        forall|v: Val| vok(v, dim as int) ==> (#[trigger] inv_has(r, v) <==> opt_sat(location.invariant, *decls, v))
@fn L LocationTree::universal -> r
    ensures r.id == LocationID::Special(SpecialLocation::Universal), r.loc_type is Universal, r.invariant is None
@fn L LocationTree::error -> r
    requires 0 < quotient_clock_index < dim
    ensures r.id == LocationID::Special(SpecialLocation::Error), r.loc_type is Inconsistent, r.invariant is Some, loc_ok(r, dim as int),
        forall|v: Val| vok(v, dim as int) ==> (#[trigger] inv_has(r, v) <==> v[quotient_clock_index as int] == 0real)
@fn M LocationType::combine -> r
    ensures r == (if self is Initial && other is Initial { LocationType::Initial } else { LocationType::Normal })
@fn L LocationTree::merge_as_quotient -> r
    ensures r.id == LocationID::Quotient(Box::new(left.id), Box::new(right.id)), r.invariant is None,
        r.left is Some, *r.left->0 == *left, r.right is Some, *r.right->0 == *right,
        (r.loc_type is Initial <==> left.loc_type is Initial && right.loc_type is Initial), r.loc_type is Initial || r.loc_type is Normal,
@fn L LocationTree::compose -> r
    requires comp is Conjunction || comp is Composition, left.invariant is Some && right.invariant is Some ==> left.invariant->0.n() == right.invariant->0.n()
    ensures composed(*left, *right, comp, r)
@fn T Transition::from_component_and_edge -> r
    requires dim > 0, edge_ok(*comp, *edge, dim as int)
    ensures edge_trans(*comp, *edge, dim as int, r)
@attr verifier::loop_isolation(false)
@loops 1
@loop 0
    invariant it0.seq().len() == edge.update->0@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *#[trigger] it0.seq()[i] == edge.update->0@[i],
        compiled_updates@.len() == it0.index@, forall|i: int| 0 <= i < it0.index@ ==> compiled_as(edge.update->0@[i], comp.declarations, #[trigger] compiled_updates@[i])
@hint before "let target_locations"
proof { assert(loc_named(*comp, edge.target_location, *target_loc)); }
@hint end
proof {
    assert forall|v: Val| vok(v, dim as int) implies (#[trigger] r.guard_zone.has(v) <==> edge_sat(*edge, comp.declarations, v)) by {
        let es = seq![(comp, edge)];
        if r.guard_zone.has(v) { assert(es[0] == (comp, edge)); }
    }
    assert(loc_named(*comp, edge.target_location, *target_loc) && at_loc(*comp, *target_loc, dim as int, r.target_locations));
    assert forall|i: int| 0 <= i < r.updates@.len() implies u_ok(#[trigger] r.updates@[i], dim as int) by { assert(upd_ok(edge.update->0@[i], comp.declarations, dim as int)); }
}
@fn T Transition::combinations -> r
    requires comp is Conjunction || comp is Composition, n_ok(left@, right@)
    ensures product(left@, right@, comp, r@)
@attr verifier::loop_isolation(false)
@attr verifier::spinoff_prover
@loops 2
@loop 0
    invariant it0.seq().len() == left@.len(), forall|i: int| 0 <= i < left@.len() ==> *#[trigger] it0.seq()[i] == left@[i],
        out@.len() == it0.index@ * right@.len(),
        forall|i: int, j: int| 0 <= i < it0.index@ && 0 <= j < right@.len() ==> #[trigger] comb_at(left@, right@, comp, out@, i, j),
@loop 1
    invariant it1.seq().len() == right@.len(), forall|i: int| 0 <= i < right@.len() ==> *#[trigger] it1.seq()[i] == right@[i],
        out@.len() == it0.index@ * right@.len() + it1.index@,
        forall|i: int, j: int| 0 <= i < it0.index@ && 0 <= j < right@.len() ==> #[trigger] comb_at(left@, right@, comp, out@, i, j),
        forall|j: int| 0 <= j < it1.index@ ==> #[trigger] comb_at(left@, right@, comp, out@, it0.index@ as int, j),
@hint loop 1 start
let ghost o0 = out@; let ghost i0 = it0.index@ as int; let ghost j0 = it1.index@ as int;
proof { assert(*l == left@[i0]); assert(*r == right@[j0]); }
@hint loop 1 end
proof {
    assert(out@.len() == o0.len() + 1);
    assert(comb(left@[i0], right@[j0], comp, out@[i0 * right@.len() + j0]));
    assert forall|i: int, j: int| 0 <= i < i0 && 0 <= j < right@.len() implies #[trigger] comb_at(left@, right@, comp, out@, i, j) by {
        assert(comb_at(left@, right@, comp, o0, i, j));
        lemma_index(i, j, i0, right@.len() as int);
    }
    assert forall|j: int| 0 <= j <= j0 implies #[trigger] comb_at(left@, right@, comp, out@, i0, j) by {
        if j < j0 { assert(comb_at(left@, right@, comp, o0, i0, j)); }
    }
}
@hint loop 0 end
proof { let k = it0.index@ as int; let m = right@.len() as int; assert((k + 1) * m == k * m + m) by (nonlinear_arith); }
@end
