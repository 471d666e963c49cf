@unit lists
@file U src/EdgeEval/updater.rs
@file L src/TransitionSystems/location_tree.rs
@file I src/TransitionSystems/location_id.rs
@file M src/ModelObjects/location.rs
@file Z src/System/specifics.rs
@file A src/ModelObjects/Expressions/arith_expression.rs
@file B src/ModelObjects/Expressions/bool_expression.rs
@file P src/ModelObjects/statepair.rs
@file Q src/DataTypes/statepair_list.rs
@getmut
@type I LocationID clone eq hash
@type Z SpecialLocation clone eq
@type M LocationType copy eq
@type L CompositionType copy eq
@type L LocationTree clone
@type P StatePair clone
@type Q DepthFirstWaitingStateList
@include common.inc
@include sets.inc
@include fed.inc
@include pair.inc
@prelude
@endprelude
@fn P StatePair::from_locations -> r
    requires dimensions > 0
    ensures r.locations1 == locations1, r.locations2 == locations2, pair_ok(r, dimensions as int), forall|v: Val| vok(v, dimensions as int) ==> (#[trigger] pz(r).has(v) <==> all_same(v))
@fn P StatePair::get_locations1 -> r
    ensures *r == self.locations1
@fn P StatePair::get_locations2 -> r
    ensures *r == self.locations2
@fn P StatePair::get_mut_states -> r
    ensures *r.0 == (if is_states1 { old(self).locations1 } else { old(self).locations2 }), *r.1 == (if is_states1 { old(self).locations2 } else { old(self).locations1 }),
        final(self).zone_sentinel == old(self).zone_sentinel, final(self).locations1 == (if is_states1 { *final(r.0) } else { *final(r.1) }), final(self).locations2 == (if is_states1 { *final(r.1) } else { *final(r.0) })
@fn P StatePair::get_locations -> r
    ensures *r.0 == (if is_states1 { self.locations1 } else { self.locations2 }), *r.1 == (if is_states1 { self.locations2 } else { self.locations1 })
@fn P StatePair::ref_zone -> r
    requires self.zone_sentinel is Some
    ensures *r == pz(*self)
@fn P StatePair::clone_zone -> r
    requires self.zone_sentinel is Some
    ensures r == pz(*self)
@fn P StatePair::take_zone -> r
    requires old(self).zone_sentinel is Some
    ensures r == pz(*old(self)), final(self).zone_sentinel is None, final(self).locations1 == old(self).locations1, final(self).locations2 == old(self).locations2
@fn P StatePair::set_zone
    ensures final(self).zone_sentinel == Some(zone), final(self).locations1 == old(self).locations1, final(self).locations2 == old(self).locations2
@fn Q PassedStateListFed@PassedStateListExt::put
    requires old(self).wf(pz(pair).n()), pair_ok(pair, pz(pair).n())
    ensures final(self).wf(pz(pair).n()),
        forall|k: Key, v: Val| vok(v, pz(pair).n()) ==> (#[trigger] final(self).covers(k, v) <==> old(self).covers(k, v) || k == key_of(pair) && pz(pair).has(v))
@selfas PassedMap
@fn Q PassedStateListFed@PassedStateListExt::has -> r
    requires self.wf(pz(*pair).n()), pair_ok(*pair, pz(*pair).n())
    ensures r <==> self.m@.contains_key(key_of(*pair)) && forall|v: Val| vok(v, pz(*pair).n()) && #[trigger] pz(*pair).has(v) ==> self.covers(key_of(*pair), v)
@selfas PassedMap
@fn Q DepthFirstWaitingStateList::new -> r
    ensures r.queue@.len() == 0, forall|n: int| r.wf(n)
@fn Q DepthFirstWaitingStateList::is_empty -> r
    ensures r <==> self.queue@.len() == 0
@fn Q DepthFirstWaitingStateList::pop -> r
    requires exists|n: int| #[trigger] old(self).wf(n)
    ensures forall|n: int| #[trigger] old(self).wf(n) ==> final(self).wf(n),
        r is None <==> old(self).queue@.len() == 0,
        r is None ==> final(self).queue@ == old(self).queue@,
        r is Some ==> old(self).queue@ == seq![r->0] + final(self).queue@
@hint start
proof {
        if old(self).queue@.len() > 0 {
            let p = old(self).queue@[0]; let q = old(self).queue@.subrange(1, old(self).queue@.len() as int);
            assert(old(self).queue@ =~= seq![p] + q);
            assert forall|k: Key| #[trigger] zones_of(old(self).queue@, k) == (if key_of(p) == k { seq![pz(p)] + zones_of(q, k) } else { zones_of(q, k) }) by { lemma_cons(p, q, k); }
            assert forall|k: Key| key_of(p) == k implies #[trigger] zones_of(old(self).queue@, k).subrange(1, zones_of(old(self).queue@, k).len() as int) == zones_of(q, k) by { assert(zones_of(old(self).queue@, k).subrange(1, zones_of(old(self).queue@, k).len() as int) =~= zones_of(q, k)); }
        }
}
@fn Q DepthFirstWaitingStateList@PassedStateListExt::put
    requires old(self).wf(pz(pair).n()), pair_ok(pair, pz(pair).n())
    ensures final(self).wf(pz(pair).n()), final(self).queue@ == seq![pair] + old(self).queue@
@hint start
proof {
        assert forall|k: Key| #[trigger] zones_of(seq![pair] + old(self).queue@, k) == (if key_of(pair) == k { seq![pz(pair)] + zones_of(old(self).queue@, k) } else { zones_of(old(self).queue@, k) }) by { lemma_cons(pair, old(self).queue@, k); }
        assert(zones_of(old(self).queue@, key_of(pair)).len() == 0 ==> seq![pz(pair)] + zones_of(old(self).queue@, key_of(pair)) =~= seq![pz(pair)]);
}
@fn Q DepthFirstWaitingStateList@PassedStateListExt::has -> r
    requires self.wf(pz(*pair).n()), pair_ok(*pair, pz(*pair).n())
    ensures r <==> self.contains(*pair)
@attr verifier::loop_isolation(false)
@hint start
proof {
        lemma_zones(self.queue@, key_of(*pair));
let q = self.queue@; let k = key_of(*pair);
assert forall|i: int| 0 <= i < q.len() && key_of(#[trigger] q[i]) == k implies zones_of(q, k).contains(pz(q[i])) by { assert(queued(q, k, pz(q[i]))); }
assert forall|j: int| 0 <= j < zones_of(q, k).len() && subset(pz(*pair), #[trigger] zones_of(q, k)[j]) implies self.contains(*pair) by { assert(queued(q, k, zones_of(q, k)[j])); }
}
@loops 1
@loop 0
        invariant self.map@.contains_key(key_of(*pair)), it0.seq().len() == self.map@[key_of(*pair)]@.len(), forall|j: int| 0 <= j < it0.seq().len() ==> *#[trigger] it0.seq()[j] == self.map@[key_of(*pair)]@[j], !__vx_r1 ==> forall|j: int| 0 <= j < it0.index@ ==> !subset(pz(*pair), #[trigger] self.map@[key_of(*pair)]@[j]), __vx_r1 ==> exists|j: int| 0 <= j < self.map@[key_of(*pair)]@.len() && subset(pz(*pair), #[trigger] self.map@[key_of(*pair)]@[j]), forall|j: int| 0 <= j < self.map@[key_of(*pair)]@.len() ==> (#[trigger] self.map@[key_of(*pair)]@[j]).n() == pz(*pair).n(), *fed == pz(*pair)
@end
