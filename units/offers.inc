/// the actions a component offers in one direction
pub open spec fn offers(c: Component, t: SyncType, a: String) -> bool { a@ != "*"@ && exists|i: int| 0 <= i < c.edges@.len() && (#[trigger] c.edges@[i]).sync == a && c.edges@[i].sync_type == t }
pub open spec fn seq_offers(s: Seq<String>, c: Component, t: SyncType) -> bool { forall|a: String| #![trigger s.contains(a)] #![trigger offers(c, t, a)] s.contains(a) <==> offers(c, t, a) }
