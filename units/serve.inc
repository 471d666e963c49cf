/// assumed: the message types prost generates from the protocol
pub struct ProtoComponent { pub rep: Option<Rep> }
pub enum Rep { Json(String), Xml(String) }
pub struct ComponentsInfo { pub components: Vec<ProtoComponent>, pub components_hash: u32 }
pub struct SimulationInfo { pub component_composition: String, pub components_info: Option<ComponentsInfo>, pub user_id: i32 }
#[verifier::external_body] pub struct Settings { x: usize }
#[verifier::external_body] pub struct Status { x: usize }
#[verifier::external_body] pub struct SerdeError { x: usize }
#[verifier::external_body] pub struct Query { x: usize }
#[verifier::external_body] pub struct SystemDeclarations { x: usize }
impl Status { #[verifier::external_body] pub fn invalid_argument<T>(m: T) -> Status { unimplemented!() } }
/// assumed: what the parsers read
pub uninterp spec fn json_means(s: Seq<char>) -> Option<Component>;
pub uninterp spec fn xml_means(s: Seq<char>) -> Seq<Component>;
#[verifier::external_body] pub fn json_to_component(json: &str) -> (r: Result<Component, SerdeError>) ensures r is Ok <==> json_means(json@) is Some, r is Ok ==> r->Ok_0 == json_means(json@)->0 { unimplemented!() }
#[verifier::external_body] pub fn parse_xml_from_str(xml: &str) -> (r: (Vec<Component>, SystemDeclarations, Vec<Query>)) ensures r.0@ == xml_means(xml@) { unimplemented!() }
/// the components a message brings; none if it cannot be read
pub open spec fn brings(p: ProtoComponent) -> Option<Seq<Component>> {
    match p.rep { None => Some(seq![]), Some(Rep::Json(s)) => (match json_means(s@) { Some(c) => Some(seq![c]), None => None }), Some(Rep::Xml(s)) => Some(xml_means(s@)) }
}
pub open spec fn legible(p: ProtoComponent) -> Seq<Component> { match brings(p) { Some(s) => s, None => seq![] } }
pub open spec fn all_legible(ps: Seq<ProtoComponent>, k: int) -> Seq<Component> decreases k { if 0 < k { all_legible(ps, k - 1) + legible(ps[k - 1]) } else { seq![] } }
pub open spec fn comps_of(ps: Seq<ProtoComponent>) -> Seq<Component> { all_legible(ps, ps.len() as int) }
pub open spec fn comps_ok(cs: Seq<Component>) -> bool { forall|i: int| 0 <= i < cs.len() ==> comp_ok(#[trigger] cs[i]) }
/// the model of the messages: by name, each input-enabled
pub open spec fn model_of(ps: Seq<ProtoComponent>, m: Map<String, Component>) -> bool { loaded(comps_of(ps), comps_of(ps).len() as int, m) }
/// the user sent these components with this hash
pub uninterp spec fn brought(user: i32, hash: u32, ps: Seq<ProtoComponent>) -> bool;
/// what the cache may hold for a user: a model the user sent with that hash, which is not 0
#[verifier::opaque] pub open spec fn honest(user: i32, hash: u32, m: Map<String, Component>) -> bool { hash != 0 && exists|ps: Seq<ProtoComponent>| #[trigger] brought(user, hash, ps) && model_of(ps, m) }
pub proof fn lemma_honest(user: i32, hash: u32, ps: Seq<ProtoComponent>, m: Map<String, Component>) requires hash != 0, brought(user, hash, ps), model_of(ps, m) ensures honest(user, hash, m) { reveal(honest); }
/// a request is answered on the components it brings, or on those the same user sent before with the same hash
pub open spec fn right_model(user: i32, hash: u32, ps: Seq<ProtoComponent>, m: Map<String, Component>) -> bool { model_of(ps, m) || honest(user, hash, m) }
/// the cache behind its lock. Whatever other threads do, what it holds is honest: every put must show it, every get may use it
#[verifier::external_body] pub struct CacheGuard { x: usize }
impl CacheGuard {
    #[verifier::external_body] pub fn get(&mut self, k: &i32) -> (r: Option<&ComponentTuple>) ensures r is Some ==> honest(*k, r->0.components_hash, r->0.components_map@) { unimplemented!() }
    #[verifier::external_body] pub fn peek(&self, k: &i32) -> (r: Option<&ComponentTuple>) ensures r is Some ==> honest(*k, r->0.components_hash, r->0.components_map@) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, k: &i32) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self, k: &i32) -> (r: Option<ComponentTuple>) ensures r is Some ==> honest(*k, r->0.components_hash, r->0.components_map@) { unimplemented!() }
    #[verifier::external_body] pub fn put(&mut self, k: i32, v: ComponentTuple) -> (r: Option<ComponentTuple>) requires honest(k, v.components_hash, v.components_map@) { unimplemented!() }
}
#[verifier::external_body] pub struct ModelCache { x: usize }
impl ModelCache { #[verifier::external_body] pub fn vx_lock(&self) -> CacheGuard { unimplemented!() } }
impl Clone for ModelCache { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
