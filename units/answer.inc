/// assumed: the message types prost generates, and what is not specified of the conversions into them
#[verifier::external_body] pub struct SystemRecipeFailure { x: usize }
#[verifier::external_body] pub struct DeterminismFailure { x: usize }
#[verifier::external_body] pub struct ConsistencyFailure { x: usize }
#[verifier::external_body] pub struct RefinementFailure { x: usize }
#[verifier::external_body] pub struct PathFailure { x: usize }
#[verifier::external_body] pub struct SpecificPath { x: usize }
pub type PathResult = Result<SpecificPath, PathFailure>;
pub type RefinementResult = Result<(), RefinementFailure>;
pub type ConsistencyResult = Result<(), ConsistencyFailure>;
pub type DeterminismResult = Result<(), DeterminismFailure>;
#[verifier::external_body] pub struct ModelMsg { x: usize }
#[verifier::external_body] pub struct DeterminismMsg { x: usize }
#[verifier::external_body] pub struct ConsistencyMsg { x: usize }
#[verifier::external_body] pub struct RefinementMsg { x: usize }
#[verifier::external_body] pub struct ReachabilityMsg { x: usize }
#[verifier::external_body] pub struct PathMsg { x: usize }
#[verifier::external_body] pub struct Information { x: usize }
pub struct Success { }
pub struct InnerError { pub error: String }
pub type ProtobufComponent = ProtoComponent;
pub enum ProtobufResult { Success(Success), Refinement(RefinementMsg), Consistency(ConsistencyMsg), Determinism(DeterminismMsg), Reachability(ReachabilityMsg), ReachabilityPath(PathMsg), Component(ProtobufComponent), Model(ModelMsg), Error(InnerError) }
pub struct QueryRequest { pub user_id: i32, pub query_id: i32, pub query: String, pub components_info: Option<ComponentsInfo>, pub settings: Option<Settings> }
pub struct QueryResponse { pub query_id: i32, pub info: Vec<Information>, pub result: Option<ProtobufResult> }
pub struct ConcreteEcdarBackend { }
pub uninterp spec fn recipe_msg(f: SystemRecipeFailure, m: ModelMsg) -> bool;
pub uninterp spec fn determinism_msg(f: DeterminismFailure, m: DeterminismMsg) -> bool;
pub uninterp spec fn consistency_msg(f: ConsistencyFailure, m: ConsistencyMsg) -> bool;
pub uninterp spec fn refinement_msg(f: RefinementFailure, m: RefinementMsg) -> bool;
pub uninterp spec fn reach_msg(f: PathFailure, m: ReachabilityMsg) -> bool;
pub uninterp spec fn path_msg(p: SpecificPath, m: PathMsg) -> bool;
pub uninterp spec fn json_of(c: Component) -> String;
#[verifier::external_body] pub fn component_to_json(c: &Component) -> (r: String) ensures r == json_of(*c) { unimplemented!() }
/// a verdict as the client gets it: success only where there is no failure, and a failure as the failure it is
pub open spec fn result_msg(q: QueryResult, p: ProtobufResult) -> bool {
    match q {
        QueryResult::Reachability(Ok(x)) => p is ReachabilityPath && path_msg(x, p->ReachabilityPath_0),
        QueryResult::Reachability(Err(f)) => p is Reachability && reach_msg(f, p->Reachability_0),
        QueryResult::Refinement(Ok(_)) => p is Success,
        QueryResult::Refinement(Err(f)) => p is Refinement && refinement_msg(f, p->Refinement_0),
        QueryResult::Consistency(Ok(_)) => p is Success,
        QueryResult::Consistency(Err(f)) => p is Consistency && consistency_msg(f, p->Consistency_0),
        QueryResult::Determinism(Ok(_)) => p is Success,
        QueryResult::Determinism(Err(f)) => p is Determinism && determinism_msg(f, p->Determinism_0),
        QueryResult::GetComponent(c) => p is Component && p->Component_0.rep == Some(Rep::Json(json_of(c))),
        QueryResult::RecipeFailure(f) => p is Model && recipe_msg(f, p->Model_0),
        QueryResult::CustomError(e) => p is Error && p->Error_0.error == e,
    }
}
/// Into, with what it tells; each is the From below it or an assumed conversion
pub trait VxInto<T>: Sized { spec fn tells(self, t: T) -> bool; fn vx_into(self) -> (r: T) ensures self.tells(r); }
impl VxInto<ProtobufResult> for QueryResult { open spec fn tells(self, t: ProtobufResult) -> bool { result_msg(self, t) } #[verifier::external_body] fn vx_into(self) -> (r: ProtobufResult) { unimplemented!() } }
impl VxInto<ProtobufResult> for SystemRecipeFailure { open spec fn tells(self, t: ProtobufResult) -> bool { t is Model && recipe_msg(self, t->Model_0) } #[verifier::external_body] fn vx_into(self) -> (r: ProtobufResult) { unimplemented!() } }
impl VxInto<ProtobufResult> for DeterminismFailure { open spec fn tells(self, t: ProtobufResult) -> bool { t is Determinism && determinism_msg(self, t->Determinism_0) } #[verifier::external_body] fn vx_into(self) -> (r: ProtobufResult) { unimplemented!() } }
impl VxInto<ProtobufResult> for ConsistencyFailure { open spec fn tells(self, t: ProtobufResult) -> bool { t is Consistency && consistency_msg(self, t->Consistency_0) } #[verifier::external_body] fn vx_into(self) -> (r: ProtobufResult) { unimplemented!() } }
impl VxInto<ProtobufResult> for RefinementFailure { open spec fn tells(self, t: ProtobufResult) -> bool { t is Refinement && refinement_msg(self, t->Refinement_0) } #[verifier::external_body] fn vx_into(self) -> (r: ProtobufResult) { unimplemented!() } }
impl VxInto<ProtobufResult> for PathFailure { open spec fn tells(self, t: ProtobufResult) -> bool { t is Reachability && reach_msg(self, t->Reachability_0) } #[verifier::external_body] fn vx_into(self) -> (r: ProtobufResult) { unimplemented!() } }
impl VxInto<ModelMsg> for SystemRecipeFailure { open spec fn tells(self, t: ModelMsg) -> bool { recipe_msg(self, t) } #[verifier::external_body] fn vx_into(self) -> (r: ModelMsg) { unimplemented!() } }
impl VxInto<DeterminismMsg> for DeterminismFailure { open spec fn tells(self, t: DeterminismMsg) -> bool { determinism_msg(self, t) } #[verifier::external_body] fn vx_into(self) -> (r: DeterminismMsg) { unimplemented!() } }
impl VxInto<ConsistencyMsg> for ConsistencyFailure { open spec fn tells(self, t: ConsistencyMsg) -> bool { consistency_msg(self, t) } #[verifier::external_body] fn vx_into(self) -> (r: ConsistencyMsg) { unimplemented!() } }
impl VxInto<RefinementMsg> for RefinementFailure { open spec fn tells(self, t: RefinementMsg) -> bool { refinement_msg(self, t) } #[verifier::external_body] fn vx_into(self) -> (r: RefinementMsg) { unimplemented!() } }
impl VxInto<ReachabilityMsg> for PathFailure { open spec fn tells(self, t: ReachabilityMsg) -> bool { reach_msg(self, t) } #[verifier::external_body] fn vx_into(self) -> (r: ReachabilityMsg) { unimplemented!() } }
impl VxInto<PathMsg> for SpecificPath { open spec fn tells(self, t: PathMsg) -> bool { path_msg(self, t) } #[verifier::external_body] fn vx_into(self) -> (r: PathMsg) { unimplemented!() } }
/// assumed: what the query grammar reads, and what executing a query over a model gives (C12, C13, C14, C15)
pub uninterp spec fn queries_of(s: Seq<char>) -> Seq<Query>;
#[verifier::external_body] pub fn parse_to_query(s: &str) -> (r: Vec<Query>) ensures r@ == queries_of(s@) { unimplemented!() }
#[verifier::external_body] pub struct ExecQuery { x: usize }
impl ExecQuery { pub uninterp spec fn outcome(&self) -> QueryResult; #[verifier::external_body] pub fn execute(self) -> (r: QueryResult) ensures r == self.outcome() { unimplemented!() } }
pub uninterp spec fn prepared(m: Map<String, Component>, s: Settings, q: Query) -> Result<ExecQuery, ExecutableQueryError>;
#[verifier::external_body] pub fn create_executable_query(q: &Query, l: &mut ComponentContainer) -> (r: Result<ExecQuery, ExecutableQueryError>) requires old(l).settings is Some ensures r == prepared(old(l).loaded_components@, old(l).settings->0, *q) { unimplemented!() }
pub uninterp spec fn default_settings() -> Settings;
#[verifier::external_body] pub fn vx_default_settings() -> (r: Settings) ensures r == default_settings() { unimplemented!() }
pub open spec fn asked(s: Option<Settings>) -> Settings { match s { Some(x) => x, None => default_settings() } }
/// the answer to a query: its verdict over the model, under its own number
pub open spec fn answers(x: Result<ExecQuery, ExecutableQueryError>, id: i32, r: Result<QueryResponse, Status>) -> bool {
    match x {
        Ok(e) => r is Ok && r->Ok_0.query_id == id && r->Ok_0.result is Some && result_msg(e.outcome(), r->Ok_0.result->0),
        Err(ExecutableQueryError::Custom(_)) => r is Err,
        Err(ExecutableQueryError::SystemRecipeFailure(f)) => r is Ok && r->Ok_0.query_id == id && r->Ok_0.result is Some && r->Ok_0.result->0 is Model && recipe_msg(f, r->Ok_0.result->0->Model_0),
    }
}
