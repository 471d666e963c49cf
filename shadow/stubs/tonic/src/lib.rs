//! stand-in: no network; message types of Ecdar-ProtoBuf written out by hand
pub use tonic_macros::async_trait;
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum Code { InvalidArgument, Internal, Other }
#[derive(Debug, Clone)] pub struct Status { pub code: Code, pub message: String }
impl Status {
    pub fn invalid_argument(m: impl Into<String>) -> Self { Status { code: Code::InvalidArgument, message: m.into() } }
    pub fn internal(m: impl Into<String>) -> Self { Status { code: Code::Internal, message: m.into() } }
    pub fn unimplemented(m: impl Into<String>) -> Self { Status { code: Code::Other, message: m.into() } }
    pub fn message(&self) -> &str { &self.message }
    pub fn code(&self) -> Code { self.code }
}
impl std::fmt::Display for Status { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.message) } }
impl std::error::Error for Status {}
#[derive(Debug, Clone)] pub struct Request<T>(T);
impl<T> Request<T> { pub fn new(t: T) -> Self { Request(t) } pub fn into_inner(self) -> T { self.0 } pub fn get_ref(&self) -> &T { &self.0 } }
#[derive(Debug, Clone)] pub struct Response<T>(T);
impl<T> Response<T> { pub fn new(t: T) -> Self { Response(t) } pub fn into_inner(self) -> T { self.0 } pub fn get_ref(&self) -> &T { &self.0 } }
pub mod transport {
    pub struct Server; pub struct Router;
    impl Server { pub fn builder() -> Server { Server } pub fn http2_keepalive_interval(self, _d: Option<std::time::Duration>) -> Self { self } pub fn add_service<S>(self, _s: S) -> Router { Router } }
    impl Router { pub async fn serve(self, _a: std::net::SocketAddr) -> Result<(), super::Status> { Err(super::Status::internal("no network in this stand-in")) } }
}
#[macro_export]
macro_rules! msg { ($name:ident { $($f:ident : $t:ty),* $(,)? }) => { #[derive(Clone, Debug, PartialEq, Default)] pub struct $name { $(pub $f: $t),* } } }
#[macro_export]
macro_rules! one { ($name:ident { $($v:ident($t:ty)),* $(,)? }) => { #[derive(Clone, Debug, PartialEq)] pub enum $name { $($v($t)),* } } }
#[macro_export]
macro_rules! include_proto { ($n:tt) => {
    tonic::msg!(QueryRequest { user_id: i32, query_id: i32, query: String, components_info: Option<ComponentsInfo>, settings: Option<query_request::Settings> });
    pub mod query_request { #[derive(Clone, Debug, PartialEq, Default)] pub struct Settings { pub disable_clock_reduction: bool } }
    tonic::msg!(QueryResponse { query_id: i32, info: Vec<query_response::Information>, result: Option<query_response::Result> });
    pub mod query_response {
        use super::*;
        tonic::msg!(Success {});
        tonic::msg!(Error { error: String });
        tonic::msg!(Information { subject: String, message: String });
        tonic::msg!(RefinementFailure { system: String, failure: Option<refinement_failure::Failure> });
        pub mod refinement_failure { use super::*;
            tonic::msg!(RefinementStateFailure { unmatched: i32, state: Option<StateAction> });
            tonic::one!(Failure { RefinementState(RefinementStateFailure), EmptySystem(String), NoInitialState(i32), InconsistentChild(ConsistencyFailure), ActionMismatch(ActionFailure) }); }
        tonic::msg!(ConsistencyFailure { system: String, failure: Option<consistency_failure::Failure> });
        pub mod consistency_failure { use super::*; tonic::one!(Failure { NoInitialState(i32), Determinism(DeterminismFailure), FailureState(State) }); }
        tonic::msg!(DeterminismFailure { system: String, failure_state: Option<StateAction> });
        tonic::msg!(ModelFailure { system: String, failure: Option<model_failure::Failure> });
        pub mod model_failure { use super::*; tonic::one!(Failure { ActionMismatch(ActionFailure), InconsistentConjunction(ConsistencyFailure) }); }
        tonic::msg!(ReachabilityFailure { failure: i32 });
        tonic::msg!(ReachabilityPath { path: Option<Path> });
        tonic::one!(Result { Success(Success), Refinement(RefinementFailure), Consistency(ConsistencyFailure), Determinism(DeterminismFailure), Reachability(ReachabilityFailure), ReachabilityPath(ReachabilityPath), Component(Component), Model(ModelFailure), Error(Error) });
    }
    tonic::msg!(ActionFailure { failure: i32, action_sets: Vec<action_failure::ActionSet> });
    pub mod action_failure { tonic::msg!(ActionSet { actions: Vec<String>, system: String, is_input: bool }); }
    tonic::msg!(StateAction { state: Option<State>, action: String });
    tonic::msg!(ComponentsInfo { components: Vec<Component>, components_hash: u32 });
    tonic::msg!(Component { rep: Option<component::Rep> });
    pub mod component { tonic::one!(Rep { Json(String), Xml(String) }); }
    tonic::msg!(SimulationInfo { user_id: i32, component_composition: String, components_info: Option<ComponentsInfo> });
    tonic::msg!(SimulationStartRequest { simulation_info: Option<SimulationInfo> });
    tonic::msg!(SimulationStepRequest { simulation_info: Option<SimulationInfo>, chosen_decision: Option<Decision> });
    tonic::msg!(SimulationStepResponse { full_state: Option<State>, new_decision_points: Vec<Decision> });
    tonic::msg!(UserTokenResponse { user_id: i32 });
    tonic::msg!(Decision { source: Option<State>, action: String, edges: Vec<Edge>, destination: Option<State> });
    tonic::msg!(Path { decisions: Vec<Decision> });
    tonic::msg!(Edge { id: String, component_instance: Option<ComponentInstance> });
    tonic::msg!(ComponentInstance { component_name: String, component_index: u32 });
    tonic::msg!(State { location_tree: Option<LocationTree>, zone: Option<Disjunction> });
    tonic::msg!(Disjunction { conjunctions: Vec<Conjunction> });
    tonic::msg!(Conjunction { constraints: Vec<Constraint> });
    tonic::msg!(Constraint { x: Option<Clock>, y: Option<Clock>, strict: bool, c: i32 });
    tonic::msg!(Clock { clock: Option<clock::Clock> });
    pub mod clock { use super::*;
        tonic::msg!(ComponentClock { component_instance: Option<ComponentInstance>, clock_name: String });
        tonic::msg!(SystemClock { clock_index: u32 });
        tonic::msg!(ZeroClock {});
        tonic::one!(Clock { ComponentClock(ComponentClock), SystemClock(SystemClock), ZeroClock(ZeroClock) }); }
    tonic::msg!(LocationTree { node_type: Option<location_tree::NodeType> });
    pub mod location_tree { use super::*; tonic::one!(NodeType { LeafLocation(LeafLocation), BinaryLocationOp(Box<BinaryLocationOperator>), SpecialLocation(i32) }); }
    tonic::msg!(LeafLocation { id: String, component_instance: Option<ComponentInstance> });
    tonic::msg!(BinaryLocationOperator { left: Option<Box<LocationTree>>, right: Option<Box<LocationTree>>, operator: i32 });
    impl BinaryLocationOperator { pub fn operator(&self) -> binary_location_operator::Operator { use binary_location_operator::Operator::*; match self.operator { 1 => Composition, 2 => Quotient, 3 => Refinement, _ => Conjunction } } }
    pub mod binary_location_operator { #[derive(Clone, Copy, Debug, PartialEq, Eq)] #[repr(i32)] pub enum Operator { Conjunction = 0, Composition = 1, Quotient = 2, Refinement = 3 } }
    pub mod ecdar_backend_server {
        use super::*;
        #[allow(async_fn_in_trait)]
        pub trait EcdarBackend {
            async fn get_user_token(&self, r: tonic::Request<()>) -> Result<tonic::Response<UserTokenResponse>, tonic::Status>;
            async fn send_query(&self, r: tonic::Request<QueryRequest>) -> Result<tonic::Response<QueryResponse>, tonic::Status>;
            async fn start_simulation(&self, r: tonic::Request<SimulationStartRequest>) -> Result<tonic::Response<SimulationStepResponse>, tonic::Status>;
            async fn take_simulation_step(&self, r: tonic::Request<SimulationStepRequest>) -> Result<tonic::Response<SimulationStepResponse>, tonic::Status>;
        }
        pub struct EcdarBackendServer<T>(pub T);
        impl<T> EcdarBackendServer<T> { pub fn new(t: T) -> Self { Self(t) } }
    }
} }
