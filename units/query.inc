#[verifier::external_body] pub struct StateExpression { x: usize }
#[verifier::external_body] pub struct RefinementFailure { x: usize }
#[verifier::external_body] pub struct PathFailure { x: usize }
#[verifier::external_body] pub struct SpecificPath { x: usize }
#[verifier::external_body] pub struct ExecutableQueryError { x: usize }
pub type PathResult = Result<SpecificPath, PathFailure>;
pub type RefinementResult = Result<(), RefinementFailure>;
pub struct Settings { pub disable_clock_reduction: bool }
impl Loader {
    #[verifier::external_body] pub fn get_settings(&self) -> (r: &Settings) ensures r.disable_clock_reduction == !self.reducing() { unimplemented!() }
    #[verifier::external_body] pub fn save_component(&mut self, c: Component) { unimplemented!() }
}
pub enum ExecQ<'a> { Refinement(RefinementExecutor), Reachability(ReachabilityExecutor), Consistency(ConsistencyExecutor), Determinism(DeterminismExecutor), GetComponent(GetComponentExecutor<'a>) }
/// Box<dyn ExecutableQuery>: one of the executors
pub trait Exec<'a>: Sized { spec fn q(self) -> ExecQ<'a>; fn to(self) -> (r: ExecQ<'a>) ensures r == self.q(); }
impl<'a> Exec<'a> for RefinementExecutor { open spec fn q(self) -> ExecQ<'a> { ExecQ::Refinement(self) } fn to(self) -> (r: ExecQ<'a>) { ExecQ::Refinement(self) } }
impl<'a> Exec<'a> for ReachabilityExecutor { open spec fn q(self) -> ExecQ<'a> { ExecQ::Reachability(self) } fn to(self) -> (r: ExecQ<'a>) { ExecQ::Reachability(self) } }
impl<'a> Exec<'a> for ConsistencyExecutor { open spec fn q(self) -> ExecQ<'a> { ExecQ::Consistency(self) } fn to(self) -> (r: ExecQ<'a>) { ExecQ::Consistency(self) } }
impl<'a> Exec<'a> for DeterminismExecutor { open spec fn q(self) -> ExecQ<'a> { ExecQ::Determinism(self) } fn to(self) -> (r: ExecQ<'a>) { ExecQ::Determinism(self) } }
impl<'a> Exec<'a> for GetComponentExecutor<'a> { open spec fn q(self) -> ExecQ<'a> { ExecQ::GetComponent(self) } fn to(self) -> (r: ExecQ<'a>) { ExecQ::GetComponent(self) } }
impl<'a> ExecQ<'a> { pub fn of<T: Exec<'a>>(t: T) -> (r: ExecQ<'a>) ensures r == t.q() { t.to() } }
/// an error carries nothing the properties speak of
impl From<Box<SystemRecipeFailure>> for ExecutableQueryError { #[verifier::external_body] fn from(f: Box<SystemRecipeFailure>) -> Self { unimplemented!() } }
impl<'b> From<&'b str> for ExecutableQueryError { #[verifier::external_body] fn from(f: &'b str) -> Self { unimplemented!() } }
impl From<String> for ExecutableQueryError { #[verifier::external_body] fn from(f: String) -> Self { unimplemented!() } }
#[verifier::external_body] pub fn vx_err<E>() -> E { unimplemented!() }
/// the conversions of the results into a QueryResult (query_failures.rs) wrap them
impl From<PathResult> for QueryResult { fn from(r: PathResult) -> (x: Self) { QueryResult::Reachability(r) } }
impl vstd::std_specs::convert::FromSpecImpl<PathResult> for QueryResult { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(r: PathResult) -> QueryResult { QueryResult::Reachability(r) } }
impl From<RefinementResult> for QueryResult { fn from(r: RefinementResult) -> (x: Self) { QueryResult::Refinement(r) } }
impl vstd::std_specs::convert::FromSpecImpl<RefinementResult> for QueryResult { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(r: RefinementResult) -> QueryResult { QueryResult::Refinement(r) } }
impl From<ConsistencyResult> for QueryResult { fn from(r: ConsistencyResult) -> (x: Self) { QueryResult::Consistency(r) } }
impl vstd::std_specs::convert::FromSpecImpl<ConsistencyResult> for QueryResult { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(r: ConsistencyResult) -> QueryResult { QueryResult::Consistency(r) } }
impl From<DeterminismResult> for QueryResult { fn from(r: DeterminismResult) -> (x: Self) { QueryResult::Determinism(r) } }
impl vstd::std_specs::convert::FromSpecImpl<DeterminismResult> for QueryResult { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(r: DeterminismResult) -> QueryResult { QueryResult::Determinism(r) } }
impl From<DeterminismFailure> for ConsistencyFailure { #[verifier::external_body] fn from(f: DeterminismFailure) -> Self { unimplemented!() } }
/// a location with a component that may be anywhere
pub open spec fn partial(l: LocationID) -> bool decreases l {
    match l { LocationID::Composition(a, b) | LocationID::Conjunction(a, b) | LocationID::Quotient(a, b) => partial(*a) || partial(*b), LocationID::AnyLocation => true, _ => false }
}
pub uninterp spec fn state_of(e: StateExpression, r: SystemRecipe, t: TransitionSystemPtr) -> Option<State>;
pub uninterp spec fn init_state(t: TransitionSystemPtr) -> Option<State>;
#[verifier::external_body] pub fn get_state(e: &StateExpression, r: &SystemRecipe, t: &TransitionSystemPtr) -> (x: Result<State, String>) ensures x is Ok <==> state_of(*e, *r, *t) is Some, x is Ok ==> x->Ok_0 == state_of(*e, *r, *t)->0 { unimplemented!() }
impl TransitionSystemPtr { #[verifier::external_body] pub fn get_initial_state(&self) -> (x: Option<State>) ensures x == init_state(*self) { unimplemented!() } }
/// what clock reduction turns the recipe(s) and the dimension into; its own property
pub uninterp spec fn reduced(l: SystemRecipe, r: Option<SystemRecipe>, n: int, q: Option<usize>, l2: SystemRecipe, r2: Option<SystemRecipe>, n2: int) -> bool;
#[verifier::external_body] pub fn clock_reduce(l: &mut Box<SystemRecipe>, r: Option<&mut Box<SystemRecipe>>, dim: &mut usize, q: Option<ClockIndex>) -> (x: Result<(), Box<SystemRecipeFailure>>)
    ensures x is Ok ==> *final(dim) <= *old(dim) && comps(**final(l)).len() == comps(**old(l)).len(),
        x is Ok && r is None ==> reduced(**old(l), None, *old(dim) as int, q, **final(l), None, *final(dim) as int),
        x is Ok && r is Some ==> reduced(**old(l), Some(**(r->0)), *old(dim) as int, q, **final(l), Some(**final(r->0)), *final(dim) as int) && comps(**final(r->0)).len() == comps(**(r->0)).len() { unimplemented!() }
pub uninterp spec fn prune_result(t: TransitionSystemPtr, dim: usize) -> TransitionSystemPtr;
#[verifier::external_body] pub fn prune_system(t: TransitionSystemPtr, dim: usize) -> (x: TransitionSystemPtr) ensures x == prune_result(t, dim) { unimplemented!() }
pub uninterp spec fn refines(l: TransitionSystemPtr, r: TransitionSystemPtr) -> RefinementResult;
pub uninterp spec fn reaches(s: State, e: State, t: TransitionSystemPtr) -> PathResult;
#[verifier::external_body] pub fn check_refinement(l: TransitionSystemPtr, r: TransitionSystemPtr) -> (x: RefinementResult) ensures x == refines(l, r) { unimplemented!() }
#[verifier::external_body] pub fn find_specific_path(s: State, e: State, t: &TransitionSystemPtr) -> (x: PathResult) ensures x == reaches(s, e, *t) { unimplemented!() }
pub uninterp spec fn combined(t: TransitionSystemPtr, s: PruningStrategy) -> Component;
#[verifier::external_body] pub fn combine_components(t: &TransitionSystemPtr, s: PruningStrategy) -> (x: Component) ensures x == combined(*t, s), x.edges@.len() <= usize::MAX { unimplemented!() }
/// the same edges but for their ids
pub open spec fn same_edge(a: Edge, b: Edge) -> bool { a.source_location == b.source_location && a.target_location == b.target_location && a.sync_type == b.sync_type && a.guard == b.guard && a.update == b.update && a.sync == b.sync }
pub open spec fn same_edges(a: Seq<Edge>, b: Seq<Edge>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same_edge(#[trigger] a[i], b[i]) }
pub open spec fn saved(c: Component, t: TransitionSystemPtr, name: String) -> bool { let o = combined(t, PruningStrategy::Reachable);
    c.name == name && c.declarations == o.declarations && c.locations == o.locations && c.special_id == o.special_id && same_edges(o.edges@, c.edges@) }
/// what a query is about is small enough to be numbered
pub open spec fn fits(e: SystemExpression, l: Lib, k: int, q: Option<usize>) -> bool { well(e, l) && after(e, l, k, q).0 < usize::MAX && size(e) < u32::MAX }
pub open spec fn size(e: SystemExpression) -> int decreases e {
    match e { SystemExpression::Component(_, _) => 1, SystemExpression::Composition(a, b) => size(*a) + size(*b), SystemExpression::Conjunction(a, b) => size(*a) + size(*b), SystemExpression::Quotient(a, b) => size(*a) + size(*b) }
}
pub broadcast proof fn lemma_size(r: SystemRecipe, e: SystemExpression, l: Lib, k: int, q: Option<usize>)
    requires #[trigger] recipe_of(r, e, l, k, q)
    ensures comps(r).len() == size(e)
    decreases e
{
    match e {
        SystemExpression::Component(n, _) => {}
        SystemExpression::Composition(a, b) | SystemExpression::Conjunction(a, b) | SystemExpression::Quotient(a, b) => {
            let (x, y) = match r { SystemRecipe::Composition(x, y) | SystemRecipe::Conjunction(x, y) => (*x, *y), SystemRecipe::Quotient(x, y, _) => (*x, *y), SystemRecipe::Component(c) => (r, r) };
            lemma_size(x, *a, l, k, q); lemma_size(y, *b, l, after(*a, l, k, q).0, after(*a, l, k, q).1);
        }
    }
}
pub open spec fn about(q: QueryExpression) -> Option<SystemExpression> {
    match q { QueryExpression::Consistency(e) | QueryExpression::Determinism(e) => Some(e), QueryExpression::Reachability { system: e, .. } => Some(e), QueryExpression::GetComponent(s) | QueryExpression::Prune(s) => Some(s.system), _ => None }
}
pub open spec fn query_ok(q: Query, l: Lib) -> bool {
    match q.query { Some(QueryExpression::Refinement(a, b)) => fits(a, l, 0, None) && fits(b, l, after(a, l, 0, None).0, after(a, l, 0, None).1) && size(a) + size(b) < u32::MAX,
        Some(e) => match about(e) { Some(s) => fits(s, l, 0, None), None => true }, None => true }
}
/// s and the dimension n are what is left of the system of e after clock reduction, when it is on
pub open spec fn left_of(e: SystemExpression, l: Lib, on: bool, r: SystemRecipe, s: SystemRecipe, n: int) -> bool {
    let (k, q) = after(e, l, 0, None);
    recipe_of(r, e, l, 0, None) && (if on { reduced(r, None, k, q, s, None, n) } else { s == r && n == k })
}
pub open spec fn left_of2(a: SystemExpression, b: SystemExpression, l: Lib, on: bool, r1: SystemRecipe, r2: SystemRecipe, s1: SystemRecipe, s2: SystemRecipe, n: int) -> bool {
    let (k1, q1) = after(a, l, 0, None);
    let (k, q) = after(b, l, k1, q1);
    recipe_of(r1, a, l, 0, None) && recipe_of(r2, b, l, k1, q1) && (if on { reduced(r1, Some(r2), k, q, s1, Some(s2), n) } else { s1 == r1 && s2 == r2 && n == k })
}
pub open spec fn one(e: SystemExpression, l: Lib, on: bool, t: TransitionSystemPtr) -> bool { exists|r: SystemRecipe, s: SystemRecipe, n: int| #![trigger recipe_of(r, e, l, 0, None), built(s, n, 0, t)] left_of(e, l, on, r, s, n) && built(s, n, 0, t) }
pub open spec fn cut(e: SystemExpression, l: Lib, on: bool, t: TransitionSystemPtr) -> bool { exists|r: SystemRecipe, s: SystemRecipe, n: int, t0: TransitionSystemPtr| #![trigger recipe_of(r, e, l, 0, None), built(s, n, 0, t0)] left_of(e, l, on, r, s, n) && built(s, n, 0, t0) && t == prune_result(t0, (n + 1) as usize) }
pub open spec fn two(a: SystemExpression, b: SystemExpression, l: Lib, on: bool, t1: TransitionSystemPtr, t2: TransitionSystemPtr) -> bool {
    exists|r1: SystemRecipe, r2: SystemRecipe, s1: SystemRecipe, s2: SystemRecipe, n: int| #![trigger recipe_of(r1, a, l, 0, None), recipe_of(r2, b, l, after(a, l, 0, None).0, after(a, l, 0, None).1), built(s1, n, 0, t1), built(s2, n, comps(s1).len() as int, t2)] left_of2(a, b, l, on, r1, r2, s1, s2, n) && built(s1, n, 0, t1) && built(s2, n, comps(s1).len() as int, t2)
}
pub open spec fn walk(e: SystemExpression, l: Lib, from: Option<StateExpression>, to: StateExpression, x: ReachabilityExecutor) -> bool {
    exists|r: SystemRecipe, n: int| #![trigger recipe_of(r, e, l, 0, None), built(r, n, 0, x.transition_system)] left_of(e, l, false, r, r, n) && built(r, n, 0, x.transition_system)
        && (match from { Some(f) => state_of(f, r, x.transition_system) == Some(x.start_state) && !partial(x.start_state.decorated_locations.id), None => init_state(x.transition_system) == Some(x.start_state) })
        && state_of(to, r, x.transition_system) == Some(x.end_state)
}
pub open spec fn name_of(n: Option<String>) -> String { match n { Some(s) => s, None => mk("Unnamed"@) } }
/// the executor does what the query asks, on the systems it names
pub open spec fn executes(q: QueryExpression, l: Lib, on: bool, x: ExecQ) -> bool {
    match q {
        QueryExpression::Refinement(a, b) => match x { ExecQ::Refinement(e) => two(a, b, l, on, e.sys1, e.sys2), _ => false },
        QueryExpression::Reachability { system, from, to } => match x { ExecQ::Reachability(e) => walk(system, l, from, to, e), _ => false },
        QueryExpression::Consistency(s) => match x { ExecQ::Consistency(e) => one(s, l, on, e.system), _ => false },
        QueryExpression::Determinism(s) => match x { ExecQ::Determinism(e) => one(s, l, on, e.system), _ => false },
        QueryExpression::GetComponent(s) => match x { ExecQ::GetComponent(e) => one(s.system, l, on, e.system) && e.comp_name == name_of(s.name), _ => false },
        QueryExpression::Prune(s) => match x { ExecQ::GetComponent(e) => cut(s.system, l, on, e.system) && e.comp_name == name_of(s.name), _ => false },
        _ => false,
    }
}
pub open spec fn no_one(e: SystemExpression, l: Lib) -> bool { exists|r: SystemRecipe, n: int| #![trigger recipe_of(r, e, l, 0, None), unbuilt(r, n, 0)] left_of(e, l, false, r, r, n) && unbuilt(r, n, 0) }
pub open spec fn no_two(a: SystemExpression, b: SystemExpression, l: Lib) -> bool {
    exists|r1: SystemRecipe, r2: SystemRecipe, n: int| #![trigger recipe_of(r1, a, l, 0, None), recipe_of(r2, b, l, after(a, l, 0, None).0, after(a, l, 0, None).1), unbuilt(r2, n, comps(r1).len() as int)] left_of2(a, b, l, false, r1, r2, r1, r2, n) && unbuilt(r2, n, comps(r1).len() as int)
}
pub open spec fn no_walk(e: SystemExpression, l: Lib, from: Option<StateExpression>, to: StateExpression) -> bool {
    exists|r: SystemRecipe, n: int, t: TransitionSystemPtr| #![trigger recipe_of(r, e, l, 0, None), built(r, n, 0, t)] left_of(e, l, false, r, r, n) && built(r, n, 0, t)
        && ((match from { Some(f) => state_of(f, r, t) is None || partial(state_of(f, r, t)->0.decorated_locations.id), None => init_state(t) is None }) || state_of(to, r, t) is None)
}
/// without clock reduction: a query is only refused because the operators refuse the system, or because a named state does not exist
pub open spec fn refused(q: QueryExpression, l: Lib) -> bool {
    match q {
        QueryExpression::Refinement(a, b) => no_one_of2(a, b, l) || no_two(a, b, l),
        QueryExpression::Reachability { system, from, to } => no_one(system, l) || no_walk(system, l, from, to),
        QueryExpression::Consistency(s) | QueryExpression::Determinism(s) => no_one(s, l),
        QueryExpression::GetComponent(s) | QueryExpression::Prune(s) => no_one(s.system, l),
        _ => true,
    }
}
pub open spec fn no_one_of2(a: SystemExpression, b: SystemExpression, l: Lib) -> bool {
    exists|r1: SystemRecipe, r2: SystemRecipe, n: int| #![trigger recipe_of(r1, a, l, 0, None), recipe_of(r2, b, l, after(a, l, 0, None).0, after(a, l, 0, None).1), unbuilt(r1, n, 0)] left_of2(a, b, l, false, r1, r2, r1, r2, n) && unbuilt(r1, n, 0)
}
