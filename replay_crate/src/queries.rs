//! random system expressions, a component library in memory, and verdicts of executed queries
use crate::Rng;
use reveaal::ComponentLoader;
use reveaal::ModelObjects::Component;
use reveaal::ModelObjects::Expressions::SystemExpression as X;
use reveaal::ProtobufServer::services::query_request::Settings;
use reveaal::System::query_failures::QueryResult;
use std::collections::BTreeMap;
pub struct Lib { pub comps: BTreeMap<String, Component>, pub settings: Settings, pub saved: Vec<Component> }
impl ComponentLoader for Lib {
    fn get_component(&mut self, n: &str) -> &Component { &self.comps[n] }
    fn save_component(&mut self, c: Component) { self.saved.push(c) }
    fn get_settings(&self) -> &Settings { &self.settings }
    fn get_settings_mut(&mut self) -> &mut Settings { &mut self.settings }
}
pub fn names(e: &X) -> Vec<(String, Option<String>)> { match e { X::Component(n, i) => vec![(n.clone(), i.clone())], X::Composition(a, b) | X::Conjunction(a, b) | X::Quotient(a, b) => { let mut v = names(a); v.extend(names(b)); v } } }
pub fn expr(r: &mut Rng, depth: usize, names: &[String], k: &mut usize) -> X {
    if depth > 0 && r.chance(3, 5) { let (a, b) = (Box::new(expr(r, depth - 1, names, k)), Box::new(expr(r, depth - 1, names, k))); return match r.below(5) { 0 | 1 => X::Composition(a, b), 2 | 3 => X::Conjunction(a, b), _ => X::Quotient(a, b) } }
    *k += 1;
    X::Component(r.pick(names).clone(), if r.chance(1, 2) { Some(format!("i{k}")) } else { None })
}
pub fn summary(c: &Component) -> String {
    let mut e: Vec<String> = c.edges.iter().map(|e| format!("{}-{}{:?}->{}", e.source_location, e.sync, e.sync_type, e.target_location)).collect(); e.sort();
    let mut l: Vec<String> = c.locations.iter().map(|l| format!("{}{:?}", l.id, l.location_type)).collect(); l.sort();
    format!("{} {l:?} {e:?}", c.name)
}
pub fn verdict(q: &QueryResult) -> String {
    match q {
        QueryResult::RecipeFailure(_) => "recipe failure".into(), QueryResult::Reachability(r) => format!("reachability {}", r.is_ok()), QueryResult::Refinement(r) => format!("refinement {}", r.is_ok()),
        QueryResult::Consistency(r) => format!("consistency {}", r.is_ok()), QueryResult::Determinism(r) => format!("determinism {}", r.is_ok()), QueryResult::GetComponent(c) => summary(c), QueryResult::CustomError(e) => format!("error {e}"),
    }
}
