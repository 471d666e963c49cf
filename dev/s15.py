from mkseed import seed
N="src/System/extract_system_rep.rs"; Y="src/System/executable_query.rs"; C="src/ModelObjects/component.rs"; I="src/TransitionSystems/location_id.rs"
H=open("s6.py").read().split("H='''",1)[1].split("'''",1)[0]+'''use reveaal::extract_system_rep::*;
use reveaal::ComponentLoader;
use reveaal::ModelObjects::Expressions::{ComponentVariable, QueryExpression as Q, SaveExpression, StateExpression as S, SystemExpression as X};
use reveaal::ProtobufServer::services::query_request::Settings;
use reveaal::System::query_failures::QueryResult;
use std::collections::{BTreeMap, HashSet};
pub struct Lib { comps: BTreeMap<String, Component>, settings: Settings, saved: Vec<Component> }
impl ComponentLoader for Lib {
    fn get_component(&mut self, n: &str) -> &Component { &self.comps[n] }
    fn save_component(&mut self, c: Component) { self.saved.push(c) }
    fn get_settings(&self) -> &Settings { &self.settings }
    fn get_settings_mut(&mut self) -> &mut Settings { &mut self.settings }
}
fn lib(cs: Vec<Component>) -> Lib { Lib { comps: cs.into_iter().map(|c| (c.name.clone(), c)).collect(), settings: Settings { disable_clock_reduction: true }, saved: vec![] } }
fn c(n: &str) -> X { X::Component(n.into(), None) }
fn ci(n: &str, i: &str) -> X { X::Component(n.into(), Some(i.into())) }
fn bx(x: X) -> Box<X> { Box::new(x) }
fn ask(q: Q, l: &mut Lib) -> Option<QueryResult> { create_executable_query(&Query { query: Some(q), comment: String::new() }, l).ok().map(|q| q.execute()) }
fn leaves<'a>(r: &'a SystemRecipe, c: &mut Vec<&'a Component>, q: &mut HashSet<usize>) { match r { SystemRecipe::Component(x) => c.push(x), SystemRecipe::Composition(a, b) | SystemRecipe::Conjunction(a, b) => { leaves(a, c, q); leaves(b, c, q) } SystemRecipe::Quotient(a, b, i) => { q.insert(*i); leaves(a, c, q); leaves(b, c, q) } } }
fn apart(rs: &[&SystemRecipe]) -> bool { let (mut c, mut q) = (vec![], HashSet::new()); for r in rs { leaves(r, &mut c, &mut q); } let mut seen = q; c.iter().all(|x| x.declarations.clocks.values().all(|i| seen.insert(*i))) }
fn at(c: &str, l: &str) -> S { S::Location(ComponentVariable { component: c.into(), special_id: None, variable: l.into() }) }
'''
seed("A01","C15",[(C,"        *indices += self.declarations.get_clock_count();","        // Clocks that no guard and no invariant looks at do not need an index of their own\n        if self.edges.iter().any(|e| e.guard.is_some())\n            || self.locations.iter().any(|l| l.invariant.is_some())\n        {\n            *indices += self.declarations.get_clock_count();\n        }")],
 "a component that resets clocks but has no guards and no invariants, ahead of another component","the next component gets the same clock indices, and its clocks are reset by the first",
 H+'''fn main() {
    let a = comp("A", 1, vec![loc("a", I, None)], vec![edge("e", "a", "a", "i", true, None, &[0])]);
    let b = comp("B", 1, vec![loc("b", I, None)], vec![edge("f", "b", "b", "j", true, Some(le(3)), &[0])]);
    let mut l = lib(vec![a, b]);
    let (mut d, mut q) = (0, None);
    let r = get_system_recipe(&X::Composition(bx(c("A")), bx(c("B"))), &mut l, &mut d, &mut q);
    assert!(apart(&[&r])); assert_eq!(d, 2);
}
''')
seed("A02","C15",[(N,"            component.special_id = id.clone();","            if let Some(id) = id {\n                component.special_id = Some(id.clone());\n            }")],
 "a loader whose component already carries an id, named in the query without one","the component keeps the id it came with although the query names it without",
 H+'''fn main() {
    let mut a = comp("A", 1, vec![loc("a", I, None)], vec![]); a.special_id = Some("old".into());
    let mut l = lib(vec![a]);
    let (mut d, mut q) = (0, None);
    let r = get_system_recipe(&c("A"), &mut l, &mut d, &mut q);
    assert_eq!(r.get_components()[0].special_id, None);
}
''')
seed("A04","C15",[(N,"                Some(q_i) => *q_i,\n                None => {","                Some(q_i) if *q_i >= *clock_index => *q_i,\n                _ => {")],
 "two quotients with a component read between them (nested, or one on each side)","the second quotient gets a clock of its own",
 H+'''fn main() {
    let mut l = lib(vec![comp("A", 1, vec![loc("a", I, None)], vec![]), comp("B", 1, vec![loc("b", I, None)], vec![])]);
    let (mut d, mut q) = (0, None);
    let r = get_system_recipe(&X::Quotient(bx(X::Quotient(bx(c("A")), bx(c("B")))), bx(c("A"))), &mut l, &mut d, &mut q);
    let (mut cs, mut qs) = (vec![], HashSet::new()); leaves(&r, &mut cs, &mut qs);
    assert_eq!(qs.len(), 1); assert_eq!(d, 4);
}
''')
seed("A05","C15",[(N,"                let transition_system = machine.clone().compile(dim)?;","                let transition_system = machine.clone().compile(dim)?;\n                let from = &from.as_ref().filter(|f| !matches!(f, crate::ModelObjects::Expressions::StateExpression::Bool(true))).cloned();")],
 "a reachability query whose start is written as true (no location given)","the initial state is used where the start must be refused",
 H+'''fn main() {
    let mut l = lib(vec![comp("A", 1, vec![loc("a", I, None)], vec![])]);
    assert!(ask(Q::Reachability { system: c("A"), from: Some(S::Bool(true)), to: at("A", "a") }, &mut l).is_none());
    assert!(matches!(ask(Q::Reachability { system: c("A"), from: None, to: at("A", "a") }, &mut l), Some(QueryResult::Reachability(Ok(_)))));
}
''')
seed("A06","C15",[(Y,"        comp.name = self.comp_name;\n\n        comp.remake_edge_ids();","        comp.name = self.comp_name;\n        let mut ids: Vec<&String> = comp.edges.iter().map(|e| &e.id).collect();\n        ids.dedup();\n\n        if ids.len() < comp.edges.len() {\n            comp.remake_edge_ids();\n        } else {\n            comp.edges.retain(|e| e.guard.as_ref() != Some(&crate::ModelObjects::Expressions::BoolExpression::Bool(false)));\n        }")],
 "a saved component of a system none of whose neighbouring edges share an id","the saved component's edges are not numbered anew, and edges with the guard false are lost",
 H+'''fn main() {
    let mut l = lib(vec![comp("A", 1, vec![loc("a", I, None), loc("b", N, None)], vec![edge("x", "a", "b", "i", true, None, &[]), edge("y", "b", "a", "o", false, None, &[])])]);
    match ask(Q::GetComponent(SaveExpression { system: c("A"), name: Some("S".into()) }), &mut l) { Some(QueryResult::GetComponent(s)) => { let mut i: Vec<String> = s.edges.iter().map(|e| e.id.clone()).collect(); i.sort(); assert_eq!(i, vec!["E0", "E1"]); assert_eq!(l.saved[0], s) } _ => panic!() }
}
''')
seed("A08","C15",[(I,"                left.is_partial_location() || right.is_partial_location()","                left.is_partial_location() && right.is_partial_location()\n                    || matches!(**left, LocationID::AnyLocation)\n                    || matches!(**right, LocationID::AnyLocation)")],
 "a start state of at least three components with exactly one location left open, two levels deep","the partial state is accepted as a start state",
 H+'''fn main() {
    let k = |n: &str, l: &str, i: &str, o: &str| comp(n, 1, vec![loc(l, I, None)], vec![edge("e", l, l, i, true, None, &[]), edge("f", l, l, o, false, None, &[])]);
    let mut l = lib(vec![k("A", "a", "i", "o"), k("B", "b", "j", "p"), k("C", "c", "k", "q"), k("D", "d", "l", "r")]);
    let e = X::Composition(bx(X::Composition(bx(c("A")), bx(c("B")))), bx(X::Composition(bx(c("C")), bx(c("D")))));
    assert!(ask(Q::Reachability { system: e, from: Some(S::AND(vec![at("A", "a"), at("C", "c"), at("D", "d")])), to: at("A", "a") }, &mut l).is_none());
}
''')
seed("A09","C15",[(C,"            *v += start_index","            *v = (*v + start_index).max(*v % 2 + start_index)"),(N,"            component.set_clock_indices(clock_index);","            let taken = *clock_index;\n            component.set_clock_indices(clock_index);\n            if taken > 0 && component.edges.is_empty() && component.locations.len() == 1 {\n                *clock_index -= component.declarations.get_clock_count();\n            }")],
 "a component with one location and no edges that is not the first one, followed by another with a clock","the clock of the one-location component is shared with the next component",
 H+'''fn main() {
    let mut l = lib(vec![comp("A", 1, vec![loc("a", I, None)], vec![]), comp("B", 1, vec![loc("b", I, Some(le(2)))], vec![])]);
    let (mut d, mut q) = (0, None);
    let r = get_system_recipe(&X::Composition(bx(c("A")), bx(X::Composition(bx(c("B")), bx(c("A"))))), &mut l, &mut d, &mut q);
    assert!(apart(&[&r])); assert_eq!(d, 3);
}
''')
