from mkseed import seed
N="src/System/input_enabler.rs"; B="src/ModelObjects/Expressions/bool_expression.rs"; L="src/DataReader/component_loader.rs"
H=open("s6.py").read().split("H='''",1)[1].split("'''",1)[0]+'''use reveaal::DataReader::component_loader::*;
fn v(n: &str) -> Box<A> { Box::new(A::VarName(n.into())) }
fn k(n: i32) -> Box<A> { Box::new(A::Int(n)) }
fn sat(g: &B, d: &Declarations, x: &[i32]) -> bool {
    fn val(e: &A, d: &Declarations, x: &[i32]) -> i32 { match e { A::Int(i) => *i, A::VarName(n) => x[d.clocks[n]], A::Difference(a, b) => val(a, d, x) - val(b, d, x), _ => panic!() } }
    match g { B::AndOp(a, b) => sat(a, d, x) && sat(b, d, x), B::OrOp(a, b) => sat(a, d, x) || sat(b, d, x), B::LessEQ(a, b) => val(a, d, x) <= val(b, d, x), B::GreatEQ(a, b) => val(a, d, x) >= val(b, d, x), B::LessT(a, b) => val(a, d, x) < val(b, d, x), B::GreatT(a, b) => val(a, d, x) > val(b, d, x), B::EQ(a, b) => val(a, d, x) == val(b, d, x), B::Bool(b) => *b }
}
fn load(c: Component) -> Component { let n = c.name.clone(); ComponentContainer::from(vec![c]).get_component(&n).clone() }
/// loops among the edges after the first m that can be taken
fn loops(c: &Component, m: usize, l: &str, a: &str, x: &[i32]) -> usize { c.edges[m..].iter().filter(|e| e.source_location == l && e.target_location == l && e.sync == a && e.guard.as_ref().map_or(true, |g| sat(g, &c.declarations, x))).count() }
'''
seed("D01","C17",[(N,"                if let Some(target_invariant) = &component\n                    .get_location_by_name(edge.target_location.as_str())\n                    .invariant\n                {","                // A loop stays within the invariant, which is intersected with below\n                let target = component.get_location_by_name(edge.target_location.as_str());\n                if let (true, Some(target_invariant)) =\n                    (target.id != location.id, &target.invariant)\n                {")],
 "an input loop whose update breaks the invariant of its own location","no loop is added although the component's edge cannot be taken",
 H+'''fn main() {
    let c = load(comp("A", 1, vec![loc("a", I, Some(le(5)))], vec![edge("p", "a", "a", "i", true, None, &[7])]));
    assert_eq!(loops(&c, 1, "a", "i", &[0, 3]), 1);
    let c = load(comp("A", 1, vec![loc("a", I, Some(le(5)))], vec![edge("p", "a", "a", "i", true, None, &[2])]));
    assert_eq!(loops(&c, 1, "a", "i", &[0, 3]), 0);
}
''')
seed("D02","C17",[(N,'''                .filter(|edge| edge.sync == *input || edge.sync == "*");''','''                .filter(|edge| edge.sync.starts_with(input.as_str()) || edge.sync == "*");''')],
 "two inputs of which one's name starts with the other's","the shorter one counts as accepted where only the longer one is",
 H+'''fn main() {
    let c = load(comp("A", 1, vec![loc("a", I, None), loc("b", N, None)], vec![edge("p", "a", "b", "i2", true, None, &[]), edge("q", "b", "a", "i", true, None, &[])]));
    assert_eq!(loops(&c, 2, "a", "i", &[0, 1]), 1); assert_eq!(loops(&c, 2, "b", "i2", &[0, 1]), 1); assert_eq!(loops(&c, 2, "a", "i2", &[0, 1]), 0);
}
''')
seed("D03","C17",[(B,'''                        true => BoolExpression::LessT(
                            var_from_naming(naming, i),
                            var_from_naming(naming, j),
                        ),''','''                        true => BoolExpression::LessEQ(
                            var_from_naming(naming, i),
                            var_from_naming(naming, j),
                        ),''')],
 "a zone that is bounded by one clock being strictly less than another","the valuations with equal clocks are taken in",
 H+'''fn main() {
    let mut a = comp("A", 1, vec![loc("a", I, None)], vec![edge("p", "a", "a", "i", true, Some(B::LessEQ(v("x"), v("y"))), &[])]);
    a.declarations.clocks.insert("y".into(), 2);
    let c = load(a);
    assert_eq!(loops(&c, 1, "a", "i", &[0, 3, 3]), 0); assert_eq!(loops(&c, 1, "a", "i", &[0, 4, 3]), 1); assert_eq!(loops(&c, 1, "a", "i", &[0, 2, 3]), 0);
}
''')
seed("D04","C17",[(N,"                        guard_zone = cu.apply_as_guard(guard_zone);\n","                        // A reset satisfies every upper bound\n                        if cu.value != 0 {\n                            guard_zone = cu.apply_as_guard(guard_zone);\n                        }\n")],
 "an input edge that resets a clock on which its target has a lower bound (or a difference)","the edge counts as possible everywhere, so no loop is added",
 H+'''fn main() {
    let c = load(comp("A", 1, vec![loc("a", I, None), loc("b", N, Some(B::GreatEQ(v("x"), k(2))))], vec![edge("p", "a", "b", "i", true, None, &[0])]));
    assert_eq!(loops(&c, 1, "a", "i", &[0, 3]), 1);
}
''')
seed("D05","C17",[(L,"            comp_hashmap.insert(component.name.to_string(), component);","            comp_hashmap\n                .entry(component.name.to_string())\n                .or_insert(component);")],
 "a model that holds two components of one name","the first one is used",
 H+'''fn main() {
    let a = comp("A", 1, vec![loc("a", I, None)], vec![]); let b = comp("A", 1, vec![loc("b", I, None)], vec![]);
    assert_eq!(ComponentContainer::from(vec![a, b]).get_component("A").locations[0].id, "b");
}
''')
seed("D06","C17",[(B,"                let expr = BoolExpression::from_conjunction(conjunction, &naming)?;","                let Some(expr) = BoolExpression::from_conjunction(conjunction, &naming) else {\n                    continue;\n                };"),(B,"        } else if disjunction.conjunctions.len() == 1 {\n            BoolExpression::from_conjunction(&disjunction.conjunctions[0], &naming)","        } else if let [only] = disjunction.conjunctions.as_slice() {\n            BoolExpression::from_conjunction(only, &naming)")],
 "a disjunction of several conjunctions of which one has no constraints","the guard written for everything says less than everything",
 H+'''use edbm::util::constraints::{Conjunction as Cj, Constraint, Disjunction, Inequality, RawInequality};
fn main() {
    let z = Disjunction::new(vec![Cj::new(vec![Constraint::new(1, 0, RawInequality::from_inequality(&Inequality::LE(3)))]), Cj::new(vec![])]);
    let mut d = Declarations::empty(); d.clocks.insert("x".into(), 1);
    let g = B::from_disjunction(&z, &d.clocks);
    assert!(g.map_or(true, |g| sat(&g, &d, &[0, 9])));
}
''')
