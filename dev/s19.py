from mkseed import seed
S="src/System/extract_state.rs"; X="src/ModelObjects/Expressions/state_expression.rs"
H=open("s6.py").read().split("H='''",1)[1].split("'''",1)[0]+'''use reveaal::extract_system_rep::SystemRecipe as R;
use reveaal::ModelObjects::Expressions::{ComponentVariable as V, OperandExpression as O, StateExpression as E};
use reveaal::System::extract_state::get_state;
fn c(n: &str, id: Option<&str>, clock: usize) -> Box<R> {
    let mut x = comp(n, clock, vec![loc("a", I, None), loc("b", N, None)], vec![edge("p", "a", "b", "o", false, Some(le(3)), &[])]);
    x.special_id = id.map(|i| i.to_string()); Box::new(R::Component(Box::new(x)))
}
fn v(n: &str, id: Option<&str>, w: &str) -> V { V { component: n.into(), special_id: id.map(|i| i.to_string()), variable: w.into() } }
fn at(n: &str, id: Option<&str>, w: &str) -> E { E::Location(v(n, id, w)) }
fn x(n: &str, id: Option<&str>) -> O { O::Clock(v(n, id, "x")) }
fn state(e: E, r: R, clocks: usize) -> Result<State, String> { let t = r.clone().compile(clocks).map_err(|_| "recipe".to_string()).unwrap(); get_state(&e, &r, &t) }
'''
seed("F01","C19",[(S,"    locations.dedup();\n","    locations.dedup_by(|later, earlier| {\n        later.component == earlier.component && later.variable == earlier.variable\n    });\n")],
 "locations of the same name for two instances of one component, one after the other","the second instance is at any location",
 H+'''fn main() {
    let s = state(E::AND(vec![at("A", Some("1"), "b"), at("A", Some("2"), "b")]), R::Conjunction(c("A", Some("1"), 1), c("A", Some("2"), 2)), 2).unwrap();
    assert!(!s.decorated_locations.id.is_partial_location());
}
''')
seed("F02","C19",[(S,"                loc.component == component.name && loc.special_id == component.special_id\n            }) {","                // Without an id, every instance of the component is meant\n                loc.component == component.name\n                    && (loc.special_id.is_none() || loc.special_id == component.special_id)\n            }) {")],
 "an instance without an id beside one with an id, and a location of the former","the other instance is put in that location as well",
 H+'''fn main() {
    let s = state(at("A", None, "b"), R::Conjunction(c("A", None, 1), c("A", Some("2"), 2)), 2).unwrap();
    assert!(s.decorated_locations.id.is_partial_location());
}
''')
seed("F03","C19",[(X,"                    .find(|c| c.name == *component && c.special_id == *special_id)","                    .find(|c| {\n                        c.name == *component\n                            && (special_id.is_none() || c.special_id == *special_id)\n                    })")],
 "a clock of an instance without an id, right of an instance with an id","the clock of the other instance is constrained",
 H+'''fn main() {
    let r = R::Conjunction(c("A", Some("2"), 1), c("A", None, 2));
    let s = state(E::LEQ(x("A", None), O::Number(2)), r.clone(), 2).unwrap();
    let t = state(E::LEQ(x("A", Some("2")), O::Number(2)), r, 2).unwrap();
    assert!(!s.zone_ref().subset_eq(t.zone_ref()));
}
''')
seed("F04","C19",[(S,'''        StateExpression::AND(exprs) => {
            let mut res = Vec::new();
            for expr in exprs {
                res.append(&mut get_locations(expr)?);
            }
            Ok(res)
''','''        StateExpression::AND(exprs) => {
            let mut res = Vec::new();
            for mut locations in exprs.iter().flat_map(get_locations) {
                res.append(&mut locations);
            }
            Ok(res)
''')],
 "a disjunction of locations below a conjunction","the disjunction is ignored instead of refused, so any location will do",
 H+'''fn main() {
    let e = E::AND(vec![E::OR(vec![at("A", None, "a"), at("A", None, "b")]), E::LEQ(x("A", None), O::Number(2))]);
    assert!(state(e, *c("A", None, 1), 1).is_err());
}
''')
seed("F05","C19",[(X,'''                    .expect("OR expression must have at least one operand");
                Ok(exprs.fold(first, |acc, e| {
                    BoolExpression::OrOp(Box::new(acc), Box::new(e))
                }))''','''                    .expect("OR expression must have at least one operand");
                match exprs.next() {
                    Some(second) => Ok(BoolExpression::OrOp(Box::new(first), Box::new(second))),
                    None => Ok(first),
                }''')],
 "a disjunction of three","the third alternative is forgotten",
 H+'''fn main() {
    let k = |n| E::EQ(x("A", None), O::Number(n));
    let r = *c("A", None, 1);
    let s = state(E::OR(vec![k(1), k(2), k(3)]), r.clone(), 1).unwrap();
    assert!(state(k(3), r, 1).unwrap().zone_ref().subset_eq(s.zone_ref()));
}
''')
seed("F06","C19",[(S,"        .filter(|(&c1, &c2)| c1 != c2)\n","        .filter(|(&c1, &c2)| c1 != c2 && c1.declarations != c2.declarations)\n"),(S,"        .find(|(c1, c2)| c1.name == c2.name && c1.special_id == c2.special_id)","        .find(|(c1, c2)| c1.name == c2.name && c1.special_id.is_some() && c1.special_id == c2.special_id)")],
 "two instances of one component, both without an id","the description is taken to be about both instances' locations and only the first one's clock, instead of refused",
 H+'''fn main() {
    let r = R::Conjunction(c("A", None, 1), c("A", None, 2));
    assert!(state(E::AND(vec![at("A", None, "a"), E::LEQ(x("A", None), O::Number(2))]), r, 2).is_err());
}
''')
