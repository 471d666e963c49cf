from mkseed import seed
G="src/EdgeEval/constraint_applyer.rs"
A="src/ModelObjects/Expressions/arith_expression.rs"
HEAD='''use edbm::zones::OwnedFederation;
use edbm::util::constraints::Inequality::*;
use reveaal::EdgeEval::constraint_applyer::apply_constraints_to_state;
use reveaal::ModelObjects::Declarations;
use reveaal::ModelObjects::Expressions::{ArithExpression as A, BoolExpression as B};
fn decls() -> Declarations { let mut d = Declarations::empty(); d.clocks.insert("x".into(), 1); d.clocks.insert("y".into(), 2); d.ints.insert("n".into(), 3); d }
fn v(n: &str) -> A { A::VarName(n.into()) }
fn b<T>(t: T) -> Box<T> { Box::new(t) }
'''
seed("g01","C03",[(G,"""            c1.invert();
            c2.invert();
            combine_clocks(c1, c2, constant, false)""","""            if constant <= 0 {
                c1.invert();
                c2.invert();
            }
            combine_clocks(c1, c2, constant, false)""")],
 "a clock difference on the right-hand side compared with a negative left-hand constant",
 "the difference constraint is applied with its clocks swapped",
 HEAD+'''fn main() {
    // -2 <= x - y
    let g = B::LessEQ(b(A::Int(-2)), b(A::Difference(b(v("x")), b(v("y")))));
    let f = apply_constraints_to_state(&g, &decls(), OwnedFederation::universe(3)).unwrap();
    assert!(f.equals(&OwnedFederation::universe(3).constrain(2, 1, LE(2))), "{f}");
}
''')
seed("g02","C03",[(G,"            Ok(fed.constrain(i, j, LE(c)).constrain(j, i, LE(-c)))","            let upper = fed.constrain(i, j, LE(c));\n            if i == 0 || upper.is_empty() {\n                return Ok(upper);\n            }\n            Ok(upper.constrain(j, i, LE(-c)))")],
 "an equality written with the constant on the left (5 == x)",
 "only the lower bound of the equality is applied",
 HEAD+'''fn main() {
    let g = B::EQ(b(A::Int(5)), b(v("x")));
    let f = apply_constraints_to_state(&g, &decls(), OwnedFederation::universe(3)).unwrap();
    assert!(f.equals(&OwnedFederation::universe(3).constrain_eq(1, 5)), "{f}");
}
''')
seed("g03","C03",[(A,"""        if let ArithExpression::Int(0) = right {
            return left;
        }

        if let ArithExpression::Int(i) = left {
            if let ArithExpression::Int(j) = right {
                return ArithExpression::Int(i - j);""","""        if let ArithExpression::Int(0) = right {
            return left;
        }
        if let ArithExpression::Int(0) = left {
            if let ArithExpression::Clock(_) = right {
                return right;
            }
        }

        if let ArithExpression::Int(i) = left {
            if let ArithExpression::Int(j) = right {
                return ArithExpression::Int(i - j);""")],
 "a side of the form 0 - x, where the zero may come from folding",
 "the minus sign of the clock is lost",
 HEAD+'''fn main() {
    // (n - 3) - x >= -4   is   x <= 4
    let side = A::Difference(b(A::Difference(b(v("n")), b(A::Int(3)))), b(v("x")));
    let g = B::GreatEQ(b(side), b(A::Int(-4)));
    let f = apply_constraints_to_state(&g, &decls(), OwnedFederation::universe(3)).unwrap();
    assert!(f.equals(&OwnedFederation::universe(3).constrain(1, 0, LE(4))), "{f}");
}
''')
seed("g04","C03",[(G,"""            let clone = fed.clone();
            let fed1 = apply_constraints_to_state_helper(left, decls, fed)?;
            let fed2 = apply_constraints_to_state_helper(right, decls, clone)?;
            Ok(fed1 + fed2)""","""            let clone = fed.clone();
            let fed1 = apply_constraints_to_state_helper(left, decls, fed)?;
            if fed1.is_empty() {
                return Ok(fed1);
            }
            let fed2 = apply_constraints_to_state_helper(right, decls, clone)?;
            Ok(fed1 + fed2)""")],
 "a disjunction whose left side is unsatisfiable in the current zone while the right side is satisfiable",
 "the whole disjunction is treated as false",
 HEAD+'''fn main() {
    let g = B::OrOp(b(B::LessT(b(v("x")), b(A::Int(2)))), b(B::GreatEQ(b(v("y")), b(A::Int(1)))));
    let z = OwnedFederation::universe(3).constrain(0, 1, LE(-2));
    let f = apply_constraints_to_state(&g, &decls(), z.clone()).unwrap();
    assert!(f.equals(&z.constrain(0, 2, LE(-1))), "{f}");
}
''')
