//! Stand-in for EDBM: exact federations of difference-bound matrices (integers, strict/non-strict),
//! written from the published meaning of each operation. Used only for the search for failing inputs.
pub mod util {
    pub mod bounds {
        use super::constraints::ClockIndex;
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct Bounds { pub(crate) lower: Vec<Option<i32>>, pub(crate) upper: Vec<Option<i32>> }
        impl Bounds {
            pub fn new(dim: ClockIndex) -> Self { Bounds { lower: vec![None; dim], upper: vec![None; dim] } }
            fn add(v: &mut [Option<i32>], c: usize, b: i32) { v[c] = Some(v[c].map_or(b, |x| x.max(b))); }
            pub fn add_lower(&mut self, c: ClockIndex, b: i32) { Self::add(&mut self.lower, c, b) }
            pub fn add_upper(&mut self, c: ClockIndex, b: i32) { Self::add(&mut self.upper, c, b) }
            pub fn add_bounds(&mut self, o: &Bounds) {
                assert_eq!(self.lower.len(), o.lower.len());
                for i in 0..self.lower.len() {
                    if let Some(b) = o.lower[i] { self.add_lower(i, b) }
                    if let Some(b) = o.upper[i] { self.add_upper(i, b) }
                }
            }
            pub fn get_lower(&self, c: ClockIndex) -> Option<i32> { self.lower[c] }
            pub fn get_upper(&self, c: ClockIndex) -> Option<i32> { self.upper[c] }
        }
    }
    pub mod constraints {
        pub type ClockIndex = usize;
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub enum Inequality { LS(i32), LE(i32) }
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub struct RawInequality { b: i32, s: bool }
        impl RawInequality {
            pub fn from_inequality(i: &Inequality) -> Self { match *i { Inequality::LS(b) => Self { b, s: true }, Inequality::LE(b) => Self { b, s: false } } }
            pub fn is_strict(&self) -> bool { self.s }
            pub fn bound(&self) -> i32 { self.b }
        }
        #[derive(Clone, Debug, PartialEq, Eq, Hash)]
        pub struct Constraint { pub i: ClockIndex, pub j: ClockIndex, ineq: RawInequality }
        impl Constraint {
            pub fn new(i: ClockIndex, j: ClockIndex, ineq: RawInequality) -> Self { Constraint { i, j, ineq } }
            pub fn ineq(&self) -> RawInequality { self.ineq }
        }
        #[derive(Clone, Debug, PartialEq, Eq, Hash)]
        pub struct Conjunction { pub constraints: Vec<Constraint> }
        impl Conjunction { pub fn new(constraints: Vec<Constraint>) -> Self { Conjunction { constraints } } pub fn iter(&self) -> std::slice::Iter<'_, Constraint> { self.constraints.iter() } }
        #[derive(Clone, Debug, PartialEq, Eq, Hash)]
        pub struct Disjunction { pub conjunctions: Vec<Conjunction> }
        impl Disjunction { pub fn new(conjunctions: Vec<Conjunction>) -> Self { Disjunction { conjunctions } } pub fn iter(&self) -> std::slice::Iter<'_, Conjunction> { self.conjunctions.iter() } }
    }
}
pub mod zones {
    use super::util::bounds::Bounds;
    use super::util::constraints::*;
    const INF: i64 = i64::MAX;
    const ZERO: i64 = 1; // <= 0
    fn le(c: i64) -> i64 { 2 * c + 1 }
    fn lt(c: i64) -> i64 { 2 * c }
    fn raw(i: Inequality) -> i64 { match i { Inequality::LE(c) => le(c as i64), Inequality::LS(c) => lt(c as i64) } }
    fn add(a: i64, b: i64) -> i64 { if a == INF || b == INF { INF } else { 2 * ((a >> 1) + (b >> 1)) + (a & b & 1) } }
    /// complement of x <= a on the reversed difference
    fn neg(a: i64) -> i64 { 2 * -(a >> 1) + (1 - (a & 1)) }
    #[derive(Clone, Debug, PartialEq, Eq, Hash)]
    struct Dbm { n: usize, m: Vec<i64> }
    impl Dbm {
        fn universe(n: usize) -> Dbm { let mut d = Dbm { n, m: vec![INF; n * n] }; for i in 0..n { d.m[i * n + i] = ZERO; d.m[i] = ZERO; } d }
        fn at(&self, i: usize, j: usize) -> i64 { self.m[i * self.n + j] }
        fn set(&mut self, i: usize, j: usize, v: i64) { let n = self.n; self.m[i * n + j] = v; }
        fn close(mut self) -> Option<Dbm> {
            let n = self.n;
            for k in 0..n { for i in 0..n { for j in 0..n { let v = add(self.at(i, k), self.at(k, j)); if v < self.at(i, j) { self.set(i, j, v); } } } if (0..n).any(|i| self.at(i, i) < ZERO) { return None; } }
            Some(self)
        }
        fn and(&self, i: usize, j: usize, v: i64) -> Option<Dbm> {
            if self.at(i, j) <= v { return Some(self.clone()); }
            let mut d = self.clone(); d.set(i, j, v); d.close()
        }
        fn meet(&self, o: &Dbm) -> Option<Dbm> { let mut d = self.clone(); for k in 0..d.m.len() { d.m[k] = d.m[k].min(o.m[k]); } d.close() }
        fn within(&self, o: &Dbm) -> bool { self.m.iter().zip(&o.m).all(|(a, b)| a <= b) }
        fn minus(&self, o: &Dbm) -> Vec<Dbm> {
            let mut out = vec![]; let mut rest = self.clone();
            if self.meet(o).is_none() { return vec![self.clone()]; }
            for i in 0..self.n { for j in 0..self.n { if i == j { continue; } let v = o.at(i, j); if v == INF || rest.at(i, j) <= v { continue; }
                if let Some(p) = rest.and(j, i, neg(v)) { out.push(p); }
                match rest.and(i, j, v) { Some(r) => rest = r, None => return out } } }
            out
        }
        fn up(mut self) -> Dbm { for i in 1..self.n { self.set(i, 0, INF); } self }
        fn down(mut self) -> Dbm { for i in 1..self.n { self.set(0, i, ZERO); for j in 1..self.n { if self.at(j, i) < self.at(0, i) { let v = self.at(j, i); self.set(0, i, v); } } } self }
        fn free(mut self, x: usize) -> Dbm { for i in 0..self.n { if i != x { self.set(x, i, INF); let v = self.at(i, 0); self.set(i, x, v); } } self.close().unwrap() }
        fn reset(self, x: usize, v: i64) -> Dbm { self.free(x).and(x, 0, le(v)).unwrap().and(0, x, le(-v)).unwrap() }
        fn minimal(&self) -> Vec<(usize, usize, i64)> {
            let mut d = self.clone(); let n = self.n; let u = Dbm::universe(n);
            // drop constraints one at a time while the closure stays the same
            let mut keep = vec![];
            for i in 0..n { for j in 0..n { if i != j && d.at(i, j) < u.at(i, j) { keep.push((i, j)); } } }
            let all = keep.clone();
            for (i, j) in all { let old = d.at(i, j); d.set(i, j, u.at(i, j)); if d.clone().close().as_ref() == Some(self) { keep.retain(|k| *k != (i, j)); } else { d.set(i, j, old); } }
            keep.into_iter().map(|(i, j)| (i, j, self.at(i, j))).collect()
        }
    }
    #[derive(Clone, Debug)]
    pub struct OwnedFederation { n: usize, z: Vec<Dbm> }
    impl OwnedFederation {
        fn of(n: usize, z: Vec<Dbm>) -> Self {
            let mut out: Vec<Dbm> = vec![];
            for d in z { if out.iter().any(|o| d.within(o)) { continue; } out.retain(|o| !o.within(&d)); out.push(d); }
            OwnedFederation { n, z: out }
        }
        fn each(self, f: impl Fn(Dbm) -> Option<Dbm>) -> Self { Self::of(self.n, self.z.into_iter().filter_map(f).collect()) }
        pub fn universe(n: usize) -> Self { Self::of(n, vec![Dbm::universe(n)]) }
        pub fn empty(n: usize) -> Self { Self::of(n, vec![]) }
        pub fn zero(n: usize) -> Self { Self::of(n, vec![Dbm { n, m: vec![ZERO; n * n] }]) }
        pub fn init(n: usize) -> Self { Self::zero(n).up() }
        pub fn dim(&self) -> usize { self.n }
        pub fn is_universe(&self) -> bool { Self::universe(self.n).subset_eq(self) }
        pub fn is_empty(&self) -> bool { self.z.is_empty() }
        pub fn set_empty(self) -> Self { Self::empty(self.n) }
        pub fn intersection(self, o: &Self) -> Self { assert_eq!(self.n, o.n); let mut v = vec![]; for a in &self.z { for b in &o.z { v.extend(a.meet(b)); } } Self::of(self.n, v) }
        pub fn has_intersection(&self, o: &Self) -> bool { !self.clone().intersection(o).is_empty() }
        pub fn union(self, o: &Self) -> Self { assert_eq!(self.n, o.n); let mut v = self.z; v.extend(o.z.iter().cloned()); Self::of(self.n, v) }
        pub fn subtraction(self, o: &Self) -> Self { assert_eq!(self.n, o.n); let mut v = self.z; for b in &o.z { v = v.iter().flat_map(|a| a.minus(b)).collect(); } Self::of(self.n, v) }
        pub fn inverse(self) -> Self { Self::universe(self.n).subtraction(&self) }
        pub fn subset_eq(&self, o: &Self) -> bool { self.clone().subtraction(o).is_empty() }
        pub fn equals(&self, o: &Self) -> bool { self.subset_eq(o) && o.subset_eq(self) }
        pub fn up(self) -> Self { self.each(|d| Some(d.up())) }
        pub fn down(self) -> Self { self.each(|d| Some(d.down())) }
        pub fn constrain(self, i: ClockIndex, j: ClockIndex, q: Inequality) -> Self { assert!(i < self.n && j < self.n); self.each(|d| d.and(i, j, raw(q))) }
        pub fn constrain_eq(self, i: ClockIndex, v: i32) -> Self { self.constrain(i, 0, Inequality::LE(v)).constrain(0, i, Inequality::LE(-v)) }
        pub fn update_clock_val(self, i: ClockIndex, v: i32) -> Self { assert!(i > 0 && i < self.n && v >= 0); self.each(|d| Some(d.reset(i, v as i64))) }
        pub fn free_clock(self, i: ClockIndex) -> Self { assert!(i > 0 && i < self.n); self.each(|d| Some(d.free(i))) }
        pub fn can_delay_indefinitely(&self) -> bool { self.z.iter().all(|d| (1..d.n).all(|i| d.at(i, 0) == INF)) }
        pub fn extrapolate_max_bounds(self, b: &Bounds) -> Self {
            let n = self.n; let k = |i: usize| -> i64 { if i == 0 { 0 } else { b.upper[i].max(b.lower[i]).map_or(i64::MIN / 8, |x| x as i64) } };
            self.each(|mut d| { for i in 0..n { for j in 0..n { if i == j { continue; } let v = d.at(i, j); if v == INF { continue; }
                if i != 0 && (v >> 1) > k(i) { d.set(i, j, INF); }
                else if j != 0 && -(v >> 1) > k(j) { let nv = if k(j) < 0 { if i == 0 { ZERO } else { INF } } else { lt(-k(j)) }; d.set(i, j, nv); } } }
                d.close() })
        }
        pub fn get_bounds(&self) -> Bounds {
            let mut b = Bounds::new(self.n);
            for d in &self.z { for i in 1..self.n { if d.at(i, 0) != INF { b.add_upper(i, (d.at(i, 0) >> 1) as i32); } if d.at(0, i) != ZERO { b.add_lower(i, -(d.at(0, i) >> 1) as i32); } } }
            b
        }
        pub fn predt(&self, bad: &Self) -> Self {
            let n = self.n; let mut out = vec![];
            for g in &self.z {
                let mut acc: Option<OwnedFederation> = None;
                for b in &bad.z {
                    let gf = Self::of(n, vec![g.clone()]); let bf = Self::of(n, vec![b.clone()]); let bd = bf.clone().down();
                    let p = gf.clone().down().subtraction(&bd).union(&gf.intersection(&bd).subtraction(&bf).down());
                    acc = Some(match acc { None => p, Some(a) => a.intersection(&p) });
                }
                out.extend(match acc { None => vec![g.clone().down()], Some(a) => a.z });
            }
            Self::of(n, out)
        }
        pub fn minimal_constraints(&self) -> Disjunction {
            Disjunction::new(self.z.iter().map(|d| Conjunction::new(d.minimal().into_iter().map(|(i, j, v)| Constraint::new(i, j, RawInequality::from_inequality(&if v & 1 == 1 { Inequality::LE((v >> 1) as i32) } else { Inequality::LS((v >> 1) as i32) }))).collect())).collect())
        }
        pub fn from_disjunction(d: &Disjunction, n: usize) -> Self {
            let mut v = vec![];
            for c in &d.conjunctions { let mut z = Some(Dbm::universe(n)); for k in &c.constraints { let q = k.ineq(); let r = if q.is_strict() { lt(q.bound() as i64) } else { le(q.bound() as i64) }; z = z.and_then(|z| z.and(k.i, k.j, r)); } v.extend(z); }
            Self::of(n, v)
        }
        pub fn constrain_many(self, c: Vec<Constraint>) -> Self { let o = Self::from_disjunction(&Disjunction::new(vec![Conjunction::new(c)]), self.n); self.intersection(&o) }
        pub fn expensive_reduce(self) -> Self { self }
    }
    impl PartialEq for OwnedFederation { fn eq(&self, o: &Self) -> bool { self.n == o.n && self.equals(o) } }
    impl Eq for OwnedFederation {}
    impl std::ops::Add for OwnedFederation { type Output = Self; fn add(self, o: Self) -> Self { self.union(&o) } }
    impl std::ops::AddAssign for OwnedFederation { fn add_assign(&mut self, o: Self) { *self = self.clone().union(&o); } }
    impl std::ops::Sub for OwnedFederation { type Output = Self; fn sub(self, o: Self) -> Self { self.subtraction(&o) } }
    impl std::ops::SubAssign for OwnedFederation { fn sub_assign(&mut self, o: Self) { *self = self.clone().subtraction(&o); } }
    impl std::ops::Not for OwnedFederation { type Output = Self; fn not(self) -> Self { self.inverse() } }
    impl std::ops::Not for &OwnedFederation { type Output = OwnedFederation; fn not(self) -> OwnedFederation { self.clone().inverse() } }
    impl std::fmt::Display for OwnedFederation { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self.minimal_constraints().conjunctions.iter().map(|c| c.constraints.iter().map(|k| format!("c{}-c{}<{}{}", k.i, k.j, if k.ineq().is_strict() { "" } else { "=" }, k.ineq().bound())).collect::<Vec<_>>()).collect::<Vec<_>>()) } }
}
