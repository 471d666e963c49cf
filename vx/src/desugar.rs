//! Mechanical rewrites that bring the extracted body into Verus' Rust subset.
//! Every kind of rewrite that fired is listed in the report ("drops").
use crate::unit::{FnSpec, Unit};
use crate::PathFix;
use quote::{format_ident, quote};
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Expr, Pat, Stmt};

pub struct Desugar<'a> {
    unit: &'a Unit,
    fs: &'a FnSpec,
    pub problems: Vec<String>,
    pub drops: Vec<String>,
    pub loop_count: usize,
    tmp: std::collections::HashMap<String, usize>,
    collects: usize,
    /// parameters of type `&mut T`
    pub mutrefs: Vec<String>,
    /// variables that are bound to no iterator
    plain: Vec<String>,
}

/// `let x = a.iter().filter(..);` keeps a list of the elements, `x.clone()` reads it again
struct Lazy {
    names: Vec<String>,
    /// `let mut x = vec.into_iter()`: x is kept as the vector of what is left
    owned: Vec<String>,
    all: Vec<String>,
    lazies: bool,
}
impl Lazy {
    fn lazy(&self, e: &Expr) -> bool {
        let mut cur = e;
        let mut adapted = false;
        loop {
            match cur {
                Expr::MethodCall(m) => {
                    let n = m.method.to_string();
                    if ["filter"].contains(&n.as_str()) {
                        adapted = true;
                    } else if ["iter", "keys", "values"].contains(&n.as_str()) {
                        return adapted;
                    } else if !["copied"].contains(&n.as_str()) {
                        return false;
                    }
                    cur = &m.receiver;
                }
                _ => return false,
            }
        }
    }
    fn name(&self, e: &Expr) -> bool {
        matches!(e, Expr::Path(p) if p.path.get_ident().map(|i| self.names.contains(&i.to_string())).unwrap_or(false))
    }
}
impl VisitMut for Lazy {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let (n, o) = (self.names.clone(), self.owned.clone());
        syn::visit_mut::visit_block_mut(self, b);
        for x in self.owned.iter() {
            if !self.all.contains(x) {
                self.all.push(x.clone());
            }
        }
        (self.names, self.owned) = (n, o);
    }
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        syn::visit_mut::visit_local_mut(self, l);
        let (Pat::Ident(p), Some(init)) = (&l.pat, &mut l.init) else { return };
        let id = p.ident.to_string();
        self.owned.retain(|n| *n != id);
        if let Expr::MethodCall(m) = &*init.expr {
            let made = match &*m.receiver { Expr::Try(t) => matches!(&*t.expr, Expr::MethodCall(c) if c.method == "collect"), Expr::MethodCall(c) => c.method == "collect", _ => false };
            if p.mutability.is_some() && m.method == "into_iter" && m.args.is_empty() && made {
                let r = (*m.receiver).clone();
                init.expr = Box::new(r);
                self.owned.push(id);
                return;
            }
        }
        if p.mutability.is_none() && p.by_ref.is_none() && init.diverge.is_none() && self.lazy(&init.expr) {
            let e = (*init.expr).clone();
            init.expr = parse_quote!(#e.collect::<Vec<_>>());
            self.names.push(id);
            self.lazies = true;
        } else {
            self.names.retain(|n| *n != id);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if matches!(&*m.receiver, Expr::Path(p) if p.path.get_ident().map(|i| self.owned.contains(&i.to_string())).unwrap_or(false)) {
                let x = m.receiver.clone();
                if m.method == "next" && m.args.is_empty() {
                    *e = parse_quote!((if #x.len() > 0 { Some(#x.remove(0)) } else { None }));
                } else {
                    m.receiver = parse_quote!(#x.into_iter());
                }
                return;
            }
            if self.name(&m.receiver) {
                let x = m.receiver.clone();
                if m.method == "clone" {
                    *e = parse_quote!(#x.iter().copied());
                } else if !["iter", "len", "is_empty"].contains(&m.method.to_string().as_str()) {
                    m.receiver = parse_quote!(#x.into_iter());
                }
            }
        }
    }
}

enum Ad {
    Filter(syn::ExprClosure),
    Map(Expr),
    FilterMap(syn::ExprClosure),
    FlatMap(syn::ExprClosure),
    Cloned,
    Copied,
    Enumerate,
    Flatten,
    Try,
    Product(Expr),
}

const SETOPS: &[&str] = &["union", "intersection", "difference"];
const LOG: &[&str] = &["debug", "trace", "info", "warn", "error", "println", "eprintln", "print", "eprint"];

impl<'a> Desugar<'a> {
    pub fn new(unit: &'a Unit, fs: &'a FnSpec) -> Self {
        Desugar { unit, fs, problems: vec![], drops: vec![], loop_count: 0, tmp: Default::default(), collects: 0, mutrefs: vec![], plain: vec![] }
    }
    fn drop(&mut self, s: &str) {
        if !self.drops.iter().any(|d| d == s) {
            self.drops.push(s.to_string());
        }
    }
    fn fresh(&mut self, p: &str) -> syn::Ident {
        let c = self.tmp.entry(p.to_string()).or_insert(0);
        *c += 1;
        format_ident!("__vx_{}{}", p, *c)
    }
    pub fn run(&mut self, b: &mut syn::Block) {
        PathFix { unit: self.unit }.visit_block_mut(b);
        let mut lz = Lazy { names: vec![], owned: vec![], all: vec![], lazies: false };
        lz.visit_block_mut(b);
        if !lz.all.is_empty() {
            self.drop("an owning iterator kept in a variable is kept as the vector of what is left, next() removes the first element");
        }
        if lz.lazies {
            self.drop("an iterator kept in a variable is collected where it is made (its closures have no effects)");
        }
        self.visit_block_mut(b);
        let mut n = Number { k: 0, problems: vec![] };
        n.visit_block_mut(b);
        self.loop_count = n.k;
        self.problems.extend(n.problems);
    }

    /// `base.adaptor().adaptor()` -> (source, adaptors)
    fn chain(&mut self, e: &Expr) -> Option<(Expr, Vec<Ad>)> {
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let clo = |m: &syn::ExprMethodCall| match m.args.first() {
                Some(Expr::Closure(c)) => Some(c.clone()),
                _ => None,
            };
            let ad = match name.as_str() {
                "filter" => Some(Ad::Filter(clo(m)?)),
                "map" => Some(Ad::Map(m.args.first()?.clone())),
                "filter_map" => Some(Ad::FilterMap(clo(m)?)),
                "flat_map" => Some(Ad::FlatMap(clo(m)?)),
                "cloned" => Some(Ad::Cloned),
                "copied" => Some(Ad::Copied),
                "enumerate" => Some(Ad::Enumerate),
                "flatten" => Some(Ad::Flatten),
                "__vx_try" => Some(Ad::Try),
                "cartesian_product" => Some(Ad::Product(m.args.first()?.clone())),
                _ => None,
            };
            if let Some(a) = ad {
                let (s, mut v) = self.chain(&m.receiver)?;
                v.push(a);
                return Some((s, v));
            }
            if SETOPS.contains(&name.as_str()) && m.args.len() == 1 {
                let f = format_ident!("vx_set_{}", name);
                let (r, a) = (&m.receiver, m.args.first().unwrap());
                self.drop("union/intersection/difference of sets go through helpers whose results are assumed to be what std documents");
                return Some((parse_quote!(#f(&#r, #a).iter()), vec![]));
            }
            if name == "into_iter" && m.args.is_empty() {
                if let Some(x) = self.elems(&m.receiver) {
                    return Some((x, vec![]));
                }
                // .iter().filter().into_iter(): identity on iterators
                if let Expr::MethodCall(inner) = &*m.receiver {
                    let n = inner.method.to_string();
                    if ["filter", "map", "cloned", "filter_map", "enumerate", "iter"].contains(&n.as_str()) {
                        return self.chain(&m.receiver);
                    }
                }
            }
        }
        if let Some(x) = self.elems(e) {
            return Some((x, vec![]));
        }
        // `&place` iterates like `place.iter()` for every std collection
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() && matches!(&*r.expr, Expr::Path(_) | Expr::Field(_)) {
                let x = &r.expr;
                return Some((parse_quote!(#x.iter()), vec![]));
            }
        }
        Some((e.clone(), vec![]))
    }
    /// calls known (from the unit) to return sets: iterate over the elements in some order
    fn elems(&mut self, e: &Expr) -> Option<Expr> {
        if let Expr::MethodCall(m) = e {
            if self.unit.set_fns.iter().any(|n| m.method == n) {
                self.drop("iterating a set by value goes through a helper assumed to list every element once");
                return Some(parse_quote!(vx_elems(#e)));
            }
        }
        fn tails(e: &Expr, fns: &[String]) -> bool {
            let tail = |b: &syn::Block| match b.stmts.last() { Some(syn::Stmt::Expr(e, None)) => tails(e, fns), _ => false };
            match e {
                Expr::MethodCall(m) => fns.iter().any(|n| m.method == n),
                Expr::If(i) => tail(&i.then_branch) && i.else_branch.as_ref().map_or(false, |(_, x)| tails(x, fns)),
                Expr::Block(b) => tail(&b.block),
                _ => false,
            }
        }
        if matches!(e, Expr::If(_)) && tails(e, &self.unit.set_fns) {
            self.drop("iterating a set by value goes through a helper assumed to list every element once");
            return Some(parse_quote!(vx_elems(#e)));
        }
        None
    }

    fn bind(&mut self, pat: &Pat, val: Expr) -> Vec<Stmt> {
        match pat {
            Pat::Ident(_) => vec![parse_quote!(let #pat = #val;)],
            Pat::Type(t) => {
                let p = &t.pat;
                let ty = &t.ty;
                match &**p {
                    Pat::Ident(_) => vec![parse_quote!(let #p : #ty = #val;)],
                    _ => self.bind(p, val),
                }
            }
            Pat::Wild(_) => vec![],
            Pat::Paren(p) => self.bind(&p.pat, val),
            Pat::Reference(r) => self.bind(&r.pat, parse_quote!((*#val))),
            Pat::Tuple(t) => {
                if t.elems.iter().all(|p| matches!(p, Pat::Ident(_) | Pat::Wild(_))) {
                    return vec![parse_quote!(let #pat = #val;)];
                }
                let names: Vec<syn::Ident> = t.elems.iter().map(|_| self.fresh("p")).collect();
                let mut v: Vec<Stmt> = vec![parse_quote!(let (#(#names),*) = #val;)];
                for (n, p) in names.iter().zip(t.elems.iter()) {
                    v.extend(self.bind(p, parse_quote!(#n)));
                }
                v
            }
            _ => vec![parse_quote!(let #pat = #val;)],
        }
    }

    fn closure_apply(&mut self, c: &syn::ExprClosure, arg: Expr) -> Expr {
        let mut early = Early(false);
        early.visit_expr_mut(&mut c.body.as_ref().clone());
        if early.0 {
            self.problems.push("closure with return/? cannot be expanded".into());
        }
        let pat = c.inputs.first().cloned().unwrap_or(parse_quote!(_));
        let b = self.bind(&pat, arg);
        let body = &c.body;
        if b.is_empty() {
            return (**body).clone();
        }
        parse_quote!({ #(#b)* #body })
    }

    /// for ITEM in SRC { ADS; BODY(item) }
    fn build(&mut self, src: Expr, ads: Vec<Ad>, first_pat: Option<Pat>, body: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        if let Some((place, vals)) = self.mut_source(&src) {
            return self.build_mut(place, vals, ads, first_pat, body);
        }
        let item = self.fresh("e");
        // direct: no adaptors, body binds pattern in the for header
        if ads.is_empty() {
            if let Some(p) = &first_pat {
                if simple_pat(p) {
                    let b = body(self, parse_quote!(()));
                    return vec![parse_quote!(for #p in #src { #(#b)* })];
                }
            }
        }
        self.drop("iterator adaptor chains are expanded into the equivalent for-loops");
        let mut pre: Vec<Stmt> = vec![];
        let inner = self.build_ads(parse_quote!(#item), ads, &mut pre, body);
        let mut v = pre;
        v.push(parse_quote!(for #item in #src { #(#inner)* }));
        v
    }

    /// `place.iter_mut()`, `&mut place`, `map.values_mut()` -> (place, only the values of a map)
    fn mut_source(&self, e: &Expr) -> Option<(Expr, Option<bool>)> {
        let is_map = |p: &Expr| match p {
            Expr::Field(f) => match &f.member {
                syn::Member::Named(n) => self.unit.map_fields.iter().any(|m| n == m),
                _ => false,
            },
            Expr::Path(q) => q.path.get_ident().is_some_and(|n| self.unit.map_fields.iter().any(|m| n == m)),
            _ => false,
        };
        let place = |p: &Expr| matches!(p, Expr::Path(_) | Expr::Field(_));
        match e {
            Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter_mut" && place(&m.receiver) => {
                let p = (*m.receiver).clone();
                let k = if is_map(&p) { Some(false) } else { None };
                Some((p, k))
            }
            Expr::MethodCall(m) if m.args.is_empty() && m.method == "values_mut" && place(&m.receiver) => Some(((*m.receiver).clone(), Some(true))),
            Expr::Reference(r) if r.mutability.is_some() && place(&r.expr) => {
                let p = (*r.expr).clone();
                let k = if is_map(&p) { Some(false) } else { None };
                Some((p, k))
            }
            _ => None,
        }
    }
    /// loop over mutable references: by index for a sequence, by key for a map
    fn build_mut(&mut self, place: Expr, map: Option<bool>, ads: Vec<Ad>, first_pat: Option<Pat>, body: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        let item = self.fresh("e");
        let mut pre: Vec<Stmt> = vec![];
        let bound: Vec<Stmt> = first_pat.as_ref().map(|p| self.bind(p, parse_quote!(#item))).unwrap_or_default();
        let inner = self.build_ads(parse_quote!(#item), ads, &mut pre, body);
        let mut v = pre;
        match map {
            None => {
                let i = self.fresh("n");
                self.drop("a loop over mutable references to the elements of a sequence is written with an index");
                v.push(parse_quote!(let mut #i: usize = 0;));
                v.push(parse_quote!(while #i < #place.len() { let #item = &mut #place[#i]; #i = #i + 1; #(#bound)* #(#inner)* }));
            }
            Some(vals) => {
                let (k, o) = (self.fresh("k"), self.fresh("v"));
                self.drop("a loop over mutable references to the values of a map takes the keys first (helper assumed to list every key once) and lends out one value after the other");
                let r = self.lend(&place);
                let it: Expr = if vals { parse_quote!(#o) } else { parse_quote!((&#k, #o)) };
                v.push(parse_quote!(for #k in vx_keys(&#place) { if let Some(#o) = vx_get_mut(#r, &#k) { let #item = #it; #(#bound)* #(#inner)* } }));
            }
        }
        v
    }

    fn build_ads(&mut self, cur: Expr, mut ads: Vec<Ad>, pre: &mut Vec<Stmt>, body: &mut dyn FnMut(&mut Self, Expr) -> Vec<Stmt>) -> Vec<Stmt> {
        if ads.is_empty() {
            return body(self, cur);
        }
        let a = ads.remove(0);
        match a {
            Ad::Cloned => {
                let n = self.fresh("c");
                let mut v: Vec<Stmt> = vec![parse_quote!(let #n = #cur.clone();)];
                v.extend(self.build_ads(parse_quote!(#n), ads, pre, body));
                v
            }
            Ad::Copied => {
                let n = self.fresh("c");
                let mut v: Vec<Stmt> = vec![parse_quote!(let #n = *#cur;)];
                v.extend(self.build_ads(parse_quote!(#n), ads, pre, body));
                v
            }
            Ad::Enumerate => {
                let n = self.fresh("i");
                let m = self.fresh("j");
                pre.push(parse_quote!(let mut #n: usize = 0;));
                let mut v: Vec<Stmt> = vec![parse_quote!(let #m = #n;), parse_quote!(#n = #n + 1;)];
                v.extend(self.build_ads(parse_quote!((#m, #cur)), ads, pre, body));
                v
            }
            Ad::Filter(c) => {
                let cond = self.closure_apply(&c, parse_quote!((&#cur)));
                let rest = self.build_ads(cur, ads, pre, body);
                vec![parse_quote!(if #cond { #(#rest)* })]
            }
            Ad::Map(e) => {
                let n = self.fresh("m");
                let val = match &e {
                    Expr::Closure(c) => self.closure_apply(c, cur),
                    f => parse_quote!(#f(#cur)),
                };
                let mut v: Vec<Stmt> = vec![parse_quote!(let #n = #val;)];
                v.extend(self.build_ads(parse_quote!(#n), ads, pre, body));
                v
            }
            Ad::FilterMap(c) => {
                let val = self.closure_apply(&c, cur);
                let n = self.fresh("m");
                let rest = self.build_ads(parse_quote!(#n), ads, pre, body);
                vec![parse_quote!(if let Some(#n) = #val { #(#rest)* })]
            }
            Ad::FlatMap(c) => {
                let mut val = self.closure_apply(&c, cur);
                // the statements of the closure come before the loop over what it gives
                let mut lets: Vec<Stmt> = vec![];
                loop {
                    let next = match &val {
                        Expr::Block(b) if b.label.is_none() && matches!(b.block.stmts.last(), Some(Stmt::Expr(_, None))) => {
                            let mut st = b.block.stmts.clone();
                            let Some(Stmt::Expr(e, None)) = st.pop() else { unreachable!() };
                            lets.extend(st);
                            e
                        }
                        _ => break,
                    };
                    val = next;
                }
                let (s, mut inner) = self.chain(&val).unwrap_or((val.clone(), vec![]));
                inner.extend(ads);
                let it = self.fresh("e");
                let rest = self.build_ads(parse_quote!(#it), inner, pre, body);
                lets.push(parse_quote!(for #it in #s { #(#rest)* }));
                lets
            }
            Ad::Try => {
                let n = self.fresh("q");
                let mut v: Vec<Stmt> = vec![parse_quote!(let #n = #cur?;)];
                v.extend(self.build_ads(parse_quote!(#n), ads, pre, body));
                v
            }
            // itertools: the second iterator is gone through anew for every element of the first
            Ad::Product(arg) => {
                let (s, inner) = self.chain(&arg).unwrap_or((arg.clone(), vec![]));
                if !inner.is_empty() {
                    self.problems.push("cartesian_product with an adapted iterator".into());
                }
                let it = self.fresh("e");
                let rest = self.build_ads(parse_quote!((#cur, #it)), ads, pre, body);
                vec![parse_quote!(for #it in #s { #(#rest)* })]
            }
            Ad::Flatten => {
                let it = self.fresh("e");
                let rest = self.build_ads(parse_quote!(#it), ads, pre, body);
                vec![parse_quote!(for #it in #cur { #(#rest)* })]
            }
        }
    }

    fn is_iter_chain(&mut self, e: &Expr) -> bool {
        // the root method must look like an iterator source
        let mut cur = e;
        loop {
            match cur {
                Expr::MethodCall(m) => {
                    let n = m.method.to_string();
                    if ["iter", "into_iter", "keys", "values", "iter_mut", "values_mut", "drain", "chars", "lines", "rev", "union", "intersection", "difference"].contains(&n.as_str()) {
                        return true;
                    }
                    if ["filter", "map", "filter_map", "flat_map", "cloned", "copied", "enumerate", "flatten", "__vx_try", "cartesian_product"].contains(&n.as_str()) {
                        cur = &m.receiver;
                        continue;
                    }
                    return false;
                }
                Expr::Paren(p) => cur = &p.expr,
                Expr::Range(_) => return true,
                _ => return false,
            }
        }
    }

    /// `a.union(&b).cloned().collect()` into a set
    fn set_collect(&mut self, m: &syn::ExprMethodCall, idx: usize) -> Option<Expr> {
        if self.fs.collect_into.contains_key(&idx) || m.turbofish.as_ref().map(|t| !quote!(#t).to_string().contains("HashSet")).unwrap_or(false) {
            return None;
        }
        let mut cur = &*m.receiver;
        let mut copied = false;
        loop {
            let Expr::MethodCall(c) = cur else { return None };
            let n = c.method.to_string();
            if SETOPS.contains(&n.as_str()) && c.args.len() == 1 && copied {
                let f = format_ident!("vx_set_{}", n);
                let (r, a) = (&c.receiver, c.args.first().unwrap());
                self.drop("union/intersection/difference of sets go through helpers whose results are assumed to be what std documents");
                return Some(parse_quote!(#f(&#r, #a)));
            }
            let ok = match (n.as_str(), c.args.first()) {
                ("cloned", None) | ("copied", None) => true,
                ("map", Some(Expr::Closure(k))) => match (k.inputs.first(), &*k.body) {
                    (Some(Pat::Ident(p)), Expr::MethodCall(b)) => {
                        let r = &b.receiver;
                        ["to_string", "clone", "to_owned"].contains(&b.method.to_string().as_str()) && quote!(#r).to_string() == p.ident.to_string()
                    }
                    _ => false,
                },
                _ => false,
            };
            if !ok {
                return None;
            }
            copied = true;
            cur = &c.receiver;
        }
    }

    /// `x` as a `&mut` argument
    fn lend(&self, e: &Expr) -> Expr {
        if let Expr::Path(p) = e {
            if p.path.get_ident().is_some_and(|i| self.mutrefs.iter().any(|m| i == m)) {
                return e.clone();
            }
        }
        parse_quote!(&mut #e)
    }

    fn terminal(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let clo = match m.args.first() {
            Some(Expr::Closure(c)) => Some(c.clone()),
            _ => None,
        };
        match name.as_str() {
            "collect" => {
                if !self.is_iter_chain(&m.receiver) {
                    return None;
                }
                let idx = self.collects;
                self.collects += 1;
                if let Some(n) = self.set_collect(m, idx) {
                    return Some(n);
                }
                let (src, ads) = self.chain(&m.receiver)?;
                let out = self.fresh("out");
                let mut kind = self.fs.collect_into.get(&idx).cloned().unwrap_or("Vec".into());
                let mut full: Option<syn::Type> = None;
                if kind.contains('<') {
                    full = syn::parse_str(&kind).ok();
                    kind = kind.split('<').next().unwrap().trim().to_string();
                }
                if let Some(t) = &m.turbofish {
                    let s = quote!(#t).to_string();
                    if full.is_none() && !s.contains('_') {
                        if let Some(syn::GenericArgument::Type(t)) = t.args.first() {
                            full = Some(t.clone());
                        }
                    }
                    let outer = s.trim_start_matches([':', '<', ' ']).split([' ', '<']).next().unwrap_or("").to_string();
                    if ["HashSet", "HashMap", "Vec"].contains(&outer.as_str()) {
                        kind = outer;
                    }
                }
                let init: Expr = match kind.as_str() {
                    "HashSet" => parse_quote!(HashSet::new()),
                    "HashMap" => parse_quote!(HashMap::new()),
                    _ => parse_quote!(Vec::new()),
                };
                let o2 = out.clone();
                let stmts = self.build(src, ads, None, &mut |_s, x| match kind.as_str() {
                    "HashSet" => vec![parse_quote!(#o2.insert(#x);)],
                    "HashMap" => vec![parse_quote!(let (__vx_k, __vx_v) = #x;), parse_quote!(#o2.insert(__vx_k, __vx_v);)],
                    _ => vec![parse_quote!(#o2.push(#x);)],
                });
                match full {
                    Some(t) => Some(parse_quote!({ let mut #out : #t = #init; #(#stmts)* #out })),
                    None => Some(parse_quote!({ let mut #out = #init; #(#stmts)* #out })),
                }
            }
            "any" | "all" | "find" | "position" | "for_each" | "count" | "sum" | "max" | "min" => {
                if !self.is_iter_chain(&m.receiver) {
                    return None;
                }
                if ["count", "sum", "max", "min"].contains(&name.as_str()) == clo.is_some() || (name == "max" || name == "min") && !m.args.is_empty() {
                    return None;
                }
                let (src, ads) = self.chain(&m.receiver)?;
                let nested = ads.iter().any(|a| matches!(a, Ad::FlatMap(_) | Ad::Flatten | Ad::Product(_)));
                if nested && name == "position" {
                    self.problems.push("position over nested iterators".into());
                }
                let r = self.fresh("r");
                let r2 = r.clone();
                let nm = name.clone();
                let c = clo.clone();
                let mut pre: Vec<Stmt> = vec![];
                let pos = self.fresh("pos");
                let pos2 = pos.clone();
                if name == "position" {
                    pre.push(parse_quote!(let mut #pos: usize = 0;));
                }
                let stmts = self.build(src, ads, None, &mut |s, x| match nm.as_str() {
                    "any" => {
                        let cond = s.closure_apply(c.as_ref().unwrap(), x);
                        vec![parse_quote!(if #cond { #r2 = true; break; })]
                    }
                    "all" => {
                        let cond = s.closure_apply(c.as_ref().unwrap(), x);
                        vec![parse_quote!(if !(#cond) { #r2 = false; break; })]
                    }
                    "find" => {
                        let cond = s.closure_apply(c.as_ref().unwrap(), parse_quote!((&#x)));
                        if nested {
                            // the break leaves only the inner loop
                            vec![parse_quote!(if #r2.is_none() { if #cond { #r2 = Some(#x); break; } })]
                        } else {
                            vec![parse_quote!(if #cond { #r2 = Some(#x); break; })]
                        }
                    }
                    "position" => {
                        let cond = s.closure_apply(c.as_ref().unwrap(), x);
                        vec![parse_quote!(if #cond { #r2 = Some(#pos2); break; }), parse_quote!(#pos2 = #pos2 + 1;)]
                    }
                    "for_each" => {
                        let b = s.closure_apply(c.as_ref().unwrap(), x);
                        vec![parse_quote!(#b;)]
                    }
                    "count" => vec![parse_quote!(#r2 = #r2 + 1;)],
                    "max" => {
                        let (y, z) = (s.fresh("m"), s.fresh("o"));
                        vec![parse_quote!(let #y = #x;), parse_quote!(#r2 = match #r2 { None => Some(#y), Some(#z) => if #z > #y { Some(#z) } else { Some(#y) } };)]
                    }
                    "min" => {
                        let (y, z) = (s.fresh("m"), s.fresh("o"));
                        vec![parse_quote!(let #y = #x;), parse_quote!(#r2 = match #r2 { None => Some(#y), Some(#z) => if #z <= #y { Some(#z) } else { Some(#y) } };)]
                    }
                    _ => vec![parse_quote!(#r2 = #r2 + #x;)],
                });
                let init: Expr = match name.as_str() {
                    "any" => parse_quote!(false),
                    "all" => parse_quote!(true),
                    "find" | "position" | "max" | "min" => parse_quote!(None),
                    "for_each" => parse_quote!(()),
                    "count" => parse_quote!(0usize),
                    _ => parse_quote!(0),
                };
                Some(parse_quote!({ let mut #r = #init; #(#pre)* #(#stmts)* #r }))
            }
            "fold" if m.args.len() == 2 => {
                if !self.is_iter_chain(&m.receiver) {
                    return None;
                }
                let Some(Expr::Closure(c)) = m.args.last() else { return None };
                let (Some(a), Some(p)) = (c.inputs.first().cloned(), c.inputs.iter().nth(1).cloned()) else { return None };
                let Pat::Ident(_) = a else { return None };
                let mut early = Early(false);
                early.visit_expr_mut(&mut c.body.as_ref().clone());
                if early.0 {
                    self.problems.push("closure with return/? cannot be expanded".into());
                }
                let (src, ads) = self.chain(&m.receiver)?;
                let acc = self.fresh("acc");
                let (acc2, init, b) = (acc.clone(), m.args.first().unwrap(), c.body.clone());
                let stmts = self.build(src, ads, None, &mut |s, x| {
                    let mut v: Vec<Stmt> = vec![parse_quote!(let #a = #acc2;)];
                    v.extend(s.bind(&p, x));
                    v.push(parse_quote!(#acc2 = #b;));
                    v
                });
                self.drop("fold is written as the equivalent loop");
                Some(parse_quote!({ let mut #acc = #init; #(#stmts)* #acc }))
            }
            "dedup" if m.args.is_empty() => {
                let r = self.lend(&m.receiver);
                self.drop("dedup goes through a helper assumed to do what std documents");
                Some(parse_quote!(vx_dedup(#r)))
            }
            "filter" if clo.is_some() => {
                let option = match &*m.receiver {
                    Expr::MethodCall(o) => (o.method == "as_mut" || o.method == "as_ref") && o.args.is_empty(),
                    // a variable that holds no iterator (a chain over one does not start here)
                    Expr::Path(p) => p.path.get_ident().is_some_and(|i| self.plain.iter().any(|n| i == n)),
                    _ => false,
                };
                if !option {
                    return None;
                }
                let (r, x) = (&m.receiver, self.fresh("o"));
                let cond = self.closure_apply(&clo.unwrap(), parse_quote!((&#x)));
                self.drop("Option::filter is expanded into the equivalent match");
                Some(parse_quote!((match #r { Some(#x) => if #cond { Some(#x) } else { None }, None => None })))
            }
            "is_disjoint" | "is_subset" | "is_superset" if m.args.len() == 1 => {
                let f = format_ident!("vx_set_{}", name);
                let (r, a) = (&m.receiver, m.args.first().unwrap());
                Some(parse_quote!(#f(&#r, #a)))
            }
            "get_mut" if m.args.len() == 1 && self.unit.getmut => {
                let (r, a) = (self.lend(&m.receiver), m.args.first().unwrap());
                self.drop("HashMap::get_mut goes through a helper assumed to lend out exactly that entry");
                Some(parse_quote!(vx_get_mut(#r, #a)))
            }
            "or_default" if m.args.is_empty() && self.unit.getmut => {
                let Expr::MethodCall(en) = &*m.receiver else { return None };
                if en.method != "entry" || en.args.len() != 1 {
                    return None;
                }
                let (r, a) = (self.lend(&en.receiver), en.args.first().unwrap());
                self.drop("HashMap::entry(..).or_default() goes through a helper assumed to lend out exactly that entry, or a new empty one");
                Some(parse_quote!(vx_entry(#r, #a)))
            }
            "retain" if clo.is_some() => {
                let c = clo.unwrap();
                let (p, b) = (c.inputs.first()?.clone(), &c.body);
                let r = &m.receiver;
                let (old, x, k) = (self.fresh("old"), self.fresh("x"), self.fresh("keep"));
                self.drop("Vec::retain is written as a loop that moves the kept elements over");
                let lets = self.bind(&p, parse_quote!(&#x));
                Some(parse_quote!({
                    let #old = #r.split_off(0);
                    for #x in #old { let #k: bool = { #(#lets)* #b }; if #k { #r.push(#x); } }
                }))
            }
            "sort" | "reverse" if m.args.is_empty() => {
                let f = format_ident!("vx_{}", name);
                let r = self.lend(&m.receiver);
                self.drop("sort / reverse go through helpers assumed to do what std documents");
                Some(parse_quote!(#f(#r)))
            }
            "map_err" if clo.is_some() => {
                let c = clo.unwrap();
                let (p, b) = (c.inputs.first()?, &c.body);
                let r = &m.receiver;
                self.drop("map_err / ok_or_else / unwrap_or_else closures are expanded into the equivalent match");
                Some(parse_quote!((match #r { Ok(__vx_ok) => Ok(__vx_ok), Err(#p) => Err(#b) })))
            }
            // an Option's (no and_then on a Result with a closure is under contract)
            "and_then" if clo.is_some() && self.unit.optthen => {
                let (r, x) = (&m.receiver, self.fresh("o"));
                let b = self.closure_apply(&clo.unwrap(), parse_quote!(#x));
                self.drop("Option::and_then is expanded into the equivalent match");
                Some(parse_quote!((match #r { Some(#x) => #b, None => None })))
            }
            "map" if clo.is_some() && self.unit.optthen && matches!(&*m.receiver, Expr::Path(_) | Expr::Field(_)) => {
                let (r, x) = (&m.receiver, self.fresh("o"));
                let b = self.closure_apply(&clo.unwrap(), parse_quote!(#x));
                self.drop("Option::map on a variable is expanded into the equivalent match");
                Some(parse_quote!((match #r { Some(#x) => Some(#b), None => None })))
            }
            "ok_or_else" if clo.is_some() => {
                let b = &clo.as_ref().unwrap().body;
                let r = &m.receiver;
                self.drop("map_err / ok_or_else / unwrap_or_else closures are expanded into the equivalent match");
                Some(parse_quote!((match #r { Some(__vx_ok) => Ok(__vx_ok), None => Err(#b) })))
            }
            "extend" => {
                let arg = m.args.first()?.clone();
                let recv = &m.receiver;
                let (src, ads) = self.chain(&arg)?;
                let set = self.fs.collect_into.get(&1000).map(|s| s == "HashSet").unwrap_or(false);
                let rv = recv.clone();
                let stmts = self.build(src, ads, None, &mut |_s, x| {
                    if set {
                        vec![parse_quote!(#rv.insert(#x);)]
                    } else {
                        vec![parse_quote!(#rv.push(#x);)]
                    }
                });
                Some(parse_quote!({ #(#stmts)* }))
            }
            _ => None,
        }
    }

    fn do_macro(&mut self, mac: &syn::Macro, stmt: bool) -> Option<Option<Expr>> {
        let name = mac.path.segments.last().unwrap().ident.to_string();
        let ty = if stmt { quote!(::<()>) } else { quote!() };
        let panic: Expr = parse_quote!(vx_panic #ty ());
        match name.as_str() {
            n if LOG.contains(&n) => {
                self.drop("log/println macros are dropped");
                if stmt {
                    Some(None)
                } else {
                    Some(Some(parse_quote!(())))
                }
            }
            "log_enabled" => {
                self.drop("log_enabled! is replaced by an arbitrary bool");
                Some(Some(parse_quote!(vx_any_bool())))
            }
            "format" => {
                self.drop("format! is replaced by an arbitrary String (its text is not specified)");
                Some(Some(parse_quote!(vx_fmt())))
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                self.drop("panic!/unreachable!/unimplemented! become a call with precondition false (must be proved unreachable)");
                Some(Some(panic))
            }
            "assert" | "debug_assert" => {
                let a: syn::punctuated::Punctuated<Expr, syn::Token![,]> = mac.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
                let mut c = a[0].clone();
                self.visit_expr_mut(&mut c);
                self.drop("assert!s become proof obligations");
                Some(Some(parse_quote!(if !(#c) { vx_panic::<()>() })))
            }
            "assert_eq" | "debug_assert_eq" => {
                let a: syn::punctuated::Punctuated<Expr, syn::Token![,]> = mac.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
                let (mut x, mut y) = (a[0].clone(), a[1].clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut y);
                self.drop("assert!s become proof obligations");
                Some(Some(parse_quote!(if !(#x == #y) { vx_panic::<()>() })))
            }
            "assert_ne" | "debug_assert_ne" => {
                let a: syn::punctuated::Punctuated<Expr, syn::Token![,]> = mac.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok()?;
                let (mut x, mut y) = (a[0].clone(), a[1].clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut y);
                self.drop("assert!s become proof obligations");
                Some(Some(parse_quote!(if #x == #y { vx_panic::<()>() })))
            }
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e: Expr = i.parse()?;
                        i.parse::<syn::Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(syn::Token![if]) {
                            i.parse::<syn::Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<syn::Token![,]>>();
                        Ok(M(e, p, g))
                    }
                }
                let M(mut e, mut p, g) = mac.parse_body().ok()?;
                PathFix { unit: self.unit }.visit_pat_mut(&mut p);
                self.visit_expr_mut(&mut e);
                let g = g.map(|mut g| {
                    self.visit_expr_mut(&mut g);
                    quote!(if #g)
                });
                Some(Some(parse_quote!(match #e { #p #g => true, _ => false })))
            }
            "bail" => {
                self.drop("bail! returns an arbitrary error value");
                Some(Some(parse_quote!(return Err(vx_err()))))
            }
            "vec" => {
                // keep, but process the arguments
                if let Ok(a) = mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                    let v: Vec<Expr> = a
                        .into_iter()
                        .map(|mut e| {
                            self.visit_expr_mut(&mut e);
                            if self.fs.vecderef && matches!(e, Expr::Path(_)) {
                                e = parse_quote!(&**#e);
                            }
                            e
                        })
                        .collect();
                    if v.is_empty() {
                        return Some(Some(parse_quote!(Vec::new())));
                    }
                    return Some(Some(parse_quote!({ let mut __vx_v = Vec::new(); #(__vx_v.push(#v);)* __vx_v })));
                }
                None
            }
            _ => None,
        }
    }
}

/// `::<Result<V, _>>` -> V
fn result_of(t: &syn::AngleBracketedGenericArguments) -> Option<syn::Type> {
    let Some(syn::GenericArgument::Type(syn::Type::Path(p))) = t.args.first() else { return None };
    let l = p.path.segments.last()?;
    let syn::PathArguments::AngleBracketed(a) = &l.arguments else { return None };
    match a.args.first() {
        Some(syn::GenericArgument::Type(v)) if l.ident == "Result" => Some(v.clone()),
        _ => None,
    }
}

fn simple_pat(p: &Pat) -> bool {
    match p {
        Pat::Ident(i) => i.by_ref.is_none(),
        Pat::Wild(_) => true,
        Pat::Tuple(t) => t.elems.iter().all(|p| matches!(p, Pat::Ident(_) | Pat::Wild(_))),
        _ => false,
    }
}

struct Early(bool);
impl VisitMut for Early {
    fn visit_expr_return_mut(&mut self, _: &mut syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try_mut(&mut self, _: &mut syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}

/// `break v` of the loop itself -> `{ x = Some(v); break; }`
struct BreakVal {
    name: syn::Ident,
    n: usize,
}
impl VisitMut for BreakVal {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Break(b) = e {
            if let (None, Some(v)) = (&b.label, &b.expr) {
                let (v, x) = (v.clone(), self.name.clone());
                self.n += 1;
                *e = parse_quote!({ #x = #v; break; });
            }
            return;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_for_loop_mut(&mut self, _: &mut syn::ExprForLoop) {}
    fn visit_expr_while_mut(&mut self, _: &mut syn::ExprWhile) {}
    fn visit_expr_loop_mut(&mut self, _: &mut syn::ExprLoop) {}
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}

struct HasContinue(bool);
impl VisitMut for HasContinue {
    fn visit_expr_continue_mut(&mut self, _: &mut syn::ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_for_loop_mut(&mut self, _: &mut syn::ExprForLoop) {}
    fn visit_expr_while_mut(&mut self, _: &mut syn::ExprWhile) {}
    fn visit_expr_loop_mut(&mut self, _: &mut syn::ExprLoop) {}
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}
fn has_continue_stmts(v: &[Stmt]) -> bool {
    let mut h = HasContinue(false);
    for s in v {
        h.visit_stmt_mut(&mut s.clone());
    }
    h.0
}

/// statements after `if c { ..; continue; }` move into the else branch
fn elim_continue(stmts: Vec<Stmt>) -> Vec<Stmt> {
    if !has_continue_stmts(&stmts) {
        return stmts;
    }
    let mut out = vec![];
    let mut it = stmts.into_iter();
    while let Some(s) = it.next() {
        match &s {
            Stmt::Expr(Expr::Continue(c), _) if c.label.is_none() => return out,
            Stmt::Expr(Expr::If(i), _) if has_continue_stmts(std::slice::from_ref(&s)) && !matches!(&*i.cond, Expr::Continue(_)) => {
                let rest: Vec<Stmt> = it.collect();
                let mut i = i.clone();
                let then_c = has_continue_stmts(&i.then_branch.stmts);
                let mut then = i.then_branch.stmts.clone();
                if ends_continue(&then) {
                    then = elim_continue(then);
                } else if then_c {
                    then.extend(rest.clone());
                    then = elim_continue(then);
                } else {
                    fix_tail(&mut then);
                    then.extend(rest.clone());
                    then = elim_continue(then);
                }
                i.then_branch.stmts = then;
                let els: Vec<Stmt> = match &i.else_branch {
                    None => rest,
                    Some((_, e)) => {
                        let mut es = match &**e {
                            Expr::Block(b) => b.block.stmts.clone(),
                            e => vec![Stmt::Expr(e.clone(), None)],
                        };
                        if !ends_continue(&es) {
                            fix_tail(&mut es);
                            es.extend(rest);
                        }
                        es
                    }
                };
                let els = elim_continue(els);
                i.else_branch = Some((Default::default(), Box::new(parse_quote!({ #(#els)* }))));
                out.push(Stmt::Expr(Expr::If(i), None));
                return out;
            }
            Stmt::Expr(Expr::Match(m), _) if has_continue_stmts(std::slice::from_ref(&s)) => {
                let rest: Vec<Stmt> = it.collect();
                let mut m = m.clone();
                for a in m.arms.iter_mut() {
                    let mut b = match &*a.body {
                        Expr::Block(b) => b.block.stmts.clone(),
                        e => vec![Stmt::Expr(e.clone(), Some(Default::default()))],
                    };
                    if !ends_continue(&b) {
                        fix_tail(&mut b);
                        b.extend(rest.clone());
                    }
                    let b = elim_continue(b);
                    *a.body = parse_quote!({ #(#b)* });
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
                return out;
            }
            Stmt::Local(l) if has_continue_stmts(std::slice::from_ref(&s)) => {
                // let P = match e { A => v, B => continue };
                if let Some(init) = &l.init {
                    if let (Expr::Match(m), None) = (&*init.expr, &init.diverge) {
                        let rest: Vec<Stmt> = it.collect();
                        let mut m = m.clone();
                        for a in m.arms.iter_mut() {
                            let is_c = matches!(&*a.body, Expr::Continue(_));
                            if is_c {
                                *a.body = parse_quote!({});
                            } else {
                                let mut l2 = l.clone();
                                let b = &a.body;
                                l2.init.as_mut().unwrap().expr = b.clone();
                                let mut v = vec![Stmt::Local(l2)];
                                v.extend(rest.clone());
                                let v = elim_continue(v);
                                *a.body = parse_quote!({ #(#v)* });
                            }
                        }
                        out.push(Stmt::Expr(Expr::Match(m), None));
                        return out;
                    }
                }
                out.push(s);
            }
            _ => out.push(s),
        }
    }
    out
}
fn ends_continue(v: &[Stmt]) -> bool {
    matches!(v.last(), Some(Stmt::Expr(Expr::Continue(_), _)))
}
fn fix_tail(v: &mut Vec<Stmt>) {
    if let Some(Stmt::Expr(_, semi @ None)) = v.last_mut() {
        *semi = Some(Default::default());
    }
}

impl<'a> VisitMut for Desugar<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut new = vec![];
        let stmts = std::mem::take(&mut b.stmts);
        let count = stmts.len();
        for (at, mut s) in stmts.into_iter().enumerate() {
            if let Stmt::Macro(m) = &s {
                // `unreachable!();` ends a block of any type
                let last = at + 1 == count && count == 1 && m.mac.path.segments.last().map(|p| p.ident == "unreachable").unwrap_or(false);
                if last {
                    if let Some(Some(e)) = self.do_macro(&m.mac, false) {
                        new.push(Stmt::Expr(parse_quote!(return #e), None));
                        continue;
                    }
                }
                match self.do_macro(&m.mac, true) {
                    Some(None) => continue,
                    Some(Some(e)) => {
                        let semi = m.semi_token;
                        s = Stmt::Expr(e, semi);
                        new.push(s);
                        continue;
                    }
                    None => {}
                }
            }
            if let Stmt::Expr(Expr::Macro(m), semi) = &s {
                let semi = *semi;
                match self.do_macro(&m.mac, semi.is_some()) {
                    Some(None) => continue,
                    Some(Some(e)) => {
                        new.push(Stmt::Expr(e, semi));
                        continue;
                    }
                    None => {}
                }
            }
            if let Stmt::Item(syn::Item::Use(_)) = &s {
                continue;
            }
            // a function declared in the body is emitted beside it (unit path outer~inner)
            if let Stmt::Item(syn::Item::Fn(_)) = &s {
                continue;
            }
            self.visit_stmt_mut(&mut s);
            new.push(s);
        }
        b.stmts = new;
    }

    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        // `let x: T = ... .collect()` collects into T
        if let (Pat::Type(t), Some(init)) = (&l.pat, &mut l.init) {
            if let Expr::MethodCall(m) = &mut *init.expr {
                if m.method == "collect" && m.turbofish.is_none() {
                    let ty = &t.ty;
                    m.turbofish = Some(parse_quote!(::<#ty>));
                }
            }
        }
        if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
            let id = p.ident.to_string();
            self.plain.retain(|n| *n != id);
            if !self.is_iter_chain(&init.expr) && !matches!(&*init.expr, Expr::Path(_)) {
                self.plain.push(id);
            }
        }
        syn::visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(r) = self.do_macro(&m.mac, false) {
                *e = r.unwrap_or(parse_quote!(()));
                return;
            }
        }
        if self.fs.splitor {
            if let Expr::Match(m) = e {
                let mut arms = vec![];
                for a in m.arms.drain(..) {
                    match &a.pat {
                        Pat::Or(o) => {
                            for c in o.cases.iter() {
                                let mut b = a.clone();
                                b.pat = c.clone();
                                arms.push(b);
                            }
                        }
                        _ => arms.push(a),
                    }
                }
                for a in arms.iter_mut() {
                    a.comma = Some(Default::default());
                }
                m.arms = arms;
                self.drop("match arms with alternatives are written as one arm per alternative");
            }
        }
        // `it.collect::<Result<Vec<T>, _>>()?`: the first error is returned at once
        if let Expr::Try(t) = e {
            if let Expr::MethodCall(m) = &mut *t.expr {
                if m.method == "collect" {
                    if let Some(v) = m.turbofish.as_ref().and_then(result_of) {
                        let r = &m.receiver;
                        *e = parse_quote!(#r.__vx_try().collect::<#v>());
                        self.drop("collecting into a Result and ? is written as a loop that returns the first error");
                    }
                }
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
        self.ref_pats(e);
        if self.unit.addassign {
            if let Expr::Binary(b) = e {
                if let syn::BinOp::AddAssign(_) = b.op {
                    let (l, r) = (b.left.clone(), b.right.clone());
                    *e = parse_quote!(#l = #l + #r);
                    self.drop("`a += b` is written `a = a + b`");
                }
            }
        }
        if self.unit.boolops {
            if let Expr::Binary(b) = e {
                let (l, r) = (b.left.clone(), b.right.clone());
                match b.op {
                    syn::BinOp::BitOr(_) => *e = parse_quote!(vx_or(#l, #r)),
                    syn::BinOp::BitAnd(_) => *e = parse_quote!(vx_and(#l, #r)),
                    syn::BinOp::BitOrAssign(_) => *e = parse_quote!(#l = vx_or(#l, #r)),
                    syn::BinOp::BitAndAssign(_) => *e = parse_quote!(#l = vx_and(#l, #r)),
                    _ => {}
                }
            }
        }
        if let Expr::Call(c) = e {
            let f = &c.func;
            let f = quote!(#f).to_string().replace(' ', "");
            if c.args.len() == 1 && (f == "Vec::from_iter" || f == "HashSet::from_iter") {
                let mut a = c.args.first().unwrap().clone();
                let mut uniq = false;
                if let Expr::MethodCall(m) = &a {
                    if m.method == "unique" && m.args.is_empty() {
                        let r = (*m.receiver).clone();
                        a = r;
                        uniq = true;
                    }
                }
                if !self.is_iter_chain(&a) {
                    a = parse_quote!(#a.into_iter());
                }
                let k = format_ident!("{}", f.split(':').next().unwrap());
                let m: syn::ExprMethodCall = parse_quote!(#a.collect::<#k<_>>());
                if let Some(n) = self.terminal(&m) {
                    self.drop("from_iter is read as collect; itertools' unique goes through a helper assumed to keep the first occurrence of every element");
                    *e = if uniq { parse_quote!(vx_unique(#n)) } else { n };
                    return;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if !self.fs.keep_closures {
                if let Some(n) = self.terminal(&m.clone()) {
                    *e = n;
                    return;
                }
            }
        }
        if let Expr::Loop(f) = e {
            if f.label.is_none() {
                let mut bv = BreakVal { name: format_ident!("x"), n: 0 };
                for s in f.body.stmts.iter() {
                    bv.visit_stmt_mut(&mut s.clone());
                }
                if bv.n > 0 {
                    let name = self.fresh("b");
                    let mut bv = BreakVal { name: name.clone(), n: 0 };
                    for s in f.body.stmts.iter_mut() {
                        bv.visit_stmt_mut(s);
                    }
                    self.drop("`break value` of a loop is written as an assignment and a break");
                    let l = f.clone();
                    *e = parse_quote!({ let #name; #l #name });
                    return;
                }
            }
        }
        if let Expr::ForLoop(f) = e {
            let had_c = has_continue_stmts(&f.body.stmts);
            if had_c {
                let st = elim_continue(std::mem::take(&mut f.body.stmts));
                if has_continue_stmts(&st) {
                    self.problems.push("unsupported continue".into());
                }
                f.body.stmts = st;
                self.drop("continue in for-loops is rewritten to if/else");
            }
            let src = (*f.expr).clone();
            let (s, ads) = self.chain(&src).unwrap_or((src.clone(), vec![]));
            if ads.is_empty() && simple_pat(&f.pat) && self.mut_source(&s).is_none() {
                *f.expr = s;
                return;
            }
            if self.fs.keep_closures {
                return;
            }
            let pat = (*f.pat).clone();
            let body = f.body.stmts.clone();
            let label = f.label.clone();
            if label.is_some() {
                self.problems.push("labelled for-loop with adaptors".into());
            }
            let stmts = self.build(s, ads, None, &mut |d, x| {
                let mut v = d.bind(&pat, x);
                v.extend(body.clone());
                v
            });
            *e = parse_quote!({ #(#stmts)* });
        }
    }
}

/// `Some(&x)` in a pattern -> `Some(t)` plus `let x = *t;` in the branch
struct RefPats {
    lets: Vec<Stmt>,
    n: usize,
}
impl VisitMut for RefPats {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if let Pat::Ident(_) = &*r.pat {
                self.n += 1;
                let t = format_ident!("__vx_r{}", self.n);
                let inner = r.pat.clone();
                self.lets.push(parse_quote!(let #inner = *#t;));
                *p = parse_quote!(#t);
                return;
            }
        }
        syn::visit_mut::visit_pat_mut(self, p);
    }
}
impl<'a> Desugar<'a> {
    fn ref_pats(&mut self, e: &mut Expr) {
        let base = *self.tmp.entry("r".into()).or_insert(0);
        let mut v = RefPats { lets: vec![], n: base };
        match e {
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    v.visit_pat_mut(&mut l.pat);
                    for (k, s) in v.lets.iter().enumerate() {
                        i.then_branch.stmts.insert(k, s.clone());
                    }
                }
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &mut *w.cond {
                    v.visit_pat_mut(&mut l.pat);
                    for (k, s) in v.lets.iter().enumerate() {
                        w.body.stmts.insert(k, s.clone());
                    }
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    if a.guard.is_some() {
                        continue;
                    }
                    v.lets.clear();
                    v.visit_pat_mut(&mut a.pat);
                    if !v.lets.is_empty() {
                        let (l, b) = (&v.lets, &a.body);
                        a.body = parse_quote!({ #(#l)* #b });
                        if a.comma.is_none() {
                            a.comma = Some(Default::default());
                        }
                    }
                }
            }
            _ => {}
        }
        let n = v.n;
        if n > base {
            self.drop("`&x` patterns are bound by reference and dereferenced in the branch");
        }
        self.tmp.insert("r".into(), n);
    }
}

struct Number {
    k: usize,
    problems: Vec<String>,
}
impl VisitMut for Number {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let k = proc_macro2::Literal::usize_unsuffixed(self.k);
                self.k += 1;
                let src = &f.expr;
                f.expr = parse_quote!(__vx_it!(#k, #src));
                f.body.stmts.insert(0, parse_quote!(__vx_inv!(#k);));
            }
            Expr::While(f) => {
                let k = proc_macro2::Literal::usize_unsuffixed(self.k);
                self.k += 1;
                f.body.stmts.insert(0, parse_quote!(__vx_inv!(#k);));
            }
            Expr::Loop(f) => {
                let k = proc_macro2::Literal::usize_unsuffixed(self.k);
                self.k += 1;
                f.body.stmts.insert(0, parse_quote!(__vx_inv!(#k);));
            }
            _ => {}
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

// ---------------------------------------------------------------- hints

struct HintIns {
    hint: usize,
    place: String,
    done: bool,
}
fn loop_no(stmts: &[Stmt]) -> Option<usize> {
    if let Some(Stmt::Macro(m)) = stmts.first() {
        if m.mac.path.is_ident("__vx_inv") {
            return m.mac.tokens.to_string().trim().parse().ok();
        }
    }
    None
}
fn stmt_loop_no(s: &Stmt) -> Option<usize> {
    match s {
        Stmt::Expr(Expr::ForLoop(f), _) => loop_no(&f.body.stmts),
        Stmt::Expr(Expr::While(f), _) => loop_no(&f.body.stmts),
        Stmt::Expr(Expr::Loop(f), _) => loop_no(&f.body.stmts),
        _ => None,
    }
}
impl VisitMut for HintIns {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let h = proc_macro2::Literal::usize_unsuffixed(self.hint);
        let mk: Stmt = parse_quote!(__vx_hint!(#h););
        let place = self.place.clone();
        let words: Vec<&str> = place.split_whitespace().collect();
        if !self.done && words[0] == "in" {
            // only inside the body of one loop
            let k: usize = words[1].parse().unwrap();
            if loop_no(&b.stmts) == Some(k) {
                let rest = place.splitn(3, char::is_whitespace).nth(2).unwrap().to_string();
                let mut h = HintIns { place: rest, hint: self.hint, done: false };
                h.visit_block_mut(b);
                self.done = h.done;
                return;
            }
        }
        if !self.done && words[0] == "loop" {
            let k: usize = words[1].parse().unwrap();
            if loop_no(&b.stmts) == Some(k) {
                if words[2] == "start" {
                    b.stmts.insert(1, mk.clone());
                    self.done = true;
                } else if words[2] == "end" {
                    // a trailing expression stays last only if it is not a value
                    if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
                        *semi = Some(Default::default());
                    }
                    b.stmts.push(mk.clone());
                    self.done = true;
                }
            }
            for (i, s) in b.stmts.clone().iter().enumerate() {
                if stmt_loop_no(s) == Some(k) {
                    if words[2] == "before" {
                        b.stmts.insert(i, mk.clone());
                        self.done = true;
                    } else if words[2] == "after" {
                        if let Stmt::Expr(_, semi @ None) = &mut b.stmts[i] {
                            *semi = Some(Default::default());
                        }
                        b.stmts.insert(i + 1, mk.clone());
                        self.done = true;
                    }
                    break;
                }
            }
        }
        if !self.done && (words[0] == "before" || words[0] == "after") {
            let needle = place.splitn(2, char::is_whitespace).nth(1).unwrap().trim().trim_matches('"');
            let needle = crate::print::plain(needle.parse().unwrap());
            // innermost first
            syn::visit_mut::visit_block_mut(self, b);
            if self.done {
                return;
            }
            for (i, s) in b.stmts.clone().iter().enumerate() {
                if crate::print::plain(quote!(#s)).contains(&needle) {
                    if words[0] == "before" {
                        b.stmts.insert(i, mk.clone());
                    } else {
                        if let Stmt::Expr(_, semi @ None) = &mut b.stmts[i] {
                            *semi = Some(Default::default());
                        }
                        b.stmts.insert(i + 1, mk.clone());
                    }
                    self.done = true;
                    return;
                }
            }
            return;
        }
        if !self.done {
            syn::visit_mut::visit_block_mut(self, b);
        }
    }
}

impl<'a> Desugar<'a> {
    pub fn insert_hints(&mut self, b: &mut syn::Block) {
        for (i, h) in self.fs.hints.iter().enumerate() {
            let lit = proc_macro2::Literal::usize_unsuffixed(i);
            if h.place == "start" {
                b.stmts.insert(0, parse_quote!(__vx_hint!(#lit);));
                continue;
            }
            if h.place == "end" {
                // let r = { body }; hint; r
                if let Some(Stmt::Expr(e, None)) = b.stmts.last().cloned() {
                    let n = b.stmts.len();
                    let r = self.fs.ret.clone().unwrap_or("__vx_ret".into());
                    let r = format_ident!("{}", r);
                    b.stmts[n - 1] = parse_quote!(let #r = #e;);
                    b.stmts.push(parse_quote!(__vx_hint!(#lit);));
                    b.stmts.push(Stmt::Expr(parse_quote!(#r), None));
                } else {
                    b.stmts.push(parse_quote!(__vx_hint!(#lit);));
                }
                continue;
            }
            let mut hi = HintIns { hint: i, place: h.place.clone(), done: false };
            hi.visit_block_mut(b);
            if !hi.done {
                self.problems.push(format!("proof hint anchor lost: {}", h.place));
            }
        }
    }
}
