//! Inlines calls to helper functions that live in the same file but are not under contract
//! (so that "extract a helper" refactorings keep the proof applicable).
use crate::unit::Unit;
use crate::FoundFn;
use syn::visit::Visit;
use syn::visit_mut::VisitMut;

struct HasEarlyExit(bool);
impl<'a> Visit<'a> for HasEarlyExit {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}

struct RenameSelf<'a>(&'a str);
impl<'a> VisitMut for RenameSelf<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if p.is_ident("self") {
            *p = syn::parse_str(self.0).unwrap();
            return;
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut syn::Macro) {
        // rename self inside macro tokens
        fn go(ts: proc_macro2::TokenStream, to: &str) -> proc_macro2::TokenStream {
            ts.into_iter()
                .map(|t| match t {
                    proc_macro2::TokenTree::Ident(i) if i == "self" => {
                        proc_macro2::TokenTree::Ident(proc_macro2::Ident::new(to, i.span()))
                    }
                    proc_macro2::TokenTree::Group(g) => {
                        let mut ng = proc_macro2::Group::new(g.delimiter(), go(g.stream(), to));
                        ng.set_span(g.span());
                        proc_macro2::TokenTree::Group(ng)
                    }
                    t => t,
                })
                .collect()
        }
        m.tokens = go(m.tokens.clone(), self.0);
    }
}

/// names bound by patterns
#[derive(Default)]
struct Binds(Vec<String>);
impl<'a> Visit<'a> for Binds {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.0.push(p.ident.to_string());
    }
}
struct Mentions<'b>(&'b [String], bool);
impl<'a, 'b> Visit<'a> for Mentions<'b> {
    fn visit_ident(&mut self, i: &'a proc_macro2::Ident) {
        if self.0.iter().any(|n| i == n) {
            self.1 = true;
        }
    }
    fn visit_macro(&mut self, _: &'a syn::Macro) {
        self.1 = true;
    }
}
/// `f(e)` for a closure parameter f becomes the body of the closure that was passed
struct Beta<'a> {
    name: String,
    closure: &'a syn::ExprClosure,
}
impl<'a> VisitMut for Beta<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let syn::Expr::Call(c) = e else { return };
        let syn::Expr::Path(p) = &*c.func else { return };
        if !p.path.is_ident(&self.name) || c.args.len() != self.closure.inputs.len() {
            return;
        }
        let body = &self.closure.body;
        let pats: Vec<syn::Pat> = self.closure.inputs.iter().cloned().collect();
        let args: Vec<syn::Expr> = c.args.iter().cloned().collect();
        *e = syn::parse_quote!({ #(let #pats = #args;)* #body });
    }
}

struct Inl<'a> {
    ast: &'a syn::File,
    known: &'a [String],
    unit: &'a Unit,
    foreign: &'a std::collections::HashMap<String, FoundFn>,
    self_ty: Option<String>,
    me: String,
    depth: usize,
    counter: usize,
    inlined: &'a mut Vec<String>,
    problems: &'a mut Vec<String>,
}

impl<'a> Inl<'a> {
    fn lookup(&self, path: &str) -> Option<FoundFn> {
        let strip = |k: &str| -> String {
            match k.rsplit_once("::") {
                Some((t, n)) => format!("{}::{}", t.split('@').next().unwrap(), n),
                None => k.to_string(),
            }
        };
        if self.known.iter().any(|k| strip(k) == path) {
            return None;
        }
        if self.unit.noinline.iter().any(|k| k == path) {
            return None;
        }
        let mut f = crate::find_fn(self.ast, path);
        if f.len() != 1 {
            return None;
        }
        let f = f.remove(0);
        if f.in_trait.is_some() || f.sig.asyncness.is_some() {
            return None;
        }
        Some(f)
    }

    fn expand(&mut self, f: FoundFn, args: Vec<syn::Expr>, name: &str) -> Option<syn::Expr> {
        if self.depth > 4 || name == self.me {
            return None;
        }
        let mut h = HasEarlyExit(false);
        h.visit_block(&f.block);
        if h.0 {
            // only a trailing `return e;` could be handled; leave the call alone
            self.problems.push(format!("helper {name} has an early exit and is not under contract"));
            return None;
        }
        if f.sig.inputs.len() != args.len() {
            return None;
        }
        self.counter += 1;
        let n = self.counter;
        let mut stmts: Vec<syn::Stmt> = Vec::new();
        let mut block = f.block.clone();
        let mut lets: Vec<syn::Stmt> = Vec::new();
        let mut ai = 0usize;
        for (inp, a) in f.sig.inputs.iter().zip(args.into_iter()) {
            match inp {
                syn::FnArg::Receiver(r) => {
                    let nm = format!("__vx_self{n}");
                    let id = syn::Ident::new(&nm, proc_macro2::Span::call_site());
                    if matches!(&a, syn::Expr::Path(p) if p.path.is_ident("self")) {
                        // same receiver: keep `self`
                        continue;
                    }
                    if let (Some(v), true) = (crate::single_ident(&a), r.reference.is_some()) {
                        // a method on a variable, which the helper borrows
                        let mut b = Binds::default();
                        b.visit_block(&block);
                        if b.0.contains(&v) {
                            return None;
                        }
                        RenameSelf(&v).visit_block_mut(&mut block);
                        continue;
                    }
                    RenameSelf(&nm).visit_block_mut(&mut block);
                    if r.reference.is_some() && r.mutability.is_none() {
                        stmts.push(syn::parse_quote!(let #id = &#a;));
                    } else if r.reference.is_some() {
                        stmts.push(syn::parse_quote!(let #id = &mut #a;));
                    } else {
                        stmts.push(syn::parse_quote!(let #id = #a;));
                    }
                }
                syn::FnArg::Typed(t) => {
                    let pat = &t.pat;
                    let ty = &t.ty;
                    let tystr = quote::quote!(#ty).to_string();
                    if let (true, syn::Expr::Closure(c), Some(nm)) = (tystr.contains("impl Fn"), &a, crate::pat_ident(pat)) {
                        let mut h = HasEarlyExit(false);
                        h.visit_expr(&c.body);
                        let mut b = Binds::default();
                        b.visit_block(&block);
                        let mut m = Mentions(&b.0, false);
                        m.visit_expr(&c.body);
                        if h.0 || m.1 {
                            return None;
                        }
                        Beta { name: nm, closure: c }.visit_block_mut(&mut block);
                        continue;
                    }
                    ai += 1;
                    let tmp = quote::format_ident!("__vx_a{}_{}", n, ai);
                    stmts.push(syn::parse_quote!(let #tmp = #a;));
                    if tystr.contains("impl ") {
                        lets.push(syn::parse_quote!(let #pat = #tmp;));
                    } else {
                        lets.push(syn::parse_quote!(let #pat : #ty = #tmp;));
                    }
                }
            }
        }
        stmts.extend(lets);
        // recursively inline inside the helper
        self.depth += 1;
        let save = self.self_ty.clone();
        if f.self_ty.is_some() {
            self.self_ty = f.self_ty.clone();
        }
        self.visit_block_mut(&mut block);
        self.self_ty = save;
        self.depth -= 1;
        self.inlined.push(name.to_string());
        let b = &block.stmts;
        Some(syn::parse_quote!({ #(#stmts)* #(#b)* }))
    }
}

impl<'a> VisitMut for Inl<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let new = match e {
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = match segs.len() {
                        1 => Some(segs[0].clone()),
                        2 if segs[0] == "Self" => self.self_ty.as_ref().map(|t| format!("{t}::{}", segs[1])),
                        2 => Some(format!("{}::{}", segs[0], segs[1])),
                        _ => None,
                    };
                    let first_lower = segs.last().map(|s| s.chars().next().unwrap().is_lowercase()).unwrap_or(false);
                    match name {
                        Some(n) if first_lower => match self.lookup(&n) {
                            Some(f) => {
                                let args: Vec<syn::Expr> = c.args.iter().cloned().collect();
                                self.expand(f, args, &n)
                            }
                            None => None,
                        },
                        _ => None,
                    }
                } else {
                    None
                }
            }
            syn::Expr::MethodCall(m) => {
                // only methods on `self`
                let on_self = matches!(&*m.receiver, syn::Expr::Path(p) if p.path.is_ident("self"));
                if crate::single_ident(&m.receiver).is_some() && self.foreign.contains_key(&m.method.to_string()) {
                    let f = self.foreign[&m.method.to_string()].clone();
                    let mut args: Vec<syn::Expr> = vec![(*m.receiver).clone()];
                    args.extend(m.args.iter().cloned());
                    let n = m.method.to_string();
                    self.expand(f, args, &n)
                } else if on_self && self.self_ty.is_some() {
                    let n = format!("{}::{}", self.self_ty.as_ref().unwrap(), m.method);
                    match self.lookup(&n) {
                        Some(f) => {
                            let mut args: Vec<syn::Expr> = vec![(*m.receiver).clone()];
                            args.extend(m.args.iter().cloned());
                            self.expand(f, args, &n)
                        }
                        None => None,
                    }
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

pub fn inline_helpers(
    ff: &mut FoundFn,
    ast: &syn::File,
    known: &[String],
    unit: &Unit,
    foreign: &std::collections::HashMap<String, FoundFn>,
    inlined: &mut Vec<String>,
    problems: &mut Vec<String>,
) {
    let me = match &ff.self_ty {
        Some(t) => format!("{t}::{}", ff.sig.ident),
        None => ff.sig.ident.to_string(),
    };
    let mut block = ff.block.clone();
    let mut v = Inl {
        ast,
        known,
        unit,
        foreign,
        self_ty: ff.self_ty.clone(),
        me,
        depth: 0,
        counter: 0,
        inlined,
        problems,
    };
    v.visit_block_mut(&mut block);
    ff.block = block;
}
