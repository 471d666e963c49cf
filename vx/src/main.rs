//! vx: mechanical extractor. Reads a unit file (contracts + list of items), parses the named
//! source files of the tree under verification, extracts the listed types and functions, applies
//! the stated mechanical rewrites, injects the contracts and prints one Verus file + a JSON report.
mod desugar;
mod inline;
mod print;
mod unit;

use std::collections::HashMap;
use std::path::PathBuf;
use syn::visit_mut::VisitMut;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: vx REPO UNITFILE OUT.rs OUT.json");
        std::process::exit(3);
    }
    let repo = PathBuf::from(&args[1]);
    let text = match std::fs::read_to_string(&args[2]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {}: {e}", args[2]);
            std::process::exit(3);
        }
    };
    let unit = unit::parse(&text, std::path::Path::new(&args[2]).parent().unwrap());
    let mut report = Report::default();
    let out = run(&repo, &unit, &mut report);
    let j = serde_json::json!({
        "unit": unit.name,
        "functions": report.functions,
        "types": report.types,
        "problems": report.problems,
        "drops": report.drops,
    });
    std::fs::write(&args[4], serde_json::to_string_pretty(&j).unwrap()).unwrap();
    std::fs::write(&args[3], out).unwrap();
    if !report.problems.is_empty() {
        for p in &report.problems {
            eprintln!("vx: {p}");
        }
        std::process::exit(2);
    }
}

#[derive(Default)]
pub struct Report {
    functions: Vec<serde_json::Value>,
    types: Vec<String>,
    problems: Vec<String>,
    pub drops: Vec<String>,
}

struct SrcFile {
    path: String,
    ast: syn::File,
}

fn load(repo: &PathBuf, path: &str) -> Result<SrcFile, String> {
    let p = repo.join(path);
    let text = std::fs::read_to_string(&p).map_err(|e| format!("anchor lost: {path}: {e}"))?;
    let ast = syn::parse_file(&text).map_err(|e| format!("{path}: does not parse: {e}"))?;
    Ok(SrcFile { path: path.to_string(), ast })
}

fn all_items<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
    for i in items {
        out.push(i);
        if let syn::Item::Mod(m) = i {
            let is_test = m.attrs.iter().any(|a| quote::quote!(#a).to_string().contains("test"));
            if is_test {
                continue;
            }
            if let Some((_, its)) = &m.content {
                all_items(its, out);
            }
        }
    }
}

/// a variable
pub fn single_ident(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}
pub fn pat_ident(p: &syn::Pat) -> Option<String> {
    match p {
        syn::Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.to_string()),
        _ => None,
    }
}
#[derive(Clone)]
pub struct FoundFn {
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub self_ty: Option<String>,
    pub impl_generics: Option<syn::Generics>,
    pub self_ty_full: Option<syn::Type>,
    pub in_trait: Option<String>,
}

fn type_name(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => None,
    }
}

/// `Type::name`, `<Type as Trait>::name` (written `Type@Trait::name`) or `name`
pub fn find_fn(ast: &syn::File, path: &str) -> Vec<FoundFn> {
    // outer~inner: a function declared inside the body of another one
    if let Some((outer, inner)) = path.rsplit_once('~') {
        let mut res = Vec::new();
        for f in find_fn(ast, outer) {
            for s in &f.block.stmts {
                if let syn::Stmt::Item(syn::Item::Fn(g)) = s {
                    if g.sig.ident == inner {
                        res.push(FoundFn {
                            sig: g.sig.clone(),
                            block: (*g.block).clone(),
                            self_ty: None,
                            impl_generics: None,
                            self_ty_full: None,
                            in_trait: None,
                        });
                    }
                }
            }
        }
        return res;
    }
    let mut items = Vec::new();
    all_items(&ast.items, &mut items);
    let mut res = Vec::new();
    if let Some((ty, name)) = path.rsplit_once("::") {
        let (ty, tr) = match ty.split_once('@') {
            Some((a, b)) => (a, Some(b)),
            None => (ty, None),
        };
        for it in items {
            if let syn::Item::Trait(tri) = it {
                if tri.ident == ty {
                    for ii in &tri.items {
                        if let syn::TraitItem::Fn(f) = ii {
                            if f.sig.ident == name {
                                if let Some(b) = &f.default {
                                    res.push(FoundFn {
                                        sig: f.sig.clone(),
                                        block: b.clone(),
                                        self_ty: Some(ty.to_string()),
                                        impl_generics: None,
                                        self_ty_full: None,
                                        in_trait: Some(ty.to_string()),
                                    });
                                }
                            }
                        }
                    }
                }
            }
            if let syn::Item::Impl(im) = it {
                if type_name(&im.self_ty).as_deref() != Some(ty) {
                    continue;
                }
                let trait_name = im
                    .trait_
                    .as_ref()
                    .and_then(|(_, p, _)| p.segments.last().map(|s| s.ident.to_string()));
                if let Some(t) = tr {
                    // From<X> variants: Type@From<X>
                    let full = im.trait_.as_ref().map(|(_, p, _)| {
                        let s = p.segments.last().unwrap();
                        quote::quote!(#s).to_string().replace(' ', "")
                    });
                    if full.as_deref() != Some(t) && trait_name.as_deref() != Some(t) {
                        continue;
                    }
                }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if f.sig.ident == name {
                            res.push(FoundFn {
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                self_ty: Some(ty.to_string()),
                                impl_generics: Some(im.generics.clone()),
                                self_ty_full: Some((*im.self_ty).clone()),
                                in_trait: trait_name.clone(),
                            });
                        }
                    }
                }
            }
        }
    } else {
        for it in items {
            if let syn::Item::Fn(f) = it {
                if f.sig.ident == path {
                    res.push(FoundFn {
                        sig: f.sig.clone(),
                        block: (*f.block).clone(),
                        self_ty: None,
                        impl_generics: None,
                        self_ty_full: None,
                        in_trait: None,
                    });
                }
            }
        }
    }
    res
}

fn run(repo: &PathBuf, unit: &unit::Unit, report: &mut Report) -> String {
    let mut files: HashMap<String, SrcFile> = HashMap::new();
    for (alias, path) in &unit.files {
        match load(repo, path) {
            Ok(f) => {
                files.insert(alias.clone(), f);
            }
            Err(e) => report.problems.push(e),
        }
    }
    let mut out = String::new();
    out.push_str(&unit.header);
    out.push_str("\nverus! {\n");
    // one module-level `broadcast use` is allowed: merge those of all includes
    let mut groups: Vec<String> = vec![];
    let mut prelude = String::new();
    for l in unit.prelude.lines() {
        if let Some(r) = l.strip_prefix("broadcast use ") {
            groups.extend(r.trim_end_matches(';').trim_matches(|c| c == '{' || c == '}').split(',').map(|x| x.trim().to_string()));
        } else {
            prelude.push_str(l);
            prelude.push('\n');
        }
    }
    if !groups.is_empty() {
        out.push_str(&format!("broadcast use {{{}}};\n", groups.join(", ")));
    }
    out.push_str(&prelude);
    out.push('\n');
    // types
    for t in &unit.types {
        let Some(f) = files.get(&t.file) else { continue };
        let mut items = Vec::new();
        all_items(&f.ast.items, &mut items);
        let mut found = false;
        for it in items {
            let (name, txt) = match it {
                syn::Item::Struct(s) => (s.ident.to_string(), emit_struct(s, unit, t)),
                syn::Item::Enum(e) => (e.ident.to_string(), emit_enum(e, unit, t)),
                syn::Item::Type(a) => (a.ident.to_string(), emit_alias(a, unit)),
                syn::Item::Const(c) => (c.ident.to_string(), emit_const(c, unit)),
                _ => continue,
            };
            if name != t.name {
                continue;
            }
            found = true;
            report.types.push(format!("{}:{}", f.path, t.name));
            out.push_str(&txt);
            out.push('\n');
            out.push_str(&derive_assumptions(&t.name, &t.flags));
            break;
        }
        if !found {
            report.problems.push(format!("anchor lost: type {} in {}", t.name, f.path));
        }
    }
    let known: Vec<String> = unit.fns.iter().map(|f| f.path.clone()).collect();
    let mut foreign: std::collections::HashMap<String, FoundFn> = Default::default();
    for (alias, path) in &unit.inline {
        let Some(file) = files.get(alias) else { continue };
        let mut f = find_fn(&file.ast, path);
        if f.len() == 1 {
            foreign.insert(path.rsplit("::").next().unwrap().to_string(), f.remove(0));
        }
    }
    for fs in &unit.fns {
        let Some(file) = files.get(&fs.file) else { continue };
        let found = find_fn(&file.ast, &fs.path);
        if found.is_empty() {
            report.problems.push(format!("anchor lost: function {} in {}", fs.path, file.path));
            continue;
        }
        if found.len() > 1 {
            report.problems.push(format!("anchor ambiguous: function {} in {}", fs.path, file.path));
            continue;
        }
        let mut ff = found.into_iter().next().unwrap();
        let orig = {
            let b = &ff.block;
            let s = &ff.sig;
            print::plain(quote::quote!(#s #b))
        };
        let mut problems: Vec<String> = Vec::new();
        let mut inlined: Vec<String> = Vec::new();
        if !fs.trusted {
            inline::inline_helpers(&mut ff, &file.ast, &known, unit, &foreign, &mut inlined, &mut problems);
            pre_subst(&mut ff, fs, unit, &mut problems);
        } else {
            let mut ignored = Vec::new();
            pre_subst(&mut ff, fs, unit, &mut ignored);
        }
        let mut ds = desugar::Desugar::new(unit, fs);
        for a in ff.sig.inputs.iter() {
            if let syn::FnArg::Typed(t) = a {
                if let (syn::Pat::Ident(i), syn::Type::Reference(r)) = (&*t.pat, &*t.ty) {
                    if r.mutability.is_some() {
                        ds.mutrefs.push(i.ident.to_string());
                    }
                }
            }
        }
        if !fs.trusted {
            ds.run(&mut ff.block);
            problems.extend(ds.problems.drain(..));
            for d in ds.drops.drain(..) {
                if !report.drops.contains(&d) {
                    report.drops.push(d);
                }
            }
            ds.insert_hints(&mut ff.block);
            problems.extend(ds.problems.drain(..));
        }
        for (k, _) in fs.loops.iter().enumerate() {
            if fs.loops[k].is_some() && k >= ds.loop_count && !fs.trusted {
                problems.push(format!("loop {k} of {} no longer exists", fs.path));
            }
        }
        if let Some(n) = fs.loop_count {
            if ds.loop_count != n && !fs.trusted {
                problems.push(format!("{}: loop structure changed ({} loops, contract written for {})", fs.path, ds.loop_count, n));
            }
        }
        for p in &problems {
            report.problems.push(format!("{}: {}", fs.path, p));
        }
        PathFix { unit }.visit_signature_mut(&mut ff.sig);
        let start_line = out.lines().count() + 1;
        emit_fn(&mut out, &ff, fs, unit);
        let end_line = out.lines().count() + 1;
        report.functions.push(serde_json::json!({
            "path": fs.path,
            "file": file.path,
            "trusted": fs.trusted,
            "imported": fs.imported,
            "loops": ds.loop_count,
            "start": start_line,
            "end": end_line,
            "inlined": inlined,
            "problems": problems,
            "orig": orig,
        }));
    }
    out.push_str("\n} // verus!\nfn main() {}\n");
    out
}

/// textual token substitutions given by the unit file
fn pre_subst(ff: &mut FoundFn, fs: &unit::FnSpec, unit: &unit::Unit, problems: &mut Vec<String>) {
    let subs: Vec<&(String, String, bool)> = unit.substs.iter().chain(fs.substs.iter()).collect();
    if subs.is_empty() {
        return;
    }
    let b = &ff.block;
    let mut t = print::plain(quote::quote!(#b));
    let s = &ff.sig;
    let mut ts = print::plain(quote::quote!(#s));
    for (from, to, must) in subs {
        let fromn = print::plain(from.parse().expect("subst from"));
        let ton = print::plain(to.parse().expect("subst to"));
        if *must && !t.contains(&fromn) && !ts.contains(&fromn) {
            problems.push(format!("anchor lost: substitution `{from}`"));
        }
        t = t.replace(&fromn, &ton);
        ts = ts.replace(&fromn, &ton);
    }
    match syn::parse_str::<syn::Block>(&t) {
        Ok(nb) => ff.block = nb,
        Err(e) => problems.push(format!("substitution produced unparsable body: {e}")),
    }
    match syn::parse_str::<syn::Signature>(&ts) {
        Ok(nb) => ff.sig = nb,
        Err(e) => problems.push(format!("substitution produced unparsable signature: {e}")),
    }
}

pub struct PathFix<'a> {
    pub unit: &'a unit::Unit,
}
impl<'a> PathFix<'a> {
    fn fix(&self, p: &mut syn::Path) {
        // crate::a::b::T -> T ; module-lowercase prefixes dropped
        if p.segments.len() > 1 {
            let segs: Vec<syn::PathSegment> = p.segments.iter().cloned().collect();
            let first = segs[0].ident.to_string();
            if ["crate", "super", "edbm", "parse_edge", "parse_queries", "updater", "transition_system", "specifics", "query_failures", "local_consistency", "pruning", "refine", "reachability"].contains(&first.as_str()) {
                // drop leading segments that are modules: keep from first type-like segment that is known,
                // otherwise the last segment
                let mut keep = segs.len() - 1;
                for (i, s) in segs.iter().enumerate() {
                    let n = s.ident.to_string();
                    if i + 2 == segs.len() && self.unit.knows_type(&n) {
                        keep = i;
                    }
                }
                p.segments = segs[keep..].iter().cloned().collect();
                p.leading_colon = None;
            }
        }
        if p.segments.len() == 1 {
            if let Some(to) = self.unit.renames.get(&p.segments[0].ident.to_string()) {
                p.segments[0].ident = syn::Ident::new(to, p.segments[0].ident.span());
            }
        }
    }
}
impl<'a> VisitMut for PathFix<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        syn::visit_mut::visit_path_mut(self, p);
        self.fix(p);
    }
    // `dyn TransitionSystem` is the opaque type that stands for every transition system
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::TraitObject(o) = t {
            if let (1, Some(syn::TypeParamBound::Trait(b))) = (o.bounds.len(), o.bounds.first()) {
                if b.path.segments.last().map_or(false, |s| s.ident == "TransitionSystem") {
                    *t = syn::parse_quote!(TransitionSystemPtr);
                    return;
                }
            }
        }
        syn::visit_mut::visit_type_mut(self, t);
    }
}

fn emit_alias(a: &syn::ItemType, unit: &unit::Unit) -> String {
    let mut ty = (*a.ty).clone();
    PathFix { unit }.visit_type_mut(&mut ty);
    let id = &a.ident;
    print::plain(quote::quote!(pub type #id = #ty;))
}
fn emit_const(c: &syn::ItemConst, unit: &unit::Unit) -> String {
    let mut ty = (*c.ty).clone();
    PathFix { unit }.visit_type_mut(&mut ty);
    let id = &c.ident;
    let e = &c.expr;
    print::plain(quote::quote!(pub const #id : #ty = #e;))
}

fn fix_fields(fields: &mut syn::Fields, unit: &unit::Unit, is_enum: bool, t: &unit::TypeSpec) {
    let fix = |f: &mut syn::Field| {
        f.attrs.clear();
        if !is_enum {
            f.vis = syn::parse_quote!(pub);
        }
        PathFix { unit }.visit_type_mut(&mut f.ty);
        let s = {
            let ty = &f.ty;
            print::plain(quote::quote!(#ty))
        };
        for (from, to, _) in &unit.substs {
            let (Ok(f0), Ok(t0)) = (from.parse(), to.parse()) else { continue };
            let (fromn, ton) = (print::plain(f0), print::plain(t0));
            if s.contains(&fromn) {
                if let Ok(nt) = syn::parse_str::<syn::Type>(&s.replace(&fromn, &ton)) {
                    f.ty = nt;
                }
            }
        }
    };
    match fields {
        syn::Fields::Named(n) => {
            let mut keep = syn::punctuated::Punctuated::new();
            for mut f in n.named.iter().cloned() {
                let nm = f.ident.as_ref().unwrap().to_string();
                if t.drop_fields.contains(&nm) {
                    continue;
                }
                fix(&mut f);
                keep.push(f);
            }
            n.named = keep;
        }
        syn::Fields::Unnamed(u) => u.unnamed.iter_mut().for_each(fix),
        syn::Fields::Unit => {}
    }
}

fn emit_struct(s: &syn::ItemStruct, unit: &unit::Unit, t: &unit::TypeSpec) -> String {
    if s.ident != t.name.as_str() {
        return String::new();
    }
    let mut s = s.clone();
    s.attrs.clear();
    s.vis = syn::parse_quote!(pub);
    fix_fields(&mut s.fields, unit, false, t);
    format!("{}{}", t.attrs, print::plain(quote::quote!(#s)))
}
fn emit_enum(e: &syn::ItemEnum, unit: &unit::Unit, t: &unit::TypeSpec) -> String {
    if e.ident != t.name.as_str() {
        return String::new();
    }
    let mut e = e.clone();
    e.attrs.clear();
    e.vis = syn::parse_quote!(pub);
    for v in e.variants.iter_mut() {
        v.attrs.clear();
        fix_fields(&mut v.fields, unit, true, t);
    }
    format!("{}{}", t.attrs, print::plain(quote::quote!(#e)))
}

fn derive_assumptions(name: &str, flags: &[String]) -> String {
    let mut s = String::new();
    for f in flags {
        match f.as_str() {
            "clone" => s.push_str(&format!("impl Clone for {name} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n")),
            "copy" => s.push_str(&format!("impl Clone for {name} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\nimpl Copy for {name} {{}}\n")),
            "eq" => s.push_str(&format!("impl vstd::std_specs::cmp::PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &{name}) -> bool {{ *self == *o }} }}\nimpl PartialEq for {name} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}\nimpl Eq for {name} {{}}\n")),
            "hash" => s.push_str(&format!("#[verifier::external] impl core::hash::Hash for {name} {{ fn hash<H: core::hash::Hasher>(&self, _h: &mut H) {{ unimplemented!() }} }}\n")),
            _ => {}
        }
    }
    s
}

fn emit_fn(out: &mut String, ff: &FoundFn, fs: &unit::FnSpec, unit: &unit::Unit) {
    let mut sig = ff.sig.clone();
    for a in sig.inputs.iter_mut() {
        match a {
            syn::FnArg::Receiver(r) => r.attrs.clear(),
            syn::FnArg::Typed(t) => t.attrs.clear(),
        }
    }
    let name = fs.rename.clone().unwrap_or(sig.ident.to_string());
    let ident = syn::Ident::new(&name, proc_macro2::Span::call_site());
    let (gens, _, wh) = sig.generics.split_for_impl();
    let inputs = &sig.inputs;
    let mut text = String::new();
    text.push_str(&fs.attrs);
    let head = quote::quote!(pub fn #ident #gens (#inputs));
    text.push_str(&print::plain(head));
    if let syn::ReturnType::Type(_, t) = &sig.output {
        let t = print::plain(quote::quote!(#t));
        if let Some(r) = &fs.ret {
            text.push_str(&format!(" -> ({r}: {t})"));
        } else {
            text.push_str(&format!(" -> {t}"));
        }
    }
    if let Some(w) = wh {
        text.push_str(&print::plain(quote::quote!(#w)));
    }
    text.push('\n');
    text.push_str(&fs.contract);
    text.push('\n');
    if fs.trusted {
        text = format!("#[verifier::external_body]\n{text} {{ unimplemented!() }}\n");
    } else {
        let b = &ff.block;
        text.push_str(&print::body(quote::quote!(#b), fs));
        text.push('\n');
    }
    let _ = unit;
    match &ff.self_ty {
        Some(t) => {
            if let (Some(g), Some(full)) = (&ff.impl_generics, &ff.self_ty_full) {
                let full = print::plain(quote::quote!(#full));
                let full = full.rsplit("::").next().unwrap().to_string();
                let full = fs.self_as.clone().unwrap_or(full);
                let none = syn::Generics::default();
                let (ig, _, iw) = if fs.self_as.is_some() { none.split_for_impl() } else { g.split_for_impl() };
                out.push_str(&format!(
                    "impl {} {} {} {{\n{}}}\n",
                    print::plain(quote::quote!(#ig)),
                    full,
                    iw.map(|w| print::plain(quote::quote!(#w))).unwrap_or_default(),
                    text
                ));
            } else {
                let t = fs.self_as.clone().unwrap_or(t.clone());
                out.push_str(&format!("impl {t} {{\n{text}}}\n"));
            }
        }
        None => out.push_str(&text),
    }
}
