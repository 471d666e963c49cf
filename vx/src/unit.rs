use std::collections::HashMap;

#[derive(Default)]
pub struct Unit {
    pub name: String,
    pub header: String,
    pub prelude: String,
    pub files: Vec<(String, String)>,
    pub types: Vec<TypeSpec>,
    pub fns: Vec<FnSpec>,
    pub substs: Vec<(String, String, bool)>,
    pub renames: HashMap<String, String>,
    /// methods of other files that are inlined wherever they are called on a variable: (file alias, path)
    pub inline: Vec<(String, String)>,
    pub known_types: Vec<String>,
    pub noinline: Vec<String>,
    pub boolops: bool,
    pub getmut: bool,
    pub optthen: bool,
    pub addassign: bool,
    pub set_fns: Vec<String>,
    pub map_fields: Vec<String>,
    /// method names of iterables treated as plain iteration sources
    pub iter_specs: Vec<String>,
}
impl Unit {
    pub fn knows_type(&self, n: &str) -> bool {
        self.types.iter().any(|t| t.name == n) || self.known_types.iter().any(|t| t == n)
    }
}
#[derive(Default)]
pub struct TypeSpec {
    pub file: String,
    pub name: String,
    pub flags: Vec<String>,
    pub drop_fields: Vec<String>,
    pub attrs: String,
}
#[derive(Default, Clone)]
pub struct Hint {
    pub place: String, // start | end | loop K start | loop K end | loop K before | loop K after | before "x" | after "x"
    pub text: String,
}
#[derive(Default, Clone)]
pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub ret: Option<String>,
    pub contract: String,
    pub loops: Vec<Option<String>>,
    pub loop_count: Option<usize>,
    pub hints: Vec<Hint>,
    pub trusted: bool,
    /// contract copied from (and proved in) this other unit
    pub imported: Option<String>,
    pub attrs: String,
    pub substs: Vec<(String, String, bool)>,
    pub rename: Option<String>,
    pub self_as: Option<String>,
    pub keep_closures: bool,
    pub splitor: bool,
    /// `vec![x]` of a `&Box<T>` where `Vec<&T>` is wanted: the coercion is written out
    pub vecderef: bool,
    pub collect_into: HashMap<usize, String>,
}

pub fn parse(text: &str, dir: &std::path::Path) -> Unit {
    let mut u = Unit {
        header: "#![feature(allocator_api)]\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_braces, unreachable_code, unused_assignments, non_camel_case_types)]\nuse vstd::prelude::*;\n".to_string(),
        ..Default::default()
    };
    let mut cur: Option<FnSpec> = None;
    // where raw lines go
    enum Sink {
        None,
        Prelude,
        Header,
        Contract,
        Loop(usize),
        Hint,
    }
    let mut sink = Sink::None;
    for line in text.lines() {
        let tl = line.trim_start();
        if tl.starts_with('@') {
            let (cmd, rest) = match tl.split_once(char::is_whitespace) {
                Some((a, b)) => (a, b.trim()),
                None => (tl.trim(), ""),
            };
            match cmd {
                "@include" => {
                    let p = dir.join(rest);
                    u.prelude.push_str(&std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{}: {e}", p.display())));
                }
                "@mapfield" => u.map_fields.extend(rest.split_whitespace().map(|s| s.to_string())),
                "@setfn" => u.set_fns.extend(rest.split_whitespace().map(|s| s.to_string())),
                "@boolops" => u.boolops = true,
                "@getmut" => u.getmut = true,
                "@optthen" => u.optthen = true,
                "@addassign" => u.addassign = true,
                "@unit" => u.name = rest.to_string(),
                "@file" => {
                    let (a, b) = rest.split_once(char::is_whitespace).expect("@file ALIAS PATH");
                    u.files.push((a.to_string(), b.trim().to_string()));
                }
                "@type" => {
                    let mut it = rest.split_whitespace();
                    let mut t = TypeSpec {
                        file: it.next().expect("file").to_string(),
                        name: it.next().expect("type").to_string(),
                        ..Default::default()
                    };
                    for w in it {
                        if let Some(f) = w.strip_prefix("drop:") {
                            t.drop_fields.push(f.to_string());
                        } else if let Some(f) = w.strip_prefix("attr:") {
                            t.attrs.push_str(&format!("#[{f}]\n"));
                        } else {
                            t.flags.push(w.to_string());
                        }
                    }
                    u.types.push(t);
                }
                "@known_type" => u.known_types.extend(rest.split_whitespace().map(|s| s.to_string())),
                "@noinline" => u.noinline.extend(rest.split_whitespace().map(|s| s.to_string())),
                "@inline" => {
                    let (a, b) = rest.split_once(char::is_whitespace).expect("@inline FILE PATH");
                    u.inline.push((a.to_string(), b.trim().to_string()));
                }
                "@rename" => {
                    let (a, b) = rest.split_once(char::is_whitespace).expect("@rename A B");
                    u.renames.insert(a.to_string(), b.trim().to_string());
                }
                "@prelude" => sink = Sink::Prelude,
                "@header" => sink = Sink::Header,
                "@endprelude" => sink = Sink::None,
                "@fn" | "@trusted" => {
                    if let Some(c) = cur.take() {
                        u.fns.push(c);
                    }
                    let (lhs, ret) = match rest.split_once("->") {
                        Some((a, b)) => (a.trim(), Some(b.trim().to_string())),
                        None => (rest, None),
                    };
                    let (a, b) = lhs.split_once(char::is_whitespace).expect("@fn FILE PATH");
                    cur = Some(FnSpec {
                        file: a.to_string(),
                        path: b.trim().to_string(),
                        ret,
                        trusted: cmd == "@trusted",
                        ..Default::default()
                    });
                    sink = Sink::Contract;
                }
                "@import" => {
                    if let Some(c) = cur.take() {
                        u.fns.push(c);
                    }
                    let w: Vec<&str> = rest.split_whitespace().collect();
                    let p = dir.join(format!("{}.vx", w[0]));
                    let other = parse(&std::fs::read_to_string(&p).unwrap_or_else(|e| panic!("{}: {e}", p.display())), dir);
                    let mut f = other.fns.into_iter().find(|f| f.path == w[2] && !f.trusted).unwrap_or_else(|| panic!("@import: {} not proved in {}", w[2], w[0]));
                    f.file = w[1].to_string();
                    f.trusted = true;
                    f.imported = Some(w[0].to_string());
                    f.attrs.clear();
                    u.fns.push(f);
                    sink = Sink::None;
                }
                "@loops" => cur.as_mut().unwrap().loop_count = Some(rest.parse().unwrap()),
                "@loop" => {
                    let k: usize = rest.parse().expect("loop index");
                    let c = cur.as_mut().expect("@loop outside @fn");
                    while c.loops.len() <= k {
                        c.loops.push(None);
                    }
                    c.loops[k] = Some(String::new());
                    sink = Sink::Loop(k);
                }
                "@hint" => {
                    cur.as_mut().unwrap().hints.push(Hint { place: rest.to_string(), text: String::new() });
                    sink = Sink::Hint;
                }
                "@attr" => cur.as_mut().unwrap().attrs.push_str(&format!("#[{rest}]\n")),
                "@name" => cur.as_mut().unwrap().rename = Some(rest.to_string()),
                "@selfas" => cur.as_mut().unwrap().self_as = Some(rest.to_string()),
                "@vecderef" => cur.as_mut().unwrap().vecderef = true,
                "@splitor" => cur.as_mut().unwrap().splitor = true,
                "@keepclosures" => cur.as_mut().unwrap().keep_closures = true,
                "@collect" => {
                    let (a, b) = rest.split_once(char::is_whitespace).unwrap();
                    cur.as_mut().unwrap().collect_into.insert(a.parse().unwrap(), b.trim().to_string());
                }
                "@subst" | "@mustsubst" => {
                    let (a, b) = rest.split_once("=>>").expect("@subst A =>> B");
                    let s = (a.trim().to_string(), b.trim().to_string(), cmd == "@mustsubst");
                    match cur.as_mut() {
                        Some(c) => c.substs.push(s),
                        None => u.substs.push(s),
                    }
                }
                "@end" => {
                    if let Some(c) = cur.take() {
                        u.fns.push(c);
                    }
                    sink = Sink::None;
                }
                _ => panic!("unknown directive {cmd}"),
            }
            continue;
        }
        match sink {
            Sink::None => {}
            Sink::Prelude => {
                u.prelude.push_str(line);
                u.prelude.push('\n');
            }
            Sink::Header => {
                u.header.push_str(line);
                u.header.push('\n');
            }
            Sink::Contract => {
                let c = cur.as_mut().unwrap();
                c.contract.push_str(line);
                c.contract.push('\n');
            }
            Sink::Loop(k) => {
                let c = cur.as_mut().unwrap();
                let s = c.loops[k].as_mut().unwrap();
                s.push_str(line);
                s.push('\n');
            }
            Sink::Hint => {
                let c = cur.as_mut().unwrap();
                let h = c.hints.last_mut().unwrap();
                h.text.push_str(line);
                h.text.push('\n');
            }
        }
    }
    if let Some(c) = cur.take() {
        u.fns.push(c);
    }
    u
}
