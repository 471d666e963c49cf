//! token printing; markers become contract text
use crate::unit::FnSpec;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn plain(ts: TokenStream) -> String {
    let mut s = String::new();
    p(ts, &mut s, None);
    s.trim().to_string()
}
pub fn body(ts: TokenStream, fs: &FnSpec) -> String {
    let mut s = String::new();
    p(ts, &mut s, Some(fs));
    s
}

fn marker(toks: &[TokenTree], i: usize, name: &str) -> Option<TokenStream> {
    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(pu)), Some(TokenTree::Group(g))) =
        (toks.get(i), toks.get(i + 1), toks.get(i + 2))
    {
        if id == name && pu.as_char() == '!' {
            return Some(g.stream());
        }
    }
    None
}
fn num(ts: TokenStream) -> usize {
    ts.to_string().trim().parse().unwrap()
}

fn p(ts: TokenStream, s: &mut String, fs: Option<&FnSpec>) {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < toks.len() {
        if let Some(fs) = fs {
            if let Some(g) = marker(&toks, i, "__vx_it") {
                let inner: Vec<TokenTree> = g.into_iter().collect();
                let k = inner[0].to_string();
                s.push_str(&format!("it{k}: "));
                p(inner[2..].iter().cloned().collect(), s, Some(fs));
                i += 3;
                continue;
            }
            if let Some(g) = marker(&toks, i, "__vx_hint") {
                s.push('\n');
                s.push_str(&fs.hints[num(g)].text);
                s.push('\n');
                i += 3;
                if let Some(TokenTree::Punct(pu)) = toks.get(i) {
                    if pu.as_char() == ';' {
                        i += 1;
                    }
                }
                continue;
            }
        }
        match &toks[i] {
            TokenTree::Ident(id) => {
                s.push_str(&id.to_string());
                s.push(' ');
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
            }
            TokenTree::Punct(pu) => {
                s.push(pu.as_char());
                match pu.spacing() {
                    Spacing::Joint => {}
                    Spacing::Alone => {
                        if pu.as_char() == ';' {
                            s.push('\n')
                        } else {
                            s.push(' ')
                        }
                    }
                }
            }
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut start = 0;
                    if let Some(fs) = fs {
                        if let Some(m) = marker(&inner, 0, "__vx_inv") {
                            let k = num(m);
                            if let Some(Some(t)) = fs.loops.get(k) {
                                s.push('\n');
                                s.push_str(t);
                            }
                            start = 4;
                        }
                    }
                    s.push_str("{\n");
                    p(inner[start..].iter().cloned().collect(), s, fs);
                    s.push_str("}\n");
                }
                Delimiter::Parenthesis => {
                    s.push('(');
                    p(g.stream(), s, fs);
                    s.push_str(") ");
                }
                Delimiter::Bracket => {
                    s.push('[');
                    p(g.stream(), s, fs);
                    s.push_str("] ");
                }
                Delimiter::None => p(g.stream(), s, fs),
            },
        }
        i += 1;
    }
}
