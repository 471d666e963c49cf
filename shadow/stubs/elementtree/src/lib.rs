//! stand-in: minimal XML tree
use std::io::Read;
#[derive(Debug)] pub struct Error(pub String);
#[derive(Debug, Default, Clone)]
pub struct Element { tag: String, attrs: Vec<(String, String)>, text: String, children: Vec<Element> }
pub struct FindChildren<'a> { tag: String, it: std::slice::Iter<'a, Element> }
impl<'a> Iterator for FindChildren<'a> { type Item = &'a Element;
    fn next(&mut self) -> Option<&'a Element> { loop { let e = self.it.next()?; if e.tag == self.tag { return Some(e); } } } }
fn unesc(s: &str) -> String { s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&apos;", "'").replace("&amp;", "&") }
impl Element {
    pub fn from_reader<R: Read>(mut r: R) -> Result<Element, Error> {
        let mut s = String::new(); r.read_to_string(&mut s).map_err(|e| Error(e.to_string()))?;
        let mut stack: Vec<Element> = vec![Element::default()];
        let mut rest = &s[..];
        while let Some(p) = rest.find('<') {
            let top = stack.last_mut().unwrap();
            if top.children.is_empty() { top.text.push_str(&unesc(&rest[..p])); }
            rest = &rest[p..];
            if rest.starts_with("<!--") { let e = rest.find("-->").ok_or(Error("comment".into()))?; rest = &rest[e + 3..]; continue; }
            let e = rest.find('>').ok_or(Error("tag".into()))?;
            let inner = &rest[1..e]; rest = &rest[e + 1..];
            if inner.starts_with('?') || inner.starts_with('!') { continue; }
            if inner.starts_with('/') { let el = stack.pop().ok_or(Error("close".into()))?; stack.last_mut().ok_or(Error("close".into()))?.children.push(el); continue; }
            let selfclose = inner.ends_with('/'); let inner = inner.trim_end_matches('/');
            let mut el = Element::default();
            let n = inner.find(char::is_whitespace).unwrap_or(inner.len());
            el.tag = inner[..n].to_string();
            let mut a = inner[n..].trim();
            while let Some(eq) = a.find('=') {
                let k = a[..eq].trim().to_string(); let v = a[eq + 1..].trim_start();
                let q = v.chars().next().ok_or(Error("attr".into()))?; let end = v[1..].find(q).ok_or(Error("attr".into()))?;
                el.attrs.push((k, unesc(&v[1..1 + end]))); a = v[end + 2..].trim();
            }
            if selfclose { stack.last_mut().unwrap().children.push(el); } else { stack.push(el); }
        }
        stack.pop().and_then(|mut r| r.children.pop()).ok_or(Error("empty".into()))
    }
    pub fn find(&self, t: &str) -> Option<&Element> { self.children.iter().find(|c| c.tag == t) }
    pub fn find_all(&self, t: &str) -> FindChildren<'_> { FindChildren { tag: t.to_string(), it: self.children.iter() } }
    pub fn get_attr(&self, k: &str) -> Option<&str> { self.attrs.iter().find(|a| a.0 == k).map(|a| &a.1[..]) }
    pub fn text(&self) -> &str { &self.text }
    pub fn tag(&self) -> &str { &self.tag }
}
