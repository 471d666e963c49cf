// Replay / bounded search for src/TransitionSystems/transition_id.rs (compiled unmodified by #[path]).
#![allow(non_snake_case, dead_code)]
#[path = "@REPO@/src/TransitionSystems/transition_id.rs"]
mod transition_id;
use transition_id::TransitionID::{self, *};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

// ---- oracle: one slot per component, in order; an empty quotient side is one empty slot
fn slots(t: &TransitionID) -> Option<Vec<Vec<TransitionID>>> {
    Some(match t {
        Simple(_) | None => vec![vec![t.clone()]],
        Conjunction(l, r) | Composition(l, r) => {
            let mut a = slots(l)?;
            a.extend(slots(r)?);
            a
        }
        Quotient(l, r) => {
            let mut a = side(l)?;
            a.extend(side(r)?);
            a
        }
    })
}
fn side(ts: &[TransitionID]) -> Option<Vec<Vec<TransitionID>>> {
    let mut it = ts.iter();
    let mut acc = match it.next() {
        Option::None => return Some(vec![vec![]]),
        Some(t) => slots(t)?,
    };
    for t in it {
        let s = slots(t)?;
        if s.len() != acc.len() {
            return Option::None; // ill-formed: alternatives of one system must agree
        }
        for (a, b) in acc.iter_mut().zip(s) {
            a.extend(b);
        }
    }
    Some(acc)
}
fn split(path: &[TransitionID]) -> Option<Result<Vec<Vec<Vec<TransitionID>>>, ()>> {
    let mut all = vec![];
    for t in path {
        all.push(slots(t)?);
    }
    if all.is_empty() {
        return Some(Ok(vec![]));
    }
    let w = all[0].len();
    if all.iter().any(|s| s.len() != w) {
        return Some(Err(()));
    }
    Some(Ok((0..w)
        .map(|c| {
            all.iter()
                .map(|s| s[c].iter().filter(|x| **x != None).cloned().collect())
                .collect()
        })
        .collect()))
}

fn gen(r: &mut Rng, depth: usize, width: usize, c: &mut usize) -> TransitionID {
    if width == 1 && (depth == 0 || r.below(3) > 0) || depth == 0 {
        if width > 1 {
            // build a spine of the required width
            let k = 1 + r.below(width - 1);
            let (a, b) = (gen(r, 0, k, c), gen(r, 0, width - k, c));
            return if r.below(2) == 0 { Conjunction(Box::new(a), Box::new(b)) } else { Composition(Box::new(a), Box::new(b)) };
        }
        if r.below(5) == 0 {
            return None;
        }
        *c += 1;
        return Simple(format!("e{}", if r.below(6) == 0 { 0 } else { *c }));
    }
    if width == 1 {
        return gen(r, 0, 1, c);
    }
    let k = 1 + r.below(width - 1);
    match r.below(3) {
        0 => Conjunction(Box::new(gen(r, depth - 1, k, c)), Box::new(gen(r, depth - 1, width - k, c))),
        1 => Composition(Box::new(gen(r, depth - 1, k, c)), Box::new(gen(r, depth - 1, width - k, c))),
        _ => {
            let mk = |r: &mut Rng, w: usize, c: &mut usize| {
                let n = if w == 1 { r.below(4) } else { 1 + r.below(3) };
                (0..n).map(|_| gen(r, depth - 1, w, c)).collect::<Vec<_>>()
            };
            let l = mk(r, k, c);
            let rr = mk(r, width - k, c);
            Quotient(l, rr)
        }
    }
}

fn small(depth: usize) -> Vec<TransitionID> {
    let mut v = vec![Simple("a".into()), Simple("b".into()), None];
    if depth == 0 {
        return v;
    }
    let s = small(depth - 1);
    let s: Vec<_> = if depth > 1 { s.into_iter().step_by(7).collect() } else { s };
    for a in &s {
        for b in &s {
            v.push(Conjunction(Box::new(a.clone()), Box::new(b.clone())));
            v.push(Composition(Box::new(a.clone()), Box::new(b.clone())));
            v.push(Quotient(vec![a.clone()], vec![b.clone()]));
            v.push(Quotient(vec![a.clone(), b.clone()], vec![]));
            v.push(Quotient(vec![], vec![a.clone(), b.clone()]));
            for c in s.iter().step_by(3) {
                v.push(Quotient(vec![a.clone(), b.clone()], vec![c.clone()]));
                v.push(Quotient(vec![c.clone()], vec![a.clone(), b.clone(), a.clone()]));
            }
        }
        v.push(Quotient(vec![], vec![a.clone()]));
        v.push(Quotient(vec![a.clone()], vec![]));
    }
    v.push(Quotient(vec![], vec![]));
    v
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mode = std::env::args().nth(1).unwrap();
    let n: u64 = std::env::args().nth(2).unwrap().parse().unwrap();
    let seed: u64 = std::env::args().nth(3).unwrap().parse().unwrap();
    let mut r = Rng(0x9E3779B97F4A7C15 ^ (seed.wrapping_mul(0xD1342543DE82EF95) | 1));
    let mut tried = 0u64;
    let mut nontrivial = std::collections::HashSet::new();
    let pool = small(2);
    let fail = |what: &str, input: String, want: String, got: String| -> ! {
        println!("FAIL {what}\ninput    {input}\nexpected {want}\ngot      {got}");
        std::process::exit(1)
    };
    let leaves = |t: &TransitionID, tried: &mut u64| {
        if let Some(w) = slots(t) {
            *tried += 1;
            let got = std::panic::catch_unwind(|| t.get_leaves());
            match got {
                Ok(g) if g == w => {}
                Ok(g) => fail("get_leaves", format!("{t:?}"), format!("{w:?}"), format!("{g:?}")),
                Err(_) => fail("get_leaves", format!("{t:?}"), format!("{w:?}"), "panic".into()),
            }
        }
    };
    let splitc = |p: &Vec<TransitionID>, tried: &mut u64| {
        if let Some(w) = split(p) {
            *tried += 1;
            let got = std::panic::catch_unwind(|| TransitionID::split_into_component_lists(p));
            match got {
                Ok(g) => {
                    let g2 = g.clone().map_err(|_| ());
                    if g2 != w {
                        fail("split_into_component_lists", format!("{p:?}"), format!("{w:?}"), format!("{g:?}"))
                    }
                }
                Err(_) => fail("split_into_component_lists", format!("{p:?}"), format!("{w:?}"), "panic".into()),
            }
        }
    };
    if mode == "leaves" {
        for t in &pool {
            leaves(t, &mut tried);
        }
        for i in 0..n {
            let mut c = 0;
            let (d, w) = (r.below(5), 1 + r.below(7));
            let t = gen(&mut r, d, w, &mut c);
            if w > 1 && i < 200000 {
                nontrivial.insert(format!("{t:?}"));
            }
            leaves(&t, &mut tried);
        }
    } else {
        splitc(&vec![], &mut tried);
        let s1 = small(1);
        for a in &s1 {
            splitc(&vec![a.clone()], &mut tried);
            for b in &s1 {
                splitc(&vec![a.clone(), b.clone()], &mut tried);
            }
        }
        for i in 0..n {
            let mut c = 0;
            let w = 1 + r.below(5);
            let len = 1 + r.below(6);
            let odd = r.below(4);
            let mut p: Vec<TransitionID> = vec![];
            for k in 0..len {
                let wk = if odd == 0 && k > 0 && r.below(3) == 0 { 1 + r.below(5) } else { w };
                let d = r.below(4);
                p.push(gen(&mut r, d, wk, &mut c));
            }
            if w > 1 && len > 1 && i < 200000 {
                nontrivial.insert(format!("{p:?}"));
            }
            splitc(&p, &mut tried);
        }
    }
    println!("tried={tried} distinct_nontrivial={}", nontrivial.len());
}
