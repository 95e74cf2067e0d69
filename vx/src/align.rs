//! Alignment of the numbered anchors (if2, loop1, let:x#0, ...) of a changed function with those of the pinned text,
//! so that an inserted or removed statement does not shift the meaning of the others.
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::*;

/// kind -> signatures in order of their number
pub type Sigs = BTreeMap<String, Vec<String>>;
/// kind -> current number -> number used for anchors
pub type Map = BTreeMap<String, Vec<usize>>;

fn toks(s: &str) -> Vec<&str> {
    s.split_whitespace().take(80).collect()
}
fn lcs(a: &[&str], b: &[&str]) -> usize {
    let mut p = vec![0; b.len() + 1];
    for x in a {
        let mut q = p.clone();
        for (j, y) in b.iter().enumerate() {
            q[j + 1] = if x == y { p[j] + 1 } else { p[j + 1].max(q[j]) };
        }
        p = q;
    }
    p[b.len()]
}
fn score(a: &str, b: &str) -> f64 {
    if a == b {
        return 1.0;
    }
    let (x, y) = (toks(a), toks(b));
    if x.is_empty() && y.is_empty() {
        return 1.0;
    }
    0.05 + 0.85 * 2.0 * lcs(&x, &y) as f64 / (x.len() + y.len()) as f64
}
fn align1(pin: &[String], cur: &[String]) -> Vec<usize> {
    let (n, m) = (pin.len(), cur.len());
    let mut d = vec![vec![0.0f64; m + 1]; n + 1];
    let mut sc = vec![vec![0.0f64; m]; n];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            sc[i][j] = score(&pin[i], &cur[j]);
            d[i][j] = (d[i + 1][j + 1] + sc[i][j]).max(d[i + 1][j]).max(d[i][j + 1]);
        }
    }
    let mut r: Vec<usize> = (0..m).map(|j| 1_000_000 + j).collect();
    let (mut i, mut j) = (0, 0);
    while i < n && j < m {
        if d[i][j] == d[i + 1][j + 1] + sc[i][j] {
            r[j] = i;
            i += 1;
            j += 1;
        } else if d[i][j] == d[i][j + 1] {
            j += 1;
        } else {
            i += 1;
        }
    }
    r
}
pub fn align(pin: &Sigs, cur: &Sigs) -> Map {
    let mut r = Map::new();
    for (k, c) in cur {
        let p = pin.get(k).cloned().unwrap_or_default();
        r.insert(k.clone(), if p == *c { (0..c.len()).collect() } else { align1(&p, c) });
    }
    r
}
pub fn identity(m: &Map) -> bool {
    m.values().all(|v| v.iter().enumerate().all(|(i, x)| i == *x))
}
/// vx_k3 -> vx_k: generated counters carry numbers of their own
pub fn neutral(s: &str) -> String {
    s.split_whitespace()
        .map(|t| {
            for p in ["vx_k", "vx_e", "vx_s", "vx_it"] {
                if t.len() > p.len() && t.starts_with(p) && t[p.len()..].chars().all(|c| c.is_ascii_digit()) {
                    return p.to_string();
                }
            }
            t.to_string()
        })
        .take(120)
        .collect::<Vec<_>>()
        .join(" ")
}
struct Ren<'a>(&'a [usize]);
impl<'a> VisitMut for Ren<'a> {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        let s = i.to_string();
        for p in ["vx_k", "vx_e", "vx_s", "vx_it"] {
            if s.starts_with(p) {
                if let Ok(n) = s[p.len()..].parse::<usize>() {
                    if let Some(m) = self.0.get(n) {
                        *i = Ident::new(&format!("{}{}", p, m), i.span());
                    }
                    return;
                }
            }
        }
    }
}
pub fn rename_counters(b: &mut Block, m: &[usize]) {
    if m.iter().enumerate().any(|(i, x)| i != *x) {
        Ren(m).visit_block_mut(b);
    }
}
const A: char = '\u{241e}';
const B: char = '\u{241f}';
pub fn save(s: &Sigs) -> String {
    s.iter().map(|(k, v)| format!("{}{}{}", k, B, v.join(&B.to_string()))).collect::<Vec<_>>().join(&A.to_string())
}
pub fn load(s: &str) -> Sigs {
    let mut r = Sigs::new();
    for x in s.split(A).filter(|x| !x.is_empty()) {
        let mut it = x.split(B).map(String::from);
        let k = it.next().unwrap();
        r.insert(k, it.collect());
    }
    r
}
pub fn keys(s: &Sigs) -> BTreeSet<String> {
    s.keys().cloned().collect()
}
/// of a `for` signature over a range: where it starts, and whether it runs backwards
fn range_start(sig: &str) -> Option<(String, bool)> {
    let (_, r) = sig.split_once(" in ")?;
    let head = r.split_once(" {").map_or(r, |x| x.0);
    let k = head.find(" ..").or_else(|| head.find(".."))?;
    Some((head[..k].trim_start_matches(|c| c == '(' || c == ' ').trim().to_string(), head.contains(". rev (")))
}
/// both are ranges, but they do not count from the same place in the same direction
pub fn recounted(pin: &str, cur: &str) -> bool {
    matches!((range_start(pin), range_start(cur)), (Some(a), Some(b)) if a != b)
}
