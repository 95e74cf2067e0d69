use replay::*;
use rust_cp::data_structure::union_find::UnionFind;
fn case(c: &mut C) {
    if c.is_big() { return big(c); }
    let n = c.size(300);
    let mut uf = UnionFind::new(n);
    let mut col: Vec<usize> = (0..n).collect();
    note!(c, "n={}", n);
    let ops = if n == 0 { 0 } else { c.below(3 * n + 6) };
    let hub = c.below(n);
    let style = c.below(3);
    for _ in 0..ops {
        let mut x = c.below(n);
        let y = c.below(n);
        if style == 1 { x = hub; }
        match c.below(8) {
            0..=3 => {
                note!(c, "join({}, {})", x, y);
                let e = col[x] != col[y];
                assert_eq!(uf.join(x, y), e, "join return value");
                let (a, b) = (col[x], col[y]);
                if e { for z in col.iter_mut() { if *z == a { *z = b; } } }
            }
            4 => { note!(c, "is_same({}, {})", x, y); assert_eq!(uf.is_same(x, y), col[x] == col[y], "is_same"); }
            5 => { note!(c, "size({})", x); assert_eq!(uf.size(x), col.iter().filter(|&&z| z == col[x]).count(), "size"); }
            6 => { note!(c, "find({})", x); let r = uf.find(x); assert!(r < n && col[r] == col[x], "find returns an element of the set"); assert_eq!(uf.find(y) == r, col[y] == col[x], "find"); }
            _ => { if c.one_in(8) { groups(c, &mut uf, &col); } }
        }
    }
    groups(c, &mut uf, &col);
    for x in 0..n { assert_eq!(uf.size(x), col.iter().filter(|&&z| z == col[x]).count(), "size({})", x); }
    for _ in 0..n { let (x, y) = (c.below(n), c.below(n)); assert_eq!(uf.is_same(x, y), col[x] == col[y], "is_same({}, {})", x, y); }
}
fn groups(c: &mut C, uf: &mut UnionFind, col: &Vec<usize>) {
    note!(c, "groups()");
    let n = col.len();
    let gs = uf.groups();
    let mut seen = vec![false; n];
    let mut cols = vec![false; n];
    for g in &gs {
        assert!(!g.is_empty(), "empty group");
        assert!(!cols[col[g[0]]], "set listed twice");
        cols[col[g[0]]] = true;
        for &x in g { assert!(!seen[x], "element listed twice"); seen[x] = true; assert_eq!(col[x], col[g[0]], "group mixes sets"); }
    }
    assert!(seen.iter().all(|&b| b), "element missing from groups");
}
fn big(c: &mut C) {
    let n = c.big_size();
    note!(c, "n={}", n);
    let mut uf = UnionFind::new(n);
    // weighted labels, smaller relabelled into larger
    let mut col: Vec<usize> = (0..n).collect();
    let mut mem: Vec<Vec<usize>> = (0..n).map(|x| vec![x]).collect();
    let style = c.below(4);
    let m = if c.coin() { n } else { n / 2 };
    for i in 0..m {
        let (x, y) = match style { 0 => (i, (i + 1) % n), 1 => ((i + 1) % n, i), 2 => (0, i), _ => (c.below(n), c.below(n)) };
        let (a, b) = (col[x], col[y]);
        assert_eq!(uf.join(x, y), a != b, "join({}, {})", x, y);
        if a != b {
            let (a, b) = if mem[a].len() < mem[b].len() { (a, b) } else { (b, a) };
            let v = std::mem::take(&mut mem[a]);
            for &z in &v { col[z] = b; }
            mem[b].extend(v);
        }
        if i % 97 == 0 { let z = c.below(n); assert_eq!(uf.size(z), mem[col[z]].len(), "size({})", z); }
    }
    for _ in 0..2000 { let (x, y) = (c.below(n), c.below(n)); assert_eq!(uf.is_same(x, y), col[x] == col[y], "is_same({}, {})", x, y); assert_eq!(uf.size(x), mem[col[x]].len(), "size({})", x); }
    groups(c, &mut uf, &col);
}
fn main() { replay::main(case) }
