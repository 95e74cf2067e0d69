use replay::*;
use rust_cp::graph::max_flow::Dinic;
fn ek(n: usize, e: &Vec<(usize, usize, u64)>, s: usize, t: usize) -> u64 {
    let mut c = vec![vec![0u64; n]; n];
    for &(u, v, w) in e { c[u][v] += w; }
    let mut f = 0;
    loop {
        let mut p = vec![usize::MAX; n]; p[s] = s; let mut q = std::collections::VecDeque::from([s]);
        while let Some(u) = q.pop_front() { for v in 0..n { if c[u][v] > 0 && p[v] == usize::MAX { p[v] = u; q.push_back(v); } } }
        if p[t] == usize::MAX { return f; }
        let mut a = u64::MAX; let mut v = t;
        while v != s { a = a.min(c[p[v]][v]); v = p[v]; }
        v = t;
        while v != s { c[p[v]][v] -= a; c[v][p[v]] += a; v = p[v]; }
        f += a;
    }
}
fn case(c: &mut C) {
    if c.is_big() { return big(c); }
    let n = 2 + c.size(14);
    let kind = c.below(4);
    let wmax = c.pick(&[1u64, 2, 5, 100]);
    let m = match c.below(3) { 0 => c.below(2 * n + 1), 1 => c.below(4 * n + 1), _ => c.below(n * n / 2 + 1) };
    let (s, t) = (c.below(n), c.below(n));
    let t = if s == t { (t + 1) % n } else { t };
    let mut e = vec![];
    for _ in 0..m {
        let (u, v) = (c.below(n), c.below(n));
        let w = if c.one_in(8) { 0 } else { c.below(wmax as usize + 1) as u64 };
        match kind { 0 => e.push((u, v, w)), 1 => { let v = (u + 1 + c.below(2)) % n; e.push((u, v, w)) } , 2 => { e.push((u, v, w)); if c.coin() { e.push((v, u, w)); } } _ => e.push((u.min(v), u.max(v), w)) }
    }
    note!(c, "n={} s={} t={} edges={:?}", n, s, t, e);
    let x = ek(n, &e, s, t);
    macro_rules! go { ($t:ty) => { if e.iter().map(|k| k.2 as u128).sum::<u128>() <= <$t>::MAX as u128 {
        let mut d = Dinic::<$t>::new(n); for &(u, v, w) in &e { d.add_edge(u, v, w as $t); }
        assert_eq!(d.get_max_flow(s, t), x as $t, "max flow ({})", stringify!($t)); } } }
    match c.below(4) { 0 => go!(i32), 1 => go!(u64), 2 => { go!(i64); go!(u8) } _ => go!(usize) }
    if c.one_in(8) {
        // capacities as large as the type allows
        macro_rules! large { ($t:ty) => { {
            let k = (<$t>::MAX as u128) / (e.iter().map(|z| z.2).sum::<u64>().max(1) as u128);
            let mut d = Dinic::<$t>::new(n); for &(u, v, w) in &e { d.add_edge(u, v, (w as u128 * k) as $t); }
            assert_eq!(d.get_max_flow(s, t), (x as u128 * k) as $t, "max flow with capacities times {} ({})", k, stringify!($t));
        } } }
        match c.below(11) { 0 => large!(i8), 1 => large!(u8), 2 => large!(i16), 3 => large!(u16), 4 => large!(i32), 5 => large!(u32), 6 => large!(u64), 7 => large!(usize), 8 => large!(u128), 9 => large!(i128), _ => large!(i64) }
    }
}
fn big(c: &mut C) {
    // a long corridor with shortcuts: deep searches, flow bounded by a planted cut
    let n = 200 + c.below(600);
    let mut e = vec![];
    for i in 0..n - 1 { e.push((i, i + 1, 1 + c.below(9) as u64)); }
    if c.coin() { for _ in 0..2 * n { let u = c.below(n); e.push((u, c.below(u + 1), 1 + c.below(5) as u64)); } let i = c.below(e.len()); let j = e.len() - 1; e.swap(i, j); if c.coin() { c.shuffle(&mut e); } }
    let m = if c.coin() { n } else { 3 };
    for _ in 0..m { let u = c.below(n - 1); let v = u + 1 + c.below((n - 1 - u).min(5)); e.push((u, v, c.below(5) as u64)); if c.one_in(5) { e.push((v, u, c.below(5) as u64)); } }
    note!(c, "n={} edges={:?}", n, e);
    let x = ek(n, &e, 0, n - 1);
    let mut d = Dinic::<i64>::new(n);
    for &(u, v, w) in &e { d.add_edge(u, v, w as i64); }
    assert_eq!(d.get_max_flow(0, n - 1), x as i64, "max flow");
}
fn main() { replay::main(case) }
