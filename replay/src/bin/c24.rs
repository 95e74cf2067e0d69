use replay::*; use rust_cp::string::aho_corasick::AhoCorasick;
fn go<const O: u8, const N: usize>(c: &mut C) {
    let wide = c.one_in(4);
    let (al, k) = if wide { (1 + c.below(N), c.below(30)) } else { (1 + c.below(N.min(3)), c.below(8)) };
    let mut pats: Vec<Vec<u8>> = vec![];
    let base: Vec<u8> = strs::gen(c, if wide { 200 } else { 40 }).iter().map(|b| O + (b - b'a') % al.min(3) as u8).collect();
    for _ in 0..k {
        let p: Vec<u8> = if !base.is_empty() && c.coin() { let l = c.below(base.len()); let r = l + 1 + c.below((base.len() - l).min(6)); base[l..r].to_vec() } else { (0..1 + c.below(5)).map(|_| O + c.below(al) as u8).collect() };
        if !pats.contains(&p) { pats.push(p); }
    }
    let text: Vec<u8> = if c.coin() { base } else { (0..c.below(60)).map(|_| O + c.below(N.min(al + 1)) as u8).collect() };
    // the letters at any places of the alphabet
    let mut let_: Vec<u8> = (0..N).map(|i| O + i as u8).collect();
    if c.coin() { c.shuffle(&mut let_); }
    for p in pats.iter_mut() { for x in p.iter_mut() { *x = let_[(*x - O) as usize]; } }
    let text: Vec<u8> = text.iter().map(|x| let_[(*x - O) as usize]).collect();
    note!(c, "N={} offset={} patterns={:?} text={:?}", N, O, pats, text);
    let refs: Vec<&[u8]> = pats.iter().map(|p| &p[..]).collect();
    let ac = if c.coin() { AhoCorasick::<O, N>::from(&refs) } else { let mut a = AhoCorasick::<O, N>::new(refs.len()); let mut o: Vec<usize> = (0..refs.len()).collect(); c.shuffle(&mut o); for i in o { a.insert(refs[i], i); } a.build(); a };
    let mut cnt = vec![0; pats.len()];
    let (all, one, fc) = (ac.find_all(&text), ac.find(&text), ac.find_cnt(&text));
    assert_eq!(all.len(), text.len(), "find_all length"); assert_eq!(one.len(), text.len(), "find length");
    for i in 0..text.len() {
        let pre = &text[..=i];
        let mut e: Vec<usize> = (0..pats.len()).filter(|&j| pre.ends_with(&pats[j])).collect();
        e.sort_by_key(|&j| std::cmp::Reverse(pats[j].len()));
        assert_eq!(all[i], e, "find_all at position {}", i);
        for &j in &e { cnt[j] += 1; }
        let s = (0..=pre.len()).rev().find(|&l| pats.iter().any(|p| p.starts_with(&pre[pre.len() - l..])) || l == 0).unwrap();
        let st = &pre[pre.len() - s..];
        assert_eq!(one[i], pats.iter().position(|p| p == st), "find at position {}", i);
    }
    assert_eq!(fc, cnt, "find_cnt");
}
fn big(c: &mut C) {
    // long patterns, counts and automata beyond 2^16; the oracle runs the prefix automaton of every pattern by itself
    let n = 20000 + c.below(30000);
    let base: Vec<u8> = strs::gen_len(c, n);
    let mut pats: Vec<Vec<u8>> = vec![];
    for _ in 0..1 + c.below(5) {
        let l = c.below(base.len());
        let n = match c.below(3) { 0 => 1 + c.below(5), 1 => base.len(), _ => 1 + c.below(base.len()) };
        let mut p: Vec<u8> = base[l..(l + n).min(base.len())].to_vec();
        if c.coin() { let i = c.below(p.len()); p[i] = b'a' + c.below(4) as u8; }
        if !pats.contains(&p) { pats.push(p); }
    }
    let mut text: Vec<u8> = base.clone();
    if c.coin() { text.extend(&base); }
    if c.coin() { let i = c.below(pats.len()); text.extend(pats[i].clone()); }
    note!(c, "base of {} letters, patterns of {:?} letters, text of {}", base.len(), pats.iter().map(|p| p.len()).collect::<Vec<_>>(), text.len());
    let refs: Vec<&[u8]> = pats.iter().map(|p| &p[..]).collect();
    let ac = AhoCorasick::<b'a', 4>::from(&refs);
    let n = text.len();
    let mut all: Vec<Vec<(usize, usize)>> = vec![vec![]; n];
    let mut deep = vec![(0usize, None); n];
    let mut cnt = vec![0; pats.len()];
    for (j, p) in pats.iter().enumerate() {
        let m = p.len();
        let mut pi = vec![0; m];
        for i in 1..m { let mut k = pi[i - 1]; while k > 0 && p[k] != p[i] { k = pi[k - 1]; } if p[k] == p[i] { k += 1; } pi[i] = k; }
        let mut k = 0;
        for i in 0..n {
            if k == m { k = pi[k - 1]; }
            while k > 0 && p[k] != text[i] { k = pi[k - 1]; }
            if p[k] == text[i] { k += 1; }
            if k == m { all[i].push((m, j)); cnt[j] += 1; }
            if k > deep[i].0 { deep[i] = (k, None); }
            if k == m && deep[i].0 == m { deep[i].1 = Some(j); }
        }
    }
    let (fa, f, fc) = (ac.find_all(&text), ac.find(&text), ac.find_cnt(&text));
    for i in 0..n {
        all[i].sort(); all[i].reverse();
        assert_eq!(fa[i], all[i].iter().map(|x| x.1).collect::<Vec<_>>(), "find_all at position {}", i);
        assert_eq!(f[i], deep[i].1, "find at position {}", i);
    }
    assert_eq!(fc, cnt, "find_cnt");
}
fn case(c: &mut C) { if c.is_big() { return big(c); } match c.below(7) { 4 => go::<0, 256>(c), 5 => go::<200, 56>(c), 6 => go::<b'a', 17>(c), 0 => go::<b'a', 26>(c), 1 => go::<b'A', 3>(c), 2 => go::<b'0', 10>(c), _ => go::<0, 2>(c) } }
fn main() { replay::main(case) }
