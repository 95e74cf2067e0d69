use replay::*; use rust_cp::string::kmp::kmp;
fn case(c: &mut C) {
    if c.is_big() { return big(c); }
    let s = strs::gen(c, 120);
    note!(c, "s={:?}", String::from_utf8_lossy(&s));
    let pi = kmp(&s);
    let e: Vec<usize> = (0..s.len()).map(|i| (0..=i).rev().find(|&k| s[..k] == s[i + 1 - k..=i]).unwrap()).collect();
    assert_eq!(pi, e, "prefix function");
}
fn big(c: &mut C) {
    let n = c.big_size();
    let s = strs::gen_len(c, n);
    note!(c, "length {}", n);
    let pi = kmp(&s);
    let mut e = vec![0; n];
    // through the Z-function
    let (mut z, mut l, mut r) = (vec![0; n], 0, 0);
    for i in 1..n {
        let mut k = if i < r { z[i - l].min(r - i) } else { 0 };
        while i + k < n && s[k] == s[i + k] { k += 1; }
        z[i] = k;
        if i + k > r { l = i; r = i + k; }
    }
    for i in (1..n).rev() { if z[i] > 0 { e[i + z[i] - 1] = z[i]; } }
    for i in (0..n - 1).rev() { if e[i + 1] > 1 { e[i] = e[i].max(e[i + 1] - 1); } }
    assert!(pi == e, "prefix function, first difference at {:?}", (0..n.min(pi.len())).find(|&i| pi[i] != e[i]));
}
fn main() { replay::main(case) }
