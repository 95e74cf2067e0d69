use replay::*; use rust_cp::string::z_algorithm::z_function;
fn case(c: &mut C) {
    if c.is_big() { return big(c); }
    let s = strs::gen(c, 300);
    note!(c, "s={:?}", String::from_utf8_lossy(&s));
    let z = z_function(&s);
    let n = s.len();
    let e: Vec<usize> = (0..n).map(|i| if i == 0 { 0 } else { (0..n - i).take_while(|&j| s[j] == s[i + j]).count() }).collect();
    assert_eq!(z, e, "z_function");
}
fn big(c: &mut C) {
    let n = c.big_size();
    let s = strs::gen_len(c, n);
    note!(c, "length {}", n);
    let z = z_function(&s);
    assert_eq!(z.len(), n);
    // every z-value, checked through polynomial hashes
    let m = (1u128 << 61) - 1;
    let b = 911382323u128 + c.below(1000) as u128;
    let (mut h, mut w) = (vec![0u128; n + 1], vec![1u128; n + 1]);
    for i in 0..n { h[i + 1] = (h[i] * b + s[i] as u128 + 1) % m; w[i + 1] = w[i] * b % m; }
    let sub = |l: usize, r: usize| (h[r] + m * m - h[l] * w[r - l]) % m;
    for i in 1..n {
        let k = z[i];
        assert!(i + k <= n, "z[{}] = {}", i, k);
        assert!(sub(0, k) == sub(i, i + k), "z[{}] = {} too large", i, k);
        assert!(i + k == n || s[k] != s[i + k], "z[{}] = {} too small", i, k);
    }
}
fn main() { replay::main(case) }
