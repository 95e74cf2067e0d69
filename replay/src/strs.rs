use crate::C;
/// strings with much periodic structure
pub fn gen(c: &mut C, max: usize) -> Vec<u8> {
    let n = c.size(max);
    gen_len(c, n)
}
pub fn gen_len(c: &mut C, n: usize) -> Vec<u8> {
    let k = 1 + c.below(3) as u8;
    let mut s: Vec<u8> = vec![];
    match c.below(4) {
        0 => { for _ in 0..n { s.push(b'a' + c.below(k as usize) as u8); } }
        1 => { let p = 1 + c.below(5); let w: Vec<u8> = (0..p).map(|_| b'a' + c.below(k as usize) as u8).collect(); for i in 0..n { s.push(w[i % p]); } if n > 0 && c.coin() { let i = c.below(n); s[i] = b'a' + c.below(3) as u8; } }
        2 => { let (mut a, mut b) = (vec![b'a'], vec![b'b']); while b.len() < n { let t = [b.clone(), a].concat(); a = b; b = t; } b.truncate(n); s = b; }
        _ => { while s.len() < n { if s.is_empty() || c.one_in(3) { s.push(b'a' + c.below(k as usize + 1) as u8); } else { let l = 1 + c.below(s.len()); let t = s[..l].to_vec(); s.extend(t); } } s.truncate(n); }
    }
    s
}
