use replay::*;
use rust_cp::data_structure::min_heap::MinHeap;
fn case(c: &mut C) {
    if c.is_big() { return big(c); }
    let mut h = if c.coin() { MinHeap::<(i32, i32)>::new() } else { MinHeap::with_capacity(c.below(20)) };
    let mut m: Vec<(i32, i32)> = vec![];
    for _ in 0..c.size(200) + 3 {
        match c.below(12) {
            0..=5 => { let x = (c.int(-5, 5) as i32, c.int(0, 3) as i32); note!(c, "push {:?}", x); h.push(x); m.push(x); }
            6..=8 => { note!(c, "pop"); m.sort(); let e = if m.is_empty() { None } else { Some(m.remove(0)) }; assert_eq!(h.pop(), e, "pop"); }
            9 => { note!(c, "append"); let mut o = MinHeap::new(); let big = c.one_in(3); for _ in 0..if big { c.below(60) } else { c.below(6) } { let x = (c.int(-5, 5) as i32, 9); o.push(x); m.push(x); } h.append(&mut o); assert!(o.is_empty() && o.len() == 0 && o.pop().is_none(), "append leaves the other heap non-empty"); }
            10 if c.one_in(10) => { note!(c, "clear"); h.clear(); m.clear(); }
            _ => {}
        }
        assert_eq!(h.len(), m.len(), "len"); assert_eq!(h.is_empty(), m.is_empty(), "is_empty"); assert_eq!(h.peek(), m.iter().min(), "peek");
    }
    m.sort();
    if c.coin() { m.reverse(); assert_eq!(h.into_sorted_vec(), m, "into_sorted_vec"); } else { for x in m { assert_eq!(h.pop(), Some(x), "drain"); } assert_eq!(h.pop(), None); }
}
fn big(c: &mut C) {
    let n = c.big_size();
    note!(c, "n={}", n);
    let mut h = MinHeap::<u64>::new();
    let mut m = std::collections::BTreeMap::<u64, usize>::new();
    let mut k = 0usize;
    let up = c.coin();
    for i in 0..2 * n {
        if (up && i < n) || c.one_in(2) { let x = c.u64() >> 50; h.push(x); *m.entry(x).or_insert(0) += 1; k += 1; }
        else {
            let e = m.keys().next().cloned();
            assert_eq!(h.pop(), e, "pop at step {}", i);
            if let Some(x) = e { k -= 1; let z = m.get_mut(&x).unwrap(); *z -= 1; if *z == 0 { m.remove(&x); } }
        }
        if i % 61 == 0 { assert_eq!(h.len(), k, "len"); assert_eq!(h.peek(), m.keys().next(), "peek"); }
    }
    let e: Vec<u64> = m.iter().rev().flat_map(|(x, z)| vec![*x; *z]).collect();
    assert_eq!(h.into_sorted_vec(), e, "into_sorted_vec");
}
fn main() { replay::main(case) }
