from mkbug import mk
mk("c26_lg_truncates", "C26", "src/misc/util.rs",
   [("    64 - 1 - i.leading_zeros()", "    32 - 1 - (i as u32).leading_zeros()")],
   "an argument of lg of at least 2^32", "lg is wrong (underflows or ignores the high half) for arguments >= 2^32",
   "use rust_cp::misc::util::lg;\nfn main() { assert_eq!(lg((1usize << 40) + 5), 40); assert_eq!(lg(usize::MAX), 63); assert_eq!(lg(7), 2); }\n")
mk("c04_update_order", "C04", "src/data_structure/segtree.rs",
   [("self.d[k] = M::binary_operation(&self.d[2 * k], &self.d[2 * k + 1]);", "self.d[k] = M::binary_operation(&self.d[2 * k + 1], &self.d[2 * k]);")],
   "a non-commutative monoid", "inner nodes combine their children in the wrong order",
   """use rust_cp::{data_structure::segtree::Segtree, traits::monoid::Monoid};
struct Cat;
impl Monoid for Cat { type S = String; fn identity() -> String { String::new() } fn binary_operation(a: &String, b: &String) -> String { format!("{a}{b}") } }
fn main() { let s: Segtree<Cat> = "abcdef".chars().map(|c| c.to_string()).collect::<Vec<_>>().into(); assert_eq!(s.prod(0, 6), "abcdef"); assert_eq!(s.all_prod(), "abcdef"); }
""")
mk("c04_prod_right_order", "C04", "src/data_structure/segtree.rs",
   [("smr = M::binary_operation(&self.d[r], &smr);", "smr = M::binary_operation(&smr, &self.d[r]);")],
   "a non-commutative monoid and a right boundary that takes two or more nodes", "the right accumulator of prod is built in reverse order",
   """use rust_cp::{data_structure::segtree::Segtree, traits::monoid::Monoid};
struct Cat;
impl Monoid for Cat { type S = String; fn identity() -> String { String::new() } fn binary_operation(a: &String, b: &String) -> String { format!("{a}{b}") } }
fn main() { let s: Segtree<Cat> = "abcdefgh".chars().map(|c| c.to_string()).collect::<Vec<_>>().into(); for l in 0..=8 { for r in l..=8 { assert_eq!(s.prod(l, r), &"abcdefgh"[l..r]); } } }
""")
