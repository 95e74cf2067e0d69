// std's printing and hashing of u32 are uninterpreted: the claim is that the modint hands them exactly its residue.
pub uninterp spec fn shown(x: u32, f: std::fmt::Formatter<'_>) -> (std::fmt::Result, std::fmt::Formatter<'_>);
pub uninterp spec fn shown_debug(x: u32, f: std::fmt::Formatter<'_>) -> (std::fmt::Result, std::fmt::Formatter<'_>);
pub uninterp spec fn hashed<H>(x: u32, h: H) -> H;
pub assume_specification [<u32 as std::fmt::Display>::fmt] (x: &u32, f: &mut std::fmt::Formatter<'_>) -> (r: std::fmt::Result)
    ensures (r, *final(f)) == shown(*x, *old(f));
pub assume_specification [<u32 as std::fmt::Debug>::fmt] (x: &u32, f: &mut std::fmt::Formatter<'_>) -> (r: std::fmt::Result)
    ensures (r, *final(f)) == shown_debug(*x, *old(f));
pub assume_specification<H: Hasher> [<u32 as Hash>::hash::<H>] (x: &u32, h: &mut H)
    ensures *final(h) == hashed(*x, *old(h));
