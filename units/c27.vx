//@include lib/head.vx
use std::str::SplitWhitespace;
use vstd::utf8::*;
// Contracts assumed on std's SplitWhitespace, str::parse and str::bytes, which vstd does not specify (trusted).
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExSplitWhitespace<'a>(SplitWhitespace<'a>);
//@include lib/parse.vx
/// char::is_whitespace
pub uninterp spec fn white(c: char) -> bool;
/// the tokens the iterator has still to give
pub uninterp spec fn left<'a>(it: SplitWhitespace<'a>) -> Seq<Seq<char>>;
/// the maximal runs of non-white characters of cur + s, in order, where cur has no white character
pub open spec fn cut(s: Seq<char>, cur: Seq<char>) -> Seq<Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 {
        if cur.len() == 0 { seq![] } else { seq![cur] }
    } else if white(s[0]) {
        if cur.len() == 0 { cut(s.drop_first(), seq![]) } else { seq![cur] + cut(s.drop_first(), seq![]) }
    } else {
        cut(s.drop_first(), cur.push(s[0]))
    }
}
pub open spec fn tokens(s: Seq<char>) -> Seq<Seq<char>> {
    cut(s, seq![])
}
pub assume_specification<'a> [str::split_whitespace] (s: &'a str) -> (r: SplitWhitespace<'a>)
    ensures left(r) == tokens(s@);
pub assume_specification<'a> [<SplitWhitespace<'a> as Iterator>::next] (it: &mut SplitWhitespace<'a>) -> (r: Option<&'a str>)
    ensures
        left(*old(it)).len() == 0 ==> r is None && left(*final(it)) == left(*old(it)),
        left(*old(it)).len() > 0 ==> r is Some && r->Some_0@ == left(*old(it))[0] && left(*final(it)) == left(*old(it)).drop_first();
#[verifier::external_body]
pub fn vx_bytes(s: &str) -> (r: Vec<u8>)
    ensures r@ == encode_utf8(s@),
{
    s.bytes().collect()
}

//@struct misc/input.rs | In
impl<'a> In<'a> {
    /// the tokens not yet read
    pub closed spec fn rest(self) -> Seq<Seq<char>> {
        left(self.iter)
    }
    /// the next token exists and reads as a T
    pub open spec fn ready<T: FromStr>(self) -> bool {
        self.rest().len() > 0 && parsed::<T>(self.rest()[0]) is Some
    }
}
/// v is what reading s as a T gives
pub open spec fn reads<T>(s: Seq<char>, v: T) -> bool {
    parsed::<T>(s) == Some(v)
}
impl<'a> In<'a> {
//@fn misc/input.rs | In::new | ret=ret
//@spec
    ensures ret.rest() == tokens(s@),
//@end
//@fn misc/input.rs | In::read | ret=ret
//@spec
    requires old(self).ready::<T>(),
    ensures reads(old(self).rest()[0], ret), final(self).rest() == old(self).rest().drop_first(),
//@end
//@fn misc/input.rs | In::checked_read | ret=ret
//@spec
    requires old(self).rest().len() == 0 || old(self).ready::<T>(),
    ensures
        old(self).rest().len() == 0 ==> ret is None && final(self).rest() == old(self).rest(),
        old(self).rest().len() > 0 ==> ret is Some && reads(old(self).rest()[0], ret->Some_0) && final(self).rest() == old(self).rest().drop_first(),
//@end
//@fn misc/input.rs | In::i32 | ret=ret
//@spec
    requires old(self).ready::<i32>(),
    ensures reads(old(self).rest()[0], ret), final(self).rest() == old(self).rest().drop_first(),
//@end
//@fn misc/input.rs | In::i64 | ret=ret
//@spec
    requires old(self).ready::<i64>(),
    ensures reads(old(self).rest()[0], ret), final(self).rest() == old(self).rest().drop_first(),
//@end
//@fn misc/input.rs | In::usize | ret=ret
//@spec
    requires old(self).ready::<usize>(),
    ensures reads(old(self).rest()[0], ret), final(self).rest() == old(self).rest().drop_first(),
//@end
//@fn misc/input.rs | In::bytes | ret=ret
//@spec
    requires old(self).rest().len() > 0,
    ensures ret@ == encode_utf8(old(self).rest()[0]), final(self).rest() == old(self).rest().drop_first(),
//@end
//@fn misc/input.rs | In::chars | ret=ret
//@spec
    requires old(self).rest().len() > 0,
    ensures ret@ == old(self).rest()[0], final(self).rest() == old(self).rest().drop_first(),
//@end
//@fn misc/input.rs | In::vec | ret=ret
//@spec
    requires
        old(self).rest().len() >= n,
        forall|i: int| 0 <= i < n ==> parsed::<T>(#[trigger] old(self).rest()[i]) is Some,
    ensures
        ret@.len() == n,
        forall|i: int| 0 <= i < n ==> reads(old(self).rest()[i], #[trigger] ret@[i]),
        final(self).rest() == old(self).rest().skip(n as int),
//@loop 0
    invariant
        vx_k0 <= n,
        vx_out@.len() == vx_k0,
        old(self).rest().len() >= n,
        forall|i: int| 0 <= i < n ==> parsed::<T>(#[trigger] old(self).rest()[i]) is Some,
        self.rest() == old(self).rest().skip(vx_k0 as int),
        forall|i: int| 0 <= i < vx_k0 ==> reads(old(self).rest()[i], #[trigger] vx_out@[i]),
    decreases n - vx_k0,
//@at loop0.head
    proof {
        assert(self.rest()[0] == old(self).rest()[vx_k0 as int]);
        assert(self.rest().drop_first() =~= old(self).rest().skip(vx_k0 + 1));
    }
//@end
}
}
