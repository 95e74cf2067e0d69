// Parsing: a text that reads as an i64 gives the residue of that number.
impl<I: Id> DynamicModInt<I> {
//@fn misc/modint.rs | trait InternalImplementations::from_str_impl | ret=r
//@spec
    requires parsed::<i64>(s@) is Some,
    ensures r is Ok, r->Ok_0.wf(), r->Ok_0 == Self::res(parsed::<i64>(s@)->Some_0 as int),
//@end
//@fn exp:misc::modint | DynamicModInt@FromStr::from_str | ret=r
//@spec
    requires parsed::<i64>(s@) is Some,
    ensures r is Ok, r->Ok_0.wf(), r->Ok_0 == Self::res(parsed::<i64>(s@)->Some_0 as int),
//@end
}
