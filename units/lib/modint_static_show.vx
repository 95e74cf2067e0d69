// Printing and hashing: exactly what printing and hashing the residue as a u32 does.
impl<M: Modulus> StaticModInt<M> {
//@fn misc/modint.rs | trait InternalImplementations::display_impl | ret=r
//@spec
    requires this.wf(),
    ensures (r, *final(f)) == shown(this.v() as u32, *old(f)),
//@end
//@fn misc/modint.rs | trait InternalImplementations::debug_impl | ret=r
//@spec
    requires this.wf(),
    ensures (r, *final(f)) == shown_debug(this.v() as u32, *old(f)),
//@end
//@fn misc/modint.rs | trait InternalImplementations::hash_impl
//@spec
    requires this.wf(),
    ensures *final(state) == hashed(this.v() as u32, *old(state)),
//@end
//@fn exp:misc::modint | StaticModInt@Display::fmt | ret=r | as=show
//@spec
    requires self.wf(),
    ensures (r, *final(f)) == shown(self.v() as u32, *old(f)),
//@end
//@fn exp:misc::modint | StaticModInt@Debug::fmt | ret=r | as=show_debug
//@spec
    requires self.wf(),
    ensures (r, *final(f)) == shown_debug(self.v() as u32, *old(f)),
//@end
//@fn exp:misc::modint | StaticModInt@Hash::hash
//@spec
    requires self.wf(),
    ensures *final(state) == hashed(self.v() as u32, *old(state)),
//@end
}
