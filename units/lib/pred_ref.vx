/// a predicate given as a closure: callable on everything and deterministic
pub open spec fn is_pred<S, F: Fn(&S) -> bool>(f: F) -> bool {
    &&& forall|x: S| #[trigger] f.requires((&x,))
    &&& forall|x: S| !(#[trigger] f.ensures((&x,), true) && #[trigger] f.ensures((&x,), false))
}
