// Contract assumed on str::parse, which vstd does not specify (trusted).
use std::str::FromStr;
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: FromStr;
    type Err;
    fn from_str(s: &str) -> Result<Self, Self::Err>;
}
/// the value T's FromStr gives for the text (None: an error)
pub uninterp spec fn parsed<T>(s: Seq<char>) -> Option<T>;
pub assume_specification<F: FromStr> [str::parse::<F>] (s: &str) -> (r: Result<F, F::Err>)
    ensures
        (r is Ok) == (parsed::<F>(s@) is Some),
        r is Ok ==> parsed::<F>(s@) == Some(r->Ok_0);
