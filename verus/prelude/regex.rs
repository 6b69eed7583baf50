pub mod vx_regex {
use super::*;
// ---- regex::Regex (ASSUMED): a compiled expression matches what its text says, rx_match is the meaning of the regex crate ----
pub uninterp spec fn rx_match(p: Seq<char>, s: Seq<char>) -> bool;
pub uninterp spec fn rx_ok(p: Seq<char>) -> bool;
#[verifier::external_body]
pub struct Regex { v: Vec<u8> }
impl Regex {
    pub uninterp spec fn rv(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(p: &str) -> (r: Result<Regex, regex::Error>) ensures r is Ok <==> rx_ok(p@), r is Ok ==> (r->Ok_0).rv() == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, s: &str) -> (r: bool) ensures r == rx_match(self.rv(), s@) { unimplemented!() }
}
pub enum Either<L, R> { Left(L), Right(R) }
}
pub use vx_regex::*;
