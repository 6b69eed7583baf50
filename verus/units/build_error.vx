@file src/lib.rs
@extra PhoneticError
@extra ParseError
@file src/beider_morse/mod.rs
@extra BMError
@text
/// the error of a line of a rule text
pub open spec fn parse_error(e: PhoneticError, line: int, file: Option<Seq<char>>, content: Seq<char>) -> bool {
    match e { PhoneticError::ParseRuleError(p) => p.line_number == line && p.filename.vv() == file && p.line_content@ == content, _ => false }
}
impl VxDisplay for regex::Error { uninterp spec fn shv(&self) -> Seq<char>; #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: VxFmtResult) { unimplemented!() } }
impl VxDisplay for BMError { uninterp spec fn shv(&self) -> Seq<char>; #[verifier::external_body] fn fmt(&self, f: &mut Formatter<'_>) -> (r: VxFmtResult) { unimplemented!() } }
impl regex::Error { #[verifier::external_body] pub fn vx_to_string(&self) -> (r: String) ensures r@ == self.shv() { unimplemented!() } }
impl BMError { #[verifier::external_body] pub fn vx_to_string(&self) -> (r: String) ensures r@ == self.shv() { unimplemented!() } }
@fn build_error
    ensures parse_error(r, line_number as int, filename.vv(), p_line(remains@))
@start
    proof { lemma_line_find(remains@); }
