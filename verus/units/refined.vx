@use spec/clean.rs spec/refined.rs
@include encoder.vx
@include clean.vx
@file src/refined_soundex.rs
@trait RefinedSoundex:Encoder
    open spec fn enc(&self, s: Seq<char>) -> Seq<char> { refined(self.mapping@, s) }
    open spec fn enc_ok(&self) -> bool { true }
@fn RefinedSoundex::new
    ensures r.mapping == mapping
@fn RefinedSoundex::get_mapping_code
    ensures r == refined_code(self.mapping@, ch)
@fn RefinedSoundex::encode
@loop 0
    invariant
        refined_rest(self.mapping@, code@, previous, vx_it0.rest()) == refined(self.mapping@, vx_value@),
    ensures
        code@ == refined(self.mapping@, vx_value@),
    decreases vx_it0.rest().len()
@trait RefinedSoundex:Default
    open spec fn default_spec(r: Self) -> bool { r.mapping@ == refined_us() }
@fn RefinedSoundex::default
@trait RefinedSoundex:FromStr
    open spec fn from_str_spec(s: Seq<char>, r: Result<Self, Vec<char>>) -> bool { refined_parsed(s, r) }
@fn RefinedSoundex::from_str
@trait RefinedSoundex:TryFrom<&str>
    open spec fn try_from_spec(s: &str, r: Result<Self, Vec<char>>) -> bool { refined_parsed(s@, r) }
@fn RefinedSoundex::TryFrom<&str>::try_from
@trait RefinedSoundex:TryFrom<String>
    open spec fn try_from_spec(s: String, r: Result<Self, Vec<char>>) -> bool { refined_parsed(s@, r) }
@fn RefinedSoundex::TryFrom<String>::try_from
@text
// built from a string: accepted exactly when it has 26 characters, which are the mapping
pub open spec fn refined_parsed(s: Seq<char>, r: Result<RefinedSoundex, Vec<char>>) -> bool {
    (r is Ok <==> s.len() == 26) && (r is Ok ==> r->Ok_0.mapping@ == s) && (r is Err ==> r->Err_0@ == s)
}
