@use spec/clean.rs spec/soundex.rs proof/soundex.rs
@include encoder.vx
@include clean.vx
@file src/soundex.rs
@extra DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX
@trait Soundex:Encoder
    open spec fn enc(&self, s: Seq<char>) -> Seq<char> { soundex(self.mapping@, self.special_case_h_w, s) }
    open spec fn enc_ok(&self) -> bool { true }
@fn has_silent_in_mapping
    ensures r == exists|i: int| 0 <= i < 26 && mapping@[i] == '-'
@fn Soundex::get_mapping_code
    ensures r == soundex_letter(self.mapping@, ch)
@fn Soundex::new
    ensures r.mapping == mapping, r.special_case_h_w == special_case_h_w
@trait Soundex:From<[char;26]>
    open spec fn from_spec(mapping: [char; 26], r: Self) -> bool { r.mapping == mapping && r.special_case_h_w == !exists|i: int| 0 <= i < 26 && mapping@[i] == '-' }
@fn Soundex::From<[char;26]>::from
@fn Soundex::encode
@loop 0
    invariant
        1 <= count <= 4,
        value@ == clean(vx_value@),
        forall|i: int| count <= i < 4 ==> code@[i] == '0',
        soundex_rest(self.mapping@, self.special_case_h_w, code@.take(count as int), previous, iterator.rest()) == soundex(self.mapping@, self.special_case_h_w, vx_value@),
    ensures
        pad4(code@.take(count as int)) == soundex(self.mapping@, self.special_case_h_w, vx_value@),
    decreases iterator.rest().len()
@afterloop 0
    proof { lemma_pad4(code@, count as int); }
@trait Soundex:Default
    open spec fn default_spec(r: Self) -> bool { r.mapping@ == soundex_us() && r.special_case_h_w }
@fn Soundex::default
@trait Soundex:FromStr
    open spec fn from_str_spec(s: Seq<char>, r: Result<Self, Vec<char>>) -> bool { soundex_parsed(s, r) }
@fn Soundex::from_str
@trait Soundex:TryFrom<&str>
    open spec fn try_from_spec(s: &str, r: Result<Self, Vec<char>>) -> bool { soundex_parsed(s@, r) }
@fn Soundex::TryFrom<&str>::try_from
@trait Soundex:TryFrom<String>
    open spec fn try_from_spec(s: String, r: Result<Self, Vec<char>>) -> bool { soundex_parsed(s@, r) }
@fn Soundex::TryFrom<String>::try_from
@text
// built from a string: accepted exactly when it has 26 characters, which are the mapping; H and W are special unless the mapping has a silent code
pub open spec fn soundex_parsed(s: Seq<char>, r: Result<Soundex, Vec<char>>) -> bool {
    (r is Ok <==> s.len() == 26) && (r is Ok ==> r->Ok_0.mapping@ == s && r->Ok_0.special_case_h_w == !s.contains('-')) && (r is Err ==> r->Err_0@ == s)
}
pub proof fn genealogy_table()
    ensures DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX@ == soundex_genealogy()
{ vx_const_DEFAULT_US_ENGLISH_GENEALOGY_MAPPING_SOUNDEX(); }
