// verus-only-begin
// every character of a text is one of those that p allows
pub open spec fn only(s: Seq<char>, p: spec_fn(char) -> bool) -> bool { forall|i: int| 0 <= i < s.len() ==> p(#[trigger] s[i]) }
// C02: the first letter, then three symbols of the mapping, or '0'
pub open spec fn shape_soundex(m: Seq<char>, s: Seq<char>, code: Seq<char>) -> bool {
    if clean(s).len() == 0 { code.len() == 0 } else { code.len() == 4 && code[0] == clean(s)[0] && forall|i: int| 1 <= i < 4 ==> #[trigger] code[i] == '0' || (m.contains(code[i]) && code[i] != '-') }
}
pub open spec fn shape_refined(m: Seq<char>, s: Seq<char>, code: Seq<char>) -> bool {
    if clean(s).len() == 0 { code.len() == 0 } else { 1 <= code.len() <= 1 + clean(s).len() && code[0] == clean(s)[0] && forall|i: int| 1 <= i < code.len() ==> m.contains(#[trigger] code[i]) }
}
// a '0' can only come first
pub open spec fn shape_cologne(code: Seq<char>) -> bool { forall|i: int| 0 <= i < code.len() ==> one_of(#[trigger] code[i], "12345678") || (i == 0 && code[i] == '0') }
pub open spec fn shape_caverphone(n: int, code: Seq<char>) -> bool { code.len() == n && forall|i: int| 0 <= i < n ==> is_AZ(#[trigger] code[i]) || code[i] == '1' }
// a key has no more characters than the name has letters, and six when strict
pub open spec fn shape_nysiis(strict: bool, s: Seq<char>, code: Seq<char>) -> bool { code.len() <= clean(s).len() && (strict ==> code.len() <= 6) }
pub open spec fn shape_phonex(max: int, code: Seq<char>) -> bool { code.len() == max && forall|i: int| 1 <= i < max ==> one_of(#[trigger] code[i], "0123456") }
pub open spec fn shape_metaphone(max: Option<usize>, s: Seq<char>, code: Seq<char>) -> bool {
    supper(s).len() == 1 || ((match max { Some(m) => code.len() <= m as int, None => code.len() <= 2 * supper(s).len() }) && forall|i: int| 0 <= i < code.len() ==> one_of(#[trigger] code[i], "0AEIOUBFHJKLMNPRSTWXY"))
}
pub open spec fn dm_abc(s: Seq<char>, space: bool) -> bool { forall|i: int| 0 <= i < s.len() ==> one_of(#[trigger] s[i], "0AFHJKLMNPRSTX") || (space && s[i] == ' ') }
// both codes; only the alternate one can have a space (a final J)
pub open spec fn shape_double_metaphone(max: Option<usize>, code: (Seq<char>, Seq<char>)) -> bool {
    dm_abc(code.0, false) && dm_abc(code.1, true) && (match max { Some(m) => code.0.len() <= m as int && code.1.len() <= m as int, None => true })
}
pub open spec fn shape_mra(code: Seq<char>) -> bool { code.len() <= 6 }
pub open spec fn shape_daitch_mokotoff(codes: Seq<Seq<char>>) -> bool { codes.len() > 0 && forall|i: int| 0 <= i < codes.len() ==> (#[trigger] codes[i]).len() == 6 }
// rules that a text can give: every field has at least one alternative
pub open spec fn dam_full(r: DmRule) -> bool { r.start.len() > 0 && r.vowel.len() > 0 && r.other.len() > 0 }
pub open spec fn dam_table(t: Map<char, Seq<DmRule>>) -> bool { forall|c: char, i: int| t.contains_key(c) && 0 <= i < t[c].len() ==> dam_full(#[trigger] t[c][i]) }
// verus-only-end
