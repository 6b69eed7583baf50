pub open spec fn soundex_us() -> Seq<char> { seq!['0', '1', '2', '3', '0', '1', '2', '0', '0', '2', '2', '4', '5', '5', '0', '1', '2', '6', '2', '3', '0', '1', '0', '2', '0', '2'] }
pub open spec fn soundex_genealogy() -> Seq<char> { seq!['-', '1', '2', '3', '-', '1', '2', '-', '-', '2', '2', '4', '5', '5', '-', '1', '2', '6', '2', '3', '-', '1', '-', '2', '-', '2'] }
pub open spec fn soundex_letter(m: Seq<char>, c: char) -> char {
    if is_AZ(c) { m[(c as u32) as int - 65] } else { '-' }
}
pub open spec fn pad4(code: Seq<char>) -> Seq<char>
    decreases 4 - code.len()
{
    if code.len() >= 4 { code } else { pad4(code.push('0')) }
}
pub open spec fn soundex_rest(m: Seq<char>, hw: bool, code: Seq<char>, prev: char, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 || code.len() >= 4 {
        pad4(code)
    } else if hw && (s[0] == 'H' || s[0] == 'W') {
        soundex_rest(m, hw, code, prev, s.skip(1))
    } else if soundex_letter(m, s[0]) == '-' {
        soundex_rest(m, hw, code, prev, s.skip(1))
    } else if soundex_letter(m, s[0]) != '0' && soundex_letter(m, s[0]) != prev {
        soundex_rest(m, hw, code.push(soundex_letter(m, s[0])), soundex_letter(m, s[0]), s.skip(1))
    } else {
        soundex_rest(m, hw, code, soundex_letter(m, s[0]), s.skip(1))
    }
}
pub open spec fn soundex(m: Seq<char>, hw: bool, s: Seq<char>) -> Seq<char> {
    if clean(s).len() == 0 {
        clean(s)
    } else {
        soundex_rest(m, hw, S!("").push(clean(s)[0]), soundex_letter(m, clean(s)[0]), clean(s).skip(1))
    }
}
