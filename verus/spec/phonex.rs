pub open spec fn strip_s(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && s.last() == 'S' { strip_s(s.drop_last()) } else { s }
}
pub open spec fn set_first(s: Seq<char>, c: char) -> Seq<char> { S!("").push(c) + s.skip(1) }
pub open spec fn phonex_pre(s: Seq<char>) -> Seq<char> {
    let a = strip_s(clean(s));
    let b = if sstarts(a, S!("KN")) { set_first(a, 'N') } else if sstarts(a, S!("PH")) { set_first(a, 'F') } else if sstarts(a, S!("WR")) { set_first(a, 'R') } else { a };
    let c = if b.len() > 0 && b[0] == 'H' { b.skip(1) } else { b };
    if c.len() == 0 { c }
    else if one_of(c[0], "EIOUY") { set_first(c, 'A') }
    else if c[0] == 'P' { set_first(c, 'B') }
    else if c[0] == 'V' { set_first(c, 'F') }
    else if one_of(c[0], "KQ") { set_first(c, 'C') }
    else if c[0] == 'J' { set_first(c, 'G') }
    else if c[0] == 'Z' { set_first(c, 'S') }
    else { c }
}
pub open spec fn phonex_vowel(n: Option<char>) -> bool { match n { Some(c) => is_vowel_spec(alow(c), true), None => false } }
// the digit of a letter, when it has one
pub open spec fn phonex_digit(c: char, n: Option<char>, is_last: bool) -> Option<char> {
    if one_of(c, "BPFV") { Some('1') }
    else if one_of(c, "CSKGJQXZ") { Some('2') }
    else if one_of(c, "DT") { if n == Some('C') { None } else { Some('3') } }
    else if c == 'L' { if phonex_vowel(n) || is_last { Some('4') } else { None } }
    else if one_of(c, "MN") { Some('5') }
    else if c == 'R' { if phonex_vowel(n) || is_last { Some('6') } else { None } }
    else { Some('0') }
}
pub open spec fn phonex_skips(c: char, n: Option<char>) -> bool { one_of(c, "MN") && (n == Some('D') || n == Some('G')) }
pub open spec fn pad0(s: Seq<char>, n: int) -> Seq<char>
    decreases n - s.len()
{
    if s.len() >= n { s } else { pad0(s.push('0'), n) }
}
pub open spec fn phonex_rest(max: int, res: Seq<char>, code: char, last: char, pushed: char, first: bool, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 || res.len() == max { pad0(res, max) }
    else {
        let r1 = if first { res.push(s[0]) } else { res };
        let p1 = if first { s[0] } else { pushed };
        let n = if s.len() > 1 { Some(s[1]) } else { None };
        let c1 = match phonex_digit(s[0], n, s.len() == 1) { Some(d) => d, None => code };
        let sk = phonex_skips(s[0], n);
        let f = first && !sk;
        let add = last != c1 && c1 != '0' && !f && r1.len() < max;
        let r2 = if add { r1.push(c1) } else { r1 };
        let p2 = if add { c1 } else { p1 };
        phonex_rest(max, r2, c1, if f { c1 } else { p2 }, p2, false, if sk { s.skip(2) } else { s.skip(1) })
    }
}
pub open spec fn phonex(max: int, s: Seq<char>) -> Seq<char> {
    phonex_rest(max, S!(""), '0', '0', '0', true, phonex_pre(s))
}
