// Match Rating Approach, encoding
pub open spec fn mra_plain(c: char) -> char {
    if one_of(c, "ÀÁÂÃÄÅ") { 'A' } else if one_of(c, "àáâãäå") { 'a' }
    else if one_of(c, "ÈÉÊË") { 'E' } else if one_of(c, "èéêë") { 'e' }
    else if one_of(c, "ÌÍÎÏ") { 'I' } else if one_of(c, "ìíîï") { 'i' }
    else if one_of(c, "ÒÓÔÕÖŐ") { 'O' } else if one_of(c, "òóôõöő") { 'o' }
    else if one_of(c, "ÙÚÛÜŰ") { 'U' } else if one_of(c, "ùúûüű") { 'u' }
    else if one_of(c, "ÝŶŸ") { 'Y' } else if one_of(c, "ýŷÿ") { 'y' }
    else if c == 'Ñ' { 'N' } else if c == 'ñ' { 'n' }
    else if c == 'Ç' { 'C' } else if c == 'ç' { 'c' }
    else { c }
}
pub open spec fn mra_trimmed(c: char) -> bool { one_of(c, "-&'.,") }
pub open spec fn mra_clean(s: Seq<char>) -> Seq<char> {
    smap(sfilter(sfilter(supper(s), |c: char| !mra_trimmed(c)), |c: char| !is_ws(c)), |c: char| mra_plain(c))
}
pub open spec fn mra_vowel(c: char) -> bool { is_vowel_spec(alow(c), false) }
// every vowel but a leading one goes
pub open spec fn mra_no_vowels(s: Seq<char>) -> Seq<char> {
    sfilter(if s.len() == 0 { s } else { S!("").push(s[0]) + sfilter(s.skip(1), |c: char| !mra_vowel(c)) }, |c: char| !mra_trimmed(c) && !is_ws(c))
}
pub open spec fn mra_single(s: Seq<char>, ls: Seq<char>) -> Seq<char>
    decreases ls.len()
{
    if ls.len() == 0 { s } else { mra_single(sreplace(s, S!("").push(ls[0]).push(ls[0]), S!("").push(ls[0])), ls.skip(1)) }
}
// a doubled consonant counts once
pub open spec fn mra_no_doubles(s: Seq<char>) -> Seq<char> { mra_single(supper(s), S!("BCDFGHJKLMNPQRSTVWXYZ")) }
pub open spec fn mra_ends(s: Seq<char>) -> Seq<char> { if s.len() > 6 { s.take(3) + s.skip(s.len() - 3) } else { s } }
pub open spec fn mra_short(s: Seq<char>) -> bool { strim(s).len() <= 1 }
pub open spec fn mra(s: Seq<char>) -> Seq<char> {
    if mra_short(s) { S!("") } else { mra_ends(mra_no_doubles(mra_no_vowels(mra_clean(s)))) }
}
// Match Rating Approach, comparison
pub open spec fn mra_minimum(sum: int) -> int { if sum <= 4 { 5 } else if sum <= 7 { 4 } else if sum <= 11 { 3 } else if sum == 12 { 2 } else { 1 } }
pub open spec fn mra_blank(a: Seq<char>, i: int, b: Seq<char>, j: int) -> Seq<char> { if a[i] == b[j] { a.update(i, ' ') } else { a } }
// letters equal at the same place from the left, then from the right, cancel; the left-overs are counted
pub open spec fn mra_cancel(a: Seq<char>, b: Seq<char>, i: int) -> (Seq<char>, Seq<char>)
    decreases a.len() - i
{
    if i < 0 || i >= a.len() || i >= b.len() { (a, b) }
    else {
        let a1 = mra_blank(a, i, b, i);
        let b1 = mra_blank(b, i, a, i);
        let a2 = mra_blank(a1, a1.len() - (i + 1), b1, b1.len() - (i + 1));
        let b2 = mra_blank(b1, b1.len() - (i + 1), a1, a1.len() - (i + 1));
        mra_cancel(a2, b2, i + 1)
    }
}
pub open spec fn mra_left(s: Seq<char>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { mra_left(s.skip(1)) + if s[0] != ' ' { 1int } else { 0int } } }
pub open spec fn mra_rating(a: Seq<char>, b: Seq<char>) -> int {
    let (x, y) = mra_cancel(a, b, 0);
    let m = if mra_left(x) > mra_left(y) { mra_left(x) } else { mra_left(y) };
    if m <= 6 { 6 - m } else { m - 6 }
}
pub open spec fn mra_equal(a: Seq<char>, b: Seq<char>) -> bool {
    if mra_short(a) || mra_short(b) { false }
    else if a == b { true }
    else {
        let d = mra(a).len() - mra(b).len();
        -3 < d && d < 3 && mra_rating(mra(a), mra(b)) >= mra_minimum((mra(a).len() + mra(b).len()) as int)
    }
}
