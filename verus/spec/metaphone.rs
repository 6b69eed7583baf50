pub open spec fn meta_is(w: Seq<char>, i: int, c: char) -> bool { 0 <= i && i < w.len() && w[i] == c }
pub open spec fn meta_vowel_at(w: Seq<char>, i: int) -> bool { 0 <= i && i < w.len() && is_vowel_spec(alow(w[i]), false) }
pub open spec fn meta_front_at(w: Seq<char>, i: int) -> bool { 0 <= i && i < w.len() && one_of(w[i], "EIY") }
// `t` stands at position i
pub open spec fn meta_region(w: Seq<char>, i: int, t: Seq<char>) -> bool { 0 <= i && i <= w.len() && sstarts(w.skip(i), t) }
// leading letters: KN GN PN AE WR lose the first, WH becomes W, X becomes S
pub open spec fn meta_head(w: Seq<char>) -> Seq<char> {
    if w.len() == 0 { w }
    else if one_of(w[0], "KGP") && meta_is(w, 1, 'N') { w.skip(1) }
    else if w[0] == 'A' && meta_is(w, 1, 'E') { w.skip(1) }
    else if w[0] == 'W' && meta_is(w, 1, 'R') { w.skip(1) }
    else if w[0] == 'W' && meta_is(w, 1, 'H') { S!("W") + w.skip(2) }
    else if w[0] == 'X' { S!("S") + w.skip(1) }
    else { w }
}
// what the letter at i adds to the code
pub open spec fn meta_adds(w: Seq<char>, i: int) -> Seq<char> {
    let c = w[i];
    let last = i + 1 == w.len();
    let last2 = i + 2 == w.len();
    if c != 'C' && meta_is(w, i - 1, c) { S!("") }
    else if one_of(c, "AEIOU") { if i == 0 { S!("").push(c) } else { S!("") } }
    else if c == 'B' { if meta_is(w, i - 1, 'M') && last { S!("") } else { S!("B") } }
    else if c == 'C' {
        if meta_front_at(w, i + 1) {
            if meta_is(w, i - 1, 'S') { S!("") } else if meta_region(w, i, S!("CIA")) { S!("X") } else { S!("S") }
        }
        else if meta_is(w, i + 1, 'H') {
            if meta_is(w, i - 1, 'S') { S!("K") } else if i == 0 && w.len() > 3 && meta_vowel_at(w, 2) { S!("K") } else { S!("X") }
        }
        else { S!("K") }
    }
    else if c == 'D' { if meta_is(w, i + 1, 'G') && meta_front_at(w, i + 2) { S!("J") } else { S!("T") } }
    else if c == 'G' {
        if meta_is(w, i + 1, 'H') && (last2 || !meta_vowel_at(w, i + 2)) { S!("") }
        else if i > 0 && meta_is(w, i + 1, 'N') { S!("") }
        else if !meta_is(w, i - 1, 'G') && meta_front_at(w, i + 1) { S!("J") }
        else { S!("K") }
    }
    else if c == 'H' {
        if last || (i > 0 && one_of(w[i - 1], "CSPTG")) { S!("") } else if meta_vowel_at(w, i + 1) { S!("H") } else { S!("") }
    }
    else if one_of(c, "FJLMNR") { S!("").push(c) }
    else if c == 'K' { if meta_is(w, i - 1, 'C') { S!("") } else { S!("K") } }
    else if c == 'P' { if meta_is(w, i + 1, 'H') { S!("F") } else { S!("P") } }
    else if c == 'Q' { S!("K") }
    else if c == 'S' { if meta_region(w, i, S!("SH")) || meta_region(w, i, S!("SIO")) || meta_region(w, i, S!("SIA")) { S!("X") } else { S!("S") } }
    else if c == 'T' {
        if meta_region(w, i, S!("TIA")) || meta_region(w, i, S!("TIO")) { S!("X") }
        else if meta_region(w, i, S!("TCH")) { S!("") }
        else if meta_region(w, i, S!("TH")) { S!("0") }
        else { S!("T") }
    }
    else if c == 'V' { S!("F") }
    else if c == 'W' || c == 'Y' { if meta_vowel_at(w, i + 1) { S!("").push(c) } else { S!("") } }
    else if c == 'X' { S!("KS") }
    else if c == 'Z' { S!("S") }
    else { S!("") }
}
// DGE, DGI, DGY: the two letters after the D are part of its sound
pub open spec fn meta_skip(w: Seq<char>, i: int) -> int {
    if w[i] == 'D' && !meta_is(w, i - 1, 'D') && meta_is(w, i + 1, 'G') && meta_front_at(w, i + 2) { 2 } else { 0 }
}
pub open spec fn meta_cut(max: Option<usize>, code: Seq<char>) -> Seq<char> {
    match max { Some(m) => if code.len() > m as int { code.take(m as int) } else { code }, None => code }
}
pub open spec fn meta_full(max: Option<usize>, code: Seq<char>) -> bool { match max { Some(m) => code.len() == m as int, None => false } }
pub open spec fn meta_rest(max: Option<usize>, w: Seq<char>, i: int, skip: int, code: Seq<char>) -> Seq<char>
    decreases w.len() - i
{
    if i < 0 || i >= w.len() { code }
    else if skip > 0 { meta_rest(max, w, i + 1, skip - 1, code) }
    else if meta_full(max, code) { code }
    else { meta_rest(max, w, i + 1, meta_skip(w, i), meta_cut(max, code + meta_adds(w, i))) }
}
pub open spec fn metaphone(max: Option<usize>, s: Seq<char>) -> Seq<char> {
    if supper(s).len() == 1 { supper(s) } else { meta_rest(max, meta_head(supper(s)), 0, 0, S!("")) }
}
