// "Kölner Phonetik": the digit(s) of a letter `c` given the next character `n`, the previous
// letter `p` and whether the code is still empty
pub open spec fn cologne_digits(c: char, n: char, p: char, first: bool) -> Seq<char> {
    if one_of(c, "AEIJOUY") { S!("0") }
    else if c == 'H' { S!("-") }
    else if c == 'B' { S!("1") }
    else if c == 'P' { if n == 'H' { S!("3") } else { S!("1") } }
    else if c == 'D' || c == 'T' { if one_of(n, "CSZ") { S!("8") } else { S!("2") } }
    else if one_of(c, "FVW") { S!("3") }
    else if one_of(c, "GKQ") { S!("4") }
    else if c == 'X' { if one_of(p, "CKQ") { S!("8") } else { S!("48") } }
    else if c == 'L' { S!("5") }
    else if c == 'M' || c == 'N' { S!("6") }
    else if c == 'R' { S!("7") }
    else if c == 'S' || c == 'Z' { S!("8") }
    else if c == 'C' {
        if first { if one_of(n, "AHKLOQRUX") { S!("4") } else { S!("8") } }
        else if one_of(p, "SZ") { S!("8") }
        else if one_of(n, "AHKOQUX") { S!("4") }
        else { S!("8") }
    }
    else { S!("") }
}
// one digit joins the code unless it repeats the previous one, is a '0' past the start, or is '-'
pub open spec fn cologne_put(buf: Seq<char>, last: char, d: char) -> Seq<char> {
    if d != '-' && last != d && (d != '0' || buf.len() == 0) { buf.push(d) } else { buf }
}
pub open spec fn cologne_rest(buf: Seq<char>, last: char, p: char, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { buf }
    else if !is_AZ(s[0]) { cologne_rest(buf, last, p, s.skip(1)) }
    else {
        let n = if s.len() > 1 { s[1] } else { '-' };
        let d = cologne_digits(s[0], n, p, buf.len() == 0);
        if d.len() == 0 { cologne_rest(buf, last, s[0], s.skip(1)) }
        else if d.len() == 1 { cologne_rest(cologne_put(buf, last, d[0]), d[0], s[0], s.skip(1)) }
        else { cologne_rest(cologne_put(cologne_put(buf, last, d[0]), d[0], d[1]), d[1], s[0], s.skip(1)) }
    }
}
pub open spec fn cologne_prepare(s: Seq<char>) -> Seq<char> {
    sreplace(sreplace(sreplace(supper(s), S!("Ä"), S!("A")), S!("Ü"), S!("U")), S!("Ö"), S!("O"))
}
pub open spec fn cologne(s: Seq<char>) -> Seq<char> {
    cologne_rest(S!(""), '/', '-', cologne_prepare(s))
}
