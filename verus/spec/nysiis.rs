// step 1: leading cluster and trailing cluster are translated
pub open spec fn nysiis_head(s: Seq<char>) -> Seq<char> {
    let a = if sstarts(s, S!("MAC")) { S!("MCC") + s.skip(3) } else { s };
    let b = if sstarts(a, S!("KN")) { S!("NN") + a.skip(2) } else { a };
    let c = if sstarts(b, S!("K")) { S!("C") + b.skip(1) } else { b };
    let d = if sstarts(c, S!("PH")) || sstarts(c, S!("PF")) { S!("FF") + c.skip(2) } else { c };
    if sstarts(d, S!("SCH")) { S!("SSS") + d.skip(3) } else { d }
}
pub open spec fn nysiis_tail(s: Seq<char>) -> Seq<char> {
    let a = if sends(s, S!("EE")) || sends(s, S!("IE")) { s.take(s.len() - 2) + S!("Y") } else { s };
    if sends(a, S!("DT")) || sends(a, S!("RT")) || sends(a, S!("RD")) || sends(a, S!("NT")) || sends(a, S!("ND")) { a.take(a.len() - 2) + S!("D") } else { a }
}
pub open spec fn nysiis_vowel(c: char) -> bool { is_vowel_spec(alow(c), false) }
// what the letter `c` turns into; '\0' stands for "no such letter"
pub open spec fn nysiis_trans(p: char, c: char, n: Option<char>, nn: Option<char>) -> Seq<char> {
    if c == 'E' && n == Some('V') { S!("AF") }
    else if nysiis_vowel(c) { S!("A") }
    else if c == 'Q' { S!("G") }
    else if c == 'Z' { S!("S") }
    else if c == 'M' { S!("N") }
    else if c == 'K' { if n == Some('N') { S!("NN") } else { S!("C") } }
    else if c == 'S' && n == Some('C') && nn == Some('H') { S!("SSS") }
    else if c == 'P' && n == Some('H') { S!("FF") }
    else if c == 'H' && !(nysiis_vowel(p) && opt_vowel(n)) { S!("").push(p) }
    else if c == 'W' && nysiis_vowel(p) { S!("").push(p) }
    else { S!("").push(c) }
}
pub open spec fn opt_vowel(n: Option<char>) -> bool { match n { Some(c) => nysiis_vowel(c), None => false } }
// step 2: every letter but the first is translated in place, and joins the key when it differs from its predecessor
pub open spec fn nysiis_rest(key: Seq<char>, p: char, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { key }
    else {
        let t = nysiis_trans(p, s[0], if s.len() > 1 { Some(s[1]) } else { None }, if s.len() > 2 { Some(s[2]) } else { None });
        let r = t + s.skip(t.len() as int);
        nysiis_rest(if p != r[0] { key.push(r[0]) } else { key }, r[0], if r.len() == s.len() && r.len() > 0 { r.skip(1) } else { S!("") })
    }
}
// step 3: a final S, then AY -> Y, then a final A
pub open spec fn nysiis_trim(k: Seq<char>) -> Seq<char> {
    if k.len() <= 1 { k }
    else {
        let a = if k.last() == 'S' { k.drop_last() } else { k };
        let b = if a.len() > 2 && sends(a, S!("AY")) { a.take(a.len() - 2) + S!("Y") } else { a };
        if b.len() > 0 && b.last() == 'A' { b.drop_last() } else { b }
    }
}
pub open spec fn nysiis_key(s: Seq<char>) -> Seq<char> {
    if s.len() == 0 { s }
    else {
        let t = nysiis_tail(nysiis_head(s));
        nysiis_trim(nysiis_rest(S!("").push(t[0]), t[0], t.skip(1)))
    }
}
pub open spec fn nysiis(strict: bool, s: Seq<char>) -> Seq<char> {
    let k = nysiis_key(clean(s));
    if strict && k.len() > 6 { k.take(6) } else { k }
}
