pub open spec fn cav_vowel(c: char) -> bool { one_of(c, "aeiou") }
// first letter: a vowel becomes 'A'
pub open spec fn cav_first(i: usize, c: char) -> char { if i == 0 && cav_vowel(c) { 'A' } else { c } }
pub open spec fn cav_vowels(s: Seq<char>) -> Seq<char> {
    smap(senum(0, smap(senum(0, s), |x: (usize, char)| cav_first(x.0, x.1))), |x: (usize, char)| if cav_vowel(x.1) { '3' } else { x.1 })
}
pub open spec fn cav_head(s: Seq<char>, p: Seq<char>, r: Seq<char>) -> Seq<char> { if sstarts(s, p) { r + s.skip(p.len() as int) } else { s } }
pub open spec fn cav_tail(s: Seq<char>, p: Seq<char>, r: Seq<char>) -> Seq<char> { if sends(s, p) { s.take(s.len() - p.len()) + r } else { s } }
// runs of one of the letters of `cs` become one upper-case letter
pub open spec fn cav_squeeze(out: Seq<char>, prev: Option<char>, cs: Seq<char>, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { out }
    else if !cs.contains(s[0]) { cav_squeeze(out.push(s[0]), None, cs, s.skip(1)) }
    else if prev == Some(s[0]) { cav_squeeze(out, prev, cs, s.skip(1)) }
    else { cav_squeeze(out.push(aup(s[0])), Some(s[0]), cs, s.skip(1)) }
}
pub open spec fn cav_letters(s: Seq<char>) -> Seq<char> { sfilter(slower(s), |c: char| is_az(c)) }
pub open spec fn cav_begin(s0: Seq<char>) -> Seq<char> {
    let s1 = cav_head(s0, S!("cough"), S!("cou2f"));
    let s2 = cav_head(s1, S!("rough"), S!("rou2f"));
    let s3 = cav_head(s2, S!("tough"), S!("tou2f"));
    cav_head(s3, S!("enough"), S!("enou2f"))
}
// the replacements shared by both revisions, up to the vowels
pub open spec fn cav_middle(s0: Seq<char>) -> Seq<char> {
    let s1 = sreplace(s0, S!("cq"), S!("2q"));
    let s2 = sreplace(s1, S!("ci"), S!("si"));
    let s3 = sreplace(s2, S!("ce"), S!("se"));
    let s4 = sreplace(s3, S!("cy"), S!("sy"));
    let s5 = sreplace(s4, S!("tch"), S!("2ch"));
    let s6 = sreplace(s5, S!("c"), S!("k"));
    let s7 = sreplace(s6, S!("q"), S!("k"));
    let s8 = sreplace(s7, S!("x"), S!("k"));
    let s9 = sreplace(s8, S!("v"), S!("f"));
    let s10 = sreplace(s9, S!("dg"), S!("2g"));
    let s11 = sreplace(s10, S!("tio"), S!("sio"));
    let s12 = sreplace(s11, S!("tia"), S!("sia"));
    let s13 = sreplace(s12, S!("d"), S!("t"));
    let s14 = sreplace(s13, S!("ph"), S!("fh"));
    let s15 = sreplace(s14, S!("b"), S!("p"));
    let s16 = sreplace(s15, S!("sh"), S!("s2"));
    let s17 = sreplace(s16, S!("z"), S!("s"));
    cav_vowels(s17)
}
pub open spec fn cav_gh(s: Seq<char>) -> Seq<char> {
    let s1 = sreplace(s, S!("3gh3"), S!("3kh3"));
    let s2 = sreplace(s1, S!("gh"), S!("22"));
    let s3 = sreplace(s2, S!("g"), S!("k"));
    cav_squeeze(S!(""), None, seq!['s', 't', 'p', 'k', 'f', 'm', 'n'], s3)
}
pub open spec fn cav_h(s: Seq<char>) -> Seq<char> { sreplace(cav_head(s, S!("h"), S!("A")), S!("h"), S!("2")) }
pub open spec fn caverphone1(s: Seq<char>) -> Seq<char> {
    if s.len() == 0 { S!("111111") } else {
        let a0 = cav_tail(cav_head(cav_begin(cav_letters(s)), S!("gn"), S!("2n")), S!("mb"), S!("m2"));
        let a1 = cav_gh(cav_middle(a0));
        let a2 = sreplace(a1, S!("w3"), S!("W3"));
        let a3 = sreplace(a2, S!("wy"), S!("Wy"));
        let a4 = sreplace(a3, S!("wh3"), S!("Wh3"));
        let a5 = sreplace(a4, S!("why"), S!("Why"));
        let a6 = sreplace(a5, S!("w"), S!("2"));
        let a7 = cav_h(a6);
        let a8 = sreplace(a7, S!("r3"), S!("R3"));
        let a9 = sreplace(a8, S!("ry"), S!("Ry"));
        let a10 = sreplace(a9, S!("r"), S!("2"));
        let a11 = sreplace(a10, S!("l3"), S!("L3"));
        let a12 = sreplace(a11, S!("ly"), S!("Ly"));
        let a13 = sreplace(a12, S!("l"), S!("2"));
        let a14 = sreplace(a13, S!("j"), S!("y"));
        let a15 = sreplace(a14, S!("y3"), S!("Y3"));
        let a16 = sreplace(a15, S!("y"), S!("2"));
        let a17 = sreplace(a16, S!("2"), S!(""));
        let a18 = sreplace(a17, S!("3"), S!(""));
        (a18 + S!("111111")).take(6)
    }
}
pub open spec fn caverphone2(s: Seq<char>) -> Seq<char> {
    if s.len() == 0 { S!("1111111111") } else {
        let b0 = cav_begin(cav_tail(cav_letters(s), S!("e"), S!("")));
        let b1 = cav_head(b0, S!("trough"), S!("trou2f"));
        let a0 = cav_tail(cav_head(b1, S!("gn"), S!("2n")), S!("mb"), S!("m2"));
        let c0 = sreplace(cav_middle(a0), S!("j"), S!("y"));
        let c1 = cav_head(c0, S!("y3"), S!("Y3"));
        let c2 = cav_head(c1, S!("y"), S!("A"));
        let a1 = cav_gh(sreplace(c2, S!("y"), S!("3")));
        let a2 = sreplace(a1, S!("w3"), S!("W3"));
        let a3 = sreplace(a2, S!("wh3"), S!("Wh3"));
        let a4 = cav_tail(a3, S!("w"), S!("3"));
        let a5 = sreplace(a4, S!("w"), S!("2"));
        let a6 = cav_h(a5);
        let a7 = sreplace(a6, S!("r3"), S!("R3"));
        let a8 = cav_tail(a7, S!("r"), S!("3"));
        let a9 = sreplace(a8, S!("r"), S!("2"));
        let a10 = sreplace(a9, S!("l3"), S!("L3"));
        let a11 = cav_tail(a10, S!("l"), S!("3"));
        let a12 = sreplace(a11, S!("l"), S!("2"));
        let a13 = sreplace(a12, S!("2"), S!(""));
        let a14 = cav_tail(a13, S!("3"), S!("A"));
        let a15 = sreplace(a14, S!("3"), S!(""));
        (a15 + S!("1111111111")).take(10)
    }
}
