// C17: the shape of the codes
pub proof fn lemma_shape_pad4(m: Seq<char>, code: Seq<char>)
    requires 1 <= code.len() <= 4, forall|i: int| 1 <= i < code.len() ==> #[trigger] code[i] == '0' || (m.contains(code[i]) && code[i] != '-')
    ensures pad4(code).len() == 4, pad4(code)[0] == code[0], forall|i: int| 1 <= i < 4 ==> #[trigger] pad4(code)[i] == '0' || (m.contains(pad4(code)[i]) && pad4(code)[i] != '-')
    decreases 4 - code.len()
{ if code.len() < 4 { lemma_shape_pad4(m, code.push('0')); } }
pub proof fn lemma_shape_soundex(m: Seq<char>, hw: bool, code: Seq<char>, prev: char, s: Seq<char>)
    requires m.len() == 26, 1 <= code.len() <= 4, forall|i: int| 1 <= i < code.len() ==> #[trigger] code[i] == '0' || (m.contains(code[i]) && code[i] != '-')
    ensures ({ let r = soundex_rest(m, hw, code, prev, s); r.len() == 4 && r[0] == code[0] && forall|i: int| 1 <= i < 4 ==> #[trigger] r[i] == '0' || (m.contains(r[i]) && r[i] != '-') })
    decreases s.len()
{
    reveal_with_fuel(soundex_rest, 2);
    if s.len() == 0 || code.len() >= 4 { lemma_shape_pad4(m, code); }
    else {
        let d = soundex_letter(m, s[0]);
        if !(hw && (s[0] == 'H' || s[0] == 'W')) && d != '-' {
            if d != '0' && d != prev { assert(is_AZ(s[0])); assert(m[(s[0] as u32) as int - 65] == d); assert(m.contains(d)); lemma_shape_soundex(m, hw, code.push(d), d, s.skip(1)); }
            else { lemma_shape_soundex(m, hw, code, d, s.skip(1)); }
        } else { lemma_shape_soundex(m, hw, code, prev, s.skip(1)); }
    }
}
pub proof fn c17_soundex(m: Seq<char>, hw: bool, s: Seq<char>)
    requires m.len() == 26
    ensures shape_soundex(m, s, soundex(m, hw, s))
{ if clean(s).len() > 0 { lemma_shape_soundex(m, hw, Seq::<char>::empty().push(clean(s)[0]), soundex_letter(m, clean(s)[0]), clean(s).skip(1)); } }
pub proof fn lemma_shape_refined(m: Seq<char>, code: Seq<char>, prev: Option<char>, s: Seq<char>)
    requires m.len() == 26, 1 <= code.len(), forall|i: int| 1 <= i < code.len() ==> m.contains(#[trigger] code[i])
    ensures ({ let r = refined_rest(m, code, prev, s); code.len() <= r.len() <= code.len() + s.len() && r[0] == code[0] && forall|i: int| 1 <= i < r.len() ==> m.contains(#[trigger] r[i]) })
    decreases s.len()
{
    reveal_with_fuel(refined_rest, 2);
    if s.len() > 0 {
        match refined_code(m, s[0]) {
            Some(d) => { assert(m[(s[0] as u32) as int - 65] == d); assert(m.contains(d)); lemma_shape_refined(m, if Some(d) == prev { code } else { code.push(d) }, Some(d), s.skip(1)); }
            None => { lemma_shape_refined(m, code, None, s.skip(1)); }
        }
    }
}
pub proof fn c17_refined(m: Seq<char>, s: Seq<char>)
    requires m.len() == 26
    ensures shape_refined(m, s, refined(m, s))
{ if clean(s).len() > 0 { lemma_shape_refined(m, Seq::<char>::empty().push(clean(s)[0]), None, clean(s)); } }
pub proof fn lemma_shape_cologne(buf: Seq<char>, last: char, p: char, s: Seq<char>)
    requires shape_cologne(buf)
    ensures shape_cologne(cologne_rest(buf, last, p, s))
    decreases s.len()
{
    reveal_with_fuel(cologne_rest, 2);
    if s.len() > 0 {
        if !is_AZ(s[0]) { lemma_shape_cologne(buf, last, p, s.skip(1)); }
        else {
            let n = if s.len() > 1 { s[1] } else { '-' };
            let d = cologne_digits(s[0], n, p, buf.len() == 0);
            assert(forall|i: int| 0 <= i < d.len() ==> one_of(#[trigger] d[i], "-012345678"));
            if d.len() == 0 { lemma_shape_cologne(buf, last, s[0], s.skip(1)); }
            else if d.len() == 1 { assert(one_of(d[0], "-012345678")); lemma_shape_cologne(cologne_put(buf, last, d[0]), d[0], s[0], s.skip(1)); }
            else { assert(one_of(d[0], "-012345678") && one_of(d[1], "-012345678")); lemma_shape_cologne(cologne_put(cologne_put(buf, last, d[0]), d[0], d[1]), d[1], s[0], s.skip(1)); }
        }
    }
}
pub proof fn c17_cologne(s: Seq<char>)
    ensures shape_cologne(cologne(s))
{ lemma_shape_cologne(Seq::<char>::empty(), '/', '-', cologne_prepare(s)); }

// ---- Caverphone: after each step, the characters that can be left ----
pub proof fn lemma_only_replace(s: Seq<char>, x: Seq<char>, r: Seq<char>, p: spec_fn(char) -> bool)
    requires only(s, p), only(r, p)
    ensures only(sreplace(s, x, r), p)
    decreases s.len()
{
    reveal_with_fuel(sreplace, 2);
    if x.len() > 0 && s.len() >= x.len() {
        if s.take(x.len() as int) == x {
            let t = s.skip(x.len() as int);
            assert(only(t, p)) by { assert forall|i: int| 0 <= i < t.len() implies p(#[trigger] t[i]) by { assert(t[i] == s[i + x.len()]); } }
            lemma_only_replace(t, x, r, p);
            lemma_only_add(r, sreplace(t, x, r), p);
        } else {
            let t = s.skip(1);
            assert(only(t, p)) by { assert forall|i: int| 0 <= i < t.len() implies p(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); } }
            lemma_only_replace(t, x, r, p);
            assert(only(seq![s[0]], p)) by { assert(p(s[0])); }
            lemma_only_add(seq![s[0]], sreplace(t, x, r), p);
        }
    }
}
pub proof fn lemma_only_add(a: Seq<char>, b: Seq<char>, p: spec_fn(char) -> bool)
    requires only(a, p), only(b, p)
    ensures only(a + b, p)
{ assert forall|i: int| 0 <= i < (a + b).len() implies p(#[trigger] (a + b)[i]) by { if i >= a.len() { assert((a + b)[i] == b[i - a.len()]); } else { assert((a + b)[i] == a[i]); } } }
pub proof fn lemma_only_part(s: Seq<char>, a: int, b: int, p: spec_fn(char) -> bool)
    requires only(s, p), 0 <= a <= s.len(), 0 <= b <= s.len()
    ensures only(s.skip(a), p), only(s.take(b), p)
{
    assert forall|i: int| 0 <= i < s.skip(a).len() implies p(#[trigger] s.skip(a)[i]) by { assert(s.skip(a)[i] == s[i + a]); }
    assert forall|i: int| 0 <= i < s.take(b).len() implies p(#[trigger] s.take(b)[i]) by { assert(s.take(b)[i] == s[i]); }
}
// a letter is replaced by others: it is gone
pub proof fn lemma_only_drop(s: Seq<char>, c: char, r: Seq<char>, p: spec_fn(char) -> bool, q: spec_fn(char) -> bool)
    requires only(s, p), only(r, q), forall|x: char| #[trigger] p(x) && x != c ==> q(x)
    ensures only(sreplace(s, seq![c], r), q)
    decreases s.len()
{
    reveal_with_fuel(sreplace, 2);
    if s.len() > 0 {
        let t = s.skip(1);
        lemma_only_part(s, 1, 0, p);
        lemma_only_drop(t, c, r, p, q);
        assert(s.take(1)[0] == s[0]); assert(seq![c][0] == c);
        if s.take(1) == seq![c] { lemma_only_add(r, sreplace(t, seq![c], r), q); }
        else {
            assert(s[0] != c) by { if s[0] == c { assert(s.take(1) =~= seq![c]); } }
            assert(p(s[0])); assert(only(seq![s[0]], q));
            lemma_only_add(seq![s[0]], sreplace(t, seq![c], r), q);
        }
    } else { assert(sreplace(s, seq![c], r) == s); }
}
pub proof fn lemma_only_head(s: Seq<char>, x: Seq<char>, r: Seq<char>, p: spec_fn(char) -> bool)
    requires only(s, p), only(r, p)
    ensures only(cav_head(s, x, r), p)
{ if sstarts(s, x) { lemma_only_part(s, x.len() as int, 0, p); lemma_only_add(r, s.skip(x.len() as int), p); } }
pub proof fn lemma_only_tail(s: Seq<char>, x: Seq<char>, r: Seq<char>, p: spec_fn(char) -> bool)
    requires only(s, p), only(r, p)
    ensures only(cav_tail(s, x, r), p)
{ if sends(s, x) { lemma_only_part(s, 0, s.len() - x.len(), p); lemma_only_add(s.take(s.len() - x.len()), r, p); } }
pub proof fn lemma_only_vowels(s: Seq<char>, p: spec_fn(char) -> bool, q: spec_fn(char) -> bool)
    requires only(s, p), q('A'), q('3'), forall|x: char| #[trigger] p(x) && !cav_vowel(x) ==> q(x)
    ensures only(cav_vowels(s), q)
{
    let t = cav_vowels(s);
    assert forall|i: int| 0 <= i < t.len() implies q(#[trigger] t[i]) by { assert(p(s[i])); }
}
pub proof fn lemma_only_squeeze(out: Seq<char>, prev: Option<char>, cs: Seq<char>, s: Seq<char>, p: spec_fn(char) -> bool, q: spec_fn(char) -> bool)
    requires only(out, q), only(s, p), forall|x: char| #[trigger] p(x) && !cs.contains(x) ==> q(x), forall|x: char| #[trigger] cs.contains(x) ==> q(aup(x))
    ensures only(cav_squeeze(out, prev, cs, s), q)
    decreases s.len()
{
    reveal_with_fuel(cav_squeeze, 2);
    if s.len() > 0 {
        lemma_only_part(s, 1, 0, p);
        assert(p(s[0]));
        if !cs.contains(s[0]) { lemma_only_squeeze(out.push(s[0]), None, cs, s.skip(1), p, q); }
        else if prev == Some(s[0]) { lemma_only_squeeze(out, prev, cs, s.skip(1), p, q); }
        else { lemma_only_squeeze(out.push(aup(s[0])), Some(s[0]), cs, s.skip(1), p, q); }
    }
}
pub proof fn lemma_only_filter(s: Seq<char>, f: spec_fn(char) -> bool)
    ensures only(sfilter(s, f), f)
    decreases s.len()
{ reveal_with_fuel(sfilter, 2); if s.len() > 0 { lemma_only_filter(s.skip(1), f); if f(s[0]) { lemma_only_add(seq![s[0]], sfilter(s.skip(1), f), f); } } }
pub open spec fn cav_marks(c: char) -> bool { is_AZ(c) || c == '2' || c == '3' }
pub open spec fn cav_any(c: char) -> bool { cav_marks(c) || is_az(c) }
// what is left after the vowels, and after GH
pub open spec fn cav_mid(c: char) -> bool { cav_marks(c) || one_of(c, "fghjklmnprstwy") }
pub proof fn lemma_only_begin(s: Seq<char>)
    requires only(s, |c: char| cav_any(c))
    ensures only(cav_begin(s), |c: char| cav_any(c))
{
    let p = |c: char| cav_any(c);
    lemma_only_head(s, S!("cough"), S!("cou2f"), p);
    let s1 = cav_head(s, S!("cough"), S!("cou2f"));
    lemma_only_head(s1, S!("rough"), S!("rou2f"), p);
    let s2 = cav_head(s1, S!("rough"), S!("rou2f"));
    lemma_only_head(s2, S!("tough"), S!("tou2f"), p);
    lemma_only_head(cav_head(s2, S!("tough"), S!("tou2f")), S!("enough"), S!("enou2f"), p);
}
pub proof fn lemma_only_middle(s0: Seq<char>)
    requires only(s0, |c: char| cav_any(c))
    ensures only(cav_middle(s0), |c: char| cav_mid(c))
{
    let p0 = |c: char| cav_any(c);
    let p1 = |c: char| cav_any(c) && c != 'c';
    let p2 = |c: char| cav_any(c) && !one_of(c, "cq");
    let p3 = |c: char| cav_any(c) && !one_of(c, "cqx");
    let p4 = |c: char| cav_any(c) && !one_of(c, "cqxv");
    let p5 = |c: char| cav_any(c) && !one_of(c, "cqxvd");
    let p6 = |c: char| cav_any(c) && !one_of(c, "cqxvdb");
    let p7 = |c: char| cav_any(c) && !one_of(c, "cqxvdbz");
    let p8 = |c: char| cav_mid(c);
    let s1 = sreplace(s0, S!("cq"), S!("2q")); lemma_only_replace(s0, S!("cq"), S!("2q"), p0);
    let s2 = sreplace(s1, S!("ci"), S!("si")); lemma_only_replace(s1, S!("ci"), S!("si"), p0);
    let s3 = sreplace(s2, S!("ce"), S!("se")); lemma_only_replace(s2, S!("ce"), S!("se"), p0);
    let s4 = sreplace(s3, S!("cy"), S!("sy")); lemma_only_replace(s3, S!("cy"), S!("sy"), p0);
    let s5 = sreplace(s4, S!("tch"), S!("2ch")); lemma_only_replace(s4, S!("tch"), S!("2ch"), p0);
    let s6 = sreplace(s5, S!("c"), S!("k")); lemma_only_drop(s5, 'c', S!("k"), p0, p1);
    let s7 = sreplace(s6, S!("q"), S!("k")); lemma_only_drop(s6, 'q', S!("k"), p1, p2);
    let s8 = sreplace(s7, S!("x"), S!("k")); lemma_only_drop(s7, 'x', S!("k"), p2, p3);
    let s9 = sreplace(s8, S!("v"), S!("f")); lemma_only_drop(s8, 'v', S!("f"), p3, p4);
    let s10 = sreplace(s9, S!("dg"), S!("2g")); lemma_only_replace(s9, S!("dg"), S!("2g"), p4);
    let s11 = sreplace(s10, S!("tio"), S!("sio")); lemma_only_replace(s10, S!("tio"), S!("sio"), p4);
    let s12 = sreplace(s11, S!("tia"), S!("sia")); lemma_only_replace(s11, S!("tia"), S!("sia"), p4);
    let s13 = sreplace(s12, S!("d"), S!("t")); lemma_only_drop(s12, 'd', S!("t"), p4, p5);
    let s14 = sreplace(s13, S!("ph"), S!("fh")); lemma_only_replace(s13, S!("ph"), S!("fh"), p5);
    let s15 = sreplace(s14, S!("b"), S!("p")); lemma_only_drop(s14, 'b', S!("p"), p5, p6);
    let s16 = sreplace(s15, S!("sh"), S!("s2")); lemma_only_replace(s15, S!("sh"), S!("s2"), p6);
    let s17 = sreplace(s16, S!("z"), S!("s")); lemma_only_drop(s16, 'z', S!("s"), p6, p7);
    lemma_only_vowels(s17, p7, p8);
}
pub proof fn lemma_only_gh(s: Seq<char>, p: spec_fn(char) -> bool, q: spec_fn(char) -> bool)
    requires only(s, p), forall|x: char| #[trigger] p(x) ==> cav_mid(x), p('3'), p('2'), p('k'), p('h'),
        forall|x: char| #[trigger] p(x) && !one_of(x, "gstpkfmn") ==> q(x), q('S'), q('T'), q('P'), q('K'), q('F'), q('M'), q('N')
    ensures only(cav_gh(s), q)
{
    let p1 = |c: char| p(c) && c != 'g';
    let s1 = sreplace(s, S!("3gh3"), S!("3kh3")); lemma_only_replace(s, S!("3gh3"), S!("3kh3"), p);
    let s2 = sreplace(s1, S!("gh"), S!("22")); lemma_only_replace(s1, S!("gh"), S!("22"), p);
    let s3 = sreplace(s2, S!("g"), S!("k")); lemma_only_drop(s2, 'g', S!("k"), p, p1);
    let cs = seq!['s', 't', 'p', 'k', 'f', 'm', 'n'];
    assert(cs[0] == 's' && cs[1] == 't' && cs[2] == 'p' && cs[3] == 'k' && cs[4] == 'f' && cs[5] == 'm' && cs[6] == 'n');
    assert forall|x: char| #[trigger] p1(x) && !cs.contains(x) implies q(x) by { assert(cs.contains(cs[0]) && cs.contains(cs[1]) && cs.contains(cs[2]) && cs.contains(cs[3]) && cs.contains(cs[4]) && cs.contains(cs[5]) && cs.contains(cs[6])); }
    assert forall|x: char| #[trigger] cs.contains(x) implies q(aup(x)) by { assert(one_of(x, "stpkfmn")); assert(aup('s') == 'S' && aup('t') == 'T' && aup('p') == 'P' && aup('k') == 'K' && aup('f') == 'F' && aup('m') == 'M' && aup('n') == 'N'); }
    lemma_only_squeeze(S!(""), None, cs, s3, p1, q);
}
pub proof fn lemma_only_letters(s: Seq<char>)
    ensures only(cav_letters(s), |c: char| cav_any(c))
{ let f = |c: char| is_az(c); lemma_only_filter(slower(s), f); let t = cav_letters(s); assert forall|i: int| 0 <= i < t.len() implies cav_any(#[trigger] t[i]) by { assert(f(sfilter(slower(s), f)[i])); } }
pub proof fn lemma_only_a0(s: Seq<char>)
    requires only(s, |c: char| cav_any(c))
    ensures only(cav_tail(cav_head(s, S!("gn"), S!("2n")), S!("mb"), S!("m2")), |c: char| cav_any(c))
{ let p = |c: char| cav_any(c); lemma_only_head(s, S!("gn"), S!("2n"), p); lemma_only_tail(cav_head(s, S!("gn"), S!("2n")), S!("mb"), S!("m2"), p); }
pub proof fn lemma_shape_pad(a: Seq<char>, ones: Seq<char>, n: int)
    requires only(a, |c: char| is_AZ(c)), ones.len() == n, only(ones, |c: char| c == '1')
    ensures shape_caverphone(n, (a + ones).take(n))
{
    let f = |c: char| is_AZ(c); let g = |c: char| c == '1';
    let r = (a + ones).take(n);
    assert forall|i: int| 0 <= i < n implies is_AZ(#[trigger] r[i]) || r[i] == '1' by { if i < a.len() { assert(f(a[i])); } else { assert(g(ones[i - a.len()])); } }
}
pub proof fn lemma_only_h(s: Seq<char>, p: spec_fn(char) -> bool, q: spec_fn(char) -> bool)
    requires only(s, p), p('A'), q('2'), forall|x: char| #[trigger] p(x) && x != 'h' ==> q(x)
    ensures only(cav_h(s), q)
{ lemma_only_head(s, S!("h"), S!("A"), p); lemma_only_drop(cav_head(s, S!("h"), S!("A")), 'h', S!("2"), p, q); }
pub proof fn c17_caverphone1(s: Seq<char>)
    ensures shape_caverphone(6, caverphone1(s))
{
    if s.len() > 0 {
        let p = |c: char| cav_mid(c);
        let q0 = |c: char| cav_marks(c) || one_of(c, "hjlrwy");
        let q1 = |c: char| cav_marks(c) || one_of(c, "hjlry");
        let q2 = |c: char| cav_marks(c) || one_of(c, "jlry");
        let q3 = |c: char| cav_marks(c) || one_of(c, "jly");
        let q4 = |c: char| cav_marks(c) || one_of(c, "jy");
        let q5 = |c: char| cav_marks(c) || c == 'y';
        let q6 = |c: char| cav_marks(c);
        let q7 = |c: char| is_AZ(c) || c == '3';
        let q8 = |c: char| is_AZ(c);
        lemma_only_letters(s); lemma_only_begin(cav_letters(s)); lemma_only_a0(cav_begin(cav_letters(s)));
        let a0 = cav_tail(cav_head(cav_begin(cav_letters(s)), S!("gn"), S!("2n")), S!("mb"), S!("m2"));
        lemma_only_middle(a0);
        let a1 = cav_gh(cav_middle(a0)); lemma_only_gh(cav_middle(a0), p, q0);
        let a2 = sreplace(a1, S!("w3"), S!("W3")); lemma_only_replace(a1, S!("w3"), S!("W3"), q0);
        let a3 = sreplace(a2, S!("wy"), S!("Wy")); lemma_only_replace(a2, S!("wy"), S!("Wy"), q0);
        let a4 = sreplace(a3, S!("wh3"), S!("Wh3")); lemma_only_replace(a3, S!("wh3"), S!("Wh3"), q0);
        let a5 = sreplace(a4, S!("why"), S!("Why")); lemma_only_replace(a4, S!("why"), S!("Why"), q0);
        let a6 = sreplace(a5, S!("w"), S!("2")); lemma_only_drop(a5, 'w', S!("2"), q0, q1);
        let a7 = cav_h(a6); lemma_only_h(a6, q1, q2);
        let a8 = sreplace(a7, S!("r3"), S!("R3")); lemma_only_replace(a7, S!("r3"), S!("R3"), q2);
        let a9 = sreplace(a8, S!("ry"), S!("Ry")); lemma_only_replace(a8, S!("ry"), S!("Ry"), q2);
        let a10 = sreplace(a9, S!("r"), S!("2")); lemma_only_drop(a9, 'r', S!("2"), q2, q3);
        let a11 = sreplace(a10, S!("l3"), S!("L3")); lemma_only_replace(a10, S!("l3"), S!("L3"), q3);
        let a12 = sreplace(a11, S!("ly"), S!("Ly")); lemma_only_replace(a11, S!("ly"), S!("Ly"), q3);
        let a13 = sreplace(a12, S!("l"), S!("2")); lemma_only_drop(a12, 'l', S!("2"), q3, q4);
        let a14 = sreplace(a13, S!("j"), S!("y")); lemma_only_drop(a13, 'j', S!("y"), q4, q5);
        let a15 = sreplace(a14, S!("y3"), S!("Y3")); lemma_only_replace(a14, S!("y3"), S!("Y3"), q5);
        let a16 = sreplace(a15, S!("y"), S!("2")); lemma_only_drop(a15, 'y', S!("2"), q5, q6);
        let a17 = sreplace(a16, S!("2"), S!("")); lemma_only_drop(a16, '2', S!(""), q6, q7);
        let a18 = sreplace(a17, S!("3"), S!("")); lemma_only_drop(a17, '3', S!(""), q7, q8);
        lemma_shape_pad(a18, S!("111111"), 6);
    }
}
pub proof fn c17_caverphone2(s: Seq<char>)
    ensures shape_caverphone(10, caverphone2(s))
{
    if s.len() > 0 {
        let p0 = |c: char| cav_any(c);
        let p1 = |c: char| cav_mid(c);
        let p2 = |c: char| cav_mid(c) && c != 'j';
        let p3 = |c: char| cav_mid(c) && c != 'j' && c != 'y';
        let q0 = |c: char| cav_marks(c) || one_of(c, "hlrw");
        let q1 = |c: char| cav_marks(c) || one_of(c, "hlr");
        let q2 = |c: char| cav_marks(c) || one_of(c, "lr");
        let q3 = |c: char| cav_marks(c) || c == 'l';
        let q6 = |c: char| cav_marks(c);
        let q7 = |c: char| is_AZ(c) || c == '3';
        let q8 = |c: char| is_AZ(c);
        lemma_only_letters(s); lemma_only_tail(cav_letters(s), S!("e"), S!(""), p0);
        let b = cav_tail(cav_letters(s), S!("e"), S!("")); lemma_only_begin(b);
        let b0 = cav_begin(b);
        let b1 = cav_head(b0, S!("trough"), S!("trou2f")); lemma_only_head(b0, S!("trough"), S!("trou2f"), p0);
        lemma_only_a0(b1);
        let a0 = cav_tail(cav_head(b1, S!("gn"), S!("2n")), S!("mb"), S!("m2"));
        lemma_only_middle(a0);
        let c0 = sreplace(cav_middle(a0), S!("j"), S!("y")); lemma_only_drop(cav_middle(a0), 'j', S!("y"), p1, p2);
        let c1 = cav_head(c0, S!("y3"), S!("Y3")); lemma_only_head(c0, S!("y3"), S!("Y3"), p2);
        let c2 = cav_head(c1, S!("y"), S!("A")); lemma_only_head(c1, S!("y"), S!("A"), p2);
        let c3 = sreplace(c2, S!("y"), S!("3")); lemma_only_drop(c2, 'y', S!("3"), p2, p3);
        let a1 = cav_gh(c3); lemma_only_gh(c3, p3, q0);
        let a2 = sreplace(a1, S!("w3"), S!("W3")); lemma_only_replace(a1, S!("w3"), S!("W3"), q0);
        let a3 = sreplace(a2, S!("wh3"), S!("Wh3")); lemma_only_replace(a2, S!("wh3"), S!("Wh3"), q0);
        let a4 = cav_tail(a3, S!("w"), S!("3")); lemma_only_tail(a3, S!("w"), S!("3"), q0);
        let a5 = sreplace(a4, S!("w"), S!("2")); lemma_only_drop(a4, 'w', S!("2"), q0, q1);
        let a6 = cav_h(a5); lemma_only_h(a5, q1, q2);
        let a7 = sreplace(a6, S!("r3"), S!("R3")); lemma_only_replace(a6, S!("r3"), S!("R3"), q2);
        let a8 = cav_tail(a7, S!("r"), S!("3")); lemma_only_tail(a7, S!("r"), S!("3"), q2);
        let a9 = sreplace(a8, S!("r"), S!("2")); lemma_only_drop(a8, 'r', S!("2"), q2, q3);
        let a10 = sreplace(a9, S!("l3"), S!("L3")); lemma_only_replace(a9, S!("l3"), S!("L3"), q3);
        let a11 = cav_tail(a10, S!("l"), S!("3")); lemma_only_tail(a10, S!("l"), S!("3"), q3);
        let a12 = sreplace(a11, S!("l"), S!("2")); lemma_only_drop(a11, 'l', S!("2"), q3, q6);
        let a13 = sreplace(a12, S!("2"), S!("")); lemma_only_drop(a12, '2', S!(""), q6, q7);
        let a14 = cav_tail(a13, S!("3"), S!("A")); lemma_only_tail(a13, S!("3"), S!("A"), q7);
        let a15 = sreplace(a14, S!("3"), S!("")); lemma_only_drop(a14, '3', S!(""), q7, q8);
        lemma_shape_pad(a15, S!("1111111111"), 10);
    }
}
// ---- NYSIIS ----
pub proof fn lemma_shape_nysiis(key: Seq<char>, p: char, s: Seq<char>)
    ensures nysiis_rest(key, p, s).len() <= key.len() + s.len()
    decreases s.len()
{
    reveal_with_fuel(nysiis_rest, 2);
    if s.len() > 0 {
        let t = nysiis_trans(p, s[0], if s.len() > 1 { Some(s[1]) } else { None }, if s.len() > 2 { Some(s[2]) } else { None });
        let r = t + s.skip(t.len() as int);
        assert(1 <= t.len() <= s.len());
        lemma_shape_nysiis(if p != r[0] { key.push(r[0]) } else { key }, r[0], if r.len() == s.len() && r.len() > 0 { r.skip(1) } else { S!("") });
    }
}
pub proof fn c17_nysiis(strict: bool, s: Seq<char>)
    ensures shape_nysiis(strict, s, nysiis(strict, s))
{
    let c = clean(s);
    if c.len() > 0 {
        let t = nysiis_tail(nysiis_head(c));
        assert(nysiis_head(c).len() == c.len());
        assert(1 <= t.len() <= c.len());
        lemma_shape_nysiis(S!("").push(t[0]), t[0], t.skip(1));
    }
}
// ---- Phonex ----
pub open spec fn phonex_digits(s: Seq<char>) -> bool { forall|i: int| 1 <= i < s.len() ==> one_of(#[trigger] s[i], "0123456") }
pub proof fn lemma_shape_pad0(s: Seq<char>, n: int)
    requires phonex_digits(s), s.len() <= n
    ensures phonex_digits(pad0(s, n)), pad0(s, n).len() == n
    decreases n - s.len()
{ if s.len() < n { lemma_shape_pad0(s.push('0'), n); } }
pub proof fn lemma_shape_phonex(max: int, res: Seq<char>, code: char, last: char, pushed: char, first: bool, s: Seq<char>)
    requires phonex_digits(res), res.len() <= max, one_of(code, "0123456"), first ==> res.len() == 0
    ensures phonex_digits(phonex_rest(max, res, code, last, pushed, first, s)), phonex_rest(max, res, code, last, pushed, first, s).len() == max
    decreases s.len()
{
    reveal_with_fuel(phonex_rest, 2);
    if s.len() == 0 || res.len() == max { lemma_shape_pad0(res, max); }
    else {
        let r1 = if first { res.push(s[0]) } else { res };
        let p1 = if first { s[0] } else { pushed };
        let n = if s.len() > 1 { Some(s[1]) } else { None };
        let c1 = match phonex_digit(s[0], n, s.len() == 1) { Some(d) => d, None => code };
        let sk = phonex_skips(s[0], n);
        let f = first && !sk;
        let add = last != c1 && c1 != '0' && !f && r1.len() < max;
        let r2 = if add { r1.push(c1) } else { r1 };
        let p2 = if add { c1 } else { p1 };
        lemma_shape_phonex(max, r2, c1, if f { c1 } else { p2 }, p2, false, if sk { s.skip(2) } else { s.skip(1) });
    }
}
pub proof fn c17_phonex(max: int, s: Seq<char>)
    requires 0 <= max
    ensures shape_phonex(max, phonex(max, s))
{ lemma_shape_phonex(max, S!(""), '0', '0', '0', true, phonex_pre(s)); }
// ---- Metaphone ----
pub open spec fn meta_abc(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> one_of(#[trigger] s[i], "0AEIOUBFHJKLMNPRSTWXY") }
pub proof fn lemma_shape_metaphone(max: Option<usize>, w: Seq<char>, i: int, skip: int, code: Seq<char>)
    requires meta_abc(code), 0 <= i <= w.len(), match max { Some(m) => code.len() <= m as int, None => true }
    ensures ({ let r = meta_rest(max, w, i, skip, code); meta_abc(r) && r.len() <= code.len() + 2 * (w.len() - i) && (match max { Some(m) => r.len() <= m as int, None => true }) })
    decreases w.len() - i
{
    reveal_with_fuel(meta_rest, 2);
    if i < w.len() {
        if skip > 0 { lemma_shape_metaphone(max, w, i + 1, skip - 1, code); }
        else if !meta_full(max, code) {
            let t = meta_adds(w, i);
            assert(t.len() <= 2 && meta_abc(t));
            assert(meta_abc(code + t));
            lemma_shape_metaphone(max, w, i + 1, meta_skip(w, i), meta_cut(max, code + t));
        }
    }
}
pub proof fn c17_metaphone(max: Option<usize>, s: Seq<char>)
    ensures shape_metaphone(max, s, metaphone(max, s))
{ if supper(s).len() != 1 { lemma_shape_metaphone(max, meta_head(supper(s)), 0, 0, S!("")); } }
// ---- Double Metaphone ----
pub open spec fn dm_abcs(t: (Seq<char>, Seq<char>, int)) -> bool { dm_abc(t.0, false) && dm_abc(t.1, true) }
pub proof fn lemma_shape_dm_ch(w: Seq<char>, i: int) ensures dm_abcs(dm_ch(w, i)) { hide(dm_ch_greek); hide(dm_ch_germanic); }
pub proof fn lemma_shape_dm_cc(w: Seq<char>, i: int) ensures dm_abcs(dm_cc(w, i)) { }
pub proof fn lemma_shape_dm_c(w: Seq<char>, i: int) ensures dm_abcs(dm_c(w, i)) { hide(dm_c_as_in_bacher); hide(dm_ch); hide(dm_cc); lemma_shape_dm_ch(w, i); lemma_shape_dm_cc(w, i); }
pub proof fn lemma_shape_dm_gh(w: Seq<char>, i: int) ensures dm_abcs(dm_gh(w, i)) { }
pub proof fn lemma_shape_dm_g(w: Seq<char>, i: int, v: bool) ensures dm_abcs(dm_g(w, i, v)) { hide(dm_gh); hide(dm_g_initial); hide(dm_germanic); lemma_shape_dm_gh(w, i); }
pub proof fn lemma_shape_dm_sc(w: Seq<char>, i: int) ensures dm_abcs(dm_sc(w, i)) { }
pub proof fn lemma_shape_dm_s(w: Seq<char>, i: int, v: bool) ensures dm_abcs(dm_s(w, i, v)) { hide(dm_sc); lemma_shape_dm_sc(w, i); }
pub proof fn lemma_shape_dm_step(w: Seq<char>, i: int, v: bool)
    requires 0 <= i < w.len()
    ensures dm_abcs(dm_step(w, i, v))
{
    hide(dm_c); hide(dm_g); hide(dm_s); hide(dm_germanic); hide(dm_m_one_more);
    lemma_shape_dm_c(w, i); lemma_shape_dm_g(w, i, v); lemma_shape_dm_s(w, i, v);
}
pub proof fn lemma_shape_dm(max: Option<usize>, w: Seq<char>, i: int, v: bool, p: Seq<char>, a: Seq<char>)
    requires dm_abc(p, false), dm_abc(a, true), match max { Some(m) => p.len() <= m as int && a.len() <= m as int, None => true }
    ensures shape_double_metaphone(max, dm_rest(max, w, i, v, p, a))
    decreases (if i < w.len() { w.len() - i } else { 0 })
{
    hide(dm_step);
    reveal_with_fuel(dm_rest, 2);
    if 0 <= i < w.len() && !(dm_full(max, p) && dm_full(max, a)) {
        let t = dm_step(w, i, v);
        lemma_shape_dm_step(w, i, v);
        if t.2 >= 0 {
            assert(dm_abc(p + t.0, false)); assert(dm_abc(a + t.1, true));
            lemma_shape_dm(max, w, i + 1 + t.2, v, dm_cut(max, p + t.0), dm_cut(max, a + t.1));
        }
    }
}
pub proof fn c17_double_metaphone(max: Option<usize>, s: Seq<char>)
    ensures shape_double_metaphone(max, double_metaphone(max, s))
{ let w = supper(strim(s)); lemma_shape_dm(max, w, if dm_silent(w) { 1int } else { 0int }, dm_slavo(w), S!(""), S!("")); }
pub proof fn c17_mra(s: Seq<char>)
    ensures shape_mra(mra(s))
{ }
// ---- Daitch-Mokotoff ----
pub proof fn lemma_shape_dam_pad(s: Seq<char>)
    requires s.len() <= 6
    ensures dam_pad(s).len() == 6
    decreases 6 - s.len()
{ if s.len() < 6 { lemma_shape_dam_pad(s.push('0')); } }
pub open spec fn dam_branches(bs: Seq<(Seq<char>, Option<Seq<char>>)>) -> bool { bs.len() > 0 && dam_short(bs) }
pub open spec fn dam_short(bs: Seq<(Seq<char>, Option<Seq<char>>)>) -> bool { forall|i: int| 0 <= i < bs.len() ==> (#[trigger] bs[i]).0.len() <= 6 }
pub proof fn lemma_shape_dam_fan(acc: Seq<(Seq<char>, Option<Seq<char>>)>, b: (Seq<char>, Option<Seq<char>>), reps: Seq<Seq<char>>, force: bool, all: bool)
    requires dam_short(acc), b.0.len() <= 6
    ensures dam_short(dam_fan(acc, b, reps, force, all)), dam_fan(acc, b, reps, force, all).len() >= acc.len(), reps.len() > 0 ==> dam_fan(acc, b, reps, force, all).len() > 0
    decreases reps.len()
{
    reveal_with_fuel(dam_fan, 2);
    if reps.len() > 0 {
        let x = dam_step(b, reps[0], force);
        assert(x.0.len() <= 6);
        lemma_shape_dam_add(acc, x);
        if all { lemma_shape_dam_fan(dam_add(acc, x), b, reps.skip(1), force, all); }
    }
}
pub proof fn lemma_shape_dam_add(acc: Seq<(Seq<char>, Option<Seq<char>>)>, x: (Seq<char>, Option<Seq<char>>))
    requires dam_short(acc), x.0.len() <= 6
    ensures dam_branches(dam_add(acc, x)), dam_add(acc, x).len() >= acc.len()
{ if acc.len() == 0 { assert(!dam_has(acc, x.0)); } }
pub proof fn lemma_shape_dam_next(acc: Seq<(Seq<char>, Option<Seq<char>>)>, bs: Seq<(Seq<char>, Option<Seq<char>>)>, reps: Seq<Seq<char>>, force: bool, all: bool)
    requires dam_short(acc), dam_short(bs), reps.len() > 0
    ensures dam_short(dam_next(acc, bs, reps, force, all)), bs.len() > 0 || acc.len() > 0 ==> dam_next(acc, bs, reps, force, all).len() > 0
    decreases bs.len()
{
    reveal_with_fuel(dam_next, 2);
    if bs.len() > 0 {
        lemma_shape_dam_fan(acc, bs[0], reps, force, all);
        assert forall|i: int| 0 <= i < bs.skip(1).len() implies (#[trigger] bs.skip(1)[i]).0.len() <= 6 by { assert(bs[i + 1].0.len() <= 6); }
        lemma_shape_dam_next(dam_fan(acc, bs[0], reps, force, all), bs.skip(1), reps, force, all);
    }
}
pub proof fn lemma_shape_dam_find(rules: Seq<DmRule>, s: Seq<char>)
    ensures dam_find(rules, s) is Some ==> rules.contains(dam_find(rules, s)->Some_0)
    decreases rules.len()
{ reveal_with_fuel(dam_find, 2); if rules.len() > 0 { if sstarts(s, rules[0].p) { assert(rules.contains(rules[0])); } else { lemma_shape_dam_find(rules.skip(1), s); if dam_find(rules.skip(1), s) is Some { let r = dam_find(rules.skip(1), s)->Some_0; let k = choose|k: int| 0 <= k < rules.skip(1).len() && rules.skip(1)[k] == r; assert(rules[k + 1] == r); } } } }
pub proof fn lemma_shape_dam_walk(t: Map<char, Seq<DmRule>>, s: Seq<char>, last: char, bs: Seq<(Seq<char>, Option<Seq<char>>)>, all: bool)
    requires dam_table(t), dam_branches(bs)
    ensures dam_branches(dam_walk(t, s, last, bs, all))
    decreases s.len()
{
    reveal_with_fuel(dam_walk, 2);
    if s.len() > 0 {
        if !t.contains_key(s[0]) { lemma_shape_dam_walk(t, s.skip(1), last, bs, all); }
        else {
            match dam_find(t[s[0]], s) {
                None => { lemma_shape_dam_walk(t, s.skip(1), s[0], bs, all); }
                Some(r) => {
                    lemma_shape_dam_find(t[s[0]], s);
                    let k = choose|k: int| 0 <= k < t[s[0]].len() && t[s[0]][k] == r;
                    assert(dam_full(t[s[0]][k]));
                    let force = (last == 'm' && s[0] == 'n') || (last == 'n' && s[0] == 'm');
                    lemma_shape_dam_next(Seq::empty(), bs, dam_reps(r, s, last == '\0'), force, all);
                    lemma_shape_dam_walk(t, s.skip(dam_skip(r, s)), s[0], dam_next(Seq::empty(), bs, dam_reps(r, s, last == '\0'), force, all), all);
                }
            }
        }
    }
}
pub proof fn c17_daitch_mokotoff(t: Map<char, Seq<DmRule>>, folding: bool, f: Map<char, char>, s: Seq<char>, all: bool)
    requires dam_table(t)
    ensures shape_daitch_mokotoff(dam_codes(t, folding, f, s, all)), dam_encode(t, folding, f, s).len() == 6
    decreases (if all { 1int } else { 0int })
{
    let bs = seq![(Seq::<char>::empty(), None::<Seq<char>>)];
    let w = dam_walk(t, dam_clean(folding, f, s), '\0', bs, all);
    lemma_shape_dam_walk(t, dam_clean(folding, f, s), '\0', bs, all);
    let c = dam_codes(t, folding, f, s, all);
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).len() == 6 by { assert(w[i].0.len() <= 6); lemma_shape_dam_pad(w[i].0); }
    if all { c17_daitch_mokotoff(t, folding, f, s, false); }
    else { assert(c[0].len() == 6); }
}
// the rules of a text are such
pub proof fn lemma_shape_dam_split(s: Seq<char>, c: char) ensures ssplit(s, c).len() > 0 decreases s.len() { reveal_with_fuel(ssplit, 2); if s.len() > 0 { lemma_shape_dam_split(s.skip(1), c); } }
pub proof fn lemma_shape_dam_read(s: Seq<char>, line: int, rules: Map<char, Seq<DmRule>>, fold: Map<char, char>)
    requires dam_table(rules)
    ensures dam_table(dam_read(s, line, rules, fold).rules)
    decreases s.len()
{
    reveal_with_fuel(dam_read, 2);
    if s.len() == 0 { }
    else if let Some((q, r)) = p_quad(s) {
        if q.0.len() > 0 && r.len() < s.len() {
            let x = dam_rule(q);
            lemma_shape_dam_split(q.1, '|'); lemma_shape_dam_split(q.2, '|'); lemma_shape_dam_split(q.3, '|');
            assert(dam_full(x));
            let t = dam_put(rules, x);
            assert forall|c: char, i: int| t.contains_key(c) && 0 <= i < t[c].len() implies dam_full(#[trigger] t[c][i]) by {
                if c == x.p[0] { if rules.contains_key(c) { if i < rules[c].len() { assert(dam_full(rules[c][i])); } } }
                else { assert(rules.contains_key(c)); assert(dam_full(rules[c][i])); }
            }
            lemma_shape_dam_read(r, line + 1, t, fold);
        }
    }
    else if let Some((f, r)) = p_fold(s) { if r.len() < s.len() { lemma_shape_dam_read(r, line + 1, rules, fold.insert(f.0, f.1)); } }
    else if let Some(r) = p_eol(s) { if r.len() < s.len() { lemma_shape_dam_read(r, line + 1, rules, fold); } }
    else if let Some((n, r)) = p_comment(s) { if r.len() < s.len() { lemma_shape_dam_read(r, line + n, rules, fold); } }
}
pub proof fn lemma_shape_dam_insert(s: Seq<DmRule>, x: DmRule, key: spec_fn(DmRule) -> int)
    requires forall|i: int| 0 <= i < s.len() ==> dam_full(#[trigger] s[i]), dam_full(x)
    ensures forall|i: int| 0 <= i < sinsert(s, x, key).len() ==> dam_full(#[trigger] sinsert(s, x, key)[i])
    decreases s.len()
{ reveal_with_fuel(sinsert, 2); if s.len() > 0 && key(s.last()) > key(x) { lemma_shape_dam_insert(s.drop_last(), x, key); assert(dam_full(s[s.len() - 1])); let r = sinsert(s.drop_last(), x, key); assert(sinsert(s, x, key) == r.push(s.last())); assert forall|i: int| 0 <= i < sinsert(s, x, key).len() implies dam_full(#[trigger] sinsert(s, x, key)[i]) by { if i < r.len() { assert(dam_full(r[i])); } } } }
pub proof fn lemma_shape_dam_stable(s: Seq<DmRule>, key: spec_fn(DmRule) -> int)
    requires forall|i: int| 0 <= i < s.len() ==> dam_full(#[trigger] s[i])
    ensures forall|i: int| 0 <= i < sstable(s, key).len() ==> dam_full(#[trigger] sstable(s, key)[i])
    decreases s.len()
{ reveal_with_fuel(sstable, 2); if s.len() > 0 { lemma_shape_dam_stable(s.drop_last(), key); assert(dam_full(s[s.len() - 1])); lemma_shape_dam_insert(sstable(s.drop_last(), key), s.last(), key); } }
pub proof fn c17_daitch_mokotoff_rules(s: Seq<char>)
    ensures dam_table(dam_build(s).rules)
{
    let d = dam_read(s, 1, Map::empty(), Map::empty());
    lemma_shape_dam_read(s, 1, Map::empty(), Map::empty());
    let k = |r: DmRule| -blen(r.p);
    let t = dam_order(d.rules);
    assert forall|c: char, i: int| t.contains_key(c) && 0 <= i < t[c].len() implies dam_full(#[trigger] t[c][i]) by {
        assert forall|j: int| 0 <= j < d.rules[c].len() implies dam_full(#[trigger] d.rules[c][j]) by { assert(d.rules.contains_key(c)); }
        lemma_shape_dam_stable(d.rules[c], k);
        assert(t[c] == sstable(d.rules[c], k));
    }
}
