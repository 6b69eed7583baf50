pub open spec fn mra_letters() -> Seq<char> { seq!['B', 'C', 'D', 'F', 'G', 'H', 'J', 'K', 'L', 'M', 'N', 'P', 'Q', 'R', 'S', 'T', 'V', 'W', 'X', 'Y', 'Z'] }
pub proof fn lemma_mra_plain()
    ensures
        forall|i: int| 0 <= i < 60 ==> #[trigger] PLAIN_ASCII@[i] == mra_plain(UNICODE@[i]),
        UNICODE@.len() == 60, PLAIN_ASCII@.len() == 60,
        forall|c: char| mra_plain(c) != c ==> #[trigger] UNICODE@.contains(c),
{
    vx_const_UNICODE(); vx_const_PLAIN_ASCII();
    assert(PLAIN_ASCII@[0] == mra_plain(UNICODE@[0])); assert(PLAIN_ASCII@[1] == mra_plain(UNICODE@[1])); assert(PLAIN_ASCII@[2] == mra_plain(UNICODE@[2])); assert(PLAIN_ASCII@[3] == mra_plain(UNICODE@[3])); assert(PLAIN_ASCII@[4] == mra_plain(UNICODE@[4])); assert(PLAIN_ASCII@[5] == mra_plain(UNICODE@[5])); assert(PLAIN_ASCII@[6] == mra_plain(UNICODE@[6])); assert(PLAIN_ASCII@[7] == mra_plain(UNICODE@[7])); assert(PLAIN_ASCII@[8] == mra_plain(UNICODE@[8])); assert(PLAIN_ASCII@[9] == mra_plain(UNICODE@[9])); assert(PLAIN_ASCII@[10] == mra_plain(UNICODE@[10])); assert(PLAIN_ASCII@[11] == mra_plain(UNICODE@[11])); assert(PLAIN_ASCII@[12] == mra_plain(UNICODE@[12])); assert(PLAIN_ASCII@[13] == mra_plain(UNICODE@[13])); assert(PLAIN_ASCII@[14] == mra_plain(UNICODE@[14])); assert(PLAIN_ASCII@[15] == mra_plain(UNICODE@[15])); assert(PLAIN_ASCII@[16] == mra_plain(UNICODE@[16])); assert(PLAIN_ASCII@[17] == mra_plain(UNICODE@[17])); assert(PLAIN_ASCII@[18] == mra_plain(UNICODE@[18])); assert(PLAIN_ASCII@[19] == mra_plain(UNICODE@[19])); assert(PLAIN_ASCII@[20] == mra_plain(UNICODE@[20])); assert(PLAIN_ASCII@[21] == mra_plain(UNICODE@[21])); assert(PLAIN_ASCII@[22] == mra_plain(UNICODE@[22])); assert(PLAIN_ASCII@[23] == mra_plain(UNICODE@[23])); assert(PLAIN_ASCII@[24] == mra_plain(UNICODE@[24])); assert(PLAIN_ASCII@[25] == mra_plain(UNICODE@[25])); assert(PLAIN_ASCII@[26] == mra_plain(UNICODE@[26])); assert(PLAIN_ASCII@[27] == mra_plain(UNICODE@[27])); assert(PLAIN_ASCII@[28] == mra_plain(UNICODE@[28])); assert(PLAIN_ASCII@[29] == mra_plain(UNICODE@[29])); assert(PLAIN_ASCII@[30] == mra_plain(UNICODE@[30])); assert(PLAIN_ASCII@[31] == mra_plain(UNICODE@[31])); assert(PLAIN_ASCII@[32] == mra_plain(UNICODE@[32])); assert(PLAIN_ASCII@[33] == mra_plain(UNICODE@[33])); assert(PLAIN_ASCII@[34] == mra_plain(UNICODE@[34])); assert(PLAIN_ASCII@[35] == mra_plain(UNICODE@[35])); assert(PLAIN_ASCII@[36] == mra_plain(UNICODE@[36])); assert(PLAIN_ASCII@[37] == mra_plain(UNICODE@[37])); assert(PLAIN_ASCII@[38] == mra_plain(UNICODE@[38])); assert(PLAIN_ASCII@[39] == mra_plain(UNICODE@[39])); assert(PLAIN_ASCII@[40] == mra_plain(UNICODE@[40])); assert(PLAIN_ASCII@[41] == mra_plain(UNICODE@[41])); assert(PLAIN_ASCII@[42] == mra_plain(UNICODE@[42])); assert(PLAIN_ASCII@[43] == mra_plain(UNICODE@[43])); assert(PLAIN_ASCII@[44] == mra_plain(UNICODE@[44])); assert(PLAIN_ASCII@[45] == mra_plain(UNICODE@[45])); assert(PLAIN_ASCII@[46] == mra_plain(UNICODE@[46])); assert(PLAIN_ASCII@[47] == mra_plain(UNICODE@[47])); assert(PLAIN_ASCII@[48] == mra_plain(UNICODE@[48])); assert(PLAIN_ASCII@[49] == mra_plain(UNICODE@[49])); assert(PLAIN_ASCII@[50] == mra_plain(UNICODE@[50])); assert(PLAIN_ASCII@[51] == mra_plain(UNICODE@[51])); assert(PLAIN_ASCII@[52] == mra_plain(UNICODE@[52])); assert(PLAIN_ASCII@[53] == mra_plain(UNICODE@[53])); assert(PLAIN_ASCII@[54] == mra_plain(UNICODE@[54])); assert(PLAIN_ASCII@[55] == mra_plain(UNICODE@[55])); assert(PLAIN_ASCII@[56] == mra_plain(UNICODE@[56])); assert(PLAIN_ASCII@[57] == mra_plain(UNICODE@[57])); assert(PLAIN_ASCII@[58] == mra_plain(UNICODE@[58])); assert(PLAIN_ASCII@[59] == mra_plain(UNICODE@[59]));
}
pub proof fn lemma_sfilter_map<T, U>(s: Seq<T>, f: spec_fn(T) -> U, p: spec_fn(T) -> bool, q: spec_fn(U) -> bool)
    requires forall|x: T| #[trigger] p(x) == q(f(x))
    ensures smap(sfilter(s, p), f) == sfilter(smap(s, f), q)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_sfilter_map(s.skip(1), f, p, q);
        assert(smap(s, f)[0] == f(s[0]));
        assert(smap(s, f).skip(1) =~= smap(s.skip(1), f));
        if p(s[0]) { assert(smap(sfilter(s, p), f) =~= seq![f(s[0])] + smap(sfilter(s.skip(1), p), f)); }
    } else { assert(smap(sfilter(s, p), f) =~= sfilter(smap(s, f), q)); }
}
pub proof fn lemma_sindices_map(k: int, s: Seq<char>)
    ensures smap(sindices(k, s), |p: (usize, char)| p.1) == s
    decreases s.len()
{
    if s.len() > 0 { lemma_sindices_map(k + clen(s[0]), s.skip(1)); assert(smap(sindices(k, s), |p: (usize, char)| p.1) =~= seq![s[0]] + smap(sindices(k + clen(s[0]), s.skip(1)), |p: (usize, char)| p.1)); assert(seq![s[0]] + s.skip(1) =~= s); }
    else { assert(smap(sindices(k, s), |p: (usize, char)| p.1) =~= s); }
}
pub proof fn lemma_sindices_pos(k: int, s: Seq<char>, q: spec_fn(char) -> bool)
    requires 0 < k, k + blen(s) <= usize::MAX
    ensures smap(sfilter(sindices(k, s), |p: (usize, char)| p.0 == 0 || q(p.1)), |p: (usize, char)| p.1) == sfilter(s, q)
    decreases s.len()
{
    reveal_with_fuel(blen, 2);
    let f = |p: (usize, char)| p.0 == 0 || q(p.1);
    let g = |p: (usize, char)| p.1;
    let t = sindices(k, s);
    if s.len() > 0 {
        lemma_sindices_pos(k + clen(s[0]), s.skip(1), q);
        assert(t[0] == (k as usize, s[0]));
        assert(t.skip(1) =~= sindices(k + clen(s[0]), s.skip(1)));
        lemma_blen_bound(s.skip(1));
        if q(s[0]) { assert(smap(sfilter(t, f), g) =~= seq![s[0]] + smap(sfilter(t.skip(1), f), g)); }
    } else { assert(smap(sfilter(t, f), g) =~= sfilter(s, q)); }
}
pub proof fn lemma_mra_no_vowels(s: Seq<char>)
    ensures blen(s) <= usize::MAX ==> smap(sfilter(sfilter(sindices(0, s), |p: (usize, char)| p.0 == 0 || !mra_vowel(p.1)), |p: (usize, char)| !mra_trimmed(p.1) && !is_ws(p.1)), |p: (usize, char)| p.1) == mra_no_vowels(s)
{
    reveal_with_fuel(blen, 2);
    let q = |c: char| !mra_vowel(c);
    let f = |p: (usize, char)| p.0 == 0 || !mra_vowel(p.1);
    let h = |p: (usize, char)| !mra_trimmed(p.1) && !is_ws(p.1);
    let hq = |c: char| !mra_trimmed(c) && !is_ws(c);
    let g = |p: (usize, char)| p.1;
    if blen(s) > usize::MAX { return; }
    let t = sindices(0, s);
    lemma_sfilter_map(sfilter(t, f), g, h, hq);
    if s.len() > 0 {
        lemma_blen_bound(s.skip(1));
        lemma_sindices_pos(clen(s[0]), s.skip(1), q);
        assert(f =~= |p: (usize, char)| p.0 == 0 || q(p.1));
        assert(t[0] == (0usize, s[0]));
        assert(t.skip(1) =~= sindices(clen(s[0]), s.skip(1)));
        assert(smap(sfilter(t, f), g) =~= seq![s[0]] + smap(sfilter(t.skip(1), f), g));
    } else { assert(smap(sfilter(t, f), g) =~= s); }
}
pub proof fn lemma_mra_doubles()
    ensures DOUBLE_CONSONANT@.len() == 21, forall|k: int| 0 <= k < 21 ==> (#[trigger] DOUBLE_CONSONANT@[k]).0@ == seq![mra_letters()[k], mra_letters()[k]] && DOUBLE_CONSONANT@[k].1@ == seq![mra_letters()[k]]
{ vx_const_DOUBLE_CONSONANT(); assert(DOUBLE_CONSONANT@[0].0@ == seq![mra_letters()[0], mra_letters()[0]]); assert(DOUBLE_CONSONANT@[1].0@ == seq![mra_letters()[1], mra_letters()[1]]); assert(DOUBLE_CONSONANT@[2].0@ == seq![mra_letters()[2], mra_letters()[2]]); assert(DOUBLE_CONSONANT@[3].0@ == seq![mra_letters()[3], mra_letters()[3]]); assert(DOUBLE_CONSONANT@[4].0@ == seq![mra_letters()[4], mra_letters()[4]]); assert(DOUBLE_CONSONANT@[5].0@ == seq![mra_letters()[5], mra_letters()[5]]); assert(DOUBLE_CONSONANT@[6].0@ == seq![mra_letters()[6], mra_letters()[6]]); assert(DOUBLE_CONSONANT@[7].0@ == seq![mra_letters()[7], mra_letters()[7]]); assert(DOUBLE_CONSONANT@[8].0@ == seq![mra_letters()[8], mra_letters()[8]]); assert(DOUBLE_CONSONANT@[9].0@ == seq![mra_letters()[9], mra_letters()[9]]); assert(DOUBLE_CONSONANT@[10].0@ == seq![mra_letters()[10], mra_letters()[10]]); assert(DOUBLE_CONSONANT@[11].0@ == seq![mra_letters()[11], mra_letters()[11]]); assert(DOUBLE_CONSONANT@[12].0@ == seq![mra_letters()[12], mra_letters()[12]]); assert(DOUBLE_CONSONANT@[13].0@ == seq![mra_letters()[13], mra_letters()[13]]); assert(DOUBLE_CONSONANT@[14].0@ == seq![mra_letters()[14], mra_letters()[14]]); assert(DOUBLE_CONSONANT@[15].0@ == seq![mra_letters()[15], mra_letters()[15]]); assert(DOUBLE_CONSONANT@[16].0@ == seq![mra_letters()[16], mra_letters()[16]]); assert(DOUBLE_CONSONANT@[17].0@ == seq![mra_letters()[17], mra_letters()[17]]); assert(DOUBLE_CONSONANT@[18].0@ == seq![mra_letters()[18], mra_letters()[18]]); assert(DOUBLE_CONSONANT@[19].0@ == seq![mra_letters()[19], mra_letters()[19]]); assert(DOUBLE_CONSONANT@[20].0@ == seq![mra_letters()[20], mra_letters()[20]]); }
pub proof fn lemma_mra_left_1(s: Seq<&char>, q: spec_fn(&char) -> bool)
    requires forall|c: &char| #[trigger] q(c) == (*c != ' ')
    ensures sfilter(s, q).len() == mra_left(smap(s, |t: &char| *t))
    decreases s.len()
{
    let g = |t: &char| *t;
    if s.len() > 0 { lemma_mra_left_1(s.skip(1), q); assert(smap(s, g).skip(1) =~= smap(s.skip(1), g)); assert(smap(s, g)[0] == *s[0]); }
}
pub proof fn lemma_mra_left(q: spec_fn(&char) -> bool)
    requires forall|c: &char| #[trigger] q(c) == (*c != ' ')
    ensures forall|it: VxIter<&char>| (#[trigger] sfilter(it.rest(), q)).len() == mra_left(vrest_ref(it))
{ assert forall|it: VxIter<&char>| (#[trigger] sfilter(it.rest(), q)).len() == mra_left(vrest_ref(it)) by { lemma_mra_left_1(it.rest(), q); } }
pub proof fn lemma_sfilter_twice<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool, r: spec_fn(T) -> bool)
    requires forall|x: T| #[trigger] r(x) == (p(x) && q(x))
    ensures sfilter(sfilter(s, p), q) == sfilter(s, r)
    decreases s.len()
{
    reveal_with_fuel(sfilter, 2);
    if s.len() > 0 {
        lemma_sfilter_twice(s.skip(1), p, q, r);
        assert(r(s[0]) == (p(s[0]) && q(s[0])));
        if p(s[0]) { let t = seq![s[0]] + sfilter(s.skip(1), p); assert(t[0] == s[0]); assert(t.skip(1) =~= sfilter(s.skip(1), p)); assert(sfilter(s, p) == t); }
    }
}
/// one filter, or the two in the other order
pub proof fn lemma_mra_clean(s: Seq<char>)
    ensures
        mra_clean(s) == smap(sfilter(supper(s), |c: char| !mra_trimmed(c) && !is_ws(c)), |c: char| mra_plain(c)),
        mra_clean(s) == smap(sfilter(sfilter(supper(s), |c: char| !is_ws(c)), |c: char| !mra_trimmed(c)), |c: char| mra_plain(c)),
{
    let (p, q, r) = (|c: char| !mra_trimmed(c), |c: char| !is_ws(c), |c: char| !mra_trimmed(c) && !is_ws(c));
    lemma_sfilter_twice(supper(s), p, q, r); lemma_sfilter_twice(supper(s), q, p, r);
}
