// C18: the case of ASCII letters never reaches a code.
/// ASSUMED (std, tested for every character): the case of an ASCII letter does not change its class or its case mappings
pub axiom fn axiom_case_char(c: char)
    ensures is_alpha(c) == is_alpha(alow(c)), is_ws(c) == is_ws(alow(c)), upper(c) == upper(alow(c)), lower(c) == lower(alow(c));
/// ASSUMED (std): upper case of a text is that of its characters
pub axiom fn axiom_case_upper(s: Seq<char>)
    ensures supper(s) == case_up(s);
/// ASSUMED (std; Σ is the only character whose lower case looks at its neighbours, and at their class only)
pub axiom fn axiom_case_lower(a: Seq<char>, b: Seq<char>)
    requires case_same(a, b)
    ensures slower(a) == slower(b);
pub proof fn lemma_case_chars(c: char, d: char)
    requires alow(c) == alow(d)
    ensures is_alpha(c) == is_alpha(d), is_ws(c) == is_ws(d), upper(c) == upper(d), lower(c) == lower(d)
{ axiom_case_char(c); axiom_case_char(d); }
pub proof fn lemma_case_up(a: Seq<char>, b: Seq<char>)
    requires case_same(a, b)
    ensures supper(a) == supper(b)
{
    axiom_case_upper(a); axiom_case_upper(b);
    let f = |c: char| upper(c);
    assert forall|i: int| 0 <= i < a.len() implies f(#[trigger] a[i]) == f(b[i]) by { lemma_case_chars(a[i], b[i]); }
    assert(smap(a, f) =~= smap(b, f));
}
pub proof fn lemma_case_skip(a: Seq<char>, b: Seq<char>, n: int)
    requires case_same(a, b), 0 <= n <= a.len()
    ensures case_same(a.skip(n), b.skip(n)), case_same(a.take(n), b.take(n))
{
    assert forall|i: int| 0 <= i < a.skip(n).len() implies alow(#[trigger] a.skip(n)[i]) == alow(b.skip(n)[i]) by { assert(alow(a[i + n]) == alow(b[i + n])); }
    assert forall|i: int| 0 <= i < n implies alow(#[trigger] a.take(n)[i]) == alow(b.take(n)[i]) by { assert(alow(a[i]) == alow(b[i])); }
}
pub proof fn lemma_case_filter(a: Seq<char>, b: Seq<char>, p: spec_fn(char) -> bool)
    requires case_same(a, b), forall|c: char, d: char| alow(c) == alow(d) ==> #[trigger] p(c) == #[trigger] p(d)
    ensures case_same(sfilter(a, p), sfilter(b, p))
    decreases a.len()
{
    reveal_with_fuel(sfilter, 2);
    if a.len() > 0 {
        lemma_case_skip(a, b, 1);
        lemma_case_filter(a.skip(1), b.skip(1), p);
        assert(alow(a[0]) == alow(b[0]));
        assert(p(a[0]) == p(b[0]));
        let (x, y) = (sfilter(a.skip(1), p), sfilter(b.skip(1), p));
        if p(a[0]) {
            assert forall|i: int| 0 <= i < (seq![a[0]] + x).len() implies alow(#[trigger] (seq![a[0]] + x)[i]) == alow((seq![b[0]] + y)[i]) by { if i > 0 { assert(alow(x[i - 1]) == alow(y[i - 1])); } }
        }
    }
}
pub proof fn lemma_case_clean(a: Seq<char>, b: Seq<char>)
    requires case_same(a, b)
    ensures clean(a) == clean(b)
{
    let p = |c: char| is_alpha(c);
    assert forall|c: char, d: char| alow(c) == alow(d) implies #[trigger] p(c) == #[trigger] p(d) by { lemma_case_chars(c, d); }
    lemma_case_filter(a, b, p);
    lemma_case_up(sfilter(a, p), sfilter(b, p));
    axiom_case_upper(sfilter(a, p)); axiom_case_upper(sfilter(b, p));
    assert(vx_same(clean(a), sflatten(smap(sfilter(a, |c: char| is_alpha(c)), |c: char| upper(c)))));
}
pub proof fn lemma_case_trim(a: Seq<char>, b: Seq<char>)
    requires case_same(a, b)
    ensures case_same(strim(a), strim(b))
{ reveal(strim); lemma_case_trim_start(a, b); lemma_case_trim_end(strim_start(a), strim_start(b)); }
pub proof fn lemma_case_trim_start(a: Seq<char>, b: Seq<char>)
    requires case_same(a, b)
    ensures case_same(strim_start(a), strim_start(b))
    decreases a.len()
{
    reveal_with_fuel(strim_start, 2);
    if a.len() > 0 { assert(alow(a[0]) == alow(b[0])); lemma_case_chars(a[0], b[0]); lemma_case_skip(a, b, 1); lemma_case_trim_start(a.skip(1), b.skip(1)); }
}
pub proof fn lemma_case_trim_end(a: Seq<char>, b: Seq<char>)
    requires case_same(a, b)
    ensures case_same(strim_end(a), strim_end(b))
    decreases a.len()
{
    reveal_with_fuel(strim_end, 2);
    if a.len() > 0 { assert(alow(a[a.len() - 1]) == alow(b[b.len() - 1])); lemma_case_chars(a.last(), b.last()); lemma_case_skip(a, b, a.len() - 1); assert(a.take(a.len() - 1) =~= a.drop_last()); assert(b.take(b.len() - 1) =~= b.drop_last()); lemma_case_trim_end(a.drop_last(), b.drop_last()); }
}
pub proof fn c18_soundex(m: Seq<char>, hw: bool, a: Seq<char>, b: Seq<char>)
    requires case_same(a, b)
    ensures soundex(m, hw, a) == soundex(m, hw, b)
{ lemma_case_clean(a, b); }
pub proof fn c18_refined(m: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires case_same(a, b)
    ensures refined(m, a) == refined(m, b)
{ lemma_case_clean(a, b); }
pub proof fn c18_cologne(a: Seq<char>, b: Seq<char>)
    requires case_same(a, b)
    ensures cologne(a) == cologne(b)
{ lemma_case_up(a, b); }
pub proof fn c18_caverphone(a: Seq<char>, b: Seq<char>)
    requires case_same(a, b)
    ensures caverphone1(a) == caverphone1(b), caverphone2(a) == caverphone2(b)
{ axiom_case_lower(a, b); assert(cav_letters(a) == cav_letters(b)); }
pub proof fn c18_nysiis(strict: bool, a: Seq<char>, b: Seq<char>)
    requires case_same(a, b)
    ensures nysiis(strict, a) == nysiis(strict, b)
{ lemma_case_clean(a, b); }
pub proof fn c18_phonex(max: int, a: Seq<char>, b: Seq<char>)
    requires case_same(a, b)
    ensures phonex(max, a) == phonex(max, b)
{ lemma_case_clean(a, b); }
pub proof fn c18_metaphone(max: Option<usize>, a: Seq<char>, b: Seq<char>)
    requires case_same(a, b)
    ensures metaphone(max, a) == metaphone(max, b)
{ lemma_case_up(a, b); }
pub proof fn c18_double_metaphone(max: Option<usize>, a: Seq<char>, b: Seq<char>)
    requires case_same(a, b)
    ensures double_metaphone(max, a) == double_metaphone(max, b)
{ lemma_case_trim(a, b); lemma_case_up(strim(a), strim(b)); }
pub proof fn c18_mra(a: Seq<char>, b: Seq<char>)
    requires case_same(a, b)
    ensures mra(a) == mra(b), mra_short(a) == mra_short(b)
{ lemma_case_trim(a, b); lemma_case_up(a, b); }
pub proof fn c18_daitch_mokotoff(t: Map<char, Seq<DmRule>>, folding: bool, f: Map<char, char>, a: Seq<char>, b: Seq<char>, all: bool)
    requires case_same(a, b)
    ensures dam_codes(t, folding, f, a, all) == dam_codes(t, folding, f, b, all), dam_encode(t, folding, f, a) == dam_encode(t, folding, f, b)
{
    let p = |c: char| !is_ws(c);
    assert forall|c: char, d: char| alow(c) == alow(d) implies #[trigger] p(c) == #[trigger] p(d) by { lemma_case_chars(c, d); }
    lemma_case_filter(a, b, p);
    let (x, y) = (sfilter(a, p), sfilter(b, p));
    let g = |c: char| dam_fold(folding, f, c);
    assert forall|i: int| 0 <= i < x.len() implies g(#[trigger] x[i]) == g(y[i]) by {
        assert(alow(x[i]) == alow(y[i])); lemma_case_chars(x[i], y[i]);
        axiom_case_char(x[i]);
        if lower(x[i]).len() == 0 { axiom_lower_some(x[i]); }
    }
    assert(smap(x, g) =~= smap(y, g));
    assert(dam_clean(folding, f, a) == dam_clean(folding, f, b));
}
/// ASSUMED (std, tested for every character): lower case is never nothing
pub axiom fn axiom_lower_some(c: char)
    ensures lower(c).len() > 0;
pub proof fn c18_beider_morse(c: BmCfg, l: Option<Set<Seq<char>>>, a: Seq<char>, b: Seq<char>)
    requires case_same(a, b)
    ensures bm_encode(c, a) == bm_encode(c, b), bm_code(c, bm_norm(a), l) == bm_code(c, bm_norm(b), l), bm_guess(c, slower(a)) == bm_guess(c, slower(b))
{ axiom_case_lower(a, b); }
// names that match keep matching, whatever the case of their letters
pub proof fn c18_mra_equal(a: Seq<char>, a2: Seq<char>, b: Seq<char>, b2: Seq<char>)
    requires case_same(a, a2), case_same(b, b2)
    ensures mra_equal(a, b) == mra_equal(a2, b2)
{
    c18_mra(a, a2); c18_mra(b, b2);
    if a == b || a2 == b2 { lemma_mra_self(mra(a)); assert(mra(a) == mra(b)); }
}
pub proof fn lemma_mra_self(s: Seq<char>)
    ensures mra_rating(s, s) == 6
{ lemma_mra_cancel_self(s, 0); lemma_mra_left_blank(mra_cancel(s, s, 0).0); }
pub proof fn lemma_mra_left_blank(s: Seq<char>)
    requires forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] == ' '
    ensures mra_left(s) == 0
    decreases s.len()
{ if s.len() > 0 { assert forall|j: int| 0 <= j < s.skip(1).len() implies #[trigger] s.skip(1)[j] == ' ' by { assert(s[j + 1] == ' '); } lemma_mra_left_blank(s.skip(1)); } }
pub proof fn lemma_mra_cancel_self(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(), forall|j: int| 0 <= j < i ==> #[trigger] s[j] == ' '
    ensures ({ let (x, y) = mra_cancel(s, s, i); x == y && forall|j: int| 0 <= j < x.len() ==> #[trigger] x[j] == ' ' })
    decreases s.len() - i
{
    if i < s.len() {
        let s1 = mra_blank(s, i, s, i);
        assert(s1 == s.update(i, ' '));
        let s2 = mra_blank(s1, s1.len() - (i + 1), s1, s1.len() - (i + 1));
        assert(s2 == s1.update(s1.len() - (i + 1), ' '));
        assert forall|j: int| 0 <= j < i + 1 implies #[trigger] s2[j] == ' ' by { if j < i { assert(s[j] == ' '); } }
        lemma_mra_cancel_self(s2, i + 1);
    }
}
