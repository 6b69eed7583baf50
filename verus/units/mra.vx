@use spec/clean.rs spec/mra.rs proof/mra.rs
@include helper_vowel.vx
@file src/lib.rs
@trait Encoder
    spec fn enc(&self, s: Seq<char>) -> Seq<char>;
    spec fn enc_eq(&self, a: Seq<char>, b: Seq<char>) -> bool;
@fn Encoder::encode
    ensures r@ == self.enc(s@)
@abstract Encoder::is_encoded_equals
    ensures r == self.enc_eq(first@, second@)
@file src/match_rating_approach.rs
@trait MatchRatingApproach:Encoder
    open spec fn enc(&self, s: Seq<char>) -> Seq<char> { mra(s) }
    open spec fn enc_eq(&self, a: Seq<char>, b: Seq<char>) -> bool { mra_equal(a, b) }
@fn MatchRatingApproach::clean_name
    ensures r@ == mra_clean(value@)
@start
    proof { lemma_mra_clean(value@); }
@fn MatchRatingApproach::remove_accent
    ensures r@ == smap(value@, |c: char| mra_plain(c))
@closure 0 |c: char| -> (vx_r: char)
    ensures vx_r == mra_plain(c)
@start
    proof { lemma_mra_plain(); }
@fn MatchRatingApproach::remove_vowels
    ensures r@ == mra_no_vowels(value@)
@closure 0 |p: &(usize, char)| -> (vx_r: bool)
    ensures vx_r == (p.0 == 0 || !mra_vowel(p.1))
@closure 1 |p: &(usize, char)| -> (vx_r: bool)
    ensures vx_r == (!mra_trimmed(p.1) && !is_ws(p.1))
@closure 2 |p: (usize, char)| -> (vx_r: char)
    ensures vx_r == p.1
@start
    proof { lemma_mra_no_vowels(value@); }
@fn MatchRatingApproach::remove_double_consonants
    ensures r@ == mra_no_doubles(value@)
@loop 0
    invariant
        vx_it0.rest() == DOUBLE_CONSONANT@.skip(21 - vx_it0.rest().len()), vx_it0.rest().len() <= 21,
        mra_single(result@, mra_letters().skip(21 - vx_it0.rest().len())) == mra_no_doubles(vx_value@)
    ensures result@ == mra_no_doubles(vx_value@)
    decreases vx_it0.rest().len()
@start
    proof { lemma_mra_doubles(); }
@loopstart 0
    proof { let k = 20 - vx_it0.rest().len(); assert(vx_x0 == DOUBLE_CONSONANT@[k]); assert(mra_letters().skip(k)[0] == mra_letters()[k]); assert(mra_letters().skip(k).skip(1) =~= mra_letters().skip(k + 1)); assert(vx_x0.0@ =~= Seq::<char>::empty().push(mra_letters()[k]).push(mra_letters()[k])); assert(vx_x0.1@ =~= Seq::<char>::empty().push(mra_letters()[k])); }
@fn MatchRatingApproach::get_first3_last3
    ensures r@ == mra_ends(value@)
@fn MatchRatingApproach::get_minimum_rating
    ensures r == mra_minimum(sum_length as int)
@fn MatchRatingApproach::left_to_right_then_right_to_left_processing
    ensures r == mra_rating(name1@, name2@)
@loop 0
    invariant
        n1@.len() == name1@.len(), n2@.len() == name2@.len(),
        vx_it0.rest() == srange(n1@.len() - vx_it0.rest().len(), n1@.len() as int), vx_it0.rest().len() <= n1@.len(),
        mra_cancel(n1@, n2@, n1@.len() - vx_it0.rest().len()) == mra_cancel(name1@, name2@, 0)
    ensures
        (n1@, n2@) == mra_cancel(name1@, name2@, 0)
    decreases vx_it0.rest().len()
@start
    let ghost vx_q = |c: &char| *c != ' ';
    proof { assert(vx_hint(vx_q)); lemma_mra_left(vx_q); }
@fn MatchRatingApproach::encode
@fn MatchRatingApproach::is_encoded_equals
@text
// ---- consequences of the contracts (properties C09, C10) ----
pub proof fn mra_at_most_six(s: Seq<char>)
    ensures mra(s).len() <= 6
{}
pub proof fn lemma_mra_cancel_sym(a: Seq<char>, b: Seq<char>, i: int)
    ensures mra_cancel(a, b, i).0 == mra_cancel(b, a, i).1, mra_cancel(a, b, i).1 == mra_cancel(b, a, i).0
    decreases a.len() - i
{
    if i < 0 || i >= a.len() || i >= b.len() {}
    else {
        let a1 = mra_blank(a, i, b, i);
        let b1 = mra_blank(b, i, a, i);
        let a2 = mra_blank(a1, a1.len() - (i + 1), b1, b1.len() - (i + 1));
        let b2 = mra_blank(b1, b1.len() - (i + 1), a1, a1.len() - (i + 1));
        lemma_mra_cancel_sym(a2, b2, i + 1);
    }
}
pub proof fn mra_equal_symmetric(a: Seq<char>, b: Seq<char>)
    ensures mra_equal(a, b) == mra_equal(b, a)
{ lemma_mra_cancel_sym(mra(a), mra(b), 0); }
pub proof fn mra_equal_reflexive(a: Seq<char>)
    ensures mra_equal(a, a) == (strim(a).len() > 1)
{}
