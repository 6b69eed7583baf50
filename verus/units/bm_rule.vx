@use prelude/sets.rs prelude/fmt.rs prelude/regex.rs spec/char_sequence.rs proof/char_sequence.rs proof/languages.rs spec/bm_ctx.rs proof/bm_regex.rs spec/bm.rs proof/bm_rule.rs
@include char_sequence.vx
@include languages.vx
@include bm_regex.vx
@file src/beider_morse/rule.rs
@skip fmt
@text
impl PhonemeList { pub open spec fn phv(&self) -> Seq<Ph> { smap(self.phonemes@, |p: Phoneme| p.phv()) } }
impl Phoneme { pub open spec fn phv(&self) -> Ph { Ph { t: self.phoneme_text@, l: self.languages.lv() } } }
impl Rule {
    pub open spec fn rv(&self) -> BmRule { BmRule { left: self.left_context.imv(), p: self.pattern@, right: self.right_context.imv(), ph: self.phoneme.phv() } }
    /// what the parser establishes
    pub open spec fn ok(&self) -> bool { self.pattern_length_char == self.pattern@.len() && 0 < self.pattern@.len() <= MAXLEN() }
}
@fn LanguageSet::is_empty
    ensures r == (self.lv() == Some(Set::<Seq<char>>::empty()))
@start
    broadcast use vx_sets_group;
    proof { match self { LanguageSet::SomeLanguages(s) => { if forall|l: Seq<char>| !#[trigger] s@.contains(l) { assert(s@ =~= Set::<Seq<char>>::empty()); } } _ => { } } }
@fn LanguageSet::restrict_to
    ensures r.lv() == bm_and(self.lv(), other.lv())
@start
    proof { lemma_and_or(self.lv(), other.lv()); }
@fn LanguageSet::merge
    ensures r.lv() == bm_or(self.lv(), other.lv())
@start
    proof { lemma_and_or(self.lv(), other.lv()); }
@trait Phoneme:Ord
    // the order of texts, so a set of phonemes holds one of each text
    open spec fn cmp_spec(&self, o: &Self, r: Ordering) -> bool { r == slt_of(self.phoneme_text@, o.phoneme_text@) }
@fn Phoneme::cmp
@start
    let ghost vx_a = self.phoneme_text@;
    let ghost vx_b = other.phoneme_text@;
@loop 0
    invariant_except_break
        vx_it0.rest().len() <= szip(vx_a, vx_b).len(),
        vx_it0.rest() == szip(vx_a, vx_b).skip(szip(vx_a, vx_b).len() - vx_it0.rest().len()),
        vx_a == self.phoneme_text@, vx_b == other.phoneme_text@,
        vx_a.take(szip(vx_a, vx_b).len() - vx_it0.rest().len()) == vx_b.take(szip(vx_a, vx_b).len() - vx_it0.rest().len()),
    ensures ({ let n = szip(vx_a, vx_b).len() as int; vx_a.take(n) == vx_b.take(n) })
    decreases vx_it0.rest().len()
@loopstart 0
    let ghost vx_n = szip(vx_a, vx_b).len() - vx_it0.rest().len() - 1;
    proof { assert(vx_x0 == szip(vx_a, vx_b)[vx_n]); if ch1 != ch2 { lemma_slt_at(vx_a, vx_b, vx_n); } if ch1 == ch2 { assert(vx_a.take(vx_n + 1) =~= vx_a.take(vx_n).push(ch1)); assert(vx_b.take(vx_n + 1) =~= vx_b.take(vx_n).push(ch1)); } }
@before let o1length
    proof { lemma_slt_prefix(vx_a, vx_b); }
@fn Phoneme::new
    ensures r.phv() == (Ph { t: phoneme_text@, l: languages.lv() })
@fn Phoneme::join
    ensures r.phv() == (Ph { t: phoneme1.phv().t + phoneme2.phv().t, l: languages.lv() })
@fn Phoneme::append
    ensures r.phv() == (Ph { t: self.phv().t + value@, l: self.phv().l })
@fn Phoneme::phoneme_text
    ensures r@ == self.phv().t
@fn Phoneme::merge_with_language
    ensures r.phv() == (Ph { t: self.phv().t, l: bm_or(self.phv().l, languages.lv()) })
@fn Phoneme::languages
    ensures r.lv() == self.phv().l
@fn PhonemeList::phonemes
    ensures r@.len() == self.phonemes@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.phonemes@[i]
@fn Rule::pattern_and_context_matches
    requires self.ok(), input.ok(), index <= input.inner@.len()
    ensures r == bm_matches(self.rv(), input.inner@, index as int)
@start
    broadcast use axiom_eq_ref_string;
@fn Rule::pattern_len_char
    ensures r == self.pattern_length_char
@fn Rule::phoneme
    ensures *r == self.phoneme
