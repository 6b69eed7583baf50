@use prelude/sets.rs prelude/fmt.rs prelude/regex.rs spec/char_sequence.rs proof/char_sequence.rs proof/languages.rs spec/bm_ctx.rs proof/bm_regex.rs spec/bm.rs proof/bm_rule.rs proof/bm.rs
@include bm_rule.vx
@include bm_view.vx
@include encoder.vx
@file src/beider_morse/lang.rs
@file src/beider_morse/engine.rs
@skip fmt
@skip NameType::from_str
@skip PrivateRuleType::from_str
@extra PhoneticEngine
@struct RuleType
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
@text
impl VxView for Phoneme { type V = Ph; open spec fn vv(&self) -> Ph { self.phv() } }
pub open spec fn phvs(s: Seq<Phoneme>) -> Seq<Ph> { smap(s, |p: Phoneme| p.phv()) }
pub open spec fn phrs(s: Seq<&Phoneme>) -> Seq<Ph> { smap(s, |p: &Phoneme| p.phv()) }
// a set of phonemes is ordered by Phoneme::cmp, which is proved to be the order of the texts
impl VxKey for Phoneme { type K = Seq<char>; open spec fn kv(&self) -> Seq<char> { self.phv().t } open spec fn set_extra(s: Seq<Phoneme>, r: BTreeSet<Phoneme>) -> bool { r.phs() == ph_all(phvs(s)) } }
impl BTreeSet<Phoneme> {
    pub uninterp spec fn phs(&self) -> Seq<Ph>;
    #[verifier::external_body]
    pub fn vx_insert(&mut self, x: Phoneme) -> (r: bool) ensures final(self).phs() == ph_ins(old(self).phs(), x.phv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_replace(&mut self, x: Phoneme) -> (r: Option<Phoneme>) ensures final(self).phs() == ph_put(old(self).phs(), x.phv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_get<'a>(&'a self, x: &Phoneme) -> (r: Option<&'a Phoneme>) ensures match r { Some(p) => ph_get(self.phs(), x.phv().t) == Some(p.phv()), None => ph_get(self.phs(), x.phv().t) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a Phoneme>) ensures phrs(r.rest()) == self.phs() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: VxIter<Phoneme>) ensures phvs(r.rest()) == self.phs() { unimplemented!() }
}
pub broadcast axiom fn axiom_phs(s: BTreeSet<Phoneme>)
    ensures (#[trigger] s.phs()).len() == s@.len();
pub broadcast axiom fn axiom_phs_new(s: BTreeSet<Phoneme>)
    ensures s@ == Set::<Seq<char>>::empty() ==> #[trigger] s.phs() == Seq::<Ph>::empty();
pub broadcast proof fn lemma_phvs_is(a: Seq<Phoneme>, b: Seq<Ph>)
    ensures #![trigger phvs(a), vx_hint(b)] a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).phv() == b[i]) ==> phvs(a) == b
{ if a.len() == b.len() && (forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).phv() == b[i]) { assert(phvs(a) =~= b); } }
pub broadcast proof fn lemma_jv_is(v: Vec<String>, b: Seq<Seq<char>>)
    ensures #![trigger v.jv(), vx_hint(b)] v@.len() == b.len() && (forall|i: int| 0 <= i < b.len() ==> (#[trigger] v@[i])@ == b[i]) ==> v.jv() == b
{ if v@.len() == b.len() && (forall|i: int| 0 <= i < b.len() ==> (#[trigger] v@[i])@ == b[i]) { assert(v.jv() =~= b); } }
pub open spec fn phrrs(s: Seq<&&Phoneme>) -> Seq<Ph> { smap(s, |p: &&Phoneme| p.phv()) }
pub broadcast proof fn lemma_phrs_step(s: Seq<&Phoneme>)
    requires s.len() > 0
    ensures #![trigger phrs(s), s.skip(1)] phrs(s).skip(1) == phrs(s.skip(1)), phrs(s)[0] == s[0].phv()
{ assert(phrs(s).skip(1) =~= phrs(s.skip(1))); }
pub broadcast proof fn lemma_phrrs_step(s: Seq<&&Phoneme>)
    requires s.len() > 0
    ensures #![trigger phrrs(s), s.skip(1)] phrrs(s).skip(1) == phrrs(s.skip(1)), phrrs(s)[0] == s[0].phv()
{ assert(phrrs(s).skip(1) =~= phrrs(s.skip(1))); }
pub broadcast proof fn lemma_phvs_step(s: Seq<Phoneme>)
    requires s.len() > 0
    ensures #![trigger phvs(s), s.skip(1)] phvs(s).skip(1) == phvs(s.skip(1)), phvs(s)[0] == s[0].phv()
{ assert(phvs(s).skip(1) =~= phvs(s.skip(1))); }
pub broadcast group ph_steps { lemma_phrs_step, lemma_phrrs_step, lemma_phvs_step, axiom_phs, axiom_phs_new }
@fn PhonemeBuilder::empty
    ensures r.phonemes.phs() == seq![Ph { t: Seq::empty(), l: languages.lv() }]
@end
    proof { lemma_ph_single(Ph { t: Seq::empty(), l: languages.lv() }); }
@fn PhonemeBuilder::append
    ensures final(self).phonemes.phs() == bm_append(old(self).phonemes.phs(), text@)
@start
    let ghost vx_b = smap(self.phonemes.phs(), |p: Ph| Ph { t: p.t + text@, l: p.l });
    broadcast use lemma_phvs_is;
    proof { assert(vx_hint(vx_b)); }
@closure 0 |v: Phoneme| -> (vx_r: Phoneme)
    ensures vx_r.phv() == (Ph { t: v.phv().t + text@, l: v.phv().l })
@fn PhonemeBuilder::make_string
    ensures r@ == bm_texts(self.phonemes.phs())
@start
    let ghost vx_b = smap(self.phonemes.phs(), |p: Ph| p.t);
    broadcast use lemma_jv_is;
    proof { assert(vx_hint(vx_b)); }
@closure 0 |v: &Phoneme| -> (vx_r: String)
    ensures vx_r@ == v.phv().t
@fn PhonemeBuilder::apply
    ensures final(self).phonemes.phs() == bm_apply(Seq::empty(), old(self).phonemes.phs(), phoneme_expr.phv(), max_phonemes as int)
@start
    let ghost vx_g = bm_apply(Seq::empty(), self.phonemes.phs(), phoneme_expr.phv(), max_phonemes as int);
    let ghost vx_rs = phoneme_expr.phv();
    broadcast use ph_steps;
@loop 0
    invariant_except_break
        vx_rs == phoneme_expr.phv(), 
        bm_apply(phonemes.phs(), phrs(vx_it0.rest()), vx_rs, max_phonemes as int) == vx_g,
    ensures phonemes.phs() == vx_g
    decreases vx_it0.rest().len()
@beforeloop 0
    proof { assert(phonemes.phs() == Seq::<Ph>::empty()); }
@loopstart 0
    let ghost vx_ls = phrs(vx_it0.rest());
@before break 'outer
    proof { lemma_apply_full(phonemes.phs(), vx_ls, vx_rs, max_phonemes as int); lemma_fan_full(phonemes.phs(), left.phv(), phrrs(vx_it1.rest()), max_phonemes as int); }
@beforeloop 1
    proof { assert(phrrs(vx_it1.rest()) =~= vx_rs); }
@loop 1
    invariant_except_break
        vx_rs == phoneme_expr.phv(), 
        bm_apply(bm_fan(phonemes.phs(), left.phv(), phrrs(vx_it1.rest()), max_phonemes as int), vx_ls, vx_rs, max_phonemes as int) == vx_g,
    ensures bm_apply(phonemes.phs(), vx_ls, vx_rs, max_phonemes as int) == vx_g
    decreases vx_it1.rest().len()
@fn RulesApplication::i
    ensures r == self.i
@fn RulesApplication::invoke
    requires self.input.ok(), self.i < self.input.inner@.len(), rules_ok(self.rules@)
    ensures
        *final(r.phoneme_builder) == *final(self.phoneme_builder),
        match bm_find(brules(self.rules@), self.input.inner@, self.i as int) {
            None => !r.found && r.i == self.i + 1 && r.phoneme_builder.phonemes.phs() == old(self.phoneme_builder).phonemes.phs(),
            Some(q) => r.found && r.i == self.i + q.p.len() && r.i <= self.input.inner@.len() && q.p.len() > 0 && r.phoneme_builder.phonemes.phs() == bm_apply(Seq::empty(), old(self.phoneme_builder).phonemes.phs(), q.ph, self.max_phoneme as int),
        }
@start
    let ghost vx_s = self.input.inner@;
    let ghost vx_at = self.i as int;
    let ghost vx_ph = self.phoneme_builder.phonemes.phs();
    let ghost vx_map = self.rules@;
    let ghost vx_max = self.max_phoneme as int;
    proof { assert(vx_s.skip(vx_at)[0] == vx_s[vx_at]); lemma_bm_first_len(seq![], vx_s, vx_at); }
@looppre 0
    let ghost vx_rs = smap(rules@, |r: Rule| r.rv());
    proof { lemma_bm_first_len(vx_rs, vx_s, vx_at); }
@loop 0
    invariant_except_break
        iter_of(vx_it0, rules@),
        bm_first(vx_rs.skip(vx_rs.len() - vx_it0.rest().len()), vx_s, vx_at) == bm_first(vx_rs, vx_s, vx_at),
        !vx_self.found,
        vx_self.phoneme_builder.phonemes.phs() == vx_ph,
    invariant
        vx_rs == smap(rules@, |r: Rule| r.rv()),
        vx_map.contains_key(key), vx_map[key] == *rules, rules_ok(vx_map),
        vx_self.i == vx_at, vx_self.input == self.input, self.input.ok(), vx_s == self.input.inner@, vx_at < vx_s.len(),
        vx_self.max_phoneme == vx_max,
        *final(vx_self.phoneme_builder) == *final(self.phoneme_builder),
    ensures
        match bm_first(vx_rs, vx_s, vx_at) {
            None => !vx_self.found && vx_self.phoneme_builder.phonemes.phs() == vx_ph,
            Some(q) => vx_self.found && pattern_length == q.p.len() && vx_self.phoneme_builder.phonemes.phs() == bm_apply(Seq::empty(), vx_ph, q.ph, vx_max),
        }
    decreases vx_it0.rest().len()
@loopstart 0
    let ghost vx_k = vx_rs.len() - vx_it0.rest().len() - 1;
    proof { assert(*rule == rules@[vx_k]); assert(vx_map[key]@[vx_k].ok()); assert(vx_rs.skip(vx_k)[0] == rule.rv()); assert(vx_rs.skip(vx_k).skip(1) =~= vx_rs.skip(vx_k + 1)); }
@fn LangRule::matches
    ensures r == rx_match(self.pattern.rv(), value@)
@fn Lang::guess_languages
    ensures r.lv() == bm_guessed(self.gv(), slower(input@), self.languages@)
@start
    let ghost vx_g = bm_narrow(self.gv(), slower(input@), self.languages@);
    broadcast use vx_sets_group;
@loop 0
    invariant_except_break
        iter_of(vx_it0, self.rules@),
        bm_narrow(self.gv().skip(self.gv().len() - vx_it0.rest().len()), input@, langs@) == vx_g,
    ensures langs@ == vx_g
    decreases vx_it0.rest().len()
@beforeloop 0
    proof { assert(langs@ =~= self.languages@); assert(self.gv().skip(0) =~= self.gv()); }
@loopstart 0
    let ghost vx_k = self.gv().len() - vx_it0.rest().len() - 1;
    proof { assert(self.gv().skip(vx_k)[0] == rule.gv()); assert(self.gv().skip(vx_k).skip(1) =~= self.gv().skip(vx_k + 1)); }
@file src/beider_morse/mod.rs
@text
impl PhoneticEngine<'_> {
    pub open spec fn ev(&self) -> BmCfg { BmCfg { rules: self.rules.rsv(), langs: self.lang.languages@, guess: self.lang.gv(), name: self.name_type.nv(), kind: self.rule_type.kdv(), concat: self.concat, max: self.max_phonemes as int } }
    pub open spec fn ok(&self) -> bool { self.rules.ok() && self.rule_type.kdv() < 2 }
}
@fn NAME_PREFIXES
    ensures forall|k: int| #![trigger r@.contains_key(k)] 0 <= k < 3 ==> r@.contains_key(k) && forall|x: Seq<char>| #[trigger] r@[k]@.contains(x) == bm_prefixes(k).contains(x)
@start
    proof { reveal_with_fuel(keys_of, 24); reveal_with_fuel(map_of, 6); }
@end
    proof { assert forall|k: int, x: Seq<char>| 0 <= k < 3 implies #[trigger] vx_ret@[k]@.contains(x) == bm_prefixes(k).contains(x) by { lemma_prefix_cases(k, x); } }
@fn Rules::rules
    ensures r is Some <==> self.rules@.contains_key((name_type.nv(), rule_type.kdv(), language@)), r is Some ==> *r->0 == self.rules@[(name_type.nv(), rule_type.kdv(), language@)]
@fn PhoneticEngine::apply_final_rule
    requires rules_ok(final_rules@)
    ensures r.phonemes.phs() == bm_final(brules(final_rules@), phoneme_builder.phonemes.phs(), self.max_phonemes as int)
@start
    let ghost vx_g = bm_final(brules(final_rules@), phoneme_builder.phonemes.phs(), self.max_phonemes as int);
    let ghost vx_br = brules(final_rules@);
    let ghost vx_m = self.max_phonemes as int;
    broadcast use ph_steps;
    proof { assert(vx_br.dom() =~= final_rules@.dom()); }
@loop 0
    invariant_except_break
        bm_each(vx_br, phonemes.phs(), phvs(vx_it0.rest()), vx_m) == vx_g,
    invariant
        rules_ok(final_rules@), vx_br == brules(final_rules@), vx_m == self.max_phonemes,
    ensures phonemes.phs() == vx_g
    decreases vx_it0.rest().len()
@loopstart 0
    let ghost vx_p = phoneme.phv();
    let ghost vx_acc = phonemes.phs();
    let ghost vx_after = phvs(vx_it0.rest());
    proof { assert(bm_each(vx_br, bm_join(vx_acc, bm_walk(vx_br, vx_p.t, 0, seq![Ph { t: Seq::empty(), l: vx_p.l }], vx_m, true), vx_p.l), vx_after, vx_m) == vx_g); }
    let ghost vx_w = bm_walk(vx_br, vx_p.t, 0, seq![Ph { t: Seq::empty(), l: vx_p.l }], vx_m, true);
@loop 1
    invariant
        rules_ok(final_rules@), vx_br == brules(final_rules@), vx_m == self.max_phonemes,
        phoneme_text.ok(), phoneme_text.inner@ == vx_p.t, len == vx_p.t.len(), i <= len,
        bm_walk(vx_br, vx_p.t, i as int, sub_builder.phonemes.phs(), vx_m, true) == vx_w,
    ensures i == len
    decreases len - i
@loopstart 1
    proof { lemma_cslice(vx_p.t, i as int, i + 1); assert(vx_p.t.subrange(i as int, i + 1) =~= seq![vx_p.t[i as int]]); }
@beforeloop 2
    proof { assert(phonemes.phs() == vx_acc); assert(i == len); assert(bm_walk(vx_br, vx_p.t, i as int, sub_builder.phonemes.phs(), vx_m, true) == sub_builder.phonemes.phs()); assert(phvs(vx_it2.rest()) == sub_builder.phonemes.phs()); }
@loop 2
    invariant_except_break
        bm_join(phonemes.phs(), phvs(vx_it2.rest()), vx_p.l) == bm_join(vx_acc, vx_w, vx_p.l),
    invariant
        phoneme.phv() == vx_p,
    ensures phonemes.phs() == bm_join(vx_acc, vx_w, vx_p.l)
    decreases vx_it2.rest().len()
@fn PhoneticEngine::encode
    requires self.ok()
    ensures r@ == bm_code(self.ev(), bm_norm(input@), bm_guess(self.ev(), slower(input@)))
    decreases bm_norm(input@).len(), 1int
@fn PhoneticEngine::encode_with_language_set
    requires self.ok()
    ensures r@ == bm_code(self.ev(), bm_norm(input@), languages.lv())
    decreases bm_norm(input@).len(), 0int
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@start
    let ghost vx_c = self.ev();
    let ghost vx_n = bm_norm(input@);
    let ghost vx_name = self.name_type.nv();
    let ghost vx_w = swords(vx_n);
    broadcast use bm_norms;
    broadcast use bm_words;
    broadcast use lemma_jv_is;
    proof {
        lemma_swords_normal(vx_n);
        if vx_w.len() > 1 { assert forall|i: int| 0 <= i < vx_w.len() implies #[trigger] vx_w[i].len() < vx_n.len() by { lemma_words_short(vx_n, i); } lemma_bm_codes(vx_c, vx_w, vx_n.len()); }
        assert(vx_hint(bm_codes(vx_c, vx_w, vx_n.len())));
        assert(vx_hint(bm_keeps(vx_name)));
        assert(bm_for(vx_name, vx_w));
    }
@closure 0 |v: &&str| -> (vx_r: String)
    requires normal((*v)@), (*v)@.len() < vx_n.len()
    ensures vx_r@ == bm_code(vx_c, (*v)@, bm_guess(vx_c, (*v)@))
@closure 1 |v: &&str| -> (vx_r: &str)
    ensures vx_r@ == bm_cut(vx_name, (*v)@)
@closure 2 |v: &&str| -> (vx_r: bool)
    ensures vx_r == bm_keeps(vx_name)(*v)
@before let l = if known
    proof { assert(languages.lv() is Some && (languages.lv()->0).len() == 1 ==> l@ == (languages.lv()->0).choose()); }
@before let final_rules1
    proof { assert(l@ == bm_lang(vx_c, languages.lv())); assert(self.rules.rules@.contains_key((vx_name, vx_c.kind, s_common()))); assert(self.rules.rules@.contains_key((vx_name, 2, l@))); }
@beforeloop 0
    let ghost vx_all = rstrs(vx_it0.rest());
    proof {
        lemma_prefixes_asc(); lemma_prefixes_normal();
        assert(asc(vx_all));
        assert forall|x: Seq<char>| #![trigger vx_all.contains(x)] #![trigger bm_prefixes(1).contains(x)] vx_all.contains(x) == bm_prefixes(1).contains(x) by {
            lemma_bts(vx_it0, x);
            if vx_all.contains(x) { let i = choose|i: int| 0 <= i < vx_all.len() && vx_all[i] == x; assert((*vx_it0.rest()[i]).kv() == x); }
            if bm_prefixes(1).contains(x) { assert(bts(vx_it0).contains(x)); let i = choose|i: int| 0 <= i < vx_it0.rest().len() && (*#[trigger] vx_it0.rest()[i]).kv() == x; assert(vx_all[i] == x); }
        }
        lemma_asc_unique(vx_all, bm_prefixes(1));
    }
@loop 0
    invariant_except_break
        bm_prefix(rstrs(vx_it0.rest()), vx_n) == bm_prefix(bm_prefixes(1), vx_n),
    invariant
        self.ok(), vx_c == self.ev(), vx_n == bm_norm(vx_input@), input@ == vx_n, vx_name == 1, vx_name == vx_c.name,
        !sstarts(vx_n, seq!['d', '\'']),
        forall|i: int| 0 <= i < vx_it0.rest().len() ==> normal((*#[trigger] vx_it0.rest()[i])@),
    ensures bm_prefix(bm_prefixes(1), vx_n) is None
    decreases vx_it0.rest().len()
@loopstart 0
    proof { assert(normal(prefix@)); assert(normal(vx_n)); assert(bm_norm(vx_input@) == vx_n); }
@loop 1
    invariant
        self.ok(), vx_c == self.ev(),
        rules_ok(rules@), input.ok(), end == input.inner@.len(), i <= end, vx_t == input.inner@,
        bm_walk(brules(rules@), vx_t, i as int, phoneme_builder.phonemes.phs(), vx_c.max, false) == vx_a,
    ensures phoneme_builder.phonemes.phs() == vx_a
    decreases end - i
@looppre 1
    proof { assert(input.inner@ == (if self.concat { sjoin(bm_kept(vx_name, vx_w), seq![' ']) } else { vx_w[0] })); }
@beforeloop 1
    let ghost vx_t = input.inner@;
    let ghost vx_a = bm_walk(brules(rules@), vx_t, 0, phoneme_builder.phonemes.phs(), vx_c.max, false);
@fn LanguageSet::is_singleton
    ensures r == (self.lv() is Some && (self.lv()->0).len() == 1)
@fn LanguageSet::any
    ensures
        r is Some ==> self.lv() is Some && (self.lv()->0).contains((r->0)@) && ((self.lv()->0).len() == 1 ==> (r->0)@ == (self.lv()->0).choose()),
        r is None ==> self.lv() is None || self.lv() == Some(Set::<Seq<char>>::empty())
@start
    broadcast use vx_sets_group;
    proof { match self { LanguageSet::SomeLanguages(s) => { lemma_singleton_set(s@); if s@.len() == 1 { let l = choose|l: Seq<char>| is_just(s@, l); assert(s@.contains(l)); assert(s@.contains(s@.choose())); } if forall|l: Seq<char>| !#[trigger] s@.contains(l) { assert(s@ =~= Set::<Seq<char>>::empty()); } } _ => { } } }
@closure 0 |v: &String| -> (vx_r: &str)
    ensures vx_r@ == v@
@trait BeiderMorse:Encoder
    open spec fn enc(&self, s: Seq<char>) -> Seq<char> { bm_encode(self.engine.ev(), s) }
    open spec fn enc_ok(&self) -> bool { self.engine.ok() }
@fn BeiderMorse::encode
@fn BeiderMorse::encode_with_languages
    requires self.engine.ok()
    ensures r@ == bm_code(self.engine.ev(), bm_norm(value@), languages.lv())
@text
impl RuleType { pub open spec fn kdv(&self) -> int { match self { RuleType::Approx => 0, RuleType::Exact => 1 } } }
impl BeiderMorseBuilder<'_> {
    pub open spec fn ev(&self) -> BmCfg {
        let l = self.config_files.langs.langs@[self.name_type.nv()];
        BmCfg { rules: self.config_files.rules.rsv(), langs: l.languages@, guess: l.gv(), name: self.name_type.nv(), kind: self.rule_type.kdv(), concat: self.concat, max: self.max_phonemes as int }
    }
}
@fn Langs::get
    ensures r is Some <==> self.langs@.contains_key(name_type.nv()), r is Some ==> *r->0 == self.langs@[name_type.nv()]
@trait PrivateRuleType:From<RuleType>
    open spec fn from_spec(t: RuleType, r: Self) -> bool { r.kdv() == t.kdv() }
@fn PrivateRuleType::From<RuleType>::from
@fn BeiderMorseBuilder::new
    ensures r.config_files == config_files, r.name_type is Generic, r.rule_type is Approx, r.concat, r.max_phonemes == 20
@fn BeiderMorseBuilder::name_type
    ensures r == (BeiderMorseBuilder { name_type: name_type, ..self })
@fn BeiderMorseBuilder::rule_type
    ensures r == (BeiderMorseBuilder { rule_type: rule_type, ..self })
@fn BeiderMorseBuilder::concat
    ensures r == (BeiderMorseBuilder { concat: concat, ..self })
@fn BeiderMorseBuilder::max_phonemes
    ensures r == (BeiderMorseBuilder { max_phonemes: max_phonemes, ..self })
@fn BeiderMorseBuilder::build
    requires self.config_files.ok()
    ensures r.engine.ok(), r.engine.ev() == self.ev()
