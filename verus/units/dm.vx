@use prelude/sets.rs prelude/nom.rs prelude/fmt.rs spec/clean.rs spec/rules_text.rs spec/dm.rs proof/char_sequence.rs proof/rules_text.rs proof/dm.rs
@include helper_vowel.vx
@include encoder.vx
@include nom_parsers.vx
@include build_error.vx
@norename matches
@file src/daitch_mokotoff.rs
@text
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { smap(v, |s: String| s@) }
pub open spec fn rules_view(v: Seq<Rule>) -> Seq<DmRule> { smap(v, |r: Rule| r.rv()) }
pub open spec fn branches(v: Seq<Branch>) -> Seq<(Seq<char>, Option<Seq<char>>)> { smap(v, |b: Branch| b.bv()) }
impl Rule { pub open spec fn rv(&self) -> DmRule { DmRule { p: self.pattern@, start: strs(self.replacement_at_start@), vowel: strs(self.replacement_before_vowel@), other: strs(self.replacement_default@) } } }
impl<'a> Branch<'a> { pub open spec fn bv(&self) -> (Seq<char>, Option<Seq<char>>) { (self.builder@, match self.last_replacement { Some(s) => Some(s@), None => None }) } }
impl DaitchMokotoffSoundex {
    pub open spec fn table(&self) -> Map<char, Seq<DmRule>> { self.rules@.map_values(|v: Vec<Rule>| rules_view(v@)) }
    pub open spec fn codes(&self, s: Seq<char>, all: bool) -> Seq<Seq<char>> { dam_codes(self.table(), self.ascii_folding, self.ascii_folding_rules@, s, all) }
}
pub proof fn lemma_dam_add(v: Seq<Branch>)
    ensures
        forall|x: Branch| #[trigger] branches(v.push(x)) == branches(v).push(x.bv()),
        forall|c: Seq<char>| #[trigger] dam_has(branches(v), c) == exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).builder@ == c
{
    assert forall|x: Branch| #[trigger] branches(v.push(x)) == branches(v).push(x.bv()) by { assert(branches(v.push(x)) =~= branches(v).push(x.bv())); }
    let m = smap(branches(v), |x: (Seq<char>, Option<Seq<char>>)| x.0);
    assert forall|c: Seq<char>| #[trigger] dam_has(branches(v), c) == exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).builder@ == c by {
        if m.contains(c) { let i = choose|i: int| 0 <= i < m.len() && m[i] == c; assert(v[i].builder@ == c); }
        if exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).builder@ == c { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).builder@ == c; assert(m[i] == c); }
    }
}
@trait Branch:Default
    open spec fn default_spec(r: Self) -> bool { r.bv() == (Seq::<char>::empty(), None::<Seq<char>>) }
@fn Branch::default
@fn Branch::finish
    ensures final(self).builder@ == dam_pad(old(self).builder@)
@loop 0
    invariant dam_pad(self.builder@) == dam_pad(old(self).builder@)
    ensures self.builder@ == dam_pad(old(self).builder@)
    decreases 6 - self.builder@.len()
@fn Branch::process_next_replacement
    ensures final(self).bv() == dam_step(old(self).bv(), replacement@, append_force)
@fn Rule::get_pattern_length
    ensures r == self.pattern@.len()
@fn Rule::matches
    ensures r == sstarts(context@, self.pattern@)
@fn Rule::get_replacements
    ensures strs(r@) == dam_reps(self.rv(), context@, at_start)
@fn DaitchMokotoffSoundex::inner_soundex
    ensures strs(r@) == self.codes(value@, branching)
@start
    let ghost vx_t = self.table();
    let ghost vx_b0 = seq![(Seq::<char>::empty(), None::<Seq<char>>)];
@closure 1 |ch: char| -> (vx_r: char)
    ensures vx_r == dam_fold(self.ascii_folding, self.ascii_folding_rules@, ch)
@closure 2 |other: &Branch| -> (vx_r: bool)
    ensures vx_r == (other.builder@ == next_branch.builder@)
@beforeloop 0
    let ghost vx_total = dam_walk(vx_t, source@, '\0', vx_b0, branching);
    proof { assert(source@ == dam_clean(self.ascii_folding, self.ascii_folding_rules@, value@)); assert(branches(current_branches@) =~= vx_b0); lemma_sindices_len(0, source@); assert(source@.skip(0) =~= source@); }
@loop 0
    invariant
        vx_t == self.table(), blen(source@) <= MAXLEN(), sindices(0, source@).len() == source@.len(),
        iterator.rest() == sindices(0, source@).skip(source@.len() - iterator.rest().len()), iterator.rest().len() <= source@.len(),
        dam_walk(vx_t, source@.skip(source@.len() - iterator.rest().len()), last_char, branches(current_branches@), branching) == vx_total
    ensures branches(current_branches@) == vx_total
    decreases iterator.rest().len()
@loopstart 0
    let ghost vx_p = source@.len() - iterator.rest().len() - 1;
    let ghost vx_s = source@.skip(vx_p);
    let ghost vx_cb = branches(current_branches@);
    let ghost vx_f = (last_char == 'm' && ch == 'n') || (last_char == 'n' && ch == 'm');
    proof { lemma_sindices(0, source@, vx_p); lemma_blen_split(source@, vx_p); assert(sindices(0, source@).skip(vx_p)[0] == sindices(0, source@)[vx_p]); assert(sindices(0, source@).skip(vx_p).skip(1) =~= sindices(0, source@).skip(vx_p + 1)); assert(vx_s.skip(1) =~= source@.skip(vx_p + 1)); assert(vx_s[0] == source@[vx_p]); }
@loop 1
    invariant_except_break
        branches(current_branches@) == vx_cb, iterator.rest().len() == vx_s.len() - 1,
        dam_find(rules_view(rules@).skip(rules@.len() - vx_it1.rest().len()), vx_s) == dam_find(rules_view(rules@), vx_s)
    invariant
        context@ == vx_s, iter_of(vx_it1, rules@),
        vx_f == ((last_char == 'm' && ch == 'n') || (last_char == 'n' && ch == 'm')),
        sindices(0, source@).len() == source@.len(), vx_p + vx_s.len() == source@.len(), vx_s == source@.skip(vx_p), vx_p >= 0, vx_s.len() > 0,
        iterator.rest() == sindices(0, source@).skip(source@.len() - iterator.rest().len()), iterator.rest().len() <= source@.len(),
    ensures
        match dam_find(rules_view(rules@), vx_s) {
            None => branches(current_branches@) == vx_cb && iterator.rest().len() == vx_s.len() - 1,
            Some(x) => branches(current_branches@) == dam_next(Seq::empty(), vx_cb, dam_reps(x, vx_s, last_char == '\0'), vx_f, branching) && iterator.rest().len() == vx_s.len() - dam_skip(x, vx_s),
        }
    decreases vx_it1.rest().len()
@loopstart 1
    let ghost vx_k1 = rules@.len() - vx_it1.rest().len() - 1;
    proof { assert(rules_view(rules@).skip(vx_k1)[0] == rule.rv()); assert(rules_view(rules@).skip(vx_k1).skip(1) =~= rules_view(rules@).skip(vx_k1 + 1)); }
@beforeloop 2
    let ghost vx_reps = dam_reps(rule.rv(), vx_s, last_char == '\0');
    proof { assert(branches(next_branches@) =~= Seq::empty()); assert(vx_cb.skip(0) =~= vx_cb); }
@loop 2
    invariant
        branches(current_branches@) == vx_cb, strs(replacement@) == vx_reps,
        vx_f == ((last_char == 'm' && ch == 'n') || (last_char == 'n' && ch == 'm')),
        iter_of(vx_it2, current_branches@),
        dam_next(branches(next_branches@), vx_cb.skip(vx_cb.len() - vx_it2.rest().len()), vx_reps, vx_f, branching) == dam_next(Seq::empty(), vx_cb, vx_reps, vx_f, branching)
    ensures branches(next_branches@) == dam_next(Seq::empty(), vx_cb, vx_reps, vx_f, branching)
    decreases vx_it2.rest().len()
@loopstart 2
    let ghost vx_k2 = vx_cb.len() - vx_it2.rest().len() - 1;
    let ghost vx_acc = branches(next_branches@);
    proof { assert(vx_cb.skip(vx_k2)[0] == branch.bv()); assert(vx_cb.skip(vx_k2).skip(1) =~= vx_cb.skip(vx_k2 + 1)); assert(vx_reps.skip(0) =~= vx_reps); }
@loop 3
    invariant_except_break
        dam_fan(branches(next_branches@), branch.bv(), vx_reps.skip(vx_reps.len() - vx_it3.rest().len()), vx_f, branching) == dam_fan(vx_acc, branch.bv(), vx_reps, vx_f, branching)
    invariant
        iter_of(vx_it3, replacement@), strs(replacement@) == vx_reps,
        vx_f == ((last_char == 'm' && ch == 'n') || (last_char == 'n' && ch == 'm')),
    ensures branches(next_branches@) == dam_fan(vx_acc, branch.bv(), vx_reps, vx_f, branching)
    decreases vx_it3.rest().len()
@loopstart 3
    let ghost vx_k3 = vx_reps.len() - vx_it3.rest().len() - 1;
    let ghost vx_nb = next_branches@;
    proof { assert(vx_reps.skip(vx_k3)[0] == next_replacement@); assert(vx_reps.skip(vx_k3).skip(1) =~= vx_reps.skip(vx_k3 + 1)); lemma_dam_add(vx_nb); }
@looppre 4
    let ghost vx_fin = current_branches@;
@loop 4
    invariant
        vx_it4.rest().len() + result@.len() == vx_fin.len(),
        forall|i: int| 0 <= i < vx_it4.rest().len() ==> *(#[trigger] vx_it4.rest()[i]) == vx_fin[i + result@.len()],
        forall|i: int| 0 <= i < result@.len() ==> (#[trigger] result@[i])@ == dam_pad(vx_fin[i].builder@)
    ensures
        result@.len() == vx_fin.len(),
        forall|i: int| 0 <= i < result@.len() ==> (#[trigger] result@[i])@ == dam_pad(vx_fin[i].builder@)
    decreases vx_it4.rest().len()
@fn DaitchMokotoffSoundex::soundex
    ensures r@ == sjoin(self.codes(value@, true), seq!['|'])
@trait DaitchMokotoffSoundex:Encoder
    open spec fn enc_ok(&self) -> bool { true }
    open spec fn enc(&self, s: Seq<char>) -> Seq<char> { dam_encode(self.table(), self.ascii_folding, self.ascii_folding_rules@, s) }
@fn DaitchMokotoffSoundex::encode
@closure 0 |v: &String| -> (vx_r: String)
    ensures vx_r@ == v@

@fn Rule::parse_branch
    ensures strs(r@) == ssplit(part@, '|')
@closure 0 |v: &str| -> (vx_r: String)
    ensures vx_r@ == v@
@trait Rule:TryFrom<(&str,&str,&str,&str)>
    open spec fn try_from_spec(q: (&str, &str, &str, &str), r: Result<Self, PhoneticError>) -> bool { r is Ok && (r->Ok_0).rv() == dam_rule((q.0@, q.1@, q.2@, q.3@)) }
@fn Rule::TryFrom<(&str,&str,&str,&str)>::try_from
@fn DaitchMokotoffSoundexBuilder::with_rules
    ensures r.rules@ == rules@, r.ascii_folding
@fn DaitchMokotoffSoundexBuilder::ascii_folding
    ensures r.rules@ == self.rules@, r.ascii_folding == ascii_folding
@text
pub open spec fn dm_table(m: Map<char, Vec<Rule>>) -> Map<char, Seq<DmRule>> { m.map_values(|v: Vec<Rule>| rules_view(v@)) }
pub open spec fn dm_key() -> spec_fn(Rule) -> int { |r: Rule| -blen(r.pattern@) }
/// what building gives, for the meaning of the text
pub open spec fn dm_built(d: DmText, folding: bool, r: Result<DaitchMokotoffSoundex, PhoneticError>) -> bool {
    match d.bad {
        None => r is Ok && (r->Ok_0).table() == d.rules && (r->Ok_0).ascii_folding_rules@ == d.fold && (r->Ok_0).ascii_folding == folding,
        Some(b) => r is Err && parse_error(r->Err_0, b.0, None, p_line(b.1)),
    }
}
/// a rule added under the first character of its pattern
pub proof fn lemma_dm_put(m: Map<char, Vec<Rule>>)
    ensures forall|c: char, v: Vec<Rule>| v@.len() > 0 && v@.last().pattern@.len() > 0 && v@.last().pattern@[0] == c && v@.drop_last() == (if m.contains_key(c) { m[c]@ } else { Seq::empty() })
        ==> dm_table(#[trigger] m.insert(c, v)) == dam_put(dm_table(m), v@.last().rv())
{
    assert forall|c: char, v: Vec<Rule>| v@.len() > 0 && v@.last().pattern@.len() > 0 && v@.last().pattern@[0] == c && v@.drop_last() == (if m.contains_key(c) { m[c]@ } else { Seq::empty() })
        implies dm_table(#[trigger] m.insert(c, v)) == dam_put(dm_table(m), v@.last().rv()) by {
        assert(rules_view(v@) =~= rules_view(v@.drop_last()).push(v@.last().rv()));
        if !m.contains_key(c) { assert(rules_view(v@.drop_last()) =~= Seq::empty()); }
        assert(dm_table(m.insert(c, v)) =~= dam_put(dm_table(m), v@.last().rv()));
    }
}
@fn DaitchMokotoffSoundexBuilder::build
    ensures dm_built(dam_build(self.rules@), self.ascii_folding, r)
@start
    let ghost vx_d = dam_read(self.rules@, 1, Map::empty(), Map::empty());
@beforeloop 0
    proof { assert(dm_table(rules@) =~= Map::empty()); axiom_str_len(remains); }
@loop 0
    invariant
        vx_d == dam_read(self.rules@, 1, Map::empty(), Map::empty()),
        dam_read(remains@, line_number + 1, dm_table(rules@), ascii_folding_rules@) == vx_d,
        line_number + remains@.len() <= MAXLEN()
    ensures vx_d == (DmText { rules: dm_table(rules@), fold: ascii_folding_rules@, bad: None })
    decreases remains@.len()
@before match rule.pattern.chars().next()
    let ghost vx_rv = rule.rv();
    assert(vx_rv == dam_rule((p_quad(remains@)->0).0));
@after match rule.pattern.chars().next()
    assert(vx_rv.p.len() > 0);
    let ghost vx_c = vx_rv.p[0];
    let ghost vx_v = rules@[vx_c];
    assert(vx_v@.drop_last() =~= (if vx_rules.contains_key(vx_c) { vx_rules[vx_c]@ } else { Seq::empty() }));
    assert(vx_v@.last().rv() == vx_rv);
    assert(rules@ == vx_rules.insert(vx_c, vx_v));
@loopstart 0
    let ghost vx_rules = rules@;
    let ghost vx_fold = ascii_folding_rules@;
    proof { lemma_p_shorter(remains@); lemma_dm_put(rules@); }
@looppre 1
    let ghost vx_m = rules@;
@loop 1
    invariant
        vx_it1.rest().len() <= vx_all.len(), vx_it1.rest() == vx_all.skip(vx_all.len() - vx_it1.rest().len()),
        forall|i: int| 0 <= i < vx_all.len() - vx_it1.rest().len() ==> final(#[trigger] vx_all[i])@ == sstable(vx_all[i]@, dm_key())
    ensures
        forall|i: int| 0 <= i < vx_all.len() ==> final(#[trigger] vx_all[i])@ == sstable(vx_all[i]@, dm_key())
    decreases vx_it1.rest().len()
@beforeloop 1
    let ghost vx_all = vx_it1.rest();
@loopend 1
    assert(v@ == sstable(vx_v0, dm_key()));
@loopstart 1
    let ghost vx_v0 = v@;
    assert(vx_hint(dm_key()));
    assert(v == vx_all[vx_all.len() - vx_it1.rest().len() - 1]);
@afterloop 1
    proof {
        let ks = choose|ks: Seq<char>| #[trigger] vx_vals(ks, vx_m, rules@, vx_all);
        assert forall|c: char| rules@.contains_key(c) implies #[trigger] rules_view(rules@[c]@) == sstable(rules_view(vx_m[c]@), |r: DmRule| -blen(r.p)) by {
            assert(ks.contains(c)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == c; assert(*vx_all[i] == vx_m[ks[i]]);
            lemma_rules_order(vx_m[c]@);
        }
        assert(dm_table(rules@) =~= dam_order(dm_table(vx_m)));
    }
@closure 0 |a: &Rule, b: &Rule| -> (vx_r: Ordering)
    ensures vx_r == ord_of(-blen(a.pattern@), -blen(b.pattern@))
@text
pub proof fn lemma_rules_order(v: Seq<Rule>)
    ensures rules_view(sstable(v, dm_key())) == sstable(rules_view(v), |r: DmRule| -blen(r.p))
    decreases v.len()
{
    let k = |r: DmRule| -blen(r.p);
    if v.len() > 0 {
        lemma_rules_order(v.drop_last());
        assert(rules_view(v).drop_last() =~= rules_view(v.drop_last()));
        lemma_rules_insert(sstable(v.drop_last(), dm_key()), v.last());
    } else { assert(rules_view(v) =~= Seq::empty()); }
}
pub proof fn lemma_rules_insert(s: Seq<Rule>, x: Rule)
    ensures rules_view(sinsert(s, x, dm_key())) == sinsert(rules_view(s), x.rv(), |r: DmRule| -blen(r.p))
    decreases s.len()
{
    if s.len() > 0 && dm_key()(s.last()) > dm_key()(x) {
        lemma_rules_insert(s.drop_last(), x);
        assert(rules_view(s).drop_last() =~= rules_view(s.drop_last()));
        assert(rules_view(sinsert(s.drop_last(), x, dm_key()).push(s.last())) =~= rules_view(sinsert(s.drop_last(), x, dm_key())).push(s.last().rv()));
    } else { assert(rules_view(s.push(x)) =~= rules_view(s).push(x.rv())); }
}
@text
pub open spec fn dm_default_text() -> Seq<char> { vx_included("rules/dmrules.txt"@) }
/// ASSUMED, and checked by evaluating the specification on the text itself on every run (harness conform): the built-in rules are rules
pub axiom fn axiom_dm_default()
    ensures dam_build(dm_default_text()).bad is None;
@fn DaitchMokotoffSoundexBuilder::default
    ensures r.rules@ == dm_default_text(), r.ascii_folding
@fn DaitchMokotoffSoundex::default
    ensures dm_built(dam_build(dm_default_text()), true, Ok(r))
@start
    proof { axiom_dm_default(); }
