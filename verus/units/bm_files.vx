@use prelude/sets.rs prelude/nom.rs prelude/fmt.rs prelude/regex.rs prelude/fs.rs spec/rules_text.rs spec/char_sequence.rs proof/char_sequence.rs proof/languages.rs spec/bm_ctx.rs proof/bm_regex.rs spec/bm.rs spec/bm_text.rs proof/rules_text.rs proof/bm_rule.rs proof/bm_files.rs
@tries
@include bm_rule.vx
@include bm_view_rules.vx
@include nom_parsers.vx
@include build_error.vx
@file src/beider_morse/rule.rs
@text
/// the rules of a directory, by name
pub uninterp spec fn bm_dir(d: OsText) -> IMap<Seq<char>, Seq<char>>;
pub open spec fn bm_dir_file(d: OsText, f: Seq<char>) -> Option<Seq<char>> { fs_text(path_join(d, os_of(f + seq!['.', 't', 'x', 't']))) }
pub broadcast axiom fn axiom_bm_dir(d: OsText, f: Seq<char>)
    ensures #![trigger bm_dir(d).contains_key(f)] #![trigger bm_dir(d)[f]] match bm_dir_file(d, f) { Some(t) => bm_dir(d).contains_key(f) && bm_dir(d)[f] == t, None => !bm_dir(d).contains_key(f) };
/// the rules that are built in: any and common of each name type, and what exact and approx of them share
pub open spec fn embedded_names() -> Seq<Seq<char>> {
    seq!["ash_exact_approx_common"@, "ash_approx_any"@, "ash_approx_common"@, "ash_exact_any"@, "ash_exact_common"@, "ash_rules_any"@, "gen_exact_approx_common"@, "gen_approx_any"@, "gen_approx_common"@, "gen_exact_any"@, "gen_exact_common"@, "gen_rules_any"@, "sep_exact_approx_common"@, "sep_approx_any"@, "sep_approx_common"@, "sep_exact_any"@, "sep_exact_common"@, "sep_rules_any"@]
}
pub open spec fn embedded_path(f: Seq<char>) -> Seq<char> { seq!['r', 'u', 'l', 'e', 's', '/', 'b', 'm', '/'] + f + seq!['.', 't', 'x', 't'] }
pub open spec fn embedded_files() -> IMap<Seq<char>, Seq<char>> { IMap::new(|f: Seq<char>| embedded_names().contains(f), |f: Seq<char>| vx_included(embedded_path(f))) }
impl Resolver {
    /// the texts of the files, by name
    pub open spec fn files(&self) -> IMap<Seq<char>, Seq<char>> { match self.path { Some(d) => bm_dir(d@), None => embedded_files() } }
}
pub broadcast proof fn lemma_strs_of(v: Seq<&str>, it: VxIter<&str>)
    requires v == it.rest()
    ensures #![trigger strs_of(v), vrest(it)] strs_of(v) == vrest(it).to_set()
{ assert(smap(v, |x: &str| x@) =~= vrest(it)); }
pub open spec fn phonemes_view(v: Seq<Phoneme>) -> Seq<Ph> { smap(v, |p: Phoneme| p.phv()) }
pub proof fn lemma_phonemes(v: Seq<Phoneme>)
    ensures forall|x: Phoneme| #[trigger] phonemes_view(v.push(x)) == phonemes_view(v).push(x.phv())
{ assert forall|x: Phoneme| #[trigger] phonemes_view(v.push(x)) == phonemes_view(v).push(x.phv()) by { assert(phonemes_view(v.push(x)) =~= phonemes_view(v).push(x.phv())); } }
/// what reading a file gives, for the meaning of its text
pub open spec fn rules_read(d: BmRead, r: Result<BTreeMap<char, Vec<Rule>>, PhoneticError>) -> bool {
    match d {
        BmRead::Rules(t) => r is Ok && brules((r->Ok_0)@) == t && rules_ok((r->Ok_0)@),
        BmRead::Line(f, n, s) => r is Err && parse_error(r->Err_0, n, Some(f), p_line(s)),
        BmRead::Bad => r is Err && r->Err_0 is BMError,
        BmRead::Missing => r is Err && r->Err_0 is BMError,
        BmRead::Deep => true,
    }
}
/// a rule added under the first character of its pattern
pub proof fn lemma_bm_put(m: Map<char, Vec<Rule>>)
    ensures forall|c: char, v: Vec<Rule>| v@.len() > 0 && v@.last().pattern@.len() > 0 && v@.last().pattern@[0] == c && v@.drop_last() == (if m.contains_key(c) { m[c]@ } else { Seq::empty() })
        ==> brules(#[trigger] m.insert(c, v)) == bm_put(brules(m), v@.last().rv()) && (rules_ok(m) && v@.last().ok() ==> rules_ok(m.insert(c, v)))
{
    assert forall|c: char, v: Vec<Rule>| v@.len() > 0 && v@.last().pattern@.len() > 0 && v@.last().pattern@[0] == c && v@.drop_last() == (if m.contains_key(c) { m[c]@ } else { Seq::empty() })
        implies brules(#[trigger] m.insert(c, v)) == bm_put(brules(m), v@.last().rv()) && (rules_ok(m) && v@.last().ok() ==> rules_ok(m.insert(c, v))) by {
        let f = |r: Rule| r.rv();
        assert(smap(v@, f) =~= smap(v@.drop_last(), f).push(v@.last().rv()));
        if !m.contains_key(c) { assert(smap(v@.drop_last(), f) =~= Seq::empty()); }
        assert(brules(m.insert(c, v)) =~= bm_put(brules(m), v@.last().rv()));
        if rules_ok(m) && v@.last().ok() {
            assert forall|d: char, k: int| #![trigger m.insert(c, v)[d]@[k]] m.insert(c, v).contains_key(d) && 0 <= k < m.insert(c, v)[d]@.len() implies m.insert(c, v)[d]@[k].ok() by {
                if d == c { if k < v@.len() - 1 { assert(v@[k] == v@.drop_last()[k]); assert(m[c]@[k].ok()); } else { assert(v@[k] == v@.last()); } } else { assert(m[d]@[k].ok()); }
            }
        }
    }
}
/// the rules of an included file replace the rules of the same first characters
pub proof fn lemma_bm_extend(m: Map<char, Vec<Rule>>)
    ensures forall|n: Map<char, Vec<Rule>>| brules(#[trigger] m.union_prefer_right(n)) == brules(m).union_prefer_right(brules(n)) && (rules_ok(m) && rules_ok(n) ==> rules_ok(m.union_prefer_right(n)))
{
    assert forall|n: Map<char, Vec<Rule>>| brules(#[trigger] m.union_prefer_right(n)) == brules(m).union_prefer_right(brules(n)) && (rules_ok(m) && rules_ok(n) ==> rules_ok(m.union_prefer_right(n))) by {
        let u = m.union_prefer_right(n);
        assert(brules(u) =~= brules(m).union_prefer_right(brules(n)));
        if rules_ok(m) && rules_ok(n) { assert forall|c: char, k: int| #![trigger u[c]@[k]] u.contains_key(c) && 0 <= k < u[c]@.len() implies u[c]@[k].ok() by { if n.contains_key(c) { assert(n[c]@[k].ok()); } else { assert(m[c]@[k].ok()); } } }
    }
}
// one wrong phoneme makes the list wrong
pub proof fn lemma_bm_phonemes(s: Seq<Seq<char>>, k: int)
    requires 0 <= k <= s.len()
    ensures bm_phonemes(s.take(k)) is None ==> bm_phonemes(s) is None
    decreases s.len() - k
{ if k < s.len() { lemma_bm_phonemes(s, k + 1); assert(s.take(k + 1).drop_last() =~= s.take(k)); } else { assert(s.take(k) =~= s); } }
@fn Resolver::resolve
    ensures r is Ok <==> self.files().contains_key(filename@), r is Ok ==> (r->Ok_0)@ == self.files()[filename@]
@start
    broadcast use lemma_empty_add;
    broadcast use axiom_bm_dir;
@closure 0 |vx_e: std::io::Error| -> (vx_r: BMError)
    ensures true
@closure 2 || -> (vx_r: BMError)
    ensures true
@closure 1 |v: &&'static str| -> (vx_r: String)
    ensures vx_r@ == v@
@text
pub proof fn lemma_embedded()
    ensures embedded_path("ash_exact_approx_common"@) == "rules/bm/ash_exact_approx_common.txt"@, embedded_names().contains("ash_exact_approx_common"@),
        embedded_path("ash_approx_any"@) == "rules/bm/ash_approx_any.txt"@, embedded_names().contains("ash_approx_any"@),
        embedded_path("ash_approx_common"@) == "rules/bm/ash_approx_common.txt"@, embedded_names().contains("ash_approx_common"@),
        embedded_path("ash_exact_any"@) == "rules/bm/ash_exact_any.txt"@, embedded_names().contains("ash_exact_any"@),
        embedded_path("ash_exact_common"@) == "rules/bm/ash_exact_common.txt"@, embedded_names().contains("ash_exact_common"@),
        embedded_path("ash_rules_any"@) == "rules/bm/ash_rules_any.txt"@, embedded_names().contains("ash_rules_any"@),
        embedded_path("gen_exact_approx_common"@) == "rules/bm/gen_exact_approx_common.txt"@, embedded_names().contains("gen_exact_approx_common"@),
        embedded_path("gen_approx_any"@) == "rules/bm/gen_approx_any.txt"@, embedded_names().contains("gen_approx_any"@),
        embedded_path("gen_approx_common"@) == "rules/bm/gen_approx_common.txt"@, embedded_names().contains("gen_approx_common"@),
        embedded_path("gen_exact_any"@) == "rules/bm/gen_exact_any.txt"@, embedded_names().contains("gen_exact_any"@),
        embedded_path("gen_exact_common"@) == "rules/bm/gen_exact_common.txt"@, embedded_names().contains("gen_exact_common"@),
        embedded_path("gen_rules_any"@) == "rules/bm/gen_rules_any.txt"@, embedded_names().contains("gen_rules_any"@),
        embedded_path("sep_exact_approx_common"@) == "rules/bm/sep_exact_approx_common.txt"@, embedded_names().contains("sep_exact_approx_common"@),
        embedded_path("sep_approx_any"@) == "rules/bm/sep_approx_any.txt"@, embedded_names().contains("sep_approx_any"@),
        embedded_path("sep_approx_common"@) == "rules/bm/sep_approx_common.txt"@, embedded_names().contains("sep_approx_common"@),
        embedded_path("sep_exact_any"@) == "rules/bm/sep_exact_any.txt"@, embedded_names().contains("sep_exact_any"@),
        embedded_path("sep_exact_common"@) == "rules/bm/sep_exact_common.txt"@, embedded_names().contains("sep_exact_common"@),
        embedded_path("sep_rules_any"@) == "rules/bm/sep_rules_any.txt"@, embedded_names().contains("sep_rules_any"@)
{
    assert(embedded_path("ash_exact_approx_common"@) =~= "rules/bm/ash_exact_approx_common.txt"@) by { reveal_strlit("ash_exact_approx_common"); reveal_strlit("rules/bm/ash_exact_approx_common.txt"); }
    assert(embedded_path("ash_approx_any"@) =~= "rules/bm/ash_approx_any.txt"@) by { reveal_strlit("ash_approx_any"); reveal_strlit("rules/bm/ash_approx_any.txt"); }
    assert(embedded_path("ash_approx_common"@) =~= "rules/bm/ash_approx_common.txt"@) by { reveal_strlit("ash_approx_common"); reveal_strlit("rules/bm/ash_approx_common.txt"); }
    assert(embedded_path("ash_exact_any"@) =~= "rules/bm/ash_exact_any.txt"@) by { reveal_strlit("ash_exact_any"); reveal_strlit("rules/bm/ash_exact_any.txt"); }
    assert(embedded_path("ash_exact_common"@) =~= "rules/bm/ash_exact_common.txt"@) by { reveal_strlit("ash_exact_common"); reveal_strlit("rules/bm/ash_exact_common.txt"); }
    assert(embedded_path("ash_rules_any"@) =~= "rules/bm/ash_rules_any.txt"@) by { reveal_strlit("ash_rules_any"); reveal_strlit("rules/bm/ash_rules_any.txt"); }
    assert(embedded_path("gen_exact_approx_common"@) =~= "rules/bm/gen_exact_approx_common.txt"@) by { reveal_strlit("gen_exact_approx_common"); reveal_strlit("rules/bm/gen_exact_approx_common.txt"); }
    assert(embedded_path("gen_approx_any"@) =~= "rules/bm/gen_approx_any.txt"@) by { reveal_strlit("gen_approx_any"); reveal_strlit("rules/bm/gen_approx_any.txt"); }
    assert(embedded_path("gen_approx_common"@) =~= "rules/bm/gen_approx_common.txt"@) by { reveal_strlit("gen_approx_common"); reveal_strlit("rules/bm/gen_approx_common.txt"); }
    assert(embedded_path("gen_exact_any"@) =~= "rules/bm/gen_exact_any.txt"@) by { reveal_strlit("gen_exact_any"); reveal_strlit("rules/bm/gen_exact_any.txt"); }
    assert(embedded_path("gen_exact_common"@) =~= "rules/bm/gen_exact_common.txt"@) by { reveal_strlit("gen_exact_common"); reveal_strlit("rules/bm/gen_exact_common.txt"); }
    assert(embedded_path("gen_rules_any"@) =~= "rules/bm/gen_rules_any.txt"@) by { reveal_strlit("gen_rules_any"); reveal_strlit("rules/bm/gen_rules_any.txt"); }
    assert(embedded_path("sep_exact_approx_common"@) =~= "rules/bm/sep_exact_approx_common.txt"@) by { reveal_strlit("sep_exact_approx_common"); reveal_strlit("rules/bm/sep_exact_approx_common.txt"); }
    assert(embedded_path("sep_approx_any"@) =~= "rules/bm/sep_approx_any.txt"@) by { reveal_strlit("sep_approx_any"); reveal_strlit("rules/bm/sep_approx_any.txt"); }
    assert(embedded_path("sep_approx_common"@) =~= "rules/bm/sep_approx_common.txt"@) by { reveal_strlit("sep_approx_common"); reveal_strlit("rules/bm/sep_approx_common.txt"); }
    assert(embedded_path("sep_exact_any"@) =~= "rules/bm/sep_exact_any.txt"@) by { reveal_strlit("sep_exact_any"); reveal_strlit("rules/bm/sep_exact_any.txt"); }
    assert(embedded_path("sep_exact_common"@) =~= "rules/bm/sep_exact_common.txt"@) by { reveal_strlit("sep_exact_common"); reveal_strlit("rules/bm/sep_exact_common.txt"); }
    assert(embedded_path("sep_rules_any"@) =~= "rules/bm/sep_rules_any.txt"@) by { reveal_strlit("sep_rules_any"); reveal_strlit("rules/bm/sep_rules_any.txt"); }
    let ns = embedded_names();
    assert(ns.len() == 18);
    assert(ns[0] == "ash_exact_approx_common"@);
    assert(ns[1] == "ash_approx_any"@);
    assert(ns[2] == "ash_approx_common"@);
    assert(ns[3] == "ash_exact_any"@);
    assert(ns[4] == "ash_exact_common"@);
    assert(ns[5] == "ash_rules_any"@);
    assert(ns[6] == "gen_exact_approx_common"@);
    assert(ns[7] == "gen_approx_any"@);
    assert(ns[8] == "gen_approx_common"@);
    assert(ns[9] == "gen_exact_any"@);
    assert(ns[10] == "gen_exact_common"@);
    assert(ns[11] == "gen_rules_any"@);
    assert(ns[12] == "sep_exact_approx_common"@);
    assert(ns[13] == "sep_approx_any"@);
    assert(ns[14] == "sep_approx_common"@);
    assert(ns[15] == "sep_exact_any"@);
    assert(ns[16] == "sep_exact_common"@);
    assert(ns[17] == "sep_rules_any"@);
}
@fn EMBEDDED_RULES
    ensures forall|k: Seq<char>| #[trigger] r@.contains_key(k) <==> embedded_files().contains_key(k), forall|k: Seq<char>| r@.contains_key(k) ==> #[trigger] r@[k]@ == embedded_files()[k]
@end
    proof { lemma_embedded(); reveal_with_fuel(map_of, 19); }
@fn parse_phoneme
    ensures match bm_phoneme(phoneme@) { Some(p) => r is Ok && (r->Ok_0).phv() == p, None => r is Err }
@start
    broadcast use lemma_strs_of;
    proof { lemma_byte_ends(phoneme@); lemma_sends_ch(phoneme@, ']'); axiom_str_len(phoneme); lemma_indices_find(phoneme@, '['); }
@closure 0 |vx_c: &(usize, char)| -> (vx_r: bool)
    ensures vx_r == (vx_c.1 == '[')
@fn parse_phoneme_expr
    ensures match bm_expr(phoneme_rule@) { Some(p) => r is Ok && (r->Ok_0).phv() == p, None => r is Err }
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@start
    let ghost vx_t = phoneme_rule@.subrange(1, phoneme_rule@.len() - 1);
    let ghost vx_parts = ssplit(vx_t, '|');
    proof { lemma_byte_ends(phoneme_rule@); lemma_sends_ch(phoneme_rule@, ')'); lemma_sstarts_ch(phoneme_rule@, '('); lemma_sends_ch(vx_t, '|'); lemma_sstarts_ch(vx_t, '|'); }
@beforeloop 0
    proof { assert(phonemes_view(phs@) =~= Seq::empty()); }
@loopstart 0
    let ghost vx_k = vx_parts.len() - vx_it0.rest().len() - 1;
    proof { assert(vx_parts.skip(vx_k)[0] == vx_parts[vx_k]); assert(vx_parts.skip(vx_k).skip(1) =~= vx_parts.skip(vx_k + 1)); assert(vx_parts.take(vx_k + 1).drop_last() =~= vx_parts.take(vx_k)); assert(vx_parts.take(vx_k + 1).last() == vx_parts[vx_k]); assert(phoneme@ == vx_parts[vx_k]); lemma_bm_phonemes(vx_parts, vx_k + 1); lemma_phonemes(phs@); }
@afterloop 0
    proof { assert(vx_parts.take(vx_parts.len() as int) =~= vx_parts); lemma_phonemes(phs@); }
@loop 0
    invariant
        vx_t == vx_phoneme_rule@.subrange(1, vx_phoneme_rule@.len() - 1), phoneme_rule@ == vx_t,
        vx_parts == ssplit(vx_t, '|'),
        vx_it0.rest().len() <= vx_parts.len(), vrest(vx_it0) == vx_parts.skip(vx_parts.len() - vx_it0.rest().len()),
        bm_phonemes(vx_parts.take(vx_parts.len() - vx_it0.rest().len())) == Some(phonemes_view(phs@))
    ensures bm_phonemes(vx_parts) == Some(phonemes_view(phs@))
    decreases vx_it0.rest().len()
@fn parse_rule
    requires bm_acyclic(resolver.files(), filename@)
    ensures rules_read(bm_whole(resolver.files(), filename@), r), !(bm_whole(resolver.files(), filename@) is Deep)
    decreases bm_depth(resolver.files(), filename@)
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@first
    hide(p_quad); hide(p_eol); hide(p_include); hide(p_comment); hide(p_line); hide(bm_expr); hide(bm_simple); hide(bm_ctx); hide(sfind);
@start
    broadcast use lemma_empty_add;
    let ghost vx_fs = resolver.files();
    let ghost vx_n = bm_depth(vx_fs, filename@);
    let ghost vx_d = bm_whole(vx_fs, filename@);
    proof { let d = choose|d: nat| bm_flat(vx_fs, filename@, d); lemma_bm_depth(vx_fs, filename@, d); }
@beforeloop 0
    proof { axiom_str_len(remains); assert(brules(result@) =~= Map::empty()); }
@loop 0
    invariant
        vx_fs == resolver.files(), !(vx_d is Deep), vx_n == bm_depth(vx_fs, filename@), vx_d == bm_whole(vx_fs, filename@),
        bm_read(vx_fs, filename@, remains@, line_number + 1, brules(result@), vx_n) == vx_d,
        rules_ok(result@),
        line_number + remains@.len() <= MAXLEN()
    ensures vx_d == BmRead::Rules(brules(result@)), rules_ok(result@)
    decreases remains@.len()
@loopstart 0
    let ghost vx_rules = result@;
    proof { lemma_p_shorter(remains@); lemma_p_shorter2(remains@); lemma_bm_put(result@); lemma_bm_extend(result@);
        if let Some((g, r)) = p_include(remains@) { if bm_flat(vx_fs, g, (vx_n - 1) as nat) { lemma_bm_depth(vx_fs, g, (vx_n - 1) as nat); } } }
@before match pattern.chars().next()
    let ghost vx_rv = rule.rv();
    assert(Some(vx_rv) == bm_rule((p_quad(remains@)->0).0));
    proof { axiom_str_len(pattern); }
@after match pattern.chars().next()
    assert(vx_rv.p.len() > 0);
    let ghost vx_c = vx_rv.p[0];
    let ghost vx_v = result@[vx_c];
    assert(vx_v@.drop_last() =~= (if vx_rules.contains_key(vx_c) { vx_rules[vx_c]@ } else { Seq::empty() }));
    assert(vx_v@.last().rv() == vx_rv);
    assert(result@ == vx_rules.insert(vx_c, vx_v));
@closure 0 |error: PhoneticError| -> (vx_r: PhoneticError)
    ensures match error { PhoneticError::BMError(_) => parse_error(vx_r, line_number as int, Some(filename@), p_line(remains@)), _ => vx_r == error }
@file src/lib.rs
@trait PhoneticError:From<regex::Error>
    open spec fn from_spec(e: regex::Error, r: Self) -> bool { r is BMError }
@fn PhoneticError::From<regex::Error>::from
