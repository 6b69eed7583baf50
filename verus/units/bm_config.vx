@use prelude/sets.rs prelude/nom.rs prelude/fmt.rs prelude/regex.rs prelude/fs.rs spec/rules_text.rs spec/char_sequence.rs proof/char_sequence.rs proof/languages.rs spec/bm_ctx.rs proof/bm_regex.rs spec/bm.rs spec/bm_text.rs proof/rules_text.rs proof/bm_rule.rs proof/bm_files.rs proof/bm_config.rs
@tries
@include bm_files.vx
@include bm_langs.vx
@include bm_view.vx
@extra ConfigFiles
@skip CharSequence::fmt
@skip LanguageSet::fmt
@skip Rule::fmt
@skip RuleType::fmt
@skip Phoneme::fmt
@skip OptimizedRegex::fmt
@skip LangRule::fmt
@struct NameType:Sequence
@struct PrivateRuleType:Sequence
@text
impl Languages { pub open spec fn lsv(&self) -> Map<int, Set<Seq<char>>> { self.languages@.map_values(|s: BTreeSet<String>| s@) } }
/// the rules of a name type, rule type and language are those of their file
pub open spec fn rule_file_ok(files: IMap<Seq<char>, Seq<char>>, m: Map<(int, int, Seq<char>), BTreeMap<char, Vec<Rule>>>, k: (int, int, Seq<char>)) -> bool {
    bm_whole(files, bm_rules_name(k.0, k.1, k.2)) == BmRead::Rules(brules(m[k]@)) && rules_ok(m[k]@)
}
pub open spec fn rules_all(files: IMap<Seq<char>, Seq<char>>, m: Map<(int, int, Seq<char>), BTreeMap<char, Vec<Rule>>>) -> bool { forall|k: (int, int, Seq<char>)| #[trigger] m.contains_key(k) ==> rule_file_ok(files, m, k) }
pub broadcast proof fn lemma_rules_all(files: IMap<Seq<char>, Seq<char>>, m: Map<(int, int, Seq<char>), BTreeMap<char, Vec<Rule>>>, k0: (int, int, Seq<char>), r: BTreeMap<char, Vec<Rule>>)
    requires rules_all(files, m), bm_whole(files, bm_rules_name(k0.0, k0.1, k0.2)) == BmRead::Rules(brules(r@)), rules_ok(r@)
    ensures #[trigger] rules_all(files, m.insert(k0, r))
{
    let n = m.insert(k0, r);
    assert forall|k: (int, int, Seq<char>)| #[trigger] n.contains_key(k) implies rule_file_ok(files, n, k) by { if k != k0 { assert(m.contains_key(k)); assert(rule_file_ok(files, m, k)); } }
}
pub open spec fn rule_key(ls: Map<int, Set<Seq<char>>>, k: (int, int, Seq<char>)) -> bool { 0 <= k.0 < 3 && 0 <= k.1 < 3 && ls.contains_key(k.0) && bm_wanted(ls[k.0], k.1, k.2) }
pub open spec fn rules_of(files: IMap<Seq<char>, Seq<char>>, ls: Map<int, Set<Seq<char>>>, m: Map<(int, int, Seq<char>), BTreeMap<char, Vec<Rule>>>) -> bool {
    &&& forall|n: int| 0 <= n < 3 ==> #[trigger] ls.contains_key(n)
    &&& forall|k: (int, int, Seq<char>)| #[trigger] m.contains_key(k) <==> rule_key(ls, k)
    &&& rules_all(files, m)
}
pub open spec fn rule_error(files: IMap<Seq<char>, Seq<char>>, k: (int, int, Seq<char>), e: PhoneticError) -> bool {
    let d = bm_whole(files, bm_rules_name(k.0, k.1, k.2));
    !(d is Rules) && rules_read(d, Err::<BTreeMap<char, Vec<Rule>>, PhoneticError>(e))
}
pub open spec fn rules_error(files: IMap<Seq<char>, Seq<char>>, ls: Map<int, Set<Seq<char>>>, e: PhoneticError) -> bool {
    ||| exists|n: int| 0 <= n < 3 && !(#[trigger] ls.contains_key(n)) && e is BMError
    ||| exists|k: (int, int, Seq<char>)| #[trigger] rule_key(ls, k) && rule_error(files, k, e)
}
pub open spec fn rules_flat(files: IMap<Seq<char>, Seq<char>>, ls: Map<int, Set<Seq<char>>>) -> bool { forall|k: (int, int, Seq<char>)| #[trigger] rule_key(ls, k) ==> bm_acyclic(files, bm_rules_name(k.0, k.1, k.2)) }
/// the language detection of a name type is that of its file
pub open spec fn lang_file_ok(d: OsText, ls: Map<int, Set<Seq<char>>>, n: int, x: Lang) -> bool {
    let t = fs_text(path_join(d, lang_name(n)));
    ls.contains_key(n) && t is Some && bm_langs(t->0, 1, Seq::empty()) == Ok::<Seq<BmGuess>, (int, Seq<char>)>(x.gv()) && x.languages@ == ls[n]
}
pub open spec fn langs_upto(d: OsText, ls: Map<int, Set<Seq<char>>>, m: Map<int, Lang>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] m.contains_key(i) && lang_file_ok(d, ls, i, m[i]) }
pub broadcast proof fn lemma_langs_upto(d: OsText, ls: Map<int, Set<Seq<char>>>, m: Map<int, Lang>, n: int, x: Lang)
    requires langs_upto(d, ls, m, n), lang_file_ok(d, ls, n, x)
    ensures #![trigger m.insert(n, x), langs_upto(d, ls, m, n)] langs_upto(d, ls, m.insert(n, x), n + 1)
{
    let w = m.insert(n, x);
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] w.contains_key(i) && lang_file_ok(d, ls, i, w[i]) by { if i < n { assert(m.contains_key(i)); } }
}
pub open spec fn langs_of(d: OsText, ls: Map<int, Set<Seq<char>>>, m: Map<int, Lang>) -> bool { langs_upto(d, ls, m, 3) }
pub open spec fn lang_error(d: OsText, n: int, e: PhoneticError) -> bool {
    match fs_text(path_join(d, lang_name(n))) { None => e is BMError, Some(t) => match bm_langs(t, 1, Seq::empty()) { Ok(_) => false, Err(b) => parse_error(e, b.0, path_str(path_join(d, lang_name(n))), p_line(b.1)) } }
}
pub open spec fn langs_error(d: OsText, ls: Map<int, Set<Seq<char>>>, e: PhoneticError) -> bool {
    ||| exists|n: int| 0 <= n < 3 && !(#[trigger] ls.contains_key(n)) && e is BMError
    ||| exists|n: int| #![trigger lang_name(n)] 0 <= n < 3 && lang_error(d, n, e)
}
pub open spec fn list_error(d: OsText, n: int, e: PhoneticError) -> bool {
    match fs_text(path_join(d, languages_name(n))) { None => e is BMError, Some(t) => match bm_languages(t, 1, Set::empty()) { Ok(_) => false, Err(b) => parse_error(e, b.0, None, p_line(b.1)) } }
}
pub open spec fn languages_error(d: OsText, e: PhoneticError) -> bool {
    ||| fs_list(d) is None
    ||| exists|n: int| #[trigger] listed(d, n) && list_error(d, n, e)
}
/// a file of languages was read
pub open spec fn list_ok(d: OsText, m: Map<int, BTreeSet<String>>, n: int) -> bool {
    let t = fs_text(path_join(d, languages_name(n)));
    t is Some && bm_languages(t->0, 1, Set::empty()) == Ok::<Set<Seq<char>>, (int, Seq<char>)>(m[n]@)
}
/// a name of languages is among the first entries
pub open spec fn entry_seen(es: Seq<Result<DirEntry, std::io::Error>>, k: int, n: int) -> bool { exists|i: int| 0 <= i < k && ((#[trigger] es[i])->Ok_0).namev() == languages_name(n) }
pub proof fn lemma_entry_seen(es: Seq<Result<DirEntry, std::io::Error>>, k: int)
    requires 0 <= k < es.len()
    ensures forall|n: int| #[trigger] entry_seen(es, k + 1, n) == (entry_seen(es, k, n) || (es[k]->Ok_0).namev() == languages_name(n))
{
    assert forall|n: int| #[trigger] entry_seen(es, k + 1, n) == (entry_seen(es, k, n) || (es[k]->Ok_0).namev() == languages_name(n)) by {
        if entry_seen(es, k, n) { let i = choose|i: int| 0 <= i < k && ((#[trigger] es[i])->Ok_0).namev() == languages_name(n); assert((es[i]->Ok_0).namev() == languages_name(n)); }
    }
}
pub open spec fn str_seen(v: Seq<&String>, k: int, l: Seq<char>) -> bool { exists|i: int| 0 <= i < k && (#[trigger] v[i])@ == l }
pub proof fn lemma_str_seen(v: Seq<&String>, k: int)
    requires 0 <= k < v.len()
    ensures forall|l: Seq<char>| #[trigger] str_seen(v, k + 1, l) == (str_seen(v, k, l) || v[k]@ == l)
{
    assert forall|l: Seq<char>| #[trigger] str_seen(v, k + 1, l) == (str_seen(v, k, l) || v[k]@ == l) by {
        if str_seen(v, k, l) { let i = choose|i: int| 0 <= i < k && (#[trigger] v[i])@ == l; assert(v[i]@ == l); }
    }
}
impl ConfigFiles {
    /// what the files of a directory say
    pub open spec fn reads(&self, d: OsText) -> bool { rules_of(bm_dir(d), dir_languages(d), self.rules.rules@) && langs_of(d, dir_languages(d), self.langs.langs@) }
}
/// what the encoder needs of the rules follows, when every name type lists the language any
pub proof fn lemma_rules_ok(c: ConfigFiles, files: IMap<Seq<char>, Seq<char>>, ls: Map<int, Set<Seq<char>>>)
    requires rules_of(files, ls, c.rules.rules@), forall|n: int| 0 <= n < 3 ==> #[trigger] ls[n].contains(s_any())
    ensures c.rules.ok()
{
    let m = c.rules.rules@;
    assert(s_any() =~= seq!['a', 'n', 'y']); assert(s_common() =~= seq!['c', 'o', 'm', 'm', 'o', 'n']);
    assert forall|n: int, l: Seq<char>, k: int| #![trigger m.contains_key((n, k, l)), m.contains_key((n, 2, l))] (k == 0 || k == 1) && m.contains_key((n, 2, l)) implies m.contains_key((n, k, l)) by { assert(rule_key(ls, (n, 2, l))); assert(rule_key(ls, (n, k, l))); }
    assert forall|n: int, k: int| #![trigger m.contains_key((n, k, s_common()))] (k == 0 || k == 1) && 0 <= n < 3 implies m.contains_key((n, k, s_common())) by { assert(ls.contains_key(n)); assert(rule_key(ls, (n, k, s_common()))); }
    assert forall|n: int| #![trigger m.contains_key((n, 2, s_any()))] 0 <= n < 3 implies m.contains_key((n, 2, s_any())) by { assert(ls.contains_key(n)); assert(ls[n].contains(s_any())); assert(rule_key(ls, (n, 2, s_any()))); }
    assert forall|k: (int, int, Seq<char>)| #![trigger m[k]] m.contains_key(k) implies rules_ok(m[k]@) by { assert(rule_file_ok(files, m, k)); }
}
/// what the encoder needs of a configuration
pub proof fn lemma_config_ok(c: ConfigFiles, d: OsText)
    requires c.reads(d), forall|n: int| 0 <= n < 3 ==> #[trigger] dir_languages(d)[n].contains(s_any())
    ensures c.ok()
{ lemma_rules_ok(c, bm_dir(d), dir_languages(d)); }
/// ASSUMED, and checked by evaluating the specification on the texts themselves on every run (harness conform): the built-in rules are rules
pub broadcast axiom fn axiom_embedded(k: (int, int, Seq<char>))
    requires rule_key(embedded_languages(), k)
    ensures bm_acyclic(embedded_files(), #[trigger] bm_rules_name(k.0, k.1, k.2)), bm_whole(embedded_files(), bm_rules_name(k.0, k.1, k.2)) is Rules;
@trait NameType:Display
    open spec fn shv(&self) -> Seq<char> { bm_name_text(self.nv()) }
@fn NameType::fmt
@ret VxFmtResult
@trait PrivateRuleType:Display
    open spec fn shv(&self) -> Seq<char> { bm_kind_text(self.kdv()) }
@fn PrivateRuleType::fmt
@ret VxFmtResult
@trait NameType:FromStr
    open spec fn from_str_spec(s: Seq<char>, r: Result<Self, BMError>) -> bool { match r { Ok(n) => s == bm_name_text(n.nv()), Err(_) => forall|n: int| 0 <= n < 3 ==> s != #[trigger] bm_name_text(n) } }
@fn NameType::from_str
@trait PrivateRuleType:FromStr
    open spec fn from_str_spec(s: Seq<char>, r: Result<Self, BMError>) -> bool { match r { Ok(n) => s == bm_kind_text(n.kdv()), Err(_) => forall|n: int| 0 <= n < 3 ==> s != #[trigger] bm_kind_text(n) } }
@fn PrivateRuleType::from_str
@fn NameType::language_filename
    ensures r@ == bm_name_text(self.nv()) + seq!['_', 'l', 'a', 'n', 'g', 'u', 'a', 'g', 'e', 's', '.', 't', 'x', 't']
@start
    broadcast use lemma_empty_add;
@trait NameType:TryFrom<OsString>
    open spec fn try_from_spec(t: OsString, r: Result<Self, BMError>) -> bool { match r { Ok(n) => t@ == languages_name(n.nv()), Err(_) => forall|n: int| 0 <= n < 3 ==> t@ != #[trigger] languages_name(n) } }
@fn NameType::TryFrom<OsString>::try_from
@trait BMError:From<std::io::Error>
    open spec fn from_spec(e: std::io::Error, r: Self) -> bool { true }
@fn BMError::From<std::io::Error>::from
@trait PhoneticError:From<std::io::Error>
    open spec fn from_spec(e: std::io::Error, r: Self) -> bool { r is BMError }
@fn PhoneticError::From<std::io::Error>::from
@fn Languages::get
    ensures r is Some <==> self.languages@.contains_key(name_type.nv()), r is Some ==> *r->0 == self.languages@[name_type.nv()]
@fn build_rules
    requires rules_flat(resolver.files(), languages.lsv())
    ensures match r { Ok(x) => rules_of(resolver.files(), languages.lsv(), x.rules@), Err(e) => rules_error(resolver.files(), languages.lsv(), e) }
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@start
    broadcast use lemma_empty_add;
    let ghost vx_ls = languages.lsv();
    let ghost vx_fs = resolver.files();
    broadcast use lemma_rules_all;
@closure 0 || -> (vx_r: BMError)
    ensures true
@loop 0
    invariant
        vx_it0.rest().len() <= 3, vx_it0.rest() == NameType::vx_variants().skip(3 - vx_it0.rest().len()),
        vx_ls == languages.lsv(), vx_fs == resolver.files(),
        forall|n: int| 0 <= n < 3 - vx_it0.rest().len() ==> #[trigger] vx_ls.contains_key(n),
        forall|k: (int, int, Seq<char>)| #[trigger] rules@.contains_key(k) <==> rule_key(vx_ls, k) && k.0 < 3 - vx_it0.rest().len(),
        rules_all(vx_fs, rules@),
    ensures rules_of(vx_fs, vx_ls, rules@)
    decreases vx_it0.rest().len()
@loopstart 0
    let ghost vx_n = 3 - vx_it0.rest().len() - 1;
    assert(name_type.nv() == vx_n);
@loop 1
    invariant
        vx_it1.rest().len() <= 3, vx_it1.rest() == PrivateRuleType::vx_variants().skip(3 - vx_it1.rest().len()),
        forall|k: (int, int, Seq<char>)| #[trigger] rules@.contains_key(k) <==> rule_key(vx_ls, k) && (k.0 < vx_n || k.0 == vx_n && k.1 < 3 - vx_it1.rest().len()),
        rules_all(vx_fs, rules@),
    ensures
        forall|k: (int, int, Seq<char>)| #[trigger] rules@.contains_key(k) <==> rule_key(vx_ls, k) && k.0 <= vx_n,
        rules_all(vx_fs, rules@),
    decreases vx_it1.rest().len()
@loopstart 1
    let ghost vx_k = 3 - vx_it1.rest().len() - 1;
    let ghost vx_t = l@;
    assert(rule_type.kdv() == vx_k);
    assert(vx_t == vx_ls[vx_n]);
    assert(bm_name_text(vx_n) + seq!['_'] + bm_kind_text(vx_k) + "_common"@ =~= bm_rules_name(vx_n, vx_k, s_common()));
@beforeloop 2
    let ghost vx_v = vx_it2.rest();
    proof { broadcast use vx_sets_group; assert forall|l: Seq<char>| vx_t.contains(l) == #[trigger] str_seen(vx_v, vx_v.len() as int, l) by { assert(bts(vx_it2).contains(l) == vx_t.contains(l)); } }
@loop 2
    invariant
        forall|l: Seq<char>| vx_t.contains(l) == #[trigger] str_seen(vx_v, vx_v.len() as int, l),
        vx_it2.rest().len() <= vx_v.len(), vx_it2.rest() == vx_v.skip(vx_v.len() - vx_it2.rest().len()),
        forall|k: (int, int, Seq<char>)| #[trigger] rules@.contains_key(k) <==> rule_key(vx_ls, k) && (k.0 < vx_n || k.0 == vx_n && (k.1 < vx_k || k.1 == vx_k && str_seen(vx_v, vx_v.len() - vx_it2.rest().len(), k.2))),
        rules_all(vx_fs, rules@)
    ensures
        forall|k: (int, int, Seq<char>)| #[trigger] rules@.contains_key(k) <==> rule_key(vx_ls, k) && (k.0 < vx_n || k.0 == vx_n && (k.1 < vx_k || k.1 == vx_k && vx_t.contains(k.2))),
        rules_all(vx_fs, rules@),
    decreases vx_it2.rest().len()
@loopstart 2
    let ghost vx_j = vx_v.len() - vx_it2.rest().len() - 1;
    assert(language == vx_v[vx_j]);
    proof { lemma_str_seen(vx_v, vx_j); assert(str_seen(vx_v, vx_v.len() as int, vx_v[vx_j]@)); }
    assert(rule_key(vx_ls, (vx_n, vx_k, language@)));
@afterloop 2
    proof { if vx_k < 2 { assert(rule_key(vx_ls, (vx_n, vx_k, s_common()))); } }
@fn Rules::new
    requires rules_flat(bm_dir(rules_folder@), languages.lsv())
    ensures match r { Ok(x) => rules_of(bm_dir(rules_folder@), languages.lsv(), x.rules@), Err(e) => rules_error(bm_dir(rules_folder@), languages.lsv(), e) }
@fn build_langs
    ensures match r { Ok(x) => langs_of(directory@, languages_set.lsv(), x.langs@), Err(e) => langs_error(directory@, languages_set.lsv(), e) }
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@start
    broadcast use lemma_empty_add;
    let ghost vx_ls = languages_set.lsv();
@closure 0 || -> (vx_r: BMError)
    ensures true
@closure 1 |error: std::io::Error| -> (vx_r: PhoneticError)
    ensures vx_r is BMError
@closure 2 |v: &str| -> (vx_r: String)
    ensures vx_r@ == v@
@loop 0
    invariant
        vx_it0.rest().len() <= 3, vx_it0.rest() == NameType::vx_variants().skip(3 - vx_it0.rest().len()),
        vx_ls == languages_set.lsv(),
        langs_upto(directory@, vx_ls, langs@, 3 - vx_it0.rest().len())
    ensures langs_of(directory@, vx_ls, langs@)
    decreases vx_it0.rest().len()
@loopstart 0
    let ghost vx_n = 3 - vx_it0.rest().len() - 1;
    assert(name_type.nv() == vx_n);
    let ghost vx_nm = lang_name(vx_n);
    broadcast use lemma_langs_upto;
@fn Langs::new
    ensures match r { Ok(x) => langs_of(directory@, languages.lsv(), x.langs@), Err(e) => langs_error(directory@, languages.lsv(), e) }
@fn Languages::TryFrom<&PathBuf>::try_from
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@beforeloop 0
    let ghost vx_es = vx_it0.rest();
@loop 0
    invariant
        entries_of(directory@, vx_es), vx_it0.rest().len() <= vx_es.len(), vx_it0.rest() == vx_es.skip(vx_es.len() - vx_it0.rest().len()),
        forall|i: int| 0 <= i < vx_es.len() - vx_it0.rest().len() ==> (#[trigger] vx_es[i]) is Ok,
        forall|n: int| #[trigger] map@.contains_key(n) <==> 0 <= n < 3 && entry_seen(vx_es, vx_es.len() - vx_it0.rest().len(), n),
        forall|n: int| #[trigger] map@.contains_key(n) ==> list_ok(directory@, map@, n)
    ensures
        fs_list(directory@) is Some, forall|n: int| #[trigger] map@.contains_key(n) <==> listed(directory@, n), forall|n: int| #[trigger] map@.contains_key(n) ==> list_ok(directory@, map@, n)
    decreases vx_it0.rest().len()
@loopstart 0
    let ghost vx_i = vx_es.len() - vx_it0.rest().len() - 1;
    assert(path == vx_es[vx_i]);
    broadcast use lemma_name_texts;
    proof { lemma_entry_seen(vx_es, vx_i); assert forall|n: int| 0 <= n < 3 && path is Ok && (path->Ok_0).namev() == #[trigger] languages_name(n) && fs_list(directory@) is Some implies listed(directory@, n) by {} }
@end
    proof { if vx_ret is Ok { assert((vx_ret->Ok_0).lsv() =~= dir_languages(directory@)); } }
@trait Languages:TryFrom<&PathBuf>
    open spec fn try_from_spec(d: &PathBuf, r: Result<Self, PhoneticError>) -> bool { match r { Ok(x) => fs_list(d@) is Some && x.lsv() == dir_languages(d@), Err(e) => languages_error(d@, e) } }
@fn Languages::default
@start
    reveal_with_fuel(map_of, 4); reveal_with_fuel(keys_of, 2);
@end
    proof { assert(vx_ret.lsv() =~= embedded_languages()) by { assert forall|n: int| 0 <= n < 3 implies vx_ret.lsv()[n] =~= set![seq!['a', 'n', 'y']] by {} } }
@trait Languages:Default
    open spec fn default_spec(r: Self) -> bool { r.lsv() == embedded_languages() }
@struct Lang:Default
@struct ConfigFiles:Default
    ensures r.ok(), rules_of(embedded_files(), embedded_languages(), r.rules.rules@), <Langs as VxDefault>::default_spec(r.langs)
@text
pub open spec fn langs_empty_upto(m: Map<int, Lang>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] m.contains_key(i) && m[i].gv() == Seq::<BmGuess>::empty() && m[i].languages@ == Set::<Seq<char>>::empty() }
pub broadcast proof fn lemma_langs_empty(m: Map<int, Lang>, n: int, x: Lang)
    requires langs_empty_upto(m, n), <Lang as VxDefault>::default_spec(x)
    ensures #![trigger m.insert(n, x), langs_empty_upto(m, n)] langs_empty_upto(m.insert(n, x), n + 1)
{
    let w = m.insert(n, x);
    assert(x.gv() =~= Seq::<BmGuess>::empty());
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] w.contains_key(i) && w[i].gv() == Seq::<BmGuess>::empty() && w[i].languages@ == Set::<Seq<char>>::empty() by { if i < n { assert(m.contains_key(i)); } }
}
@fn Langs::default
@loop 0
    invariant
        vx_it0.rest().len() <= 3, vx_it0.rest() == NameType::vx_variants().skip(3 - vx_it0.rest().len()),
        langs_empty_upto(langs@, 3 - vx_it0.rest().len())
    ensures langs_empty_upto(langs@, 3)
    decreases vx_it0.rest().len()
@loopstart 0
    broadcast use lemma_langs_empty;
@trait Langs:Default
    /// no language is ever ruled out: every word is of any language
    open spec fn default_spec(r: Self) -> bool { langs_empty_upto(r.langs@, 3) }
@fn Rules::default
    ensures rules_of(embedded_files(), embedded_languages(), r.rules@)
@start
    proof { assert forall|k: (int, int, Seq<char>)| #[trigger] rule_key(embedded_languages(), k) implies bm_acyclic(embedded_files(), bm_rules_name(k.0, k.1, k.2)) && bm_whole(embedded_files(), bm_rules_name(k.0, k.1, k.2)) is Rules by { axiom_embedded(k); } }
@text
/// the built-in configuration can be used
pub broadcast proof fn lemma_default_ok(c: ConfigFiles)
    requires rules_of(embedded_files(), embedded_languages(), c.rules.rules@), <Langs as VxDefault>::default_spec(c.langs)
    ensures #[trigger] c.ok()
{
    assert forall|n: int| 0 <= n < 3 implies #[trigger] embedded_languages()[n].contains(s_any()) by { assert(s_any() =~= seq!['a', 'n', 'y']); }
    lemma_rules_ok(c, embedded_files(), embedded_languages());
}
@fn ConfigFiles::new
    requires rules_flat(bm_dir(directory@), dir_languages(directory@))
    ensures match r { Ok(c) => c.reads(directory@), Err(e) => languages_error(directory@, e) || langs_error(directory@, dir_languages(directory@), e) || rules_error(bm_dir(directory@), dir_languages(directory@), e) }
