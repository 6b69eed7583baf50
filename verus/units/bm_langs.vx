@use prelude/sets.rs prelude/nom.rs prelude/fmt.rs prelude/regex.rs spec/rules_text.rs spec/bm_ctx.rs spec/bm.rs spec/bm_text.rs proof/rules_text.rs
@tries
@include nom_parsers.vx
@include bm_view_langs.vx
@include build_error.vx
@file src/beider_morse/languages.rs
@file src/beider_morse/lang.rs
@text
pub open spec fn languages_read(d: Result<Set<Seq<char>>, (int, Seq<char>)>, r: Result<BTreeSet<String>, PhoneticError>) -> bool {
    match d { Ok(t) => r is Ok && (r->Ok_0)@ == t, Err(b) => r is Err && parse_error(r->Err_0, b.0, None, p_line(b.1)) }
}
pub open spec fn langs_read(d: Result<Seq<BmGuess>, (int, Seq<char>)>, file: Option<Seq<char>>, languages: Set<Seq<char>>, r: Result<Lang, PhoneticError>) -> bool {
    match d { Ok(g) => r is Ok && guesses((r->Ok_0).rules@) == g && (r->Ok_0).languages@ == languages, Err(b) => r is Err && parse_error(r->Err_0, b.0, file, p_line(b.1)) }
}
@fn parse_liste
    ensures languages_read(bm_languages(list@, 1, Set::empty()), r)
@start
    let ghost vx_d = bm_languages(list@, 1, Set::empty());
@beforeloop 0
    proof { axiom_str_len(remains); }
@loop 0
    invariant
        vx_d == bm_languages(list@, 1, Set::empty()),
        bm_languages(remains@, line_number + 1, result@) == vx_d,
        line_number + remains@.len() <= MAXLEN()
    ensures vx_d == Ok::<Set<Seq<char>>, (int, Seq<char>)>(result@)
    decreases remains@.len()
@loopstart 0
    proof { lemma_p_shorter(remains@); lemma_p_shorter2(remains@); }
@fn parse_lang
    ensures langs_read(bm_langs(content@, 1, Seq::empty()), filename.vv(), languages@, r)
@start
    let ghost vx_d = bm_langs(content@, 1, Seq::empty());
    broadcast use vx_sets_strings;
@beforeloop 0
    proof { axiom_str_len(remains); assert(guesses(rules@) =~= Seq::empty()); }
@loop 0
    invariant
        vx_d == bm_langs(content@, 1, Seq::empty()),
        filename == vx_filename, languages == vx_languages,
        bm_langs(remains@, line_number + 1, guesses(rules@)) == vx_d,
        line_number + remains@.len() <= MAXLEN()
    ensures vx_d == Ok::<Seq<BmGuess>, (int, Seq<char>)>(guesses(rules@))
    decreases remains@.len()
@loopstart 0
    proof { lemma_p_shorter(remains@); lemma_p_shorter2(remains@); lemma_guess(rules@); }
@before let langs: BTreeSet
    let ghost vx_l = langs@;
    let ghost vx_p = pattern.rv();
@before rules.push
    assert(langs@ =~= ssplit(vx_l, '+').to_set());
@closure 0 |error: regex::Error| -> (vx_r: PhoneticError)
    ensures parse_error(vx_r, line_number as int, filename.vv(), p_line(remains@))
@closure 1 |v: &str| -> (vx_r: String)
    ensures vx_r@ == v@
@text
pub proof fn lemma_guess(v: Seq<LangRule>)
    ensures forall|x: LangRule| #[trigger] guesses(v.push(x)) == guesses(v).push(x.gv())
{ assert forall|x: LangRule| #[trigger] guesses(v.push(x)) == guesses(v).push(x.gv()) by { assert(guesses(v.push(x)) =~= guesses(v).push(x.gv())); } }
