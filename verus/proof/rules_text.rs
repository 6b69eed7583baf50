// what the combinators take, in the terms of the specification
pub broadcast proof fn lemma_span_blank(s: Seq<char>)
    ensures #[trigger] sspan(s, nom_blank()) == sspan(s, |c: char| p_blank(c)), sspan(s, nom_blank()) > 0 <==> s.len() > 0 && p_blank(s[0])
{ lemma_sspan_ext(s, nom_blank(), |c: char| p_blank(c)); lemma_sspan_bound(s, nom_blank()); if s.len() > 0 { lemma_sspan_bound(s.skip(1), nom_blank()); } }
pub broadcast proof fn lemma_span_alpha(s: Seq<char>)
    ensures #[trigger] sspan(s, nom_alpha()) == sspan(s, |c: char| is_az(c) || is_AZ(c)), 0 <= sspan(s, nom_alpha())
{ lemma_sspan_ext(s, nom_alpha(), |c: char| is_az(c) || is_AZ(c)); lemma_sspan_bound(s, nom_alpha()); }
pub broadcast proof fn lemma_span_line(s: Seq<char>)
    ensures #[trigger] sspan(s, nom_none_of(seq!['\n'])) == sspan(s, |c: char| c != '\n'), 0 <= sspan(s, nom_none_of(seq!['\n']))
{ assert(seq!['\n'].contains('\n')) by { assert(seq!['\n'][0] == '\n'); } lemma_sspan_ext(s, nom_none_of(seq!['\n']), |c: char| c != '\n'); lemma_sspan_bound(s, nom_none_of(seq!['\n'])); }
pub open spec fn nom_is_space() -> spec_fn(char) -> bool { |c: char| c == ' ' }
pub open spec fn nom_is_name() -> spec_fn(char) -> bool { |c: char| is_alnum(c) || c == '-' || c == '_' }
pub broadcast proof fn lemma_span_word(s: Seq<char>)
    ensures #[trigger] sspan(s, nom_not(nom_is_space())) == sspan(s, |c: char| c != ' '), 0 <= sspan(s, nom_not(nom_is_space())) <= s.len(),
        sspan(s, nom_not(nom_is_space())) < s.len() ==> s[sspan(s, nom_not(nom_is_space()))] == ' '
{ lemma_sspan_ext(s, nom_not(nom_is_space()), |c: char| c != ' '); lemma_sspan_bound(s, nom_not(nom_is_space())); lemma_sspan_stop(s, nom_not(nom_is_space())); }
pub broadcast proof fn lemma_span_name(s: Seq<char>)
    ensures #[trigger] sspan(s, nom_is_name()) == sspan(s, |c: char| is_alnum(c) || c == '-' || c == '_'), 0 <= sspan(s, nom_is_name())
{ lemma_sspan_ext(s, nom_is_name(), |c: char| is_alnum(c) || c == '-' || c == '_'); lemma_sspan_bound(s, nom_is_name()); }
pub proof fn lemma_sspan_stop(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures sspan(s, p) < s.len() ==> !p(s[sspan(s, p)])
    decreases s.len()
{ if s.len() > 0 && p(s[0]) { lemma_sspan_stop(s.skip(1), p); lemma_sspan_bound(s.skip(1), p); } }
pub broadcast proof fn lemma_find_at(s: Seq<char>, t: Seq<char>)
    ensures match #[trigger] sfind(s, t) { Some(k) => 0 <= k && k + t.len() <= s.len() && sstarts(s.skip(k), t), None => true }
{ lemma_sfind_bound(s, t); }
pub broadcast proof fn lemma_lines(s: Seq<char>)
    ensures #[trigger] p_lines(s) == ssplit(s, '\n').len()
    decreases s.len()
{
    let q = |c: char| c == '\n';
    if s.len() > 0 { lemma_lines(s.skip(1)); lemma_ssplit_len(s.skip(1), '\n'); assert(sfilter(s, q) == (if q(s[0]) { seq![s[0]] + sfilter(s.skip(1), q) } else { sfilter(s.skip(1), q) })); }
    else { assert(sfilter(s, q).len() == 0); }
}
pub proof fn lemma_ssplit_len(s: Seq<char>, c: char)
    ensures ssplit(s, c).len() >= 1
    decreases s.len()
{ if s.len() > 0 { lemma_ssplit_len(s.skip(1), c); } }
pub broadcast proof fn lemma_find_in_comment(s: Seq<char>, t: Seq<char>)
    requires s.len() >= 2
    ensures match #[trigger] sfind(s.skip(2), t) { Some(k) => k >= 0 && s.skip(2).take(k) == s.subrange(2, k + 2) && s.skip(2).skip(k).skip(t.len() as int) == s.skip(k + 2 + t.len()) && sstarts(s.skip(2).skip(k), t), None => true }
{ lemma_sfind_bound(s.skip(2), t); match sfind(s.skip(2), t) { Some(k) => { assert(s.skip(2).take(k) =~= s.subrange(2, k + 2)); assert(s.skip(2).skip(k).skip(t.len() as int) =~= s.skip(k + 2 + t.len())); } None => {} } }
pub broadcast group vx_rules_text { lemma_find_in_comment, lemma_span_blank, lemma_span_alpha, lemma_span_line, lemma_span_word, lemma_span_name, lemma_find_at, lemma_lines }
pub open spec fn nom_lines() -> spec_fn((Seq<char>, Seq<char>, Seq<char>)) -> usize { |c: (Seq<char>, Seq<char>, Seq<char>)| p_lines(c.1) as usize }
pub open spec fn nom_some(b: bool) -> spec_fn(Seq<char>) -> Option<bool> { |c: Seq<char>| Some(b) }
pub proof fn lemma_line_find(s: Seq<char>)
    ensures match sfind(s, seq!['\n']) { None => p_line(s) == s, Some(k) => p_line(s) == s.take(k) && 0 <= k <= s.len() }
    decreases s.len()
{
    let q = |c: char| c != '\n'; let n = seq!['\n'];
    if s.len() > 0 {
        assert(s.take(1)[0] == s[0]);
        if s[0] == '\n' { assert(s.take(1) =~= n); } else { assert(s.take(1) != n) by { assert(n[0] == '\n'); } lemma_line_find(s.skip(1)); lemma_sspan_bound(s.skip(1), q);
            lemma_sfind_bound(s.skip(1), n);
            match sfind(s.skip(1), n) { None => { assert(s.skip(1).take(sspan(s.skip(1), q)).len() == s.len() - 1); assert(sspan(s, q) == s.len()); assert(s.take(sspan(s, q)) =~= s); } Some(k) => { assert(s.skip(1).take(sspan(s.skip(1), q)).len() == s.skip(1).take(k).len()); } }
        }
    } else { assert(sfind(s, n) is None); assert(s.take(0) =~= s); }
}
// what a construct of a text leaves is shorter, and a comment has fewer lines than characters
pub proof fn lemma_eol_shorter(s: Seq<char>)
    ensures match p_eol(s) { Some(r) => r.len() <= s.len() && (s.len() > 0 ==> r.len() < s.len()), None => true }
{
    let b = |c: char| p_blank(c); let q = |c: char| c != '\n';
    lemma_sspan_bound(s, b); lemma_sspan_stop(s, b);
    let a = s.skip(sspan(s, b));
    if sstarts(a, seq!['/', '/']) { lemma_sspan_bound(a.skip(2), q); }
}
pub proof fn lemma_part_shorter(s: Seq<char>)
    ensures match p_part(s) { Some(r) => r.1.len() < s.len(), None => true }, match p_part_sp(s) { Some(r) => r.1.len() < s.len(), None => true }
{
    if s.len() > 0 { lemma_sfind_bound(s.skip(1), seq!['"']); }
    match p_part(s) { Some(r) => { lemma_sspan_bound(r.1, |c: char| p_blank(c)); } None => {} }
}
pub proof fn lemma_lines_bound(s: Seq<char>)
    ensures 1 <= p_lines(s) <= s.len() + 1
    decreases s.len()
{ let q = |c: char| c == '\n'; if s.len() > 0 { lemma_lines_bound(s.skip(1)); assert(sfilter(s, q) == (if q(s[0]) { seq![s[0]] + sfilter(s.skip(1), q) } else { sfilter(s.skip(1), q) })); } else { assert(sfilter(s, q).len() == 0); } }
pub proof fn lemma_p_shorter(s: Seq<char>)
    ensures
        match p_eol(s) { Some(r) => r.len() <= s.len() && (s.len() > 0 ==> r.len() < s.len()), None => true },
        match p_quad(s) { Some(r) => r.1.len() < s.len(), None => true },
        match p_fold(s) { Some(r) => r.1.len() < s.len(), None => true },
        match p_comment(s) { Some(r) => r.1.len() < s.len() && 1 <= r.0 && r.0 + r.1.len() < s.len(), None => true },
{
    lemma_eol_shorter(s); lemma_eol_shorter(s.skip(3));
    lemma_part_shorter(s);
    if let Some((w, a)) = p_part_sp(s) { lemma_part_shorter(a); if let Some((x, b)) = p_part_sp(a) { lemma_part_shorter(b); if let Some((y, c)) = p_part_sp(b) { lemma_part_shorter(c); if let Some((z, d)) = p_part(c) { lemma_eol_shorter(d); } } } }
    if sstarts(s, seq!['/', '*']) { lemma_sfind_bound(s.skip(2), seq!['*', '/']); match sfind(s.skip(2), seq!['*', '/']) { Some(k) => { lemma_eol_shorter(s.skip(k + 4)); lemma_lines_bound(s.subrange(2, k + 2)); } None => {} } }
}

pub proof fn lemma_p_shorter2(s: Seq<char>)
    ensures
        match p_include(s) { Some(r) => r.1.len() < s.len(), None => true },
        match p_language(s) { Some(r) => r.1.len() < s.len(), None => true },
        match p_lang(s) { Some(r) => r.1.len() < s.len(), None => true },
{
    let al = |c: char| is_alnum(c) || c == '-' || c == '_'; let az = |c: char| is_az(c) || is_AZ(c); let ns = |c: char| c != ' ';
    if sstarts(s, seq!['#', 'i', 'n', 'c', 'l', 'u', 'd', 'e', ' ']) { lemma_sspan_bound(s.skip(9), al); lemma_eol_shorter(s.skip(9).skip(sspan(s.skip(9), al))); }
    lemma_sspan_bound(s, az); lemma_eol_shorter(s.skip(sspan(s, az)));
    lemma_sspan_bound(s, ns);
    if let Some((rx, a)) = p_word(s) { lemma_sspan_bound(a, ns); if let Some((ls, b)) = p_word(a) { lemma_eol_shorter(b.skip(4)); lemma_eol_shorter(b.skip(5)); } }
}
