// The texts of Beider-Morse: rules, languages and language detection
// text[lang+lang]: a phoneme of these languages; text alone: of all
pub open spec fn bm_phoneme(s: Seq<char>) -> Option<Ph> {
    match sfind(s, S!("[")) {
        None => Some(Ph { t: s, l: None }),
        Some(k) => if sends(s, S!("]")) { Some(Ph { t: s.take(k), l: Some(ssplit(s.subrange(k + 1, s.len() - 1), '+').to_set()) }) } else { None },
    }
}
pub open spec fn bm_phonemes(ts: Seq<Seq<char>>) -> Option<Seq<Ph>>
    decreases ts.len()
{
    if ts.len() == 0 { Some(Seq::empty()) } else {
        match (bm_phonemes(ts.drop_last()), bm_phoneme(ts.last())) { (Some(a), Some(p)) => Some(a.push(p)), (_, _) => None }
    }
}
// a phoneme, or (phoneme|...|phoneme); a bar at an end allows none as well
pub open spec fn bm_expr(s: Seq<char>) -> Option<Seq<Ph>> {
    if sstarts(s, S!("(")) {
        if sends(s, S!(")")) {
            let t = s.subrange(1, s.len() - 1);
            match bm_phonemes(ssplit(t, '|')) { None => None, Some(a) => Some(if sstarts(t, S!("|")) || sends(t, S!("|")) { a.push(Ph { t: Seq::empty(), l: None }) } else { a }) }
        } else { None }
    } else { match bm_phoneme(s) { None => None, Some(p) => Some(seq![p]) } }
}
pub open spec fn bm_good(c: BmCtx) -> bool { match c { BmCtx::Rx(p) => rx_ok(p), _ => true } }
pub open spec fn bm_rule(q: (Seq<char>, Seq<char>, Seq<char>, Seq<char>)) -> Option<BmRule> {
    match bm_expr(q.3) { None => None, Some(ph) => if bm_good(bm_left(q.1)) && bm_good(bm_right(q.2)) { Some(BmRule { left: bm_left(q.1), p: q.0, right: bm_right(q.2), ph }) } else { None } }
}
// what a file of rules is: the rules by first character; or the file, the line and the text from there that is no rule, no include,
// no comment and not empty; or a rule whose contexts or phonemes are wrong; or no file at all; Deep: includes deeper than depth
//#rust #[derive(Clone, Copy)]
pub enum BmRead { Rules(Map<char, Seq<BmRule>>), Line(Seq<char>, int, Seq<char>), Bad, Missing, Deep }
pub open spec fn bm_put(t: Map<char, Seq<BmRule>>, r: BmRule) -> Map<char, Seq<BmRule>> { t.insert(r.p[0], (if t.contains_key(r.p[0]) { t[r.p[0]] } else { Seq::empty() }).push(r)) }
// f: the file, s: the text from a line of it
pub open spec fn bm_read(files: IMap<Seq<char>, Seq<char>>, f: Seq<char>, s: Seq<char>, line: int, t: Map<char, Seq<BmRule>>, depth: nat) -> BmRead
    decreases depth, s.len()
{
    if s.len() == 0 { BmRead::Rules(t) }
    else if let Some((q, r)) = p_quad(s) {
        match bm_rule(q) {
            None => BmRead::Bad,
            Some(x) => if q.0.len() > 0 && r.len() < s.len() { bm_read(files, f, r, line + 1, bm_put(t, x), depth) } else { BmRead::Line(f, line, s) },
        }
    }
    else if let Some(r) = p_eol(s) { if r.len() < s.len() { bm_read(files, f, r, line + 1, t, depth) } else { BmRead::Line(f, line, s) } }
    else if let Some((g, r)) = p_include(s) {
        if depth == 0 || r.len() >= s.len() { BmRead::Deep }
        else {
            match (if files.contains_key(g) { bm_read(files, g, files[g], 1, Map::empty(), (depth - 1) as nat) } else { BmRead::Missing }) {
                BmRead::Rules(u) => bm_read(files, f, r, line + 1, t.union_prefer_right(u), depth),
                BmRead::Line(a, b, c) => BmRead::Line(a, b, c),
                BmRead::Deep => BmRead::Deep,
                _ => BmRead::Line(f, line, s),
            }
        }
    }
    else if let Some((n, r)) = p_comment(s) { if r.len() < s.len() { bm_read(files, f, r, line + n, t, depth) } else { BmRead::Line(f, line, s) } }
    else { BmRead::Line(f, line, s) }
}
pub open spec fn bm_file(files: IMap<Seq<char>, Seq<char>>, f: Seq<char>, depth: nat) -> BmRead { if files.contains_key(f) { bm_read(files, f, files[f], 1, Map::empty(), depth) } else { BmRead::Missing } }

// the languages: one a line; or the line that is wrong and the text from there
pub open spec fn bm_languages(s: Seq<char>, line: int, t: Set<Seq<char>>) -> Result<Set<Seq<char>>, (int, Seq<char>)>
    decreases s.len()
{
    if s.len() == 0 { Ok(t) }
    else if let Some(r) = p_eol(s) { if r.len() < s.len() { bm_languages(r, line + 1, t) } else { Err((line, s)) } }
    else if let Some((n, r)) = p_comment(s) { if r.len() < s.len() { bm_languages(r, line + n, t) } else { Err((line, s)) } }
    else if let Some((l, r)) = p_language(s) { if r.len() < s.len() { bm_languages(r, line + 1, t.insert(l)) } else { Err((line, s)) } }
    else { Err((line, s)) }
}
pub open spec fn bm_langs(s: Seq<char>, line: int, g: Seq<BmGuess>) -> Result<Seq<BmGuess>, (int, Seq<char>)>
    decreases s.len()
{
    if s.len() == 0 { Ok(g) }
    else if let Some(r) = p_eol(s) { if r.len() < s.len() { bm_langs(r, line + 1, g) } else { Err((line, s)) } }
    else if let Some((n, r)) = p_comment(s) { if r.len() < s.len() { bm_langs(r, line + n, g) } else { Err((line, s)) } }
    else if let Some((q, r)) = p_lang(s) {
        if rx_ok(q.0) && r.len() < s.len() { bm_langs(r, line + 1, g.push(BmGuess { rx: q.0, langs: ssplit(q.1, '+').to_set(), accept: q.2 })) } else { Err((line, s)) }
    }
    else { Err((line, s)) }
}

// a configuration: for each of the name types ash, gen and sep the languages (_languages.txt), the detection rules (_lang.txt), and
// the rules: approx, exact and rules of every language, and approx and exact that all languages share
pub open spec fn bm_name_text(n: int) -> Seq<char> { if n == 0 { S!("ash") } else if n == 1 { S!("gen") } else { S!("sep") } }
pub open spec fn bm_kind_text(k: int) -> Seq<char> { if k == 0 { S!("approx") } else if k == 1 { S!("exact") } else { S!("rules") } }
pub open spec fn bm_rules_name(n: int, k: int, l: Seq<char>) -> Seq<char> { bm_name_text(n) + S!("_") + bm_kind_text(k) + S!("_") + l }
pub open spec fn bm_wanted(ls: Set<Seq<char>>, k: int, l: Seq<char>) -> bool { ls.contains(l) || (k < 2 && l == S!("common")) }
