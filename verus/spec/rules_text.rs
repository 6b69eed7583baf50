// The text of rule files: what each construct of a line looks like. A parser gives what it read and the text after it, or None.
pub open spec fn p_blank(c: char) -> bool { c == ' ' || c == '\t' }
// at least one blank
pub open spec fn p_space(s: Seq<char>) -> Option<Seq<char>> {
    if s.len() > 0 && p_blank(s[0]) { Some(s.skip(sspan(s, |c: char| p_blank(c)))) } else { None }
}
// blanks and a // comment, both optional, then the end of the line or of the text
pub open spec fn p_eol(s: Seq<char>) -> Option<Seq<char>> {
    let a = s.skip(sspan(s, |c: char| p_blank(c)));
    let b = if sstarts(a, S!("//")) { a.skip(2).skip(sspan(a.skip(2), |c: char| c != '\n')) } else { a };
    if b.len() == 0 { Some(b) }
    else if b[0] == '\n' { Some(b.skip(1)) }
    else if sstarts(b, S!("\r\n")) { Some(b.skip(2)) }
    else { None }
}
// a text between double quotes: \" or a text without double quotes
pub open spec fn p_part(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    if s.len() == 0 || s[0] != '"' { None }
    else {
        let t = s.skip(1);
        if sstarts(t, S!("\\\"")) { if t.len() > 2 && t[2] == '"' { Some((t.take(2), t.skip(3))) } else { None } }
        else { match sfind(t, S!("\"")) { Some(k) => Some((t.take(k), t.skip(k + 1))), None => None } }
    }
}
// a text between double quotes followed by blanks
pub open spec fn p_part_sp(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match p_part(s) { None => None, Some((x, a)) => match p_space(a) { Some(b) => Some((x, b)), None => None } }
}
pub open spec fn p_quad(s: Seq<char>) -> Option<((Seq<char>, Seq<char>, Seq<char>, Seq<char>), Seq<char>)> {
    match p_part_sp(s) { None => None, Some((w, a)) => match p_part_sp(a) { None => None, Some((x, b)) => match p_part_sp(b) { None => None, Some((y, c)) =>
        match p_part(c) { None => None, Some((z, d)) => match p_eol(d) { None => None, Some(e) => Some(((w, x, y, z), e)) } } } } }
}
// x=y
pub open spec fn p_fold(s: Seq<char>) -> Option<((char, char), Seq<char>)> {
    if s.len() >= 3 && s[1] == '=' { match p_eol(s.skip(3)) { Some(r) => Some(((s[0], s[2]), r)), None => None } } else { None }
}
// a comment /* ... */ and the number of its lines
pub open spec fn p_comment(s: Seq<char>) -> Option<(nat, Seq<char>)> {
    if !sstarts(s, S!("/*")) { None }
    else { match sfind(s.skip(2), S!("*/")) { None => None, Some(k) => match p_eol(s.skip(k + 4)) { Some(r) => Some((p_lines(s.subrange(2, k + 2)), r)), None => None } } }
}
pub open spec fn p_lines(s: Seq<char>) -> nat { 1 + sfilter(s, |c: char| c == '\n').len() }
// the line a text begins with
pub open spec fn p_line(s: Seq<char>) -> Seq<char> { s.take(sspan(s, |c: char| c != '\n')) }
// #include name
pub open spec fn p_include(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    if !sstarts(s, S!("#include ")) { None } else {
        let t = s.skip(9);
        let n = sspan(t, |c: char| is_alnum(c) || c == '-' || c == '_');
        if n == 0 { None } else { match p_eol(t.skip(n)) { Some(r) => Some((t.take(n), r)), None => None } }
    }
}
// a language alone
pub open spec fn p_language(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let n = sspan(s, |c: char| is_az(c) || is_AZ(c));
    if n == 0 { None } else { match p_eol(s.skip(n)) { Some(r) => Some((s.take(n), r)), None => None } }
}
// language detection: an expression, languages joined by +, true or false
pub open spec fn p_word(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let n = sspan(s, |c: char| c != ' ');
    if n == 0 || n >= s.len() { None } else { Some((s.take(n), s.skip(n + 1))) }
}
pub open spec fn p_lang(s: Seq<char>) -> Option<((Seq<char>, Seq<char>, bool), Seq<char>)> {
    match p_word(s) { None => None, Some((rx, a)) => match p_word(a) { None => None, Some((ls, b)) => {
        let (v, n) = if sstarts(b, S!("true")) { (true, 4) } else if sstarts(b, S!("false")) { (false, 5) } else { (false, 0) };
        if n == 0 { None } else { match p_eol(b.skip(n)) { Some(r) => Some(((rx, ls, v), r)), None => None } }
    } } }
}
