// Daitch-Mokotoff: the rules of a character, longest pattern first; a branch is the code so far and the last replacement
//#rust #[derive(Clone, Copy)]
pub struct DmRule { pub p: Seq<char>, pub start: Seq<Seq<char>>, pub vowel: Seq<Seq<char>>, pub other: Seq<Seq<char>> }
// a character in lower case, folded
pub open spec fn dam_fold(folding: bool, f: Map<char, char>, c: char) -> char {
    if lower(c).len() == 0 { c } else if folding && f.contains_key(lower(c)[0]) { f[lower(c)[0]] } else { lower(c)[0] }
}
pub open spec fn dam_clean(folding: bool, f: Map<char, char>, s: Seq<char>) -> Seq<char> {
    smap(sfilter(s, |c: char| !is_ws(c)), |c: char| dam_fold(folding, f, c))
}
pub open spec fn dam_cut(s: Seq<char>) -> Seq<char> { if s.len() > 6 { s.take(6) } else { s } }
// a replacement is appended unless the last one ends with it
pub open spec fn dam_step(b: (Seq<char>, Option<Seq<char>>), r: Seq<char>, force: bool) -> (Seq<char>, Option<Seq<char>>) {
    let repeats = match b.1 { Some(l) => sends(l, r), None => false };
    (if (!repeats || force) && b.0.len() < 6 { dam_cut(b.0 + r) } else { b.0 }, Some(r))
}
// branches with the same code are one
pub open spec fn dam_add(bs: Seq<(Seq<char>, Option<Seq<char>>)>, b: (Seq<char>, Option<Seq<char>>)) -> Seq<(Seq<char>, Option<Seq<char>>)> {
    if dam_has(bs, b.0) { bs } else { bs.push(b) }
}
pub open spec fn dam_has(bs: Seq<(Seq<char>, Option<Seq<char>>)>, c: Seq<char>) -> bool { smap(bs, |x: (Seq<char>, Option<Seq<char>>)| x.0).contains(c) }
// the branches of one branch: one per replacement, or only the first
pub open spec fn dam_fan(acc: Seq<(Seq<char>, Option<Seq<char>>)>, b: (Seq<char>, Option<Seq<char>>), reps: Seq<Seq<char>>, force: bool, all: bool) -> Seq<(Seq<char>, Option<Seq<char>>)>
    decreases reps.len()
{
    if reps.len() == 0 { acc }
    else if all { dam_fan(dam_add(acc, dam_step(b, reps[0], force)), b, reps.skip(1), force, all) }
    else { dam_add(acc, dam_step(b, reps[0], force)) }
}
pub open spec fn dam_next(acc: Seq<(Seq<char>, Option<Seq<char>>)>, bs: Seq<(Seq<char>, Option<Seq<char>>)>, reps: Seq<Seq<char>>, force: bool, all: bool) -> Seq<(Seq<char>, Option<Seq<char>>)>
    decreases bs.len()
{ if bs.len() == 0 { acc } else { dam_next(dam_fan(acc, bs[0], reps, force, all), bs.skip(1), reps, force, all) } }
// the first rule whose pattern begins the rest of the name
pub open spec fn dam_find(rules: Seq<DmRule>, s: Seq<char>) -> Option<DmRule>
    decreases rules.len()
{ if rules.len() == 0 { None } else if sstarts(s, rules[0].p) { Some(rules[0]) } else { dam_find(rules.skip(1), s) } }
pub open spec fn dam_reps(r: DmRule, s: Seq<char>, first: bool) -> Seq<Seq<char>> {
    if first { r.start } else if r.p.len() < s.len() && is_vowel_spec(s[r.p.len() as int], false) { r.vowel } else { r.other }
}
// s: what is left; last: the last character that has rules, '\0' at the start
pub open spec fn dam_walk(t: Map<char, Seq<DmRule>>, s: Seq<char>, last: char, bs: Seq<(Seq<char>, Option<Seq<char>>)>, all: bool) -> Seq<(Seq<char>, Option<Seq<char>>)>
    decreases s.len()
{
    if s.len() == 0 { bs }
    else if !t.contains_key(s[0]) { dam_walk(t, s.skip(1), last, bs, all) }
    else {
        match dam_find(t[s[0]], s) {
            None => dam_walk(t, s.skip(1), s[0], bs, all),
            Some(r) => dam_walk(t, s.skip(dam_skip(r, s)), s[0], dam_next(Seq::empty(), bs, dam_reps(r, s, last == '\0'), (last == 'm' && s[0] == 'n') || (last == 'n' && s[0] == 'm'), all), all),
        }
    }
}
pub open spec fn dam_skip(r: DmRule, s: Seq<char>) -> int { if r.p.len() > 1 && r.p.len() <= s.len() { r.p.len() as int } else { 1 } }
pub open spec fn dam_pad(s: Seq<char>) -> Seq<char>
    decreases if s.len() < 6 { 6 - s.len() } else { 0 }
{ if s.len() >= 6 { s } else { dam_pad(s.push('0')) } }
pub open spec fn dam_codes(t: Map<char, Seq<DmRule>>, folding: bool, f: Map<char, char>, s: Seq<char>, all: bool) -> Seq<Seq<char>> {
    smap(dam_walk(t, dam_clean(folding, f, s), '\0', seq![(Seq::empty(), None)], all), |b: (Seq<char>, Option<Seq<char>>)| dam_pad(b.0))
}
pub open spec fn dam_encode(t: Map<char, Seq<DmRule>>, folding: bool, f: Map<char, char>, s: Seq<char>) -> Seq<char> {
    let c = dam_codes(t, folding, f, s, false);
    if c.len() == 0 { Seq::empty() } else { c[0] }
}

// ---- the rules a text gives ----
pub open spec fn dam_alternatives(s: Seq<char>) -> Seq<Seq<char>> { ssplit(s, '|') }
pub open spec fn dam_rule(q: (Seq<char>, Seq<char>, Seq<char>, Seq<char>)) -> DmRule { DmRule { p: q.0, start: dam_alternatives(q.1), vowel: dam_alternatives(q.2), other: dam_alternatives(q.3) } }
//#rust #[derive(Clone, Copy)]
pub struct DmText { pub rules: Map<char, Seq<DmRule>>, pub fold: Map<char, char>, pub bad: Option<(int, Seq<char>)> }
pub open spec fn dam_put(t: Map<char, Seq<DmRule>>, r: DmRule) -> Map<char, Seq<DmRule>> { t.insert(r.p[0], (if t.contains_key(r.p[0]) { t[r.p[0]] } else { Seq::empty() }).push(r)) }
// bad: the line that is no rule, no folding, no comment and not empty, and the text from there
pub open spec fn dam_read(s: Seq<char>, line: int, rules: Map<char, Seq<DmRule>>, fold: Map<char, char>) -> DmText
    decreases s.len()
{
    if s.len() == 0 { DmText { rules, fold, bad: None } }
    else if let Some((q, r)) = p_quad(s) {
        if q.0.len() > 0 && r.len() < s.len() { dam_read(r, line + 1, dam_put(rules, dam_rule(q)), fold) } else { DmText { rules, fold, bad: Some((line, s)) } }
    }
    else if let Some((f, r)) = p_fold(s) { if r.len() < s.len() { dam_read(r, line + 1, rules, fold.insert(f.0, f.1)) } else { DmText { rules, fold, bad: Some((line, s)) } } }
    else if let Some(r) = p_eol(s) { if r.len() < s.len() { dam_read(r, line + 1, rules, fold) } else { DmText { rules, fold, bad: Some((line, s)) } } }
    else if let Some((n, r)) = p_comment(s) { if r.len() < s.len() { dam_read(r, line + n, rules, fold) } else { DmText { rules, fold, bad: Some((line, s)) } } }
    else { DmText { rules, fold, bad: Some((line, s)) } }
}
// longest pattern (in bytes) first, in the order of the text otherwise
pub open spec fn dam_order(t: Map<char, Seq<DmRule>>) -> Map<char, Seq<DmRule>> { t.map_values(|v: Seq<DmRule>| sstable(v, |r: DmRule| -blen(r.p))) }
pub open spec fn dam_build(s: Seq<char>) -> DmText {
    let d = dam_read(s, 1, Map::empty(), Map::empty());
    DmText { rules: dam_order(d.rules), fold: d.fold, bad: d.bad }
}
