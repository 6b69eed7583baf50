// Beider-Morse: a phoneme is a text and the languages in which it is possible (None: all of them)
//#rust #[derive(Clone, Copy)]
pub struct Ph { pub t: Seq<char>, pub l: Option<Set<Seq<char>>> }
//#rust #[derive(Clone, Copy)]
pub struct BmRule { pub left: BmCtx, pub p: Seq<char>, pub right: BmCtx, pub ph: Seq<Ph> }
//#rust #[derive(Clone, Copy)]
pub struct BmGuess { pub rx: Seq<char>, pub langs: Set<Seq<char>>, pub accept: bool }
// name: 0 Ashkenazi, 1 Generic, 2 Sephardic; kind: 0 approx, 1 exact, 2 rules
//#rust #[derive(Clone, Copy)]
pub struct BmCfg { pub rules: Map<(int, int, Seq<char>), Map<char, Seq<BmRule>>>, pub langs: Set<Seq<char>>, pub guess: Seq<BmGuess>, pub name: int, pub kind: int, pub concat: bool, pub max: int }

pub open spec fn bm_and(a: Option<Set<Seq<char>>>, b: Option<Set<Seq<char>>>) -> Option<Set<Seq<char>>> {
    match (a, b) { (Some(x), Some(y)) => Some(x.intersect(y)), (None, y) => y, (x, None) => x }
}
pub open spec fn bm_or(a: Option<Set<Seq<char>>>, b: Option<Set<Seq<char>>>) -> Option<Set<Seq<char>>> {
    match (a, b) { (Some(x), Some(y)) => Some(x.union(y)), (_, _) => None }
}
// sets of phonemes: sequences in the order of their texts, one phoneme per text. Inserting keeps a phoneme with the same text, replacing does not
// verus-only-begin
pub open spec fn ph_ins(s: Seq<Ph>, x: Ph) -> Seq<Ph>
    decreases s.len()
{
    if s.len() == 0 { seq![x] } else if s[0].t == x.t { s } else if slt(x.t, s[0].t) { seq![x] + s } else { seq![s[0]] + ph_ins(s.skip(1), x) }
}
pub open spec fn ph_put(s: Seq<Ph>, x: Ph) -> Seq<Ph>
    decreases s.len()
{
    if s.len() == 0 { seq![x] } else if s[0].t == x.t { seq![x] + s.skip(1) } else if slt(x.t, s[0].t) { seq![x] + s } else { seq![s[0]] + ph_put(s.skip(1), x) }
}
pub open spec fn ph_get(s: Seq<Ph>, t: Seq<char>) -> Option<Ph>
    decreases s.len()
{ if s.len() == 0 { None } else if s[0].t == t { Some(s[0]) } else { ph_get(s.skip(1), t) } }
pub open spec fn ph_all(s: Seq<Ph>) -> Seq<Ph>
    decreases s.len()
{ if s.len() == 0 { s } else { ph_put(ph_all(s.drop_last()), s.last()) } }
// verus-only-end
// the same on sequences in order, for evaluation
//#rust pub fn ph_find(s: Seq<Ph>, t: Seq<char>) -> Result<usize, usize> { s.0.binary_search_by(|p| p.t.cmp(&t)) }
//#rust pub fn ph_ins(s: Seq<Ph>, x: Ph) -> Seq<Ph> { match ph_find(s, x.t) { Ok(_) => s, Err(i) => { let mut v = s.0.to_vec(); v.insert(i, x); Seq::of(v) } } }
//#rust pub fn ph_put(s: Seq<Ph>, x: Ph) -> Seq<Ph> { let mut v = s.0.to_vec(); match ph_find(s, x.t) { Ok(i) => v[i] = x, Err(i) => v.insert(i, x) } Seq::of(v) }
//#rust pub fn ph_get(s: Seq<Ph>, t: Seq<char>) -> Option<Ph> { ph_find(s, t).ok().map(|i| s.0[i]) }
//#rust pub fn ph_all(s: Seq<Ph>) -> Seq<Ph> { let mut v: Vec<Ph> = vec![]; for x in s.0 { match v.binary_search_by(|p| p.t.cmp(&x.t)) { Ok(i) => v[i] = *x, Err(i) => v.insert(i, *x) } } Seq::of(v) }
// the text is appended to every phoneme
pub open spec fn bm_append(s: Seq<Ph>, t: Seq<char>) -> Seq<Ph> { ph_all(smap(s, |p: Ph| Ph { t: p.t + t, l: p.l })) }
// a phoneme continued by each possible one of a rule, while there are fewer than max
pub open spec fn bm_fan(acc: Seq<Ph>, l: Ph, rs: Seq<Ph>, max: int) -> Seq<Ph>
    decreases rs.len()
{
    if rs.len() == 0 { acc } else {
        let both = bm_and(l.l, rs[0].l);
        bm_fan(if both != Some(Set::<Seq<char>>::empty()) && acc.len() < max { ph_ins(acc, Ph { t: l.t + rs[0].t, l: both }) } else { acc }, l, rs.skip(1), max)
    }
}
pub open spec fn bm_apply(acc: Seq<Ph>, ls: Seq<Ph>, rs: Seq<Ph>, max: int) -> Seq<Ph>
    decreases ls.len()
{ if ls.len() == 0 { acc } else { bm_apply(bm_fan(acc, ls[0], rs, max), ls.skip(1), rs, max) } }
// a rule applies where its pattern is, when the text before and the text after are as its contexts ask
pub open spec fn bm_matches(r: BmRule, s: Seq<char>, i: int) -> bool {
    i + r.p.len() <= s.len() && s.subrange(i, i + r.p.len()) == r.p && bm_ctx(r.right, s.skip(i + r.p.len())) && bm_ctx(r.left, s.take(i))
}
pub open spec fn bm_first(rs: Seq<BmRule>, s: Seq<char>, i: int) -> Option<BmRule>
    decreases rs.len()
{ if rs.len() == 0 { None } else if bm_matches(rs[0], s, i) { Some(rs[0]) } else { bm_first(rs.skip(1), s, i) } }
pub open spec fn bm_find(rules: Map<char, Seq<BmRule>>, s: Seq<char>, i: int) -> Option<BmRule> { if rules.contains_key(s[i]) { bm_first(rules[s[i]], s, i) } else { None } }
// from place i on: the first rule that applies; where there is none the character is copied or dropped
pub open spec fn bm_walk(rules: Map<char, Seq<BmRule>>, s: Seq<char>, i: int, phs: Seq<Ph>, max: int, copy: bool) -> Seq<Ph>
    decreases s.len() - i
{
    if i >= s.len() || i < 0 { phs } else {
        match bm_find(rules, s, i) {
            None => bm_walk(rules, s, i + 1, if copy { bm_append(phs, seq![s[i]]) } else { phs }, max, copy),
            Some(r) => if r.p.len() == 0 || i + r.p.len() > s.len() { phs } else { bm_walk(rules, s, i + r.p.len(), bm_apply(Seq::empty(), phs, r.ph, max), max, copy) },
        }
    }
}
// the phonemes of one phoneme join those of the others, merging the languages of those that are there already
pub open spec fn bm_join(acc: Seq<Ph>, new: Seq<Ph>, l: Option<Set<Seq<char>>>) -> Seq<Ph>
    decreases new.len()
{
    if new.len() == 0 { acc } else {
        let a = match ph_get(acc, new[0].t) { Some(old) => ph_put(acc, Ph { t: old.t, l: bm_or(old.l, l) }), None => ph_ins(acc, new[0]) };
        bm_join(a, new.skip(1), l)
    }
}
pub open spec fn bm_each(rules: Map<char, Seq<BmRule>>, acc: Seq<Ph>, phs: Seq<Ph>, max: int) -> Seq<Ph>
    decreases phs.len()
{
    if phs.len() == 0 { acc } else {
        let p = phs[0];
        bm_each(rules, bm_join(acc, bm_walk(rules, p.t, 0, seq![Ph { t: Seq::empty(), l: p.l }], max, true), p.l), phs.skip(1), max)
    }
}
pub open spec fn bm_final(rules: Map<char, Seq<BmRule>>, phs: Seq<Ph>, max: int) -> Seq<Ph> { if rules.len() == 0 { phs } else { bm_each(rules, Seq::empty(), phs, max) } }
// the languages that the detection rules leave of a name; all of them when none is left
pub open spec fn bm_narrow(g: Seq<BmGuess>, s: Seq<char>, langs: Set<Seq<char>>) -> Set<Seq<char>>
    decreases g.len()
{ if g.len() == 0 { langs } else { bm_narrow(g.skip(1), s, if !rx_match(g[0].rx, s) { langs } else if g[0].accept { langs.intersect(g[0].langs) } else { langs.difference(g[0].langs) }) } }
pub open spec fn bm_guessed(g: Seq<BmGuess>, s: Seq<char>, langs: Set<Seq<char>>) -> Option<Set<Seq<char>>> {
    let l = bm_narrow(g, s, langs);
    if l == Set::<Seq<char>>::empty() { None } else { Some(l) }
}
pub open spec fn bm_guess(c: BmCfg, s: Seq<char>) -> Option<Set<Seq<char>>> { bm_guessed(c.guess, s, c.langs) }
pub open spec fn bm_prefixes(name: int) -> Seq<Seq<char>> {
    if name == 0 { seq![S!("bar"), S!("ben"), S!("da"), S!("de"), S!("van"), S!("von")] }
    else if name == 1 { seq![S!("da"), S!("dal"), S!("de"), S!("de la"), S!("del"), S!("dela"), S!("della"), S!("des"), S!("di"), S!("do"), S!("dos"), S!("du"), S!("van"), S!("von")] }
    else { seq![S!("al"), S!("da"), S!("dal"), S!("de"), S!("de la"), S!("del"), S!("dela"), S!("della"), S!("des"), S!("di"), S!("do"), S!("dos"), S!("du"), S!("el"), S!("van"), S!("von")] }
}
// the first prefix, in order, that begins the name as a word of its own
pub open spec fn bm_prefix(ps: Seq<Seq<char>>, n: Seq<char>) -> Option<Seq<char>>
    decreases ps.len()
{ if ps.len() == 0 { None } else if sstarts(n, ps[0].push(' ')) { Some(ps[0]) } else { bm_prefix(ps.skip(1), n) } }
pub open spec fn bm_norm(s: Seq<char>) -> Seq<char> { sreplace(slower(s), seq!['-'], seq![' ']) }
pub open spec fn bm_two(a: Seq<char>, b: Seq<char>) -> Seq<char> { S!("(") + a + S!(")-(") + b + S!(")") }
pub open spec fn bm_lang(c: BmCfg, l: Option<Set<Seq<char>>>) -> Seq<char> {
    match l { Some(x) => if x.len() == 1 && c.rules.contains_key((c.name, 2, x.choose())) { x.choose() } else { S!("any") }, None => S!("any") }
}
// the words that count: after the last apostrophe for Sephardic names; no prefixes, Generic names aside
pub open spec fn bm_kept(name: int, ws: Seq<Seq<char>>) -> Seq<Seq<char>> {
    let cut = if name == 2 { smap(ws, |w: Seq<char>| ssplit(w, '\'').last()) } else { ws };
    sfilter(cut, |w: Seq<char>| name == 1 || !bm_prefixes(name).contains(w))
}
pub open spec fn bm_texts(phs: Seq<Ph>) -> Seq<char> { sjoin(smap(phs, |p: Ph| p.t), S!("|")) }
pub open spec fn bm_plain(c: BmCfg, text: Seq<char>, l: Option<Set<Seq<char>>>) -> Seq<char> {
    let lang = bm_lang(c, l);
    let a = bm_walk(c.rules[(c.name, 2, lang)], text, 0, seq![Ph { t: Seq::empty(), l }], c.max, false);
    bm_texts(bm_final(c.rules[(c.name, c.kind, lang)], bm_final(c.rules[(c.name, c.kind, S!("common"))], a, c.max), c.max))
}
// n: the name in lower case, without hyphens
pub open spec fn bm_code(c: BmCfg, n: Seq<char>, l: Option<Set<Seq<char>>>) -> Seq<char>
    decreases n.len(), swords(n).len() + 1, 0int
{
    if c.name == 1 && sstarts(n, S!("d'")) {
        bm_two(bm_code(c, n.skip(2), bm_guess(c, n.skip(2))), bm_code(c, S!("d") + n.skip(2), bm_guess(c, S!("d") + n.skip(2))))
    } else if let Some(p) = bm_pre(c.name, n) {
        let r = n.skip(1 + p.len() as int);
        if p.len() >= n.len() { n } else { bm_two(bm_code(c, r, bm_guess(c, r)), bm_code(c, p + r, bm_guess(c, p + r))) }
    } else if !c.concat && swords(n).len() != 1 { sjoin(bm_codes(c, swords(n), n.len()), S!("-")) }
    else { bm_plain(c, if c.concat { sjoin(bm_kept(c.name, swords(n)), S!(" ")) } else { swords(n)[0] }, l) }
}
pub open spec fn bm_pre(name: int, n: Seq<char>) -> Option<Seq<char>> { if name == 1 { bm_prefix(bm_prefixes(1), n) } else { None } }
pub open spec fn bm_codes(c: BmCfg, ws: Seq<Seq<char>>, len: nat) -> Seq<Seq<char>>
    decreases len, ws.len(), 1int
{ if ws.len() == 0 { Seq::empty() } else { seq![if ws[0].len() < len { bm_code(c, ws[0], bm_guess(c, ws[0])) } else { Seq::empty() }] + bm_codes(c, ws.skip(1), len) } }
pub open spec fn bm_encode(c: BmCfg, s: Seq<char>) -> Seq<char> { bm_code(c, bm_norm(s), bm_guess(c, slower(s))) }
