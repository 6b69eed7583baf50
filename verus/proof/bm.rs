pub proof fn lemma_ph_single(x: Ph)
    ensures ph_all(seq![x]) == seq![x]
{ reveal_with_fuel(ph_all, 2); assert(seq![x].drop_last() =~= Seq::<Ph>::empty()); assert(ph_all(seq![x]) =~= seq![x]); }
pub proof fn lemma_fan_full(acc: Seq<Ph>, l: Ph, rs: Seq<Ph>, max: int)
    ensures acc.len() >= max ==> bm_fan(acc, l, rs, max) == acc
    decreases rs.len()
{ if rs.len() > 0 { lemma_fan_full(acc, l, rs.skip(1), max); } }
pub proof fn lemma_apply_full(acc: Seq<Ph>, ls: Seq<Ph>, rs: Seq<Ph>, max: int)
    ensures acc.len() >= max ==> bm_apply(acc, ls, rs, max) == acc
    decreases ls.len()
{ if ls.len() > 0 { lemma_fan_full(acc, ls[0], rs, max); lemma_apply_full(acc, ls.skip(1), rs, max); } }
pub proof fn lemma_bm_first_len(rs: Seq<BmRule>, s: Seq<char>, i: int)
    ensures match bm_first(rs, s, i) { Some(q) => i + q.p.len() <= s.len() && (exists|k: int| 0 <= k < rs.len() && q == #[trigger] rs[k]), None => true }
    decreases rs.len()
{ if rs.len() > 0 { lemma_bm_first_len(rs.skip(1), s, i); if !bm_matches(rs[0], s, i) { match bm_first(rs, s, i) { Some(q) => { let k = choose|k: int| 0 <= k < rs.skip(1).len() && q == #[trigger] rs.skip(1)[k]; assert(q == rs[k + 1]); } None => {} } } } }
// ---- the order of strings ----
pub proof fn lemma_slt_irrefl(a: Seq<char>)
    ensures !slt(a, a)
    decreases a.len()
{ if a.len() > 0 { lemma_slt_irrefl(a.skip(1)); } }
pub proof fn lemma_slt_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires slt(a, b), slt(b, c)
    ensures slt(a, c)
    decreases a.len()
{ if a.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_slt_trans(a.skip(1), b.skip(1), c.skip(1)); } }
pub open spec fn asc(s: Seq<Seq<char>>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> slt(s[i], s[j]) }
pub proof fn lemma_asc(s: Seq<Seq<char>>)
    requires forall|i: int| 0 < i < s.len() ==> slt(s[i - 1], #[trigger] s[i])
    ensures asc(s)
    decreases s.len()
{
    if s.len() > 1 {
        let p = s.drop_last();
        assert forall|i: int| 0 < i < p.len() implies slt(p[i - 1], #[trigger] p[i]) by { assert(p[i] == s[i]); }
        lemma_asc(p);
        assert forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() implies slt(s[i], s[j]) by {
            if j < s.len() - 1 { assert(slt(p[i], p[j])); } else if i < j - 1 { assert(slt(p[i], p[j - 1])); lemma_slt_trans(s[i], s[j - 1], s[j]); } else { assert(slt(s[j - 1], s[j])); }
        }
    }
}
pub proof fn lemma_asc_unique(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires asc(a), asc(b), forall|x: Seq<char>| #![trigger a.contains(x)] #![trigger b.contains(x)] a.contains(x) == b.contains(x)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); } assert(a =~= b); }
    else {
        assert(a.contains(a[0]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[0];
        assert(b.contains(b[0]));
        let i = choose|i: int| 0 <= i < a.len() && a[i] == b[0];
        if i > 0 && j > 0 { assert(slt(a[0], a[i])); assert(slt(b[0], b[j])); lemma_slt_trans(a[0], b[0], a[0]); lemma_slt_irrefl(a[0]); }
        assert(a[0] == b[0]);
        let (p, q) = (a.skip(1), b.skip(1));
        assert forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < p.len() implies slt(p[i], p[j]) by { assert(slt(a[i + 1], a[j + 1])); }
        assert forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < q.len() implies slt(q[i], q[j]) by { assert(slt(b[i + 1], b[j + 1])); }
        assert forall|x: Seq<char>| #[trigger] p.contains(x) == q.contains(x) by {
            if p.contains(x) { let k = choose|k: int| 0 <= k < p.len() && p[k] == x; assert(a[k + 1] == x); assert(slt(a[0], a[k + 1])); lemma_slt_irrefl(x); assert(a.contains(x)); assert(b.contains(x)); let m = choose|m: int| 0 <= m < b.len() && b[m] == x; assert(m != 0); assert(q[m - 1] == x); }
            if q.contains(x) { let k = choose|k: int| 0 <= k < q.len() && q[k] == x; assert(b[k + 1] == x); assert(slt(b[0], b[k + 1])); lemma_slt_irrefl(x); assert(b.contains(x)); assert(a.contains(x)); let m = choose|m: int| 0 <= m < a.len() && a[m] == x; assert(m != 0); assert(p[m - 1] == x); }
        }
        lemma_asc_unique(p, q);
        assert(a =~= seq![a[0]] + p); assert(b =~= seq![b[0]] + q);
    }
}
/// b is after a: they are alike up to n, where a ends or has the smaller character
pub proof fn lemma_slt_by(a: Seq<char>, b: Seq<char>, n: int)
    requires 0 <= n <= a.len(), n < b.len(), a.take(n) =~= b.take(n), n < a.len() ==> (a[n] as u32) < (b[n] as u32)
    ensures slt(a, b)
    decreases n
{
    if n > 0 {
        assert(a.take(n)[0] == b.take(n)[0]);
        assert(a.skip(1).take(n - 1) =~= a.take(n).skip(1));
        assert(b.skip(1).take(n - 1) =~= b.take(n).skip(1));
        lemma_slt_by(a.skip(1), b.skip(1), n - 1);
    }
}
pub proof fn lemma_prefixes_asc()
    ensures asc(bm_prefixes(1))
{
    let s = bm_prefixes(1);
    // da dal de "de la" del dela della des di do dos du van von
    assert(s.len() == 14);
    lemma_slt_by(s[0], s[1], 2); lemma_slt_by(s[1], s[2], 1); lemma_slt_by(s[2], s[3], 2); lemma_slt_by(s[3], s[4], 2); lemma_slt_by(s[4], s[5], 3);
    lemma_slt_by(s[5], s[6], 3); lemma_slt_by(s[6], s[7], 2); lemma_slt_by(s[7], s[8], 1); lemma_slt_by(s[8], s[9], 1); lemma_slt_by(s[9], s[10], 2);
    lemma_slt_by(s[10], s[11], 1); lemma_slt_by(s[11], s[12], 0); lemma_slt_by(s[12], s[13], 1);
    lemma_asc(s);
}
pub proof fn lemma_two(a: Seq<char>, b: Seq<char>)
    ensures seq!['('] + a + seq![')', '-', '('] + b + seq![')'] == bm_two(a, b)
{ }
// ---- names in lower case, without hyphens ----
pub open spec fn low_all(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> lower(#[trigger] s[i]) == seq![s[i]] }
pub open spec fn normal(s: Seq<char>) -> bool { low_all(s) && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '-' }
/// ASSUMED (std): what to_lowercase gives has only characters that are their own lower case, and such characters it leaves alone
pub axiom fn axiom_slower_low(s: Seq<char>)
    ensures low_all(slower(s));
pub axiom fn axiom_slower_fixed(s: Seq<char>)
    requires low_all(s)
    ensures slower(s) == s;
pub axiom fn axiom_lower_ascii(c: char)
    requires (c as u32) < 0x80
    ensures lower(c) == seq![alow(c)];
pub proof fn lemma_replace_hyphen(s: Seq<char>)
    requires low_all(s)
    ensures normal(sreplace(s, seq!['-'], seq![' '])), normal(s) ==> sreplace(s, seq!['-'], seq![' ']) == s, sreplace(s, seq!['-'], seq![' ']).len() == s.len()
    decreases s.len()
{
    reveal_with_fuel(sreplace, 2);
    axiom_lower_ascii(' ');
    if s.len() > 0 {
        let t = s.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies lower(#[trigger] t[i]) == seq![t[i]] by { assert(t[i] == s[i + 1]); }
        if normal(s) { assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != '-' by { assert(t[i] == s[i + 1]); } }
        lemma_replace_hyphen(t);
        assert((s.take(1) == seq!['-']) == (s[0] == '-')) by { assert(s.take(1) =~= seq![s[0]]); assert(seq![s[0]][0] == s[0] && seq!['-'][0] == '-'); }
        let h = if s[0] == '-' { ' ' } else { s[0] };
        let r = sreplace(t, seq!['-'], seq![' ']);
        assert(s.skip(1) == t);
        let g = sreplace(s, seq!['-'], seq![' ']);
        assert(g == seq![h] + r);
        assert forall|i: int| 0 <= i < g.len() implies lower(#[trigger] g[i]) == seq![g[i]] && g[i] != '-' by { if i > 0 { assert(g[i] == r[i - 1]); } }
        if normal(s) { assert(s[0] != '-'); assert(g =~= s); }
    }
}
pub proof fn lemma_norm(s: Seq<char>)
    ensures normal(bm_norm(s)), normal(s) ==> bm_norm(s) == s && slower(s) == s
{ axiom_slower_low(s); lemma_replace_hyphen(slower(s)); if normal(s) { axiom_slower_fixed(s); } }
pub proof fn lemma_normal_part(s: Seq<char>, a: int, b: int)
    requires normal(s), 0 <= a <= b <= s.len()
    ensures normal(s.subrange(a, b))
{ let t = s.subrange(a, b); assert forall|i: int| 0 <= i < t.len() implies lower(#[trigger] t[i]) == seq![t[i]] && t[i] != '-' by { assert(t[i] == s[i + a]); } }
pub proof fn lemma_normal_add(a: Seq<char>, b: Seq<char>)
    requires normal(a), normal(b)
    ensures normal(a + b)
{ let t = a + b; assert forall|i: int| 0 <= i < t.len() implies lower(#[trigger] t[i]) == seq![t[i]] && t[i] != '-' by { if i < a.len() { assert(t[i] == a[i]); } else { assert(t[i] == b[i - a.len()]); } } }
pub proof fn lemma_swords_normal(s: Seq<char>)
    requires normal(s)
    ensures forall|i: int| 0 <= i < swords(s).len() ==> normal(#[trigger] swords(s)[i])
    decreases s.len()
{
    if s.len() > 0 {
        assert(s.skip(1) =~= s.subrange(1, s.len() as int));
        lemma_normal_part(s, 1, s.len() as int);
        if is_ws(s[0]) { lemma_swords_normal(s.skip(1)); assert(swords(s) == swords(s.skip(1))); }
        else {
            let n = sspan(s, |c: char| !is_ws(c));
            if 1 <= n <= s.len() {
                assert(s.skip(n) =~= s.subrange(n, s.len() as int)); assert(s.take(n) =~= s.subrange(0, n));
                lemma_normal_part(s, n, s.len() as int); lemma_normal_part(s, 0, n); lemma_swords_normal(s.skip(n));
                let r = swords(s.skip(n)); assert(swords(s) == seq![s.take(n)] + r);
                assert forall|i: int| 0 <= i < swords(s).len() implies normal(#[trigger] swords(s)[i]) by { if i > 0 { assert(swords(s)[i] == r[i - 1]); } }
            }
        }
    }
}
pub open spec fn total(ws: Seq<Seq<char>>) -> int decreases ws.len() { if ws.len() == 0 { 0 } else { ws[0].len() + total(ws.skip(1)) } }
pub proof fn lemma_swords_total(s: Seq<char>)
    ensures total(swords(s)) <= s.len(), forall|i: int| 0 <= i < swords(s).len() ==> 0 < #[trigger] swords(s)[i].len()
    decreases s.len()
{
    if s.len() > 0 {
        if is_ws(s[0]) { lemma_swords_total(s.skip(1)); }
        else {
            let n = sspan(s, |c: char| !is_ws(c));
            if 1 <= n <= s.len() {
                let r = swords(s.skip(n)); lemma_swords_total(s.skip(n));
                assert(swords(s) == seq![s.take(n)] + r); assert((seq![s.take(n)] + r).skip(1) =~= r);
                assert forall|i: int| 0 <= i < swords(s).len() implies 0 < #[trigger] swords(s)[i].len() by { if i > 0 { assert(swords(s)[i] == r[i - 1]); } }
            }
        }
    }
}
pub proof fn lemma_total_two(ws: Seq<Seq<char>>, i: int)
    requires forall|i: int| 0 <= i < ws.len() ==> 0 < #[trigger] ws[i].len(), 0 <= i < ws.len()
    ensures ws[i].len() + ws.len() - 1 <= total(ws)
    decreases ws.len()
{
    let t = ws.skip(1);
    assert forall|i: int| 0 <= i < t.len() implies 0 < #[trigger] t[i].len() by { assert(t[i] == ws[i + 1]); }
    assert(total(ws) == ws[0].len() + total(t));
    if t.len() == 0 { assert(total(t) == 0); }
    if t.len() > 0 { if i > 0 { lemma_total_two(t, i - 1); assert(t[i - 1] == ws[i]); assert(0 < ws[0].len()); } else { lemma_total_two(t, 0); assert(0 < t[0].len()); } }
}
/// with more than one word, each is shorter than the name
pub proof fn lemma_words_short(s: Seq<char>, i: int)
    requires 0 <= i < swords(s).len(), swords(s).len() > 1
    ensures swords(s)[i].len() < s.len()
{ lemma_swords_total(s); lemma_total_two(swords(s), i); }
pub proof fn lemma_bm_codes(c: BmCfg, ws: Seq<Seq<char>>, len: nat)
    requires forall|i: int| 0 <= i < ws.len() ==> #[trigger] ws[i].len() < len
    ensures bm_codes(c, ws, len) == smap(ws, |w: Seq<char>| bm_code(c, w, bm_guess(c, w)))
    decreases ws.len()
{
    let g = |w: Seq<char>| bm_code(c, w, bm_guess(c, w));
    if ws.len() > 0 {
        let t = ws.skip(1);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i].len() < len by { assert(t[i] == ws[i + 1]); }
        lemma_bm_codes(c, t, len);
        assert(ws[0].len() < len);
    }
    assert(bm_codes(c, ws, len) =~= smap(ws, g));
}
pub proof fn lemma_prefix_cases(k: int, x: Seq<char>)
    ensures
        k == 0 ==> (bm_prefixes(k).contains(x) <==> (x == seq!['b', 'a', 'r'] || x == seq!['b', 'e', 'n'] || x == seq!['d', 'a'] || x == seq!['d', 'e'] || x == seq!['v', 'a', 'n'] || x == seq!['v', 'o', 'n'])),
        k == 1 ==> (bm_prefixes(k).contains(x) <==> (x == seq!['d', 'a'] || x == seq!['d', 'a', 'l'] || x == seq!['d', 'e'] || x == seq!['d', 'e', ' ', 'l', 'a'] || x == seq!['d', 'e', 'l'] || x == seq!['d', 'e', 'l', 'a'] || x == seq!['d', 'e', 'l', 'l', 'a'] || x == seq!['d', 'e', 's'] || x == seq!['d', 'i'] || x == seq!['d', 'o'] || x == seq!['d', 'o', 's'] || x == seq!['d', 'u'] || x == seq!['v', 'a', 'n'] || x == seq!['v', 'o', 'n'])),
        k == 2 ==> (bm_prefixes(k).contains(x) <==> (x == seq!['a', 'l'] || x == seq!['d', 'a'] || x == seq!['d', 'a', 'l'] || x == seq!['d', 'e'] || x == seq!['d', 'e', ' ', 'l', 'a'] || x == seq!['d', 'e', 'l'] || x == seq!['d', 'e', 'l', 'a'] || x == seq!['d', 'e', 'l', 'l', 'a'] || x == seq!['d', 'e', 's'] || x == seq!['d', 'i'] || x == seq!['d', 'o'] || x == seq!['d', 'o', 's'] || x == seq!['d', 'u'] || x == seq!['e', 'l'] || x == seq!['v', 'a', 'n'] || x == seq!['v', 'o', 'n'])),
{
    let p = bm_prefixes(k);
    if k == 0 { assert(p.len() == 6); if x == seq!['b', 'a', 'r'] { assert(p[0] == x); } if x == seq!['b', 'e', 'n'] { assert(p[1] == x); } if x == seq!['d', 'a'] { assert(p[2] == x); } if x == seq!['d', 'e'] { assert(p[3] == x); } if x == seq!['v', 'a', 'n'] { assert(p[4] == x); } if x == seq!['v', 'o', 'n'] { assert(p[5] == x); } }
    if k == 1 { assert(p.len() == 14); if x == seq!['d', 'a'] { assert(p[0] == x); } if x == seq!['d', 'a', 'l'] { assert(p[1] == x); } if x == seq!['d', 'e'] { assert(p[2] == x); } if x == seq!['d', 'e', ' ', 'l', 'a'] { assert(p[3] == x); } if x == seq!['d', 'e', 'l'] { assert(p[4] == x); } if x == seq!['d', 'e', 'l', 'a'] { assert(p[5] == x); } if x == seq!['d', 'e', 'l', 'l', 'a'] { assert(p[6] == x); } if x == seq!['d', 'e', 's'] { assert(p[7] == x); } if x == seq!['d', 'i'] { assert(p[8] == x); } if x == seq!['d', 'o'] { assert(p[9] == x); } if x == seq!['d', 'o', 's'] { assert(p[10] == x); } if x == seq!['d', 'u'] { assert(p[11] == x); } if x == seq!['v', 'a', 'n'] { assert(p[12] == x); } if x == seq!['v', 'o', 'n'] { assert(p[13] == x); } }
    if k == 2 { assert(p.len() == 16); if x == seq!['a', 'l'] { assert(p[0] == x); } if x == seq!['d', 'a'] { assert(p[1] == x); } if x == seq!['d', 'a', 'l'] { assert(p[2] == x); } if x == seq!['d', 'e'] { assert(p[3] == x); } if x == seq!['d', 'e', ' ', 'l', 'a'] { assert(p[4] == x); } if x == seq!['d', 'e', 'l'] { assert(p[5] == x); } if x == seq!['d', 'e', 'l', 'a'] { assert(p[6] == x); } if x == seq!['d', 'e', 'l', 'l', 'a'] { assert(p[7] == x); } if x == seq!['d', 'e', 's'] { assert(p[8] == x); } if x == seq!['d', 'i'] { assert(p[9] == x); } if x == seq!['d', 'o'] { assert(p[10] == x); } if x == seq!['d', 'o', 's'] { assert(p[11] == x); } if x == seq!['d', 'u'] { assert(p[12] == x); } if x == seq!['e', 'l'] { assert(p[13] == x); } if x == seq!['v', 'a', 'n'] { assert(p[14] == x); } if x == seq!['v', 'o', 'n'] { assert(p[15] == x); } }
}
pub proof fn lemma_prefixes_normal()
    ensures forall|i: int| 0 <= i < bm_prefixes(1).len() ==> normal(#[trigger] bm_prefixes(1)[i])
{
    assert forall|i: int| 0 <= i < bm_prefixes(1).len() implies normal(#[trigger] bm_prefixes(1)[i]) by {
        let p = bm_prefixes(1)[i];
        assert forall|k: int| 0 <= k < p.len() implies lower(#[trigger] p[k]) == seq![p[k]] && p[k] != '-' by { assert(is_az(p[k]) || p[k] == ' '); axiom_lower_ascii(p[k]); }
    }
}
pub broadcast proof fn lemma_norm_b(s: Seq<char>)
    ensures #![trigger bm_norm(s)] normal(bm_norm(s)), normal(s) ==> bm_norm(s) == s && slower(s) == s
{ lemma_norm(s); }
pub broadcast proof fn lemma_normal_skip(s: Seq<char>, k: int)
    requires normal(s), 0 <= k <= s.len()
    ensures #[trigger] normal(s.skip(k))
{ assert(s.skip(k) =~= s.subrange(k, s.len() as int)); lemma_normal_part(s, k, s.len() as int); }
pub broadcast proof fn lemma_normal_add_b(a: Seq<char>, b: Seq<char>)
    requires normal(a), normal(b)
    ensures #[trigger] normal(a + b)
{ lemma_normal_add(a, b); }
pub broadcast proof fn lemma_normal_d()
    ensures #[trigger] normal(seq!['d'])
{ axiom_lower_ascii('d'); }
pub broadcast proof fn lemma_empty_add(t: Seq<char>)
    ensures #[trigger] (Seq::<char>::empty() + t) == t
{ assert(Seq::<char>::empty() + t =~= t); }
pub broadcast proof fn lemma_push_add(t: Seq<char>, c: char)
    ensures #[trigger] t.push(c) == t + seq![c]
{ assert(t.push(c) =~= t + seq![c]); }
pub broadcast group bm_norms { lemma_norm_b, lemma_normal_skip, lemma_normal_add_b, lemma_normal_d, lemma_empty_add, lemma_push_add }
pub open spec fn strs(s: Seq<&str>) -> Seq<Seq<char>> { smap(s, |w: &str| w@) }
pub open spec fn bm_keeps<'a>(name: int) -> spec_fn(&'a str) -> bool { |w: &'a str| name == 1 || !bm_prefixes(name).contains(w@) }
pub proof fn lemma_sfilter_strs(s: Seq<&str>, q: spec_fn(&str) -> bool, p: spec_fn(Seq<char>) -> bool)
    requires forall|w: &str| #[trigger] q(w) == p(w@)
    ensures strs(sfilter(s, q)) == sfilter(strs(s), p)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_sfilter_strs(s.skip(1), q, p);
        assert(strs(s).skip(1) =~= strs(s.skip(1)));
        assert(q(s[0]) == p(s[0]@));
        assert(strs(sfilter(s, q)) =~= sfilter(strs(s), p));
    } else { assert(strs(sfilter(s, q)) =~= sfilter(strs(s), p)); }
}
pub open spec fn bm_cut(name: int, w: Seq<char>) -> Seq<char> { if name == 2 { ssplit(w, '\'').last() } else { w } }
pub open spec fn bm_for(name: int, ws: Seq<Seq<char>>) -> bool { true }
/// the words kept, as they are computed: cut, then filtered
pub broadcast proof fn lemma_kept(name: int, s: Seq<&str>, ws: Seq<Seq<char>>)
    requires s.len() == ws.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == bm_cut(name, ws[i])
    ensures #![trigger sfilter(s, bm_keeps(name)), bm_for(name, ws)] strs(sfilter(s, bm_keeps(name))) == bm_kept(name, ws)
{
    let p = |w: Seq<char>| name == 1 || !bm_prefixes(name).contains(w);
    lemma_sfilter_strs(s, bm_keeps(name), p);
    let cut = if name == 2 { smap(ws, |w: Seq<char>| ssplit(w, '\'').last()) } else { ws };
    assert(strs(s) =~= cut);
}
pub open spec fn rstrs<'a, 'b>(s: Seq<&'a &'b str>) -> Seq<Seq<char>> { smap(s, |p: &'a &'b str| (*p)@) }
pub broadcast proof fn lemma_rstrs_step<'a, 'b>(s: Seq<&'a &'b str>)
    requires s.len() > 0
    ensures #![trigger rstrs(s), s.skip(1)] rstrs(s).skip(1) == rstrs(s.skip(1)), rstrs(s)[0] == (*s[0])@
{ assert(rstrs(s).skip(1) =~= rstrs(s.skip(1))); }
pub broadcast proof fn lemma_vrest_at<T: VxView>(it: VxIter<T>, i: int)
    requires 0 <= i < it.rest().len()
    ensures #![trigger vrest(it), it.rest()[i]] it.rest()[i].vv() == vrest(it)[i], vrest(it).len() == it.rest().len()
{ }
pub broadcast proof fn lemma_vrest_len<T: VxView>(it: VxIter<T>)
    ensures (#[trigger] vrest(it)).len() == it.rest().len()
{ }
pub broadcast proof fn lemma_ssplit_some(s: Seq<char>, c: char)
    ensures #[trigger] ssplit(s, c).len() > 0
    decreases s.len()
{ if s.len() > 0 { lemma_ssplit_some(s.skip(1), c); } }
pub broadcast group bm_words { lemma_rstrs_step, lemma_vrest_at, lemma_vrest_len, lemma_ssplit_some, lemma_kept }
