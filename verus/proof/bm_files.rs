pub broadcast proof fn lemma_empty_add(s: Seq<char>)
    ensures #[trigger] (Seq::<char>::empty() + s) == s
{ assert(Seq::<char>::empty() + s =~= s); }
/// the first of the positions of a character
pub proof fn lemma_sfind_first(s: Seq<char>, c: char, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] != c, k < s.len() ==> s[k] == c
    ensures sfind(s, seq![c]) == (if k < s.len() { Some(k) } else { None })
    decreases s.len()
{
    if s.len() > 0 {
        assert(s.take(1)[0] == s[0]); assert(seq![c][0] == c);
        if s[0] == c { assert(s.take(1) =~= seq![c]); assert(k == 0); } else { assert(k > 0); lemma_sfind_first(s.skip(1), c, k - 1); }
    }
}
/// what char_indices().find(is c) gives
pub proof fn lemma_indices_find(s: Seq<char>, c: char)
    requires blen(s) <= usize::MAX, clen(c) == 1
    ensures
        sindices(0, s).len() == s.len(),
        forall|k: int| #![trigger sindices(0, s)[k]] 0 <= k < s.len() && sindices(0, s)[k].1 == c && (forall|i: int| #![trigger sindices(0, s)[i]] 0 <= i < k ==> sindices(0, s)[i].1 != c)
            ==> sfind(s, seq![c]) == Some(k) && s[k] == c && cidx(s, sindices(0, s)[k].0 as int) == k && cidx(s, sindices(0, s)[k].0 + 1) == k + 1 && sindices(0, s)[k].0 + 1 <= blen(s) && (s.last() != c && clen(s.last()) == 1 ==> k + 1 < s.len() && sindices(0, s)[k].0 + 1 <= blen(s) - 1),
        (forall|i: int| #![trigger sindices(0, s)[i]] 0 <= i < s.len() ==> sindices(0, s)[i].1 != c) ==> sfind(s, seq![c]) is None,
{
    lemma_sindices_len(0, s);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] sindices(0, s)[i].1 == s[i] && sindices(0, s)[i].0 == blen(s.take(i)) by { lemma_sindices(0, s, i); }
    assert forall|k: int| #![trigger sindices(0, s)[k]] 0 <= k < s.len() && sindices(0, s)[k].1 == c && (forall|i: int| #![trigger sindices(0, s)[i]] 0 <= i < k ==> sindices(0, s)[i].1 != c)
            implies sfind(s, seq![c]) == Some(k) && s[k] == c && cidx(s, sindices(0, s)[k].0 as int) == k && cidx(s, sindices(0, s)[k].0 + 1) == k + 1 && sindices(0, s)[k].0 + 1 <= blen(s) && (s.last() != c && clen(s.last()) == 1 ==> k + 1 < s.len() && sindices(0, s)[k].0 + 1 <= blen(s) - 1) by {
        assert forall|i: int| 0 <= i < k implies s[i] != c by { assert(sindices(0, s)[i].1 != c); }
        lemma_sfind_first(s, c, k);
        lemma_blen_split(s, k); lemma_blen_split(s, k + 1);
        assert(s.take(k + 1) =~= s.take(k).push(c)); lemma_blen_push(s.take(k), c);
        if s.last() != c && clen(s.last()) == 1 {
            assert(k + 1 < s.len());
            let t = s.skip(k + 1); assert(t.last() == s.last()); lemma_byte_ends(t); lemma_blen_bound(t);
        }
    }
    if forall|i: int| #![trigger sindices(0, s)[i]] 0 <= i < s.len() ==> sindices(0, s)[i].1 != c {
        assert forall|i: int| 0 <= i < s.len() implies s[i] != c by { assert(sindices(0, s)[i].1 != c); }
        lemma_sfind_first(s, c, s.len() as int);
    }
}
pub proof fn lemma_blen_push(s: Seq<char>, c: char)
    ensures blen(s.push(c)) == blen(s) + clen(c)
{ lemma_blen_split(s.push(c), s.len() as int); assert(s.push(c).take(s.len() as int) =~= s); assert(s.push(c).skip(s.len() as int) =~= seq![c]); reveal_with_fuel(blen, 2); assert(seq![c].skip(1) =~= Seq::empty()); }
// includes no deeper than d
pub open spec fn bm_flat(files: IMap<Seq<char>, Seq<char>>, f: Seq<char>, d: nat) -> bool { !(bm_file(files, f, d) is Deep) }
pub open spec fn bm_depth(files: IMap<Seq<char>, Seq<char>>, f: Seq<char>) -> nat { choose|d: nat| bm_least(files, f, d) }
pub open spec fn bm_least(files: IMap<Seq<char>, Seq<char>>, f: Seq<char>, d: nat) -> bool { bm_flat(files, f, d) && (d == 0 || !bm_flat(files, f, (d - 1) as nat)) }
/// what a file of rules is, includes and all
pub open spec fn bm_whole(files: IMap<Seq<char>, Seq<char>>, f: Seq<char>) -> BmRead { bm_file(files, f, bm_depth(files, f)) }
pub open spec fn bm_acyclic(files: IMap<Seq<char>, Seq<char>>, f: Seq<char>) -> bool { exists|d: nat| bm_flat(files, f, d) }
pub proof fn lemma_bm_read_more(files: IMap<Seq<char>, Seq<char>>, f: Seq<char>, s: Seq<char>, line: int, t: Map<char, Seq<BmRule>>, d: nat, e: nat)
    requires !(bm_read(files, f, s, line, t, d) is Deep), d <= e
    ensures bm_read(files, f, s, line, t, e) == bm_read(files, f, s, line, t, d)
    decreases d, s.len()
{
    if s.len() > 0 {
        if let Some((q, r)) = p_quad(s) {
            match bm_rule(q) { None => {}, Some(x) => { if q.0.len() > 0 && r.len() < s.len() { lemma_bm_read_more(files, f, r, line + 1, bm_put(t, x), d, e); } } }
        } else if let Some(r) = p_eol(s) { if r.len() < s.len() { lemma_bm_read_more(files, f, r, line + 1, t, d, e); } }
        else if let Some((g, r)) = p_include(s) {
            if d > 0 && r.len() < s.len() {
                if files.contains_key(g) {
                    lemma_bm_read_more(files, g, files[g], 1, Map::empty(), (d - 1) as nat, (e - 1) as nat);
                    match bm_read(files, g, files[g], 1, Map::empty(), (d - 1) as nat) { BmRead::Rules(u) => { lemma_bm_read_more(files, f, r, line + 1, t.union_prefer_right(u), d, e); } _ => {} }
                }
            }
        } else if let Some((n, r)) = p_comment(s) { if r.len() < s.len() { lemma_bm_read_more(files, f, r, line + n, t, d, e); } }
    }
}
pub proof fn lemma_bm_more(files: IMap<Seq<char>, Seq<char>>, f: Seq<char>, d: nat, e: nat)
    requires bm_flat(files, f, d), d <= e
    ensures bm_flat(files, f, e), bm_file(files, f, e) == bm_file(files, f, d)
{ if files.contains_key(f) { lemma_bm_read_more(files, f, files[f], 1, Map::empty(), d, e); } }
pub proof fn lemma_bm_depth(files: IMap<Seq<char>, Seq<char>>, f: Seq<char>, d: nat)
    requires bm_flat(files, f, d)
    ensures bm_flat(files, f, bm_depth(files, f)), bm_depth(files, f) <= d, bm_whole(files, f) == bm_file(files, f, d), bm_acyclic(files, f)
    decreases d
{
    lemma_bm_least(files, f, d);
    let m = bm_depth(files, f);
    if m > d { lemma_bm_more(files, f, d, (m - 1) as nat); }
    lemma_bm_more(files, f, m, d);
}
pub proof fn lemma_bm_least(files: IMap<Seq<char>, Seq<char>>, f: Seq<char>, d: nat)
    requires bm_flat(files, f, d)
    ensures exists|d: nat| bm_least(files, f, d)
    decreases d
{ if d > 0 && bm_flat(files, f, (d - 1) as nat) { lemma_bm_least(files, f, (d - 1) as nat); } else { assert(bm_least(files, f, d)); } }
