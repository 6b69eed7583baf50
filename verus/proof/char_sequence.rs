pub proof fn lemma_sindices(k: int, s: Seq<char>, i: int)
    requires 0 <= i < s.len(), 0 <= k, k + blen(s) <= usize::MAX
    ensures sindices(k, s).len() == s.len(), sindices(k, s)[i].0 as int == k + blen(s.take(i)), sindices(k, s)[i].1 == s[i]
    decreases s.len()
{
    reveal_with_fuel(blen, 2);
    lemma_sindices_len(k, s);
    lemma_blen_bound(s.skip(1));
    if i == 0 { assert(s.take(0).len() == 0); }
    else {
        lemma_sindices(k + clen(s[0]), s.skip(1), i - 1);
        assert(s.take(i).skip(1) =~= s.skip(1).take(i - 1));
        assert(s.take(i)[0] == s[0]);
        assert(sindices(k, s)[i] == sindices(k + clen(s[0]), s.skip(1))[i - 1]);
    }
}
pub proof fn lemma_sindices_len(k: int, s: Seq<char>)
    ensures sindices(k, s).len() == s.len()
    decreases s.len()
{ if s.len() > 0 { lemma_sindices_len(k + clen(s[0]), s.skip(1)); } }
/// the byte positions of the character positions a < b
pub proof fn lemma_cslice(s: Seq<char>, a: int, b: int)
    requires 0 <= a < b, blen(s) <= usize::MAX
    ensures
        sindices(0, s).len() == s.len(),
        a < s.len() ==> cidx(s, sindices(0, s)[a].0 as int) == a,
        b < s.len() ==> cidx(s, sindices(0, s)[b].0 as int) == b && sindices(0, s)[a].0 <= sindices(0, s)[b].0
{
    lemma_sindices_len(0, s);
    if a < s.len() { lemma_sindices(0, s, a); lemma_blen_split(s, a); }
    if b < s.len() { lemma_sindices(0, s, b); lemma_blen_split(s, b); lemma_blen_split(s.take(b), a); assert(s.take(b).take(a) =~= s.take(a)); lemma_blen_bound(s.take(b).skip(a)); }
}
