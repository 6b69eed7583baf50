pub proof fn lemma_sfind_char(s: Seq<char>, c: char)
    ensures (sfind(s, seq![c]) is Some) == s.contains(c)
    decreases s.len()
{
    if s.len() > 0 {
        assert(s[0] == c ==> s.take(1) =~= seq![c]);
        assert(s.take(1)[0] == s[0]);
        lemma_sfind_char(s.skip(1), c);
        if s.skip(1).contains(c) { let i = choose|i: int| 0 <= i < s.skip(1).len() && s.skip(1)[i] == c; assert(s[i + 1] == c); }
        if s.contains(c) && s[0] != c { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(s.skip(1)[i - 1] == c); }
    }
}
pub broadcast proof fn lemma_starts_blen(s: Seq<char>, p: Seq<char>)
    requires sstarts(s, p)
    ensures #![trigger sstarts(s, p), blen(p)] blen(p) <= blen(s)
{ lemma_blen_split(s, p.len() as int); lemma_blen_bound(s.skip(p.len() as int)); }
/// the bytes before the last character, after the first, and between, when these are ASCII
pub proof fn lemma_byte_ends(s: Seq<char>)
    ensures
        s.len() > 0 && clen(s[0]) == 1 ==> cidx(s, 1) == 1,
        s.len() > 0 && clen(s.last()) == 1 ==> blen(s) >= s.len() && cidx(s, blen(s) - 1) == s.len() - 1,
        blen(s) >= s.len()
{
    lemma_blen_bound(s);
    if s.len() > 0 {
        lemma_blen_split(s, s.len() - 1);
        assert(s.skip(s.len() - 1) =~= seq![s.last()]);
        lemma_blen_1(seq![s.last()]);
        if clen(s[0]) == 1 { lemma_cidx_first(s, 1); }
    }
}
pub proof fn lemma_sends_ch(s: Seq<char>, c: char)
    ensures sends(s, seq![c]) == (s.len() > 0 && s.last() == c)
{ if s.len() > 0 { assert(s.skip(s.len() - 1) =~= seq![s.last()]); assert(seq![s.last()][0] == s.last()); assert(seq![c][0] == c); } }
pub proof fn lemma_sstarts_ch(s: Seq<char>, c: char)
    ensures sstarts(s, seq![c]) == (s.len() > 0 && s[0] == c)
{ if s.len() > 0 { assert(s.take(1) =~= seq![s[0]]); assert(seq![s[0]][0] == s[0]); assert(seq![c][0] == c); } }
