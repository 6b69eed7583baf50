pub broadcast proof fn lemma_sreplace1_head(s: Seq<char>, p: Seq<char>, r: Seq<char>)
    requires sstarts(s, p), p.len() > 0
    ensures #[trigger] sreplace1(s, p, r) == r + s.skip(p.len() as int)
{ reveal(sreplace1); }
pub broadcast proof fn lemma_filter_az_ascii(s: Seq<char>, q: spec_fn(char) -> bool)
    requires forall|c: char| #[trigger] q(c) ==> is_az(c)
    ensures is_ascii_seq(#[trigger] sfilter(s, q))
    decreases s.len()
{ reveal(is_ascii_seq); if s.len() > 0 { lemma_filter_az_ascii(s.skip(1), q); } }
pub broadcast proof fn lemma_squeeze_ascii(out: Seq<char>, prev: Option<char>, cs: Seq<char>, s: Seq<char>)
    requires is_ascii_seq(s), out.len() == 0 || is_ascii_seq(out)
    ensures is_ascii_seq(#[trigger] cav_squeeze(out, prev, cs, s))
    decreases s.len()
{
    reveal(is_ascii_seq);
    if s.len() > 0 {
        assert(is_ascii_seq(s.skip(1)));
        assert(is_ascii_seq(out.push(s[0]))); assert(is_ascii_seq(out.push(aup(s[0]))));
        lemma_squeeze_ascii(out, prev, cs, s.skip(1));
        lemma_squeeze_ascii(out.push(s[0]), None, cs, s.skip(1));
        lemma_squeeze_ascii(out.push(aup(s[0])), Some(s[0]), cs, s.skip(1));
    }
}
pub broadcast group cav_group { lemma_sreplace1_head, lemma_filter_az_ascii, lemma_squeeze_ascii }
