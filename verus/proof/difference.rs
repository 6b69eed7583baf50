pub open spec fn pairs_agree(s: Seq<(char, char)>) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { pairs_agree(s.skip(1)) + if s[0].0 == s[0].1 { 1int } else { 0int } } }
pub proof fn lemma_pairs_agree(a: Seq<char>, b: Seq<char>)
    ensures pairs_agree(szip(a, b)) == agree(a, b)
    decreases a.len()
{ if a.len() > 0 && b.len() > 0 { lemma_pairs_agree(a.skip(1), b.skip(1)); assert(szip(a, b).skip(1) =~= szip(a.skip(1), b.skip(1))); } }
// corollaries stated by the property
pub proof fn lemma_agree_sym(a: Seq<char>, b: Seq<char>)
    ensures agree(a, b) == agree(b, a)
    decreases a.len()
{ if a.len() > 0 && b.len() > 0 { lemma_agree_sym(a.skip(1), b.skip(1)); } }
pub proof fn lemma_agree_bound(a: Seq<char>, b: Seq<char>)
    ensures 0 <= agree(a, b) <= a.len(), agree(a, b) <= b.len(),
        a.len() == b.len() ==> (agree(a, b) == a.len() <==> a == b)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lemma_agree_bound(a.skip(1), b.skip(1));
        if a.len() == b.len() {
            assert(a == seq![a[0]] + a.skip(1)); assert(b == seq![b[0]] + b.skip(1));
            if agree(a, b) == a.len() { assert(a.skip(1) == b.skip(1)); }
        }
    } else if a.len() == b.len() { assert(a =~= b); }
}
