pub open spec fn is_just(s: Set<Seq<char>>, l: Seq<char>) -> bool { forall|m: Seq<char>| #[trigger] s.contains(m) == (m == l) }
pub proof fn lemma_singleton_set(s: Set<Seq<char>>)
    ensures (s.len() == 1) == (exists|l: Seq<char>| is_just(s, l))
{
    if s.len() == 1 {
        let l = s.choose();
        assert(s.remove(l).len() == 0);
        assert forall|m: Seq<char>| #[trigger] s.contains(m) == (m == l) by { if s.contains(m) && m != l { assert(s.remove(l).contains(m)); } }
        assert(is_just(s, l));
    }
    if exists|l: Seq<char>| is_just(s, l) {
        let l = choose|l: Seq<char>| is_just(s, l);
        assert(s =~= Set::empty().insert(l));
    }
}
