pub proof fn lemma_and_or(a: Option<Set<Seq<char>>>, b: Option<Set<Seq<char>>>)
    ensures a is Some && b is Some ==> {
        &&& (a->0).union(b->0) == (b->0).union(a->0)
        &&& (a->0).intersect(b->0) == (b->0).intersect(a->0)
        &&& (a->0 == Set::<Seq<char>>::empty() ==> (a->0).union(b->0) == b->0 && (a->0).intersect(b->0) == a->0)
        &&& (b->0 == Set::<Seq<char>>::empty() ==> (a->0).union(b->0) == a->0 && (a->0).intersect(b->0) == b->0)
    }
{
    if a is Some && b is Some {
        let x = a->0; let y = b->0;
        assert(x.union(y) =~= y.union(x)); assert(x.intersect(y) =~= y.intersect(x));
        if x == Set::<Seq<char>>::empty() { assert(x.union(y) =~= y); assert(x.intersect(y) =~= x); }
        if y == Set::<Seq<char>>::empty() { assert(x.union(y) =~= x); assert(x.intersect(y) =~= y); }
    }
}
pub open spec fn slt_of(a: Seq<char>, b: Seq<char>) -> Ordering { if a == b { Ordering::Equal } else if slt(a, b) { Ordering::Less } else { Ordering::Greater } }
pub proof fn lemma_slt_at(a: Seq<char>, b: Seq<char>, n: int)
    requires 0 <= n < a.len(), n < b.len(), a.take(n) == b.take(n), a[n] != b[n]
    ensures slt(a, b) == ((a[n] as u32) < (b[n] as u32)), a != b
    decreases n
{
    if n > 0 {
        assert(a.take(n)[0] == a[0] && b.take(n)[0] == b[0]);
        assert(a.skip(1)[n - 1] == a[n] && b.skip(1)[n - 1] == b[n]);
        assert(a.skip(1).take(n - 1) =~= a.take(n).skip(1));
        assert(b.skip(1).take(n - 1) =~= b.take(n).skip(1));
        lemma_slt_at(a.skip(1), b.skip(1), n - 1);
    }
}
pub proof fn lemma_slt_prefix(a: Seq<char>, b: Seq<char>)
    requires ({ let n = if a.len() <= b.len() { a.len() as int } else { b.len() as int }; a.take(n) == b.take(n) })
    ensures slt_of(a, b) == ord_of(blen(a), blen(b)), (blen(a) <= blen(b)) == (a.len() <= b.len())
    decreases a.len()
{
    reveal_with_fuel(blen, 2);
    lemma_blen_bound(a); lemma_blen_bound(b);
    if a.len() > 0 && b.len() > 0 {
        let n = if a.len() <= b.len() { a.len() as int } else { b.len() as int };
        assert(a.take(n)[0] == b.take(n)[0]);
        assert(a.skip(1).take(n - 1) =~= a.take(n).skip(1));
        assert(b.skip(1).take(n - 1) =~= b.take(n).skip(1));
        lemma_slt_prefix(a.skip(1), b.skip(1));
        if a.skip(1) == b.skip(1) { assert(a =~= b); }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
