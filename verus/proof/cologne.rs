/// replacing one character by another, then a different one: the order does not matter
pub broadcast proof fn lemma_sreplace_swap(s: Seq<char>, p: Seq<char>, r: Seq<char>, q: Seq<char>, t: Seq<char>)
    requires p.len() == 1, q.len() == 1, r.len() == 1, t.len() == 1, p[0] != q[0], r[0] != q[0], t[0] != p[0]
    ensures #[trigger] sreplace(sreplace(s, p, r), q, t) == sreplace(sreplace(s, q, t), p, r)
    decreases s.len()
{
    reveal_with_fuel(sreplace, 2);
    if s.len() > 0 {
        let n = s.skip(1);
        lemma_sreplace_swap(n, p, r, q, t);
        assert(s.take(1) =~= seq![s[0]]);
        assert((s.take(1) == p) == (s[0] == p[0])) by { if s[0] == p[0] { assert(s.take(1) =~= p); } }
        assert((s.take(1) == q) == (s[0] == q[0])) by { if s[0] == q[0] { assert(s.take(1) =~= q); } }
        let (a, b) = (sreplace(s, p, r), sreplace(s, q, t));
        let (c, d) = (if s[0] == p[0] { r } else { seq![s[0]] }, if s[0] == q[0] { t } else { seq![s[0]] });
        assert(a == c + sreplace(n, p, r)); assert(b == d + sreplace(n, q, t));
        assert(a.take(1) =~= c); assert(a.skip(1) =~= sreplace(n, p, r)); assert(b.take(1) =~= d); assert(b.skip(1) =~= sreplace(n, q, t));
        assert((c == q) == (c[0] == q[0])) by { if c[0] == q[0] { assert(c =~= q); } }
        assert((d == p) == (d[0] == p[0])) by { if d[0] == p[0] { assert(d =~= p); } }
    }
}
