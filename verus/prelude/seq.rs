pub mod vx_lem {
use super::*;
// ---- lemmas about sequences (all proved) ----
pub broadcast proof fn lemma_take_update<T>(a: Seq<T>, i: int, x: T, n: int)
    requires 0 <= i < a.len(), 0 <= n <= a.len()
    ensures #[trigger] a.update(i, x).take(n) == (if n <= i { a.take(n) } else if n == i + 1 { a.take(i).push(x) } else { a.take(n).update(i, x) })
{
    if n <= i { assert(a.update(i, x).take(n) =~= a.take(n)); }
    else if n == i + 1 { assert(a.update(i, x).take(n) =~= a.take(i).push(x)); }
    else { assert(a.update(i, x).take(n) =~= a.take(n).update(i, x)); }
}
pub broadcast proof fn lemma_take_0<T>(a: Seq<T>)
    ensures #[trigger] a.take(0) == Seq::<T>::empty()
{ assert(a.take(0) =~= Seq::<T>::empty()); }
pub broadcast proof fn lemma_skip_0<T>(a: Seq<T>)
    ensures #[trigger] a.skip(0) == a
{ assert(a.skip(0) =~= a); }
pub broadcast proof fn lemma_take_all<T>(a: Seq<T>, n: int)
    requires n == a.len()
    ensures #[trigger] a.take(n) == a
{ assert(a.take(n) =~= a); }
pub broadcast proof fn lemma_skip_skip<T>(a: Seq<T>, n: int, m: int)
    requires 0 <= n, 0 <= m, n + m <= a.len()
    ensures #[trigger] a.skip(n).skip(m) == a.skip(n + m)
{ assert(a.skip(n).skip(m) =~= a.skip(n + m)); }
pub broadcast proof fn lemma_add_empty<T>(a: Seq<T>)
    ensures #[trigger] (a + Seq::<T>::empty()) == a
{ assert(a + Seq::<T>::empty() =~= a); }
pub broadcast proof fn lemma_empty_add<T>(a: Seq<T>)
    ensures #[trigger] (Seq::<T>::empty() + a) == a
{ assert(Seq::<T>::empty() + a =~= a); }
pub broadcast proof fn lemma_singleton_push<T>(x: T)
    ensures #[trigger] Seq::<T>::empty().push(x) == seq![x]
{ assert(Seq::<T>::empty().push(x) =~= seq![x]); }
pub broadcast proof fn lemma_skip_all<T>(a: Seq<T>, n: int)
    requires n == a.len()
    ensures #[trigger] a.skip(n) == Seq::<T>::empty()
{ assert(a.skip(n) =~= Seq::<T>::empty()); }
// ---- byte positions ----
pub broadcast proof fn lemma_blen_bound(s: Seq<char>)
    ensures s.len() <= #[trigger] blen(s) <= 4 * s.len()
    decreases s.len()
{ reveal_with_fuel(blen, 2); if s.len() > 0 { lemma_blen_bound(s.skip(1)); } }
pub proof fn lemma_blen_ascii(s: Seq<char>)
    requires is_ascii_seq(s)
    ensures blen(s) == s.len()
    decreases s.len()
{ reveal(is_ascii_seq); reveal_with_fuel(blen, 2); if s.len() > 0 { assert(clen(s[0]) == 1); assert forall|i: int| 0 <= i < s.skip(1).len() implies (#[trigger] s.skip(1)[i] as u32) < 0x80 by { assert(s.skip(1)[i] == s[i + 1]); } lemma_blen_ascii(s.skip(1)); } }
pub proof fn lemma_cidx_ascii(s: Seq<char>, n: int)
    requires forall|i: int| 0 <= i < n ==> (#[trigger] s[i] as u32) < 0x80, 0 <= n <= s.len()
    ensures cidx(s, n) == n
    decreases s.len()
{ reveal_with_fuel(cidx, 2); if n > 0 { assert(clen(s[0]) == 1); assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] s.skip(1)[i] as u32) < 0x80 by { assert(s.skip(1)[i] == s[i + 1]); } lemma_cidx_ascii(s.skip(1), n - 1); } }

pub proof fn lemma_blen_split(s: Seq<char>, n: int)
    requires 0 <= n <= s.len()
    ensures blen(s) == blen(s.take(n)) + blen(s.skip(n)), cidx(s, blen(s.take(n))) == n
    decreases n
{ reveal_with_fuel(blen, 2); reveal_with_fuel(cidx, 2);
    lemma_blen_bound(s.take(n));
    if n > 0 {
        assert(s.take(n).skip(1) =~= s.skip(1).take(n - 1));
        assert(s.skip(1).skip(n - 1) =~= s.skip(n));
        lemma_blen_split(s.skip(1), n - 1);
        lemma_blen_bound(s.take(n).skip(1));
    } else { assert(s.skip(0) =~= s); }
}
pub broadcast proof fn lemma_cidx_starts(s: Seq<char>, p: Seq<char>, n: int)
    requires sstarts(s, p), n == p.len(), is_ascii_seq(p)
    ensures #![trigger sstarts(s, p), cidx(s, n)] cidx(s, n) == n
{ lemma_blen_split(s, n); lemma_blen_ascii(p); }
pub broadcast proof fn lemma_cidx_ends(s: Seq<char>, p: Seq<char>, n: int)
    requires sends(s, p), n == blen(s) - p.len(), is_ascii_seq(p)
    ensures #![trigger sends(s, p), cidx(s, n)] cidx(s, n) == s.len() - p.len()
{ lemma_blen_split(s, s.len() - p.len()); lemma_blen_ascii(p); }
pub broadcast proof fn lemma_blen_ends(s: Seq<char>, p: Seq<char>)
    requires sends(s, p), is_ascii_seq(p)
    ensures #![trigger sends(s, p), blen(s)] blen(s) == blen(s.take(s.len() - p.len())) + p.len()
{ lemma_blen_split(s, s.len() - p.len()); lemma_blen_ascii(p); }
pub broadcast proof fn lemma_sends_last(s: Seq<char>, p: Seq<char>)
    requires #[trigger] sends(s, p), p.len() > 0
    ensures s.last() == p.last(), s.len() > 0
{ assert(s.skip(s.len() - p.len())[p.len() - 1] == p[p.len() - 1]); }
pub broadcast proof fn lemma_blen_1(s: Seq<char>)
    requires s.len() == 1
    ensures #[trigger] blen(s) == clen(s[0])
{ reveal_with_fuel(blen, 2); }
pub broadcast proof fn lemma_cidx_first(s: Seq<char>, n: int)
    requires n == 1, s.len() > 0, (s[0] as u32) < 0x80
    ensures #[trigger] cidx(s, n) == 1
{ reveal_with_fuel(cidx, 2); }
pub broadcast proof fn lemma_senum_skip<T>(k: int, s: Seq<T>, n: int)
    requires 0 <= n <= s.len()
    ensures #[trigger] senum(k, s).skip(n) == senum(k + n, s.skip(n))
{ assert(senum(k, s).skip(n) =~= senum(k + n, s.skip(n))); }
pub broadcast proof fn lemma_cidx_starts_b(s: Seq<char>, p: Seq<char>, n: int)
    requires sstarts(s, p), n == blen(p)
    ensures #![trigger sstarts(s, p), cidx(s, n)] cidx(s, n) == p.len()
{ lemma_blen_split(s, p.len() as int); }
pub broadcast proof fn lemma_cidx_ends_b(s: Seq<char>, p: Seq<char>, n: int)
    requires sends(s, p), n == blen(s) - blen(p)
    ensures #![trigger sends(s, p), cidx(s, n)] cidx(s, n) == s.len() - p.len()
{ lemma_blen_split(s, s.len() - p.len()); }
pub broadcast proof fn lemma_blen_ends_b(s: Seq<char>, p: Seq<char>)
    requires sends(s, p)
    ensures #![trigger sends(s, p), blen(p)] blen(p) <= blen(s)
{ lemma_blen_split(s, s.len() - p.len()); lemma_blen_bound(s.take(s.len() - p.len())); }
pub broadcast proof fn lemma_blen_ascii_b(s: Seq<char>)
    requires #[trigger] is_ascii_seq(s)
    ensures blen(s) == s.len()
{ lemma_blen_ascii(s); }
pub broadcast proof fn lemma_sreplace_ascii(s: Seq<char>, p: Seq<char>, r: Seq<char>)
    requires is_ascii_seq(s), r.len() == 0 || is_ascii_seq(r)
    ensures is_ascii_seq(#[trigger] sreplace(s, p, r))
    decreases s.len()
{
    reveal(is_ascii_seq); reveal_with_fuel(sreplace, 2);
    if p.len() > 0 && s.len() >= p.len() {
        if s.take(p.len() as int) == p { assert(is_ascii_seq(s.skip(p.len() as int))); lemma_sreplace_ascii(s.skip(p.len() as int), p, r); }
        else { assert(is_ascii_seq(s.skip(1))); lemma_sreplace_ascii(s.skip(1), p, r); }
    }
}
pub broadcast proof fn lemma_sreplace1_ascii(s: Seq<char>, p: Seq<char>, r: Seq<char>)
    requires is_ascii_seq(s), r.len() == 0 || is_ascii_seq(r)
    ensures is_ascii_seq(#[trigger] sreplace1(s, p, r))
    decreases s.len()
{
    reveal(is_ascii_seq); reveal_with_fuel(sreplace1, 2);
    if p.len() > 0 && s.len() >= p.len() && s.take(p.len() as int) != p { assert(is_ascii_seq(s.skip(1))); lemma_sreplace1_ascii(s.skip(1), p, r); }
}
pub broadcast proof fn lemma_add_ascii(a: Seq<char>, b: Seq<char>)
    requires is_ascii_seq(a), is_ascii_seq(b)
    ensures #![trigger is_ascii_seq(a + b)] is_ascii_seq(a + b)
{ reveal(is_ascii_seq); }
pub broadcast proof fn lemma_take_ascii(a: Seq<char>, n: int)
    requires is_ascii_seq(a), 0 <= n <= a.len()
    ensures #![trigger is_ascii_seq(a.take(n))] is_ascii_seq(a.take(n))
{ reveal(is_ascii_seq); }
pub broadcast proof fn lemma_cidx_ascii_b(s: Seq<char>, n: int)
    requires is_ascii_seq(s), 0 <= n <= s.len()
    ensures #[trigger] cidx(s, n) == n
{ reveal(is_ascii_seq); lemma_cidx_ascii(s, n); }
pub broadcast group vx_ascii { lemma_cidx_starts_b, lemma_cidx_ends_b, lemma_blen_ends_b, lemma_blen_ascii_b, lemma_sreplace_ascii, lemma_sreplace1_ascii, lemma_add_ascii, lemma_take_ascii, lemma_cidx_ascii_b }
pub broadcast proof fn lemma_cidx_len(s: Seq<char>)
    ensures #[trigger] cidx(s, blen(s)) == s.len()
{ lemma_blen_split(s, s.len() as int); assert(s.take(s.len() as int) =~= s); }
pub broadcast proof fn lemma_cidx_0(s: Seq<char>)
    ensures #[trigger] cidx(s, 0) == 0
{ reveal(cidx); }
pub broadcast proof fn lemma_cidx_last(s: Seq<char>, n: int)
    requires n == blen(s) - 1, s.len() > 0, (s.last() as u32) < 0x80
    ensures #[trigger] cidx(s, n) == s.len() - 1
{ reveal(is_ascii_seq); assert(s.skip(s.len() - 1) =~= seq![s.last()]); lemma_sends_char(s, s.last()); assert(is_ascii_seq(seq![s.last()])); lemma_cidx_ends(s, seq![s.last()], n); }
pub broadcast proof fn lemma_sends_char(s: Seq<char>, c: char)
    ensures #[trigger] sends(s, seq![c]) == (s.len() > 0 && s.last() == c)
{ if s.len() > 0 { if s.last() == c { assert(s.skip(s.len() - 1) =~= seq![c]); } assert(s.skip(s.len() - 1)[0] == s.last()); } }
pub broadcast proof fn lemma_sstarts_char(s: Seq<char>, c: char)
    ensures #[trigger] sstarts(s, seq![c]) == (s.len() > 0 && s[0] == c)
{ if s.len() > 0 { if s[0] == c { assert(s.take(1) =~= seq![c]); } assert(s.take(1)[0] == s[0]); } }
pub broadcast proof fn lemma_drop_last<T>(s: Seq<T>, n: int)
    requires n == s.len() - 1, s.len() > 0
    ensures #[trigger] s.take(n) == s.drop_last()
{ assert(s.take(n) =~= s.drop_last()); }
pub broadcast proof fn lemma_scontains_char(s: Seq<char>, c: char)
    ensures #[trigger] scontains(s, seq![c]) == s.contains(c)
    decreases s.len()
{
    reveal_with_fuel(scontains, 2);
    if s.len() > 0 {
        lemma_scontains_char(s.skip(1), c);
        assert(s.take(1)[0] == s[0]);
        if s[0] == c { assert(s.take(1) =~= seq![c]); assert(s.contains(c)); }
        else {
            assert(s.take(1) != seq![c]) by { assert(seq![c][0] == c); }
            if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(s.skip(1)[i - 1] == c); assert(s.skip(1).contains(c)); }
            if s.skip(1).contains(c) { let i = choose|i: int| 0 <= i < s.skip(1).len() && s.skip(1)[i] == c; assert(s[i + 1] == c); }
        }
    }
}
pub broadcast group vx_seq {
    lemma_blen_bound, lemma_cidx_starts, lemma_cidx_ends, lemma_blen_ends, lemma_cidx_len, lemma_senum_skip, lemma_cidx_first, lemma_blen_1, lemma_sends_last, lemma_cidx_0, lemma_cidx_last, lemma_sends_char, lemma_sstarts_char, lemma_drop_last, lemma_scontains_char,
    lemma_take_update, lemma_take_0, lemma_skip_0, lemma_take_all, lemma_skip_all, lemma_skip_skip, lemma_add_empty, lemma_empty_add, lemma_singleton_push,
}
}
pub use vx_lem::*;
broadcast use {vx_lem::vx_seq, vx_core::vx_eqs};
