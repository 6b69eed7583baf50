pub mod vx_meta {
use super::*;
pub broadcast proof fn lemma_add_push<T>(a: Seq<T>, b: Seq<T>, x: T)
    ensures #[trigger] (a + b.push(x)) == (a + b).push(x)
{ assert((a + b.push(x)) =~= (a + b).push(x)); }
pub broadcast proof fn lemma_sstarts_step(r: Seq<char>, t: Seq<char>)
    requires r.len() > 0, t.len() > 0
    ensures #[trigger] sstarts(r.skip(1), t.skip(1)) == (sstarts(r, t) || (r[0] != t[0] && sstarts(r.skip(1), t.skip(1)))), sstarts(r, t) ==> r[0] == t[0]
{
    if sstarts(r, t) { assert(r.take(t.len() as int)[0] == t[0]); assert(r.skip(1).take(t.len() - 1) =~= r.take(t.len() as int).skip(1)); }
    if r[0] == t[0] && sstarts(r.skip(1), t.skip(1)) {
        assert forall|i: int| 0 <= i < t.len() implies r[i] == t[i] by { if i > 0 { assert(r.skip(1).take(t.len() - 1)[i - 1] == t.skip(1)[i - 1]); } }
        assert(r.take(t.len() as int) =~= t);
    }
}
pub broadcast proof fn lemma_cidx_two(s: Seq<char>, n: int)
    requires n == 2, s.len() >= 2, (s[0] as u32) < 0x80, (s[1] as u32) < 0x80
    ensures #[trigger] cidx(s, n) == 2
{ lemma_cidx_ascii(s, 2); }
pub broadcast proof fn lemma_push_ascii(s: Seq<char>, c: char)
    requires is_ascii_seq(s), (c as u32) < 0x80
    ensures #[trigger] is_ascii_seq(s.push(c))
{ reveal(is_ascii_seq); }
pub broadcast proof fn lemma_empty_ascii()
    ensures #[trigger] is_ascii_seq(Seq::<char>::empty())
{ reveal(is_ascii_seq); }
pub broadcast group meta_group { lemma_add_push, lemma_sstarts_step, lemma_cidx_two, lemma_push_ascii, lemma_empty_ascii, vx_lem::lemma_take_ascii, vx_lem::lemma_blen_ascii_b, vx_lem::lemma_cidx_ascii_b }
}
pub use vx_meta::*;
pub proof fn lemma_meta_gn(w: Seq<char>, i: int)
    requires 0 <= i < w.len(), w[i] == 'G'
    ensures (meta_region(w, i, seq!['G', 'N']) || meta_region(w, i, seq!['G', 'N', 'E', 'D'])) == meta_is(w, i + 1, 'N')
{
    let s = w.skip(i);
    if sstarts(s, seq!['G', 'N', 'E', 'D']) { assert(s.take(4)[1] == s[1]); assert(s.take(4)[1] == 'N'); }
    if sstarts(s, seq!['G', 'N']) { assert(s.take(2)[1] == s[1]); assert(s.take(2)[1] == 'N'); }
    if meta_is(w, i + 1, 'N') { assert(s.take(2) =~= seq!['G', 'N']); }
}
