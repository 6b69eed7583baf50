pub open spec fn dm_ok(r: DoubleMetaphoneResult) -> bool {
    is_ascii_seq(r.primary@) && is_ascii_seq(r.alternate@) && (match r.max_length { Some(m) => r.primary@.len() <= m && r.alternate@.len() <= m, None => true })
}
pub open spec fn dm_pos(w: Seq<char>, i: isize) -> bool { 0 <= i < w.len() <= MAXLEN() }
pub open spec fn dm_did(old: DoubleMetaphoneResult, new: DoubleMetaphoneResult, t: (Seq<char>, Seq<char>, int), r: int) -> bool {
    dm_ok(new) && new.max_length == old.max_length && new.primary@ == dm_cut(old.max_length, old.primary@ + t.0) && new.alternate@ == dm_cut(old.max_length, old.alternate@ + t.1) && r == t.2
}
pub mod vx_dm {
use super::*;
pub broadcast proof fn lemma_dm_push(a: Seq<char>, c: char)
    ensures #[trigger] (a + seq![c]) == a.push(c)
{ assert(a + seq![c] =~= a.push(c)); }
pub broadcast proof fn lemma_dm_push_ascii(a: Seq<char>, c: char)
    requires is_ascii_seq(a), (c as u32) < 0x80
    ensures #[trigger] is_ascii_seq(a.push(c))
{ reveal(is_ascii_seq); }
pub broadcast proof fn lemma_dm_single_ascii(c: char)
    requires (c as u32) < 0x80
    ensures #[trigger] is_ascii_seq(seq![c])
{ reveal(is_ascii_seq); }
pub broadcast proof fn lemma_dm_empty_ascii()
    ensures #[trigger] is_ascii_seq(Seq::<char>::empty())
{ reveal(is_ascii_seq); }
pub broadcast proof fn lemma_dm_has_in(w: Seq<char>, i: int, t: Seq<char>)
    ensures #[trigger] dm_has(w, i, t) ==> 0 <= i && i + t.len() <= w.len()
{ reveal(dm_has); }
pub broadcast proof fn lemma_dm_has_char(w: Seq<char>, i: int, t: Seq<char>)
    requires t.len() == 1
    ensures #[trigger] dm_has(w, i, t) == dm_is(w, i, t[0])
{ reveal(dm_has); if 0 <= i < w.len() { assert(w.subrange(i, i + 1) =~= seq![w[i]]); if w[i] == t[0] { assert(t =~= seq![w[i]]); } } }
pub proof fn lemma_dm_target(w: Seq<char>, start: int, length: int)
    requires length > 0
    ensures ({ let t = dm_target(w, start, length);
        forall|c: Seq<char>| c.len() == length ==> #[trigger] dm_has(w, start, c) == (start >= 0 && t.len() == length && c == t) })
{
    reveal(dm_has);
    let t = dm_target(w, start, length);
    if start >= 0 && start + length <= w.len() { assert(t =~= w.subrange(start, start + length)); }
}
pub open spec fn dm_target(w: Seq<char>, start: int, length: int) -> Seq<char> {
    let r = w.skip(if start <= w.len() { start } else { w.len() as int });
    r.take(if length <= r.len() { length } else { r.len() as int })
}
pub broadcast group dm_append { lemma_dm_has_in, lemma_dm_has_char, lemma_dm_push, lemma_dm_push_ascii, lemma_dm_single_ascii, lemma_dm_empty_ascii, lemma_add_ascii, lemma_take_ascii, lemma_blen_ascii_b, lemma_cidx_ascii_b }
}
pub use vx_dm::*;
