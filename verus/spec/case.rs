// the same text up to the case of ASCII letters
// verus-only-begin
pub open spec fn case_same(a: Seq<char>, b: Seq<char>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> alow(#[trigger] a[i]) == alow(b[i]) }
// verus-only-end
// the case mappings of a text, from those of its characters
pub open spec fn case_up(s: Seq<char>) -> Seq<char> { sflatten(smap(s, |c: char| upper(c))) }
