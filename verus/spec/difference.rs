// number of positions at which two codes have the same character
pub open spec fn agree(a: Seq<char>, b: Seq<char>) -> int
    decreases a.len()
{
    if a.len() == 0 || b.len() == 0 { 0 } else { agree(a.skip(1), b.skip(1)) + if a[0] == b[0] { 1int } else { 0int } }
}
