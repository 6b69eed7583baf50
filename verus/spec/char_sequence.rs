// slicing by characters: positions beyond the end are cut to the end, an empty or reversed range gives the empty string
pub open spec fn cslice(s: Seq<char>, a: int, b: int) -> Seq<char> {
    if a >= b || a >= s.len() { Seq::empty() } else { s.subrange(a, if b <= s.len() { b } else { s.len() as int }) }
}
