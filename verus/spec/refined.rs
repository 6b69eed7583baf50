pub open spec fn refined_us() -> Seq<char> { seq!['0', '1', '3', '6', '0', '2', '4', '0', '0', '4', '3', '7', '8', '8', '0', '1', '5', '9', '3', '6', '0', '2', '0', '5', '0', '5'] }
// the code of a letter, or nothing for a letter outside A-Z
pub open spec fn refined_code(m: Seq<char>, c: char) -> Option<char> {
    if is_AZ(c) { Some(m[(c as u32) as int - 65]) } else { None }
}
pub open spec fn refined_rest(m: Seq<char>, code: Seq<char>, prev: Option<char>, s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { code }
    else {
        match refined_code(m, s[0]) {
            Some(d) => refined_rest(m, if Some(d) == prev { code } else { code.push(d) }, Some(d), s.skip(1)),
            None => refined_rest(m, code, None, s.skip(1)),
        }
    }
}
pub open spec fn refined(m: Seq<char>, s: Seq<char>) -> Seq<char> {
    if clean(s).len() == 0 { clean(s) } else { refined_rest(m, S!("").push(clean(s)[0]), None, clean(s)) }
}
