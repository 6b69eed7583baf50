// letters only, upper-cased
pub open spec fn clean(s: Seq<char>) -> Seq<char> {
    sflatten(smap(sfilter(s, |c: char| is_alpha(c)), |c: char| upper(c)))
}
pub open spec fn is_vowel_spec(c: char, y: bool) -> bool { one_of(c, "aeiou") || (y && c == 'y') }
