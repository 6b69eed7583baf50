pub open spec fn languages_name(n: int) -> OsText { os_of(bm_name_text(n) + S!("_languages.txt")) }
pub open spec fn lang_name(n: int) -> OsText { os_of(bm_name_text(n) + S!("_lang.txt")) }
pub open spec fn listed(d: OsText, n: int) -> bool { 0 <= n < 3 && fs_list(d) is Some && (fs_list(d)->0).contains(languages_name(n)) }
/// the languages of the name types of a directory
pub open spec fn dir_languages(d: OsText) -> Map<int, Set<Seq<char>>> {
    Map::new(set![0int, 1, 2].filter(|n: int| listed(d, n)), |n: int| bm_languages(fs_text(path_join(d, languages_name(n)))->0, 1, Set::empty())->Ok_0)
}
pub broadcast proof fn lemma_name_texts(n: int, m: int)
    requires 0 <= n < 3, 0 <= m < 3, #[trigger] languages_name(n) == #[trigger] languages_name(m)
    ensures n == m
{
    broadcast use axiom_os_of;
    let t = S!("_languages.txt");
    assert((bm_name_text(n) + t)[0] == bm_name_text(n)[0]); assert((bm_name_text(m) + t)[0] == bm_name_text(m)[0]);
}
/// the languages of the built-in configuration
pub open spec fn embedded_languages() -> Map<int, Set<Seq<char>>> { Map::new(set![0int, 1, 2], |n: int| set![S!("any")]) }
