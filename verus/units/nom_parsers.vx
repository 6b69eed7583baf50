@file src/rules_parser.rs
@fn multiline_comment
    ensures forall|s: Seq<char>| match #[trigger] r.pf(s) { None => p_comment(s) is None, Some(p) => p_comment(s) is Some && (p_comment(s)->0).1 == p.1 && p.0 == (p_comment(s)->0).0 as usize }
@start
    broadcast use vx_rules_text;
    assert(vx_hint(nom_lines()));
@closure 0 |vx_c: (&str, &str, &str)| -> (vx_r: usize)
    ensures vx_r == p_lines(vx_c.1@), vx_r.vv() == nom_lines()(vx_c.vv())
@fn eol_comment
    ensures forall|s: Seq<char>| #[trigger] r.pf(s) == (if sstarts(s, seq!['/', '/']) { Some(((), s.skip(2).skip(sspan(s.skip(2), nom_none_of(seq!['\n']))))) } else { None })
@start
    broadcast use vx_rules_text;
@fn boolean_true
    ensures forall|s: Seq<char>| #[trigger] r.pf(s) == (if sstarts(s, seq!['t', 'r', 'u', 'e']) { Some((true, s.skip(4))) } else { None })
@start
    assert(vx_hint(nom_some(true)));
@fn boolean_false
    ensures forall|s: Seq<char>| #[trigger] r.pf(s) == (if sstarts(s, seq!['f', 'a', 'l', 's', 'e']) { Some((false, s.skip(5))) } else { None })
@start
    assert(vx_hint(nom_some(false)));
@fn end_of_line
    ensures forall|s: Seq<char>| match #[trigger] r.pf(s) { None => p_eol(s) is None, Some(p) => p_eol(s) == Some(p.1) }
@start
    broadcast use vx_rules_text;
@fn part
    ensures forall|s: Seq<char>| #[trigger] r.pf(s) == p_part(s)
@start
    broadcast use vx_rules_text;
@fn quadruplet
    ensures forall|s: Seq<char>| #[trigger] r.pf(s) == p_quad(s)
@start
    broadcast use vx_rules_text;
@fn folding
    ensures forall|s: Seq<char>| #[trigger] r.pf(s) == p_fold(s)
@fn lang
    ensures forall|s: Seq<char>| #[trigger] r.pf(s) == p_lang(s)
@start
    broadcast use vx_rules_text;
    assert(vx_hint(nom_is_space()));
@fn include
    ensures forall|s: Seq<char>| #[trigger] r.pf(s) == p_include(s)
@start
    broadcast use vx_rules_text;
    assert(vx_hint(nom_is_name()));
@fn language
    ensures forall|s: Seq<char>| #[trigger] r.pf(s) == p_language(s)
@start
    broadcast use vx_rules_text;
