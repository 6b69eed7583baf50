// A context of a Beider-Morse rule: what it asks of the text beside the pattern
//#rust #[derive(Clone, Copy)]
pub enum BmCtx { All, Empty, Is(Seq<char>), Starts(Seq<char>), Ends(Seq<char>), OneOf(Seq<char>, bool), StartsOneOf(Seq<char>, bool), EndsOneOf(Seq<char>, bool), Rx(Seq<char>) }
pub open spec fn bm_ctx(c: BmCtx, s: Seq<char>) -> bool {
    match c {
        BmCtx::All => true,
        BmCtx::Empty => s.len() == 0,
        BmCtx::Is(t) => s == t,
        BmCtx::Starts(t) => sstarts(s, t),
        BmCtx::Ends(t) => sends(s, t),
        BmCtx::OneOf(l, b) => s.len() == 1 && l.contains(s[0]) == b,
        BmCtx::StartsOneOf(l, b) => s.len() > 0 && l.contains(s[0]) == b,
        BmCtx::EndsOneOf(l, b) => s.len() > 0 && l.contains(s.last()) == b,
        BmCtx::Rx(p) => rx_match(p, s),
    }
}
// what is between the anchors ^ and $ of an expression
pub open spec fn bm_core(e: Seq<char>) -> Seq<char> {
    let a = if sstarts(e, seq!['^']) { e.skip(1) } else { e };
    if sends(e, seq!['$']) { a.drop_last() } else { a }
}
// the contexts that need no regular expression: anchored plain texts and anchored lists [...] or [^...]
pub open spec fn bm_simple(e: Seq<char>) -> Option<BmCtx> {
    let (start, end, c) = (sstarts(e, seq!['^']), sends(e, seq!['$']), bm_core(e));
    if !e.contains('[') {
        if start && end { Some(if c.len() == 0 { BmCtx::Empty } else { BmCtx::Is(c) }) }
        else if !start && !end { None }
        else if c.len() == 0 { Some(BmCtx::All) }
        else if start { Some(BmCtx::Starts(c)) }
        else { Some(BmCtx::Ends(c)) }
    } else if c.len() >= 2 && c[0] == '[' && c.last() == ']' && !c.subrange(1, c.len() - 1).contains('[') {
        let l = c.subrange(1, c.len() - 1);
        let (list, b) = if sstarts(l, seq!['^']) { (l.skip(1), false) } else { (l, true) };
        if start && end { Some(BmCtx::OneOf(list, b)) } else if start { Some(BmCtx::StartsOneOf(list, b)) } else if end { Some(BmCtx::EndsOneOf(list, b)) } else { None }
    } else { None }
}
pub open spec fn bm_read_ctx(e: Seq<char>) -> BmCtx { match bm_simple(e) { Some(c) => c, None => BmCtx::Rx(e) } }
// left contexts end at the pattern, right contexts begin after it
pub open spec fn bm_left(e: Seq<char>) -> BmCtx { bm_read_ctx(e + S!("$")) }
pub open spec fn bm_right(e: Seq<char>) -> BmCtx { bm_read_ctx(S!("^") + e) }
