@use prelude/fmt.rs prelude/regex.rs spec/bm_ctx.rs proof/bm_regex.rs
@file src/beider_morse/mod.rs
@skip BMError
@file src/beider_morse/regex_optim.rs
@text
impl OptimizedRegex {
    pub open spec fn cv(&self) -> BmCtx {
        match self {
            OptimizedRegex::AllStringsMatcher => BmCtx::All,
            OptimizedRegex::IsEmpty => BmCtx::Empty,
            OptimizedRegex::Equals(s) => BmCtx::Is(s@),
            OptimizedRegex::StartsWith(s) => BmCtx::Starts(s@),
            OptimizedRegex::EndsWith(s) => BmCtx::Ends(s@),
            OptimizedRegex::EqualsChar(s, b) => BmCtx::OneOf(s@, *b),
            OptimizedRegex::StartsWithChar(s, b) => BmCtx::StartsOneOf(s@, *b),
            OptimizedRegex::EndsWithChar(s, b) => BmCtx::EndsOneOf(s@, *b),
        }
    }
}
@trait IsMatch
    spec fn imv(&self) -> BmCtx;
@fn IsMatch::is_match
    ensures r == bm_ctx(self.imv(), input@)
@trait OptimizedRegex:IsMatch
    open spec fn imv(&self) -> BmCtx { self.cv() }
@fn OptimizedRegex::is_match
@start
    broadcast use lemma_starts_blen, lemma_blen_ends_b;
    proof { assert(self.imv() == self.cv()); match self { OptimizedRegex::StartsWith(p) => { if sstarts(input@, p@) { lemma_starts_blen(input@, p@); } } OptimizedRegex::EndsWith(p) => { if sends(input@, p@) { lemma_blen_ends_b(input@, p@); } } _ => { } } }
@trait Either:IsMatch
    open spec fn imv(&self) -> BmCtx { match self { Either::Left(r) => BmCtx::Rx(r.rv()), Either::Right(o) => o.cv() } }
@fn Either::is_match
@trait OptimizedRegex:FromStr
    open spec fn from_str_spec(s: Seq<char>, r: Result<Self, ()>) -> bool { match bm_simple(s) { Some(c) => r is Ok && (r->Ok_0).cv() == c, None => r is Err } }
@fn OptimizedRegex::from_str
@start
    let ghost vx_c = bm_core(regex@);
    proof { lemma_byte_ends(regex@); lemma_sfind_char(regex@, '['); lemma_byte_ends(vx_c); lemma_sends_ch(regex@, '$'); lemma_sends_ch(vx_c, ']'); lemma_sstarts_ch(regex@, '^'); lemma_sstarts_ch(vx_c, '['); }
@before let boxes
    assert(content@ =~= vx_c);
