@file src/beider_morse/lang.rs
@text
impl LangRule { pub open spec fn gv(&self) -> BmGuess { BmGuess { rx: self.pattern.rv(), langs: self.languages@, accept: self.accept_on_match } } }
pub open spec fn guesses(v: Seq<LangRule>) -> Seq<BmGuess> { smap(v, |r: LangRule| r.gv()) }
impl Lang { pub open spec fn gv(&self) -> Seq<BmGuess> { guesses(self.rules@) } }
