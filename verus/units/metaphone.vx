@use spec/clean.rs spec/metaphone.rs proof/metaphone.rs
@include encoder.vx
@include helper_vowel.vx
@file src/metaphone.rs
@trait Metaphone:Encoder
    open spec fn enc(&self, s: Seq<char>) -> Seq<char> { metaphone(self.max_code_length, s) }
    open spec fn enc_ok(&self) -> bool { true }
@fn Metaphone::new
    ensures r.max_code_length == max_code_length
@trait Metaphone:Default
    open spec fn default_spec(r: Self) -> bool { r.max_code_length == Some(4usize) }
@fn Metaphone::default
@fn Metaphone::is_vowel
    ensures r == meta_vowel_at(text@, index as int)
@fn Metaphone::is_previous_char
    ensures r == meta_is(text@, index - 1, ch)
@fn Metaphone::is_next_char
    requires index < usize::MAX
    ensures r == meta_is(text@, index + 1, ch)
@fn Metaphone::region_match
    requires index <= text@.len(), index <= MAXLEN()
    ensures r == meta_region(text@, index as int, test@)
@start
    broadcast use meta_group;
@loop 0
    invariant_except_break
        vx_acc0,
        meta_region(text@, index as int, test@) == sstarts(remains.rest(), vx_it0.rest()),
    invariant
        vx_it0.rest() == test@.skip(test@.len() - vx_it0.rest().len()), vx_it0.rest().len() <= test@.len(),
    ensures vx_acc0 == meta_region(text@, index as int, test@)
    decreases vx_it0.rest().len()
@fn Metaphone::is_last_char
    requires n < usize::MAX
    ensures r == (n + 1 == wdsz)
@fn Metaphone::encode
@start
    broadcast use meta_group;
@loop 0
    invariant_except_break
        vx_it0.rest() == senum(local@.len() - vx_it0.rest().len(), local@.skip(local@.len() - vx_it0.rest().len())),
        meta_rest(self.max_code_length, local@, local@.len() - vx_it0.rest().len(), skip as int, code@) == metaphone(self.max_code_length, vx_value@),
    invariant
        wdsz == local@.len(), local@.len() <= MAXLEN(),
        vx_it0.rest().len() <= local@.len(),
        0 <= skip <= 2,
        is_ascii_seq(code@),
    ensures
        code@ == metaphone(self.max_code_length, vx_value@),
    decreases vx_it0.rest().len()
@loopstart 0
    proof { assert(index == local@.len() - vx_it0.rest().len() - 1); assert(symb == local@[index as int]); }
@before if symb == 'C' || !Metaphone
    let ghost vx_c0 = code@;
    proof { if symb == 'G' { lemma_meta_gn(local@, index as int); } }
@after if symb == 'C' || !Metaphone
    proof { assert(skip == meta_skip(local@, index as int)); assert(code@ =~= vx_c0 + meta_adds(local@, index as int)); assert(is_ascii_seq(code@)) by { reveal(is_ascii_seq); assert(is_ascii_seq(vx_c0)); } }
