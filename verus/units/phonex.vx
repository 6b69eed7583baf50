@use spec/clean.rs spec/phonex.rs
@include encoder.vx
@include clean.vx
@include helper_vowel.vx
@file src/phonex.rs
@trait Phonex:Encoder
    open spec fn enc(&self, s: Seq<char>) -> Seq<char> { phonex(self.max_code_length as int, s) }
    open spec fn enc_ok(&self) -> bool { self.max_code_length <= isize::MAX }
@fn Phonex::new
    ensures r.max_code_length == max_code_length
@fn Phonex::is_vowel
    ensures r == phonex_vowel(c)
@fn Phonex::transcode
    ensures r.0 == phonex_digit(curr, next, is_last_char), r.1 == phonex_skips(curr, next)
@fn Phonex::preprocess
    ensures r@ == phonex_pre(value@)
@loop 0
    invariant strip_s(input@) == strip_s(clean(vx_value@))
    ensures input@ == strip_s(clean(vx_value@))
    decreases input@.len()
@fn Phonex::encode
@loop 0
    invariant
        chars.rest().len() <= input@.len() <= MAXLEN(),
        chars.rest() == senum(input@.len() - chars.rest().len(), input@.skip(input@.len() - chars.rest().len())),
        phonex_rest(self.max_code_length as int, result@, code, last, last_push, input@.len() == chars.rest().len(), input@.skip(input@.len() - chars.rest().len())) == phonex(self.max_code_length as int, vx_value@)
    ensures
        pad0(result@, self.max_code_length as int) == phonex(self.max_code_length as int, vx_value@)
    decreases chars.rest().len()
@loopstart 0
    let ghost vx_k = input@.len() - chars.rest().len() - 1;
    let ghost vx_s = input@.skip(vx_k);
    let ghost vx_o = (result@, code, last, last_push);
    proof { assert(i == vx_k); assert(curr == vx_s[0]); assert(vx_s.len() == chars.rest().len() + 1); assert(vx_s.len() > 1 ==> chars.rest()[0].1 == vx_s[1]); }
@loopend 0
    proof { assert(input@.skip(input@.len() - chars.rest().len()) =~= (if phonex_skips(vx_s[0], if vx_s.len() > 1 { Some(vx_s[1]) } else { None }) { vx_s.skip(2) } else { vx_s.skip(1) })); }
@loop 1
    invariant
        pad0(result@, self.max_code_length as int) == phonex(self.max_code_length as int, vx_value@)
    ensures
        result@ == phonex(self.max_code_length as int, vx_value@)
    decreases self.max_code_length - result@.len()
@trait Phonex:Default
    open spec fn default_spec(r: Self) -> bool { r.max_code_length == 4 }
@fn Phonex::default
