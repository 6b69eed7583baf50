@file src/lib.rs
@trait Encoder
    spec fn enc(&self, s: Seq<char>) -> Seq<char>;
    spec fn enc_ok(&self) -> bool;
@fn Encoder::encode
    requires self.enc_ok()
    ensures r@ == self.enc(s@)
@fn Encoder::is_encoded_equals
    requires self.enc_ok()
    ensures r == (self.enc(first@) == self.enc(second@))
