@use spec/clean.rs spec/soundex.rs proof/soundex.rs spec/refined.rs spec/difference.rs proof/difference.rs
@norename difference
@include soundex.vx
@include refined.vx
@file src/lib.rs
@trait SoundexCommons
@fn SoundexCommons::difference
    requires self.enc_ok()
    ensures r == agree(self.enc(value1@), self.enc(value2@))
@loop 0
    invariant
        vx_it0.rest().len() <= MAXLEN(),
        0 <= result <= MAXLEN() - vx_it0.rest().len(),
        result + pairs_agree(vx_it0.rest()) == agree(value1@, value2@)
    ensures
        result == agree(value1@, value2@)
    decreases vx_it0.rest().len()
@beforeloop 0
    proof { lemma_pairs_agree(value1@, value2@); }
