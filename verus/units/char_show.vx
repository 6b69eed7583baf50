@use prelude/fmt.rs spec/char_sequence.rs proof/char_sequence.rs
@include char_sequence.vx
@file src/helper.rs
@trait CharSequence:Display
    open spec fn shv(&self) -> Seq<char> { self.inner@ }
@fn CharSequence::fmt
@ret VxFmtResult
